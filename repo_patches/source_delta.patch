From 265fbf54614d3996e0b90ed56627c971269dfbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/73] fix: raise the documented errors for too precise and
 negative currency values

---
 tfchain/errors.py               | 2 +-
 tfchain/types/PrimitiveTypes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..9187291 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
-- 
2.43.0


From e07a3dcc669828a1169fe7e5b5d170cb132a6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 02/73] fix: subtract a currency from a number in the right
 operand order

---
 tfchain/types/PrimitiveTypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 9187291..e8a56f8 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -257,7 +257,9 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        return Currency._op_other_as_currency(other) - self
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 588e8591681a56300b5c4da200c262ea1a36b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 03/73] fix: decode an empty or undefined JSON currency as zero

---
 tfchain/types/PrimitiveTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index e8a56f8..52132c4 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -192,9 +192,9 @@ class Currency(BaseDataTypeClass):
         if obj is not None and not isinstance(obj, str):
             raise TypeError(
                 "currency is expected to be a string when part of a JSON object, not type {}".format(type(obj)))
-        if obj == '':
-            obj = None
         c = cls()
+        if obj in (None, ''):
+            return c
         c.value = Decimal(obj) * Decimal('0.000000001')
         return c
 
-- 
2.43.0


From e92f1378a9f95fe47cae23b559a9baf34562a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 04/73] fix: encode the transaction version as a plain integer
 in JSON

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..df339b7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': int(self.version)}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From 442bd90c4e92401069b7476e2f3b5a829d134433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 05/73] fix: bound block stake output ids by the block stake
 outputs

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index df339b7..2701658 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -228,7 +228,7 @@ class TransactionBaseClass(ABC):
         """
         Compute the ID of a Coin Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
+        if index < 0 or index >= len(self.blockstake_outputs):
             raise ValueError("coin output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
-- 
2.43.0


From cb24c4e3a6665295958ddb61b3e60aecf5323876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 06/73] fix: require block stake inputs to be signed for a
 fulfilled transaction

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 2701658..0b72cc3 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -297,7 +297,7 @@ class TransactionBaseClass(ABC):
         """
         return reduce(
             (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            self.coin_inputs + self.blockstake_inputs, self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From 5fb73dece14dc7f21f6b3dad80ad11d4779a9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 07/73] fix: do not take an undefined block stake parent output
 as a nil one

---
 tfchain/types/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
-- 
2.43.0


From 033a920ae0018ee731619b5204f02a6e2305b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 08/73] fix: length-prefix an assigned 3Bot update, name
 transfer or ERC20 registration signature, as a decoded one

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..24bf427 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..40e1400 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -683,7 +683,7 @@ class TransactionV145(BotTransactionBaseClass):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1049,7 +1049,7 @@ class TransactionV146(BotTransactionBaseClass):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
@@ -1061,7 +1061,7 @@ class TransactionV146(BotTransactionBaseClass):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From d74e85abbd86e964552004dc566e9c1f97283764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 09/73] fix: treat an empty JSON signature as a missing
 signature

---
 tfchain/types/FulfillmentTypes.py      | 6 +++---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..5f04fff 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -284,7 +284,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self.signature = data['signature'] or None
 
     def json_data_object(self):
         return {
@@ -413,7 +413,7 @@ class PublicKeySignaturePair(BaseDataTypeClass):
     def from_json(cls, obj):
         return cls(
             public_key=PublicKey.from_json(obj['publickey']),
-            signature=ED25519Signature.from_json(obj['signature']))
+            signature=obj['signature'] or None)
 
     @property
     def public_key(self):
@@ -527,7 +527,7 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self.signature = data['signature'] or None
         self._secret = None
         if 'secret' in data:
             self._secret = AtomicSwapSecret.from_json(data['secret'])
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 24bf427..89613c7 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -624,7 +624,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._public_key = None
         # decode signature
         if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
+            self.signature = data['signature'] or None
         else:
             self._signature = None
         # decode registration fee
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 40e1400..114d207 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -398,7 +398,7 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self.signature = identification['signature'] or None
 
     def _json_data_object(self):
         output = {
@@ -818,7 +818,7 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        self.signature = data.get('signature', None) or None
 
     def _json_data_object(self):
         output = {
@@ -1187,7 +1187,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self.sender_signature = bot_data.get('signature', None) or None
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1195,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self.receiver_signature = bot_data.get('signature', None) or None
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From 5b4cc049251061089674e8789386db004bc24ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 10/73] fix: JSON-encode a 3Bot registration that is not signed
 yet

---
 tfchain/types/transactions/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 114d207..3c6c5bf 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
-- 
2.43.0


From 373f43f56fc501241930b74096634cbba6f7cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 11/73] fix: assign the names of a 3Bot name transfer instead
 of appending to them

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 3c6c5bf..3ae7b68 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1006,7 +1006,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 1e8b178b0426d21074df8c4d5a5750e53ec3162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 12/73] fix: use no coin inputs for a new 3Bot name transfer
 and ERC20 address registration

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 89613c7..ddae4e6 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -417,7 +417,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 3ae7b68..6fb7b05 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -889,7 +889,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
-- 
2.43.0


From 7e3d35f167fc4bb6a79edb18ff6cb3137c6b1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 13/73] fix: copy a BotName and NetworkAddress from another one

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..263c82e 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = value._address
             self._type = value._type
         else:
             raise TypeError(
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From 32c619dda7afbe5d64be179ce2d983645dcbcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 14/73] fix: reject a 3Bot name and hostname followed by a
 newline

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 263c82e..57c8292 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -98,7 +98,7 @@ class NetworkAddress(BaseDataTypeClass):
             return self.value
 
     HOSTNAME_REGEXP = re.compile(
-        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})$')
+        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})\Z')
     HOSTNAME_LENGTH_MAX = 63
 
     def __init__(self, address=None, network_type=None):
@@ -212,7 +212,7 @@ NetworkAddress.Type.IPV6 = NetworkAddress.Type(2)
 
 class BotName(BaseDataTypeClass):
     REGEXP = re.compile(
-        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*$')
+        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*\Z')
     LENGTH_MAX = 63
 
     def __init__(self, value=None):
-- 
2.43.0


From 438613b9ac5ae7aa32997f536e8228c6ea12a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 15/73] fix: request the signature of an unsigned fulfillment
 also if its public key is defined

---
 tfchain/types/FulfillmentTypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 5f04fff..656144b 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -305,7 +305,8 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
         unlockhash = parent_condition.unlockhash
-        if str(unlockhash) == str(self.public_key.unlockhash):
+        if self._signature is not None and (
+                unlockhash.type == UnlockHashType.NIL or str(unlockhash) == str(self.public_key.unlockhash)):
             return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
-- 
2.43.0


From 5380e25706af7f3d1a252fc5214d98bee65b733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 16/73] fix: request the signature of a repeated
 multi-signature owner only once

---
 tfchain/types/FulfillmentTypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 656144b..15fdf2e 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -390,6 +390,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         # create a signature hash for all signees that haven't signed yet
         for unlockhash in parent_condition.unlockhashes:
             if str(unlockhash) not in signed:
+                signed.append(str(unlockhash))
                 requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
-- 
2.43.0


From e89b962d3c39a3d6b64c13d109a1ef6f2e6338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 17/73] fix: request only the signature of the party that
 claims the atomic swap

---
 tfchain/types/FulfillmentTypes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 15fdf2e..f637ed6 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -555,17 +555,17 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
         requests = []
-        signee = str(self.public_key.unlockhash)
+        if self._signature is not None:
+            return requests
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
             if self._secret is not None:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
-        # create a signature hash for all signees that haven't signed yet
-        for unlockhash in [parent_condition.sender, parent_condition.receiver]:
-            if str(unlockhash) != signee:
-                requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
+        # the receiver redeems with the secret, the sender is refunded without it
+        unlockhash = parent_condition.sender if self._secret is None else parent_condition.receiver
+        requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
     def is_fulfilled(self, parent_condition):
-- 
2.43.0


From 705f12a5a349f8fcbe289bf421922eed7ed9030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 18/73] fix: keep the identifiers of the coin output of an
 ERC20 coin creation

---
 tfchain/types/transactions/ERC20.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index ddae4e6..63a5d13 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = None
 
         super().__init__()
 
@@ -323,7 +324,11 @@ class TransactionV209(TransactionBaseClass):
         A singleton, containing the ERC20-converted TFT coins.
         """
         condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        if self._coin_output is None:
+            self._coin_output = CoinOutput()
+        self._coin_output.value = self.value
+        self._coin_output.condition = condition
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From d12b3788fbdcd74520cc63df6ae5f0b0720a3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 19/73] fix: encode a nil unlock hash with its 32 zero bytes

---
 tfchain/types/ConditionTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..30fcd8a 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -346,7 +346,7 @@ class UnlockHash(BaseDataTypeClass):
         return self._hash
     @hash.setter
     def hash(self, value):
-        self._hash.value = value
+        self._hash.value = value or bytes(UnlockHash._HASH_SIZE)
 
     def __str__(self):
         checksum = self._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
-- 
2.43.0


From 07fe8ab9907ae1f7f414d24bb058dc317452dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 20/73] fix: reject address texts that differ from the address
 they decode to

---
 tfchain/types/ConditionTypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 30fcd8a..94a1e71 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -322,6 +322,11 @@ class UnlockHash(BaseDataTypeClass):
             expectedNH = b'\x00'*UnlockHash._HASH_SIZE
             if h.value != expectedNH:
                 raise ValueError("unexpected nil hash {}".format(h.value.hex()))
+        if str(uh)[:-UnlockHash._CHECKSUM_SIZE_HEX] != obj[:-UnlockHash._CHECKSUM_SIZE_HEX].lower():
+            raise ValueError("invalid JSON-encoded UnlockHash {}".format(obj))
+        if t == UnlockHashType.NIL:
+            if obj[-UnlockHash._CHECKSUM_SIZE_HEX:] != '0'*UnlockHash._CHECKSUM_SIZE_HEX:
+                raise ValueError("unexpected nil checksum {}".format(obj[-UnlockHash._CHECKSUM_SIZE_HEX:]))
         else:
             expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
             checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
-- 
2.43.0


From 7b03071ea7806562235f5a9456207e248ef14cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 21/73] fix: compute the root of an empty merkle tree

---
 tfchain/crypto/merkletree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/crypto/merkletree.py b/tfchain/crypto/merkletree.py
index 1cbea49..34a83e6 100644
--- a/tfchain/crypto/merkletree.py
+++ b/tfchain/crypto/merkletree.py
@@ -54,7 +54,7 @@ class Tree:
         // Root returns the Merkle root of the data that has been pushed.
         """
         if self.head is None:
-            return sum(self.hash_func, bytearray())
+            return sum_(self.hash_func, bytearray())
 
         # // The root is formed by hashing together subTrees in order from least in
         # // height to greatest in height. The taller subtree is the first subtree in
-- 
2.43.0


From fd4a468dd874182ed964edf1be5b896c69e524db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 22/73] fix: prefix a rivine-encoded text with its length in
 bytes

---
 tfchain/encoders/rivine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..f2f496e 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,8 +170,9 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
-- 
2.43.0


From cb1c7401534aa527c35372e87ab80d99a6b5a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 23/73] fix: prefix a sia-encoded text with its length in bytes

---
 tfchain/encoders/sia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..0eaae5d 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,8 +85,9 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self.add_int(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
-- 
2.43.0


From 8f934bebfedfdcb254a39bbb42270f05c7012c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 24/73] fix: report an unexpected HTTP success status as an
 HTTP error

---
 tfchain/internal/HttpClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..132ec22 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -208,8 +208,8 @@ class Connection():
 
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
-            raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+            raise HTTPError(urllib.error.HTTPError(
+                url, resp.code, 'unexpected HTTP response status', resp.headers, resp), url)
         return resp
 
 
-- 
2.43.0


From 3e2ca7719664778b4e7d4f8902409b01f83d9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 25/73] fix: generate secrets and nonces using the random
 source of the system

---
 tfchain/internal/jsutils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..0c47c67 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -1,3 +1,4 @@
+import os
 import re
 import random
 from datetime import datetime, timedelta
@@ -35,10 +36,7 @@ def generateXCharID(x):
 
 
 def generateXByteID(x):
-    out = bytearray()
-    for _ in range(0, x):
-        out.append(generateRandomInt(0, 255))
-    return out
+    return bytearray(os.urandom(x))
 
 
 # TIME
-- 
2.43.0


From f0732c97c530b5ec23b60c4b733a1095b4d6df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 26/73] fix: find the creation and spend transaction of an
 output by its identifier

---
 tfchain/TFChainClient.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..4f1103e 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -349,24 +349,24 @@ class TFChainClient:
             lresp = len(tresp)
             if lresp not in (1, 2):
                 raise tfchain.errors.ExplorerInvalidResponse("expected one or two transactions to be returned, not {}".format(lresp), endpoint, resp)
-            # parse the transaction(s)
-            creation_txn = tresp[0]
+            # parse the transaction(s), and collect the output
+            output = None
+            creation_txn = None
             spend_txn = None
-            if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
-                    spend_txn = tresp[1]
+            for etxn in tresp:
+                txn = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
+                if hash_type == 'coinoutputid':
+                    outputs, inputs = txn.coin_outputs, txn.coin_inputs
                 else:
-                    spend_txn = creation_txn
-                    creation_txn = tresp[1]
-            creation_txn = self._transaction_from_explorer_transaction(creation_txn, endpoint=endpoint, resp=resp)
-            if spend_txn is not None:
-                spend_txn = self._transaction_from_explorer_transaction(spend_txn, endpoint=endpoint, resp=resp)
-            # collect the output
-            output = None
-            for out in (creation_txn.coin_outputs if hash_type == 'coinoutputid' else creation_txn.blockstake_outputs):
-                if str(out.id) == id:
-                    output = out
-                    break
+                    outputs, inputs = txn.blockstake_outputs, txn.blockstake_inputs
+                for out in outputs:
+                    if creation_txn is None and str(out.id) == id:
+                        output = out
+                        creation_txn = txn
+                if spend_txn is None and id in [str(ci.parentid) for ci in inputs]:
+                    spend_txn = txn
+            if lresp == 2 and spend_txn is None:
+                raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be spent by one of two transactions, but it wasn't".format(id), endpoint, resp)
             if output is None:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
             # return the output and related transaction(s)
-- 
2.43.0


From eac436c2e95b1a99feee6daf9523d37d976755cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 27/73] fix: reject a block of another height than the
 requested one

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 4f1103e..6c7cbf5 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -168,6 +168,8 @@ class TFChainClient:
                 resp = self.explorer_get(endpoint=endpoint)
                 resp = json_loads(resp)
                 resp = resp['block']
+                if int(resp['height']) != int(value):
+                    raise tfchain.errors.ExplorerInvalidResponse("expected block height '{}' not '{}'".format(value, resp['height']), endpoint, resp)
             else:
                 blockid = self._normalize_id(value)
                 endpoint = "/explorer/hashes/"+blockid
-- 
2.43.0


From b4c59b9db73f6eb3f883b47496409f9e173af7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 28/73] fix: keep the outputs of a multi-signature address that
 defines the minter

---
 tfchain/TFChainClient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 6c7cbf5..dc7e8d4 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -564,7 +564,9 @@ class ExplorerUnlockhashResult():
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
             if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
+                oc = txn.mint_condition.unwrap()
+                if balance is not None or str(oc.unlockhash) != address or not isinstance(oc, ConditionMultiSignature):
+                    continue
                 balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
-- 
2.43.0


From dd9602619a4a72b2049db0a029802830e67b4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 29/73] fix: reject a 3Bot record that does not match the
 requested identifier

---
 tfchain/TFChainClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index dc7e8d4..cd968b5 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -772,13 +772,16 @@ class TFChainThreeBotClient():
         try:
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
-            return ThreeBotRecord(
+            record = ThreeBotRecord(
                 identifier=int(record['id']),
                 names=[BotName.from_json(name) for name in record.get('names', []) or []],
                 addresses=[NetworkAddress.from_json(address) for address in record.get('addresses', []) or []],
                 public_key=PublicKey.from_json(record['publickey']),
                 expiration=int(record['expiration']),
             )
+            if identifier.lower() not in [str(record.identifier), str(record.public_key)] + [str(name).lower() for name in record.names]:
+                raise tfchain.errors.ExplorerInvalidResponse("expected the record of 3Bot '{}' not '{}'".format(identifier, record.identifier), endpoint, resp)
+            return record
         except KeyError as exc:
             # return a KeyError as an invalid Explorer Response
             raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
-- 
2.43.0


From 67a3df03cc1a46d1ae1debdaeee69b60906c681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 30/73] fix: reject ERC20 address information of another
 address than the requested one

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index cd968b5..64a48c1 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -824,6 +824,8 @@ class TFChainERC20Client():
             if not 'erc20info' in resp:
                 raise tfchain.errors.ExplorerNoContent("{} could be found but is not registered as an ERC20 withdraw address".format(str(unlockhash)), endpoint=endpoint)
             info = resp['erc20info']
+            if info['tftaddress'] != str(unlockhash):
+                raise tfchain.errors.ExplorerInvalidResponse("expected ERC20 info of address '{}' not '{}'".format(unlockhash, info['tftaddress']), endpoint, resp)
             return ERC20AddressInfo(
                 address_tft=UnlockHash.from_json(info['tftaddress']),
                 address_erc20=ERC20Address.from_json(info['erc20address']),
-- 
2.43.0


From fb7e22a4b6fb6c4bc6faceead3f09aa9e0c07b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 31/73] fix: merge the balances of the same multi-signature
 address

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..e7be6f0 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2180,10 +2180,10 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2275,7 +2275,7 @@ class WalletsBalance(WalletBalance):
         if address not in self._wallets:
             self._wallets[address] = balance
             return
-        self._wallets[address] = self._wallets[address].merge(balance)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From 7d64c1149f1043490e564e17c45bc540eece5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 32/73] fix: track a time locked multi-signature output in the
 balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e7be6f0..e1e7eec 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2227,8 +2227,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From ce1d240918165990c35a43717e264ae308ca30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 33/73] fix: accept a list of a single address text as the
 source to fund from

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e1e7eec..6a7642f 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2318,10 +2318,10 @@ class WalletsBalance(WalletBalance):
                 else:
                     raise TypeError("cannot add source addres with unsupported UnlockHashType {}".format(value.type))
             if len(source) == 1:
-                if source[0].type == UnlockHashType.PUBLIC_KEY:
-                    refund = ConditionTypes.unlockhash_new(unlockhash=source[0])
+                if value.type == UnlockHashType.PUBLIC_KEY:
+                    refund = ConditionTypes.unlockhash_new(unlockhash=value)
                 else:
-                    addr = str(source[0])
+                    addr = str(value)
                     if addr in self.wallets:
                         wallet = self.wallets[addr]
                         refund = ConditionTypes.multi_signature_new(min_nr_sig=wallet.signature_count, unlockhashes=wallet.owners)
-- 
2.43.0


From 575254eb7811a56cf07fc4c2416be87fe5f27091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 34/73] fix: list the transactions of a wallet with an unused
 address

---
 tfchain/TFChainWallet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6a7642f..ce51f1f 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,7 +239,11 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
+            try:
+                result = self._unlockhash_get(address)
+            except tfchain.errors.ExplorerNoContent:
+                # an address without activity on the chain has no transactions
+                continue
             transactions.update(result.transactions)
 
         # sort all transactions
-- 
2.43.0


From e145ad2185e5003d91a41f924afb87c11c015775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 35/73] fix: recover every used key that follows fewer unused
 keys than are scanned at once

---
 tfchain/TFChainWallet.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ce51f1f..5c9aa3d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -293,14 +293,12 @@ class TFChainWallet:
                 else:
                     self._unused_key_pairs.append(pair)
             # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
+            trailing = count - 1 - last_index
+            if trailing > 0:
+                self._unused_key_pairs = self._unused_key_pairs[:-trailing]
             # update the new key count
             self._key_count += last_index + 1
-
-            # if the last pair is not used, we can stop scanning
-            if not used_pairs[-1]:
-                break
-            # otherwise continue
+            # continue until none of the scanned pairs is used
 
         # return if we scanned new keys
         return self.key_count > key_count_start
-- 
2.43.0


From ce18caaaf3d41af2ba3ff60991d83416ff16e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 36/73] fix: scan the keys again after a scan that failed
 halfway

---
 tfchain/TFChainWallet.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 5c9aa3d..87e3c3b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -265,11 +265,12 @@ class TFChainWallet:
         key_count_start = self.key_count
         # generate the key pairs, without integrating them already
         # loop, and do this until now more are found:
+        scanned = []
         while True:
             pairs = []
             used_pairs = []
             for offset in range(count):
-                pairs.append(self._key_pair_new(integrate=False, offset=offset))
+                pairs.append(self._key_pair_new(integrate=False, offset=len(scanned)+offset))
             for pair in pairs:
                 address = str(pair.unlockhash)
                 try:
@@ -285,20 +286,21 @@ class TFChainWallet:
             if not reduce(lambda a, b: a or b, used_pairs):
                 break
 
-            last_index = 0
-            for idx, pair in enumerate(pairs):
-                if used_pairs[idx]:
-                    last_index = idx
-                    self._key_pair_add(pair, add_count=False)
-                else:
-                    self._unused_key_pairs.append(pair)
-            # remove the unused pairs that came after the last known index
-            trailing = count - 1 - last_index
-            if trailing > 0:
-                self._unused_key_pairs = self._unused_key_pairs[:-trailing]
-            # update the new key count
-            self._key_count += last_index + 1
-            # continue until none of the scanned pairs is used
+            # keep all pairs up to and including the last used one,
+            # and continue until none of the scanned pairs is used
+            while not used_pairs[-1]:
+                pairs.pop()
+                used_pairs.pop()
+            scanned.extend(zip(pairs, used_pairs))
+
+        # integrate the pairs only now, such that a failed scan has no effect
+        for pair, used in scanned:
+            if used:
+                self._key_pair_add(pair, add_count=False)
+            else:
+                self._unused_key_pairs.append(pair)
+        # update the new key count
+        self._key_count += len(scanned)
 
         # return if we scanned new keys
         return self.key_count > key_count_start
-- 
2.43.0


From c62e5cfc401699c4dbb41b9ec2912b7c51f67e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 37/73] fix: report a balance without unconfirmed outputs as a
 currency if the chain info is unknown

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 87e3c3b..7b8b267 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1970,7 +1970,7 @@ class WalletBalance(object):
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
-- 
2.43.0


From 309fe47e3af051903d33419959e944ba68ad228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 38/73] fix: do not drain outputs that cannot pay the miner fee

---
 tfchain/TFChainWallet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 7b8b267..10d27fd 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2100,7 +2100,10 @@ class WalletBalance(object):
             used_outputs = outputs[:n]
             outputs = outputs[n:] # and update our output list, so we do not double spend
             # compute amount, minus minimum fee and add our only output
-            amount = sum([co.value for co in used_outputs]) - miner_fee
+            amount = sum([co.value for co in used_outputs])
+            if amount <= miner_fee:
+                continue # these outputs are not worth more than the fee to drain them
+            amount -= miner_fee
             txn.coin_output_add(condition=recipient, value=amount)
             # add the coin inputs
             txn.coin_inputs = [CoinInput.from_coin_output(co) for co in used_outputs]
-- 
2.43.0


From 9359212eea3a405c19b2582d8e1bf8f55d34bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 39/73] fix: refuse to send a consumed coin transaction builder

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 10d27fd..474ea64 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2482,6 +2482,8 @@ class CoinTransactionBuilder():
         return self
 
     def send(self, source=None, refund=None, data=None):
+        if self._txn is None:
+            raise RuntimeError("coin transaction builder is already consumed")
         txn = self._txn
         self._txn = None
 
-- 
2.43.0


From ec4f866533d65d3760ab29e4b10382f2716ad07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 40/73] fix: do not look up anything after a transaction is
 submitted

---
 tfchain/TFChainWallet.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 474ea64..2ff9f48 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -406,13 +406,14 @@ class TFChainWallet:
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -501,8 +502,9 @@ class TFChainWallet:
         is_fulfilled = txn.is_fulfilled()
         submit = (submit and is_fulfilled)
         if submit:
-            txn.id = self._transaction_put(transaction=txn)
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
             addresses = self.addresses + balance.addresses_multisig
+            txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 if str(ci.parent_output.condition.unlockhash) in addresses:
@@ -752,9 +754,10 @@ class TFChainMinter():
 
         submit = txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance of wallet
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -1148,11 +1151,12 @@ class TFChainAtomicSwap():
         # submit if possible
         submit = submit and txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     balance.output_add(co, confirmed=False, spent=False)
@@ -1196,11 +1200,12 @@ class TFChainAtomicSwap():
         if not submit:
             raise Exception("BUG: transaction should be fulfilled at ths point, please fix or report as an isuse")
 
+        # collect the balance and addresses up front, as no lookup may fail once the transaction is submitted
+        balance = self._wallet.balance
+        addresses = self._wallet.addresses
         # assign transactionid
         txn.id = self._transaction_put(transaction=txn)
         # update balance
-        balance = self._wallet.balance
-        addresses = self._wallet.addresses
         for idx, co in enumerate(txn.coin_outputs):
             if str(co.condition.unlockhash) in addresses:
                 co.id = txn.coin_outputid_new(idx)
@@ -1443,13 +1448,14 @@ class TFChainThreeBot():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -1672,13 +1678,14 @@ class TFChainERC20():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -2534,13 +2541,14 @@ class CoinTransactionBuilder():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # collect the addresses up front, as no lookup may fail once the transaction is submitted
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._wallet._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From d0f093e4bb924df6dc595bbed06e0164a18c530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 41/73] fix: look up the chain time before an atomic swap
 contract is submitted

---
 tfchain/TFChainWallet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 2ff9f48..b6c0997 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -836,6 +836,9 @@ class TFChainAtomicSwap():
         secret = AtomicSwapSecret.random()
         secret_hash = AtomicSwapSecretHash.from_secret(secret)
 
+        # look up the chain time up front, as no lookup may fail once the contract is submitted
+        chain_time = self._chain_time
+
         # create the contract
         result = self._create_contract(
             recipient=participator, amount=amount, refund_time=refund_time,
@@ -845,7 +848,7 @@ class TFChainAtomicSwap():
         # return the contract, transaction, submission status as well as secret
         return AtomicSwapInitiationResult(
             AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True,
-                current_timestamp=self._chain_time),
+                current_timestamp=chain_time),
             secret, result.transaction, result.submitted)
 
     def participate(self, initiator, amount, secret_hash, refund_time='+24h', source=None, refund=None, data=None, submit=True):
@@ -876,12 +879,15 @@ class TFChainAtomicSwap():
         # normalize secret hash
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
 
+        # look up the chain time up front, as no lookup may fail once the contract is submitted
+        chain_time = self._chain_time
+
         # create the contract and return the contract, transaction and submission status
         result = self._create_contract(
             recipient=initiator, amount=amount, refund_time=refund_time, source=source,
             refund=refund, data=data, secret_hash=secret_hash, submit=submit)
         return AtomicSwapParticipationResult(
-            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=self._chain_time),
+            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=chain_time),
             result.transaction, result.submitted)
 
     def verify(self, outputid, amount=None, secret_hash=None, min_refund_time=None, sender=False, receiver=False, contract=None):
-- 
2.43.0


From 57b434ac935360b52cc672dd8ec0f365bed26bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 42/73] fix: refuse a 3Bot registration or update with only
 empty lists

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b6c0997..3f17792 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1286,10 +1286,10 @@ class TFChainThreeBot():
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_registration_new()
         txn.number_of_months = months
-        if names is None and addresses is None:
-            raise ValueError("at least one name or one address is to be given, none is defined")
         txn.names = names
         txn.addresses = addresses
+        if len(txn.names) == 0 and len(txn.addresses) == 0:
+            raise ValueError("at least one name or one address is to be given, none is defined")
 
         # get the fees, and fund the transaction
         balance = self._fund_txn(txn, source, refund)
@@ -1327,7 +1327,7 @@ class TFChainThreeBot():
         @param source: one or multiple addresses/unlockhashes from which to fund this coin send transaction, by default all personal wallet addresses are used, only known addresses can be used
         @param refund: optional refund address, by default is uses the source if it specifies a single address otherwise it uses the default wallet address (recipient type, with None being the exception in its interpretation)
         """
-        if months < 1 and not reduce((lambda r, v: r or (v is not None)), [names_to_add, names_to_remove, addresses_to_add, addresses_to_remove], False):
+        if months < 1 and not reduce((lambda r, v: r or (v is not None and len(v) > 0)), [names_to_add, names_to_remove, addresses_to_add, addresses_to_remove], False):
             raise ValueError("extra months is to be given or one name/address is to be added/removed, none is defined")
 
         # create the txn and fill the easiest properties already
-- 
2.43.0


From 99ddb2574fe39c895be44a745aa68456a94df43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 43/73] fix: refuse to binary encode a number with a fraction

---
 tfchain/encoders/rivine.py | 6 +++++-
 tfchain/encoders/sia.py    | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index f2f496e..7d38f0c 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -1,3 +1,5 @@
+import numbers
+
 from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange
 
 _INT_1BYTE_UPPERLIMIT = pow(2, 8) - 1
@@ -87,6 +89,8 @@ class RivineBinaryEncoder:
         if not isinstance(value, int) and not hasattr(value, '__int__'):
             raise TypeError("value is not an integer")
         ivalue = int(value)
+        if isinstance(value, numbers.Number) and ivalue != value:
+            raise TypeError("value {} is not an integer".format(value))
         if ivalue < 0:
             raise IntegerOutOfRange(
                 "integer {} is out of lower range of 0".format(ivalue))
@@ -206,7 +210,7 @@ class RivineBinaryEncoder:
         @param value: the value to be added as a single byte
         """
         if isinstance(value, int) or hasattr(value, '__int__'):
-            self.add_int8(int(value))
+            self.add_int8(value)
         else:
             if isinstance(value, str):
                 value = value.encode('utf-8')
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 0eaae5d..a9c5bc4 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -1,3 +1,5 @@
+import numbers
+
 from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange
 
 _INT_UPPERLIMIT = pow(2, 64) - 1
@@ -111,6 +113,9 @@ class SiaBinaryEncoder:
             self._data += value.to_bytes(1, byteorder='little')
         elif hasattr(value, '__int__'):
             ivalue = int(value)
+            if isinstance(value, numbers.Number) and ivalue != value:
+                raise ValueError(
+                    "value {} is not an integer".format(value))
             if ivalue < 0 or ivalue > 255:
                 raise ValueError(
                     "byte overflow: invaid value of {}".format(ivalue))
-- 
2.43.0


From 57fa1a7f5a8af81d9aeaa69fc403f009d65b7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 44/73] fix: refuse a JSON number with a fraction where an
 integer is expected

---
 tfchain/internal/jsutils.py            |  9 +++++++++
 tfchain/types/ConditionTypes.py        |  8 ++++----
 tfchain/types/transactions/ThreeBot.py | 11 ++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 0c47c67..af407da 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -673,3 +673,12 @@ def json_loads(s):
     if isinstance(s, bytes):
         s = s.decode('utf-8')
     return json.loads(s)
+
+
+def json_int(value):
+    '''
+    Get the integer of a JSON value, without truncating a number with a fraction.
+    '''
+    if isinstance(value, float):
+        raise TypeError("expected an integer, not {}".format(value))
+    return int(value)
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 94a1e71..fac0ede 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -4,7 +4,7 @@ from tfchain.encoders import encoder_rivine_get, encoder_sia_get, sia_encode, ri
 from tfchain.crypto import MerkleTree
 from tfchain.internal.jsutils import blake2_string
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
-from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID
+from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID, json_int
 
 _CONDITION_TYPE_NIL = 0
 _CONDITION_TYPE_UNLOCK_HASH = 1
@@ -607,7 +607,7 @@ class ConditionAtomicSwap(ConditionBaseClass):
         self.sender = UnlockHash.from_json(data['sender'])
         self.receiver = UnlockHash.from_json(data['receiver'])
         self.hashed_secret = AtomicSwapSecretHash(value=data['hashedsecret'])
-        self.lock_time = int(data['timelock'])
+        self.lock_time = json_int(data['timelock'])
 
     def json_data_object(self):
         return {
@@ -669,7 +669,7 @@ class ConditionLockTime(ConditionBaseClass):
         return self.condition
 
     def from_json_data_object(self, data):
-        self.lock = int(data['locktime'])
+        self.lock = json_int(data['locktime'])
         cond = from_json(obj=data['condition'])
         if cond.type not in(_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
             raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(cond.type))
@@ -744,7 +744,7 @@ class ConditionMultiSignature(ConditionBaseClass):
         self._min_nr_sig = int(value)
 
     def from_json_data_object(self, data):
-        self._min_nr_sig = int(data['minimumsignaturecount'])
+        self._min_nr_sig = json_int(data['minimumsignaturecount'])
         self._unlockhashes = []
         for uh in data['unlockhashes']:
             uh = UnlockHash.from_json(uh)
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 6fb7b05..f52da46 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -10,6 +10,7 @@ from abc import abstractmethod
 
 from tfchain.encoders import BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from tfchain.encoders import encoder_sia_get, encoder_rivine_get
+from tfchain.internal.jsutils import json_int
 
 
 class BotTransactionBaseClass(TransactionBaseClass, SignatureCallbackBase):
@@ -382,7 +383,7 @@ class TransactionV144(BotTransactionBaseClass):
     def _from_json_data_object(self, data):
         self._addresses = [NetworkAddress.from_json(address) for address in data.get('addresses', []) or []]
         self._names = [BotName.from_json(name) for name in data.get('names', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_int(data.get('nrofmonths', 0) or 0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -801,14 +802,14 @@ class TransactionV145(BotTransactionBaseClass):
         return e.data
 
     def _from_json_data_object(self, data):
-        self._botid = int(data.get('id', 0) or 0)
+        self._botid = json_int(data.get('id', 0) or 0)
         addresses = data.get('addresses', {}) or {}
         self._addresses_to_add = [NetworkAddress.from_json(address) for address in addresses.get('add', []) or []]
         self._addresses_to_remove = [NetworkAddress.from_json(address) for address in addresses.get('remove', []) or []]
         names = data.get('names', {}) or {}
         self._names_to_add = [BotName.from_json(name) for name in names.get('add', []) or []]
         self._names_to_remove = [BotName.from_json(name) for name in names.get('remove', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_int(data.get('nrofmonths', 0) or 0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -1186,7 +1187,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode sender info
         if 'sender' in data:
             bot_data = data['sender']
-            self._sender_botid = int(bot_data.get('id', 0) or 0)
+            self._sender_botid = json_int(bot_data.get('id', 0) or 0)
             self.sender_signature = bot_data.get('signature', None) or None
         else:
             self._sender_botid = None
@@ -1194,7 +1195,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode receiver info
         if 'receiver' in data:
             bot_data = data['receiver']
-            self._receiver_botid = int(bot_data.get('id', 0) or 0)
+            self._receiver_botid = json_int(bot_data.get('id', 0) or 0)
             self.receiver_signature = bot_data.get('signature', None) or None
         else:
             self._receiver_botid = None
-- 
2.43.0


From 8981b69f1dea9f29b2087754896e7df62f73d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 45/73] fix: multiply a currency by a whole number that is
 written with decimals

---
 tfchain/types/PrimitiveTypes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 52132c4..a1d3784 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -243,15 +243,22 @@ class Currency(BaseDataTypeClass):
     # operator overloading to allow currencies to be multiplied
     def __mul__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value * other.value
-        return Currency(value=value)
+        return Currency(value=Currency._product(self.value, other.value))
     __rmul__ = __mul__
 
     def __imul__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value *= other.value
+        self.value = Currency._product(self.value, other.value)
         return self
 
+    @staticmethod
+    def _product(a, b):
+        value = a * b
+        if value.as_tuple().exponent < -9:
+            # the scales of the factors add up, trailing zeros are not decimals of the product
+            value = value.normalize()
+        return value
+
     # operator overloading to allow currencies to be subtracted
     def __sub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 0d721f39be6a1897f006c5a73d8dc2fc305e79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 46/73] fix: refuse a public key text without a key

---
 tfchain/types/CryptoTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index fd56908..8ba8c2f 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -74,6 +74,8 @@ class PublicKey(BaseDataTypeClass):
         pk = cls()
         pk._specifier = PublicKeySpecifier.from_json(parts[0])
         pk._hash = Hash.from_json(parts[1])
+        if pk._specifier != PublicKeySpecifier.NIL and len(pk._hash) == 0:
+            raise ValueError("invalid JSON-encoded {}: {}".format(cls.__name__, obj))
         return pk
 
     @property
-- 
2.43.0


From c13f0f43c23b4a9468467250fb9d5571e59336d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 47/73] fix: do not take every address text that starts with
 zeros as the nil address

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 3f17792..bf020c3 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -545,7 +545,7 @@ class TFChainWallet:
         if not isinstance(unlockhash, (str, UnlockHash)):
             raise TypeError("unlockhash cannot be of type {}".format(type(unlockhash)))
         unlockhash = str(unlockhash)
-        if unlockhash[:2] == '00':
+        if unlockhash == str(UnlockHash()):
             key = self._key_pairs.get(self.address)
         else:
             key = self._key_pairs.get(unlockhash)
-- 
2.43.0


From e9d27f56906d649eb597931940ed3843534a39c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 48/73] fix: refuse an IPv6 network address with a scope, which
 would be dropped

---
 tfchain/types/ThreeBot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 57c8292..a45784c 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -160,6 +160,9 @@ class NetworkAddress(BaseDataTypeClass):
                 self._type = NetworkAddress.Type.IPV4
                 self._address = na.packed
             elif isinstance(na, ipaddress.IPv6Address):
+                # a scope only has a meaning on the host itself, and has no binary form
+                if isinstance(value, str) and '%' in value:
+                    raise ValueError("network address '{}' cannot have a scope".format(value))
                 # IPv6 prefix for IPv4 addresses
                 if na.packed[:12] == b'\0\0\0\0\0\0\0\0\0\0\xff\xff':
                     self._type = NetworkAddress.Type.IPV4
-- 
2.43.0


From 9de9ebbb8035d7731fa251341132cd76691d6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 49/73] fix: refuse to participate in an atomic swap without a
 secret hash

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index bf020c3..caf3c6e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -878,6 +878,8 @@ class TFChainAtomicSwap():
         """
         # normalize secret hash
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
+        if len(secret_hash.value) == 0:
+            raise ValueError("no secret hash is defined for the atomic swap contract")
 
         # look up the chain time up front, as no lookup may fail once the contract is submitted
         chain_time = self._chain_time
-- 
2.43.0


From f151a649d3513a0a50be475b8b8c3f5b4776c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 50/73] fix: refuse a date as lock that would count as a block
 height

---
 tfchain/types/ConditionTypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index fac0ede..ce61b49 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -135,14 +135,21 @@ class OutputLock:
                 self._value = current_timestamp + offset
             else:
                 # interpret string as a datetime
-                self._value = jsdatetime.fromString(value)
+                self._value = self._timestamp(jsdatetime.fromString(value))
         elif isinstance(value, timedelta):
             self._value = current_timestamp + int(value.total_seconds())
         elif isinstance(value, datetime):
-            self._value = int(value.timestamp())
+            self._value = self._timestamp(int(value.timestamp()))
         else:
             raise TypeError("cannot set OutputLock using invalid type {}".format(type(value)))
 
+    @classmethod
+    def _timestamp(cls, value):
+        # a smaller value would be interpreted as a block height
+        if value != 0 and value < cls._MIN_TIMESTAMP_VALUE:
+            raise ValueError("output lock cannot be a date before 1985/11/05, as it would be a block height: {}".format(value))
+        return value
+
     def __int__(self):
         return self._value
 
-- 
2.43.0


From 2acc5198a232db1d06b15ff1d99984c52ae20a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 51/73] fix: refuse to convert coins to an undefined ERC20
 address

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index caf3c6e..18df03b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1533,6 +1533,8 @@ class TFChainERC20():
         txn = tftransactions.erc20_convert_new()
         # define the amount and recipient
         txn.address = ERC20Address(value=address)
+        if not ERC20Address.is_valid_value(txn.address):
+            raise ValueError("{!r} is no valid ERC20 address".format(address))
         txn.value = amount
 
         # fund the transaction
-- 
2.43.0


From 2d76224ce11d91d884f11502791f2dd1de51ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 52/73] fix: treat a secret of only zero bytes as no secret
 when signing an atomic swap

---
 tfchain/types/FulfillmentTypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index f637ed6..62336ae 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -559,12 +559,14 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
             return requests
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
+        # (a secret of only zero bytes is how the network represents that there is no secret)
+        redeem = any(self.secret.value)
         def input_hash_gen(public_key):
-            if self._secret is not None:
+            if redeem:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
         # the receiver redeems with the secret, the sender is refunded without it
-        unlockhash = parent_condition.sender if self._secret is None else parent_condition.receiver
+        unlockhash = parent_condition.receiver if redeem else parent_condition.sender
         requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
-- 
2.43.0


From 1313a71f4ef10980fff42c2447ad473291a750f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 53/73] fix: read an explorer answer whose list of transactions
 is null

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 64a48c1..12389f4 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -182,7 +182,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("expected block ID '{}' not '{}'".format(blockid, resp['blockid']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
@@ -275,7 +275,7 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
-- 
2.43.0


From 16a544dc0cd9a3732e66e720da8446d0ee8da022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 54/73] fix: reject an explorer answer whose transactions are
 no list

---
 tfchain/TFChainClient.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 12389f4..2465708 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -182,7 +182,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("expected block ID '{}' not '{}'".format(blockid, resp['blockid']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions'] or []:
+            for etxn in self._explorer_transactions_get(resp, endpoint):
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
@@ -275,7 +275,7 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions'] or []:
+            for etxn in self._explorer_transactions_get(resp, endpoint):
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
@@ -377,6 +377,14 @@ class TFChainClient:
             # return a KeyError as an invalid Explorer Response
             raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
 
+    def _explorer_transactions_get(self, resp, endpoint):
+        etxns = resp['transactions']
+        if etxns is None:
+            return [] # an empty list can be encoded as null
+        if not isinstance(etxns, list):
+            raise tfchain.errors.ExplorerInvalidResponse("expected transactions to be a list, not {}".format(type(etxns)), endpoint, resp)
+        return etxns
+
     def _transaction_from_explorer_transaction(self, etxn, endpoint="/?", resp=None): # keyword parameters for error handling purposes only
         if resp is None:
             resp = {}
-- 
2.43.0


From 34d1c1d7541f723623841465f617e74f530149d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 55/73] fix: reject an address of which the explorer returns
 the ERC20 info of another address

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 2465708..aab77cc 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -288,6 +288,8 @@ class TFChainClient:
             erc20_info = None
             if 'erc20info' in resp:
                 info = resp['erc20info']
+                if info['tftaddress'] != unlockhash:
+                    raise tfchain.errors.ExplorerInvalidResponse("expected ERC20 info of address '{}' not '{}'".format(unlockhash, info['tftaddress']), endpoint, resp)
                 erc20_info = ERC20AddressInfo(
                     address_tft=UnlockHash.from_json(info['tftaddress']),
                     address_erc20=ERC20Address.from_json(info['erc20address']),
-- 
2.43.0


From d10bcdbd42c3581c384584eb3c8c475ec6f63e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 56/73] fix: report an explorer answer without last block as an
 invalid response

---
 tfchain/TFChainClient.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index aab77cc..894bb89 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -147,9 +147,14 @@ class TFChainClient:
         """
         Get the current blockchain info, using the last known block, as reported by an explorer.
         """
-        resp = self.explorer_get(endpoint="/explorer")
+        endpoint = "/explorer"
+        resp = self.explorer_get(endpoint=endpoint)
         resp = json_loads(resp)
-        blockid = Hash.from_json(obj=resp['blockid'])
+        try:
+            blockid = Hash.from_json(obj=resp['blockid'])
+        except KeyError as exc:
+            # return a KeyError as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
         last_block = self.block_get(blockid)
         return ExplorerBlockchainInfo(last_block=last_block)
 
-- 
2.43.0


From f618b54f74c7ed4f2b69d0e32e6f367224d2fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 57/73] fix: refuse a JSON transaction without data

---
 tfchain/types/transactions/Base.py     | 6 +++++-
 tfchain/types/transactions/Standard.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 0b72cc3..7402f0e 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -60,7 +60,11 @@ class TransactionBaseClass(ABC):
         if txn.version != tv:
             raise ValueError(
                 "transaction is expected to be of version {}, not version {}".format(txn.version, tv))
-        txn._from_json_data_object(obj.get('data', {}))
+        data = obj.get('data')
+        if not isinstance(data, dict):
+            raise ValueError(
+                "the data of a transaction is expected to be an object, not {}".format(type(data)))
+        txn._from_json_data_object(data)
         return txn
 
     @property
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..14dd93b 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -31,7 +31,7 @@ class TransactionV1(TransactionBaseClass):
                 TransactionVersion.LEGACY, tv))
         txn = cls()
 
-        if 'data' not in obj:
+        if not isinstance(obj.get('data'), dict):
             raise ValueError("no data object found in Legacy Transaction (v{})".format(
                 TransactionVersion.LEGACY))
         txn_data = obj['data']
-- 
2.43.0


From d13a5eaa20814de52794971a921348c9da69895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 58/73] fix: try the next explorer when the answer of an
 explorer breaks off

---
 tfchain/TFChainExplorerClient.py | 10 +++++++---
 tfchain/internal/HttpClient.py   | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index dcdf201..6a02dbc 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -3,7 +3,7 @@ Tfchain Client
 """
 import tfchain
 from tfchain.internal.jsutils import json_dumps, json_loads
-from tfchain.internal.HttpClient import HTTPError, HttpClient
+from tfchain.internal.HttpClient import HTTPError, HttpClient, read_body
 import random
 
 http = HttpClient()
@@ -45,7 +45,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.get(url=address+endpoint, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return read_body(resp, address+endpoint)
                 if resp.getcode() == 204:
                     raise tfchain.errors.ExplorerNoContent("GET: no content available (code: 204)", endpoint)
                 raise tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
@@ -92,7 +92,11 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.post(url=address+endpoint, data=data, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    try:
+                        return read_body(resp, address+endpoint)
+                    except HTTPError as e:
+                        # the explorer did accept the data, do not post it to another one
+                        raise tfchain.errors.ExplorerServerPostError("POST: incomplete response (code: 200)", endpoint, data=data) from e
                 raise tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
             except HTTPError as e:
                 if e.status_code:
diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 132ec22..7f75b5d 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -1,3 +1,4 @@
+import http.client
 import urllib.request
 import urllib.error
 import urllib.parse
@@ -37,8 +38,11 @@ class HTTPError(Exception):
         data = ''
         self.status_code = None
         if isinstance(httperror, urllib.error.HTTPError):
-            msg = data = httperror.read()
             self.status_code = httperror.code
+            try:
+                msg = data = httperror.read()
+            except (OSError, http.client.HTTPException):
+                pass # the status is known, even if the explanation is not
         self.msg = msg
         self.data = data
         self.httperror = httperror
@@ -213,6 +217,18 @@ class Connection():
         return resp
 
 
+def read_body(resp, url):
+    """
+    read the complete body of a response
+
+    :raises HTTPError when the connection is lost before the body is complete
+    """
+    try:
+        return resp.read()
+    except (OSError, http.client.HTTPException) as e:
+        raise HTTPError(e, url)
+
+
 class HttpClient():
     def getConnection(self):
         """
-- 
2.43.0


From 36a7fb03245a6896fb9911e4a96f2eb920d2e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 59/73] fix: report a bad request whose explanation is no UTF-8
 text as a server error

---
 tfchain/TFChainExplorerClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index 6a02dbc..1a6c17c 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -53,7 +53,7 @@ class TFChainExplorerClient:
                 if e.status_code == 400:
                     msg = e.msg
                     if isinstance(msg, (bytes, bytearray)):
-                        msg = msg.decode('utf-8')
+                        msg = msg.decode('utf-8', errors='replace')
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
-- 
2.43.0


From baa1c5db017e925ddd7922153e257ed59a40848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 60/73] fix: import the errors an explorer client raises

---
 tfchain/TFChainExplorerClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index 1a6c17c..7540de0 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -1,7 +1,7 @@
 """
 Tfchain Client
 """
-import tfchain
+import tfchain.errors
 from tfchain.internal.jsutils import json_dumps, json_loads
 from tfchain.internal.HttpClient import HTTPError, HttpClient, read_body
 import random
-- 
2.43.0


From dff7a133215bf2bf7cc1ac965c08f87f5164a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 61/73] fix: write the data of an empty transaction, so its
 JSON can be read back

---
 tfchain/types/transactions/Base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 7402f0e..299bf49 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -199,11 +199,10 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': int(self.version)}
-        data = self._json_data_object()
-        if data:
-            obj['data'] = data
-        return obj
+        return {
+            'version': int(self.version),
+            'data': self._json_data_object() or {},
+        }
 
     def __str__(self):
         s = "transaction v{}".format(self.version)
-- 
2.43.0


From 70865525369f5b2cb7ed8c429afb128753663c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 62/73] fix: report the balance of a chain that only has its
 first block

---
 tfchain/TFChainWallet.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 18df03b..c23e9ac 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1937,7 +1937,7 @@ class WalletBalance(object):
         """
         Unconfirmed (coin) outputs, available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self.chain_time > 0:
             return [co for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]
         else:
@@ -1954,7 +1954,7 @@ class WalletBalance(object):
         """
         Total available (coin) outputs.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self.chain_time > 0:
             return [co for co in self._outputs.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]
         else:
@@ -1972,7 +1972,7 @@ class WalletBalance(object):
         """
         Total available coins that are locked.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self.chain_time > 0:
             return sum([co.value for co in self._outputs.values()
                 if co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
@@ -1983,7 +1983,7 @@ class WalletBalance(object):
         """
         Total unconfirmed coins, available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self.chain_time > 0:
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
@@ -1994,7 +1994,7 @@ class WalletBalance(object):
         """
         Total unconfirmed coins that are locked, and thus not available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self.chain_time > 0:
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
@@ -2057,7 +2057,11 @@ class WalletBalance(object):
             raise TypeError("other balance has to be of type wallet balance")
         # another balance is defined, create a new balance that will contain our merge
         # merge the chain info
-        if self.chain_height >= other.chain_height:
+        if self.chain_time == 0:
+            self.chain_time = other.chain_time
+            self.chain_height = other.chain_height
+            self.chain_blockid = other.chain_blockid
+        elif self.chain_height >= other.chain_height:
             if self.chain_time < other.chain_time:
                 raise ValueError("chain time and chain height of balances do not match")
         else:
@@ -2147,7 +2151,7 @@ class WalletBalance(object):
     def __repr__(self):
         # report chain context
         result = ""
-        if self.chain_height > 0 and self.chain_time > 0:
+        if self.chain_time > 0:
             result += "wallet balance on height {} at {}\n".format(self.chain_height, epoch2HRDateTime(self.chain_time))
         else:
             result += "wallet balance at an unknown time\n"
-- 
2.43.0


From c9156adc2a548142cb602fb3403b88b350c6f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:52 +0000
Subject: [PATCH 63/73] fix: encode the absent signature of a 3Bot update, name
 transfer or ERC20 registration as an empty slice

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 63a5d13..d2e8000 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -451,7 +451,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index f52da46..36b17a8 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -677,7 +677,7 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
@@ -1043,7 +1043,7 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
@@ -1055,7 +1055,7 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
-- 
2.43.0


From 9756cd412b494d40185fe2d3bc82f6cf2fdb8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 64/73] fix: copying the inputs of another transaction keeps
 unknown parent outputs unknown

---
 tfchain/types/transactions/ERC20.py    | 4 ++--
 tfchain/types/transactions/Standard.py | 4 ++--
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index d2e8000..d73daf3 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -66,7 +66,7 @@ class TransactionV208(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -476,7 +476,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 14dd93b..aa80e23 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -121,7 +121,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def coin_outputs(self):
@@ -163,7 +163,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for bsi in value:
             self.blockstake_input_add(
-                bsi.parentid, bsi.fulfillment, parent_output=bsi.parent_output)
+                bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
 
     @property
     def blockstake_outputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 36b17a8..ebb18c9 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -149,7 +149,7 @@ class TransactionV144(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -510,7 +510,7 @@ class TransactionV145(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -955,7 +955,7 @@ class TransactionV146(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
-- 
2.43.0


From 09e9d4d2f9045a0ca6e1a766c27e5c9faf581765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 65/73] fix: transactions without an identifier can be hashed,
 compared and printed

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 299bf49..725c364 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,5 @@
 import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
@@ -205,8 +205,8 @@ class TransactionBaseClass(ABC):
         }
 
     def __str__(self):
-        s = "transaction v{}".format(self.version)
-        if self.id:
+        s = "transaction v{}".format(int(self.version))
+        if self._id is not None:
             s += " {}".format(self.id)
         return s
     __repr__ = __str__
-- 
2.43.0


From 730a7189534e31ea6d89eb87a6c66456ea6f91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:32 +0000
Subject: [PATCH 66/73] fix: different transactions read without an identifier
 no longer compare as equal

---
 tfchain/types/transactions/Base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 725c364..279bc6f 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -100,7 +100,7 @@ class TransactionBaseClass(ABC):
         self._id = Hash(value=id)
 
     def __hash__(self):
-        if self._id is None:
+        if not self._id:
             return hash(json_dumps(self.json()))
         return hash(self.id)
 
@@ -206,7 +206,7 @@ class TransactionBaseClass(ABC):
 
     def __str__(self):
         s = "transaction v{}".format(int(self.version))
-        if self._id is not None:
+        if self._id:
             s += " {}".format(self.id)
         return s
     __repr__ = __str__
-- 
2.43.0


From dd0c1a9e566aa82e90e3f3805c4e5bea89c75b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 67/73] fix: a refused redeem or refund no longer reports the
 contract as spent

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index c23e9ac..25e96a8 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1015,7 +1015,7 @@ class TFChainAtomicSwap():
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from exc
         # generate the contract
-        contract = AtomicSwapContract(coinoutput=co, unspent=False, current_timestamp=self._chain_time) # either it is spent already or we'll spend it
+        contract = AtomicSwapContract(coinoutput=co, unspent=(spend_txn is None), current_timestamp=self._chain_time)
         # check if the contract hasn't been spent already
         if spend_txn is not None:
             # if a spend transaction exists,
@@ -1053,7 +1053,7 @@ class TFChainAtomicSwap():
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from exc
         # generate the contract
-        contract = AtomicSwapContract(coinoutput=co, unspent=False, current_timestamp=self._chain_time) # either it is spent already or we'll spend it
+        contract = AtomicSwapContract(coinoutput=co, unspent=(spend_txn is None), current_timestamp=self._chain_time)
         # check if the contract hasn't been spent already
         if spend_txn is not None:
             # if a spend transaction exists,
-- 
2.43.0


From 872c54c41c65933d8a39e7e36b4a00b5d2c76008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 68/73] fix: an input signed with a key that does not own the
 output does not count as fulfilled

---
 tfchain/types/FulfillmentTypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 62336ae..508ce08 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -319,7 +319,10 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
-        return self._signature is not None
+        if self._signature is None:
+            return False
+        unlockhash = parent_condition.unlockhash
+        return unlockhash.type == UnlockHashType.NIL or str(unlockhash) == str(self.public_key.unlockhash)
 
 
 class FulfillmentMultiSignature(FulfillmentBaseClass):
-- 
2.43.0


From 3fcafe600623a24dcbcdfdc9d9a9683a11719539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:01 +0000
Subject: [PATCH 69/73] fix: a multi-signature input is fulfilled by signatures
 of distinct owners only

---
 tfchain/types/FulfillmentTypes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 508ce08..b9a79e0 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -355,6 +355,10 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
     def add_pair(self, public_key, signature):
         spk = str(public_key)
         for pair in self._pairs:
+            if str(pair.public_key) == spk and not pair.has_signature:
+                # the public key was listed already, but did not sign yet
+                pair.signature = signature
+                return
             if str(pair.public_key) == spk:
                 raise ValueError("cannot add public_key {} as it already exists within a pair of this MultiSignature Fulfillment".format(spk))
         self._pairs.append(PublicKeySignaturePair(public_key=public_key, signature=signature))
@@ -385,7 +389,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
         requests = []
-        signed = [str(pair.public_key.unlockhash) for pair in self._pairs]
+        signed = [str(pair.public_key.unlockhash) for pair in self._pairs if pair.has_signature]
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
@@ -401,7 +405,12 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
-        return len(self._pairs) >= parent_condition.required_signatures
+        signed = [str(pair.public_key.unlockhash) for pair in self._pairs if pair.has_signature]
+        owners = set(str(unlockhash) for unlockhash in parent_condition.unlockhashes)
+        if owners:
+            # an owner counts once, no matter how often its signature is listed
+            signed = owners & set(signed)
+        return len(signed) >= parent_condition.required_signatures
 
 
 class PublicKeySignaturePair(BaseDataTypeClass):
@@ -434,6 +443,10 @@ class PublicKeySignaturePair(BaseDataTypeClass):
             raise TypeError("cannot assign value of type {} as PublicKeySignaturePair's public key (expected type: PublicKey)".format(type(pk)))
         self._public_key = PublicKey(specifier=pk.specifier, hash=pk.hash)
 
+    @property
+    def has_signature(self):
+        return self._signature is not None
+
     @property
     def signature(self):
         if self._signature is None:
-- 
2.43.0


From fa347a41c4b47111c90d71dbb11f8f635dc1d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 70/73] fix: a refused list of names, addresses, inputs,
 outputs or signatures leaves the transaction as it was

---
 tfchain/types/FulfillmentTypes.py      | 12 +++---
 tfchain/types/transactions/Base.py     | 14 ++++++
 tfchain/types/transactions/ERC20.py    | 12 ++----
 tfchain/types/transactions/Minting.py  |  6 +--
 tfchain/types/transactions/Standard.py | 24 ++++-------
 tfchain/types/transactions/ThreeBot.py | 60 +++++++++-----------------
 6 files changed, 55 insertions(+), 73 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index b9a79e0..b80fad0 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -346,11 +346,13 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         return self._pairs
     @pairs.setter
     def pairs(self, value):
-        self._pairs = []
-        if not value:
-            return
-        for pair in value:
-            self.add_pair(pair.public_key, pair.signature)
+        previous, self._pairs = self._pairs, []
+        try:
+            for pair in value or []:
+                self.add_pair(pair.public_key, pair.signature)
+        except Exception:
+            self._pairs = previous
+            raise
 
     def add_pair(self, public_key, signature):
         spk = str(public_key)
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 279bc6f..6bc123f 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -243,6 +243,20 @@ class TransactionBaseClass(ABC):
         hash = bytearray.fromhex(blake2_string(encoder.data))
         return Hash(value=hash)
 
+    def _list_assign(self, attribute, values, add):
+        """
+        Replace the content of a list attribute, adding the given values one by one.
+        Should one of the values be refused, the attribute keeps its previous content.
+        """
+        previous = getattr(self, attribute)
+        setattr(self, attribute, [])
+        try:
+            for value in values or []:
+                add(value)
+        except Exception:
+            setattr(self, attribute, previous)
+            raise
+
     def _id_input_compute(self):
         """
         Compute the core input data used for any ID computation.
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index d73daf3..b71375c 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -61,12 +61,10 @@ class TransactionV208(TransactionBaseClass):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment,
                                 parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def refund_coin_output(self):
@@ -471,12 +469,10 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment,
                                 parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index a2a9b88..8963278 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -261,11 +261,9 @@ class TransactionV129(TransactionBaseClass):
 
     @coin_outputs.setter
     def coin_outputs(self, value):
-        self._coin_outputs = []
-        if not value:
-            return
-        for co in value:
+        def add(co):
             self.coin_output_add(co.value, co.condition, id=co.id)
+        self._list_assign('_coin_outputs', value, add)
 
     def coin_output_add(self, value, condition, id=None):
         co = CoinOutput(value=value, condition=condition)
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index aa80e23..02194a5 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -116,12 +116,10 @@ class TransactionV1(TransactionBaseClass):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment,
                                 parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def coin_outputs(self):
@@ -133,11 +131,9 @@ class TransactionV1(TransactionBaseClass):
 
     @coin_outputs.setter
     def coin_outputs(self, value):
-        self._coin_outputs = []
-        if not value:
-            return
-        for co in value:
+        def add(co):
             self.coin_output_add(co.value, co.condition, id=co.id)
+        self._list_assign('_coin_outputs', value, add)
 
     def coin_input_add(self, parentid, fulfillment, parent_output=None):
         ci = CoinInput(parentid=parentid, fulfillment=fulfillment)
@@ -158,12 +154,10 @@ class TransactionV1(TransactionBaseClass):
 
     @blockstake_inputs.setter
     def blockstake_inputs(self, value):
-        self._blockstake_inputs = []
-        if not value:
-            return
-        for bsi in value:
+        def add(bsi):
             self.blockstake_input_add(
                 bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
+        self._list_assign('_blockstake_inputs', value, add)
 
     @property
     def blockstake_outputs(self):
@@ -174,11 +168,9 @@ class TransactionV1(TransactionBaseClass):
 
     @blockstake_outputs.setter
     def blockstake_outputs(self, value):
-        self._blockstake_outputs = []
-        if not value:
-            return
-        for bso in value:
+        def add(bso):
             self.blockstake_output_add(bso.value, bso.condition, id=bso.id)
+        self._list_assign('_blockstake_outputs', value, add)
 
     def blockstake_input_add(self, parentid, fulfillment, parent_output=None):
         bsi = BlockstakeInput(parentid=parentid, fulfillment=fulfillment)
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index ebb18c9..d9b23a0 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -145,11 +145,9 @@ class TransactionV144(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def refund_coin_output(self):
@@ -201,11 +199,9 @@ class TransactionV144(BotTransactionBaseClass):
         return self._addresses
     @addresses.setter
     def addresses(self, value):
-        self._addresses = []
-        if not value:
-            return
-        for address in value:
+        def add(address):
             self.address_add(address)
+        self._list_assign('_addresses', value, add)
 
     def address_add(self, address):
         """
@@ -224,11 +220,9 @@ class TransactionV144(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names = []
-        if not value:
-            return
-        for name in value:
+        def add(name):
             self.name_add(name)
+        self._list_assign('_names', value, add)
 
     def name_add(self, name):
         """
@@ -506,11 +500,9 @@ class TransactionV145(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def refund_coin_output(self):
@@ -562,11 +554,9 @@ class TransactionV145(BotTransactionBaseClass):
         return self._addresses_to_add
     @addresses_to_add.setter
     def addresses_to_add(self, value):
-        self._addresses_to_add = []
-        if not value:
-            return
-        for address in value:
+        def add(address):
             self.address_add(address)
+        self._list_assign('_addresses_to_add', value, add)
 
     def address_add(self, address):
         """
@@ -585,11 +575,9 @@ class TransactionV145(BotTransactionBaseClass):
         return self._addresses_to_remove
     @addresses_to_remove.setter
     def addresses_to_remove(self, value):
-        self._addresses_to_remove = []
-        if not value:
-            return
-        for address in value:
+        def add(address):
             self.address_remove(address)
+        self._list_assign('_addresses_to_remove', value, add)
 
     def address_remove(self, address):
         """
@@ -608,11 +596,9 @@ class TransactionV145(BotTransactionBaseClass):
         return self._names_to_add
     @names_to_add.setter
     def names_to_add(self, value):
-        self._names_to_add = []
-        if not value:
-            return
-        for name in value:
+        def add(name):
             self.name_add(name)
+        self._list_assign('_names_to_add', value, add)
 
     def name_add(self, name):
         """
@@ -631,11 +617,9 @@ class TransactionV145(BotTransactionBaseClass):
         return self._names_to_remove
     @names_to_remove.setter
     def names_to_remove(self, value):
-        self._names_to_remove = []
-        if not value:
-            return
-        for name in value:
+        def add(name):
             self.name_remove(name)
+        self._list_assign('_names_to_remove', value, add)
 
     def name_remove(self, name):
         """
@@ -951,11 +935,9 @@ class TransactionV146(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
+        def add(ci):
             self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_assign('_coin_inputs', value, add)
 
     @property
     def refund_coin_output(self):
@@ -1007,11 +989,9 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names = []
-        if not value:
-            return
-        for name in value:
+        def add(name):
             self.name_add(name)
+        self._list_assign('_names', value, add)
 
     def name_add(self, name):
         """
-- 
2.43.0


From 2d39dd8b615c526f9ea96ce060bae1c75233e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 71/73] fix: a fractional number of months is refused for a
 3Bot

---
 tfchain/types/transactions/ThreeBot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index d9b23a0..1c7d386 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -257,6 +257,8 @@ class TransactionV144(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an integer, not be of type {}".format(type(n)))
         if n < 1 or n > 24:
             raise ValueError("number of months for a 3Bot Registration Transaction has to be in the inclusive range [1,24]")
         self._number_of_months = n
@@ -654,6 +656,8 @@ class TransactionV145(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an integer, not be of type {}".format(type(n)))
         if n < 0 or n > 24:
             raise ValueError("number of months for a 3Bot Record Update has to be in the inclusive range [0,24]")
         self._number_of_months = n
-- 
2.43.0


From 812d814477a3d4ed90c0d8da43c785f1fe2af800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 72/73] fix: a 3Bot identifier that does not fit its four bytes
 is refused when it is set

---
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 1c7d386..32d5854 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -487,8 +487,8 @@ class TransactionV145(BotTransactionBaseClass):
         if value is None:
             self._botid = None
         elif isinstance(value, int):
-            if value <= 0:
-                raise ValueError("a bot identifier has to be at least equal to 1: {} is invalid".format(value))
+            if value <= 0 or value >= 1 << 32:
+                raise ValueError("a bot identifier has to be in the inclusive range [1,2^32-1]: {} is invalid".format(value))
             self._botid = value
         else:
             raise TypeError("a bot identifier has to be an integer, cannot be of type {}".format(type(value)))
@@ -908,8 +908,8 @@ class TransactionV146(BotTransactionBaseClass):
         if value is None:
             self._sender_botid = None
         elif isinstance(value, int):
-            if value <= 0:
-                raise ValueError("a (sender) bot identifier has to be at least equal to 1: {} is invalid".format(value))
+            if value <= 0 or value >= 1 << 32:
+                raise ValueError("a (sender) bot identifier has to be in the inclusive range [1,2^32-1]: {} is invalid".format(value))
             self._sender_botid = value
         else:
             raise TypeError("a (sender) bot identifier has to be an integer, cannot be of type {}".format(type(value)))
@@ -924,8 +924,8 @@ class TransactionV146(BotTransactionBaseClass):
         if value is None:
             self._receiver_botid = None
         elif isinstance(value, int):
-            if value <= 0:
-                raise ValueError("a (receiver) bot identifier has to be at least equal to 1: {} is invalid".format(value))
+            if value <= 0 or value >= 1 << 32:
+                raise ValueError("a (receiver) bot identifier has to be in the inclusive range [1,2^32-1]: {} is invalid".format(value))
             self._receiver_botid = value
         else:
             raise TypeError("a (receiver) bot identifier has to be an integer, cannot be of type {}".format(type(value)))
-- 
2.43.0


From 68335a8ee496aaff4647febe9a31da043f7d7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:08 +0000
Subject: [PATCH 73/73] fix: an unknown network name is refused instead of
 standing for another network

---
 tfchain/TFChainClient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 894bb89..5baf1f4 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -48,6 +48,7 @@ class NetworkType:
             return NetworkType.TESTNET
         if s == "devnet":
             return NetworkType.DEVNET
+        raise ValueError("unknown network type: {}".format(s))
 
     def minimum_miner_fee(self):
         if self == NetworkType.DEVNET:
@@ -100,7 +101,10 @@ class TFChainClient:
             # fetch network type from the explorer client
             resp = self._explorer_client.get("/explorer/constants")
             resp = json_loads(resp)
-            self._network_type = NetworkType.from_str(resp.get("chaininfo", {}).get("NetworkName", "standard"))
+            try:
+                self._network_type = NetworkType.from_str(resp.get("chaininfo", {}).get("NetworkName", "standard"))
+            except (TypeError, ValueError) as exc:
+                raise tfchain.errors.ExplorerInvalidResponse(str(exc), "/explorer/constants", resp) from exc
 
         # create subclients
         self._threebot = TFChainThreeBotClient(self)
-- 
2.43.0

