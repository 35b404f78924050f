"""Random wire documents of every transaction version, and the parents their inputs spend."""
import base64
import copy
import hashlib

from . import ref

VERSIONS = (1, 128, 129, 144, 145, 146, 208, 209, 210)
ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
ALPHA = ALNUM[:52]


class Gen:
    def __init__(self, rng, keys=8, big=0):
        self.big = big                  # how often a transaction has very many inputs or outputs
        self.rng = r = rng
        self.seed = self.rand(32)
        self.sks = [ref.derive_signing_key(self.seed, i) for i in range(keys)]
        self.pks = ['ed25519:' + k.get_verifying_key().to_bytes().hex() for k in self.sks]
        self.addrs = [ref.pubkey_address(p) for p in self.pks]

    def rand(self, n):
        b = self.rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
        if n > 3 and self.rng.random() < .04:            # runs of zero or full bytes at either end, or nearly everywhere
            k, z = self.rng.choice([1, 2, n // 2, n - 1]), bytes([self.rng.choice([0, 0, 255])])
            b = z * k + b[k:] if self.rng.random() < .5 else b[:n - k] + z * k
            if not any(b):
                b = bytes(n - 1) + b'\1'
        return b

    def addr(self, foreign=.5):
        r = self.rng
        return ref.uh_text(1, self.rand(32)) if r.random() < foreign else r.choice(self.addrs)

    def pk(self, foreign=.5):
        return 'ed25519:' + self.rand(32).hex() if self.rng.random() < foreign else self.rng.choice(self.pks)

    def sig(self):
        return self.rand(64).hex()

    def value(self, zero=False):
        r = self.rng
        k = r.randrange(9)
        if k == 0 and zero:
            return 0
        if k == 1:
            return r.randrange(1, 300)
        if k == 2:
            return 1 << r.randrange(0, 62)
        if k == 3:
            return (1 << 8 * r.randrange(1, 8)) - r.choice([0, 1])
        if k == 4:
            return ref.GRAIN * r.randrange(1, 10 ** 9)
        return r.randrange(1, 10 ** r.randrange(2, 19))

    def lock(self):
        r = self.rng
        return r.choice([1, 499999999, 500000000, 500000001, r.randrange(1, 10 ** 6), r.randrange(10 ** 9, 4 * 10 ** 9),
                         2 ** 32, 2 ** 40 + 5])

    # ------------------------------------------------------------ conditions
    def cond(self, kinds=(0, 1, 1, 1, 2, 3, 4)):
        r = self.rng
        t = r.choice(kinds)
        if t == 0:
            return r.choice([{}, {'type': 0}, {'type': 0, 'data': {}}])
        if t == 1:
            return {'type': 1, 'data': {'unlockhash': self.addr()}}
        if t == 2:
            return {'type': 2, 'data': {'sender': self.addr(), 'receiver': self.addr(),
                                        'hashedsecret': self.rand(32).hex(), 'timelock': r.randrange(10 ** 9, 4 * 10 ** 9)}}
        if t == 3:
            return {'type': 3, 'data': {'locktime': self.lock(), 'condition': self.cond((0, 1, 1, 4))}}
        n = r.choice([1, 2, 2, 3, 5, 9])
        owners = [self.addr() for _ in range(n)]
        return {'type': 4, 'data': {'unlockhashes': owners, 'minimumsignaturecount': r.randrange(1, n + 1)}}

    def parent(self, kinds=(0, 1, 1, 2, 3, 4)):
        return {'value': str(self.value()), 'condition': self.cond(kinds)}

    def ful(self, cond, secretless=True):
        """a fulfillment of the right type for a condition, with arbitrary signatures"""
        r = self.rng
        t = ref.cond_unwrap(cond).get('type', 0)
        if t == 2:
            d = {'publickey': self.pk(), 'signature': self.sig()}
            k = r.randrange(3)
            if k == 0:
                d['secret'] = '00' * 32
            elif k == 1 or not secretless:
                d['secret'] = self.rand(32).hex()
            return {'type': 2, 'data': d}
        if t == 4:
            pks = list(dict.fromkeys(self.pk() for _ in range(r.choice([1, 1, 2, 3, 6, 6, 17] if r.random() < .1 else [1, 1, 2, 3, 6]))))
            return {'type': 3, 'data': {'pairs': [{'publickey': pk, 'signature': self.sig() if r.random() > .04 else ''} for pk in pks]}}
        return {'type': 1, 'data': {'publickey': self.pk(), 'signature': self.sig()}}

    def inputs(self, lo=0, hi=4, secretless=True, kinds=(0, 1, 1, 2, 3, 4)):
        """(inputs, parents)"""
        ps = [self.parent(kinds) for _ in range(self.rng.randrange(lo, hi + 1))]
        return [{'parentid': self.rand(32).hex(), 'fulfillment': self.ful(p['condition'], secretless)} for p in ps], ps

    def output(self, kinds=(0, 1, 1, 1, 2, 3, 4), zero=False):
        return {'value': str(self.value(zero)), 'condition': self.cond(kinds)}

    # ------------------------------------------------------------ 3Bot values
    def name(self, long=False):
        r = self.rng
        while True:
            parts = []
            for i in range(r.choice([1, 1, 2, 3, 10 if long else 1])):
                n = r.choice([5, 5, 6, 8, 12, 30, 57, 63])
                parts.append(r.choice(ALPHA) + ''.join(r.choice(ALNUM + '--') for _ in range(n - 2)) + r.choice(ALNUM))
            s = '.'.join(parts)
            if len(s) <= 63 and all(len(p) <= 57 for p in parts[1:]):
                return s

    def netaddr(self):
        r = self.rng
        k = r.randrange(4)
        if k == 0:
            return '%d.%d.%d.%d' % tuple(self.rand(4))
        if k == 1:
            import ipaddress
            while True:
                a = ipaddress.IPv6Address(self.rand(16) if r.random() < .6 else
                                          bytes(r.choice([0, 0, 0, 1, 255]) for _ in range(16)))
                if a.packed[:12] != b'\0' * 10 + b'\xff\xff':
                    return str(a)
        if k == 2:
            return ''.join(r.choice(ALNUM) for _ in range(r.randrange(1, 3))) + 'x.org'
        a = r.choice(ALNUM) + ''.join(r.choice(ALNUM + '-_') for _ in range(r.randrange(1, 50))) + r.choice(ALNUM)
        return a + '.' + r.choice(['io', 'com', 'museum', 'threef.io', '12-ab.net'])

    def data(self):
        r = self.rng
        return base64.b64encode(self.rand(r.choice([0, 0, 1, 2, 3, 31, 82, 83]))).decode()

    # ------------------------------------------------------------ transactions
    def tx(self, version=None, secretless=True, signed=True):
        """(document, parents of the coin inputs, parents of the block stake inputs)"""
        r = self.rng
        v = version if version is not None else r.choice(VERSIONS)
        d = {}
        ps, bps = [], []
        big = self.big and r.random() < self.big
        if v == 1:
            if big and r.random() < .6:
                d['coininputs'], ps = self.inputs(65, 140, secretless)
            else:
                d['coininputs'], ps = self.inputs(0, r.choice([1, 3, 3, 12]), secretless)
            d['coinoutputs'] = [self.output() for _ in range(r.choice([0, 1, 2, 3, 9]) if not big or r.random() < .5 else r.choice([70, 140, 270]))]
            if r.random() < .35:
                d['blockstakeinputs'], bps = self.inputs(0, 2 if r.random() < .8 else 12, secretless, (0, 1, 1, 3, 4))
                d['blockstakeoutputs'] = [self.output((0, 1, 3, 4)) for _ in range(r.choice([0, 1, 2]) if not big else r.choice([70, 130, 260]))]
            d['minerfees'] = [str(self.value()) for _ in range(r.choice([0, 1, 1, 2]) if not big else r.choice([1, 66, 129]))]
            d['arbitrarydata'] = self.data()
        elif v in (128, 129):
            parent = {'type': 1, 'data': {'unlockhash': self.addr()}} if r.random() < .4 else self.cond((4,))
            if r.random() < .15:
                parent = {'type': 3, 'data': {'locktime': self.lock(), 'condition': parent}}
            d['nonce'] = base64.b64encode(self.rand(8)).decode()
            d['mintfulfillment'] = self.ful(parent)
            if v == 128:
                d['mintcondition'] = self.cond((1, 4, 3))
            else:
                d['coinoutputs'] = [self.output() for _ in range(r.choice([1, 1, 2, 5]) if not big else r.choice([64, 128, 257]))]
            d['minerfees'] = [str(self.value()) for _ in range(r.choice([1, 1, 2, 1, 1, 2, 9, 70 if big else 3]))]
            d['arbitrarydata'] = self.data()
            ps = [parent]
        elif v == 209:
            d = {'address': self.addr(), 'value': str(self.value()), 'txfee': str(self.value(True)),
                 'blockid': '0x' + self.rand(32).hex(), 'txid': '0x' + self.rand(32).hex()}
        else:
            d['txfee'] = str(self.value(True))
            d['coininputs'], ps = self.inputs(*(r.choice([(1, 1), (1, 2), (1, 3)]) if not big else r.choice([(63, 65), (127, 129), (255, 258)])), secretless, (0, 1, 1, 3, 4))
            if r.random() < .6:
                d['refundcoinoutput'] = self.output((0, 1, 1, 3, 4))
            if v == 144:
                d['nrofmonths'] = r.randrange(1, 25)
                d['addresses'] = [self.netaddr() for _ in range(r.choice([0, 0, 1, 2, 10]))]
                d['names'] = [self.name() for _ in range(r.choice([0, 1, 1, 2, 5]))]
                d['identification'] = {'publickey': self.pk(), 'signature': self.sig()}
            elif v == 145:
                d['id'] = r.choice([1, 2, 255, 256, 65536, 2 ** 32 - 1, r.randrange(1, 10 ** 6)])
                d['nrofmonths'] = r.choice([0, 1, 12, 23, 24])
                d['addresses'] = {'add': [self.netaddr() for _ in range(r.choice([0, 0, 1, 2, 10]))],
                                  'remove': [self.netaddr() for _ in range(r.choice([0, 0, 1, 2, 10]))]}
                d['names'] = {'add': [self.name() for _ in range(r.choice([0, 0, 1, 2, 5]))],
                              'remove': [self.name() for _ in range(r.choice([0, 0, 1, 2, 5]))]}
                d['signature'] = self.sig()
            elif v == 146:
                d['sender'] = {'id': r.randrange(1, 2 ** 32), 'signature': self.sig()}
                d['receiver'] = {'id': r.randrange(1, 300), 'signature': self.sig()}
                d['names'] = [self.name() for _ in range(r.choice([1, 1, 2, 5]))]
            elif v == 208:
                d['address'] = '0x' + self.rand(20).hex()
                d['value'] = str(self.value())
            elif v == 210:
                d['pubkey'] = self.pk()
                a = ref.pubkey_address(d['pubkey'])
                d['tftaddress'] = a
                d['erc20address'] = ref.erc20_of_address(a)
                d['signature'] = self.sig()
                d['regfee'] = str(10 * ref.GRAIN)
        # absent, null and empty parts are all ways in which the network writes "nothing"
        for k in list(d):
            if d[k] in ([], ''):
                x = r.randrange(3)
                if x == 0:
                    del d[k]
                elif x == 1 and k != 'nonce':
                    d[k] = None
        if v == 145:
            for k in ('addresses', 'names'):
                for kk in ('add', 'remove'):
                    if not d[k][kk]:
                        x = r.randrange(3)
                        if x == 0:
                            del d[k][kk]
                        elif x == 1:
                            d[k][kk] = None
                if not d[k]:
                    x = r.randrange(3)
                    if x == 0:
                        del d[k]
                    elif x == 1:
                        d[k] = None
        tx = {'version': v, 'data': d}
        if r.random() < .2:
            items = list(d.items())
            r.shuffle(items)
            tx['data'] = dict(items)
        return tx, ps, bps

    # ------------------------------------------------------------ the same transaction built through the library
    def legacy(self):
        """a transaction of the first format (version 0), as found in the oldest blocks"""
        r = self.rng

        def ins(n):
            return [{'parentid': self.rand(32).hex(), 'unlocker': {'type': 1, 'condition': {'publickey': self.pk()},
                                                             'fulfillment': {'signature': self.sig()}}} for _ in range(n)]

        def outs(n):
            return [{'value': str(self.value()), 'unlockhash': self.addr()} for _ in range(n)]

        def some(l):
            return l or r.choice([[], None])
        big = [] if not self.big or r.random() > self.big else [64, 129, 258]
        d = {'coininputs': some(ins(r.choice(big or [0, 1, 2, 3, 5]))), 'coinoutputs': some(outs(r.choice(big or [0, 1, 2, 3, 5]))),
             'blockstakeinputs': some(ins(r.choice(big or [0, 0, 1, 2, 3]))), 'blockstakeoutputs': some(outs(r.choice(big or [0, 0, 1, 2, 3]))),
             'minerfees': some([str(self.value()) for _ in range(r.choice([0, 1, 1, 2, 3]))]), 'arbitrarydata': self.data()}
        for k in list(d):
            if not d[k] and r.random() < .4:
                del d[k]
        return {'version': 0, 'data': d}

    def legacy_change(self, js):
        """(what, changed document, whether the signature hash covers it) of a transaction of the first format"""
        r = self.rng
        d2 = copy.deepcopy(js)
        d = d2['data']
        full = [k for k in d if isinstance(d[k], list) and d[k]]
        kind = r.choice(['data'] + full * 2)
        if kind == 'data':
            while d.get('arbitrarydata') == js['data'].get('arbitrarydata'):
                d['arbitrarydata'] = base64.b64encode(self.rand(r.randrange(1, 40))).decode()
            return 'data', d2, True
        l = d[kind]
        i = r.randrange(len(l))
        how = r.choice(['drop', 'double', 'swap', 'value', 'value', 'value'])
        if how == 'drop':
            del l[i]
        elif how == 'double':
            l.insert(r.randrange(len(l) + 1), copy.deepcopy(l[i]))
        elif how == 'swap' and len(l) > 1 and l[i] != l[i - 1]:
            l[i], l[i - 1] = l[i - 1], l[i]
        elif kind == 'minerfees':
            l[i] = str(int(l[i]) + r.randrange(1, 300))
        elif kind.endswith('outputs'):
            if r.random() < .5:
                l[i]['value'] = str(int(l[i]['value']) + r.randrange(1, 300))
            else:
                l[i]['unlockhash'] = self.addr(1)
        else:
            x = r.randrange(3)
            if x == 0:
                l[i]['parentid'] = self.rand(32).hex()
            elif x == 1:
                l[i]['unlocker']['condition']['publickey'] = self.pk(1)
            else:
                l[i]['unlocker']['fulfillment']['signature'] = self.rand(64).hex()
                return kind + '.signature', d2, False
        return kind + '.' + how, d2, True

    def attach(self, txn, ps, bps=()):
        """tell the library which outputs the inputs spend"""
        from tfchain.types.IO import CoinOutput, BlockstakeOutput
        from tfchain.types import ConditionTypes
        if int(txn.version) in (128, 129):
            txn.parent_mint_condition = ConditionTypes.from_json(copy.deepcopy(ps[0]))
            return txn
        for ci, p in zip(txn.coin_inputs, ps):
            co = CoinOutput.from_json(copy.deepcopy(p))
            co.id = ci.parentid
            ci.parent_output = co
        for ci, p in zip(txn.blockstake_inputs, bps):
            co = BlockstakeOutput.from_json(copy.deepcopy(p))
            co.id = ci.parentid
            ci.parent_output = co
        return txn


def lib(js):
    from tfchain.types import transactions
    return transactions.from_json(copy.deepcopy(js))


def has_secretless(js):
    for i in ref.coin_inputs(js) + ref.lst(js['data'], 'blockstakeinputs'):
        f = i['fulfillment']
        if f['type'] == 2 and not f['data'].get('secret'):
            return True
    return False


# ------------------------------------------------------------------ changing one field of a document
def paths(x, pre=()):
    """every scalar position of a document"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, pre + (k,))
    elif isinstance(x, list):
        for n, v in enumerate(x):
            yield from paths(v, pre + (n,))
    elif x is not None:
        yield pre, x


def put(doc, path, v):
    d = copy.deepcopy(doc)
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return d


def get(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def mutate(gen, doc):
    """(label, changed document) with exactly one value changed to another valid one"""
    r = gen.rng
    cand = list(paths(doc['data']))
    r.shuffle(cand)
    for p, v in cand:
        k = [x for x in p if isinstance(x, str)]
        last = k[-1]
        if last in ('type',):
            continue
        w = None
        if last in ('publickey', 'pubkey'):
            b = bytearray.fromhex(v[8:])
            b[r.randrange(32)] ^= 1 << r.randrange(8)
            w = 'ed25519:' + b.hex()
        elif last in ('parentid', 'signature', 'secret', 'hashedsecret') or last in ('blockid', 'txid'):
            pre = '0x' if v[:2] == '0x' else ''
            if not v[len(pre):]:
                continue
            b = bytearray.fromhex(v[len(pre):])
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            w = pre + b.hex()
        elif last == 'erc20address' or (last == 'address' and len(v) == 42):
            b = bytearray.fromhex(v[2:])
            b[r.randrange(20)] ^= 1 << r.randrange(8)
            w = '0x' + b.hex()
        elif last in ('unlockhash', 'unlockhashes', 'sender', 'receiver', 'address', 'tftaddress') and len(v) == 78:
            b = bytearray.fromhex(v[2:66])
            b[r.randrange(32)] ^= 1 << r.randrange(8)
            w = ref.uh_text(1, bytes(b))
        elif last in ('value', 'txfee', 'minerfees'):
            w = str(max(0, int(v) + r.choice([1, -1, 256, 10 ** 9])))
            if w == v:
                w = str(int(v) + 1)
        elif last in ('locktime', 'timelock', 'minimumsignaturecount', 'id'):
            w = v + 1 if v < 2 ** 32 - 1 or last != 'id' else v - 1
        elif last == 'nrofmonths':
            w = v + 1 if v < 24 else v - 1
        elif last in ('arbitrarydata', 'nonce'):
            b = bytearray(base64.b64decode(v))
            if not b:
                b = bytearray(b'x') if last == 'arbitrarydata' else None
                if b is None:
                    continue
            else:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            w = base64.b64encode(b).decode()
        elif 'names' in k:
            w = gen.name()
        elif 'addresses' in k:
            w = gen.netaddr()
        if w is None or w == v:
            continue
        return '.'.join(k), put(doc, ('data',) + p, w)
    return None


# ------------------------------------------------------------------ building the same transaction locally
def build(js, ps=(), bps=(), rng=None):
    """the transaction of a document, built through constructors and setters instead of read from JSON"""
    from tfchain.types import transactions as T, ConditionTypes as C, FulfillmentTypes as F
    from tfchain.types.PrimitiveTypes import Currency, Hash
    from tfchain.types.IO import CoinOutput, BlockstakeOutput
    from tfchain.types.CryptoTypes import PublicKey

    def cond(c):
        t, d = (c or {}).get('type', 0), (c or {}).get('data') or {}
        if t == 0:
            return C.nil_new()
        if t == 1:
            return C.unlockhash_new(d['unlockhash'])
        if t == 2:
            return C.atomic_swap_new(d['sender'], d['receiver'], d['hashedsecret'], d['timelock'])
        if t == 3:
            return C.locktime_new(lock=d['locktime'], condition=cond(d.get('condition')))
        return C.multi_signature_new(d['minimumsignaturecount'], list(d['unlockhashes']))

    def ful(f):
        t, d = f['type'], f['data']
        if t == 1:
            return F.single_signature_new(PublicKey.from_json(d['publickey']), d['signature'] or None)
        if t == 2:
            return F.atomic_swap_new(PublicKey.from_json(d['publickey']), d['signature'] or None, d.get('secret') or None)
        return F.multi_signature_new([(PublicKey.from_json(p['publickey']), p['signature'] or None) for p in d['pairs']])

    def money(v):
        return Currency.from_json(v) if rng is None or rng.random() < .5 else Currency('%d.%09d' % divmod(int(v or 0), GRAIN))

    def out(p, pid=None):
        return CoinOutput(money(p['value']), cond(p.get('condition')), pid)

    v, d = js['version'], js['data']
    lst = ref.lst
    t = {1: T.new, 128: T.mint_definition_new, 129: T.mint_coin_creation_new, 144: T.threebot_registration_new,
         145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new, 208: T.erc20_convert_new,
         209: T.erc20_coin_creation_new, 210: T.erc20_address_registration_new}[v]()
    if v in (128, 129):     # the nonce is chosen at random, but for a document that is read
        t = T.from_json({'version': v, 'data': {k: x for k, x in d.items() if k in ('nonce', 'mintfulfillment', 'mintcondition')}})
    ps = list(ps) if v not in (128, 129) else []
    for n, i in enumerate(lst(d, 'coininputs')):
        t.coin_input_add(Hash.from_json(i['parentid']), ful(i['fulfillment']),
                         parent_output=out(ps[n], i['parentid']) if ps else None)
    if d.get('refundcoinoutput'):
        r = d['refundcoinoutput']
        t.refund_coin_output_set(money(r['value']), cond(r.get('condition')))
    for o in lst(d, 'coinoutputs'):
        t.coin_output_add(money(o['value']), cond(o.get('condition')))
    for n, i in enumerate(lst(d, 'blockstakeinputs')):
        p = None
        if bps:
            p = BlockstakeOutput(int(bps[n]['value']), cond(bps[n].get('condition')), i['parentid'])
        t.blockstake_input_add(Hash.from_json(i['parentid']), ful(i['fulfillment']), parent_output=p)
    for o in lst(d, 'blockstakeoutputs'):
        t.blockstake_output_add(int(o['value']), cond(o.get('condition')))
    for f in lst(d, 'minerfees'):
        t.miner_fee_add(money(f))
    if 'arbitrarydata' in d:
        t.data = ref.data_of(js)
    if v in (128, 129):
        t.mint_fulfillment = ful(d['mintfulfillment'])
        if v == 128:
            t.mint_condition = cond(d['mintcondition'])
    if v in (144, 145, 146, 208, 209, 210):
        t.transaction_fee = money(d['txfee'])
    if v == 144:
        t.number_of_months = d['nrofmonths']
        t.addresses = lst(d, 'addresses')
        t.names = lst(d, 'names')
        t.public_key = PublicKey.from_json(d['identification']['publickey'])
        t.signature = d['identification']['signature'] or None
    if v == 145:
        t.botid = d['id']
        t.number_of_months = d.get('nrofmonths') or 0
        a, n = d.get('addresses') or {}, d.get('names') or {}
        if rng is not None and rng.random() < .5:
            for x in lst(a, 'remove'):
                t.address_remove(x)
            for x in lst(a, 'add'):
                t.address_add(x)
        else:
            t.addresses_to_add, t.addresses_to_remove = lst(a, 'add'), lst(a, 'remove')
        if rng is not None and rng.random() < .5:
            for x in lst(n, 'add'):
                t.name_add(x)
            for x in lst(n, 'remove'):
                t.name_remove(x)
        else:
            t.names_to_add, t.names_to_remove = lst(n, 'add'), lst(n, 'remove')
        t.signature = d['signature'] or None
    if v == 146:
        t.sender_botid, t.receiver_botid = d['sender']['id'], d['receiver']['id']
        t.sender_signature, t.receiver_signature = d['sender']['signature'] or None, d['receiver']['signature'] or None
        t.names = lst(d, 'names')
    if v == 208:
        t.address, t.value = d['address'], money(d['value'])
    if v == 209:
        t.address, t.value, t.blockid, t.transactionid = d['address'], money(d['value']), d['blockid'], d['txid']
    if v == 210:
        t.public_key = PublicKey.from_json(d['pubkey'])
        t.signature = d['signature'] or None
    return t


GRAIN = ref.GRAIN


def unsigned(js):
    """the same document with nothing signed yet"""
    d = copy.deepcopy(js)
    x = d['data']
    for i in ref.lst(x, 'coininputs') + ref.lst(x, 'blockstakeinputs') + ([{'fulfillment': x['mintfulfillment']}]
                                                                         if 'mintfulfillment' in x else []):
        f = i['fulfillment']
        if f['type'] == 3:
            f['data']['pairs'] = []
        else:
            f['data']['publickey'] = f['data']['signature'] = ''
    if js['version'] == 144:
        x['identification']['signature'] = ''
    if js['version'] in (145, 210):
        x['signature'] = ''
    if js['version'] == 146:
        x['sender']['signature'] = x['receiver']['signature'] = ''
    return d


def tweak(gen, t):
    """changes one field of a transaction object in place, through the API; returns a label or None"""
    from tfchain.types import ConditionTypes as C
    from tfchain.types.PrimitiveTypes import Currency, Hash
    from tfchain.types.CryptoTypes import PublicKey
    r = gen.rng
    v = int(t.version)
    cur = lambda: Currency.from_json(str(gen.value()))
    ops = ['coin_output', 'input_id', 'data', 'fee', 'input_add', 'output_add', 'bs', 'own', 'own', 'reorder']
    op = r.choice(ops)
    cnd = lambda: C.from_json(gen.cond((1, 4, 3)))
    if op == 'coin_output' and t.coin_outputs and v != 209:
        o = r.choice(t.coin_outputs)
        k = r.randrange(3)
        if k == 0:
            o.value = cur()
        elif k == 1:
            o.condition = cnd()
        else:
            c = o.condition
            if isinstance(c, C.ConditionMultiSignature):
                if r.random() < .5:
                    c.required_signatures = c.required_signatures + 1
                else:
                    c.add_unlockhash(gen.addr())
            elif isinstance(c, C.ConditionUnlockHash):
                c.unlockhash = gen.addr()
            elif isinstance(c, C.ConditionLockTime):
                c.lock = gen.lock()
            elif isinstance(c, C.ConditionAtomicSwap):
                c.receiver = gen.addr()
            else:
                return None
        return 'output%d' % k
    if op == 'input_id' and t.coin_inputs:
        r.choice(t.coin_inputs).parentid = Hash(gen.rand(32))
        return op
    if op == 'data' and v in (1, 128, 129):
        t.data = gen.rand(r.randrange(0, 84))
        return op
    if op == 'fee':
        if v in (1, 128, 129):
            if t.miner_fees and r.random() < .5:
                r.choice(t.miner_fees).value = cur()
            else:
                t.miner_fee_add(cur())
        else:
            t.transaction_fee = cur()
        return op
    if op == 'input_add' and v in (1, 144, 145, 146, 208, 210):
        p = gen.parent((1,))
        from tfchain.types import FulfillmentTypes as F
        t.coin_input_add(Hash(gen.rand(32)), F.from_json(gen.ful(p['condition'])))
        return op
    if op == 'output_add':
        if v in (1, 129):
            t.coin_output_add(cur(), cnd())
        elif v in (144, 145, 146, 208, 210):
            k = r.random()
            if k < .3:
                t.coin_outputs = r.choice([[], None])
            elif k < .6:
                from tfchain.types.IO import CoinOutput
                o = CoinOutput(value=cur(), condition=cnd())
                t.coin_outputs = [o] if r.random() < .7 else o
            else:
                t.refund_coin_output_set(cur(), cnd())
        else:
            return None
        return op
    if op == 'bs' and v == 1:
        t.blockstake_output_add(gen.value(), cnd())
        return op
    if op == 'reorder' and len(t.coin_inputs) > 1:
        t.coin_inputs = list(reversed(t.coin_inputs))
        return op
    if op != 'own':
        return None
    if v == 128:
        t.mint_condition = cnd()
    elif v == 144:
        k = r.randrange(4)
        if k == 0:
            t.names = [gen.name() for _ in range(r.randrange(6))]
        elif k == 1:
            t.addresses = [gen.netaddr() for _ in range(r.randrange(11))]
        elif k == 2:
            t.number_of_months = r.randrange(1, 25)
        else:
            t.public_key = PublicKey.from_json(gen.pk())
    elif v == 145:
        k = r.randrange(6)
        if k == 0:
            t.names_to_add = [gen.name() for _ in range(r.randrange(6))]
        elif k == 1:
            t.names_to_remove = [gen.name() for _ in range(r.randrange(6))]
        elif k == 2:
            t.addresses_to_add = [gen.netaddr() for _ in range(r.randrange(11))]
        elif k == 3:
            t.addresses_to_remove = [gen.netaddr() for _ in range(r.randrange(11))]
        elif k == 4:
            t.number_of_months = r.randrange(0, 25)
        else:
            t.botid = r.randrange(1, 2 ** 32)
    elif v == 146:
        k = r.randrange(3)
        if k == 0:
            t.names = [gen.name() for _ in range(r.randrange(1, 6))]
        elif k == 1:
            t.sender_botid = r.randrange(1, 2 ** 32)
        else:
            t.receiver_botid = r.randrange(1, 2 ** 32)
    elif v == 208:
        if r.random() < .5:
            t.address = '0x' + gen.rand(20).hex()
        else:
            t.value = cur()
    elif v == 209:
        k = r.randrange(4)
        if k == 0:
            t.address = gen.addr()
        elif k == 1:
            t.value = cur()
        elif k == 2:
            t.blockid = '0x' + gen.rand(32).hex()
        else:
            t.transactionid = '0x' + gen.rand(32).hex()
    elif v == 210:
        t.public_key = PublicKey.from_json(gen.pk())
    else:
        return None
    return 'own'
