import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
W='tfchain/TFChainWallet.py'; C='tfchain/TFChainClient.py'
p('C01','Value conservation and exact delivery in every wallet operation',
 "Whatever wallet operation creates a transaction (coin send, multi-output builder, atomic swap creation or claim, 3Bot registration/update/transfer, ERC20 conversion or registration, drain), the coins of the spent outputs equal exactly the created outputs plus the fees (miner fee, plus the protocol fee or converted value where one applies). Each requested recipient gets exactly the requested amount under exactly the requested condition and lock, exactly once, and everything that is left goes to the refund destination: the one asked for, else the single source address, else the wallet's primary address. No output has a zero value and the miner fee is exactly the network's minimum fee. The arguments a caller hands over are left as they were.",
 ['inputs','histories'],'all reachable ledger states of a wallet, all amounts, recipients, sources, refunds, locks and data, and all sequences of operations',
 'Tests send a handful of fixed amounts from one recorded ledger; they cannot cover ledgers where the selection mixes many outputs, exact-match, dust and refunds.',
 [W],[('funding and refund computation','WalletsBalance.fund, TFChainWallet.coins_send, CoinTransactionBuilder.send, TFChainAtomicSwap._create_contract/_claim_contract, _fund_txn of the 3Bot and ERC20 APIs, WalletBalance.drain')],
 observe=['JSON body of every transaction pushed to the transaction pool','transaction object returned to the caller'])
p('C02','Only own, existing, unspent, unlocked outputs are spent, each once',
 "Every input of a transaction the wallet creates refers to an output that really exists on the chain (or in the pool), has not been spent, is not time- or height-locked at the current chain tip, belongs to one of the source addresses the caller allowed (by default only the personal addresses of the wallet), and appears at most once in that transaction and across the transactions of one drain. A transaction never carries more than 99 inputs.",
 ['inputs','histories'],'all ledgers (locked, unconfirmed, multi-signature, spent outputs; many outputs) and all source arguments',
 'The tests use recorded ledgers in which nearly every output is spendable; they never look at which inputs were picked when locks, unconfirmed spends, >99 outputs or several sources interact.',
 [W],[('output bookkeeping','WalletBalance.output_add / outputs_available'),('selection','WalletsBalance._fund_individual / _fund_multisig'),('input cap','_MAX_RIVINE_TRANSACTION_INPUTS')],
 observe=['inputs of pushed or returned transactions, resolved against the model ledger'])
p('C03','A payment is refused exactly when the allowed sources cannot cover it',
 "If at most 99 of the spendable outputs (confirmed or not) of the allowed source addresses, personal ones or a single multi-signature one, can cover the amount plus all fees, the operation succeeds; otherwise it fails with the insufficient-funds error. Nothing is pushed to the network when it fails.",
 ['inputs','histories'],'all ledgers, amounts around every subset-sum boundary, and sources',
 'Tests exercise one sufficient and one insufficient amount; the boundary (exact amount, one unit more, 99-output window, confirmed/unconfirmed mix) is input-dependent.',
 [W,'tfchain/errors.py'],[('selection','WalletsBalance.fund')],observe=['raised error / pushed transaction compared with an independent best-99 sum over the model ledger'])
p('C04','Reported balances equal the ledger for any chain history',
 "For any chain history the wallet balance reports, per address set and also when printed, exactly the sums a full node would: available (confirmed, unspent, unlocked), locked, unconfirmed and unconfirmed-locked coins, with multi-signature wallets the addresses co-own kept apart and reported with their owners and required signature count. Every kind of transaction that creates or spends coins counts (payments, minting, swaps, 3Bot refunds, ERC20 conversions), each output exactly once, also after merging the balances of several addresses in any order.",
 ['histories','inputs'],'all block histories, pool contents and address sets',
 'The tests replay a few recorded explorer responses; combinations (output created and spent in the same block, spent while unconfirmed, shared multi-signature wallets, coin creation variants) are unbounded.',
 [W,C],[('per-address balance','ExplorerUnlockhashResult.balance'),('merge','WalletBalance/MultiSigWalletBalance/WalletsBalance.balance_add')],
 state=[('outputs','confirmed/unconfirmed and spent/unspent output maps','WalletBalance')],observe=['wallet.balance and unlockhash lookups versus the model ledger'])
p('C05','Every signature the wallet produces is one the network accepts',
 "Each signature in a transaction produced by the wallet verifies, with the public key next to it, over the signature hash that the protocol defines for that transaction version, input and signer, and that public key is the one the spent condition (or record) requires. This includes single and multi-signature inputs, atomic swap claims, minting, 3Bot and ERC20 registration signatures, whatever the number of inputs and the order of signing.",
 ['inputs','histories'],'all wallets, all transaction kinds, any number of inputs and any signing order',
 'Tests compare JSON with signatures recorded from earlier runs for single cases; they never verify a signature under the network rule for arbitrary transactions.',
 [W,'tfchain/types/FulfillmentTypes.py','tfchain/types/transactions/Base.py'],[('signature requests','TransactionBaseClass.signature_requests_new, Fulfillment*.signature_requests_new'),('signing','SpendableKey.sign')],
 observe=['pushed transactions, verified by an independent implementation of the protocol hashes with ed25519'])
p('C06','Fully signed transactions are pushed once; partially signed ones never',
 "A call that creates or signs a transaction pushes it if and only if every required signature is present (all single signatures, at least the required number of co-owner signatures) and the caller allowed it, and then exactly once. A transaction that still misses signatures of multi-signature owners or co-minters is returned as not submitted and can be handed around as JSON to the co-signers, in any order, until it completes, without invalidating the signatures already given.",
 ['histories','inputs'],'all m-of-n wallets, all splits of owners over wallets, and all orders of signing through JSON',
 'The tests cover one 2-of-2 flow; the space of owners, thresholds, orders and mixed inputs is not enumerable by examples.',
 [W,'tfchain/types/FulfillmentTypes.py'],[('submission decision','is_fulfilled, transaction_sign'),('json exchange','transactions.from_json')],
 observe=['number of pushes per transaction; signed/submitted flags; validity of the pushed transaction under the model node'])
p('C07','Signature hashes follow the protocol and cover every signed field',
 "For any transaction of any supported version the signature hash equals the hash a full node computes for the same fields, input index and signer. Changing any field that the protocol puts under the signature (inputs, outputs, conditions, amounts, fees, data, identifiers, names, addresses, nonce, signer) changes the hash, while adding or changing signatures does not.",
 ['inputs'],'all transactions of all versions and all single-field mutations',
 'Tests pin the hash of about ten fixed transactions; a wrong length prefix, order or omitted field may only show for other shapes (empty lists, many outputs, refunds, locks).',
 ['tfchain/types/transactions/Base.py','tfchain/types/transactions/Standard.py','tfchain/types/transactions/Minting.py','tfchain/types/transactions/ThreeBot.py','tfchain/types/transactions/ERC20.py'],
 [('signature hash input','_signature_hash_input_get of each transaction version')],observe=['signature_hash_get on generated and mutated transactions versus an independent encoder'])
p('C08','Output identifiers match the network and are unique',
 "For any transaction, the identifier the library computes for its coin or block stake output at a valid index equals the identifier the network assigns, both for a transaction built locally and for the same transaction read back from the network. Different outputs never share an identifier, and an index that does not exist is refused.",
 ['inputs'],'all transactions of all versions, all indices, before and after a JSON exchange',
 'Tests check the identifiers of a few fixed transactions decoded from JSON, never of locally signed ones or of the versions with extra signatures.',
 ['tfchain/types/transactions/Base.py','tfchain/types/transactions/Standard.py','tfchain/types/transactions/ThreeBot.py','tfchain/types/transactions/ERC20.py','tfchain/types/FulfillmentTypes.py'],
 [('identifier','TransactionBaseClass.coin_outputid_new/blockstake_outputid_new/_id_input_compute')],observe=['computed identifiers versus an independent node model'])
p('C09','Transactions survive a JSON exchange unchanged',
 "Reading any supported transaction (the legacy version aside) from its network JSON and writing it back yields an equivalent JSON document, made only of plain JSON values, with the same signature hashes, output identifiers, required signatures and completeness. Unknown versions, values of the wrong type and malformed addresses, hashes, amounts or public keys are rejected with an error instead of being turned into a different transaction.",
 ['inputs'],'all transactions of all versions (unsigned, partially and fully signed), and malformed documents',
 'The tests round-trip fixed documents; the JSON exchange is the co-signing protocol, so it must hold for every transaction.',
 ['tfchain/types/transactions/Transactions.py','tfchain/types/transactions/Standard.py','tfchain/types/transactions/Minting.py','tfchain/types/transactions/ThreeBot.py','tfchain/types/transactions/ERC20.py','tfchain/types/FulfillmentTypes.py','tfchain/types/ConditionTypes.py','tfchain/types/IO.py'],
 [('decode','transactions.from_json and _from_json_data_object'),('encode','TransactionBaseClass.json')],observe=['parse/serialise cycles'])
p('C10','Sia binary encoding is exact, injective and range-checked',
 "Every value the Sia-style encoder accepts (integers, booleans, bytes, text, lists, objects) is encoded exactly as the format defines: little-endian 8-byte integers, length-prefixed slices counted in bytes or elements, raw arrays. Distinct sequences of values of the same shape give distinct bytes that decode back to the values, and values that do not fit or are of an unsupported type are refused instead of truncated.",
 ['inputs'],'all values of all supported types and nestings',
 'The encoder tests compare a few dozen constants.',
 ['tfchain/encoders/sia.py','tfchain/encoders/exceptions.py'],[('encoder','sia encoder add/add_array/add_slice/add_int')],observe=['encoded bytes versus an independent decoder'])
p('C11','Rivine binary encoding is exact, injective and range-checked',
 "Every value the Rivine-style encoder accepts is encoded exactly as the format defines: little-endian integers of the asked width, slices with the 1-4 byte variable-length prefix, raw arrays. Distinct sequences of values of the same shape decode back to themselves, and values that do not fit the asked width, negative integers, too long slices or unsupported types are refused instead of truncated.",
 ['inputs'],'all values, widths and lengths, in particular around every prefix and width boundary',
 'The encoder tests compare a few dozen constants and limits.',
 ['tfchain/encoders/rivine.py','tfchain/encoders/exceptions.py'],[('encoder','rivine encoder add_int8..64/add_slice/add_array')],observe=['encoded bytes versus an independent decoder'])
p('C12','Addresses round-trip and any corrupted address is refused',
 "A wallet address or public key written as text and read back is the same value, and an address belongs to exactly one kind and hash. Any address text that is not one the library itself would print, up to the letter case of its digits (wrong length, wrong checksum, changed digit, wrong type prefix, stray characters), is refused wherever an address is accepted, so a mistyped address can never receive coins; so is public key text with an unknown algorithm, a key of another length or digits that are not hexadecimal.",
 ['inputs'],'all addresses and all single and multiple character corruptions, at every entry point',
 'Tests read a few valid addresses and one invalid text.',
 ['tfchain/types/ConditionTypes.py','tfchain/types/CryptoTypes.py','tfchain/types/PrimitiveTypes.py'],[('checksum','UnlockHash.from_json')],observe=['parse results on generated and corrupted texts'])
p('C13','Conditions resolve to the network address of their owners',
 "The address of a condition is the one the network derives: a public key hash for single owners, a hash over owners and threshold for multi-signature wallets that does not depend on the order in which owners are listed but does depend on every owner and the threshold, a hash over the contract for atomic swaps, and the inner address for locked conditions. Every condition survives JSON and keeps its binary form, and a recipient given as text, list, pair or nothing becomes exactly the matching condition, with the lock around it when asked. A swap whose parties are not single-key addresses or whose refund time is a block height, and a document with a lock around a swap or around another lock, are refused.",
 ['inputs'],'all conditions, owner sets, orders, thresholds, contracts, locks and recipient forms',
 'Tests check a few fixed conditions.',
 ['tfchain/types/ConditionTypes.py','tfchain/crypto/merkletree.py'],[('address of a condition','Condition*.unlockhash'),('recipient','from_recipient')],observe=['addresses and encodings versus an independent implementation'])
p('C14','Coin amounts are exact: no rounding, no negative, no hidden precision loss',
 "Amounts behave as exact non-negative decimal numbers of at most nine decimals for all values up to the total coin supply: adding, subtracting, comparing and multiplying by whole numbers, in either operand order and with numbers or text, give the exact result as long as it lies within that range. Text, JSON and binary forms convert back to the same amount, with or without unit, and a negative amount or more than nine decimals is refused with the library's error, text that is no amount with an error, each leaving the amount unchanged.",
 ['inputs'],'all amounts, operand kinds and orders, and texts',
 'Tests check a few sums and strings; rounding or sign errors hide in particular operands.',
 ['tfchain/types/PrimitiveTypes.py','tfchain/errors.py'],[('amount type','Currency')],observe=['results versus exact integer arithmetic'])
p('C15','A seed always yields the same keys, and no address is given out twice',
 "From the same seed (words or raw bytes) every wallet derives the same sequence of keys and addresses, as the network's reference derivation does, and the words and the seed convert into each other. Recovering a wallet finds every address that has activity within the scan distance after the last known one, keeps the unused ones before it available, and hands out new addresses that are distinct from all known ones and derived from the same seed.",
 ['inputs','histories'],'all seeds, patterns of used addresses, scan distances, key counts and sequences of address requests',
 'Tests recover one known wallet with three addresses.',
 [W],[('derivation','TFChainWallet._key_pair_new'),('recovery','TFChainWallet._key_scan')],state=[('unused keys','keys found before a used one, not handed out yet','TFChainWallet._unused_key_pairs')],observe=['addresses, key_count, address_new on model chains'])
p('C16','An atomic swap contract is exactly what was agreed, or verification fails',
 "Creating a swap contract locks exactly the agreed amount to the agreed counterparty, with the wallet (its refund address) as sender, the agreed secret hash and the agreed refund time counted from the last block's time, and reports the identifier under which the network knows the contract. Amounts that could not pay for their own redemption are refused. Verification of a contract succeeds if and only if the contract exists, is unspent and every stated expectation (amount, secret hash, minimum refund time, being sender or receiver) is met; each failure has its own error.",
 ['inputs','histories'],'all amounts, participants, refund times, chain times and combinations of expectations',
 'Tests verify one recorded contract with a few expectations.',
 [W,'tfchain/types/AtomicSwap.py','tfchain/types/ConditionTypes.py'],[('creation','TFChainAtomicSwap._create_contract'),('verification','TFChainAtomicSwap.verify')],observe=['contract outputs in pushed transactions, verification results versus a predicate on the model contract'])
p('C17','Only the receiver with the secret, or the sender after time-out, claims a swap',
 "Redeeming succeeds if and only if the contract is unspent, the given secret hashes to the contract's secret hash and the wallet owns the receiver's key; refunding succeeds if and only if the contract is unspent, the refund time has been reached on the chain and the wallet owns the sender's key. A successful claim pays the full contract value minus one minimum miner fee to that one party, is signed with that party's key, reveals the secret only when redeeming, and is accepted by the network; everything else is refused with the error that tells why and pushes nothing.",
 ['inputs','histories'],'all contracts, secrets, chain times around the refund time, ownership combinations (including both sides in one wallet) and claim orders',
 'Tests redeem and refund one recorded contract.',
 [W,'tfchain/types/FulfillmentTypes.py'],[('claims','TFChainAtomicSwap.redeem/refund/_claim_contract')],observe=['pushed claims judged by the model node'])
p('C18','Secrets and seeds cannot be predicted',
 "Swap secrets and wallet seeds created by the library are 32 bytes from the operating system's random source: no two are equal, they do not depend on the state or seeding of the ordinary pseudo-random generator, and the secret hash given to the counterparty is the SHA-256 of the secret.",
 ['inputs','histories'],'all process states, including a pseudo-random generator seeded by the application',
 'Tests can compare sizes only; predictability shows when the generator state is controlled.',
 ['tfchain/types/ConditionTypes.py','tfchain/internal/jsutils.py',W],[('secret generation','AtomicSwapSecret.random'),('seed generation','TFChainWallet.__init__')],observe=['secrets generated under a controlled pseudo-random generator'])
p('C19','Time locks hold until exactly the stated time or height',
 "A lock value below 500 million counts as a block height, otherwise as a timestamp, and an output is locked exactly while the chain's height respectively time is below it. Durations are added to the current time in seconds, absolute dates give that moment, the lock chosen by the caller is the one that ends up in the transaction, and locked coins are neither offered for spending nor counted as available before, and always after.",
 ['inputs','histories'],'all lock values, chain tips around them, and lock notations',
 'Tests use a few fixed locks at one chain tip.',
 ['tfchain/types/ConditionTypes.py','tfchain/internal/jsutils.py',W],[('lock test','OutputLock.locked_check'),('notations','duration.fromString, jsdatetime.fromString')],observe=['locked/available sums and inputs while the model chain advances'])
p('C20','3Bot operations charge the protocol fees and respect the limits',
 "For every registration, update and name transfer the protocol fee paid is exactly the one the network asks for (registration, months with the 12- and 24-month discounts, extra names, any change of network addresses, transferred names), within the limits on months, names and addresses; anything outside these limits, empty requests, and updates or transfers for a 3Bot that is (and stays) expired are refused before anything is pushed. The record keys sign, the new record key is one of the wallet, and record lookups return the stored names, addresses, key and expiration.",
 ['inputs','histories'],'all months, name and address combinations, record states and chain times',
 'Tests check single registrations and updates with one month value each.',
 ['tfchain/types/transactions/ThreeBot.py',W,C],[('fees','required_bot_fees, compute_monthly_bot_fees'),('activity','TFChainThreeBot.record_update/name_transfer')],observe=['pushed 3Bot transactions versus a fee model'])
p('C21','Only well-formed 3Bot names and network addresses are accepted',
 "A 3Bot name or network address is accepted exactly when it is well-formed under the protocol rules (character set, part lengths, total length of 63; hostnames, IPv4 and IPv6 addresses), and then keeps its value in text, JSON and copies and its family in binary form. Everything else, including text with surrounding whitespace or line ends, is refused with a value error.",
 ['inputs'],'all texts near the rules',
 'Tests list about fifteen names and addresses.',
 ['tfchain/types/ThreeBot.py'],[('name rule','BotName'),('address rule','NetworkAddress')],observe=['accept/reject decisions versus an independent hand-written recogniser'])
p('C22','ERC20 conversions and registrations name the right address and amount',
 "Sending coins to an ERC20 address burns exactly the asked value for exactly that address, and is never confused with a payment to a chain address; registering an address pays exactly the fixed registration fee, registers a key of this wallet, and derives the same ERC20 address the network derives. Lookups return exactly the registered pair and confirmation count, only for owned addresses, and keys the wallet does not own are refused.",
 ['inputs','histories'],'all addresses (case, prefix), amounts, keys and lookups',
 'Tests use one address each.',
 ['tfchain/types/ERC20.py','tfchain/types/transactions/ERC20.py',W,C],[('conversion','TFChainERC20.coins_send'),('registration','TFChainERC20.address_register'),('derivation','ERC20Address.from_unlockhash')],observe=['pushed ERC20 transactions and lookups versus the model'])
p('C23','Requests reach any healthy explorer and errors surface as typed errors',
 "As long as one configured explorer is reachable, a read or push is answered by a reachable one whatever the others do (refuse or drop connections) and in whatever order they are tried; a definite server answer (not found, rejected) is reported as the matching typed error and never turned into data, and when nobody is reachable the caller gets the not-available error. A push is delivered to an explorer at most once after it has answered. A client works for the network it is given, else the one its explorer names, with the explorers and the minimum fee of that network; an unknown name stands for no network.",
 ['fault_sequences','schedules'],'all sequences of per-explorer behaviours and all orders in which explorers are tried',
 'The only network test needs the real Internet and is not run.',
 ['tfchain/TFChainExplorerClient.py','tfchain/internal/HttpClient.py'],[('failover','TFChainExplorerClient.get/post')],observe=['requests logged by local fault-injecting servers, results and errors at the client'])
p('C24','Wrong or malformed explorer answers are never accepted as data',
 "When an explorer answers with content for a different block, transaction, output, 3Bot or ERC20 registration, with missing or inconsistent parts (counts of outputs, payouts or spent outputs that do not match), with the wrong kind of object or value, or with text that is not valid JSON, the caller gets an error and no data, the invalid-response error where the answer has the right shape but the wrong content. Data is only returned when it is exactly what was asked for.",
 ['fault_sequences','inputs'],'all corruptions of explorer answers for all lookups',
 'Tests feed well-formed recorded answers only.',
 [C],[('validation','TFChainClient.block_get/transaction_get/unlockhash_get/_output_get/transaction_put and the minter/3Bot/ERC20 clients')],observe=['results of lookups under systematically corrupted answers'])
p('C25','Block, transaction and output lookups return exactly what the chain holds',
 "A block found by height or by identifier, a transaction, and a coin or block stake output are returned with the content, identifiers, heights, timestamps, miner payouts, spent-output data and confirmation state the chain holds, together with the transaction that created and, if any, the one that spent the output. What does not exist gives the no-content error.",
 ['histories','inputs'],'all chain histories and all lookups, including outputs created and spent in the same block or still in the pool',
 'Tests look up a few recorded objects.',
 [C],[('lookups','TFChainClient.block_get/transaction_get/_output_get')],observe=['lookup results versus the model chain'])
p('C26','Transaction lists are complete, duplicate-free and newest first',
 "The list of transactions of an address contains every transaction that touches it exactly once, unconfirmed ones first and then by descending height, each with its identifier, height and known spent outputs. The list for a wallet is the union over its addresses with each transaction once, in the same order, also when some of the addresses were never used.",
 ['histories'],'all chain histories and address sets',
 'Tests look at one recorded address.',
 [C,W],[('sorting and collection','TFChainClient.unlockhash_get, TFChainWallet.transactions')],observe=['lists versus the model chain'])
p('C27','Merkle roots match the reference tree for any sequence of leaves',
 "For any sequence of leaves, the tree root equals the reference construction (leaf and node prefixes, subtrees of equal height joined left to right), after every push, without disturbing later pushes; different sequences give different roots, and asking an empty tree for its root neither fails nor gives the root of anything pushed.",
 ['inputs','histories'],'all leaf sequences and interleavings of pushes and root queries',
 'One test hashes a fixed sequence.',
 ['tfchain/crypto/merkletree.py'],[('tree','MerkleTree.push/root')],observe=['roots versus a recursive reference'])
p('C28','Minting follows the active mint condition',
 "Redefining the minter or creating coins uses the mint condition active at the chain tip, is signed by exactly the parties it asks for and pushed once enough of them signed, whatever the order of signers; a new definition can only be a personal or multi-signature wallet. Coin creation mints exactly the asked amount for exactly the asked recipient, every minting transaction carries a fresh random 8-byte nonce and pays the minimum miner fee, and lookups by height return the condition active at that height.",
 ['histories','inputs'],'all mint conditions, owner splits, signing orders, recipients and amounts',
 'Tests use one recorded mint condition.',
 [W,C,'tfchain/types/transactions/Minting.py'],[('minter API','TFChainMinter'),('lookup','TFChainMinterClient.condition_get')],observe=['pushed minting transactions judged by the model node'])
p('C29','A failed operation leaves no trace and can be repeated',
 "When an operation fails (invalid argument, too little funds, lookup failure, push refused or connection lost before an answer) the error reaches the caller, nothing has been pushed unless the push itself is what failed, and the wallet's balance report and behaviour are as if the call had not been made (only a newly reserved key may stay reserved), so that repeating it when the cause is gone succeeds. A used-up or failed multi-output builder reports that clearly instead of sending again.",
 ['fault_sequences','histories'],'all operations, all points at which a request can fail, and all invalid arguments',
 'Tests never inject failures into the network calls of an operation.',
 [W,C],[('error propagation','TFChainWallet operations over TFChainClient.explorer_get/explorer_post')],observe=['pushes, errors and follow-up behaviour under an injected failure at every request of every operation'])
p('C30','Attached data is carried unchanged and limited to 83 bytes',
 "Arbitrary data (text or bytes) attached to a transaction is carried byte for byte (text as UTF-8) in the signed transaction, in its JSON and when read back, and is covered by the signature; up to 83 bytes are accepted and more are refused by every call that takes data, before anything is pushed, counted in bytes.",
 ['inputs'],'all byte strings and texts around the limit, in all operations that take data',
 'Tests attach one short text.',
 ['tfchain/types/transactions/Standard.py','tfchain/types/transactions/Minting.py',W],[('limit','data setters of the transactions')],observe=['pushed transactions and errors'])
p('C31','A signature request is fulfilled at most once, by its own key only',
 "A request for a signature accepts exactly one signature, made with the key that belongs to the address it asks for (any key only when anyone may spend); a second signature or a foreign key is refused and leaves the transaction unchanged. The requests of a transaction list exactly the signatures that are still missing for the outputs known, each owner once.",
 ['inputs','histories'],'all conditions, keys, partially signed states and orders',
 'Tests only ever sign with the right key once.',
 ['tfchain/types/FulfillmentTypes.py','tfchain/types/transactions/Base.py'],[('request','SignatureRequest.signature_fulfill'),('request lists','signature_requests_new')],observe=['request lists and signing attempts versus a model of missing signatures'])
p('C32','Draining a balance empties it completely and exactly',
 "Draining moves every available output (and with the option every unconfirmed one) of the balance, each in exactly one transaction of at most 99 inputs, to the recipient with the lock and data asked for, outputs that together cannot pay the fee aside, each transaction paying the given miner fee and creating a single output with all the rest. Locked and already spent outputs stay untouched, the drained transactions can be signed and are accepted by the network, and worthless outputs do not stop the rest from being drained.",
 ['inputs','histories'],'all balances (number and size of outputs, locks, unconfirmed), fees, recipients',
 'One test drains a small recorded balance.',
 [W],[('drain','WalletBalance.drain')],observe=['drained transactions versus the model ledger, then signed and judged by the model node'])
TX=['tfchain/types/transactions/Base.py','tfchain/types/transactions/Standard.py','tfchain/types/transactions/Minting.py','tfchain/types/transactions/ThreeBot.py','tfchain/types/transactions/ERC20.py']
p('C33','Transactions and their parts are binary-encoded as the network does',
 "The binary encoding the library gives for any transaction of any version, whether read from the network, built locally or changed since, is byte for byte the encoding the network uses, also for transactions without outputs. The same holds for every part on its own (conditions, fulfillments, inputs, outputs, amounts, addresses, keys, signatures, hashes, names, network addresses, ERC20 values) in the Sia and the Rivine format, and for sequences and lists of them.",
 ['inputs'],'all transactions of all versions and all parts, within the coin supply; swap claims without a secret aside',
 'Tests compare about a dozen fixed transactions; optional parts, flags, counts and length prefixes vary with the input.',
 TX+['tfchain/types/ConditionTypes.py','tfchain/types/FulfillmentTypes.py','tfchain/types/IO.py','tfchain/types/CryptoTypes.py','tfchain/types/PrimitiveTypes.py','tfchain/types/ThreeBot.py','tfchain/encoders/sia.py','tfchain/encoders/rivine.py'],
 [('transaction','binary_encode / _binary_encode_data of each version'),('parts','sia_binary_encode and rivine_binary_encode of every type')],
 observe=['binary_encode and encoder.add versus an independent encoder'])
p('C34','A transaction object holds exactly what its document says and what was set',
 "Every public attribute of a transaction object (inputs, fulfillments, outputs, owners, locks, fees, data, identifiers, names, addresses, months, keys, signatures) equals what its JSON document says, however the object was made. Assigning or adding a value changes that attribute and nothing else, and the JSON document and binary form follow; a value that is out of range, malformed or of the wrong type is refused and leaves the object as it was, and no object changes because another one did. Two transactions compare as equal exactly when they have the same identifier or, without one, the same content, and a printed transaction names its version and identifier.",
 ['inputs','histories'],'all transactions of all versions and all sequences of valid and invalid assignments and additions',
 'Tests read fixed documents and rarely assign; the wallet builds every transaction through these attributes, in many orders and combinations.',
 TX+['tfchain/types/IO.py','tfchain/types/ConditionTypes.py','tfchain/types/FulfillmentTypes.py'],
 [('attributes','properties, setters and *_add methods of each transaction version'),('documents','_from_json_data_object / _json_data_object')],
 observe=['public attributes, json() and binary_encode() versus a model document changed alike'])
p('C35','Hashes, keys, signatures and other binary values keep exactly their bytes',
 "A hash, signature, public key, swap secret or secret hash, ERC20 address or hash, block stake amount or other binary value holds exactly the bytes it was given, in whatever accepted form (bytes, text in either case, JSON, another value), and gives them back as text, JSON and binary. Values are equal, and have the same hash, exactly if their bytes are equal; text, bytes and types that do not fit are refused without changing the value.",
 ['inputs'],'all values, sizes and input forms of all binary value types, and malformed ones',
 'Tests make a few values of each type from one form; every identifier, signature and address of a transaction passes through them.',
 ['tfchain/types/PrimitiveTypes.py','tfchain/types/CryptoTypes.py','tfchain/types/FulfillmentTypes.py','tfchain/types/ConditionTypes.py','tfchain/types/ERC20.py'],
 [('values','BinaryData and its subclasses, PublicKey, Blockstake')],
 observe=['value, text, JSON, length, equality, hash and binary forms versus the bytes given'])

p('C36','Errors and printed reports say what the case is',
 "An error raised for a swap contract, 3Bot, address, amount or explorer answer carries exactly what it is about: the unknown output, the contract with its real terms and whether it is spent, the spending transaction, the expired 3Bot and since when, the foreign address, the amount and fee, the question asked and the answer received. The texts of contracts, transactions, blocks, address lookups and the chain tip show the figures, identifiers, addresses, dates and durations that hold on the chain at that time; contracts are equal exactly if all their terms are.",
 ['histories','inputs','time'],'all refusals and printed reports over all chain states, terms, times and time zones',
 'Tests hardly look at what an error carries or a report shows; users decide on them, for swaps with money at stake.',
 ['tfchain/errors.py','tfchain/types/AtomicSwap.py',W,C,'tfchain/internal/jsutils.py'],
 [('errors','every raise of a library error and its attributes'),('reports','__repr__/__str__ of contracts, lookups, blocks, transactions')],
 observe=['attributes and texts of errors and reports versus the model chain'])


with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    if n>3: print('long',x['id'],n)
