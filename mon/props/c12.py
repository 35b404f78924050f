"""Addresses round-trip and any corrupted address is refused."""
import json

from .. import ref
from ..gen import Gen
from ..world import World, drive, OracleFail, tft

RULE = ('Random addresses of every kind and public keys written, read, copied, compared, encoded and hashed; and corrupted ones (one or '
        'several characters changed, swapped, dropped, added, wrong checksum or type prefix, stray and non-ASCII characters, other '
        'types) offered to every function that accepts an address (parser, conditions, recipients, JSON documents, balances, wallet '
        'payments, refunds, sources, swaps, ERC20, client lookups), each of which must refuse them and push nothing. '
        'distinct = distinct (entry point, corruption).')
REQUIRED = ['round_trips', 'refused', 'keys', 'keys_refused', 'wallet_refused', 'case_variants', 'comparisons']
ASSUMPTIONS = ['texts that differ from a printed address only in the letter case of hexadecimal digits are not judged, nor is whether '
               'an address kind above 3 is accepted', 'whitespace inside the digits of a public key is not judged']
HEX = '0123456789abcdef'


def corrupt(r, a):
    """(kind of corruption, text) that is certainly not an address"""
    while True:
        k = r.choice(['digit', 'digit', 'digits', 'swap', 'drop', 'add', 'checksum', 'type', 'stray', 'stray', 'space', 'prefix', 'half',
                      'case and digit', 'zero checksum', 'letter', 'unicode', 'double', 'sign', 'nil', 'shift', 'tail', 'inner space', 'wrap'])
        i = r.randrange(78)
        if k == 'digit':
            b = a[:i] + r.choice(HEX) + a[i + 1:]
        elif k == 'digits':
            b = list(a)
            for _ in range(r.randrange(2, 8)):
                b[r.randrange(78)] = r.choice(HEX)
            b = ''.join(b)
        elif k == 'swap':
            j = r.randrange(77)
            b = a[:j] + a[j + 1] + a[j] + a[j + 2:]
        elif k == 'drop':
            b = a[:i] + a[i + r.choice([1, 2, 12]):]
        elif k == 'add':
            b = a[:i] + ''.join(r.choice(HEX) for _ in range(r.choice([1, 2, 12]))) + a[i:]
        elif k == 'checksum':
            j = r.randrange(66, 78)
            b = a[:j] + r.choice(HEX) + a[j + 1:]
        elif k == 'zero checksum':
            b = a[:66] + '0' * 12
        elif k == 'type':
            b = r.choice(['00', '01', '02', '03', '0x', '1', '+1', ' 1', '-1', '1 ', '1_', 'a1']) + a[2:]
        elif k == 'sign':
            b = r.choice([' ' + a[1], '+' + a[1], a[1] + ' ', '\t' + a[1]]) + a[2:]
        elif k == 'stray':
            b = r.choice([a + '\n', '\n' + a, a + '\0', a + '\r', '"' + a + '"', a + ',', 'tft:' + a, a + '=', a + ' ', ' ' + a])
        elif k == 'space':
            j = r.choice([1, 2, 3, 64, 65, 66, 67, 76, 77])
            b = a[:j] + r.choice([' ', '\t', '\n']) + a[j + 1:]
        elif k == 'inner space':       # whitespace that a lenient hexadecimal parser skips, in texts of the right length
            j = r.randrange(1, 38) * 2
            b = a[:j] + '  ' + a[j + 2:]
        elif k == 'wrap':
            j = r.randrange(1, 33) * 2
            b = a[:j] + r.choice([' ', '\n']) + a[j:]
        elif k == 'prefix':
            b = r.choice(['0x', '0X', '#']) + r.choice([a, a[2:], a[:-2]])
        elif k == 'half':
            b = r.choice([a[:39], a[:66], a[2:66], a[2:], a[:64], a[1:]])
        elif k == 'case and digit':
            j = r.randrange(2, 66)
            b = (a[:j] + r.choice(HEX) + a[j + 1:]).upper()
        elif k == 'letter':
            b = a[:i] + r.choice('ghioxzGO_') + a[i + 1:]
        elif k == 'unicode':
            b = a[:i] + r.choice(['\u0661', '\uff11', 'é', '\u200b', '\u0430']) + a[i + 1:]
        elif k == 'double':
            b = a + a
        elif k == 'nil':
            b = r.choice(['', ' ', '0', '00', '00' * 32, '00' * 38, '0' * 77 + '1', '01' + '0' * 76, '0' * 65 + '1' + '0' * 12])
        elif k == 'shift':
            b = a[1:] + a[0]
        else:
            b = a[:66] + a[66:][::-1]
        if b.lower() == a or ref.uh_valid(b) or b.lower() == ref.NIL or ref.uh_valid(b.lower()):
            continue
        return k, b


def types():
    from tfchain.types import ConditionTypes as C
    return C


def library(g, bad):
    """(entry point, function) of every library function that takes address text"""
    from tfchain.types import ConditionTypes as C, transactions as T
    from tfchain.types.IO import CoinOutput
    from tfchain.types.ERC20 import ERC20Address
    a = g.addr()
    h = g.rand(32).hex()

    def cond(t, **d):
        return lambda: C.from_json({'type': t, 'data': d})

    def setter(o, k):
        return lambda: setattr(o, k, bad)

    def tx(d):
        return lambda: T.from_json(d)
    out = {'value': '5', 'condition': {'type': 1, 'data': {'unlockhash': bad}}}
    t9 = T.erc20_coin_creation_new()
    return [
        ('parse', lambda: C.UnlockHash.from_json(bad)),
        ('compare', lambda: C.UnlockHash.from_json(a) == bad),
        ('differ', lambda: C.UnlockHash.from_json(a) != bad),
        ('unlockhash_new', lambda: C.unlockhash_new(bad)),
        ('unlockhash set', setter(C.unlockhash_new(a), 'unlockhash')),
        ('recipient', lambda: C.from_recipient(bad)),
        ('recipient locked', lambda: C.from_recipient(bad, lock=5)),
        ('recipient list', lambda: C.from_recipient([a, bad])),
        ('recipient pair', lambda: C.from_recipient((1, [bad, a]))),
        ('recipient pair 2', lambda: C.from_recipient(([a, a, bad], 2))),
        ('multisig', lambda: C.multi_signature_new(1, [bad])),
        ('multisig add', lambda: C.multi_signature_new(1, [a]).add_unlockhash(bad)),
        ('swap sender', lambda: C.atomic_swap_new(bad, a, h, 10 ** 9)),
        ('swap receiver', lambda: C.atomic_swap_new(a, bad, h, 10 ** 9)),
        ('swap sender set', setter(C.atomic_swap_new(a, a, h, 10 ** 9), 'sender')),
        ('swap receiver set', setter(C.atomic_swap_new(a, a, h, 10 ** 9), 'receiver')),
        ('json unlockhash', cond(1, unlockhash=bad)),
        ('json sender', cond(2, sender=bad, receiver=a, hashedsecret=h, timelock=10 ** 9)),
        ('json receiver', cond(2, sender=a, receiver=bad, hashedsecret=h, timelock=10 ** 9)),
        ('json locked', cond(3, locktime=5, condition={'type': 1, 'data': {'unlockhash': bad}})),
        ('json owner', cond(4, unlockhashes=[a, bad], minimumsignaturecount=1)),
        ('json output', lambda: CoinOutput.from_json(out)),
        ('json tx', tx({'version': 1, 'data': {'coinoutputs': [out]}})),
        ('json refund', tx({'version': 208, 'data': {'address': '0x' + '11' * 20, 'value': '1', 'txfee': '1', 'coininputs': [],
                                                     'refundcoinoutput': out}})),
        ('json erc20 creation', tx({'version': 209, 'data': {'address': bad, 'value': '1', 'txfee': '1', 'blockid': '0x' + h, 'txid': '0x' + h}})),
        ('json mint', tx({'version': 128, 'data': {'nonce': 'AAAAAAAAAAA=', 'mintfulfillment': {'type': 1, 'data': {
            'publickey': g.pk(), 'signature': g.sig()}}, 'mintcondition': out['condition'], 'minerfees': ['1']}})),
        ('erc20 creation', setter(t9, 'address')),
        ('erc20 derive', lambda: ERC20Address.from_unlockhash(bad)),
    ]


def parsing(ctx):
    C = types()
    r = ctx.rng
    g = Gen(r, keys=1)
    t = r.choice([1, 1, 1, 2, 3])
    h = g.rand(32)
    a = ref.uh_text(t, h)
    u = C.UnlockHash.from_json(a)
    ctx.eq(str(u), a, 'address written back')
    ctx.eq(u.json(), a, 'address JSON')
    ctx.eq(int(u.type), t, 'kind of %s' % a)
    ctx.eq(u.hash.value.hex(), h.hex(), 'hash of %s' % a)
    v = C.UnlockHash(type=C.UnlockHashType(t), hash=h)
    ctx.eq(str(v), a, 'address of a kind and hash')
    b = ref.uh_text(r.choice([x for x in (1, 2, 3) if x != t]), h)
    w = C.UnlockHash.from_json(b)
    x = bytearray(h)
    x[r.randrange(32)] ^= 1 << r.randrange(8)
    y = C.UnlockHash.from_json(ref.uh_text(t, bytes(x)))
    ctx.check(u == v and u == a and not u != v and not u != a and hash(u) == hash(v), 'address %s differs from itself', a)
    for z in (w, y):
        ctx.check(u != z and u != str(z) and not u == z and not u == str(z), '%s equals %s', a, z)
    ctx.check({u: 1}.get(v) == 1 and {u: 1}.get(w) is None, 'address %s as a key', a)
    ctx.count('comparisons')
    from tfchain.encoders import sia_encode, rivine_encode
    ctx.eq(bytes(sia_encode(u)).hex(), ref.uh_bytes(a).hex(), 'Sia bytes of ' + a)
    ctx.eq(bytes(rivine_encode(u)).hex(), ref.uh_bytes(a).hex(), 'Rivine bytes of ' + a)
    n = C.UnlockHash()
    ctx.eq(str(n), ref.NIL, 'the nil address')
    ctx.check(C.UnlockHash.from_json(ref.NIL) == n and n != u, 'the nil address differs from itself')
    ctx.count('round_trips')
    ctx.key('valid', t, h[0] >> 4)
    up = a.upper() if r.random() < .5 else a[:2] + ''.join(c.upper() if r.random() < .5 else c for c in a[2:])
    try:
        got = str(C.UnlockHash.from_json(up))
    except ValueError:
        pass
    else:
        ctx.eq(got, a, 'address read from %s' % up)
    ctx.count('case_variants')
    for _ in range(4):
        k, bad = corrupt(r, r.choice([a, g.addr()]))
        for what, fn in library(g, bad) if r.random() < .3 else library(g, bad)[:3]:
            try:
                z = fn()
            except Exception:
                ctx.count('refused')
                ctx.key(what, k)
                continue
            ctx.fail('%s accepts %r (%s)%s', what, bad, k, '' if z is None else ' as %s' % getattr(z, 'json', lambda: z)())
    for z in (None, 5, b'x' * 78, a.encode(), [a], {'a': a}, 1.5, True):
        try:
            C.UnlockHash.from_json(z)
        except Exception:
            ctx.count('refused')
            continue
        ctx.fail('UnlockHash.from_json accepts %r', z)
    ctx.sample({'address': a, 'corrupted': bad})


def keys(ctx):
    from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
    from tfchain.types import transactions as T, FulfillmentTypes as F
    r = ctx.rng
    g = Gen(r, keys=1)
    h = g.rand(32)
    p = 'ed25519:' + h.hex()
    k = PublicKey.from_json(p)
    ctx.eq(str(k), p, 'public key written back')
    ctx.eq(k.json(), p, 'public key JSON')
    ctx.eq(str(k.unlockhash), ref.pubkey_address(p), 'address of %s' % p)
    ctx.eq(k.hash.value.hex(), h.hex(), 'key of %s' % p)
    k2 = PublicKey(specifier=PublicKeySpecifier.ED25519, hash=h)
    ctx.eq(str(k2), p, 'public key of a specifier and hash')
    ctx.eq(str(k2.unlockhash), ref.pubkey_address(p), 'address of the built %s' % p)
    ctx.count('keys')
    x = h.hex()
    i = r.randrange(64)
    bads = [('short', p[:-2]), ('short', p[:-r.randrange(1, 40)]), ('long', p + r.choice(['0', '00', 'ff' * 8])), ('hex', p[:8 + i] + 'g' + p[9 + i:]),
            ('algorithm', r.choice(['ed25518', 'secp256k1', 'rsa', 'ed25519 ', ' ed25519', 'ed', 'ED-25519', 'ED25519', 'Ed25519', 'e', '1', '0']) + ':' + x),
            ('none', x), ('two', 'ed25519:' + p), ('two', p + ':' + x), ('two', 'ed25519::' + x), ('prefix', 'ed25519:0x' + x),
            ('prefix', 'ed25519:0x' + x[2:]), ('comma', 'ed25519,' + x), ('unicode', p[:8 + i] + '\u0661' + p[9 + i:]), ('empty', 'ed25519:'),
            ('dash', 'ed25519-' + x), ('odd', p[:-1]), ('space', 'ed25519 ' + x), ('nul', p + '\0'), ('text', 'x'), ('colon', ':' + x + ':')]
    sig = g.sig()
    for what, b in bads:
        for where, fn in (('PublicKey', lambda: PublicKey.from_json(b)),
                          ('fulfillment', lambda: F.from_json({'type': 1, 'data': {'publickey': b, 'signature': sig}})),
                          ('multisig', lambda: F.from_json({'type': 3, 'data': {'pairs': [{'publickey': b, 'signature': sig}]}})),
                          ('swap', lambda: F.from_json({'type': 2, 'data': {'publickey': b, 'signature': sig, 'secret': x}})),
                          ('record', lambda: T.from_json({'version': 144, 'data': {
                              'nrofmonths': 1, 'names': ['aaaaa.bbbbb'], 'txfee': '1', 'coininputs': [],
                              'identification': {'publickey': b, 'signature': sig}}})),
                          ('registration', lambda: T.from_json({'version': 210, 'data': {
                              'pubkey': b, 'tftaddress': ref.pubkey_address(p), 'erc20address': ref.erc20_of_address(ref.pubkey_address(p)),
                              'signature': sig, 'regfee': str(10 * ref.GRAIN), 'txfee': '1', 'coininputs': []}}))):
            try:
                z = fn()
            except Exception:
                ctx.count('keys_refused')
                ctx.key('key', what, where)
                continue
            ctx.fail('%s accepts the public key %r (%s) as %s', where, b, what, z.json())
    for z in (5, [p], {'a': 1}, p.encode(), 1.5):
        try:
            PublicKey.from_json(z)
        except Exception:
            ctx.count('keys_refused')
            continue
        ctx.fail('PublicKey.from_json accepts %r', z)


def wallets(ctx):
    """every wallet and client call that takes an address"""
    from tfchain.types.PrimitiveTypes import Currency
    r = ctx.rng
    w = World(ctx, parties=2, rich=True)

    def go():
        p = w.parties[0]
        g = Gen(r, keys=1)
        for _ in range(3):
            k, bad = corrupt(r, r.choice([p.addr(0), w.parties[1].addr(0), g.addr()]))
            bad = bad or '0'              # an empty text may stand for nothing given
            ok = w.parties[1].addr(0)
            wl, cl = p.wallet, p.client
            calls = [
                ('coins_send', lambda: wl.coins_send(bad, '1')),
                ('coins_send owners', lambda: wl.coins_send([ok, bad], '1')),
                ('coins_send pair', lambda: wl.coins_send((1, [bad, ok]), '1')),
                ('coins_send refund', lambda: wl.coins_send(ok, '1', refund=bad)),
                ('coins_send refund owners', lambda: wl.coins_send(ok, '1', refund=[bad, ok])),
                ('coins_send source', lambda: wl.coins_send(ok, '1', source=bad)),
                ('coins_send sources', lambda: wl.coins_send(ok, '1', source=[p.addr(0), bad])),
                ('builder', lambda: wl.coin_transaction_builder_new().output_add(bad, '1')),
                ('builder refund', lambda: wl.coin_transaction_builder_new().output_add(ok, '1').send(refund=bad)),
                ('builder source', lambda: wl.coin_transaction_builder_new().output_add(ok, '1').send(source=bad)),
                ('initiate', lambda: wl.atomicswap.initiate(bad, '5')),
                ('participate', lambda: wl.atomicswap.participate(bad, '5', g.rand(32))),
                ('initiate refund', lambda: wl.atomicswap.initiate(ok, '5', refund=bad)),
                ('initiate source', lambda: wl.atomicswap.initiate(ok, '5', source=bad)),
                ('mint', lambda: wl.minter.coins_new(bad, '1')),
                ('mint definition', lambda: wl.minter.definition_set(bad)),
                ('erc20 register', lambda: wl.erc20.address_register(value=bad)),
                ('erc20 get', lambda: wl.erc20.address_get(value=bad)),
                ('erc20 refund', lambda: wl.erc20.coins_send('0x' + '11' * 20, '1', refund=bad)),
                ('lookup', lambda: cl.unlockhash_get(bad)),
                ('bot refund', lambda: wl.threebot.record_new(months=1, names=['some.name1'], refund=bad)),
                ('key of', lambda: wl.public_key_get(bad) if hasattr(wl, 'public_key_get') else wl.key_pair_get(bad)),
                ('key pair', lambda: wl.key_pair_get(bad)),
            ]
            for what, fn in r.sample(calls, 9):
                n = len(w.chain.pushed)
                try:
                    z = fn()
                except Exception:
                    ctx.count('wallet_refused')
                    ctx.key('wallet', what, k)
                else:
                    if what in ('erc20 refund', 'bot refund') and 'refundcoinoutput' not in z.transaction.json()['data']:
                        ctx.count('refund_not_used')       # nothing was left, so the refund address received nothing
                        continue
                    raise OracleFail({'C12'}, '%s accepts %r (%s)' % (what, bad, k))
                if len(w.chain.pushed) != n:
                    raise OracleFail({'C12'}, '%s pushes a transaction for %r (%s)' % (what, bad, k))
            b = wl.balance
            fee = Currency(tft(w.fee))
            for what, fn in (('drain', lambda: b.drain(bad, fee)), ('drain owners', lambda: b.drain([ok, bad], fee))):
                try:
                    z = fn()
                except Exception:
                    ctx.count('wallet_refused')
                else:
                    if z:
                        raise OracleFail({'C12'}, '%s accepts %r (%s)' % (what, bad, k))
    drive(ctx, w, go)


PARTS = [('parsing', 1200, 60000, parsing), ('keys', 250, 8000, keys), ('wallets', 60, 1500, wallets)]
