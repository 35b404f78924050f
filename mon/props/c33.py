"""Transactions and their parts are encoded in binary as the network encodes them."""
import json

from .. import ref
from ..gen import Gen, lib, build, mutate, tweak, VERSIONS

RULE = ('Random transactions of all versions (the first one too), read from JSON, built through the API, exchanged as JSON and changed in '
        'place: binary_encode is compared byte for byte with an independent encoder; and '
        'every kind of part (conditions, fulfillments, inputs, outputs, amounts, addresses, keys, signatures, hashes, names, network '
        'addresses, ERC20 values) on its own in both formats, alone and in sequence. distinct = distinct (version or part, origin, shape).')
REQUIRED = ['encoded', 'encoded_changed', 'legacy', 'parts_sia', 'parts_rivine', 'no_outputs'] + ['v%d' % v for v in VERSIONS]
ASSUMPTIONS = ['the reference encoder follows the network (its identifiers agree with 146 recorded ones)',
               'amounts lie within ten times the coin supply',
               'a swap fulfillment without a secret is left to C08 (recorded finding)']


def reference(js):
    v = js['version']
    b = ref.id_input(js)
    return b if v in (0, 1) else bytes([v]) + b[16:]


def same(ctx, txn, js, what):
    got, want = bytes(txn.binary_encode()), reference(js)
    ctx.count('encoded')
    ctx.key(js['version'], what, min(4, len(ref.coin_outputs(js))), min(4, len(ref.coin_inputs(js))), min(3, len(ref.bs_outputs(js))))
    if not ref.coin_outputs(js) and not ref.bs_outputs(js):
        ctx.count('no_outputs')
    if got != want:
        ctx.fail('%s transaction of version %d is encoded as %s, the network encodes it as %s: %s', what, js['version'], got.hex(),
                 want.hex(), json.dumps(js)[:1500])


def documents(ctx):
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx(secretless=False)
    ctx.count('v%d' % js['version'])
    ctx.sample({'version': js['version'], 'bytes': len(reference(js))})
    if r.random() < .02:
        js['version'] = 1
        js['data'] = {'coinoutputs': [g.output() for _ in range(r.choice([70, 130, 300]))], 'arbitrarydata': g.data()}
        ps = bps = []
    a = lib(js)
    same(ctx, a, js, 'read')
    b = build(js, ps, bps, r)
    same(ctx, b, js, 'built')
    g.attach(b, ps, bps)
    same(ctx, lib(json.loads(json.dumps(b.json()))), js, 'exchanged')
    for _ in range(2):
        m = mutate(g, js)
        if m is None:
            break
        same(ctx, lib(m[1]), m[1], 'changed')
        ctx.count('encoded_changed')
    same(ctx, a, js, 'encoded again')


def legacy(ctx):
    g = Gen(ctx.rng, big=.02)
    js = g.legacy()
    same(ctx, lib(js), js, 'legacy')
    what, d2, _ = g.legacy_change(js)
    same(ctx, lib(d2), d2, 'legacy changed')
    ctx.count('legacy')


def in_place(ctx):
    r = ctx.rng
    g = Gen(r)
    js, ps, bps = g.tx(secretless=False)
    txn = lib(js) if r.random() < .5 else build(js, ps, bps, r)
    for _ in range(r.randrange(2, 6)):
        if r.random() < .5:
            txn.binary_encode()
        label = tweak(g, txn)
        if label is None:
            continue
        for i in txn.coin_inputs:
            if r.random() < .2 and hasattr(i.fulfillment, 'signature'):
                i.fulfillment.signature = bytes.fromhex(g.sig())
        same(ctx, txn, json.loads(json.dumps(txn.json())), 'after ' + label.split(' ')[0])
        ctx.count('encoded_changed')


def part(g, r):
    """(kind, library object, its encoding per format)"""
    from tfchain.types import ConditionTypes as C, FulfillmentTypes as F
    from tfchain.types.IO import CoinOutput, BlockstakeOutput, CoinInput, BlockstakeInput
    from tfchain.types.PrimitiveTypes import Currency, Blockstake, Hash, BinaryData
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.ThreeBot import BotName, NetworkAddress
    from tfchain.types.ERC20 import ERC20Address, ERC20Hash
    k = r.choice(['condition', 'condition', 'fulfillment', 'input', 'output', 'bsinput', 'bsoutput', 'currency', 'blockstake', 'hash',
                  'data', 'pubkey', 'address', 'name', 'netaddr', 'erc20', 'erc20hash', 'signature', 'secret', 'secrethash', 'pair'])
    if k == 'condition':
        c = g.cond()
        return k + str(c.get('type', 0)), C.from_json(c), lambda cd: ref.cond_bin(c, cd)
    if k == 'fulfillment':
        f = g.ful(g.cond(), secretless=False)
        return k + str(f['type']), F.from_json(f), lambda cd: ref.ful_bin(f, cd)
    if k in ('input', 'bsinput'):
        i = g.inputs(1, 1, False)[0][0]
        return k, (CoinInput if k == 'input' else BlockstakeInput).from_json(i), lambda cd: ref.in_bin(i, cd)
    if k in ('output', 'bsoutput'):
        o = g.output() if k == 'output' else g.output((0, 1, 3, 4))
        return k, (CoinOutput if k == 'output' else BlockstakeOutput).from_json(o), lambda cd: ref.out_bin(o, cd)
    if k in ('currency', 'blockstake'):
        v = r.choice([0, 1, 255, 256, 65535, 65536, 2 ** 63, 2 ** 63 + 1, 10 ** 18, r.getrandbits(r.randrange(1, 64))])
        if k == 'blockstake':
            return k, Blockstake(v), lambda cd: cd.currency(v)
        return k, Currency.from_json(str(v)), lambda cd: cd.currency(v)
    if k in ('hash', 'erc20hash', 'secret', 'secrethash'):
        b = g.rand(32)
        cls = {'hash': Hash, 'erc20hash': ERC20Hash, 'secret': C.AtomicSwapSecret, 'secrethash': C.AtomicSwapSecretHash}[k]
        x = cls(value=b) if r.random() < .5 else cls.from_json(('0x' if k == 'erc20hash' else '') + b.hex())
        return k, x, lambda cd: b
    if k == 'data':
        b = g.rand(r.choice([0, 1, 31, 63, 64, 83, 127, 128, 129, 255, 256, 4095, 8191, 8192, 20000]))
        return k + str(len(b) > 127), BinaryData(b), lambda cd: cd.slice(b)
    if k == 'pubkey':
        p = g.pk()
        return k, PublicKey.from_json(p), lambda cd: cd.pubkey(p)
    if k == 'pair':
        p = {'publickey': g.pk(), 'signature': g.sig()}
        return k, F.PublicKeySignaturePair.from_json(p), lambda cd: cd.pubkey(p['publickey']) + cd.slice(bytes.fromhex(p['signature']))
    if k == 'signature':
        s = g.sig()
        if r.random() < .3:        # only the compact format knows a signature of fixed length
            return 'signature array', F.ED25519Signature.from_json(s, as_array=True), \
                lambda cd: bytes.fromhex(s) if cd is ref.Riv else cd.slice(bytes.fromhex(s))
        return k, F.ED25519Signature.from_json(s), lambda cd: cd.slice(bytes.fromhex(s))
    if k == 'address':
        a = r.choice([g.addr(), ref.NIL, ref.cond_address(g.cond())])
        return k, C.UnlockHash.from_json(a), lambda cd: ref.uh_bytes(a)
    if k == 'name':
        n = g.name(long=True)
        return k, BotName(n), lambda cd: cd.slice(n.encode())
    if k == 'netaddr':
        a = g.netaddr()
        return k + str(ref.netaddr_parse(a)[0]), NetworkAddress(a), lambda cd: ref.netaddr_bin(a)
    b = g.rand(20)
    return k, ERC20Address('0x' + b.hex() if r.random() < .5 else b), lambda cd: b


def parts(ctx):
    from tfchain.encoders import encoder_sia_get, encoder_rivine_get
    r = ctx.rng
    g = Gen(r)
    l = [part(g, r) for _ in range(r.randrange(1, 9))]
    for name, new, cd in (('sia', encoder_sia_get, ref.Sia), ('rivine', encoder_rivine_get, ref.Riv)):
        total = b''
        e = new()
        for kind, obj, want in l:
            one = new()
            one.add(obj)
            w = want(cd)
            ctx.count('parts_' + name)
            ctx.key(kind, name, min(len(w), 200))
            ctx.eq(bytes(one.data).hex(), w.hex(), '%s encoding of a %s' % (name, kind))
            total += w
            e.add(obj)
        ctx.eq(bytes(e.data).hex(), total.hex(), '%s encoding of the sequence %s' % (name, [k for k, _, _ in l]))
        e = new()
        e.add_all(*[o for _, o, _ in l])
        ctx.eq(bytes(e.data).hex(), total.hex(), '%s encoding (add_all) of the sequence %s' % (name, [k for k, _, _ in l]))
        e = new()
        e.add_slice([o for _, o, _ in l])
        ctx.eq(bytes(e.data).hex(), (cd.length(len(l)) + total).hex(), '%s encoding of the list %s' % (name, [k for k, _, _ in l]))


PARTS = [('documents', 2600, 40000, documents), ('legacy', 600, 8000, legacy), ('in_place', 900, 12000, in_place), ('parts', 2500, 40000, parts)]
