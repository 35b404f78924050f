"""Shared by the two encoder properties: random typed values, reference encoding and decoding."""
import decimal
import fractions
import json

from .. import ref
from ..gen import Gen

TEXT = 'aZ09 -.\n\0éßλЖ中🙂\u200b'


def text(r):
    return ''.join(r.choice(TEXT) for _ in range(r.choice([0, 1, 2, 5, 30, 63, 64, 127, 128, 200])))


def ints(r, bits=64):
    k = r.randrange(6)
    if k == 0:
        return r.choice([0, 1, 2 ** bits - 1, 2 ** bits - 2])
    if k == 1:
        return min(2 ** bits - 1, (1 << r.randrange(0, bits)) + r.choice([-1, 0, 1]) if bits > 1 else 0) if bits else 0
    if k == 2:
        return r.randrange(256)
    return r.getrandbits(r.randrange(1, bits + 1))


def blob(r, big=False):
    n = r.choice([0, 0, 1, 2, 3, 7, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 300] +
                 ([16383, 16384, 16385, 65535, 65536, 70000] if big else []))
    b = r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    return r.choice([bytes, bytes, bytearray])(b)


OBJECTS = ['hash', 'currency', 'stake', 'address', 'pubkey', 'sig', 'data', 'fixed', 'netaddr', 'name', 'erc20', 'cond', 'ful',
           'coinout', 'coinin', 'bsout']


def shape(r, depth=0):
    k = r.choice(['int', 'int', 'bool', 'bytes', 'bytes', 'text', 'list', 'list', 'obj', 'obj'] if depth < 3 else
                 ['int', 'bool', 'bytes', 'text', 'obj'])
    if k == 'list':
        return ('list', shape(r, depth + 1), r.choice([list, tuple]))
    if k == 'obj':
        return ('obj', r.choice(OBJECTS))
    return (k,)


def obj(g, kind):
    """(library object, plain description, {codec: bytes})"""
    from tfchain.types import ConditionTypes as C, FulfillmentTypes as F
    from tfchain.types.PrimitiveTypes import Currency, Blockstake, Hash, BinaryData
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.ThreeBot import NetworkAddress, BotName
    from tfchain.types.ERC20 import ERC20Address, ERC20Hash
    from tfchain.types.IO import CoinInput, CoinOutput, BlockstakeOutput
    r = g.rng
    both = lambda b: {ref.Sia: b, ref.Riv: b}
    if kind == 'hash':
        b = g.rand(32)
        return r.choice([Hash(b), Hash(b.hex()), Hash.from_json(b.hex()), ERC20Hash(b)]), b.hex(), both(b)
    if kind == 'currency':
        v = g.value(zero=True)
        return Currency.from_json(str(v)), v, {c: c.currency(v) for c in (ref.Sia, ref.Riv)}
    if kind == 'stake':
        v = g.value(zero=True)
        return Blockstake(v), v, {c: c.currency(v) for c in (ref.Sia, ref.Riv)}
    if kind == 'address':
        t, h = r.choice([1, 1, 2, 3]), g.rand(32)
        a = ref.uh_text(t, h)
        return C.UnlockHash.from_json(a), a, both(bytes([t]) + h)
    if kind == 'pubkey':
        p = g.pk()
        return PublicKey.from_json(p), p, {c: c.pubkey(p) for c in (ref.Sia, ref.Riv)}
    if kind == 'sig':
        s = g.sig()
        return F.ED25519Signature(s), s, {c: c.slice(bytes.fromhex(s)) for c in (ref.Sia, ref.Riv)}
    if kind == 'data':
        b = bytes(blob(r))
        return BinaryData(b, strencoding=r.choice([None, 'hex', 'base64', 'hexprefix'])), b.hex(), {
            c: c.slice(b) for c in (ref.Sia, ref.Riv)}
    if kind == 'fixed':
        b = g.rand(r.choice([1, 2, 8, 20, 33]))
        return BinaryData(b, fixed_size=r.choice([0, len(b)])), b.hex(), both(b)
    if kind == 'netaddr':
        a = g.netaddr()
        return NetworkAddress(a), a, both(ref.netaddr_bin(a))
    if kind == 'name':
        n = g.name()
        return BotName(n), n, {c: c.slice(n.encode()) for c in (ref.Sia, ref.Riv)}
    if kind == 'erc20':
        b = g.rand(20)
        return ERC20Address(r.choice([b, '0x' + b.hex(), b.hex()])), b.hex(), both(b)
    if kind == 'cond':
        c = g.cond()
        return C.from_json(json.loads(json.dumps(c))), c, {k: ref.cond_bin(c, k) for k in (ref.Sia, ref.Riv)}
    if kind == 'ful':
        f = g.ful(g.cond((0, 1, 2, 4)), secretless=False)
        if f['type'] == 2 and not f['data'].get('secret'):
            f['data']['secret'] = g.rand(32).hex()
        return F.from_json(json.loads(json.dumps(f))), f, {k: ref.ful_bin(f, k) for k in (ref.Sia, ref.Riv)}
    if kind in ('coinout', 'bsout'):
        o = g.output()
        t = CoinOutput if kind == 'coinout' else BlockstakeOutput
        return t.from_json(json.loads(json.dumps(o))), o, {k: ref.out_bin(o, k) for k in (ref.Sia, ref.Riv)}
    i = {'parentid': g.rand(32).hex(), 'fulfillment': g.ful({'type': 1})}
    return CoinInput.from_json(json.loads(json.dumps(i))), i, {k: ref.in_bin(i, k) for k in (ref.Sia, ref.Riv)}


def value(g, s, cd, big=False):
    """(value for the library, comparable description, reference bytes)"""
    r = g.rng
    k = s[0]
    if k == 'int':
        v = ints(r)
        return v, v, ref.le(v, 8)
    if k == 'bool':
        v = r.random() < .5
        return v, v, bytes([int(v)])
    if k == 'bytes':
        v = blob(r, big)
        return v, bytes(v), cd.slice(v)
    if k == 'text':
        v = text(r)
        return v, v, cd.slice(v.encode('utf-8'))
    if k == 'list':
        n = r.choice([0, 1, 2, 3, 7, 20, 127, 128, 130] if len(s[1]) == 1 and r.random() < .3 else [0, 1, 2, 3])
        vs = [value(g, s[1], cd) for _ in range(n)]
        return s[2](v[0] for v in vs), [v[1] for v in vs], cd.length(n) + b''.join(v[2] for v in vs)
    o, d, b = obj(g, s[1])
    return o, d, b[cd]


def decode(s, cd, b, p):
    """(description, next position): reads back a value of a shape without objects"""
    k = s[0]
    if k == 'int':
        return int.from_bytes(b[p:p + 8], 'little'), p + 8
    if k == 'bool':
        return bool(b[p]), p + 1
    n, p = length(cd, b, p)
    if k == 'bytes':
        return bytes(b[p:p + n]), p + n
    if k == 'text':
        return bytes(b[p:p + n]).decode('utf-8'), p + n
    out = []
    for _ in range(n):
        v, p = decode(s[1], cd, b, p)
        out.append(v)
    return out, p


def length(cd, b, p):
    if cd is ref.Sia:
        return int.from_bytes(b[p:p + 8], 'little'), p + 8
    x = b[p]
    if not x & 1:
        return x >> 1, p + 1
    if not x & 2:
        return int.from_bytes(b[p:p + 2], 'little') >> 2, p + 2
    if not x & 4:
        return int.from_bytes(b[p:p + 3], 'little') >> 3, p + 3
    return int.from_bytes(b[p:p + 4], 'little') >> 3, p + 4


def pure(s):
    return s[0] != 'obj' and (s[0] != 'list' or pure(s[1]))


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


def sequences(ctx, cd, new, encode):
    """random sequences of values, encoded in several ways, compared with the reference and read back"""
    r = ctx.rng
    g = Gen(r, keys=2)
    shapes = [shape(r) for _ in range(r.choice([1, 1, 2, 3, 6]))]
    big = r.random() < .05
    a = [value(g, s, cd, big) for s in shapes]
    want = b''.join(x[2] for x in a)
    e, other = new(), new()
    way = r.randrange(4)
    if way == 0:
        e.add_all(*[x[0] for x in a])
    elif way == 1:
        got = encode(*[x[0] for x in a])
        ctx.eq(bytes(got).hex(), want.hex(), '%s encoding of %r' % (cd.name, [x[1] for x in a]))
        e.add_array([x[0] for x in a])
    else:
        if way == 3:
            e.add(b'something else')
            e.reset()
        for x in a:
            e.add(x[0])
            other.add(r.choice([1, b'x', True]))
    got = bytes(e.data)
    ctx.eq(got.hex(), want.hex(), '%s encoding of %r' % (cd.name, [x[1] for x in a]))
    ctx.count('encoded', len(a))
    for s in shapes:
        ctx.key(s[0], s[1] if len(s) > 1 else '', way)
        if s[0] == 'obj':
            ctx.count('objects')
    if all(pure(s) for s in shapes):
        p = 0
        back = []
        for s in shapes:
            v, p = decode(s, cd, got, p)
            back.append(v)
        ctx.eq(back, [x[1] for x in a], '%s encoding read back' % cd.name)
        ctx.eq(p, len(got), 'bytes read back')
        ctx.count('decoded')
    # the same shape with other values gives other bytes
    b = [value(g, s, cd, big) if r.random() < .5 else x for s, x in zip(shapes, a)]
    if want != b''.join(x[2] for x in b):
        ctx.check(bytes(encode(*[x[0] for x in b])) != got, '%s encodes %r and %r alike', cd.name, [x[1] for x in a], [x[1] for x in b])
        ctx.count('distinct_pairs')
    ctx.sample({'values': repr([x[1] for x in a])[:200], 'bytes': got.hex()[:120]})


BAD = [('none', lambda r: None), ('float', lambda r: r.choice([1.5, .1, -2.5, 1e-9, 2.0 ** 70, 0.5])), ('nan', lambda r: float('nan')),
       ('infinite', lambda r: float('inf')), ('object', lambda r: object()), ('complex', lambda r: 1j),
       ('decimal', lambda r: decimal.Decimal('1.25')), ('fraction', lambda r: fractions.Fraction(5, 2)),
       ('negative', lambda r: -r.choice([1, 2, 255, 2 ** 63])), ('too large', lambda r: 2 ** 64 + r.choice([0, 1, 5, 2 ** 64])),
       ('type', lambda r: r.choice([int, str, len])), ('list with none', lambda r: [1, None]), ('list with float', lambda r: ['a', .5]),
       ('nested', lambda r: [[1], [2, -1]]), ('list too large', lambda r: [2 ** 64])]


def refuses(ctx, what, fn):
    try:
        x = fn()
    except Exception:
        ctx.count('refused')
        return
    ctx.fail('%s is accepted%s', what, '' if x is None else ' as %r' % (x,))
