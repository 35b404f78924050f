"""Rivine binary encoding is exact, injective and range-checked."""
from .. import ref
from .codec import sequences, BAD, refuses, ints, blob, text

RULE = ('Random typed values (integers of every width at all limits, booleans, bytes, unicode text, nested lists, every library object) '
        'through add, add_all, add_int8..64, add_array, add_slice, add_byte, rivine_encode; slice lengths around every change of prefix '
        'up to the limit; bytes compared with an independent encoder, read back, and compared with other values of the same shape; '
        'values that do not fit must be refused. distinct = distinct (type, way of encoding), widths, prefix lengths and refused kinds.')
REQUIRED = ['encoded', 'decoded', 'distinct_pairs', 'objects', 'refused', 'primitive', 'prefix_lengths', 'limit']
ASSUMPTIONS = ['values given to the encoder are built-in values, or objects of the library']


def api():
    from tfchain.encoders import encoder_rivine_get, rivine_encode
    return encoder_rivine_get, rivine_encode


def seqs(ctx):
    new, enc = api()
    sequences(ctx, ref.Riv, new, enc)


WIDTHS = (8, 16, 24, 32, 64)


def primitives(ctx):
    from tfchain.encoders.exceptions import IntegerOutOfRange
    from tfchain.types.transactions.Base import TransactionVersion
    new, enc = api()
    r = ctx.rng
    e = new()
    want = b''
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(10)
        if k < 4:
            w = r.choice(WIDTHS)
            v = ints(r, w)
            getattr(e, 'add_int%d' % w)(TransactionVersion(v) if r.random() < .1 else v)
            want += ref.le(v, w // 8)
            ctx.key('width', w, v in (0, 2 ** w - 1))
        elif k == 4:
            v = blob(r, r.random() < .1)
            e.add_array(v)
            want += bytes(v)
        elif k == 5:
            v = text(r)
            e.add_array(v)
            want += v.encode()
        elif k == 6:
            v = blob(r, r.random() < .1)
            e.add_slice(v)
            want += ref.Riv.slice(v)
        elif k == 7:
            v = text(r)
            e.add_slice(v)
            want += ref.Riv.slice(v.encode())
        elif k == 8:
            v = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
            e.add_byte(r.choice([v, bytes([v]), bytearray([v]), TransactionVersion(v)] + ([chr(v)] if v < 128 else [])))
            want += bytes([v])
        else:
            v = [ints(r) for _ in range(r.choice([0, 1, 5, 127, 128]))]
            e.add_slice(r.choice([list, tuple])(v))
            want += ref.Riv.length(len(v)) + b''.join(map(ref.le, v))
        ctx.key('primitive', k)
        ctx.count('primitive')
        ctx.eq(bytes(e.data).hex(), want.hex(), 'encoding after step %d' % k)
    k, f = r.choice(BAD)
    v = f(r)
    refuses(ctx, 'add(%r)' % (v,), lambda: bytes(enc(v)).hex())
    ctx.key('bad', k)
    for w in WIDTHS:
        fn = 'add_int%d' % w
        for v in (-1, 2 ** w, 2 ** w + r.getrandbits(70), -r.getrandbits(70) - 1, -2 ** w):
            try:
                getattr(new(), fn)(v)
            except IntegerOutOfRange:
                ctx.count('refused')
            else:
                ctx.fail('%s(%d) is accepted', fn, v)
        for v in (None, 'x', b'x', 1.5, [1], object(), '12', 0.25):
            refuses(ctx, '%s(%r)' % (fn, v), lambda: getattr(new(), fn)(v))
    for v in (-1, 256, 1000, 2 ** 64, None, '', 'ab', b'', b'ab', 'é', 1.5, [1], object(), TransactionVersion(256)):
        refuses(ctx, 'add_byte(%r)' % (v,), lambda: new().add_byte(v))
    for v in (5, None, 1.5, object()):
        refuses(ctx, 'add_array(%r)' % (v,), lambda: new().add_array(v))
        refuses(ctx, 'add_slice(%r)' % (v,), lambda: new().add_slice(v))


def prefixes(ctx):
    """slices around every length at which the prefix changes"""
    new, enc = api()
    r = ctx.rng
    n = r.choice([2 ** 7, 2 ** 14, 2 ** 21, 2 ** 8, 2 ** 16, 2 ** 13, 2 ** 20] + [2 ** 22] * (ctx.index < 4)) + r.choice(
        [-2, -1, 0, 1, 2, r.randrange(-50, 50)])
    if r.random() < .4:
        n = 1 << r.randrange(1, 22)
        n = r.randrange(n // 2, n) + 2
    kind = r.randrange(4) if n < 2 ** 17 else r.randrange(2)
    e = new()
    if kind == 0:
        v = r.getrandbits(8 * n).to_bytes(n, 'big')
        e.add_slice(v)
        body = v
    elif kind == 1:
        v = 'x' * (n - 2) + 'é'
        body = v.encode()
        e.add(v)
        n = len(body)
    elif kind == 2:
        v = [True] * n
        e.add(v)
        body = b'\1' * n
    else:
        v = 'é' * (n // 2) + 'x' * (n % 2)
        e.add_slice(v)
        body = v.encode()
    got = bytes(e.data)
    p = ref.Riv.length(n)
    ctx.check(got[:len(p)] == p and got[len(p):] == body, 'a slice of %d bytes or elements is encoded with prefix %s, %d bytes in all',
              n, got[:4].hex(), len(got))
    ctx.count('prefix_lengths')
    ctx.key('prefix', n, kind)


def limit(ctx):
    """slices as long as the format can express, and longer"""
    new, enc = api()
    for n in (2 ** 29, 2 ** 29 + 1, 2 ** 29 + 2 ** 21):
        v = bytes(n)
        refuses(ctx, 'a slice of %d bytes' % n, lambda: new().add_slice(v))
        del v
    n = 2 ** 26 + 5
    e = new()
    e.add_slice(bytes(n))
    d = e.data
    ctx.check(len(d) == n + 4 and bytes(d[:4]) == ref.Riv.length(n), 'a slice of %d bytes has prefix %s', n, bytes(d[:4]).hex())
    ctx.count('limit')
    ctx.key('limit')


PARTS = [('sequences', 4000, 150000, seqs), ('primitives', 2500, 100000, primitives), ('prefixes', 150, 1500, prefixes),
         ('limit', 1, 1, limit)]
