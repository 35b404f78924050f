"""Sia binary encoding is exact, injective and range-checked."""
from .. import ref
from .codec import sequences, BAD, refuses, ints, blob, text, HasInt

RULE = ('Random typed values (integers at all widths and limits, booleans, bytes, unicode text, nested lists, every library object) through '
        'add, add_all, add_array, add_slice, add_int, add_byte, sia_encode, with reset and interleaved encoders; bytes compared with an '
        'independent encoder, read back, and compared with other values of the same shape; unsupported and out of range values must be '
        'refused. distinct = distinct (type, way of encoding) and refused kinds.')
REQUIRED = ['long_slices', 'encoded', 'decoded', 'distinct_pairs', 'objects', 'refused', 'primitive']
ASSUMPTIONS = ['values given to the encoder are built-in values, or objects of the library']


def api():
    from tfchain.encoders import encoder_sia_get, sia_encode
    return encoder_sia_get, sia_encode


def seqs(ctx):
    new, enc = api()
    sequences(ctx, ref.Sia, new, enc)


def primitives(ctx):
    from tfchain.encoders.exceptions import IntegerOutOfRange
    from tfchain.types.transactions.Base import TransactionVersion
    new, enc = api()
    r = ctx.rng
    e = new()
    want = b''
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(8)
        if k == 0:
            v = ints(r)
            e.add_int(v)
            want += ref.le(v)
        elif k == 1:
            v = blob(r, r.random() < .1)
            e.add_array(v)
            want += bytes(v)
        elif k == 2:
            v = text(r)
            e.add_array(v)
            want += v.encode()
        elif k == 3:
            v = blob(r, r.random() < .1)
            e.add_slice(v)
            want += ref.Sia.slice(v)
        elif k == 4:
            v = text(r)
            e.add_slice(v)
            want += ref.Sia.slice(v.encode())
        elif k == 5:
            v = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
            e.add_byte(r.choice([v, bytes([v]), bytearray([v]), TransactionVersion(v)] + ([chr(v)] if v < 128 else [])))
            want += bytes([v])
        elif k == 6:
            v = [ints(r) for _ in range(r.randrange(0, 5))]
            e.add_array(r.choice([list, tuple])(v))
            want += b''.join(map(ref.le, v))
        else:
            v = [text(r) for _ in range(r.randrange(0, 5))]
            e.add_slice(r.choice([list, tuple])(v))
            want += ref.le(len(v)) + b''.join(ref.Sia.slice(x.encode()) for x in v)
        ctx.key('primitive', k)
        ctx.count('primitive')
        ctx.eq(bytes(e.data).hex(), want.hex(), 'encoding after step %d' % k)
    # what does not fit
    k, f = r.choice(BAD)
    v = f(r)
    refuses(ctx, 'add(%r)' % (v,), lambda: bytes(enc(v)).hex())
    ctx.key('bad', k)
    for v in (-1, 2 ** 64, 2 ** 64 + r.getrandbits(80), -r.getrandbits(70) - 1):
        try:
            new().add_int(v)
        except IntegerOutOfRange:
            ctx.count('refused')
        else:
            ctx.fail('add_int(%d) is accepted', v)
    for v in (None, 'x', b'x', 1.5, 2.0 ** 65, [1], object(), '12'):
        refuses(ctx, 'add_int(%r)' % (v,), lambda: new().add_int(v))
    for v in (-1, 256, 1000, 2 ** 64, None, '', 'ab', b'', b'ab', 'é', 1.5, [1], object(), TransactionVersion(256), TransactionVersion(-1)):
        refuses(ctx, 'add_byte(%r)' % (v,), lambda: new().add_byte(v))
    for v in (5, None, 1.5, object()):
        refuses(ctx, 'add_array(%r)' % (v,), lambda: new().add_array(v))
        refuses(ctx, 'add_slice(%r)' % (v,), lambda: new().add_slice(v))


def prefixes(ctx):
    """long slices and lists"""
    new, enc = api()
    r = ctx.rng
    n = 1 << r.randrange(1, 22)
    n = r.choice([n, r.randrange(n // 2, n), 2 ** 8, 2 ** 16, 2 ** 20]) + r.choice([-1, 0, 1, 2])
    kind = r.randrange(5) if n < 2 ** 17 else r.randrange(2)
    e = new()
    k = n
    if kind == 0:
        body = r.getrandbits(8 * n).to_bytes(n, 'big')
        r.choice([e.add_slice, e.add])(r.choice([bytes, bytearray])(body))
    elif kind == 1:
        v = 'x' * max(0, n - 2) + 'é'
        body = v.encode()
        r.choice([e.add_slice, e.add])(v)
        k = len(body)
    elif kind == 2:
        v = [r.random() < .5 for _ in range(n)]
        r.choice([e.add_slice, e.add])(v)
        body = bytes(v)
    elif kind == 3:
        v = [ints(r) for _ in range(n)]
        r.choice([e.add_slice, e.add])(tuple(v) if r.random() < .5 else v)
        body = b''.join(map(ref.le, v))
    else:
        v = 'é' * (n // 2) + 'x' * (n % 2)
        e.add_slice(v)
        body = v.encode()
        k = len(body)
    got = bytes(e.data)
    ctx.check(got == ref.le(k) + body, 'a slice of %d bytes or elements (kind %d) is encoded with prefix %s, %d bytes in all',
              k, kind, got[:8].hex(), len(got))
    ctx.count('long_slices')
    ctx.key('prefix', n.bit_length(), kind)


PARTS = [('prefixes', 150, 1500, prefixes), ('sequences', 4000, 150000, seqs), ('primitives', 2500, 100000, primitives)]
