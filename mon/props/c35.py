"""Hashes, keys, signatures, secrets and other binary values keep exactly the bytes they were given."""
import base64
import hashlib
import json

from .. import ref
from ..gen import Gen

RULE = ('Random byte strings given to every binary value type (hash, signature, swap secret and secret hash, ERC20 address and hash, '
        'free data in hex, base64 and prefixed hex, of free or fixed size, public key, block stake) as bytes, bytearray, text in either '
        'case or another value; bytes, text, JSON, length, equality with values, text and bytes, hashing and both binary forms are '
        'compared with the bytes given; values of wrong length, alphabet or type are assigned and have to be refused without a change. '
        'distinct = distinct (type, form, length).')
REQUIRED = ['made', 'compared', 'different', 'refused', 'keys', 'stakes', 'secret_hashes', 'sets']
ASSUMPTIONS = ['white space inside hexadecimal text and foreign characters in base64 are not judged',
               'comparing values of different size or text encoding is an error by design and not judged']


def kinds():
    from tfchain.types.PrimitiveTypes import Hash, BinaryData
    from tfchain.types.FulfillmentTypes import ED25519Signature
    from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash
    from tfchain.types.ERC20 import ERC20Address, ERC20Hash

    def free(size, enc):
        class B:
            def __new__(cls, value=None):
                return BinaryData(value, fixed_size=size, strencoding=enc)

            @staticmethod
            def from_json(obj):
                return BinaryData.from_json(obj, fixed_size=size, strencoding=enc)
        return B
    out = {'hash': (Hash, 32, 'hex'), 'signature': (ED25519Signature, 64, 'hex'), 'secret': (AtomicSwapSecret, 32, 'hex'),
           'secrethash': (AtomicSwapSecretHash, 32, 'hex'), 'erc20address': (ERC20Address, 20, 'hexprefix'),
           'erc20hash': (ERC20Hash, 32, 'hexprefix')}
    for enc in ('hex', 'base64', 'hexprefix'):
        for size in (None, 8, 32):
            out['data %s %s' % (enc, size)] = (free(size, enc), size, enc)
    return out


def text(b, enc):
    return base64.b64encode(b).decode() if enc == 'base64' else ('0x' if enc == 'hexprefix' else '') + b.hex()


def values(ctx):
    from tfchain.encoders import encoder_sia_get, encoder_rivine_get
    r = ctx.rng
    g = Gen(r)
    K = kinds()
    kind = r.choice(sorted(K))
    cls, size, enc = K[kind]
    n = size if size is not None else r.choice([0, 1, 2, 31, 32, 33, 64, 83, 127, 128, 200, 255, 256, 5000])
    b = g.rand(n) if r.random() < .75 else bytes(n - 1 - (q := r.randrange(n))) + bytes([r.randrange(1, 256)]) + bytes(q) if n and r.random() < .4 else bytes(r.choice([0, 0, 1, 255]) for _ in range(n))
    t = text(b, enc)

    def form(b):
        t = text(b, enc)
        k = r.choice(['bytes', 'bytearray', 'text', 'json', 'value', 'upper', 'late'] + (['bare'] if enc == 'hexprefix' else []))
        if k == 'bytes':
            x = cls(bytes(b))
        elif k == 'bytearray':
            x = cls(bytearray(b))
        elif k == 'text':
            x = cls(t)
        elif k == 'json':
            x = cls.from_json(t)
        elif k == 'value':
            x = cls(cls(bytes(b)))
        elif k == 'upper':
            x = cls(t if enc == 'base64' else t.upper())
        elif k == 'bare':
            x = cls(b.hex())
        else:
            x = cls()
            x.value = r.choice([bytes(b), t, cls(t)])
        return k, x
    k, x = form(b)
    ctx.count('made')
    ctx.key(kind, k, min(n, 64))
    ctx.log('%s of %d bytes from %s', kind, n, k)

    def same(x, b, what):
        t = text(b, enc)
        ctx.eq(bytes(x.value).hex(), b.hex(), '%s: bytes of a %s' % (what, kind))
        ctx.eq(str(x), t, '%s: text of a %s' % (what, kind))
        ctx.eq(x.json(), t, '%s: JSON of a %s' % (what, kind))
        ctx.eq(len(x), len(b), '%s: length of a %s' % (what, kind))
    same(x, b, k)
    k2, y = form(b)
    ctx.check(x == y and not x != y and hash(x) == hash(y), 'a %s from %s and one from %s of the same bytes differ', kind, k, k2)
    ctx.check(x == t and not x != t and (enc == 'hexprefix' or x == bytes(b)) and x == bytearray(b),
              'a %s differs from the text or the bytes it was made of (%s)', kind, t)
    ctx.count('compared')
    z = cls.from_json(json.loads(json.dumps(x.json())))
    ctx.check(z == x and str(z) == t, 'a %s reads back from JSON as %s instead of %s', kind, z, t)
    if n:
        c = bytearray(b)
        c[r.randrange(n)] ^= 1 << r.randrange(8)
        _, w = form(bytes(c))
        ctx.check(x != w and not x == w, 'two different values of %s (%s and %s) compare as equal', kind, b.hex(), bytes(c).hex())
        ctx.check(len({x, y, z, w}) == 2 and w not in {x} and y in {x: 1}, 'values of %s do not work as members of a set', kind)
        ctx.count('different')
        ctx.count('sets')
        # a new value is taken over, the values made from it before keep theirs
        x.value = bytes(c)
        same(x, bytes(c), 'assigned')
        same(y, b, 'not assigned')
        x.value = b
    for name, new, cd in (('sia', encoder_sia_get, ref.Sia), ('rivine', encoder_rivine_get, ref.Riv)):
        e = new()
        e.add(x)
        want = b if size is not None and kind != 'signature' else cd.slice(b)
        ctx.eq(bytes(e.data).hex(), want.hex(), '%s form of a %s' % (name, kind))
    # refused values
    bad = [5, 1.5, [], object(), (1, 2), True]
    if enc != 'base64':
        bad += ['zz' * (n or 1), t + '0', '0x' + 'g' * (2 * n or 2)]
        if enc == 'hex':
            bad += ['0x' + b.hex()] * 2
        else:
            bad += [r.choice(['1x', 'xx', '0y', 'ax', '0x0x', 'Xx', '\\x', '00x', 'x']) + b.hex() for _ in range(3)]
    if size is not None:
        bad += [b + b'\0', b[:-1], text(b + b'\0', enc), text(b[:-1], enc), b * 2] * 2
    v = r.choice(bad)
    how = r.choice(['new', 'assign', 'json'])
    if how == 'json' and not isinstance(v, str):
        v = r.choice([5, True, [], {}, b'\0' * n])
    try:
        if how == 'new':
            w = cls(v)
        elif how == 'json':
            w = cls.from_json(v)
        else:
            x.value = v
            w = x
    except Exception:
        ctx.count('refused')
    else:
        ctx.fail('%r is accepted as a %s: %s', v, kind, w)
    same(x, b, 'after a refused value')


def empty(ctx):
    """nothing is nothing, in each of its forms"""
    r = ctx.rng
    K = kinds()
    kind = r.choice(sorted(K))
    cls, size, enc = K[kind]
    for f in (lambda: cls(), lambda: cls(None), lambda: cls(b''), lambda: cls(bytearray()), lambda: cls(''), lambda: cls.from_json('')):
        x = f()
        ctx.check(len(x) == 0 and len(x.value) == 0, 'an empty %s has %d bytes', kind, len(x))
        want = '00' * 32 if kind == 'hash' else ('0x' if enc == 'hexprefix' else '')
        ctx.eq(str(x), want, 'text of an empty ' + kind)
        ctx.eq(x.json(), want, 'JSON of an empty ' + kind)
        ctx.check(x == cls() and hash(x) == hash(cls()), 'two empty values of %s differ', kind)
        ctx.count('compared')
    ctx.key(kind, 'empty')


def keys(ctx):
    from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
    from tfchain.types.PrimitiveTypes import Hash
    r = ctx.rng
    g = Gen(r)
    b = g.rand(32)
    t = 'ed25519:' + b.hex()
    forms = [lambda: PublicKey.from_json(t), lambda: PublicKey(PublicKeySpecifier.ED25519, b), lambda: PublicKey(PublicKeySpecifier.ED25519, Hash(b)),
             lambda: PublicKey(specifier=PublicKeySpecifier.ED25519, hash=b.hex()), lambda: PublicKey.from_json('ed25519:' + b.hex().upper())]
    k = r.randrange(len(forms))
    p = forms[k]()
    ctx.count('keys')
    ctx.key('key', k)
    ctx.eq([str(p), p.json(), str(p.specifier), bytes(p.hash.value).hex(), str(p.unlockhash)],
           [t, t, 'ed25519', b.hex(), ref.pubkey_address(t)], 'public key made in way %d' % k)
    q = PublicKey.from_json(p.json())
    ctx.eq(str(q), t, 'public key read back')
    c = g.rand(32)
    q.hash = r.choice([c, c.hex(), Hash(c)])
    ctx.eq([str(q), str(q.unlockhash)], ['ed25519:' + c.hex(), ref.pubkey_address('ed25519:' + c.hex())], 'public key after an assignment')
    ctx.eq([str(p), str(p.unlockhash)], [t, ref.pubkey_address(t)], 'another public key after an assignment')
    for v in (None, ''):
        z = PublicKey.from_json(v)
        ctx.eq([str(z), int(z.specifier)], [':' + '00' * 32, 0], 'absent public key')
    bad = r.choice([b.hex(), 'ed25519', 'ed25519:', ':' + b.hex() + ':', t + ':', 'ed25519:' + b.hex()[:-2], t + '00', 'rsa:' + b.hex(), 'ED25519:' + b.hex(),
                    'ed25519 :' + b.hex(), 'ed25519:' + 'zz' * 32, 'secp256k1:' + b.hex(), 5, [t], b])
    try:
        z = PublicKey.from_json(bad)
    except Exception:
        ctx.count('refused')
    else:
        ctx.fail('%r is accepted as a public key: %s', bad, z)
    for bad in (b[:-1], b + b'\0', 5, 'x'):
        try:
            p.hash = bad
        except Exception:
            ctx.count('refused')
        else:
            ctx.fail('%r is accepted as the bytes of a public key', bad)
    ctx.eq(str(p), t, 'public key after refused values')


def stakes(ctx):
    from tfchain.types.PrimitiveTypes import Blockstake
    r = ctx.rng
    n = r.choice([0, 1, 127, 128, 255, 256, 3000, 2 ** 31, 2 ** 53 + 1, 2 ** 64 - 1, 2 ** 64, r.getrandbits(r.randrange(1, 100))])
    f = r.choice([lambda: Blockstake(n), lambda: Blockstake(str(n)), lambda: Blockstake.from_json(str(n)), lambda: Blockstake(value=n)])
    x = f()
    ctx.eq([int(x), x.value, str(x), x.json()], [n, n, str(n), str(n)], 'block stake')
    ctx.eq(int(Blockstake.from_json(x.json())), n, 'block stake read back')
    ctx.count('stakes')
    ctx.key('stake', n.bit_length())
    for e in (Blockstake(), Blockstake(None), Blockstake.from_json(None), Blockstake.from_json('')):
        ctx.eq([int(e), str(e)], [0, '0'], 'absent block stake')
    for bad in (-1, '-1', 'x', '1.5', 1.5, [], '0x10', b'1'):
        try:
            x.value = bad
        except Exception:
            ctx.count('refused')
        else:
            ctx.fail('%r is accepted as an amount of block stakes: %s', bad, x)
    ctx.eq(int(x), n, 'block stake after refused values')


def secrets(ctx):
    from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash
    from tfchain.types.ERC20 import ERC20Address
    from tfchain.types.ConditionTypes import UnlockHash
    r = ctx.rng
    g = Gen(r)
    b = g.rand(32)
    h = AtomicSwapSecretHash.from_secret(AtomicSwapSecret(r.choice([b, b.hex()])))
    ctx.eq(str(h), hashlib.sha256(b).hexdigest(), 'hash of a secret')
    ctx.count('secret_hashes')
    for bad in (b, b.hex(), None, AtomicSwapSecretHash(b)):
        try:
            h = AtomicSwapSecretHash.from_secret(bad)
        except Exception:
            ctx.count('refused')
        else:
            ctx.fail('the hash of %r, no secret, is %s', bad, h)
    a = g.addr()
    ctx.eq(str(ERC20Address.from_unlockhash(UnlockHash.from_json(a))), ref.erc20_of_address(a), 'ERC20 address of ' + a)
    e = g.rand(20)
    t = r.choice([e.hex(), '0x' + e.hex(), '0X' + e.hex().upper(), e, bytearray(e), ERC20Address(e)])
    ctx.check(ERC20Address.is_valid_value(t) is True, 'the ERC20 address %r is taken as invalid', t)
    t = r.choice([e.hex()[:-1], '0x' + e.hex() + '00', 'x' + e.hex(), '0x', '', e[:-1], e + b'\0', None, 5, 'g' * 40, '0x' + e.hex()[:-2]])
    ctx.check(ERC20Address.is_valid_value(t) is False, 'the ERC20 address %r is taken as valid', t)
    ctx.key('secret', type(t).__name__)


PARTS = [('values', 6000, 90000, values), ('empty', 300, 1500, empty), ('keys', 1500, 15000, keys), ('stakes', 800, 8000, stakes),
         ('secrets', 1500, 15000, secrets)]
