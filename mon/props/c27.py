"""Merkle roots match the reference tree for any sequence of leaves."""
import hashlib

from .. import ref

RULE = ('Random leaf sequences (0..600 leaves, empty, equal and long leaves, bytes and bytearrays, several hash functions and digest '
        'objects) pushed into several trees at once; after every push the root of each tree is compared with a recursive reference, '
        'root queries are interleaved, repeated and left out, and leaves are overwritten afterwards; roots of different sequences are '
        'collected and compared. distinct = distinct (number of leaves, hash function, query pattern).')
REQUIRED = ['roots', 'pushes', 'empty', 'distinct_roots', 'interleaved', 'multisig_roots']
ASSUMPTIONS = ['the reference follows RFC 6962 (largest power of two to the left), equal to joining subtrees of equal height']


def node(h, ls):
    if len(ls) == 1:
        return h(b'\0' + ls[0])
    k = 1
    while k * 2 < len(ls):
        k *= 2
    return h(b'\1' + node(h, ls[:k]) + node(h, ls[k:]))


FUNCS = {
    'blake2b': (lambda b: hashlib.blake2b(b, digest_size=32).digest(), lambda b: hashlib.blake2b(b, digest_size=32).digest()),
    'blake2b object': (lambda b: hashlib.blake2b(b, digest_size=32), lambda b: hashlib.blake2b(b, digest_size=32).digest()),
    'sha256 object': (hashlib.sha256, lambda b: hashlib.sha256(b).digest()),
    'sha1': (lambda b: hashlib.sha1(b).digest(), lambda b: hashlib.sha1(b).digest()),
    'transparent': (lambda b: b'(' + bytes(b) + b')', lambda b: b'(' + b + b')'),
}


def leaf(r):
    k = r.randrange(6)
    if k == 0:
        return b''
    if k == 1:
        return r.choice([b'\0', b'\1', b'a', b'\0\0'])
    n = r.choice([1, 8, 32, 33, 64, 65, 200])
    return r.getrandbits(8 * n).to_bytes(n, 'big')


def trees(ctx):
    from tfchain.crypto import MerkleTree
    r = ctx.rng
    ts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = r.choice(list(FUNCS))
        ts.append((f, MerkleTree(hash_func=FUNCS[f][0]), []))
    for f, t, _ in ts:
        if r.random() < .5:
            e = bytes(t.root() or b'')
            ctx.check(e in (b'', FUNCS[f][1](b'')), 'an empty tree has root %r', e)
            ctx.count('empty')
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, r.randrange(1, 300), 600 if r.random() < .1 else 12])
    ask = r.choice(['always', 'sometimes', 'end', 'twice'])
    for i in range(n):
        f, t, ls = r.choice(ts)
        if f == 'transparent' and len(ls) > 40:
            continue
        x = r.choice(ls) if ls and r.random() < .15 else leaf(r)
        b = bytearray(x) if r.random() < .5 else x
        t.push(b)
        if isinstance(b, bytearray):          # the caller goes on using its buffer
            b[:] = b'overwritten'
        ls.append(x)
        ctx.count('pushes')
        if ask == 'end' or ask == 'sometimes' and r.random() < .7:
            continue
        for _ in range(2 if ask == 'twice' else 1):
            g, u, us = (f, t, ls) if r.random() < .7 else r.choice(ts)
            if not us:
                continue
            got = u.root()
            ctx.check(isinstance(got, (bytes, bytearray)) and bytes(got) == node(FUNCS[g][1], us),
                      'root of %d leaves (%s, asked %s) is %r', len(us), g, ask, got)
            ctx.count('roots')
            if u is not t or ask == 'twice':
                ctx.count('interleaved')
            if isinstance(got, bytearray) and r.random() < .3:
                pass
    for f, t, ls in ts:
        if not ls:
            continue
        got = t.root()
        ctx.check(bytes(got) == node(FUNCS[f][1], ls), 'final root of %d leaves (%s, asked %s) is %r', len(ls), f, ask, got)
        ctx.eq(bytes(t.root()), bytes(got), 'root asked again')
        ctx.count('roots')
        ctx.key(len(ls), f, ask)
        # another sequence has another root
        ms = list(ls)
        k = r.randrange(5)
        if k == 0:
            i = r.randrange(len(ms))
            ms[i] = ms[i] + b'\0'
        elif k == 1 and len(ms) > 1:
            i = r.randrange(len(ms) - 1)
            ms[i], ms[i + 1] = ms[i + 1], ms[i]
        elif k == 2:
            ms.append(ms[-1])
        elif k == 3 and len(ms) > 1:
            ms.pop(r.randrange(len(ms)))
        elif len(ms) > 1:
            ms[:2] = [ms[0] + ms[1]]
        if ms != ls:
            t2 = MerkleTree(hash_func=FUNCS[f][0])
            for m in ms:
                t2.push(m)
            ctx.check(bytes(t2.root()) != bytes(got), 'the sequences %r and %r have the same root', ls[:6], ms[:6])
            ctx.count('distinct_roots')
    ctx.sample({'leaves': n, 'trees': [f for f, _, _ in ts], 'asked': ask})


def multisigs(ctx):
    """the tree as used: addresses of shared wallets"""
    from tfchain.types import ConditionTypes as C
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 31, 64])
    owners = [ref.uh_text(1, r.getrandbits(256).to_bytes(32, 'big')) for _ in range(n)]
    k = r.randrange(0, n + 2)
    c = C.multi_signature_new(k, owners)
    ctx.eq(str(c.unlockhash), ref.multisig_address(owners, k), 'address of %d of %d' % (k, n))
    ctx.count('multisig_roots')
    ctx.key('multisig', n, k)


PARTS = [('trees', 1500, 60000, trees), ('multisigs', 500, 20000, multisigs)]
