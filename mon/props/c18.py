"""Secrets and seeds cannot be predicted."""
import contextlib
import hashlib
import os
import random
import ssl

from .. import ref
from ..chain import Chain, make_client
from ..world import World, drive, cond_uh
from .common import histories

RULE = ('Seeds of new wallets and secrets of initiated swaps, made after seeding the ordinary generator alike, in forked '
        'processes of equal state, and with the random sources of the system observed or replaced by a scripted stream: bytes '
        'drawn are counted, every one of the 32 bytes must matter, samples are tested for repeats, stuck and biased bits. '
        'distinct = distinct secret or seed.')
REQUIRED = ['secrets', 'seeds', 'os_bytes', 'forks', 'dependence', 'bits_tested', 'contracts']
ASSUMPTIONS = ['os.urandom, os.getrandom and ssl.RAND_bytes are the random sources of the operating system that Python offers',
               'the distribution test uses limits a correct source exceeds less than once in 10^9 runs']


class Source:
    """observes the system's random sources; a scripted stream replaces them when given"""

    def __init__(self, script=None):
        self.drawn = 0
        self.out = b''
        self.script = script

    def take(self, n, real):
        n = int(n)
        self.drawn += n
        if self.script is None:
            b = real(n)
        else:
            b, i = b'', len(self.out)
            while len(b) < n:
                j = i + len(b)
                b += hashlib.sha256(b'%d' % (j // 32)).digest()[j % 32:]
            b = bytearray(b[:n])
            for p, x in self.script.items():
                if i <= p < i + n:
                    b[p - i] ^= x
            b = bytes(b)
        self.out += b
        return b

    @contextlib.contextmanager
    def on(self):
        ur, gr, rb, ru = os.urandom, os.getrandom, ssl.RAND_bytes, random._urandom
        os.urandom = lambda n: self.take(n, ur)
        os.getrandom = lambda n, flags=0: self.take(n, ur)
        ssl.RAND_bytes = lambda n: self.take(n, rb)
        random._urandom = lambda n: self.take(n, ur)
        try:
            yield self
        finally:
            os.urandom, os.getrandom, ssl.RAND_bytes, random._urandom = ur, gr, rb, ru


def makers(ctx):
    """(name, function giving a fresh secret or seed as bytes)"""
    from tfchain.TFChainWallet import TFChainWallet
    from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash
    r = ctx.rng
    c = Chain(r, 'devnet')
    client, ex = make_client(c)
    w = TFChainWallet(seed=c.rand(32), client=client)
    c.grant([(cond_uh(w.address), 10 ** 15)])
    other = ref.uh_text(1, c.rand(32))

    def seed():
        ex.budget = 5000
        x = TFChainWallet(client=client)
        ctx.eq(len(x.seed), 32, 'length of a seed')
        ctx.eq(len(x.mnemonic.split()), 24, 'number of words of a seed')
        ctx.count('seeds')
        return bytes(x.seed)

    def secret():
        s = AtomicSwapSecret.random()
        ctx.eq(len(s.value), 32, 'length of a secret')
        h = AtomicSwapSecretHash.from_secret(s)
        ctx.eq(bytes(h.value).hex(), hashlib.sha256(bytes(s.value)).hexdigest(), 'hash of secret %s' % s)
        ctx.count('secrets')
        return bytes(s.value)

    def contract():
        ex.budget = 5000
        res = w.atomicswap.initiate(other, r.randrange(2, 9), submit=False)
        s = bytes(res.secret.value)
        ctx.eq(len(s), 32, 'length of the secret of a contract')
        ctx.eq(bytes(res.contract.secret_hash.value).hex(), hashlib.sha256(s).hexdigest(), 'hash in the contract for secret %s' % s.hex())
        k = [o for o in res.transaction.json()['data']['coinoutputs'] if o['condition']['type'] == 2][0]
        ctx.eq(k['condition']['data']['hashedsecret'], hashlib.sha256(s).hexdigest(), 'hash in the transaction for secret %s' % s.hex())
        if s.hex() in repr(res.transaction.json()) or s.hex() in str(res.contract):
            ctx.fail('the transaction of the contract reveals secret %s', s.hex())
        ctx.count('contracts')
        return s
    return [('seed', seed), ('secret', secret), ('contract', contract)]


def sources(ctx):
    """where the bytes come from"""
    r = ctx.rng
    name, make = r.choice(makers(ctx))
    # the ordinary generator does not matter
    x = r.getrandbits(32)
    random.seed(x)
    a = make()
    random.seed(x)
    b = make()
    st = random.getstate()
    d = make()
    random.setstate(st)
    e = make()
    ctx.eq(len({a, b, d, e}), 4, 'distinct %ss after seeding the ordinary generator alike (of 4)' % name)
    # all 32 bytes come from the system
    s = Source()
    with s.on():
        v = make()
    ctx.count('os_bytes', s.drawn)
    ctx.check(s.drawn >= 32, 'a %s takes %d bytes from the random source of the system', name, s.drawn)
    # forked processes of equal state
    make()
    got = []
    for _ in range(2):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(wr, make())
            finally:
                os._exit(0)
        os.close(wr)
        got.append(os.read(rd, 64))
        os.close(rd)
        os.waitpid(pid, 0)
    ctx.check(len(got[0]) == 32 and len(got[1]) == 32, '%s in a forked process: %r', name, got)
    ctx.check(got[0] != got[1], 'forked processes make the same %s %s', name, got[0].hex())
    ctx.count('forks', 2)
    # every byte of the source matters
    base = Source({})
    with base.on():
        u = make()
    again = Source({})
    with again.on():
        u2 = make()
    missing = []
    outs = {u}
    for p in range(min(base.drawn, 32)):
        f = Source({p: 1 << r.randrange(8)})
        with f.on():
            y = make()
        ctx.count('dependence')
        if y == u:
            missing.append(p)
        outs.add(y)
    ctx.check(not missing or u != u2, 'bytes %r drawn from the system do not matter for a %s', missing, name)
    ctx.check(u != u2 or len(outs) == 33, 'a %s takes %d values for 33 different random streams', name, len(outs))
    for v in (a, b, d, e, v) + tuple(got):
        ctx.key(v)
    ctx.sample({'kind': name, 'drawn': s.drawn, 'example': hashlib.sha256(a).hexdigest()})


def distribution(ctx):
    """samples"""
    r = ctx.rng
    name, make = makers(ctx)[[1, 1, 1, 0, 2][ctx.index % 5]]
    n = {'seed': 150, 'secret': 3000, 'contract': 150}[name]
    vals = [make() for _ in range(n)]
    ctx.eq(len(set(vals)), n, 'distinct %ss' % name)
    limit = 6.8 * (n ** .5) / 2
    for byte in range(32):
        col = [v[byte] for v in vals]
        for bit in range(8):
            ones = sum(x >> bit & 1 for x in col)
            ctx.count('bits_tested')
            ctx.check(abs(ones - n / 2) < limit, 'bit %d of byte %d of %d %ss is set %d times', bit, byte, n, name, ones)
        want = 256 * (1 - (255 / 256) ** n)
        ctx.check(len(set(col)) > want - 60, 'byte %d of %d %ss takes %d values', byte, n, name, len(set(col)))
    halves = {v[i:i + 8] for v in vals for i in (0, 8, 16, 24)}
    ctx.eq(len(halves), 4 * n, 'distinct 8-byte parts of %d %ss' % (n, name))
    # neighbours are not the same or counted up
    for v, x in zip(vals, vals[1:]):
        d = bin(int.from_bytes(v, 'big') ^ int.from_bytes(x, 'big')).count('1')
        if not 60 <= d <= 196:
            ctx.fail('%ss %s and %s made one after the other differ in %d bits', name, v.hex(), x.hex(), d)
    for v in vals[:50]:
        ctx.key(v)
    ctx.sample({'kind': name, 'samples': n})


W = {'swap': 12, 'claim': 4, 'history': 4}
PARTS = [('sources', 90, 1500, sources), ('distribution', 15, 200, distribution), ('histories', 40, 600, histories(W, steps=12))]
