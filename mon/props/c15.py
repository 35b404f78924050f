"""A seed always yields the same keys, and no address is given out twice."""
import hashlib
import os

from .. import ref
from ..chain import Chain, make_client
from ..world import World, drive, cond_uh, cond_ms, cond_lock, OracleFail, tft
from .common import histories

RULE = ('Random seeds of every length as raw bytes and as words, wallets with every initial key count and scan distance on '
        'chains with activity (confirmed, unconfirmed, locked, spent, shared only, ERC20 only) at random key indices, '
        'reservations and new activity interleaved, lookups failing in the middle of a scan; addresses, hand-outs and keys '
        'compared with the reference derivation and a model of the scan. distinct = distinct pattern of activity, key count, '
        'scan distance and steps.')
REQUIRED = ['keys_compared', 'words_checked', 'recoveries', 'keys_recovered', 'unused_kept', 'handed_out', 'scan_faults', 'signed']
ASSUMPTIONS = ['the reference derivation (blake2b of seed and little-endian index, ed25519) is the one of the network',
               'the explorer answers truthfully']


def wordlist():
    import mnemonic
    f = os.path.join(os.path.dirname(mnemonic.__file__), 'wordlist', 'english.txt')
    with open(f) as h:
        return h.read().split()


def words_of(seed):
    """BIP39, from the definition"""
    bits = bin(int.from_bytes(seed, 'big'))[2:].zfill(len(seed) * 8)
    bits += bin(hashlib.sha256(seed).digest()[0])[2:].zfill(8)[:len(seed) // 4]
    w = wordlist()
    return ' '.join(w[int(bits[i:i + 11], 2)] for i in range(0, len(bits), 11))


class Model:
    """the keys a wallet knows: what it hands out and what it finds"""

    def __init__(self, w, n):
        self.known = list(range(max(1, n)))
        self.unused = []
        self.top = max(1, n)
        self.w = w

    def scan(self, used, count):
        if self.unused or count == 0:
            return
        found = self.top
        i = self.top
        while i < found + count:
            if i in used:
                found = i + 1
            i += 1
        for i in range(self.top, found):
            (self.known if i in used else self.unused).append(i)
        self.top = found

    def new(self):
        if self.unused:
            i = self.unused.pop(0)
        else:
            i = self.top
            self.top += 1
        self.known.append(i)
        return i


def keys(ctx):
    """derivation, words, reservations"""
    from tfchain.TFChainWallet import TFChainWallet
    r = ctx.rng
    c = Chain(r, r.choice(World.NETS))
    client, ex = make_client(c)
    raw = r.random() < .2       # a seed of a length that has no words
    n = r.choice([1, 8, 15, 33, 40, 48, 63, 64, 65, 100]) if raw else r.choice([16, 20, 24, 28, 32, 32, 32])
    seed = r.choice([lambda: c.rand(n), lambda: c.rand(n), lambda: bytes(n), lambda: b'\xff' * n, lambda: bytes(n - 1) + b'\1',
                     lambda: b'\1' + bytes(n - 1)])()
    words = words_of(c.rand(32) if raw else seed)
    form = r.choice([0, 2]) if raw else r.randrange(3)
    arg = [seed, words, bytearray(seed)][form]
    count = r.choice([1, 1, 2, 3, 7, 20])
    w = TFChainWallet(seed=arg, client=client, key_count=count, key_scan_count=r.choice([-1, 0, 1, 3, 5]))
    ctx.eq(bytes(w.seed), seed, 'seed of a wallet made from %s' % ('bytes', 'words', 'bytearray')[form])
    if raw:
        w2 = TFChainWallet(seed=bytes(seed), client=client, key_count=count)
        ctx.count('unspeakable_seeds')
    else:
        ctx.eq(w.mnemonic, words, 'words of seed %s' % seed.hex())
        w2 = TFChainWallet(seed=w.mnemonic, client=client, key_count=count)
        ctx.count('words_checked', 2)
    ctx.eq(bytes(w2.seed), seed, 'seed of a wallet made from the words of another')
    want = [ref.derive_address(seed, i) for i in range(count)]
    ctx.eq(w.addresses, want, 'addresses of seed %s' % seed.hex())
    ctx.eq(w2.addresses, want, 'addresses of seed %s read from words' % seed.hex())
    ctx.eq(w.address, want[0], 'primary address')
    ctx.eq(w.key_count, count, 'key count')
    for _ in range(r.randrange(0, 12)):
        i = len(want)
        a = ref.derive_address(seed, i)
        if r.random() < .5:
            ctx.eq(w.address_new(), a, 'new address %d of seed %s' % (i, seed.hex()))
        else:
            pk = w.public_key_new()
            ctx.eq(str(pk), ref.derive_pubkey(seed, i), 'new public key %d of seed %s' % (i, seed.hex()))
        want.append(a)
        if r.random() < .3:
            ctx.eq(w.addresses, want, 'addresses after reserving')
        ctx.count('handed_out')
    ctx.eq(w.addresses, want, 'addresses after reserving')
    ctx.eq(w.key_count, len(want), 'key count after reserving')
    ctx.count('keys_compared', len(want))
    for i in r.sample(range(len(want)), min(len(want), 4)):
        kp = w.key_pair_get(want[i])
        ctx.eq(str(kp.public_key), ref.derive_pubkey(seed, i), 'public key %d' % i)
        ctx.eq(str(kp.unlockhash), want[i], 'address of key pair %d' % i)
        msg = c.rand(32)
        sig = kp.sign(msg)
        ctx.check(ref.verify(ref.derive_pubkey(seed, i), bytes(sig).hex() if not hasattr(sig, 'value') else bytes(sig.value).hex(), msg),
                  'signature of key %d of seed %s does not verify', i, seed.hex())
        ctx.count('signed')
    for a in (ref.uh_text(1, c.rand(32)), ref.derive_address(seed, len(want)), ref.uh_text(3, c.rand(32))):
        try:
            kp = w.key_pair_get(a)
        except KeyError:
            continue
        ctx.fail('key pair %s is given for the foreign address %s', kp.unlockhash, a)
    # seeds that are none
    bad = words.split()
    k = r.randrange(4)
    if k == 0:
        bad = bad[:-1]
    elif k == 1:
        bad[r.randrange(len(bad))] = r.choice(['zzzz', 'tfchain', ''])
    elif k == 2:
        l = wordlist()
        for _ in range(50):         # a changed word whose checksum is wrong
            b2 = list(words.split())
            b2[r.randrange(len(b2))] = r.choice(l)
            idx = ''.join(bin(l.index(x))[2:].zfill(11) for x in b2)
            e = len(idx) * 32 // 33
            s = int(idx[:e], 2).to_bytes(e // 8, 'big')
            if words_of(s) != ' '.join(b2):
                bad = b2
                break
    else:
        bad = bad + bad[:1]
    try:
        TFChainWallet(seed=' '.join(bad), client=client)
    except Exception:
        pass
    else:
        ctx.fail('words %r are accepted as a seed', ' '.join(bad))
    ctx.key('keys', n, form, count, len(want), k)
    ctx.sample({'seed': seed.hex(), 'words': words, 'addresses': want[:4]})


def far(ctx):
    """keys with large indices"""
    from tfchain.TFChainWallet import TFChainWallet
    r = ctx.rng
    c = Chain(r, r.choice(World.NETS))
    client, ex = make_client(c)
    seed = c.rand(32)
    n = 65540 if ctx.thorough and ctx.index % 8 == 0 else r.choice([254, 257, 300, 520, 1030])
    w = TFChainWallet(seed=bytes(seed), client=client, key_count=n)
    for _ in range(r.randrange(1, 6)):
        a = w.address_new()
        ctx.eq(a, ref.derive_address(seed, n), 'new address %d of seed %s' % (n, seed.hex()))
        n += 1
    l = w.addresses
    ctx.eq(len(l), n, 'number of addresses')
    ctx.eq(len(set(l)), n, 'number of distinct addresses')
    idx = [i for k in (7, 8, 9, 16) for i in ((1 << k) - 1, 1 << k, (1 << k) + 1) if i < n] + r.sample(range(n), 20) + [0, n - 1]
    for i in idx:
        ctx.eq(l[i], ref.derive_address(seed, i), 'address %d of seed %s' % (i, seed.hex()))
        ctx.eq(str(w.key_pair_get(l[i]).public_key), ref.derive_pubkey(seed, i), 'public key %d' % i)
    ctx.count('keys_compared', len(idx))
    ctx.key('far', n)


def recovery(ctx):
    """scan for used keys"""
    from tfchain.TFChainWallet import TFChainWallet
    import tfchain.errors as E
    r = ctx.rng
    c = Chain(r, r.choice(World.NETS))
    seed = c.rand(32)
    addr = {}

    def a(i):
        if i not in addr:
            addr[i] = ref.derive_address(seed, i)
        return addr[i]
    used = set()
    other = ref.uh_text(1, c.rand(32))

    def activity(i):
        used.add(i)
        k = r.randrange(8)
        if k == 0:
            c.erc20[a(i)] = (ref.erc20_of_address(a(i)), 3)
        elif k == 1:
            c.grant([(cond_ms([a(i), other], r.choice([1, 2])), 7)], confirmed=r.random() < .7)
        elif k == 2:
            t = c.grant([(cond_uh(a(i)), 10 ** 10)])
            c.spend_foreign([t.coin_ids[0]], [(cond_uh(other), 1)], confirmed=r.random() < .5)
        elif k == 3:
            c.grant([(cond_lock(c.height + 1000, cond_uh(a(i))), 5)], confirmed=r.random() < .7)
        elif k == 4:
            c.grant([(cond_uh(a(i)), 5)], kind='v209', confirmed=r.random() < .7)
        else:
            c.grant([(cond_uh(a(i)), r.randrange(1, 10 ** 12))], confirmed=r.random() < .7)

    dense = r.choice([.15, .3, .5, .9])
    long = r.random() < .06
    dense2 = r.choice([.85, .85, .4, .2])
    for i in range(r.choice([0, 3, 8, 15]) if not long else r.choice([60, 110, 200])):
        if r.random() < (dense if not long else dense2):
            activity(i)
    if r.random() < .4:
        activity(r.randrange(0, 30))
    gap = r.random() < .03 and not long
    if gap:  # a scan distance far over the usual, and activity close to its end
        gap = r.choice([70, 100, 130])
        activity(gap - r.randrange(0, 6))
        ctx.count('wide_gaps')
    client, ex = make_client(c)
    count = r.choice([1, 1, 2, 3, 5])
    scan = r.choice([-1, -1, 0, 1, 2, 3, 4, 6]) if not long else r.choice([-1, 2, 5, 17, 40])
    if long:
        ctx.count('long_scans')
    if gap:
        scan = gap
    dist = 3 if scan == -1 else scan
    m = Model(c, count)
    ctx.log('used %r, key count %d, scan %d', sorted(used), count, scan)
    kw = {} if scan == -1 and r.random() < .5 else {'key_scan_count': scan}
    faulty = r.random() < .4

    def arm():
        n0 = len(ex.requests)
        at = n0 + r.randrange(0, 6)
        e = r.choice([E.ExplorerServerError('GET: error (code: 500)', '/x'), E.ExplorerNotAvailable('no explorer', '/x', ['x']),
                      ConnectionResetError('reset')])
        ex.fault = lambda n, kind, ep: e if n == at else None
        return e

    def quiet(fn, retry=True):
        """run fn, once with a failing lookup in the middle when it comes to that"""
        if faulty and retry and r.random() < .5:
            e = arm()
            try:
                v = fn()
            except type(e):
                ctx.count('scan_faults')
                ex.fault = None
                return fn()
            finally:
                ex.fault = None
            return v
        return fn()
    w = quiet(lambda: TFChainWallet(seed=seed, client=client, key_count=count, **kw))
    m.scan(used, dist)
    ctx.count('recoveries')
    ctx.count('keys_recovered', len(m.known) - count)
    ctx.count('unused_kept', len(m.unused))
    trace = []
    for step in range(r.randrange(2, 12) if not long else r.choice([5, 15, 40])):
        k = r.randrange(6)
        trace.append(k)
        ex.budget = 3000
        if k <= 1:
            i = m.new()
            if r.random() < .6:
                got = w.address_new()
            else:
                got = str(w.public_key_new().unlockhash)
            ctx.log('step %d: new address, expected key %d', step, i)
            ctx.eq(got, a(i), 'new address (used %r, known %r)' % (sorted(used), m.known))
            ctx.count('handed_out')
        elif k == 2:
            i = r.choice([m.top, m.top + r.randrange(0, 5), r.choice(m.known)])
            if i not in used and i not in m.unused:
                activity(i)
                ctx.log('step %d: activity at key %d', step, i)
        else:
            m.scan(used, dist)
            if k == 3:
                l = quiet(lambda: w.addresses)
            elif k == 4:
                b = quiet(lambda: w.balance)
                want = sum(o.value for o in c.unspent({a(i) for i in m.known}, True, True))
                ctx.eq(int(b.available.json()), want, 'available coins of keys %r' % (m.known,))
                l = w.addresses
            else:
                quiet(lambda: w.transactions)
                l = w.addresses
            ctx.log('step %d: addresses', step)
            back = {a(i): i for i in range(m.top + 40)}
            ctx.eq([back.get(x, x) for x in l], m.known, 'known keys (used %r, key count %d, scan distance %d)' % (
                sorted(used), count, dist))
            ctx.eq(w.key_count, m.top, 'key count (used %r)' % sorted(used))
            ctx.eq(w.address, a(0), 'primary address')
            ctx.count('keys_compared', len(l))
            for x in l[-2:]:
                ctx.eq(str(w.key_pair_get(x).unlockhash), x, 'key pair of a recovered address')
    # a second wallet of the same seed sees the same
    m2 = Model(c, m.top)
    m2.scan(used, 3)
    w2 = TFChainWallet(seed=bytes(seed), client=client, key_count=m.top)
    ctx.eq(w2.addresses, [a(i) for i in m2.known], 'addresses of a second wallet of the seed')
    for _ in range(3):
        i = m2.new()
        ctx.eq(w2.address_new(), a(i), 'new address of a second wallet')
    ctx.key('recovery', sorted(used), count, scan, trace)
    ctx.sample({'used': sorted(used), 'key_count': count, 'scan': scan, 'known': m.known, 'unused': m.unused})


W = {'botnew': 6, 'erc20reg': 5, 'send': 3, 'list': 2, 'balance': 3, 'history': 6}
PARTS = [('keys', 200, 4000, keys), ('far', 4, 16, far), ('recovery', 500, 12000, recovery), ('histories', 60, 1500, histories(W, steps=16))]
