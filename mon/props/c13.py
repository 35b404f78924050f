"""Conditions resolve to the network address of their owners."""
import copy
import datetime
import json

from .. import ref
from ..gen import Gen
from ..world import cond_uh, cond_ms, cond_lock, canon

RULE = ('Random conditions of every type read from JSON, built and changed through the API; address, lock, JSON, Sia and Rivine bytes are '
        'compared with an independent implementation; owners reordered, replaced, repeated, thresholds changed, contract fields and '
        'locks changed; and recipients in every notation (none, text, address, bytes, list, pair, condition; with every kind of lock) '
        'compared with the expected condition; swaps with partners that are no single key or with a block height as refund time, and locks around swaps or locks, made, read and set. distinct = distinct (condition, change) and (recipient notation, lock notation).')
REQUIRED = ['conditions', 'reordered', 'changed', 'recipients', 'locked_recipients', 'refused', 'multisig', 'swap', 'golden_addresses']
ASSUMPTIONS = ['the reference addresses follow the network (validated against recorded conditions and signatures)',
               'locks around locks made by the API and multi-signature wallets without owners are not judged']


def norm(c):
    """JSON of a condition as the library prints it, up to empty parts"""
    t = (c or {}).get('type', 0)
    if t == 0:
        return {}
    c = copy.deepcopy(c)
    if t == 3:
        c['data']['condition'] = norm(c['data'].get('condition'))
    return c


def same(ctx, c, js, what):
    """a library condition is exactly the described one"""
    from tfchain.encoders import sia_encode, rivine_encode
    from tfchain.types import ConditionTypes as C
    ctx.eq(str(c.unlockhash), ref.cond_address(js), '%s: address' % what)
    out = json.loads(json.dumps(c.json()))
    ctx.eq(norm(out), norm(js), '%s: JSON' % what)
    ctx.eq(int(c.type), js.get('type', 0), '%s: type' % what)
    ctx.eq(int(c.lock), ref.cond_lock(js), '%s: lock' % what)
    ctx.eq(str(c.unwrap().unlockhash), ref.cond_address(js), '%s: address of the inner condition' % what)
    ctx.eq(int(c.unwrap().type), ref.cond_unwrap(js).get('type', 0), '%s: inner type' % what)
    for cd, enc in ((ref.Sia, sia_encode), (ref.Riv, rivine_encode)):
        ctx.eq(bytes(enc(c)).hex(), ref.cond_bin(js, cd).hex(), '%s: %s bytes' % (what, cd.name))
        ctx.eq(bytes(enc(C.from_json(out))).hex(), ref.cond_bin(js, cd).hex(), '%s: %s bytes after JSON' % (what, cd.name))
    ctx.eq(str(C.from_json(out).unlockhash), ref.cond_address(js), '%s: address after JSON' % what)
    ctx.count('conditions')


def build(js):
    from tfchain.types import ConditionTypes as C
    t, d = js.get('type', 0), js.get('data') or {}
    if t == 0:
        return C.nil_new()
    if t == 1:
        return C.unlockhash_new(d['unlockhash'])
    if t == 2:
        return C.atomic_swap_new(d['sender'], d['receiver'], d['hashedsecret'], d['timelock'])
    if t == 3:
        return C.locktime_new(lock=d['locktime'], condition=build(d['condition']))
    return C.multi_signature_new(d['minimumsignaturecount'], list(d['unlockhashes']))


def change(r, g, js):
    """(label, other condition): one part changed, so the address (or for locks: the bytes) has to change"""
    d = copy.deepcopy(js)
    x = d.get('data') or {}
    t = d.get('type', 0)
    if t == 1:
        x['unlockhash'] = g.addr(1)
        return 'owner', d, True
    if t == 2:
        k = r.choice(['sender', 'receiver', 'hashedsecret', 'timelock', 'exchange'])
        if k == 'exchange':
            x['sender'], x['receiver'] = x['receiver'], x['sender']
        elif k == 'timelock':
            x[k] += r.choice([1, 256, 2 ** 32])
        else:
            x[k] = g.rand(32).hex() if k == 'hashedsecret' else g.addr(1)
        return k, d, d != js
    if t == 3:
        if r.random() < .5 or not x['condition'].get('type'):
            x['locktime'] += 1
            return 'lock', d, False
        l, c, a = change(r, g, x['condition'])
        x['condition'] = c
        return 'locked ' + l, d, a
    if t == 4:
        u = x['unlockhashes']
        k = r.choice(['threshold', 'replace', 'add', 'remove', 'repeat', 'kind'])
        if k == 'threshold':
            x['minimumsignaturecount'] += 1
        elif k == 'replace':
            u[r.randrange(len(u))] = g.addr(1)
        elif k == 'add':
            u.insert(r.randrange(len(u) + 1), g.addr(1))
        elif k == 'remove' and len(u) > 1:
            u.pop(r.randrange(len(u)))
        elif k == 'repeat':
            u.append(r.choice(u))
        else:
            i = r.randrange(len(u))
            u[i] = ref.uh_text(3 if u[i][:2] == '01' else 1, bytes.fromhex(u[i][2:66]))
        return k, d, True
    return None, None, None


def conditions(ctx):
    from tfchain.types import ConditionTypes as C
    r = ctx.rng
    g = Gen(r, keys=2)
    js = g.cond((0, 1, 2, 3, 4, 4, 4, 2))
    t = js.get('type', 0)
    if t == 4:
        u = js['data']['unlockhashes']
        if r.random() < .2:
            u.append(r.choice(u))
        if r.random() < .15:
            u[:] = [ref.uh_text(1, g.rand(32)) for _ in range(r.choice([16, 17, 33, 64]))]
        if r.random() < .2:
            u[0] = ref.uh_text(3, g.rand(32))
        if r.random() < .1:
            js['data']['minimumsignaturecount'] = r.choice([1, 255, 256, 2 ** 32])
        ctx.count('multisig')
    if t == 2:
        ctx.count('swap')
    a = C.from_json(copy.deepcopy(js))
    b = build(js)
    same(ctx, a, js, 'read condition')
    same(ctx, b, js, 'built condition')
    same(ctx, C.from_recipient(b), js, 'condition as recipient')
    if t == 4:
        for _ in range(3):
            p = copy.deepcopy(js)
            r.shuffle(p['data']['unlockhashes'])
            c = build(p)
            ctx.eq(str(c.unlockhash), str(a.unlockhash), 'address with the owners in another order')
            same(ctx, c, p, 'reordered condition')
            ctx.count('reordered')
        own = [r.choice([o, C.UnlockHash.from_json(o)]) for o in js['data']['unlockhashes']]
        own = own if r.random() < .5 else [C.UnlockHash.from_json(str(o)) for o in own]
        c = C.multi_signature_new(js['data']['minimumsignaturecount'], own)
        d = C.multi_signature_new(js['data']['minimumsignaturecount'], own)
        d.add_unlockhash(g.addr(1))
        own.append(g.addr(1))
        same(ctx, c, js, 'condition after the list of owners it was made of, and another condition made of it, got another owner')
        c = C.multi_signature_new(js['data']['minimumsignaturecount'])
        for o in js['data']['unlockhashes']:
            c.add_unlockhash(r.choice([o, C.UnlockHash.from_json(o)]))
            c.unlockhash                                # asking does not disturb
        same(ctx, c, js, 'condition with added owners')
        c.required_signatures = js['data']['minimumsignaturecount'] + 1
        ctx.eq(str(c.unlockhash), ref.multisig_address(js['data']['unlockhashes'], js['data']['minimumsignaturecount'] + 1),
               'address after the threshold changed')
    l, d, moved = change(r, g, js)
    if l:
        c = build(d)
        same(ctx, c, d, 'changed condition (%s)' % l)
        if moved:
            ctx.check(str(c.unlockhash) != str(a.unlockhash) and c.unlockhash != a.unlockhash, 'address %s stays when %s changes: %r %r',
                      a.unlockhash, l, js, d)
        ctx.count('changed')
    # changed in place
    if t == 1:
        n = g.addr(1)
        b.unlockhash = n
        same(ctx, b, cond_uh(n), 'condition with another owner')
    if t == 2:
        n = copy.deepcopy(js)
        k = r.randrange(4)
        if k == 0:
            b.sender = n['data']['sender'] = g.addr(1)
        elif k == 1:
            b.receiver = n['data']['receiver'] = g.addr(1)
        elif k == 2:
            b.hashed_secret = n['data']['hashedsecret'] = g.rand(32).hex()
        else:
            b.lock_time = n['data']['timelock'] = n['data']['timelock'] + 77
        same(ctx, b, n, 'swap changed in place')
    if t == 3:
        n = copy.deepcopy(js)
        b.lock = n['data']['locktime'] = g.lock()
        n['data']['condition'] = g.cond((1, 4))
        b.condition = build(n['data']['condition'])
        same(ctx, b, n, 'lock changed in place')
    same(ctx, a, js, 'the first condition afterwards')
    ctx.key('condition', t, l, ref.cond_unwrap(js).get('type', 0), len((js.get('data') or {}).get('unlockhashes', [])))
    ctx.sample({'condition': js, 'address': str(a.unlockhash)})


def lock_of(r):
    """(notation, library lock, exact value)"""
    k = r.randrange(4)
    if k == 0:
        v = r.choice([1, 2, 499999999, r.randrange(1, 10 ** 7)])
        return 'height', v, v
    if k == 1:
        v = r.choice([500000000, 500000001, r.randrange(5 * 10 ** 8, 4 * 10 ** 9)])
        return 'time', v, v
    from tfchain.types import ConditionTypes as C
    v = r.randrange(1, 2 * 10 ** 9)
    if k == 2:
        return 'lock', C.OutputLock(v), v
    v = r.randrange(5 * 10 ** 8, 4 * 10 ** 9)
    return 'datetime', datetime.datetime.fromtimestamp(v), v


def recipients(ctx):
    from tfchain.types import ConditionTypes as C
    r = ctx.rng
    g = Gen(r, keys=2)
    a = g.addr()
    n = r.choice([1, 2, 2, 3, 5, 9])
    us = [g.addr() for _ in range(n)]
    m = r.randrange(1, n + 1)
    mixed = [C.UnlockHash.from_json(u) if r.random() < .3 else u for u in us]
    other = g.cond((0, 1, 2, 4))
    k = r.randrange(11)
    name, arg, want = [
        ('none', None, {}),
        ('text', a, cond_uh(a)),
        ('address', C.UnlockHash.from_json(a), cond_uh(a)),
        ('bytes', bytes.fromhex(a), cond_uh(a)),
        ('bytearray', bytearray.fromhex(a), cond_uh(a)),
        ('list', mixed, cond_ms(us, n)),
        ('pair', (m, mixed), cond_ms(us, m)),
        ('pair back', (mixed, m), cond_ms(us, m)),
        ('condition', build(other), other),
        ('key address', C.UnlockHash.from_json(ref.pubkey_address(g.pks[0])), cond_uh(ref.pubkey_address(g.pks[0]))),
        ('pair tuple', (m, tuple(mixed)), cond_ms(us, m)),
    ][k]
    ctx.count('recipients')
    before = list(mixed)
    c = C.from_recipient(arg)
    same(ctx, c, want, 'recipient as %s' % name)
    ctx.check([str(x) for x in mixed] == [str(x) for x in before], 'the list of owners is changed')
    ln = None
    if want.get('type', 0) in (0, 1, 4):
        ln, lock, v = lock_of(r)
        want = cond_lock(v, want or {'type': 0, 'data': {}})
        c = C.from_recipient(arg, lock=lock) if r.random() < .7 else C.from_recipient(C.from_recipient(arg), lock)
        same(ctx, c, want, 'recipient as %s locked by %s %s' % (name, ln, v))
        ctx.count('locked_recipients')
    for bad in (5, 1.5, {}, {'a': 1}, object(), True, (1, us, 3), (us,), (), (1.5, us), ('2', us), b'x', bytes(38), bytes(40), [5], [None, 5], (1, [7]),
                [[a]], (us, us), a[:-1], '', 'x', set(us)):
        try:
            z = C.from_recipient(bad)
        except Exception:
            ctx.count('refused')
            continue
        ctx.fail('recipient %r is accepted as %s', bad, z.json())
    ctx.key('recipient', name, ln)


def refused(ctx):
    """conditions nobody could ever spend are refused when made or read, and a condition given such a part keeps what it had"""
    from tfchain.types import ConditionTypes as C
    r = ctx.rng
    g = Gen(r, keys=2)
    js = g.cond((2,))
    d = js['data']
    bad = r.choice([2, 3])
    uh = ref.uh_text(bad, g.rand(32))
    who = r.choice(['sender', 'receiver', 'timelock', 'locked swap', 'locked lock', 'checksum'])
    x = copy.deepcopy(js)
    c = build(js)

    def no(fn, *a):
        try:
            z = fn(*a)
        except Exception:
            ctx.count('refused')
            return
        ctx.fail('%s: %s', what, z.json() if z is not None else c.json())
    if who in ('sender', 'receiver', 'checksum'):
        field = who
        if who == 'checksum':
            field = r.choice(['sender', 'receiver'])
            good = g.addr(1)
            i = r.randrange(66, 78)
            uh = good[:i] + r.choice([q for q in '0123456789abcdef' if q != good[i]]) + good[i + 1:]
            what = 'a swap with the mistyped %s %s is accepted' % (field, uh)
        else:
            what = 'a swap with the %s %s, no single key, is accepted' % (field, uh)
        x['data'][field] = uh
        form = r.choice(['new', 'json', 'set']) if who == 'checksum' else r.choice(['new', 'new object', 'json', 'set', 'set object'])
        if form == 'json':
            no(C.from_json, x)
        elif form.startswith('new'):
            v = C.UnlockHash.from_json(uh) if form == 'new object' else uh
            no(lambda: C.atomic_swap_new(v if field == 'sender' else d['sender'], v if field == 'receiver' else d['receiver'],
                                         d['hashedsecret'], d['timelock']))
        else:
            no(setattr, c, field, C.UnlockHash.from_json(uh) if form == 'set object' else uh)
    elif who == 'timelock':
        form = r.choice(['new', 'json', 'set'])
        x['data']['timelock'] = v = r.choice([1, 499999999, r.randrange(1, 5 * 10 ** 8)])
        what = 'a swap with the block height %s as refund time is accepted' % v
        if form == 'json':
            no(C.from_json, x)
        elif form == 'new':
            no(build, x)
        else:
            no(setattr, c, 'lock_time', v)
    else:
        form = 'json'
        x = cond_lock(g.lock(), js if who == 'locked swap' else cond_lock(g.lock(), g.cond((1, 4))))
        what = 'a %s is read' % who
        no(C.from_json, x)
    same(ctx, c, js, 'the swap after a refusal')
    ctx.key('refused', who, form)


def golden(ctx):
    """addresses of shared wallets seen on the network: the conditions of recorded outputs resolve to spendable owners"""
    import os
    from tfchain.types import ConditionTypes as C
    g = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'golden.json')))

    def walk(x):
        if isinstance(x, dict):
            if set(x) <= {'type', 'data'} and 'type' in x and isinstance(x.get('data'), dict) and (
                    {'unlockhash', 'unlockhashes', 'locktime', 'timelock'} & set(x['data'])):
                yield x
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    seen = set()
    for c in walk(g):
        k = json.dumps(c, sort_keys=True)
        if k in seen:
            continue
        seen.add(k)
        same(ctx, C.from_json(copy.deepcopy(c)), c, 'recorded condition')
        ctx.count('golden_addresses')
        ctx.key('golden', c['type'])


PARTS = [('golden', 1, 1, golden), ('conditions', 2000, 100000, conditions), ('recipients', 2000, 80000, recipients), ('refused', 800, 20000, refused)]
