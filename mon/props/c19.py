"""Time locks hold until exactly the stated time or height."""
import contextlib
import datetime
import os
import time

from .. import ref
from ..world import World, drive, cond_uh, cond_lock, cond_ms, OracleFail, tft, canon, grains
from .common import histories

RULE = ('Lock values in every notation (heights, timestamps, durations, time spans, dates as text and as objects, in several time '
        'zones and around clock changes) compared with an independent reading; outputs whose lock lies around the chain tip '
        'while the chain advances block by block across it: balance, funding, multi-signature wallets and drains must treat '
        'each as locked exactly below it; the lock a caller chooses, in every call that takes one, compared with the pushed '
        'transaction. distinct = distinct notation, zone, distance to the tip, kind and outcome.')
REQUIRED = ['values_read', 'refused_values', 'locked_checks', 'boundary_steps', 'spent_at_boundary', 'refused_while_locked', 'chosen_locks']
ASSUMPTIONS = ['a date text without zone means local time', 'the explorer answers truthfully']
HOME = {'C19'}
ZONES = ['UTC', 'Europe/Brussels', 'America/St_Johns', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Kiritimati', 'XYZ-5:30',
         'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0']


@contextlib.contextmanager
def zone(z):
    old = os.environ.get('TZ')
    os.environ['TZ'] = z
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


MIN = 500000000


def notation(r, now):
    """(argument, check(value) -> bool, kind): a lock in one of its notations, durations counted from now"""
    k = r.randrange(10)
    if k == 0:
        v = r.choice([0, 1, 2, 1000, MIN - 1, MIN, MIN + 1, 2 ** 31, 2 ** 32 + 5, 4 * 10 ** 9, r.randrange(10 ** 10)])
        return v, lambda x: x == v, 'int'
    if k in (1, 2):
        parts = [(r.choice([0, 1, 3, 30, 365]), 'd', 86400), (r.choice([0, 1, 23, 24, 100]), 'h', 3600),
                 (r.choice([0, 1, 59, 60, 90]), 'm', 60), (r.choice([0, 1, 59, 61, 12345]), 's', 1)]
        parts = [p for p in parts if r.random() < .5 or p[0]]
        t = '+' + ''.join('%d%s' % (n, u) for n, u, _ in parts) or '+1s'
        if t == '+':
            t = '+1s'
            parts = [(1, 's', 1)]
        d = sum(n * m for n, _, m in parts)
        if r.random() < .15:
            t = '+%d' % d if d else '+1'
            d = d or 1
        elif r.random() < .25 and parts:     # fractions of a unit: the sum counts, not each part
            l = [(n + r.choice([0, .25, .5, .75]), u, m) for n, u, m in parts]
            t = '+' + ''.join('%s%s' % (n if n % 1 or r.random() < .3 else int(n), u) for n, u, _ in l)
            d = int(sum(n * m for n, _, m in l))
        if r.random() < .1:
            t = ' ' + t
        return t, lambda x: x == now + d, 'duration'
    if k == 3:
        d = r.choice([0, 1, 59, 3600, 86400, 10 ** 7, r.randrange(10 ** 8)])
        return datetime.timedelta(seconds=d), lambda x: x == now + d, 'timedelta'
    if k == 4:
        d = datetime.timedelta(days=r.randrange(400), hours=r.randrange(30), minutes=r.randrange(70), seconds=r.randrange(70))
        n = d.days * 86400 + d.seconds
        return d, lambda x: x == now + n, 'timedelta'
    stamp = r.randrange(MIN + 10 ** 5, 2 ** 31 - 1) if r.random() < .7 else r.randrange(2 ** 31, 2 ** 32)
    if r.random() < .2:     # around a clock change
        stamp = r.choice([1553994000, 1572138000, 1552201200, 1572760800]) + r.randrange(-7200, 7200)
    if k == 9 and r.random() < .2:      # a moment before the present one, by the clock of the machine
        u, m = r.choice([('s', 1), ('m', 60), ('h', 3600), ('d', 86400), ('w', 7 * 86400), ('M', 3600 * 24 * 365 // 12), ('Y', 365 * 86400)])
        n = r.choice([1, 2, 5, 3600]) if u in 'smh' else r.choice([1, 2, 3])
        n = n + r.choice([0, 0, 0, .5, .25]) if u in 'hd' else n
        d, t0 = int(n * m), int(time.time())
        return '-%s%s' % (n, u), lambda x: t0 - 1 <= x + d <= int(time.time()) + 1, 'moment in the past'
    if k == 5:
        off = r.choice([0, 330, -210, 765, 60])
        tz = datetime.timezone(datetime.timedelta(minutes=off))
        return datetime.datetime.fromtimestamp(stamp, tz), lambda x: x == stamp, 'datetime with zone'
    if k == 6:
        d = datetime.datetime.fromtimestamp(stamp)
        return d, lambda x: x == stamp, 'datetime'
    l = time.localtime(stamp)
    f = r.choice(['%Y/%m/%d %H:%M:%S', '%Y/%m/%d %H:%M', '%Y/%m/%d', '%d/%m/%Y %H:%M:%S', '%d/%m/%Y', '%Y/%m/%d %H:%M:%S', 'short', '%m/%d %H:%M',
                  '%m/%d', '%y/%m/%d', '%y/%m/%d %H:%M', '%y/%m/%d %H:%M:%S', '%d/%m/%Y %H:%M', '%Y/%m/%d %I%p:%M', '%y/%m/%d %I%p:%M',
                  '%d/%m/%Y %I%p:%M', '%Y/%m/%d %I%p:%M:%S'])
    if '%y' in f and l[0] > 2068:           # two digits stand for 1969 to 2068
        f = f.replace('%y', '%Y')
    if f == 'short':
        t = '%d/%d/%d %d:%d:%d' % l[:6]
        f = '%Y/%m/%d %H:%M:%S'
    elif f in ('%m/%d %H:%M', '%m/%d'):
        y = time.localtime()[0]
        t = time.strftime(f, l)
        if t.startswith('02/29'):
            t = '03/01' + t[5:]
        day = t if ':' in t else t + ' 00:00'

        def this_year(x):
            return time.strftime('%Y/%m/%d %H:%M', time.localtime(x)) in ['%d/%s' % (a, day) for a in (y, time.localtime()[0])] and x % 60 == 0
        return unpadded(r, t), this_year, 'date without year'
    else:
        t = unpadded(r, time.strftime(f, l))
        if r.random() < .5:
            t = t.lower()
    want = time.strftime('%Y/%m/%d %H:%M:%S', time.strptime(t, f))
    if r.random() < .1:
        t = r.choice([' ' + t, '"%s"' % t, t + ' '])
    return t, lambda x: time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(x)) == want, 'date ' + f


def unpadded(r, t):
    """the date with some of its leading zeros left out"""
    if r.random() < .5:
        return t
    d, sep, rest = t.partition(' ')
    parts = d.split('/')
    for i, x in enumerate(parts):
        # a year keeps its digits: two of them can stand in front only
        if len(x) == 2 and x[0] == '0' and not (i == 0 and len(parts) == 3 and len(parts[2]) != 4) and r.random() < .8:
            parts[i] = x[1:]
    return '/'.join(parts) + sep + rest


def exists(t, f='%Y/%m/%d %H:%M:%S'):
    """the local time is neither skipped nor ambiguous to the calendar"""
    s = time.strptime(t, f)
    return time.strftime(f, time.localtime(time.mktime(s))) == t


def values(ctx):
    """what a notation means"""
    from tfchain.types.ConditionTypes import OutputLock
    from tfchain.types import ConditionTypes
    r = ctx.rng
    z = r.choice(ZONES)
    with zone(z):
        for _ in range(12):
            now = r.choice([1545000000, 1600000000, r.randrange(MIN, 2 ** 31)])
            arg, ok, kind = notation(r, now)
            try:
                l = OutputLock(value=arg, current_timestamp=now)
            except Exception as e:
                ctx.fail('lock %r (zone %s) is refused: %s: %s', arg, z, type(e).__name__, e)
            v = l.value
            ctx.count('values_read')
            # local midnight or a skipped hour may not exist in this zone: then there is nothing to compare
            if not ok(v):
                if kind.startswith('date ') and kind != 'date without year' and not exists(
                        time.strftime('%Y/%m/%d %H:%M:%S', time.strptime(arg.strip(' "'), kind[5:]))
                        if arg.strip(' "').count(':') == kind.count(':') else '2000/01/01 00:00:00'):
                    continue
                if kind == 'datetime' and int(arg.timestamp()) == v:
                    continue
                ctx.fail('lock %r (%s, zone %s, now %d) becomes %d (%s)', arg, kind, z, now, v,
                         time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(v)))
            ctx.eq(int(l), v, 'lock as integer')
            ctx.eq(bool(l.is_timestamp), v >= MIN, 'lock %d as a timestamp' % v)
            ctx.eq(OutputLock(value=l).value, v, 'copy of lock %d' % v)
            c = ConditionTypes.locktime_new(lock=l, condition=ConditionTypes.nil_new())
            js = c.json()
            ctx.eq(js['data']['locktime'], v, 'lock of a condition')
            ctx.eq(ConditionTypes.from_json(js).lock.value, v, 'lock read from JSON')
            for h in (0, v - 1, v, v + 1, v + 1000, 10 ** 5):
                for t in (v - 1, v, v + 1, 1550000000):
                    if h < 0 or t < 0:
                        continue
                    want = t < v if v >= MIN else h < v
                    ctx.eq(bool(l.locked_check(h, t)), want, 'locked(%d) at height %d time %d' % (v, h, t))
                    ctx.eq(bool(ConditionTypes.from_json(js).lock.locked_check(h, t)), want, 'locked(%d) at height %d time %d' % (v, h, t))
                    ctx.count('locked_checks')
            ctx.key('value', kind, z, type(arg).__name__, v >= MIN, len(str(arg)))
        # no notation of a moment
        for bad in (-1, 1.5, [], b'5', '', 'tomorrow', '2020/13/01', '2020/02/30', '+5x', '+1h2d', '+1.5.2h', '12', '2020-01-01',
                    '25/25/2020', '2020/01/01 25:00', '2020/01/01 00:61', '2020/01/01 10', {'a': 1}, (5,)):
            if bad == '2020-01-01' or r.random() < .5:
                continue
            try:
                l = OutputLock(value=bad)
            except Exception:
                ctx.count('refused_values')
            else:
                ctx.fail('%r is accepted as lock %d', bad, l.value)
        # a date before the first timestamp would be a height
        for bad in ('1980/01/01', '1985/01/01 10:00:00', datetime.datetime(1975, 5, 5), datetime.datetime(1985, 10, 1)):
            try:
                l = OutputLock(value=bad)
            except ValueError:
                ctx.count('refused_values')
            else:
                ctx.check(l.is_timestamp, 'date %r becomes the height %d', bad, l.value)
    ctx.sample({'zone': z, 'last': str(arg), 'value': v})


def chosen(ctx):
    """the lock of the caller is the lock in the transaction, in every call that takes one"""
    from tfchain.types.PrimitiveTypes import Currency
    from tfchain.types.ConditionTypes import OutputLock
    r = ctx.rng
    z = r.choice(ZONES)
    w = World(ctx, parties=2, rich=False)
    p = w.parties[0]
    c = w.chain
    for _ in range(4):
        c.grant([(cond_uh(r.choice(w.own0(p))), 10 ** 9 * r.randrange(20, 500))])
    c.mine()
    w.set_mint(cond_uh(p.primary))

    def go():
        for _ in range(3):
            how = r.choice(['send', 'builder', 'mint', 'drain', 'condition'])
            rc, rcond = r.choice([(w.foreign[0], cond_uh(w.foreign[0])), (p.primary, cond_uh(p.primary)),
                                  (list(w.foreign[:2]), cond_ms(w.foreign[:2], 2)), (None, {'type': 0})])
            t0 = int(time.time())
            ref_now = {}
            arg, ok, kind = notation(r, 0)
            amount = r.randrange(1, 10 ** 9)

            def run():
                if how == 'send':
                    return p.wallet.coins_send(rc, w.amount(amount), lock=arg)
                if how == 'builder':
                    b = p.wallet.coin_transaction_builder_new()
                    b.output_add(w.foreign[1], 1)
                    b.output_add(rc, w.amount(amount), lock=arg)
                    return b.send()
                if how == 'mint':
                    return p.wallet.minter.coins_new(rc, w.amount(amount), lock=arg)
                if how == 'drain':
                    return p.wallet.balance.drain(rc if rc is not None else p.primary, Currency(value=tft(w.fee)), unconfirmed=True, lock=arg)
                from tfchain.types import ConditionTypes
                return p.wallet.coins_send(ConditionTypes.from_recipient(rc, lock=arg), w.amount(amount))
            what = '%s with lock %r (%s, zone %s)' % (how, arg, kind, z)
            ok_ = 'ok'
            res, exc, pushes = w.call(p, what, HOME, run, ok_)
            t1 = int(time.time()) + 1
            want = rcond if not (how == 'drain' and rc is None) else cond_uh(p.primary)
            txs = [t.json() for t in res] if how == 'drain' else [res.transaction.json()]
            if how == 'drain' and not txs:
                raise OracleFail(HOME, '%s: nothing is drained' % what)
            for js in txs:
                locks = [(o['condition']['data']['locktime'], o) for o in js['data']['coinoutputs']
                         if o['condition'].get('type') == 3]
                if len(locks) != 1 or canon(locks[0][1]['condition']['data'].get('condition')) != canon(want):
                    raise OracleFail(HOME, '%s: the outputs are %r' % (what, js['data']['coinoutputs']))
                v = locks[0][0]
                if kind in ('duration', 'timedelta'):
                    good = any(ok(v - t) for t in range(t0, t1 + 1))
                else:
                    good = ok(v) or (kind == 'datetime' and int(arg.timestamp()) == v) or kind.startswith('date ')
                if not good:
                    raise OracleFail(HOME, '%s: the lock in the transaction is %d' % (what, v))
                if kind.startswith('date ') and OutputLock(value=arg).value != v:
                    raise OracleFail(HOME, '%s: the lock in the transaction is %d, read as %d' % (what, v, OutputLock(value=arg).value))
                ctx.count('chosen_locks')
            ctx.key('chosen', how, kind, z, want['type'])
            ctx.sample({'op': what, 'lock': v})
            c.mine()
    with zone(z):
        drive(ctx, w, go)


def tip(ctx):
    """outputs whose lock is crossed by the chain tip"""
    import tfchain.errors as E
    from tfchain.types.PrimitiveTypes import Currency
    r = ctx.rng
    w = World(ctx, parties=2, rich=False, keys=r.choice([1, 2]))
    p, q = w.parties
    c = w.chain
    low = r.random() < .3       # far below any real height
    if low:
        c.height = c.base = r.choice([1, 5, 100])
        c.blocks.clear()
        c.order.clear()
        c._mk_block([], [])
    outs = []

    def grant(cond, v, conf=True):
        t = c.grant([(cond, v)], confirmed=conf, kind=r.choice(['v1', 'v129']))
        outs.append(c.outs[t.coin_ids[0]])
    base = cond_uh(r.choice(w.own0(p)))
    shared = cond_ms([p.primary, q.primary, w.foreign[0]], 1)
    tgt_h = c.height + r.randrange(3, 9)
    tgt_t = c.time + r.randrange(100, 5000)
    grant(base, 10 ** 9 * r.randrange(20, 99))
    for _ in range(r.choice([1, 2, 4])):
        cond = shared if r.random() < .3 else base
        lock = r.choice([tgt_h, tgt_h - 1, tgt_h + 1, tgt_t, tgt_t - 1, tgt_t + 1])
        grant(cond_lock(lock, cond), 10 ** 9 * r.randrange(3, 999), r.random() < .75)

    def go():
        for step in range(r.randrange(3, 8)):
            # put the tip right next to a lock
            o = r.choice(outs)
            v = o.lock
            if v is not None and v >= MIN and c.time < v + 2 and r.random() < .8:
                dt = max(1, v - c.time + r.choice([-1, 0, 1]))
                c.mine(dt=dt) if r.random() < .8 else c.mine(dt=dt, pick=lambda t: False)
            else:
                c.mine(dt=r.choice([1, 30]))
            ctx.log('tip height %d time %d, locks %r', c.height, c.time, [x.lock for x in outs])
            ctx.count('boundary_steps')
            for x in outs:
                if x.lock is not None:
                    ref_ = c.time if x.lock >= MIN else c.height
                    ctx.key('tip', x.lock >= MIN, max(-2, min(2, ref_ - x.lock)), c.is_confirmed(x), x.spender is None)
            w.check_balance(p, HOME | {'C04'})
            # exactly what is unlocked can be spent, not a grain more
            k = r.randrange(4)
            own = set(p.own())
            free = sum(x.value for x in w.spendable(own, set()))
            ms = {ref.cond_address(shared)}
            free_ms = sum(x.value for x in w.spendable(set(), ms))
            if k == 0:
                w.call(p, 'send of more than is unlocked', HOME | {'C03'}, lambda: p.wallet.coins_send(
                    w.foreign[0], Currency(value=tft(max(1, free - w.fee + 1)))), E.InsufficientFunds)
                ctx.count('refused_while_locked')
            elif k == 1 and free > w.fee:
                if step < 2 and r.random() < .5:
                    continue
                res, exc, pushes = w.call(p, 'send of all that is unlocked', HOME | {'C03'}, lambda: p.wallet.coins_send(
                    w.foreign[0], Currency(value=tft(free - w.fee))))
                got = {i['parentid'] for i in ref.coin_inputs(pushes[0])}
                if any(not c.unlocked(c.outs[i]) for i in got):
                    raise OracleFail(HOME, 'a locked output is spent')
                ctx.count('spent_at_boundary', sum(c.outs[i].lock is not None for i in got))
                ctx.sample({'height': c.height, 'time': c.time, 'locks': [x.lock for x in outs], 'spent': len(got)})
            elif k == 2:
                src = sorted(ms)[0]
                if free_ms > w.fee:
                    if r.random() < .5:
                        w.call(p, 'send of all that is unlocked and shared', HOME | {'C03'}, lambda: p.wallet.coins_send(
                            w.foreign[0], Currency(value=tft(free_ms - w.fee)), source=src))
                        ctx.count('spent_at_boundary')
                elif any(x.address == src for x in outs):
                    w.call(p, 'send of locked shared coins', HOME | {'C03'}, lambda: p.wallet.coins_send(
                        w.foreign[0], 1, source=src), Exception)
                    ctx.count('refused_while_locked')
            else:
                unconf = r.random() < .5
                res, exc, pushes = w.call(p, 'drain', HOME | {'C32'}, lambda: p.wallet.balance.drain(
                    w.foreign[0], Currency(value=tft(w.fee)), unconfirmed=unconf))
                got = {i['parentid'] for t in res for i in ref.coin_inputs(t.json())}
                want = {x.id for x in w.spendable(own, set()) if unconf or c.is_confirmed(x)}
                if any(not c.unlocked(c.outs[i]) for i in got):
                    raise OracleFail(HOME | {'C32'}, 'a locked output is drained at height %d time %d' % (c.height, c.time))
                if sum(c.outs[i].value for i in want) > w.fee and not want <= got:
                    raise OracleFail(HOME | {'C32'}, 'unlocked outputs are not drained: %r' % sorted(want - got))
    drive(ctx, w, go)


W = {'send': 6, 'balance': 8, 'drain': 3, 'history': 8, 'mine': 8, 'mint': 1}
PARTS = [('values', 150, 4000, values), ('chosen', 90, 2000, chosen), ('tip', 160, 4000, tip),
         ('histories', 60, 1500, histories(W, steps=18))]
