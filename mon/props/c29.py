"""A failed operation leaves no trace and can be repeated."""
import copy
import json
import random

from .. import ref
from ..world import World, OracleFail, drive, cond_uh, cond_ms, cond_lock, tft, canon
from .common import HIST

LEVEL = 'fault_enumeration'
RULE = ('Every operation of a random history is attempted with its 1st, 2nd, 3rd... request failing (server error, nobody reachable, '
        'connection reset, time-out, cut answer; pushes refused or answered into the void), on wallets that did or did not scan their keys '
        'yet, until an attempt meets no fault: each failure must reach the caller, push nothing and leave the reported balance '
        'and keys as they were, and the last attempt is judged as if nothing had failed. Likewise refused arguments, missing '
        'funds that arrive later, builders, and reads. distinct = distinct (operation, faulty request, kind of fault).')
REQUIRED = ['faults', 'push_faults', 'lost_answers', 'repeated_ok', 'balances', 'bad_arguments', 'funded_later', 'builders_used_up',
            'builders_failed', 'reads_repeated', 'scan_faults', 'fresh_wallets', 'sends_ok', 'swaps_created', 'claims_ok', 'bots_registered',
            'bots_updated', 'erc20_registrations', 'mint_judged', 'drained_txs', 'cosign_steps', 'object_resubmitted']
ASSUMPTIONS = ['an explorer that answers answers truthfully', 'an operation that ends with success although one of its requests failed '
               '(a retry) is judged as a success']
HOME = {'C29'}


class Lost(Exception):
    pass


def faults(post):
    """(name, error raised in place of the answer, or bytes of an answer)"""
    import tfchain.errors as E
    e = '/explorer'
    if post:
        return [('refused', E.ExplorerServerPostError('POST: error (code: 400): refused', e, data={})),
                ('down', E.ExplorerNotAvailable('no explorer was available', e, ['http://a.invalid'])),
                ('reset', ConnectionResetError(104, 'reset')), ('timeout', TimeoutError('timed out'))]
    return [('error', E.ExplorerServerError('GET: error (code: 500): oops', e)),
            ('down', E.ExplorerNotAvailable('no explorer was available', e, ['http://a.invalid'])),
            ('reset', ConnectionResetError(104, 'reset')), ('timeout', TimeoutError('timed out')), ('cut', b'{"bloc')]


class Faulty:
    """arms the n-th request from now on"""

    def __init__(self, w, p, n, lost=False):
        self.w, self.p, self.at, self.lost = w, p, len(p.explorer.requests) + n, lost
        self.hit = None

    def __enter__(self):
        x = self.p.explorer
        rng = self.w.frng

        def fault(n, kind, endpoint):
            if n != self.at:
                return None
            name, f = rng.choice(faults(kind == 'POST'))
            self.hit = (kind, name, f, endpoint)
            if kind == 'POST' and self.lost:
                self.hit = (kind, 'lost', f, endpoint)
                return 'drop', f
            return f
        x.fault = fault
        return self

    def __exit__(self, *a):
        self.p.explorer.fault = None
        return False


def surfaced(hit, exc):
    """does the error tell the caller about the fault?"""
    import tfchain.errors as E
    if isinstance(hit[2], bytes):
        return isinstance(exc, (ValueError, E.ExplorerError))
    e, n = exc, 0
    while e is not None and n < 9:
        if e is hit[2]:
            return True
        e, n = e.__cause__ or e.__context__, n + 1
    return isinstance(exc, (E.ExplorerError, OSError))


class FaultWorld(World):
    plain = False           # True: no faults, for comparison

    def __init__(self, ctx, **kw):
        self.frng = random.Random(ctx.rng.getrandbits(64))
        self.attempts = 0
        super().__init__(ctx, **kw)

    def fresh(self, p, keys=None):
        """a wallet object that did not look at the chain yet"""
        from tfchain.TFChainWallet import TFChainWallet
        p.wallet = TFChainWallet(seed=p.seed, client=p.client, key_count=keys or p.wallet.key_count)
        self.ctx.count('fresh_wallets')

    def sign(self, p, txn, **kw):
        return super().sign(p, txn if isinstance(txn, (str, dict)) else copy.deepcopy(txn), **kw)

    def untouched(self, p, what, own, pushed, grown):
        c = self.chain
        if len(c.pushed) != pushed:
            raise OracleFail(HOME, '%s: failed, but something was pushed' % what)
        now = p.own()
        if now[:len(own)] != own or len(now) > len(own) + grown:
            raise OracleFail(HOME, '%s: failed, the addresses are %r instead of %r' % (what, now, own))

    def call(self, p, what, home, fn, expect='ok', fail_tags=()):
        import tfchain.errors as E
        rng, c = self.frng, self.chain
        self.attempts = 0
        if self.plain or not (expect == 'ok' or expect is E.InsufficientFunds):
            return super().call(p, what, home, fn, expect, fail_tags)
        own, pushed = p.own(), len(c.pushed)
        if rng.random() < .4:
            self.fresh(p)
        n = 0
        lost = rng.random() < .12
        step = [1] if rng.random() < .5 or self.ctx.thorough else [1, 1, 2, 5]
        while True:
            if self.attempts >= (150 if self.ctx.thorough else 45):
                n = 10 ** 9         # every attempt may reserve a key, which adds requests: stop somewhere
            p.explorer.budget = 5000
            before = len(c.pushed), len(c.events)
            exc = res = None
            with Faulty(self, p, n, lost) as f:
                try:
                    res = fn()
                except OracleFail:
                    raise
                except Exception as e:
                    exc = e
            where = '%s, request %d failing' % (what, n)
            if f.hit is None or exc is None:
                break
            self.attempts += 1
            where += ' (%s %s %s)' % (f.hit[0], f.hit[3], f.hit[1])
            self.ctx.count('faults')
            self.ctx.key(what.split(' ')[0], f.hit[0], f.hit[1], min(n, 12))
            if not surfaced(f.hit, exc) and not (expect != 'ok' and isinstance(exc, expect)):
                raise OracleFail(HOME, '%s: the caller gets %s: %s' % (where, type(exc).__name__, exc)) from exc
            if len(c.events) > before[1]:
                raise OracleFail(HOME, '%s: the network refuses the transaction: %s' % (where, c.events[before[1]:][:2]))
            if f.hit[1] == 'lost':
                if len(c.pushed) != pushed + 1:
                    raise OracleFail(HOME, '%s: pushed %d times' % (where, len(c.pushed) - pushed))
                self.ctx.count('lost_answers')
                self.check_balance(p, HOME)
                raise Lost()
            if f.hit[0] == 'POST':
                self.ctx.count('push_faults')
            if rng.random() < .35 or f.hit[0] == 'POST':
                self.untouched(p, where, own, pushed, self.attempts)
                self.check_balance(p, HOME)
                if rng.random() < .3:
                    self.fresh(p)
            elif len(c.pushed) != pushed:
                raise OracleFail(HOME, '%s: failed, but something was pushed' % where)
            n += rng.choice(step)
        self.untouched(p, what, own, len(c.pushed), self.attempts + 1)

        def final():
            if exc is not None:
                raise exc
            return res
        # the last attempt met no fault (or coped with it): judge it as the operation itself
        self.base = pushed
        try:
            got = self.judge_call(p, what, home, final, expect, fail_tags, before)
        except OracleFail as e:
            if self.attempts and expect == 'ok' and exc is not None:
                e.tags |= HOME
            raise
        self.ctx.count('repeated_ok' if exc is None else 'repeated_refused')
        if rng.random() < .5:
            self.check_balance(p, HOME)
        return got

    def judge_call(self, p, what, home, fn, expect, fail_tags, before):
        """World.call over an attempt that was made already"""
        c = self.chain
        pushed, events = c.pushed, c.events
        new = pushed[before[0]:], events[before[1]:]
        c.pushed, c.events = pushed[:before[0]], events[:before[1]]

        def replay():
            c.pushed += new[0]
            c.events += new[1]
            return fn()
        try:
            return World.call(self, p, what, home, replay, expect, fail_tags)
        finally:
            c.pushed, c.events = pushed, events

    def step(self, op):
        try:
            super().step(op)
        except Lost:
            pass


def guarded(ctx, make, fn):
    """runs fn(world); a failed judgement that another property speaks about belongs to this one if it needs the faults"""
    state = ctx.rng.getstate()
    w = make()
    try:
        fn(w)
    except OracleFail as e:
        if ctx.prop in e.tags or not w.attempts:
            drive(ctx, w, lambda: (_ for _ in ()).throw(e))
        ctx.rng.setstate(state)
        v = make()
        v.plain = True
        try:
            fn(v)
        except OracleFail:
            drive(ctx, w, lambda: (_ for _ in ()).throw(e))
        e.tags |= HOME
        e.args = ('after failed attempts only: %s' % e,)
        drive(ctx, w, lambda: (_ for _ in ()).throw(e))
    drive(ctx, w, lambda: None)


W = {'send': 10, 'cosign': 6, 'swap': 6, 'claim': 6, 'botnew': 4, 'botupd': 4, 'botxfer': 3, 'erc20send': 3, 'erc20reg': 4, 'drain': 4,
     'mint': 4, 'history': 4, 'mine': 4}


def histories(ctx):
    keys = ctx.rng.choice([1, 1, 2])
    guarded(ctx, lambda: FaultWorld(ctx, parties=2, keys=keys), lambda w: w.run(5, dict(HIST, **W)))


# ------------------------------------------------------------------ arguments
def bad_arguments(w, p, r):
    """(label, call) of operations that must be refused"""
    from tfchain.types.PrimitiveTypes import Currency
    a = w.foreign[0]
    b = w.foreign[1]
    t = p.wallet
    broken = a[:-1] + ('0' if a[-1] != '0' else '1')
    whom = [broken, 'x', a[:-2], 5, 1.5, [a, broken], (1, [a, 'no']), object(), b'abc', {'a': 1}]
    money = [0, '0', -1, '-1', '1.0000000001', 'abc', '', '1 BTC', None, 'inf', [], '1.5.2']
    locks = [-1, 'abc', '+5x', 1.5, object(), '2019-13-45']
    data = [b'x' * 84, 'y' * 84, 'é' * 42, 5, ['a', object()]]
    nets = [broken, 'x', a, [a], 5, [5], [[a, b]]]
    secret = '11' * 32
    out = []
    for x in whom:
        out.append(('recipient', lambda x=x: t.coins_send(x, '1')))
        out.append(('builder recipient', lambda x=x: t.coin_transaction_builder_new().output_add(a, 1).output_add(x, '1').send()))
        out.append(('refund', lambda x=x: t.coins_send(a, '0.5', refund=x)))
        out.append(('drain to', lambda x=x: t.balance.drain(x, Currency(value=tft(w.fee))) or (_ for _ in ()).throw(ValueError())))
    for x in money:
        out.append(('amount', lambda x=x: t.coins_send(a, x)))
        out.append(('builder amount', lambda x=x: t.coin_transaction_builder_new().output_add(a, 1).output_add(b, x).send()))
        out.append(('erc20 amount', lambda x=x: t.erc20.coins_send('0x' + '12' * 20, x)))
        out.append(('swap amount', lambda x=x: t.atomicswap.initiate(a, x, '+1h')))
        out.append(('participate amount', lambda x=x: t.atomicswap.participate(a, x, secret, '+1h')))
        if w.chain.active_mint(w.chain.height):
            out.append(('mint amount', lambda x=x: t.minter.coins_new(a, x)))
    for x in locks:
        out.append(('lock', lambda x=x: t.coins_send(a, 1, lock=x)))
        out.append(('builder lock', lambda x=x: t.coin_transaction_builder_new().output_add(a, 1, lock=x).send()))
    for x in data:
        out.append(('data', lambda x=x: t.coins_send(a, '0.5', data=x)))
        out.append(('builder data', lambda x=x: t.coin_transaction_builder_new().output_add(a, '0.5').send(data=x)))
        out.append(('swap data', lambda x=x: t.atomicswap.initiate(a, '5', '+1h', data=x)))
    for x in nets:
        out.append(('source', lambda x=x: t.coins_send(a, '0.5', source=x)))
        out.append(('builder source', lambda x=x: t.coin_transaction_builder_new().output_add(a, '0.5').send(source=x)))
        out.append(('erc20 source', lambda x=x: t.erc20.coins_send('0x' + '12' * 20, '0.5', source=x)))
        out.append(('bot source', lambda x=x: t.threebot.record_new(1, names=['abcde'], source=x)))
    for x in ['0x12', '0x' + '1' * 39, '0x' + 'g' * 40]:
        out.append(('erc20 address', lambda x=x: t.erc20.coins_send(x, 1)))
    for x in [a, 'x', -1, 99, 1.5, [a]]:
        out.append(('erc20 registration', lambda x=x: t.erc20.address_register(x)))
    for x in ['x', [a, b], 5]:
        out.append(('swap party', lambda x=x: t.atomicswap.initiate(x, '5', '+1h')))
    for x in ['x', '11', None, secret + '11', 5]:
        out.append(('secret hash', lambda x=x: t.atomicswap.participate(a, '5', x, '+1h')))
    for x in ['x', '22' * 32, None, 5, '11']:
        out.append(('redeem', lambda x=x: t.atomicswap.redeem(x, secret)))
        out.append(('refund of', lambda x=x: t.atomicswap.refund(x)))
        out.append(('verify', lambda x=x: t.atomicswap.verify(x)))
    for kw in [dict(months=0, names=['abcde']), dict(months=25, names=['abcde']), dict(months=1), dict(months=1, names=['a']),
               dict(months=1, names=['abcd%d' % n for n in 'efghij'.encode()]), dict(months=1, addresses=['-']),
               dict(months=1, names=['abcde'], key_index=77), dict(months=1, names=['abcde'], refund=broken)]:
        out.append(('bot', lambda kw=kw: t.threebot.record_new(**kw)))
    for x in [99999, 'x', -1, None, 1.5]:
        out.append(('bot update', lambda x=x: t.threebot.record_update(x, months=1)))
        out.append(('bot transfer', lambda x=x: t.threebot.name_transfer(x, 99998, ['abcde'])))
    for x in [None, 'x', '{}', {}, {'version': 99, 'data': {}}, 5, '[1]']:
        out.append(('sign', lambda x=x: t.transaction_sign(x)))
    if w.chain.active_mint(w.chain.height):
        for x in [None, broken, 5]:
            out.append(('mint definition', lambda x=x: t.minter.definition_set(x)))
    return out


def arguments(ctx):
    r = ctx.rng
    w = FaultWorld(ctx, parties=2, keys=r.choice([1, 2, 3]))
    w.plain = True
    p = w.parties[0]
    for _ in range(4):
        w.chain.grant([(cond_uh(p.addr(0)), 30 * 10 ** 9 * r.choice([1, 7]))], confirmed=r.random() < .7)

    def go():
        if r.random() < .6:
            w.set_mint(cond_uh(p.addr(0)))
        for _ in range(12):
            c = w.chain
            own, pushed = p.own(), len(c.pushed)
            label, f = r.choice(bad_arguments(w, p, r))
            p.explorer.budget = 5000
            try:
                res = f()
            except Exception as e:
                exc = e
            else:
                exc = None
            if exc is None and len(c.pushed) == pushed:
                continue            # accepted after all: not a failure
            if exc is None:
                w.attempts = 0
                raise OracleFail({'C03', 'C16', 'C20', 'C22'}, 'bad %s was accepted: %r' % (label, c.pushed[-1]))
            ctx.count('bad_arguments')
            ctx.key('argument', label, type(exc).__name__)
            w.untouched(p, 'bad %s (%s)' % (label, exc), own, pushed, 1)
            w.check_balance(p, HOME)
            if r.random() < .3:
                w.attempts = 1
                res = p.wallet.coins_send(w.foreign[0], '0.25')
                w.judge_tx('send after bad %s' % label, res.transaction.json(), [(cond_uh(w.foreign[0]), 250000000)], cond_uh(p.primary), w.fee,
                           set(own), set())
                w.judge_push('send after bad %s' % label, p, res.transaction, res.submitted, c.pushed[pushed:], True, HOME)
    drive(ctx, w, go)


# ------------------------------------------------------------------ funds that arrive later
def funds(ctx):
    import tfchain.errors as E
    r = ctx.rng
    w = FaultWorld(ctx, parties=1, keys=r.choice([1, 2]), rich=False)
    w.plain = True
    p = w.parties[0]
    a = w.foreign[0]
    G = ref.GRAIN
    have = r.choice([0, 1, 40 * G])
    if have:
        w.chain.grant([(cond_uh(p.addr(0)), have)], confirmed=r.random() < .6)
    lock = w.chain.time + 10 ** 6
    h = '12' * 32
    k = r.randrange(6)
    total = 100 * G
    bld = None
    fn, req = [
        (lambda: p.wallet.coins_send(a, '100'), [(cond_uh(a), total)]),
        (lambda: p.wallet.coins_send(a, '100', lock=lock), [(cond_lock(lock, cond_uh(a)), total)]),
        (lambda: p.wallet.coin_transaction_builder_new().output_add(a, 60).output_add(None, 40).send(),
         [(cond_uh(a), 60 * G), ({'type': 0}, 40 * G)]),
        (lambda: p.wallet.erc20.coins_send('0x' + '12' * 20, 100), None),
        (lambda: p.wallet.threebot.record_new(1, names=['abcde']), None),
        (lambda: p.wallet.atomicswap.participate(a, '100', h, '+1h', submit=True), None)][k]

    def go():
        c = w.chain
        own = p.own()
        for n in range(r.choice([1, 2, 3])):
            try:
                fn()
                raise OracleFail({'C03'}, 'operation %d succeeds without funds' % k)
            except E.InsufficientFunds:
                pass
            except (OracleFail, Exception) as e:
                if isinstance(e, OracleFail):
                    raise
                raise OracleFail({'C03'}, 'operation %d without funds: %r' % (k, e))
            w.untouched(p, 'operation %d' % k, own, 0, n + 1)
            if c.pushed:
                raise OracleFail(HOME, 'pushed without funds')
            w.check_balance(p, HOME)
        w.chain.grant([(cond_uh(p.addr(0)), 90 * G), (cond_uh(r.choice(own)), 25 * G)], confirmed=r.random() < .5)
        if r.random() < .3:
            w.check_balance(p, HOME)
        try:
            res = fn()
        except Exception as e:
            raise OracleFail(HOME, 'operation %d is refused also after the funds arrived: %s: %s' % (k, type(e).__name__, e))
        if len(c.pushed) != 1 or c.events:
            raise OracleFail(HOME, 'operation %d repeated after the funds arrived: pushes %r, node says %r' % (k, c.pushed, c.events))
        if req is not None:
            w.attempts = 1
            try:
                w.judge_tx('repeated operation', res.transaction.json(), req, cond_uh(p.primary), w.fee, set(own), set())
            except OracleFail as e:
                e.tags |= HOME
                raise
        w.check_balance(p, HOME)
        ctx.count('funded_later')
        ctx.key('funds', k, have)
    drive(ctx, w, go)


# ------------------------------------------------------------------ builders
def builders(ctx):
    import tfchain.errors as E
    r = ctx.rng
    w = FaultWorld(ctx, parties=1, keys=1, rich=False)
    w.plain = True
    p = w.parties[0]
    G = ref.GRAIN
    for _ in range(r.choice([1, 3])):
        w.chain.grant([(cond_uh(p.addr(0)), 20 * G)], confirmed=r.random() < .7)

    def gone(bld, what):
        """a builder that was sent, or failed to, says so"""
        n, q = len(w.chain.pushed), len(p.explorer.requests)
        for f in r.sample([lambda: bld.send(), lambda: bld.output_add(w.foreign[1], 1), lambda: bld.output_add(w.foreign[1], 1).send(),
                           lambda: bld.send(source=p.addr(0), data='again')], 3):
            try:
                f()
                raise OracleFail(HOME, 'a builder that was %s can be used again' % what)
            except OracleFail:
                raise
            except (AttributeError, TypeError, NameError) as e:
                raise OracleFail(HOME, 'a builder that was %s fails with %s: %s' % (what, type(e).__name__, e))
            except Exception as e:
                if 'coin' in type(e).__name__.lower():
                    raise
            if len(w.chain.pushed) != n:
                raise OracleFail(HOME, 'a builder that was %s sends again' % what)

    def go():
        c = w.chain
        own = p.own()
        bld = p.wallet.coin_transaction_builder_new()
        good = []
        for n in range(r.choice([1, 2, 4])):
            if r.random() < .4:         # a refused output is not in the transaction
                try:
                    r.choice([lambda: bld.output_add('x', 1), lambda: bld.output_add(w.foreign[0], 0), lambda: bld.output_add(w.foreign[0], '1.0000000001'),
                              lambda: bld.output_add(w.foreign[0], 1, lock='x'), lambda: bld.output_add(w.foreign[0], -1)])()
                    raise OracleFail({'C03'}, 'a bad output is accepted')
                except OracleFail:
                    raise
                except Exception:
                    pass
            a = r.choice(w.foreign)
            bld.output_add(a, '0.%d' % (n + 1))
            good.append((cond_uh(a), (n + 1) * G // 10))
        k = r.randrange(4)
        what = ['sent', 'refused for lack of funds', 'not sent because a request failed', 'refused for its data'][k]
        if k == 1:
            bld.output_add(w.foreign[0], 1000)
        kw, back = {}, cond_uh(p.primary)
        if r.random() < .4:
            kw['source'] = r.choice([p.addr(0), [p.addr(0)]])
        if r.random() < .3:
            kw['refund'] = r.choice(w.foreign)
            back = cond_uh(kw['refund'])
        exc = None
        try:
            if k == 2:
                with Faulty(w, p, r.randrange(0, 2)):
                    res = bld.send(**kw)
            elif k == 3:
                res = bld.send(data='x' * 84, **kw)
            else:
                res = bld.send(**kw)
        except Exception as e:
            exc = e
        if k == 0:
            if exc is not None:
                raise OracleFail(HOME, 'builder fails with %r' % exc)
            try:
                w.judge_tx('builder', res.transaction.json(), good, back, w.fee, set(own), set())
            except OracleFail as e:
                e.tags |= HOME
                raise
            w.judge_push('builder', p, res.transaction, res.submitted, c.pushed, True, HOME)
            ctx.count('builders_used_up')
        else:
            if exc is None:
                raise OracleFail(HOME, 'a builder that must be %s is sent' % what)
            if k == 1 and not isinstance(exc, E.InsufficientFunds):
                raise OracleFail(HOME, 'a builder that must be %s fails with %r' % (what, exc))
            if c.pushed:
                raise OracleFail(HOME, 'a builder %s pushed' % what)
            ctx.count('builders_failed')
        gone(bld, what)
        w.check_balance(p, HOME)
        if kw.get('refund'):
            c.grant([(cond_uh(p.addr(0)), 20 * G)])
        other = p.wallet.coin_transaction_builder_new().output_add(w.foreign[1], '0.01').send()
        if not other.submitted or c.events:
            raise OracleFail(HOME, 'a new builder does not send after one was %s' % what)
        ctx.key('builder', k, len(good), sorted(kw))
    drive(ctx, w, go)


# ------------------------------------------------------------------ reads
def reads(ctx):
    from .rich import fill
    r = ctx.rng
    w = FaultWorld(ctx, parties=2, keys=r.choice([1, 2, 4]))
    p = w.parties[0]
    if r.random() < .5:
        fill(w, r.randrange(1, 5))
    if r.random() < .6:                 # used keys beyond the known ones
        for _ in range(r.choice([1, 2])):
            w.chain.grant([(cond_uh(p.addr(p.key_count + r.randrange(0, 2))), 5 * ref.GRAIN)])

    keys = p.wallet.key_count

    def go():
        c = w.chain
        addr = r.choice(w.own0(p))
        tx = r.choice([t for t in c.txs.values()])
        block = c.blocks[r.choice(sorted(c.blocks))]
        from tfchain.types.CryptoTypes import PublicKey
        ops = {'addresses': lambda: list(p.wallet.addresses),
               'balance': lambda: w.check_balance(p, HOME) and None,
               'transactions': lambda: w.check_list('transactions', p.wallet.transactions, set(p.own()), HOME) and None,
               'chain info': lambda: (lambda i: (i.height, i.timestamp, str(i.blockid)))(p.client.blockchain_info_get()),
               'address': lambda: sorted(str(t.id) for t in p.client.unlockhash_get(addr).transactions),
               'transaction': lambda: json.dumps(p.client.transaction_get(tx.id).json(), sort_keys=True),
               'block': lambda: (lambda b: (str(b.id), b.height, [str(t.id) for t in b.transactions]))(p.client.block_get(block['height']))}
        for name in r.sample(sorted(ops), 3):
            fn = ops[name]
            w.fresh(p, keys)
            n = 0
            failed = 0
            while n < 300:
                p.explorer.budget = 5000
                exc = res = None
                with Faulty(w, p, n) as f:
                    try:
                        res = fn()
                    except Exception as e:
                        exc = e
                if f.hit is None:
                    break
                failed += 1
                where = '%s, request %d failing (%s %s)' % (name, n, f.hit[3], f.hit[1])
                if exc is None and name == 'addresses':
                    raise OracleFail(HOME, '%s: no error, addresses %r' % (where, res))
                if isinstance(exc, OracleFail):
                    raise OracleFail(HOME, '%s: no error, but: %s' % (where, exc))
                if exc is not None and not surfaced(f.hit, exc):
                    raise OracleFail(HOME, '%s: the caller gets %s: %s' % (where, type(exc).__name__, exc))
                ctx.count('faults')
                ctx.count('scan_faults' if name == 'addresses' else 'read_faults')
                n += 1
                if r.random() < .2:
                    w.fresh(p, keys)
            import tfchain.errors as E
            w.fresh(p, keys)
            try:
                want, wexc = fn(), None
            except E.ExplorerNoContent as e:
                want, wexc = None, e        # an address that was never used
            if type(exc) is not type(wexc):
                raise OracleFail(HOME, '%s after %d failures: %s: %s' % (name, failed, type(exc).__name__, exc))
            if res != want:
                raise OracleFail(HOME, '%s after %d failures: %r, a wallet that met no failure says %r' % (name, failed, res, want))
            ctx.count('reads_repeated')
            ctx.key('read', name, failed)
    drive(ctx, w, go)


# ------------------------------------------------------------------ signing an object whose push failed
def objects(ctx):
    r = ctx.rng
    w = FaultWorld(ctx, parties=1, keys=r.choice([1, 2]), rich=False)
    w.plain = True
    p = w.parties[0]
    for _ in range(r.choice([1, 3])):
        w.chain.grant([(cond_uh(p.addr(0)), 20 * ref.GRAIN)], confirmed=r.random() < .7)

    def go():
        from tfchain.types import transactions as T
        from tfchain.types.PrimitiveTypes import Currency
        c = w.chain
        t = p.wallet.balance.drain(w.foreign[0], Currency(value=tft(w.fee)), unconfirmed=True)[0]
        form = r.choice(['object', 'object', 'json', 'text'])
        arg = t if form == 'object' else t.json() if form == 'json' else json.dumps(t.json())
        own = p.own()
        p.explorer.fault = lambda n, kind, e: faults(True)[r.randrange(4)][1] if kind == 'POST' else None
        try:
            p.wallet.transaction_sign(arg)
            raise OracleFail(HOME, 'a push fails, but the signing call does not')
        except OracleFail:
            raise
        except Exception:
            pass
        p.explorer.fault = None
        w.untouched(p, 'signing', own, 0, 0)
        w.check_balance(p, HOME)
        res = p.wallet.transaction_sign(arg)
        ctx.count('object_resubmitted')
        if form == 'object' and not c.pushed and not res.submitted and not res.signed and res.transaction is t:
            ctx.known('resubmit-signed-object', 'transaction_sign of a transaction object whose push failed: the object keeps its '
                      'signatures, so repeating the call with it adds none and does not submit it')
            return
        if len(c.pushed) != 1 or not res.submitted or c.events:
            raise OracleFail(HOME, 'signing %s again after a failed push: submitted=%r, %d pushes, node says %r' % (
                form, res.submitted, len(c.pushed), c.events))
    drive(ctx, w, go)


PARTS = [('histories', 260, 8000, histories), ('arguments', 160, 6000, arguments), ('funds', 120, 3000, funds),
         ('builders', 160, 4000, builders), ('reads', 80, 3000, reads), ('objects', 30, 400, objects)]
