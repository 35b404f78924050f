"""Draining a balance empties it completely and exactly."""
import json

from .. import ref
from ..world import World, drive, OracleFail, cond_uh, cond_ms, cond_lock, tft, grains
from .common import histories

RULE = ('Balances of 0 to 400 outputs, with worthless, locked, spent and unconfirmed ones in every order, of one wallet, of merged and '
        'of shared wallets, drained with and without the unconfirmed outputs, with lock, data, fee and every kind of recipient; the '
        'transactions are compared with the model ledger output by output, signed by all owners, judged by the model node, and the '
        'balance asked and drained again. distinct = distinct owner kind, counts of every class, transactions and options.')
REQUIRED = ['drains', 'drained_txs', 'large', 'worthless', 'shared_completed', 'redrained', 'exactly_99', 'nothing']
ASSUMPTIONS = ['the explorer answers truthfully', 'which outputs are grouped in one transaction is free']
HOME = {'C32'}


def drains(ctx):
    from tfchain.types.PrimitiveTypes import Currency
    r = ctx.rng
    w = World(ctx, parties=2, rich=False, keys=r.choice([1, 2, 3]))
    c = w.chain
    p, q = w.parties
    ms = cond_ms([p.addr(0), q.addr(0)] + r.choice([[], w.foreign[:1]]), r.choice([1, 2]))
    shared = r.random() < .35
    fee = w.fee * r.choice([1, 1, 1, 3])
    n = r.choice([0, 0, 1, 2, 5, 20, 97, 98, 99, 99, 100, 101, 197, 198, 199, 230] + r.choice([[], [], [296, 297, 298, 410, 520]]))
    unc = r.choice([0, 0, 1, 3, 99, 60])
    # how much of it is worthless, and where
    style = r.choice(['none', 'none', 'some', 'first', 'last', 'all', 'edge'])

    def value(k, total):
        tiny = r.randrange(1, max(2, fee // 120))
        big = r.choice([fee + r.randrange(10 ** 9), 10 ** 9 * r.randrange(1, 1000), fee, fee + 1])
        if style == 'all' or (style == 'first' and k < 99) or (style == 'last' and k >= total - 99) or (style == 'some' and r.random() < .5):
            return tiny
        if style == 'edge':
            return max(1, fee // max(1, min(total, 99)) + r.choice([-1, 0, 0, 1]))
        return big

    def fill(count, confirmed):
        outs = []
        for k in range(count):
            cond = ms if shared else cond_uh(r.choice(w.own0(p)))
            if r.random() < .08:
                cond = cond_lock(w.lock_value(), cond)
            outs.append((cond, value(k, count)))
            if r.random() < .05:
                outs.append((cond_uh(r.choice(w.foreign)), 10 ** 9))
        while outs:
            k = r.choice([1, 7, 40])
            c.grant(outs[:k], confirmed=confirmed, kind=r.choice(['v1', 'v129']))
            outs = outs[k:]

    def go():
        if shared and not n:
            c.grant([(cond_lock(c.height + 1000, ms), 10 ** 9)])
        fill(n, True)
        owner = {ref.cond_address(ms)} if shared else set(w.own0(p))
        mine = c.unspent(owner, confirmed=True)
        if mine and r.random() < .4:        # spent elsewhere, confirmed or not
            w.spend_as(1, r.sample(mine, min(len(mine), 3)), [(r.choice([ms, cond_uh(p.addr(0))]), 5 * 10 ** 9)], r.random() < .5)
        if unc:
            fill(unc, False)
        unconfirmed = r.random() < .5
        arg, rc = w.recipient(p)
        lock = None
        if rc['type'] != 3 and r.random() < .3:
            lock = w.lock_value() or 1
            rc = cond_lock(lock, rc)
        darg, data = w.data()
        kw = {'unconfirmed': unconfirmed}
        if darg is not None:
            kw['data'] = darg
        if lock is not None:
            kw['lock'] = lock
        total = p.wallet.balance
        bal = total.wallets.get(ref.cond_address(ms)) if shared else total
        if bal is None:
            if any(o.address in owner for o in c.outs.values()):
                raise OracleFail({'C04'}, 'the shared wallet is not reported')
            return
        outs = [o for o in c.unspent(owner) if c.unlocked(o) and (unconfirmed or c.is_confirmed(o))]
        small = [o for o in outs if o.value <= fee]
        what = 'drain of %d outputs (%d worthless alone, %s), fee %s' % (len(outs), len(small), 'shared' if shared else 'personal', tft(fee))
        for rep in range(2):
            res, exc, pushes = w.call(p, what, HOME, lambda: bal.drain(arg, Currency(value=tft(fee)), **kw))
            if pushes:
                raise OracleFail(HOME | {'C06'}, '%s: pushed something' % what)
            w.judge_drain(what, p, res, outs, rc, fee, data)
            d = w.balance_diff(bal, owner, what + ': the drained balance')
            if d:
                raise OracleFail(HOME | {'C29', 'C04'}, d)
        ctx.count('redrained')
        ctx.count('large' if len(outs) > 99 else 'fits')
        if len(outs) in (99, 198):
            ctx.count('exactly_99')
        if not outs:
            ctx.count('nothing')
        if small:
            ctx.count('worthless')
        txs = list(res)
        r.shuffle(txs)
        left = {o.id for o in outs} - {i['parentid'] for t in txs for i in ref.coin_inputs(t.json())}
        for t in txs:
            form = r.choice([lambda x: x, lambda x: x.json(), lambda x: json.dumps(x.json())])
            if not shared:
                rr, exc, pushes = w.call(p, what + ': signing', HOME, lambda: p.wallet.transaction_sign(form(t)))
                w.judge_push(what, p, rr.transaction, rr.submitted, pushes, True, HOME)
                ctx.count('drained_txs')
                continue
            need = ms['data']['minimumsignaturecount']
            cur = t
            order = r.sample([p, q], 2)
            for k, x in enumerate(order):
                if k >= need:
                    break
                rr, exc, pushes = w.call(x, what + ': signing by ' + x.name, HOME, lambda: x.wallet.transaction_sign(form(cur)))
                w.judge_push(what, x, rr.transaction, rr.submitted, pushes, k + 1 == need, HOME)
                cur = rr.transaction
            ctx.count('shared_completed')
        now = {o.id for o in c.unspent(owner) if o.id in {y.id for y in outs}}
        if now != left:
            raise OracleFail(HOME, '%s: %d outputs are left, expected %d' % (what, len(now), len(left)))
        if r.random() < .5:
            c.mine()
        w.check_balance(p, HOME | {'C04'})
        ctx.key('drain', shared, len(outs), len(small), len(txs), unconfirmed, bool(lock), bool(data), style, len(left))
        ctx.sample({'what': what, 'transactions': len(txs), 'left': len(left)})
    drive(ctx, w, go)


def refused(ctx):
    """fees and data that are no valid ones"""
    from tfchain.types.PrimitiveTypes import Currency
    r = ctx.rng
    w = World(ctx, parties=1, rich=False)
    c, p = w.chain, w.parties[0]

    def go():
        c.grant([(cond_uh(p.addr(0)), 10 ** 12) for _ in range(r.choice([1, 5]))])
        b = p.wallet.balance
        f = Currency(value=tft(w.fee))
        for what, fn in (('no fee', lambda: b.drain(w.foreign[0], Currency(0))), ('no recipient text', lambda: b.drain('01ab', f)),
                         ('broken address', lambda: b.drain(w.foreign[0][:-1] + ('0' if w.foreign[0][-1] != '0' else '1'), f)),
                         ('no address', lambda: b.drain(5, f)), ('too much data', lambda: b.drain(w.foreign[0], f, data='x' * 84)),
                         ('negative fee', lambda: b.drain(w.foreign[0], -1)), ('fee of a wrong type', lambda: b.drain(w.foreign[0], object()))):
            w.call(p, 'drain with ' + what, HOME, fn, Exception)
            ctx.count('refused')
        d = w.balance_diff(b, set(p.own()), 'balance after refused drains')
        if d:
            raise OracleFail(HOME | {'C29'}, d)
        ctx.key('refused', r.random())
    drive(ctx, w, go)


W = {'drain': 12, 'history': 8, 'send': 2, 'cosign': 2, 'mine': 3, 'swap': 1, 'balance': 2}
PARTS = [('drains', 300, 6000, drains), ('refused', 20, 200, refused), ('histories', 60, 1500, histories(W, steps=16))]
