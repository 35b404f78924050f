"""An atomic swap contract is exactly what was agreed, or verification fails."""
import datetime
import hashlib
import json

from .. import ref
from ..world import World, drive, cond_uh, cond_lock, cond_ms, cond_swap, OracleFail, tft, canon, grains
from .common import histories

RULE = ('Histories that create swap contracts from every source, refund and notation of the refund time and verify them with '
        'random expectations; complete swaps between two wallets (initiate, verify, participate, verify, redeem, learn the '
        'secret, redeem or refund) where each stated expectation is wrong by the smallest step; contracts that are unknown, '
        'spent (confirmed or not), no swaps at all, or not yet submitted. distinct = distinct combination of expectations, '
        'deviation, source and outcome.')
REQUIRED = ['swaps_created', 'swaps_refused', 'verifications', 'verified_ok', 'agreements', 'deviations', 'not_contracts', 'stories']
ASSUMPTIONS = ['the explorer answers truthfully', 'a minimum refund time that has passed asks for a contract that is refundable now']
HOME = {'C16'}


def agree(ctx):
    """two parties, one contract after the other, each expectation wrong by the smallest step"""
    import tfchain.errors as E
    from tfchain.types.AtomicSwap import AtomicSwapContract
    from tfchain.types.PrimitiveTypes import Hash
    from tfchain.types import transactions
    r = ctx.rng
    w = World(ctx, parties=3, rich=False)
    a, b, third = w.parties
    c = w.chain
    for p in (a, b):
        for _ in range(r.choice([2, 4])):
            c.grant([(cond_uh(r.choice(w.own0(p))), 10 ** 9 * r.randrange(50, 5000)) for _ in range(2)])

    def create(p, q, secret_hash=None, submit=True):
        """one contract of p for q; returns its agreed terms and the result"""
        rc = r.choice(w.own0(q))
        amount = r.choice([w.fee + 1, w.fee + r.randrange(1, 10 ** 9), 10 ** 9 * r.randrange(2, 40)])
        k = r.randrange(8)
        initiate = secret_hash is None
        dur = r.choice([2400, 3540, 3599, 3600, 86399, 86400, 90061, 10 ** 6, 10 ** 6, 4 * 10 ** 7, 10 ** 9])
        if k == 0:
            targ, tval = None, c.time + (48 if initiate else 24) * 3600
        elif k < 4:
            t = dur
            parts = []
            for u, n in (('d', 86400), ('h', 3600), ('m', 60), ('s', 1)):
                if t // n:
                    parts.append('%d%s' % (t // n, u))
                t %= n
            targ, tval = '+' + ''.join(parts), c.time + dur
        elif k < 6:
            tval = c.time + dur
            targ = datetime.datetime.fromtimestamp(tval).strftime('%Y/%m/%d %H:%M:%S')
        else:
            tval = targ = c.time + dur
        kw = {} if targ is None else {'refund_time': targ}
        if not submit:
            kw['submit'] = False
        s = None
        if r.random() < .4:
            s = r.choice(w.own0(p))
            kw['refund'] = s
        darg, data = w.data()
        if darg is not None:
            kw['data'] = darg
        am = w.amount(amount)
        what = 'contract of %s for %s until %r' % (tft(amount), rc, targ)
        if initiate:
            res, exc, pushes = w.call(p, what, HOME, lambda: p.wallet.atomicswap.initiate(rc, am, **kw))
            hashed = hashlib.sha256(bytes(res.secret.value)).hexdigest()
        else:
            h = secret_hash if r.random() < .5 else bytes.fromhex(secret_hash)
            res, exc, pushes = w.call(p, what, HOME, lambda: p.wallet.atomicswap.participate(rc, am, h, **kw))
            hashed = secret_hash
        terms = dict(amount=amount, sender=s or p.primary, receiver=rc, hashed=hashed, refund=tval)
        js = res.transaction.json()
        want = cond_swap(terms['sender'], rc, hashed, tval)
        got = [o for o in js['data']['coinoutputs'] if o['condition']['type'] == 2]
        if len(got) != 1 or canon(got[0]['condition']) != canon(want) or int(got[0]['value']) != amount:
            raise OracleFail(HOME, '%s: locks %r, agreed %r of %d' % (what, got, want, amount))
        n = js['data']['coinoutputs'].index(got[0])
        oid = ref.coin_output_id(js, n)
        if str(res.contract.outputid) != oid:
            raise OracleFail(HOME | {'C08'}, '%s: reports contract %s, the network knows it as %s' % (what, res.contract.outputid, oid))
        k = res.contract
        rep = (grains(k.amount), str(k.sender), str(k.receiver), bytes(k.secret_hash.value).hex(), k.refund_timestamp)
        if rep != (amount, terms['sender'], rc, hashed, tval):
            raise OracleFail(HOME, '%s: reports contract %r, agreed %r' % (what, rep, terms))
        if bool(pushes) != submit or bool(res.submitted) != submit:
            raise OracleFail(HOME | {'C06'}, '%s: %d pushes, submitted=%r, asked %r' % (what, len(pushes), res.submitted, submit))
        ctx.count('agreements')
        return oid, terms, res

    def verify(p, oid, kw, expect, what, **more):
        arg = Hash(value=oid) if r.random() < .3 else oid
        res, exc, pushes = w.call(p, 'verify %s: %s' % (what, kw), HOME,
                                  lambda: p.wallet.atomicswap.verify(arg, **dict(kw, **more)), expect)
        if pushes:
            raise OracleFail(HOME, 'verify pushed something')
        if exc is None:
            ctx.count('verified_ok')
        ctx.count('verifications')
        return res, exc

    def full(p, terms, role):
        kw = dict(amount=w.amount(terms['amount']), secret_hash=terms['hashed'], min_refund_time=terms['refund'])
        kw[role] = True
        return kw

    def deviate(p, oid, terms, role, other_role, **more):
        """every expectation wrong by the smallest step must be noticed, alone or with others"""
        base = full(p, terms, role)
        bad = {}
        bad['amount'] = w.amount(terms['amount'] + r.choice([1, -1, 10 ** 9]))
        h = bytearray.fromhex(terms['hashed'])
        h[r.randrange(32)] ^= 1 << r.randrange(8)
        bad['secret_hash'] = bytes(h) if r.random() < .5 else bytes(h).hex()
        bad['min_refund_time'] = terms['refund'] + 1
        if r.random() < .3:
            bad['min_refund_time'] = '+%ds' % (terms['refund'] + 1 - c.time)
        for k, v in bad.items():
            kw = {x: y for x, y in base.items() if r.random() < .6}
            kw[k] = v
            verify(p, oid, kw, E.AtomicSwapContractInvalid, 'with a wrong %s' % k, **more)
            ctx.count('deviations')
            ctx.key('deviate', k, sorted(kw), role)
        if terms['sender'] not in p.own() or terms['receiver'] not in p.own():
            kw = {x: y for x, y in base.items() if r.random() < .5}
            kw[other_role] = True
            verify(p, oid, kw, E.AtomicSwapContractInvalid, 'as the other side', **more)
        kw = {x: y for x, y in base.items() if r.random() < .5 and x not in (role,)}
        kw[r.choice(['sender', 'receiver'])] = True
        verify(third, oid, kw, E.AtomicSwapContractInvalid, 'by a third party', **more)
        ctx.count('deviations', 2)
        # and the right ones, in any subset
        kw = {x: y for x, y in base.items() if r.random() < .7}
        if 'min_refund_time' in kw and r.random() < .5:
            kw['min_refund_time'] = '+%ds' % (terms['refund'] - c.time)
        verify(p, oid, kw, 'ok', 'as agreed', **more)

    def go():
        # a contract that is not submitted yet, checked by the other side from its JSON
        if r.random() < .5:
            oid, terms, res = create(a, b, submit=False)
            t = transactions.from_json(json.loads(json.dumps(res.transaction.json())))
            co = [o for o in t.coin_outputs if hasattr(o.condition, 'hashed_secret')][0]
            co.id = oid
            k = AtomicSwapContract(coinoutput=co, current_timestamp=c.time)
            if not (k == res.contract):
                raise OracleFail(HOME, 'the contract read from JSON is not the one reported')
            verify(b, oid, full(b, terms, 'receiver'), 'ok', 'offline', contract=k)
            deviate(b, oid, terms, 'receiver', 'sender', contract=k)
            verify(b, c.rand(32).hex(), {}, E.AtomicSwapContractInvalid, 'offline under another identifier', contract=k)
            verify(b, oid, {}, E.AtomicSwapContractNotFound, 'that is not submitted')
        # a whole swap
        oid1, t1, r1 = create(a, b)
        if r.random() < .5:
            c.mine()
        verify(b, oid1, full(b, t1, 'receiver'), 'ok', 'by the participant')
        verify(a, oid1, full(a, t1, 'sender'), 'ok', 'by the initiator')
        deviate(b, oid1, t1, 'receiver', 'sender')
        oid2, t2, r2 = create(b, a, secret_hash=t1['hashed'])
        verify(a, oid2, full(a, t2, 'receiver'), 'ok', 'by the initiator')
        deviate(a, oid2, t2, 'receiver', 'sender')
        if not (r1.contract == r1.contract) or r1.contract == r2.contract or not (r1.contract != r2.contract):
            raise OracleFail(HOME, 'contracts of different outputs compare equal')
        late = r.random() < .4
        if late:
            c.mine(dt=max(1, max(t1['refund'], t2['refund']) - c.time + r.choice([0, 1, 1000])))
            for p, oid, t in ((a, oid1, t1), (b, oid2, t2)):
                if c.time < t['refund']:        # the time of the last block lies before that of its parent
                    c.mine(dt=t['refund'] - c.time)
                kw = {'min_refund_time': r.choice([c.time, c.time - 1, t['refund'], 1])}
                verify(p, oid, kw, 'ok', 'after the refund time')
                verify(p, oid, {'min_refund_time': c.time + 1}, E.AtomicSwapContractInvalid, 'after the refund time')
                if r.random() < .7:
                    w.call(p, 'refund', HOME | {'C17'}, lambda: p.wallet.atomicswap.refund(oid))
                    spent = c.accepted[-1]
                    if r.random() < .5:
                        c.mine()
                    _, exc = verify(p, oid, full(p, t, 'sender') if r.random() < .5 else {}, E.AtomicSwapContractSpent, 'that is refunded')
                    if str(exc.transaction.id) != spent:
                        raise OracleFail(HOME, 'the error names %s as spending transaction, it is %s' % (exc.transaction.id, spent))
        else:
            w.call(a, 'redeem', HOME | {'C17'}, lambda: a.wallet.atomicswap.redeem(oid2, r1.secret))
            if r.random() < .5:
                c.mine()
            # the participant learns the secret from the chain
            _, exc = verify(b, oid2, {}, E.AtomicSwapContractSpent, 'that is redeemed')
            secret = exc.transaction.coin_inputs[0].fulfillment.secret
            if bytes(secret.value) != bytes(r1.secret.value):
                raise OracleFail(HOME | {'C17'}, 'the secret read from the chain is %s' % secret)
            w.call(b, 'redeem', HOME | {'C17'}, lambda: b.wallet.atomicswap.redeem(oid1, secret))
            verify(a, oid1, full(a, t1, 'sender'), E.AtomicSwapContractSpent, 'that is redeemed')
        ctx.count('stories')
        # what is no contract
        t = c.grant([(cond_uh(a.primary), 5), (cond_ms([a.primary, b.primary], 1), 5), (cond_lock(c.height + 5, cond_uh(a.primary)), 5)])
        for o in t.coin_ids:
            verify(a, o, {}, Exception, 'of an output that is no contract')
            ctx.count('not_contracts')
        verify(a, c.rand(32).hex(), {}, E.AtomicSwapContractNotFound, 'of nothing')
        # too little to pay for its redemption; nothing agreed
        for v in (w.fee, w.fee - 1, 1, r.randrange(1, w.fee)):
            w.call(a, 'contract of %s' % tft(v), HOME, lambda: a.wallet.atomicswap.initiate(b.primary, w.amount(v)),
                   E.AtomicSwapInsufficientAmountError)
            w.call(a, 'contract of %s' % tft(v), HOME, lambda: a.wallet.atomicswap.participate(b.primary, w.amount(v), t1['hashed']),
                   E.AtomicSwapInsufficientAmountError)
            ctx.count('swaps_refused', 2)
        for bad in (1, 1000, 499999999):        # a height is no refund time
            w.call(a, 'contract until height %d' % bad, HOME, lambda: a.wallet.atomicswap.initiate(
                b.primary, 5, refund_time=bad), Exception)
        for bad in (c.rand(31), c.rand(33), 'zz' * 32, 'ab' * 31, b'', '', None):
            w.call(a, 'contract with hash %r' % bad, HOME, lambda: a.wallet.atomicswap.participate(b.primary, 5, bad), Exception)
        ctx.key('story', late, w.network, t1['amount'] > 10 ** 9)
        ctx.sample({'contract': t1, 'id': oid1, 'second': t2, 'late': late})
    drive(ctx, w, go)


W = {'swap': 12, 'verify': 14, 'claim': 3, 'send': 1, 'cosign': 1}
PARTS = [('histories', 200, 5000, histories(W, steps=22)), ('agree', 120, 3000, agree)]
