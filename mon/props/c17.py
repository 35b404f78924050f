"""Only the receiver with the secret, or the sender after time-out, claims a swap."""
import hashlib

from .. import ref
from ..world import World, drive, cond_uh, cond_lock, cond_ms, cond_swap, OracleFail, tft, canon, grains
from .common import histories

RULE = ('Histories of claims on contracts of every age, state and ownership; for one contract after the other every claim that '
        'must fail (wrong, short, long secret, foreign wallet, too early by one second, spent, unknown, no contract) is tried '
        'before the one that must succeed, at the boundary of the refund time; the pushed claim is judged like a full node '
        'does. distinct = distinct combination of claim, role, timing, state and outcome.')
REQUIRED = ['claims_ok', 'claims_refused', 'redeemed', 'refunded', 'early', 'wrong_secret', 'foreign', 'spent', 'node_sig_swap', 'earlier_block']
ASSUMPTIONS = ['the explorer answers truthfully', 'contracts worth at most one miner fee cannot be claimed alone']
HOME = {'C17'}


def boundary(ctx):
    import tfchain.errors as E
    from tfchain.types.ConditionTypes import AtomicSwapSecret
    from tfchain.types.PrimitiveTypes import Hash
    r = ctx.rng
    w = World(ctx, parties=3, rich=False)
    c = w.chain
    a, b, third = w.parties
    c.grant([(cond_uh(p.primary), 10 ** 11) for p in w.parties])

    def attempt(p, what, fn, expect, tag):
        ctx.count(tag)
        res, exc, pushes = w.call(p, what, HOME, fn, expect)
        if exc is not None and pushes:
            raise OracleFail(HOME, '%s: refused but pushed' % what)
        return res, exc, pushes

    def go():
        for _ in range(r.choice([1, 2, 3])):
            same = r.random() < .15
            s, rc = r.choice(w.own0(a)), r.choice(w.own0(a if same else b))
            secret = r.choice([c.rand(32), c.rand(32), b'\0' * 31 + b'\1', b'\1' + b'\0' * 31])
            lock = c.time + r.choice([1, 2, 60, 10 ** 5])
            cond = cond_swap(s, rc, hashlib.sha256(secret).hexdigest(), lock)
            value = w.fee + r.choice([1, 2, w.fee, r.randrange(1, 10 ** 12), 10 ** 17])
            conf = r.random() < .7
            if r.random() < .5:
                t = c.grant([(cond_uh(s), 3), (cond, value)], confirmed=conf)
            else:
                t = c.grant([(cond, value)], confirmed=conf, kind='v129')
            oid = [i for i in t.coin_ids if c.outs[i].condition['type'] == 2][0]
            o = c.outs[oid]
            if c.time >= lock:      # confirming moved the clock
                lock = None
            recv = a if same else b
            oarg = lambda: Hash(value=oid) if r.random() < .3 else oid
            red = lambda p, x: (lambda: p.wallet.atomicswap.redeem(oarg(), x))
            ref_ = lambda p: (lambda: p.wallet.atomicswap.refund(oarg()))
            # everything that must fail
            tries = []
            flip = bytearray(secret)
            flip[r.randrange(32)] ^= 1 << r.randrange(8)
            for x in (bytes(flip), bytes(flip).hex(), bytes.fromhex(cond['data']['hashedsecret']), c.rand(32)):
                tries.append((recv, 'redeem with a wrong secret', red(recv, x), E.AtomicSwapInvalidSecret, 'wrong_secret'))
            for x in (secret[:31], secret + b'\0', b'', '', 'xyz', None, 5):
                tries.append((recv, 'redeem with secret %r' % (x,), red(recv, x), Exception, 'wrong_secret'))
            tries.append((third, 'redeem by a third party', red(third, secret), E.AtomicSwapForbidden, 'foreign'))
            if not same:
                tries.append((a, 'redeem by the sender', red(a, secret), E.AtomicSwapForbidden, 'foreign'))
            if lock is not None:
                for p in w.parties:
                    tries.append((p, 'refund %d s too early' % (lock - c.time), ref_(p), E.AtomicSwapForbidden, 'early'))
            gone = c.rand(32).hex()
            for what, fn in (('redeem', lambda: recv.wallet.atomicswap.redeem(gone, secret)), ('refund', lambda: a.wallet.atomicswap.refund(gone))):
                tries.append((recv, what + ' of nothing', fn, E.AtomicSwapContractNotFound, 'foreign'))
            r.shuffle(tries)
            for x in tries[:r.choice([3, 6, 14])]:
                attempt(*x)
            # one second before, exactly at, after the refund time
            if lock is not None and lock - c.time > 1 and r.random() < .7:
                c.mine(dt=lock - c.time - 1)
                attempt(a, 'refund one second too early', ref_(a), E.AtomicSwapForbidden, 'early')
            late = r.random() < .6
            if late and lock is not None and c.time < lock:
                c.mine(dt=lock - c.time + r.choice([0, 0, 1, 10 ** 6]))
            late = lock is None or c.time >= lock
            if late:
                for p in (third,) if same else (third, b):
                    attempt(p, 'refund by somebody else', ref_(p), E.AtomicSwapForbidden, 'foreign')
                if lock is not None and r.random() < .4:
                    # the next block may be dated before its parent: the last block counts, and no later one seen before
                    ctx.count('earlier_block')
                    w.call(a, 'verify', HOME, lambda: a.wallet.atomicswap.verify(oarg(), sender=True, min_refund_time=0), 'ok')
                    again = c.time
                    c.mine(dt=lock - c.time - r.choice([1, 1, 30]))
                    attempt(a, 'refund too early once more', ref_(a), E.AtomicSwapForbidden, 'early')
                    c.mine(dt=again - c.time)
            how = 'refund' if late and r.random() < .6 else 'redeem'
            p = a if how == 'refund' else recv
            darg, data = w.data()
            if r.random() < .25:        # claimed elsewhere first
                c.insert({'version': 1, 'data': {'coininputs': [{'parentid': oid, 'fulfillment': {'type': 2, 'data': {
                    'publickey': w.pk(recv), 'signature': c.rand(64).hex(), 'secret': secret.hex()}}}],
                    'coinoutputs': [{'value': str(value - w.fee), 'condition': cond_uh(rc)}], 'minerfees': [str(w.fee)]}},
                    confirmed=r.random() < .5)
                claim = o.spender
            else:
                sarg = r.choice([secret, secret.hex(), bytearray(secret), AtomicSwapSecret(value=secret)])
                kw = {} if darg is None else {'data': darg}
                fn = (lambda: p.wallet.atomicswap.refund(oarg(), **kw)) if how == 'refund' else \
                    (lambda: p.wallet.atomicswap.redeem(oarg(), sarg, **kw))
                res, exc, pushes = attempt(p, '%s of %s' % (how, tft(value)), fn, 'ok', 'redeemed' if how == 'redeem' else 'refunded')
                if len(pushes) != 1:
                    raise OracleFail(HOME | {'C06'}, '%s: pushed %d times' % (how, len(pushes)))
                js = pushes[0]
                ins = ref.coin_inputs(js)
                to = s if how == 'refund' else rc
                outs = [(canon(x['condition']), int(x['value'])) for x in js['data'].get('coinoutputs') or []]
                if [i['parentid'] for i in ins] != [oid] or outs != [(canon(cond_uh(to)), value - w.fee)] or \
                        js['data']['minerfees'] != [str(w.fee)]:
                    raise OracleFail(HOME | {'C01'}, '%s of %d: pays %r from %r' % (how, value, outs, ins))
                f = ins[0]['fulfillment']['data']
                got = bytes.fromhex(f.get('secret') or '')
                if (how == 'redeem' and got != secret) or (how == 'refund' and any(got)):
                    raise OracleFail(HOME, '%s carries secret %r' % (how, f.get('secret')))
                if ref.pubkey_address(f['publickey']) != to:
                    raise OracleFail(HOME | {'C05'}, '%s is signed with the key of %s' % (how, ref.pubkey_address(f['publickey'])))
                if ref.data_of(js) != data:
                    raise OracleFail({'C30'}, '%s: data %r became %r' % (how, data, ref.data_of(js)))
                claim = c.accepted[-1]
                ctx.sample({'op': how, 'pushed': js})
            if r.random() < .5:
                c.mine()
            # nobody claims it again
            for q, what, fn in ((recv, 'redeem again', red(recv, secret)), (a, 'refund again', ref_(a)),
                                (recv, 'redeem again with a wrong secret', red(recv, bytes(flip)))):
                _, exc, _ = attempt(q, what, fn, E.AtomicSwapContractSpent, 'spent')
                if str(exc.transaction.id) != claim:
                    raise OracleFail(HOME, '%s: the error names %s, spent by %s' % (what, exc.transaction.id, claim))
            ctx.key('boundary', how, late, conf, same, value - w.fee < 3, bool(data), o.spender == (c.accepted or [None])[-1],
                    None if lock is None else (c.time > lock) - (c.time < lock))
        # outputs that are no contracts
        t = c.grant([(cond_uh(a.primary), 10 ** 12), (cond_lock(c.time - 5, cond_uh(a.primary)), 10 ** 12)])
        for i in t.coin_ids:
            w.call(a, 'redeem of a plain output', HOME, lambda: a.wallet.atomicswap.redeem(i, c.rand(32)), Exception)
            w.call(a, 'refund of a plain output', HOME, lambda: a.wallet.atomicswap.refund(i), Exception)
    drive(ctx, w, go)


W = {'claim': 16, 'swap': 5, 'verify': 1, 'history': 4, 'mine': 6}
PARTS = [('histories', 200, 5000, histories(W, steps=22)), ('boundary', 150, 4000, boundary)]
