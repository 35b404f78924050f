"""Workloads shared by the wallet properties: each property runs them with its own weights and judges its own tags."""
from ..world import World, OracleFail, drive, cond_uh, cond_lock, cond_ms, best99, tft, canon, grains
from .. import ref

HIST = {'history': 6, 'mine': 5}


def histories(weights, steps=20, parties=2, **kw):
    """a case: one random history with the given operation weights"""
    def case(ctx):
        w = World(ctx, parties=ctx.rng.choice([1, 2, 2, 3]) if parties is None else parties, **kw)
        drive(ctx, w, lambda: w.run(steps, dict(HIST, **weights)))
    return case


def wide(ops, locked=True, shared=.3):
    """a case: one wallet (and a shared wallet) with far more outputs than fit in one transaction"""
    def case(ctx):
        r = ctx.rng
        w = World(ctx, parties=2, rich=False, keys=r.choice([1, 2, 3, 3]))
        p = w.parties[0]
        group = r.random() < shared
        ms = cond_ms([p.addr(0), w.parties[1].addr(0)], r.choice([1, 1, 2]))
        if group:
            w.multisigs.append(ms)
            w.prefer_shared = True
        if not group and r.random() < .6:          # all on one address, which is then named as the source
            w.busy = p.addr(r.randrange(len(w.own0(p))))
        n = r.choice([20, 45, 97, 98, 99, 100, 101, 130, 205])
        unc = r.choice([0, 0, 1, 5, 60])
        size = r.choice([1, 1, 1000])

        def fill(k, confirmed):
            outs = []
            for _ in range(k):
                c = ms if group and r.random() < .8 else cond_uh(w.busy if w.busy and r.random() < .95 else r.choice(w.own0(p)))
                if locked and r.random() < .06:
                    c = cond_lock(w.lock_value(), c)
                v = r.choice([r.randrange(1, 10 * size), GR * r.randrange(1, 50), GR])
                outs.append((c, v))
            while outs:
                w.chain.grant(outs[:40], confirmed=confirmed, kind=r.choice(['v1', 'v129']))
                outs = outs[40:]
        fill(max(0, n - unc), True)
        if unc:
            fill(unc + r.randrange(0, 60), False)
        if r.random() < .4:
            use = r.sample(w.chain.unspent(set(w.own0(p)) | {ref.cond_address(ms)}), 3)
            w.spend_as(1, use, [(cond_uh(p.addr(0)), 5 * GR)], False)

        def go():
            for _ in range(r.choice([1, 2, 3])):
                w.step(r.choice(ops))
                if r.random() < .3:
                    w.chain.mine()
                while w.pending:
                    w.op_cosign()
            w.step('balance')
        drive(ctx, w, go)
    return case


GR = ref.GRAIN
