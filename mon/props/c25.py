"""Block, transaction and output lookups return exactly what the chain holds."""
from .. import ref
from ..world import World, drive, OracleFail, canon, grains, tx_diff
from . import rich

RULE = ('Model chains holding transactions of every version (also the legacy one), confirmed and not, with miner payouts, block '
        'stake and coin outputs spent and unspent; every block (by height and by identifier), transaction and output is looked '
        'up and compared part by part with the chain, at several points of its growth; lookups of what does not exist. '
        'distinct = distinct kind of lookup, version, input/output counts and state.')
REQUIRED = ['blocks', 'transactions', 'coin_outputs', 'stake_outputs', 'payouts', 'spent', 'unknown', 'tips', 'legacy']
ASSUMPTIONS = ['the explorer answers truthfully']
HOME = {'C25'}


def bad(fmt, *a):
    raise OracleFail(HOME, fmt % a if a else fmt)


def same_tx(t, m, c, what):
    d = tx_diff(t, m, c)
    if d:
        bad('%s: %s', what, d)
    if str(t.id) != m.id:
        bad('%s: transaction %s has identifier %s', what, m.id, t.id)
    if bool(t.unconfirmed) != (m.height is None):
        bad('%s: transaction %s unconfirmed=%r at height %r', what, m.id, t.unconfirmed, m.height)
    if m.height is not None and t.height != m.height:
        bad('%s: transaction %s at height %r, the chain says %r', what, m.id, t.height, m.height)
    if m.height is None and isinstance(t.height, int) and t.height >= 0:
        bad('%s: unconfirmed transaction %s at height %r', what, m.id, t.height)
    if int(t.version) != (m.js['version'] or 1):
        bad('%s: transaction %s has version %r', what, m.id, t.version)


def same_out(o, m, what):
    if str(o.id) != m.id:
        bad('%s: output %s has identifier %s', what, m.id, o.id)
    v = grains(o.value) if m.kind == 'coin' else int(o.value)
    if v != m.value or canon(o.condition.json()) != canon(m.condition) or str(o.condition.unlockhash) != m.address:
        bad('%s: output %s reads as %s, the chain has %d under %s', what, m.id, o.json(), m.value, m.condition)


def forms(r, h):
    from tfchain.types.PrimitiveTypes import Hash
    return r.choice([h, h, Hash.from_json(h), bytes.fromhex(h), bytearray.fromhex(h), h.upper()])


def same_block(b, m, c, what):
    got = (str(b.id), str(b.parentid), b.height, b.timestamp)
    if got != (m['id'], m['parent'], m['height'], m['time']):
        bad('%s: block reads as %r, the chain has %r', what, got, (m['id'], m['parent'], m['height'], m['time']))
    if [str(t.id) for t in b.transactions] != m['txs']:
        bad('%s: block %d lists transactions %r, the chain has %r', what, m['height'], [str(t.id) for t in b.transactions], m['txs'])
    for t in b.transactions:
        same_tx(t, c.txs[str(t.id)], c, what)
    got = [(str(p.id), grains(p.value), str(p.unlockhash)) for p in b.miner_payouts]
    if got != [tuple(p) for p in m['payouts']]:
        bad('%s: block %d has payouts %r, the chain has %r', what, m['height'], got, m['payouts'])


def lookup(what, fn):
    try:
        return fn()
    except OracleFail:
        raise
    except Exception as e:
        raise OracleFail(HOME, '%s fails with %s: %s' % (what, type(e).__name__, e)) from e


def lookups(ctx):
    import tfchain.errors as E
    r = ctx.rng
    w = World(ctx, parties=2, rich=r.random() < .3)
    c = w.chain
    cl = w.parties[0].client

    def check_all(share):
        i = lookup('chain info', cl.blockchain_info_get)
        if (i.height, i.timestamp, str(i.blockid)) != (c.height, c.time, c.tip['id']):
            bad('the chain info says %r', (i.height, i.timestamp, i.blockid))
        same_block(i.last_block, c.tip, c, 'last block')
        ctx.count('tips')
        for m in c.blocks.values():
            if r.random() > share:
                continue
            k = r.random() < .5
            b = lookup('block %d' % m['height'], lambda: cl.block_get(m['height'] if k else forms(r, m['id'])))
            same_block(b, m, c, 'block_get by ' + ('height' if k else 'identifier'))
            ctx.count('blocks')
            ctx.count('payouts', len(m['payouts']))
            ctx.key('block', k, len(m['txs']), len(m['payouts']), m is c.tip)
        for m in c.txs.values():
            if r.random() > share:
                continue
            t = lookup('transaction %s' % m.id, lambda: cl.transaction_get(forms(r, m.id)))
            same_tx(t, m, c, 'transaction_get')
            ctx.count('transactions')
            if m.js['version'] == 0:
                ctx.count('legacy')
            ctx.key('tx', m.js['version'], len(m.parents), len(m.coin_ids), len(m.bs_parents), len(m.bs_ids), m.height is None)
        for kind, table in (('coin', c.outs), ('stake', c.bs_outs)):
            for m in table.values():
                if r.random() > share:
                    continue
                f = cl.coin_output_get if kind == 'coin' else cl.blockstake_output_get
                o, made, spent = lookup('%s output %s' % (kind, m.id), lambda: f(forms(r, m.id)))
                same_out(o, m, 'output lookup')
                if made is None or str(made.id) != m.creator:
                    bad('output %s: created by %s, the chain says %s', m.id, made and made.id, m.creator)
                if (None if spent is None else str(spent.id)) != m.spender:
                    bad('output %s: spent by %s, the chain says %s', m.id, spent and spent.id, m.spender)
                same_tx(made, c.txs[m.creator], c, 'creation of output')
                if spent is not None:
                    same_tx(spent, c.txs[m.spender], c, 'spending of output')
                    ctx.count('spent')
                ctx.count(kind + '_outputs')
                ctx.key('out', kind, c.txs[m.creator].js['version'], c.txs[m.spender].js['version'] if m.spender else None,
                        c.txs[m.creator].confirmed, bool(m.spender) and c.txs[m.spender].confirmed, canon(m.condition)[0])
        for _ in range(3):
            h = c.rand(32).hex()
            k, f = r.choice([('block height', lambda: cl.block_get(c.height + 1 + r.randrange(5))), ('block', lambda: cl.block_get(h)),
                             ('transaction', lambda: cl.transaction_get(h)), ('output', lambda: cl.coin_output_get(h)),
                             ('stake output', lambda: cl.blockstake_output_get(h)),
                             ('address', lambda: cl.unlockhash_get(ref.uh_text(1, bytes.fromhex(h))))])
            try:
                f()
            except E.ExplorerNoContent:
                ctx.count('unknown')
                continue
            except Exception as e:
                bad('lookup of an unknown %s fails with %s: %s', k, type(e).__name__, e)
            bad('lookup of an unknown %s succeeds', k)

    def go():
        if r.random() < .04:            # a block full of transactions
            rich.fill(w, r.choice([60, 120, 280]), conf=False, big=0)
            c.mine()
            ctx.count('full_blocks')
        for rep in range(r.choice([1, 2, 3])):
            if rep and r.random() < .5:
                c.reorg(r.choice([1, 1, 2, 5]))
                ctx.count('reorganised')
            rich.fill(w, r.choice([1, 4, 8, 12]), big=.008)
            check_all(1 if rep == 0 else .5)
            for _ in range(r.randrange(3)):
                w.history()
        check_all(.4)
        ctx.sample({'blocks': len(c.blocks), 'transactions': len(c.txs), 'outputs': len(c.outs), 'stakes': len(c.bs_outs)})
    drive(ctx, w, go)


PARTS = [('lookups', 200, 5000, lookups)]
