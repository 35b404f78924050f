"""Transaction lists are complete, duplicate-free and newest first."""
from .. import ref
from ..world import World, drive, OracleFail
from .common import histories
from . import rich

RULE = ('Random histories with transactions of every version that touch one, several or none of the addresses of the wallets, '
        'confirmed at equal and different heights or not at all; the list of every address and of every wallet (with unused, '
        'newly handed out and shared addresses) compared with the model chain: the set, each once, the order, and every '
        'transaction in full. distinct = distinct wallet size, unused addresses, list length, shared and unconfirmed counts.')
REQUIRED = ['lists', 'listed_txs', 'address_lists', 'wallets_with_unused', 'shared_txs', 'unconfirmed_listed', 'same_height', 'busy']
ASSUMPTIONS = ['the explorer answers truthfully']
HOME = {'C26'}


def lists(ctx):
    import tfchain.errors as E
    from tfchain.types.CryptoTypes import UnlockHash
    r = ctx.rng
    w = World(ctx, parties=2, rich=r.random() < .4, keys=r.choice([None, None, 1, 2, 5, 8, 8, 13, 40]))
    c = w.chain
    names = [a for p in w.parties for a in w.own0(p)]
    used = r.sample(names, r.randrange(1, len(names) + 1)) if r.random() < .7 else names

    def check():
        ms = [ref.cond_address(ref.cond_unwrap(o.condition)) for o in c.outs.values() if ref.cond_unwrap(o.condition).get('type') == 4]
        for a in r.sample(names, min(4, len(names))) + r.sample(ms, min(3, len(ms))) + w.foreign[:1]:
            p = r.choice(w.parties)
            try:
                u = p.client.unlockhash_get(UnlockHash.from_json(a) if r.random() < .4 else a)
            except E.ExplorerNoContent:
                if c.txs_of(a) or c.multisig_of(a):
                    raise OracleFail(HOME, 'address %s is used but its list is not found' % a)
                ctx.count('unused')
                continue
            w.check_list('address %s' % a, u.transactions, {a}, HOME)
            if str(u.unlockhash) != a or sorted(map(str, u.multisig_addresses)) != sorted(c.multisig_of(a)):
                raise OracleFail(HOME | {'C25'}, 'address %s: reported as %s with multi-signature addresses %r' % (a, u.unlockhash, u.multisig_addresses))
            ctx.count('address_lists')
        for p in w.parties:
            own = p.own()
            w.op_list(p)
            mine = [t for t in c.txs.values() if t.addresses & set(own)]
            empty = [a for a in own if not c.txs_of(a)]
            if empty:
                ctx.count('wallets_with_unused')
            shared = [t for t in mine if len(t.addresses & set(own)) > 1]
            ctx.count('shared_txs', len(shared))
            unc = [t for t in mine if t.height is None]
            ctx.count('unconfirmed_listed', len(unc))
            hs = [t.height for t in mine if t.height is not None]
            ctx.count('same_height', len(hs) - len(set(hs)))
            ctx.key('list', len(own), len(empty), len(mine), len(shared), len(unc), len(hs) - len(set(hs)))

    def go():
        if r.random() < .08:            # a busy address
            rich.fill(w, r.choice([60, 130, 260]), names[:1], p=.97, conf=r.choice([None, True]))
            ctx.count('busy')
        for _ in range(r.choice([1, 2, 3])):
            rich.fill(w, r.choice([0, 1, 3, 8]), used, p=r.choice([.2, .5, .9]), conf=r.choice([None, None, None, True, False]))
            if r.random() < .3:
                p = r.choice(w.parties)
                p.wallet.address_new()
            if r.random() < .3:
                w.history()
            check()
        ctx.sample({'transactions': len(c.txs), 'pool': len(c.pool), 'own': [len(p.own()) for p in w.parties]})
    drive(ctx, w, go)


W = {'list': 14, 'send': 5, 'swap': 2, 'claim': 2, 'cosign': 1, 'botnew': 1, 'erc20send': 1, 'mint': 1, 'history': 8, 'mine': 4}
PARTS = [('lists', 200, 5000, lists), ('histories', 60, 1500, histories(W, steps=25))]
