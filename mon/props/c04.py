"""Reported balances equal the ledger."""
from .common import histories, wide, World, drive, OracleFail
from .. import ref
from ..world import grains, cond_uh

RULE = ('Random chain histories (all transaction kinds, mixed confirmed and unconfirmed, locks around the tip, shared wallets, '
        'foreign spends, minting); after every few events each wallet is asked for its balance and each address for its own, '
        'merged in random orders; all sums, output sets, owners and thresholds compared with the model ledger. '
        'distinct = distinct signature of the ledger state (counts per class and lock state).')
REQUIRED = ['busy', 'balances', 'shown', 'multisig_balances', 'merges', 'lookups', 'genesis_tip']
ASSUMPTIONS = ['the explorer answers truthfully', 'miner payouts are not part of an address lookup']
W = {'balance': 10, 'history': 16, 'send': 3, 'claim': 2, 'swap': 1, 'botnew': 1, 'erc20send': 1, 'mint': 1, 'mine': 5, 'drain': 1}


def lookups(ctx):
    """per-address lookups and their merge in any order"""
    from tfchain.TFChainWallet import WalletBalance, WalletsBalance
    r = ctx.rng
    w = World(ctx, parties=2)

    def go():
        for _ in range(r.randrange(2, 12)):
            w.history()
            if r.random() < .2:
                c = w.multisigs[0] if w.multisigs else w.multisig_new()
                w.chain.insert({'version': 128, 'data': {
                    'nonce': 'AAAAAAAAAAA=', 'mintfulfillment': {'type': 1, 'data': {
                        'publickey': w.pk(), 'signature': w.chain.rand(64).hex()}}, 'mintcondition': c,
                    'minerfees': [str(w.fee)], 'arbitrarydata': 'AAAA' + 'abcd' * r.randrange(5)}}, confirmed=True) \
                    if not any(t.js['version'] == 128 for t in w.chain.txs.values()) else None
        if r.random() < .06:                # a busy address, personal or shared
            m = r.choice([w.multisigs[0] if w.multisigs else w.multisig_new(), cond_uh(r.choice(w.own0(w.parties[0])))])
            for _ in range(r.choice([45, 105])):
                w.chain.grant([(m, w.value())], confirmed=r.random() < .7)
            outs = w.chain.unspent({ref.cond_address(m)})
            if r.random() < .6:
                conf = r.random() < .6
                if conf:
                    w.chain.mine()
                w.spend_as(1, r.sample(outs, min(len(outs), r.choice([35, 70, 99]))), [(m, 1 + r.randrange(10 ** 10))] if r.random() < .5 else [], conf)
            ctx.count('busy')
        if r.random() < .08:                # one owner of many shared wallets
            for _ in range(r.choice([9, 14, 25])):
                m = w.multisig_new()
                w.chain.grant([(m, w.value())], confirmed=r.random() < .7)
            ctx.count('many_shared')
        p = w.parties[0]
        own = set(p.own())
        ms = w.known_multisigs(p, own)
        parts, used = [], []
        info = p.client.blockchain_info_get() if r.random() < .5 else None
        import tfchain.errors as E
        for a in sorted(own) + sorted(ms) + w.foreign[:1]:
            touched = any(a in t.addresses for t in w.chain.txs.values())
            try:
                u = p.client.unlockhash_get(a)
            except E.ExplorerNoContent:
                if touched:
                    raise OracleFail({'C04', 'C26'}, 'address %s is used but not found' % a)
                continue
            b = u.balance(info) if info is not None or r.random() < .5 else u.balance()
            ctx.count('lookups')
            d = w.balance_diff(b, {a}, 'lookup of %s' % a)
            if d:
                raise OracleFail({'C04'}, d)
            if a in ms:
                if sorted(b.owners) != sorted(ms[a]['data']['unlockhashes']) or \
                        b.signature_count != ms[a]['data']['minimumsignaturecount'] or b.address != a:
                    raise OracleFail({'C04'}, 'multisig %s is reported as %s of %s' % (a, b.signature_count, b.owners))
                ctx.count('multisig_balances')
            elif set(b.addresses) - {a} or (not b.addresses and w.sums({a})[0] and any(w.sums({a})[0].values())):
                raise OracleFail({'C04'}, 'lookup of %s reports the addresses %r' % (a, b.addresses))
            parts.append(b)
            used.append(a)
        for rep in range(r.choice([0, 0, 1, 2])):       # the same address looked up again and merged again
            if used:
                a = r.choice(used)
                parts.append(p.client.unlockhash_get(a).balance(info))
                used.append(a)
        tracked = sorted({x for a, b in zip(used, parts) if a not in ms for x in b.addresses})
        order = list(range(len(parts)))
        r.shuffle(order)
        total = r.choice([WalletsBalance, WalletsBalance, lambda: None])()
        if total is None and parts and used[order[0]] in ms:        # two shared wallets do not merge into one
            total = WalletsBalance()
        for i in order:
            total = parts[i] if total is None else total.balance_add(parts[i])
        if total is None:
            return
        ctx.count('merges')
        solo = [a for a in used if a not in ms]
        if hasattr(total, 'wallets'):
            d = w.balance_diff(total, set(solo), 'merge of %d addresses' % len(solo)) if solo or parts else None
            if d and not (not solo and total.chain_height == 0):
                raise OracleFail({'C04'}, d)
            if sorted(total.addresses) != tracked or set(total.addresses_multisig) != set(used) & set(ms):
                raise OracleFail({'C04'}, 'the merge reports the addresses %r and %r, merged were %r' % (
                    sorted(total.addresses), sorted(total.addresses_multisig), tracked))
            for a in set(used) & set(ms):
                if a not in total.wallets:
                    raise OracleFail({'C04'}, 'multisig %s is lost in the merge' % a)
                d = w.balance_diff(total.wallets[a], {a}, 'merge, multisig %s' % a)
                if d:
                    raise OracleFail({'C04'}, d)
        else:
            d = w.balance_diff(total, set(used), 'merge of %r' % used)
            if d:
                raise OracleFail({'C04'}, d)
            if not set(used) & set(ms) and sorted(total.addresses) != tracked:
                raise OracleFail({'C04'}, 'the merge reports the addresses %r, merged were %r' % (sorted(total.addresses), tracked))
        s, _ = w.sums(own)
        ctx.key('merge', len(used), len(set(used)), [bool(v) for v in s.values()], len(ms), [a in ms for a in used][:3], order[:3])
        ctx.sample({'addresses': len(used), 'multisig': len(ms), 'order': order, 'sums': s})
        for p in w.parties:
            w.check_balance(p)
    drive(ctx, w, go)


PARTS = [('histories', 200, 5000, histories(W, steps=25)), ('lookups', 250, 5000, lookups),
         ('wide', 20, 300, wide(['balance', 'send']))]
