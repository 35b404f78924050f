"""3Bot operations charge the protocol fees and respect the limits."""
import json

from .. import ref
from ..world import World, drive, cond_uh, cond_lock, cond_ms, OracleFail, tft, canon, grains, GRAIN
from ..gen import Gen, lib
from .common import histories

RULE = ('Histories of registrations, updates and transfers with every number of months, names and addresses, own and foreign, '
        'expired and active 3Bots; for each operation the limits one by one on either side with everything else right, through '
        'the wallet and through the transaction types; record lookups by number, name and key after each change; wallets '
        'holding exactly the fee or a grain less. distinct = distinct operation, months, sizes, limit and outcome.')
REQUIRED = ['bots_registered', 'bots_updated', 'bots_transferred', 'bots_refused', 'fees_compared', 'limits_tried', 'records_read',
            'exact_payments', 'node_sig_bot']
ASSUMPTIONS = ['the explorer answers truthfully', 'the fee schedule of the network is the one of the specification']
HOME = {'C20'}


def fees(ctx):
    """the fee a transaction asks for"""
    from tfchain.types import transactions as T
    r = ctx.rng
    g = Gen(r, 3)
    for months in range(0, 26):
        n, a = r.randrange(0, 8), r.randrange(0, 13)
        n2, a2 = r.randrange(0, 8), r.randrange(0, 13)
        names = [g.name() for _ in range(n)]
        names2 = [g.name() for _ in range(n2)]
        addrs = [g.netaddr() for _ in range(a)]
        addrs2 = [g.netaddr() for _ in range(a2)]
        t = T.threebot_registration_new()
        bad = not 1 <= months <= 24 or n > 5 or a > 10
        try:
            if r.random() < .5:
                t.number_of_months, t.names, t.addresses = months, names, addrs
            else:
                t.number_of_months = months
                for x in names:
                    t.name_add(x)
                for x in addrs:
                    t.address_add(x)
        except Exception as e:
            ctx.check(bad, 'registration for %d months with %d names and %d addresses is refused: %s', months, n, a, e)
            ctx.count('limits_tried')
        else:
            ctx.check(not bad, 'registration for %d months with %d names and %d addresses is accepted', months, n, a)
            want = ref.bot_fee({'version': 144, 'data': {'nrofmonths': months, 'names': names, 'addresses': addrs}})
            ctx.eq(grains(t.required_bot_fees), want, 'fee of a registration for %d months with %d names' % (months, n))
            ctx.eq([str(x.value) if hasattr(x, 'value') else str(x) for x in t.names], names, 'names')
            ctx.count('fees_compared')
        t = T.threebot_record_update_new()
        bad = months > 24 or max(n, n2) > 5 or max(a, a2) > 10
        try:
            t.number_of_months = months
            if r.random() < .5:
                t.names_to_add, t.names_to_remove, t.addresses_to_add, t.addresses_to_remove = names, names2, addrs, addrs2
            else:
                for f, l in ((t.name_to_add_add, names), (t.name_to_remove_add, names2), (t.address_to_add_add, addrs),
                             (t.address_to_remove_add, addrs2)) if hasattr(t, 'name_to_add_add') else ():
                    for x in l:
                        f(x)
                if not hasattr(t, 'name_to_add_add'):
                    t.names_to_add, t.names_to_remove, t.addresses_to_add, t.addresses_to_remove = names, names2, addrs, addrs2
        except Exception as e:
            ctx.check(bad, 'update for %d months with %d+%d names and %d+%d addresses is refused: %s', months, n, n2, a, a2, e)
            ctx.count('limits_tried')
        else:
            ctx.check(not bad, 'update for %d months with %d+%d names and %d+%d addresses is accepted', months, n, n2, a, a2)
            want = ref.bot_fee({'version': 145, 'data': {'nrofmonths': months, 'names': {'add': names, 'remove': names2},
                                                         'addresses': {'add': addrs, 'remove': addrs2}}})
            ctx.eq(grains(t.required_bot_fees), want, 'fee of an update for %d months with %d new names, %d and %d addresses' % (
                months, n, a, a2))
            ctx.count('fees_compared')
        t = T.threebot_name_transfer_new()
        try:
            t.names = names
        except Exception as e:
            ctx.check(n > 5, 'transfer of %d names is refused: %s', n, e)
            ctx.count('limits_tried')
        else:
            ctx.check(n <= 5, 'transfer of %d names is accepted', n)
            ctx.eq(grains(t.required_bot_fees), 50 * GRAIN * n, 'fee of a transfer of %d names' % n)
            ctx.count('fees_compared')
        ctx.key('fee', months, n, a, n2, a2)
    for v in (144, 145, 146):       # and of transactions read from the network
        js, ps, bps = g.tx(v)
        t = lib(js)
        ctx.eq(grains(t.required_bot_fees), ref.bot_fee(js), 'fee of %s' % json.dumps(js)[:300])
        ctx.count('fees_compared')
    ctx.sample({'months': months, 'names': n, 'addresses': a})


def limits(ctx):
    """one limit at a time, paid exactly"""
    import tfchain.errors as E
    r = ctx.rng
    w = World(ctx, parties=2, rich=False, keys=r.choice([1, 2, 3, 3, 9]))
    p, q = w.parties
    c = w.chain
    rich = r.random() < .5
    fund = lambda g: c.grant([(cond_uh(p.primary), g)])
    if rich:
        for _ in range(3):
            fund(10 ** 13)

    def go():
        own_bot = w.bot_new(p, 10 ** 7, names=[w.name() for _ in range(6)])
        other = w.bot_new(q, 10 ** 7)
        old = w.bot_new(p, r.choice([0, -1, -1000, -86400 * r.randrange(1, 1200), 1 - c.time]), names=[w.name() for _ in range(2)])
        edge = w.bot_new(p, 1, names=[w.name()])
        names = lambda n: [w.name() for _ in range(n)]
        addrs = lambda n: [w.netaddr() for _ in range(n)]
        tb = p.wallet.threebot
        if not rich:
            # exactly the fee, and one grain less
            k = r.randrange(3)
            m = r.choice([1, 2, 11, 12, 13, 23, 24])
            n = r.choice([1, 2, 5])
            if k == 0:
                fee = 90 * GRAIN + ref.month_fee(m) + (n - 1) * 50 * GRAIN
                nm = names(n)
                fn = lambda: tb.record_new(months=m, names=nm)
            elif k == 1:
                m = r.choice([0, 1, 11, 12, 24])
                ad, rm = r.choice([(1, 0), (0, 1), (0, 0), (2, 2)])
                nm = names(n)
                own_bot['addresses'] = addrs(3)
                fee = ref.month_fee(m) + n * 50 * GRAIN + (20 * GRAIN if ad or rm else 0)
                kw = dict(names_to_add=nm, addresses_to_add=addrs(ad), addresses_to_remove=own_bot['addresses'][:rm])
                fn = lambda: tb.record_update(own_bot['id'], months=m, **kw)
            else:
                other['publickey'] = w.pk(p, 0) if own_bot['publickey'] != w.pk(p, 0) else other['publickey']
                fee = n * 50 * GRAIN
                fn = lambda: tb.name_transfer(own_bot['id'], other['id'], own_bot['names'][:n])
            fund(fee + w.fee - 1)
            w.call(p, 'a grain less than the fee %s' % tft(fee), HOME, fn, E.InsufficientFunds)
            fund(1)
            res, exc, pushes = w.call(p, 'exactly the fee %s' % tft(fee), HOME, fn)
            js = res.transaction.json()
            if ref.coin_outputs(js) or ref.bot_fee(js) != fee or ref.cur(js['data']['txfee']) != w.fee:
                raise OracleFail(HOME | {'C01'}, 'paid exactly: %s' % json.dumps(js)[:500])
            ctx.count('exact_payments')
            ctx.count({0: 'bots_registered', 1: 'bots_updated', 2: 'bots_transferred'}[k])
            ctx.key('exact', k, m, n)
            return
        ok, bad = 'ok', Exception
        tries = [
            (lambda: tb.record_new(months=24, names=names(5), addresses=addrs(10)), ok, 'all limits reached'),
            (lambda: tb.record_new(names=names(1)), ok, 'defaults'),
            (lambda: tb.record_new(months=1, addresses=addrs(1)), ok, 'only an address'),
            (lambda: tb.record_new(months=0, names=names(1)), bad, '0 months'),
            (lambda: tb.record_new(months=25, names=names(1)), bad, '25 months'),
            (lambda: tb.record_new(months=-1, names=names(1)), bad, '-1 months'),
            (lambda: tb.record_new(months=1.5, names=names(1)), bad, 'a month and a half'),
            (lambda: tb.record_update(own_bot['id'], months=2.5), bad, 'two months and a half'),
            (lambda: tb.record_update(own_bot['id'] + (1 << 32), months=1), bad, 'an identifier beyond four bytes'),
            (lambda: tb.record_new(months=1, names=names(6)), bad, '6 names'),
            (lambda: tb.record_new(months=1, addresses=addrs(11)), bad, '11 addresses'),
            (lambda: tb.record_new(months=3), bad, 'nothing to register'),
            (lambda: tb.record_new(months=3, names=[], addresses=[]), bad, 'nothing to register'),
            (lambda: tb.record_new(months=3, names=['no']), bad, 'a short name'),
            (lambda: tb.record_new(months=3, names=names(1) + ['Ünïcode']), bad, 'a malformed name'),
            (lambda: tb.record_new(months=3, addresses=['not an address']), bad, 'a malformed address'),
            (lambda: tb.record_new(months=3, names=names(1), key_index=len(p.own())), bad, 'a key index beyond the wallet'),
            (lambda: tb.record_new(months=3, names=names(1), key_index=-1), bad, 'a negative key index'),
            (lambda: tb.record_update(own_bot['id'], months=24, names_to_add=names(5), addresses_to_add=addrs(10)), ok, 'update at all limits'),
            (lambda: tb.record_update(own_bot['id'], months=25), bad, 'update for 25 months'),
            (lambda: tb.record_update(own_bot['id'], months=-1, names_to_add=names(1)), bad, 'update for -1 months'),
            (lambda: tb.record_update(own_bot['id']), bad, 'empty update'),
            (lambda: tb.record_update(own_bot['id'], names_to_add=[], addresses_to_add=[], addresses_to_remove=[], names_to_remove=[]), bad, 'empty lists'),
            (lambda: tb.record_update(own_bot['id'], names_to_add=names(6)), bad, '6 names to add'),
            (lambda: tb.record_update(own_bot['id'], names_to_remove=names(6)), bad, '6 names to remove'),
            (lambda: tb.record_update(own_bot['id'], addresses_to_add=addrs(11)), bad, '11 addresses to add'),
            (lambda: tb.record_update(own_bot['id'], addresses_to_remove=addrs(11)), bad, '11 addresses to remove'),
            (lambda: tb.record_update(own_bot['id'], names_to_add=['x' * 64]), bad, 'a long name'),
            (lambda: tb.record_update(0, months=1), bad, '3Bot 0'),
            (lambda: tb.record_update(-1, months=1), bad, '3Bot -1'),
            (lambda: tb.record_update(max(c.bots) + 7, months=1), E.ThreeBotNotFound, 'unknown 3Bot'),
            (lambda: tb.record_update(old['id'], names_to_add=names(1)), E.ThreeBotInactive, 'expired 3Bot'),
            (lambda: tb.record_update(old['id'], addresses_to_add=addrs(1)), E.ThreeBotInactive, 'expired 3Bot'),
            (lambda: tb.record_update(old['id'], names_to_remove=old['names'][:1]), E.ThreeBotInactive, 'expired 3Bot'),
            (lambda: tb.record_update(old['id'], months=1, names_to_add=names(1)), ok, 'renewal of an expired 3Bot'),
            (lambda: tb.record_update(edge['id'], names_to_add=names(1)), ok, 'a 3Bot that expires in a second'),
            (lambda: tb.name_transfer(own_bot['id'], other['id'], []), bad, 'transfer of nothing'),
            (lambda: tb.name_transfer(own_bot['id'], other['id'], own_bot['names']), bad, 'transfer of 6 names'),
            (lambda: tb.name_transfer(own_bot['id'], other['id'], own_bot['names'][:5]), ok, 'transfer of 5 names'),
            (lambda: tb.name_transfer(old['id'], other['id'], old['names'][:1]), E.ThreeBotInactive, 'expired sender'),
            (lambda: tb.name_transfer(own_bot['id'], old['id'], own_bot['names'][:1]), E.ThreeBotInactive, 'expired receiver'),
            (lambda: tb.name_transfer(max(c.bots) + 7, other['id'], names(1)), E.ThreeBotNotFound, 'unknown sender'),
            (lambda: tb.name_transfer(own_bot['id'], max(c.bots) + 7, own_bot['names'][:1]), E.ThreeBotNotFound, 'unknown receiver'),
            (lambda: tb.name_transfer(own_bot['id'], other['id'], ['no']), bad, 'transfer of a malformed name'),
        ]
        for fn, expect, what in r.sample(tries, r.choice([6, 10])):
            time0 = c.time
            free = sum(o.value for o in w.spendable(set(p.own()), set()))
            if free < 2 * 10 ** 12:
                t = c.insert({'version': 1, 'data': {'coinoutputs': [{'value': str(10 ** 13), 'condition': cond_uh(p.primary)}],
                                                     'minerfees': ['1'], 'arbitrarydata': 'AA' * 4 + 'A' * (4 * r.randrange(20))}}) \
                    if False else c.grant([(cond_uh(p.primary), 10 ** 13)], confirmed=False)
            res, exc, pushes = w.call(p, '3Bot: ' + what, HOME, fn, expect)
            ctx.count('limits_tried')
            ctx.key('limit', what)
            if exc is None:
                js = res.transaction.json()
                if bool(pushes) != bool(res.submitted):
                    raise OracleFail(HOME | {'C06'}, '%s: %d pushes, submitted=%r' % (what, len(pushes), res.submitted))
                ins = sum(c.outs[i['parentid']].value for i in ref.coin_inputs(js))
                outs = sum(int(o['value']) for o in ref.coin_outputs(js))
                if ins - outs - w.fee != ref.bot_fee(js):
                    raise OracleFail(HOME | {'C01'}, '%s: pays %d, the fee is %d' % (what, ins - outs - w.fee, ref.bot_fee(js)))
                ctx.count({144: 'bots_registered', 145: 'bots_updated', 146: 'bots_transferred'}[js['version']])
                ctx.sample({'op': what, 'pushed': js})
            else:
                ctx.count('bots_refused')
            assert c.time == time0
    drive(ctx, w, go)


def records(ctx):
    """record lookups"""
    import tfchain.errors as E
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.ThreeBot import BotName
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    p, q = w.parties
    c = w.chain
    for x in (p, q):
        c.grant([(cond_uh(x.primary), 10 ** 13) for _ in range(3)])

    def read():
        for b in c.bots.values():
            kind = r.choice(['id', 'name', 'BotName', 'key', 'PublicKey'])
            if not b['names'] and kind in ('name', 'BotName'):
                kind = 'id'
            if kind in ('key', 'PublicKey') and [x['publickey'] for x in c.bots.values()].count(b['publickey']) > 1:
                kind = 'id'     # no network holds two records of one key
            arg = {'id': lambda: b['id'], 'name': lambda: r.choice(b['names']), 'BotName': lambda: BotName(value=r.choice(b['names'])),
                   'key': lambda: b['publickey'], 'PublicKey': lambda: PublicKey.from_json(b['publickey'])}[kind]()
            cl = r.choice([p, q]).client
            try:
                rec = cl.threebot.record_get(arg)
            except Exception as e:
                raise OracleFail(HOME, 'record of %s is not found: %r' % (arg, e))
            got = (rec.identifier, sorted(str(n) for n in rec.names), sorted(str(a) for a in rec.addresses), str(rec.public_key), rec.expiration)
            want = (b['id'], sorted(b['names']), sorted(b['addresses']), b['publickey'], b['expiration'])
            if got != want:
                raise OracleFail(HOME, 'record of %s is %r, the network has %r' % (arg, got, want))
            ctx.count('records_read')
            ctx.key('record', kind, len(b['names']), len(b['addresses']), b['expiration'] > c.time)
        for arg in (max(c.bots, default=0) + 3, w.name(), w.pk(), BotName(value=w.name())):
            try:
                rec = p.client.threebot.record_get(arg)
            except E.ThreeBotNotFound:
                continue
            except Exception as e:
                raise OracleFail(HOME, 'lookup of unknown %s fails with %r' % (arg, e))
            raise OracleFail(HOME, 'lookup of unknown %s gives %r' % (arg, rec.identifier))

    def go():
        for _ in range(r.choice([1, 3, 5])):
            w.bot_new(r.choice([p, q, None]), r.choice([10 ** 7, 0, -5]))
        read()
        for _ in range(r.choice([1, 2, 3])):
            x = r.choice([p, q])
            k = r.randrange(3)
            mine = [b for b in c.bots.values() if b['publickey'] in [w.pk(x, i) for i in range(len(x.own()))] and b['expiration'] > c.time]
            if k == 0 or not mine:
                months, names, ad = r.choice([1, 12, 24]), w.bot_names(1, 3), [w.netaddr() for _ in range(r.randrange(3))]
                ids = set(c.bots)
                res, exc, pushes = w.call(x, 'registration', HOME, lambda: x.wallet.threebot.record_new(months=months, names=names, addresses=ad))
                c.mine()
                new = [c.bots[i] for i in set(c.bots) - ids]
                if len(new) != 1 or (new[0]['names'], sorted(new[0]['addresses']), new[0]['expiration']) != (
                        sorted(names), sorted(ad), c.time + months * 30 * 86400):
                    raise OracleFail(HOME, 'registration of %r %r for %d months makes %r' % (names, ad, months, new))
                ctx.count('bots_registered')
            else:
                b = r.choice(mine)
                add, rem = w.bot_names(1, 2), b['names'][:1]
                want = sorted((set(b['names']) - set(rem)) | set(add))
                w.call(x, 'update', HOME, lambda: x.wallet.threebot.record_update(b['id'], names_to_add=add, names_to_remove=rem))
                c.mine()
                if b['names'] != want:
                    raise OracleFail(HOME, 'update of names gives %r, expected %r' % (b['names'], want))
                ctx.count('bots_updated')
            read()
        ctx.sample({'records': list(c.bots.values())[:2]})
    drive(ctx, w, go)


W = {'botnew': 10, 'botupd': 12, 'botxfer': 8, 'send': 1, 'cosign': 2, 'history': 4, 'mine': 3}
PARTS = [('histories', 160, 4000, histories(W, steps=20)), ('fees', 30, 600, fees), ('limits', 150, 4000, limits),
         ('records', 60, 1500, records)]
