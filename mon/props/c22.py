"""ERC20 conversions and registrations name the right address and amount."""
from .. import ref
from ..world import World, drive, OracleFail, cond_uh, cond_ms, tft, grains
from .common import histories

RULE = ('Histories of conversions and registrations judged by the model node and against the arguments; ERC20 addresses in every '
        'accepted form, and texts close to them, given to every call that takes a recipient; registrations of own, foreign and '
        'new keys; lookups of owned, foreign, unregistered and unused addresses compared with the registrations of the model; '
        'derivation compared with the reference. distinct = distinct call, form, ownership, state and outcome.')
REQUIRED = ['erc20_conversions', 'erc20_registrations', 'found', 'not_found', 'not_owned', 'derived', 'forms', 'not_chain_addresses', 'all_listed', 'looked_again']
ASSUMPTIONS = ['the explorer answers truthfully']
HOME = {'C22'}


def same(info, a, e, conf, what):
    got = (str(info.address_tft), ref.erc20_bin(str(info.address_erc20)), info.confirmations)
    if got != (a, ref.erc20_bin(e), conf):
        raise OracleFail(HOME, '%s is %r, the network has %r' % (what, (got[0], str(info.address_erc20), got[2]), (a, e, conf)))


def lookups(ctx):
    import tfchain.errors as E
    from tfchain.types.CryptoTypes import UnlockHash
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    p, q = w.parties
    own = w.own0(p)

    def go():
        pool = own + w.own0(q) + w.foreign
        for a in pool:
            if r.random() < .4:
                c.grant([(cond_uh(a), w.value())], confirmed=r.random() < .7)
            if r.random() < .5:
                c.erc20[a] = (ref.erc20_of_address(a) if r.random() < .7 else '0x' + c.rand(20).hex(), r.choice([0, 1, 5, 30, 31, 10 ** 6]))
        if r.random() < .5:
            c.grant([(cond_uh(p.primary), 50 * 10 ** 9)])
            a = r.choice(own)
            res, exc, pushes = w.call(p, 'registration', HOME, lambda: p.wallet.erc20.address_register(a))
            if not pushes:
                raise OracleFail(HOME, 'a funded registration is not pushed')
            if r.random() < .7:
                c.mine()

        def one(what, fn, a, expect=None):
            try:
                info = fn()
            except E.ExplorerNoContent:
                if expect is not None or a in c.erc20:
                    raise OracleFail(HOME, '%s: not found' % what)
                ctx.count('not_found')
                return
            except Exception as e:
                if expect is not None and isinstance(e, expect):
                    ctx.count('not_owned')
                    return
                raise OracleFail(HOME, '%s fails with %s: %s' % (what, type(e).__name__, e))
            if expect is not None or a not in c.erc20:
                raise OracleFail(HOME, '%s succeeds with %s' % (what, info.address_erc20))
            same(info, a, c.erc20[a][0], c.erc20[a][1], what)
            ctx.count('found')
            ctx.key('lookup', what.split()[0], bool(c.txs_of(a)), c.erc20[a][1])
        look(one, pool)
        for _ in range(r.choice([0, 1, 2])):  # the same lookups after the network moved on
            for a in pool:
                k = r.random()
                if a in c.erc20 and k < .5:
                    c.erc20[a] = (c.erc20[a][0], c.erc20[a][1] + r.choice([1, 1, 7, 200]))
                elif a in c.erc20 and k < .6:
                    del c.erc20[a]
                elif a not in c.erc20 and k < .3:
                    c.erc20[a] = (ref.erc20_of_address(a), 0)
            if r.random() < .5:
                c.mine()
            look(one, pool)
            ctx.count('looked_again')

    def look(one, pool):
        addrs = p.own()
        for n, a in enumerate(addrs):
            for what, arg in (('index', n), ('text', a), ('UnlockHash', UnlockHash.from_json(a))):
                one('%s lookup of own %s' % (what, a), lambda: p.wallet.erc20.address_get(arg), a)
        one('default lookup', p.wallet.erc20.address_get, p.primary)
        for a in w.own0(q) + w.foreign:
            arg = UnlockHash.from_json(a) if r.random() < .5 else a
            one('lookup of foreign %s' % a, lambda: p.wallet.erc20.address_get(arg), a, E.AddressNotInWallet)
        for n in (-1, len(addrs), len(addrs) + 7):
            one('lookup of index %d' % n, lambda: p.wallet.erc20.address_get(n), None, ValueError)
        for a in pool:
            arg = UnlockHash.from_json(a) if r.random() < .5 else a
            one('client lookup of %s' % a, lambda: q.client.erc20.address_get(arg), a)
            try:
                u = q.client.unlockhash_get(a)
            except E.ExplorerNoContent:
                u = None
            if u is None or u.erc20_info is None:
                if a in c.erc20:
                    raise OracleFail(HOME, 'address %s does not report its ERC20 registration' % a)
            elif a not in c.erc20:
                raise OracleFail(HOME, 'address %s reports the ERC20 registration %s' % (a, u.erc20_info.address_erc20))
            else:
                same(u.erc20_info, a, c.erc20[a][0], c.erc20[a][1], 'registration of address %s' % a)
        ms = ref.multisig_address(own[:1] + w.foreign[:1], 1)
        try:
            x = q.client.erc20.address_get(ms)
        except Exception:
            pass
        else:
            raise OracleFail(HOME, 'lookup of a multi-signature address gives %s' % x.address_erc20)
        l = p.wallet.erc20.addresses_get()
        want = [a for a in p.own() if a in c.erc20]
        if [str(i.address_tft) for i in l] != want:
            raise OracleFail(HOME, 'the wallet lists registrations of %r, the network has %r' % ([str(i.address_tft) for i in l], want))
        for i, a in zip(l, want):
            same(i, a, c.erc20[a][0], c.erc20[a][1], 'listed registration of %s' % a)
        ctx.count('all_listed')
        ctx.key('listed', len(own), len(want))
        ctx.sample({'registered': c.erc20})
    drive(ctx, w, go)


def derive(ctx):
    from tfchain.types.ERC20 import ERC20Address
    from tfchain.types.CryptoTypes import UnlockHash, PublicKey
    from tfchain.types import transactions
    r = ctx.rng
    for _ in range(40):
        pk = 'ed25519:' + r.getrandbits(256).to_bytes(32, 'big').hex()
        a = ref.pubkey_address(pk)
        want = ref.erc20_bin(ref.erc20_of_address(a))
        got = str(ERC20Address.from_unlockhash(UnlockHash.from_json(a)))
        ctx.eq(ref.erc20_bin(got), want, 'ERC20 address of %s' % a)
        t = transactions.erc20_address_registration_new()
        t.public_key = PublicKey.from_json(pk)
        js = t.json()['data']
        for k, x in (('erc20address', want), ('tftaddress', a)):
            if k in js:
                ctx.eq(ref.erc20_bin(js[k]) if k == 'erc20address' else js[k], x, k + ' of a registration')
        ctx.eq(ref.cur(js['regfee']), ref.ERC20_REG, 'registration fee')
        ctx.count('derived')
        for k in (0, 1, 2, 3):
            h = b'' if k == 0 else r.getrandbits(256).to_bytes(32, 'big')
            a = ref.uh_text(k, h) if k else ref.NIL
            for form in ('text', 'object'):
                u = UnlockHash.from_json(a)
                if form == 'object' and k:
                    u = UnlockHash(type=u.type if hasattr(u, 'type') else u.uhtype, hash=h)
                got = str(ERC20Address.from_unlockhash(u))
                ctx.eq(ref.erc20_bin(got), ref.erc20_bin(ref.erc20_of_address(a)), 'ERC20 address of %s' % a)
                ctx.count('derived_kinds')
    ctx.key('derive', r.random())


def forms(ctx):
    """recipients in every form, in every call"""
    import tfchain.errors as E
    from tfchain.types.ERC20 import ERC20Address
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    p, q = w.parties
    for _ in range(12):
        c.grant([(cond_uh(r.choice(w.own0(p))), 10 ** 11 + r.randrange(10 ** 9))])

    def go():
        raw = c.rand(20) if r.random() < .7 else bytes.fromhex('01') + bytes(r.choice([0, 1, 255]) for _ in range(19))
        h = raw.hex()
        good = [('0x' + h, 'text'), ('0X' + h, 'text with a capital X'), ('0x' + h.upper(), 'upper text'), ('0x' + ''.join(r.choice([x, x.upper()]) for x in h), 'mixed text')]
        arg, kind = r.choice(good)
        if r.random() < .3:
            arg, kind = ERC20Address(value=arg), 'object'
        v = r.randrange(1, 10 ** 11)
        via = r.choice(['coins_send', 'erc20'])
        f = p.wallet.coins_send if via == 'coins_send' else p.wallet.erc20.coins_send
        n0 = len(c.outs)
        res, exc, pushes = w.call(p, '%s of %s to ERC20 %s (%s)' % (via, tft(v), h, kind), HOME, lambda: f(arg, w.amount(v)))
        if len(pushes) != 1 or pushes[0]['version'] != 208 or ref.erc20_bin(pushes[0]['data']['address']) != raw or \
                ref.cur(pushes[0]['data']['value']) != v or not res.submitted:
            raise OracleFail(HOME, '%s to ERC20 %s pushes %r' % (via, h, pushes))
        made = list(c.outs.values())[n0:]
        total = sum(c.outs[i['parentid']].value for i in ref.coin_inputs(pushes[0]))
        if sum(o.value for o in made) != total - v - w.fee or any(o.address != p.primary for o in made):
            raise OracleFail(HOME, 'conversion of %s creates %r' % (tft(v), [(o.address, o.value) for o in made]))
        ctx.count('forms')
        ctx.key('form', via, kind)
        c.mine()
        # an ERC20 address is no chain address
        x = '0x' + h
        calls = [('builder', lambda: p.wallet.coin_transaction_builder_new().output_add(x, 1)),
                 ('refund', lambda: p.wallet.coins_send(w.foreign[0], 1, refund=x)),
                 ('source', lambda: p.wallet.coins_send(w.foreign[0], 1, source=x)),
                 ('conversion refund', lambda: p.wallet.erc20.coins_send(x, 1, refund=x)),
                 ('initiate', lambda: p.wallet.atomicswap.initiate(x, 5)),
                 ('participate', lambda: p.wallet.atomicswap.participate(x, 5, c.rand(32))),
                 ('drain', lambda: p.wallet.balance.drain(x, p.client.minimum_miner_fee)),
                 ('mint', lambda: p.wallet.minter.coins_new(x, 1)),
                 ('define', lambda: p.wallet.minter.definition_set(x)),
                 ('lookup', lambda: p.client.unlockhash_get(x)),
                 ('registration', lambda: p.wallet.erc20.address_register(x)),
                 ('lock', lambda: p.wallet.coins_send(x, 1, lock=c.height + 9)),
                 ('data', lambda: p.wallet.coins_send(x, 1, data='x')),
                 ('list', lambda: p.wallet.coins_send([x, x], 1))]
        w.set_mint(cond_uh(p.primary))
        for what, f in r.sample(calls, 6):
            w.call(p, what + ' with an ERC20 address', HOME, f, Exception)
            ctx.count('not_chain_addresses')
            ctx.key('refused', what)
        # what looks like an ERC20 address but is none
        bad = r.choice(['0x' + h[:-1], '0x' + h + '0', '0x' + h[:-1] + 'g', '0x', '0x' + h + h[:38], 'x' + h + '0', '0x' + w.foreign[0],
                        '0x' + h[:-2], r.choice(['1x', 'xx', '0y', 'ax', '0x0x']) + h, '0x' + h[:18] + '_' + h[19:], ' 0x' + h, '0x' + h + '\n', '0x+' + h[1:], '0x' + h[:39] + '\u0663', '0x 1' + h[2:]])
        for what, f in (('coins_send', p.wallet.coins_send), ('conversion', p.wallet.erc20.coins_send)):
            tight = ''.join(bad.split())
            if what == 'conversion' and tight == x:       # only blanks around the digits
                _, exc, pushes = w.call(p, '%s to %r' % (what, bad), HOME, lambda: f(bad, 1), None)
                if exc is None and [ref.erc20_bin(y['data']['address']) for y in pushes] != [raw]:
                    raise OracleFail(HOME, '%s to %r pushes %r' % (what, bad, pushes))
                continue
            w.call(p, '%s to %r' % (what, bad), HOME, lambda: f(bad, 1), Exception)
            ctx.count('near_misses')
        for empty in (None, '', b'', '0x', bytearray(), ERC20Address()):
            w.call(p, 'conversion to %r' % (empty,), HOME, lambda: p.wallet.erc20.coins_send(empty, 1), Exception)
        # and a chain address is no ERC20 address
        a = r.choice([w.foreign[0], ref.multisig_address(w.foreign[:2], 1)])
        w.call(p, 'conversion to %s' % a, HOME, lambda: p.wallet.erc20.coins_send(a, 1), Exception)
        res, exc, pushes = w.call(p, 'payment to %s' % w.foreign[0], HOME, lambda: p.wallet.coins_send(w.foreign[0], 1))
        if pushes[0]['version'] != 1:
            raise OracleFail(HOME, 'a payment to a chain address becomes %r' % pushes[0])
        for v in (0, '0', -1, '-5', '0.0000000001'):
            w.call(p, 'conversion of %r' % v, HOME, lambda: p.wallet.erc20.coins_send(x, v), Exception)
    drive(ctx, w, go)


W = {'erc20send': 12, 'erc20reg': 12, 'cosign': 3, 'send': 1, 'history': 4, 'mine': 3}
PARTS = [('lookups', 120, 3000, lookups), ('derive', 20, 400, derive), ('forms', 120, 3000, forms), ('histories', 140, 4000, histories(W, steps=18))]
