"""Minting follows the active mint condition."""
import base64
import random

from .. import ref
from ..world import World, drive, OracleFail, canon, cond_uh, cond_ms, cond_lock
from .common import histories

RULE = ('Mint conditions of every kind (personal, shared by 1 to 8 owners with any threshold, behind an expired lock) set at various '
        'heights; coins minted and conditions redefined by wallets that own all, some or none of the keys, co-signed in random '
        'orders through objects, JSON documents and texts; every transaction judged by the model node under the condition active '
        'at its tip; conditions looked up at every height. distinct = distinct condition, owners, order and outcome.')
REQUIRED = ['mint_manual', 'mintings', 'mint_judged', 'condition_lookups', 'redefined', 'completed', 'refused_definitions', 'nonces', 'outsiders']
ASSUMPTIONS = ['the explorer answers truthfully']
HOME = {'C28'}


def condition(w, r, lock=True):
    people = [a for p in w.parties for a in w.own0(p)] + w.foreign[:2]
    k = r.randrange(5)
    if k == 0:
        c = cond_uh(r.choice(people))
    else:
        owners = r.sample(people, r.randrange(1, min(8, len(people)) + 1))
        c = cond_ms(owners, r.randrange(1, len(owners) + 1))
    if lock and r.random() < .15:
        c = cond_lock(r.choice([1, w.chain.height, w.chain.time, w.chain.time - 5]), c)
    return c


def lookups(ctx):
    """the condition active at a height"""
    import tfchain.errors as E
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    cl = w.parties[0].client

    def ask(h, text=False):
        want = c.active_mint(h)
        try:
            got = cl.minter.condition_get() if h is None else cl.minter.condition_get(str(h) if text else h) if r.random() < .5 \
                else cl.minter.condition_get(height=h)
        except E.ExplorerNoContent:
            if want is not None:
                raise OracleFail(HOME, 'no mint condition at height %r' % h)
            return
        except Exception as e:
            raise OracleFail(HOME, 'mint condition at height %r: %s: %s' % (h, type(e).__name__, e))
        ctx.count('condition_lookups')
        if want is None or canon(got.json()) != canon(want):
            raise OracleFail(HOME, 'mint condition at height %r is %r, the chain has %r' % (h, got.json(), want))
        ctx.key('condition', canon(want)[0], h is None or (h > c.height) - (h < c.height))

    def go():
        c.mine(blocks=3)
        start = c.height
        if r.random() < .8:
            c.mint.append((0, condition(w, r)))
        for _ in range(r.choice([1, 2, 4])):
            c.mine(blocks=r.choice([1, 2, 5]))
            w.set_mint(condition(w, r))
            ask(None)
        c.mine(blocks=r.choice([1, 3]))
        for h in range(start - 2, c.height + 2):
            ask(h, r.random() < .3)
        for h in (0, 1, None):
            ask(h)
        ctx.sample({'conditions': c.mint})
    drive(ctx, w, go)


def minters(ctx):
    """wallets that own all, some or none of the minting keys"""
    r = ctx.rng
    w = World(ctx, parties=r.choice([1, 2, 3, 4]), rich=False, keys=r.choice([1, 2, 3]))
    c = w.chain

    def go():
        for _ in range(r.choice([1, 2, 3])):
            c.mine()
            cond = condition(w, r)
            w.set_mint(cond)
            inner = ref.cond_unwrap(cond)
            people = {inner['data']['unlockhash']} if inner['type'] == 1 else set(inner['data']['unlockhashes'])
            for _ in range(r.choice([1, 2, 3])):
                p = r.choice(w.parties)
                if not people & set(p.own()):
                    ctx.count('outsiders')
                n, a = len(c.accepted), c.active_mint()
                w.op_mint(p, r.choice(['coins', 'coins', 'definition']))
                ctx.count('completed', len(c.accepted) - n)
                if r.random() < .6:
                    c.mine()
                if c.active_mint() is not a and canon(c.active_mint()) != canon(a):
                    ctx.count('redefined')
                    people = {x for y in [ref.cond_unwrap(c.active_mint())] for x in
                              ([y['data']['unlockhash']] if y['type'] == 1 else y['data']['unlockhashes'])}
                if ref.is_locked(ref.cond_lock(c.active_mint()), c.height, c.time):
                    break
    drive(ctx, w, go)


def definitions(ctx):
    """what a mint condition may not be; nonces"""
    from tfchain.types import ConditionTypes
    r = ctx.rng
    w = World(ctx, parties=1, rich=False)
    c, p = w.chain, w.parties[0]

    def go():
        c.mine()
        w.set_mint(cond_uh(r.choice(w.own0(p))))
        bad = r.choice([None, {'type': 0}, {'type': 2, 'data': {'sender': w.foreign[0], 'receiver': w.foreign[1],
                                                                'hashedsecret': c.rand(32).hex(), 'timelock': c.time + 9}}, 'nil', 'swapaddress'])
        arg = bad
        if isinstance(bad, dict):
            arg = ConditionTypes.from_json(bad)
        if bad == 'nil':
            arg = ref.NIL
        if bad == 'swapaddress':
            arg = ref.uh_text(2, c.rand(32))
        w.call(p, 'mint definition %r' % (bad,), HOME, lambda: p.wallet.minter.definition_set(arg), Exception)
        ctx.count('refused_definitions')
        seen = set()
        for n in range(6):
            random.seed(7)
            coins = r.random() < .5
            f = (lambda: p.wallet.minter.coins_new(w.foreign[0], '1')) if coins else (lambda: p.wallet.minter.definition_set(p.addr(0)))
            res, exc, pushes = w.call(p, 'minting', HOME, f)
            if len(pushes) != 1:
                raise OracleFail(HOME, 'the only minter pushes %d times' % len(pushes))
            x = base64.b64decode(pushes[0]['data']['nonce'])
            if len(x) != 8 or x in seen:
                raise OracleFail(HOME, 'nonce %r after %r' % (x, seen))
            seen.add(x)
            c.mine()
            ctx.count('nonces')
            if not coins:
                w.set_mint(cond_uh(p.addr(0)))
        for what, f in (('coins_new', lambda: p.wallet.minter.coins_new(w.foreign[0], '1')),
                        ('definition_set', lambda: p.wallet.minter.definition_set(p.addr(0)))):
            l = []
            for n in range(24):
                res, exc, pushes = w.call(p, what, HOME, f)
                l.append(base64.b64decode(pushes[0]['data']['nonce']))
            fixed = [i for i in range(8) if len({x[i] for x in l}) == 1]
            if fixed or len({x[:4] for x in l} | {x[4:] for x in l}) < 47:
                raise OracleFail(HOME, '%s: nonces are not random (bytes %r are fixed): %r' % (what, fixed, [x.hex() for x in l]))
            ctx.count('nonces', len(l))
        ctx.key('bad', repr(bad)[:12])
    drive(ctx, w, go)


W = {'mint': 12, 'history': 4, 'mine': 4, 'send': 1, 'balance': 1}
PARTS = [('lookups', 120, 2000, lookups), ('minters', 200, 5000, minters), ('definitions', 60, 600, definitions),
         ('histories', 60, 1500, histories(W, steps=18))]
