"""Random histories over a model chain with several wallets, every wallet operation judged by oracles.

An oracle that disagrees raises OracleFail(tags, message); tags are the ids of the properties that are broken.
"""
import base64
import copy
import hashlib
import json
import re
from decimal import Decimal

from . import ref
from .chain import Chain, make_client

FEES = ref.MINER_FEE
GRAIN = ref.GRAIN
MAXIN = 99

CAT_TAGS = {'format': {'C09', 'C01', 'C05', 'C06'}, 'inputs': {'C02'}, 'signature': {'C05', 'C06'}, 'value': {'C01'},
            'limits': {'C30'}, 'bot': {'C20'}, 'erc20': {'C22'}, 'mint': {'C28'}}


class OracleFail(Exception):
    def __init__(self, tags, msg):
        self.tags = set(tags)
        super().__init__(msg)


# ------------------------------------------------------------------ conditions
def cond_uh(a):
    return {'type': 1, 'data': {'unlockhash': a}}


def cond_ms(owners, n):
    return {'type': 4, 'data': {'unlockhashes': list(owners), 'minimumsignaturecount': n}}


def cond_lock(lock, c):
    return {'type': 3, 'data': {'locktime': lock, 'condition': c}}


def cond_swap(sender, receiver, hashed, lock):
    return {'type': 2, 'data': {'sender': sender, 'receiver': receiver, 'hashedsecret': hashed, 'timelock': lock}}


def canon(c):
    """a condition as a comparable value; the order of owners of a multi-signature wallet does not count"""
    c = c or {}
    t = c.get('type', 0)
    d = c.get('data') or {}
    if t == 0:
        return (0,)
    if t == 1:
        return (1, d['unlockhash'].lower())
    if t == 2:
        return (2, d['sender'], d['receiver'], d['hashedsecret'].lower(), d['timelock'])
    if t == 3:
        return (3, d['locktime'], canon(d.get('condition')))
    return (4, d['minimumsignaturecount'], tuple(sorted(d['unlockhashes'])))


def tft(g):
    """grains as a decimal text"""
    s = '%d.%09d' % divmod(g, GRAIN)
    return s.rstrip('0').rstrip('.') if '.' in s else s


def best99(values):
    return sum(sorted(values, reverse=True)[:MAXIN])


def arguments(fn):
    """what the caller hands to an operation: the lists, objects and values that the closure refers to"""
    cells = getattr(fn, '__closure__', None) or ()
    return [(k, c.cell_contents) for k, c in zip(fn.__code__.co_freevars, cells) if isinstance(c.cell_contents, (list, tuple, dict, bytearray))
            or type(c.cell_contents).__module__ == 'tfchain.types.ConditionTypes']


def snapshot(x):
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(v) for v in x]
    if isinstance(x, dict):
        return [[k, snapshot(v)] for k, v in x.items()]
    if isinstance(x, bytearray):
        return bytes(x)
    if type(x).__module__ == 'tfchain.types.ConditionTypes':
        return [type(x).__name__, json.dumps(x.json())]
    return x if isinstance(x, (str, bytes, int, float)) else None


class Party:
    def __init__(self, world, name, seed, key_count):
        from tfchain.TFChainWallet import TFChainWallet
        self.world, self.name, self.seed = world, name, seed
        self.client, self.explorer = make_client(world.chain, world.rng.random() < .8)
        self.key_count = key_count
        self.wallet = TFChainWallet(seed=seed, client=self.client, key_count=key_count)
        self.indices = {}

    def addr(self, i):
        """address of key i by the reference derivation"""
        if i not in self.indices:
            self.indices[i] = ref.derive_address(self.seed, i)
        return self.indices[i]

    def own(self):
        """addresses of the wallet; every one must be derived from the seed, the initial ones must be there"""
        l = self.wallet.addresses
        derived = {self.addr(i): i for i in range(len(l) + 12)}
        if len(set(l)) != len(l) or any(a not in derived for a in l) or \
                any(self.addr(i) not in l for i in range(self.key_count)):
            raise OracleFail({'C15'}, 'wallet addresses %r are not those of its seed' % (l,))
        return l

    @property
    def primary(self):
        return self.addr(0)


class World:
    NETS = ('devnet', 'standard', 'testnet')

    def __init__(self, ctx, network=None, parties=2, rich=True, keys=None):
        self.ctx, self.rng = ctx, ctx.rng
        self.prefer_shared = False
        self.busy = None
        self.network = network or self.rng.choice(self.NETS)
        young = rich and self.rng.random() < .05
        self.chain = Chain(self.rng, self.network, height=0 if young else None)
        self.chain.founding = young
        self.fee = FEES[self.network]
        self.parties = []
        for n in range(parties):
            seed = self.chain.rand(32)
            self.parties.append(Party(self, 'wallet%d' % n, seed, keys or self.key_number()))
        self.foreign = [ref.uh_text(1, self.chain.rand(32)) for _ in range(4)]
        self.multisigs = []         # conditions (type 4)
        self.swaps = []             # dicts of contracts made by the wallets or by history
        self.pending = []           # partially signed transactions
        if rich:
            self.setup()
        if young:
            self.chain.founding = False
            if self.chain.height == 0:
                ctx.count('genesis_tip')

    def key_number(self):
        if self.rng.random() < .95:
            return self.rng.choice([1, 1, 2, 3, 4])
        return self.rng.choice([9, 12, 17, 34])

    # ------------------------------------------------------------ history
    def own0(self, p):
        return [p.addr(i) for i in range(p.key_count)]

    def setup(self):
        r = self.rng
        for _ in range(r.choice([0, 1, 1, 2])):
            self.multisig_new()
        for p in self.parties:
            for _ in range(r.choice([1, 2, 4, 8])):
                self.grant(p)
        if r.random() < .3:
            for _ in range(r.choice([1, 2])):
                p = r.choice(self.parties)
                self.chain.genesis(self.chain.grant([(self.own_condition(p, locks=False), self.value()) for _ in range(r.choice([1, 2]))],
                                                    confirmed=False))
        for _ in range(0 if self.chain.founding else r.randrange(0, 5)):
            self.history()

    def multisig_new(self):
        r = self.rng
        pool = [a for p in self.parties for a in self.own0(p)]
        first = r.choice(self.own0(self.parties[0]))
        others = [a for a in pool + self.foreign[:2] if a != first]
        owners = [first] + r.sample(others, r.randrange(1, min(4, len(others)) + 1))
        if r.random() < .12:          # a wallet of many owners
            owners += [ref.uh_text(1, bytes(r.getrandbits(8) for _ in range(32))) for _ in range(r.choice([3, 5, 8, 14]))]
        r.shuffle(owners)
        c = cond_ms(owners, r.randrange(1, len(owners) + 1) if len(owners) < 7 else r.choice([1, 2, 3, len(owners)]))
        self.multisigs.append(c)
        self.chain.grant([(c, self.value())], kind=r.choice(['v1', 'v129']))
        return c

    def value(self):
        r = self.rng
        k = r.randrange(12)
        if k == 0:
            return r.randrange(1, 10)
        if k == 1:
            return self.fee + r.choice([-1, 0, 1])
        if k == 2:
            return 10 ** 9 * r.randrange(10 ** 6, 10 ** 9)
        if k < 6:
            return GRAIN * r.randrange(1, 1000)
        return r.randrange(1, 500 * GRAIN)

    def lock_value(self):
        """a lock around the chain tip: (value, locked now)"""
        r, c = self.rng, self.chain
        v = r.choice([c.height - 1, c.height, c.height + 1, c.height + r.randrange(2, 10), 1, r.randrange(1, c.height + 2),
                      c.time - 1, c.time, c.time + 1, c.time + r.randrange(2, 1000), c.time - r.randrange(1, 10 ** 6),
                      c.time + r.randrange(10 ** 4, 10 ** 7), c.time + r.randrange(1, r.choice([10 ** 7, 10 ** 7, 2 ** 34]))])
        return max(v, 0)

    def own_condition(self, p, locks=True):
        r = self.rng
        c = cond_uh(r.choice(self.own0(p)))
        if self.multisigs and r.random() < .2:
            c = copy.deepcopy(r.choice(self.multisigs))
            if r.random() < .3:
                r.shuffle(c['data']['unlockhashes'])
        if locks and r.random() < .3:
            c = cond_lock(self.lock_value(), c)
        return c

    def grant(self, p, n=None):
        r = self.rng
        outs = [(self.own_condition(p), self.value()) for _ in range(n or r.choice([1, 1, 2, 5]))]
        if r.random() < .3:
            outs.insert(r.randrange(len(outs) + 1), (cond_uh(r.choice(self.foreign)), self.value()))
        kind = r.choice(['v1', 'v1', 'v129', 'v209'])
        if kind == 'v209':
            outs = [(cond_uh(r.choice(self.own0(p))), self.value())]
        return self.chain.grant(outs, confirmed=r.random() < .75, kind=kind)

    def pk(self, p=None, i=0):
        return ref.derive_pubkey(p.seed, i) if p else 'ed25519:' + self.chain.rand(32).hex()

    def bot_new(self, p=None, months=None, names=None):
        """history: a 3Bot record, owned by a wallet or not"""
        r, c = self.rng, self.chain
        i = max(c.bots, default=0) + r.randrange(1, 4)
        if r.random() < .06 and i < 1 << 31:
            i += 1 << r.randrange(6, 31)
        c.bots[i] = {'id': i, 'names': sorted(self.name() for _ in range(r.randrange(0, 4))) if names is None else names,
                     'addresses': [self.netaddr() for _ in range(r.randrange(0, 3))],
                     'publickey': self.pk(p, r.randrange(p.key_count) if p else 0),
                     'expiration': c.time + (r.choice([-1000, 0, 1, 10 ** 6, 10 ** 6, 2 ** 32]) if months is None else months)}
        if not c.bots[i]['names'] and not c.bots[i]['addresses']:
            c.bots[i]['addresses'] = [self.netaddr()]
        return c.bots[i]

    def name(self):
        r = self.rng
        return '.'.join(r.choice('abcdefgh') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789')
                                                       for _ in range(r.randrange(4, 12)))
                        for _ in range(r.randrange(1, 3)))

    def netaddr(self):
        r = self.rng
        return r.choice([
            lambda: '%d.%d.%d.%d' % tuple(r.randrange(1, 255) for _ in range(4)),
            lambda: 'host%d.example.org' % r.randrange(10 ** 6),
            lambda: '%x:%x:%x:%x:%x:%x:%x:%x' % tuple(r.randrange(0x1000, 0xffff) for _ in range(8))])()

    def history(self):
        """something that happened on the chain without the wallets under test doing it"""
        r, c = self.rng, self.chain
        k = r.randrange(10)
        if k < 3:
            return self.grant(r.choice(self.parties))
        own = {a for p in self.parties for a in self.own0(p)} | {ref.cond_address(m) for m in self.multisigs}
        outs = c.unspent(own)
        if k < 6 and outs:
            # the owner spent outputs elsewhere; change may come back; possibly another kind of transaction
            use = r.sample(outs, min(len(outs), r.choice([1, 1, 2, 3])))
            conf = r.random() < .6
            if conf and not all(c.is_confirmed(o) for o in use):
                c.mine()
            total = sum(o.value for o in use)
            back = [(self.own_condition(r.choice(self.parties)), max(1, total // 3))] if r.random() < .5 else []
            ver = r.choice([1, 1, 144, 145, 146, 208, 210])
            return self.spend_as(ver, use, back, conf)
        if k == 6:
            return c.mine(blocks=r.choice([1, 1, 2, 5]))
        if k == 7:
            self.bot_new(r.choice(self.parties + [None]))
            return
        if k == 8:
            # block stake transaction, also touching coins
            a = r.choice(self.own0(r.choice(self.parties)))
            t = c.grant([(cond_uh(a), self.value())], confirmed=False)
            return t
        # atomic swap contract made by somebody else
        self.swap_history()

    def spend_as(self, ver, use, back, conf):
        r, c = self.rng, self.chain
        if ver == 1:
            return c.spend_foreign([o.id for o in use], back, confirmed=conf)
        ins = []
        for o in use:
            sig = {'publickey': self.pk(), 'signature': c.rand(64).hex()}
            t = ref.cond_unwrap(o.condition).get('type', 0)
            ins.append({'parentid': o.id, 'fulfillment': {'type': 3, 'data': {'pairs': [sig]}} if t == 4 else
                        {'type': 1, 'data': sig}})
        d = {'coininputs': ins, 'txfee': str(self.fee)}
        if back:
            d['refundcoinoutput'] = {'value': str(back[0][1]), 'condition': back[0][0]}
        if ver == 144:
            d.update(nrofmonths=1, names=[self.name()], identification={'publickey': self.pk(), 'signature': c.rand(64).hex()})
        elif ver == 145:
            b = self.bot_new(None, 10 ** 6)
            d.update(id=b['id'], nrofmonths=1, signature=c.rand(64).hex())
        elif ver == 146:
            b = self.bot_new(None, 10 ** 6, names=[self.name(), self.name()])
            b2 = self.bot_new(None, 10 ** 6)
            d.update(sender={'id': b['id'], 'signature': c.rand(64).hex()},
                     receiver={'id': b2['id'], 'signature': c.rand(64).hex()}, names=[b['names'][0]])
        elif ver == 208:
            d.update(address='0x' + c.rand(20).hex(), value=str(self.value()))
        elif ver == 210:
            pk = self.pk()
            a = ref.pubkey_address(pk)
            d.update(pubkey=pk, tftaddress=a, erc20address=ref.erc20_of_address(a), signature=c.rand(64).hex(),
                     regfee=str(ref.ERC20_REG))
        return c.insert({'version': ver, 'data': d}, confirmed=conf)

    def swap_history(self, sender=None, receiver=None):
        r, c = self.rng, self.chain
        secret = c.rand(32)
        people = [a for p in self.parties for a in self.own0(p)] + self.foreign[:2]
        s, rc = sender or r.choice(people), receiver or r.choice(people)
        cond = cond_swap(s, rc, hashlib.sha256(secret).hexdigest(),
                         r.choice([c.time - 1, c.time, c.time + 1, c.time + r.randrange(100, 200000),
                                   c.time - r.randrange(100, 10000)]))
        # worth at least one miner fee and one unit: a contract worth less can only be claimed together with others
        v = self.fee + r.choice([1, 1000, self.fee, r.randrange(1, 10 ** 12)])
        t = c.grant([(cond, v)] if r.random() < .6 else [(cond_uh(r.choice(people)), self.value()), (cond, v)],
                    confirmed=r.random() < .8)
        oid = [i for i in t.coin_ids if c.outs[i].condition.get('type') == 2][0]
        self.swaps.append({'id': oid, 'secret': secret, 'out': c.outs[oid]})
        return self.swaps[-1]

    # ------------------------------------------------------------ oracles over the ledger
    def known_multisigs(self, p, own=None):
        own = set(own or p.own())
        r = {}
        for o in self.chain.outs.values():
            c = ref.cond_unwrap(o.condition)
            if c.get('type', 0) == 4 and own & set(c['data']['unlockhashes']):
                r[o.address] = c
        return r

    def sums(self, addresses):
        c = self.chain
        s = {'available': 0, 'locked': 0, 'unconfirmed': 0, 'unconfirmed_locked': 0}
        ids = {'outputs_available': set(), 'outputs_unconfirmed_available': set()}
        for o in c.unspent(addresses):
            k = 'available' if c.is_confirmed(o) else 'unconfirmed'
            if c.unlocked(o):
                s[k] += o.value
                ids['outputs_available' if k == 'available' else 'outputs_unconfirmed_available'].add(o.id)
            else:
                s['locked' if k == 'available' else 'unconfirmed_locked'] += o.value
        return s, ids

    def balance_diff(self, b, addresses, what):
        s, ids = self.sums(addresses)
        for k, v in s.items():
            got = getattr(b, k)
            if grains(got) != v:
                return '%s: %s is %s, the ledger says %s' % (what, k, got, tft(v))
        for k, v in ids.items():
            l = [str(o.id) for o in getattr(b, k)]
            if sorted(l) != sorted(v):
                return '%s: %s lists %s, the ledger %s' % (what, k, sorted(l), sorted(v))
            for o in getattr(b, k):
                m = self.chain.outs[str(o.id)]
                if grains(o.value) != m.value or canon(o.condition.json()) != canon(m.condition):
                    return '%s: output %s is reported as %s' % (what, m.id, o.json())
        return None

    def check_balance(self, p, tags=('C04',)):
        own = p.own()
        p.explorer.budget = 5000
        b = p.wallet.balance
        self.ctx.count('balances')
        d = self.balance_diff(b, set(own), p.name)
        if d:
            raise OracleFail(tags, d)
        ms = self.known_multisigs(p, own)
        for a, c in ms.items():
            w = b.wallets.get(a)
            if w is None:
                raise OracleFail(tags, '%s: multi-signature wallet %s is not reported' % (p.name, a))
            d = self.balance_diff(w, {a}, '%s multisig %s' % (p.name, a))
            if d:
                raise OracleFail(tags, d)
            if sorted(w.owners) != sorted(c['data']['unlockhashes']) or \
                    w.signature_count != c['data']['minimumsignaturecount']:
                raise OracleFail(tags, '%s: multisig %s reported with owners %r and %r signatures' % (
                    p.name, a, w.owners, w.signature_count))
            self.ctx.count('multisig_balances')
        mints = {ref.cond_address(c) for _, c in self.chain.mint}
        for a in b.wallets:
            if a not in ms and a not in mints:
                raise OracleFail(tags, '%s: unknown multi-signature wallet %s is reported' % (p.name, a))
        if sorted(b.addresses_multisig) != sorted(b.wallets):
            raise OracleFail(tags, '%s: multi-signature addresses %r' % (p.name, b.addresses_multisig))
        if (b.chain_height, b.chain_time, str(b.chain_blockid)) != (self.chain.height, self.chain.time, self.chain.tip['id']):
            raise OracleFail(tags, '%s: balance at height %r time %r block %r' % (
                p.name, b.chain_height, b.chain_time, str(b.chain_blockid)))
        self.check_text(p, b, [(set(own), None)] + [({a}, a) for a in ms], tags)
        return b

    def check_text(self, p, b, wallets, tags):
        """the balance as shown to the user names the same sums"""
        parts = repr(b).split('\n\n')
        if 'height %d ' % self.chain.height not in parts[0]:
            raise OracleFail(tags, '%s: the balance is shown as of %r' % (p.name, parts[0]))
        for n, (addresses, a) in enumerate(wallets):
            s, _ = self.sums(addresses)
            text = parts[0] if a is None else [x for x in parts[1:] if a in x.split('\n')[0]]
            if a is not None:
                if not text and not any(s.values()):
                    continue
                if len(text) != 1:
                    raise OracleFail(tags, '%s: multi-signature wallet %s is shown %d times: %r' % (p.name, a, len(text), parts))
                text = text[0]
            got = [round(Decimal(x) * ref.GRAIN) for x in re.findall(r'(?<![0-9.])([0-9]+(?:\.[0-9]+)?) TFT', text)]
            want = [s['available'], s['locked']] + ([s['unconfirmed'], s['unconfirmed_locked']] if s['unconfirmed'] or s['unconfirmed_locked'] else [])
            if got[:len(want)] != want or len(got) > len(want) + 1:
                raise OracleFail(tags, '%s: balance %s is shown as %r, the ledger says %r' % (p.name, a or 'of the wallet', text, s))
        self.ctx.count('shown')

    # ------------------------------------------------------------ running an operation
    def call(self, p, what, home, fn, expect='ok', fail_tags=()):
        """run one library operation. expect: 'ok', None (not judged), or a tuple of error types that must be raised.
        Returns (result, exception, pushes)"""
        c = self.chain
        home = set(home)
        n0, e0 = len(c.pushed), len(c.events)
        p.explorer.budget = 5000
        self.ctx.log('%s: %s', p.name, what)
        res = exc = None
        given = arguments(fn)
        was = [snapshot(v) for _, v in given]
        self.ctx.count('arguments', len(given))
        try:
            res = fn()
        except OracleFail:
            raise
        except Exception as e:
            exc = e
        pushes, events = c.pushed[n0:], c.events[e0:]
        self.ctx.count('operations')
        for (k, v), old in zip(given, was):
            if snapshot(v) != old:
                raise OracleFail(home | {'C01', 'C29'}, '%s: the argument %s was %r and is %r afterwards' % (what, k, old, snapshot(v)))
        if events:
            tags = set(home) & {'C16', 'C17', 'C20', 'C22', 'C28', 'C32'}
            for cat, _ in events:
                tags |= CAT_TAGS[cat]
            raise OracleFail(tags, '%s: the network refuses the transaction: %s' % (
                what, '; '.join('%s: %s' % e for e in events[:4])))
        if exc is not None:
            name = type(exc).__name__
            if expect == 'ok':
                raise OracleFail(home | {'C01', 'C03', 'C06'}, '%s: failed with %s: %s' % (what, name, exc)) from exc
            if pushes:
                raise OracleFail(home | {'C03', 'C29'}, '%s: failed with %s but pushed' % (what, name)) from exc
            if expect is not None and not isinstance(exc, expect):
                raise OracleFail(home | set(fail_tags), '%s: failed with %s: %s' % (what, name, exc)) from exc
            self.ctx.count('refusals')
        elif expect not in ('ok', None):
            raise OracleFail(home | set(fail_tags), '%s: succeeded but must fail with %s' % (what, expect))
        return res, exc, pushes

    def sign(self, p, txn, **kw):
        return p.wallet.transaction_sign(txn, **kw)

    # ------------------------------------------------------------ arguments
    def amount(self, g):
        """grains in one of the forms a caller may use"""
        from tfchain.types.PrimitiveTypes import Currency
        r = self.rng
        k = r.randrange(5)
        if k == 0:
            return tft(g)
        if k == 1:
            return tft(g) + ' TFT'
        if k == 2 and g % GRAIN == 0:
            return g // GRAIN
        return Currency(value=tft(g))

    def as_condition(self, c):
        """an expected condition as a library condition object"""
        from tfchain.types import ConditionTypes
        return ConditionTypes.from_json(copy.deepcopy(c))

    def recipient(self, p, plain=False):
        """(argument, expected condition)"""
        from tfchain.types.CryptoTypes import UnlockHash
        r = self.rng
        people = [a for q in self.parties for a in self.own0(q)] + self.foreign
        a = r.choice(people)
        k = r.randrange(11)
        if plain or k < 4:
            return r.choice([a, UnlockHash.from_json(a), a.encode() and bytes.fromhex(a)]), cond_uh(a)
        owners = r.sample(people, r.randrange(2, min(5, len(people)) + 1))
        n = r.randrange(1, len(owners) + 1)
        if k == 4:
            return list(owners), cond_ms(owners, len(owners))
        if k == 5:
            return (n, list(owners)), cond_ms(owners, n)
        if k == 6:
            return (list(owners), n), cond_ms(owners, n)
        if k == 7:
            return None, {'type': 0}
        if k == 8:
            c = r.choice([cond_uh(a), cond_ms(owners, n), {'type': 0}])
            return self.as_condition(c), c
        if k == 9:
            c = cond_lock(self.lock_value(), r.choice([cond_uh(a), cond_ms(owners, n)]))
            return self.as_condition(c), c
        return [UnlockHash.from_json(o) for o in owners], cond_ms(owners, len(owners))

    def data(self):
        """(argument, expected bytes)"""
        r = self.rng
        k = r.randrange(8)
        if k < 4:
            return None, b''
        if k == 4:
            s = ''.join(r.choice('abc xyz é☃0') for _ in range(r.randrange(1, 25)))
            while len(s.encode()) > 83:
                s = s[:-1]
            return s, s.encode()
        b = self.chain.rand(r.choice([1, 2, 31, 64, 82, 83]))
        return (bytearray(b) if r.random() < .3 else b), b

    def source(self, p):
        """(argument, allowed personal addresses, allowed multi-signature addresses)"""
        from tfchain.types.CryptoTypes import UnlockHash
        r = self.rng
        own = p.own()
        ms = self.known_multisigs(p, own)
        wrap = lambda a: UnlockHash.from_json(a) if r.random() < .4 else a
        k = r.randrange(13)
        if self.busy in own and r.random() < .75:
            return (wrap(self.busy) if r.random() < .6 else [wrap(self.busy)]), {self.busy}, set()
        if ms and self.prefer_shared and r.random() < .6:
            k = r.choice([8, 9, 9, 10, 12])
        if k < 5:
            return None, set(own), set()
        if k < 7:
            a = r.choice(own)
            return (wrap(a) if r.random() < .6 else [wrap(a)]), {a}, set()
        if k == 7:
            l = r.sample(own, r.randrange(1, len(own) + 1))
            return [wrap(a) for a in l], set(l), set()
        if ms and k < 10:
            a = r.choice(sorted(ms))
            return (wrap(a) if r.random() < .6 else [wrap(a)]), set(), {a}
        if ms and k in (10, 12):
            # several shared wallets, with or without personal addresses, in any order
            l = r.sample(own, r.randrange(1, len(own) + 1)) if k == 10 or r.random() < .3 else []
            m = r.sample(sorted(ms), r.randrange(1, len(ms) + 1)) if k == 12 or r.random() < .3 else [r.choice(sorted(ms))]
            both = l + m
            if r.random() < .5:
                r.shuffle(both)
            return [wrap(x) for x in both], set(l), set(m)
        if r.random() < .1:
            return self.foreign[0], set(), set()
        return None, set(own), set()

    def spendable(self, personal, ms):
        return [o for o in self.chain.unspent(personal | ms) if self.chain.unlocked(o)]

    def feasible(self, need, personal, ms):
        """True / False / None (not settled by the property: personal and shared coins together)"""
        v = lambda a: best99([o.value for o in self.spendable(a, set())])
        if v(personal) >= need or any(v({m}) >= need for m in ms):
            return True
        outs = self.spendable(personal, ms)
        if sum(o.value for o in outs) >= need:
            return True if len(outs) <= MAXIN else None
        return False

    def pick_amount(self, personal, ms, extra):
        """an amount around the interesting boundaries of what the sources can pay"""
        r = self.rng
        outs = [o.value for o in self.spendable(personal, ms)]
        top = best99(outs) - extra
        k = r.randrange(10)
        if not outs or top <= 1:
            return r.choice([1, GRAIN, r.randrange(1, 10 ** 12)])
        if len(outs) > MAXIN and r.random() < .4:       # what 99 outputs pay, but not every choice of 99
            s = sorted(outs)
            v = r.choice([top, top - r.randrange(max(1, top // 20)), sum(s[:r.randrange(MAXIN, len(s) + 1)]) - extra,
                          sum(outs[:MAXIN]) - extra, top - s[-MAXIN], top + s[-MAXIN - 1], top - s[0]])
            return v if v > 0 else top
        if k == 0:
            return top
        if k == 1:
            return top + 1
        if k == 2:
            return top + r.randrange(1, 10 ** 12)
        if k == 3:
            v = r.choice(outs) - extra
            return v if v > 0 else 1
        if k == 4:
            return 1
        if k == 5:
            s = sorted(outs)
            v = sum(s[:r.randrange(1, len(s) + 1)]) - extra + r.choice([-1, 0, 1])
            return v if 0 < v else 1
        return r.randrange(1, top + 1)

    def refund_arg(self, p, source):
        """(argument, expected refund condition)"""
        r = self.rng
        if r.random() < .55:
            s = source
            if isinstance(s, list) and len(s) == 1:
                s = s[0]
            if s is None or isinstance(s, list):
                return None, cond_uh(p.primary)
            s = str(s)
            if s[:2] == '03':
                ms = self.known_multisigs(p)
                return None, ms.get(s)
            return None, cond_uh(s)
        arg, c = self.recipient(p)
        while arg is None:
            arg, c = self.recipient(p)
        return arg, c

    # ------------------------------------------------------------ judging a created transaction
    def judge_tx(self, what, js, requested, refund, fee, personal, ms, extra=0, data=b'', home=()):
        """C01, C02, C30 over the JSON of a created transaction (signed or not)"""
        c = self.chain
        home = set(home)
        ins = ref.coin_inputs(js)
        self.ctx.count('transactions_judged')
        self.ctx.count('inputs_judged', len(ins))
        ids = [i['parentid'] for i in ins]
        if not ids:
            raise OracleFail({'C02', 'C01'} | home, '%s: no inputs' % what)
        if len(set(ids)) != len(ids):
            raise OracleFail({'C02'} | home, '%s: an output is used twice as input' % what)
        if len(ids) > MAXIN:
            raise OracleFail({'C02'} | home, '%s: %d inputs' % (what, len(ids)))
        total = 0
        for i in ids:
            o = c.outs.get(i)
            if o is None:
                raise OracleFail({'C02'} | home, '%s: input %s does not exist' % (what, i))
            if o.spender is not None and o.spender not in c.accepted[-1:]:
                raise OracleFail({'C02'} | home, '%s: input %s is already spent' % (what, i))
            if not c.unlocked(o):
                raise OracleFail({'C02', 'C19'} | home, '%s: input %s is locked (%r at height %d time %d)' % (
                    what, i, o.lock, c.height, c.time))
            if personal is not None and o.address not in personal | ms:
                raise OracleFail({'C02'} | home, '%s: input %s of %s is not among the allowed sources' % (what, i, o.address))
            total += o.value
        d = js['data']
        fees = [ref.cur(x) for x in d.get('minerfees') or []] if js['version'] == 1 else [ref.cur(d.get('txfee'))]
        if fees != [fee]:
            raise OracleFail({'C01'} | home, '%s: miner fees %r, the minimum is %d' % (what, fees, fee))
        outs = sorted((canon(o.get('condition')), ref.cur(o['value'])) for o in ref.coin_outputs(js))
        rest = total - fee - extra - sum(v for _, v in requested)
        want = sorted([(canon(x), v) for x, v in requested] + ([(canon(refund), rest)] if rest > 0 else []))
        if rest < 0 or outs != want:
            raise OracleFail({'C01'} | home, '%s: outputs are %r, expected %r (inputs %d, fee %d, protocol %d)' % (
                what, outs, want, total, fee, extra))
        got = base64.b64decode(d.get('arbitrarydata') or '')
        if got != data:
            raise OracleFail({'C30'} | home, '%s: data %r became %r' % (what, data, got))
        return ids

    def signers(self, js, p):
        """True when the wallet alone can complete all inputs"""
        own = set(p.own())
        for i in ref.coin_inputs(js):
            c = ref.cond_unwrap(self.chain.outs[i['parentid']].condition)
            if c.get('type', 0) == 4:
                if len(own & set(c['data']['unlockhashes'])) < c['data']['minimumsignaturecount']:
                    return False
            elif ref.cond_address(c) not in own:
                return False
        return True

    def judge_push(self, what, p, txn, submitted, pushes, must, home=()):
        """C06: pushed exactly when complete; the returned transaction is the pushed one"""
        home = set(home)
        js = txn.json()
        if len(pushes) > 1:
            raise OracleFail({'C06'} | home, '%s: pushed %d times' % (what, len(pushes)))
        if bool(submitted) != bool(pushes):
            raise OracleFail({'C06'} | home, '%s: reported submitted=%r but %d pushes' % (what, submitted, len(pushes)))
        if must is not None and bool(pushes) != must:
            raise OracleFail({'C06'} | home, '%s: pushed=%r, expected %r' % (what, bool(pushes), must))
        if pushes:
            if plain(js) != plain(pushes[0]):
                raise OracleFail({'C06', 'C09'} | home, '%s: the returned transaction is not the pushed one' % what)
            if str(txn.id) != self.chain.accepted[-1]:
                raise OracleFail({'C06', 'C08'} | home, '%s: transaction id is %r, the network says %r' % (
                    what, txn.id, self.chain.accepted[-1]))
            ids = self.chain.txs[str(txn.id)].coin_ids
            for n, (co, want) in enumerate(zip(txn.coin_outputs, ids)):
                got = str(co.id) if co.id is not None else ''
                if got.strip('0') and got != want:
                    raise OracleFail({'C08'} | home, '%s: output %d of the returned transaction is %s, on the network %s' % (
                        what, n, got, want))
            self.ctx.count('pushes_judged')
        else:
            self.judge_partial(what, js, home)
        return js

    def judge_partial(self, what, js, home=()):
        """signatures already in an incomplete transaction are valid ones"""
        bad = []
        for n, i in enumerate(ref.coin_inputs(js)):
            o = self.chain.outs.get(i['parentid'])
            c = ref.cond_unwrap(o.condition)
            f = i['fulfillment']
            if c.get('type', 0) == 4:
                pairs = (f.get('data') or {}).get('pairs') or []
                cc = copy.deepcopy(c)
                cc['data']['minimumsignaturecount'] = len(pairs)
                self.chain.judge_fulfillment(js, dict(f, data=dict(f.get('data') or {}, pairs=pairs)), cc,
                                             [ref.extra_index(n)], 'input %d' % n, lambda a, m: bad.append(m))
            elif (f.get('data') or {}).get('signature'):
                self.chain.judge_fulfillment(js, f, c, [ref.extra_index(n)], 'input %d' % n, lambda a, m: bad.append(m))
        self.ctx.count('partial_judged')
        if bad:
            raise OracleFail({'C05'} | set(home), '%s: incomplete transaction: %s' % (what, bad[0]))

    # ------------------------------------------------------------ operations
    def op_send(self, p, builder=None):
        import tfchain.errors as E
        r = self.rng
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        builder = r.random() < .4 if builder is None else builder
        darg, data = self.data()
        n = r.choice([1, 2, 2, 3, 5] if r.random() < .9 else [9, 14, 30]) if builder else 1
        req, calls = [], []
        total = self.pick_amount(personal, ms, self.fee)
        n = max(1, min(n, total))
        cuts = sorted(r.sample(range(1, total), n - 1)) if n > 1 else []
        for a, b in zip([0] + cuts, cuts + [total]):
            arg, c = self.recipient(p)
            lock = None
            if c['type'] != 3 and r.random() < .25:
                lock = r.choice([self.lock_value(), self.lock_value()]) or 1
                c = cond_lock(lock, c)
            req.append((c, b - a))
            calls.append((arg, self.amount(b - a), lock))
        need = total + self.fee
        ok = self.feasible(need, personal, ms)
        if refund_c is None:
            refund_c = cond_uh(p.primary)

        def run():
            if not builder:
                arg, am, lock = calls[0]
                return p.wallet.coins_send(arg, am, source=src, refund=refund, lock=lock, data=darg)
            bld = p.wallet.coin_transaction_builder_new()
            for arg, am, lock in calls:
                bld.output_add(arg, am, lock=lock) if lock is not None else bld.output_add(arg, am)
            return bld.send(source=src, refund=refund, data=darg)
        what = '%s %s to %d recipient(s) from %s (refund %s)' % (
            'builder' if builder else 'coins_send', tft(total), n, src, refund if isinstance(refund, str) else type(refund).__name__)
        home = {'C03'}
        res, exc, pushes = self.call(p, what, home, run, 'ok' if ok else (None if ok is None else E.InsufficientFunds), {'C03'})
        self.ctx.count('sends_ok' if exc is None else 'sends_refused')
        if exc is not None:
            if ok is None and not isinstance(exc, E.InsufficientFunds):
                raise OracleFail(home, '%s: failed with %r' % (what, exc))
            return None
        js = res.transaction.json()
        mixed = bool(personal and ms)
        self.judge_tx(what, js, req, refund_c, self.fee, personal, ms, data=data)
        must = self.signers(js, p)
        self.judge_push(what, p, res.transaction, res.submitted, pushes, must)
        if not res.submitted and not mixed:
            self.pending.append({'js': js, 'p': p, 'what': what})
        self.ctx.key('send', builder, n, type(src).__name__, bool(ms), len(ref.coin_inputs(js)), bool(refund), ok, bool(data),
                     [canon(c)[0] for c, _ in req])
        self.ctx.sample({'op': what, 'pushed': js if len(json.dumps(js)) < 3000 else '(large)', 'submitted': res.submitted})
        return res

    def op_cosign(self):
        """hand the JSON of an incomplete transaction to the other wallets, in a random order"""
        from tfchain.types import transactions
        r = self.rng
        if not self.pending:
            return None
        item = self.pending.pop(r.randrange(len(self.pending)))
        js = item['js']
        if any(self.chain.outs[i['parentid']].spender for i in ref.coin_inputs(js)):
            return None
        if not all(self.chain.unlocked(self.chain.outs[i['parentid']]) for i in ref.coin_inputs(js)):
            return None
        d = js['data']
        bots = {145: [d.get('id')], 146: [(d.get(k) or {}).get('id') for k in ('sender', 'receiver')]}.get(js['version'], [])
        if any(self.chain.bots[b]['expiration'] <= self.chain.time + 1000 for b in bots):
            return None         # expired meanwhile: the network refuses it, whatever the wallets do
        if js['version'] == 144 and any(b['publickey'] == d['identification']['publickey'] for b in self.chain.bots.values()):
            return None         # the key was registered meanwhile
        order = list(self.parties)
        r.shuffle(order)
        if r.random() < .3:
            order.append(order[0])
        for q in order:
            own = set(q.own())
            before = json.loads(json.dumps(js))
            missing = 0
            for i in ref.coin_inputs(js):
                c = ref.cond_unwrap(self.chain.outs[i['parentid']].condition)
                if c.get('type', 0) == 4:
                    have = {ref.pubkey_address(x['publickey']) for x in (i['fulfillment'].get('data') or {}).get('pairs') or []}
                    missing += len((own & set(c['data']['unlockhashes'])) - have)
            # who is no owner of a shared wallet does not know its outputs, and cannot tell whether all is signed
            known = all(own & set(c['data']['unlockhashes']) for c in
                        [ref.cond_unwrap(self.chain.outs[i['parentid']].condition) for i in ref.coin_inputs(js)] if c.get('type', 0) == 4)
            allow = r.random() < .75
            form = r.choice(['dict', 'text', 'object'])
            arg = json.loads(json.dumps(js)) if form == 'dict' else json.dumps(js) if form == 'text' else \
                transactions.from_json(json.loads(json.dumps(js)))
            what = '%s signs %s (%s, submit=%r)' % (q.name, item['what'], form, allow)
            res, exc, pushes = self.call(q, what, {'C06', 'C05'} | set(item.get('home', ())),
                                         lambda: self.sign(q, arg, submit=allow))
            js = res.transaction.json()
            if bool(res.signed) != (missing > 0):
                raise OracleFail({'C06', 'C31'}, '%s: signed=%r with %d own signatures missing' % (what, res.signed, missing))
            if strip(js) != strip(before):
                raise OracleFail({'C06', 'C09', 'C01'}, '%s: signing changed the transaction' % what)
            lost = pairs_of(before) - pairs_of(js)
            if lost:
                raise OracleFail({'C06'}, '%s: signatures were lost' % what)
            if len(pairs_of(js)) != len(pairs_of(before)) + missing:
                raise OracleFail({'C06', 'C31', 'C05'}, '%s: %d signatures became %d, %d were missing' % (
                    what, len(pairs_of(before)), len(pairs_of(js)), missing))
            complete = all(len((i['fulfillment'].get('data') or {}).get('pairs') or []) >=
                           ref.cond_unwrap(self.chain.outs[i['parentid']].condition)['data']['minimumsignaturecount']
                           for i in ref.coin_inputs(js)
                           if ref.cond_unwrap(self.chain.outs[i['parentid']].condition).get('type', 0) == 4)
            self.ctx.count('cosign_steps')
            must = complete and allow and missing > 0
            self.judge_push(what, q, res.transaction, res.submitted, pushes, must if known or not must else None)
            self.ctx.key('cosign', form, missing, complete, allow, js['version'])
            if res.submitted:
                self.ctx.count('cosign_completed')
                return res
            if complete:
                return res
        return None

    def op_manual(self):
        """a transaction assembled by hand from outputs of one or more wallets, then signed by the wallets in some order"""
        from tfchain.types import transactions
        r, c = self.rng, self.chain
        own = {q.name: set(q.own()) for q in self.parties}
        people = set().union(*own.values())
        pool = []
        for o in c.outs.values():
            cc = ref.cond_unwrap(o.condition)
            if o.spender or o.kind != 'coin' or not c.unlocked(o):
                continue
            owners = set(cc['data']['unlockhashes']) if cc.get('type', 0) == 4 else {ref.cond_address(cc)} if cc.get('type', 0) == 1 else set()
            if owners & people:
                pool.append((o, cc, owners))
        if not pool:
            return None
        ins = r.sample(pool, min(len(pool), r.choice([1, 2, 2, 3, 5] if len(pool) < 20 else [2, 5, 17, 40, 99])))
        total = sum(o.value for o, _, _ in ins)
        if total <= self.fee + 1:
            return None
        docs = [{'parentid': o.id, 'fulfillment': {'type': 3, 'data': {'pairs': []}} if cc.get('type', 0) == 4 else
                 {'type': 1, 'data': {'publickey': ':' + '0' * 64, 'signature': ''}}} for o, cc, _ in ins]
        send = r.randrange(1, total - self.fee + 1)
        outs = [(cond_uh(r.choice(sorted(people))), x) for x in [total - self.fee - send] if x]
        if r.random() < .25:
            js = {'version': 208, 'data': {'address': '0x' + c.rand(20).hex(), 'value': str(send), 'txfee': str(self.fee), 'coininputs': docs}}
            if outs:
                js['data']['refundcoinoutput'] = {'value': str(outs[0][1]), 'condition': outs[0][0]}
        else:
            outs.append((self.recipient(self.parties[0])[1], send))
            r.shuffle(outs)
            js = {'version': 1, 'data': {'coininputs': docs, 'minerfees': [str(self.fee)],
                                         'coinoutputs': [{'value': str(v), 'condition': x} for x, v in outs]}}
        order = list(self.parties)
        r.shuffle(order)
        self.ctx.count('manual')
        home = {'C05', 'C06'}
        for q in order + ([order[0]] if r.random() < .3 else []):
            before = json.loads(json.dumps(js))
            mine = own[q.name]
            missing, known, complete = 0, True, True
            want = []
            for i, (o, cc, owners) in zip(ref.coin_inputs(js), ins):
                have = {a for a in owners if any(ref.pubkey_address(pk) == a for n, pk, _ in pairs_of(js) if n == len(want))}
                add = (owners & mine) - have
                want.append(have | add)
                missing += len(add)
                known = known and bool(owners & mine)
                complete = complete and len(want[-1]) >= (cc['data']['minimumsignaturecount'] if cc.get('type', 0) == 4 else 1)
            allow = r.random() < .75
            form = r.choice(['dict', 'text', 'object'])
            arg = json.loads(json.dumps(js)) if form == 'dict' else json.dumps(js) if form == 'text' else \
                transactions.from_json(json.loads(json.dumps(js)))
            what = '%s signs a v%d transaction of %d inputs assembled by hand (%s, submit=%r)' % (q.name, js['version'], len(ins), form, allow)
            res, exc, pushes = self.call(q, what, home, lambda: self.sign(q, arg, submit=allow))
            js = res.transaction.json()
            if strip(js) != strip(before):
                raise OracleFail({'C06', 'C09', 'C01'}, '%s: signing changed the transaction' % what)
            if pairs_of(before) - pairs_of(js):
                raise OracleFail({'C06'}, '%s: signatures were lost' % what)
            got = [sorted(ref.pubkey_address(pk) for n, pk, _ in pairs_of(js) if n == k) for k in range(len(ins))]
            if got != [sorted(x) for x in want] or bool(res.signed) != (missing > 0):
                raise OracleFail(home | {'C31'}, '%s: signed=%r, signed by %r, expected %r' % (what, res.signed, got, want))
            # a wallet that does not know all spent outputs cannot tell whether all is signed (nobody can expect it to submit)
            self.judge_push(what, q, res.transaction, res.submitted, pushes,
                            None if complete and allow and not (known and missing) else complete and allow, home)
            self.ctx.key('manual', js['version'], len(ins), len({a for x in want for a in x}), missing, known, complete, allow, form)
            if res.submitted:
                self.ctx.count('manual_completed')
                return res
            if complete and known:
                return res
        return None

    def op_swap_create(self, p, submit=None):
        import tfchain.errors as E
        from tfchain.types.CryptoTypes import UnlockHash
        r, c = self.rng, self.chain
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        while refund_c is not None and refund_c['type'] == 0:
            refund, refund_c = self.refund_arg(p, src)
        if refund_c is None:
            refund_c = cond_uh(p.primary)
        sender = refund_c['data']['unlockhash'] if refund_c['type'] == 1 else p.primary
        people = [a for q in self.parties for a in self.own0(q)] + self.foreign
        rc = r.choice(people)
        amount = self.pick_amount(personal, ms, self.fee)
        if r.random() < .25:
            amount = r.choice([self.fee - 1, self.fee, self.fee + 1, 1])
        submit = r.random() < .8 if submit is None else submit
        darg, data = self.data()
        initiate = r.random() < .5
        k = r.randrange(4)
        if k == 0:
            targ, tval = None, c.time + (48 if initiate else 24) * 3600
        elif k == 1:
            h = r.randrange(1, 100)
            targ, tval = '+%dh' % h, c.time + h * 3600
        elif k == 2:
            dd, m = r.randrange(1, 30), r.randrange(1, 60)
            targ, tval = '+%dd%dm' % (dd, m), c.time + dd * 86400 + m * 60
        else:
            tval = targ = c.time + r.randrange(1, r.choice([10 ** 6] * 6 + [2 ** 33, 2 ** 40]))
        secret = c.rand(32)
        hashed = hashlib.sha256(secret).digest()
        kw = dict(source=src, refund=refund, data=darg, submit=submit)
        if targ is not None:
            kw['refund_time'] = targ
        rarg = UnlockHash.from_json(rc) if r.random() < .3 else rc
        if initiate:
            def run():
                return p.wallet.atomicswap.initiate(rarg, self.amount(amount), **kw)
        else:
            harg = hashed.hex() if r.random() < .5 else hashed

            def run():
                return p.wallet.atomicswap.participate(rarg, self.amount(amount), harg, **kw)
        what = 'swap %s of %s with %s until %s from %s' % ('initiate' if initiate else 'participate', tft(amount), rc, targ, src)
        home = {'C16'}
        if amount <= self.fee:
            expect = E.AtomicSwapInsufficientAmountError
        else:
            ok = self.feasible(amount + self.fee, personal, ms)
            expect = 'ok' if ok else (None if ok is None else E.InsufficientFunds)
        res, exc, pushes = self.call(p, what, home, run, expect, {'C03'} if amount > self.fee else ())
        if exc is not None:
            self.ctx.count('swaps_refused')
            return None
        self.ctx.count('swaps_created')
        js = res.transaction.json()
        if initiate:
            if bytes(res.secret.value) and len(res.secret.value) == 32:
                secret = bytes(res.secret.value)
                hashed = hashlib.sha256(secret).digest()
            else:
                raise OracleFail({'C18', 'C16'}, '%s: secret %r' % (what, res.secret))
        cond = cond_swap(sender, rc, hashed.hex(), tval)
        self.judge_tx(what, js, [(cond, amount)], refund_c, self.fee, personal, ms, data=data, home=home)
        must = self.signers(js, p) and submit
        self.judge_push(what, p, res.transaction, res.submitted, pushes, must, home)
        k = res.contract
        got = (grains(k.amount), str(k.sender), str(k.receiver), bytes(k.secret_hash.value).hex(), k.refund_timestamp, k.unspent)
        want = (amount, sender, rc, hashed.hex(), tval, True)
        if got != want:
            raise OracleFail(home, '%s: contract is %r, expected %r' % (what, got, want))
        if res.submitted:
            o = c.outs.get(str(k.outputid))
            if o is None or canon(o.condition) != canon(cond) or o.value != amount:
                raise OracleFail({'C16', 'C08'}, '%s: contract identifier %s is not the one of the network' % (what, k.outputid))
            self.swaps.append({'id': o.id, 'secret': secret, 'out': o})
        self.ctx.key('swap', initiate, k is not None, submit, res.submitted, len(ref.coin_inputs(js)), type(src).__name__,
                     refund_c['type'])
        self.ctx.sample({'op': what, 'contract': got})
        return res

    def pick_swap(self, p):
        r = self.rng
        if not self.swaps or r.random() < .35:
            own = self.own0(p)
            return self.swap_history(sender=r.choice(own) if r.random() < .5 else None,
                                     receiver=r.choice(own) if r.random() < .5 else None)
        return r.choice(self.swaps)

    def op_swap_claim(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        own = set(p.own())
        s = self.pick_swap(p)
        o = s['out']
        k = o.condition['data']
        refund = r.random() < .5
        unknown = r.random() < .07
        oid = c.rand(32).hex() if unknown else s['id']
        right = r.random() < .8
        secret = s['secret'] if right else r.choice([c.rand(32), bytes(31) + b'\1', bytes.fromhex(k['hashedsecret'])])
        darg, data = self.data()
        if refund and r.random() < .4 and o.spender is None and c.time < k['timelock'] < c.time + 10 ** 6:
            # move the chain to a boundary of the refund time
            c.mine(dt=max(1, k['timelock'] - c.time + r.choice([-1, 0, 1])))
        expect = 'ok'
        if unknown:
            expect = E.AtomicSwapContractNotFound
        elif o.spender is not None:
            expect = E.AtomicSwapContractSpent
        elif refund:
            if c.time < k['timelock'] or k['sender'] not in own:
                expect = E.AtomicSwapForbidden
        elif secret != s['secret']:
            expect = E.AtomicSwapInvalidSecret
        elif k['receiver'] not in own:
            expect = E.AtomicSwapForbidden
        sarg = r.choice([secret, secret.hex(), bytearray(secret)])
        if r.random() < .2:
            from tfchain.types.ConditionTypes import AtomicSwapSecret
            sarg = AtomicSwapSecret(value=secret)

        def run():
            if refund:
                return p.wallet.atomicswap.refund(oid, data=darg)
            return p.wallet.atomicswap.redeem(oid, sarg, data=darg)
        what = '%s of contract %s (refund time %+d, spent %r)' % ('refund' if refund else 'redeem', oid,
                                                                   k['timelock'] - c.time, o.spender is not None)
        home = {'C17'}
        res, exc, pushes = self.call(p, what, home, run, expect)
        self.ctx.key('claim', refund, str(expect), c.is_confirmed(o), k['sender'] in own, k['receiver'] in own,
                     (k['timelock'] > c.time) - (k['timelock'] < c.time), bool(data))
        if exc is not None:
            self.ctx.count('claims_refused')
            return None
        self.ctx.count('claims_ok')
        if len(pushes) != 1:
            raise OracleFail({'C17', 'C06'}, '%s: pushed %d times' % (what, len(pushes)))
        js = pushes[0]
        to = k['sender'] if refund else k['receiver']
        if [i['parentid'] for i in ref.coin_inputs(js)] != [oid]:
            raise OracleFail(home | {'C02'}, '%s: inputs are %r' % (what, ref.coin_inputs(js)))
        self.judge_tx(what, js, [(cond_uh(to), o.value - self.fee)], None, self.fee, None, set(), data=data, home=home)
        f = ref.coin_inputs(js)[0]['fulfillment']['data']
        if refund and any(bytes.fromhex(f.get('secret') or '')):
            raise OracleFail(home, '%s: the refund reveals a secret' % what)
        if not refund and f.get('secret') != s['secret'].hex():
            raise OracleFail(home, '%s: the claim carries secret %r' % (what, f.get('secret')))
        if plain(res.json()) != plain(js) or str(res.id) != c.accepted[-1]:
            raise OracleFail(home | {'C06'}, '%s: the returned transaction is not the pushed one' % what)
        self.ctx.sample({'op': what, 'pushed': js})
        return res

    def op_swap_verify(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        own = set(p.own())
        s = self.pick_swap(p)
        o = s['out']
        k = o.condition['data']
        unknown = r.random() < .06
        oid = c.rand(32).hex() if unknown else s['id']
        kw, ok = {}, True
        if r.random() < .5:
            v = o.value + r.choice([0, 0, 0, 1, -1, GRAIN])
            kw['amount'] = self.amount(v)
            ok &= v == o.value
        if r.random() < .5:
            h = k['hashedsecret'] if r.random() < .7 else c.rand(32).hex()
            kw['secret_hash'] = bytes.fromhex(h) if r.random() < .5 else h
            ok &= h == k['hashedsecret']
        if r.random() < .6:
            m = r.choice([k['timelock'], k['timelock'] - 1, k['timelock'] + 1, c.time, c.time + 1, c.time - 5,
                          k['timelock'] + r.randrange(-10 ** 5, 10 ** 5)])
            m = max(m, 1)
            kw['min_refund_time'] = m
            if r.random() < .3 and m > c.time:
                kw['min_refund_time'] = '+%ds' % (m - c.time)
            left = max(0, k['timelock'] - c.time)
            want = max(0, m - c.time)
            ok &= left == 0 if want == 0 else left >= want
        if r.random() < .4:
            kw['sender'] = True
            ok &= k['sender'] in own
        if r.random() < .4:
            kw['receiver'] = True
            ok &= k['receiver'] in own
        offline = r.random() < .15 and not unknown and o.spender is None
        if offline:
            from tfchain.types.AtomicSwap import AtomicSwapContract
            from tfchain.types.IO import CoinOutput
            from tfchain.types.PrimitiveTypes import Currency
            kw['contract'] = AtomicSwapContract(
                coinoutput=CoinOutput(value=Currency(value=tft(o.value)), condition=self.as_condition(o.condition), id=s['id']))
            if r.random() < .25:        # the contract of another output
                i = r.randrange(64)
                oid = r.choice([c.rand(32).hex(), oid[:i] + '0123456789abcdef'[int(oid[i], 16) ^ r.randrange(1, 16)] + oid[i + 1:]])
                ok = False
                self.ctx.count('other_contract')
        expect = 'ok' if ok else E.AtomicSwapContractInvalid
        if unknown:
            expect = E.AtomicSwapContractNotFound
        elif o.spender is not None:
            expect = E.AtomicSwapContractSpent
        what = 'verify of contract %s with %s (refund time %+d)' % (
            oid, {a: b for a, b in kw.items() if a != 'contract'}, k['timelock'] - c.time)
        home = {'C16'}
        res, exc, pushes = self.call(p, what, home, lambda: p.wallet.atomicswap.verify(oid, **kw), expect)
        if pushes:
            raise OracleFail(home, '%s: pushed something' % what)
        self.ctx.count('verifications')
        self.ctx.key('verify', sorted(kw), str(expect), (k['timelock'] > c.time) - (k['timelock'] < c.time))
        if exc is None:
            got = (str(res.outputid), grains(res.amount), str(res.sender), str(res.receiver),
                   bytes(res.secret_hash.value).hex(), res.refund_timestamp, res.unspent)
            want = (s['id'], o.value, k['sender'], k['receiver'], k['hashedsecret'], k['timelock'], True)
            if got != want:
                raise OracleFail(home, '%s: contract is %r, expected %r' % (what, got, want))
            self.ctx.count('verified_ok')
        return res

    # -------------------------------------------------------------- 3Bot
    def bot_names(self, lo, hi):
        return [self.name() for _ in range(self.rng.randrange(lo, hi + 1))]

    def bot_result(self, p, what, res, pushes, fee, refund_c, personal, ms, home):
        js = res.transaction.json()
        self.judge_tx(what, js, [], refund_c, self.fee, personal, ms, extra=fee, home=home)
        must = None if ms else self.signers(js, p)
        self.judge_push(what, p, res.transaction, res.submitted, pushes, must, home)
        if not res.submitted and not (personal and ms):
            self.pending.append({'js': js, 'p': p, 'what': what, 'home': home})
        return js

    def op_bot_new(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        refund_c = refund_c or cond_uh(p.primary)
        bad = r.random() < .3
        months = r.choice([1, 1, 2, 11, 12, 13, 23, 24]) if not bad else r.choice([0, -1, 25, 1, 1, 1])
        names = self.bot_names(0, 5 if not bad else 7)
        addrs = [self.netaddr() for _ in range(r.choice([0, 1, 2, 10]) if not bad else r.choice([0, 1, 11]))]
        own = p.own()
        kw = {}
        if r.random() < (.3 if len(own) < 5 else .7):
            kw['key_index'] = r.choice([0, len(own) - 1, len(own) - 1] + ([-1, len(own)] if bad else []))
        valid = 1 <= months <= 24 and len(names) <= 5 and len(addrs) <= 10 and (names or addrs)
        key_ok = 'key_index' not in kw or 0 <= kw['key_index'] < len(own)
        fee = (90 * GRAIN + ref.month_fee(months) + max(0, len(names) - 1) * 50 * GRAIN) if valid else 0
        ok = self.feasible(self.fee + fee, personal, ms)
        taken = 'key_index' in kw and key_ok and any(b['publickey'] in [self.pk(p, i) for i in range(len(own) + 3)]
                                                     for b in c.bots.values())
        if not valid:
            expect = Exception
        elif not key_ok:
            expect = (ValueError, E.InsufficientFunds)
        else:
            expect = 'ok' if ok else (None if ok is None else E.InsufficientFunds)
        if taken:
            return None         # the key is in use already: the network decides

        def run():
            return p.wallet.threebot.record_new(months=months, names=names or r.choice([None, []]),
                                                addresses=addrs or r.choice([None, []]), source=src, refund=refund, **kw)
        what = '3Bot registration for %d months with %d names and %d addresses from %s %r' % (
            months, len(names), len(addrs), src, kw)
        home = {'C20'}
        res, exc, pushes = self.call(p, what, home, run, expect, {'C03'} if expect is E.InsufficientFunds else ())
        self.ctx.key('botnew', months, len(names), len(addrs), exc is None, bool(ms), sorted(kw))
        if exc is not None:
            self.ctx.count('bots_refused')
            return None
        self.ctx.count('bots_registered')
        js = self.bot_result(p, what, res, pushes, fee, refund_c, personal, ms, home)
        d = js['data']
        if (d['nrofmonths'], sorted(ref.lst(d, 'names')), sorted(ref.lst(d, 'addresses'))) != (
                months, sorted(names), sorted(addrs)):
            raise OracleFail(home, '%s: registers %r' % (what, d))
        pk = d['identification']['publickey']
        a = ref.pubkey_address(pk)
        if a not in p.own() or ('key_index' in kw and a != own[kw['key_index']]) or \
                ('key_index' not in kw and a in own):
            raise OracleFail(home | {'C15'}, '%s: registers key of %s' % (what, a))
        if not ref.verify(pk, d['identification']['signature'], ref.sighash(js, b'sender')):
            raise OracleFail(home | {'C05'}, '%s: identification signature does not verify' % what)
        self.ctx.sample({'op': what, 'pushed': js})
        return res

    def bot_id(self, b):
        from tfchain.types.CryptoTypes import PublicKey
        return b['id']

    def op_bot_update(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        refund_c = refund_c or cond_uh(p.primary)
        unknown = r.random() < .06
        own_b = [b for b in c.bots.values() if b['publickey'] in [self.pk(p, i) for i in range(p.key_count)]]
        b = r.choice(own_b) if own_b and r.random() < .6 else self.bot_new(p)
        bid = max(c.bots) + 5 if unknown else b['id']
        bad = r.random() < .25
        months = r.choice([0, 0, 0, 1, 11, 12, 13, 24]) if not bad else r.choice([25, 30, 0, 0, 1])
        hi = 7 if bad else 5
        kw = {}
        if r.random() < .5:
            kw['names_to_add'] = self.bot_names(0, hi)
        if r.random() < .4 and b['names']:
            kw['names_to_remove'] = r.sample(b['names'], r.randrange(0, len(b['names']) + 1))
        if r.random() < .4:
            kw['addresses_to_add'] = [self.netaddr() for _ in range(r.choice([0, 1, 3]) if not bad else r.choice([1, 11]))]
        if r.random() < .4 and b['addresses']:
            kw['addresses_to_remove'] = r.sample(b['addresses'], r.randrange(0, len(b['addresses']) + 1))
        na, nr = kw.get('names_to_add') or [], kw.get('names_to_remove') or []
        aa, ar = kw.get('addresses_to_add') or [], kw.get('addresses_to_remove') or []
        empty = not (months or na or nr or aa or ar)
        valid = 0 <= months <= 24 and len(na) <= 5 and len(nr) <= 5 and len(aa) <= 10 and len(ar) <= 10 and not empty
        inactive = b['expiration'] <= c.time and months == 0
        fee = (ref.month_fee(months) if months else 0) + 50 * GRAIN * len(na) + (20 * GRAIN if aa or ar else 0) if valid else 0
        ok = self.feasible(self.fee + fee, personal, ms)
        if not valid:
            expect = Exception
        elif unknown:
            expect = E.ThreeBotNotFound
        elif inactive:
            expect = E.ThreeBotInactive
        else:
            expect = 'ok' if ok else (None if ok is None else E.InsufficientFunds)
        what = '3Bot update of %r for %d months %r (expires %+d) from %s' % (
            bid, months, {x: len(y) for x, y in kw.items()}, b['expiration'] - c.time, src)
        home = {'C20'}
        res, exc, pushes = self.call(p, what, home, lambda: p.wallet.threebot.record_update(
            bid, months=months, source=src, refund=refund, **kw), expect, {'C03'} if expect is E.InsufficientFunds else ())
        self.ctx.key('botupd', months, {x: len(y) for x, y in kw.items()}, exc is None, inactive, bool(ms))
        if exc is not None:
            self.ctx.count('bots_refused')
            return None
        self.ctx.count('bots_updated')
        js = self.bot_result(p, what, res, pushes, fee, refund_c, personal, ms, home)
        d = js['data']
        n, a = d.get('names') or {}, d.get('addresses') or {}
        got = (d['id'], d.get('nrofmonths') or 0, sorted(ref.lst(n, 'add')), sorted(ref.lst(n, 'remove')),
               sorted(ref.lst(a, 'add')), sorted(ref.lst(a, 'remove')))
        if got != (b['id'], months, sorted(na), sorted(nr), sorted(aa), sorted(ar)):
            raise OracleFail(home, '%s: updates %r' % (what, d))
        if not ref.verify(b['publickey'], d['signature'], ref.sighash(js, b'sender')):
            raise OracleFail(home | {'C05'}, '%s: record signature does not verify' % what)
        return res

    def op_bot_transfer(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        refund_c = refund_c or cond_uh(p.primary)
        exp = lambda: r.choice([10 ** 6, 10 ** 6, 10 ** 6, 1, 0, -1])
        s = self.bot_new(p, exp(), names=sorted(self.name() for _ in range(r.choice([1, 2, 5, 6]))))
        q = p if r.random() < .7 else r.choice(self.parties + [None])
        d = self.bot_new(q, exp())
        if s['publickey'] == d['publickey']:        # the network knows no two 3Bots with one key
            if q.key_count == 1:
                q = None
                d['publickey'] = self.pk()
            else:
                d['publickey'] = [k for k in (self.pk(q, i) for i in range(q.key_count)) if k != s['publickey']][0]
        unknown = r.choice([None] * 12 + ['sender', 'receiver'])
        names = r.sample(s['names'], r.choice([0, 1, 1, min(2, len(s['names'])), len(s['names'])]))
        fee = 50 * GRAIN * len(names)
        ok = self.feasible(self.fee + fee, personal, ms)
        inactive = s['expiration'] <= c.time or d['expiration'] <= c.time
        missing = max(c.bots) + 9
        if not 1 <= len(names) <= 5:
            expect = Exception
        elif unknown or inactive:
            expect = (E.ThreeBotNotFound,) if unknown and not inactive else (
                (E.ThreeBotInactive,) if not unknown else (E.ThreeBotNotFound, E.ThreeBotInactive))
        else:
            expect = 'ok' if ok else (None if ok is None else E.InsufficientFunds)
        sid = missing if unknown == 'sender' else s['id']
        did = missing if unknown == 'receiver' else d['id']
        what = '3Bot transfer of %d names from %r (expires %+d) to %r (expires %+d) paid from %s' % (
            len(names), sid, s['expiration'] - c.time, did, d['expiration'] - c.time, src)
        home = {'C20'}
        res, exc, pushes = self.call(p, what, home, lambda: p.wallet.threebot.name_transfer(
            sid, did, names, source=src, refund=refund), expect, {'C03'} if expect is E.InsufficientFunds else ())
        self.ctx.key('botxfer', len(names), exc is None, inactive, unknown, q is p, bool(ms))
        if exc is not None:
            self.ctx.count('bots_refused')
            return None
        self.ctx.count('bots_transferred')
        js = res.transaction.json()
        self.judge_tx(what, js, [], refund_c, self.fee, personal, ms, extra=fee, home=home)
        own_keys = {self.pk(p, i) for i in range(len(p.own()) + 3)}
        must = None if ms else self.signers(js, p) and d['publickey'] in own_keys
        self.judge_push(what, p, res.transaction, res.submitted, pushes, must, home)
        x = js['data']
        if (x['sender']['id'], x['receiver']['id'], sorted(x['names'])) != (s['id'], d['id'], sorted(names)):
            raise OracleFail(home, '%s: transfers %r' % (what, x))
        if not ref.verify(s['publickey'], x['sender']['signature'], ref.sighash(js, b'sender')):
            raise OracleFail(home | {'C05'}, '%s: sender signature does not verify' % what)
        if not pushes and not ms and q is not p and q is not None:
            # the other 3Bot's owner completes it
            c.count('transfer_pending')
        return res

    # -------------------------------------------------------------- ERC20
    def op_erc20_send(self, p):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        src, personal, ms = self.source(p)
        refund, refund_c = self.refund_arg(p, src)
        refund_c = refund_c or cond_uh(p.primary)
        addr = c.rand(20).hex()
        if r.random() < .2:
            addr = '01' + addr[2:]
        amount = self.pick_amount(personal, ms, self.fee)
        arg = r.choice(['0x' + addr, '0x' + addr, '0x' + addr.upper().replace('0X', '0x')])
        ok = self.feasible(amount + self.fee, personal, ms)
        via = r.random() < .5
        extra = {}
        bad = via and r.random() < .15
        if bad:
            extra = r.choice([{'lock': c.height + 5}, {'data': b'x'}])

        def run():
            if via:
                return p.wallet.coins_send(arg, self.amount(amount), source=src, refund=refund, **extra)
            return p.wallet.erc20.coins_send(arg, self.amount(amount), source=src, refund=refund)
        what = 'ERC20 conversion of %s for %s from %s %r' % (tft(amount), arg, src, extra)
        home = {'C22'}
        expect = ValueError if bad else ('ok' if ok else (None if ok is None else E.InsufficientFunds))
        res, exc, pushes = self.call(p, what, home, run, expect, {'C03'} if expect is E.InsufficientFunds else ())
        self.ctx.key('erc20send', via, exc is None, bad, bool(ms), type(src).__name__)
        if exc is not None:
            self.ctx.count('erc20_refused')
            return None
        self.ctx.count('erc20_conversions')
        js = res.transaction.json()
        self.judge_tx(what, js, [], refund_c, self.fee, personal, ms, extra=amount, home=home)
        self.judge_push(what, p, res.transaction, res.submitted, pushes, self.signers(js, p), home)
        d = js['data']
        if js['version'] != 208 or ref.erc20_bin(d['address']).hex() != addr.lower() or ref.cur(d['value']) != amount:
            raise OracleFail(home, '%s: converts %r' % (what, d))
        if not res.submitted and not (personal and ms):
            self.pending.append({'js': js, 'p': p, 'what': what, 'home': home})
        self.ctx.sample({'op': what, 'pushed': js})
        return res

    def op_erc20_register(self, p):
        import tfchain.errors as E
        from tfchain.types.CryptoTypes import UnlockHash
        r, c = self.rng, self.chain
        src, personal, ms = (None, set(p.own()), set())
        kw = {}
        if r.random() < .5:
            src, personal, ms = self.source(p)
            refund, refund_c = self.refund_arg(p, src)
            kw = {'source': src, 'refund': refund}
        else:
            refund_c = cond_uh(p.primary)
        refund_c = refund_c or cond_uh(p.primary)
        own = p.own()
        k = r.randrange(7)
        expect = None
        if k == 0:
            value, a = None, None
        elif k == 1:
            i = r.randrange(len(own))
            value, a = i, own[i]
        elif k in (2, 3):
            a = r.choice(own)
            value = a if k == 2 else UnlockHash.from_json(a)
        elif k == 4:
            a = value = r.choice(self.foreign)
            value = UnlockHash.from_json(a) if r.random() < .5 else a
            expect = E.ERC20RegistrationForbidden
        elif k == 5:
            value = r.choice([-1, len(own), len(own) + 3])
            a, expect = None, ValueError
        else:
            a = r.choice(own)
            value = a
        if expect is None:
            ok = self.feasible(self.fee + ref.ERC20_REG, personal, ms)
            expect = 'ok' if ok else (None if ok is None else E.InsufficientFunds)
        what = 'ERC20 registration of %r from %s' % (str(value), src)
        home = {'C22'}
        res, exc, pushes = self.call(p, what, home, lambda: p.wallet.erc20.address_register(value, **kw)
                                     if value is not None or r.random() < .5 else p.wallet.erc20.address_register(**kw),
                                     expect, {'C03'} if expect is E.InsufficientFunds else ())
        self.ctx.key('erc20reg', k, exc is None, bool(ms))
        if exc is not None:
            self.ctx.count('erc20_refused')
            return None
        self.ctx.count('erc20_registrations')
        js = res.transaction.json()
        self.judge_tx(what, js, [], refund_c, self.fee, personal, ms, extra=ref.ERC20_REG, home=home)
        self.judge_push(what, p, res.transaction, res.submitted, pushes, self.signers(js, p), home)
        d = js['data']
        got = ref.pubkey_address(d['pubkey'])
        if ref.cur(d['regfee']) != ref.ERC20_REG or (a is not None and got != a) or (a is None and got in own) or \
                got not in p.own():
            raise OracleFail(home | {'C15'} if a is None else home, '%s: registers %r' % (what, d))
        from tfchain.types.ERC20 import ERC20Address
        derived = str(ERC20Address.from_unlockhash(UnlockHash.from_json(got)))
        if not ref.verify(d['pubkey'], d['signature'], ref.sighash(js, b'registration')):
            raise OracleFail(home | {'C05'}, '%s: registration signature does not verify' % what)
        if ref.erc20_bin(derived) != ref.erc20_bin(ref.erc20_of_address(got)):
            raise OracleFail(home, '%s: derives %s for %s' % (what, derived, got))
        if 'erc20address' in d and ref.erc20_bin(d['erc20address']) != ref.erc20_bin(ref.erc20_of_address(got)):
            raise OracleFail(home, '%s: pushes ERC20 address %s for %s' % (what, d['erc20address'], got))
        if 'tftaddress' in d and d['tftaddress'] != got:
            raise OracleFail(home, '%s: pushes address %s for %s' % (what, d['tftaddress'], got))
        if not res.submitted and not (personal and ms):
            self.pending.append({'js': js, 'p': p, 'what': what, 'home': home})
        return res

    # -------------------------------------------------------------- drain
    def op_drain(self, p):
        from tfchain.types.PrimitiveTypes import Currency
        r, c = self.rng, self.chain
        own = p.own()
        b = p.wallet.balance
        unconfirmed = r.random() < .5
        targets = [(b, set(own))]
        for a, w in b.wallets.items():
            targets.append((w, {a}))
        bal, addrs = r.choice(targets)
        arg, rc = self.recipient(p)
        lock = None
        if rc['type'] != 3 and r.random() < .3:
            lock = self.lock_value() or 1
            rc = cond_lock(lock, rc)
        darg, data = self.data()
        fee = self.fee * r.choice([1, 1, 1, 2])
        what = 'drain of %s (%s)' % (sorted(addrs)[0][:10], 'with unconfirmed' if unconfirmed else 'confirmed')
        home = {'C32'}
        kw = {}
        if unconfirmed or r.random() < .5:
            kw['unconfirmed'] = unconfirmed
        if darg is not None:
            kw['data'] = darg
        if lock is not None:
            kw['lock'] = lock
        res, exc, pushes = self.call(p, what, home, lambda: bal.drain(arg, Currency(value=tft(fee)), **kw))
        if pushes:
            raise OracleFail(home | {'C06'}, '%s: pushed something' % what)
        outs = [o for o in c.unspent(addrs) if c.unlocked(o) and (unconfirmed or c.is_confirmed(o))]
        self.judge_drain(what, p, res, outs, rc, fee, data)
        # sign and submit
        if bal is b:
            for t in res:
                rr, exc, pushes = self.call(p, what + ': signing', home, lambda: self.sign(p, t))
                self.judge_push(what, p, rr.transaction, rr.submitted, pushes, True, home)
                self.ctx.count('drained_txs')
        self.ctx.key('drain', unconfirmed, len(outs), len(res), bal is b, bool(data), bool(lock))
        self.ctx.sample({'op': what, 'outputs': len(outs), 'transactions': len(res)})
        return res

    def judge_drain(self, what, p, txs, outs, rc, fee, data):
        home = {'C32'}
        c = self.chain
        seen = []
        self.ctx.count('drains')
        for t in txs:
            js = t.json()
            ids = self.judge_tx(what, js, [(rc, sum(c.outs[i['parentid']].value for i in ref.coin_inputs(js)
                                                    if i['parentid'] in c.outs) - fee)],
                                None, fee, {o.address for o in outs}, set(), data=data, home=home)
            seen += ids
        if len(set(seen)) != len(seen):
            raise OracleFail(home | {'C02'}, '%s: an output is drained twice' % what)
        want = {o.id: o for o in outs}
        extra = [i for i in seen if i not in want]
        if extra:
            raise OracleFail(home | {'C02'}, '%s: drains %r which is not available' % (what, extra))
        rest = [o for i, o in want.items() if i not in set(seen)]
        # outputs left behind must not be worth draining: together they cannot pay the fee of their own transactions
        left = sorted((o.value for o in rest), reverse=True)
        if sum(left) > fee * -(-len(left) // MAXIN):
            raise OracleFail(home, '%s: leaves outputs worth %d behind' % (what, sum(left)))
        if rest and len(outs) <= MAXIN and sum(o.value for o in outs) > fee:
            raise OracleFail(home, '%s: leaves %d of %d outputs behind' % (what, len(rest), len(outs)))

    # -------------------------------------------------------------- minting
    def set_mint(self, cond):
        self.chain.mint.append((self.chain.height, cond))

    def op_mint(self, p, kind=None):
        import tfchain.errors as E
        r, c = self.rng, self.chain
        own = p.own()
        cond = c.active_mint()
        if cond is None or r.random() < .25:
            people = [a for q in self.parties for a in self.own0(q)]
            k = r.randrange(3)
            if k == 0:
                cond = cond_uh(r.choice(own))
            else:
                owners = r.sample(people, r.randrange(1, min(4, len(people)) + 1))
                cond = cond_ms(owners, r.randrange(1, len(owners) + 1))
            c.mine()
            self.set_mint(cond)
        if ref.is_locked(ref.cond_lock(cond), c.height, c.time):
            return None
        cond = ref.cond_unwrap(cond)
        darg, data = self.data()
        coins = r.random() < .6 if kind is None else kind == 'coins'
        home = {'C28'}
        manual = r.random() < .25
        arg, rc = self.recipient(p)
        if coins:
            lock = None
            if rc['type'] != 3 and r.random() < .3:
                lock = self.lock_value() or 1
                rc = cond_lock(lock, rc)
            amount = self.value()
            what = 'mint %s coins' % tft(amount)
            res, exc, pushes = self.call(p, what, home, (lambda: self.mint_manual(p, [(rc, amount)], None, data)) if manual else (
                lambda: p.wallet.minter.coins_new(arg, self.amount(amount), lock=lock, data=darg)))
        else:
            t = ref.cond_unwrap(rc).get('type', 0)
            expect = 'ok' if t in (1, 4) else Exception
            manual = manual and expect == 'ok'
            what = 'mint definition of type %d' % rc['type']
            res, exc, pushes = self.call(p, what, home, (lambda: self.mint_manual(p, None, rc, data)) if manual else (
                lambda: p.wallet.minter.definition_set(arg, data=darg)), expect)
            if exc is not None:
                return None
        js = res.transaction.json()
        d = js['data']
        if coins:
            if [(canon(o['condition']), ref.cur(o['value'])) for o in ref.lst(d, 'coinoutputs')] != [(canon(rc), amount)]:
                raise OracleFail(home, '%s: mints %r' % (what, d.get('coinoutputs')))
        elif canon(d['mintcondition']) != canon(rc):
            raise OracleFail(home, '%s: defines %r' % (what, d['mintcondition']))
        if js['version'] != (129 if coins else 128):
            raise OracleFail(home, '%s: version %r' % (what, js['version']))
        if [ref.cur(x) for x in ref.lst(d, 'minerfees')] != [self.fee]:
            raise OracleFail(home | {'C01'}, '%s: miner fees %r' % (what, d.get('minerfees')))
        if ref.data_of(js) != data:
            raise OracleFail({'C30'} | home, '%s: data %r became %r' % (what, data, ref.data_of(js)))
        nonce = base64.b64decode(d['nonce'])
        if len(nonce) != 8 or nonce in [x for x in self.__dict__.setdefault('nonces', [])]:
            raise OracleFail(home, '%s: nonce %r' % (what, nonce))
        self.nonces.append(nonce)
        self.ctx.count('mintings')
        done = self.judge_mint(what, p, js, res.transaction, res.submitted, pushes, cond, None)
        self.ctx.key('mint', coins, canon(cond)[:2], len((cond.get('data') or {}).get('unlockhashes') or []), done)
        self.ctx.sample({'op': what, 'tx': js})
        if done:
            return res
        order = [q for q in self.parties]
        r.shuffle(order)
        for q in order:
            allow = r.random() < .8
            before = json.loads(json.dumps(js))
            arg2 = js if r.random() < .5 else json.dumps(js)
            rr, exc, pushes = self.call(q, what + ': co-signing by ' + q.name, home, lambda: q.wallet.transaction_sign(
                json.loads(json.dumps(arg2)) if not isinstance(arg2, str) else arg2, submit=allow))
            js = rr.transaction.json()
            if strip_mint(js) != strip_mint(before):
                raise OracleFail(home | {'C06', 'C09'}, '%s: co-signing changed the transaction' % what)
            if not mint_pairs(before) <= mint_pairs(js):
                raise OracleFail(home | {'C06'}, '%s: co-signing lost signatures' % what)
            done = self.judge_mint(what, q, js, rr.transaction, rr.submitted, pushes, cond, allow, before)
            if done or self.mint_complete(js, cond):
                return res
        return res

    def mint_manual(self, p, outs, cond, data):
        """a minting transaction assembled by hand, without any fulfillment, signed by a wallet"""
        from tfchain.types import transactions, ConditionTypes
        t = transactions.mint_coin_creation_new() if cond is None else transactions.mint_definition_new()
        t.miner_fee_add(self.amount(self.fee))
        if cond is None:
            for x, v in outs:
                t.coin_output_add(value=self.amount(v), condition=ConditionTypes.from_json(x))
        else:
            t.mint_condition = ConditionTypes.from_json(cond)
        if data:
            t.data = data
        self.ctx.count('mint_manual')
        return p.wallet.transaction_sign(t)

    def mint_complete(self, js, cond):
        if cond['type'] == 1:
            return bool(mint_pairs(js))
        return len(mint_pairs(js)) >= cond['data']['minimumsignaturecount']

    def judge_mint(self, what, p, js, txn, submitted, pushes, cond, allow, before=None):
        home = {'C28'}
        own = set(p.own())
        people = {cond['data']['unlockhash']} if cond['type'] == 1 else set(cond['data']['unlockhashes'])
        have = {ref.pubkey_address(x) for x, _ in mint_pairs(js)}
        had = {ref.pubkey_address(x) for x, _ in mint_pairs(before)} if before else set()
        if have != had | (people & own):
            raise OracleFail(home | {'C06', 'C31'}, '%s: signed by %r, expected %r' % (what, sorted(have), sorted(had | (people & own))))
        f = js['data'].get('mintfulfillment') or {}
        bad = []
        if have:
            cc = copy.deepcopy(cond)
            if cond['type'] == 4:
                cc['data']['minimumsignaturecount'] = len(have)
            self.chain.judge_fulfillment(js, f, cc, [], 'mint fulfillment', lambda a, m: bad.append(m))
        if bad:
            raise OracleFail(home | {'C05'}, '%s: %s' % (what, bad[0]))
        complete = self.mint_complete(js, cond)
        must = complete and allow is not False and bool(have - had)
        if len(pushes) > 1 or bool(submitted) != bool(pushes) or bool(pushes) != must:
            raise OracleFail(home | {'C06'}, '%s: pushed %d times, reported %r, expected %r' % (what, len(pushes), submitted, must))
        if pushes and plain(pushes[0]) != plain(js):
            raise OracleFail(home | {'C06'}, '%s: the returned transaction is not the pushed one' % what)
        self.ctx.count('mint_judged')
        return bool(pushes)

    # -------------------------------------------------------------- lists
    def op_list(self, p):
        own = p.own()
        p.explorer.budget = 5000
        l = p.wallet.transactions
        self.check_list('%s.transactions' % p.name, l, set(own))
        return l

    def check_list(self, what, l, addresses, tags=('C26',)):
        c = self.chain
        want = {t.id: t for t in c.txs.values() if t.addresses & addresses}
        got = [str(t.id) for t in l]
        self.ctx.count('lists')
        self.ctx.count('listed_txs', len(got))
        if len(set(got)) != len(got):
            raise OracleFail(tags, '%s: a transaction is listed twice' % what)
        if set(got) != set(want):
            raise OracleFail(tags, '%s: lists %d transactions, the chain has %d' % (what, len(got), len(want)))
        last = None
        for t in l:
            m = want[str(t.id)]
            h = float('inf') if m.height is None else m.height
            if last is not None and h > last:
                raise OracleFail(tags, '%s: transaction %s of height %r comes after height %r' % (what, m.id, m.height, last))
            last = h
            if bool(t.unconfirmed) != (m.height is None) or (m.height is not None and t.height != m.height):
                raise OracleFail(tags, '%s: transaction %s at height %r unconfirmed=%r, chain says %r' % (
                    what, m.id, t.height, t.unconfirmed, m.height))
            d = tx_diff(t, m, c)
            if d:
                raise OracleFail(set(tags) | {'C25'}, '%s: %s' % (what, d))
        return l

    # ------------------------------------------------------------ driving
    OPS = {'send': 10, 'cosign': 4, 'manual': 3, 'swap': 3, 'claim': 3, 'verify': 2, 'botnew': 2, 'botupd': 2, 'botxfer': 1, 'erc20send': 2,
           'erc20reg': 1, 'drain': 1, 'mint': 1, 'list': 1, 'balance': 4, 'history': 6, 'mine': 5}

    def step(self, op):
        r = self.rng
        p = r.choice(self.parties)
        if op == 'send':
            self.op_send(p)
        elif op == 'cosign':
            self.op_cosign()
        elif op == 'manual':
            self.op_manual()
        elif op == 'swap':
            self.op_swap_create(p)
        elif op == 'claim':
            self.op_swap_claim(p)
        elif op == 'verify':
            self.op_swap_verify(p)
        elif op == 'botnew':
            self.op_bot_new(p)
        elif op == 'botupd':
            self.op_bot_update(p)
        elif op == 'botxfer':
            self.op_bot_transfer(p)
        elif op == 'erc20send':
            self.op_erc20_send(p)
        elif op == 'erc20reg':
            self.op_erc20_register(p)
        elif op == 'drain':
            self.op_drain(p)
        elif op == 'mint':
            self.op_mint(p)
        elif op == 'list':
            self.op_list(p)
        elif op == 'balance':
            self.check_balance(p)
        elif op == 'history':
            self.history()
        elif op == 'mine':
            if r.random() < .12:
                self.chain.reorg(r.choice([1, 1, 2, 4]))
            if r.random() < .9:
                self.chain.mine(dt=r.choice([1, 30, 120, 1000]), blocks=r.choice([1, 1, 3]))
        else:
            raise AssertionError(op)

    def run(self, steps, weights=None):
        w = weights or self.OPS
        ops = sorted(w)
        for _ in range(steps):
            self.step(self.rng.choices(ops, [w[o] for o in ops])[0])


# ------------------------------------------------------------------ helpers
def grains(c):
    """a library amount as an integer number of the smallest unit, through its public JSON form"""
    return int(c.json())


def plain(js):
    """JSON form with empty and absent parts made equal"""
    js = json.loads(json.dumps(js))

    def walk(x):
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items() if v not in (None, [], {}, '', 0)}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(js)


def strip(js):
    """a transaction without its fulfillments"""
    js = plain(js)
    for i in js['data'].get('coininputs', []):
        i.pop('fulfillment', None)
    for k in ('signature',):
        js['data'].pop(k, None)
    return js


def pairs_of(js):
    r = set()
    for n, i in enumerate(ref.coin_inputs(js)):
        d = i['fulfillment'].get('data') or {}
        for p in d.get('pairs') or ([d] if d.get('signature') else []):
            r.add((n, p['publickey'], p['signature']))
    return r


def strip_mint(js):
    js = plain(js)
    js['data'].pop('mintfulfillment', None)
    return js


def mint_pairs(js):
    f = js['data'].get('mintfulfillment') or {}
    d = f.get('data') or {}
    return {(p['publickey'], p['signature']) for p in d.get('pairs') or ([d] if d.get('signature') else [])}


def tx_diff(t, m, c):
    """difference between a library transaction read from the explorer and the model's"""
    from .props.c09 import canonical, norm
    if m.js['version'] != 0:
        a, b = norm(t.json()), canonical(m.js)
        if a != b:
            return 'transaction %s reads as %s, the chain has %s' % (m.id, json.dumps(a)[:700], json.dumps(b)[:700])
    if [str(o.id) for o in t.coin_outputs] != m.coin_ids or [str(o.id) for o in t.blockstake_outputs] != m.bs_ids:
        return 'transaction %s has output identifiers %r' % (m.id, [str(o.id) for o in t.coin_outputs])
    if m.js['version'] == 0:
        for ol, ml in ((t.coin_outputs, [c.outs[i] for i in m.coin_ids]), (t.blockstake_outputs, [c.bs_outs[i] for i in m.bs_ids])):
            for o, x in zip(ol, ml):
                if (grains(o.value) if x.kind == 'coin' else int(o.value)) != x.value or str(o.condition.unlockhash) != x.address:
                    return 'transaction %s: output %s reads as %s' % (m.id, x.id, o.json())
        if [grains(f) for f in t.miner_fees] != [ref.cur(f) for f in ref.lst(m.js['data'], 'minerfees')]:
            return 'transaction %s has miner fees %r' % (m.id, t.miner_fees)
        if bytes(t.data.value) != ref.data_of(m.js):
            return 'transaction %s has data %r' % (m.id, t.data)
    if len(t.coin_inputs) != len(m.parents) or len(t.blockstake_inputs) != len(m.bs_parents):
        return 'transaction %s has %d inputs' % (m.id, len(t.coin_inputs))
    for ins, ps in ((t.coin_inputs, m.parents), (t.blockstake_inputs, m.bs_parents)):
        for i, o in zip(ins, ps):
            po = i.parent_output
            if str(i.parentid) != o.id or po is None or str(po.id) != o.id or canon(po.condition.json()) != canon(o.condition) or \
                    (grains(po.value) if o.kind == 'coin' else int(po.value)) != o.value:
                return 'transaction %s: parent of input %s is %s' % (m.id, o.id, po.json() if po else None)
    return None


def drive(ctx, world, fn):
    """run fn; oracle failures become violations of this property or make the case foreign"""
    from .run import Violation, Foreign
    try:
        fn()
    except OracleFail as e:
        if ctx.prop in e.tags:
            raise Violation('%s  [%s]' % (e, ','.join(sorted(e.tags)))) from e
        raise Foreign('%s  [%s]' % (e, ','.join(sorted(e.tags)))) from e
    for k, v in world.chain.counters.items():
        ctx.count('node_' + k, v)
