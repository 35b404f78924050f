"""A model of the TFChain network: ledger, transaction pool, full node validation and explorer answers.

Works on JSON documents only and uses nothing of the library (except its error types, to answer like the
library's own explorer client does).  Every rule a pushed transaction breaks is recorded as an event
(category, message); a transaction that breaks a rule is refused, like a full node would.
"""
import base64
import copy
import hashlib
import json
import random

from . import ref

CATS = ('format', 'inputs', 'signature', 'value', 'limits', 'bot', 'erc20', 'mint')


class Out:
    __slots__ = ('id', 'value', 'condition', 'creator', 'spender', 'address', 'lock', 'kind')

    def __init__(self, id, value, condition, creator, kind='coin'):
        self.id, self.value, self.condition, self.creator, self.kind = id, value, condition, creator, kind
        self.spender = None
        self.address = ref.cond_address(condition)
        self.lock = ref.cond_lock(condition)


class Tx:
    __slots__ = ('id', 'js', 'height', 'coin_ids', 'bs_ids', 'parents', 'bs_parents', 'addresses', 'serial')

    @property
    def confirmed(self):
        return self.height is not None


def norm(js):
    """the form in which a node stores a transaction: an atomic swap claim always has a secret"""
    js = copy.deepcopy(js)
    for i in ref.coin_inputs(js):
        f = i.get('fulfillment') or {}
        if f.get('type') == 2 and not f['data'].get('secret'):
            f['data']['secret'] = '00' * 32
    return js


class Chain:
    def __init__(self, rng, network='devnet', height=None, time=None):
        self.rng = rng
        self.network = network
        if height is None:
            x = rng.random()
            height = rng.randrange(3, 100000) if x < .85 else rng.randrange(100000, 1 << 24) if x < .95 else rng.randrange(1 << 24, 400000000)
        self.height = height
        self.time = rng.randrange(1550000000, 1600000000) if time is None else time
        self.base = self.height
        self.blocks = {}
        self.order = []
        self.txs = {}
        self.outs = {}
        self.bs_outs = {}
        self.pool = []
        self.mint = []          # (height, condition)
        self.bots = {}          # id -> record dict
        self.erc20 = {}         # tft address -> (erc20 address, confirmations)
        self.events = []
        self.pushed = []        # JSON of every push that arrived (accepted or not)
        self.accepted = []      # ids
        self.counters = {}
        self.founding = False   # what is confirmed now becomes part of the genesis block
        self._serial = 0
        self._mk_block([], [])

    # ------------------------------------------------------------ building
    def rand(self, n):
        return self.rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

    def _mk_block(self, txs, payouts):
        b = {'id': ref.blake(self.rand(16)).hex(), 'height': self.height, 'time': self.time, 'txs': [t.id for t in txs],
             'parent': self.blocks[self.height - 1]['id'] if self.height - 1 in self.blocks else self.rand(32).hex(),
             'payouts': payouts}
        self.blocks[self.height] = b
        self.order.append(b)
        return b

    @property
    def tip(self):
        return self.blocks[self.height]

    def mine(self, dt=None, blocks=1, pick=None, payouts=None):
        """put the pool (or the picked part) in the next block"""
        for n in range(blocks):
            self.height += 1
            # the time of a block may lie before that of its parent
            self.time += dt if dt is not None else self.rng.randrange(1, 240) if self.rng.random() < .93 else -self.rng.randrange(30)
            txs = []
            if n == 0:
                ids = list(self.pool) if pick is None else [i for i in self.pool if pick(self.txs[i])]
                if pick is not None and len(ids) < len(self.pool):
                    ids = self.with_ancestors(ids)
                self.pool = [i for i in self.pool if i not in ids]
                for i in ids:
                    t = self.txs[i]
                    t.height = self.height
                    self._apply(t)
                    txs.append(t)
            self._mk_block(txs, (payouts or []) if n == 0 else [])
        return self.tip

    def with_ancestors(self, ids):
        """these transactions of the pool, after all others of it that they depend on"""
        todo, want = list(ids), set()
        while todo:
            t = self.txs[todo.pop()]
            if t.id not in want and t.height is None:
                want.add(t.id)
                todo += [o.creator for o in t.parents + t.bs_parents]
        return [i for i in self.pool if i in want]

    def reorg(self, depth):
        """the last blocks are replaced by others; plain transactions of theirs may have to wait again"""
        depth = min(depth, self.height - self.base)
        last = [self.blocks[h] for h in range(self.height - depth + 1, self.height + 1)]
        ids = [i for b in last for i in b['txs']]
        back = self.rng.random() < .7 and all(self.txs[i].js['version'] in (0, 1) for i in ids)
        for b in last:
            b['id'] = ref.blake(self.rand(16)).hex()
            b['parent'] = self.blocks[b['height'] - 1]['id']
            b['time'] += self.rng.randrange(-20, 60)
            b['payouts'] = [(self.rand(32).hex(), v + self.rng.randrange(3), a) for _, v, a in b['payouts']][self.rng.randrange(2):]
            if back:
                for i in b['txs']:
                    self.txs[i].height = None
                b['txs'] = []
            self.time = b['time']
        if back:
            self.pool = ids + self.pool
        self.count('reorganisations', bool(last))
        self.count('unconfirmed_again', len(ids) if back else 0)

    def genesis(self, t):
        """a transaction of the pool turns out to be part of block 0"""
        self.pool.remove(t.id)
        t.height = 0
        if 0 not in self.blocks:
            self.blocks[0] = {'id': ref.blake(self.rand(16)).hex(), 'height': 0, 'time': 1500000000, 'txs': [], 'parent': '0' * 64, 'payouts': []}
            self.order.insert(0, self.blocks[0])
        self.blocks[0]['txs'].append(t.id)

    def _apply(self, t):
        v, d = t.js['version'], t.js['data']
        if v == 128:
            self.mint.append((self.height, d['mintcondition']))
        elif v == 144:
            i = max(self.bots, default=0) + 1
            self.bots[i] = {'id': i, 'names': sorted(ref.lst(d, 'names')), 'addresses': list(ref.lst(d, 'addresses')),
                            'publickey': d['identification']['publickey'],
                            'expiration': self.time + d['nrofmonths'] * 30 * 24 * 3600}
        elif v == 145:
            b = self.bots[d['id']]
            n, a = d.get('names') or {}, d.get('addresses') or {}
            b['names'] = sorted((set(b['names']) - set(ref.lst(n, 'remove'))) | set(ref.lst(n, 'add')))
            b['addresses'] = [x for x in b['addresses'] if x not in ref.lst(a, 'remove')] + list(ref.lst(a, 'add'))
            m = d.get('nrofmonths') or 0
            if m:
                b['expiration'] = max(b['expiration'], self.time) + m * 30 * 24 * 3600
        elif v == 146:
            s, r = self.bots[d['sender']['id']], self.bots[d['receiver']['id']]
            s['names'] = [x for x in s['names'] if x not in d['names']]
            r['names'] = sorted(set(r['names']) | set(d['names']))
        elif v == 210:
            a = ref.pubkey_address(d['pubkey'])
            self.erc20[a] = (ref.erc20_of_address(a), 0)

    def insert(self, js, confirmed=False, force_id=None):
        """add a transaction without any validation (history that already exists)"""
        js = norm(js)
        t = Tx()
        self._serial += 1
        t.serial = self._serial
        t.js = js
        t.id = force_id or ref.tx_id(js)
        if t.id in self.txs:
            raise ValueError('duplicate transaction')
        t.height = None
        t.coin_ids, t.bs_ids = [], []
        t.parents = [self.outs[i['parentid']] for i in ref.coin_inputs(js)]
        t.bs_parents = [self.bs_outs[i['parentid']] for i in ref.lst(js['data'], 'blockstakeinputs')]
        for o in t.parents + t.bs_parents:
            o.spender = t.id
        t.addresses = set(o.address for o in t.parents + t.bs_parents)
        for n, o in enumerate(ref.coin_outputs(js)):
            cid = ref.coin_output_id(js, n)
            c = o.get('condition') if js['version'] else {'type': 1, 'data': {'unlockhash': o['unlockhash']}}
            self.outs[cid] = Out(cid, ref.cur(o['value']), c or {}, t.id)
            t.coin_ids.append(cid)
            t.addresses.add(self.outs[cid].address)
        for n, o in enumerate(ref.bs_outputs(js)):
            cid = ref.bs_output_id(js, n)
            c = o.get('condition') if js['version'] else {'type': 1, 'data': {'unlockhash': o['unlockhash']}}
            self.bs_outs[cid] = Out(cid, ref.cur(o['value']), c or {}, t.id, kind='bs')
            t.bs_ids.append(cid)
            t.addresses.add(self.bs_outs[cid].address)
        if js['version'] == 128:
            t.addresses.add(ref.cond_address(js['data'].get('mintcondition')))
        self.txs[t.id] = t
        self.pool.append(t.id)
        if confirmed and self.founding:
            self.genesis(t)
        elif confirmed:
            self.mine(pick=lambda x: x.id == t.id)
        return t

    def grant(self, outs, confirmed=True, kind=None):
        """create coins out of nowhere: outs = [(condition, value)]; returns the transaction"""
        kind = kind or 'v1'
        if kind == 'v209' and len(outs) == 1 and outs[0][0].get('type') == 1:
            js = {'version': 209, 'data': {'address': outs[0][0]['data']['unlockhash'], 'value': str(outs[0][1]),
                                           'txfee': str(ref.GRAIN), 'blockid': '0x' + self.rand(32).hex(),
                                           'txid': '0x' + self.rand(32).hex()}}
        elif kind == 'v129':
            js = {'version': 129, 'data': {
                'nonce': base64.b64encode(self.rand(8)).decode(),
                'mintfulfillment': {'type': 1, 'data': {'publickey': 'ed25519:' + self.rand(32).hex(),
                                                        'signature': self.rand(64).hex()}},
                'coinoutputs': [{'value': str(v), 'condition': c} for c, v in outs], 'minerfees': [str(ref.GRAIN)]}}
        else:
            js = {'version': 1, 'data': {'coinoutputs': [{'value': str(v), 'condition': c} for c, v in outs],
                                         'minerfees': [str(ref.GRAIN)],
                                         'arbitrarydata': base64.b64encode(self.rand(12)).decode()}}
        return self.insert(js, confirmed=confirmed)

    def spend_foreign(self, out_ids, outs, confirmed=False, extra=None):
        """history: somebody (the owner, elsewhere) spent these outputs"""
        ins = []
        for o in out_ids:
            c = ref.cond_unwrap(self.outs[o].condition)
            sig = {'publickey': 'ed25519:' + self.rand(32).hex(), 'signature': self.rand(64).hex()}
            if c.get('type', 0) == 4:
                f = {'type': 3, 'data': {'pairs': [sig]}}
            elif c.get('type', 0) == 2:
                f = {'type': 2, 'data': dict(sig, secret=self.rand(32).hex())}
            else:
                f = {'type': 1, 'data': sig}
            ins.append({'parentid': o, 'fulfillment': f})
        js = {'version': 1, 'data': {'coininputs': ins, 'coinoutputs': [{'value': str(v), 'condition': c} for c, v in outs],
                                     'minerfees': [str(ref.GRAIN)],
                                     'arbitrarydata': base64.b64encode(self.rand(12)).decode()}}
        if extra:
            js['data'].update(extra)
        return self.insert(js, confirmed=confirmed)

    # ------------------------------------------------------------ ledger queries (the oracle)
    def unlocked(self, o):
        return not ref.is_locked(o.lock, self.height, self.time)

    def is_confirmed(self, o):
        return self.txs[o.creator].confirmed

    def unspent(self, addresses, confirmed=None, unlocked=None):
        r = []
        for o in self.outs.values():
            if o.address in addresses and o.spender is None:
                if confirmed is not None and self.is_confirmed(o) != confirmed:
                    continue
                if unlocked is not None and self.unlocked(o) != unlocked:
                    continue
                r.append(o)
        return r

    def active_mint(self, height=None):
        h = self.height if height is None else height
        c = None
        for hh, cc in self.mint:
            if hh <= h:
                c = cc
        return c

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    # ------------------------------------------------------------ validation
    def check_input_signature(self, tx, i, f, cond, bad):
        """judges one fulfillment of a coin input"""
        if cond.get('type', 0) == 3:
            if ref.is_locked(cond['data']['locktime'], self.height, self.time):
                bad('inputs', 'input %d spends a locked output (lock %d)' % (i, cond['data']['locktime']))
            cond = ref.cond_unwrap(cond)
        t = cond.get('type', 0)
        self.judge_fulfillment(tx, f, cond, [ref.extra_index(i)], 'input %d' % i, bad)

    def judge_fulfillment(self, tx, f, cond, extras, what, bad, single_extra=True):
        t = cond.get('type', 0)
        d = f.get('data') or {}
        if t in (0, 1):
            if f.get('type') != 1:
                return bad('signature', '%s: fulfillment type %r for condition type %d' % (what, f.get('type'), t))
            addr = ref.cond_address(cond)
            self.count('sig_single')
            if addr != ref.NIL and ref.pubkey_address(d['publickey']) != addr:
                bad('signature', '%s: signed with a key of %s, owner is %s' % (what, ref.pubkey_address(d['publickey']), addr))
            elif not ref.verify(d['publickey'], d['signature'], ref.sighash(tx, *extras)):
                bad('signature', '%s: signature does not verify' % what)
        elif t == 2:
            if f.get('type') != 2:
                return bad('signature', '%s: fulfillment type %r for an atomic swap' % (what, f.get('type')))
            secret = bytes.fromhex(d.get('secret') or '')
            redeem = any(secret)
            self.count('sig_swap')
            c = cond['data']
            owner = c['receiver'] if redeem else c['sender']
            if redeem and hashlib.sha256(secret).hexdigest() != c['hashedsecret'].lower():
                bad('signature', '%s: wrong secret' % what)
            if not redeem and self.time < c['timelock']:
                bad('inputs', '%s: refunded before the refund time' % what)
            if ref.pubkey_address(d['publickey']) != owner:
                bad('signature', '%s: swap claimed with a foreign key' % what)
            x = list(extras) + [ref.extra_pubkey(tx, d['publickey'])] + ([secret] if redeem else [])
            if not ref.verify(d['publickey'], d['signature'], ref.sighash(tx, *x)):
                bad('signature', '%s: swap signature does not verify' % what)
        elif t == 4:
            if f.get('type') != 3:
                return bad('signature', '%s: fulfillment type %r for a multi-signature condition' % (what, f.get('type')))
            owners = list(cond['data']['unlockhashes'])
            need = cond['data']['minimumsignaturecount']
            pairs = d.get('pairs') or []
            seen = set()
            for p in pairs:
                self.count('sig_multi')
                a = ref.pubkey_address(p['publickey'])
                if a not in owners:
                    bad('signature', '%s: pair of a non-owner %s' % (what, a))
                if a in seen:
                    bad('signature', '%s: owner %s signed twice' % (what, a))
                seen.add(a)
                if not ref.verify(p['publickey'], p['signature'],
                                  ref.sighash(tx, *(list(extras) + [ref.extra_pubkey(tx, p['publickey'])]))):
                    bad('signature', '%s: a multi-signature pair does not verify' % what)
            if len(seen) < need:
                bad('signature', '%s: %d of %d required signatures' % (what, len(seen), need))
        else:
            bad('signature', '%s: condition type %r' % (what, t))

    def validate(self, tx):
        """list of (category, message) of the rules this transaction breaks"""
        ev = []

        def bad(c, m):
            ev.append((c, m))
        v, d = tx.get('version'), tx.get('data')
        if v not in (1, 128, 129, 144, 145, 146, 208, 210) or not isinstance(d, dict):
            return [('format', 'version %r is not accepted' % (v,))]
        minfee = ref.MINER_FEE[self.network]
        fees = sum(ref.cur(x) for x in ref.lst(d, 'minerfees')) if v in (1, 128, 129) else ref.cur(d.get('txfee'))
        if fees < minfee:
            bad('value', 'miner fee %d below the minimum %d' % (fees, minfee))
        outs = ref.coin_outputs(tx)
        for n, o in enumerate(outs):
            if ref.cur(o.get('value')) <= 0:
                bad('value', 'coin output %d has value %r' % (n, o.get('value')))
        if len(ref.data_of(tx)) > 83:
            bad('limits', 'arbitrary data of %d bytes' % len(ref.data_of(tx)))
        if v in (1, 144, 145, 146, 208, 210):
            ins = ref.coin_inputs(tx)
            if not ins:
                bad('inputs', 'no coin inputs')
            if len(ins) > 99:
                bad('inputs', '%d coin inputs' % len(ins))
            ids = [i['parentid'] for i in ins]
            if len(set(ids)) != len(ids):
                bad('inputs', 'an output is spent twice in one transaction')
            total = 0
            for n, i in enumerate(ins):
                self.count('inputs')
                o = self.outs.get(i['parentid'])
                if o is None:
                    bad('inputs', 'input %d spends unknown output %s' % (n, i['parentid']))
                    continue
                total += o.value
                if o.spender is not None:
                    bad('inputs', 'input %d spends an output already spent by %s' % (n, o.spender))
                self.check_input_signature(tx, n, i['fulfillment'], o.condition, bad)
            spent = sum(ref.cur(o['value']) for o in outs) + fees
            if v in (144, 145, 146):
                spent += ref.bot_fee(tx)
            elif v == 208:
                if ref.cur(d['value']) <= 0:
                    bad('value', 'conversion of nothing')
                spent += ref.cur(d['value'])
            elif v == 210:
                if ref.cur(d['regfee']) != ref.ERC20_REG:
                    bad('value', 'registration fee %s' % d['regfee'])
                spent += ref.cur(d['regfee'])
            if total != spent and all(self.outs.get(i) for i in ids):
                bad('value', 'spends %d but creates and pays %d' % (total, spent))
        if v in (128, 129):
            cond = self.active_mint()
            n = base64.b64decode(d.get('nonce') or '')
            if len(n) != 8:
                bad('mint', 'nonce of %d bytes' % len(n))
            if v == 129 and not outs:
                bad('mint', 'mints nothing')
            if v == 128 and ref.cond_unwrap(d.get('mintcondition')).get('type', 0) not in (1, 4):
                bad('mint', 'mint condition of an invalid type')
            if cond is None:
                bad('mint', 'no mint condition is active')
            else:
                self.judge_mint(tx, cond, bad)
        if v == 144:
            if not 1 <= d.get('nrofmonths', 0) <= 24:
                bad('bot', '%r months' % d.get('nrofmonths'))
            a, n = ref.lst(d, 'addresses'), ref.lst(d, 'names')
            if not a and not n:
                bad('bot', 'registration without name and address')
            if len(a) > 10 or len(n) > 5 or len(set(a)) != len(a) or len(set(n)) != len(n):
                bad('bot', '%d addresses and %d names' % (len(a), len(n)))
            i = d['identification']
            self.count('sig_bot')
            if not ref.verify(i['publickey'], i['signature'], ref.sighash(tx, b'sender')):
                bad('signature', 'registration signature does not verify')
            if any(b['publickey'] == i['publickey'] for b in self.bots.values()):
                bad('bot', 'public key already used by a 3Bot')
        if v == 145:
            b = self.bots.get(d['id'])
            if b is None:
                bad('bot', 'unknown 3Bot %r' % d['id'])
            else:
                self.count('sig_bot')
                if not ref.verify(b['publickey'], d['signature'], ref.sighash(tx, b'sender')):
                    bad('signature', 'update signature does not verify')
                m = d.get('nrofmonths') or 0
                if not 0 <= m <= 24:
                    bad('bot', '%r months' % m)
                if b['expiration'] <= self.time and not m:
                    bad('bot', 'update of an expired 3Bot')
                n, a = d.get('names') or {}, d.get('addresses') or {}
                if not (m or ref.lst(n, 'add') or ref.lst(n, 'remove') or ref.lst(a, 'add') or ref.lst(a, 'remove')):
                    bad('bot', 'empty update')
                if max(len(ref.lst(n, 'add')), len(ref.lst(n, 'remove'))) > 5 or \
                        max(len(ref.lst(a, 'add')), len(ref.lst(a, 'remove'))) > 10:
                    bad('bot', 'too many names or addresses')
        if v == 146:
            for who in ('sender', 'receiver'):
                b = self.bots.get(d[who]['id'])
                if b is None:
                    bad('bot', 'unknown %s 3Bot %r' % (who, d[who]['id']))
                    continue
                self.count('sig_bot')
                if not ref.verify(b['publickey'], d[who]['signature'], ref.sighash(tx, who.encode())):
                    bad('signature', '%s signature does not verify' % who)
                if b['expiration'] <= self.time:
                    bad('bot', '%s 3Bot is expired' % who)
            if not 1 <= len(ref.lst(d, 'names')) <= 5:
                bad('bot', '%d names transferred' % len(ref.lst(d, 'names')))
        if v == 210:
            self.count('sig_erc20')
            if not ref.verify(d['pubkey'], d['signature'], ref.sighash(tx, b'registration')):
                bad('signature', 'ERC20 registration signature does not verify')
        return ev

    def judge_mint(self, tx, cond, bad):
        f = tx['data'].get('mintfulfillment') or {}
        c = ref.cond_unwrap(cond)
        self.judge_fulfillment(tx, f, c, [], 'mint fulfillment', bad)

    # ------------------------------------------------------------ explorer answers
    def submit(self, js):
        """what the transaction pool does with a push. Returns the id, or None when refused."""
        self.pushed.append(copy.deepcopy(js))
        try:
            ev = self.validate(js)
        except Exception as e:      # malformed beyond what the model reads
            ev = [('format', 'unreadable transaction: %s: %s' % (type(e).__name__, e))]
        self.events.extend(ev)
        if ev:
            return None
        t = self.insert(js)
        self.accepted.append(t.id)
        return t.id

    def etxn(self, t):
        def conv(o):
            return {'value': str(o.value), 'condition': o.condition, 'unlockhash': o.address}
        r = {'id': t.id, 'height': t.height or 0, 'parent': self.blocks[t.height]['id'] if t.height is not None else '0' * 64,
             'rawtransaction': t.js, 'coininputoutputs': [conv(o) for o in t.parents] or None,
             'coinoutputids': list(t.coin_ids) or None, 'blockstakeinputoutputs': [conv(o) for o in t.bs_parents] or None,
             'blockstakeoutputids': list(t.bs_ids) or None}
        if t.height is None:
            r['unconfirmed'] = True
        elif self.rng.random() < .5:
            r['unconfirmed'] = False
        return r

    def eblock(self, b):
        return {'blockid': b['id'], 'height': b['height'], 'minerpayoutids': [p[0] for p in b['payouts']] or None,
                'transactions': [self.etxn(self.txs[i]) for i in b['txs']] or None,
                'rawblock': {'parentid': b['parent'], 'timestamp': b['time'],
                             'minerpayouts': [{'value': str(p[1]), 'unlockhash': p[2]} for p in b['payouts']]}}

    def multisig_of(self, address):
        r = []
        for o in list(self.outs.values()):
            c = ref.cond_unwrap(o.condition)
            if c.get('type', 0) == 4 and address in c['data']['unlockhashes'] and o.address not in r:
                r.append(o.address)
        for h, c in self.mint:
            c = ref.cond_unwrap(c)
            if c.get('type', 0) == 4 and address in c['data']['unlockhashes'] and ref.cond_address(c) not in r:
                r.append(ref.cond_address(c))
        return r

    def txs_of(self, address):
        return [t for t in self.txs.values() if address in t.addresses]

    def answer(self, endpoint):
        """JSON document, or None for no content"""
        p = [x for x in endpoint.split('/') if x]
        self.count('get')
        if p == ['explorer']:
            return {'blockid': self.tip['id'], 'height': self.height}
        if p == ['explorer', 'constants']:
            return {'chaininfo': {'NetworkName': self.network}}
        if p[:2] == ['explorer', 'blocks']:
            b = self.blocks.get(int(p[2]))
            return {'block': self.eblock(b)} if b else None
        if p[:2] == ['explorer', 'mintcondition']:
            c = self.active_mint(int(p[2]) if len(p) > 2 else None)
            return {'mintcondition': c} if c is not None else None
        if p[:2] == ['explorer', '3bot']:
            for b in self.bots.values():
                if p[2] == str(b['id']) or p[2] == b['publickey']:
                    return {'record': dict(b)}
            return None
        if p[:3] == ['explorer', 'whois', '3bot']:
            for b in self.bots.values():
                if p[3] in b['names']:
                    return {'record': dict(b)}
            return None
        if p[:2] == ['explorer', 'hashes']:
            return self.answer_hash(p[2])
        raise AssertionError('unknown endpoint ' + endpoint)

    def answer_hash(self, h):
        if len(h) == 78:
            txs = self.txs_of(h)
            ms = self.multisig_of(h)
            if not txs and not ms and h not in self.erc20:
                return None
            txs = [self.etxn(t) for t in txs]
            self.rng.shuffle(txs)
            r = {'hashtype': 'unlockhash', 'block': None, 'blocks': None, 'transactions': txs or None, 'multisigaddresses': ms or None}
            if h in self.erc20:
                r['erc20info'] = {'tftaddress': h, 'erc20address': self.erc20[h][0], 'confirmations': self.erc20[h][1]}
            return r
        for b in self.blocks.values():
            if b['id'] == h:
                return {'hashtype': 'blockid', 'block': self.eblock(b)}
        if h in self.txs:
            return {'hashtype': 'transactionid', 'transaction': self.etxn(self.txs[h])}
        for kind, table in (('coinoutputid', self.outs), ('blockstakeoutputid', self.bs_outs)):
            if h in table:
                o = table[h]
                txs = [self.etxn(self.txs[o.creator])]
                if o.spender is not None:
                    txs.append(self.etxn(self.txs[o.spender]))
                self.rng.shuffle(txs)
                return {'hashtype': kind, 'transactions': txs}
        return None


def make_explorer(chain):
    """an explorer client of the library, answered by the model"""
    import tfchain.errors as E
    from tfchain.TFChainExplorerClient import TFChainExplorerClient

    class Explorer(TFChainExplorerClient):
        def __init__(self):
            super().__init__(addresses=['http://model.invalid'])
            self.requests = []
            self.budget = 5000      # logical bound on the requests of one operation (reset by the harness)
            self.fault = None       # callable(n, kind, endpoint) -> None | Exception | ('drop', exc): push processed, answer lost
            self.mutate = None      # callable(endpoint, doc) -> bytes | doc

        def get(self, endpoint):
            n = len(self.requests)
            self.requests.append(('GET', endpoint))
            self.budget -= 1
            if self.budget < 0:
                raise RuntimeError('the library does not stop sending requests')
            if self.fault:
                f = self.fault(n, 'GET', endpoint)
                if isinstance(f, bytes):
                    return f
                if f is not None:
                    raise f
            doc = chain.answer(endpoint)
            if doc is None:
                raise E.ExplorerNoContent('GET: no content available for specified hash (code: 400)', endpoint)
            if self.mutate:
                doc = self.mutate(endpoint, copy.deepcopy(doc))
                if isinstance(doc, Exception):
                    raise doc
                if isinstance(doc, bytes):
                    return doc
            return json.dumps(doc).encode() + b'\n'

        def post(self, endpoint, data):
            n = len(self.requests)
            self.requests.append(('POST', endpoint))
            if endpoint != '/transactionpool/transactions':
                raise AssertionError('push to ' + endpoint)
            lost = None
            if self.fault:
                f = self.fault(n, 'POST', endpoint)
                if isinstance(f, tuple):
                    lost = f[1]
                elif f is not None:
                    raise f
            if isinstance(data, dict):
                data = json.dumps(data)
            if isinstance(data, str):
                data = data.encode('utf-8')
            js = json.loads(data.decode('utf-8'))
            i = chain.submit(js)
            if lost is not None:
                raise lost
            if i is None:
                raise E.ExplorerServerPostError('POST: error (code: 400): rejected', endpoint, data=data)
            doc = {'transactionid': i}
            if self.mutate:
                doc = self.mutate('POST', doc)
                if isinstance(doc, bytes):
                    return doc
            return json.dumps(doc).encode() + b'\n'
    return Explorer()


def make_client(chain, network=True):
    from tfchain.TFChainClient import TFChainClient
    x = make_explorer(chain)
    c = TFChainClient(explorer_client=x, network_type=chain.network if network else None)
    return c, x
