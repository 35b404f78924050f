"""A signature request is fulfilled at most once, by its own key only."""
import copy
import json

from .. import ref
from ..gen import Gen, lib, unsigned
from .c09 import canonical, norm, partly
from .common import histories

RULE = ('Random transactions of every version, unsigned or partly signed, with all or only some of the spent outputs and records known; '
        'the list of requests is compared with a model of the missing signatures (address and reference hash of each), then '
        'requests are fulfilled in random order, again and with foreign keys, with JSON exchanges in between. Plus histories of '
        'wallets that co-sign. distinct = distinct (version, kind of request, event).')
REQUIRED = ['manual_completed', 'lists_compared', 'requests_listed', 'fulfilled', 'second_refused', 'twin_refused', 'foreign_refused', 'anyone', 'exchanged', 'partial_knowledge',
            'completed', 'zero_secret', 'wrong_type', 'cosign_steps', 'mint_judged', 'stale_lists', 'no_signature', 'multi', 'swap', 'single', 'extra']
ASSUMPTIONS = ['the reference hashes follow the protocol (validated against 91 recorded network signatures)']
W = {'send': 10, 'cosign': 14, 'manual': 8, 'swap': 2, 'claim': 3, 'botnew': 3, 'botupd': 3, 'botxfer': 5, 'erc20reg': 3, 'mint': 6, 'drain': 1,
     'history': 3, 'mine': 2}
NIL = '0' * 78


class Slot:
    """a place in a document where a signature goes"""

    def __init__(self, kind, get, address, extras, pk=False):
        self.kind, self.get, self.address, self.extras, self.pk = kind, get, address, extras, pk

    def hash(self, js, pk):
        return ref.sighash(js, *self.extras(js, pk)).hex()


def slots(js, known):
    """the signatures that are missing; known: (coin parents, stake parents, mint condition, record keys)"""
    out = []

    def ful(get, cond, pre):
        f, c = get(js), ref.cond_unwrap(cond)
        t, d = c.get('type', 0), f['data']
        if t == 2:
            if d['signature']:
                return
            secret = d.get('secret') or ''
            if set(secret) <= {'0'}:
                secret = ''
            a = c['data']['receiver'] if secret else c['data']['sender']
            out.append(Slot('redeem' if secret else 'refund', get, a, lambda js, pk: pre + [ref.extra_pubkey(js, pk)] +
                            ([bytes.fromhex(secret)] if secret else [])))
        elif t == 4:
            seen = {ref.pubkey_address(p['publickey']) for p in d['pairs'] if p['signature']}
            for a in c['data']['unlockhashes']:
                if a not in seen:
                    seen.add(a)
                    out.append(Slot('multi', get, a, lambda js, pk: pre + [ref.extra_pubkey(js, pk)]))
        else:
            a = NIL if t == 0 else c['data']['unlockhash']
            if d['signature'] and (a == NIL or ref.pubkey_address(d['publickey']) == a):
                return
            out.append(Slot('single', get, a, lambda js, pk: pre))
    cps, bps, mint, keys = known
    v, d = js['version'], js['data']
    for k, ps in (('coininputs', cps), ('blockstakeinputs', bps)):
        for i, _ in enumerate(ref.lst(d, k)):
            if ps[i] is not None:
                ful(lambda js, k=k, i=i: js['data'][k][i]['fulfillment'], ps[i]['condition'], [ref.extra_index(i)])
    if v in (128, 129):
        if mint is not None:
            ful(lambda js: js['data']['mintfulfillment'], mint, [])
    x = {144: [('sender', lambda js: js['data']['identification'], b'sender')],
         145: [('sender', lambda js: js['data'], b'sender')],
         146: [('sender', lambda js: js['data']['sender'], b'sender'), ('receiver', lambda js: js['data']['receiver'], b'receiver')],
         210: [('registration', lambda js: js['data'], b'registration')]}.get(v, [])
    for n, (label, get, spec) in enumerate(x):
        if not get(js).get('signature') and keys[n] is not None:
            out.append(Slot(label, get, ref.pubkey_address(keys[n]), lambda js, pk, spec=spec: [spec]))
    return out


def put(js, slot, pk, sig):
    """the model's view of a signature that was accepted"""
    f = slot.get(js)
    if slot.kind == 'multi':
        for p in f['data'].get('pairs') or []:
            if p['publickey'] == pk and not p['signature']:
                p['signature'] = sig
                return
        f['data']['pairs'] = (f['data'].get('pairs') or []) + [{'publickey': pk, 'signature': sig}]
    elif slot.kind in ('single', 'redeem', 'refund'):
        f['data'].update(publickey=pk, signature=sig)
    else:
        f['signature'] = sig


def complete(js, known):
    cps, bps, mint, keys = known
    v, d = js['version'], js['data']

    def done(f, cond):
        c, d = ref.cond_unwrap(cond), f['data']
        if c.get('type', 0) == 4:
            signed = {ref.pubkey_address(p['publickey']) for p in d['pairs'] or [] if p['signature']}
            return len(signed & set(c['data']['unlockhashes'])) >= c['data']['minimumsignaturecount']
        if c.get('type', 0) == 1 and d['signature']:
            return ref.pubkey_address(d['publickey']) == c['data']['unlockhash']
        return bool(d['signature'])
    for k, ps in (('coininputs', cps), ('blockstakeinputs', bps)):
        for i, ci in enumerate(ref.lst(d, k)):
            if ps[i] is None or not done(ci['fulfillment'], ps[i]['condition']):
                return False
    if v in (128, 129):
        return mint is not None and done(d['mintfulfillment'], mint)
    if v == 144:
        return bool(d['identification']['signature'])
    if v in (145, 210):
        return bool(d['signature'])
    if v == 146:
        return bool(d['sender']['signature'] and d['receiver']['signature'])
    return True


def attach(g, txn, js, known):
    from tfchain.types import ConditionTypes as C
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.IO import CoinOutput, BlockstakeOutput
    cps, bps, mint, keys = known
    v = js['version']
    for k, cls, l, ps in (('c', CoinOutput, txn.coin_inputs, cps), ('b', BlockstakeOutput, txn.blockstake_inputs, bps)):
        for ci, p in zip(l, ps):
            if p is not None:
                co = cls.from_json(copy.deepcopy(p))
                co.id = ci.parentid
                ci.parent_output = co
    if v in (128, 129) and mint is not None:
        txn.parent_mint_condition = C.from_json(copy.deepcopy(mint))
    if v == 145 and keys[0] is not None:
        txn.parent_public_key = PublicKey.from_json(keys[0])
    if v == 146:
        if keys[0] is not None:
            txn.sender_parent_public_key = PublicKey.from_json(keys[0])
        if keys[1] is not None:
            txn.receiver_parent_public_key = PublicKey.from_json(keys[1])
    return txn


def requests(ctx):
    import tfchain.errors as E
    from tfchain.types.CryptoTypes import PublicKey
    r = ctx.rng
    g = Gen(r, r.choice([2, 3, 6]), big=.01)
    js, ps, bps = g.tx()
    v = js['version']
    clean = r.random() < .6
    js = unsigned(js) if clean else partly(r, js)
    # owners of which the keys are here
    for p in ps + bps:
        c = ref.cond_unwrap(p['condition'] if 'condition' in p else p)
        if c.get('type', 0) == 1 and r.random() < .7:
            c['data']['unlockhash'] = r.choice(g.addrs)
        elif c.get('type', 0) == 4 and r.random() < .7:
            own = r.sample(g.addrs, r.randrange(1, len(g.addrs) + 1))
            if r.random() < .15:
                own.append(r.choice(own))
            if r.random() < .3:
                own.append(g.addr(1))
            c['data'].update(unlockhashes=own, minimumsignaturecount=r.randrange(1, len(own) + 1))
        elif c.get('type', 0) == 2 and r.random() < .8:
            c['data'].update(sender=r.choice(g.addrs), receiver=r.choice(g.addrs))
    if r.random() < .15:                    # owners that no key stands for
        for p in ps + bps:
            c = ref.cond_unwrap(p['condition'] if 'condition' in p else p)
            a = ref.uh_text(r.choice([2, 3]), r.choice([g.rand(32), ref.uh_bytes(r.choice(g.addrs))[1:]]))
            if c.get('type', 0) == 1 and r.random() < .3:
                c['data']['unlockhash'] = a
            elif c.get('type', 0) == 4 and r.random() < .5:
                c['data']['unlockhashes'][r.randrange(len(c['data']['unlockhashes']))] = a
    if not clean and r.random() < .5:       # pairs of true owners
        for k, l in (('coininputs', ps), ('blockstakeinputs', bps)):
            for i, ci in enumerate(ref.lst(js['data'], k)):
                c = ref.cond_unwrap(l[i]['condition'])
                if c.get('type', 0) == 4:
                    mine = [pk for pk in g.pks if ref.pubkey_address(pk) in c['data']['unlockhashes']]
                    ci['fulfillment']['data']['pairs'] = [{'publickey': pk, 'signature': g.sig()} for pk in mine[:r.choice([0, 1, 2])]]
                elif c.get('type', 0) == 1 and r.random() < .5 and c['data']['unlockhash'] in g.addrs:
                    ci['fulfillment']['data'].update(publickey=g.pks[g.addrs.index(c['data']['unlockhash'])], signature=g.sig())
    for ci in ref.lst(js['data'], 'coininputs'):
        if ci['fulfillment']['type'] == 2 and set(ci['fulfillment']['data'].get('secret') or 'x') == {'0'}:
            ctx.count('zero_secret')
    keys = {144: lambda: [js['data']['identification']['publickey']], 145: lambda: [r.choice(g.pks)],
            146: lambda: [r.choice(g.pks[:1]), r.choice(g.pks[1:])],
            210: lambda: [js['data']['pubkey']]}.get(v, lambda: [])()
    if v == 144 and r.random() < .7:
        js['data']['identification']['publickey'] = keys[0] = r.choice(g.pks)
    everything = r.random() < .7
    hide = lambda x: x if everything or r.random() < .6 else None
    known = ([hide(p) for p in ps] if v not in (128, 129) else [], [hide(p) for p in bps],
             hide(ps[0]) if v in (128, 129) else None, [k if v in (144, 210) else hide(k) for k in keys])
    if not everything:
        ctx.count('partial_knowledge')
    doc = copy.deepcopy(js)
    txn = attach(g, lib(js), js, known)

    def state(what):
        got, want = norm(txn.json()), canonical(doc)
        ctx.check(got == want, '%s: the transaction is %s\nexpected %s', what, json.dumps(got)[:2500], json.dumps(want)[:2500])

    def listed(what):
        """compares the requests with the model and pairs them up"""
        rs = txn.signature_requests_new()
        ss = slots(doc, known)
        pk = r.choice(g.pks)
        lpk = PublicKey.from_json(pk)
        ctx.count('lists_compared')
        ctx.count('requests_listed', len(ss))
        have = [(q.wallet_address, str(q.input_hash_new(lpk))) for q in rs]
        want = [(s.address, s.hash(doc, pk)) for s in ss]
        ctx.check(sorted(have) == sorted(want), '%s of %s\nwith parents %s\nrequests %s\nexpected %s', what, json.dumps(doc)[:2500],
                  json.dumps(known)[:1500], sorted(have), sorted(want))
        ctx.check(not any(q.fulfilled for q in rs), '%s: a new request counts as fulfilled', what)
        if True:
            ctx.eq(txn.is_fulfilled(), complete(doc, known), '%s: completeness of %s with parents %s' % (
                what, json.dumps(doc)[:2000], json.dumps(known)[:1500]))
        pairs, left = [], list(zip(rs, have))
        for s, w in zip(ss, want):
            for n, (q, h) in enumerate(left):
                if h == w:
                    pairs.append((q, s))
                    del left[n]
                    break
        return pairs
    state('after reading')
    todo = listed('requests')
    again = txn.signature_requests_new()
    ctx.check(len(again) == len(todo), 'a second list of requests has %d entries, the first %d', len(again), len(todo))
    done = []
    for step in range(14):
        if not todo:
            break
        ev = r.random()
        q, s = r.choice(todo)
        kind = s.kind if s.kind in ('multi', 'single') else 'swap' if s.kind in ('redeem', 'refund') else 'extra'
        where = '%s request for %s' % (s.kind, s.address)
        if ev < .2 and done:                # a second signature
            q, s, pk = r.choice(done)
            other = r.choice([pk, r.choice(g.pks)])
            try:
                q.signature_fulfill(public_key=PublicKey.from_json(other), signature=g.sig())
                ctx.fail('%s: a second signature was accepted', where)
            except E.DoubleSignError:
                ctx.count('second_refused')
            ctx.check(q.fulfilled, 'a fulfilled request counts as unfulfilled after a refused second signature')
            state('after a second signature')
            ctx.key(v, s.kind, 'second', other == pk)
        elif ev < .4:                       # a foreign key
            if s.address == NIL:
                continue
            pk = r.choice([p for p in g.pks if ref.pubkey_address(p) != s.address] + ['ed25519:' + g.rand(32).hex()])
            try:
                q.signature_fulfill(public_key=PublicKey.from_json(pk), signature=r.choice([g.sig(), g.rand(64)]))
                ctx.fail('%s accepted the key %s of %s', where, pk, ref.pubkey_address(pk))
            except (ValueError, E.DoubleSignError) as e:
                ctx.count('foreign_refused')
            ctx.check(not q.fulfilled, '%s counts as fulfilled after a foreign key', where)
            state('%s after a foreign key' % where)
            ctx.key(v, s.kind, 'foreign')
        elif ev < .47:                      # no public key at all
            bad = r.choice([None, g.pks[0], g.addrs[0], b'x', 5])
            try:
                q.signature_fulfill(public_key=bad, signature=g.sig())
                ctx.fail('%s accepted %r as public key', where, bad)
            except (TypeError, ValueError):
                ctx.count('wrong_type')
            ctx.check(not q.fulfilled, '%s counts as fulfilled after a refused key', where)
            state('%s after a refused key' % where)
        elif ev < .54 and s.address in g.addrs:     # the right key, with something that is no signature; then the signature
            i = g.addrs.index(s.address)
            lpk = PublicKey.from_json(g.pks[i])
            bad = r.choice([b'short', g.rand(63), g.rand(65), 'zz' * 64, 'ab' * 63, 5, ['x']])
            try:
                q.signature_fulfill(public_key=lpk, signature=bad)
                ctx.fail('%s accepted %r as signature', where, bad)
            except (TypeError, ValueError):
                ctx.count('no_signature')
            ctx.check(not q.fulfilled, '%s counts as fulfilled after %r', where, bad)
            sig = g.sks[i].sign(bytes.fromhex(str(q.input_hash_new(lpk))))
            q.signature_fulfill(public_key=lpk, signature=sig)
            put(doc, s, g.pks[i], sig.hex())
            done.append((q, s, g.pks[i]))
            state('%s after a refused and a good signature' % where)
            todo = listed('%s signed: requests' % where)
        elif ev < .57:                      # the transaction travels
            sent = txn.json()
            if r.random() < .5:
                sent = json.loads(json.dumps(sent))
            txn = attach(g, lib(sent), doc, known)
            ctx.count('exchanged')
            done = []
            state('after an exchange')
            todo = listed('requests after an exchange')
        else:
            if s.address == NIL:
                i = r.randrange(len(g.pks))
                ctx.count('anyone')
            elif s.address in g.addrs:
                i = g.addrs.index(s.address)
            else:
                continue
            pk = g.pks[i]
            lpk = PublicKey.from_json(pk)
            h = q.input_hash_new(lpk)
            twins = []
            if s.kind == 'multi' and r.random() < .4:       # another request for the same signature, listed before
                twins = [t for t in txn.signature_requests_new() if t.wallet_address == s.address and str(t.input_hash_new(lpk)) == str(h)]
                # (a coin and a blockstake input at the same position share what is signed)
                same = [x for x in listed('requests listed again') if x[1].address == s.address and x[1].hash(doc, pk) == s.hash(doc, pk)]
                ctx.check(len(twins) == len(same), '%s is listed %d times', where, len(twins))
                if len(twins) != 1:
                    twins = []
            ctx.eq(str(h), s.hash(doc, pk), '%s: hash to sign of %s' % (where, json.dumps(doc)[:2500]))
            sig = g.sks[i].sign(bytes.fromhex(str(h)))
            q.signature_fulfill(public_key=lpk, signature=r.choice([sig, sig.hex(), bytearray(sig)]))
            ctx.check(q.fulfilled, '%s does not count as fulfilled', where)
            put(doc, s, pk, sig.hex())
            done.append((q, s, pk))
            state('%s after its signature' % where)
            for t in twins:
                try:
                    t.signature_fulfill(public_key=lpk, signature=r.choice([sig, g.sig()]))
                    ctx.fail('%s: a co-owner could sign twice', where)
                except (ValueError, E.DoubleSignError):
                    ctx.count('twin_refused')
                ctx.check(not t.fulfilled, '%s: a refused second request counts as fulfilled', where)
                state('%s after a second signature of the co-owner' % where)
            ctx.count('fulfilled')
            ctx.count(kind)
            ctx.key(v, s.kind, 'fulfilled', len(todo), everything, clean)
            rest = [x for x in todo if x[0] is not q]
            fresh = listed('%s signed: requests' % where)
            ctx.check(len(fresh) == len(rest), '%s signed: %d requests are left of %d', where, len(fresh), len(todo))
            if r.random() < .6:
                todo = fresh
            else:                           # go on with the requests of before
                ctx.count('stale_lists')
                todo = rest
    if complete(doc, known):
        ctx.count('completed')


PARTS = [('requests', 3000, 200000, requests), ('histories', 120, 3000, histories(W, parties=None))]
