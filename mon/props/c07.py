"""Signature hashes follow the protocol and cover every signed field."""
import json
import os

from .. import ref
from ..gen import Gen, lib, build, unsigned, mutate, tweak, VERSIONS

RULE = ('Random transactions of all nine versions (every condition, fulfillment, list length, absent/null part), read from JSON and '
        'built through the API; every hash that a signer would sign (each input, each co-owner, swap with and without secret, 3Bot '
        'and ERC20 specifiers, minting) is compared with an independent encoder; then one field is changed (in the document or in '
        'place in the object, also after signing) and the hash is compared again. Transactions of the first (legacy) format likewise, as read. Plus the recorded network transactions. '
        'distinct = distinct (version, what is signed, changed field).')
REQUIRED = ['hash_compared', 'request_hash_compared', 'field_changed', 'tweaked', 'signing_changes_nothing', 'golden', 'legacy_hash_compared', 'legacy_changed', 'unsigned_field'] + [
    'v%d' % v for v in VERSIONS]
ASSUMPTIONS = ['the reference hashes follow the protocol (validated against 91 recorded network signatures)']


def objects():
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.ConditionTypes import AtomicSwapSecret
    from tfchain.types.transactions.ThreeBot import BotTransactionBaseClass as B
    from tfchain.types.transactions.ERC20 import TransactionV210 as E
    return PublicKey, AtomicSwapSecret, B, E


def signers(js):
    """every (label, library extras, reference extras) with which the hash of a document is signed"""
    PublicKey, Secret, B, E = objects()
    v, d = js['version'], js['data']
    out = [('plain', [], [])]

    def ful(label, i, f):
        pre, rpre = ([], []) if i is None else ([i], [ref.extra_index(i)])
        x = f['data']
        if f['type'] == 1:
            out.append((label + 'single', pre, rpre))
        elif f['type'] == 2:
            pk = x['publickey']
            s = x.get('secret')
            a, b = pre + [PublicKey.from_json(pk)], rpre + [ref.extra_pubkey(js, pk)]
            out.append((label + 'swap', a, b))
            if s:
                out.append((label + 'swapsecret', a + [Secret.from_json(s)], b + [bytes.fromhex(s)]))
        else:
            for p in x['pairs'][:2]:
                pk = p['publickey']
                out.append((label + 'multi', pre + [PublicKey.from_json(pk)], rpre + [ref.extra_pubkey(js, pk)]))
    for k, l in (('', ref.lst(d, 'coininputs')), ('bs', ref.lst(d, 'blockstakeinputs'))):
        for i, ci in enumerate(l):
            ful(k, i, ci['fulfillment'])
    if 'mintfulfillment' in d:
        ful('mint', None, d['mintfulfillment'])
    if v in (144, 145, 146):
        out.append(('sender', [B.SPECIFIER_SENDER], [b'sender']))
    if v == 146:
        out.append(('receiver', [B.SPECIFIER_RECEIVER], [b'receiver']))
    if v == 210:
        out.append(('registration', [E.SPECIFIER_REGISTRATION_SIGNATURE], [b'registration']))
    return out


def compare(ctx, txn, js, what, ss=None):
    for label, a, b in ss or signers(js):
        got = txn.signature_hash_get(*a)
        ctx.eq(bytes(got).hex(), ref.sighash(js, *b).hex(), '%s: hash signed by %s of %s' % (what, label, json.dumps(js)[:1500]))
        ctx.count('hash_compared')
        ctx.key(js['version'], label, what)


FREE = ('signature', 'publickey', 'secret')


def documents(ctx):
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx()
    ctx.count('v%d' % js['version'])
    ctx.sample({'version': js['version'], 'signers': [s[0] for s in signers(js)][:6]})
    txn = lib(js)
    ss = signers(js)
    compare(ctx, txn, js, 'read')
    b = build(js, ps, bps, r)
    compare(ctx, b, js, 'built', ss)
    # the same document, one value changed
    for _ in range(3):
        m = mutate(g, js)
        if m is None:
            break
        label, d2 = m
        t2 = lib(d2)
        l, x, y = r.choice(ss)
        got = bytes(t2.signature_hash_get(*x)).hex()
        want = ref.sighash(d2, *y).hex()
        ctx.eq(got, want, 'hash after changing %s of %s' % (label, json.dumps(d2)[:1500]))
        before = ref.sighash(js, *y).hex()
        free = label.split('.')[-1] in FREE and not label.startswith('identification.publickey') or label in (
            'tftaddress', 'erc20address')
        ctx.check((got == before) == free, 'changing %s %s the hash of %s', label,
                  'changes' if free else 'does not change', json.dumps(js)[:1000])
        ctx.count('unsigned_field' if free else 'field_changed')
        ctx.key(js['version'], 'changed', label)


def in_place(ctx):
    """the hash follows the object, however it was changed and hashed before"""
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx()
    txn = lib(js) if r.random() < .5 else build(js, ps, bps, r)
    for n in range(r.randrange(2, 7)):
        if r.random() < .7:
            txn.signature_hash_get()
        if r.random() < .2:
            txn.json()
        if r.random() < .2 and txn.coin_outputs:
            txn.coin_outputid_new(0)
        label = tweak(g, txn)
        if label is None:
            continue
        cur = txn.json()
        cur = json.loads(json.dumps(cur))
        compare(ctx, txn, cur, 'after ' + label)
        ctx.count('tweaked')
        ctx.key(js['version'], 'tweak', label)


def requests(ctx):
    """what a signer is asked to sign, and that signing changes nothing for the other signers"""
    r = ctx.rng
    PublicKey, Secret, B, E = objects()
    g = Gen(r)
    js, ps, bps = g.tx()
    js = unsigned(js)
    txn = g.attach(lib(js), ps, bps)
    d = js['data']
    if js['version'] == 145:
        txn.parent_public_key = PublicKey.from_json(g.pks[0])
    if js['version'] == 146:
        txn.sender_parent_public_key = PublicKey.from_json(g.pks[0])
        txn.receiver_parent_public_key = PublicKey.from_json(g.pks[1])
    want = []          # (address, function pk -> reference extras)

    def add(cond, f, pre):
        c = ref.cond_unwrap(cond)
        t = c.get('type', 0)
        if f['type'] == 1:
            want.append((ref.cond_address(c), lambda pk: pre, 'single'))
        elif f['type'] == 2:
            s = ((f['data'].get('secret') or '').strip('0') and f['data']['secret']) or None    # only zero bytes: no secret
            x = c['data']
            who = x['receiver'] if s is not None else x['sender']
            want.append((who, lambda pk: pre + [ref.extra_pubkey(js, pk)] + ([bytes.fromhex(s)] if s is not None else []), 'swap'))
        else:
            seen = []
            for o in c['data']['unlockhashes']:
                if o not in seen:
                    seen.append(o)
                    want.append((o, lambda pk: pre + [ref.extra_pubkey(js, pk)], 'multi'))
    for l, pl in ((ref.lst(d, 'coininputs'), ps), (ref.lst(d, 'blockstakeinputs'), bps)):
        for i, (ci, p) in enumerate(zip(l, pl)):
            add(p['condition'], ci['fulfillment'], [ref.extra_index(i)])
    if 'mintfulfillment' in d:
        add(ps[0], d['mintfulfillment'], [])
    if js['version'] == 144:
        want.append((ref.pubkey_address(d['identification']['publickey']), lambda pk: [b'sender'], 'bot'))
    if js['version'] in (145, 146):
        want.append((g.addrs[0], lambda pk: [b'sender'], 'bot'))
    if js['version'] == 146:
        want.append((g.addrs[1], lambda pk: [b'receiver'], 'bot'))
    if js['version'] == 210:
        want.append((ref.pubkey_address(d['pubkey']), lambda pk: [b'registration'], 'erc20'))
    reqs = txn.signature_requests_new()
    ctx.eq(sorted(q.wallet_address for q in reqs), sorted(w[0] for w in want), 'addresses asked to sign %s' % json.dumps(js)[:1200])
    before = ref.sighash(js)
    order = list(range(len(reqs)))
    r.shuffle(order)
    own = dict(zip(g.addrs, g.pks))
    left = list(want)
    for n in order:
        q = reqs[n]
        pk = own.get(q.wallet_address) or r.choice(g.pks)
        got = bytes(q.input_hash_new(PublicKey.from_json(pk)).value).hex()
        cands = [w for w in left if w[0] == q.wallet_address]
        hit = [w for w in cands if ref.sighash(js, *w[1](pk)).hex() == got]
        ctx.check(hit, 'hash to sign for %s by %s is no hash of the protocol for it: %s', q.wallet_address, pk, json.dumps(js)[:1200])
        left.remove(hit[0])
        ctx.count('request_hash_compared')
        ctx.key(js['version'], 'request', hit[0][2])
        if ref.NIL == q.wallet_address or own.get(q.wallet_address):
            if r.random() < .8:
                q.signature_fulfill(PublicKey.from_json(pk), bytes.fromhex(g.sig()))
    ctx.eq(bytes(txn.signature_hash_get()).hex(), before.hex(), 'hash after signing')
    ctx.count('signing_changes_nothing')


def legacy(ctx):
    """transactions of the first format: no fulfillment type, another layout; only read, never built"""
    g = Gen(ctx.rng, big=.02)
    js = g.legacy()
    d = js['data']
    txn = lib(js)
    ss = [('plain', [], [])] + [('%s%d' % (k, i), [i], [ref.extra_index(i)]) for k in ('coininputs', 'blockstakeinputs')
                                for i in range(len(d.get(k) or []))]
    for label, a, b in ss:
        ctx.eq(bytes(txn.signature_hash_get(*a)).hex(), ref.sighash(js, *b).hex(), 'legacy hash signed by %s of %s' % (
            label, json.dumps(js)[:1500]))
        ctx.count('legacy_hash_compared')
    for _ in range(3):
        what, d2, signed = g.legacy_change(js)
        label, a, b = ctx.rng.choice(ss)
        got = bytes(lib(d2).signature_hash_get(*a)).hex()
        ctx.eq(got, ref.sighash(d2, *b).hex(), 'legacy hash after changing %s of %s' % (what, json.dumps(d2)[:1500]))
        ctx.check((got != ref.sighash(js, *b).hex()) == signed, 'changing %s of a legacy transaction: hash %s', what,
                  'unchanged' if signed else 'changed')
        ctx.count('legacy_changed')
        ctx.key(0, len(d.get('coininputs') or []), len(d.get('blockstakeinputs') or []), what)


def _golden():
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'golden.json')) as f:
        return json.load(f)


def golden(ctx):
    """recorded network transactions: the recorded signatures verify over the library's hash"""
    PublicKey, Secret, B, E = objects()
    n = 0
    for k, o in sorted(_golden().items()):
        js = o['tx']
        txn = lib(js)
        if js['version'] == 0:
            for i, ci in enumerate(ref.coin_inputs(js)):
                u = ci['unlocker']
                h = txn.signature_hash_get(i)
                ctx.check(ref.verify(u['condition']['publickey'], u['fulfillment']['signature'], bytes(h)), 'legacy signature of %s', k)
                n += 1
            continue
        compare(ctx, txn, js, 'golden')
        for i, ci in enumerate(ref.coin_inputs(js)):
            f = ci['fulfillment']
            x = f['data']
            if f['type'] == 1:
                ctx.check(ref.verify(x['publickey'], x['signature'], bytes(txn.signature_hash_get(i))), 'signature of %s/%d', k, i)
                n += 1
            elif f['type'] == 3:
                for p in x['pairs']:
                    h = txn.signature_hash_get(i, PublicKey.from_json(p['publickey']))
                    ctx.check(ref.verify(p['publickey'], p['signature'], bytes(h)), 'signature of %s/%d', k, i)
                    n += 1
    ctx.count('golden', n)
    ctx.key('golden')


PARTS = [('documents', 2500, 80000, documents), ('legacy', 800, 20000, legacy), ('in_place', 1500, 40000, in_place), ('requests', 2000, 60000, requests),
         ('golden', 1, 1, golden)]
