"""Fully signed transactions are pushed once; partially signed ones never."""
from .common import wide, histories

RULE = ('Histories with 2-4 wallets sharing multi-signature wallets and mint conditions of every threshold; incomplete '
        'transactions travel as dict, text or object in random signer orders, with and without permission to submit; pushes '
        'counted by the model node. distinct = distinct combination of operation, form, missing signatures, outcome.')
REQUIRED = ['manual_completed', 'pushes_judged', 'partial_judged', 'cosign_steps', 'cosign_completed', 'mint_judged', 'forged', 'forged_completed']
ASSUMPTIONS = ['co-signers see the same chain']
W = {'send': 12, 'cosign': 12, 'manual': 8, 'swap': 3, 'claim': 1, 'botnew': 3, 'botupd': 2, 'botxfer': 2, 'erc20send': 2, 'erc20reg': 2,
     'drain': 2, 'mint': 5, 'history': 5, 'mine': 2}
S = {'send': 12, 'cosign': 12, 'manual': 6, 'mint': 2, 'history': 3, 'mine': 2}


def shared(ctx):
    """mostly shared coins"""
    from .common import World, drive
    from .. import ref
    r = ctx.rng
    w = World(ctx, parties=r.choice([2, 3, 4]), keys=r.choice([1, 2]), rich=False)
    for _ in range(r.choice([1, 2])):
        c = w.multisig_new()
        for _ in range(r.choice([1, 3])):
            w.chain.grant([(c, w.value()) for _ in range(r.choice([1, 2]))], confirmed=r.random() < .8)
    w.source0 = w.source

    def source(p):
        own = p.own()
        ms = w.known_multisigs(p, own)
        if ms and r.random() < .8:
            a = r.choice(sorted(ms))
            return (a if r.random() < .5 else [a]), set(), {a}
        return w.source0(p)
    w.source = source
    drive(ctx, w, lambda: w.run(16, S))


def forged(ctx):
    """documents that look signed: keys without signature, signatures of a foreign key, the same signature twice, strangers"""
    import json
    import ed25519
    from tfchain.types import transactions as T
    from tfchain.types.IO import CoinOutput
    from .common import World, drive, OracleFail, cond_uh, cond_lock, cond_ms, tft
    from ..world import cond_swap
    from .. import ref
    r = ctx.rng
    w = World(ctx, parties=3, keys=1, rich=False)
    c = w.chain
    HOME = {'C06'}
    NOKEY = ':' + '0' * 64

    def sig(js, n, p, version_extra=None):
        k = p.wallet.key_pair_get(p.primary)
        ex = [ref.extra_index(n)] + ([version_extra] if version_extra else [])
        return k.sign(ref.sighash(js, *ex)).hex()

    def go():
        for _ in range(r.choice([1, 2, 3])):
            ins, conds = [], []
            for _ in range(r.choice([1, 1, 2, 3])):
                p = r.choice(w.parties)
                if r.random() < .5:
                    n = r.choice([2, 3])
                    conds.append(cond_ms([q.primary for q in r.sample(w.parties, n)] + (w.foreign[:1] if r.random() < .3 else []),
                                         r.randrange(1, n + 1)))
                elif r.random() < .25:
                    conds.append(cond_swap(p.primary, r.choice(w.parties).primary, c.rand(32).hex(), 1500000000))
                    continue
                else:
                    conds.append(cond_uh(p.primary))
                if r.random() < .2:
                    conds[-1] = cond_lock(1, conds[-1])
            vals = [w.value() + w.fee for _ in conds]
            t = c.grant(list(zip(conds, vals)), confirmed=True)
            ids = list(t.coin_ids)
            total = sum(c.outs[i].value for i in ids)
            docs = [{'parentid': i, 'fulfillment': {'type': 3, 'data': {'pairs': []}} if ref.cond_unwrap(c.outs[i].condition).get('type') == 4
                     else {'type': c.outs[i].condition['type'] == 2 and 2 or 1, 'data': {'publickey': NOKEY, 'signature': ''}}} for i in ids]
            js = {'version': 1, 'data': {'coininputs': docs, 'coinoutputs': [{'value': str(total - w.fee), 'condition': cond_uh(r.choice(w.parties).primary)}],
                                         'minerfees': [str(w.fee)]}}
            junk, tricks, present = False, [], []
            for n, (i, d) in enumerate(zip(ids, docs)):
                cc = ref.cond_unwrap(c.outs[i].condition)
                f = d['fulfillment']['data']
                have = set()
                present.append(have)
                stranger = ed25519.SigningKey(c.rand(32))
                spk = 'ed25519:' + stranger.get_verifying_key().to_bytes().hex()
                if cc['type'] == 2:         # a refund
                    q = [p for p in w.parties if p.primary == cc['data']['sender']][0]
                    tricks.append('refund ' + r.choice(['', 'key', 'foreign key']))
                    f['publickey'] = {'refund ': NOKEY, 'refund key': w.pk(q)}.get(tricks[-1], spk)
                    continue
                if cc['type'] == 1:
                    q = [p for p in w.parties if p.primary == cc['data']['unlockhash']][0]
                    k = r.choice(['', '', 'key', 'foreign key', 'foreign key signed', 'signed'])
                    tricks.append(k)
                    f['publickey'] = {'': NOKEY, 'key': w.pk(q), 'signed': w.pk(q)}.get(k, spk)
                    if k == 'foreign key signed':
                        f['signature'] = stranger.sign(ref.sighash(js, ref.extra_index(n))).hex()
                    elif k == 'signed':
                        f['signature'] = sig(js, n, q)
                        have.add(q.primary)
                    continue
                owners = [p for p in w.parties if p.primary in cc['data']['unlockhashes']]
                pair = lambda p: {'publickey': w.pk(p), 'signature': sig(js, n, p, ref.extra_pubkey(js, w.pk(p)))}
                k = r.choice(['', '', 'some', 'twice', 'stranger', 'no signature'])
                q = r.choice(owners)
                if k in ('some', 'twice'):
                    f['pairs'].append(pair(q))
                    have.add(q.primary)
                if k == 'twice':
                    junk = True
                    f['pairs'] += [json.loads(json.dumps(f['pairs'][0])) for _ in range(r.choice([1, 1, 2]))]
                if k == 'stranger':
                    junk = True
                    f['pairs'].append({'publickey': spk, 'signature': c.rand(64).hex()})
                if k == 'no signature':
                    f['pairs'].append({'publickey': w.pk(q), 'signature': ''})
                tricks.append(k)
            order = r.sample(w.parties, 3)
            # what is only a nuisance for the signers becomes invalid with the last signature: then nobody may sign last
            for p in order:
                before = json.loads(json.dumps(js))
                want = []
                for i, have in zip(ids, present):
                    cc = ref.cond_unwrap(c.outs[i].condition)
                    own = {p.primary} & set(cc['data'].get('unlockhashes') or [cc['data'].get('unlockhash') or cc['data'].get('sender')])
                    want.append(have | own)
                need = [ref.cond_unwrap(c.outs[i].condition)['data'].get('minimumsignaturecount', 1) for i in ids]
                complete = all(len(x) >= n for x, n in zip(want, need))
                unsigned = any(not y['signature'] and ref.pubkey_address(y['publickey']) not in x for d, x in zip(js['data']['coininputs'], want)
                               for y in d['fulfillment']['data'].get('pairs') or [])
                if complete and (junk or unsigned):
                    break
                missing = sum(len(x - y) for x, y in zip(want, present))
                obj = T.from_json(json.loads(json.dumps(js)))
                for ci in obj.coin_inputs:
                    ci.parent_output = CoinOutput.from_json({'value': str(c.outs[str(ci.parentid)].value), 'condition': c.outs[str(ci.parentid)].condition})
                allow = r.random() < .85
                what = '%s signs a document with %r (submit=%r)' % (p.name, tricks, allow)
                done = all(len(x) >= n for x, n in zip(present, need))
                if obj.is_fulfilled() is not done:
                    raise OracleFail(HOME | {'C31'}, '%s: before, it counts as %s' % (what, 'unfulfilled' if done else 'fulfilled'))
                res, exc, pushes = w.call(p, what, HOME, lambda: w.sign(p, obj, submit=allow))
                js = res.transaction.json()
                ctx.count('forged')
                if bool(res.signed) != (missing > 0):
                    raise OracleFail(HOME | {'C31'}, '%s: signed=%r with %d own signatures missing' % (what, res.signed, missing))
                for n, (d, x) in enumerate(zip(js['data']['coininputs'], want)):
                    f = d['fulfillment']['data']
                    got = {ref.pubkey_address(y['publickey']) for y in f.get('pairs', [f]) if y['signature']}
                    if x - got:
                        raise OracleFail(HOME | {'C31'}, '%s: input %d is signed by %r instead of %r' % (what, n, got, x))
                must = complete and allow and missing > 0
                if done:                # it was complete already: whether it is submitted again is not judged
                    break
                if bool(pushes) != must or bool(res.submitted) != must or len(pushes) > 1:
                    raise OracleFail(HOME, '%s: %d signatures were missing, complete=%r, but submitted=%r with %d pushes' % (
                        what, missing, complete, res.submitted, len(pushes)))
                present = want
                ctx.key('forged', tuple(sorted(set(tricks))), complete, allow, missing > 0)
                if must:
                    ctx.count('forged_completed')
                if complete:
                    break
        ctx.sample({'tricks': tricks, 'document': js})
    drive(ctx, w, go)


PARTS = [('forged', 150, 5000, forged), ('histories', 180, 4000, histories(W, parties=None)), ('shared', 160, 4000, shared),
         ('wide', 40, 800, wide(['send', 'send', 'erc20send', 'manual', 'swap'], shared=.8))]
