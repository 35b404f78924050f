"""A chain with transactions of every version, shared by the lookup properties."""
import copy

from .. import ref
from ..gen import Gen, VERSIONS

SINGLE = (0, 1, 1)


def people(x, names, r, p=.5):
    """replace addresses of nobody by those of the wallets under test"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('unlockhash', 'sender', 'receiver') and isinstance(v, str) and len(v) == 78 and r.random() < p:
                x[k] = r.choice(names)
            elif k == 'unlockhashes' and len(v) <= len(names) and r.random() < p:
                x[k] = r.sample(names, len(v))
            else:
                people(v, names, r, p)
    elif isinstance(x, list):
        for v in x:
            people(v, names, r, p)
    return x


def legacy(g, r, names, ps, bps):
    """a transaction of the first format"""
    def ins(l):
        return [{'parentid': i, 'unlocker': {'type': 1, 'condition': {'publickey': g.pk()}, 'fulfillment': {'signature': g.sig()}}} for i in l]

    def outs(n):
        return [{'value': str(r.randrange(1, 10 ** 12)), 'unlockhash': r.choice(names + [g.addr()])} for _ in range(n)]
    d = {'coininputs': ins(ps) or None, 'coinoutputs': outs(r.randrange(4)) or None, 'blockstakeinputs': ins(bps) or None,
         'blockstakeoutputs': outs(r.randrange(3)) or None, 'minerfees': [str(ref.GRAIN)], 'arbitrarydata': g.data()}
    return {'version': 0, 'data': d}


def other_key(chain, js):
    """make sure that no identifier is known already"""
    return ref.tx_id(js) not in chain.txs


def insert(w, g, names, version=None, conf=None, p=.5):
    """one random transaction of any version; outputs its inputs spend are created first or taken from the chain"""
    r, c = w.rng, w.chain
    v = r.choice(VERSIONS + (0, 1, 1, 1)) if version is None else version
    if v == 0:
        ps = [o.id for o in c.outs.values() if o.spender is None and o.condition.get('type', 0) == 1]
        bps = [o.id for o in c.bs_outs.values() if o.spender is None and o.condition.get('type', 0) == 1]
        js = legacy(g, r, names, r.sample(ps, min(len(ps), r.randrange(3))), r.sample(bps, min(len(bps), r.randrange(2))))
        ps = bps = []
    else:
        js, ps, bps = g.tx(v)
        people(js['data'], names, r, p)
        people(ps, names, r, p)
        people(bps, names, r, p)
        if v in (128, 129):
            ps = []
        if v == 209 and r.random() < p:
            js['data']['address'] = r.choice(names)
        ins = ref.coin_inputs(js)
        bins = ref.lst(js['data'], 'blockstakeinputs')
        if ps or bps:
            first = {'version': 1, 'data': {'coinoutputs': copy.deepcopy(list(ps)), 'minerfees': ['1'], 'arbitrarydata': g.data()}}
            if bps:
                first['data']['blockstakeoutputs'] = copy.deepcopy(list(bps))
            if r.random() < .3:
                first['data']['coinoutputs'].insert(0, g.output())
            if other_key(c, first):
                t = c.insert(first, confirmed=r.random() < .5)
                k = len(t.coin_ids) - len(ins)
                for i, oid in zip(ins, t.coin_ids[k:]):
                    i['parentid'] = oid
                for i, oid in zip(bins, t.bs_ids):
                    i['parentid'] = oid
        if any(i['parentid'] not in c.outs for i in ins) or any(i['parentid'] not in c.bs_outs for i in bins):
            return None
    if v == 128 and any(t.js['version'] == 128 for t in c.txs.values() if t.height is None):
        c.mine()
    bots(w, js)
    if not other_key(c, js):
        return None
    conf = r.random() < .6 if conf is None else conf
    if conf:
        c.mine(blocks=r.choice([1, 1, 1, 2]), payouts=payouts(w, g, names))
    t = c.insert(js, confirmed=False)
    if conf:
        c.mine(pick=lambda x: x.id == t.id or r.random() < .6, payouts=payouts(w, g, names))
    return t


def bots(w, js):
    """the 3Bots a transaction of history speaks of"""
    d = js['data']
    for x in [d] + [d[k] for k in ('sender', 'receiver') if isinstance(d.get(k), dict)]:
        if isinstance(x.get('id'), int):
            x['id'] = x['id'] % 100000 + 1
    ids = {145: lambda: [d['id']], 146: lambda: [d['sender']['id'], d['receiver']['id']]}.get(js['version'], list)()
    for i in ids:
        if i not in w.chain.bots:
            w.chain.bots[i] = {'id': i, 'names': [w.name()], 'addresses': [], 'publickey': w.pk(), 'expiration': w.chain.time + 10 ** 7}


def payouts(w, g, names):
    r = w.rng
    return [(g.rand(32).hex(), g.value(), r.choice(names + [g.addr(), ref.NIL])) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 3, 7, 12]))]


def fill(w, n, names=None, big=.02, **kw):
    g = Gen(w.rng, 3, big)
    names = names or [a for p in w.parties for a in w.own0(p)]
    for _ in range(n):
        t = insert(w, g, names, **kw)
        if t is not None:
            w.ctx.count('history_v%d' % t.js['version'])
    return g
