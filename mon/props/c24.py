"""Wrong or malformed explorer answers are never accepted as data."""
import copy
import json

from .. import ref
from ..gen import paths, put, get
from ..world import World, drive, OracleFail, canon, cond_uh, grains
from . import rich
from .c25 import same_tx, same_block, same_out

RULE = ('Every lookup of the client against a model chain with transactions of every version, the answer corrupted on its way: '
        'the answer to another question of the same or another kind, another hash type, parts missing, lists that belong together '
        'of different lengths, transactions missing from or added to an output answer, parts replaced by values of another JSON '
        'kind, texts cut off or that are no JSON. A corruption that changes what was asked for must end in an error; whatever is '
        'returned is compared with the chain. The same on the n-th answer of wallet operations, which must fail and push nothing. '
        'distinct = distinct lookup, corruption, position and outcome.')
REQUIRED = ['near_misses', 'other_content', 'hash_types', 'missing', 'counts', 'kinds', 'texts', 'invalid_response', 'returned_unchanged',
            'push_answers', 'operations', 'output_sets']
ASSUMPTIONS = ['a corruption that yields another truthful looking answer to the same question (for example another amount) cannot be '
               'noticed and is not made', 'null or an empty value stands for the zero value, flags and fractions for integers are not judged']
HOME = {'C24'}
MUST, MAY, INVALID = 'must fail', 'may fail', 'must be reported as invalid response'
HASHTYPES = ['blockid', 'transactionid', 'coinoutputid', 'blockstakeoutputid', 'unlockhash', 'filecontractid', '']


class Look:
    """one lookup: how to ask, which part of the answer matters, how to compare what is returned with the chain"""

    def __init__(self, name, endpoint, fn, check, hashtype=None):
        self.name, self.endpoint, self.fn, self.check, self.hashtype = name, endpoint, fn, check, hashtype


def lookups_of(w, cl):
    from tfchain.types.CryptoTypes import PublicKey
    r, c = w.rng, w.chain
    out = []
    hashes = '/explorer/hashes/'

    def block(m, by):
        return Look('block by ' + by, '/explorer/blocks/%d' % m['height'] if by == 'height' else hashes + m['id'],
                    lambda: cl.block_get(m['height'] if by == 'height' else m['id']), lambda b: same_block(b, m, c, 'block'),
                    None if by == 'height' else 'blockid')

    def tip():
        def check(i):
            if (i.height, i.timestamp, str(i.blockid)) != (c.height, c.time, c.tip['id']):
                raise OracleFail(HOME, 'the chain info says %r' % ((i.height, i.timestamp, i.blockid),))
            same_block(i.last_block, c.tip, c, 'last block')
        return Look('tip', r.choice(['/explorer', hashes + c.tip['id']]), cl.blockchain_info_get, check)

    def tx(m):
        return Look('transaction', hashes + m.id, lambda: cl.transaction_get(m.id), lambda t: same_tx(t, m, c, 'transaction'),
                    'transactionid')

    def output(m):
        def check(res):
            o, made, spent = res
            same_out(o, m, 'output')
            same_tx(made, c.txs[m.creator], c, 'creation')
            if (None if spent is None else str(spent.id)) != m.spender:
                raise OracleFail(HOME, 'output spent by %s, the chain says %s' % (spent and spent.id, m.spender))
            if spent is not None:
                same_tx(spent, c.txs[m.spender], c, 'spending')
        f = cl.coin_output_get if m.kind == 'coin' else cl.blockstake_output_get
        return Look('output', hashes + m.id, lambda: f(m.id), check, 'coinoutputid' if m.kind == 'coin' else 'blockstakeoutputid')

    def address(a):
        def check(u):
            same_address(u, a, c)
        return Look('address', hashes + a, lambda: cl.unlockhash_get(a), check, 'unlockhash')

    def erc20(a):
        def check(i):
            if (str(i.address_tft), ref.erc20_bin(str(i.address_erc20)), i.confirmations) != (a, ref.erc20_bin(c.erc20[a][0]), c.erc20[a][1]):
                raise OracleFail(HOME, 'ERC20 information of %s reads as %s %s %s' % (a, i.address_tft, i.address_erc20, i.confirmations))
        return Look('erc20', hashes + a, lambda: cl.erc20.address_get(a), check, 'unlockhash')

    def bot(b):
        by = r.choice(['id', 'name', 'key'])
        if by == 'name' and not b['names']:
            by = 'id'
        if by == 'key' and [x['publickey'] for x in c.bots.values()].count(b['publickey']) > 1:
            by = 'id'
        arg = {'id': lambda: b['id'], 'name': lambda: r.choice(b['names']), 'key': lambda: b['publickey']}[by]()
        if by == 'key' and r.random() < .5:
            arg = PublicKey.from_json(arg)
        b = copy.deepcopy(b)

        def check(x):
            got = (x.identifier, [str(n) for n in x.names], [str(n) for n in x.addresses], str(x.public_key), x.expiration)
            want = (b['id'], b['names'], b['addresses'], b['publickey'], b['expiration'])
            if got != want:
                raise OracleFail(HOME, '3Bot record reads as %r, the network has %r' % (got, want))
        return Look('bot by ' + by, '/explorer/whois/3bot/%s' % arg if by == 'name' else '/explorer/3bot/%s' % arg,
                    lambda: cl.threebot.record_get(arg), check)

    def mint():
        h = r.choice([None, c.height])
        want = c.active_mint(h)

        def check(x):
            if canon(x.json()) != canon(want):
                raise OracleFail(HOME, 'mint condition reads as %s' % x.json())
        return Look('mint', '/explorer/mintcondition' + ('' if h is None else '/%d' % h), lambda: cl.minter.condition_get(h), check)

    for m in r.sample(list(c.blocks.values()), min(3, len(c.blocks))):
        out += [block(m, 'height'), block(m, 'hash')]
    out.append(tip())
    for m in r.sample(list(c.txs.values()), min(3, len(c.txs))):
        out.append(tx(m))
    for table in (c.outs, c.bs_outs):
        for m in r.sample(list(table.values()), min(3, len(table))):
            out.append(output(m))
    used = [a for p in w.parties for a in w.own0(p) if c.txs_of(a)] + [a for a in (ref.cond_address(m) for m in w.multisigs) if c.txs_of(a)]
    for a in r.sample(used, min(3, len(used))):
        out.append(address(a))
    for a in list(c.erc20):
        out += [erc20(a), address(a)]
    for b in list(c.bots.values())[:2]:
        out.append(bot(b))
    if c.active_mint(None):
        out.append(mint())
    return out


def same_address(u, a, c):
    want = {m.id: m for m in c.txs_of(a)}
    if str(u.unlockhash) != a:
        raise OracleFail(HOME, 'answer for %s, asked for %s' % (u.unlockhash, a))
    got = sorted(str(t.id) for t in u.transactions)
    if got != sorted(want):
        raise OracleFail(HOME, 'address %s has transactions %r, the chain has %r' % (a, got, sorted(want)))
    for t in u.transactions:
        same_tx(t, want[str(t.id)], c, 'address')
    if sorted(str(m) for m in u.multisig_addresses) != sorted(c.multisig_of(a)):
        raise OracleFail(HOME, 'address %s has multisigs %r' % (a, u.multisig_addresses))
    i = u.erc20_info
    if (i is None) != (a not in c.erc20) or i is not None and (
            (str(i.address_tft), ref.erc20_bin(str(i.address_erc20)), i.confirmations) != (a, ref.erc20_bin(c.erc20[a][0]), c.erc20[a][1])):
        raise OracleFail(HOME, 'ERC20 information of %s: %s' % (a, i and (str(i.address_tft), str(i.address_erc20), i.confirmations)))


# ------------------------------------------------------------------ corruptions: (label, position, document or text, verdict)
def etxns(doc):
    """positions of the explorer transactions of an answer"""
    if 'transaction' in doc and isinstance(doc['transaction'], dict):
        return [('transaction',)]
    pre = ('block',) if 'block' in doc and isinstance(doc['block'], dict) else ()
    return [pre + ('transactions', n) for n in range(len(get(doc, pre).get('transactions') or []))]


def required(look, doc):
    """positions of the parts an answer cannot do without"""
    top = [k for k in ('hashtype', 'block', 'transaction', 'transactions', 'record', 'mintcondition', 'blockid') if doc.get(k) is not None]
    out = [(k,) for k in top]
    if look.name == 'erc20':
        out = [('hashtype',)]
    if doc.get('block'):
        out += [('block', k) for k in ('blockid', 'height', 'transactions', 'rawblock')] + [('block', 'rawblock', k) for k in ('parentid', 'timestamp')]
        for n, _ in enumerate(doc['block']['rawblock']['minerpayouts'] or []):
            out += [('block', 'rawblock', 'minerpayouts', n, k) for k in ('value', 'unlockhash')]
        if doc['block']['minerpayoutids']:
            out += [('block', 'minerpayoutids'), ('block', 'rawblock', 'minerpayouts')]
    if doc.get('record'):
        out += [('record', k) for k in ('id', 'publickey', 'expiration')]
    if doc.get('erc20info'):
        out += [('erc20info', k) for k in ('tftaddress', 'erc20address', 'confirmations')]
    if look.name != 'erc20':
        for t in etxns(doc):
            out += [t + (k,) for k in ('id', 'rawtransaction')] + [t + ('rawtransaction', k) for k in ('version', 'data')]
            if not get(doc, t).get('unconfirmed'):
                out.append(t + ('height',))
            out += [t + (k,) for k in PAIRED if get(doc, t).get(k)]
    return out


PAIRED = ('coininputoutputs', 'coinoutputids', 'blockstakeinputoutputs', 'blockstakeoutputids')


def remove(doc, path):
    doc = copy.deepcopy(doc)
    x = get(doc, path[:-1])
    del x[path[-1]]
    return doc


def kind(v):
    return ('null' if v is None else 'flag' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'float' if isinstance(v, float)
            else 'text' if isinstance(v, str) else 'list' if isinstance(v, list) else 'object')


def corruptions(w, look, doc, r):
    """one corruption"""
    c = w.chain
    k = r.choice(['other', 'hashtype', 'missing', 'missing', 'count', 'count', 'kind', 'kind', 'kind', 'text', 'set', 'near', 'near'])
    if k == 'near':
        return near(w, look, doc, r)
    if k == 'other':
        doc2, verdict = other(w, look, doc, r)
        return k, (), doc2, verdict
    if k == 'hashtype':
        if 'hashtype' not in doc:
            return None
        v = r.choice([x for x in HASHTYPES if x != doc['hashtype']])
        return k, v, put(doc, ('hashtype',), v), INVALID
    if k == 'missing':
        path = r.choice(required(look, doc))
        return k, path, remove(doc, path), MUST
    if k == 'count':
        pairs = []
        if doc.get('block'):
            pairs += [('block', 'minerpayoutids'), ('block', 'rawblock', 'minerpayouts')]
        if look.name != 'erc20':
            for t in etxns(doc):
                pairs += [t + (x,) for x in PAIRED]
        if not pairs:
            return None
        path = r.choice(pairs)
        l = list(get(doc, path) or [])
        grow = not l or r.random() < .5
        if grow:
            if l:
                l.insert(r.randrange(len(l) + 1), copy.deepcopy(r.choice(l)))
            else:
                l.append(w.chain.rand(32).hex() if path[-1].endswith('ids') else
                         {'value': '5', 'condition': cond_uh(w.foreign[0]), 'unlockhash': w.foreign[0]})
        else:
            l.pop(r.randrange(len(l)))
            if not l and r.random() < .5:
                l = None
        return k + (' more' if grow else ' less'), path, put(doc, path, l), INVALID
    if k == 'kind':
        cand = [p for p in required(look, doc)]
        path = r.choice(cand)
        v = get(doc, path)
        bad = {'null': None, 'flag': True, 'int': r.choice([7, -1]), 'float': 1.5, 'text': r.choice(['x', 'zz' * 32]),
               'list': r.choice([[1], ['x']]), 'object': r.choice([{'a': 1}, {'type': 1}])}
        if isinstance(v, (list, dict)):
            bad.update({'int': r.choice([0, 7]), 'text': r.choice(['', 'x']), 'list': r.choice([[], [1]]), 'object': r.choice([{}, {'a': 1}])})
        # null or something empty stands for the zero value, and a flag or a fraction is read as an integer: not judged
        skip = ('null', 'flag', 'float') if not isinstance(v, (list, dict)) else ('null',) if isinstance(v, list) else ()
        n = r.choice([x for x in bad if x != kind(v) and x not in skip])
        return k + ' ' + n, path, put(doc, path, bad[n]), MAY
    if k == 'text':
        b = json.dumps(doc).encode()
        x = r.randrange(8)
        if x < 3:
            b = b[:r.randrange(len(b))]
        elif x == 3:
            b = r.choice([b'', b' ', b'null', b'[]', b'5', b'true', b'"x"', b'{}', b'[{}]'])
        elif x == 4:
            b = r.choice([b'<html><body>Bad gateway</body></html>', b'404 page not found', b'\x00\x01\x02', b'\xff\xfe\x00'])
        elif x == 5:
            b = b + r.choice([b'}', b']', b'x', b'{}', b',', b'"'])
        elif x == 6:
            n = r.randrange(len(b))
            b = r.choice([b'x', b'}', b']', b'\x00', b',']) + b
        else:
            b = b"'" + b[1:]
        return k + ' %d' % x, (), b, MUST
    if k == 'set':
        if look.name != 'output':
            return None
        l = doc['transactions']
        y = r.randrange(5)
        spent = len(l) == 2
        if y == 0:
            l = []
        elif y == 1:
            l = l + [copy.deepcopy(l[0])] + ([] if spent else [copy.deepcopy(l[0])])
        elif y == 2:
            l = [copy.deepcopy(l[0])] * 2 if not spent else [t for t in l for _ in range(2)][:r.choice([3, 4])]
        elif y == 3 and spent:
            oid = look.endpoint.split('/')[-1]
            l = [t for t in l if oid not in (t['coinoutputids'] or []) + (t['blockstakeoutputids'] or [])]
        else:
            t = c.etxn(r.choice(list(c.txs.values())))
            if t['id'] in [x['id'] for x in l]:
                return None
            oid = look.endpoint.split('/')[-1]
            if not spent:
                l = l + [t]
            else:       # the transaction that made it replaced
                l = [t if oid in (x['coinoutputids'] or []) + (x['blockstakeoutputids'] or []) else x for x in l]
        return k, y, put(doc, ('transactions',), l), INVALID


def flip(h, r):
    """one hexadecimal digit changed, often at an end"""
    n = r.choice([0, len(h) - 1, r.randrange(len(h))])
    return h[:n] + r.choice([x for x in '0123456789abcdef' if x != h[n]]) + h[n + 1:]


def near(w, look, doc, r):
    """an answer that identifies itself as something slightly different from what was asked for"""
    out = []
    ask = look.endpoint.split('/')[-1]
    if 'hashtype' in doc:
        v = doc['hashtype']
        out.append((('hashtype',), r.choice([v[:-1], v + 's', v.upper(), v[1:], ' ' + v, v.replace('id', ''), v[0].upper() + v[1:]])))
    b = doc.get('block')
    if b and look.name == 'block by height':
        h = b['height']
        out += [(('block', 'height'), x) for x in (h + 1, h + 10, h + 1000, h + 2 ** 32, h - 1, -h) if x != h] * 2
    if b and 'hashtype' in doc:
        out += [(('block', 'blockid'), flip(b['blockid'], r)), (('block', 'blockid'), b['blockid'][:-2]), (('block', 'blockid'), b['blockid'] + '00')]
    if isinstance(doc.get('transaction'), dict):
        t = doc['transaction']
        out += [(('transaction', 'id'), flip(t['id'], r)), (('transaction', 'id'), t['id'][:-2]), (('transaction', 'id'), t['id'] + '00')]
    if look.name == 'output':
        for n, t in enumerate(doc['transactions']):
            for k in ('coinoutputids', 'blockstakeoutputids'):
                if ask in (t.get(k) or []):
                    out.append((('transactions', n, k, t[k].index(ask)), flip(ask, r)))
            raw = t['rawtransaction']['data']
            for k in ('coininputs', 'blockstakeinputs'):
                for m, i in enumerate(raw.get(k) or []):
                    if i['parentid'] == ask and len(doc['transactions']) == 2 and [x['parentid'] for x in raw[k]].count(ask) == 1:
                        out.append((('transactions', n, 'rawtransaction', 'data', k, m, 'parentid'), flip(ask, r)))
    if look.name == 'address':
        l = list(doc.get('multisigaddresses') or [])
        bad = ref.uh_text(r.choice([0, 1, 2]), w.chain.rand(32))
        out.append((('multisigaddresses',), r.choice([l + [bad], [bad] + l, [ref.uh_text(r.choice([1, 2]), bytes.fromhex(x[2:66])) for x in l] or [bad]])))
    if isinstance(doc.get('erc20info'), dict):
        a = doc['erc20info']['tftaddress']
        out += [(('erc20info', 'tftaddress'), ref.uh_text(2, bytes.fromhex(a[2:66]))),
                (('erc20info', 'tftaddress'), ref.uh_text(1, bytes.fromhex(flip(a[2:66], r))))] * 2
    if doc.get('record'):
        rec = doc['record']
        if '/3bot/' in look.endpoint and ask.isdigit() and 'whois' not in look.endpoint:
            i = rec['id']
            out += [(('record', 'id'), x) for x in (i + 1, i * 10 + r.randrange(10), int('1' + str(i)), i + 2 ** 32, i + 256) if x != i]
        elif look.name == 'bot by key':
            k = rec['publickey']
            out.append((('record', 'publickey'), k[:8] + flip(k[8:], r)))
        elif 'whois' in look.endpoint:
            others = [n for n in rec['names'] if n.lower() != ask.lower()]
            out.append((('record', 'names'), others + r.choice([[], [x for x in (ask + 'x', 'x' + ask, ask + '.abcde') if len(x) < 64]])))
    if not out:
        return None
    path, v = r.choice(out)
    return 'near', path, put(doc, path, v), INVALID


def other(w, look, doc, r):
    """a truthful answer to another question"""
    c = w.chain
    name = look.name.split()[0]
    same = r.random() < .6
    if same and name in ('block', 'tip'):
        b = r.choice([b for b in c.blocks.values() if b['height'] != (doc.get('block') or {}).get('height', c.height)] or [None])
        if b is None:
            return doc, MAY
        if 'blockid' in doc:
            return doc, MAY
        return ({'hashtype': 'blockid', 'block': c.eblock(b)} if 'hashtype' in doc else {'block': c.eblock(b)}), INVALID
    if same and name == 'transaction':
        t = r.choice(list(c.txs.values()))
        return ({'hashtype': 'transactionid', 'transaction': c.etxn(t)}, INVALID) if t.id != doc['transaction']['id'] else (doc, MAY)
    if same and name == 'output':
        tab = c.outs if doc['hashtype'] == 'coinoutputid' else c.bs_outs
        me = tab[look.endpoint.split('/')[-1]]
        o = r.choice(list(tab.values()))
        if o.creator == me.creator:
            return doc, MAY
        return c.answer_hash(o.id), INVALID
    if same and name == 'erc20' or name == 'address' and same:
        a = r.choice([x for x in c.erc20 if x != look.endpoint.split('/')[-1]] or [None])
        if a is None or 'erc20info' not in doc:
            return doc, MAY
        if r.random() < .5:
            return put(doc, ('erc20info',), c.answer_hash(a)['erc20info']), INVALID
        return put(doc, ('erc20info', 'tftaddress'), a), INVALID
    if same and name == 'bot':
        b = [dict(b) for b in c.bots.values() if str(b['id']) != str(doc['record']['id']) and b['publickey'] != doc['record']['publickey']]
        if not b:
            return doc, MAY
        return {'record': r.choice(b)}, INVALID
    h = r.choice([next(iter(c.txs), c.tip['id']), next(iter(c.outs), c.tip['id']), c.tip['id'], next(iter(c.bs_outs), c.tip['id']), w.foreign[0], w.parties[0].addr(0)])
    a = r.choice([{'mintcondition': cond_uh(w.foreign[0])}, {'blockid': c.tip['id'], 'height': c.height}, {'chaininfo': {'NetworkName': 'devnet'}},
                  {'message': 'internal error'}, {}, {'block': c.eblock(c.tip)}, {'transactionid': c.rand(32).hex()}, c.answer_hash(h)])
    if a is None or a.get('hashtype') == doc.get('hashtype') and a.get('hashtype') or set(a) == set(doc):
        return doc, MAY
    if name == 'block' and 'block' in a and 'hashtype' not in doc:
        return doc, MAY
    return a, INVALID


def judge(w, look, made, res, exc):
    """what a lookup made of a corrupted answer"""
    import tfchain.errors as E
    ctx = w.ctx
    label, where, doc, verdict = made
    what = '%s, answer with %s %s' % (look.name, label, '/'.join(map(str, where)) if isinstance(where, tuple) else where)
    key = (look.name, label, tuple(x for x in where if isinstance(x, str)) if isinstance(where, tuple) else where)
    if exc is not None:
        ctx.key(*key, type(exc).__name__)
        if isinstance(exc, E.ExplorerInvalidResponse):
            ctx.count('invalid_response')
        elif isinstance(exc, (E.ThreeBotNotFound, E.ExplorerNoContent)):
            if look.name != 'erc20' or isinstance(doc, dict) and 'erc20info' in doc:
                raise OracleFail(HOME, '%s: reported as not existing: %s' % (what, exc))
        elif verdict == INVALID:
            raise OracleFail(HOME, '%s: ends in %s: %s, not in an invalid response error' % (what, type(exc).__name__, exc))
        return
    if verdict in (MUST, INVALID):
        raise OracleFail(HOME, '%s: is accepted as %r' % (what, res))
    try:
        look.check(res)
    except OracleFail as e:
        raise OracleFail(HOME, '%s: is accepted, %s' % (what, e)) from e


LABEL = {'other': 'other_content', 'hashtype': 'hash_types', 'missing': 'missing', 'count': 'counts', 'kind': 'kinds', 'text': 'texts',
         'set': 'output_sets', 'near': 'near_misses'}


def world(ctx, n):
    r = ctx.rng
    w = World(ctx, parties=2, rich=r.random() < .3, keys=r.choice([1, 2]))
    c = w.chain
    w.run(r.randrange(0, 4))
    rich.fill(w, n)
    for p in w.parties:
        w.bot_new(p, 10 ** 6)
    for a in r.sample(w.own0(w.parties[0]) + w.own0(w.parties[1]), 2):
        c.erc20[a] = (ref.erc20_of_address(a) if r.random() < .7 else '0x' + c.rand(20).hex(), r.choice([0, 1, 30]))
    if r.random() < .5:
        w.set_mint(cond_uh(w.parties[0].addr(0)))
    return w


def answers(ctx):
    r = ctx.rng
    w = world(ctx, r.randrange(2, 7))
    p = w.parties[0]
    x = p.explorer

    def go():
        for look in lookups_of(w, p.client):
            for _ in range(8):
                made = []

                def mutate(endpoint, doc):
                    if endpoint != look.endpoint or made:
                        return doc
                    m = corruptions(w, look, doc, r)
                    if m is None or m[2] == doc:
                        return doc
                    made.append(m)
                    return m[2]
                x.budget = 5000
                x.mutate = mutate
                try:
                    res, exc = look.fn(), None
                except (MemoryError, RecursionError):
                    raise
                except Exception as e:
                    res, exc = None, e
                finally:
                    x.mutate = None
                if made:
                    ctx.count(LABEL[made[0][0].split()[0]])
                    judge(w, look, made[0], res, exc)
                elif exc is not None:
                    raise OracleFail({'C25'}, '%s fails with %s: %s' % (look.name, type(exc).__name__, exc))
            look.check(look.fn())       # the uncorrupted answer
            ctx.count('returned_unchanged')
            ctx.log('%s judged', look.name)
        ctx.sample({'lookup': look.name, 'endpoint': look.endpoint})
    drive(ctx, w, go)


def pushes(ctx):
    """the answer to a push"""
    import tfchain.errors as E
    from tfchain.types import transactions as T
    r = ctx.rng
    w = World(ctx, parties=1, rich=False)
    p, c = w.parties[0], w.chain
    for _ in range(12):
        c.grant([(cond_uh(p.addr(0)), 40 * ref.GRAIN)])

    def go():
        for _ in range(12):
            txn = None
            if r.random() < .5:
                txn = p.wallet.atomicswap.initiate(w.foreign[0], '3', '+1h', submit=False).transaction
                txn = w.sign(p, txn, submit=False).transaction
            h = c.rand(32).hex()
            ans, invalid = r.choice([
                ({}, True), ({'id': h}, True), ({'message': 'accepted'}, True), ({'TransactionID': h}, True),
                ({'transactionid': 5}, False), ({'transactionid': []}, False), ({'transactionid': {}}, False), ({'transactionid': 'x'}, False),
                ({'transactionid': h[:-2]}, False), ({'transactionid': h + '00'}, False), ({'transactionid': 'zz' * 32}, False),
                ({'transactionid': True}, False), ({'transactionid': 1.5}, False), ({'transactionid': h[:-1]}, False),
                ([], False), ([h], False), (h, False), (5, False), (None, False), (b'', False), (b'ok', False), (b'{"transactionid":', False),
                (b'{"transactionid":"' + h.encode(), False), (b'<html>', False), (b'\xff', False)])
            x = p.explorer
            x.budget = 5000
            x.mutate = lambda endpoint, doc: ans if endpoint == 'POST' and isinstance(ans, bytes) else (
                json.dumps(ans).encode() if endpoint == 'POST' else doc)
            n = len(c.pushed)
            try:
                if txn is not None:
                    what = 'transaction_put'
                    res = p.client.transaction_put(txn if r.random() < .5 else txn.json())
                else:
                    what = 'coins_send'
                    res = p.wallet.coins_send(w.foreign[0], '0.5')
            except E.ExplorerInvalidResponse:
                ctx.count('push_answers')
                ctx.count('invalid_response')
            except (MemoryError, RecursionError):
                raise
            except Exception as e:
                if invalid:
                    raise OracleFail(HOME, '%s answered with %r ends in %s: %s, not in an invalid response error' % (what, ans, type(e).__name__, e))
                ctx.count('push_answers')
            else:
                raise OracleFail(HOME, '%s answered with %r succeeds with %r' % (what, ans, res))
            finally:
                x.mutate = None
            ctx.key('push', what, repr(ans)[:20])
            if len(c.pushed) - n not in ((1,) if txn is None else (0, 1)):
                raise OracleFail(HOME, '%s answered with %r pushed %d transactions' % (what, ans, len(c.pushed) - n))
    drive(ctx, w, go)


def operations(ctx):
    """the n-th answer a wallet operation gets is corrupted"""
    r = ctx.rng
    w = world(ctx, r.randrange(0, 4))
    p, q = w.parties
    c, x = w.chain, p.explorer
    for _ in range(2):
        c.grant([(cond_uh(p.addr(0)), 2000 * ref.GRAIN)])
    names = [w.name()]
    mine = w.bot_new(p, 10 ** 7, names=names)
    theirs = w.bot_new(q, 10 ** 7)
    t = p.wallet

    def go():
        con = t.atomicswap.initiate(w.foreign[0], '3', '+1h')
        ops = {
            'balance': lambda: t.balance, 'transactions': lambda: t.transactions, 'multisigs': lambda: t.addresses_multisig,
            'coins_send': lambda: t.coins_send(w.foreign[0], '0.25'), 'builder': lambda: t.coin_transaction_builder_new().output_add(
                w.foreign[0], '0.25').send(),
            'swap': lambda: t.atomicswap.initiate(w.foreign[0], '1', '+1h'), 'erc20 send': lambda: t.erc20.coins_send('0x' + '12' * 20, '0.5'),
            'erc20 registration': lambda: t.erc20.address_register(), 'verify': lambda: t.atomicswap.verify(con.outputid),
            'refund': lambda: t.atomicswap.refund(con.outputid), 'redeem': lambda: t.atomicswap.redeem(con.outputid, con.secret),
            'bot': lambda: t.threebot.record_new(1, names=[w.name()]), 'bot update': lambda: t.threebot.record_update(mine['id'], months=1),
            'bot transfer': lambda: t.threebot.name_transfer(mine['id'], theirs['id'], names),
            'mint': lambda: t.minter.coins_new(w.foreign[0], '5') if c.active_mint(None) else t.balance,
            'erc20 lookup': lambda: t.erc20.addresses_get()}
        for name in r.sample(sorted(ops), 6):
            for n in range(40):
                seen, made = [0], []
                looks = {'/explorer': 'tip'} if name != 'erc20 lookup' else {}

                def mutate(endpoint, doc):
                    if endpoint == 'POST':
                        made.append(None)       # too late, pushed
                        return doc
                    seen[0] += 1
                    if seen[0] - 1 != n or made:
                        return doc
                    look = Look(looks.get(endpoint, 'erc20' if name == 'erc20 lookup' else 'operation'), endpoint, None, None)
                    for _ in range(20):
                        m = corruptions(w, look, doc, r) if endpoint != '/explorer' else ('text 9', (), b'{"blockid":', MUST)
                        if m is not None and m[3] != MAY and m[2] != doc:
                            made.append(m)
                            return m[2]
                    return doc
                x.budget, x.mutate = 5000, mutate
                pushed = len(c.pushed)
                try:
                    res, exc = ops[name](), None
                except (MemoryError, RecursionError):
                    raise
                except Exception as e:
                    res, exc = None, e
                finally:
                    x.mutate = None
                m = made[0] if made else None
                if m is None:
                    if seen[0] <= n:
                        break
                    continue
                what = '%s, answer %d with %s %s' % (name, n, m[0], '/'.join(map(str, m[1])) if isinstance(m[1], tuple) else m[1])
                if exc is None:
                    raise OracleFail(HOME, '%s: no error but %r' % (what, res))
                if len(c.pushed) != pushed:
                    raise OracleFail(HOME, '%s: pushed a transaction although it failed with %s' % (what, exc))
                ctx.count('operations')
                ctx.key('op', name, min(n, 5), m[0], type(exc).__name__)
        ctx.sample({'operation': name})
    drive(ctx, w, go)


PARTS = [('answers', 480, 12000, answers), ('pushes', 32, 400, pushes), ('operations', 96, 2400, operations)]
