"""Transactions survive a JSON exchange unchanged; malformed documents are refused."""
import copy
import json
import os

from .. import ref
from ..gen import Gen, lib, build, unsigned, paths, put, get, has_secretless, VERSIONS
from .c07 import signers, objects

RULE = ('Random transactions of all versions (partly signed, absent/null/empty parts, shuffled keys) read from JSON text, bytes or dict '
        'and written back, compared as documents, by hashes, ids, signature requests and completeness, twice; and the same documents '
        'with one malformed part (version, type, address, hash, amount, key, signature, name, number), which must be refused. '
        'distinct = distinct (version, shape) and (version, malformed part).')
REQUIRED = ['unfunded', 'round_trips', 'refused', 'requests_compared', 'golden', 'unknown_versions'] + ['v%d' % v for v in VERSIONS]
ASSUMPTIONS = ['two documents are equivalent when they differ only in absent, null or empty parts, letter case of hexadecimal text and '
               'how an unset key or signature is written']


def foreign(x):
    """a value that is no plain JSON value"""
    if type(x) is dict:
        for k, v in x.items():
            if type(k) is not str:
                return k
            b = foreign(v)
            if b is not None:
                return b
        return None
    if type(x) is list:
        for v in x:
            b = foreign(v)
            if b is not None:
                return b
        return None
    return None if x is None or type(x) in (str, int, bool) else repr(x) + ' of ' + repr(type(x))


def norm(x):
    """a document without parts that mean nothing"""
    if isinstance(x, dict):
        r = {k: norm(v) for k, v in x.items()}
        r = {k: v for k, v in r.items() if v not in (None, [], {}, '')}
        if r.get('type') == 0:
            r.pop('type')
        return r
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def canonical(js):
    """the document the library is expected to print, up to norm()"""
    d = copy.deepcopy(js)
    x = d['data']

    def key(o, k='publickey'):
        if o.get(k) == '':
            o[k] = ':' + '0' * 64          # how an unset key is printed
    for i in ref.lst(x, 'coininputs') + ref.lst(x, 'blockstakeinputs') + ([{'fulfillment': x['mintfulfillment']}]
                                                                         if x.get('mintfulfillment') else []):
        key(i['fulfillment']['data'])
    if js['version'] == 145 and not x.get('nrofmonths'):
        x['nrofmonths'] = 0
    if js['version'] == 210:
        a = ref.pubkey_address(x['pubkey'])
        x['tftaddress'], x['erc20address'] = a, ref.erc20_of_address(a)
    return norm(d)


def view(ctx, txn, js, g, ps, bps):
    """everything a user can observe of a transaction that must survive the exchange"""
    PublicKey, Secret, B, E = objects()
    g.attach(txn, ps, bps)
    if js['version'] == 145:
        txn.parent_public_key = PublicKey.from_json(g.pks[0])
    if js['version'] == 146:
        txn.sender_parent_public_key = PublicKey.from_json(g.pks[0])
        txn.receiver_parent_public_key = PublicKey.from_json(g.pks[1])
    pk = PublicKey.from_json(g.pks[2])
    reqs = [(q.wallet_address, str(q.input_hash_new(pk))) for q in txn.signature_requests_new()]
    ctx.count('requests_compared', len(reqs))
    n = len(ref.coin_outputs(js))
    ids = {}
    if not any(p[-1] == 'publickey' and v == '' for p, v in paths(js)):       # identifiers exist once every key is known
        ids = {'coin ids': [str(txn.coin_outputid_new(i)) for i in range(n)],
               'bs ids': [str(txn.blockstake_outputid_new(i)) for i in range(len(ref.bs_outputs(js)))],
               'binary': bytes(txn.binary_encode()).hex()}
    return {'version': int(txn.version), **ids, 'requests': reqs, 'fulfilled': txn.is_fulfilled(),
            'hashes': [bytes(txn.signature_hash_get(*a)).hex() for _, a, _ in signers(js)] if not g.blank else [
                bytes(txn.signature_hash_get()).hex()],
            'values': [str(o.value) for o in txn.coin_outputs], 'owners': [str(o.condition.unlockhash) for o in txn.coin_outputs],
            'data': bytes(txn.data.value if hasattr(txn.data, 'value') else txn.data).hex(),
            'fees': [str(f) for f in txn.miner_fees]}


def partly(r, js):
    """some signatures removed"""
    u = unsigned(js)
    if r.random() < .3:
        return u
    d = copy.deepcopy(js)
    x, y = d['data'], u['data']
    for k in ('coininputs', 'blockstakeinputs'):
        for n, _ in enumerate(ref.lst(x, k)):
            if r.random() < .4:
                x[k][n] = y[k][n]
    for k in ('mintfulfillment', 'signature', 'sender', 'receiver', 'identification'):
        if k in x and r.random() < .4:
            x[k] = y[k]
    return d


def round_trip(ctx):
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx()
    full = js
    if r.random() < .6:
        js = partly(r, js)
        if r.random() < .1 and js['data'].get('coininputs'):        # not funded yet
            js['data']['coininputs'], ps = [], []
            ctx.count('unfunded')
    g.blank = js is not full
    ctx.count('v%d' % js['version'])
    orig = copy.deepcopy(js)
    k = r.randrange(4)
    from tfchain.types import transactions as T
    arg = [js, json.dumps(js), json.dumps(js).encode(), json.dumps(js, indent=1)][k]
    a = T.from_json(arg)
    ctx.eq(js, orig, 'the document after it was read')
    out = a.json()
    bad = foreign(out)
    ctx.check(bad is None, 'JSON of a v%d transaction holds %s', js['version'], bad)
    text = json.dumps(out)
    back = json.loads(text)
    want = canonical(js)
    ctx.eq(norm(back), want, 'v%d JSON' % js['version'])
    ctx.eq(a.json(), out, 'JSON when written twice')
    b = T.from_json(back)
    secretless = has_secretless(js)
    va = view(ctx, a, js, g, ps, bps)
    ctx.eq(view(ctx, b, js, g, ps, bps), va, 'v%d after an exchange' % js['version'])
    ctx.eq(json.loads(json.dumps(b.json())), back, 'JSON of the exchanged transaction')
    c = build(js, ps, bps, r) if js is full else None
    if c is not None and not secretless:
        ctx.eq(norm(json.loads(json.dumps(c.json()))), want, 'v%d JSON of the built transaction' % js['version'])
        ctx.eq(view(ctx, c, js, g, ps, bps), va, 'v%d built and read' % js['version'])
    # the signatures already given are still there
    ctx.eq(sigs(back), sigs(orig), 'signatures after an exchange')
    ctx.count('round_trips')
    ctx.key(js['version'], g.blank, k, len(ref.coin_outputs(js)) > 0, va['fulfilled'])
    ctx.sample({'version': js['version'], 'partly signed': g.blank})


def sigs(js):
    return sorted((p, v) for p, v in paths(js) if p[-1] in ('signature', 'secret') and v)


WRONG = [None, True, 5, 1.5, [], {}, ['x'], {'a': 1}, 'zz', 'not hex', '  ', b'']


def broken(ctx):
    """one malformed part in an otherwise fine document"""
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx()
    cand = list(paths(js['data']))
    r.shuffle(cand)
    n = 0
    for p, v in cand:
        k = [x for x in p if isinstance(x, str)][-1]
        names = [x for x in p if isinstance(x, str)]
        if k in ('tftaddress', 'erc20address'):
            continue                       # the library derives these
        bads = wrong(r, g, k, names, v)
        if not bads:
            continue
        label, bad = r.choice(bads)
        if bad == v and v == '':
            continue
        d2 = put(js, ('data',) + p, bad)
        try:
            t = lib(d2)
        except Exception as e:
            ctx.count('refused')
            ctx.key(js['version'], k, label)
            n += 1
            if n >= 6:
                break
            continue
        if k == 'regfee' and t.json()['data'].get('regfee') == bad:
            continue                       # kept as it is: the network judges the fee
        ctx.fail('v%d with %s (%s) at %s is accepted as %s', js['version'], repr(bad)[:120], label, '.'.join(map(str, p)),
                 json.dumps(t.json(), default=str)[:600])


def flip(r, s, a='0123456789abcdef'):
    i = r.randrange(len(s))
    c = r.choice([x for x in a if x != s[i].lower()])
    return s[:i] + c + s[i + 1:]


def wrong(r, g, k, names, v):
    h = lambda n: g.rand(n).hex()
    typ = [('wrong type', x) for x in (5, True, 1.5, ['x'], {'a': 1})]
    if k in ('parentid', 'hashedsecret', 'secret'):
        return typ + [('short', v[:-2]), ('long', v + '00'), ('not hexadecimal', 'g' + v[1:]), ('odd', v[:-1]), ('prefixed', '0x' + v)]
    if k in ('blockid', 'txid'):
        return typ + [('short', v[:-2]), ('long', v + '00'), ('not hexadecimal', v[:2] + 'g' + v[3:]), ('odd', v[:-1])]
    if k == 'signature':
        return typ + [('short', v[:-2]), ('long', v + '00'), ('not hexadecimal', 'g' + v[1:]), ('half', v[:64])]
    if k in ('publickey', 'pubkey'):
        return typ + [('short', v[:-2]), ('long', v + '00'), ('algorithm', 'ed25518' + v[7:]), ('algorithm', 'secp256k1' + v[7:]),
                      ('no algorithm', v[8:]), ('two', v + ':' + v[8:]), ('not hexadecimal', v[:-1] + 'x')]
    if k in ('unlockhash', 'unlockhashes') or len(str(v)) == 78 and k in ('sender', 'receiver', 'address'):
        if v == ref.NIL:
            return typ + [('checksum', flip(r, v)), ('short', v[:-2]), ('long', v + '00')]
        i = r.randrange(66, 78)
        return typ + [('checksum', v[:i] + flip(r, v[i:])), ('hash', v[:2] + flip(r, v[2:66]) + v[66:]), ('type', '02' + v[2:]),
                      ('type', '00' + v[2:]), ('short', v[:-2]), ('long', v + '00'), ('not hexadecimal', v[:-1] + 'g'),
                      ('space', v[:-1] + ' '), ('null', None)]
    if k == 'address' and len(v) == 42:
        return typ + [('short', v[:-2]), ('long', v + '00'), ('not hexadecimal', v[:-1] + 'g')]
    if k in ('value', 'minerfees', 'txfee') and 'blockstakeoutputs' not in names:
        return typ + [('negative', '-' + (v if v != '0' else '1')), ('fraction', v + '.5'), ('not a number', 'x' + v), ('text', 'ten'),
                      ('hexadecimal', '0x10')]
    if k == 'regfee':
        return typ + [('another fee', str(int(v) + r.choice([-1, 1, -int(v), ref.GRAIN]))), ('negative', '-' + v), ('text', 'ten')]
    if k == 'value':
        return typ[1:] + [('negative', '-' + (v if v != '0' else '1')), ('fraction', v + '.5'), ('text', 'ten')]
    if k == 'names' or names[-2:-1] == ['names']:
        return typ + [('short', 'abc'), ('digit', '1' + v[1:]), ('long', v + 'a' * 63), ('dots', v[:4] + '..' + v[6:]),
                      ('space', v[:2] + ' ' + v[3:]), ('line end', v[:50] + '\n')]
    if k == 'addresses' or names[-2:-1] == ['addresses']:
        return typ + [('no host', 'a b c'), ('ip', '300.1.1.1'), ('line end', 'a.org\n'), ('empty label', 'a..org')]
    if k in ('type',):
        return [('unknown', 77), ('text', 'x'), ('negative', -1), ('text', '1')]
    if k in ('minimumsignaturecount', 'locktime', 'timelock'):
        return [('text', 'x'), ('list', [1]), ('object', {}), ('fraction', v + .5), ('float', float(v))]
    if k in ('nrofmonths',) or k == 'id':
        return [('text', 'x'), ('list', [1]), ('object', {'a': 1}), ('fraction', v + .25)] + ([('float', float(v))] if v else [])
    if k in ('arbitrarydata', 'nonce'):
        return typ
    return []


def versions(ctx):
    from tfchain.types import transactions as T
    from tfchain.errors import UnknownTransansactionVersion as U
    r = ctx.rng
    g = Gen(r)
    js, ps, bps = g.tx()
    known = set(VERSIONS) | {0}
    for v in [x for x in range(256) if x not in known] + [-1, 256, 1000, 2 ** 32 + 1, '1', None, [], {}, 1.5, '', 'x', '128']:
        d = dict(js, version=v)
        try:
            t = T.from_json(d)
        except U:
            ctx.count('unknown_versions')
            continue
        ctx.fail('version %r is accepted as %d', v, int(t.version))
    for bad in (None, 5, [], [js], 1.5, True, '', 'x', '[]', '5', 'null', b'\xff', '{"version":1', 'nonsense'):
        try:
            t = T.from_json(bad)
        except Exception:
            ctx.count('refused')
            continue
        ctx.fail('%r is accepted as a transaction of version %d', bad, int(t.version))
    try:
        t = T.from_json({'data': js['data']})
    except U:
        ctx.count('unknown_versions')
    else:
        ctx.fail('a document without version is accepted as version %d', int(t.version))
    # the version classes refuse documents of another version
    classes = {1: T.new, 128: T.mint_definition_new, 129: T.mint_coin_creation_new, 144: T.threebot_registration_new,
               145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new, 208: T.erc20_convert_new,
               209: T.erc20_coin_creation_new, 210: T.erc20_address_registration_new}
    for v, f in classes.items():
        t = f()
        ctx.eq(int(t.version), v, 'version of a new transaction')
        if v != js['version']:
            try:
                type(t).from_json(copy.deepcopy(js))
            except ValueError:
                ctx.count('refused')
            else:
                ctx.fail('a v%d document is read as version %d', js['version'], v)
    ctx.key('versions')


def golden(ctx):
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'golden.json')) as f:
        gold = json.load(f)
    n = 0
    for k, o in sorted(gold.items()):
        js = o['tx']
        if js['version'] == 0:
            continue
        out = json.loads(json.dumps(lib(js).json()))
        ctx.eq(norm(out), canonical(js), 'recorded transaction ' + k)
        n += 1
    ctx.count('golden', n)
    ctx.key('golden')


PARTS = [('round_trip', 2500, 80000, round_trip), ('broken', 2500, 80000, broken), ('versions', 8, 60, versions), ('golden', 1, 1, golden)]
