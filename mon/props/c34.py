"""A transaction object holds exactly what its document says and what was set on it."""
import base64
import copy
import json

from .. import ref
from ..gen import Gen, lib, build, tweak, VERSIONS
from .c09 import canonical, norm

RULE = ('Random transactions of all versions, read, built and exchanged: every public attribute (inputs, fulfillments, keys, signatures, '
        'outputs, owners, locks, swap terms, co-owners, amounts, fees, data, names, network addresses, months, identifiers) is compared '
        'with the document; then random assignments and additions, valid and invalid ones, are made and after each one all attributes, the '
        'document and the binary form are compared with a model document that was changed alike. distinct = distinct (version, '
        'operation, shape).')
REQUIRED = ['views', 'sets', 'refused_sets', 'parent_outputs', 'bot_fees', 'copied', 'equal', 'unequal', 'fresh', 'looked_at'] + ['v%d' % v for v in VERSIONS]
ASSUMPTIONS = ['the object of a value that was assigned may be shared with the one it was taken from']


def binary(js):
    v = js['version']
    b = ref.id_input(js)
    return b if v == 1 else bytes([v]) + b[16:]


# ------------------------------------------------------------------ what the library says
def hx(x):
    v = x.value
    return bytes(v).hex() if v is not None else ''


def grains(c):
    return int(c)


def l_cond(c):
    t = int(c.type) if not isinstance(c.type, (bytes, bytearray)) else c.type[0]
    out = [t, str(c.unlockhash), int(c.lock)]
    k = type(c).__name__
    if t == 2:
        out += [str(c.sender), str(c.receiver), hx(c.hashed_secret), c.lock_time]
    elif t == 3:
        out.append(l_cond(c.condition))
    elif t == 4:
        out += [[str(u) for u in c.unlockhashes], c.required_signatures]
    elif t not in (0, 1):
        out.append(k)
    return out


def l_key(k):
    return str(k)


def l_ful(f):
    t = int(f.type) if not isinstance(f.type, (bytes, bytearray)) else f.type[0]
    if t == 3:
        return [t, [[l_key(p.public_key), hx(p.signature)] for p in f.pairs]]
    out = [t, l_key(f.public_key), hx(f.signature)]
    if t == 2:
        s = hx(f.secret)
        out.append(s if s.strip('0') else '')
    return out


def library(t):
    o = {'version': int(t.version),
         'inputs': [[str(i.parentid), l_ful(i.fulfillment)] for i in t.coin_inputs],
         'outputs': [[grains(x.value), l_cond(x.condition)] for x in t.coin_outputs],
         'bsinputs': [[str(i.parentid), l_ful(i.fulfillment)] for i in t.blockstake_inputs],
         'bsoutputs': [[int(x.value), l_cond(x.condition)] for x in t.blockstake_outputs],
         'fees': [grains(f) for f in t.miner_fees],
         'data': bytes(t.data.value if hasattr(t.data, 'value') else t.data).hex()}
    v = o['version']
    if v in (128, 129):
        o['mint'] = l_ful(t.mint_fulfillment)
    if v == 128:
        o['condition'] = l_cond(t.mint_condition)
    if v in (144, 145, 146, 208, 209, 210):
        o['txfee'] = grains(t.transaction_fee)
    if v in (144, 145, 146, 208, 210):
        r = t.refund_coin_output
        o['refund'] = [] if r is None or (not t.coin_outputs and grains(r.value) == 0) else [grains(r.value), l_cond(r.condition)]
    if v in (144, 145, 146):
        o['botfees'] = grains(t.required_bot_fees)
    if v == 144:
        o.update(months=t.number_of_months, names=[str(n) for n in t.names], addresses=[str(a) for a in t.addresses],
                 key=l_key(t.public_key), signature=hx(t.signature))
    if v == 145:
        o.update(months=t.number_of_months, bot=t.botid, signature=hx(t.signature),
                 names=[[str(n) for n in t.names_to_add], [str(n) for n in t.names_to_remove]],
                 addresses=[[str(n) for n in t.addresses_to_add], [str(n) for n in t.addresses_to_remove]])
    if v == 146:
        o.update(bots=[t.sender_botid, t.receiver_botid], names=[str(n) for n in t.names],
                 signatures=[hx(t.sender_signature), hx(t.receiver_signature)])
    if v == 208:
        o.update(address=hx(t.address), value=grains(t.value))
    if v == 209:
        o.update(address=str(t.address), value=grains(t.value), block=hx(t.blockid), tx=hx(t.transactionid))
    if v == 210:
        o.update(key=l_key(t.public_key), signature=hx(t.signature), regfee=grains(t.registration_fee))
    return o


# ------------------------------------------------------------------ what the document says
def m_cond(c):
    c = c or {}
    t, d = c.get('type', 0), c.get('data') or {}
    out = [t, ref.cond_address(c), ref.cond_lock(c)]
    if t == 2:
        out += [d['sender'], d['receiver'], d['hashedsecret'], d['timelock']]
    elif t == 3:
        out.append(m_cond(d.get('condition')))
    elif t == 4:
        out += [list(d['unlockhashes']), d['minimumsignaturecount']]
    return out


def m_ful(f):
    t, d = f['type'], f['data']
    if t == 3:
        return [t, [[p['publickey'], p['signature']] for p in d['pairs']]]
    out = [t, d['publickey'], d['signature']]
    if t == 2:
        s = d.get('secret') or ''
        out.append(s if s.strip('0') else '')
    return out


def netaddr(a):
    t, b = ref.netaddr_parse(a)
    if t == 0:
        return a
    import ipaddress
    return str(ipaddress.ip_address(b))


def model(js):
    v, d = js['version'], js['data']
    lst = ref.lst
    o = {'version': v,
         'inputs': [[i['parentid'], m_ful(i['fulfillment'])] for i in lst(d, 'coininputs')],
         'outputs': [[ref.cur(x['value']), m_cond(x.get('condition'))] for x in ref.coin_outputs(js)],
         'bsinputs': [[i['parentid'], m_ful(i['fulfillment'])] for i in lst(d, 'blockstakeinputs')],
         'bsoutputs': [[ref.cur(x['value']), m_cond(x.get('condition'))] for x in ref.bs_outputs(js)],
         'fees': [ref.cur(f) for f in lst(d, 'minerfees')] if v in (1, 128, 129) else [ref.cur(d.get('txfee'))],
         'data': ref.data_of(js).hex()}
    if v in (128, 129):
        o['mint'] = m_ful(d['mintfulfillment'])
    if v == 128:
        o['condition'] = m_cond(d['mintcondition'])
    if v in (144, 145, 146, 208, 209, 210):
        o['txfee'] = ref.cur(d.get('txfee'))
    if v in (144, 145, 146, 208, 210):
        r = d.get('refundcoinoutput')
        o['refund'] = [ref.cur(r['value']), m_cond(r.get('condition'))] if r else []
    if v in (144, 145, 146):
        o['botfees'] = ref.bot_fee(js)
    if v == 144:
        o.update(months=d['nrofmonths'], names=lst(d, 'names'), addresses=[netaddr(a) for a in lst(d, 'addresses')],
                 key=d['identification']['publickey'], signature=d['identification']['signature'])
    if v == 145:
        a, n = d.get('addresses') or {}, d.get('names') or {}
        o.update(months=d.get('nrofmonths') or 0, bot=d['id'], signature=d['signature'],
                 names=[lst(n, 'add'), lst(n, 'remove')],
                 addresses=[[netaddr(x) for x in lst(a, 'add')], [netaddr(x) for x in lst(a, 'remove')]])
    if v == 146:
        o.update(bots=[d['sender']['id'], d['receiver']['id']], names=lst(d, 'names'),
                 signatures=[d['sender']['signature'], d['receiver']['signature']])
    if v == 208:
        o.update(address=ref.erc20_bin(d['address']).hex(), value=ref.cur(d['value']))
    if v == 209:
        o.update(address=d['address'], value=ref.cur(d['value']), block=ref.erc20_bin(d['blockid']).hex(),
                 tx=ref.erc20_bin(d['txid']).hex())
    if v == 210:
        o.update(key=d['pubkey'], signature=d['signature'], regfee=ref.cur(d['regfee']))
    return o


def compare(ctx, txn, js, what):
    got, want = library(txn), model(js)
    ctx.count('views')
    for k in want:
        if got[k] != want[k]:
            if k == 'fees' and not got[k] and want[k] == [0]:
                continue                        # no fee or a fee of nothing
            ctx.fail('%s: %s of a version %d transaction is %r, the document says %r (%s)', what, k, js['version'], got[k], want[k],
                     json.dumps(js)[:1200])
    ctx.key(js['version'], what.split(' ')[0], min(3, len(want['inputs'])), min(3, len(want['outputs'])))


def whole(ctx, txn, js, what):
    compare(ctx, txn, js, what)
    a, b = norm(txn.json()), canonical(js)
    if a != b:
        ctx.fail('%s: the document is %s, expected %s', what, json.dumps(a)[:1500], json.dumps(b)[:1500])
    x, y = bytes(txn.binary_encode()).hex(), binary(js).hex()
    if x != y:
        ctx.fail('%s: encoded as %s, expected %s', what, x, y)


def documents(ctx):
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx(secretless=False)
    ctx.count('v%d' % js['version'])
    ctx.sample({'version': js['version'], 'attributes': sorted(model(js))})
    a = lib(js)
    compare(ctx, a, js, 'read')
    b = build(js, ps, bps, r)
    compare(ctx, b, js, 'built')
    if js['version'] not in (128, 129):
        for ins, l in ((b.coin_inputs, ps), (b.blockstake_inputs, bps)):
            for i, p in zip(ins, l):
                o = i.parent_output
                ctx.count('parent_outputs')
                ctx.check(o is not None and str(o.id) == str(i.parentid) and int(o.value) == ref.cur(p['value']) and
                          l_cond(o.condition) == m_cond(p['condition']), 'input of a built transaction has parent %r, not %r', o, p)
    c = lib(json.loads(json.dumps(b.json())))
    compare(ctx, c, js, 'exchanged')
    compare(ctx, a, js, 'read, later')
    # the inputs handed to another transaction, with what is known and not known about the outputs they spend
    v = js['version']
    if v in (1, 144, 145, 146, 208, 210):
        e = copy.deepcopy(js)
        e['data']['coininputs'] = []
        if v == 1:
            e['data']['blockstakeinputs'] = []
        for src, known in ((a, False), (b, True)):
            t = lib(copy.deepcopy(e))
            t.coin_inputs = src.coin_inputs
            if v == 1:
                t.blockstake_inputs = src.blockstake_inputs
            compare(ctx, t, js, 'with copied inputs')
            for ins, l in ((t.coin_inputs, ps), (t.blockstake_inputs, bps)):
                for i, p in zip(ins, l):
                    o = i.parent_output
                    got = [str(o.id), int(o.value), l_cond(o.condition)]
                    want = [str(i.parentid), ref.cur(p['value']), m_cond(p['condition'])] if known else ['0' * 64, 0, m_cond({})]
                    ctx.check(got == want, 'copied input has parent output %r, not %r', got, want)
            ctx.eq([str(q.wallet_address) for q in t.signature_requests_new()], [str(q.wallet_address) for q in src.signature_requests_new()],
                   'signature requests of a transaction with copied inputs (parents %s)' % ('known' if known else 'unknown'))
            ctx.eq(bool(t.is_fulfilled()), bool(src.is_fulfilled()), 'fulfilled state with copied inputs')
            ctx.count('copied')
    # equality, use in sets, and printing
    h, h2 = g.rand(32).hex(), g.rand(32).hex()
    if r.random() < .5:                     # identifiers that differ in one digit only
        n = r.choice([0, 63, r.randrange(64)])
        h2 = h[:n] + '%x' % (int(h[n], 16) ^ r.randrange(1, 16)) + h[n + 1:]
    d = lib(js)
    ctx.check(a == c and a == d and not a != c and hash(a) == hash(c) and len({a, c, d}) == 1, 'a version %d transaction and its copy differ: %s',
              v, json.dumps(js)[:1000])
    ctx.check(str(a).startswith('transaction v%d' % v), 'a version %d transaction without identifier is printed as %r', v, str(a))
    o = lib(copy.deepcopy(js))
    l = tweak(g, o)
    if l is not None and norm(o.json()) != canonical(js):
        ctx.check(not a == o and a != o and len({a, o}) == 2, 'transactions that differ in %s compare as equal: %s', l, json.dumps(js)[:1000])
        ctx.count('unequal')
    a.id, c.id, d.id = h, bytes.fromhex(h), h2
    if r.random() < .5:                     # where a transaction stands in the chain does not make it another one
        for x in (a, c, d):
            x.unconfirmed = r.random() < .5
            if not x.unconfirmed or r.random() < .3:
                x.height = n = r.choice([0, 1, r.randrange(10 ** 6), r.randrange(10 ** 9), 2 ** 40])
                ctx.eq(x.height, n, 'height of a transaction')
        if l is not None and norm(o.json()) != canonical(js):
            o.id = h
            ctx.check(a == o and hash(a) == hash(o), 'two transactions %s compare as different', h)
    ctx.check(a.id == h and c.id == h and d.id == h2, 'identifiers %s and %s are kept as %s, %s and %s', h, h2, a.id, c.id, d.id)
    ctx.check(a == c and not a == d and len({a, c, d}) == 2 and hash(a) == hash(c), 'transactions with identifiers %s, %s, %s', a.id, c.id, d.id)
    ctx.check('v%d' % v in str(a) and h in str(a), 'transaction %s of version %d is printed as %r', h, v, str(a))
    ctx.count('equal')
    if js['version'] in (144, 145, 146):
        ctx.count('bot_fees')


# ------------------------------------------------------------------ assignments
def change(ctx, g, t, d, v):
    """one random valid assignment or addition, made on the object and on the model; its name"""
    from tfchain.types import ConditionTypes as C, FulfillmentTypes as F
    from tfchain.types.PrimitiveTypes import Currency, Hash
    from tfchain.types.CryptoTypes import PublicKey
    from tfchain.types.IO import CoinOutput, CoinInput
    r = g.rng

    def cur():
        n = g.value(True)
        return r.choice([Currency.from_json(str(n)), '%d.%09d' % divmod(n, ref.GRAIN), '%d.%09d TFT' % divmod(n, ref.GRAIN)]), str(n)

    def cnd():
        c = g.cond()
        return C.from_json(c), c

    def out():
        v_, vj = cur() if r.random() < .8 else (Currency(), '0')
        c, cj = cnd()
        return v_, c, {'value': vj, 'condition': cj}

    def ful():
        f = g.ful(g.cond(), secretless=False)
        return F.from_json(f), f

    def key():
        p = g.pk()
        return PublicKey.from_json(p), p

    def sig():
        s = g.sig()
        return r.choice([s, bytes.fromhex(s), F.ED25519Signature(s)]), s
    def oid():
        h = g.rand(32)
        return r.choice([None, (h.hex(), h.hex()), (h, h.hex()), (Hash(value=h), h.hex())])

    def shown(o):
        return None if str(o.id) == '0' * 64 else str(o.id)
    ops = []
    if v in (1, 128, 129):
        ops += ['data', 'minerfee']
    else:
        ops += ['txfee']
    if v in (1, 129):
        ops += ['outputs', 'outputadd']
    if v in (1, 144, 145, 146, 208, 210):
        ops += ['inputadd', 'inputs', 'inputset']
    if v in (144, 145, 146, 208, 210):
        ops += ['refund', 'refundgone', 'refundlist']
    if v == 1:
        ops += ['bsinputadd', 'bsoutputadd', 'bsclear']
    ops += {1: [], 128: ['mintcondition', 'mintful'], 129: ['mintful'],
            144: ['names', 'nameadd', 'addresses', 'addressadd', 'months', 'key', 'signature'],
            145: ['names2', 'addresses2', 'months', 'bot', 'signature', 'nameadd2', 'addressadd2'],
            146: ['names', 'nameadd', 'sender', 'receiver', 'sendersig', 'receiversig'],
            208: ['erc20', 'value'], 209: ['address', 'value', 'block', 'tx'], 210: ['key', 'signature', 'regfee']}[v]
    if v != 209 and t.coin_outputs:
        ops += ['outputset', 'outputcond']
    op = r.choice(ops + ['again'])
    L = lambda k: d.setdefault(k, []) if d.get(k) is not None else d.__setitem__(k, []) or d[k]
    if op == 'again':       # its own value once more
        names = [n for n in ('coin_inputs', 'coin_outputs', 'blockstake_inputs', 'blockstake_outputs', 'names', 'addresses', 'names_to_add',
                             'names_to_remove', 'addresses_to_add', 'addresses_to_remove', 'data', 'transaction_fee', 'number_of_months',
                             'public_key', 'value', 'mint_condition')
                 if getattr(getattr(type(t), n, None), 'fset', None)]
        if not names:
            return None
        n = r.choice(names)
        if n == 'number_of_months' and not t.number_of_months or n == 'value' and t.value == 0 or n == 'data' and not t.data:
            return None
        setattr(t, n, getattr(t, n))
        op = 'again ' + n
    elif op == 'data':
        b = g.rand(r.choice([0, 1, 40, 83]))
        s = ''.join(chr(r.randrange(32, 127)) for _ in range(len(b)))
        text = r.random() < .3
        t.data = s if text else r.choice([b, bytearray(b)])
        d['arbitrarydata'] = base64.b64encode(s.encode() if text else b).decode()
    elif op == 'minerfee':
        x, j = cur()
        t.miner_fee_add(x)
        L('minerfees').append(j)
    elif op == 'txfee':
        x, j = cur()
        t.transaction_fee = x
        d['txfee'] = j
    elif op == 'outputadd':
        x, c, j = out()
        i = oid()
        t.coin_output_add(x, c, **({'id': i[0]} if i else {}))
        ctx.eq(shown(t.coin_outputs[-1]), i and i[1], 'identifier of an added output')
        L('coinoutputs').append(j)
    elif op == 'outputs':
        l = [out() for _ in range(r.randrange(4))]
        ids = [oid() for _ in l]
        t.coin_outputs = [CoinOutput(Currency(x), c, i[0] if i else None) for (x, c, _), i in zip(l, ids)]
        ctx.eq([shown(o) for o in t.coin_outputs], [i and i[1] for i in ids], 'identifiers of the assigned outputs')
        d['coinoutputs'] = [j for _, _, j in l]
    elif op == 'inputadd':
        f, j = ful()
        h = g.rand(32)
        t.coin_input_add(r.choice([Hash(h), h, h.hex()]), f)
        L('coininputs').append({'parentid': h.hex(), 'fulfillment': j})
    elif op == 'inputs':
        k = r.randrange(3)
        l = L('coininputs')
        if k == 0:
            t.coin_inputs = list(reversed(t.coin_inputs))
            l.reverse()
        elif k == 1:
            t.coin_inputs = r.choice([[], None])
            del l[:]
        else:
            f, j = ful()
            h = g.rand(32)
            t.coin_inputs = [CoinInput(parentid=Hash(h), fulfillment=f)] + list(t.coin_inputs)
            l.insert(0, {'parentid': h.hex(), 'fulfillment': j})
    elif op == 'inputset':
        if not t.coin_inputs:
            return None
        n = r.randrange(len(t.coin_inputs))
        if r.random() < .5:
            h = g.rand(32)
            t.coin_inputs[n].parentid = r.choice([Hash(h), h, h.hex()])
            d['coininputs'][n]['parentid'] = h.hex()
        else:
            f, j = ful()
            t.coin_inputs[n].fulfillment = f
            d['coininputs'][n]['fulfillment'] = j
    elif op == 'outputset':
        n = r.randrange(len(t.coin_outputs))
        x, j = cur()
        t.coin_outputs[n].value = x
        (d['coinoutputs'][n] if v in (1, 129) else d['refundcoinoutput'])['value'] = j
    elif op == 'outputcond':
        n = r.randrange(len(t.coin_outputs))
        c, j = cnd()
        t.coin_outputs[n].condition = c
        (d['coinoutputs'][n] if v in (1, 129) else d['refundcoinoutput'])['condition'] = j
    elif op == 'refund':
        x, c, j = out()
        i = oid()
        t.refund_coin_output_set(x, c, **({'id': i[0]} if i else {}))
        ctx.eq(shown(t.coin_outputs[0]), i and i[1], 'identifier of a refund output')
        d['refundcoinoutput'] = j
    elif op == 'refundgone':
        t.coin_outputs = r.choice([[], None])
        d.pop('refundcoinoutput', None)
    elif op == 'refundlist':
        x, c, j = out()
        i = oid()
        o = CoinOutput(Currency(x), c, i[0] if i else None)
        t.coin_outputs = [o] if r.random() < .7 else o
        ctx.eq(shown(t.coin_outputs[0]), i and i[1], 'identifier of the assigned refund output')
        d['refundcoinoutput'] = j
    elif op == 'bsinputadd':
        f, j = ful()
        h = g.rand(32)
        t.blockstake_input_add(Hash(h), f)
        L('blockstakeinputs').append({'parentid': h.hex(), 'fulfillment': j})
    elif op == 'bsoutputadd':
        n = g.value()
        c, j = cnd()
        i = oid()
        t.blockstake_output_add(n, c, **({'id': i[0]} if i else {}))
        ctx.eq(shown(t.blockstake_outputs[-1]), i and i[1], 'identifier of an added block stake output')
        if r.random() < .3:
            ids = [shown(o) for o in t.blockstake_outputs]
            t.blockstake_outputs = list(t.blockstake_outputs)
            ctx.eq([shown(o) for o in t.blockstake_outputs], ids, 'identifiers of the assigned block stake outputs')
        L('blockstakeoutputs').append({'value': str(n), 'condition': j})
    elif op == 'bsclear':
        t.blockstake_outputs = None
        t.blockstake_inputs = []
        d.pop('blockstakeinputs', None)
        d.pop('blockstakeoutputs', None)
    elif op == 'mintcondition':
        t.mint_condition, d['mintcondition'] = cnd()
    elif op == 'mintful':
        t.mint_fulfillment, d['mintfulfillment'] = ful()
    elif op == 'names':
        l = [g.name() for _ in range(r.randrange(6))]
        t.names = r.choice([l, list(l), None if not l else l])
        d['names'] = l
    elif op == 'addresses':
        l = [g.netaddr() for _ in range(r.randrange(11))]
        t.addresses = l
        d['addresses'] = list(l)
    elif op == 'nameadd':
        n = g.name()
        if len(t.names) >= 5 or v == 146:
            return None
        t.name_add(n)
        L('names').append(n)
    elif op == 'addressadd':
        n = g.netaddr()
        if len(t.addresses) >= 10:
            return None
        t.address_add(n)
        L('addresses').append(n)
    elif op == 'nameadd2':
        n, k = g.name(), r.randrange(2)
        if len((t.names_to_add, t.names_to_remove)[k]) >= 5:
            return None
        (t.name_add, t.name_remove)[k](n)
        if not d.get('names'):
            d['names'] = {}
        l = d['names'].get(('add', 'remove')[k]) or []
        d['names'][('add', 'remove')[k]] = l + [n]
    elif op == 'addressadd2':
        n, k = g.netaddr(), r.randrange(2)
        if len((t.addresses_to_add, t.addresses_to_remove)[k]) >= 10:
            return None
        (t.address_add, t.address_remove)[k](n)
        if not d.get('addresses'):
            d['addresses'] = {}
        l = d['addresses'].get(('add', 'remove')[k]) or []
        d['addresses'][('add', 'remove')[k]] = l + [n]
    elif op == 'names2':
        k = r.choice(['add', 'remove'])
        l = [g.name() for _ in range(r.randrange(6))]
        setattr(t, 'names_to_' + k, l)
        d['names'] = dict(d.get('names') or {}, **{k: list(l)})
    elif op == 'addresses2':
        k = r.choice(['add', 'remove'])
        l = [g.netaddr() for _ in range(r.randrange(11))]
        setattr(t, 'addresses_to_' + k, l)
        d['addresses'] = dict(d.get('addresses') or {}, **{k: list(l)})
    elif op == 'months':
        t.number_of_months = d['nrofmonths'] = r.randrange(1 if v == 144 else 0, 25)
    elif op == 'key':
        k, j = key()
        t.public_key = k
        if v == 144:
            d['identification']['publickey'] = j
        else:
            d['pubkey'] = j
    elif op == 'signature':
        s, j = sig()
        if r.random() < .2:
            s, j = None, ''
        t.signature = s
        if v == 144:
            if j == '':        # an absent signature of fixed size cannot be encoded the network's way: set it again
                s, j = sig()
                t.signature = s
            d['identification']['signature'] = j
        else:
            d['signature'] = j
    elif op == 'bot':
        t.botid = d['id'] = r.choice([1, 255, 2 ** 32 - 1, r.randrange(1, 2 ** 32)])
    elif op in ('sender', 'receiver'):
        n = r.choice([1, 255, 2 ** 32 - 1, r.randrange(1, 2 ** 32)])
        setattr(t, op + '_botid', n)
        d[op]['id'] = n
    elif op in ('sendersig', 'receiversig'):
        s, j = sig()
        k = op[:-3]
        setattr(t, k + '_signature', s)
        d[k]['signature'] = j
    elif op == 'erc20':
        b = g.rand(20).hex()
        t.address = r.choice([b, '0x' + b, bytes.fromhex(b)])
        d['address'] = '0x' + b
    elif op == 'value':
        t.value, d['value'] = cur()
    elif op == 'regfee':
        return None
    elif op == 'address':
        a = g.addr()
        t.address = r.choice([a, C.UnlockHash.from_json(a)])
        d['address'] = a
    elif op in ('block', 'tx'):
        b = g.rand(32).hex()
        setattr(t, {'block': 'blockid', 'tx': 'transactionid'}[op], r.choice(['0x' + b, bytes.fromhex(b)]))
        d[{'block': 'blockid', 'tx': 'txid'}[op]] = '0x' + b
    else:
        raise AssertionError(op)
    return op


def wrong(g, t, v):
    """assignments that must be refused: (name, callable)"""
    r = g.rng
    out = []
    bad = r.choice(['-1', '0.0000000001', 'x', '-0.5 TFT', b'1', [1]])
    if v in (1, 128, 129):
        out.append(('miner fee', lambda: t.miner_fee_add(bad)))
        if v != 128:
            out += [('output value', lambda: t.coin_output_add(bad, None)), ('output condition', lambda: t.coin_output_add('1', 'no condition'))]
    else:
        out.append(('fee', lambda: setattr(t, 'transaction_fee', bad)))
    if v in (144, 145, 146, 208, 210):
        from tfchain.types.IO import CoinOutput
        out += [('two refunds', lambda: setattr(t, 'coin_outputs', [CoinOutput(), CoinOutput()])), ('refund', lambda: setattr(t, 'coin_outputs', 'x')),
                ('refund value', lambda: t.refund_coin_output_set(bad, None))]
    if v in (1, 144, 145, 146, 208, 210):
        out += [('parent id', lambda: t.coin_input_add(r.choice(['00', 'zz' * 32, b'1' * 31, '00' * 33]), None)),
                ('fulfillment', lambda: t.coin_input_add('00' * 32, r.choice(['x', 5, []])))]
        if t.coin_inputs:
            out += [('parent id', lambda: setattr(t.coin_inputs[0], 'parentid', r.choice(['00', b'1' * 31])))]
    if v in (144, 145):
        out.append(('months', lambda: setattr(t, 'number_of_months', r.choice([-1, -1, 25, 25, 32, 33, 255, 256 + 3, 1.5, float('nan'), '3'] + ([0] if v == 144 else [])))))
    if v == 145:
        out.append(('bot', lambda: setattr(t, 'botid', r.choice([0, -1, 'x', 1.5, 1 << 32, (1 << 64) + 5]))))
        for k in ('name_add', 'name_remove'):
            out.append((k, lambda k=k: getattr(t, k)(r.choice(['abc', '1abcde', 'a b c d', '', 'x' * 64]))))
    if v == 146:
        out += [('sender', lambda: setattr(t, 'sender_botid', r.choice([0, -1, 'x', 2.5, 1 << 32]))), ('receiver', lambda: setattr(t, 'receiver_botid', r.choice([0, -7, [], 1 << 32])))]
    if v in (144, 145) and len(t.names if v == 144 else t.names_to_add) == 5:
        n = g.name()
        out += [('sixth name', lambda: t.name_add(n))] * 4
    if v in (144, 145) and len(t.addresses if v == 144 else t.addresses_to_add) == 10:
        n = g.netaddr()
        out += [('eleventh address', lambda: t.address_add(n))] * 4
    if v == 144:
        out += [('key', lambda: setattr(t, 'public_key', r.choice(['ed25519:' + '00' * 32, 5]))), ('signature', lambda: setattr(t, 'signature', r.choice(['00', b'1' * 63])))]
    if v == 208:
        out += [('erc20', lambda: setattr(t, 'address', r.choice(['0x00', '00' * 21, b'1' * 19, 'zz' * 20]))), ('value', lambda: setattr(t, 'value', bad))]
    if v == 209:
        out += [('address', lambda: setattr(t, 'address', r.choice(['01' * 30, 'x', 5]))), ('value', lambda: setattr(t, 'value', bad)),
                ('block', lambda: setattr(t, 'blockid', r.choice(['00', b'1'])))]
    if v in (1, 128, 129):
        out.append(('data', lambda: setattr(t, 'data', r.choice([5, 1.5, object(), 'x\ud800', 'y' * 84, b'z' * 84, '\u20ac' * 28]))))
    return r.choice(out + lists(g, t, v)) if r.random() < .7 else r.choice(lists(g, t, v) or out)


BADADDR = ['-', 'a b', '-a', '']


def lists(g, t, v):
    """whole-list assignments that must be refused, and leave the list as it was"""
    r = g.rng
    out = []

    def refused(what, obj, attr, good, bad, most):
        good = good[:most - 1] if most else good
        k = r.randrange(len(good) + 1)
        vals = good[:k] + [bad] + good[k:]
        if r.random() < .5:
            vals = iter(vals)
        out.append((what, lambda: setattr(obj, attr, vals)))

    names = {144: ['names'], 145: ['names_to_add', 'names_to_remove'], 146: ['names']}.get(v, [])
    for a in names:
        good = [g.name() for _ in range(r.randrange(6))]
        refused('list of ' + a, t, a, good, r.choice(['abc', '1abcde', '', 5]), 5)
        six = [g.name() for _ in range(6)]
        out.append(('list of six ' + a, lambda a=a, six=six: setattr(t, a, six)))
    addrs = {144: ['addresses'], 145: ['addresses_to_add', 'addresses_to_remove']}.get(v, [])
    for a in addrs:
        good = [g.netaddr() for _ in range(r.randrange(11))]
        refused('list of ' + a, t, a, good, r.choice(BADADDR), 10)
        eleven = [g.netaddr() for _ in range(11)]
        out.append(('list of eleven ' + a, lambda a=a, eleven=eleven: setattr(t, a, eleven)))
    puts = []
    if v in (1, 144, 145, 146, 208, 210):
        puts.append('coin_inputs')
    if v in (1, 129):
        puts.append('coin_outputs')
    if v == 1:
        puts += ['blockstake_inputs', 'blockstake_outputs']
    for a in puts:
        good = list(getattr(lib(g.tx(v, secretless=False)[0]), a))
        if good and r.random() < .05:
            good *= r.choice([10, 70, 260])
        refused('list of ' + a, t, a, good, r.choice(['x', 5, None, {}]), 0)
    for ci in list(t.coin_inputs) + (list(t.blockstake_inputs) if v == 1 else []):
        f = ci.fulfillment
        if hasattr(f, 'pairs'):
            refused('list of pairs', f, 'pairs', list(f.pairs), r.choice(['x', 5, None]), 0)
    return out


def standing(ctx, txn, js, what):
    """whether it is complete and what is left to sign: as of a new object of the same content"""
    new = lib(js)
    for a, b in list(zip(txn.coin_inputs, new.coin_inputs)) + list(zip(txn.blockstake_inputs, new.blockstake_inputs)):
        if str(a.parent_output.id) != '0' * 64:
            b.parent_output = a.parent_output
    if js['version'] in (128, 129) and int(txn.parent_mint_condition.type) != 0:
        new.parent_mint_condition = txn.parent_mint_condition
    a, b = [attempt(lambda t=t: [bool(t.is_fulfilled()), [str(q.wallet_address) for q in t.signature_requests_new()]]) for t in (txn, new)]
    ctx.check(a == b, '%s: a version %d transaction stands at %r, a new one of the same content at %r (%s)', what, js['version'], a, b, json.dumps(js)[:800])
    ctx.count('standings')
    ctx.count('complete', a.startswith('[True'))
    ctx.count('raised', not a.startswith('['))


def spoil(r, x):
    """change a document in place, anywhere"""
    if isinstance(x, dict):
        for k in list(x):
            if r.random() < .1:
                x[k] = None
            else:
                spoil(r, x[k])
    elif isinstance(x, list):
        for y in x:
            spoil(r, y)
        if r.random() < .3:
            x.append({})


def assignments(ctx):
    r = ctx.rng
    g = Gen(r, big=.03)
    js, ps, bps = g.tx(secretless=False)
    v = js['version']
    txn = lib(js) if r.random() < .6 else build(js, ps, bps, r)
    other = lib(js)                                   # a second object of the same document, never touched
    was = copy.deepcopy(js)
    m = copy.deepcopy(js)
    # what is written as absent and what as empty makes no difference
    for n in range(r.randrange(2, 8)):
        # a document handed out before does not change later, and changing it changes nothing else
        doc = txn.json()
        kept = copy.deepcopy(doc)
        if r.random() < .3:
            spoil(r, doc)
            kept = copy.deepcopy(doc)
            ctx.count('spoiled')
        if r.random() < .2:
            for _ in range(8):
                what, f = wrong(g, txn, v)
                try:
                    f()
                except Exception:
                    ctx.count('refused_sets')
                else:
                    ctx.fail('a wrong %s is accepted by a version %d transaction', what, v)
            label = 'refused ' + what
        else:
            label = change(ctx, g, txn, m['data'], v)
            if label is None:
                continue
            ctx.count('sets')
            label = 'set ' + label
        ctx.log('%s', label)
        ctx.key(v, label)
        whole(ctx, txn, m, label)
        standing(ctx, txn, m, label)
        ctx.eq(doc, kept, 'document handed out before "%s"' % label)
    compare(ctx, other, was, 'untouched object')


def attempt(fn):
    try:
        return repr(fn())
    except Exception as e:
        return type(e).__name__


def blank(ctx):
    """looking at a transaction, however incomplete, changes nothing about it"""
    from tfchain.types import transactions as T
    from tfchain.types import ConditionTypes as C
    from tfchain.types.CryptoTypes import PublicKey
    r = ctx.rng
    g = Gen(r)
    v = r.choice(VERSIONS)
    make = {1: T.new, 128: T.mint_definition_new, 129: T.mint_coin_creation_new, 144: T.threebot_registration_new,
            145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new, 208: T.erc20_convert_new,
            209: T.erc20_coin_creation_new, 210: T.erc20_address_registration_new}[v]
    full = r.random() < .5
    if full:
        js, ps, bps = g.tx(v, secretless=False)
        t = lib(js) if r.random() < .5 else build(js, ps, bps, r)
    else:
        t = make()
        ctx.eq(int(t.version), v, 'version of a new transaction')
        ctx.eq([len(t.coin_inputs), len(t.blockstake_inputs), len(t.blockstake_outputs)], [0, 0, 0], 'inputs of a new transaction')
        if v != 209:
            ctx.eq(len(t.coin_outputs), 0, 'outputs of a new transaction')
        if v in (128, 129) and r.random() < .6:
            t.parent_mint_condition = C.from_json(g.cond((1, 4)))
        if v == 145 and r.random() < .6:
            t.parent_public_key = PublicKey.from_json(g.pk())
        ctx.count('fresh')

    def state():
        out = [attempt(t.json), attempt(t.binary_encode), attempt(lambda: t.signature_hash_get().hex()), attempt(t.is_fulfilled), attempt(lambda: str(t)),
               attempt(lambda: t.height), attempt(lambda: t.unconfirmed), attempt(lambda: t.id), attempt(lambda: hash(t))]
        if v in (128, 129):
            out += [t.mint_fulfillment_defined(), attempt(lambda: l_cond(t.parent_mint_condition))]
            out.append(attempt(lambda: len(t.signature_requests_new())))
        return out
    if v in (128, 129):
        ctx.eq(bool(t.mint_fulfillment_defined()), full, 'is the mint fulfillment set')
        if v == 128 and not full:
            ctx.eq(l_cond(t.mint_condition), m_cond({}), 'mint condition of a new transaction')
    before = state()
    names = [n for n in dir(type(t)) if not n.startswith('_') and isinstance(getattr(type(t), n), property)]
    r.shuffle(names)
    for n in names:
        attempt(lambda: getattr(t, n))
        ctx.count('looked_at')
        if r.random() < .15:
            ctx.eq(state(), before, 'a version %d transaction after looking at %s' % (v, n))
    ctx.eq(state(), before, 'a version %d transaction after looking at everything' % v)
    # what is not set stays so in a second transaction, whatever happens to the first
    other = make()
    was = attempt(other.json)
    if v in (1, 128, 129):
        t.miner_fee_add('1 TFT')
        t.data = 'x'
    if v in (1, 144, 145, 146, 208, 210):
        t.coin_input_add(g.rand(32), None)
    if v in (1, 129):
        t.coin_output_add('1 TFT', None)
    if v == 144 and not full:
        t.name_add(g.name())
        t.address_add(g.netaddr())
    ctx.eq(attempt(other.json), was, 'another new transaction of version %d' % v)
    if v in (128, 129):
        ctx.check(make().json()['data']['nonce'] != other.json()['data']['nonce'], 'two new transactions have one nonce')
    ctx.key('blank', v, full)


PARTS = [('blank', 500, 5000, blank), ('documents', 2600, 40000, documents), ('assignments', 2600, 40000, assignments)]
