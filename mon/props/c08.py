"""Output identifiers match the network and are unique."""
import json
import os

from .. import ref
from ..gen import Gen, lib, build, mutate, tweak, has_secretless, VERSIONS
from .common import histories

RULE = ('Random transactions of all versions (the legacy one too), read from JSON, built through the API, copied through JSON and changed in place; the id of '
        'every coin and block stake output is compared with an independent encoder, ids are collected in a global set, and indexes '
        'around the valid range are tried; recorded network transactions; and wallet histories on a model node whose outputs are '
        'identified by the reference. distinct = distinct (version, output kind, index, shape).')
REQUIRED = ['coin_ids', 'bs_ids', 'refused_index', 'golden', 'legacy_ids', 'changed_ids', 'secretless_seen'] + ['v%d' % v for v in VERSIONS if v != 128]
ASSUMPTIONS = ['the reference ids follow the network (validated against 146 recorded output ids)',
               'uniqueness is observed among the ids of a run; a collision of the hash function itself is not looked for']
KEY = 'unpadded-refund-secret'


def ids_of(ctx, txn, js, what, local_ok=True):
    """compares all identifiers; returns them"""
    out = []
    for kind, fn, rf, n in (('coin', txn.coin_outputid_new, ref.coin_output_id, len(ref.coin_outputs(js))),
                            ('bs', txn.blockstake_outputid_new, ref.bs_output_id, len(ref.bs_outputs(js)))):
        for i in range(n) if n < 20 else {0, 1, 2, n - 1, n // 2, 127 % n, 128 % n, 255 % n}:
            got, want = str(fn(i)), rf(js, i)
            ctx.count(kind + '_ids')
            ctx.key(js['version'], kind, min(i, 3), min(n, 5), what)
            if got != want:
                if has_secretless(js) and got == rf(js, i, secret_pad=False):
                    ctx.known(KEY, '%s: id of %s output %d of a transaction with a secretless swap claim' % (what, kind, i))
                    ctx.count('secretless_seen')
                else:
                    ctx.fail('%s: id of %s output %d is %s, the network says %s: %s', what, kind, i, got, want, json.dumps(js)[:2000])
            out.append((kind, i, got))
        for i in {-1, n, n + 1, n + 7, -2, 2 ** 32, -n}:
            if 0 <= i < n:
                continue
            try:
                x = fn(i)
            except ValueError:
                ctx.count('refused_index')
                continue
            ctx.fail('%s: id %s for %s output index %d of %d outputs', what, x, kind, i, n)
    return out


SEEN = {}


def unique(ctx, ids, js):
    """the same id only ever for the same output of the same transaction"""
    tid = ref.tx_id(js)
    for kind, i, x in ids:
        who = (tid, kind, i)
        ctx.check(SEEN.setdefault(x, who) == who, 'output id %s is shared by %s and %s', x, SEEN[x], who)


def documents(ctx):
    r = ctx.rng
    g = Gen(r, big=.01)
    js, ps, bps = g.tx(secretless=r.random() < .3)
    ctx.count('v%d' % js['version'])
    ctx.sample({'version': js['version'], 'coin outputs': len(ref.coin_outputs(js)), 'block stake outputs': len(ref.bs_outputs(js))})
    if r.random() < .02:
        js['version'] = 1
        js['data'] = {'coinoutputs': [g.output() for _ in range(r.choice([90, 130, 300]))],
                      'blockstakeoutputs': [g.output((0, 1)) for _ in range(r.choice([0, 130]))]}
        ps = bps = []
    a = lib(js)
    ids = ids_of(ctx, a, js, 'read')
    unique(ctx, ids, js)
    b = build(js, ps, bps, r)
    if not has_secretless(js):
        ctx.eq(ids_of(ctx, b, js, 'built'), ids, 'ids of the transaction built locally and read back')
        g.attach(b, ps, bps)
        ctx.eq(ids_of(ctx, lib(json.loads(json.dumps(b.json()))), js, 'exchanged'), ids, 'ids after an exchange')
    else:
        ids_of(ctx, b, js, 'built')
    for _ in range(2):
        m = mutate(g, js)
        if m is None:
            break
        label, d2 = m
        i2 = ids_of(ctx, lib(d2), d2, 'changed')
        unique(ctx, i2, d2)
        ctx.count('changed_ids', len(i2))
        ctx.key(js['version'], 'changed', label)


def legacy(ctx):
    g = Gen(ctx.rng, big=.02)
    js = g.legacy()
    ids = ids_of(ctx, lib(js), js, 'legacy')
    unique(ctx, ids, js)
    ctx.count('legacy_ids', len(ids))
    what, d2, _ = g.legacy_change(js)
    unique(ctx, ids_of(ctx, lib(d2), d2, 'legacy changed'), d2)


def in_place(ctx):
    """the ids follow the object, whatever was computed before"""
    r = ctx.rng
    g = Gen(r)
    js, ps, bps = g.tx(version=r.choice([v for v in VERSIONS if v != 128]), secretless=False)
    txn = lib(js) if r.random() < .5 else build(js, ps, bps, r)
    for _ in range(r.randrange(2, 6)):
        k = r.random()
        if k < .4 and txn.coin_outputs:
            txn.coin_outputid_new(0)
        elif k < .6:
            txn.signature_hash_get()
        label = tweak(g, txn)
        if label is None:
            continue
        for i in txn.coin_inputs:                  # signing changes ids as well
            if r.random() < .2 and hasattr(i.fulfillment, 'signature'):
                i.fulfillment.signature = bytes.fromhex(g.sig())
        ids_of(ctx, txn, json.loads(json.dumps(txn.json())), 'after ' + label)
        ctx.count('changed_ids')


def golden(ctx):
    n = 0
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'golden.json')) as f:
        gold = json.load(f)
    for k, o in sorted(gold.items()):
        txn = lib(o['tx'])
        for i, x in enumerate(o['coinoutputids']):
            ctx.eq(str(txn.coin_outputid_new(i)), x, 'recorded coin output id of %s/%d' % (k, i))
            n += 1
        for i, x in enumerate(o['blockstakeoutputids']):
            ctx.eq(str(txn.blockstake_outputid_new(i)), x, 'recorded block stake output id of %s/%d' % (k, i))
            n += 1
    ctx.count('golden', n)
    ctx.key('golden')


PARTS = [('documents', 2500, 80000, documents), ('legacy', 800, 20000, legacy), ('in_place', 1000, 30000, in_place), ('golden', 1, 1, golden)]
