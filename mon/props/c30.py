"""Attached data is carried unchanged and limited to 83 bytes."""
import base64
import copy
import hashlib
import json

from .. import ref
from ..world import World, drive, OracleFail, cond_uh, cond_ms
from .common import histories

RULE = ('Data of 0 to 83 bytes as text (one to four bytes per character, line ends, zero characters, byte order marks, composed and '
        'decomposed forms) and as bytes, attached through every call that takes it: compared byte for byte in the pushed or '
        'returned transaction, through JSON and co-signing and as read back from the chain; the signatures must not hold for other '
        'data; 84 bytes and more refused by every call with nothing pushed. distinct = distinct call, kind and length.')
REQUIRED = ['carried', 'read_back', 'covered', 'refused', 'cosigned', 'setters']
ASSUMPTIONS = ['the explorer answers truthfully']
HOME = {'C30'}
CHARS = ['a', ' ', '\n', '\0', '\u00e9', 'e\u0301', '\u2603', '\u20ac', '\U0001f600', '\ufeff', '\u00df', '\u0130', '\r\n', '\u2028', '"', '\\', '\x7f', '\ud7ff', '\uffff']


def text(r, n):
    """a text of exactly n bytes"""
    s = ''
    for _ in range(200):
        c = r.choice(CHARS)
        if len((s + c).encode()) <= n:
            s += c
    return s + 'x' * (n - len(s.encode()))


def datum(r, n):
    """(argument, bytes, kind) of n bytes"""
    from tfchain.types.PrimitiveTypes import BinaryData
    k = r.randrange(5)
    if k < 2:
        s = text(r, n)
        return s, s.encode(), 'text'
    b = r.choice([lambda: r.getrandbits(8 * n + 8).to_bytes(n + 1, 'big')[1:], lambda: bytes(n), lambda: b'\xff' * n,
                  lambda: (b'\xef\xbb\xbf' * n)[:n], lambda: (b'0123456789abcdef' * 9)[:n]])()
    if k == 2:
        return bytearray(b), b, 'bytearray'
    if k == 3 and r.random() < .5:
        return BinaryData(value=b), b, 'binary data'
    return b, b, 'bytes'


def size(r):
    return r.choice([0, 1, 2, 3, 4, 41, 42, 81, 82, 83, 83, r.randrange(84)])


def calls(w, p):
    """every call that takes data: name -> fn(data) giving the transaction document(s) that carry it"""
    r, c = w.rng, w.chain
    m = w.multisigs[0]
    maddr = ref.cond_address(m)

    def single(res):
        return [res.transaction.json()]

    def builder(d):
        b = p.wallet.coin_transaction_builder_new()
        for _ in range(r.choice([1, 2, 3])):
            b.output_add(r.choice(w.foreign), '1.5')
        return single(b.send(data=d))

    def claim(refund):
        s = w.swap_history(sender=p.addr(0) if refund else w.foreign[0], receiver=w.foreign[1] if refund else p.addr(0))
        if refund and c.time < s['out'].condition['data']['timelock']:
            c.mine(dt=s['out'].condition['data']['timelock'] - c.time)
        if refund:
            return lambda d: [p.wallet.atomicswap.refund(s['id'], data=d).json()]
        return lambda d: [p.wallet.atomicswap.redeem(s['id'], s['secret'], data=d).json()]
    redeem, refund = claim(False), claim(True)
    fee = p.client.minimum_miner_fee
    return {
        'coins_send': lambda d: single(p.wallet.coins_send(w.foreign[0], '3', data=d)),
        'coins_send (shared)': lambda d: single(p.wallet.coins_send(w.foreign[0], '3', source=maddr, data=d)),
        'builder': builder,
        'initiate': lambda d: single(p.wallet.atomicswap.initiate(w.foreign[0], '7', data=d)),
        'initiate (kept)': lambda d: single(p.wallet.atomicswap.initiate(w.foreign[0], '7', data=d, submit=False)),
        'participate': lambda d: single(p.wallet.atomicswap.participate(w.foreign[0], '7', hashlib.sha256(b'x').digest(), data=d)),
        'redeem': redeem, 'refund': refund,
        'coins_new': lambda d: single(p.wallet.minter.coins_new(w.foreign[0], '5', data=d)),
        'definition_set': lambda d: single(p.wallet.minter.definition_set(p.addr(0), data=d)),
        'drain': lambda d: [t.json() for t in p.wallet.balance.drain(w.foreign[0], fee, data=d)],
        'drain (unconfirmed)': lambda d: [t.json() for t in p.wallet.balance.drain(w.foreign[0], fee, unconfirmed=True, data=d)],
        'drain (shared)': lambda d: [t.json() for t in p.wallet.balance.wallets[maddr].drain(w.foreign[0], fee, data=d)],
    }


def carried(ctx):
    from tfchain.types import transactions
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    p, q = w.parties

    def prepare():
        m = cond_ms([p.addr(0), q.addr(0)], 2)
        w.multisigs[:] = [m]
        for _ in range(3):
            c.grant([(cond_uh(r.choice(w.own0(p))), 200 * ref.GRAIN), (m, 100 * ref.GRAIN)])
        w.set_mint(cond_uh(p.addr(0)))

    def judge(what, js, b):
        if ref.data_of(js) != b:
            raise OracleFail(HOME, '%s: data %r became %r' % (what, b, ref.data_of(js)))
        ctx.count('carried')
        try:
            back = transactions.from_json(json.loads(json.dumps(js)))
            if bytes(back.data.value) != b or ref.data_of(back.json()) != b:
                raise OracleFail(HOME, '%s: data %r reads back from JSON as %r' % (what, b, back.data))
        except OracleFail:
            raise
        except Exception as e:
            raise OracleFail(HOME, '%s: does not read back from JSON: %r' % (what, e))

    def go():
        prepare()
        for name in r.sample(sorted(calls(w, p)), 5):
            table = calls(w, p)
            arg, b, kind = datum(r, size(r))
            what = '%s with %s of %d bytes' % (name, kind, len(b))
            docs, exc, pushes = w.call(p, what, HOME, lambda: table[name](arg))
            for js in docs:
                judge(what, js, b)
            for js in pushes:
                if ref.data_of(js) != b:
                    raise OracleFail(HOME, '%s: pushed with data %r' % (what, ref.data_of(js)))
            ctx.key(name, kind, len(b))
            if pushes:
                # the signatures the network accepted do not hold for other data
                other = copy.deepcopy(pushes[0])
                x = bytearray(b)
                if x and r.random() < .7:
                    x[r.randrange(len(x))] ^= 1 << r.randrange(8)
                else:
                    x = x[:-1] if len(x) == 83 or (x and r.random() < .5) else x + b'\0'
                other['data']['arbitrarydata'] = base64.b64encode(bytes(x)).decode()
                t0 = c.txs[c.accepted[-1]]
                keep = {o.id: o.spender for o in t0.parents}
                for o in t0.parents:
                    o.spender = None
                ev = c.validate(other)
                for o in t0.parents:
                    o.spender = keep[o.id]
                if not any(e[0] == 'signature' for e in ev):
                    raise OracleFail(HOME | {'C07', 'C05'}, '%s: the signatures also hold for data %r' % (what, bytes(x)))
                ctx.count('covered')
                if r.random() < .5:
                    c.mine()
                try:
                    t = q.client.transaction_get(c.accepted[-1])
                except Exception as e:
                    raise OracleFail(HOME | {'C25'}, '%s: cannot be read back: %r' % (what, e))
                if bytes(t.data.value) != b:
                    raise OracleFail(HOME | {'C25'}, '%s: reads back from the chain with data %r' % (what, t.data))
                ctx.count('read_back')
            elif name in ('coins_send (shared)', 'drain (shared)') and docs:
                js = docs[0]
                for x in r.sample([p, q], 2):
                    form = json.dumps(js) if r.random() < .5 else js
                    res, exc, pushes = w.call(x, what + ': co-signing', HOME, lambda: x.wallet.transaction_sign(form))
                    js = res.transaction.json()
                    judge(what + ' (co-signed)', js, b)
                ctx.count('cosigned')
            c.mine()
            if min(len(c.unspent(a, unlocked=True)) for a in (set(p.own()), {ref.cond_address(w.multisigs[0])})) < 3:
                prepare()
        ctx.sample({'chain': [t.js for t in list(c.txs.values())[-2:]]})
    drive(ctx, w, go)


def refused(ctx):
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    p, q = w.parties

    def go():
        w.multisigs.append(cond_ms([p.addr(0), q.addr(0)], 1))
        for _ in range(4):
            c.grant([(cond_uh(r.choice(w.own0(p))), 200 * ref.GRAIN), (w.multisigs[0], 100 * ref.GRAIN)])
        w.set_mint(cond_uh(p.addr(0)))
        table = calls(w, p)
        for name in sorted(table):
            n = r.choice([84, 84, 84, 85, 86, 100, 166, 256, 83 * 256, 70000])
            arg, b, kind = datum(r, n)
            if len(b) != n or len(arg) == 0:
                continue
            what = '%s with %s of %d bytes' % (name, kind, n)
            w.call(p, what, HOME, lambda: table[name](arg), Exception)
            ctx.count('refused')
            ctx.key('refused', name, kind, n)
        # nothing was left behind by the refusals
        b = w.check_balance(p, HOME | {'C29'})
    drive(ctx, w, go)


def setters(ctx):
    """the data of transactions of every version that carries data"""
    from tfchain.types import transactions as T
    r = ctx.rng
    for v, new in ((1, T.new), (128, T.mint_definition_new), (129, T.mint_coin_creation_new)):
        t = new()
        ctx.eq(bytes(t.data.value), b'', 'data of a new transaction')
        cur = b''
        for _ in range(12):
            n = r.choice([size(r), size(r), 84, 85, 200])
            arg, b, kind = datum(r, n)
            try:
                t.data = arg
            except Exception as e:
                ctx.check(len(b) > 83, 'v%d: %d bytes refused: %r', v, len(b), e)
            else:
                ctx.check(len(b) <= 83, 'v%d: %d bytes accepted', v, len(b))
                cur = b
            ctx.eq(bytes(t.data.value), cur, 'v%d data' % v)
            ctx.eq(base64.b64decode((t.json().get('data') or {}).get('arbitrarydata') or ''), cur, 'v%d JSON data' % v)
            ctx.count('setters')
            ctx.key('set', v, kind, len(b))
            if r.random() < .1:
                t.data = None
                cur = b''


W = {'send': 10, 'swap': 5, 'claim': 5, 'mint': 4, 'drain': 3, 'cosign': 4, 'history': 4, 'mine': 3}
PARTS = [('carried', 160, 4000, carried), ('refused', 80, 1500, refused), ('setters', 60, 1500, setters),
         ('histories', 60, 1500, histories(W, steps=18))]
