"""Coin amounts are exact: no rounding, no negative, no hidden precision loss."""
import decimal
import json

from .. import ref
from ..gen import Gen
from .codec import refuses

RULE = ('Random chains of operations on amounts (construction from text, integer, decimal, float, JSON, other amounts; + - * in either '
        'operand order and in place; comparisons; conversions to text, JSON and bytes) shadowed by exact integer arithmetic on the '
        'smallest unit; and refused texts, values and results, after which the amount is compared again; also the amounts of outputs '
        'and fees of transactions and of whole balances. distinct = distinct (operation, operand kinds, order of magnitude, decimals).')
REQUIRED = ['operations', 'conversions', 'refused', 'refused_negative', 'refused_precision', 'comparisons', 'in_place', 'sums']
ASSUMPTIONS = ['amounts lie between zero and 10^19 of the smallest unit (ten times the supply); results beyond that are not judged']
G = ref.GRAIN
MAX = 10 ** 19


def text(r, v, unit=True):
    """one of the texts of an amount of v grains"""
    i, f = divmod(v, G)
    fs = ('%09d' % f).rstrip('0')
    k = r.randrange(6)
    if k == 0:
        s = '%d.%09d' % (i, f)
    elif k == 1 and not fs:
        s = str(i)
    elif k == 2:
        s = '0' * r.randrange(1, 4) + '%d.%s' % (i, fs.ljust(r.randrange(1, 10), '0'))
    elif k == 3 and i == 0 and fs:
        s = '.' + fs
    else:
        s = str(i) + ('.' + fs if fs else r.choice(['', '.0', '.00']))
    if unit and r.random() < .4:
        s += r.choice(['TFT', ' TFT', ' tft', '  Tft', 'tft'])
    if unit and r.random() < .2:
        s = r.choice([' ', '\t', '\n']) + s + r.choice([' ', ''])
    return s


def amount(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 9, 10, G - 1, G, G + 1, 10 * G, 10 ** 18, 10 ** 18 - 1, MAX, MAX - 1])
    if k == 1:
        return r.randrange(1, 1000)
    if k == 2:
        return G * r.randrange(0, 10 ** r.randrange(1, 10))
    if k == 3:
        return (1 << r.randrange(0, 63)) - r.choice([0, 1])
    return r.randrange(0, 10 ** r.randrange(1, 20))


def mag(v):
    return len(str(v)), len(('%09d' % (v % G)).rstrip('0')) if v else -1


def view(ctx, c, v, what):
    """every way to look at an amount"""
    from tfchain.encoders import sia_encode, rivine_encode
    from tfchain.types.PrimitiveTypes import Currency
    ctx.eq(c.json(), str(v), what + ': JSON')
    ctx.eq(int(c), v, what + ': int')
    i, f = divmod(v, G)
    fs = ('%09d' % f).rstrip('0')
    s = str(i) + ('.' + fs if fs else '')
    ctx.eq(str(c), s, what + ': text')
    ctx.eq(c.str(), s, what + ': text')
    ctx.eq(c.str(with_unit=True), s + ' TFT', what + ': text with unit')
    d = c.value
    ctx.check(isinstance(d, decimal.Decimal) and d.is_finite() and d.scaleb(9, decimal.Context(prec=60)) == v, '%s: value is %r for %d grains', what, d, v)
    k = ctx.rng.randrange(8)
    if k == 0:
        ctx.eq(bytes(sia_encode(c)).hex(), ref.Sia.currency(v).hex(), what + ': Sia bytes')
        ctx.eq(bytes(rivine_encode(c)).hex(), ref.Riv.currency(v).hex(), what + ': Rivine bytes')
    back = [lambda: Currency.from_json(c.json()), lambda: Currency(str(c)), lambda: Currency(c.str(with_unit=True)), lambda: Currency(c),
            lambda: Currency(c.value), lambda: Currency.from_json(json.loads(json.dumps(c.json()))), lambda: Currency(repr(c)),
            lambda: Currency(c.str(with_unit=True).lower())][k]()
    ctx.eq(back.json(), str(v), what + ': converted and back (%d)' % k)
    ctx.check(back == c and not back != c and back <= c and back >= c and not back < c and not back > c, '%s: differs from itself', what)
    ctx.count('conversions')


def operand(r, v):
    """(kind, library operand) for an amount; every operand kind the amount can be written as"""
    from tfchain.types.PrimitiveTypes import Currency
    k = r.randrange(5)
    if k == 0 and v % G == 0:
        return 'int', v // G
    if k == 1:
        return 'text', text(r, v)
    if k == 2:
        s = text(r, v, unit=False)
        f = float(s)
        d = decimal.Decimal(str(f))
        if d.is_finite() and 'e' not in str(f) and d.scaleb(9) == v:
            return 'float', f
    if k == 3:
        return 'json', Currency.from_json(str(v))
    return 'amount', Currency(text(r, v))


def arithmetic(ctx):
    from tfchain.types.PrimitiveTypes import Currency
    import tfchain.errors as E
    r = ctx.rng
    v = amount(r)
    c = Currency(text(r, v))
    hist = [str(v)]
    for _ in range(r.randrange(2, 10)):
        op = r.choice(['add', 'radd', 'iadd', 'sub', 'rsub', 'isub', 'mul', 'rmul', 'imul', 'cmp', 'set', 'sum', 'copy'])
        w = amount(r)
        if op in ('sub', 'isub') and r.random() < .7:
            w = r.choice([v, r.randrange(0, v + 1), max(0, v - 1), v + 1, r.randrange(0, v + 1)])
        if op == 'rsub' and r.random() < .7:
            w = r.choice([v, v + 1, min(MAX, v + r.randrange(0, 10 ** r.randrange(1, 18)))])
        kind, x = operand(r, w)
        old, before, oldx = v, c, x.json() if hasattr(x, 'json') else None
        label = '%s with %s %r after %s' % (op, kind, x, ' '.join(hist))
        if op in ('radd', 'rsub', 'rmul') and kind == 'text' and op != 'radd' and op != 'rsub':
            kind, x = 'int', w // G % 1000
        want, res = None, None
        err = None
        try:
            if op == 'add':
                want, res = v + w, c + x
            elif op == 'radd':
                want, res = v + w, x + c
            elif op == 'iadd':
                want = v + w
                res = c
                res += x
            elif op == 'sub':
                want, res = v - w, None
                res = c - x
            elif op == 'rsub':
                want = w - v
                res = x - c
            elif op == 'isub':
                want = v - w
                res = c
                res -= x
            elif op in ('mul', 'rmul', 'imul'):
                n = r.choice([0, 1, 2, 3, 7, 10, 100, r.randrange(1, 10 ** r.randrange(1, 12))])
                nn = r.choice([n, n, str(n), Currency(n), float(n) if n < 10 ** 6 else n])
                if op == 'rmul' and isinstance(nn, str):
                    nn = n
                label = '%s %r after %s' % (op, nn, ' '.join(hist))
                want = v * n
                kind = type(nn).__name__
                if want > MAX:
                    continue
                if op == 'imul':
                    res = c
                    res *= nn
                else:
                    res = c * nn if op == 'mul' else nn * c
            elif op == 'cmp':
                if r.random() < .4:
                    w = max(0, v + r.choice([-1, 0, 1]))
                    kind, x = operand(r, w)
                got = [c < x, c <= x, c == x, c != x, c > x, c >= x]
                exp = [v < w, v <= w, v == w, v != w, v > w, v >= w]
                ctx.eq(got, exp, 'comparison of %d grains with %s %r' % (v, kind, x))
                got = [x < c, x <= c, x == c, x != c, x > c, x >= c]
                exp = [w < v, w <= v, w == v, w != v, w > v, w >= v]
                ctx.eq(got, exp, 'comparison of %s %r with %d grains' % (kind, x, v))
                ctx.count('comparisons')
                ctx.key('cmp', kind, (v > w) - (v < w))
                continue
            elif op == 'set':
                if kind == 'float':
                    continue
                if r.random() < .08:        # no value is no coins
                    w = 0
                    x, oldx = r.choice([None, Currency()]), None
                c.value = x
                want, res = w, c
            elif op == 'copy':
                want, res = v, Currency(c)
            elif op == 'sum':
                parts = [amount(r) for _ in range(r.randrange(0, 30))]
                if sum(parts) + v > MAX:
                    parts = [p % (10 ** 17) for p in parts]
                want = v + sum(parts)
                res = sum([Currency.from_json(str(p)) for p in parts], c)
                ctx.count('sums')
        except Exception as e:
            if isinstance(e, (AssertionError,)) or type(e).__module__.startswith('mon'):
                raise
            err = e
        ctx.count('operations')
        if op in ('iadd', 'isub', 'imul', 'set'):
            ctx.count('in_place')
        if want is None:
            ctx.fail('%s failed: %r', label, err)
        if want < 0:
            ctx.check(isinstance(err, E.CurrencyNegativeValue), '%s: a negative result gives %r', label, err or res)
            ctx.count('refused_negative')
        elif err is not None:
            if want > MAX:
                return
            ctx.fail('%s: failed with %r', label, err)
        # operands keep their value, unless changed in place
        if oldx is not None:
            ctx.eq(x.json(), oldx, label + ': operand afterwards')
        if op not in ('iadd', 'isub', 'imul', 'set') or err is not None:
            view(ctx, before, old, label + ': left alone')
        ctx.key(op, kind, mag(v), want < 0)
        if err is not None:
            continue
        if want > MAX:
            return
        view(ctx, res, want, label)
        if op in ('iadd', 'isub', 'imul', 'set') and r.random() < .5:
            view(ctx, before, want if before is res else old, label + ': same object')
        c, v = res, want
        hist.append('%s %d' % (op, w))
    ctx.sample({'operations': hist})


JUNK = ['', ' ', 'TFT', ' TFT', 'x', '1x', '1,5', '1.2.3', '1 2', '0x10', 'one', '--1', '1-', 'T', '1 BTC', '1 TFTX', 'TFT 1', '1e', '.', '1..2',
        'NaN', 'Infinity', '-Infinity', 'inf', 'sNaN', 'nan TFT', '1/2', '$1', '1.', None]


def refusals(ctx):
    from tfchain.types.PrimitiveTypes import Currency
    import tfchain.errors as E
    r = ctx.rng
    v = amount(r)
    c = Currency(text(r, v))

    def bad(what, fn, errs, counter):
        try:
            x = fn()
        except errs:
            ctx.count('refused')
            ctx.count(counter)
        except Exception as e:
            ctx.fail('%s gives %r', what, e)
        else:
            ctx.fail('%s gives %r', what, x)
        view(ctx, c, v, what + ': the amount afterwards')
        ctx.key(counter, what.split(' ')[0], mag(v)[0])

    def setv(x):
        c.value = x
        return c

    def iadd(x):
        y = c
        y += x
        return y
    # negative
    n = -amount(r) - 1
    for what, fn in (('text', lambda: Currency(r.choice(['-', ' -']) + text(r, -n).strip())), ('set', lambda: setv('-' + text(r, -n, False))),
                     ('set int', lambda: setv(-r.choice([1, 2, 10 ** 9]))), ('decimal', lambda: Currency(decimal.Decimal(n).scaleb(-9))),
                     ('json', lambda: Currency.from_json(str(n))), ('sub', lambda: c - Currency.from_json(str(v - n))),
                     ('rsub', lambda: 0 - (c + 1)), ('rsub text', lambda: '0' - (c + '0.000000001')),
                     ('mul', lambda: (c + 1) * -r.choice([1, 2, 10])), ('add', lambda: c + -1), ('radd', lambda: -1 + c),
                     ('iadd', lambda: iadd(-1)), ('float', lambda: c + -.5)):
        bad(what + ' (negative)', fn, E.CurrencyNegativeValue, 'refused_negative')
    # too many decimals
    small = r.choice(['0.', str(r.randrange(10 ** r.randrange(1, 9))) + '.']) + ''.join(
        r.choice('0123456789') for _ in range(r.randrange(9, 20))) + r.choice('123456789')
    for what, fn in (('text', lambda: Currency(small + r.choice(['', ' TFT', 'TFT']))), ('set', lambda: setv(small)),
                     ('decimal', lambda: Currency(decimal.Decimal(small))), ('add', lambda: c + small), ('radd', lambda: small + c),
                     ('iadd', lambda: iadd(small)), ('sub', lambda: (c + 10 ** 9) - small),
                     ('json', lambda: Currency.from_json(r.choice(['1.5', '0.1', small]))),
                     ('mul', lambda: Currency('0.000000001') * r.choice(['0.5', .5, '1.5', '0.000000001'])),
                     ('exponent', lambda: Currency(r.choice(['1e-10', '5E-11', '1.5e-9', '12345e-10'])))):
        bad(what + ' (precision)', fn, E.CurrencyPrecisionOverflow, 'refused_precision')
    for s in JUNK + [b'1', [1], {}, object(), (1,), 1.5]:
        if s is not None:
            refuses(ctx, 'Currency(%r)' % (s,), lambda: None if s == '1.' else Currency(s)) if s != '1.' else None
        if s not in (1.5, '1.'):
            refuses(ctx, 'adding %r' % (s,), lambda: c + s)
            refuses(ctx, 'comparing with %r' % (s,), lambda: c < s)
        if s not in ('', None, '1.'):
            refuses(ctx, 'from_json(%r)' % (s,), lambda: Currency.from_json(s))
        if s is not None and s != '1.':
            refuses(ctx, 'setting %r' % (s,), lambda: setv(s))
    view(ctx, c, v, 'the amount after everything that was refused')


def carriers(ctx):
    """the same amounts inside outputs, fees and transactions"""
    from tfchain.types import transactions as T, ConditionTypes as C
    from tfchain.types.PrimitiveTypes import Currency
    r = ctx.rng
    g = Gen(r, keys=1)
    t = T.new()
    vs, fs = [], []
    for _ in range(r.randrange(1, 6)):
        v = amount(r)
        k, x = operand(r, v)
        if k == 'float':
            x = Currency(text(r, v))
        t.coin_output_add(x, C.unlockhash_new(g.addr()))
        vs.append(v)
        v = amount(r)
        k, x = operand(r, v)
        if k == 'float':
            x = str(Currency(text(r, v)))
        t.miner_fee_add(x)
        fs.append(v)
    js = json.loads(json.dumps(t.json()))
    ctx.eq([x['value'] for x in js['data']['coinoutputs']], [str(v) for v in vs], 'amounts of a transaction')
    ctx.eq(js['data']['minerfees'], [str(v) for v in fs], 'fees of a transaction')
    u = T.from_json(js)
    for x, v in zip(u.coin_outputs, vs):
        view(ctx, x.value, v, 'amount read from a transaction')
    for x, v in zip(u.miner_fees, fs):
        view(ctx, x, v, 'fee read from a transaction')
    tot = sum(vs + fs)
    if tot <= MAX:
        s = sum([x.value for x in u.coin_outputs] + list(u.miner_fees))
        view(ctx, s, tot, 'sum of a transaction')
        ctx.count('sums')
    ctx.key('carriers', len(vs), mag(vs[0]))


PARTS = [('arithmetic', 4000, 200000, arithmetic), ('refusals', 800, 30000, refusals), ('carriers', 1500, 40000, carriers)]
