"""Only well-formed 3Bot names and network addresses are accepted."""
import json

from .. import ref
from ..gen import Gen

RULE = ('Random names and network addresses on both sides of every rule (part and total lengths, first and last characters, separators, '
        'whitespace, line ends, non-ASCII letters and digits, top level labels, dotted quads, IPv6 forms) given to constructors, '
        'setters, JSON and the transactions that carry them; the decision, the value kept in text, JSON and copies, and the family in '
        'the bytes are compared with a hand-written recogniser. distinct = distinct (kind, decision, generator, length).')
REQUIRED = ['names_ok', 'names_refused', 'addresses_ok', 'addresses_refused', 'ipv4', 'ipv6', 'hostname', 'in_transactions', 'family_checked', 'copies']
ASSUMPTIONS = ['the rules are those of the protocol: names of dot separated parts (first 5-63, others 5-57 characters, letter first, letter or '
               'digit last, hyphens inside) of 63 characters in all; hostnames of one label and a top level of 2-6 letters, or three labels',
               'an IPv4-mapped IPv6 address is the IPv4 address; the empty text in JSON is an unset value; numbers are not judged']
LOW = 'abcdefghijklmnopqrstuvwxyz'
LET = LOW + LOW.upper()
DIG = '0123456789'


# ------------------------------------------------------------------ recognisers
def name_ok(s):
    if len(s) > 63 or not s:
        return False
    for n, p in enumerate(s.split('.')):
        if not 5 <= len(p) <= (63 if n == 0 else 57):
            return False
        if p[0] not in LET or p[-1] not in LET + DIG:
            return False
        if any(c not in LET + DIG + '-' for c in p):
            return False
    return True


def host_label(p):
    a = LET + DIG
    if len(p) == 1:
        return p in LET
    if len(p) == 2:
        return all(c in a for c in p) and not all(c in DIG for c in p)
    return 3 <= len(p) <= 63 and p[0] in a and p[-1] in a and all(c in a + '-_' for c in p)


def host_ok(s):
    if not s or len(s) > 63:
        return False
    p = s.split('.')
    if len(p) == 2:
        return host_label(p[0]) and 2 <= len(p[1]) <= 6 and all(c in LET for c in p[1])
    if len(p) == 3:
        return host_label(p[0]) and 2 <= len(p[1]) <= 30 and all(c in LET + DIG + '-' for c in p[1]) and \
            2 <= len(p[2]) <= 3 and all(c in LET for c in p[2])
    return False


def ipv4(s):
    p = s.split('.')
    if len(p) != 4:
        return None
    out = []
    for x in p:
        if not 1 <= len(x) <= 3 or any(c not in DIG for c in x) or (len(x) > 1 and x[0] == '0') or int(x) > 255:
            return None
        out.append(int(x))
    return bytes(out)


def ipv6(s):
    """packed bytes of an IPv6 text, or None"""
    if s.count('::') > 1 or ':::' in s or ':' not in s:
        return None
    tail = b''
    if '.' in s:
        i = s.rfind(':')
        tail = ipv4(s[i + 1:])
        if tail is None:
            return None
        s = s[:i + 1] + '%x:%x' % (tail[0] << 8 | tail[1], tail[2] << 8 | tail[3])

    def groups(t):
        if t == '':
            return []
        out = []
        for g in t.split(':'):
            if not 1 <= len(g) <= 4 or any(c not in DIG + 'abcdefABCDEF' for c in g):
                return None
            out.append(int(g, 16).to_bytes(2, 'big'))
        return out
    if '::' in s:
        a, b = s.split('::')
        a, b = groups(a), groups(b)
        if a is None or b is None or len(a) + len(b) > 7:
            return None
        return b''.join(a) + bytes(2 * (8 - len(a) - len(b))) + b''.join(b)
    a = groups(s)
    return b''.join(a) if a is not None and len(a) == 8 else None


def address(s):
    """(family, bytes) or None"""
    if host_ok(s):
        return 0, s.encode()
    b = ipv4(s)
    if b is not None:
        return 1, b
    b = ipv6(s)
    if b is not None:
        return (1, b[12:]) if b[:12] == b'\0' * 10 + b'\xff\xff' else (2, b)
    return None


# ------------------------------------------------------------------ generators
def chars(r, n, a):
    return ''.join(r.choice(a) for _ in range(n))


def part(r, n):
    if n <= 0:
        return ''
    if n == 1:
        return r.choice(LET + DIG)
    return r.choice(LET) + chars(r, n - 2, LET + DIG + '-') + r.choice(LET + DIG)


EVIL = ['\n', ' ', '\t', '\r', '\0', '_', '.', '..', '-', '\u0131', 'é', '\u0660', '\uff21', '\u200b', ':', '/', '@', '\r\n', '\x0b', '\u2028', '*', '+', '٣', 'K', 'ſ']


def evil(r, s):
    k = r.randrange(5)
    e = r.choice(EVIL)
    if k == 0:
        return s + e
    if k == 1:
        return e + s
    i = r.randrange(len(s) + 1)
    if k == 2:
        return s[:i] + e + s[i:]
    if k == 3 and s:
        i = r.randrange(len(s))
        return s[:i] + e + s[i + 1:]
    return s[:i] + s[i + 1:]


def name(r):
    k = r.randrange(6)
    if k == 0:
        s = part(r, r.choice([0, 1, 3, 4, 5, 6, 30, 62, 63, 64, 65]))
    elif k == 1:
        n = r.choice([4, 5, 6, 56, 57, 58])
        m = r.choice([4, 5, 6])
        s = part(r, n) + '.' + part(r, m) if r.random() < .5 else part(r, m) + '.' + part(r, n)
    elif k == 2:                            # total length around the limit
        ps = [part(r, r.choice([5, 6, 9])) for _ in range(r.choice([2, 5, 8, 9, 10]))]
        s = '.'.join(ps)
        t = r.choice([62, 63, 64])
        if len(s) < t:
            s += part(r, t - len(s)) if r.random() < .5 else '.' + part(r, t - len(s) - 1)
    elif k == 3:
        s = r.choice([DIG, '-', LET]) [0] + part(r, 6) if r.random() < .5 else part(r, 6) + r.choice(['-', '1', 'a', '.', '-a', '--a'])
    else:
        s = '.'.join(part(r, r.choice([5, 5, 7, 12])) for _ in range(r.choice([1, 2, 3])))
    if r.random() < .4:
        s = evil(r, s)
    return s


def host(r):
    k = r.randrange(5)
    lab = r.choice([part(r, r.choice([1, 2, 3, 4, 10])), chars(r, 2, DIG), chars(r, 1, DIG), r.choice(DIG) + r.choice(LET),
                    r.choice(LET) + r.choice(DIG), chars(r, r.choice([3, 9]), LET + DIG + '-_'), part(r, r.choice([50, 57, 60, 61, 62, 63, 64]))])
    tld = chars(r, r.choice([1, 2, 3, 4, 5, 6, 7]), LET if r.random() < .9 else LET + DIG)
    mid = chars(r, r.choice([1, 2, 3, 29, 30, 31]), LET + DIG + '-' + ('_' if r.random() < .1 else ''))
    if k == 0:
        return lab + '.' + tld
    if k == 1:
        return lab + '.' + mid + '.' + tld
    if k == 2:
        return lab + '.' + mid + '.' + part(r, 3) + '.' + tld
    if k == 3:
        t = r.choice([62, 63, 64])
        tail = '.' + r.choice(['org', 'museum', 'abc.io'])
        return part(r, t - len(tail)) + tail
    return lab


def v4(r):
    s = [str(r.choice([0, 1, 9, 10, 99, 100, 199, 249, 250, 254, 255, r.randrange(256)])) for _ in range(4)]
    k = r.randrange(6)
    if k == 0:
        s[r.randrange(4)] = r.choice(['256', '300', '999', '1000', '00', '01', '007', '', '-1', '+1', '0x1', '1a', ' 1', '1 ', '٣', '1e1'])
    elif k == 1:
        s = s[:r.choice([1, 2, 3])] if r.random() < .5 else s + ['1']
    return '.'.join(s)


def v6(r):
    import ipaddress
    k = r.randrange(8)
    b = bytes(r.choice([0, 0, 0, 1, 255, r.randrange(256)]) for _ in range(16))
    if k == 0:
        return ':'.join('%x' % int.from_bytes(b[i:i + 2], 'big') for i in range(0, 16, 2))
    if k == 1:
        return ':'.join('%04X' % int.from_bytes(b[i:i + 2], 'big') for i in range(0, 16, 2))
    if k == 2:
        return '::ffff:' + v4(r)
    if k == 3:
        return r.choice(['::', '::1', '1::', ':::', '::1::', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '1:2:3:4:5:6:7:8:9', '1:2:3:4:5:6:7',
                         '1:2:3:4::5:6:7:8', '12345::', 'g::', ':1::', '1::2:', '::1.2.3.4', '1::1.2.3', '::ffff:0:0', '1.2.3.4::', '::1 ', ' ::1',
                         '::1\n', '[::1]', '::1/64', 'fe80::1%eth0', 'fe80::1%1', '::%', 'fe80::%25a', '::ffff:1.2.3.4%x', '0:0:0:0:0:ffff:1.2.3.4', '-1::', '+1::'])
    s = str(ipaddress.IPv6Address(b))
    return s.upper() if k == 4 else s


def addr(r):
    k = r.randrange(8)
    s = host(r) if k < 4 else v4(r) if k < 6 else v6(r)
    if r.random() < .25:
        s = evil(r, s)
    return s


# ------------------------------------------------------------------ cases
def decide(ctx, what, ok, fn):
    """runs a constructor; a value error refuses"""
    try:
        x = fn()
    except ValueError:
        if ok:
            ctx.fail('%s is refused', what)
        return None
    except Exception as e:
        ctx.fail('%s gives %r', what, e)
    if not ok:
        ctx.fail('%s is accepted as %r', what, str(x))
    return x


def names(ctx):
    from tfchain.types.ThreeBot import BotName
    from tfchain.encoders import sia_encode, rivine_encode
    r = ctx.rng
    s = name(r)
    ok = name_ok(s)
    keep = BotName('keepme.please')

    def setter():
        keep.value = s
        return keep
    ways = [('BotName', lambda: BotName(s)), ('set', setter)] + ([('from_json', lambda: BotName.from_json(s))] if s else [])
    for way, fn in ways:
        x = decide(ctx, '%s(%r)' % (way, s), ok, fn)
        if x is None:
            ctx.count('names_refused')
            ctx.eq(keep.value, 'keepme.please', 'the name after %r was refused' % s)
            continue
        ctx.count('names_ok')
        y = BotName(x)
        ctx.count('copies')
        ctx.eq([x.value, str(x), x.json(), json.loads(json.dumps(x.json())), y.value, BotName.from_json(x.json()).value], [s] * 6, 'name')
        ctx.eq(bytes(rivine_encode(x)).hex(), ref.Riv.slice(s.encode()).hex(), 'bytes of the name %r' % s)
        ctx.eq(bytes(sia_encode(x)).hex(), ref.Sia.slice(s.encode()).hex(), 'Sia bytes of the name %r' % s)
        y.value = 'other.names'
        ctx.eq(x.value, s, 'name after its copy changed')
    ctx.key('name', ok, min(len(s), 70), s.count('.'))
    ctx.sample({'name': s, 'ok': ok})


def addresses(ctx):
    from tfchain.types.ThreeBot import NetworkAddress
    from tfchain.encoders import sia_encode, rivine_encode
    import ipaddress
    r = ctx.rng
    s = addr(r)
    fam = address(s)
    ok = fam is not None
    keep = NetworkAddress('keep.example.org')
    T = [NetworkAddress.Type.HOSTNAME, NetworkAddress.Type.IPV4, NetworkAddress.Type.IPV6]

    def setter():
        keep.value = s
        return keep
    ways = [('NetworkAddress', lambda: NetworkAddress(s)), ('set', setter)] + ([('from_json', lambda: NetworkAddress.from_json(s))] if s else [])
    if ok and fam[0]:                   # the same address as a number
        n = int.from_bytes(fam[1], 'big')
        for n in [n] + ([0xffff << 32 | n] if fam[0] == 1 else []):
            if fam[0] == 1 or n >= 1 << 32:
                ways.append(('%d for' % n, lambda n=n: NetworkAddress(n)))
                ctx.count('numbers')
    for way, fn in ways:
        x = decide(ctx, '%s(%r)' % (way, s), ok, fn)
        if x is None:
            ctx.count('addresses_refused')
            ctx.eq(keep.value, 'keep.example.org', 'the address after %r was refused' % s)
            continue
        ctx.count('addresses_ok')
        ctx.count(['hostname', 'ipv4', 'ipv6'][fam[0]])
        want = s if fam[0] == 0 else '.'.join(map(str, fam[1])) if fam[0] == 1 else str(ipaddress.IPv6Address(fam[1]))
        y = NetworkAddress(x)
        ctx.count('copies')
        ctx.eq([x.value, str(x), x.json(), y.value, NetworkAddress.from_json(x.json()).value], [want] * 5, 'network address %r' % s)
        b = bytes([fam[0] | len(fam[1]) << 2]) + fam[1]
        for z in (x, y):
            ctx.eq(bytes(rivine_encode(z)).hex(), b.hex(), 'bytes of the network address %r' % s)
            ctx.eq(bytes(sia_encode(z)).hex(), b.hex(), 'Sia bytes of the network address %r' % s)
        y.value = 'other.org'
        ctx.eq(x.value, want, 'address after its copy changed')
    for n, t in enumerate(T[1:], 1):
        decide(ctx, 'NetworkAddress(None, type %d)' % n, False, lambda: NetworkAddress(network_type=t))
    for n, t in enumerate(T):
        decide(ctx, 'NetworkAddress(%r, type %d)' % (s, n), ok and fam[0] == n, lambda: NetworkAddress(s, network_type=t))
        ctx.count('family_checked')
    ctx.key('address', ok and fam[0], min(len(s), 70), s.count('.'), s.count(':'))
    ctx.sample({'address': s, 'family': fam and fam[0]})


def carried(ctx):
    """inside the transactions, through setters and JSON"""
    from tfchain.types import transactions as T
    r = ctx.rng
    g = Gen(r, keys=1)
    v = r.choice([144, 144, 145, 145, 146])
    js = g.tx(v)[0]
    d = js['data']
    use_name = v == 146 or r.random() < .5
    good = g.name() if use_name else g.netaddr()
    s = name(r) if use_name else addr(r)
    if not s:
        return
    ok = name_ok(s) if use_name else address(s) is not None
    k = 'names' if use_name else 'addresses'
    sub = None
    l = [good, s]
    r.shuffle(l)
    if v == 145:
        sub = r.choice(['add', 'remove'])
        d[k] = {sub: l}
    else:
        d[k] = l
    x = decide(ctx, 'v%d with %s %s %r' % (v, sub or '', k, s), ok, lambda: T.from_json(json.loads(json.dumps(js))))
    t = {144: T.threebot_registration_new, 145: T.threebot_record_update_new, 146: T.threebot_name_transfer_new}[v]()
    attr = k + ('_to_' + sub if sub else '')
    y = decide(ctx, 'v%d.%s = [%r]' % (v, attr, s), ok, lambda: setattr(t, attr, l) or t)
    if x is not None:
        want = [z if use_name else ref_text(z) for z in l]
        out = x.json()['data'][k]
        ctx.eq(out[sub] if sub else out, want, '%s of a v%d transaction' % (k, v))
        ctx.eq([str(z) for z in getattr(t, attr)], want, '%s set in a v%d transaction' % (k, v))
    ctx.count('in_transactions')
    ctx.key('tx', v, attr, ok)


def ref_text(s):
    import ipaddress
    f, b = address(s)
    return s if f == 0 else '.'.join(map(str, b)) if f == 1 else str(ipaddress.IPv6Address(b))


PARTS = [('names', 6000, 300000, names), ('addresses', 6000, 300000, addresses), ('carried', 1500, 40000, carried)]
