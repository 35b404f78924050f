"""Independent reference of the TFChain wire formats.

Nothing in this module imports tfchain.  Everything works on plain JSON documents (dicts) as they travel
over the network: conditions, fulfillments, transactions.  It is validated against transactions recorded
from the real network (mon/golden.json, see mon/selftest.py).
"""
import base64
import hashlib
import ed25519

MAX64 = 2 ** 64 - 1


def blake(b):
    return hashlib.blake2b(bytes(b), digest_size=32).digest()


def le(n, w=8):
    return int(n).to_bytes(w, 'little')


# ------------------------------------------------------------------ two codecs
class Sia:
    name = 'sia'

    @staticmethod
    def length(n):
        return le(n, 8)

    @classmethod
    def slice(cls, b):
        return cls.length(len(b)) + bytes(b)

    @staticmethod
    def currency(v):
        b = v.to_bytes((v.bit_length() + 7) // 8, 'big')
        return le(len(b), 8) + b

    @classmethod
    def pubkey(cls, text):
        algo, _, key = text.partition(':')
        key = bytes.fromhex(key)
        return algo.encode().ljust(16, b'\0') + cls.slice(key)


class Riv:
    name = 'riv'

    @staticmethod
    def length(n):
        if n < 1 << 7:
            return le(n << 1, 1)
        if n < 1 << 14:
            return le(n << 2 | 1, 2)
        if n < 1 << 21:
            return le(n << 3 | 3, 3)
        return le(n << 3 | 7, 4)

    @classmethod
    def slice(cls, b):
        return cls.length(len(b)) + bytes(b)

    @classmethod
    def currency(cls, v):
        return cls.slice(v.to_bytes((v.bit_length() + 7) // 8, 'big'))

    @staticmethod
    def pubkey(text):
        algo, _, key = text.partition(':')
        return b'\x01' + bytes.fromhex(key)


# ------------------------------------------------------------------ addresses
NIL = '00' * 39


def uh_bytes(text):
    """33 bytes of an address text (type byte and hash)"""
    return bytes.fromhex(text[:66])


def uh_text(t, h):
    body = bytes([t]) + h
    return (body + blake(body)[:6]).hex() if t else NIL


def uh_valid(text):
    if not isinstance(text, str) or len(text) != 78:
        return False
    try:
        raw = bytes.fromhex(text)
    except ValueError:
        return False
    if len(raw) != 39:
        return False
    return uh_text(raw[0], raw[1:33]) == text.lower() if raw[0] else text == NIL


def pubkey_address(text):
    """address of a public key text 'ed25519:<hex>'"""
    return uh_text(1, blake(Sia.slice(Sia.pubkey(text))))


def key_address(raw):
    return pubkey_address('ed25519:' + raw.hex())


def derive_signing_key(seed, index):
    return ed25519.SigningKey(blake(bytes(seed) + le(index)))


def derive_pubkey(seed, index):
    return 'ed25519:' + derive_signing_key(seed, index).get_verifying_key().to_bytes().hex()


def derive_address(seed, index):
    return pubkey_address(derive_pubkey(seed, index))


def merkle_root(leaves):
    """reference merkle root (recursive construction: the largest power of two to the left)"""
    if not leaves:
        return None

    def node(ls):
        if len(ls) == 1:
            return blake(b'\0' + ls[0])
        k = 1
        while k * 2 < len(ls):
            k *= 2
        return blake(b'\1' + node(ls[:k]) + node(ls[k:]))
    return node([bytes(x) for x in leaves])


def multisig_address(owners, minimum):
    owners = sorted(owners)
    leaves = [le(len(owners))] + [uh_bytes(o) for o in owners] + [le(minimum)]
    return uh_text(3, merkle_root(leaves))


def erc20_of_address(addr):
    """ERC20 withdraw address derived from a chain address"""
    return '0x' + blake(uh_bytes(addr))[-20:].hex()


# ------------------------------------------------------------------ conditions / fulfillments
def cond_data(c, cd):
    t = (c or {}).get('type', 0)
    d = (c or {}).get('data') or {}
    if t == 0:
        return b''
    if t == 1:
        return uh_bytes(d['unlockhash'])
    if t == 2:
        return uh_bytes(d['sender']) + uh_bytes(d['receiver']) + bytes.fromhex(d['hashedsecret']) + le(d['timelock'])
    if t == 3:
        inner = d.get('condition') or {}
        return le(d['locktime']) + bytes([inner.get('type', 0)]) + cond_data(inner, cd)
    if t == 4:
        uhs = d['unlockhashes']
        return le(d['minimumsignaturecount']) + cd.length(len(uhs)) + b''.join(uh_bytes(u) for u in uhs)
    raise ValueError('condition type %r' % t)


def cond_bin(c, cd):
    return bytes([(c or {}).get('type', 0)]) + cd.slice(cond_data(c, cd))


def cond_unwrap(c):
    while (c or {}).get('type', 0) == 3:
        c = c['data'].get('condition') or {}
    return c or {}


def cond_lock(c):
    return c['data']['locktime'] if (c or {}).get('type', 0) == 3 else 0


def cond_address(c):
    c = cond_unwrap(c)
    t = c.get('type', 0)
    if t == 0:
        return NIL
    d = c['data']
    if t == 1:
        return d['unlockhash']
    if t == 2:
        return uh_text(2, blake(Sia.slice(cond_data(c, Sia))))
    return multisig_address(d['unlockhashes'], d['minimumsignaturecount'])


def is_locked(lock, height, time):
    return (time if lock >= 500000000 else height) < lock


def ful_data(f, cd, secret_pad=True):
    t = f.get('type', 0)
    d = f.get('data') or {}
    if t == 1:
        return cd.pubkey(d['publickey']) + cd.slice(bytes.fromhex(d['signature']))
    if t == 2:
        secret = bytes.fromhex(d.get('secret') or '')
        if not secret and secret_pad:
            secret = bytes(32)
        return cd.pubkey(d['publickey']) + cd.slice(bytes.fromhex(d['signature'])) + secret
    if t == 3:
        return cd.length(len(d['pairs'])) + b''.join(
            cd.pubkey(p['publickey']) + cd.slice(bytes.fromhex(p['signature'])) for p in d['pairs'])
    raise ValueError('fulfillment type %r' % t)


def ful_bin(f, cd, **kw):
    return bytes([f['type']]) + cd.slice(ful_data(f, cd, **kw))


# ------------------------------------------------------------------ 3Bot values
def bot_name_bin(n):
    return Riv.slice(n.encode())


def netaddr_parse(a):
    """(type, bytes): 0 hostname, 1 ipv4, 2 ipv6"""
    import ipaddress
    try:
        ip = ipaddress.ip_address(a)
    except ValueError:
        return 0, a.encode()
    return (1, ip.packed) if ip.version == 4 else (2, ip.packed)


def netaddr_bin(a):
    t, b = netaddr_parse(a)
    return bytes([t | len(b) << 2]) + b


def erc20_bin(a):
    return bytes.fromhex(a[2:] if a[:2].lower() == '0x' else a)


# ------------------------------------------------------------------ transactions
SPEC = {
    128: b'minter defin tx\0', 129: b'coin mint tx\0\0\0\0', 144: b'bot register tx\0', 145: b'bot recupdate tx',
    146: b'bot nametrans tx', 208: b'erc20 convert tx', 209: b'erc20 coingen tx', 210: b'erc20 addrreg tx'}
COIN_OUT = b'coin output\0\0\0\0\0'
BS_OUT = b'blstake output\0\0'


def cur(v):
    return int(v or '0')


def out_bin(o, cd):
    return cd.currency(cur(o['value'])) + cond_bin(o.get('condition'), cd)


def outs_bin(os_, cd):
    return cd.length(len(os_)) + b''.join(out_bin(o, cd) for o in os_)


def fees_bin(fs, cd):
    return cd.length(len(fs)) + b''.join(cd.currency(cur(f)) for f in fs)


def in_bin(i, cd, **kw):
    return bytes.fromhex(i['parentid']) + ful_bin(i['fulfillment'], cd, **kw)


def ins_bin(is_, cd, **kw):
    return cd.length(len(is_)) + b''.join(in_bin(i, cd, **kw) for i in is_)


def data_of(tx):
    return base64.b64decode(tx['data'].get('arbitrarydata') or '')


def lst(d, k):
    return d.get(k) or []


def coin_inputs(tx):
    return lst(tx['data'], 'coininputs')


def coin_outputs(tx):
    """coin outputs in index order, the refund output included"""
    v, d = tx['version'], tx['data']
    if v in (0, 1, 129):
        return lst(d, 'coinoutputs')
    if v in (144, 145, 146, 208, 210):
        return [d['refundcoinoutput']] if d.get('refundcoinoutput') else []
    if v == 209:
        return [{'value': d['value'], 'condition': {'type': 1, 'data': {'unlockhash': d['address']}}}]
    return []


def bs_outputs(tx):
    return lst(tx['data'], 'blockstakeoutputs') if tx['version'] in (0, 1) else []


def parents_bin(is_):
    return le(len(is_)) + b''.join(bytes.fromhex(i['parentid']) for i in is_)


def refund_bin(d, cd):
    r = d.get('refundcoinoutput')
    return b'\x01' + out_bin(r, cd) if r else b'\x00'


def netaddrs_bin(l):
    return b''.join(netaddr_bin(a) for a in l)


def names_bin(l):
    return b''.join(bot_name_bin(a) for a in l)


def v0_outs(os_):
    return le(len(os_)) + b''.join(Sia.currency(cur(o['value'])) + uh_bytes(o['unlockhash']) for o in os_)


def v0_ins(is_):
    return le(len(is_)) + b''.join(
        bytes.fromhex(i['parentid']) + b'\1' + Sia.slice(Sia.pubkey(i['unlocker']['condition']['publickey'])) +
        Sia.slice(bytes.fromhex(i['unlocker']['fulfillment']['signature'])) for i in is_)


def v0_parents(is_):
    return b''.join(bytes.fromhex(i['parentid']) + uh_bytes(pubkey_address(i['unlocker']['condition']['publickey']))
                    for i in is_)


def sighash_input(tx, *extras):
    """bytes hashed for a signature. extras: already encoded bytes, see extra_* below."""
    v, d = tx['version'], tx['data']
    x = b''.join(extras)
    if v == 0:
        return (x + v0_parents(lst(d, 'coininputs')) + v0_outs(lst(d, 'coinoutputs')) +
                v0_parents(lst(d, 'blockstakeinputs')) + v0_outs(lst(d, 'blockstakeoutputs')) +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    if v == 1:
        return (b'\x01' + x + parents_bin(lst(d, 'coininputs')) + outs_bin(lst(d, 'coinoutputs'), Sia) +
                parents_bin(lst(d, 'blockstakeinputs')) + outs_bin(lst(d, 'blockstakeoutputs'), Sia) +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    s = bytes([v]) + SPEC[v]
    if v == 128:
        return (s + base64.b64decode(d['nonce']) + x + cond_bin(d.get('mintcondition'), Sia) +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    if v == 129:
        return (s + base64.b64decode(d['nonce']) + x + outs_bin(lst(d, 'coinoutputs'), Sia) +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    fee = Riv.currency(cur(d.get('txfee')))
    if v == 144:
        a, n = lst(d, 'addresses'), lst(d, 'names')
        return (s + x + Riv.length(len(a)) + netaddrs_bin(a) + Riv.length(len(n)) + names_bin(n) +
                le(d.get('nrofmonths', 0), 1) + parents_bin(lst(d, 'coininputs')) + fee + refund_bin(d, Riv) +
                Riv.pubkey(d['identification']['publickey']))
    if v == 145:
        a, n = d.get('addresses') or {}, d.get('names') or {}
        return (s + le(d['id'], 4) + x +
                Riv.length(len(lst(a, 'add'))) + netaddrs_bin(lst(a, 'add')) +
                Riv.length(len(lst(a, 'remove'))) + netaddrs_bin(lst(a, 'remove')) +
                Riv.length(len(lst(n, 'add'))) + names_bin(lst(n, 'add')) +
                Riv.length(len(lst(n, 'remove'))) + names_bin(lst(n, 'remove')) +
                le(d.get('nrofmonths') or 0, 1) + parents_bin(lst(d, 'coininputs')) + fee + refund_bin(d, Riv))
    if v == 146:
        n = lst(d, 'names')
        return (s + le(d['sender']['id'], 4) + le(d['receiver']['id'], 4) + x + Riv.length(len(n)) + names_bin(n) +
                parents_bin(lst(d, 'coininputs')) + fee + refund_bin(d, Riv))
    if v == 208:
        return (s + erc20_bin(d['address']) + Riv.currency(cur(d['value'])) + x + parents_bin(lst(d, 'coininputs')) +
                fee + refund_bin(d, Riv))
    if v == 209:
        return (s + x + uh_bytes(d['address']) + Sia.currency(cur(d['value'])) + Sia.currency(cur(d['txfee'])) +
                erc20_bin(d['blockid']) + erc20_bin(d['txid']))
    if v == 210:
        return (s + Riv.pubkey(d['pubkey']) + x + parents_bin(lst(d, 'coininputs')) + Riv.currency(cur(d['regfee'])) +
                fee + refund_bin(d, Riv))
    raise ValueError('version %r' % v)


def sighash(tx, *extras):
    return blake(sighash_input(tx, *extras))


def codec_of(tx):
    """codec in which the extras of a signature hash are encoded"""
    return Sia if tx['version'] in (0, 1, 128, 129, 209) else Riv


def extra_index(i):
    return le(i)


def extra_pubkey(tx, text):
    return codec_of(tx).pubkey(text)


def extra_text(tx, text):
    """fixed-size specifier ('sender', 'receiver', 'registration')"""
    return text.encode()


def id_input(tx, secret_pad=True):
    v, d = tx['version'], tx['data']
    kw = {'secret_pad': secret_pad}
    if v == 0:
        return (b'\0' + v0_ins(lst(d, 'coininputs')) + v0_outs(lst(d, 'coinoutputs')) + v0_ins(lst(d, 'blockstakeinputs')) +
                v0_outs(lst(d, 'blockstakeoutputs')) + fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    if v == 1:
        body = (ins_bin(lst(d, 'coininputs'), Sia, **kw) + outs_bin(lst(d, 'coinoutputs'), Sia) +
                ins_bin(lst(d, 'blockstakeinputs'), Sia, **kw) + outs_bin(lst(d, 'blockstakeoutputs'), Sia) +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
        return b'\x01' + Sia.slice(body)
    s = SPEC[v]
    if v in (128, 129):
        mid = cond_bin(d.get('mintcondition'), Sia) if v == 128 else outs_bin(lst(d, 'coinoutputs'), Sia)
        return (s + base64.b64decode(d['nonce']) + ful_bin(d['mintfulfillment'], Sia) + mid +
                fees_bin(lst(d, 'minerfees'), Sia) + Sia.slice(data_of(tx)))
    fee = Riv.currency(cur(d.get('txfee')))
    ins = ins_bin(lst(d, 'coininputs'), Riv, **kw)
    r = d.get('refundcoinoutput')
    rb = out_bin(r, Riv) if r else b''
    if v == 144:
        a, n = lst(d, 'addresses'), lst(d, 'names')
        return (s + bytes([d.get('nrofmonths', 0) | (32 if a else 0) | (64 if n else 0) | (128 if r else 0)]) +
                bytes([len(a) | len(n) << 4]) + netaddrs_bin(a) + names_bin(n) + fee + ins + rb +
                Riv.pubkey(d['identification']['publickey']) + bytes.fromhex(d['identification']['signature']))
    if v == 145:
        a, n = d.get('addresses') or {}, d.get('names') or {}
        aa, ar, na, nr = lst(a, 'add'), lst(a, 'remove'), lst(n, 'add'), lst(n, 'remove')
        o = s + le(d['id'], 4) + bytes([(d.get('nrofmonths') or 0) | (32 if aa or ar else 0) |
                                        (64 if na or nr else 0) | (128 if r else 0)])
        if aa or ar:
            o += bytes([len(aa) | len(ar) << 4]) + netaddrs_bin(aa) + netaddrs_bin(ar)
        if na or nr:
            o += bytes([len(na) | len(nr) << 4]) + names_bin(na) + names_bin(nr)
        return o + fee + ins + rb + Riv.slice(bytes.fromhex(d['signature']))
    if v == 146:
        n = lst(d, 'names')
        return (s + le(d['sender']['id'], 4) + Riv.slice(bytes.fromhex(d['sender']['signature'])) +
                le(d['receiver']['id'], 4) + Riv.slice(bytes.fromhex(d['receiver']['signature'])) +
                bytes([len(n) | (16 if r else 0)]) + names_bin(n) + fee + ins + rb)
    if v == 208:
        return s + erc20_bin(d['address']) + Riv.currency(cur(d['value'])) + fee + ins + refund_bin(d, Riv)
    if v == 209:
        return (s + uh_bytes(d['address']) + Riv.currency(cur(d['value'])) + fee + erc20_bin(d['blockid']) +
                erc20_bin(d['txid']))
    if v == 210:
        return (s + Riv.pubkey(d['pubkey']) + Riv.slice(bytes.fromhex(d['signature'])) + Riv.currency(cur(d['regfee'])) +
                fee + ins + refund_bin(d, Riv))
    raise ValueError('version %r' % v)


def coin_output_id(tx, index, **kw):
    return blake(COIN_OUT[:15 if tx['version'] == 0 else 16] + id_input(tx, **kw) + le(index)).hex()


def bs_output_id(tx, index, **kw):
    return blake(BS_OUT[:15 if tx['version'] == 0 else 16] + id_input(tx, **kw) + le(index)).hex()


def tx_id(tx):
    """identifier under which the simulated node knows a transaction (the library never computes these)"""
    return blake(b'txid' + id_input(tx)).hex()


def verify(pubkey_text, sig_hex, msg):
    algo, _, key = pubkey_text.partition(':')
    if algo != 'ed25519' or len(sig_hex) != 128 or len(key) != 64:
        return False
    try:
        ed25519.VerifyingKey(bytes.fromhex(key)).verify(bytes.fromhex(sig_hex), msg)
        return True
    except Exception:
        return False


# ------------------------------------------------------------------ fees
GRAIN = 10 ** 9
BOT_REG, BOT_MONTH, BOT_NAME, BOT_ADDR, BOT_TRANSFER, ERC20_REG = (x * GRAIN for x in (90, 10, 50, 20, 50, 10))
MINER_FEE = {'standard': GRAIN // 10, 'testnet': GRAIN // 10, 'devnet': GRAIN}


def month_fee(m):
    """protocol fee of a number of months"""
    f = m * BOT_MONTH
    if m < 12:
        return f
    if m < 24:
        return f * 7 // 10
    return f * 5 // 10


def bot_fee(tx):
    v, d = tx['version'], tx['data']
    if v == 144:
        return BOT_REG + month_fee(d.get('nrofmonths', 0)) + max(0, len(lst(d, 'names')) - 1) * BOT_NAME
    if v == 145:
        a, n = d.get('addresses') or {}, d.get('names') or {}
        f = month_fee(d.get('nrofmonths') or 0) + len(lst(n, 'add')) * BOT_NAME
        if lst(a, 'add') or lst(a, 'remove'):
            f += BOT_ADDR
        return f
    if v == 146:
        return len(lst(d, 'names')) * BOT_TRANSFER
    raise ValueError(v)
