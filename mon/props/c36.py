"""Errors and printed reports say what the case is."""
import hashlib
import time
from datetime import datetime

from .. import ref
from ..world import World, drive, cond_uh, cond_lock, cond_ms, cond_swap, OracleFail, tft, grains
from .c19 import zone, ZONES

RULE = ('Refusals of every kind are provoked against a model chain (swap contracts unknown, spent, of other terms, of others, too '
        'early, wrong secrets, too small; 3Bots unknown or expired; addresses of others; amounts that are no amounts; answers that '
        'are wrong) and everything the error carries compared with the chain and the request; contracts, blocks, transactions, '
        'payouts, lookups and the tip are printed and every figure in the text compared with the chain; durations and dates are '
        'compared with an independent calendar. distinct = distinct refusal or report, state and outcome.')
REQUIRED = ['not_found', 'spent', 'invalid', 'wrong_secret', 'forbidden', 'early', 'too_small', 'contracts_shown', 'refundable_shown',
            'waiting_shown', 'spent_shown', 'contracts_compared', 'bot_not_found', 'bot_inactive', 'erc20_refused', 'currency_errors',
            'answers', 'tips_shown', 'lookups_shown', 'ids_shown', 'durations', 'dates', 'keys', 'no_content', 'zones']
ASSUMPTIONS = ['the exact wording of messages is not judged, the figures, identifiers and addresses in them are',
               'dates are printed in the local time zone']
HOME = {'C36'}
DATE = '%Y/%m/%d %H:%M:%S'


def date(t):
    return datetime.fromtimestamp(t).strftime(DATE)


def span(s):
    """seconds as days, hours, minutes, seconds"""
    out = ''
    for n, u in ((86400, 'd'), (3600, 'h'), (60, 'm'), (1, 's')):
        if s // n:
            out += '%d%s' % (s // n, u)
        s %= n
    return out


def coins(g):
    """grains as the library prints them with unit"""
    whole, frac = divmod(g, 10 ** 9)
    f = ('%09d' % frac).rstrip('0')
    return '%d%s TFT' % (whole, '.' + f if f else '')


def need(text, parts, what, banned=()):
    words = set(text.replace(',', ' ').replace('\n', ' ').split()) | set(x.rstrip('.,:;)(') for x in text.split()) \
        | set(x.lstrip('(') for x in text.split())
    for p in parts:
        p = str(p)
        # figures must stand alone: 5 must not be found in 15
        if p not in text or (' ' not in p and p not in words and p.rstrip('.') not in words and not any(
                x.strip('().,:;') == p for x in text.split())):
            raise OracleFail(HOME, '%s does not say %s: %s' % (what, p, ' '.join(text.split())))
    for p in banned:
        if str(p) in text:
            raise OracleFail(HOME, '%s says %s: %s' % (what, p, ' '.join(text.split())))


def same_contract(k, oid, o, unspent, now, what, ctx):
    d = o.condition['data']
    got = (str(k.outputid), grains(k.amount), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp, k.unspent)
    want = (oid, o.value, d['sender'], d['receiver'], d['hashedsecret'], d['timelock'], unspent)
    if got != want:
        raise OracleFail(HOME, '%s names the contract %r instead of %r' % (what, got, want))
    if str(k.coin_output.id) != oid or grains(k.coin_output.value) != o.value or k.coin_output.condition.json() != o.condition or \
            k.condition.json() != o.condition:
        raise OracleFail(HOME, '%s: the output of the contract is %r' % (what, k.coin_output.json()))
    show_contract(k, oid, o, unspent, now, what, ctx)


def show_contract(k, oid, o, unspent, now, what, ctx):
    d = o.condition['data']
    for text in (repr(k), str(k)):
        need(text, [oid, coins(o.value), d['sender'], d['receiver'], d['hashedsecret']], 'the text of the contract (%s)' % what)
        at = date(d['timelock'])
        low = text.lower()
        if not unspent:
            need(text, [], what, [at])
            if 'spent' not in low or 'refund' in low:
                raise OracleFail(HOME, '%s: a spent contract is shown as %s' % (what, text))
            ctx.count('spent_shown')
        else:
            need(text, [at], 'the text of the contract (%s)' % what)
            if 'spent' in low:
                raise OracleFail(HOME, '%s: an unspent contract is shown as %s' % (what, text))
            wait = d['timelock'] - now
            if wait <= 0:
                if 'since' not in low:
                    raise OracleFail(HOME, '%s: a contract refundable for %d s is shown as %s' % (what, -wait, text))
                ctx.count('refundable_shown')
            else:
                need(text, [span(wait)], 'the text of the contract (%s)' % what)
                if 'since' in low:
                    raise OracleFail(HOME, '%s: a contract refundable in %d s is shown as %s' % (what, wait, text))
                ctx.count('waiting_shown')
    ctx.count('contracts_shown')


def swaps(ctx):
    """what refused swap operations report"""
    import tfchain.errors as E
    from tfchain.types.PrimitiveTypes import Hash
    from tfchain.types.AtomicSwap import AtomicSwapContract
    r = ctx.rng
    w = World(ctx, parties=3, rich=False)
    c = w.chain
    a, b, third = w.parties
    c.grant([(cond_uh(p.primary), 10 ** 11) for p in w.parties])

    def must(p, what, fn, kind, tag):
        ctx.count(tag)
        _, exc, pushes = w.call(p, what, HOME, fn, kind)
        if type(exc) is not kind:
            raise OracleFail(HOME, '%s ends in %s: %s' % (what, type(exc).__name__, exc))
        return exc

    def go():
        old = []
        for _ in range(r.choice([1, 2, 3])):
            s, rc = r.choice(w.own0(a)), r.choice(w.own0(b))
            secret = c.rand(32)
            lock = c.time + r.choice([1, 59, 60, 61, 3600, 3661, 86400, 90061, r.randrange(1, 10 ** 7)])
            cond = cond_swap(s, rc, hashlib.sha256(secret).hexdigest(), lock)
            value = w.fee + r.choice([1, w.fee, r.randrange(1, 10 ** 12), 5 * 10 ** 9, 10 ** 17 + 10])
            t = c.grant([(cond_uh(s), 3), (cond, value)], confirmed=r.random() < .7)
            oid = [i for i in t.coin_ids if c.outs[i].condition['type'] == 2][0]
            o = c.outs[oid]
            oarg = lambda: Hash(value=oid) if r.random() < .3 else oid
            for p in (a, b, third):
                sw = p.wallet.atomicswap
                # unknown
                if r.random() < .3:
                    gone = c.rand(32).hex()
                    garg = Hash(value=gone) if r.random() < .5 else gone
                    for what, fn in (('verify', lambda: sw.verify(garg)), ('redeem', lambda: sw.redeem(garg, secret)),
                                     ('refund', lambda: sw.refund(garg))):
                        e = must(p, what + ' of nothing', fn, E.AtomicSwapContractNotFound, 'not_found')
                        if str(e.outputid) != gone:
                            raise OracleFail(HOME, '%s of nothing names %s' % (what, e.outputid))
                        need(str(e), [gone], 'the error')
                # the contract itself
                k, _, _ = w.call(p, 'verify', HOME, lambda: sw.verify(oarg()))
                same_contract(k, oid, o, True, c.time, 'verify', ctx)
                # other terms
                wrongs = []
                x = r.choice([value - 1, value + 1, value * 10, 1])
                wrongs.append(('amount', dict(amount=w.amount(x)), [coins(x), coins(value)]))
                h = bytearray.fromhex(cond['data']['hashedsecret'])
                h[r.randrange(32)] ^= 1 << r.randrange(8)
                wrongs.append(('secret hash', dict(secret_hash=bytes(h) if r.random() < .5 else h.hex()), [h.hex(), cond['data']['hashedsecret']]))
                left = max(0, lock - c.time)
                longer = left + r.choice([1, 60, 10 ** 5])
                wrongs.append(('refund time', dict(min_refund_time='+%ds' % longer if r.random() < .5 else c.time + longer),
                               [span(longer), span(left) if left else date(lock)]))
                if left:
                    wrongs.append(('refund time', dict(min_refund_time=r.choice([0, c.time, c.time - 5])), []))
                if p is not a:
                    wrongs.append(('sender', dict(sender=True), []))
                if p is not b:
                    wrongs.append(('receiver', dict(receiver=True), []))
                for field, kw, parts in wrongs:
                    held = r.random() < .5
                    e = must(p, 'verify with another %s' % field, (lambda: sw.verify(oid, contract=k, **kw)) if held else
                             (lambda: sw.verify(oarg(), **kw)), E.AtomicSwapContractInvalid, 'invalid')
                    same_contract(e.contract, oid, o, True, c.time, 'the error about another %s' % field, ctx)
                    need(str(e), parts, 'the error about another %s' % field)
                    ctx.key('invalid', field, held, value > 10 ** 15, left > 0, p.name)
                if r.random() < .5:
                    other = c.rand(32).hex()
                    e = must(p, 'verify with the contract of another output', lambda: sw.verify(other, contract=k),
                             E.AtomicSwapContractInvalid, 'invalid')
                    same_contract(e.contract, oid, o, True, c.time, 'the error about another output', ctx)
                    need(str(e), [oid, other], 'the error about another output')
                # redeem and refund
                bad = bytearray(secret)
                bad[r.randrange(32)] ^= 1 << r.randrange(8)
                e = must(p, 'redeem with a wrong secret', lambda: sw.redeem(oarg(), bytes(bad)), E.AtomicSwapInvalidSecret, 'wrong_secret')
                same_contract(e.contract, oid, o, True, c.time, 'the error about the secret', ctx)
                if k.verify_secret(bytes(bad)) or not k.verify_secret(secret) or not k.verify_secret(secret.hex()):
                    raise OracleFail(HOME, 'the contract accepts %s or refuses %s' % (bad.hex(), secret.hex()))
                if p is not b:
                    e = must(p, 'redeem by another', lambda: sw.redeem(oarg(), secret), E.AtomicSwapForbidden, 'forbidden')
                    same_contract(e.contract, oid, o, True, c.time, 'the error about the redeemer', ctx)
                    need(str(e), [rc], 'the error about the redeemer')
                if c.time < lock:
                    e = must(p, 'refund too early', lambda: sw.refund(oarg()), E.AtomicSwapForbidden, 'early')
                    same_contract(e.contract, oid, o, True, c.time, 'the error about the refund time', ctx)
                    need(str(e), [date(lock)], 'the error about the refund time')
                elif p is not a:
                    e = must(p, 'refund by another', lambda: sw.refund(oarg()), E.AtomicSwapForbidden, 'forbidden')
                    same_contract(e.contract, oid, o, True, c.time, 'the error about the refunder', ctx)
                    need(str(e), [s], 'the error about the refunder')
                if r.random() < .4:
                    c.mine(dt=r.choice([1, 60, max(1, lock - c.time - 1), max(1, lock - c.time), max(1, lock - c.time) + 5]))
            # contracts printed at chosen times and compared
            for now in (lock - 1, lock, lock + 1, lock - r.randrange(1, min(lock - 1, 10 ** 7)), max(1, lock - 86400)):
                for unspent in (True, False):
                    x = AtomicSwapContract(coinoutput=k.coin_output, unspent=unspent, current_timestamp=now)
                    same_contract(x, oid, o, unspent, now, 'a contract at %+d s' % (now - lock), ctx)
            now = int(time.time())
            x = AtomicSwapContract(coinoutput=k.coin_output)
            if x.unspent is not True:
                raise OracleFail(HOME, 'a contract is spent unless said otherwise')
            if abs(lock - now) > 60 and ('since' in repr(x)) != (lock <= now):
                raise OracleFail(HOME, 'a contract at the time of the machine is shown as %r' % x)
            old.append(k)
            for y in old:
                same = str(y.outputid) == oid
                if (k == y) is not same or (k != y) is same:
                    raise OracleFail(HOME, 'contracts %s and %s compare as %r' % (oid, y.outputid, k == y))
                ctx.count('contracts_compared')
            gone = AtomicSwapContract(coinoutput=k.coin_output, unspent=False)
            if k == gone or not k != gone:
                raise OracleFail(HOME, 'a spent and an unspent contract are equal')
            from tfchain.types.IO import CoinOutput
            from tfchain.types import ConditionTypes
            import copy
            for part, new in (('value', value + 1), ('id', c.rand(32).hex()), ('timelock', lock + 1), ('sender', rc), ('hashedsecret', h.hex())):
                j = copy.deepcopy(cond)
                if part in j['data']:
                    j['data'][part] = new
                from tfchain.types.PrimitiveTypes import Currency
                y = AtomicSwapContract(coinoutput=CoinOutput(
                    value=Currency.from_json(str(new if part == 'value' else value)), condition=ConditionTypes.from_json(j),
                    id=Hash(value=new if part == 'id' else oid)), unspent=True)
                if k == y or not k != y or y == k:
                    raise OracleFail(HOME, 'contracts of another %s are equal' % part)
            # spent
            if r.random() < .8:
                how = r.choice(['elsewhere', 'redeemed'])
                if how == 'elsewhere':
                    c.insert({'version': 1, 'data': {'coininputs': [{'parentid': oid, 'fulfillment': {'type': 2, 'data': {
                        'publickey': w.pk(b), 'signature': c.rand(64).hex(), 'secret': secret.hex()}}}],
                        'coinoutputs': [{'value': str(value - w.fee), 'condition': cond_uh(rc)}], 'minerfees': [str(w.fee)]}},
                        confirmed=r.random() < .5)
                else:
                    w.call(b, 'redeem', HOME, lambda: b.wallet.atomicswap.redeem(oarg(), secret))
                    if r.random() < .5:
                        c.mine()
                p = r.choice(w.parties)
                sw = p.wallet.atomicswap
                for what, fn in (('verify', lambda: sw.verify(oarg(), amount=1)), ('redeem', lambda: sw.redeem(oarg(), bytes(bad))),
                                 ('refund', lambda: sw.refund(oarg()))):
                    e = must(p, what + ' of a spent contract', fn, E.AtomicSwapContractSpent, 'spent')
                    same_contract(e.contract, oid, o, False, c.time, 'the error about the spent contract', ctx)
                    m = c.txs[o.spender]
                    got = (str(e.transaction.id), e.transaction.unconfirmed)
                    if got != (o.spender, m.height is None) or (m.height is not None and e.transaction.height != m.height):
                        raise OracleFail(HOME, '%s of a spent contract names the transaction %r, it is %s at %s' % (
                            what, got + (e.transaction.height,), o.spender, m.height))
                    need(str(e), [o.spender], 'the error about the spent contract')
                    ctx.key('spent', what, how, m.height is None, p.name)
        # too small to be claimed
        for g in (1, w.fee - 1, w.fee, r.randrange(1, w.fee)):
            p, q = r.sample(w.parties, 2)
            if r.random() < .5:
                fn = lambda: p.wallet.atomicswap.initiate(participator=q.primary, amount=w.amount(g))
            else:
                fn = lambda: p.wallet.atomicswap.participate(initiator=q.primary, amount=w.amount(g), secret_hash=c.rand(32).hex())
            e = must(p, 'swap of %s' % tft(g), fn, E.AtomicSwapInsufficientAmountError, 'too_small')
            if (grains(e.amount), grains(e.minimum_miner_fee)) != (g, w.fee):
                raise OracleFail(HOME, 'the error about a swap of %d names %s and the fee %s' % (g, e.amount, e.minimum_miner_fee))
            need(str(e), [tft(g), tft(w.fee)], 'the error about a small swap')
            ctx.key('small', g == w.fee, g == w.fee - 1, w.fee)
        ctx.sample({'contract': oid, 'condition': cond})
    drive(ctx, w, go)


def bots(ctx):
    """what refused 3Bot, ERC20 and key operations report"""
    import tfchain.errors as E
    from tfchain.types.CryptoTypes import UnlockHash, PublicKey
    r = ctx.rng
    w = World(ctx, parties=2, rich=False)
    c = w.chain
    p, q = w.parties
    c.grant([(cond_uh(x.primary), 10 ** 12) for x in w.parties])

    def must(who, what, fn, kind, tag):
        ctx.count(tag)
        _, exc, pushes = w.call(who, what, HOME, fn, kind)
        if type(exc) is not kind:
            raise OracleFail(HOME, '%s ends in %s: %s' % (what, type(exc).__name__, exc))
        return exc

    def go():
        dead = [w.bot_new(x, d) for x in (p, q, None) for d in (0, -1, -r.randrange(1, 10 ** 6))]
        live = [w.bot_new(x, 10 ** 7) for x in (p, q)]
        T = p.wallet.threebot
        last = max(c.bots)
        # unknown ones
        for x in (last + 1, last + r.randrange(2, 1000), 2 ** 32 - 1, w.name(), w.pk()):
            arg = PublicKey.from_json(x) if isinstance(x, str) and ':' in x and r.random() < .5 else x
            e = must(p, 'record of %s' % x, lambda: p.client.threebot.record_get(arg), E.ThreeBotNotFound, 'bot_not_found')
            if str(e.identifier) != str(x):
                raise OracleFail(HOME, 'the record of %s: the error names %s' % (x, e.identifier))
            need(str(e), [x], 'the error')
        x = last + r.randrange(1, 1000)
        for what, fn in (('update', lambda: T.record_update(x, names_to_add=[w.name()])),
                         ('transfer from', lambda: T.name_transfer(sender=x, receiver=live[0]['id'], names=[w.name()])),
                         ('transfer to', lambda: T.name_transfer(sender=live[0]['id'], receiver=x, names=[w.name()]))):
            e = must(p, what + ' an unknown 3Bot', fn, E.ThreeBotNotFound, 'bot_not_found')
            if str(e.identifier) != str(x):
                raise OracleFail(HOME, '%s the unknown 3Bot %d names %s' % (what, x, e.identifier))
        # expired ones
        for d in r.sample(dead, 3):
            i, l = d['id'], r.choice(live)['id']
            for what, fn in (('update', lambda: T.record_update(i, names_to_add=[w.name()])),
                             ('transfer from', lambda: T.name_transfer(sender=i, receiver=l, names=[w.name()])),
                             ('transfer to', lambda: T.name_transfer(sender=l, receiver=i, names=[w.name()]))):
                e = must(p, what + ' an expired 3Bot', fn, E.ThreeBotInactive, 'bot_inactive')
                if (str(e.identifier), e.expiration) != (str(i), d['expiration']):
                    raise OracleFail(HOME, '%s the expired 3Bot %d (%d): the error names %s and %s' % (
                        what, i, d['expiration'], e.identifier, e.expiration))
                need(str(e), [i, date(d['expiration'])], 'the error about an expired 3Bot')
                ctx.key('bot', what, d['expiration'] - c.time > -2)
        # addresses of others
        own = set(p.own())
        for a in w.own0(q) + w.foreign:
            if a in own:
                continue
            arg = UnlockHash.from_json(a) if r.random() < .5 else a
            for what, fn, kind in (('registration', lambda: p.wallet.erc20.address_register(arg), E.ERC20RegistrationForbidden),
                                   ('registration lookup', lambda: p.wallet.erc20.address_get(arg), E.AddressNotInWallet)):
                e = must(p, what + ' of the foreign %s' % a, fn, kind, 'erc20_refused')
                if str(e.address) != a:
                    raise OracleFail(HOME, '%s of the foreign %s: the error names %s' % (what, a, e.address))
                need(str(e), [a], 'the error about a foreign address')
            try:
                k = p.wallet.key_pair_get(arg)
            except KeyError:
                ctx.count('keys')
            else:
                raise OracleFail(HOME, 'the wallet has a key for %s: %s' % (a, k.public_key))
        for n, a in enumerate(p.own()):
            k = p.wallet.key_pair_get(a if r.random() < .5 else UnlockHash.from_json(a))
            if ref.pubkey_address(str(k.public_key)) != a or str(k.unlockhash) != a:
                raise OracleFail(HOME, 'the key of %s is of %s' % (a, k.unlockhash))
            ctx.count('keys')
        # nothing to be found
        i = c.rand(32).hex()
        a = '01' + i
        a = a + ref.addr_checksum(a) if hasattr(ref, 'addr_checksum') else w.foreign[-1]
        cl = p.client
        for what, fn, part in (('transaction', lambda: cl.transaction_get(i), i), ('block', lambda: cl.block_get(i), i),
                               ('block', lambda: cl.block_get(c.height + 5), str(c.height + 5)),
                               ('coin output', lambda: cl.coin_output_get(i), i),
                               ('block stake output', lambda: cl.blockstake_output_get(i), i)):
            try:
                got = fn()
            except E.ExplorerNoContent as e:
                if part not in e.endpoint or e.endpoint != p.explorer.requests[-1][1]:
                    raise OracleFail(HOME, 'unknown %s %s: the error names %s' % (what, part, e.endpoint))
                need(str(e), [e.endpoint], 'the error')
                ctx.count('no_content')
            else:
                raise OracleFail(HOME, 'the unknown %s %s is %r' % (what, part, got))
        ctx.sample({'expired': dead[0]})
    drive(ctx, w, go)


def reports(ctx):
    """printed forms of what the client returns, and errors about wrong answers"""
    import tfchain.errors as E
    r = ctx.rng
    w = World(ctx, parties=2)
    c = w.chain

    def go():
        for _ in range(r.randrange(3, 10)):
            w.history()
        if r.random() < .5:
            c.mine(dt=r.choice([1, 60, 10 ** 6]))
        cl = w.parties[0].client
        x = w.parties[0].explorer
        info = cl.blockchain_info_get()
        for text in (repr(info), str(info)):
            need(text, [c.tip['id'], c.height, date(c.time)], 'the text of the tip')
        ctx.count('tips_shown')
        for a in sorted({a for t in c.txs.values() for a in t.addresses})[:12]:
            u = cl.unlockhash_get(a)
            n, m = len(u.transactions), len(u.multisig_addresses)
            for text in (repr(u), str(u)):
                need(text, [n, m, a], 'the text of the lookup')
                if [int(y) for y in text.replace(a, '').split() if y.isdigit()] != [n, m]:
                    raise OracleFail(HOME, 'the lookup of %d transactions and %d shared wallets is shown as %s' % (n, m, text))
            ctx.count('lookups_shown')
            ctx.key('lookup', min(n, 5), m)
        ids = list(c.txs)
        for i in r.sample(ids, min(8, len(ids))):
            t = cl.transaction_get(i)
            need(str(t), [i], 'the text of the transaction')
            need(repr(t), [i], 'the text of the transaction')
            if 'v%d' % c.txs[i].js['version'] not in str(t):
                raise OracleFail(HOME, 'a transaction of version %d is shown as %s' % (c.txs[i].js['version'], t))
            ctx.count('ids_shown')
        b = cl.block_get(r.choice(sorted(c.blocks)))
        m = c.blocks[b.height]
        if str(b) != m['id'] or repr(b) != m['id']:
            raise OracleFail(HOME, 'block %s is shown as %s' % (m['id'], b))
        for y in b.miner_payouts:
            if str(y) != str(y.id) or repr(y) != str(y.id):
                raise OracleFail(HOME, 'payout %s is shown as %s' % (y.id, y))
        # an answer that is wrong is named in the error
        tx = r.choice(ids)
        for what, fn in (('block', lambda: cl.block_get(m['id'])), ('height', lambda: cl.block_get(m['height'])),
                         ('transaction', lambda: cl.transaction_get(tx)), ('address', lambda: cl.unlockhash_get(w.parties[0].primary)),
                         ('output', lambda: cl.coin_output_get(r.choice(sorted(c.outs)))), ('tip', cl.blockchain_info_get)):
            sent = []

            def mutate(endpoint, doc):
                if sent and what == 'tip' and endpoint != '/explorer':
                    return doc
                k = r.randrange(3)
                if k == 0:
                    doc['hashtype'] = 'nothing'
                    doc.pop('block', None)
                    doc.pop('transaction', None)
                elif k == 1:
                    for y in ('transaction', 'transactions', 'block', 'blockid'):
                        if y in doc:
                            doc[y] = 17
                else:
                    doc = {k2: v for k2, v in doc.items() if k2 not in ('transaction', 'transactions', 'block', 'hashtype', 'blockid')}
                sent.append((endpoint, doc))
                return doc
            x.mutate = mutate
            n = len(x.requests)
            try:
                fn()
            except E.ExplorerInvalidResponse as e:
                if (e.endpoint, e.response) != sent[-1]:
                    raise OracleFail(HOME, '%s: a wrong answer to %s is reported as %r to %s' % (what, sent[-1][0], e.response, e.endpoint))
                need(str(e), [e.endpoint], 'the error')
                ctx.count('answers')
                ctx.key('answer', what, len(sent))
            except Exception:
                pass            # C24 judges which error it has to be
            finally:
                x.mutate = None
        ctx.sample({'tip': repr(info)})
    drive(ctx, w, go)


def values(ctx):
    """errors about amounts; durations and dates"""
    import tfchain.errors as E
    from decimal import Decimal
    from tfchain.types.PrimitiveTypes import Currency
    from tfchain.internal.jsutils import duration, jstime
    import tfchain.internal.jsutils as J
    r = ctx.rng
    for _ in range(40):
        g = r.choice([r.randrange(1, 10 ** 6), r.randrange(10 ** 18), 10 ** r.randrange(18)])
        n = r.randrange(10, 25)
        d = r.randrange(1, 10)
        text = '%d.%s%d' % (g, '%0*d' % (n - 1, r.randrange(10 ** min(n - 1, 8))), d)
        for arg in (text, Decimal(text), text + ' TFT'):
            try:
                x = Currency(value=arg)
            except E.CurrencyPrecisionOverflow as e:
                ctx.check(str(e.value) == text and e.precision == n, 'amount %s of precision %d: the error names %s and %s', text, n, e.value, e.precision)
                ctx.check(text in str(e), 'the error about %s says %s', text, e)
                ctx.count('currency_errors')
            else:
                ctx.fail('the amount %s is accepted as %s', text, x)
        whole = r.randrange(1, 10 ** 10)
        neg = '-%d' % whole if r.random() < .5 else '-%d.%d' % (whole, r.randrange(1, 10))
        for arg in (neg, Decimal(neg)):
            try:
                x = Currency(value=arg)
            except E.CurrencyNegativeValue as e:
                ctx.check(Decimal(str(e.value)) == Decimal(neg), 'amount %s: the error names %s', neg, e.value)
                ctx.check(str(e.value) in str(e), 'the error about %s says %s', neg, e)
                ctx.count('currency_errors')
            else:
                ctx.fail('the amount %s is accepted as %s', neg, x)
        a = Currency.from_json(str(g))
        b = Currency.from_json(str(g + r.choice([1, 10, 10 ** 9])))
        try:
            x = a.minus(b) if hasattr(a, 'minus') and r.random() < .3 else a - b
        except E.CurrencyNegativeValue as e:
            ctx.check(Decimal(str(e.value)) == Decimal(g - int(b.json())) / 10 ** 9, '%s - %s: the error names %s', a, b, e.value)
            ctx.count('currency_errors')
        else:
            ctx.fail('%s - %s is %s', a, b, x)
        # durations
        s = r.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, r.randrange(10 ** 5), r.randrange(10 ** 9)])
        ctx.eq(duration.toString(s), span(s), 'the text of %d s' % s)
        ctx.eq(duration.toHR(s), span(s), 'the text of %d s' % s)
        if s:
            ctx.eq(duration.fromString(span(s)), s, 'the duration %s' % span(s))
        ctx.eq(duration.clean(s), s, 'the duration %d' % s)
        ctx.eq(duration.fromString(str(s)), s, 'the duration %d' % s)
        ctx.count('durations')
        # dates
        t = r.choice([1, 86399, 86400, r.randrange(1, 2 ** 31), r.randrange(1, 2 ** 33), 1582934399, 1582934400, 1609459199])
        for f in (jstime.epoch2HRDateTime, J.epoch2HRDateTime):
            ctx.eq(f(t), date(t), 'the date of %d' % t)
        ctx.count('dates')
        ctx.key('span', s % 60 > 0, s // 60 % 60 > 0, s // 3600 % 24 > 0, s >= 86400, n)
    ctx.sample({'text': text, 'negative': neg, 'duration': span(s), 'date': date(t)})


def zoned(fn):
    def f(ctx):
        z = ctx.rng.choice(ZONES)
        with zone(z):
            ctx.count('zones')
            ctx.log('time zone %s', z)
            fn(ctx)
    return f


PARTS = [('swaps', 60, 3000, zoned(swaps)), ('bots', 60, 3000, zoned(bots)), ('reports', 60, 3000, zoned(reports)), ('values', 40, 2000, zoned(values))]
