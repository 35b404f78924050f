"""Requests reach any healthy explorer and errors surface as typed errors."""
import contextlib
import io
import json
import os
import random
import socket
import struct
import threading
import time

from .. import ref
from ..world import World, drive, OracleFail, cond_uh, GRAIN

RULE = ('Real HTTP servers on the loopback network, one to five explorers per client, each with its own behaviour per request: '
        'answers of every size and status, refused, reset, dropped at any point of the exchange, garbage instead of HTTP; the '
        'behaviours change from request to request and the order in which explorers are tried is logged by the servers. Wallet '
        'operations run over the same servers in front of the model node; parallel requests over one client. '
        'distinct = distinct behaviour vector, method, order contacted and outcome.')
REQUIRED = ['gets', 'posts', 'failovers', 'orders_first', 'not_available', 'no_content', 'server_errors', 'post_errors', 'answered',
            'wallet_operations', 'parallel_requests', 'cut_answers', 'slow_answers', 'networks', 'unknown_networks', 'defaults']
ASSUMPTIONS = ['an explorer that keeps a connection open without ever answering is out of scope: requests have no time limit']
HOME = {'C23'}

#: behaviours of an explorer that is not reachable: no complete answer arrives
DOWN = ['refuse', 'close', 'reset', 'close after request', 'reset after request', 'half status', 'garbage', 'half header', 'empty reply']
#: the same for a read only: the answer breaks off in its body
CUT = ['cut body', 'cut chunk', 'reset in body', 'no body']
#: definite answers: (status, body)
ANSWERS = {'204': (204, b''), '400 hash': (400, b'{"message":"unrecognized hash used as input to /explorer/hash"}\n'),
           '400 found': (400, b'{"message":"object not found"}\n'), '400': (400, b'{"message":"invalid argument"}\n'),
           '400 late': (400, b'{"details":"' + b'x' * 700 + b'","message":"not found"}\n'),
           '400 binary': (400, b'\xff\xfe\x00\x01'), '400 empty': (400, b''), '401': (401, b'no'), '403': (403, b'no'),
           '404': (404, b'404 - Refer to API.md'), '404 found': (404, b'not found'), '405': (405, b''),
           'cut 500': (500, b'{"message":"internal"}'), 'cut 400': (400, b'{"message":"unrecog'), '500': (500, b'{"message":"unrecognized hash"}'), '502': (502, b'<html>Bad Gateway</html>'), '503': (503, b''),
           '504': (504, b'timeout'), '201': (201, b'{"created":true}'), '202': (202, b'{}'), '203': (203, b'{}'), '206': (206, b'{"a":')}
OK = ['ok', 'ok', 'ok', 'ok chunked', 'ok slow', 'ok until close', 'ok big']


class Server:
    """one explorer; how it behaves is decided per request"""

    def __init__(self, host, log, name):
        self.host, self.log, self.name = host, log, name
        self.port = None
        self.mode = 'ok'
        self.reply = None           # callable(method, path, body) -> (status, bytes)
        self.sock = None
        self.listening = False
        self.stop = False
        self.open()

    @property
    def address(self):
        return 'http://%s:%d' % (self.host, self.port)

    def open(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((self.host, self.port or 0))
        self.port = s.getsockname()[1]
        s.listen(16)
        self.sock, self.listening = s, True
        threading.Thread(target=self.loop, args=(s,), daemon=True).start()

    def set(self, mode):
        self.mode = mode
        if mode == 'refuse' and self.listening:
            self.listening = False
            self.shut()
        elif mode != 'refuse' and not self.listening:
            self.open()

    def shut(self):
        with contextlib.suppress(OSError):
            self.sock.shutdown(socket.SHUT_RDWR)
        self.sock.close()

    def loop(self, s):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            self.talk(c, self.mode)
        except OSError:
            pass
        finally:
            c.close()

    def abort(self, c):
        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))

    def talk(self, c, mode):
        if mode in ('close', 'reset'):
            self.log.append((self.name, mode, None, None, None))
            if mode == 'reset':
                self.abort(c)
            return
        buf = b''
        while b'\r\n\r\n' not in buf:
            x = c.recv(65536)
            if not x:
                return
            buf += x
        head, body = buf.split(b'\r\n\r\n', 1)
        lines = head.decode('latin1').split('\r\n')
        method, path, _ = lines[0].split(' ', 2)
        heads = {k.strip().lower(): v.strip() for k, v in (x.split(':', 1) for x in lines[1:])}
        while len(body) < int(heads.get('content-length', 0)):
            x = c.recv(65536)
            if not x:
                return
            body += x
        self.log.append((self.name, mode, method, path, (heads, body)))
        if mode in ('close after request', 'reset after request'):
            if mode.startswith('reset'):
                self.abort(c)
            return
        if mode == 'half status':
            return c.sendall(b'HTTP/1.')
        if mode == 'half header':
            return c.sendall(b'HTTP')
        if mode == 'garbage':
            return c.sendall(b'SSH-2.0-OpenSSH_8.9\r\n')
        if mode == 'empty reply':
            return c.sendall(b'\r\n')
        status, data = self.reply(method, path, body, mode)
        if status != 200 and mode in CUT:       # only answers with data break off
            mode = 'ok'
        first = b'HTTP/1.1 %d Status\r\nContent-Type: application/json\r\nConnection: close\r\n' % status
        if mode in ('cut 500', 'cut 400'):
            return c.sendall(first + b'Content-Length: 500\r\n\r\n' + data)
        if mode == 'cut body':
            return c.sendall(first + b'Content-Length: %d\r\n\r\n' % len(data) + data[:len(data) // 2])
        if mode == 'no body':
            return c.sendall(first + b'Content-Length: %d\r\n\r\n' % len(data))
        if mode == 'reset in body':
            c.sendall(first + b'Content-Length: %d\r\n\r\n' % len(data) + data[:1])
            time.sleep(.01)
            return self.abort(c)
        if mode == 'cut chunk':
            return c.sendall(first + b'Transfer-Encoding: chunked\r\n\r\n%x\r\n' % len(data) + data[:len(data) // 2])
        if mode == 'ok chunked':
            c.sendall(first + b'Transfer-Encoding: chunked\r\n\r\n')
            for n in range(0, len(data), 7):
                x = data[n:n + 7]
                c.sendall(b'%x\r\n' % len(x) + x + b'\r\n')
            return c.sendall(b'0\r\n\r\n')
        if mode == 'ok until close':
            return c.sendall(first + b'\r\n' + data)
        out = first + b'Content-Length: %d\r\n\r\n' % len(data) + data
        if mode == 'ok slow':
            n = max(1, len(out) // 8)
            for k in range(0, len(out), n):
                c.sendall(out[k:k + n])
                time.sleep(.003)
            return
        c.sendall(out)


class Net:
    def __init__(self, ctx, n):
        pid = os.getpid()
        host = '127.%d.%d.%d' % (1 + pid // 62500 % 250, 1 + pid // 250 % 250, 1 + pid % 250)
        self.log = []
        self.ctx = ctx
        self.servers = [Server(host, self.log, k) for k in range(n)]
        self.addresses = [s.address for s in self.servers]

    def __enter__(self):
        self.saved = {k: os.environ.pop(k, None) for k in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY')}
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()
        random.seed(self.ctx.rng.getrandbits(64))
        return self

    def __exit__(self, *a):
        self.out.__exit__(*a)
        for s in self.servers:
            s.shut()
        for k, v in self.saved.items():
            if v is not None:
                os.environ[k] = v
        return False


def bad(fmt, *a):
    raise OracleFail(HOME, fmt % a)


def settle(net, method):
    """what the servers saw of one request: the order in which they were contacted (those that refuse see nothing)"""
    log = list(net.log)
    net.log.clear()
    return log


def kind(mode, method):
    if mode in DOWN:
        return 'down'
    if mode in CUT:
        return 'down' if method == 'GET' else 'lost'
    return 'ok' if mode in OK else 'status'


def judge(net, method, endpoint, body, res, exc, payload, order_count=True):
    """one request against what the servers saw"""
    import tfchain.errors as E
    ctx = net.ctx
    log = settle(net, method)
    modes = [s.mode for s in net.servers]
    what = '%s over explorers that %r (contacted: %r)' % (method, modes, [(n, m) for n, m, *_ in log])
    names = [n for n, *_ in log]
    if len(set(names)) != len(names):
        bad('%s: an explorer is asked twice', what)
    for n, m, me, path, rest in log:
        if me is None:
            continue
        if me != method or path != endpoint:
            bad('%s: explorer %d is asked %s %s instead of %s %s', what, n, me, path, method, endpoint)
        heads, got = rest
        if method == 'POST':
            if got != body:
                bad('%s: explorer %d is sent %r instead of %r', what, n, got[:200], body[:200])
            if heads.get('content-type') != 'application/json':
                bad('%s: content type %r', what, heads.get('content-type'))
        elif got:
            bad('%s: a read with a body %r', what, got[:100])
        if heads.get('user-agent') != 'Rivine-Agent':
            bad('%s: user agent %r', what, heads.get('user-agent'))
    for n, m, *_ in log[:-1]:
        if kind(m, method) != 'down':
            bad('%s: explorer %d had answered, yet another one is asked', what, n)
    up = [m for m in modes if kind(m, method) != 'down']
    last = log[-1][1] if log else None
    ctx.count('gets' if method == 'GET' else 'posts')
    if len(log) > 1 or (log and 'refuse' in modes):
        ctx.count('failovers')
    if names and order_count:
        ctx.count('orders_first', names[0] > 0)
    name = type(exc).__name__ if exc is not None else 'data'
    ctx.key(method, tuple(modes), tuple(names), name)
    if not up:
        if not isinstance(exc, E.ExplorerNotAvailable):
            bad('%s: nobody is reachable, yet the caller gets %s', what, name + ' %s' % exc if exc else repr(res)[:100])
        if list(exc.addresses) != net.addresses or exc.endpoint != endpoint:
            bad('%s: not available at %r for %s', what, exc.addresses, exc.endpoint)
        missed = [k for k, m in enumerate(modes) if m != 'refuse' and k not in names]
        if missed:
            bad('%s: reported as not available without asking %r', what, missed)
        return ctx.count('not_available')
    if last is None or kind(last, method) == 'down':
        bad('%s: one is reachable, yet the caller gets %s', what, name + ' %s' % exc if exc else repr(res)[:100])
    if kind(last, method) == 'ok':
        if exc is not None:
            bad('%s: answered, yet the caller gets %s: %s', what, name, exc)
        if bytes(res).rstrip(b'\n') != payload[log[-1][0]].rstrip(b'\n'):
            bad('%s: the answer %r arrives as %r', what, payload[log[-1][0]][:100], bytes(res)[:100])
        ctx.count('answered')
        if last == 'ok slow':
            ctx.count('slow_answers')
        return
    if method == 'POST':
        if not isinstance(exc, E.ExplorerServerPostError):
            bad('%s: ends in %s', what, name + ' %s' % exc if exc else repr(res)[:100])
        if exc.data is None or (exc.data if isinstance(exc.data, bytes) else str(exc.data).encode()) != body or exc.endpoint != endpoint:
            bad('%s: the error speaks of %r to %s', what, exc.data, exc.endpoint)
        if kind(last, method) == 'lost':
            ctx.count('cut_answers')
        return ctx.count('post_errors')
    want = E.ExplorerNoContent if last in ('204', '400 hash', '400 found', '400 late') else E.ExplorerServerError
    if type(exc) is not want:
        bad('%s: ends in %s instead of %s', what, name + ' %s' % exc if exc else repr(res)[:100], want.__name__)
    if exc.endpoint != endpoint:
        bad('%s: the error speaks of %s', what, exc.endpoint)
    ctx.count('no_content' if want is E.ExplorerNoContent else 'server_errors')


def body_of(r, name, mode):
    n = r.choice([0, 1, 5, 50]) if mode != 'ok big' else r.choice([20000, 20000, 120000, 120000, 400000])
    return json.dumps({'explorer': name, 'answer': ['x' * r.randrange(1, 20) + 'é' for _ in range(n)]}, ensure_ascii=r.random() < .5).encode() + (
        b'\n' if r.random() < .8 else b'')


def choose(r, n):
    k = r.random()
    if k < .15:
        return [r.choice(DOWN + CUT) for _ in range(n)]
    p = r.choice([.3, .6, .9])
    modes = [r.choice(DOWN + CUT[:3 if n > 1 else 4]) if r.random() < p else r.choice(OK + sorted(ANSWERS)) for _ in range(n)]
    if all(m in DOWN + CUT for m in modes):
        modes[r.randrange(n)] = r.choice(OK + sorted(ANSWERS))
    return modes


def requests(ctx):
    from tfchain.TFChainExplorerClient import TFChainExplorerClient
    r = ctx.rng

    def go():
        with Net(ctx, r.choice([1, 2, 2, 3, 4, 5])) as net:
            cl = TFChainExplorerClient(addresses=list(net.addresses))
            for _ in range(25):
                modes = choose(r, len(net.servers))
                payload = {}
                for s, m in zip(net.servers, modes):
                    s.set(m)
                    payload[s.name] = body_of(r, s.name, m)

                def reply(k):
                    return lambda method, path, body, mode: ANSWERS[mode] if mode in ANSWERS else (200, payload[k])
                for s in net.servers:
                    s.reply = reply(s.name)
                post = r.random() < .4
                endpoint = r.choice(['/explorer', '/explorer/blocks/5', '/explorer/hashes/' + '0a' * 32, '/explorer/3bot/ed25519:' + '11' * 32,
                                     '/explorer/whois/3bot/some.name', '/explorer/mintcondition/7']) if not post else '/transactionpool/transactions'
                doc = {'version': 1, 'data': {'arbitrarydata': 'é' * r.randrange(3), 'minerfees': ['1'] * r.choice([1, 5000])}}
                if r.random() < .3:         # empty and absent parts are parts
                    doc.update(r.choice([{'version': 0}, {'data': {}}, {'note': None, 'list': [], 'text': '', 'flag': False}]))
                net.log.clear()
                res = exc = None
                data = doc
                if post:
                    data = r.choice([doc, json.dumps(doc), json.dumps(doc).encode()])
                try:
                    res = cl.post(endpoint, data) if post else cl.get(endpoint)
                except Exception as e:
                    exc = e
                time.sleep(.001)
                sent = None
                if post:
                    sent = data if isinstance(data, bytes) else data.encode() if isinstance(data, str) else None
                    if sent is None:
                        bodies = [x[4][1] for x in net.log if x[2]] or ([exc.data] if getattr(exc, 'data', None) else [])
                        if bodies and json.loads(bodies[0]) != doc:
                            bad('POST of %r sends %r', doc, bodies[0])
                        sent = bodies[0] if bodies else b''
                judge(net, 'POST' if post else 'GET', endpoint, sent, res, exc, payload)
            ctx.sample({'modes': modes, 'post': post})
    run(ctx, go)


def run(ctx, fn):
    from ..run import Violation, Foreign
    try:
        fn()
    except OracleFail as e:
        if ctx.prop in e.tags:
            raise Violation('%s' % e) from e
        raise Foreign('%s' % e) from e


def front(chain, modes_log=None):
    """the model node behind HTTP"""
    lock = threading.Lock()

    def reply(method, path, body, mode):
        if mode in ANSWERS:
            return ANSWERS[mode]
        with lock:
            if method == 'POST':
                i = chain.submit(json.loads(body.decode('utf-8')))
                return (200, json.dumps({'transactionid': i}).encode() + b'\n') if i else (400, b'{"message":"transaction is rejected"}\n')
            doc = chain.answer(path)
            if doc is None:
                return 400, b'{"message":"unrecognized hash used as input to /explorer/hash"}\n'
            return 200, json.dumps(doc).encode() + b'\n'
    return reply


def operations(ctx):
    """wallet operations over flaky explorers in front of one node"""
    import tfchain.errors as E
    from tfchain.TFChainExplorerClient import TFChainExplorerClient
    from tfchain.TFChainClient import TFChainClient
    from tfchain.TFChainWallet import TFChainWallet
    r = ctx.rng
    w = World(ctx, parties=1, rich=False, network=r.choice(['devnet', 'testnet', 'standard']))
    c, p = w.chain, w.parties[0]

    def go():
        with Net(ctx, r.choice([1, 2, 3, 4])) as net:
            for s in net.servers:
                s.reply = front(c)

            def flaky(fail):
                """some explorers are down, at least one is up; with fail nobody is, or a request is refused"""
                modes = [r.choice(DOWN + CUT[:3]) if r.random() < .6 else r.choice(OK) for _ in net.servers]
                if fail == 'down':
                    modes = [r.choice(DOWN) for _ in net.servers]
                elif fail:
                    modes = [fail if m in OK else r.choice(DOWN) for m in modes]
                if not any(m in OK or m == fail for m in modes):
                    if fail != 'down':
                        modes[r.randrange(len(modes))] = fail or r.choice(OK)
                for s, m in zip(net.servers, modes):
                    s.set(m)
                net.log.clear()
                return modes
            for _ in range(3):
                c.grant([(cond_uh(p.addr(0)), 30 * GRAIN)])
            flaky(None)
            cl = TFChainClient(explorer_client=TFChainExplorerClient(addresses=list(net.addresses)))
            if str(cl.network) != str(w.parties[0].client.network) and cl.network != w.parties[0].client.network:
                bad('the network is taken as %r instead of %r', cl.network, c.network)
            t = TFChainWallet(seed=p.seed, client=cl)
            for _ in range(10):
                fail = r.choice([None, None, None, 'down', '500', '503', '400'])
                modes = flaky(fail)
                pushed, accepted = len(c.pushed), len(c.accepted)
                name = r.choice(['coins_send', 'coins_send', 'balance', 'swap', 'transactions'])
                exc = res = None
                up = sum(o.value for o in c.unspent({p.addr(0)}, True, True))
                try:
                    if name == 'coins_send':
                        res = t.coins_send(w.foreign[0], '0.5')
                    elif name == 'balance':
                        res = t.balance
                    elif name == 'swap':
                        res = t.atomicswap.initiate(w.foreign[0], '2', '+1h')
                    else:
                        res = t.transactions
                except Exception as e:
                    exc = e
                what = '%s over explorers that %r' % (name, modes)
                time.sleep(.001)
                ids = [x[4][1] for x in net.log if x[2] == 'POST']
                new = c.pushed[pushed:]
                # copies of the same push whose answer got lost are one push
                texts = {bytes(x) for x in ids}
                ctx.count('wallet_operations')
                ctx.key('operation', name, fail, tuple(sorted(modes)), type(exc).__name__)
                if len(texts) > 1:
                    bad('%s: %d different transactions are pushed', what, len(texts))
                for a, b in zip([x for x in net.log if x[2] == 'POST'], [x for x in net.log if x[2] == 'POST'][1:]):
                    if kind(a[1], 'POST') != 'down':
                        bad('%s: pushed again after explorer %d answered', what, a[0])
                if fail:
                    want = E.ExplorerNotAvailable if fail == 'down' else E.ExplorerServerError
                    if not isinstance(exc, want):
                        bad('%s: ends in %s instead of %s', what, type(exc).__name__ + ' %s' % exc if exc else 'success', want.__name__)
                    if len(c.accepted) != accepted:
                        bad('%s: failed, but a transaction is accepted', what)
                    continue
                if exc is not None:
                    lost = [x for x in net.log if x[2] == 'POST' and kind(x[1], 'POST') == 'lost']
                    if lost and isinstance(exc, E.ExplorerServerPostError):
                        ctx.count('cut_answers')
                        c.mine()
                        continue
                    bad('%s: fails with %s: %s', what, type(exc).__name__, exc)
                if name in ('coins_send', 'swap'):
                    if len(c.accepted) - accepted != 1 or not texts:
                        bad('%s: %d transactions are accepted', what, len(c.accepted) - accepted)
                    if str(res.transaction.id) != c.accepted[-1]:
                        bad('%s: transaction %s is named %s', what, c.accepted[-1], res.transaction.id)
                    c.mine()
                elif name == 'balance':
                    from ..world import grains
                    if grains(res.available) != up:
                        bad('%s: available %s, the chain has %d', what, res.available, up)
                elif len(res) != len(c.txs_of(p.addr(0))):
                    bad('%s: %d transactions, the chain has %d', what, len(res), len(c.txs_of(p.addr(0))))
    run(ctx, go)


def parallel(ctx):
    """requests of several threads over one client"""
    from tfchain.TFChainExplorerClient import TFChainExplorerClient
    r = ctx.rng

    def go():
        with Net(ctx, 3) as net:
            cl = TFChainExplorerClient(addresses=list(net.addresses))
            modes = choose(r, 3)
            modes = [m if m in DOWN + CUT[:3] else r.choice(OK[:6]) for m in modes]
            if not any(m in OK for m in modes):
                modes[0] = 'ok slow'
            for s, m in zip(net.servers, modes):
                s.set(m)
                s.reply = lambda method, path, body, mode: (200, json.dumps({'path': path, 'body': body.decode()}).encode() + b'\n')
            wrong = []

            def work(k):
                rr = random.Random(k)
                for n in range(8):
                    path = '/explorer/blocks/%d' % (k * 1000 + n)
                    post = rr.random() < .4 and not any(m in CUT for m in modes)
                    body = '{"n": %d}' % (k * 1000 + n) if post else ''
                    try:
                        got = json.loads(cl.post(path, body) if post else cl.get(path))
                    except Exception as e:
                        wrong.append('%s: %s' % (type(e).__name__, e))
                        continue
                    if got != {'path': path, 'body': body}:
                        wrong.append('asked %s %s, answered %r' % (path, body, got))
            ths = [threading.Thread(target=work, args=(k,)) for k in range(6)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            ctx.count('parallel_requests', 48)
            ctx.key('parallel', tuple(modes))
            if wrong:
                bad('parallel requests over explorers that %r: %s', modes, wrong[:3])
    run(ctx, go)


NETWORKS = {'standard': ['standard', 'std', 'Standard', 'STANDARD'], 'testnet': ['testnet', 'Testnet', 'TESTNET'], 'devnet': ['devnet', 'DevNet', 'DEVNET']}


def network(ctx):
    """which network a client works for: the one it is given, else the one of the explorer it talks to"""
    import tfchain.errors as E
    from tfchain.TFChainClient import TFChainClient
    from tfchain.TFChainWallet import TFChainWallet
    from ..chain import Chain, make_explorer
    from ..world import grains
    r = ctx.rng
    name = r.choice(sorted(NETWORKS))
    text = r.choice(NETWORKS[name])
    fee = ref.GRAIN if name == 'devnet' else ref.GRAIN // 10
    unknown = r.choice(['mainnet', 'stand', 'testnet2', 'dev', '', 'none', text + 'x', text[1:], text + '-2', 'my-' + text, text + ' ' + text])

    def same(c, how):
        ctx.eq(grains(c.minimum_miner_fee), fee, 'minimum miner fee of %r (%s)' % (text, how))
        others = [n for n in NETWORKS if c.network == TFChainClient(explorer_client=make_explorer(chain), network_type=n).network]
        ctx.eq(others, [name], 'network of a client (%s, %r)' % (how, text))
        wallet = TFChainWallet(client=c)
        ctx.check(wallet.network_type == c.network, 'wallet and client are of different networks')
        ctx.count('networks')
    chain = Chain(r, name)
    ctx.key('network', text, unknown)
    same(TFChainClient(explorer_client=make_explorer(chain), network_type=text), 'given')
    x = make_explorer(chain)
    x.mutate = lambda endpoint, doc: {'chaininfo': {'NetworkName': text, 'ChainVersion': '1.0'}} if endpoint.endswith('/constants') else doc
    same(TFChainClient(explorer_client=x), 'from the explorer')
    same(TFChainClient(explorer_client=make_explorer(chain), network_type=TFChainClient(explorer_client=x).network), 'of another client')
    # a name of no known network is not taken for one
    for how in ('given', 'alone', 'explorer'):
        x = make_explorer(chain)
        if how == 'explorer':
            x.mutate = lambda endpoint, doc: {'chaininfo': {'NetworkName': unknown}} if endpoint.endswith('/constants') else doc
        try:
            c = TFChainClient(explorer_client=x) if how == 'explorer' else \
                TFChainClient(network_type=unknown) if how == 'alone' else TFChainClient(explorer_client=x, network_type=unknown)
        except Exception:
            ctx.count('unknown_networks')
        else:
            ctx.fail('a client of the unknown network %r (%s) works for %r', unknown, how, getattr(c.network, 'value', None))
    # the explorers of that network, and of no other, are asked; no name is resolved here
    asked = []

    def resolve(host, port, *a, **k):
        asked.append((host.decode() if isinstance(host, bytes) else host, int(port)))
        raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    was = socket.getaddrinfo
    socket.getaddrinfo = resolve
    exc = None
    default = name == 'standard' and r.random() < .5
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            (TFChainClient() if default else TFChainClient(network_type=text)).blockchain_info_get()
    except Exception as e:
        exc = e
    finally:
        socket.getaddrinfo = was
    if not isinstance(exc, E.ExplorerNotAvailable) or not asked:
        ctx.fail('a client of %r whose explorers do not resolve ends in %s: %s', text, type(exc).__name__, exc)
    for host, port in asked:
        if name == 'devnet':
            good = (host, port) == ('localhost', 23110)
        else:
            good = host.endswith('.threefoldtoken.com') and port == 443 and ('testnet' in host) == (name == 'testnet')
        ctx.check(good, 'a client of %r asks %s:%d', text, host, port)
    ctx.eq(len({a.split('/')[2] for a in exc.addresses}), len({h for h, _ in asked}), 'number of explorers asked of %r' % (exc.addresses,))
    ctx.count('defaults', len(asked))


PARTS = [('network', 60, 1000, network), ('requests', 320, 6000, requests), ('operations', 160, 3000, operations), ('parallel', 24, 400, parallel)]
