"""C48: requests through proxies over a simulated network."""
import base64, gc, hashlib, os, random, ssl
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import Task, CancelledError, sleep
from scarletio.web_common import BasicAuthorization, URL
from scarletio.web_common.exceptions import PayloadError, HttpProcessingError, ProxyError
from scarletio.http_client import HTTPClient, Proxy, SSLFingerprint
from vharness import Property, Violation, check, check_eq
from c_transport import Recorder, Errors, TLS_DIRECTORY
from c_handshake import values_of
from c_client import Server, ServerConnection, build_response

C48 = Property('C48', rule = (
    'Up to 5 requests, one after an other or at once, of a HTTPClient to 7 targets (http / https, names, ip addresses, a name the certificate is not for) through two proxies (http / https, with and without '
    'credentials and headers) or none, with verifying contexts and fingerprints; the proxies answer the CONNECT requests well, with refusals, slowly, in pieces, cut or not at all. '
    'Non-trivial = a tunnel was reused, or a proxy refused, or a certificate was not accepted.'
))

CERTIFICATE = os.path.join(TLS_DIRECTORY, 'cert.pem')
DIGEST = hashlib.sha256(ssl.PEM_cert_to_DER_cert(open(CERTIFICATE).read())).digest()

# scheme, host, port, address, whether the certificate is for it
TARGETS = [
    ('http', 'test.example', 80, '10.0.0.1', True),
    ('http', 'test.example', 8080, '10.0.0.1', True),
    ('https', 'test.example', 443, '10.0.0.1', True),
    ('https', 'other.example', 8443, '10.0.0.2', True),
    ('https', 'wrong.example', 443, '10.0.0.3', False),
    ('https', '127.0.0.1', 8443, '127.0.0.1', True),
    ('https', '[::1]', 443, '::1', True),
    ('http', '[::1]', 8080, '::1', True),
]
PROXIES = [('http', 'proxy.example', 3128, '10.1.0.1'), ('https', 'proxy.example', 3129, '10.1.0.1'), ('http', '10.1.0.2', 8080, '10.1.0.2')]

BLOB = random.Random(48).randbytes(100000)
MARKER = 'very-secret-marker'


def server_context():
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    context.load_cert_chain(CERTIFICATE, os.path.join(TLS_DIRECTORY, 'key.pem'))
    return context


def client_context(kind):
    if kind is None:
        return None
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    if kind == 'verify':
        context.load_verify_locations(CERTIFICATE)
    else:
        context.check_hostname = False
        context.verify_mode = ssl.CERT_NONE
    return context


def basic(user, password):
    return 'Basic ' + base64.b64encode(f'{user}:{password}'.encode('latin-1')).decode()


class Pipe(Recorder):
    """The other half of a tunnel."""
    def __init__(self, connection):
        Recorder.__init__(self, None, 'pipe')
        self.connection = connection
        self.transport_name = None

    def connection_made(self, transport):
        Recorder.connection_made(self, transport)
        self.transport_name = transport.get_extra_info('socket').getsockname()[: 2]

    def data_received(self, data):
        transport = self.connection.transport
        if transport is not None:
            transport.write(data)

    def eof_received(self):
        return False

    def connection_lost(self, exception):
        Recorder.connection_lost(self, exception)
        if self.connection.transport is not None:
            self.connection.transport.close()


class TargetConnection(ServerConnection):
    def connection_made(self, transport):
        ServerConnection.connection_made(self, transport)
        self.came_from = transport.get_extra_info('socket').getpeername()[: 2]


class ProxyConnection(Recorder):
    def __init__(self, proxy):
        Recorder.__init__(self, None, 'proxy')
        self.proxy = proxy
        self.buffer = bytearray()
        self.pipe = None
        self.head = None
        self.early = False
        self.passed = bytearray()
        self.opening = False
        self.answered_ok = False

    def connection_made(self, transport):
        Recorder.connection_made(self, transport)
        self.proxy.connections.append(self)

    def data_received(self, data):
        if self.pipe is not None:
            self.passed += data
            if self.pipe.transport is not None:
                self.pipe.transport.write(data)
            return
        self.buffer += data
        if self.head is None:
            index = self.buffer.find(b'\r\n\r\n')
            if index == -1:
                return
            self.head = bytes(self.buffer[: index])
            del self.buffer[: index + 4]
            self.proxy.tasks.append(Task(self.proxy.loop, self.proxy.answer(self)))
        if self.buffer and not self.answered_ok:
            self.early = True

    def eof_received(self):
        return False

    def connection_lost(self, exception):
        Recorder.connection_lost(self, exception)
        if self.pipe is not None and self.pipe.transport is not None:
            self.pipe.transport.close()


class ProxyServer:
    def __init__(self, loop, behaviours):
        self.loop = loop
        self.behaviours = behaviours
        self.connections = []
        self.tasks = []
        self.index = 0
        self.problem = None
        self.servers = []

    async def start(self, address, port, context):
        server = await self.loop.create_server_to(lambda: ProxyConnection(self), address, port, **({'ssl': context} if context else {}))
        await server.start()
        self.servers.append(server)

    async def answer(self, connection):
        behaviour = self.behaviours[self.index % len(self.behaviours)]
        self.index += 1
        connection.behaviour = behaviour
        kind, value = behaviour
        transport = connection.transport
        authority = connection.head.split(b'\r\n')[0].split(b' ')[1].decode()
        if kind == 'silent':
            return
        if kind == 'slow':
            await sleep(value * 1.0)
        if kind in ('refuse', 'refuse_reason'):
            reason = f'Sorry {value}' if kind == 'refuse_reason' else ''
            transport.write(f'HTTP/1.1 {value} {reason}\r\nX-Why: {value}\r\nContent-Length: 4\r\n\r\nnope'.encode())
            return
        if kind == 'cut':
            transport.write(b'HTTP/1.1 200 Connection established\r\nX-Fine: 1\r\n\r\n'[: value])
            transport.close()
            return
        if kind == 'garbage':
            transport.write((b'SSH-2.0-OpenSSH\r\n\r\n', b'HTTP/1.1 abc\r\n\r\n', b'\x15\x03\x01\x00\x02\x02\x16\r\n\r\n')[value % 3])
            transport.close()
            return
        host, _, port = authority.rpartition(':')
        try:
            check(host and port.isdigit(), 'target of CONNECT', authority)
            address = {item[1]: item[3] for item in TARGETS}.get(host)
            check(address is not None, 'host of CONNECT', authority)
        except Violation as violation:
            self.problem = violation
            transport.abort()
            return
        pipe = Pipe(connection)
        await self.loop.create_connection_to(lambda: pipe, address, int(port))
        head = b'HTTP/1.1 200 Connection established\r\n\r\n'
        if kind == 'interim':
            head = b'HTTP/1.1 100 Continue\r\n\r\n' + head
        elif kind == 'length':
            head = b'HTTP/1.1 200 \r\nContent-Length: %d\r\n\r\n' % value
        elif kind == 'chunked':
            head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
        elif kind == 'close':
            head = b'HTTP/1.0 200 OK\r\nConnection: close\r\nProxy-Agent: x\r\n\r\n'
        elif kind == 'cookie':
            head = b'HTTP/1.1 200 OK\r\nSet-Cookie: proxy=1\r\n\r\n'
        if kind == 'pieces':
            while len(head) > value + 1:
                transport.write(head[: value + 1])
                head = head[value + 1 :]
                await sleep(0.03125)
        if connection.lost:
            if pipe.transport is not None:
                pipe.transport.close()
            return
        connection.pipe = pipe
        connection.answered_ok = True
        transport.write(head)

    def close(self):
        for server in self.servers:
            server.close()
        for connection in self.connections:
            if connection.transport is not None:
                connection.transport.close()


def _strategy():
    behaviour = st.one_of(
        st.just(('ok', 0)), st.just(('ok', 0)), st.just(('ok', 0)),
        st.sampled_from([('interim', 0), ('length', 0), ('length', 100), ('chunked', 0), ('close', 0), ('cookie', 0), ('pieces', 0), ('pieces', 6), ('slow', 3), ('slow', 7)]),
        st.sampled_from([('refuse', 407), ('refuse', 502), ('refuse', 599), ('refuse', 404), ('refuse_reason', 403), ('refuse_reason', 302), ('refuse_reason', 700), ('refuse_reason', 502)]),
        st.tuples(st.just('cut'), st.integers(0, 46)),
        st.tuples(st.just('garbage'), st.integers(0, 2)),
        st.just(('silent', 0)),
    )
    proxy = st.tuples(
        st.integers(0, len(PROXIES) - 1),
        st.sampled_from([None, None, 'parameter', 'url', 'header']),
        st.booleans(),                                                        # extra header
        st.sampled_from([None, 'verify', 'verify', 'trust']),                 # context of the proxy
        st.sampled_from([None, None, None, True, True, False]),               # fingerprint of the proxy
    )
    request = st.tuples(
        st.integers(0, len(TARGETS) - 1),
        st.sampled_from([0, 0, 0, 1, None]),                                  # which proxy
        st.sampled_from([None, None, 'verify', 'verify', 'trust']),           # context
        st.sampled_from([None, None, None, True, True, False]),               # fingerprint
        st.sampled_from(['GET', 'GET', 'POST', 'HEAD']),
        st.sampled_from([0, 0, 5, 70000]),                                    # size of the response
        st.sampled_from([None, None, None, None, 3, 40, 120]),                # cancelled
        st.sampled_from([True, True, False]),                                 # keep alive
    )
    return st.tuples(
        st.lists(st.integers(0, 12), min_size = 1, max_size = 4),
        st.lists(proxy, min_size = 2, max_size = 2),
        st.lists(behaviour, min_size = 1, max_size = 4),
        st.lists(request, min_size = 1, max_size = 5),
        st.booleans(),
        st.booleans(),
    )


async def _proxied(sim, net, case, ctx):
    plan, proxies_given, behaviours, requests, at_once, default_proxy = case
    loop = sim.loop
    errors = Errors()
    contexts = {kind: client_context(kind) for kind in (None, 'verify', 'trust')}
    context = server_context()

    arrived = {}

    async def respond(request):
        index = int(request.target.rpartition('/')[2])
        check(index not in arrived, 'a request is sent twice', index)
        arrived[index] = request
        if not await request.complete:
            return
        headers = [('X-Index', str(index))]
        if not requests[index][7]:
            headers.append(('Connection', 'close'))
        body = BLOB[index : index + requests[index][5]]
        head, wire = build_response(200, headers, body, 'length')
        if request.method == 'HEAD':
            wire = b''
        request.connection.transport.write(head + wire)
        request.answered = True
        if not requests[index][7]:
            request.connection.end()

    server = Server(loop, respond)
    for scheme, host, port, address, _ in TARGETS:
        if host[-1] == 'e':
            net.hosts[host] = [address]
        key = (scheme, host, port)

        def create(key = key):
            connection = TargetConnection(server)
            connection.key = key
            return connection
        item = await loop.create_server_to(create, address, port, **({'ssl': context} if scheme == 'https' else {}))
        await item.start()
        server.servers.append(item)
    proxy_servers = []
    for scheme, host, port, address in PROXIES:
        net.hosts[host] = [address]
        proxy_server = ProxyServer(loop, behaviours)
        await proxy_server.start(address, port, context if scheme == 'https' else None)
        proxy_servers.append(proxy_server)

    def fingerprint(value):
        if value is None:
            return None
        return SSLFingerprint(DIGEST if value else bytes(32))

    proxies = []
    for number, (which, credentials, extra, context_kind, fingerprint_value) in enumerate(proxies_given):
        scheme, host, port, address = PROXIES[which]
        headers = {}
        if extra:
            headers['X-Extra'] = f'e{number}'
        if credentials == 'header':
            headers['Proxy-Authorization'] = 'Token abc'
        keyword = {}
        if credentials == 'parameter':
            keyword['authorization'] = BasicAuthorization('puser', f'ppass{number}')
        proxies.append(Proxy(
            URL(f'{scheme}://' + (f'pus%20er:ppass{number}@' if credentials == 'url' else '') + f'{host}:{port}', True),
            headers = headers or None,
            ssl_context = contexts[context_kind] if scheme == 'https' else None,
            ssl_fingerprint = fingerprint(fingerprint_value) if scheme == 'https' else None,
            **keyword,
        ))
    client = HTTPClient(loop, proxy = proxies[0]) if default_proxy else HTTPClient(loop)
    outcomes = {}

    async def do(index):
        target, proxy, context_kind, fingerprint_value, method, size, cancel_at, keep = requests[index]
        scheme, host, port, address, covered = TARGETS[target]
        default = {'http': 80, 'https': 443}[scheme] == port
        url = f'{scheme}://{host}' + ('' if default else f':{port}') + f'/r/{index}'
        keyword = {}
        if not (default_proxy and proxy == 0):
            keyword['proxy'] = None if proxy is None else proxies[proxy]
        if scheme == 'https':
            keyword['ssl_context'] = contexts[context_kind]
            keyword['ssl_fingerprint'] = fingerprint(fingerprint_value)
        if method == 'POST':
            keyword['data'] = f'{MARKER}{index}'.encode()
        async with client.request2(method, url, {'X-Secret': MARKER}, authorization = BasicAuthorization('tuser', 'tpass'), timeout = 20.0, **keyword) as response:
            body = (await response.read()) or b''
            return ('response', response.status, response.headers.get('X-Index', None), body)

    async def guarded(index):
        cancel_at = requests[index][6]
        started = sim.now()
        task = Task(loop, do(index))
        if cancel_at is not None:
            loop.call_after(cancel_at * 0.03125, task.cancel)
        try:
            outcomes[index] = await task
        except CancelledError:
            check(cancel_at is not None, 'a request got cancelled by itself', index)
            outcomes[index] = ('cancelled', )
        except TimeoutError as exception:
            outcomes[index] = ('timeout', exception)
        except (OSError, PayloadError, HttpProcessingError) as exception:
            outcomes[index] = ('error', exception)
        check(sim.now() - started < 20.5, 'a request took longer than its timeout', index)

    if at_once:
        tasks = [Task(loop, guarded(index)) for index in range(len(requests))]
        await sleep(50.0)
        for task in tasks:
            check(task.is_done(), 'a request never ends', task)
            task.get_result()
    else:
        for index in range(len(requests)):
            await guarded(index)
    await sleep(10.0)
    server.check()

    # ---- what the proxies saw
    tunnels = {}
    for which, proxy_server in enumerate(proxy_servers):
        if proxy_server.problem is not None:
            raise proxy_server.problem
        for task in proxy_server.tasks:
            if task.is_done():
                task.get_result()
        for connection in proxy_server.connections:
            if connection.head is None:
                check(not connection.buffer or any(request[6] is not None for request in requests), 'half request', connection.buffer)
                continue
            lines = connection.head.decode('latin-1').split('\r\n')
            pieces = lines[0].split(' ')
            check(len(pieces) == 3 and pieces[0] == 'CONNECT' and pieces[2] == 'HTTP/1.1', 'request line to a proxy', lines[0])
            authority = pieces[1]
            check(not connection.early, 'something was sent to a proxy before it accepted', authority)
            headers = []
            for line in lines[1 :]:
                name, separator, value = line.partition(':')
                check(separator, 'header', line)
                headers.append((name.lower(), value.strip()))
            # has to be one of those who use it
            fitting = []
            for number, (given_which, credentials, extra, context_kind, fingerprint_value) in enumerate(proxies_given):
                if given_which != which:
                    continue
                expected = []
                if extra:
                    expected.append(('x-extra', f'e{number}'))
                if credentials == 'parameter':
                    expected.append(('proxy-authorization', basic('puser', f'ppass{number}')))
                elif credentials == 'url':
                    expected.append(('proxy-authorization', basic('pus er', f'ppass{number}')))
                elif credentials == 'header':
                    expected.append(('proxy-authorization', 'Token abc'))
                fitting.append(sorted(expected))
            check(sorted(item for item in headers if item[0] not in ('host', 'proxy-connection', 'connection', 'user-agent')) in fitting, 'headers of a CONNECT request', headers, fitting)
            check(
                any(
                    authority == f'{TARGETS[request[0]][1]}:{TARGETS[request[0]][2]}' and request[1] is not None and proxies_given[request[1]][0] == which
                    for request in requests
                ), 'a tunnel no one asked for', authority,
            )
            if authority.endswith('443'):
                check(MARKER.encode() not in connection.passed, 'an encrypted request is not encrypted', authority)
            tunnels.setdefault((which, authority), []).append(connection)

    # ---- what the requests ended with
    by_transport = {}
    for which, proxy_server in enumerate(proxy_servers):
        for connection in proxy_server.connections:
            if connection.pipe is not None:
                by_transport[connection.pipe.transport_name] = (which, connection)
    ok = {'ok', 'interim', 'length', 'chunked', 'close', 'cookie', 'pieces', 'slow'}
    for index, (target, proxy, context_kind, fingerprint_value, method, size, cancel_at, keep) in enumerate(requests):
        scheme, host, port, address, covered = TARGETS[target]
        outcome = outcomes[index]
        request = arrived.get(index)
        refused = None
        if scheme == 'https':
            if fingerprint_value is False:
                refused = 'fingerprint'
            elif context_kind == 'verify' and not covered:
                refused = 'certificate'
        proxy_refused = False
        if proxy is not None:
            which, credentials, extra, proxy_context_kind, proxy_fingerprint = proxies_given[proxy]
            if PROXIES[which][0] == 'https' and proxy_fingerprint is False:
                proxy_refused = True
        if refused or proxy_refused:
            ctx.nontrivial()
            ctx.label('not accepted certificate')
        if request is not None:
            check(not refused, 'a request is sent to a server whose certificate is not accepted', index, refused)
            check(not proxy_refused, 'a request is sent over a proxy whose certificate is not accepted', index)
            check_eq(request.connection.key, (scheme, host, port), 'target')
            check_eq((request.method, request.target), (method, f'/r/{index}'), 'request line')
            check_eq(values_of(request.headers, 'host'), [host if {'http': 80, 'https': 443}[scheme] == port else f'{host}:{port}'], 'host')
            check_eq(values_of(request.headers, 'authorization'), [basic('tuser', 'tpass')], 'authorization')
            check_eq(values_of(request.headers, 'x-secret'), [MARKER], 'header')
            check(not any(name.startswith('proxy-') or name == 'x-extra' for name, value in request.headers), 'a header of the proxy is sent to the target', request.headers)
            check_eq(values_of(request.headers, 'cookie'), [], 'cookies')
            if request.complete.is_done() and request.complete.get_result():
                check_eq(bytes(request.body), f'{MARKER}{index}'.encode() if method == 'POST' else b'', 'body')
            # which way it came
            came = by_transport.get(request.connection.came_from)
            if proxy is None:
                check(came is None, 'a request goes through a proxy it should not', index)
            else:
                check(came is not None, 'a request avoids its proxy', index)
                check_eq(came[0], proxies_given[proxy][0], 'proxy of a request')
        if outcome[0] == 'cancelled':
            ctx.nontrivial()
            continue
        if outcome[0] == 'response':
            check(request is not None, 'a response without request', index)
            check_eq(outcome[1 :], (200, str(index), b'' if method == 'HEAD' else BLOB[index : index + size]), 'response')
            continue
        # something failed, is there a reason?
        if refused or proxy_refused:
            check(request is None, 'refused')
        used = [] if proxy is None else tunnels.get((proxies_given[proxy][0], f'{host}:{port}'), [])
        bad = [connection for connection in used if connection.behaviour[0] not in ok]
        reasons = bad or refused or proxy_refused
        check(reasons, 'a request failed without a reason', index, outcome)
        if bad:
            ctx.nontrivial()
        if outcome[0] == 'timeout':
            check(any(connection.behaviour[0] == 'silent' for connection in bad), 'a request timed out without a reason', index)
        if isinstance(outcome[1], ProxyError):
            exception = outcome[1]
            matching = [connection.behaviour for connection in bad if connection.behaviour[0] in ('refuse', 'refuse_reason') and connection.behaviour[1] == exception.code]
            check(matching, 'status of a proxy error', exception.code, bad and [connection.behaviour for connection in bad])
            check(exception.headers is not None and exception.headers.get('X-Why') == str(exception.code), 'headers of a proxy error', exception.headers)
            check(isinstance(exception.message, str), 'message of a proxy error', exception.message)
            if all(kind == 'refuse_reason' for kind, value in matching):
                check_eq(exception.message, f'Sorry {exception.code}', 'message of a proxy error')
        elif not at_once and len(bad) == len(used) == 1 and bad[0].behaviour[0] in ('refuse', 'refuse_reason') and not proxy_refused:
            raise Violation(f'a refusal of a proxy is told as {outcome[1]!r}')

    # pooling: what may share a tunnel does, what may not does not
    users = {}
    for index, request in arrived.items():
        users.setdefault(id(request.connection), []).append(index)
    for indices in users.values():
        if len(indices) > 1:
            ctx.nontrivial()
            ctx.label('reused')
            keys = {
                (requests[index][0], requests[index][1] if requests[index][1] is None else proxies_given[requests[index][1]], TARGETS[requests[index][0]][0] == 'https' and requests[index][2 : 4])
                for index in indices
            }
            check_eq(len(keys), 1, 'requests with different ways share a connection', indices)
    if not at_once and all(request[6] is None and request[7] for request in requests) and len(set((request[0], request[1], request[2], request[3]) for request in requests)) == 1:
        if all(outcome[0] == 'response' for outcome in outcomes.values()):
            check_eq(len(users), 1, 'connections of the same requests')

    # nothing is left
    client.close()
    client = None
    server.close()
    for proxy_server in proxy_servers:
        for item in proxy_server.servers:
            item.close()
    await sim.settle()
    gc.collect()
    await sim.settle()
    await sleep(30.0)
    for which, proxy_server in enumerate(proxy_servers):
        for connection in proxy_server.connections:
            check(connection.lost, 'a connection to a proxy is left open', PROXIES[which][0], getattr(connection, 'behaviour', None), outcomes)
    server.check()
    for proxy_server in proxy_servers:
        proxy_server.close()
    await sim.settle()
    errors.check((OSError, PayloadError))
    check_eq(net.open_sockets(), [], 'sockets left open')


@C48.case('requests', _strategy, quick = 700, thorough = 20000, shards = 8)
def run_requests(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _proxied, net, case, ctx)


# ---- addresses

ADDRESSES = ['10.0.0.1', '10.0.0.2', '10.0.0.3', 'fd00::1']
CACHE = 10.0


def _addresses_strategy():
    epoch = st.tuples(
        st.integers(0, 30),
        st.one_of(
            st.lists(st.integers(0, 3), min_size = 1, max_size = 4, unique = True),
            st.lists(st.integers(0, 3), min_size = 1, max_size = 4, unique = True),
            st.none(),
        ),
    )
    down = st.tuples(st.integers(0, 3), st.integers(0, 30), st.integers(1, 30))
    request = st.tuples(
        st.integers(0, 40),
        st.sampled_from([None, None, None, 0, 1, 2, 70]),          # cancelled after
        st.sampled_from([0, 0, 0, 0, 1]),                          # which host
    )
    return st.tuples(
        st.lists(st.sampled_from([0, 0, 2]), min_size = 1, max_size = 3),
        st.lists(epoch, min_size = 1, max_size = 4),
        st.lists(st.sampled_from([0.0625, 0.0625, 3.25]), min_size = 1, max_size = 3),
        st.lists(down, max_size = 5),
        st.lists(request, min_size = 3, max_size = 9),
    )


class TimedList(list):
    def append(self, element):
        list.append(self, (vsim.CLOCK.now, element))


async def _addresses(sim, net, case, ctx):
    plan, epochs, delays, downs, requests = case
    loop = sim.loop
    errors = Errors()
    start = sim.now()
    epochs = sorted(epochs, key = lambda item: item[0])
    epochs[0] = (0, epochs[0][1])
    resolves = {0: [], 1: []}
    counter = [0]
    net.connects = TimedList()
    names = ['a.example', 'b.example']

    def current_addresses(time):
        out = None
        for tick, value in epochs:
            if tick + 0.375 <= time or tick == 0:
                out = value
        return out

    async def on_resolve(host):
        which = names.index(host)
        value = current_addresses(sim.now() - start)
        delay = delays[counter[0] % len(delays)]
        counter[0] += 1
        resolves[which].append((sim.now() - start, delay, value))
        await sleep(delay)
        if value is None:
            raise OSError('name service failed')
        # the other host has the same addresses in reversed order
        net.hosts[host] = [ADDRESSES[index] for index in (value if which == 0 else value[::-1])]

    net.hosts['a.example'] = net.hosts['b.example'] = []
    net.on_resolve = on_resolve

    def is_up(index, time):
        return not any(index == which and begin + 0.5 <= time < begin + length + 0.5 for which, begin, length in downs)

    def update():
        now = sim.now() - start
        net.refuse.clear()
        net.refuse.update((ADDRESSES[index], 80) for index in range(4) if not is_up(index, now))

    for tick in range(70):
        loop.call_after(tick + 0.5, update)

    served = {}

    async def respond(request):
        await request.complete
        index = int(request.target.rpartition('/')[2])
        check(index not in served, 'a request is sent twice')
        served[index] = request.connection.transport.get_extra_info('socket').getsockname()[0]
        head, wire = build_response(200, [('Connection', 'close')], b'ok', 'length')
        request.connection.transport.write(head + wire)
        request.answered = True
        request.connection.end()

    server = Server(loop, respond)
    await server.start(*((address, 80) for address in ADDRESSES))
    client = HTTPClient(loop)
    outcomes = {}

    async def do(index):
        async with client.request('GET', f'http://{names[requests[index][2]]}/r/{index}') as response:
            await response.read()
            return response.status

    async def guarded(index):
        tick, cancel, which = requests[index]
        await sleep(start + tick - sim.now())
        task = Task(loop, do(index))
        if cancel is not None:
            loop.call_after(cancel * 0.03125 + 0.015625, task.cancel)
        try:
            outcomes[index] = ('response', await task)
        except CancelledError:
            check(cancel is not None, 'a request got cancelled by itself', index)
            outcomes[index] = ('cancelled', None)
        except OSError as exception:
            outcomes[index] = ('error', exception)

    tasks = [Task(loop, guarded(index)) for index in range(len(requests))]
    await sleep(60.0)
    for task in tasks:
        check(task.is_done(), 'a request never ends')
        task.get_result()
    server.check()

    for which in range(2):
        # Which resolves should there have been?
        expected = []
        order = sorted((index for index in range(len(requests)) if requests[index][2] == which), key = lambda index: (requests[index][0], index))
        cached = None
        rotation = 0
        got = resolves[which]
        pending = None
        for index in order:
            tick, cancel, _ = requests[index]
            alone = sum(item[0] == tick for item in requests) == 1
            if pending is not None and pending[0] + pending[1] <= tick:
                if pending[2] is not None:
                    cached = (pending[0] + pending[1], pending[2] if which == 0 else pending[2][::-1])
                    # those who waited for it used it already
                    rotation = uses % len(pending[2])
                pending = None
            expired = cached is None or cached[0] + CACHE < tick
            if expired and pending is None:
                expected.append(tick)
                check(len(got) >= len(expected), 'a name is not resolved again after its addresses expired', tick, got, expected)
                check(abs(got[len(expected) - 1][0] - tick) < 1e-6, 'a name is resolved at a different time as needed', got, expected)
                pending = got[len(expected) - 1]
                uses = 0
            candidates = []
            if cached is not None:
                ctx.nontrivial()
                addresses = cached[1]
                candidates = [*addresses[rotation :], *addresses[: rotation]]
                rotation = (rotation + 1) % len(addresses)
            up = [item for item in candidates if is_up(item, tick)]
            if candidates and not up:
                ctx.label('all old failed')
            maybe = []
            fresh_at = None
            if not up and expired and pending[2] is not None:
                # new ones
                fresh_at = pending[0] + pending[1]
                if cancel is None or tick + cancel * 0.03125 + 0.015625 > fresh_at:
                    uses += 1
                up = [item for item in pending[2] if item not in candidates and is_up(item, fresh_at)]
                maybe = [item for item in pending[2] if item in candidates and is_up(item, fresh_at)]
            outcome = outcomes[index]
            if outcome[0] == 'response':
                check(up or maybe, 'a request succeeded without an address which works', index)
                address = ADDRESSES.index(served[index])
                check(address in up or address in maybe, 'a request is sent to an address the name does not have', index, served[index], up, maybe)
                if alone and fresh_at is None:
                    check_eq(address, up[0], 'address a request is sent to: the first one in turn which works', index, candidates)
            elif outcome[0] == 'error':
                check(not up, 'a request failed while there is an address which works', index, outcome, candidates, up)
            elif cancel * 0.03125 > 0.5 and up and fresh_at is None:
                raise Violation(f'request {index} got cancelled too late to matter')
            # what was tried
            if alone:
                limit = tick + 3.75
                following = [request[0] for request in requests if request[0] > tick]
                if not following or min(following) > limit:
                    tried = [ADDRESSES.index(address[0]) for time, address in net.connects if tick - 1e-6 <= time - start <= limit]
                    allowed = candidates + (list(pending[2]) if pending is not None and pending[2] is not None and expired else [])
                    check(set(tried) <= set(allowed), 'an address is tried which the name does not have', index, tried, allowed)
                    check(len(tried) == len(set(tried)), 'an address is tried more times by a request', index, tried)
        check_eq(len(got), len(expected), 'amount of resolves', got, expected)
    client.close()
    client = None
    server.close()
    await sim.settle()
    gc.collect()
    await sim.settle()
    errors.check((OSError,))
    check_eq(net.open_sockets(), [], 'sockets left open')


@C48.case('addresses', _addresses_strategy, quick = 700, thorough = 20000, shards = 4)
def run_addresses(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _addresses, net, case, ctx)
