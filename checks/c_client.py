"""C33, C34: the http client against reference servers over a simulated network."""
import gc, gzip, io, json, random, zlib
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import Future, Task, sleep, CancelledError
from scarletio.web_common import BasicAuthorization, ConnectionClosed, URL
from scarletio.web_common.exceptions import PayloadError
from scarletio.http_client import HTTPClient
from vharness import Property, Violation, check, check_eq
from c_transport import Recorder, Errors
from c_handshake import values_of

BLOB = random.Random(33).randbytes(400000)
UNIT = 0.25


class ServerConnection(Recorder):
    """
    Reference http/1.1 server side of a connection.

    Parses one request at a time; everything what comes while a request is being answered has to be the rest of its body.
    """
    def __init__(self, server):
        Recorder.__init__(self, None, 'server')
        self.server = server
        self.buffer = bytearray()
        self.requests = []
        self.current = None
        self.state = 'head'
        self.closed_at = None
        self.error = None
        self.lost_at = None
        self.eof_at = None
        self.unsolicited_at = None
        self.ended = False
        self.reset_at = None

    def connection_made(self, transport):
        Recorder.connection_made(self, transport)
        self.server.connections.append(self)

    def reset(self):
        if self.transport is not None and not self.lost:
            self.ended = True
            self.reset_at = vsim.CLOCK.now
            self.transport.get_extra_info('socket').inject_reset()

    def data_received(self, data):
        self.buffer += data
        if self.error is None:
            try:
                while self.parse():
                    pass
            except Violation as violation:
                self.error = violation
                self.transport.abort()

    def eof_received(self):
        self.eof_at = vsim.CLOCK.now
        return False

    def connection_lost(self, exception):
        Recorder.connection_lost(self, exception)
        self.lost_at = vsim.CLOCK.now
        if self.current is not None and not self.current.complete.is_done():
            self.current.complete.set_result(False)

    def end(self):
        # A server does not wait for ever for a client to read either.
        self.ended = True
        self.transport.close()
        self.server.loop.call_after(8.0, self.transport.abort)

    def take(self, marker):
        index = self.buffer.find(marker)
        if index == -1:
            return None
        out = bytes(self.buffer[: index])
        del self.buffer[: index + len(marker)]
        return out

    def parse(self):
        if self.state == 'head':
            head = self.take(b'\r\n\r\n')
            if head is None:
                return False
            lines = head.decode('latin-1').split('\r\n')
            pieces = lines[0].split(' ')
            check(len(pieces) == 3 and pieces[2] == 'HTTP/1.1' and pieces[0].isupper(), 'malformed request line', lines[0])
            headers = []
            for line in lines[1 :]:
                name, separator, value = line.partition(':')
                check(separator and name and name.strip() == name and ' ' not in name, 'malformed header', line)
                headers.append((name.lower(), value.strip()))
            check(
                self.current is None or self.current.answered, 'a request is sent before the previous one is answered',
                lines[0], self.current and self.current.target,
            )
            request = Request(self, pieces[0], pieces[1], headers)
            self.current = request
            self.requests.append(request)
            self.server.requests.append(request)
            lengths = values_of(headers, 'content-length')
            codings = values_of(headers, 'transfer-encoding')
            check(len(lengths) + len(codings) <= 1, 'ambiguous length', headers)
            if codings:
                check_eq(codings, ['chunked'], 'transfer encoding')
                self.state = 'chunk'
            elif lengths:
                check(lengths[0].isdigit(), 'length', lengths)
                self.left = int(lengths[0])
                self.state = 'length'
            else:
                self.left = 0
                self.state = 'length'
            self.server.handle(request)
            return True
        request = self.current
        if self.state == 'length':
            data = bytes(self.buffer[: self.left])
            del self.buffer[: self.left]
            request.body += data
            self.left -= len(data)
            if self.left:
                return False
            self.complete()
            return True
        if self.state == 'chunk':
            line = self.take(b'\r\n')
            if line is None:
                return False
            check(line and all(character in b'0123456789abcdefABCDEF' for character in line), 'chunk size', line)
            self.left = int(line, 16)
            self.state = 'chunk_data' if self.left else 'chunk_last'
            return True
        if self.state == 'chunk_data':
            if len(self.buffer) < self.left + 2:
                return False
            request.body += self.buffer[: self.left]
            check_eq(bytes(self.buffer[self.left : self.left + 2]), b'\r\n', 'end of a chunk')
            del self.buffer[: self.left + 2]
            self.state = 'chunk'
            return True
        if self.state == 'chunk_last':
            if len(self.buffer) < 2:
                return False
            check_eq(bytes(self.buffer[: 2]), b'\r\n', 'end of chunks')
            del self.buffer[: 2]
            self.complete()
            return True

    def complete(self):
        self.state = 'head'
        self.current.complete.set_result(True)


class Request:
    def __init__(self, connection, method, target, headers):
        self.connection = connection
        self.method = method
        self.target = target
        self.headers = headers
        self.body = bytearray()
        self.answered = False
        self.answered_at = None
        self.cut = False
        self.complete = Future(connection.server.loop)


class Server:
    def __init__(self, loop, respond):
        self.loop = loop
        self.respond = respond
        self.connections = []
        self.requests = []
        self.tasks = []
        self.servers = []

    async def start(self, *addresses, **keyword):
        for host, port in addresses:
            server = await self.loop.create_server_to(lambda: ServerConnection(self), host, port, **keyword)
            await server.start()
            self.servers.append(server)

    def handle(self, request):
        self.tasks.append(Task(self.loop, self.run(request)))

    async def run(self, request):
        await self.respond(request)

    def check(self):
        for connection in self.connections:
            if connection.error is not None:
                raise connection.error
        for task in self.tasks:
            if task.is_done():
                task.get_result()

    def close(self):
        for server in self.servers:
            server.close()
        for connection in self.connections:
            if connection.transport is not None:
                connection.transport.close()


def compress(data, coding):
    if coding == 'gzip':
        return gzip.compress(data, mtime = 0)
    if coding == 'deflate':
        return zlib.compress(data)
    return data


def build_response(status, headers, body, framing, version = '1.1', sizes = (1000,), reason = 'Fine'):
    """Returns the head and the body as they are on the wire"""
    headers = list(headers)
    if framing == 'length':
        headers.append(('Content-Length', str(len(body))))
        wire = body
    elif framing == 'chunked':
        headers.append(('Transfer-Encoding', 'chunked'))
        pieces = []
        position = 0
        index = 0
        while position < len(body):
            piece = body[position : position + max(1, sizes[index % len(sizes)])]
            index += 1
            position += len(piece)
            pieces.append(b'%x\r\n%s\r\n' % (len(piece), piece))
        pieces.append(b'0\r\n\r\n')
        wire = b''.join(pieces)
    else:
        wire = body
    head = f'HTTP/{version} {status} {reason}\r\n' + ''.join(f'{name}: {value}\r\n' for name, value in headers) + '\r\n'
    return head.encode(), wire


# ---- C33

C33 = Property('C33', rule = (
    'Up to 6 requests of a HTTPClient (in sequence or at once, over 2 hosts) with 9 kinds of bodies to a reference server whose responses vary in framing, '
    'compression, status, keep alive, interim responses, time of answering (also before the end of the request), unsolicited bytes, idle closing and cuts; '
    'responses are read, iterated, released half read, dropped or cancelled. '
    'Non-trivial = a connection was used for more requests, or a response was cut, or a request was cancelled or released before its end.'
))

SIZES = [0, 1, 2, 10, 1000, 4096, 65536, 70000, 200000]


def _exchange_strategy():
    body = st.tuples(
        st.sampled_from(['bytes', 'bytearray', 'str', 'io', 'generator', 'chunked', 'gzip', 'deflate', 'form', 'json_like']),
        st.sampled_from(SIZES),
    )
    response = st.tuples(
        st.sampled_from([200, 200, 200, 404, 500, 299, 204, 304]),
        st.sampled_from(['length', 'length', 'chunked', 'close']),
        st.sampled_from(SIZES),
        st.sampled_from([None, None, 'gzip', 'deflate']),
        st.sampled_from(['default', 'default', 'default', 'close', 'keep-alive', 'timeout', 'max', '1.0', '1.0-keep-alive']),
        st.sampled_from(['after', 'after', 'after', 'early', 'later']),
        st.sampled_from(['nothing', 'nothing', 'nothing', 'nothing', 'unsolicited', 'close', 'close_later', 'reset_later']),
        st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.integers(0, 1200), st.booleans())),
        st.sampled_from([(), (), (), (100,), (102, 103)]),
    )
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.tuples(
            st.integers(0, 12),
            st.sampled_from(['GET', 'POST', 'HEAD', 'PUT', 'GET', 'POST', 'DELETE', 'OPTIONS', 'PATCH']),
            st.integers(0, 1),
            st.one_of(st.none(), body),
            response,
            st.sampled_from(['read', 'read', 'read', 'read', 'read', 'twice', 'text', 'iterate', 'release', 'partial', 'drop', 'close', 'slow']),
            st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(0, 12)),
        ), min_size = 1, max_size = 6),
        st.booleans(),
        st.booleans(),
    )


KEEP_TIMEOUT = {'timeout': 2.0}


async def _exchange(sim, net, case, ctx):
    plan, exchanges, at_once, use_2 = case
    loop = sim.loop
    errors = Errors()
    idle_ends = []

    def body_of(index):
        size = exchanges[index][4][2]
        return BLOB[index * 100 : index * 100 + size]

    async def respond(request):
        path = request.target.partition('?')[0]
        index = int(path.rpartition('/')[2])
        _, method, _, body, (status, framing, size, coding, keep, when, after, cut, interim), _, _ = exchanges[index]
        connection = request.connection
        if when != 'early':
            if not await request.complete:
                return
            if when == 'later':
                await sleep(3 * UNIT)
        if connection.ended:
            # The request arrived when the connection was already ended.
            return
        headers = [('X-Index', str(index))]
        version = '1.1'
        if keep == 'close' or framing == 'close':
            headers.append(('Connection', 'close'))
        elif keep == 'keep-alive':
            headers.append(('Connection', 'keep-alive'))
        elif keep == 'timeout':
            headers.append(('Keep-Alive', 'timeout=2'))
        elif keep == 'max':
            headers.append(('Keep-Alive', 'timeout=9, max=2'))
        elif keep == '1.0':
            version = '1.0'
        elif keep == '1.0-keep-alive':
            version = '1.0'
            headers.append(('Connection', 'keep-alive'))
        if framing == 'chunked' and version == '1.0':
            framing = 'length'
        empty = status in (204, 304)
        if coding is not None and not empty:
            headers.append(('Content-Encoding', coding))
        if empty:
            head, wire = build_response(status, headers, b'', 'none', version)
        else:
            head, wire = build_response(status, headers, compress(body_of(index), coding), framing, version, (1000, 1, 30000))
            if method == 'HEAD':
                wire = b''
        for code in interim:
            if version == '1.1':
                head = b'HTTP/1.1 %d Wait\r\nX-Interim: yes\r\n\r\n' % code + head
        data = head + wire
        if cut is not None and cut[0] < len(data):
            request.cut = cut[0]
            request.answered_at = vsim.CLOCK.now
            connection.transport.write(data[: cut[0]])
            if cut[1]:
                await sleep(1.0)
                connection.reset()
            else:
                connection.end()
            return
        connection.transport.write(data)
        request.answered = True
        request.answered_at = vsim.CLOCK.now
        if (framing == 'close' and not empty) or keep in ('close', '1.0') or after == 'close':
            connection.end()
        elif after == 'unsolicited':
            await sleep(UNIT)
            connection.unsolicited_at = sim.now()
            connection.transport.write(b'HTTP/1.1 408 Timeout\r\nContent-Length: 3\r\n\r\nbad')
            await sleep(UNIT)
            connection.end()
        elif after in ('close_later', 'reset_later'):
            await sleep(2 * UNIT)
            idle_ends.append(sim.now())
            if after == 'close_later':
                connection.end()
            else:
                connection.reset()

    server = Server(loop, respond)
    net.hosts['server.example'] = ['10.0.0.1']
    await server.start(('10.0.0.1', 80), ('10.0.0.1', 8080))
    client = HTTPClient(loop)
    outcomes = {}
    sent = {}
    headers_given = {}

    def make_body(index, body):
        headers = {}
        if body is None:
            return None, headers, None
        kind, size = body
        data = BLOB[index * 50 : index * 50 + size]
        if kind in ('bytes', 'chunked', 'gzip', 'deflate'):
            if kind == 'chunked':
                headers['Transfer-Encoding'] = 'chunked'
            elif kind != 'bytes':
                headers['Content-Encoding'] = kind
            return data, headers, data
        if kind == 'bytearray':
            return bytearray(data), headers, data
        if kind == 'str':
            data = data.decode('latin-1')
            return data, headers, data.encode()
        if kind == 'io':
            return io.BytesIO(data), headers, data
        if kind == 'generator':
            async def generate():
                for start in range(0, len(data), 30000):
                    await sleep(0.1)
                    yield data[start : start + 30000]
            return generate(), headers, data
        if kind == 'form':
            return {'a b': 'c&d', 'e': str(size)}, headers, f'a+b=c%26d&e={size}'.encode()
        if kind == 'json_like':
            data = json.dumps({'key': size}).encode()
            headers['Content-Type'] = 'application/json'
            return data, headers, data
        raise ValueError(kind)

    async def do(index):
        start, method, host_index, body, response_plan, consume, cancel_at = exchanges[index]
        data, headers, raw = make_body(index, body)
        sent[index] = raw
        url = ('http://server.example/r/', 'http://10.0.0.1:8080/r/')[host_index] + str(index)
        headers['X-Request'] = str(index)
        function = client.request2 if use_2 else client.request
        given = dict(headers)
        if consume == 'drop':
            response = await function(method, url, headers, data = data)
            outcomes[index] = ('response', response.status, response.headers.get('X-Index', None), None)
            return
        async with function(method, url, headers, data = data) as response:
            check_eq(headers, given, 'headers given by the user are changed')
            status = response.status
            mark = response.headers.get('X-Index', None)
            outcomes[index] = ('half', status, mark, None)
            got = None
            if consume == 'read':
                got = (await response.read()) or b''
            elif consume == 'slow':
                await sleep(5 * UNIT)
                got = (await response.read()) or b''
            elif consume == 'twice':
                got = (await response.read()) or b''
                check_eq((await response.read()) or b'', got, 'body read again')
            elif consume == 'text':
                got = ((await response.text(encoding = 'latin-1')) or '').encode('latin-1')
            elif consume == 'iterate':
                pieces = []
                if response.payload_stream is not None:
                    async for chunk in response.payload_stream:
                        pieces.append(bytes(chunk))
                got = b''.join(pieces)
            elif consume == 'partial':
                if response.payload_stream is not None:
                    async for chunk in response.payload_stream:
                        break
                ctx.nontrivial()
            elif consume == 'close':
                response.close()
            outcomes[index] = ('response', status, mark, got)

    started_at = {}

    async def guarded(index):
        cancel_at = exchanges[index][6]
        started_at[index] = sim.now()
        task = Task(loop, do(index))
        if cancel_at is not None:
            loop.call_after(cancel_at * 0.09375, task.cancel)
        started = sim.now()
        try:
            await task
        except CancelledError:
            check(cancel_at is not None, 'a request got cancelled by itself', index)
            ctx.nontrivial()
            outcomes[index] = ('cancelled', None, None, None)
        except (OSError, PayloadError, TimeoutError) as exception:
            outcomes[index] = ('error', outcomes.get(index), started, exception)

    tasks = []
    for index, exchange in enumerate(exchanges):
        if at_once:
            async def later(index = index, start = exchange[0]):
                await sleep(start * UNIT)
                await guarded(index)
            tasks.append(Task(loop, later()))
        else:
            await sleep(exchange[0] * UNIT)
            await guarded(index)
    await sleep(100.0)
    for task in tasks:
        check(task.is_done(), 'a request never ends', task)
        task.get_result()
    await sleep(30.0)
    server.check()

    by_index = {}
    for request in server.requests:
        index = int(request.target.rpartition('/')[2])
        check(index not in by_index, 'a request is sent twice', index)
        by_index[index] = request
    for index, exchange in enumerate(exchanges):
        start, method, host_index, body, (status, framing, size, coding, keep, when, after, cut, interim), consume, cancel_at = exchange
        outcome = outcomes[index]
        request = by_index.get(index)
        if outcome[0] == 'cancelled':
            continue
        if outcome[1] == 408 and outcome[2] is None:
            # sent at the same time as the unsolicited response: no one could notice
            check(
                any(
                    connection.unsolicited_at is not None and started_at[index] <= connection.unsolicited_at + 1.0
                    for connection in server.connections
                ), 'an unsolicited response was taken as an answer', index,
            )
            continue
        if request is None:
            # may fail only if it was sent over a connection what got closed at the same time
            check_eq(outcome[0], 'error', 'a request did not arrive', index, outcome)
            started = outcome[2]
            check(idle_ends or any(exchange[4][6] != 'nothing' or exchange[4][4] in ('timeout', 'max') for exchange in exchanges), 'a request failed without a reason', index, outcome)
            continue
        check_eq(request.method, method, 'method')
        check_eq(request.target, f'/r/{index}', 'target')
        check_eq(values_of(request.headers, 'host'), [('server.example', '10.0.0.1:8080')[host_index]], 'host')
        check_eq(values_of(request.headers, 'x-request'), [str(index)], 'header of the request')
        expected = sent[index] or b''
        got = bytes(request.body)
        if request.complete.is_done() and request.complete.get_result():
            if expected and body[0] in ('gzip', 'deflate'):
                check_eq(values_of(request.headers, 'content-encoding'), [body[0]], 'content encoding')
                got = gzip.decompress(got) if body[0] == 'gzip' else zlib.decompress(got)
            check_eq(got, expected, 'body of the request', index)
        elif not expected:
            raise Violation('request without a body is not complete')
        elif body[0] not in ('gzip', 'deflate'):
            check_eq(got, expected[: len(got)], 'start of the body of the request', index)
        if request.cut is not False:
            ctx.nontrivial()
            wire_head = 1
            if outcome[0] == 'response' and outcome[3] is not None:
                # the end of a response which lasts until the end of the connection is not known, but resets are
                check(framing == 'close' and status not in (204, 304), 'a cut response was taken as a whole', index, outcome[1], len(outcome[3]))
                check(not cut[1] or method == 'HEAD', 'a response ended by a reset was taken as a whole', index)
                check(coding is not None or outcome[3] == body_of(index)[: len(outcome[3])], 'start of a cut body', index)
            continue
        if not request.answered:
            check_eq(outcome[0], 'error', 'outcome of a request without response', index, outcome)
            continue
        if outcome[0] == 'error':
            # The end of the connection may overtake the response when the client was still writing.
            # Resets drop what is not yet received.
            unfinished = when == 'early' and expected and not (request.complete.is_done() and request.complete.get_result())
            reset_at = request.connection.reset_at
            check(
                unfinished or (
                    reset_at is not None and request.answered_at <= reset_at
                    and (consume == 'slow' or size > 5000 or reset_at <= request.answered_at + 2.0)
                ),
                'an answered request failed', index, outcome, request.answered_at, reset_at,
            )
            continue
        check_eq(outcome[1 : 3], (status, str(index)), 'response', index)
        if outcome[3] is not None:
            whole = b'' if method == 'HEAD' or status in (204, 304) else body_of(index)
            check_eq(outcome[3], whole, 'body of the response', index)
    if any(len(connection.requests) > 1 for connection in server.connections):
        ctx.nontrivial()

    # pooling
    plain = all(
        exchange[4][1] != 'close' and exchange[4][4] in ('default', 'keep-alive', 'timeout') and exchange[4][5] == 'after'
        and exchange[4][6] == 'nothing' and exchange[4][7] is None and exchange[5] in ('read', 'twice', 'text', 'iterate', 'slow')
        and exchange[6] is None and exchange[2] == 0 and exchange[0] * UNIT <= 1.0
        for exchange in exchanges
    )
    if plain and not at_once:
        check_eq(len(server.connections), 1, 'connections of requests which could share a single one')
    # idle connections are closed after 15 seconds by default
    # (a response which is dropped without reading holds its connection until the client is closed)
    for connection in server.connections:
        if connection.requests and exchanges[int(connection.requests[-1].target.rpartition('/')[2])][5] == 'drop':
            continue
        check(connection.lost, 'a connection is kept open for ever', connection.requests and connection.requests[-1].target)
    client.close()
    client = None
    server.close()
    await sim.settle()
    gc.collect()
    await sim.settle()
    server.check()
    errors.check((OSError, PayloadError))
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C33.case('exchange', _exchange_strategy, quick = 700, thorough = 20000, shards = 4)
def c33_exchange(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _exchange, net, case, ctx)


def _reuse_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.tuples(
            st.integers(0, 4), st.sampled_from(['GET', 'POST', 'HEAD', 'PUT']), st.just(0),
            st.one_of(st.none(), st.tuples(st.sampled_from(['bytes', 'io', 'generator', 'chunked', 'gzip', 'form']), st.sampled_from(SIZES))),
            st.tuples(
                st.sampled_from([200, 200, 404, 204, 304]), st.sampled_from(['length', 'chunked']), st.sampled_from(SIZES),
                st.sampled_from([None, None, 'gzip', 'deflate']), st.sampled_from(['default', 'default', 'keep-alive']), st.just('after'),
                st.just('nothing'), st.none(), st.sampled_from([(), (), (100,), (102, 103)]),
            ),
            st.sampled_from(['read', 'twice', 'text', 'iterate', 'slow']), st.none(),
        ), min_size = 2, max_size = 5),
        st.just(False),
        st.booleans(),
    )


@C33.case('reuse', _reuse_strategy, quick = 250, thorough = 5000, shards = 2)
def c33_reuse(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _exchange, net, case, ctx)


def _early_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.tuples(
            st.integers(0, 4), st.sampled_from(['GET', 'POST', 'PUT']), st.just(0),
            st.tuples(st.sampled_from(['bytes', 'io', 'generator', 'generator', 'chunked', 'gzip', 'deflate']), st.sampled_from(SIZES)),
            st.tuples(
                st.sampled_from([200, 200, 404, 204, 304]), st.sampled_from(['length', 'chunked']), st.sampled_from(SIZES),
                st.sampled_from([None, None, 'gzip', 'deflate']), st.sampled_from(['default', 'default', 'keep-alive']),
                st.sampled_from(['early', 'early', 'after']), st.just('nothing'), st.none(), st.sampled_from([(), (), (100,), (102, 103)]),
            ),
            st.sampled_from(['read', 'twice', 'text', 'iterate', 'slow', 'partial', 'release']), st.one_of(st.none(), st.none(), st.none(), st.integers(0, 12)),
        ), min_size = 1, max_size = 4),
        st.booleans(),
        st.booleans(),
    )


@C33.case('early', _early_strategy, quick = 250, thorough = 5000, shards = 2)
def c33_early(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _exchange, net, case, ctx)


# ---- C33: the client gets closed while it is working

def _closing_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.sampled_from([0.0625, 0.0625, 1.0, 3.0]), min_size = 1, max_size = 3),      # name resolving
        st.lists(st.tuples(
            st.integers(0, 16),                                                                 # start
            st.integers(0, 2),                                                                  # host
            st.one_of(st.none(), st.tuples(st.sampled_from(['bytes', 'generator', 'chunked']), st.sampled_from(SIZES))),
            st.sampled_from([0, 0, 1, 4]),                                                      # answered after
            st.sampled_from([0, 0, 2, 5]),                                                      # rest of the body after
            st.sampled_from(['length', 'chunked']),
            st.sampled_from(SIZES),
            st.sampled_from(['read', 'read', 'iterate', 'hold', 'release', 'drop']),
        ), min_size = 1, max_size = 5),
        st.integers(0, 80),                                                                     # closed after
        st.sampled_from(['close', 'close', 'exit', 'delete']),
    )


async def _closing(sim, net, case, ctx):
    plan, delays, exchanges, close_at, how = case
    loop = sim.loop
    errors = Errors()
    start = sim.now()
    counter = [0]

    async def on_resolve(host):
        delay = delays[counter[0] % len(delays)]
        counter[0] += 1
        await sleep(delay)

    def body_of(index):
        return BLOB[index * 100 : index * 100 + exchanges[index][6]]

    async def respond(request):
        index = int(request.target.rpartition('/')[2])
        _, _, body, wait, rest, framing, size, _ = exchanges[index]
        connection = request.connection
        if not await request.complete:
            return
        await sleep(wait * UNIT)
        if connection.ended:
            return
        head, wire = build_response(200, [('X-Index', str(index))], body_of(index), framing)
        half = len(wire) // 2
        request.answered = not wire
        connection.transport.write(head + wire[: half])
        if not wire:
            return
        await sleep(rest * UNIT)
        if connection.ended:
            return
        request.answered = True
        connection.transport.write(wire[half :])

    server = Server(loop, respond)
    net.hosts['a.example'] = ['10.0.0.1']
    net.hosts['b.example'] = ['10.0.0.2', '10.0.0.1']
    net.on_resolve = on_resolve
    await server.start(('10.0.0.1', 80))
    client = HTTPClient(loop)
    closed_at = [None]
    ended_at = {}
    outcomes = {}
    late = {}
    kept = []

    async def generate(data):
        for position in range(0, len(data), 30000):
            await sleep(0.25)
            yield data[position : position + 30000]

    async def do(client, index):
        _, which, body, _, _, _, _, consume = exchanges[index]
        data = None
        headers = {}
        if body is not None:
            data = BLOB[index * 50 : index * 50 + body[1]]
            if body[0] == 'generator':
                data = generate(data)
            elif body[0] == 'chunked':
                headers['Transfer-Encoding'] = 'chunked'
        url = ('http://a.example/r/', 'http://10.0.0.1/r/', 'http://b.example/r/')[which] + str(index)
        late[index] = closed_at[0] is not None
        if consume == 'drop':
            response = await client.request('GET' if data is None else 'POST', url, headers, data = data)
            kept.append(response)
            return int(response.headers['X-Index']), None
        async with client.request('GET' if data is None else 'POST', url, headers, data = data) as response:
            mark = int(response.headers['X-Index'])
            if consume == 'hold':
                await sleep(3.0)
            if consume in ('read', 'hold'):
                return mark, (await response.read()) or b''
            if consume == 'iterate':
                pieces = []
                if response.payload_stream is not None:
                    async for chunk in response.payload_stream:
                        pieces.append(bytes(chunk))
                return mark, b''.join(pieces)
            return mark, None

    async def guarded(client, index):
        await sleep(exchanges[index][0] * UNIT)
        try:
            outcomes[index] = ('response', await do(client, index))
        except CancelledError:
            raise Violation(f'request {index} got cancelled by itself')
        except (OSError, PayloadError) as exception:
            outcomes[index] = ('error', exception)
        ended_at[index] = sim.now()

    tasks = [Task(loop, guarded(client, index)) for index in range(len(exchanges))]
    await sleep(close_at * 0.0625 + 0.03125)
    running = [index for index in range(len(exchanges)) if index in late and index not in outcomes]
    if running:
        ctx.nontrivial()
    if how == 'exit':
        await client.__aexit__(None, None, None)
    else:
        client.close()
    closed_at[0] = sim.now()
    check(client.closed, 'a client is not closed after closing it')
    if how == 'delete':
        client.close()
        client = None
        gc.collect()
    await sleep(25.0)
    for index, task in enumerate(tasks):
        check(task.is_done(), 'a request of a closed client never ends', index, exchanges[index])
        task.get_result()
    for index, exchange in enumerate(exchanges):
        outcome = outcomes[index]
        if late[index]:
            check_eq(outcome[0], 'error', 'a request started after its client was closed')
            check(isinstance(outcome[1], ConnectionError), 'a request of a closed client raises', outcome[1])
            continue
        if outcome[0] == 'response':
            check_eq(outcome[1][0], index, 'response')
            if outcome[1][1] is not None:
                check_eq(outcome[1][1], body_of(index), 'body of the response', index)
        else:
            check(index in running, 'a request failed before its client was closed', index, outcome)
        if index in running:
            # resolving is the slowest what it could have been waiting for
            check(ended_at[index] <= closed_at[0] + 8.0, 'a request of a closed client does not end', index, ended_at[index], closed_at[0])
    server.check()
    for connection in server.connections:
        check(connection.lost or connection.eof_at is not None, 'a connection is left open by a closed client')
    server.close()
    await sim.settle()
    kept.clear()
    client = None
    await sim.settle()
    errors.check((OSError, PayloadError))
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C33.case('closing', _closing_strategy, quick = 300, thorough = 8000, shards = 2)
def c33_closing(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _closing, net, case, ctx)
