"""C32: the opening handshake of web sockets."""
import base64, hashlib
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import Future, Task, sleep
from scarletio.web_common import ConnectionClosed, URL
from scarletio.web_common.exceptions import AbortHandshake, InvalidHandshake, PayloadError
from scarletio.web_socket import WebSocketClient, WebSocketServer
from vharness import Property, Violation, check, check_eq
from c_transport import Recorder, Errors
from c_websocket import encode_frame, GUID, TEXT, CLOSE

C32 = Property('C32', rule = (
    '`server`: a request of a reference client, valid or with up to 3 of its parts (method, version, Upgrade, Connection, key, version of the protocol, '
    'Origin, extensions, subprotocols, cut) changed, to a server of a generated configuration. `client`: a response of a reference server, valid or changed, '
    'to a client connecting to a generated url. `pair`: a client and a server of generated configurations. '
    'Non-trivial = something was refused, or an extension / subprotocol got negotiated.'
))

KEY = base64.b64encode(bytes(range(16))).decode()
KEY_2 = base64.b64encode(bytes(range(1, 17))).decode()


def accept_of(key):
    return base64.b64encode(hashlib.sha1((key + GUID).encode()).digest()).decode()


class Extension:
    """An extension which flips the bytes of data frames and marks them with a reserved bit."""
    def __init__(self, name, only = None):
        self.name = name
        self.only = only
        self.request_params = [] if only is None else list(only)
        self.value = 0x20 | len(name)

    def are_valid_parameters(self, parameters, accepted):
        return (self.only is None or parameters == self.only) and self not in accepted

    def flip(self, frame):
        from scarletio.web_common.web_socket_frame import WebSocketFrame
        if frame.operation_code in (1, 2, 0):
            return WebSocketFrame(frame.is_final, frame.operation_code, bytes(byte ^ self.value ^ 0x80 if frame.operation_code == 2 else byte for byte in frame.data))
        return frame

    def encode(self, frame):
        return self.flip(frame)

    def decode(self, frame, *, max_size = None):
        return self.flip(frame)

    def __repr__(self):
        return f'<Extension {self.name}>'


def head_of(data):
    index = data.find(b'\r\n\r\n')
    if index == -1:
        return None
    lines = data[: index].decode('latin-1').split('\r\n')
    headers = []
    for line in lines[1 :]:
        name, separator, value = line.partition(':')
        check(separator == ':' and name == name.strip() and name, 'malformed header line', line)
        headers.append((name.lower(), value.strip()))
    return lines[0], headers, bytes(data[index + 4 :])


def values_of(headers, name):
    return [value for key, value in headers if key == name]


# ---- server

EXTENSIONS = {
    'a': lambda: Extension('x-a'), 'b': lambda: Extension('x-b', [('level', '3')]),
}
PROTOCOLS = ['chat', 'super', 'v1.json', 'soap']

METHODS = ['POST', 'HEAD']
UPGRADES = [[], ['h2c'], ['websocketx'], ['h2c, foo'], ['']]
CONNECTIONS = [[], ['keep-alive'], ['close'], ['upgradex'], ['']]
KEYS = [[], [KEY, KEY_2], [KEY[:-4]], ['?' * 24], [''], [KEY + 'AAAA'], ['é']]
VERSIONS = [[], ['8'], ['13', '8'], ['013'], ['x'], ['']]
OK_UPGRADES = [['websocket'], ['WebSocket'], ['WEBSOCKET']]
OK_CONNECTIONS = [['Upgrade'], ['upgrade'], ['keep-alive, Upgrade'], ['keep-alive', 'Upgrade'], ['Upgrade , keep-alive'], ['keep-alive,UPGRADE']]
ORIGINS = [[], ['https://a.example'], ['https://b.example'], ['https://a.example', 'https://b.example'], ['https://a.example.evil'], ['null'], ['']]
OFFERS = [
    [], ['x-a'], ['x-b; level=3'], ['x-b; level=4'], ['x-b'], ['permessage-deflate; client_max_window_bits'], ['x-a, x-b; level="3"'],
    ['x-b;level=3', 'x-a'], ['x-unknown, x-a'], ['x-a, x-a'], ['x-b; level=4, x-b; level=3'],
]
BAD_OFFERS = [['x-a x-b'], ['x-a; level='], ['"x-a"'], ['x-a; level="3'], ['x-a; =3'], ['é']]


def parse_offer(values):
    out = []
    for value in values:
        for part in value.split(','):
            name, *parameters = [piece.strip() for piece in part.split(';')]
            pairs = []
            for parameter in parameters:
                key, separator, right = parameter.partition('=')
                pairs.append((key, right.strip('"') if separator else None))
            out.append((name, pairs))
    return out


def accept_extensions(names, offer):
    """(reference) which ones of the offered extensions the server takes"""
    available = [EXTENSIONS[name]() for name in names or ()]
    taken = []
    for name, parameters in offer:
        for extension in available:
            if extension.name == name and extension.are_valid_parameters(parameters, [entry[0] for entry in taken]):
                taken.append((extension, parameters))
                break
    return [(extension.name, parameters) for extension, parameters in taken]


def _server_strategy():
    change = st.one_of(
        st.tuples(st.just('method'), st.sampled_from(METHODS)),
        st.tuples(st.just('http'), st.just('1.0')),
        st.tuples(st.just('upgrade'), st.sampled_from(UPGRADES)),
        st.tuples(st.just('connection'), st.sampled_from(CONNECTIONS)),
        st.tuples(st.just('key'), st.sampled_from(KEYS)),
        st.tuples(st.just('version'), st.sampled_from(VERSIONS)),
        st.tuples(st.just('offer'), st.sampled_from(BAD_OFFERS)),
        st.tuples(st.just('cut'), st.integers(0, 400)),
    )
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.tuples(
            st.sampled_from(OK_UPGRADES), st.sampled_from(OK_CONNECTIONS), st.sampled_from(ORIGINS), st.sampled_from(OFFERS),
            st.lists(st.sampled_from(PROTOCOLS), max_size = 3, unique = True), st.booleans(),
        ),
        st.lists(change, max_size = 2) | st.just([]),
        st.tuples(
            st.sampled_from([None, None, 'https://a.example']),
            st.sampled_from([None, [], ['a'], ['a', 'b'], ['b']]),
            st.one_of(st.none(), st.lists(st.sampled_from(PROTOCOLS), max_size = 3, unique = True)),
            st.sampled_from([None, None, 'accept', 'accept_async', 'refuse', 'refuse_async', 'refuse_headers', 'refuse_bytes', 'raise']),
            st.sampled_from([None, None, {'X-Extra': 'yes', 'Server': 'me'}]),
            st.sampled_from([None, None, 'first', 'none']),
        ),
        st.booleans(),
    )


class Raw(Recorder):
    def __init__(self):
        Recorder.__init__(self, None, 'raw')
        self.handle = None

    def data_received(self, data):
        self.received += data
        if self.handle is not None:
            self.handle()


class ProcessorError(Exception):
    pass


async def _server(sim, net, case, ctx):
    plan, valid, changes, configuration, pipelined = case
    upgrade, connection, origin, offer, protocols, joined = valid
    loop = sim.loop
    errors = Errors()
    request = {
        'method': 'GET', 'http': '1.1', 'upgrade': upgrade, 'connection': connection, 'key': [KEY], 'version': ['13'],
        'origin': origin, 'offer': offer, 'cut': None,
    }
    for name, value in changes:
        request[name] = value
    origin = request['origin']
    offer = request['offer']
    required_origin, names, available_protocols, processor, extra, selector = configuration
    lines = [f'{request["method"]} /chat?x=1 HTTP/{request["http"]}', 'Host: 10.0.0.1']
    for header, values in (
        ('Upgrade', request['upgrade']), ('Connection', request['connection']), ('Sec-WebSocket-Key', request['key']),
        ('Sec-WebSocket-Version', request['version']), ('Origin', origin), ('Sec-WebSocket-Extensions', offer),
        ('Sec-WebSocket-Protocol', [', '.join(protocols)] if joined and protocols else protocols),
    ):
        for value in values:
            lines.append(f'{header}: {value}')
    data = ('\r\n'.join(lines) + '\r\n\r\n').encode()

    # verdict
    refused = bool(
        request['method'] != 'GET' or request['http'] != '1.1' or request['upgrade'] not in OK_UPGRADES
        or request['connection'] not in OK_CONNECTIONS or request['key'] != [KEY] or request['version'] != ['13']
        or offer in BAD_OFFERS and names is not None or (required_origin is not None and origin != [required_origin])
        or processor not in (None, 'accept', 'accept_async')
    )
    unsure = offer in BAD_OFFERS  # an extension header may be ignored
    cut = request['cut']
    if cut is not None and cut < len(data):
        data = data[: cut]
    else:
        cut = None

    calls = []
    def refusal():
        if processor == 'refuse_headers':
            from scarletio import IgnoreCaseMultiValueDictionary
            headers = IgnoreCaseMultiValueDictionary()
            headers['X-Why'] = 'because'
            return 'no', 403, headers
        if processor == 'refuse_bytes':
            return b'no', 403
        return 'no', 403

    def process(path, headers):
        calls.append((path, headers['host']))
        if processor == 'raise':
            raise ProcessorError
        return None if processor == 'accept' else refusal()

    async def process_async(path, headers):
        calls.append((path, headers['host']))
        await sleep(0.5)
        return None if processor == 'accept_async' else refusal()

    selected = []
    def select(offered, available):
        selected.append((list(offered), list(available)))
        return available[0] if selector == 'first' and available else None

    handled = []
    async def handler(web_socket):
        handled.append(web_socket)
        try:
            message = await web_socket.receive()
        except ConnectionClosed:
            return
        await web_socket.send(message)

    server = await WebSocketServer(
        loop, '10.0.0.1', 80, handler, origin = required_origin,
        available_extensions = None if names is None else [EXTENSIONS[name]() for name in names],
        available_subprotocols = available_protocols, extra_response_headers = extra,
        request_processor = None if processor is None else (process_async if processor.endswith('_async') else process),
        subprotocol_selector = None if selector is None else select,
        web_socket_keyword_parameters = {'close_timeout': 4.0},
    )
    raw = Raw()
    await loop.create_connection_to(lambda: raw, '10.0.0.1', 80)
    if pipelined and not refused and cut is None:
        data += encode_frame(TEXT, b'hello', mask = b'abcd')
    raw.transport.write(data)
    if cut is not None:
        raw.transport.write_eof()
    await sleep(20.0)
    parsed = head_of(raw.received)
    if cut is not None:
        ctx.nontrivial()
        check_eq(handled, [], 'handler is called after half of a request')
        if parsed is not None:
            check(int(parsed[0].split(' ')[1]) >= 400, 'half of a request got accepted', parsed[0])
        check(raw.lost or raw.eof, 'connection is kept after half of a request')
    else:
        check(parsed is not None, 'no response', bytes(raw.received))
        status_line, headers, rest = parsed
        pieces = status_line.split(' ', 2)
        check(pieces[0] == 'HTTP/1.1' and pieces[1].isdigit() and len(pieces[1]) == 3, 'malformed status line', status_line)
        status = int(pieces[1])
        if processor is not None and request['method'] == 'GET' and request['http'] == '1.1':
            check_eq(calls, [('/chat?x=1', '10.0.0.1')], 'calls of the request processor')
        if unsure and status >= 400:
            refused = True
        if refused and not (unsure and status == 101):
            ctx.nontrivial()
            check(status >= 400, 'a bad handshake was accepted', status_line, request)
            check_eq(handled, [], 'the handler was called for a refused handshake')
            lengths = values_of(headers, 'content-length')
            check(len(lengths) == 1 and lengths[0].isdigit(), 'length of the response', headers)
            if request['method'] != 'HEAD':
                check_eq(len(rest), int(lengths[0]), 'length of the body of the response')
            check(raw.lost or raw.eof, 'a refused connection is kept')
            processor_only = processor is not None and processor.startswith('refuse')
            if processor_only:
                if request['method'] == 'GET' and request['http'] == '1.1':
                    check_eq(status, 403, 'status chosen by the request processor')
                    check_eq(rest, b'no\n', 'body chosen by the request processor')
                    if processor == 'refuse_headers':
                        check_eq(values_of(headers, 'x-why'), ['because'], 'headers of the request processor')
            elif processor != 'raise':
                check(400 <= status < 500, 'the fault of the client is answered like one of the server', status_line)
        else:
            check_eq(status, 101, 'a valid handshake was refused', rest)
            check_eq([value.lower() for value in values_of(headers, 'upgrade')], ['websocket'], 'upgrade')
            check_eq([value.lower() for value in values_of(headers, 'connection')], ['upgrade'], 'connection')
            check_eq(values_of(headers, 'sec-websocket-accept'), [accept_of(KEY)], 'accept')
            check_eq(len(handled), 1, 'calls of the handler')
            if extra is not None:
                for name, value in extra.items():
                    check_eq(values_of(headers, name.lower()), [value], 'extra header')
            # extensions
            got = parse_offer(values_of(headers, 'sec-websocket-extensions'))
            expected = [] if unsure else accept_extensions(names, parse_offer(offer))
            if not unsure:
                check_eq(got, expected, 'extensions')
                check_eq([extension.name for extension in handled[0].extensions or ()], [name for name, _ in expected], 'extensions')
            if expected:
                ctx.nontrivial()
            # subprotocol
            chosen = values_of(headers, 'sec-websocket-protocol')
            common = [protocol for protocol in protocols if protocol in (available_protocols or ())]
            check_eq([handled[0].subprotocol] if handled[0].subprotocol is not None else [], chosen, 'subprotocol told and used')
            if selector is not None and available_protocols is not None:
                if protocols:
                    check_eq(selected, [(protocols, available_protocols)], 'calls of the selector')
                    expected = [available_protocols[0]] if selector == 'first' and available_protocols else []
                else:
                    expected = []
                check_eq(chosen, expected, 'the selected subprotocol')
            elif not common:
                check_eq(chosen, [], 'subprotocol')
            else:
                ctx.nontrivial()
                check_eq(len(chosen), 1, 'count of chosen subprotocols')
                chosen = chosen[0]
                check(chosen in common, 'chosen subprotocol is not common', chosen)
                for protocol in common:
                    check(
                        protocol == chosen or protocols.index(protocol) > protocols.index(chosen)
                        or available_protocols.index(protocol) > available_protocols.index(chosen),
                        'both ends prefer an other subprotocol', chosen, protocol,
                    )
            if pipelined:
                # what came with the request is the first message
                expected = encode_frame(TEXT, b'hello')
                check_eq(rest[: len(expected)], expected, 'echo of a message sent with the request')
            else:
                raw.transport.write(encode_frame(CLOSE, b'\x03\xe8', mask = b'1234'))
                await sleep(30.0)
                check_eq(bytes(raw.received[-4 :]), b'\x88\x02\x03\xe8', 'close frame')
    raw.transport.close()
    await server.close()
    await sim.settle()
    errors.check((ConnectionError, ConnectionClosed, PayloadError, InvalidHandshake, AbortHandshake))
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C32.case('server', _server_strategy, quick = 700, thorough = 15000, shards = 3)
def c32_server(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _server, net, case, ctx)


# ---- client

HOSTS = [
    ('10.0.0.1', '10.0.0.1', 80), ('10.0.0.1:80', '10.0.0.1', 80), ('10.0.0.1:8080', '10.0.0.1:8080', 8080),
    ('server.example', 'server.example', 80), ('server.example:81', 'server.example:81', 81),
    ('[2001:db8::1]', '[2001:db8::1]', 80), ('[2001:db8::1]:81', '[2001:db8::1]:81', 81),
]
PATHS = [('', '/'), ('/', '/'), ('/a/b?x=1&y=2', '/a/b?x=1&y=2'), ('/a%20b', '/a%20b'), ('/#fragment', '/'), ('?q=1', '/?q=1')]
USERS = [None, ('user', 'pass'), ('user', None), ('us%20er', 'p%40ss')]


def _client_strategy():
    change = st.one_of(
        st.tuples(st.just('status'), st.sampled_from(['200 OK', '404 Not Found', '500 Oops', '204 No Content', '102 Wait'])),
        st.tuples(st.just('http'), st.just('1.0')),
        st.tuples(st.just('upgrade'), st.sampled_from(UPGRADES)),
        st.tuples(st.just('connection'), st.sampled_from(CONNECTIONS)),
        st.tuples(st.just('accept'), st.sampled_from([[], ['good', 'bad'], ['bad'], [''], ['good=']])),
        st.tuples(st.just('extensions'), st.sampled_from([['x-a'], ['x-unknown'], ['x-a', 'x-b; level=4'], ['x-a x-b'], ['x-a, x-b; level=3'], ['']])),
        st.tuples(st.just('protocols'), st.sampled_from([['chat'], ['soap'], ['chat, super'], ['chat', 'super'], ['']])),
        st.tuples(st.just('cut'), st.integers(0, 150)),
    )
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.tuples(
            st.integers(0, len(HOSTS) - 1), st.sampled_from(PATHS), st.sampled_from(USERS),
            st.sampled_from([None, 'https://a.example']), st.sampled_from([None, ['a'], ['a', 'b']]),
            st.one_of(st.none(), st.lists(st.sampled_from(PROTOCOLS), max_size = 3, unique = True)),
            st.sampled_from([None, {'X-Extra': 'yes', 'User-Agent': 'me'}]),
        ),
        st.tuples(st.sampled_from(OK_UPGRADES), st.sampled_from(OK_CONNECTIONS)),
        st.lists(change, max_size = 2) | st.just([]),
        st.sampled_from([False, True, False, True, 2, 6]),
        st.booleans(),
    )


async def _client(sim, net, case, ctx):
    plan, configuration, (upgrade, connection), changes, pipelined, keep = case
    host_index, (path, target), user, origin, names, protocols, extra = configuration
    loop = sim.loop
    errors = Errors()
    location, host, port = HOSTS[host_index]
    response = {
        'status': '101 Switching Protocols', 'http': '1.1', 'upgrade': upgrade, 'connection': connection, 'accept': ['good'],
        'extensions': [], 'protocols': [], 'cut': None,
    }
    for name, value in changes:
        response[name] = value
    extensions = response['extensions']
    available = [EXTENSIONS[name]() for name in names or ()]
    bad_extensions = False
    accepted = []
    for value in extensions:
        if value == 'x-a x-b':
            bad_extensions = True
            break
        for name, parameters in parse_offer([value] if value else []):
            for extension in available:
                if extension.name == name and extension.are_valid_parameters(parameters, accepted):
                    accepted.append(extension)
                    break
            else:
                bad_extensions = True
    received_protocols = [piece for value in response['protocols'] for piece in value.split(', ') if piece]
    refused = bool(
        response['status'] != '101 Switching Protocols' or response['http'] != '1.1'
        or response['upgrade'] not in OK_UPGRADES or response['connection'] not in OK_CONNECTIONS
        or response['accept'] != ['good'] or bad_extensions
        or len(received_protocols) > 1 or any(protocol not in (protocols or ()) for protocol in received_protocols)
    )
    unsure = extensions == [''] or response['protocols'] == ['']

    requests = []
    raws = []
    # sometimes more than what is read ahead
    big = 0 if pipelined is True else pipelined
    frames = encode_frame(TEXT, b'hello') + encode_frame(TEXT, b'x' * 60000) * big

    class Server(Raw):
        def handle(self):
            pass

        def connection_made(self, transport):
            Recorder.connection_made(self, transport)
            raws.append(self)
            self.handle = self.answer
            self.answered = False

        def answer(self):
            parsed = head_of(self.received)
            if parsed is None or self.answered:
                return
            self.answered = True
            requests.append(parsed)
            good = accept_of((values_of(parsed[1], 'sec-websocket-key') or [''])[0])
            lines = [f'HTTP/{response["http"]} {response["status"]}']
            for header, values in (
                ('Upgrade', response['upgrade']), ('Connection', response['connection']),
                ('Sec-WebSocket-Accept', [value.replace('good', good) for value in response['accept']]),
                ('Sec-WebSocket-Extensions', extensions), ('Sec-WebSocket-Protocol', response['protocols']),
            ):
                for value in values:
                    lines.append(f'{header}: {value}')
            if response['status'] != '101 Switching Protocols' and keep:
                lines.append('Content-Length: 0')
            data = ('\r\n'.join(lines) + '\r\n\r\n').encode()
            if response['cut'] is not None:
                if response['cut'] < len(data):
                    self.transport.write(data[: response['cut']])
                    self.transport.close()
                    return
            if pipelined and not refused:
                data += frames
            self.transport.write(data)
            if response['status'] != '101 Switching Protocols' and not keep:
                self.transport.close()

    net.hosts['server.example'] = ['10.0.0.1']
    net.hosts['2001:db8::1'] = ['10.0.0.1']
    net.hosts['[2001:db8::1]'] = ['10.0.0.1']
    server = await loop.create_server_to(lambda: Server(), '10.0.0.1', port)
    await server.start()
    credentials = '' if user is None else (user[0] + ('' if user[1] is None else ':' + user[1]) + '@')
    # a string would be taken as not encoded yet
    url = URL(f'ws://{credentials}{location}{path}', encoded = True)

    async def connect():
        return await WebSocketClient(
            loop, url, origin = origin, available_extensions = None if names is None else available,
            available_subprotocols = protocols, headers = extra, close_timeout = 4.0,
        )

    task = Task(loop, connect())
    await sleep(30.0)
    if not task.is_done():
        await sleep(200.0)
    check(task.is_done(), 'connecting hangs', url)
    try:
        web_socket = task.get_result()
    except (InvalidHandshake, PayloadError, ConnectionError) as exception:
        web_socket = None
        error = exception
    except ValueError as exception:
        check('x-a x-b' in extensions, 'unexpected exception', exception)
        web_socket = None
    except TimeoutError as exception:
        web_socket = None
        error = exception
        check(response['status'].startswith('102'), 'timeout', url)

    # the request
    check_eq(len(requests), 1, 'requests')
    line, headers, rest = requests[0]
    check_eq(line, f'GET {target} HTTP/1.1', 'request line', url)
    check_eq(rest, b'', 'data before the response')
    check_eq(values_of(headers, 'host'), [host], 'host header', url)
    check_eq([value.lower() for value in values_of(headers, 'upgrade')], ['websocket'], 'upgrade')
    check_eq([value.lower() for value in values_of(headers, 'connection')], ['upgrade'], 'connection')
    keys = values_of(headers, 'sec-websocket-key')
    check(len(keys) == 1 and len(base64.b64decode(keys[0], validate = True)) == 16, 'key', keys)
    check_eq(values_of(headers, 'sec-websocket-version'), ['13'], 'version')
    check_eq(values_of(headers, 'origin'), [] if origin is None else [origin], 'origin')
    if user is None:
        check_eq(values_of(headers, 'authorization'), [], 'authorization')
    else:
        expected = {'user': 'user', 'us%20er': 'us er'}[user[0]] + ':' + {None: '', 'pass': 'pass', 'p%40ss': 'p@ss'}[user[1]]
        check_eq(values_of(headers, 'authorization'), ['Basic ' + base64.b64encode(expected.encode()).decode()], 'authorization')
    if extra is not None:
        for name, value in extra.items():
            check_eq(values_of(headers, name.lower()), [value], 'extra header')
    if names is not None:
        check_eq(
            parse_offer(values_of(headers, 'sec-websocket-extensions')),
            [(extension.name, extension.request_params) for extension in available], 'offered extensions',
        )
    else:
        check_eq(values_of(headers, 'sec-websocket-extensions'), [], 'offered extensions')
    offered = [piece for value in values_of(headers, 'sec-websocket-protocol') for piece in value.split(', ') if piece]
    check_eq(offered, protocols or [], 'offered subprotocols')

    # the outcome
    cut = response['cut'] is not None and web_socket is None
    if unsure and web_socket is None:
        pass
    elif cut or refused:
        ctx.nontrivial()
        check(web_socket is None, 'a bad response was accepted', response)
    else:
        check(web_socket is not None, 'a good response was refused', response)
    if web_socket is not None:
        if accepted or received_protocols:
            ctx.nontrivial()
        check_eq(web_socket.subprotocol, received_protocols[0] if received_protocols else None, 'subprotocol')
        check_eq(list(web_socket.extensions or ()), accepted, 'extensions')
        if pipelined:
            check_eq(await web_socket.receive(), 'hello', 'message received with the response')
            for index in range(big):
                message = Task(loop, web_socket.receive())
                message.apply_timeout(60.0)
                try:
                    message = await message
                except TimeoutError:
                    check(False, 'messages sent together with the response are not received', index, big)
                check_eq(message, 'x' * 60000, 'message received with the response')
        await web_socket.close()
        web_socket = None
    task = None
    await sleep(40.0)
    for raw in raws:
        raw.transport.close()
    server.close()
    await sim.settle()
    import gc
    gc.collect()
    await sim.settle()
    errors.check((ConnectionError, ConnectionClosed, PayloadError, InvalidHandshake))
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C32.case('client', _client_strategy, quick = 700, thorough = 15000, shards = 3)
def c32_client(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _client, net, case, ctx)


# ---- both

def _pair_strategy():
    names = st.sampled_from([None, ['a'], ['a', 'b'], ['b'], ['b', 'a']])
    protocols = st.one_of(st.none(), st.lists(st.sampled_from(PROTOCOLS), max_size = 3, unique = True))
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 4),
        st.tuples(names, protocols, st.sampled_from([None, 'https://a.example', 'https://b.example'])),
        st.tuples(names, protocols, st.sampled_from([None, 'https://a.example'])),
        st.lists(st.tuples(st.booleans(), st.binary(max_size = 20)), max_size = 3),
    )


async def _pair(sim, net, case, ctx):
    plan, client, server, messages = case
    loop = sim.loop
    errors = Errors()
    ends = []

    async def handler(web_socket):
        ends.append(web_socket)
        while True:
            try:
                message = await web_socket.receive()
            except ConnectionClosed:
                return
            await web_socket.send(message)

    def extensions(names):
        return None if names is None else [EXTENSIONS[name]() for name in names]

    web_socket_server = await WebSocketServer(
        loop, '10.0.0.1', 80, handler, origin = server[2], available_extensions = extensions(server[0]),
        available_subprotocols = server[1],
    )
    try:
        web_socket = await WebSocketClient(
            loop, 'ws://10.0.0.1/', origin = client[2], available_extensions = extensions(client[0]), available_subprotocols = client[1],
        )
    except InvalidHandshake:
        check(server[2] is not None and server[2] != client[2], 'handshake failed', case)
        ctx.nontrivial()
    else:
        check(server[2] is None or server[2] == client[2], 'origin was not checked', case)
        end = ends[0]
        check_eq((web_socket.is_ssl, end.is_ssl), (False, False), 'is the connection secure')
        common = [EXTENSIONS[name]().name for name in client[0] or () if name in (server[0] or ())]
        check_eq([extension.name for extension in web_socket.extensions or ()], common, 'extensions of the client')
        check_eq([extension.name for extension in end.extensions or ()], common, 'extensions of the server')
        check_eq(web_socket.subprotocol, end.subprotocol, 'subprotocol')
        check_eq(web_socket.subprotocol is None, not ({*(client[1] or ())} & {*(server[1] or ())}), 'is there a subprotocol')
        if common or web_socket.subprotocol is not None:
            ctx.nontrivial()
        for text, data in messages:
            if text:
                data = data.decode('latin-1')
            await web_socket.send(data)
            check_eq(await web_socket.receive(), data, 'echo')
        await web_socket.close()
        check_eq(web_socket.close_code, 1000, 'close code')
    await web_socket_server.close()
    web_socket = None
    ends.clear()
    await sim.settle()
    errors.check((ConnectionError, ConnectionClosed, InvalidHandshake))
    check_eq(net.open_sockets(), [], 'sockets left open')


@C32.case('pair', _pair_strategy, quick = 300, thorough = 6000, shards = 2)
def c32_pair(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _pair, net, case, ctx)
