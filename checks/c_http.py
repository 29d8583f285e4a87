"""C23 - C24: http messages on the wire."""
import re, zlib

import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import IgnoreCaseMultiValueDictionary, IgnoreCaseString, Task, sleep
from scarletio.web_common import HttpReadProtocol, HttpReadWriteProtocol
from scarletio.web_common.exceptions import PayloadError
from scarletio.web_common.helpers import HttpVersion, parse_http_request, parse_http_response
from scarletio.web_common.http_message import RawRequestMessage, RawResponseMessage
from scarletio.web_common.keep_alive_info import KeepAliveInfo

C23 = Property(
    'C23',
    rule = (
        'round_trip: a request / response head with up to 8 headers (repeated names in different casings, any printable text, '
        'the connection related ones) written by HttpReadWriteProtocol, split to generated chunks, and read back. Non-trivial = '
        'two or more headers. robust: a valid head with up to 4 mutations. injection: a line break in any part of the head.'
    ),
)
C24 = Property(
    'C24',
    rule = (
        'Case = request or response, its body, how it is framed (length, chunked with generated sizes / extensions / trailers, '
        'until eof, none) and encoded (identity, gzip, deflate as zlib or raw), bytes of what follows, the chunking, the way of '
        'reading, and optionally where the connection ends or what byte of the framing is damaged. Non-trivial = has a non-empty body.'
    ),
)

TOKEN = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


class Sink:
    """A transport which collects."""
    def __init__(self):
        self.data = []
        self.paused = False

    def write(self, data):
        self.data.append(bytes(data))

    def is_closing(self):
        return False

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False

    def close(self):
        pass

    def get(self):
        return b''.join(self.data)


def chop(data, cuts):
    """Cuts the data at the given (modulo) positions."""
    if cuts is None:
        return [data[index : index + 1] for index in range(len(data))]
    positions = sorted({cut % (len(data) + 1) for cut in cuts} | {0, len(data)})
    return [data[start : end] for start, end in zip(positions, positions[1:]) if end > start]


CUTS = st.one_of(st.none(), st.lists(st.integers(0, 1 << 16), max_size = 8))


# ---- C23 ----

name_strategy = st.one_of(
    st.sampled_from(['Accept', 'accept', 'ACCEPT', 'X-Foo', 'x-foo', 'Cookie', 'Set-Cookie', 'set-cookie', 'Host']),
    st.text(alphabet = TOKEN, min_size = 1, max_size = 8),
)
value_strategy = st.text(
    alphabet = st.one_of(
        st.characters(min_codepoint = 0x20, max_codepoint = 0x7e), st.sampled_from('éő漢\U0001f600:;,="\t '),
    ),
    max_size = 16,
).map(lambda value: value.strip(' \t\r\n\x0b\x0c'))
special_strategy = st.one_of(
    st.tuples(st.sampled_from(['Connection', 'connection']), st.sampled_from(
        ['close', 'Close', 'keep-alive', 'Keep-Alive', 'upgrade', 'Upgrade', 'keep-alive, Upgrade', 'Upgrade, Keep-Alive',
         'upgrade,close', 'TE, close', 'TE'],
    )),
    st.tuples(st.just('Upgrade'), st.sampled_from(['websocket', 'h2c', 'WebSocket', 'h2, h2c'])),
    st.tuples(st.sampled_from(['Transfer-Encoding', 'transfer-encoding']), st.sampled_from(
        ['chunked', 'Chunked', 'gzip, chunked', 'identity'],
    )),
    st.tuples(st.just('Content-Encoding'), st.sampled_from(['gzip', 'GZip', 'deflate', 'identity', 'br'])),
    st.tuples(st.just('Keep-Alive'), st.sampled_from(
        ['timeout=5', 'timeout=5, max=100', 'max=7', 'timeout = 3 , max = 2', 'a=b, timeout=2.5', 'Timeout=4,Max=3', 'timeout', 'timeout=x', ''],
    )),
)
headers_strategy = st.lists(
    st.one_of(
        st.tuples(name_strategy, value_strategy), st.tuples(name_strategy, value_strategy), special_strategy,
    ),
    max_size = 8,
)
version_strategy = st.sampled_from([(1, 1), (1, 1), (1, 1), (1, 0), (2, 0)])
# every head starts with a method / status and gets chunked
head_strategy = st.one_of(
    st.tuples(
        st.just('request'),
        st.sampled_from(['GET', 'POST', 'HEAD', 'OPTIONS', 'CONNECT', 'X-CUSTOM']),
        st.text(alphabet = "abc/?=&%.~:@!$'()*+,;-_0é", min_size = 1, max_size = 12),
        version_strategy, headers_strategy,
    ),
    st.tuples(
        st.just('response'), st.sampled_from([100, 101, 200, 204, 206, 304, 404, 500, 599, 999]),
        st.one_of(st.none(), st.text(alphabet = 'abc OK-é', min_size = 1, max_size = 12).map(str.strip).filter(bool)),
        version_strategy, headers_strategy,
    ),
)


class Status:
    def __init__(self, value, phrase):
        self.value = value
        self.phrase = phrase


def write_head(protocol, head):
    kind, first, second, version, headers = head
    headers = IgnoreCaseMultiValueDictionary(headers)
    if kind == 'request':
        protocol.write_http_request(first, second, headers, HttpVersion(*version))
    else:
        protocol.write_http_response(Status(first, '' if second is None else second), headers, HttpVersion(*version))
    return headers


def tokens(headers, name):
    return [
        token.strip().casefold() for key, value in headers if key.casefold() == name.casefold()
        for token in value.split(',') if token.strip()
    ]


def group(headers):
    """What a multi value dictionary holds of the headers: grouped by name, distinct values."""
    grouped = {}
    for key, value in headers:
        values = grouped.setdefault(key.casefold(), (key, []))[1]
        if value not in values:
            values.append(value)
    return [(key, value) for key, values in grouped.values() for value in values]


async def _read_head(sim, kind, data, cuts, rest):
    protocol = HttpReadProtocol(sim.loop)
    protocol.connection_made(Sink())
    chunks = chop(data + rest, cuts)
    task = Task(sim.loop, protocol.read_http_request() if kind == 'request' else protocol.read_http_response())
    for chunk in chunks:
        await sim.settle() if len(chunks) < 6 else None
        protocol.data_received(chunk)
    await sim.settle()
    check(task.is_done(), 'reading a head which is there did not end')
    return task, protocol


async def _c23_program(sim, case, ctx):
    head, cuts, rest = case
    kind, first, second, version, headers = head
    sink = Sink()
    writer = HttpReadWriteProtocol(sim.loop)
    writer.connection_made(sink)
    write_head(writer, head)
    data = sink.get()
    check(data.endswith(b'\r\n\r\n') and data.count(b'\r\n\r\n') == 1, 'the head is not ended properly', data)
    task, protocol = await _read_head(sim, kind, data, cuts, rest)
    exception = task.get_exception()
    check(exception is None, 'a written head can not be read', data, repr(exception))
    message = task.get_result()
    check_eq(protocol.get_size(), len(rest), 'bytes left after the head')
    check_eq(tuple(message.version), version, 'version')
    if kind == 'request':
        check_eq((message.method, message.path), (first.upper(), second), 'method and path')
    else:
        check_eq((message.status, message.reason), (first, second), 'status and reason')
    expected = group(headers)
    check_eq([(str(key), value) for key, value in message.headers.items()], expected, 'headers', data)
    if len(expected) > 1:
        ctx.nontrivial()

    # what the connection related headers mean
    check_eq(message.chunked, 'chunked' in tokens(headers, 'Transfer-Encoding'), 'chunked', headers)
    encodings = [value.casefold() for key, value in expected if key.casefold() == 'content-encoding']
    check(
        message.encoding in encodings if encodings else message.encoding is None, 'encoding', message.encoding, encodings,
    )
    connection = tokens(headers, 'Connection')
    upgraded = 'upgrade' in connection and bool(tokens(headers, 'Upgrade'))
    if kind == 'response' and first != 101:
        # offering to upgrade is not upgrading
        upgraded = False
    check_eq(message.upgraded, upgraded, 'upgraded', head)
    keep_alive = message.keep_alive
    if 'close' in connection:
        check(keep_alive is None, 'kept alive though it should be closed', headers)
    elif version >= (1, 1) or 'keep-alive' in connection:
        check(isinstance(keep_alive, KeepAliveInfo), 'not kept alive', headers)
        values = [value for key, value in expected if key.casefold() == 'keep-alive']
        if len(values) <= 1:
            parameters = {}
            for part in (values[0] if values else '').split(','):
                key, _, value = part.partition('=')
                parameters[key.strip().casefold()] = value.strip()
            timeout = parameters.get('timeout', '')
            check_eq(
                keep_alive.connection_timeout, float(timeout) if re.fullmatch(r'[\d.]+', timeout) else 15.0, 'timeout', values,
            )
            maximum = parameters.get('max', '')
            check_eq(keep_alive.max_requests, int(maximum) if maximum.isdigit() else 0, 'max', values)
            if keep_alive.connection_timeout == int(keep_alive.connection_timeout):
                check_eq(
                    KeepAliveInfo.from_header_value(keep_alive.to_header_value()), keep_alive,
                    'KeepAliveInfo to_header_value and back',
                )
    elif not connection:
        check(keep_alive is None, 'HTTP/1.0 is not kept alive by default', headers)
    # the same head again gives the same message
    task, protocol = await _read_head(sim, kind, data, None, b'')
    check(task.get_result() == message, 'chunking changed the message')
    repr(message)


@C23.case('round_trip', lambda: st.tuples(head_strategy, CUTS, st.sampled_from([b'', b'\r\n', b'abc', b'0\r\n\r\n'])), quick = 700, thorough = 30000)
def run_c23(case, ctx):
    vsim.run(_c23_program, case, ctx)


def _build(head):
    kind, first, second, version, headers = head
    if kind == 'request':
        parts = [f'{first} {second} HTTP/{version[0]}.{version[1]}']
    else:
        parts = [f'HTTP/{version[0]}.{version[1]} {first}' + ('' if second is None else f' {second}')]
    parts.extend(f'{key}: {value}' for key, value in headers)
    return '\r\n'.join(parts).encode()


mutation_strategy = st.tuples(
    st.sampled_from(['insert', 'replace', 'delete', 'double']), st.integers(0, 400),
    st.one_of(
        st.sampled_from([b'\r\n', b'\n', b'\r', b' ', b'\t', b':', b'\x00', b'\xff', b'\r\n ', b'\r\n\t', b'HTTP/', b'1', b'\r\n:', b'\xc2\xb2']),
        st.binary(min_size = 1, max_size = 3),
    ),
)


@C23.case('robust', lambda: st.tuples(head_strategy, st.lists(mutation_strategy, max_size = 4)), quick = 3000, thorough = 200000)
def run_c23_robust(case, ctx):
    head, mutations = case
    data = _build(head)
    for kind, position, piece in mutations:
        position %= len(data) + 1
        if kind == 'insert':
            data = data[:position] + piece + data[position:]
        elif kind == 'replace':
            data = data[:position] + piece + data[position + len(piece):]
        elif kind == 'delete':
            data = data[:position] + data[position + len(piece):]
        else:
            data = data[:position] + data[max(0, position - 10):]
    data = data.split(b'\r\n\r\n')[0]
    parser = parse_http_request if head[0] == 'request' else parse_http_response
    try:
        message = parser(data)
    except PayloadError:
        check(bool(mutations), 'a valid head is refused', data)
        ctx.label('refused')
        return
    except Exception as exception:
        raise Violation('a malformed head raised something else than PayloadError', data, repr(exception))
    if mutations:
        ctx.nontrivial()
    # asking about it does not fail either
    try:
        message.chunked, message.upgraded, message.keep_alive, message.encoding, repr(message)
    except Exception as exception:
        raise Violation('a received head can not be used', data, repr(exception))
    items = list(message.headers.items())
    # (folded lines may give values with white space around them)
    if all(key and not set(key) - set(TOKEN) and value == value.strip() for key, value in items):
        version = tuple(message.version)
        first, second = (message.method, message.path) if head[0] == 'request' else (f'{message.status:03}', message.reason)
        again = (head[0], first, second, version, items)
        kind, first, second, version, headers = again
        if kind == 'request':
            parts = [f'{first} {second} HTTP/{version[0]}.{version[1]}']
        else:
            parts = [f'HTTP/{version[0]}.{version[1]} {first}' + ('' if second is None else f' {second}')]
        parts.extend(f'{key}: {value}' for key, value in headers)
        check(
            parser('\r\n'.join(parts).encode('utf-8', 'surrogateescape')) == message,
            'a head built of what got parsed is parsed otherwise', data, message,
        )


@C23.case(
    'injection',
    lambda: st.tuples(
        head_strategy, st.sampled_from(['name', 'value', 'first', 'second']), st.integers(0, 20),
        st.sampled_from(['\r\n', '\n', '\r', '\r\n\r\n', '\r\nX-Evil: 1', '\r\n\r\nGET /evil HTTP/1.1\r\n\r\n']),
    ),
    quick = 400, thorough = 10000,
)
def run_c23_injection(case, ctx):
    head, where, position, piece = case
    kind, first, second, version, headers = head

    def put(value):
        index = position % (len(value) + 1)
        return value[:index] + piece + value[index:]

    headers = list(headers)
    if where == 'name':
        headers.append((put('X-Name'), 'value'))
    elif where == 'value':
        headers.append(('X-Name', put('value')))
    elif where == 'first' and kind == 'request':
        first = put(first)
    elif where == 'second' and second is not None:
        second = put(second)
    else:
        return
    ctx.nontrivial()
    ctx.label(where)

    sink = Sink()
    protocol = HttpReadWriteProtocol(None)
    protocol.connection_made(sink)
    try:
        write_head(protocol, (kind, first, second, version, headers))
    except ValueError:
        check_eq(sink.get(), b'', 'bytes written before refusing a head')
        return
    raise Violation('line breaks given in a head are written to the wire', sink.get())


# ---- C24 ----

def compress(data, encoding, pieces):
    if encoding in (None, 'identity'):
        return data
    if encoding == 'gzip':
        compressor = zlib.compressobj(wbits = 31)
    elif encoding == 'deflate':
        compressor = zlib.compressobj(wbits = 15)
    else:
        compressor = zlib.compressobj(wbits = -15)
    result = []
    step = max(1, len(data) // pieces) if pieces else len(data) or 1
    for index in range(0, len(data), step):
        result.append(compressor.compress(data[index : index + step]))
        if pieces > 2:
            result.append(compressor.flush(zlib.Z_SYNC_FLUSH))
    result.append(compressor.flush())
    return b''.join(result)


body_strategy = st.one_of(
    st.just(b''), st.binary(max_size = 30), st.text(alphabet = 'ab\r\n0;', max_size = 40).map(str.encode),
    st.integers(1, 5000).map(lambda length: (b'0123456789abcdef\r\n' * (length // 18 + 1))[:length]),
    st.integers(100000, 300000).map(lambda length: bytes(length)),
)


def _c24_strategy():
    return st.fixed_dictionaries(dict(
        kind = st.sampled_from(['response', 'response', 'request']),
        version = st.sampled_from([(1, 1), (1, 1), (1, 0)]),
        status = st.sampled_from([200, 200, 200, 404, 204, 304, 102]),
        body = body_strategy,
        framing = st.sampled_from(['length', 'length', 'chunked', 'chunked', 'chunked', 'eof']),
        encoding = st.sampled_from([None, None, 'identity', 'gzip', 'GZIP', 'deflate', 'deflate-raw']),
        pieces = st.integers(0, 5),
        sizes = st.lists(st.one_of(st.integers(1, 40), st.integers(1, 20000)), min_size = 1, max_size = 5),
        extension = st.sampled_from(['', '', ';a', ';a=b', ' ;a="b c"', '  ']),
        upper = st.booleans(),
        zeros = st.integers(0, 2),
        trailers = st.lists(st.sampled_from(['X-Trailer: a', 'Expires: never', 'Digest: a:b']), max_size = 2),
        upgrade = st.sampled_from([False, False, False, True]),
        rest = st.sampled_from([b'', b'HTTP/1.1 200 OK\r\n\r\n', b'0\r\n\r\n', b'x']),
        cuts = CUTS,
        early = st.integers(0, 100),           # percent of the bytes there before the body gets read
        prefix = st.sampled_from([b'', b'h', b'head of it\r\n\r\n']),  # read before the body, maybe from the same chunk
        reading = st.sampled_from(['await', 'iterate', 'iterate-slow']),
        fault = st.one_of(
            st.none(), st.none(), st.none(),
            st.tuples(st.just('cut'), st.integers(0, 1 << 20)),
            st.tuples(st.just('damage'), st.sampled_from(
                ['no-end', 'sign', 'prefix', 'underscore', 'space', 'empty', 'word', 'negative', 'last-end', 'unicode'],
            )),
        ),
    ))


async def _c24_program(sim, case, ctx):
    loop = sim.loop
    kind = case['kind']
    body = case['body']
    framing = case['framing']
    encoding = case['encoding']
    if kind == 'request' and framing == 'eof':
        framing = 'length'
    fault = case['fault']
    encoded = compress(body, encoding if encoding is None else encoding.casefold(), case['pieces'])
    bodyless = kind == 'response' and (case['status'] in (204, 304) or 100 <= case['status'] < 200)
    headers = []
    if encoding is not None:
        headers.append(('Content-Encoding', encoding.removesuffix('-raw')))
    if case['upgrade']:
        # servers may offer upgrading in any response
        headers.append(('Upgrade', 'h2, h2c'))
        headers.append(('Connection', 'Upgrade'))
    wire = encoded
    if framing == 'length':
        headers.append(('Content-Length', str(len(encoded))))
    elif framing == 'chunked':
        headers.append(('Transfer-Encoding', 'chunked'))
        parts = []
        position = 0
        index = 0
        damage = fault[1] if (fault is not None and fault[0] == 'damage') else None
        damaged = False
        while position < len(encoded):
            size = case['sizes'][index % len(case['sizes'])]
            index += 1
            piece = encoded[position : position + size]
            position += size
            line = '0' * case['zeros'] + format(len(piece), 'X' if case['upper'] else 'x')
            end = b'\r\n'
            if damage is not None and not damaged and (index >= 2 or position >= len(encoded)):
                damaged = True
                if damage == 'no-end':
                    end = b'\n\r'
                elif damage == 'sign':
                    line = '+' + line
                elif damage == 'prefix':
                    line = '0x' + line
                elif damage == 'underscore':
                    line = '0_' + line
                elif damage == 'space':
                    line = line + ' 1'
                elif damage == 'empty':
                    line = ''
                elif damage == 'word':
                    line = 'xyz'
                elif damage == 'negative':
                    line = '-' + line
                elif damage == 'unicode':
                    line = '１'
                else:
                    damaged = False
            parts.append((line + case['extension']).encode() + b'\r\n' + piece + end)
        last = '0' + '0' * case['zeros'] + case['extension'] + '\r\n'
        for trailer in case['trailers']:
            last += trailer + '\r\n'
        if damage == 'last-end' and not case['trailers']:
            last += '\rx'
            damaged = True
        last += '\r\n'
        parts.append(last.encode())
        wire = b''.join(parts)
        if damage is not None and not damaged:
            fault = None
    elif not body:
        pass

    if fault is not None and fault[0] == 'damage' and framing != 'chunked':
        fault = None
    if bodyless:
        fault = None
        wire = b''
        if framing == 'eof':
            framing = 'none'
    if framing == 'length' and not encoded:
        fault = None
    has_body = not bodyless and not (framing == 'length' and not encoded)
    rest = case['rest']
    if framing == 'eof' and not bodyless:
        rest = b''
        if fault is not None:
            fault = None
    cut = False
    if fault is not None and fault[0] == 'cut':
        if not wire:
            fault = None
        else:
            wire = wire[: fault[1] % len(wire)]
            rest = b''
            cut = True

    if kind == 'response':
        message = RawResponseMessage(
            HttpVersion(*case['version']), case['status'], 'OK', IgnoreCaseMultiValueDictionary(headers),
        )
    else:
        message = RawRequestMessage(
            HttpVersion(*case['version']), 'POST', '/', IgnoreCaseMultiValueDictionary(headers),
        )
        if case['upgrade']:
            # A request asking for an upgrade has its meaning decided by who answers it.
            headers_now = IgnoreCaseMultiValueDictionary([item for item in headers if item[0] not in ('Upgrade', 'Connection')])
            message = RawRequestMessage(HttpVersion(*case['version']), 'POST', '/', headers_now)
    ctx.label(f'{framing} {encoding}')
    if has_body and body:
        ctx.nontrivial()
    if fault is not None:
        ctx.label(f'fault {fault[0]}')

    protocol = HttpReadProtocol(loop)
    transport = Sink()
    protocol.connection_made(transport)
    # what is read before the body, like the head of the message
    prefix = case['prefix']
    data = prefix + wire + rest
    early = len(prefix) + (len(data) - len(prefix)) * case['early'] // 100
    cuts = case['cuts']
    if cuts is None and len(data) > 3000:
        cuts = list(range(0, len(data), 1 + len(data) // 300))
    for chunk in chop(data[:early], cuts):
        protocol.data_received(chunk)
    if prefix:
        before = Task(loop, protocol.read_exactly(len(prefix)))
        await sim.settle()
        check_eq(bytes(before.get_result()), prefix, 'what is before the body')

    try:
        reader = protocol.get_payload_reader_task(message)
    except Exception as exception:
        raise Violation('framing can not be told', case, repr(exception))
    check_eq(reader is not None, has_body, 'whether there is a body', headers, case['status'])
    parts = []

    async def read(stream):
        if case['reading'] == 'await':
            parts.append(bytes(await stream))
            return
        async for chunk in stream:
            parts.append(bytes(chunk))
            if case['reading'] == 'iterate-slow':
                await sleep(0.01, loop)

    async def finish():
        # Till the reader keeps on getting chunks.
        await sim.settle()
        if case['reading'] == 'iterate-slow' and task is not None:
            count = -1
            while not task.is_done() and count != len(parts):
                count = len(parts)
                await sleep(0.02, loop)

    task = None
    if reader is not None:
        stream = protocol.set_payload_reader(reader)
        task = Task(loop, read(stream))
    sent = early
    for chunk in chop(data[early:], cuts):
        if case['reading'] == 'iterate-slow' and len(data) < 400:
            await sim.settle()
        protocol.data_received(chunk)
        sent += len(chunk)
    await finish()
    if cut or framing == 'eof':
        if task is not None and framing == 'eof':
            check(not task.is_done(), 'a body lasting till eof ended earlier')
        protocol.connection_lost(None)
        await finish()
    if task is None:
        check_eq(protocol.get_size(), len(data) - len(prefix), 'bytes were taken for a message without a body')
        return
    if not task.is_done():
        if fault is not None and fault[0] == 'damage':
            # It may wait for what the damaged framing tells.
            protocol.connection_lost(None)
            await finish()
        check(task.is_done(), 'reading the body never ends', headers, len(wire))
    exception = task.get_exception()
    if fault is not None:
        if exception is None:
            raise Violation(
                'a damaged or cut body was read without any error', fault, wire[:200], b''.join(parts)[:100], headers,
            )
        check(
            isinstance(exception, (PayloadError, ConnectionError)), 'unexpected error for a damaged body', repr(exception), fault,
        )
        got = b''.join(parts)
        if cut:
            check(body.startswith(got), 'what was given before the error is not the start of the body', got[:100])
        return
    check(exception is None, 'reading a body failed', repr(exception), headers, wire[:200])
    got = b''.join(parts)
    if got != body:
        raise Violation('the body differs', got[:200], body[:200], len(got), len(body), headers, wire[:200])
    check_eq(protocol.get_size(), len(rest), 'bytes left after the body')
    if rest:
        after = Task(loop, protocol.read_exactly(len(rest)))
        await sim.settle()
        check_eq(bytes(after.get_result()), rest, 'what follows the body')


def _c24_until_strategy():
    return _c24_strategy().map(lambda case: {
        **case, 'kind': 'response', 'framing': 'eof', 'status': 200, 'fault': None, 'prefix': case['prefix'] or b'head',
        'encoding': case['encoding'] or 'gzip',
    })


@C24.case('until', _c24_until_strategy, quick = 150, thorough = 5000)
def run_c24_until(case, ctx):
    """Encoded bodies lasting till the end of the connection, right after what was read before."""
    vsim.run(_c24_program, case, ctx)


@C24.case('body', _c24_strategy, quick = 900, thorough = 40000)
def run_c24(case, ctx):
    vsim.run(_c24_program, case, ctx)
