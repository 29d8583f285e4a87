"""C30, C31, C32: web sockets over a simulated network."""
import random
import base64, hashlib, socket, sys, threading, time
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import EventThread, Task, sleep
from scarletio.core import create_event_loop
from scarletio.web_common import ConnectionClosed
from scarletio.web_common.exceptions import InvalidHandshake, PayloadError
from scarletio.web_socket import WebSocketClient, WebSocketServer
from scarletio.web_socket.web_socket_common_protocol import WebSocketCommonProtocol
from vharness import Property, Violation, check, check_eq
from c_transport import Recorder, Errors

CONT, TEXT, BINARY, CLOSE, PING, PONG = 0, 1, 2, 8, 9, 10
GUID = '258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
SIZES = [0, 1, 2, 3, 5, 125, 126, 127, 1000, 65535, 65536, 70000]
BLOB = random.Random(7).randbytes(200000)
TEXTS = ''.join(random.Random(8).choices('abcdefgh é漢😀\x00', k = 100000))


# ---- reference implementation of the frames of RFC 6455

def encode_frame(operation_code, data, final = True, mask = None, reserved = 0, claim = None):
    length = len(data) if claim is None else claim
    result = bytearray()
    result.append((final << 7) | (reserved << 4) | operation_code)
    flag = 0 if mask is None else 0x80
    if length < 126:
        result.append(flag | length)
    elif length < 0x10000:
        result.append(flag | 126)
        result += length.to_bytes(2, 'big')
    else:
        result.append(flag | 127)
        result += length.to_bytes(8, 'big')
    if mask is not None:
        result += mask
        size = len(data)
        key = int.from_bytes((mask * (size // 4 + 1))[: size], 'big')
        data = (int.from_bytes(data, 'big') ^ key).to_bytes(size, 'big')
    result += data
    return bytes(result)


class FrameDecoder:
    """Strict decoder of frames"""
    def __init__(self, masked):
        self.masked = masked
        self.buffer = bytearray()
        self.frames = []

    def feed(self, data):
        self.buffer += data
        new = []
        while True:
            frame = self.next()
            if frame is None:
                break
            new.append(frame)
        self.frames.extend(new)
        return new

    def next(self):
        buffer = self.buffer
        if len(buffer) < 2:
            return None
        head_0, head_1 = buffer[:2]
        check_eq(bool(head_1 & 0x80), self.masked, 'frame is masked')
        check_eq(head_0 & 0x70, 0, 'reserved bits of a sent frame')
        position = 2
        length = head_1 & 0x7f
        if length > 125:
            size = 2 if length == 126 else 8
            position += size
            if len(buffer) < position:
                return None
            length = int.from_bytes(buffer[2 : position], 'big')
            check(length >= (126 if size == 2 else 0x10000), 'length of a sent frame is not minimal', length)
        mask = None
        if self.masked:
            mask = buffer[position : position + 4]
            position += 4
        if len(buffer) < position + length:
            return None
        data = bytes(buffer[position : position + length])
        if mask:
            key = int.from_bytes((bytes(mask) * (length // 4 + 1))[: length], 'big')
            data = (int.from_bytes(data, 'big') ^ key).to_bytes(length, 'big')
        del buffer[: position + length]
        final = bool(head_0 & 0x80)
        operation_code = head_0 & 0xf
        check(operation_code in (CONT, TEXT, BINARY, CLOSE, PING, PONG), 'unknown operation code sent', operation_code)
        if operation_code >= 8:
            check(final and length <= 125, 'bad control frame sent', operation_code, final, length)
        return final, operation_code, data


class Peer(Recorder):
    """Reference end of a web socket connection which does whatever it is told."""
    def __init__(self, raw_is_client, random_, pong_policy = 'pong', lazy = False):
        Recorder.__init__(self, None, 'raw')
        self.raw_is_client = raw_is_client
        self.random = random_
        self.decoder = FrameDecoder(not raw_is_client)
        self.head = None
        self.handshaken = vsim_future()
        self.close_sent = False
        self.eof_written = False
        self.pong_policy = pong_policy
        self.lazy = lazy
        self.pings = []
        self.opened_at = None
        self.error = None
        self.messages = []

    def connection_made(self, transport):
        Recorder.connection_made(self, transport)
        if self.raw_is_client:
            key = base64.b64encode(self.random.randbytes(16)).decode()
            self.key = key
            transport.write((
                'GET /chat HTTP/1.1\r\nHost: 10.0.0.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n'
                f'Sec-WebSocket-Key: {key}\r\nSec-WebSocket-Version: 13\r\n\r\n'
            ).encode())

    def data_received(self, data):
        if self.error is not None:
            return
        try:
            self.handle(data)
        except Violation as violation:
            self.error = violation
            self.transport.abort()

    def handle(self, data):
        if self.head is None:
            self.received += data
            index = self.received.find(b'\r\n\r\n')
            if index == -1:
                return
            self.head = bytes(self.received[: index + 4])
            data = bytes(self.received[index + 4 :])
            if not self.raw_is_client:
                for line in self.head.split(b'\r\n'):
                    name, _, value = line.partition(b':')
                    if name.lower() == b'sec-websocket-key':
                        accept = base64.b64encode(hashlib.sha1(value.strip() + GUID.encode()).digest())
                self.transport.write(
                    b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n'
                    b'Sec-WebSocket-Accept: ' + accept + b'\r\n\r\n'
                )
            else:
                check(self.head.startswith(b'HTTP/1.1 101 '), 'handshake refused', self.head)
            self.handshaken.set_result_if_pending(None)
        for final, operation_code, data in self.decoder.feed(data):
            if operation_code == PING:
                self.pings.append(data)
                policy = self.pong_policy
                if policy == 'pong':
                    self.send(PONG, data)
                elif policy == 'second':
                    # answering the latest answers the previous ones as well
                    if len(self.pings) % 2 == 0:
                        self.send(PONG, data)
            elif operation_code in (TEXT, BINARY):
                self.messages.append(data)
            elif operation_code == CLOSE:
                if not self.lazy:
                    if not self.close_sent:
                        self.close_sent = True
                        self.send(CLOSE, data)
                    if not self.raw_is_client:
                        self.transport.close()

    def send(self, operation_code, data, final = True, **keyword):
        if self.eof_written or self.transport.is_closing() or (self.close_sent and operation_code == PONG):
            return
        mask = self.random.randbytes(4) if self.raw_is_client else None
        self.transport.write(encode_frame(operation_code, data, final, **{'mask': mask, **keyword}))

    def connection_lost(self, exception):
        Recorder.connection_lost(self, exception)
        self.handshaken.set_result_if_pending(None)


LOOP = [None]


def vsim_future():
    from scarletio import Future
    return Future(LOOP[0])


# ---- C30

C30 = Property('C30', rule = (
    'A scarletio web socket (server or client side) against a reference peer of RFC 6455 over a simulated network: up to 10 operations of the peer (messages '
    'in 1 .. 4 fragments with control frames between them, pings, stray pongs) and of the web socket (sends, pings), '
    'then maybe a violation of the protocol (18 kinds), close or end of the connection by the peer. '
    'Non-trivial = a fragmented message, a violation, or both directions had messages.'
))

VIOLATIONS = {
    'mask': 1002, 'reserved': 1002, 'opcode': 1002, 'control_opcode': 1002, 'control_long': 1002, 'control_fragmented': 1002,
    'continuation_first': 1002, 'data_inside': 1002, 'utf8': 1007, 'utf8_cut': 1007, 'utf8_fragments': 1007, 'utf8_close': 1007,
    'close_code': 1002, 'close_code_reserved': 1002, 'close_1': 1002, 'too_big': 1009, 'too_big_fragments': 1009,
    'close_inside': 1002,
}

MESSAGE = st.tuples(
    st.just('peer_message'), st.booleans(), st.sampled_from(SIZES), st.lists(st.integers(0, 1000), max_size = 3),
    st.booleans(),
)


def _frames_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.sampled_from(['server', 'client']),
        st.lists(st.one_of(
            MESSAGE,
            MESSAGE,
            st.tuples(st.just('peer_ping'), st.sampled_from([0, 1, 4, 125])),
            st.tuples(st.just('peer_pong'), st.sampled_from([1, 4])),
            st.tuples(st.just('send'), st.sampled_from(['text', 'bytes', 'bytearray', 'memoryview']), st.sampled_from(SIZES)),
            st.tuples(st.just('ping'), st.sampled_from(['none', 'bytes', 'bytearray', 'memoryview', 'str', 'same', 'empty'])),
            st.tuples(st.just('sleep'), st.integers(0, 4)),
            st.tuples(st.just('send_task'), st.sampled_from([10, 1000, 70000, 200000])),
        ), max_size = 10),
        st.sampled_from(['pong', 'pong', 'second', 'never']),
        st.one_of(
            st.tuples(st.just('violation'), st.sampled_from(sorted(VIOLATIONS)), st.booleans()),
            st.tuples(st.just('peer_close'), st.sampled_from([None, 1000, 1001, 1011, 3000, 4999]), st.sampled_from(['', 'bye', 'é' * 50])),
            st.just(('eof',)), st.just(('reset',)),
            st.tuples(st.just('close'), st.sampled_from([1000, 1001, 3000, 4999]), st.sampled_from(['', 'bye'])),
        ),
        st.booleans(),
        st.sampled_from([65536, 1000, 1 << 26, 1 << 26, 200]),
        st.integers(0, 1000),
        st.integers(0, 10),
    )


async def _c30(sim, net, case, ctx):
    plan, real_kind, operations, pong_policy, terminal, lazy, max_size, seed, settle = case
    loop = sim.loop
    LOOP[0] = loop
    errors = Errors()
    random_ = random.Random(seed)
    raw_is_client = real_kind == 'server'
    state = {}
    ready = vsim_future()
    finished = vsim_future()
    peers = []

    def new_peer():
        peer = Peer(raw_is_client, random_, pong_policy, lazy)
        peers.append(peer)
        return peer

    async def handler(web_socket):
        ready.set_result_if_pending(web_socket)
        await finished

    if real_kind == 'server':
        server = await WebSocketServer(
            loop, '10.0.0.1', 80, handler,
            web_socket_keyword_parameters = {'max_size': max_size, 'close_timeout': 4.0},
        )
        await loop.create_connection_to(new_peer, '10.0.0.1', 80)
        peer = peers[0]
        real = await ready
        await peer.handshaken
    else:
        server = await loop.create_server_to(new_peer, '10.0.0.1', 80)
        await server.start()
        real = await WebSocketClient(loop, 'ws://10.0.0.1:80/chat', max_size = max_size, close_timeout = 4.0)
        peer = peers[0]

    received = []
    receive_end = []

    async def receiver():
        while True:
            try:
                received.append(await real.receive())
            except ConnectionClosed as exception:
                receive_end.append(exception)
                return

    tasks = [Task(loop, receiver())]
    ping_results = []
    expected = []
    peer_pings = []
    sent = []
    too_big = False
    fragmented = False
    offset = 0

    concurrent = []

    async def send(data):
        try:
            await real.send(data)
        except ConnectionClosed:
            pass

    async def ping(index, data):
        started = len(peer.pings)
        try:
            await real.ping(data)
        except ConnectionClosed:
            ping_results[index] = 'closed'
        except BaseException as exception:
            ping_results[index] = repr(exception)
            raise
        else:
            ping_results[index] = 'pong'

    def payload(text, size):
        nonlocal offset
        offset = (offset + 7) % 1000
        if text:
            value = TEXTS[offset : offset + size].encode()[: size]
            return value.decode('utf-8', 'ignore').encode()
        return BLOB[offset : offset + size]

    for operation in operations:
        kind = operation[0]
        if peer.transport is None or peer.lost or too_big:
            break
        if kind == 'peer_message':
            _, text, size, cuts, controls = operation
            data = payload(text, size)
            cuts = sorted({cut * len(data) // 1000 for cut in cuts})
            pieces = []
            last = 0
            for cut in cuts:
                pieces.append(data[last : cut])
                last = cut
            pieces.append(data[last:])
            if len(data) > max_size:
                too_big = True
            else:
                expected.append(data.decode() if text else data)
            if len(pieces) > 1:
                fragmented = True
            code = TEXT if text else BINARY
            total = 0
            for index, piece in enumerate(pieces):
                total += len(piece)
                if controls and index:
                    if total - len(piece) <= max_size:
                        data = b'p%d' % len(peer_pings)
                        if not too_big:
                            peer_pings.append(data)
                        peer.send(PING, data)
                    peer.send(PONG, b'stray')
                peer.send(code, piece, index == len(pieces) - 1)
                code = CONT
        elif kind == 'peer_ping':
            data = BLOB[len(peer_pings) : len(peer_pings) + operation[1]]
            if len(data) <= max_size:
                peer_pings.append(data)
                peer.send(PING, data)
        elif kind == 'peer_pong':
            peer.send(PONG, b'zzzz'[: operation[1]])
        elif kind == 'send':
            _, type_, size = operation
            data = payload(type_ == 'text', size)
            sent.append((type_ == 'text', data))
            if type_ == 'text':
                value = data.decode()
            elif type_ == 'bytes':
                value = data
            elif type_ == 'bytearray':
                value = bytearray(data)
            else:
                value = memoryview(data)
            await real.send(value)
            if type_ == 'bytearray':
                # it was sent, changing it has no effect
                value[:] = b'x' * len(value)
        elif kind == 'send_task':
            data = payload(False, operation[1])
            concurrent.append(data)
            tasks.append(Task(loop, send(data)))
        elif kind == 'ping':
            index = len(ping_results)
            data = {
                'none': None, 'bytes': b'b%d' % index, 'bytearray': bytearray(b'a%d' % index),
                'memoryview': memoryview(b'm%d' % index), 'str': f'é{index}', 'same': b'same', 'empty': b'',
            }[operation[1]]
            ping_results.append('waiting')
            tasks.append(Task(loop, ping(index, data)))
        elif kind == 'sleep':
            await sleep(operation[1] * 0.25)
    if concurrent:
        await sleep(settle / 8)
        if settle >= 8:
            await sleep(40.0)
    else:
        await sleep(20.0)
    if too_big:
        terminal = ('violation', 'operation', False)
    elif concurrent and settle < 8:
        pass
    else:
        check(peer.error is None, 'the web socket sent something wrong', peer.error)
        check_eq(peer.lost, [], 'connection lost without a reason')
        check(real.open, 'web socket is not open')
        check_eq(received, expected, 'received messages')
        for index, result in enumerate(ping_results):
            if pong_policy == 'pong' or (pong_policy == 'second' and index < len(ping_results) // 2 * 2):
                check_eq(result, 'pong', 'result of ping')
            else:
                check_eq(result, 'waiting', 'result of a ping without answer')
    reply = None
    code = None
    started = sim.now()
    frame_count = len(peer.decoder.frames)
    if terminal[0] == 'violation':
        kind = terminal[1]
        code = 1009 if kind == 'operation' else VIOLATIONS[kind]
        if max_size < 1000 and kind in ('control_long',):
            pass
        if kind == 'mask':
            peer.send(TEXT, b'hello', mask = None if raw_is_client else b'abcd')
        elif kind == 'reserved':
            peer.send(TEXT, b'hello', reserved = random_.choice([1, 2, 4, 7]))
        elif kind == 'opcode':
            peer.send(random_.choice([3, 4, 5, 6, 7]), b'hello')
        elif kind == 'control_opcode':
            peer.send(random_.choice([11, 12, 13, 14, 15]), b'hello')
        elif kind == 'control_long':
            peer.send(random_.choice([PING, PONG, CLOSE]), b'\x03\xe8' + b'a' * 124)
        elif kind == 'control_fragmented':
            peer.send(random_.choice([PING, PONG, CLOSE]), b'\x03\xe8', False)
        elif kind == 'continuation_first':
            peer.send(CONT, b'hello', random_.choice([True, False]))
        elif kind == 'data_inside':
            peer.send(TEXT, b'hello', False)
            peer.send(random_.choice([TEXT, BINARY]), b'hello')
        elif kind == 'utf8':
            peer.send(TEXT, b'hello\xff')
        elif kind == 'utf8_cut':
            peer.send(TEXT, 'é'.encode()[:1])
        elif kind == 'utf8_fragments':
            peer.send(TEXT, b'hell\xc3', False)
            peer.send(CONT, random_.choice([b'', b'o', b'\xc3']))
        elif kind == 'utf8_close':
            peer.close_sent = True
            peer.send(CLOSE, b'\x03\xe8\xff')
        elif kind == 'close_code':
            peer.close_sent = True
            peer.send(CLOSE, random_.choice([0, 999, 2000, 2999, 5000, 65535]).to_bytes(2, 'big'))
        elif kind == 'close_code_reserved':
            peer.close_sent = True
            peer.send(CLOSE, random_.choice([1004, 1005, 1006, 1015]).to_bytes(2, 'big'))
        elif kind == 'close_1':
            peer.close_sent = True
            peer.send(CLOSE, b'\x03')
        elif kind == 'too_big':
            peer.send(BINARY, b'', claim = max_size + 1)
        elif kind == 'too_big_fragments':
            if max_size > 70000:
                peer.send(BINARY, b'abc', False)
                if random_.random() < 0.5:
                    # only all of them together are too big
                    peer.send(CONT, b'def', False)
                    peer.send(CONT, b'', claim = max_size - 5)
                else:
                    peer.send(CONT, b'', claim = max_size - 2)
            else:
                peer.send(BINARY, b'a' * (max_size // 2), False)
                peer.send(CONT, b'b' * (max_size // 2), False)
                peer.send(CONT, b'c')
        elif kind == 'close_inside':
            peer.send(TEXT, b'hello', False)
            peer.close_sent = True
            peer.send(CLOSE, b'\x03\xe8')
            code = None
        if terminal[2] and kind != 'too_big':
            peer.send(TEXT, b'late')
    elif terminal[0] == 'peer_close':
        _, code, reason = terminal
        reply = b'' if code is None else code.to_bytes(2, 'big') + reason.encode()
        peer.close_sent = True
        peer.send(CLOSE, reply)
        if code is None:
            code = 1005
    elif terminal[0] == 'eof':
        peer.eof_written = True
        peer.transport.write_eof()
    elif terminal[0] == 'reset':
        peer.transport.abort()
    elif terminal[0] == 'close':
        _, code, reason = terminal
        reply = code.to_bytes(2, 'big') + reason.encode()
        await real.close(code, reason)
        check(sim.now() - started <= 13.0, 'closing takes too long', sim.now() - started)
        if not lazy and not concurrent:
            check(sim.now() - started <= 3.0, 'closing waits without a reason', sim.now() - started)
        check(real.closed, 'the web socket is not closed after close')
    await sleep(40.0)
    check(peer.error is None, 'the web socket sent something wrong', peer.error)
    if terminal[0] == 'reset' and concurrent and settle < 8:
        check_eq(received, expected[: len(received)], 'received messages')
    else:
        check_eq(received, expected, 'received messages')
    for message, other in zip(received, expected):
        check(type(message) in (str, bytes), 'type of a message', type(message))
        check_eq(type(message), type(other), 'type of a message')
    check(real.closed, 'the web socket did not get closed', terminal)
    check(not real.open, 'the web socket is open')
    check_eq(len(peer.lost), 1, 'connection of the peer closed')
    for task in tasks:
        check(task.is_done(), 'a task is waiting on a closed web socket', task)
        check(not task.is_cancelled(), 'a task got cancelled', task)
        check(task.get_exception() is None, 'unexpected exception', task.get_exception())
    check_eq(len(receive_end), 1, 'receive has to end')
    for result in ping_results:
        check(result in ('pong', 'closed'), 'result of ping', result)
    # what the web socket sent
    frames = peer.decoder.frames
    messages = [(frame[1] == TEXT, frame[2]) for frame in frames if frame[1] in (CONT, TEXT, BINARY)]
    check(all(frame[0] for frame in frames), 'messages sent in fragments')
    if concurrent:
        rest = [*sent, *((False, data) for data in concurrent)]
        for message in messages:
            check(message in rest, 'a message which was not sent')
            rest.remove(message)
        if terminal[0] != 'reset' and settle >= 8 and not too_big:
            check_eq(rest, [], 'messages which were not sent')
    elif terminal[0] == 'reset':
        check_eq(messages, sent[: len(messages)], 'messages sent')
    else:
        check_eq(messages, sent, 'messages sent')
    if terminal[0] != 'reset':
        pongs = [frame[2] for frame in frames if frame[1] == PONG]
        if concurrent and settle < 8:
            check_eq(pongs[: len(peer_pings)], peer_pings[: len(pongs)], 'answers of pings')
        elif terminal == ('violation', 'operation', False):
            check_eq(pongs[: len(peer_pings)], peer_pings, 'answers of pings')
        else:
            check_eq(pongs, peer_pings, 'answers of pings')
    closes = [index for index, frame in enumerate(frames) if frame[1] == CLOSE]
    check(len(closes) <= 1, 'more than one close frame sent')
    if closes:
        check_eq(closes[0], len(frames) - 1, 'something was sent after the close frame')
    if terminal[0] == 'violation' and code is not None:
        if code == 1002 and terminal[1] == 'close_inside':
            pass
        check(closes, 'no close frame after a violation')
        check_eq(int.from_bytes(frames[-1][2][:2], 'big'), code, 'close code sent', terminal)
        check_eq(receive_end[0].code, code, 'close code raised', terminal)
    elif terminal[0] == 'peer_close':
        check(closes, 'close frame not answered')
        check_eq(frames[-1][2], reply, 'answer of a close frame')
        check_eq(receive_end[0].code, code, 'close code raised')
        check_eq(real.close_code, code, 'close_code')
        if code != 1005:
            check_eq(real.close_reason, terminal[2], 'close_reason')
    elif terminal[0] == 'close' and concurrent and settle < 8 and not closes:
        # the messages could not be sent in time
        pass
    elif terminal[0] == 'close':
        check(closes, 'no close frame')
        check_eq(frames[-1][2], reply, 'close frame')
        if not lazy:
            check_eq(real.close_code, code, 'close_code')
    elif terminal[0] in ('eof', 'reset'):
        check_eq(receive_end[0].code, 1006, 'close code raised')
        check_eq(real.close_code, 1006, 'close_code')
    for function in (lambda: real.send('x'), lambda: real.ping(), lambda: real.pong()):
        try:
            await function()
        except ConnectionClosed:
            pass
        else:
            check(False, 'sending to a closed web socket')
    finished.set_result_if_pending(None)
    peer.transport.abort()
    await sleep(40.0)
    server.close()
    await sim.settle()
    errors.check((ConnectionError,) if terminal[0] == 'reset' else ())
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')
    if fragmented or terminal[0] == 'violation' or (sent and expected):
        ctx.nontrivial()


@C30.case('frames', _frames_strategy, quick = 800, thorough = 20000, shards = 4)
def c30_frames(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _c30, net, case, ctx)


def _violations_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 3),
        st.sampled_from(['server', 'client']),
        st.lists(st.one_of(
            MESSAGE,
            st.tuples(st.just('ping'), st.sampled_from(['none', 'bytes', 'same'])),
        ), max_size = 2),
        st.just('pong'),
        st.tuples(st.just('violation'), st.sampled_from(sorted(VIOLATIONS)), st.booleans()),
        st.just(False),
        st.sampled_from([65536, 1000, 1 << 26, 1 << 26, 200]),
        st.integers(0, 1000),
        st.just(0),
    )


@C30.case('violations', _violations_strategy, quick = 800, thorough = 20000, shards = 2)
def c30_violations(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _c30, net, case, ctx)


async def _c30_pressure(sim, net, case, ctx):
    plan, real_kind, sizes, reading_at, resume_after, window = case
    loop = sim.loop
    LOOP[0] = loop
    random_ = random.Random(reading_at)
    ready = vsim_future()
    finished = vsim_future()
    peers = []

    def new_peer():
        peer = Peer(real_kind == 'server', random_)
        peers.append(peer)
        return peer

    async def handler(web_socket):
        ready.set_result_if_pending(web_socket)
        await finished

    if real_kind == 'server':
        server = await WebSocketServer(loop, '10.0.0.1', 80, handler)
        await loop.create_connection_to(new_peer, '10.0.0.1', 80)
        real = await ready
        await peers[0].handshaken
    else:
        server = await loop.create_server_to(new_peer, '10.0.0.1', 80)
        await server.start()
        real = await WebSocketClient(loop, 'ws://10.0.0.1:80/chat')
    peer = peers[0]
    done = []

    async def sender():
        for size in sizes:
            await real.send(b'x' * size)
            done.append(size)

    await sleep(0.5, loop)
    peer.transport.pause_reading()
    task = Task(loop, sender())
    await sleep(float(resume_after), loop)
    # what is in the buffers: the reader's side, the network, the writer's below its limit.
    limit = window + (1 << 16) + (1 << 18)
    check(sum(done) <= limit, 'sends finish while the other end is not reading', (sum(done), limit))
    if sum(sizes) > limit + max(sizes):
        ctx.nontrivial()
        check(not task.is_done(), 'every send finished while the other end is not reading')
    peer.transport.resume_reading()
    await sleep(20000.0, loop)
    check(task.is_done(), 'send still waits after the other end read everything', (len(done), len(sizes)))
    task.get_result()
    check(done == sizes, 'sends finished', done)
    if peer.error is not None:
        raise peer.error
    check([len(data) for data in peer.messages] == sizes, 'messages arrived', ([len(data) for data in peer.messages], sizes))
    finished.set_result_if_pending(None)
    await real.close()
    server.close()
    await sleep(30.0, loop)


@C30.case('pressure', lambda: st.tuples(
    st.lists(st.integers(0, 14), min_size = 1, max_size = 6), st.sampled_from(['server', 'client']),
    st.lists(st.sampled_from([10, 3000, 60000, 120000, 250000]), min_size = 3, max_size = 14),
    st.integers(0, 100), st.integers(1, 15), st.sampled_from([65536, 1000]),
), quick = 60, thorough = 3000)
def c30_pressure(case, ctx):
    """Sending waits when the other end does not read, and goes on when it does."""
    net = vnet.Net(case[0], growing = True, capacity = case[-1])
    vnet.run(net, _c30_pressure, net, case, ctx)


def _threads_strategy():
    return st.tuples(st.lists(st.lists(st.integers(0, 90000), min_size = 2, max_size = 5), min_size = 2, max_size = 3), st.integers(4, 40), st.integers(1, 2))


def give_way(frame, event, detail):
    if event == 'call' and frame.f_code.co_filename.endswith(('codecs.py', 'protocol.py')):
        time.sleep(0.0)


class ThreadServer(WebSocketCommonProtocol):
    is_client = False


@C30.case('threads', _threads_strategy, quick = 4, thorough = 400, fixed = [([[1, 200, 500], [50, 700, 20]], 30, 2)])
def c30_threads(case, ctx):
    """Web sockets of different event loops do not affect each other."""
    ctx.nontrivial()
    starts, size, times = case
    loops = [create_event_loop(daemon = True) for _ in starts]
    interval = sys.getswitchinterval()
    barrier = threading.Barrier(len(starts))

    async def receive(loop, messages):
        protocol = ThreadServer(loop, 'localhost', 80)
        protocol.extensions = None
        left, right = socket.socketpair()
        try:
            left.setblocking(False)
            await loop.create_connection_with((lambda : protocol), left)
            data = b''.join(
                encode_frame(CONT if index else TEXT, piece, final = index + 1 == len(pieces), mask = b'abcd')
                for pieces in messages
                for index, piece in enumerate(pieces)
            )
            protocol.data_received(data)
            barrier.wait(10.0)
            # let the other threads run often
            sys.setprofile(give_way)
            return [await protocol.read_message() for _ in messages]
        finally:
            sys.setprofile(None)
            protocol.close_transport(force = True) if hasattr(protocol, 'close_transport') else None
            await sleep(0.0, loop)
            left.close()
            right.close()

    try:
        texts = [[TEXTS[start : start + size * 3] for start in sub_starts] * times for sub_starts in starts]
        tasks = []
        sys.setswitchinterval(1e-6)
        for loop, messages in zip(loops, texts):
            messages = [[message.encode()[index : index + 1] for index in range(len(message.encode()))] for message in messages]
            tasks.append(loop.create_task_thread_safe(receive(loop, messages)))
        for task, messages in zip(tasks, texts):
            try:
                got = task.sync_wrap().wait(20.0)
            except (UnicodeDecodeError, TimeoutError) as exception:
                got = exception
            check(got == messages, 'messages received')
    finally:
        sys.setswitchinterval(interval)
        for loop in loops:
            loop.stop()


# ---- C31

C31 = Property('C31', rule = (
    'A web socket server with 1 .. 3 scarletio clients and maybe connections without a handshake; scripts of up to 6 operations on both ends of each connection '
    '(send, ping, sleep, close with a code, close which gets cancelled, handler returning or raising), a reset at a generated instant and closing the server at a generated instant. '
    'Non-trivial = both ends of a connection started closing, or it was closed with messages or pings on their way.'
))


def _script(client = False):
    return st.lists(st.one_of(
        *([st.just(('wait',))] if client else []),
        st.tuples(st.just('send'), st.sampled_from([0, 1, 10, 1000, 70000])),
        st.tuples(st.just('send'), st.sampled_from([0, 1, 10])),
        st.tuples(st.just('send_task'), st.sampled_from([10, 70000, 300000])),
        st.tuples(st.just('sleep'), st.integers(0, 8)),
        st.just(('ping',)),
        st.tuples(st.just('close'), st.sampled_from([1000, 1001, 3000, 4000])),
        st.tuples(st.just('close_task'), st.sampled_from([1000, 3000])),
        st.tuples(st.just('close_cancelled'), st.integers(0, 4)),
        st.just(('return',)), st.just(('raise',)),
    ), max_size = 6)


def _closing_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.tuples(
            st.integers(0, 3), _script(True), _script(),
            st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 30), st.booleans())),
        ), min_size = 1, max_size = 3),
        st.one_of(st.none(), st.integers(0, 24)),
        st.sampled_from([0, 0, 0, 1, 2]),
    )


class End:
    def __init__(self, name):
        self.name = name
        self.web_socket = None
        self.attempted = []
        self.sent = []
        self.tasks = []
        self.received = []
        self.end = None
        self.ended_at = None
        self.close_calls = []
        self.disturbed = False
        self.pings = []
        self.receiver = None
        self.ping_tasks = []
        self.opened_at = None


class HandlerError(Exception):
    pass


async def _c31(sim, net, case, ctx):
    plan, clients, server_close_at, idle = case
    loop = sim.loop
    LOOP[0] = loop
    errors = Errors()
    unit = 0.25
    handler_ends = {index: End(f'server {index}') for index in range(len(clients))}
    client_ends = {index: End(f'client {index}') for index in range(len(clients))}
    durations = []

    async def receiver(end):
        while True:
            try:
                message = await end.web_socket.receive()
            except ConnectionClosed as exception:
                end.end = exception
                end.ended_at = sim.now()
                return
            end.received.append(message)

    async def ping(end):
        try:
            await end.web_socket.ping()
        except ConnectionClosed:
            end.pings.append('closed')
        else:
            end.pings.append('pong')

    async def close(end, code):
        started = sim.now()
        end.close_calls.append((started, code))
        await end.web_socket.close(code)
        durations.append(sim.now() - started)
        check(end.web_socket.closed, 'not closed after close', end.name)

    async def send(end, data):
        # messages are written in the order their sending started
        end.attempted.append(data)
        try:
            await end.web_socket.send(data)
        except ConnectionClosed:
            return
        end.sent.append(data)

    async def script(end, operations):
        web_socket = end.web_socket
        end.opened_at = sim.now()
        end.receiver = Task(loop, receiver(end))
        for index, operation in enumerate(operations):
            kind = operation[0]
            if kind == 'send':
                await send(end, b'%s %d:' % (end.name.encode(), index) + BLOB[: operation[1]])
            elif kind == 'send_task':
                end.tasks.append(Task(loop, send(
                    end, b'%s %d:' % (end.name.encode(), index) + BLOB[: operation[1]]
                )))
            elif kind == 'close_task':
                end.tasks.append(Task(loop, close(end, operation[1])))
            elif kind == 'sleep':
                await sleep(operation[1] * unit)
            elif kind == 'ping':
                end.ping_tasks.append(Task(loop, ping(end)))
                await sleep(0.0)
            elif kind == 'close':
                await close(end, operation[1])
            elif kind == 'close_cancelled':
                end.disturbed = True
                end.close_calls.append((sim.now(), 1000))
                task = Task(loop, web_socket.close(1000))
                await sleep(operation[1] * 0.03125)
                task.cancel()
                try:
                    await task
                except vsim.CancelledError:
                    pass
            elif kind == 'wait':
                # the handler returns or raises sooner or later
                await end.receiver
            elif kind == 'return':
                return False
            elif kind == 'raise':
                return True

    async def handler(web_socket):
        index = int(web_socket.request.path.rpartition('/')[2])
        end = handler_ends[index]
        end.web_socket = web_socket
        if (await script(end, clients[index][2])):
            end.disturbed = True
            raise HandlerError(index)
        # returning closes
        end.close_calls.append((sim.now(), 1000))

    server = await WebSocketServer(
        loop, '10.0.0.1', 80, handler, web_socket_keyword_parameters = {'close_timeout': 4.0},
    )
    refused = []

    async def client(index, start, operations):
        end = client_ends[index]
        await sleep(start * unit)
        try:
            end.web_socket = await WebSocketClient(loop, f'ws://10.0.0.1:80/{index}', close_timeout = 4.0)
        except (OSError, InvalidHandshake, ConnectionError, PayloadError) as exception:
            refused.append((index, sim.now(), exception))
            return
        await script(end, operations)
        await close(end, 1000)

    tasks = [Task(loop, client(index, start, operations)) for index, (start, operations, _, _) in enumerate(clients)]
    for index in range(idle):
        class Idle(Recorder):
            def data_received(self, data):
                pass
        async def open_idle(index = index):
            await sleep(index * unit)
            try:
                await loop.create_connection_to(lambda: Idle(None, 'idle'), '10.0.0.1', 80)
            except OSError:
                pass
        tasks.append(Task(loop, open_idle()))

    def reset(index, server_side):
        end = (handler_ends if server_side else client_ends)[index]
        if end.web_socket is not None and end.web_socket._transport is not None:
            for ends in (handler_ends, client_ends):
                ends[index].disturbed = True
            end.web_socket._transport.abort()

    for index, (_, _, _, reset_at) in enumerate(clients):
        if reset_at is not None:
            loop.call_after(reset_at[0] * unit + 0.1, reset, index, reset_at[1])
    server_closed_at = None
    if server_close_at is not None:
        await sleep(server_close_at * unit)
        server_closed_at = sim.now()
        await server.close()
    await sleep(120.0)
    for task in tasks:
        check(task.is_done(), 'a client is stuck', task)
        task.get_result()
    for index, when, exception in refused:
        check(server_closed_at is not None and when >= server_closed_at, 'connecting failed', exception)
    for index in range(len(clients)):
        a = client_ends[index]
        b = handler_ends[index]
        for end, other in ((a, b), (b, a)):
            if end.web_socket is None:
                continue
            check(end.web_socket.closed, 'a web socket is not closed', end.name)
            if end.receiver is None:
                continue
            check(end.receiver.is_done(), 'receive does not end', end.name)
            end.receiver.get_result()
            for task in end.tasks:
                check(task.is_done(), 'sending or closing is waiting on a closed web socket', end.name)
                task.get_result()
            for task in end.ping_tasks:
                check(task.is_done(), 'a ping is waiting on a closed web socket', end.name)
                check(not task.is_cancelled(), 'pinging got cancelled', end.name)
                task.get_result()
            position = 0
            for message in end.received:
                while position < len(other.attempted) and other.attempted[position] != message:
                    position += 1
                check(position < len(other.attempted), 'a message which was not sent, or out of order', end.name, message[:20])
                position += 1
            if not (a.disturbed or b.disturbed or server_closed_at is not None):
                for message in other.sent:
                    check(message in end.received, 'a message got lost', end.name, message[:20])
            if other.web_socket is not None and end.close_calls and other.close_calls:
                ctx.nontrivial()
            if other.sent and len(end.received) < len(other.sent) or 'closed' in end.pings:
                ctx.nontrivial()
        if a.web_socket is None or b.web_socket is None or a.disturbed or b.disturbed:
            continue
        # codes: the close code is what the other end sent in its close frame, which is either its own, or an echo
        calls = {end.name: end.close_calls[0] if end.close_calls else None for end in (a, b)}
        codes = {call[1] for call in calls.values() if call is not None}
        if server_closed_at is not None:
            codes.add(1001)
        for end in (a, b):
            check(end.web_socket.close_code in codes, 'close code', end.name, end.web_socket.close_code, codes)
    for duration in durations:
        check(duration <= 13.0, 'closing takes too long', duration)
    # messages already queued are sent before closing, which takes a while
    queued = any(
        operation[0] == 'send_task' and operation[1] > 1000
        for client_ in clients for script_ in client_[1 : 3] for operation in script_
    )
    if not queued and not any(end.disturbed for ends in (handler_ends, client_ends) for end in ends.values()):
        for duration in durations:
            check(duration <= 3.0, 'closing waits without a reason', duration)
    if server_closed_at is None:
        server.close()
    await sim.settle()
    check_eq(len(server.web_sockets), 0, 'web sockets registered in the closed server')
    errors.check((ConnectionError, ConnectionClosed, HandlerError, PayloadError))
    sockets = net.open_sockets()
    if idle:
        pass
    check_eq(sockets, [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C31.case('closing', _closing_strategy, quick = 800, thorough = 20000, shards = 4)
def c31_closing(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _c31, net, case, ctx)


async def _c31_silent(sim, net, case, ctx):
    plan, real_kind, sizes, wait, terminals, window = case
    loop = sim.loop
    LOOP[0] = loop
    errors = Errors()
    random_ = random.Random(wait)
    ready = vsim_future()
    finished = vsim_future()
    peers = []

    def new_peer():
        peer = Peer(real_kind == 'server', random_, lazy = True)
        peers.append(peer)
        return peer

    async def handler(web_socket):
        ready.set_result_if_pending(web_socket)
        await finished

    if real_kind == 'server':
        server = await WebSocketServer(
            loop, '10.0.0.1', 80, handler, web_socket_keyword_parameters = {'close_timeout': 4.0},
        )
        await loop.create_connection_to(new_peer, '10.0.0.1', 80)
        real = await ready
        await peers[0].handshaken
    else:
        server = await loop.create_server_to(new_peer, '10.0.0.1', 80)
        await server.start()
        real = await WebSocketClient(loop, 'ws://10.0.0.1:80/chat', close_timeout = 4.0)
    peer = peers[0]
    receive_end = []

    async def receiver():
        while True:
            try:
                await real.receive()
            except ConnectionClosed as exception:
                receive_end.append(exception)
                return

    async def sender(size):
        try:
            await real.send(BLOB[:1] * size)
        except ConnectionClosed:
            pass

    async def close(code):
        await real.close(code)
        check(real.closed, 'not closed after close')

    peer.transport.pause_reading()
    tasks = [Task(loop, receiver())]
    for size in sizes:
        tasks.append(Task(loop, sender(size)))
    await sleep(wait / 4)
    blocked = not all(task.is_done() for task in tasks[1:])
    cancelled = []
    server_closed = False
    if terminals[0][0] == 'peer_close':
        # answering waits till it can be written
        terminals = [*terminals, ('close', 0)]
    for kind, after in terminals:
        if kind == 'close':
            tasks.append(Task(loop, close(1000)))
        elif kind == 'close_cancelled':
            task = Task(loop, close(1001))
            cancelled.append(task)
            loop.call_after(after / 8 + 0.05, task.cancel)
        elif kind == 'server_close' and real_kind == 'server':
            server_closed = True
            server.close()
        elif kind == 'return' and real_kind == 'server':
            finished.set_result_if_pending(None)
        elif kind == 'violation':
            peer.send(3, b'hello')
        elif kind == 'peer_close':
            peer.send(CLOSE, b'\x03\xe8')
        elif kind == 'eof':
            peer.eof_written = True
            peer.transport.write_eof()
        else:
            tasks.append(Task(loop, close(3000)))
        await sleep(after / 4)
    # closing waits for: its own frame, the one of the peer, the end of the connection twice, then gives up
    await sleep(4 * 4.0 + 2.0)
    if blocked:
        ctx.nontrivial()
    ctx.label('blocked', blocked)
    check(real.closed, 'a web socket whose peer is silent does not get closed', terminals)
    for task in tasks:
        check(task.is_done(), 'a task is waiting on a closed web socket', task)
        task.get_result()
    for task in cancelled:
        check(task.is_done(), 'a cancelled closing goes on', task)
    check_eq(len(receive_end), 1, 'receive has to end')
    finished.set_result_if_pending(None)
    if not server_closed:
        server.close()
    await sleep(5.0)
    check(len(net.open_sockets()) <= 1, 'socket of the closed web socket is left open', net.open_sockets())
    peer.transport.abort()
    await sleep(5.0)
    await sim.settle()
    errors.check((ConnectionError, ConnectionClosed))
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C31.case('silent', lambda: st.tuples(
    st.lists(st.integers(0, 14), min_size = 1, max_size = 6), st.sampled_from(['server', 'client']),
    st.lists(st.sampled_from([10, 3000, 60000, 250000, 1000000]), max_size = 5),
    st.integers(0, 8),
    st.lists(st.tuples(
        st.sampled_from(['close', 'close_cancelled', 'server_close', 'return', 'violation', 'peer_close', 'eof']), st.integers(0, 8),
    ), min_size = 1, max_size = 2),
    st.sampled_from([65536, 1000]),
), quick = 300, thorough = 10000, shards = 2)
def c31_silent(case, ctx):
    """The other end stops reading and answering: the web socket is still closed in time."""
    net = vnet.Net(case[0], growing = True, capacity = case[-1])
    vnet.run(net, _c31_silent, net, case, ctx)
