"""C27: stream transports over a simulated network; C27 pipes: the unix pipe transports."""
import errno, os, random
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import EventThread, Future, Task, skip_ready_cycle, sleep
from scarletio.core.protocols_and_transports.abstract import AbstractProtocolBase
from vharness import Property, Violation, check, check_eq

BLOBS = [random.Random(seed).randbytes(1 << 21) for seed in (1, 2)]

C27 = Property('C27', rule = (
    'Case = network plan (how many bytes each call moves, latencies), buffer size of the network, and up to 14 operations on the two ends '
    'of a connection (write / writelines of 0 .. 300000 bytes, write_eof, close, abort, pause, resume, write buffer limits, '
    'breaking the connection) with none / a cycle / time / everything settled between them; operations may be done '
    'already in connection_made. Non-trivial = data had to be buffered by the transport, or something got closed with unsent data.'
))


def guarded(function):
    def wrapper(self, *args):
        try:
            return function(self, *args)
        except Violation:
            # a level triggered selector would call us again and again
            if self.transport is not None:
                self.transport.abort()
            raise
    return wrapper


class Recorder(AbstractProtocolBase):
    def __init__(self, log, name, keep_open = False, at_start = ()):
        self.log = log
        self.name = name
        self.transport = None
        self.received = bytearray()
        self.made = 0
        self.lost = []
        self.eof = 0
        self.paused_reading = False
        self.writing_paused = False
        self.keep_open = keep_open
        self.at_start = at_start
        self.apply = None

    def get_transport(self):
        return self.transport

    def connection_made(self, transport):
        check(not self.made, 'connection_made called twice')
        self.made += 1
        self.transport = transport
        for operation in self.at_start:
            self.apply(operation)

    @guarded
    def data_received(self, data):
        check(self.made, 'data before connection_made')
        check(not self.lost, 'data after connection_lost')
        check(not self.eof, 'data after eof')
        check(len(data) > 0, 'empty data')
        check(not self.paused_reading, 'data received while reading is paused')
        self.received += data

    @guarded
    def eof_received(self):
        check(self.made and not self.lost, 'eof outside of connection')
        check(not self.eof, 'eof twice')
        self.eof += 1
        return self.keep_open

    @guarded
    def connection_lost(self, exception):
        check(self.made, 'lost before made')
        self.lost.append(exception)
        check(len(self.lost) == 1, 'connection_lost called twice', self.lost)

    @guarded
    def pause_writing(self):
        check(not self.writing_paused, 'pause_writing twice')
        check(not self.lost, 'pause_writing after connection_lost')
        low, high = self.transport.get_write_buffer_limits()
        check(self.transport.get_write_buffer_size() > high, 'pause_writing below the high water', low, high)
        self.writing_paused = True

    @guarded
    def resume_writing(self):
        check(self.writing_paused, 'resume_writing without pause')
        low, high = self.transport.get_write_buffer_limits()
        check(self.transport.get_write_buffer_size() <= low, 'resume_writing above the low water', low, high)
        self.writing_paused = False


class Errors:
    """Violations raised inside of callbacks are swallowed by the loop, so they are collected."""
    def __init__(self):
        vsim.RECORDED.clear()

    def check(self, allowed = ()):
        for exception, where in vsim.RECORDED:
            if isinstance(exception, Violation):
                raise exception
        for exception, where in vsim.RECORDED:
            if isinstance(exception, allowed):
                continue
            raise Violation(f'unexpected exception in a callback: {exception!r} {where}') from exception


class Side:
    def __init__(self, index, protocol):
        self.index = index
        self.protocol = protocol
        self.offset = 0
        self.must = 0  # bytes which were accepted before closing
        self.closing = False
        self.at_eof = False
        self.aborted = False
        self.buffered = False
        self.abort_exception = None

    def take(self, size):
        size = min(size, self.most)
        data = BLOBS[self.index][self.offset : self.offset + size]
        self.offset += size
        if not self.closing and not self.protocol.transport.is_closing():
            self.must = self.offset
        return data


OPERATIONS = st.one_of(
    st.tuples(st.just('write'), st.sampled_from([0, 1, 10, 1000, 5000, 70000, 300000]), st.integers(0, 2)),
    st.tuples(st.just('writelines'), st.lists(st.sampled_from([0, 1, 100, 3000]), max_size = 4)),
    st.just(('eof',)), st.just(('close',)), st.just(('abort',)), st.just(('abort_with',)),
    st.just(('pause',)), st.just(('resume',)), st.just(('resume',)),
    st.tuples(st.just('limits'), st.sampled_from([None, 0, 100, 20000]), st.sampled_from([None, 0, 10, 100])),
)


def _strategy():
    step = st.tuples(st.integers(0, 1), OPERATIONS, st.integers(0, 3))
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 8),
        st.sampled_from([1, 10, 1000, 4096, 65536]),
        st.tuples(st.booleans(), st.booleans()),
        st.lists(st.tuples(st.integers(0, 1), OPERATIONS), max_size = 2),
        st.lists(step, max_size = 14),
        st.one_of(st.none(), st.none(), st.integers(0, 14)),
    )


async def _c27_run(sim, net, case, ctx):
    plan, capacity, keep_open, at_start, steps, break_at = case
    loop = sim.loop
    errors = Errors()
    sockets = net.pair()
    sides = []
    broken = False

    def apply(side, operation):
        transport = side.protocol.transport
        kind = operation[0]
        protocol = side.protocol
        if kind == 'write' or kind == 'writelines':
            if side.at_eof:
                if kind == 'write' and operation[1]:
                    try:
                        transport.write(b'x')
                    except RuntimeError:
                        pass
                    else:
                        raise Violation('write after write_eof is accepted')
                return
            if kind == 'write':
                data = side.take(operation[1])
                if operation[2] == 1:
                    data = bytearray(data)
                elif operation[2] == 2:
                    data = memoryview(data)
                transport.write(data)
                if operation[2] == 1:
                    # the caller may reuse its buffer
                    data[:] = bytes(len(data))
            else:
                transport.writelines([side.take(size) for size in operation[1]])
            if transport.get_write_buffer_size():
                side.buffered = True
            if not protocol.lost and not transport.is_closing():
                low, high = transport.get_write_buffer_limits()
                check_eq(
                    protocol.writing_paused or transport.get_write_buffer_size() <= high, True,
                    'the protocol is not told to pause writing above the high water'
                )
        elif kind == 'eof':
            was_closing = transport.is_closing()
            transport.write_eof()
            if not was_closing and not transport.is_closing():
                side.at_eof = True
        elif kind == 'close':
            transport.close()
            side.closing = True
            check(transport.is_closing(), 'is_closing after close')
        elif kind == 'abort' or kind == 'abort_with':
            if not protocol.lost:
                side.aborted = True
            exception = None if kind == 'abort' else ConnectionAbortedError('test')
            transport.abort(exception)
            side.closing = True
            check(transport.is_closing(), 'is_closing after abort')
        elif kind == 'pause':
            if transport.pause_reading():
                protocol.paused_reading = True
        elif kind == 'resume':
            if transport.resume_reading():
                protocol.paused_reading = False
        elif kind == 'limits':
            high, low = operation[1:]
            effective_high = high if high is not None else (65536 if low is None else low * 4)
            effective_low = low if low is not None else (16384 if high is None else high // 4)
            try:
                transport.set_write_buffer_limits(high = high, low = low)
            except ValueError:
                check(effective_low > effective_high, 'valid limits are refused', high, low)
            else:
                check(effective_low <= effective_high, 'invalid limits are accepted', high, low)
                check_eq(transport.get_write_buffer_limits(), (effective_low, effective_high), 'limits')

    for index in range(2):
        protocol = Recorder(None, index, keep_open[index], [operation for side, operation in at_start if side == index])
        side = Side(index, protocol)
        side.most = 400 * min(capacity, min((net.limit_of(value) for value in plan), default = 1))
        protocol.apply = lambda operation, side = side: apply(side, operation)
        sides.append(side)

    await loop.create_connection_with(lambda: sides[0].protocol, sockets[0])
    waiter = Task(loop, loop.connect_accepted_socket(lambda: sides[1].protocol, sockets[1]))
    await waiter
    for side in sides:
        check_eq(side.protocol.made, 1, 'connection_made calls')
        if not side.protocol.lost:
            transport = side.protocol.transport
            check_eq(transport.get_extra_info('peer_name'), sockets[side.index].peer_address, 'peer name')
            check_eq(transport.get_extra_info('socket_name'), sockets[side.index].address, 'socket name')

    for step_index, (index, operation, gap) in enumerate(steps):
        if break_at == step_index:
            sockets[0].inject_reset()
            broken = True
        if gap == 1:
            await skip_ready_cycle()
        elif gap == 2:
            await sleep(0.1)
        elif gap == 3:
            await sim.settle()
            # with nothing on the way: whatever can be delivered is delivered
            for side in sides:
                other = sides[1 - side.index]
                if not (
                    broken or side.aborted or other.closing or other.protocol.lost or other.protocol.paused_reading
                    or (side.protocol.eof and not side.protocol.keep_open)
                    or (other.protocol.eof and not other.protocol.keep_open)
                ):
                    check(
                        len(other.protocol.received) >= side.must, 'a stream stalled',
                        side.index, len(other.protocol.received), side.must
                    )
                    check(not side.protocol.writing_paused, 'writing stays paused with an empty buffer', side.index)
                    if side.at_eof:
                        check_eq(other.protocol.eof, 1, 'eof is not delivered')
            errors.check()
        apply(sides[index], operation)

    # the end: everyone reads, then everyone closes
    for side in sides:
        if side.protocol.transport.resume_reading():
            side.protocol.paused_reading = False
    await sim.settle()
    errors.check()
    for side in sides:
        other = sides[1 - side.index]
        blob = BLOBS[side.index]
        received = bytes(other.protocol.received)
        check(len(received) <= side.offset, 'more bytes arrived than were sent')
        check_eq(received, blob[:len(received)], 'received bytes are not what was sent')
        exceptions = [exception for exception in side.protocol.lost + other.protocol.lost if exception is not None]
        if not (
            broken or side.aborted or other.aborted or other.closing
            or (other.protocol.eof and not other.protocol.keep_open)
            or exceptions
        ):
            check(len(received) >= side.must, 'bytes written before closing are lost', len(received), side.must, side.offset)
            if side.closing or side.at_eof:
                check_eq(other.protocol.eof, 1, 'eof')
        if side.closing and not broken and side.protocol.lost and not side.aborted and not side.buffered:
            if other.closing or other.aborted or other.protocol.lost:
                check(isinstance(side.protocol.lost[0], (type(None), ConnectionError)), 'connection_lost exception', side.protocol.lost)
            else:
                check_eq(side.protocol.lost, [None], 'graceful close')
        if side.closing and not side.buffered:
            check(side.protocol.lost, 'closed transport without unsent data is not lost')

    for side in sides:
        if side.protocol.transport is not None:
            side.protocol.transport.close()
            side.protocol.transport.close()
    await sim.settle()
    for side in sides:
        if not side.protocol.lost:
            # legal only if the other end does not read, what was left in the buffer
            check(side.protocol.transport.get_write_buffer_size() > 0, 'closed with empty buffer, but not lost')
            side.protocol.transport.abort()
    await sim.settle()
    errors.check()
    for side in sides:
        check_eq(len(side.protocol.lost), 1, 'connection_lost calls', side.index)
        check(sockets[side.index].closed, 'the socket is not closed')
        # using a dead transport is harmless
        transport = side.protocol.transport
        if not side.at_eof:
            transport.write(b'x')
        transport.write_eof()
        transport.close()
        transport.abort()
        transport.pause_reading()
        transport.resume_reading()
        check_eq(transport.is_closing(), True, 'is_closing')
        repr(transport)
    await sim.settle()
    errors.check()
    for side in sides:
        check_eq(len(side.protocol.lost), 1, 'connection_lost calls', side.index)
    check_eq(net.registered, {}, 'descriptors left in the selector')
    check_eq(getattr(net, 'leaked_registrations', 0), 0, 'sockets closed while registered in the selector')
    if any(side.buffered for side in sides):
        ctx.nontrivial()


@C27.case('sockets', _strategy, quick = 2500, thorough = 60000, shards = 4)
def c27_sockets(case, ctx):
    net = vnet.Net(case[0], case[1])
    vnet.run(net, _c27_run, net, case, ctx)


PIPE_OPERATIONS = st.one_of(
    st.tuples(st.just('write'), st.sampled_from([0, 1, 10, 1000, 5000, 70000, 300000]), st.integers(0, 2)),
    st.tuples(st.just('writelines'), st.lists(st.sampled_from([0, 1, 100, 3000]), max_size = 4)),
    st.just(('eof',)), st.just(('close',)), st.just(('abort',)),
    st.just(('pause',)), st.just(('pause',)), st.just(('resume',)), st.just(('resume',)), st.just(('close_read',)),
    st.tuples(st.just('limits'), st.sampled_from([None, 0, 100, 20000]), st.sampled_from([None, 0, 10, 100])),
)


def _pipe_strategy():
    return st.tuples(
        st.lists(st.tuples(PIPE_OPERATIONS, st.integers(0, 3)), max_size = 12),
        st.lists(PIPE_OPERATIONS, max_size = 2),
        st.lists(PIPE_OPERATIONS, max_size = 2),
    )


PIPE_READER_OPERATIONS = ('pause', 'resume', 'close_read')


async def _c27_pipes(sim, case, ctx):
    import fcntl
    steps, reader_start, writer_start = case
    loop = sim.loop
    errors = Errors()
    read_end, write_end = os.pipe()
    fcntl.fcntl(write_end, 1031, 4096)
    # what the protocols do already in their `connection_made`
    reader = Recorder(None, 'reader', at_start = [operation for operation in reader_start if operation[0] in PIPE_READER_OPERATIONS])
    writer = Recorder(None, 'writer', at_start = [operation for operation in writer_start if operation[0] not in PIPE_READER_OPERATIONS])
    if reader.at_start or writer.at_start:
        ctx.nontrivial()
    read_pipe = os.fdopen(read_end, 'rb', 0)
    write_pipe = os.fdopen(write_end, 'wb', 0)
    side = Side(0, writer)
    side.most = 300000
    blob = BLOBS[0]
    reader_closed = False

    def apply(operation):
        nonlocal reader_closed
        read_transport = reader.transport
        write_transport = writer.transport
        kind = operation[0]
        if kind == 'write':
            if write_transport.is_closing() and not side.closing:
                side.closing = True
            data = side.take(operation[1])
            if operation[2]:
                data = (bytearray if operation[2] == 1 else memoryview)(data)
            write_transport.write(data)
            if operation[2] == 1:
                data[:] = bytes(len(data))
            if write_transport.get_write_buffer_size():
                side.buffered = True
        elif kind == 'writelines':
            if write_transport.is_closing() and not side.closing:
                side.closing = True
            write_transport.writelines([side.take(size) for size in operation[1]])
        elif kind in ('eof', 'close'):
            (write_transport.write_eof if kind == 'eof' else write_transport.close)()
            side.closing = True
            check_eq(write_transport.is_closing(), True, 'is_closing')
        elif kind == 'abort':
            if not writer.lost:
                side.aborted = True
            side.closing = True
            write_transport.abort()
            check_eq(write_transport.is_closing(), True, 'is_closing')
        elif kind == 'pause':
            if read_transport.pause_reading():
                reader.paused_reading = True
        elif kind == 'resume':
            if read_transport.resume_reading():
                reader.paused_reading = False
        elif kind == 'close_read':
            read_transport.close()
            reader_closed = True
            check_eq(read_transport.is_closing(), True, 'is_closing')
        elif kind == 'limits':
            high, low = operation[1:]
            effective_high = high if high is not None else (65536 if low is None else low * 4)
            effective_low = low if low is not None else (16384 if high is None else high // 4)
            try:
                # positionally the high one is the first, as of every transport
                write_transport.set_write_buffer_limits(high, low)
            except ValueError:
                check(effective_low > effective_high, 'valid limits are refused', high, low)
            else:
                check(effective_low <= effective_high, 'invalid limits are accepted', high, low)
                check_eq(write_transport.get_write_buffer_limits(), (effective_low, effective_high), 'limits')

    reader.apply = writer.apply = apply
    read_transport = await loop.connect_read_pipe(reader, read_pipe)
    write_transport = await loop.connect_write_pipe(writer, write_pipe)
    for operation, gap in steps:
        if gap == 1:
            await skip_ready_cycle()
        elif gap == 2:
            await sleep(0.1)
        elif gap == 3:
            await sim.settle()
            if not (reader_closed or side.aborted or reader.paused_reading):
                check(len(reader.received) >= side.must, 'a pipe stalled', len(reader.received), side.must)
                check(not writer.writing_paused, 'writing stays paused')
                if side.closing:
                    check_eq(reader.eof, 1, 'eof')
            errors.check()
        apply(operation)
    if read_transport.resume_reading():
        reader.paused_reading = False
    await sim.settle()
    errors.check()
    received = bytes(reader.received)
    check_eq(received, blob[:len(received)], 'received bytes are not what was sent')
    check(len(received) <= side.offset, 'more bytes than sent')
    if not (reader_closed or side.aborted):
        check(len(received) >= side.must, 'bytes written before closing are lost')
        if side.closing:
            check_eq(reader.eof, 1, 'eof')
            check_eq(reader.lost, [None], 'reader lost')
            check_eq(writer.lost, [None], 'writer lost')
    if reader_closed:
        check_eq(len(writer.lost), 1, 'the writer does not notice that the pipe was closed')
    write_transport.close()
    write_transport.close()
    read_transport.close()
    await sim.settle()
    errors.check()
    check_eq((len(reader.lost), len(writer.lost)), (1, 1), 'connection_lost calls')
    check(read_pipe.closed and write_pipe.closed, 'pipes are left open')
    for transport in (write_transport, read_transport):
        transport.write(b'x')
        transport.write_eof()
        transport.close()
        transport.abort()
        transport.pause_reading()
        transport.resume_reading()
    await sim.settle()
    errors.check()
    check_eq((len(reader.lost), len(writer.lost)), (1, 1), 'connection_lost calls')
    registered = [key for key in loop.selector.get_map().values() if key.fd in (read_end, write_end)]
    check_eq(registered, [], 'descriptors left in the selector')
    if side.buffered:
        ctx.nontrivial()


@C27.case('pipes', _pipe_strategy, quick = 800, thorough = 20000, shards = 2)
def c27_pipes(case, ctx):
    vsim.run(_c27_pipes, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# C28: tls
# ---------------------------------------------------------------------------------------------------------------------

C28 = Property('C28', rule = (
    'Case = network plan, and up to 12 operations on the two ends of a TLS connection (write / writelines of 0 .. 70000 bytes, close, abort, '
    'pause, resume, reset of the connection) with none / a cycle / time / everything settled between them, and what happens at the handshake '
    '(nothing, certificate for an other host, untrusted certificate, garbage instead of a server, connection reset, either end cancelled at a generated instant). '
    'Everything put on the wire is recorded. Non-trivial = data went both ways, something got closed with data in flight, or the handshake was disturbed.'
))

TLS_DIRECTORY = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'tls')
_CONTEXTS = {}


def tls_context(kind):
    import ssl
    context = _CONTEXTS.get(kind)
    if context is None:
        if kind == 'server':
            context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            context.load_cert_chain(os.path.join(TLS_DIRECTORY, 'cert.pem'), os.path.join(TLS_DIRECTORY, 'key.pem'))
        else:
            context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            if kind == 'client':
                context.load_verify_locations(os.path.join(TLS_DIRECTORY, 'cert.pem'))
            elif kind == 'client12':
                context.load_verify_locations(os.path.join(TLS_DIRECTORY, 'cert.pem'))
                context.maximum_version = ssl.TLSVersion.TLSv1_2
        _CONTEXTS[kind] = context
    return context


TLS_OPERATIONS = st.one_of(
    st.tuples(st.just('write'), st.sampled_from([0, 1, 30, 1000, 5000, 40000, 70000]), st.integers(0, 2)),
    st.tuples(st.just('write'), st.sampled_from([20, 1000, 20000]), st.just(0)),
    st.tuples(st.just('writelines'), st.lists(st.sampled_from([0, 1, 100, 3000]), max_size = 4)),
    st.just(('close',)), st.just(('close',)), st.just(('abort',)), st.just(('abort_with',)),
    st.just(('pause',)), st.just(('resume',)), st.just(('reset',)),
)

TLS_MODES = st.one_of(
    st.just(('ok', 0)), st.just(('ok', 0)), st.just(('ok', 0)), st.just(('tls12', 0)),
    st.tuples(st.sampled_from(['host', 'untrusted', 'garbage', 'reset', 'cancel_client', 'cancel_server']), st.integers(0, 12)),
)


def _tls_strategy():
    step = st.tuples(st.integers(0, 1), TLS_OPERATIONS, st.integers(0, 3))
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 8),
        st.sampled_from([64, 1000, 4096, 65536]),
        TLS_MODES,
        st.one_of(
            st.lists(step, max_size = 12),
            # the other end closes while there is a lot unsent, what the writer does not care about
            st.builds(
                lambda index, gaps, size, tail: [
                    (index, ('write', 40000, 0), gaps[0]), (1 - index, ('close',), gaps[1]), (index, ('write', size, 0), gaps[2]),
                    (index, ('write', size, 0), gaps[3]), *tail,
                ],
                st.integers(0, 1), st.lists(st.sampled_from([0, 1, 2, 2]), min_size = 4, max_size = 4),
                st.sampled_from([20, 1000]), st.lists(step, max_size = 4),
            ),
        ),
    )


class TLSRecorder(Recorder):
    @guarded
    def data_received(self, data):
        check(self.made, 'data before connection_made')
        check(not self.lost, 'data after connection_lost')
        check(not self.eof, 'data after eof')
        check(len(data) > 0, 'empty data')
        self.received += data


async def _c28_run(sim, net, case, ctx):
    import ssl
    plan, capacity, (mode, when), steps = case
    loop = sim.loop
    errors = Errors()
    sockets = net.pair()
    wire = net.record(sockets)
    sides = [Side(index, TLSRecorder(None, index)) for index in range(2)]
    for side in sides:
        side.most = 400 * min(capacity, min((net.limit_of(value) for value in plan), default = 1))
        side.reset = False

    client_task = Task(loop, loop.create_connection_with(
        lambda: sides[0].protocol, sockets[0],
        ssl_context = tls_context({'untrusted': 'untrusted', 'tls12': 'client12'}.get(mode, 'client')),
        server_host_name = 'wrong.example' if mode == 'host' else 'test.example',
    ))
    if mode == 'garbage':
        data = b'HTTP/1.1 400 Bad Request\r\n\r\n'
        while data:
            data = data[sockets[1].send(data):]
        sockets[1].shutdown(1)
        server_task = None
    else:
        server_task = Task(loop, loop.connect_accepted_socket(
            lambda: sides[1].protocol, sockets[1], ssl_context = tls_context('server')
        ))
    delay = when * 0.0009765625
    if mode == 'reset':
        loop.call_after(delay, sockets[0].inject_reset)
    elif mode == 'cancel_client':
        loop.call_after(delay, client_task.cancel)
    elif mode == 'cancel_server':
        loop.call_after(delay, server_task.cancel)
    await sim.settle()

    outcomes = []
    for task in (client_task, server_task):
        if task is None:
            outcomes.append(None)
            continue
        if not task.is_done():
            outcomes.append('pending')
            continue
        try:
            outcomes.append(('ok', task.get_result()))
        except BaseException as exception:
            outcomes.append(('raised', exception))

    allowed = ()
    if mode not in ('ok', 'tls12'):
        ctx.nontrivial()
        ctx.label(mode)
        for index, outcome in enumerate(outcomes):
            if outcome is None:
                continue
            check(outcome != 'pending', 'connecting neither succeeds nor fails', index, mode)
            if outcome[0] == 'ok':
                check(outcome[1] is sides[index].protocol, 'protocol')
                check_eq(sides[index].protocol.made, 1, 'connected without connection_made')
                # the client refused the certificate
                if mode in ('host', 'untrusted', 'garbage') and index == 0:
                    raise Violation(f'connected, although the certificate is not acceptable: {mode}')
            else:
                expected = {
                    'host': ssl.SSLCertVerificationError, 'untrusted': ssl.SSLCertVerificationError,
                    'garbage': (ssl.SSLError, ConnectionError), 'reset': ConnectionError,
                    'cancel_client': (vsim.CancelledError, ConnectionError), 'cancel_server': (vsim.CancelledError, ConnectionError),
                }[mode]
                if mode in ('host', 'untrusted') and index == 1:
                    expected = (ssl.SSLError, ConnectionError)
                if mode == ('cancel_client', 'cancel_server')[index]:
                    expected = vsim.CancelledError
                check(isinstance(outcome[1], expected), 'unexpected failure of connecting', index, mode, outcome[1])
        # no descriptor may be left behind by the failed ones
        for index, outcome in enumerate(outcomes):
            if outcome is not None and outcome[0] == 'raised':
                check(sockets[index].closed, 'the socket of a failed connection is left open', index, mode, outcome[1])
                if isinstance(outcome[1], vsim.CancelledError):
                    # cancelled in the very instant it got connected
                    check_eq(len(sides[index].protocol.lost), sides[index].protocol.made, 'connection_made / connection_lost calls', index)
                else:
                    check_eq(sides[index].protocol.made, 0, 'connection_made although connecting failed', index)
                check_eq(sides[index].protocol.received, b'', 'data of a failed connection')
            elif outcome is not None:
                sides[index].protocol.transport.close()
                sides[index].protocol.transport.abort()
        await sim.settle()
        sockets[0].close()
        sockets[1].close()
        check_eq(net.registered, {}, 'descriptors left in the selector')
        errors.check()
        return

    for index, outcome in enumerate(outcomes):
        check(outcome != 'pending' and outcome[0] == 'ok', 'connecting failed', index, outcome)
        check(outcome[1] is sides[index].protocol, 'protocol')
        check_eq(sides[index].protocol.made, 1, 'connection_made')
        transport = sides[index].protocol.transport
        check_eq(transport.get_extra_info('peer_name'), sockets[index].peer_address, 'peer name')
        check(transport.get_extra_info('ssl_object') is not None, 'ssl_object')
        check_eq(transport.can_write_eof(), False, 'can_write_eof')
        transport.set_write_buffer_limits(50000, 20000)
        check_eq(transport.get_write_buffer_limits(), (20000, 50000), 'limits')

    secrets = []
    for index, operation, gap in steps:
        side = sides[index]
        if gap == 1:
            await skip_ready_cycle()
        elif gap == 2:
            await sleep(0.1)
        elif gap == 3:
            await sim.settle()
            for side_ in sides:
                other = sides[1 - side_.index]
                if not (
                    side_.reset or side_.aborted or side_.protocol.lost or other.closing or other.aborted or other.protocol.lost
                    or other.protocol.paused_reading or side_.protocol.paused_reading
                ):
                    check(len(other.protocol.received) >= side_.must, 'a stream stalled')
                    check(not side_.protocol.writing_paused, 'writing stays paused')
            errors.check()
        transport = side.protocol.transport
        kind = operation[0]
        if kind in ('write', 'writelines'):
            if kind == 'write':
                data = side.take(operation[1])
                if len(data) >= 20:
                    secrets.append(bytes(data[:20]))
                if operation[2]:
                    data = (bytearray if operation[2] == 1 else memoryview)(data)
                transport.write(data)
                if operation[2] == 1:
                    data[:] = bytes(len(data))
            else:
                transport.writelines([side.take(size) for size in operation[1]])
            if transport.get_write_buffer_size():
                side.buffered = True
        elif kind == 'close':
            if (side.buffered or sides[1 - index].offset) and not side.closing:
                ctx.nontrivial()
            transport.close()
            side.closing = True
            check(transport.is_closing(), 'is_closing after close')
        elif kind in ('abort', 'abort_with'):
            if not side.protocol.lost:
                side.aborted = True
            side.closing = True
            transport.abort(None if kind == 'abort' else ConnectionAbortedError('test'))
            check(transport.is_closing(), 'is_closing after abort')
        elif kind == 'pause':
            if transport.pause_reading():
                side.protocol.paused_reading = True
        elif kind == 'resume':
            transport.resume_reading()
            side.protocol.paused_reading = False
        elif kind == 'reset':
            sockets[0].inject_reset()
            for side_ in sides:
                side_.reset = True

    for side in sides:
        side.protocol.transport.resume_reading()
    await sim.settle()
    errors.check()
    for side in sides:
        other = sides[1 - side.index]
        received = bytes(other.protocol.received)
        check(len(received) <= side.offset, 'more bytes arrived than were sent')
        check_eq(received, BLOBS[side.index][:len(received)], 'received bytes are not what was sent')
        if not (side.reset or side.aborted or other.aborted or other.closing):
            check(
                len(received) >= side.must, 'bytes written before closing are lost', side.index, len(received), side.must, side.offset,
                side.protocol.lost, other.protocol.lost
            )
        if side.closing:
            check_eq(len(side.protocol.lost), 1, 'closed, but connection_lost is not called', side.index)
            check_eq(len(other.protocol.lost), 1, 'the other end closed, but connection_lost is not called', other.index)
            if not (side.reset or other.reset or side.aborted or other.aborted or other.closing):
                check_eq((side.protocol.lost, other.protocol.lost), ([None], [None]), 'graceful close ends with exception')
                # the end of the connection without a close notify could be caused by anyone
                check_eq((side.protocol.eof, other.protocol.eof), (0, 0), 'graceful close without close notify')
    if sides[0].offset and sides[1].offset:
        ctx.nontrivial()
    for side in sides:
        side.protocol.transport.close()
    await sim.settle()
    errors.check()
    for side in sides:
        check_eq(len(side.protocol.lost), 1, 'connection_lost calls', side.index)
        check(sockets[side.index].closed, 'the socket is not closed')
        transport = side.protocol.transport
        transport.write(b'x')
        transport.close()
        transport.abort()
        transport.pause_reading()
        transport.resume_reading()
        check_eq(transport.is_closing(), True, 'is_closing of a lost transport')
    await sim.settle()
    errors.check()
    check_eq(net.registered, {}, 'descriptors left in the selector')
    check_eq(getattr(net, 'leaked_registrations', 0), 0, 'sockets closed while registered in the selector')
    for secret in secrets:
        check(secret not in wire[0] and secret not in wire[1], 'application data is on the wire unencrypted')


@C28.case('tls', _tls_strategy, quick = 1200, thorough = 30000, shards = 4)
def c28_tls(case, ctx):
    net = vnet.Net(case[0], case[1])
    vnet.run(net, _c28_run, net, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# C29: connecting and serving
# ---------------------------------------------------------------------------------------------------------------------

C29 = Property('C29', rule = (
    'connect: the addresses a host name is resolved to (listening, refused, unreachable family), latencies and a cancellation at a '
    'generated instant. serve: a server with 1 .. 2 addresses, up to 6 clients coming / leaving and waiters of `wait_closed` coming / getting cancelled '
    'at generated instants, and where it is closed. Non-trivial = at least one address failed before an other was tried, respectively '
    'a client was connected when the server was closed.'
))


def _connect_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.lists(st.sampled_from([
            'listening', 'refused', 'refused', 'refused6', 'listening6', 'timeout', 'unreachable', 'unreachable6', 'closed',
        ]), max_size = 4),
        st.one_of(st.none(), st.none(), st.integers(0, 20)),
        st.sampled_from([0, 0, 0, 2, 10]),
        # local addresses: whether they can be used
        st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['good', 'bad', 'good6', 'bad6']), min_size = 1, max_size = 3)),
    )


# how connecting fails, and whether already when it is started
FAILURES = {
    'timeout': (errno.ETIMEDOUT, False), 'unreachable': (errno.ENETUNREACH, True), 'unreachable6': (errno.EHOSTUNREACH, True),
    'closed': (errno.ECONNRESET, False),
}


async def _c29_connect(sim, net, case, ctx):
    plan, addresses, cancel_at, family, locals_ = case
    loop = sim.loop
    errors = Errors()
    hosts = []
    local_hosts = []
    # the local address used, by whether it is ip v6
    local = {False: None, True: None}
    for index, kind in enumerate(locals_ or ()):
        host = f'fd01::{index + 1:x}' if kind.endswith('6') else f'10.1.0.{index + 1}'
        local_hosts.append(host)
        if kind.startswith('bad'):
            net.unbindable.add(host)
        elif local[kind.endswith('6')] is None:
            local[kind.endswith('6')] = host
    expected = None
    tried = 0
    accepted = {}
    servers = []
    for index, kind in enumerate(addresses):
        host = f'::{index + 1:x}' if kind.endswith('6') else f'10.0.0.{index + 1}'
        hosts.append(host)
        if kind in FAILURES:
            net.failures[host] = FAILURES[kind]
        if kind.startswith('listening'):
            listener = net.socket(vnet.AF_INET6 if kind.endswith('6') else vnet.AF_INET)
            listener.bind((host, 80))
            made = accepted[host] = []
            def factory(made = made):
                made.append(Recorder(None, 'server'))
                return made[-1]
            server = await loop.create_server_with(factory, listener)
            await server.start()
            servers.append(server)
        if family and family != (10 if kind.endswith('6') else 2):
            continue
        if expected is None:
            if kind.startswith('listening') and (locals_ is None or local[kind.endswith('6')] is not None):
                expected = host
            else:
                tried += 1
    if locals_ is not None and family and not any((family == 10) == kind.endswith('6') for kind in locals_):
        # no local address of the family
        expected = None
    net.hosts['multi.example'] = hosts
    net.hosts['local.example'] = local_hosts
    opened = net.opened
    protocols = []

    def client():
        protocols.append(Recorder(None, 'client'))
        return protocols[-1]

    task = Task(loop, loop.create_connection_to(
        client, 'multi.example', 80, socket_family = family,
        local_address = None if locals_ is None else ('local.example', 0),
    ))
    if cancel_at is not None:
        loop.call_after(cancel_at * 0.03125, task.cancel)
    await sim.settle()
    errors.check()
    check(task.is_done(), 'connecting does not end')
    try:
        protocol = task.get_result()
    except BaseException as exception:
        if isinstance(exception, vsim.CancelledError):
            check(cancel_at is not None, 'connecting got cancelled')
        else:
            check(isinstance(exception, OSError), 'unexpected exception of connecting', exception)
            check(expected is None, 'connecting failed although an address is listening', exception)
        for protocol in protocols:
            protocol.transport.close() if protocol.transport else None
        await sim.settle()
        client_sockets = [socket for socket in net.open_sockets() if not socket.listening]
        for made in accepted.values():
            for protocol in made:
                check_eq(len(protocol.lost), 1, 'server side of a cancelled connection')
        check_eq(client_sockets, [], 'sockets left open after a failed connect')
    else:
        check(expected is not None, 'connected, but nobody is listening')
        check_eq(protocol, protocols[0], 'protocol')
        check_eq(len(protocols), 1, 'protocols created')
        check_eq(protocol.made, 1, 'connection_made')
        check_eq(protocol.transport.get_extra_info('peer_name')[:2], (expected, 80), 'connected to')
        if locals_ is not None:
            check_eq(protocol.transport.get_extra_info('socket_name')[0], local[':' in expected], 'local address')
        check_eq(sum(map(len, accepted.values())), 1, 'accepted connections')
        check_eq(len(accepted[expected]), 1, 'accepted connections')
        if tried:
            ctx.nontrivial()
        protocol.transport.write(b'hello')
        await sim.settle()
        check_eq(bytes(accepted[expected][0].received), b'hello', 'received')
        protocol.transport.close()
        await sim.settle()
        check_eq(accepted[expected][0].lost, [None], 'server side lost')
        check_eq([socket for socket in net.open_sockets() if not socket.listening], [], 'sockets left open')
    for server in servers:
        server.close()
        await server.wait_closed()
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')
    errors.check()


@C29.case('connect', _connect_strategy, quick = 800, thorough = 20000, shards = 2)
def c29_connect(case, ctx):
    net = vnet.Net(case[0])
    vnet.run(net, _c29_connect, net, case, ctx)


def _serve_strategy():
    return st.tuples(
        st.lists(st.integers(0, 14), min_size = 1, max_size = 6),
        st.integers(1, 2),
        # clients: address, start, duration, who closes
        st.lists(st.tuples(st.integers(0, 1), st.integers(0, 20), st.integers(0, 20), st.sampled_from(['client', 'server', 'abort'])), max_size = 6),
        # waiters: start, cancelled after
        st.lists(st.tuples(st.integers(0, 20), st.one_of(st.none(), st.integers(0, 20))), max_size = 4),
        st.integers(0, 25),
        st.booleans(),
    )


async def _c29_serve(sim, net, case, ctx):
    plan, address_count, clients, waiters, close_at, close_twice = case
    loop = sim.loop
    errors = Errors()
    unit = 0.25
    hosts = ['10.0.0.1', '10.0.0.2'][:address_count]
    made = []

    def factory():
        made.append(Recorder(None, 'server'))
        return made[-1]

    server = await loop.create_server_to(factory, hosts, 80)
    check_eq(sorted(socket.address[0] for socket in server.sockets), sorted(hosts), 'bound addresses')
    await server.start()
    await server.start()
    # an other server cannot be created if any of its addresses is used already
    count = len(net.open_sockets())
    try:
        await loop.create_server_to(factory, ['10.0.0.3', *hosts, '10.0.0.4'], 80)
    except OSError:
        pass
    else:
        check(False, 'two servers have the same address')
    await sim.settle()
    check_eq(len(net.open_sockets()), count, 'sockets left open after a server could not be created')
    started = sim.now()
    log = []
    connected = []
    closed_at = []

    async def client(address, start, duration, who):
        await sleep(start * unit)
        try:
            protocol = await loop.create_connection_to(
                lambda: Recorder(None, 'client'), hosts[address % len(hosts)], 80
            )
        except OSError as exception:
            log.append(('refused', sim.now()))
            return
        log.append(('connected', sim.now()))
        connected.append(protocol)
        await sleep(duration * unit)
        if who == 'client':
            protocol.transport.close()
        elif who == 'abort':
            protocol.transport.abort()
        else:
            protocol.transport.write(b'bye')
            await sleep(2 * unit)
            protocol.transport.close()

    async def waiter(start, cancelled_after):
        await sleep(start * unit)
        before = not closed_at
        try:
            await server.wait_closed()
        except vsim.CancelledError:
            log.append(('cancelled', sim.now()))
            raise
        check(closed_at, 'wait_closed returned before close')
        if before:
            check_eq(
                [protocol for protocol in made if not protocol.lost], [],
                'connections left of a server whose closing was waited for',
            )
        log.append(('closed', sim.now()))

    tasks = []
    for parameters in clients:
        tasks.append(Task(loop, client(*parameters)))
    for start, cancelled_after in waiters:
        task = Task(loop, waiter(start, cancelled_after))
        tasks.append(task)
        if cancelled_after is not None:
            loop.call_after((start + cancelled_after) * unit + 0.0001, task.cancel)

    def close():
        closed_at.append(sim.now())
        if any(not protocol.lost for protocol in connected):
            ctx.nontrivial()
        server.close()
        if close_twice:
            server.close()

    loop.call_after(close_at * unit + 0.01, close)
    await sim.settle()
    errors.check()
    for task in tasks:
        check(task.is_done(), 'a task is stuck', task)
        try:
            task.get_result()
        except vsim.CancelledError:
            pass
    for kind, when in log:
        if kind == 'refused':
            check(when >= closed_at[0], 'refused while the server is open')
    # everyone who got through before the close has a server side
    for protocol in made:
        check_eq((protocol.made, len(protocol.lost)), (1, 1), 'server side connection_made, connection_lost')
    for protocol in connected:
        check_eq((protocol.made, len(protocol.lost)), (1, 1), 'client side connection_made, connection_lost')
    check(len(made) <= len(connected), 'more connections accepted than made', len(made), len(connected))
    in_time = [when for kind, when in log if kind == 'connected' and when < closed_at[0] - 0.0]
    check(len(made) >= len(in_time), 'a connection made in time was not accepted', len(made), len(in_time))
    check_eq(server.active_count, 0, 'active connections of the closed server')
    await server.wait_closed()
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')
    check_eq(getattr(net, 'leaked_registrations', 0), 0, 'sockets closed while registered in the selector')


async def _c29_addresses(sim, net, case, ctx):
    hosts, addresses = case
    loop = sim.loop
    errors = Errors()
    try:
        server = await loop.create_server_to(lambda: Recorder(None, 'server'), hosts, 80)
    except OSError as exception:
        raise Violation('free addresses cannot be used together', hosts, repr(exception))
    check_eq(sorted(socket.address[0] for socket in server.sockets), sorted(hosts), 'bound addresses')
    await server.start()
    for address in addresses:
        # what identifies the interface of a link local address is kept
        socket = net.socket(vnet.AF_INET6)
        try:
            await loop.socket_connect(socket, address)
        except OSError:
            pass
        check_eq(net.connects[-1], address, 'address connected to')
        socket.close()
        ctx.nontrivial()
    server.close()
    await server.wait_closed()
    check_eq(net.open_sockets(), [], 'sockets left open')
    errors.check()


@C29.case('addresses', lambda: st.tuples(
    st.lists(st.sampled_from(['::', '0.0.0.0', '10.0.0.1', '10.0.0.2', 'fd00::1']), min_size = 1, max_size = 4, unique = True),
    st.lists(st.tuples(st.just('fe80::1'), st.just(80), st.integers(0, 3), st.integers(0, 3)), max_size = 3),
), quick = 60, thorough = 300)
def c29_addresses(case, ctx):
    net = vnet.Net([1])
    vnet.run(net, _c29_addresses, net, case, ctx)


@C29.case('serve', _serve_strategy, quick = 800, thorough = 20000, shards = 2)
def c29_serve(case, ctx):
    net = vnet.Net(case[0])
    vnet.run(net, _c29_serve, net, case, ctx)
