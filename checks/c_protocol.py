"""C21 - C22: byte stream protocols."""
import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, Task, skip_ready_cycle
from scarletio.core import ReadProtocolBase, ReadWriteProtocolBase
from scarletio.core.protocols_and_transports import protocol as protocol_module

C21 = Property(
    'C21',
    rule = (
        'Case = up to 14 steps over one read protocol: data arriving in generated chunks, one of 7 ways of reading, '
        'cancelling the pending read, eof, connection error. Bytes come from a 3 letter alphabet so read_until boundaries '
        'overlap themselves and straddle chunks. The model is a byte string. Non-trivial = a read had to wait for data, or '
        'took its data from more than one chunk.'
    ),
)

C22 = Property(
    'C22',
    rule = (
        'Case = up to 14 steps (big and small chunks while the transport lets reading happen, reads, write pressure on / off, '
        'drains, cancelling a drain, connection lost) on a read-write protocol over a recording transport. Non-trivial = reading or '
        'writing got paused.'
    ),
)


class Lost(Exception):
    pass


class Transport:
    def __init__(self):
        self.reading_paused = False
        self.pauses = 0
        self.closing = False

    def pause_reading(self):
        check(not self.reading_paused, 'pause_reading called on a transport which is paused already')
        self.reading_paused = True
        self.pauses += 1
        return True

    def resume_reading(self):
        check(self.reading_paused, 'resume_reading called on a transport which is not paused')
        self.reading_paused = False
        return True

    def is_closing(self):
        return self.closing

    def close(self):
        self.closing = True

    def get_extra_info(self, name, default = None):
        return default


# ---- C21 ----

BYTES = st.text(alphabet = 'ab-', min_size = 1, max_size = 9).map(str.encode)
READS = st.one_of(
    st.tuples(st.just('exactly'), st.integers(0, 14)),
    st.tuples(st.just('read'), st.integers(0, 14)),
    st.tuples(st.just('until'), st.text(alphabet = 'ab-', min_size = 1, max_size = 6).map(str.encode)),
    st.tuples(st.just('until'), st.sampled_from([b'aab', b'ab', b'aa', b'abab', b'--a', b'--'])),
    st.tuples(st.just('once'), st.none()),
    st.tuples(st.just('all'), st.none()),
    st.tuples(st.just('iter_exactly'), st.integers(1, 14)),
    st.tuples(st.just('iter_until'), st.sampled_from([b'aab', b'ab', b'aa', b'abab', b'--a'])),
)


def _c21_strategy():
    step = st.one_of(
        st.tuples(st.just('feed'), st.lists(BYTES, min_size = 1, max_size = 4)),
        st.tuples(st.just('feed'), BYTES.map(lambda value: [bytes([byte]) for byte in value])),
        st.tuples(st.just('read'), READS),
        st.tuples(st.just('read'), READS),
        st.tuples(st.just('read'), READS),
        st.tuples(st.just('cancel'), st.sampled_from(['task', 'reader'])),
    )
    return st.tuples(
        st.lists(step, min_size = 1, max_size = 14),
        st.sampled_from(['eof', 'eof', 'lost', None]),
        READS,
    )


class StreamModel:
    def __init__(self):
        self.buffer = b''
        self.eof = False
        self.exception = None
        self.fresh = 0                 # how many bytes arrived since the pending read began

    def outcome(self, read, waiting):
        """
        Returns what the read should have given till now: None (still waits) | ('raise', type, taken)
        | ('return', data, taken) | ('chunk', None, None) for "one or more bytes".
        """
        name, value = read
        buffer = self.buffer
        if self.exception is not None and not (waiting is False and self.exception is None):
            return ('raise', Lost, None)
        name = name.removeprefix('iter_')
        if name in ('exactly', 'read'):
            if len(buffer) >= value:
                return ('return', buffer[:value], value)
            if not self.eof:
                return None
            if name == 'exactly':
                return ('raise', ConnectionError, None)
            return ('return', buffer, len(buffer))
        if name == 'until':
            index = buffer.find(value)
            if index != -1:
                return ('return', buffer[:index], index + len(value))
            if self.eof:
                return ('raise', ConnectionError, None)
            return None
        if name == 'once':
            if buffer:
                return ('chunk', None, None)
            if self.eof:
                return ('return', b'', 0)
            return None
        if name == 'all':
            if self.eof:
                return ('return', buffer, len(buffer))
            return None
        raise RuntimeError(name)


async def _do_read(protocol, read, parts):
    name, value = read
    if name == 'exactly':
        return await protocol.read_exactly(value)
    if name == 'read':
        return await protocol.read(value)
    if name == 'until':
        return await protocol.read_until(value)
    if name == 'once':
        return await protocol.read_once()
    if name == 'all':
        return await protocol.read()
    from functools import partial
    if name == 'iter_exactly':
        stream = protocol.set_payload_reader(partial(protocol._read_exactly, value, False))
    else:
        stream = protocol.set_payload_reader(partial(protocol._read_until, value))
    async for chunk in stream:
        parts.append(bytes(chunk))
    return b''.join(parts)


async def _c21_program(sim, case, ctx):
    steps, end, last = case
    loop = sim.loop
    protocol = ReadProtocolBase(loop)
    protocol.connection_made(Transport())
    model = StreamModel()
    pending = None
    broken = False

    async def settle_read():
        nonlocal pending, broken
        await sim.settle()
        if pending is None:
            return
        task, read, parts = pending
        expected = model.outcome(read, True)
        if expected is None:
            check(
                not task.is_done(), 'a read ended without having what it should wait for',
                read, model.buffer, task,
            )
            if read[0].startswith('iter_'):
                got = b''.join(parts)
                check(model.buffer.startswith(got), 'iterated bytes are not what arrived', got, model.buffer)
            ctx.nontrivial()
            return
        check(task.is_done(), 'a read keeps waiting though what it needs is there', read, model.buffer, model.eof)
        pending = None
        kind, value, taken = expected
        if kind == 'raise':
            exception = task.get_exception() if not task.is_cancelled() else CancelledError()
            check(
                isinstance(exception, value), 'expected an exception', read, value, exception,
                task.get_result() if exception is None else None,
            )
            model.buffer = b''
            broken = True
            return
        exception = task.get_exception()
        check(exception is None, 'a read failed', read, model.buffer, exception)
        got = task.get_result()
        if kind == 'chunk':
            got = bytes(got)
            check(bool(got) and model.buffer.startswith(got), 'read_once gave something else', got, model.buffer)
            taken = len(got)
        else:
            check_eq(bytes(got), value, 'a read gave other bytes than what arrived', read, model.buffer)
        model.buffer = model.buffer[taken:]
        check_eq(protocol.get_size(), len(model.buffer), 'get_size after a read', read)
        check_eq(
            protocol.is_at_eof(), model.eof and not model.buffer, 'is_at_eof after a read', read, model.eof, model.buffer,
        )

    async def start(read):
        nonlocal pending
        ctx.label(read[0])
        parts = []
        pending = (Task(loop, _do_read(protocol, read, parts)), read, parts)
        await settle_read()

    for name, value in steps:
        if name == 'feed':
            for chunk in value:
                # what reaches the protocol after the read is done stays buffered
                protocol.data_received(chunk)
                model.buffer += chunk
                if pending is not None and pending[1][0] == 'once':
                    # exactly one chunk
                    await settle_read()
            if len(value) > 1:
                ctx.nontrivial()
            await settle_read()
        elif name == 'read':
            if pending is None:
                await start(value)
        elif pending is not None:
            ctx.label('cancel')
            task, read, parts = pending
            pending = None
            if value == 'task':
                task.cancel()
                await sim.settle()
                check(task.is_cancelled(), 'a cancelled read did not end with cancellation', read, task)
                protocol.cancel_current_reader()
            else:
                protocol.cancel_current_reader()
                await sim.settle()
                check(
                    task.is_done() and isinstance(task.get_exception(), ConnectionError),
                    'a read did not end with ConnectionError when the reader got cancelled', read, task,
                )
            # What the read took already is gone with it, but only from the front.
            size = protocol.get_size()
            check(0 <= size <= len(model.buffer), 'get_size after cancelling', size, model.buffer)
            model.buffer = model.buffer[len(model.buffer) - size:]

    if end is not None:
        ctx.label(end)
        if end == 'eof':
            protocol.connection_lost(None)
            model.eof = True
        else:
            protocol.connection_lost(Lost())
            model.exception = Lost()
        await settle_read()
        if not broken or end == 'lost':
            await start(last)
            if pending is not None:
                raise Violation('a read waits though the connection ended')
        if end == 'eof' and not broken:
            if last[0] != 'all':
                await start(('all', None))
            check(protocol.is_at_eof(), 'is_at_eof is False when all was read', protocol.get_size())
    elif pending is not None:
        pending[0].cancel()
        await sim.settle()


@C21.case('stream', _c21_strategy, quick = 900, thorough = 40000)
def run_c21(case, ctx):
    vsim.run(_c21_program, case, ctx)


# ---- C22 ----

LIMIT = protocol_module.BUFFER_SIZE_MAX


def _c22_strategy():
    step = st.one_of(
        st.tuples(st.just('feed'), st.sampled_from([1, 1000, 70000, LIMIT - 1, LIMIT, LIMIT + 1])),
        st.tuples(st.just('feed'), st.sampled_from([1, 1000, 70000, LIMIT - 1, LIMIT, LIMIT + 1])),
        st.tuples(st.just('read'), st.sampled_from([1, 1000, 100000, LIMIT + 10, 3 * LIMIT])),
        st.tuples(st.just('iterate'), st.sampled_from([1, 1000, 100000, LIMIT + 10, 3 * LIMIT])),
        st.tuples(st.just('write_pause'), st.none()),
        st.tuples(st.just('write_resume'), st.none()),
        st.tuples(st.just('drain'), st.none()),
        st.tuples(st.just('drain'), st.none()),
        st.tuples(st.just('cancel_drain'), st.integers(0, 9)),
        st.tuples(st.just('consume'), st.integers(1, 3)),
    )
    return st.tuples(st.lists(step, min_size = 1, max_size = 14), st.sampled_from([None, 'eof', 'lost']))


async def _c22_program(sim, case, ctx):
    steps, end = case
    loop = sim.loop
    protocol = ReadWriteProtocolBase(loop)
    transport = Transport()
    protocol.connection_made(transport)
    buffered = 0                       # arrived and not asked for
    reader = None                      # (task, wanted)
    write_paused = False
    drains = []
    lost = None
    permits = 0
    gate = None

    async def drain():
        await protocol.drain()

    async def iterate(amount):
        nonlocal permits, gate
        from functools import partial
        total = 0
        stream = protocol.set_payload_reader(partial(protocol._read_exactly, amount, False))
        async for chunk in stream:
            total += len(chunk)
            while permits <= 0:
                from scarletio import Future
                gate = Future(loop)
                await gate
            permits -= 1
        return total

    async def verify():
        nonlocal reader, buffered
        await sim.settle()
        if reader is not None:
            task, wanted, kind = reader
            if task.is_done():
                exception = task.get_exception()
                if exception is None:
                    check_eq(task.get_result() if kind == 'iterate' else len(task.get_result()), wanted, 'amount of bytes read')
                else:
                    check(lost is not None, 'a read failed', repr(exception))
                reader = None
            elif lost is None:
                if kind == 'read':
                    check(
                        not transport.reading_paused,
                        'a reader waits for data while reading is paused: it can never get it', wanted, protocol.get_size(),
                    )
                elif gate is None or gate.is_done():
                    check(
                        not transport.reading_paused,
                        'a consumer waits for data while reading is paused: it can never get it', wanted,
                        protocol.get_size(),
                    )
        for task in drains[:]:
            if not write_paused or lost is not None:
                check(task.is_done(), 'a drain waits though writing may go on', write_paused, lost)
            if task.is_done():
                drains.remove(task)
                if not task.is_cancelled():
                    exception = task.get_exception()
                    check(exception is None or lost is not None, 'drain failed', repr(exception))
            else:
                ctx.nontrivial()

    for name, value in steps:
        if name == 'feed':
            if not transport.reading_paused:
                protocol.data_received(b'x' * value)
                size = protocol.get_size()
                if size > LIMIT:
                    check(transport.reading_paused, 'more is buffered than the limit and reading goes on', size)
                if transport.reading_paused:
                    ctx.nontrivial()
                    ctx.label('read paused')
        elif name in ('read', 'iterate'):
            if reader is None:
                permits = 0
                gate = None
                reader = (Task(loop, protocol.read_exactly(value) if name == 'read' else iterate(value)), value, name)
        elif name == 'consume':
            permits += value
            if gate is not None:
                gate.set_result_if_pending(None)
        elif name == 'write_pause':
            if not write_paused:
                write_paused = True
                ctx.label('write paused')
                protocol.pause_writing()
        elif name == 'write_resume':
            if write_paused:
                write_paused = False
                protocol.resume_writing()
        elif name == 'drain':
            task = Task(loop, drain())
            drains.append(task)
            await sim.settle()
            if write_paused:
                check(not task.is_done(), 'drain did not wait for the transport')
        elif name == 'cancel_drain':
            if drains:
                ctx.label('cancel drain')
                task = drains[value % len(drains)]
                done = task.is_done()
                others = [other for other in drains if other is not task and not other.is_done()]
                task.cancel()
                await sim.settle()
                check(task.is_done(), 'a cancelled drain did not end')
                for other in others:
                    check(not other.is_done(), 'cancelling a drain ended an other one')
        await verify()

    if end is not None:
        exception = None if end == 'eof' else Lost()
        lost = end
        transport.closing = True
        protocol.connection_lost(exception)
        await verify()
        check(reader is None or reader[2] == 'iterate', 'a reader waits though the connection is lost')
        # draining may fail now, but it may not wait
        task = Task(loop, drain())
        await sim.settle()
        check(task.is_done(), 'drain waits though the connection is lost')
        if end == 'lost':
            check(task.get_exception() is not None, 'drain does not tell that the connection is lost')
        else:
            task.get_exception()
    if reader is not None:
        reader[0].cancel()
    for task in drains:
        task.cancel()
    await sim.settle()


@C22.case('flow', _c22_strategy, quick = 500, thorough = 20000)
def run_c22(case, ctx):
    vsim.run(_c22_program, case, ctx)
