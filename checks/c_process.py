"""C40: pipes and child processes."""
import errno, fcntl, os, random, signal, stat, subprocess, sys, threading, time
from hypothesis import strategies as st
import vsim
from scarletio import CancelledError, Task, skip_ready_cycle, sleep
from c_transport import Errors, Recorder, guarded
from vharness import Property, Violation, check, check_eq

C40 = Property('C40', rule = (
    'Pipes: a program of writes, reads, pauses, limits, closing and aborting on both ends of a real pipe or socket pair. Processes: a child program (reads, writes, closes its '
    'files, ends, kills itself, blocks, leaves a grandchild behind) and what its parent does meanwhile. Non-trivial = a write had to be buffered, or the child '
    'did more than exiting.'
))

BLOB = random.Random(40).randbytes(1 << 20)


# ---------------------------------------------------------------------------------------------------------------------
# Quiescence: nothing which runs really (children, threads) can move without us.

_LOOP_STATES = {}


def _snapshot():
    out = []
    pid = os.getpid()
    skip = (pid, threading.get_native_id())
    children = set()
    for thread in os.listdir('/proc/self/task'):
        thread = int(thread)
        try:
            with open(f'/proc/self/task/{thread}/children') as file:
                children.update(int(child) for child in file.read().split())
        except OSError:
            pass
        if thread not in skip:
            out.append(_state(f'/proc/self/task/{thread}'))
    seen = set()
    while children:
        child = children.pop()
        if child in seen:
            continue
        seen.add(child)
        out.append(_state(f'/proc/{child}'))
        try:
            with open(f'/proc/{child}/task/{child}/children') as file:
                children.update(int(value) for value in file.read().split())
        except OSError:
            pass
    return out


def _state(path):
    try:
        with open(path + '/status') as file:
            content = file.read()
    except OSError:
        return None
    state = switches = name = None
    for line in content.splitlines():
        if line.startswith('State:'):
            state = line.split()[1]
        elif line.startswith('voluntary_ctxt_switches:'):
            switches = line.split()[1]
        elif line.startswith('Pid:'):
            name = line.split()[1]
    return name, state, switches


def external_of(sim):
    """Blocks till something happens on the descriptors of the loop, or nothing can happen any more."""
    inner = sim.loop.selector._inner

    def external():
        previous = None
        same = 0
        started = time.perf_counter()
        while time.perf_counter() - started < 60.0:
            if inner.select(0.001):
                return True
            current = _snapshot()
            if current == previous and all(item is not None and item[1] in ('S', 'Z', 'T') for item in current):
                same += 1
                if same == 4:
                    return False
            else:
                same = 0
            previous = current
        return False
    return external


# ---------------------------------------------------------------------------------------------------------------------
# pipes

PIPE_OPERATIONS = st.one_of(
    st.tuples(st.just('write'), st.sampled_from([0, 1, 100, 5000, 70000, 200000]), st.integers(0, 2)),
    st.tuples(st.just('write'), st.sampled_from([1, 5000, 70000]), st.just(0)),
    st.tuples(st.just('writelines'), st.lists(st.sampled_from([0, 1, 100, 3000]), max_size = 4)),
    st.tuples(st.just('peer_read'), st.sampled_from([1, 100, 4096, 70000, 1 << 20])),
    st.tuples(st.just('peer_read'), st.sampled_from([4096, 1 << 20])),
    st.tuples(st.just('limits'), st.sampled_from([None, 0, 100, 20000]), st.sampled_from([None, 0, 10, 100])),
    st.sampled_from([('close',), ('write_eof',), ('abort',), ('abort_with',), ('peer_close',)]),
)


def _writing_strategy():
    return st.tuples(
        st.booleans(), st.lists(st.tuples(PIPE_OPERATIONS, st.integers(0, 3)), max_size = 12),
    )


def make_pair(as_socket):
    if as_socket:
        import socket
        left, right = socket.socketpair()
        left.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
        reader, writer = left.detach(), right.detach()
    else:
        reader, writer = os.pipe()
        fcntl.fcntl(writer, 1031, 4096)
    os.set_blocking(reader, False)
    return reader, writer


def free_descriptor(descriptor):
    try:
        os.fstat(descriptor)
    except OSError:
        return True
    return False


async def wait_quiet(sim):
    for _ in range(6):
        await skip_ready_cycle()
    await sleep(0.001)
    for _ in range(3):
        await skip_ready_cycle()


async def _c40_writing(sim, case, ctx):
    as_socket, steps = case
    errors = Errors()
    loop = sim.loop
    reader, writer = make_pair(as_socket)
    pipe = open(writer, 'wb', 0)
    reader_open = True
    protocol = Recorder(None, 'writer')
    transport = None
    expected = bytearray()
    received = bytearray()
    closing = aborted = broken = buffered = False
    offset = 0
    abort_exception = None
    reused = None

    def peer_read(size):
        try:
            received.extend(os.read(reader, size))
        except (BlockingIOError, ConnectionResetError):
            pass

    try:
        transport = await loop.connect_write_pipe(protocol, pipe)
        check(protocol.transport is transport, 'not the transport is given to connection_made')
        for operation, gap in steps:
            kind = operation[0]
            if kind in ('write', 'writelines'):
                if kind == 'write':
                    data = BLOB[offset : offset + operation[1]]
                    offset += operation[1]
                    given = data if operation[2] == 0 else bytearray(data) if operation[2] == 1 else memoryview(data)
                else:
                    given = []
                    for size in operation[1]:
                        given.append(BLOB[offset : offset + size])
                        offset += size
                    data = b''.join(given)
                if not transport.is_closing():
                    expected += data
                getattr(transport, kind)(given)
                if kind == 'write' and operation[2] == 1:
                    given[:] = bytes(len(given))
                if transport.get_write_buffer_size():
                    buffered = True
                if not transport.is_closing():
                    check(
                        protocol.writing_paused or transport.get_write_buffer_size() <= transport.get_write_buffer_limits()[1],
                        'the protocol is not told to pause writing above the high water'
                    )
            elif kind == 'peer_read':
                if reader_open:
                    peer_read(operation[1])
            elif kind == 'peer_close':
                if reader_open:
                    os.close(reader)
                    reader_open = False
                    broken = True
            elif kind == 'limits':
                high, low = operation[1 :]
                effective_high = high if high is not None else (65536 if low is None else low * 4)
                effective_low = low if low is not None else (16384 if high is None else high // 4)
                if effective_low <= effective_high and not transport.is_closing():
                    transport.set_write_buffer_limits(high = high, low = low)
                    check_eq(transport.get_write_buffer_limits(), (effective_low, effective_high), 'limits')
            elif kind in ('close', 'write_eof'):
                getattr(transport, kind)()
                closing = True
                check(transport.is_closing(), 'is_closing after close')
            else:
                exception = None if kind == 'abort' else ConnectionAbortedError('test')
                if not protocol.lost:
                    aborted = True
                transport.abort(exception)
                check(transport.is_closing(), 'is_closing after abort')
            if gap:
                await wait_quiet(sim)
                errors.check((OSError,))
            if broken and gap:
                # the transport has to notice it
                check_eq(len(protocol.lost), 1, 'connection_lost calls after the reader is gone')
        await wait_quiet(sim)
        ctx.nontrivial(buffered)
        ctx.label('socket', as_socket)
        ctx.label('broken', broken)
        # let everything out
        if reader_open:
            for _ in range(2000):
                before = len(received)
                peer_read(1 << 20)
                await wait_quiet(sim)
                if len(received) == before and not transport.get_write_buffer_size():
                    break
        errors.check((OSError,))
        check_eq(bytes(received), bytes(expected[: len(received)]), 'data written into the pipe')
        if not aborted and not broken:
            check_eq(len(received), len(expected), 'length of data written into the pipe')
            check(not protocol.writing_paused or protocol.lost, 'writing stays paused with an empty buffer')
        if not (closing or aborted or broken):
            check(not protocol.lost, 'lost by itself', protocol.lost)
            check(not transport.is_closing(), 'closing by itself')
            transport.close()
            closing = True
            await wait_quiet(sim)
        check_eq(len(protocol.lost), 1, 'connection_lost calls')
        if not aborted and not broken:
            check_eq(protocol.lost, [None], 'connection_lost')
        check(free_descriptor(writer), 'the pipe is not closed')
        # the number of the descriptor may be reused
        again, other = os.pipe()
        reused = [again, other]
        if again != writer and other != writer:
            os.dup2(again, writer)
            reused.append(writer)
        calls = []
        loop.add_reader(writer, calls.append, 1) if os.get_blocking(writer) else None
        transport.close()
        transport.write_eof()
        transport.write(b'x')
        transport.abort()
        transport.abort(OSError('test'))
        repr(transport)
        await wait_quiet(sim)
        check_eq(len(protocol.lost), 1, 'connection_lost calls')
        check(loop.remove_reader(writer), 'closing a closed transport unregistered a not related descriptor')
        errors.check((OSError,))
    finally:
        if reused:
            for descriptor in reused:
                os.close(descriptor)
        if reader_open:
            os.close(reader)
        if not pipe.closed and reused is None:
            pipe.close()


@C40.case('writing', _writing_strategy, quick = 900, thorough = 20000, shards = 2)
def c40_writing(case, ctx):
    vsim.run(_c40_writing, case, ctx)


READ_OPERATIONS = st.one_of(
    st.tuples(st.just('peer_write'), st.sampled_from([1, 100, 4096, 60000])),
    st.tuples(st.just('peer_write'), st.sampled_from([1, 4096])),
    st.sampled_from([('pause',), ('pause',), ('resume',), ('resume',), ('close',), ('abort',), ('peer_close',)]),
)


def _reading_strategy():
    return st.tuples(
        st.booleans(), st.lists(st.tuples(READ_OPERATIONS, st.integers(0, 3)), max_size = 12),
        st.lists(st.sampled_from(['pause', 'close', None, None]), max_size = 3),
    )


class Reader(Recorder):
    def __init__(self, reactions):
        Recorder.__init__(self, None, 'reader')
        self.reactions = list(reactions)
        self.act = None

    @guarded
    def data_received(self, data):
        Recorder.data_received(self, data)
        if self.reactions:
            reaction = self.reactions.pop(0)
            if reaction is not None:
                self.act(reaction)


async def _c40_reading(sim, case, ctx):
    as_socket, steps, reactions = case
    errors = Errors()
    loop = sim.loop
    reader, writer = make_pair(as_socket)
    os.set_blocking(writer, False)
    pipe = open(reader, 'rb', 0)
    writer_open = True
    protocol = Reader(reactions)
    transport = None
    sent = bytearray()
    closing = False
    offset = 0

    def act(kind):
        nonlocal closing
        if kind == 'pause':
            expected = not (transport.is_closing() or protocol.paused_reading)
            if expected:
                protocol.paused_reading = True
            check_eq(transport.pause_reading(), expected, 'pause_reading')
        elif kind == 'resume':
            expected = not transport.is_closing() and protocol.paused_reading
            if expected:
                protocol.paused_reading = False
            check_eq(transport.resume_reading(), expected, 'resume_reading')
        elif kind == 'close':
            transport.close()
            closing = True
            check(transport.is_closing(), 'is_closing after close')
        else:
            transport.abort()
            closing = True
            check(transport.is_closing(), 'is_closing after abort')

    protocol.act = act
    reused = None
    try:
        transport = await loop.connect_read_pipe(protocol, pipe)
        for operation, gap in steps:
            kind = operation[0]
            if kind == 'peer_write':
                if writer_open:
                    try:
                        size = os.write(writer, BLOB[offset : offset + operation[1]])
                    except (BlockingIOError, BrokenPipeError):
                        size = 0
                    sent += BLOB[offset : offset + size]
                    offset += size
            elif kind == 'peer_close':
                if writer_open:
                    os.close(writer)
                    writer_open = False
            else:
                act(kind)
            if gap:
                await wait_quiet(sim)
                errors.check()
                if not closing:
                    check(not protocol.paused_reading or True, '')
                    if not protocol.paused_reading:
                        check_eq(len(protocol.received), len(sent), 'length of the data received')
        await wait_quiet(sim)
        ctx.nontrivial(bool(reactions) or any(step[0][0] in ('pause', 'close', 'abort') for step in steps))
        check_eq(bytes(protocol.received), bytes(sent[: len(protocol.received)]), 'data received')
        if protocol.paused_reading and not transport.is_closing():
            check(not protocol.lost, 'lost while paused')
            act('resume')
            for _ in range(4):
                await wait_quiet(sim)
                if protocol.paused_reading and not transport.is_closing():
                    act('resume')
        errors.check()
        check_eq(bytes(protocol.received), bytes(sent[: len(protocol.received)]), 'data received')
        if not closing:
            check_eq(len(protocol.received), len(sent), 'length of the data received')
            check_eq(protocol.eof, int(not writer_open), 'eof_received calls')
            if writer_open:
                check(not protocol.lost, 'lost by itself', protocol.lost)
                act('close')
                await wait_quiet(sim)
        check_eq(protocol.lost, [None], 'connection_lost')
        check(free_descriptor(reader), 'the pipe is not closed')
        again, other = os.pipe()
        reused = [again, other]
        if again != reader and other != reader:
            os.dup2(again, reader)
            reused.append(reader)
        loop.add_reader(reader, lambda: None)
        transport.close()
        transport.abort()
        check_eq(transport.pause_reading(), False, 'pause_reading of a closed transport')
        check_eq(transport.resume_reading(), False, 'resume_reading of a closed transport')
        repr(transport)
        await wait_quiet(sim)
        check_eq(protocol.lost, [None], 'connection_lost')
        check(loop.remove_reader(reader), 'closing a closed transport unregistered a not related descriptor')
        errors.check()
    finally:
        if reused:
            for descriptor in reused:
                os.close(descriptor)
        if writer_open:
            os.close(writer)
        if not pipe.closed and reused is None:
            pipe.close()


@C40.case('reading', _reading_strategy, quick = 700, thorough = 20000, shards = 2)
def c40_reading(case, ctx):
    vsim.run(_c40_reading, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# processes

AGENT = r'''
import os, signal, sys
def pattern(offset, size):
    block = bytes(range(251))
    return (block * (size // 251 + 2))[offset % 251 : offset % 251 + size]
def write(descriptor, data):
    data = memoryview(data)
    while data:
        data = data[os.write(descriptor, data) :]
position = {1 : 0, 2 : 0}
lifeline = int(sys.argv[1])
try:
    for operation in sys.argv[2 :]:
        kind, _, value = operation.partition(':')
        value = int(value or 0)
        if kind in ('out', 'err'):
            descriptor = 1 if kind == 'out' else 2
            write(descriptor, pattern(position[descriptor] + descriptor, value))
            position[descriptor] += value
        elif kind in ('echo', 'cat', 'skip'):
            while kind == 'cat' or value:
                data = os.read(0, 65536 if kind == 'cat' else min(value, 65536))
                if not data:
                    break
                value -= len(data)
                if kind != 'skip':
                    write(1, data)
        elif kind == 'close':
            os.close(value)
        elif kind == 'exit':
            os._exit(value)
        elif kind == 'die':
            os.kill(os.getpid(), value)
        elif kind == 'block':
            signal.pause()
        elif kind == 'deaf':
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
        elif kind == 'orphan':
            if not os.fork():
                os.read(lifeline, 1)
                os._exit(0)
except OSError as exception:
    os._exit(100 + exception.errno % 100)
os._exit(0)
'''


def pattern(offset, size):
    block = bytes(range(251))
    return (block * (size // 251 + 2))[offset % 251 : offset % 251 + size]


class Blocked(Exception):
    pass


class Expected:
    """Runs the script of a child knowing everything it is going to read."""
    def __init__(self, script, given, at_eof, stdin, merged):
        self.out = bytearray()
        self.err = self.out if merged else bytearray()
        self.code = 0
        self.blocked = False
        self.orphan = False
        self.deaf = False
        self.unclear = False
        self.closed = set()
        self.interesting = False
        positions = {1 : 0, 2 : 0}
        left = bytearray(given)
        if not stdin:
            left = bytearray()
            at_eof = True
        for kind, *values in script:
            if kind in ('out', 'err'):
                descriptor = 1 if kind == 'out' else 2
                if not values[0]:
                    continue
                if descriptor in self.closed:
                    self.code = 100 + errno.EBADF
                    return
                (self.out if descriptor == 1 else self.err).extend(pattern(positions[descriptor] + descriptor, values[0]))
                positions[descriptor] += values[0]
                self.interesting = True
            elif kind in ('echo', 'cat', 'skip'):
                if kind != 'cat' and not values[0]:
                    continue
                self.interesting = True
                if 0 in self.closed:
                    self.code = 100 + errno.EBADF
                    return
                size = len(left) if kind == 'cat' else values[0]
                data = left[: size]
                del left[: size]
                if kind != 'skip' and data:
                    if 1 in self.closed:
                        self.code = 100 + errno.EBADF
                        return
                    self.out.extend(data)
                if (kind == 'cat' or len(data) < size) and not at_eof:
                    self.blocked = True
                    return
            elif kind == 'close':
                if values[0] in self.closed:
                    self.code = 100 + errno.EBADF
                    return
                self.closed.add(values[0])
                self.interesting = True
            elif kind == 'exit':
                self.code = values[0]
                return
            elif kind == 'die':
                self.interesting = True
                if not (values[0] == signal.SIGTERM and self.deaf):
                    self.code = -values[0]
                    return
            elif kind == 'block':
                self.blocked = True
                return
            elif kind == 'deaf':
                self.deaf = True
            elif kind == 'orphan':
                self.orphan = True
                # the pipes which it keeps
                self.kept = {1, 2} - self.closed


SIZES = st.sampled_from([1, 10, 1000, 1000, 70000, 300000])
SCRIPT = st.lists(st.one_of(
    st.tuples(st.just('out'), SIZES), st.tuples(st.just('err'), SIZES), st.tuples(st.just('out'), SIZES),
    st.tuples(st.just('echo'), SIZES), st.just(('cat',)), st.tuples(st.just('skip'), SIZES),
    st.tuples(st.just('close'), st.integers(0, 2)),
    st.tuples(st.just('exit'), st.sampled_from([0, 1, 3, 255])), st.tuples(st.just('die'), st.sampled_from([9, 15, 10])),
    st.sampled_from([('block',), ('deaf',), ('orphan',)]),
), max_size = 5)

ENDINGS = st.sampled_from(['terminate', 'kill', 'signal', 'close', 'process_kill'])


def _communicate_strategy():
    return st.tuples(
        SCRIPT,
        st.booleans(), st.booleans(), st.sampled_from(['pipe', 'pipe', 'null', 'stdout']),
        st.one_of(st.none(), SIZES, st.just(0)),
        st.one_of(st.none(), st.just(5.0), st.just(5.0)),
        st.lists(st.one_of(st.none(), st.sampled_from([0.5, 8.0, 30.0])), max_size = 2),
        ENDINGS, st.booleans(),
    )


def descriptors():
    return {int(name) for name in os.listdir('/proc/self/fd')}


def is_child(process_id):
    try:
        with open(f'/proc/{process_id}/status') as file:
            for line in file:
                if line.startswith('PPid:'):
                    return int(line.split()[1]) == os.getpid()
    except OSError:
        pass
    return False


async def start_child(loop, script, lifeline, stdin, stdout, stderr, shell):
    arguments = [str(lifeline), *(':'.join(map(str, operation)) for operation in script)]
    keyword = dict(
        stdin = subprocess.PIPE if stdin else subprocess.DEVNULL,
        stdout = subprocess.PIPE if stdout else subprocess.DEVNULL,
        stderr = {'pipe' : subprocess.PIPE, 'null' : subprocess.DEVNULL, 'stdout' : subprocess.STDOUT}[stderr],
        pass_fds = (lifeline,),
    )
    if shell:
        import shlex
        return await loop.subprocess_shell('exec ' + shlex.join([sys.executable, '-S', '-I', '-c', AGENT, *arguments]), **keyword)
    return await loop.subprocess_exec(sys.executable, '-S', '-I', '-c', AGENT, *arguments, **keyword)


async def end_child(process, how, expected):
    """-> the return code it has to have"""
    if how == 'terminate':
        process.terminate()
        if not expected.deaf:
            return -15
        process.send_signal(signal.SIGKILL)
    elif how == 'signal':
        process.send_signal(signal.SIGUSR1)
        return -10
    elif how == 'close':
        process.close()
    elif how == 'kill':
        await process.kill()
    else:
        os.kill(process.process_id, signal.SIGKILL)
    return -9


async def waiting(process, timeout):
    try:
        return await process.wait(timeout)
    except subprocess.TimeoutExpired as exception:
        check_eq(exception.timeout, timeout, 'timeout of TimeoutExpired')
        return 'timeout'


async def _c40_communicate(sim, case, ctx):
    script, stdin, stdout, stderr, size, timeout, waits, ending, shell = case
    loop = sim.loop
    errors = Errors()
    before = descriptors()
    lifeline, lifeline_writer = os.pipe()
    process = None
    try:
        given = b'' if size is None else pattern(0, size)
        expected = Expected(script, given, True, stdin, stderr == 'stdout')
        ctx.nontrivial(expected.interesting)
        process = await start_child(loop, script, lifeline, stdin, stdout, stderr, shell)
        check((process.stdin is not None) == stdin and (process.stdout is not None) == stdout and (process.stderr is not None) == (stderr == 'pipe'), 'pipes of the process')
        started = sim.now()
        wait_tasks = [(wait, Task(loop, waiting(process, wait))) for wait in waits]
        communicating = Task(loop, process.communicate(None if size is None else given, timeout))
        # an orphan holds the output
        held = expected.orphan and ((stdout and 1 in expected.kept) or (stderr == 'pipe' and 2 in expected.kept) or (stderr == 'stdout' and stdout and 2 in expected.kept))
        outcome = None
        if expected.blocked or held:
            ctx.label('blocked')
            if timeout is None:
                await sleep(10.0)
                check(not communicating.is_done(), 'communicate ended while the process can still answer', communicating)
            else:
                try:
                    outcome = await communicating
                except subprocess.TimeoutExpired:
                    check_eq(sim.now() - started, timeout, 'timeout of communicate')
                else:
                    raise Violation(f'communicate ended while the process can still answer: {outcome!r}')
            if expected.blocked:
                check(is_child(process.process_id), 'the process is gone')
                check(process.return_code is None and process.poll() is None, 'return code of a running process')
                code = await end_child(process, ending, expected)
            else:
                code = expected.code
                if timeout is None and (expected.code >= 0 or True):
                    pass
        else:
            code = expected.code
        if held and not expected.blocked:
            # the process itself ended, whoever holds its pipes
            check_eq(await process.wait(), code, 'return code')
            check(not is_child(process.process_id), 'the process is not reaped')
        os.close(lifeline_writer)
        lifeline_writer = -1
        if not expected.blocked or timeout is None:
            if timeout is None or not held:
                try:
                    outcome = await communicating
                except subprocess.TimeoutExpired:
                    raise Violation('communicate timed out although the process ended')
        check_eq(await process.wait(), code, 'return code')
        check_eq(await process.wait(1.0), code, 'return code again')
        check_eq((process.return_code, process.poll()), (code, code), 'return code attribute')
        for wait, task in wait_tasks:
            got = await task
            if wait is not None and expected.blocked and wait < (timeout or 10.0):
                check_eq(got, 'timeout', 'wait with timeout', wait)
            elif expected.blocked and wait is not None and wait == (timeout or 10.0):
                pass
            else:
                check_eq(got, code, 'return code told to a waiter', wait)
        if outcome is not None:
            out, err = outcome
            check((out is None) == (not stdout) and (err is None) == (stderr != 'pipe'), 'outputs', out is None, err is None)
            partial = expected.blocked and ending in ('close', 'kill')
            for name, got, wanted in (('stdout', out, expected.out), ('stderr', err, expected.err)):
                if got is not None:
                    if partial:
                        check_eq(got, bytes(wanted[: len(got)]), name)
                    else:
                        check_eq(len(got), len(wanted), f'length of {name}')
                        check_eq(got, bytes(wanted), name)
        check(not is_child(process.process_id), 'the process is not reaped')
        for method in (process.terminate, lambda: process.send_signal(9)):
            try:
                method()
            except ProcessLookupError:
                pass
        process.close()
        repr(process)
        await sim.settle()
        errors.check((ConnectionError, BrokenPipeError))
    finally:
        if process is not None and is_child(process.process_id):
            os.kill(process.process_id, signal.SIGKILL)
        if lifeline_writer != -1:
            os.close(lifeline_writer)
        os.close(lifeline)
    await sim.settle()
    del process
    check_eq(descriptors() - before, set(), 'descriptors left open')


def run_real(function, case, ctx):
    sim = vsim.Sim()
    sim.external = external_of(sim)
    sim.run(function, case, ctx)


@C40.case('communicate', _communicate_strategy, quick = 400, thorough = 6000, shards = 6)
def c40_communicate(case, ctx):
    run_real(_c40_communicate, case, ctx)


def _interactive_strategy():
    step = st.one_of(
        st.tuples(st.just('write'), SIZES), st.tuples(st.just('write'), SIZES),
        st.tuples(st.just('writelines'), st.lists(st.sampled_from([0, 1, 1000, 70000]), max_size = 3)),
        st.tuples(st.just('drain'), st.integers(1, 3), st.booleans()),
        st.tuples(st.just('read'), st.integers(0, 100)), st.tuples(st.just('read'), st.just(100)),
        st.sampled_from([('settle',), ('cancel_drain',), ('wait', 0.25)]),
    )
    return st.tuples(
        st.sampled_from([[('cat',)], [('cat',)], [('block',)], [('skip', 1000), ('block',)], [('skip', 70000), ('block',)], [('echo', 1000), ('out', 5)], [('skip', 300000), ('cat',)]]),
        st.lists(step, max_size = 10),
        st.sampled_from(['close_stdin', 'close_stdin', 'write_eof', 'terminate', 'kill', 'close', 'signal', 'process_kill']),
    )


async def _c40_interactive(sim, case, ctx):
    script, steps, ending = case
    loop = sim.loop
    errors = Errors()
    before = descriptors()
    lifeline, lifeline_writer = os.pipe()
    process = None
    try:
        process = await start_child(loop, script, lifeline, True, True, 'null', False)
        written = bytearray()
        read = 0
        drains = []
        expected = Expected(script, b'', False, True, False)

        def refresh():
            nonlocal expected
            expected = Expected(script, bytes(written), False, True, False)

        async def drain():
            try:
                await process.stdin.drain()
            except (ConnectionError, BrokenPipeError):
                return 'lost'
            return 'drained'

        for step in steps:
            kind = step[0]
            if kind == 'write':
                data = pattern(len(written), step[1])
                process.stdin.write(data)
                written += data
                refresh()
            elif kind == 'writelines':
                lines = []
                for size in step[1]:
                    lines.append(pattern(len(written), size))
                    written += lines[-1]
                process.stdin.writelines(lines)
                refresh()
            elif kind == 'drain':
                new = [Task(loop, drain()) for _ in range(step[1])]
                drains.extend(new)
                ctx.nontrivial()
                await sim.settle()
                held = process.stdin._transport.get_write_buffer_size()
                if held == 0:
                    for task in new:
                        check(task.is_done(), 'everything is written and drain does not end')
                elif expected.blocked and script[-1] == ('block',) and held > process.stdin._transport.get_write_buffer_limits()[1]:
                    ctx.label('drain waits')
                    for task in new:
                        check(not task.is_done(), 'drain ended above the high water')
            elif kind == 'cancel_drain':
                if drains:
                    drains.pop().cancel()
            elif kind == 'read':
                size = (len(expected.out) - read) * step[1] // 100
                if size:
                    data = await process.stdout.read_exactly(size)
                    check_eq(len(data), size, 'size of the data read')
                    check_eq(data, bytes(expected.out[read : read + size]), 'data read')
                    read += size
            elif kind == 'wait':
                if expected.blocked:
                    check_eq(await waiting(process, step[1]), 'timeout', 'wait for a running process')
            else:
                await sim.settle()
        if ending in ('close_stdin', 'write_eof'):
            if ending == 'close_stdin':
                process.stdin.close()
            else:
                process.stdin.write_eof()
            expected = Expected(script, bytes(written), True, True, False)
            if expected.blocked:
                await sim.settle()
                check(process.return_code is None, 'the process ended')
                process.send_signal(signal.SIGKILL)
                code = -9
            else:
                code = expected.code
        elif expected.blocked:
            if ending not in ('close', 'kill'):
                await sim.settle()
            code = await end_child(process, ending, expected)
        else:
            code = expected.code
        if ending in ('close', 'kill') and process.stdout.is_at_eof():
            rest = b''
        else:
            try:
                rest = await process.stdout.read()
            except (ConnectionError, BrokenPipeError, CancelledError):
                rest = b''
        if ending in ('close', 'kill', 'terminate', 'signal', 'process_kill'):
            check_eq(rest, bytes(expected.out[read : read + len(rest)]), 'rest of the data')
        else:
            check_eq(len(rest), len(expected.out) - read, 'size of the rest of the data')
            check_eq(rest, bytes(expected.out[read :]), 'rest of the data')
        os.close(lifeline_writer)
        lifeline_writer = -1
        check_eq(await process.wait(), code, 'return code')
        check(not is_child(process.process_id), 'the process is not reaped')
        process.close()
        await sim.settle()
        for task in drains:
            check(task.is_done(), 'the process is gone and drain does not end')
        errors.check((ConnectionError, BrokenPipeError))
        drains = task = new = None
    finally:
        if process is not None and is_child(process.process_id):
            os.kill(process.process_id, signal.SIGKILL)
        if lifeline_writer != -1:
            os.close(lifeline_writer)
        os.close(lifeline)
    await sim.settle()
    del process
    check_eq(descriptors() - before, set(), 'descriptors left open')


@C40.case('interactive', _interactive_strategy, quick = 400, thorough = 6000, shards = 6)
def c40_interactive(case, ctx):
    run_real(_c40_interactive, case, ctx)
