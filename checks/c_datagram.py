"""C38: datagram transports and the protocols reading datagrams, over a simulated network."""
import random
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import (
    CancelledError, DatagramAddressedReadProtocol, DatagramMergerReadProtocol, ReadProtocolBase, Task, skip_ready_cycle, sleep
)
from c_transport import Errors, Recorder, guarded
from vharness import Property, Violation, check, check_eq

C38 = Property('C38', rule = (
    'Case = network plan (what gets lost, repeated, late; when the send buffer of the system is full), up to 3 endpoints (bound, connected or given as sockets), '
    'and up to 16 operations on them (send_to of 0 .. 70000 bytes to anyone, close, abort, limits) some of them done inside of a callback of the protocol. '
    'Non-trivial = a datagram had to be buffered, a send failed, or an endpoint closed with unsent datagrams.'
))

BLOB = random.Random(7).randbytes(1 << 17)
FATES = ([0.0], [], [0.5], [0.0, 0.0], [0.1, 0.7], [2.0], [0.0])


class Endpoint(Recorder):
    def __init__(self, name, reactions = ()):
        Recorder.__init__(self, None, name)
        self.datagrams = []
        self.errors = []
        self.reactions = list(reactions)
        self.act = None

    def react(self, where):
        for reaction in self.reactions:
            if reaction[0] == where:
                self.reactions.remove(reaction)
                self.act(reaction[1])
                break

    def connection_made(self, transport):
        Recorder.connection_made(self, transport)
        self.react('made')

    def data_received(self, data):
        raise Violation('data_received of a datagram protocol is called')

    @guarded
    def datagram_received(self, data, address):
        check(self.made, 'datagram before connection_made')
        check(not self.lost, 'datagram after connection_lost')
        check(not self.transport.is_closing(), 'datagram after close')
        self.datagrams.append((data, address))
        self.react('datagram')

    @guarded
    def error_received(self, exception):
        check(isinstance(exception, OSError), 'error_received with', exception)
        check(self.made and not self.lost, 'error outside of connection')
        self.errors.append(exception)
        self.react('error')

    def pause_writing(self):
        Recorder.pause_writing(self)
        self.react('pause')

    def resume_writing(self):
        Recorder.resume_writing(self)
        self.react('resume')


OPERATIONS = st.one_of(
    st.tuples(st.just('send'), st.integers(0, 2), st.sampled_from([0, 1, 10, 500, 20000, 65507, 65508]), st.integers(0, 2)),
    st.tuples(st.just('send'), st.integers(0, 2), st.sampled_from([1, 10, 20000]), st.integers(0, 2)),
    st.tuples(st.just('burst'), st.integers(0, 2), st.sampled_from([1, 30000]), st.integers(2, 5)),
    st.sampled_from([('close',), ('abort',), ('abort_with',), ('bad',)]),
    st.tuples(st.just('limits'), st.sampled_from([None, 0, 100, 20000]), st.sampled_from([None, 0, 10, 100])),
)


def _strategy():
    return st.tuples(
        st.lists(st.integers(0, 13), min_size = 1, max_size = 6),
        # when is the system busy: how long for the nth send
        st.lists(st.sampled_from([0, 0, 0, 0.2, 1.0]), min_size = 1, max_size = 6),
        st.lists(st.tuples(
            st.sampled_from(['bound', 'connected', 'with', 'broadcast']), st.integers(0, 2),
            st.lists(st.tuples(st.sampled_from(['made', 'datagram', 'error', 'pause', 'resume']), OPERATIONS), max_size = 2),
        ), min_size = 2, max_size = 3),
        st.lists(st.tuples(st.integers(0, 2), OPERATIONS, st.integers(0, 3)), max_size = 16),
        st.booleans(),
    )


class Side:
    def __init__(self, index):
        self.index = index
        self.accepted = []
        self.closing = False
        self.aborted = False
        self.late = False
        self.buffered = False


def address_of(index, ipv6):
    return (f'fd00::{index + 1:x}', 5000 + index, 0, 0) if ipv6 else (f'10.0.0.{index + 1}', 5000 + index)


async def _c38_endpoints(sim, net, case, ctx):
    plan, busy, endpoints, steps, ipv6 = case
    loop = sim.loop
    errors = Errors()
    sends = [0]
    offset = [0]

    def is_full(socket):
        # waiting is over once it got writable
        if socket.full_until == vnet.CLOCK.now:
            return 0
        sends[0] += 1
        return busy[sends[0] % len(busy)]

    net.fate = lambda data, source, target: FATES[net.decide() % len(FATES)]
    net.is_full = is_full
    family = vnet.AF_INET6 if ipv6 else vnet.AF_INET
    sides = []
    for index, (kind, target, reactions) in enumerate(endpoints):
        side = Side(index)
        sides.append(side)
        side.protocol = Endpoint(index, reactions)
        side.peer = address_of(target % len(endpoints), ipv6) if kind in ('connected', 'broadcast') else None

    def apply(side, operation):
        protocol = side.protocol
        transport = protocol.transport
        kind = operation[0]
        if kind in ('send', 'burst'):
            target, size, way = operation[1:]
            count = 1 if kind == 'send' else way
            address = address_of(target % len(sides), ipv6)
            for _ in range(count):
                offset[0] += 1
                data = BLOB[offset[0] : offset[0] + size]
                if side.peer is not None:
                    address = side.peer
                closing = transport.is_closing()
                if not closing and data:
                    side.accepted.append((data, address))
                elif data:
                    side.late = True
                if way == 1:
                    data = bytearray(data)
                elif way == 2:
                    data = memoryview(data)
                transport.send_to(data, None if side.peer is not None and way % 2 else address)
                if way == 1:
                    data[:] = bytes(len(data))
            if transport.get_write_buffer_size():
                side.buffered = True
            if not transport.is_closing():
                low, high = transport.get_write_buffer_limits()
                check(
                    protocol.writing_paused or transport.get_write_buffer_size() <= high,
                    'the protocol is not told to pause writing above the high water'
                )
        elif kind == 'close':
            transport.close()
            side.closing = True
            check(transport.is_closing(), 'is_closing after close')
        elif kind in ('abort', 'abort_with'):
            transport.abort(None if kind == 'abort' else ConnectionAbortedError('test'))
            side.closing = side.aborted = True
            check(transport.is_closing(), 'is_closing after abort')
        elif kind == 'limits':
            high, low = operation[1:]
            effective_high = high if high is not None else (65536 if low is None else low * 4)
            effective_low = low if low is not None else (16384 if high is None else high // 4)
            if effective_low <= effective_high:
                reactions = len(protocol.reactions)
                transport.set_write_buffer_limits(high = high, low = low)
                if len(protocol.reactions) == reactions:
                    check_eq(transport.get_write_buffer_limits(), (effective_low, effective_high), 'limits')
        else:
            for data, address, expected in (('text', None, TypeError), (b'x', ('192.0.2.1', 1), ValueError)):
                if expected is ValueError and side.peer is None:
                    continue
                try:
                    transport.send_to(data, address)
                except expected:
                    pass
                else:
                    raise Violation(f'invalid parameters of send_to are accepted: {data!r} {address!r}')

    for side, (kind, target, reactions) in zip(sides, endpoints):
        protocol = side.protocol
        protocol.act = lambda operation, side = side: apply(side, operation)
        local = address_of(side.index, ipv6)
        before = set(net.sockets)
        if kind == 'with':
            socket = net.socket(family, vnet.SOCK_DGRAM)
            socket.bind(local)
            result = await loop.create_datagram_connection_with(lambda: protocol, socket)
        else:
            result = await loop.create_datagram_connection_to(
                lambda: protocol, local[: 2], None if side.peer is None else side.peer[: 2], allow_broadcast = kind == 'broadcast',
                reuse_port = target == 2,
            )
        check(result is protocol, 'not the protocol is returned', result)
        check_eq(protocol.made, 1, 'connection_made calls')
        new = set(net.sockets) - before
        side.socket = net.sockets[new.pop()] if new else None
        if side.socket is None:
            check(side.closing, 'the socket is gone')
            continue
        check_eq(side.socket.address, local, 'bound address')
        if kind == 'broadcast':
            check(side.socket.broadcast and side.socket.peer_address is None, 'broadcast socket')
        elif not protocol.lost and not side.closing:
            check_eq(protocol.transport.get_extra_info('peer_name'), side.peer, 'peer name')
            check_eq(protocol.transport.get_extra_info('socket_name'), local, 'socket name')

    def verify(final):
        errors.check()
        for side in sides:
            protocol = side.protocol
            if side.socket is None:
                continue
            log = [(data, address) for data, address, error in side.socket.log]
            sent = log[: len(side.accepted)] if side.late else log
            check_eq(sent, side.accepted[: len(sent)], 'datagrams given to the system')
            if not side.aborted:
                check_eq(len(sent), len(side.accepted), 'number of datagrams given to the system')
            check_eq(protocol.datagrams, side.socket.arrived[: len(protocol.datagrams)], 'datagrams received')
            if not side.closing:
                check_eq(len(protocol.datagrams), len(side.socket.arrived), 'number of datagrams received')
                check(not protocol.lost, 'lost by itself')
                check(not protocol.writing_paused, 'writing stays paused with an empty buffer')
                check_eq(protocol.transport.get_write_buffer_size(), 0, 'unsent datagrams')
            else:
                check_eq(len(protocol.lost), 1, 'connection_lost calls')
                check(side.socket.closed, 'the socket is not closed')
            check_eq(len(protocol.errors), side.socket.failures, 'errors received')

    for index, operation, gap in steps:
        side = sides[index % len(sides)]
        if gap == 1:
            await skip_ready_cycle()
        elif gap == 2:
            await sleep(0.1)
        elif gap == 3:
            await sim.settle()
            verify(False)
        if side.socket is not None:
            apply(side, operation)
    await sim.settle()
    verify(False)
    ctx.nontrivial(
        any(side.buffered for side in sides) or any(side.protocol.errors for side in sides)
    )
    for side in sides:
        side.protocol.reactions.clear()
        if not side.closing:
            side.closing = True
            side.protocol.transport.close()
            side.protocol.transport.close()
    await sim.settle()
    verify(True)
    for side in sides:
        exceptions = [exception for exception in side.protocol.lost if exception is not None]
        if not side.aborted:
            check(not exceptions, 'connection_lost exception of a closed endpoint', exceptions)
        transport = side.protocol.transport
        transport.send_to(b'x', side.peer or address_of(0, ipv6))
        transport.close()
        transport.abort()
        repr(transport)
    await sim.settle()
    errors.check()
    check_eq(sorted(net.registered), [], 'registered descriptors at the end')
    check_eq(sorted(net.sockets), [], 'open sockets at the end')


@C38.case('endpoints', _strategy, quick = 2400, thorough = 60000, shards = 4)
def c38_endpoints(case, ctx):
    net = vnet.Net(case[0])
    vnet.run(net, _c38_endpoints, net, case, ctx)


HOSTS = ['10.0.0.1', 'fd00::1', '10.0.0.2', 'fd00::2']


def _create_strategy():
    hosts = st.one_of(st.none(), st.lists(st.sampled_from(HOSTS), max_size = 3))
    return st.tuples(hosts, hosts, st.sampled_from([0, 0, vnet.AF_INET, vnet.AF_INET6]), st.lists(st.sampled_from(HOSTS), max_size = 3), st.one_of(st.none(), st.none(), st.integers(0, 5)))


async def _c38_create(sim, net, case, ctx):
    local, remote, family, taken, cancel_at = case
    loop = sim.loop
    errors = Errors()
    for host in set(taken):
        net.socket(vnet.AF_INET6 if ':' in host else vnet.AF_INET, vnet.SOCK_DGRAM).bind((host, 53))
    opened = len(net.sockets)
    protocol = Endpoint('created')

    def usable(hosts, kind):
        return None if hosts is None else [host for host in hosts if (':' in host) == (kind == vnet.AF_INET6) and family in (0, kind)]
    net.hosts['local.example'] = local or []
    net.hosts['remote.example'] = remote or []
    expected = []
    for kind in (vnet.AF_INET, vnet.AF_INET6):
        locals_, remotes = usable(local, kind), usable(remote, kind)
        if locals_ == [] or remotes == []:
            continue
        if local is None and remote is None and family != kind:
            continue
        expected.append((locals_, remotes))
    coroutine = loop.create_datagram_connection_to(
        lambda: protocol, None if local is None else ('local.example', 53), None if remote is None else ('remote.example', 53),
        socket_family = family,
    )
    task = Task(loop, coroutine)
    if cancel_at is not None:
        for _ in range(cancel_at):
            await skip_ready_cycle()
        task.cancel()
    try:
        result = await task
    except (OSError, ValueError) as exception:
        ctx.nontrivial()
        check_eq(len(net.sockets), opened, 'a socket stays open after creating failed', exception)
        check(all(locals_ is not None and set(locals_) & set(taken) for locals_, remotes in expected), 'creating failed', exception)
        return
    except CancelledError:
        check(cancel_at is not None, 'cancelled by itself')
        await sim.settle()
        check_eq(len(net.sockets), opened, 'a socket stays open after creating was cancelled')
        check(len(protocol.lost) == protocol.made, 'connection_lost calls')
        errors.check()
        return
    ctx.nontrivial(len(expected) == 2)
    check(result is protocol, 'not the protocol is returned', result)
    check(expected, 'created without address', protocol.transport)
    name = protocol.transport.get_extra_info('socket_name')
    peer = protocol.transport.get_extra_info('peer_name')
    for locals_, remotes in expected:
        if locals_ is not None and (name is None or name[0] not in locals_ or name[1] != 53 or name[0] in taken):
            continue
        if remotes is not None and (peer is None or peer[0] not in remotes or peer[1] != 53):
            continue
        break
    else:
        raise Violation(f'connected between wrong addresses: {name} {peer}')
    check((peer is None) == (remote is None), 'connected', peer)
    protocol.transport.close()
    await sim.settle()
    errors.check()
    check_eq(protocol.lost, [None], 'connection_lost')
    check_eq(len(net.sockets), opened, 'open sockets')


@C38.case('create', _create_strategy, quick = 800, thorough = 20000)
def c38_create(case, ctx):
    net = vnet.Net([0])
    vnet.run(net, _c38_create, net, case, ctx)


def _addressed_strategy():
    return st.tuples(
        st.booleans(),
        # datagrams: when, from whom, how long
        st.lists(st.tuples(st.integers(0, 8), st.integers(0, 2), st.sampled_from([1, 3, 100, 9000, 60000])), max_size = 6),
        # waiters: started at, for whom, timeout, cancelled after
        st.lists(st.tuples(st.integers(0, 8), st.one_of(st.none(), st.integers(0, 2)), st.one_of(st.none(), st.integers(0, 8)), st.one_of(st.none(), st.none(), st.integers(0, 8))), max_size = 5),
        st.tuples(st.integers(4, 14), st.sampled_from(['close', 'abort', 'abort_with', 'protocol'])),
    )


async def _c38_addressed(sim, net, case, ctx):
    merged, datagrams, waiters, (end_at, end_kind) = case
    loop = sim.loop
    errors = Errors()
    local = ('10.0.0.1', 53)
    addresses = [('10.0.0.2', 1000 + index) for index in range(3)]
    if merged:
        protocol = await loop.create_datagram_connection_to(lambda: DatagramMergerReadProtocol(loop), local, None)
    else:
        protocol = await loop.create_datagram_connection_to(lambda: DatagramAddressedReadProtocol(loop, lambda: ReadProtocolBase(loop)), local, None)
    senders = []
    for address in addresses:
        socket = net.socket(vnet.AF_INET, vnet.SOCK_DGRAM)
        socket.bind(address)
        senders.append(socket)
    started = sim.now()
    end = end_at + 0.3
    arrivals = []
    outcomes = {}
    offset = 0
    plan = []
    for when, index, size in sorted(datagrams, key = lambda item: item[0]):
        data = BLOB[offset : offset + size]
        offset += size
        plan.append((when, index, data))
        if when < end:
            arrivals.append((when, index, data))

    async def send():
        for when, index, data in plan:
            await sleep(max(0.0, when - (sim.now() - started)))
            senders[index].sendto(data, local)

    async def finish():
        await sleep(end)
        transport = protocol.get_transport()
        if end_kind == 'close':
            transport.close()
        elif end_kind == 'protocol':
            protocol.close()
        else:
            transport.abort(None if end_kind == 'abort' else ConnectionAbortedError('test'))

    async def wait(index, begin, target, timeout):
        await sleep(begin + 0.6)
        if merged:
            coroutine = protocol.read_exactly(target + 1) if target is not None else protocol.read_once()
        elif target is None:
            coroutine = protocol.wait_for_receive(timeout = timeout)
        else:
            coroutine = protocol.wait_for_receive(addresses[target], timeout)
        try:
            result = (True, await coroutine)
        except BaseException as exception:
            result = (False, exception)
        outcomes[index] = (result, sim.now() - started)

    tasks = []
    used = waiters[: 1] if merged else waiters
    for index, (begin, target, timeout, cancelled) in enumerate(used):
        task = Task(loop, wait(index, begin, target, timeout))
        tasks.append(task)
        if cancelled is not None:
            loop.call_after(begin + 0.8 + cancelled, task.cancel)
    others = [Task(loop, send()), Task(loop, finish())]
    await sim.settle()
    errors.check()
    for task in others:
        task.get_result()
    ctx.nontrivial(len({index for when, index, data in arrivals}) > 1)
    for index, (begin, target, timeout, cancelled) in enumerate(used):
        label = (begin, target, timeout, cancelled)
        check(index in outcomes or tasks[index].is_done(), 'a waiter never ends', label)
        if index not in outcomes:
            continue
        (success, value), when = outcomes[index]
        begin += 0.6
        if merged:
            data = b''.join(item[2] for item in arrivals)
            if not success:
                if isinstance(value, CancelledError):
                    check(cancelled is not None, 'cancelled by itself')
                    continue
                check(isinstance(value, (EOFError, ConnectionError)), "reading raised", value)
                check(begin >= end or when >= end - 0.01 or cancelled is not None, 'reading raised early', value)
                check(end_kind == 'abort_with' or len(data) < (target or 0) + 1, 'reading raised with enough data', value)
            elif target is not None:
                check_eq(value, data[: target + 1], 'data read')
            else:
                check(data.startswith(value), 'data read', value)
            continue
        fitting = [(item[0], item[1]) for item in arrivals if target is None or item[1] == target]
        first = max(fitting[0][0], begin) if fitting else None
        deadlines = [end if end > begin else begin]
        if timeout is not None:
            deadlines.append(begin + timeout)
        if cancelled is not None:
            deadlines.append(begin + 0.2 + cancelled)
        limit = min(deadlines)
        if first is not None and first <= begin:
            limit = begin + 100
        if first is not None and first < limit - 0.01:
            check(success and value is not None, 'a waiter missed a datagram', label, value, when)
            check(abs(when - first) < 0.05, 'a waiter ended late', label, when, first)
            if target is None:
                address, reader = value
                check(address in addresses, 'address', address)
                check(any(addresses[item[1]] == address for item in arrivals if item[0] <= when), 'no datagram arrived from', address)
            else:
                reader = value
                address = addresses[target]
            check(isinstance(reader, ReadProtocolBase), 'not a reader', reader)
            check(reader is protocol._by_address.get(address), 'the reader of an other address')
            continue
        if first is not None and first <= limit + 0.01:
            continue
        # nothing arrived
        check(abs(when - limit) < 0.05, 'a waiter ended at a wrong time', label, when, limit)
        if success:
            check(value is None and timeout is not None and limit == begin + timeout, 'a waiter without datagram got', label, value)
        elif isinstance(value, CancelledError):
            check(cancelled is not None and abs(when - (begin + 0.2 + cancelled)) < 0.05, 'a waiter was cancelled by itself', label, when)
        else:
            check(isinstance(value, (EOFError, OSError)) and when > end - 0.05, 'a waiter raised', label, value)
    if not merged:
        # what was received is what was sent, by address
        for index, address in enumerate(addresses):
            data = b''.join(item[2] for item in arrivals if item[1] == index)
            try:
                key, reader = address, await protocol.wait_for_receive(address)
            except (EOFError, OSError):
                check_eq(data, b'', 'datagrams without reader')
                continue
            if end_kind == 'abort_with':
                continue
            check_eq(await reader.read(), data, 'data of an address', address)
            check(reader.is_at_eof(), "reader is not at eof after the end")
    for socket in senders:
        socket.close()
    check_eq(sorted(net.sockets), [], 'open sockets at the end')


@C38.case('addressed', _addressed_strategy, quick = 1500, thorough = 40000, shards = 2)
def c38_addressed(case, ctx):
    net = vnet.Net([0])
    vnet.run(net, _c38_addressed, net, case, ctx)
