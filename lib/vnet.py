"""
A network on virtual time.

``SimSocket`` quacks like a non blocking stream socket, but its file descriptor is made up: a wrapped selector tells when it is
ready, and the kernel behind it (buffers, latency, segmentation, connection refusal, reset) is a few python objects driven
by the clock of ``vsim``. So scarletio's real transports, servers and connecting code run deterministically, and every
schedule of the network is a plain value of the test case.

``plan`` is a list of small integers; each decision of the network (how many bytes are accepted / delivered by a
call, how late a segment arrives) consumes the next one.
"""
import errno, heapq, os, socket as module_socket
from selectors import EVENT_READ, EVENT_WRITE, SelectorKey

import vsim
from vsim import CLOCK
from vharness import HarnessError

AF_INET = module_socket.AF_INET
AF_INET6 = module_socket.AF_INET6
SOCK_STREAM = module_socket.SOCK_STREAM
SOCK_DGRAM = module_socket.SOCK_DGRAM
REAL_SOCKET = module_socket.socket

LATENCIES = (0.0, 0.0, 0.0009765625, 0.0625, 0.5)


class Channel:
    """One direction of a connection."""
    __slots__ = ('net', 'capacity', 'buffer', 'in_flight', 'last_arrival', 'eof', 'fin_sent', 'reader', 'writer', 'total', 'recorded')

    def __init__(self, net, capacity):
        self.net = net
        self.capacity = capacity
        self.buffer = bytearray()
        self.in_flight = 0
        self.last_arrival = 0.0
        self.eof = False
        self.fin_sent = False
        self.reader = None
        self.writer = None
        self.total = 0
        self.recorded = None

    def room(self):
        return self.capacity - len(self.buffer) - self.in_flight

    def push(self, data):
        self.in_flight += len(data)
        self.total += len(data)
        if self.recorded is not None:
            self.recorded += data
        self._at(lambda: self._arrive(data))

    def _arrive(self, data):
        self.in_flight -= len(data)
        reader = self.reader
        if reader.closed or reader.read_shut:
            # nobody reads it any more
            if reader.closed:
                self.writer.receive_reset()
            return
        self.buffer += data

    def push_eof(self):
        if not self.fin_sent:
            self.fin_sent = True
            self._at(self._arrive_eof)

    def _arrive_eof(self):
        self.eof = True

    def _at(self, function):
        when = max(self.last_arrival, CLOCK.now + self.net.latency())
        self.last_arrival = when
        self.net.at(when, function)


class Net:
    def __init__(self, plan = (), capacity = 65536, hosts = None, refuse = (), growing = False):
        self.growing = growing
        self.plan = [value for value in plan] or [0]
        self.index = 0
        self.capacity = capacity
        self.events = []
        self.sequence = 0
        self.registered = {}
        self.sockets = {}
        self.listeners = {}
        self.next_fd = 1 << 20
        self.next_port = 40000
        self.hosts = dict(hosts or {})
        self.refuse = set(refuse)
        # local addresses which cannot be used
        self.unbindable = set()
        # how connecting to a host fails: error, and whether at once
        self.failures = {}
        self.connects = []
        self.opened = 0
        self.datagram_sockets = {}
        # what happens to a datagram: how late its copies arrive, none if it is lost
        self.fate = lambda data, source, target: [self.latency()]
        # asynchronous function called with the name before it is resolved
        self.on_resolve = None
        # whether the send buffer of the system is full
        self.is_full = lambda socket: False

    # decisions

    def decide(self):
        value = self.plan[self.index % len(self.plan)]
        self.index += 1
        return value

    def latency(self):
        return LATENCIES[self.decide() % len(LATENCIES)]

    def limit(self, size):
        limit = self.limit_of(self.decide())
        if self.growing and self.index > 200:
            # small pieces are interesting at start, after that they are just slow
            limit = max(limit, 2000 if self.index < 400 else 1 << 20)
        return max(1, min(size, limit))

    @staticmethod
    def limit_of(value):
        return 1 << 20 if value <= 0 else (1, 2, 3, 7, 64, 1000, 5000)[value % 7]

    # events

    def at(self, when, function):
        self.sequence += 1
        heapq.heappush(self.events, (when, self.sequence, function))

    def run_due(self):
        ran = False
        while self.events and self.events[0][0] <= CLOCK.now:
            heapq.heappop(self.events)[2]()
            ran = True
        return ran

    def ready(self):
        out = []
        for fd in sorted(self.registered):
            key = self.registered[fd]
            socket = self.sockets.get(fd)
            if socket is None:
                raise HarnessError(f'closed descriptor {fd} is registered')
            mask = 0
            if key.events & EVENT_READ and socket.is_readable():
                mask |= EVENT_READ
            if key.events & EVENT_WRITE and socket.is_writable():
                mask |= EVENT_WRITE
            if mask:
                out.append((key, mask))
        return out

    # sockets

    def socket(self, family = AF_INET, type = SOCK_STREAM, proto = 0, fileno = None):
        if type & 15 == SOCK_DGRAM:
            return SimDatagramSocket(self, family, type, proto)
        return SimSocket(self, family, type, proto)

    def pair(self):
        left = SimSocket(self, AF_INET, SOCK_STREAM, 6)
        right = SimSocket(self, AF_INET, SOCK_STREAM, 6)
        left.address = ('127.0.0.1', self.port())
        right.address = ('127.0.0.1', self.port())
        left.link(right)
        return left, right

    def record(self, sockets):
        """Everything what is put on the wire by the sockets from now on."""
        for socket in sockets:
            socket.outgoing.recorded = bytearray()
        return [socket.outgoing.recorded for socket in sockets]

    def port(self):
        self.next_port += 1
        return self.next_port

    def open_sockets(self):
        return [socket for socket in self.sockets.values()]


class SimSocket:
    def __init__(self, net, family, type_, proto):
        self.net = net
        self.family = family
        self.type = type_
        self.proto = proto
        self.fd = net.next_fd
        net.next_fd += 1
        net.sockets[self.fd] = self
        net.opened += 1
        self.closed = False
        self.read_shut = False
        self.write_shut = False
        self.address = None
        self.peer = None
        self.peer_address = None
        self.incoming = None
        self.outgoing = None
        self.error = 0
        self.connecting = False
        self.listening = False
        self.backlog = []
        self.bound = False
        self.v6_only = False
        self.touched_after_close = []

    def __repr__(self):
        return f'<SimSocket fd = {self.fd}, address = {self.address!r}, peer = {self.peer_address!r}>'

    def link(self, other):
        net = self.net
        self.peer, other.peer = other, self
        self.peer_address, other.peer_address = other.address, self.address
        first, second = Channel(net, net.capacity), Channel(net, net.capacity)
        first.writer, first.reader = self, other
        second.writer, second.reader = other, self
        self.outgoing = other.incoming = first
        self.incoming = other.outgoing = second

    # state

    def is_readable(self):
        if self.listening:
            return bool(self.backlog)
        if self.error:
            return True
        incoming = self.incoming
        if incoming is None:
            return False
        return bool(incoming.buffer) or incoming.eof or self.read_shut

    def is_writable(self):
        if self.connecting:
            return False
        if self.error or self.write_shut:
            return True
        outgoing = self.outgoing
        return outgoing is not None and outgoing.room() > 0

    def receive_reset(self):
        if not self.closed and not self.error:
            self.error = errno.ECONNRESET

    def inject_reset(self):
        """The connection breaks: both ends learn it."""
        self.receive_reset()
        if self.peer is not None:
            self.peer.receive_reset()

    # socket api

    def fileno(self):
        return -1 if self.closed else self.fd

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def setblocking(self, value):
        if value:
            raise HarnessError('blocking socket')

    def settimeout(self, value):
        pass

    def gettimeout(self):
        return 0.0

    def setsockopt(self, *args):
        self._check()
        if args[: 2] == (module_socket.IPPROTO_IPV6, module_socket.IPV6_V6ONLY):
            self.v6_only = bool(args[2])

    def getsockopt(self, level, option, *args):
        self._check()
        if level == module_socket.SOL_SOCKET and option == module_socket.SO_ERROR:
            error, self.error = self.error, 0
            return error
        return 0

    def getsockname(self):
        self._check()
        return self.address if self.address is not None else ('0.0.0.0', 0)

    def getpeername(self):
        self._check()
        if self.peer_address is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.peer_address

    def bind(self, address):
        self._check()
        host, port = address[0], address[1]
        if self.bound:
            raise OSError(errno.EINVAL, 'Invalid argument')
        if (self.family == AF_INET6) != (':' in host):
            raise module_socket.gaierror(module_socket.EAI_ADDRFAMILY, 'Address family for hostname not supported')
        if host in self.net.unbindable:
            raise OSError(errno.EADDRNOTAVAIL, 'Cannot assign requested address')
        if port == 0:
            port = self.net.port()
        if (host, port) in self.net.listeners:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        if host in ('::', '0.0.0.0'):
            # an ip v6 socket takes the port of ip v4 too, if it is not told not to
            for other in self.net.sockets.values():
                if other.bound and other.address[: 2] == ({'::': '0.0.0.0', '0.0.0.0': '::'}[host], port):
                    if not (self.v6_only or other.v6_only):
                        raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.bound = True
        self.address = (host, port, *address[2:])

    def listen(self, backlog = 100):
        self._check()
        self.listening = True
        self.net.listeners[self.address[:2]] = self

    def accept(self):
        self._check()
        if not self.backlog:
            raise BlockingIOError(errno.EAGAIN, 'again')
        socket = self.backlog.pop(0)
        return socket, socket.peer_address

    def connect(self, address):
        self._check()
        net = self.net
        net.connects.append(address)
        if self.net.failures.get(address[0], (0, False))[1]:
            error = self.net.failures[address[0]][0]
            raise OSError(error, os.strerror(error))
        if self.address is None:
            self.address = ('127.0.0.1', net.port())
        self.connecting = True
        net.at(CLOCK.now + net.latency(), lambda: self._connected(address))
        raise BlockingIOError(errno.EINPROGRESS, 'in progress')

    def _connected(self, address):
        if self.closed:
            return
        self.connecting = False
        listener = self.net.listeners.get((address[0].lower(), address[1]))
        if address[0] in self.net.failures:
            self.error = self.net.failures[address[0]][0]
            return
        if listener is None or listener.closed or (address[0], address[1]) in self.net.refuse:
            self.error = errno.ECONNREFUSED
            return
        other = SimSocket(self.net, self.family, self.type, self.proto)
        other.address = listener.address
        self.link(other)
        listener.backlog.append(other)

    def _raise_error(self):
        error, self.error = self.error, 0
        # after a reset nothing can be sent or received
        self.read_shut = self.write_shut = True
        if self.outgoing is not None:
            self.outgoing.fin_sent = True
        raise OSError(error, os.strerror(error))

    def send(self, data, flags = 0):
        self._check()
        data = bytes(data)
        if self.write_shut:
            if self.error:
                self._raise_error()
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.error:
            self._raise_error()
        if self.outgoing is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        room = self.outgoing.room()
        if room <= 0:
            raise BlockingIOError(errno.EAGAIN, 'again')
        size = self.net.limit(min(room, len(data))) if data else 0
        if size:
            self.outgoing.push(data[:size])
        return size

    def sendmsg(self, buffers, *args):
        return self.send(b''.join(bytes(buffer) for buffer in buffers))

    def recv(self, size, flags = 0):
        self._check()
        incoming = self.incoming
        if incoming is not None and incoming.buffer and not self.read_shut:
            size = self.net.limit(min(size, len(incoming.buffer)))
            data = bytes(incoming.buffer[:size])
            del incoming.buffer[:size]
            return data
        if self.error:
            self._raise_error()
        if incoming is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        if incoming.eof or self.read_shut:
            return b''
        raise BlockingIOError(errno.EAGAIN, 'again')

    def recv_into(self, buffer, *args):
        data = self.recv(len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        self._check()
        if self.peer is None or self.write_shut:
            raise OSError(errno.ENOTCONN, 'not connected')
        if how in (module_socket.SHUT_WR, module_socket.SHUT_RDWR):
            self.write_shut = True
            self.outgoing.push_eof()
        if how in (module_socket.SHUT_RD, module_socket.SHUT_RDWR):
            self.read_shut = True

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.net.sockets.pop(self.fd, None)
        # closing a descriptor removes it from epoll
        if self.fd in self.net.registered:
            self.net.registered.pop(self.fd)
            self.net.leaked_registrations = getattr(self.net, 'leaked_registrations', 0) + 1
        if self.listening:
            self.net.listeners.pop(self.address[:2], None)
            for socket in self.backlog:
                socket.close()
        if self.outgoing is not None:
            if self.incoming.buffer or self.incoming.in_flight:
                if not self.outgoing.fin_sent:
                    self.outgoing.fin_sent = True
                    self.outgoing._at(self.peer.receive_reset)
            else:
                self.outgoing.push_eof()

    def detach(self):
        raise HarnessError('detach')

    def __del__(self):
        pass


def _key(address):
    return address[0].lower(), address[1]


class SimDatagramSocket(SimSocket):
    """Datagrams are kept whole, but may be lost, repeated or reordered as `Net.fate` says."""
    def __init__(self, net, family, type_, proto):
        SimSocket.__init__(self, net, family, type_, proto)
        self.received = []
        # everything given to the system and whether it took it
        self.log = []
        self.failures = 0
        self.arrived = []
        self.full_until = -1.0
        self.broadcast = False

    def setsockopt(self, *args):
        self._check()
        if args[: 2] == (module_socket.SOL_SOCKET, module_socket.SO_BROADCAST):
            self.broadcast = bool(args[2])

    def _full(self, address):
        return (*address, 0, 0)[: 4] if self.family == AF_INET6 else tuple(address[: 2])

    def bind(self, address):
        self._check()
        host, port = address[0], address[1]
        if port == 0:
            port = self.net.port()
        if (host.lower(), port) in self.net.datagram_sockets:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.address = self._full((host, port, *address[2 :]))
        self.net.datagram_sockets[_key(self.address)] = self

    def _auto_bind(self):
        if self.address is None:
            self.bind(('fd00::7f' if self.family == AF_INET6 else '10.9.9.9', 0))

    def connect(self, address):
        self._check()
        self.net.connects.append(address)
        self._auto_bind()
        self.peer_address = self._full(address)

    def is_readable(self):
        return bool(self.received) or bool(self.error)

    def is_writable(self):
        return self.full_until <= CLOCK.now

    def _error(self):
        if self.error:
            error, self.error = self.error, 0
            self.failures += 1
            raise OSError(error, os.strerror(error))

    def send(self, data, flags = 0):
        self._check()
        if self.peer_address is None:
            raise OSError(errno.EDESTADDRREQ, os.strerror(errno.EDESTADDRREQ))
        return self._send(data, self.peer_address)

    def sendto(self, data, *rest):
        self._check()
        address = rest[-1]
        if address is None:
            raise TypeError('sendto(): AF_INET address must be tuple, not NoneType')
        return self._send(data, self._full(address))

    def _send(self, data, target):
        data = bytes(data)
        self._auto_bind()
        if self.error:
            self.log.append((data, target, self.error))
            self._error()
        if len(data) > 65507:
            self.failures += 1
            self.log.append((data, target, errno.EMSGSIZE))
            raise OSError(errno.EMSGSIZE, os.strerror(errno.EMSGSIZE))
        net = self.net
        if self.full_until > CLOCK.now:
            raise BlockingIOError(errno.EAGAIN, 'again')
        late = net.is_full(self)
        if late:
            self.full_until = CLOCK.now + late
            net.at(self.full_until, lambda: None)
            raise BlockingIOError(errno.EAGAIN, 'again')
        self.log.append((data, target, 0))
        for late in net.fate(data, self.address, target):
            net.at(CLOCK.now + late, lambda: self._arrive(data, target))
        return len(data)

    def _arrive(self, data, target):
        socket = self.net.datagram_sockets.get(_key(target))
        if socket is None or (socket.peer_address is not None and _key(socket.peer_address) != _key(self.address)):
            # only connected sockets learn that nobody listens
            if not self.closed and self.peer_address is not None:
                self.net.at(CLOCK.now + self.net.latency(), self._refused)
            return
        socket.received.append((data, self.address))
        socket.arrived.append((data, self.address))

    def _refused(self):
        if not self.closed:
            self.error = errno.ECONNREFUSED

    def recvfrom(self, size, flags = 0):
        self._check()
        self._error()
        if not self.received:
            raise BlockingIOError(errno.EAGAIN, 'again')
        data, address = self.received.pop(0)
        return data[: size], address

    def recv(self, size, flags = 0):
        return self.recvfrom(size)[0]

    def recvfrom_into(self, buffer, *args):
        data, address = self.recvfrom(len(buffer))
        buffer[: len(data)] = data
        return len(data), address

    def close(self):
        if self.closed:
            return
        SimSocket.close(self)
        if self.address is not None:
            self.net.datagram_sockets.pop(_key(self.address), None)


class NetSelector(vsim.SimSelector):
    """Knows both about the real descriptors (the self pipe) and about the made up ones."""
    def __init__(self, inner, sim, net):
        vsim.SimSelector.__init__(self, inner, sim)
        self._net = net

    def _fd(self, fileobj):
        if isinstance(fileobj, int):
            return fileobj
        return fileobj.fileno()

    def register(self, fileobj, events, data = None):
        fd = self._fd(fileobj)
        net = self._net
        if fd < (1 << 20):
            if fd < 0:
                raise ValueError(f'Invalid file object: {fileobj!r}')
            return self._inner.register(fileobj, events, data)
        if fd in net.registered:
            raise KeyError(f'{fd} is already registered')
        if fd not in net.sockets:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        key = net.registered[fd] = SelectorKey(fileobj, fd, events, data)
        return key

    def unregister(self, fileobj):
        fd = self._fd(fileobj)
        if fd < (1 << 20):
            return self._inner.unregister(fileobj)
        return self._net.registered.pop(fd)

    def modify(self, fileobj, events, data = None):
        fd = self._fd(fileobj)
        if fd < (1 << 20):
            return self._inner.modify(fileobj, events, data)
        if fd not in self._net.registered:
            raise KeyError(fd)
        key = self._net.registered[fd] = SelectorKey(fileobj, fd, events, data)
        return key

    def get_key(self, fileobj):
        fd = self._fd(fileobj)
        if fd < (1 << 20):
            return self._inner.get_key(fileobj)
        return self._net.registered[fd]

    def select(self, timeout = None):
        sim = self._sim
        net = self._net
        sim.polls += 1
        while True:
            net.run_due()
            events = self._inner.select(0) + net.ready()
            if events:
                return events
            if timeout is not None and timeout <= 0.0:
                return events
            if sim.external and sim.external():
                events = self._inner.select(0.002)
                if events:
                    return events
            deadline = None if timeout is None else CLOCK.now + timeout
            following = net.events[0][0] if net.events else None
            if following is not None and (deadline is None or following < deadline):
                if following > sim.limit:
                    return self._idle()
                if timeout is not None:
                    timeout -= following - CLOCK.now
                CLOCK.now = following
                continue
            if deadline is None or deadline > sim.limit:
                return self._idle()
            CLOCK.now = deadline
            net.run_due()
            return net.ready()


ACTIVE = []


class NetSim(vsim.Sim):
    def __init__(self, net, limit = 1e7, external = None):
        vsim.Sim.__init__(self, limit = limit, external = external)
        self.net = net
        self.loop.selector = NetSelector(self.loop.selector._inner, self, net)
        ACTIVE[:] = [net]

    def close(self):
        vsim.Sim.close(self)
        ACTIVE.clear()


def run(net, function, *args, **keyword):
    return NetSim(net, **keyword).run(function, *args)


def _socket(family = AF_INET, type = SOCK_STREAM, proto = 0, fileno = None):
    if ACTIVE:
        return ACTIVE[0].socket(family, type, proto, fileno)
    return REAL_SOCKET(family, type, proto, fileno)


async def _get_address_info(loop, host, port, family = 0, type = 0, proto = 0, flags = 0, **keyword):
    if not ACTIVE:
        return await _real_get_address_info(loop, host, port, family, type, proto, flags, **keyword)
    net = ACTIVE[0]
    if net.on_resolve is not None and host in net.hosts:
        await net.on_resolve(host)
    if host is None:
        hosts = ['127.0.0.1']
    elif host.lower() in net.hosts:
        hosts = net.hosts[host.lower()]
    else:
        hosts = [host]
    kind = (SOCK_DGRAM, 17) if type == SOCK_DGRAM else (SOCK_STREAM, 6)
    out = []
    for element in hosts:
        if isinstance(element, BaseException):
            raise element
        if ':' in element:
            out.append((AF_INET6, *kind, '', (element, port, 0, 0)))
        elif element.replace('.', '').isdigit():
            out.append((AF_INET, *kind, '', (element, port)))
    out = [info for info in out if not family or info[0] == family]
    if not out:
        raise module_socket.gaierror(module_socket.EAI_NONAME, 'Name or service not known')
    return out


import scarletio.core.event_loop.event_loop as _event_loop  # noqa: E402

_real_get_address_info = _event_loop.get_address_info_async
_event_loop.Socket = _socket
_event_loop.get_address_info_async = _get_address_info
