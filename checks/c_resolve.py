"""C39: resolving names and addresses against simulated name servers."""
import ipaddress, itertools, socket as module_socket, ssl
from hypothesis import strategies as st
import vsim
import vnet
from scarletio.dns_query import requests
from scarletio import CancelledError, Task, skip_ready_cycle, sleep
from scarletio.dns_query.constants import IP_TYPE_IP_V4, IP_TYPE_IP_V6
from scarletio.dns_query.helpers import iter_labels_with_searches
from scarletio.dns_query.requests import get_address_info_async, get_name_info_async
from scarletio.dns_query.resolve_configuration import (
    NameServerConfiguration, ResolveConfiguration, SortListElement
)
from scarletio.dns_query.response_parsing_error import ResponseParsingError
from c_dns import decode, encode
from c_transport import Errors, Recorder, tls_context
from vharness import Property, Violation, check, check_eq

C39 = Property('C39', rule = (
    'Case = 1 .. 3 name servers (each with its behaviour by transport & question: answers, answers late, wrong id, damaged, cut, failing, refusing, silent, truncated, '
    'alias chains), resolver configuration (transport, attempts, timeout, rotation, sort list, searches) and one or two questions done at once. '
    'Non-trivial = a name server failed or was skipped before another one was asked, or a response had to be ignored.'
))

AF_INET, AF_INET6 = int(module_socket.AF_INET), int(module_socket.AF_INET6)
SOCK_STREAM, SOCK_DGRAM, SOCK_RAW = int(module_socket.SOCK_STREAM), int(module_socket.SOCK_DGRAM), int(module_socket.SOCK_RAW)
AI_CANONNAME, AI_NUMERICHOST = int(module_socket.AI_CANONNAME), int(module_socket.AI_NUMERICHOST)
NI_NUMERICHOST, NI_NUMERICSERV, NI_NAMEREQD, NI_DGRAM = (
    int(module_socket.NI_NUMERICHOST), int(module_socket.NI_NUMERICSERV), int(module_socket.NI_NAMEREQD), int(module_socket.NI_DGRAM)
)

A, AAAA, PTR, CNAME = 1, 28, 12, 5
TIMEOUT = 5.0

STREAM_BEHAVIOURS = (
    'ok', 'ok', 'ok', 'refuse', 'silent', 'close', 'cut', 'garbage', 'servfail', 'refused', 'wrong', 'nxdomain', 'empty', 'slow', 'reset',
)
DATAGRAM_BEHAVIOURS = (
    'ok', 'ok', 'ok', 'refuse', 'silent', 'garbage', 'servfail', 'not_implemented', 'wrong', 'wrong_then_ok', 'truncated', 'truncated', 'twice', 'nxdomain', 'empty', 'slow',
)
SECURE_BEHAVIOURS = ('ok', 'refuse', 'refuse', 'servfail', 'close', 'silent', 'untrusted')
CODES = {'servfail': 2, 'not_implemented': 4, 'refused': 5, 'nxdomain': 3}

V4 = ['192.0.2.1', '192.0.2.77', '198.51.100.3', '203.0.113.9']
V6 = ['2001:db8::1', '2001:db8::2', 'fd00::9', '2001:db8:1::']
SORTS = ['198.51.100.0/24', '192.0.2.77/32', 'fd00::/8', '2001:db8::2/128']
SERVERS = [('10.0.53.1', 'fd00:53::1'), ('10.0.53.2', 'fd00:53::2'), ('10.0.53.3', 'fd00:53::3')]
NAMES = [(b'www', b'example', b'com'), (b'a', b'test'), (b'single',)]

SERVER = st.tuples(
    st.booleans(),  # ipv6
    st.booleans(),  # multiple questions
    st.sampled_from([0, 0, 1, 2]),  # secure level
    st.tuples(st.sampled_from(STREAM_BEHAVIOURS), st.sampled_from(STREAM_BEHAVIOURS)),
    st.tuples(st.sampled_from(DATAGRAM_BEHAVIOURS), st.sampled_from(DATAGRAM_BEHAVIOURS)),
    st.sampled_from(SECURE_BEHAVIOURS),
)

CONFIGURATION = st.tuples(
    st.sampled_from([0, 0, 1, 1, 2, 3]),  # transport
    st.integers(1, 4),  # attempts
    st.booleans(),  # rotate
    st.booleans(),  # raise upon parsing error
    st.one_of(st.just([]), st.lists(st.sampled_from(SORTS), max_size = 3)),
    st.one_of(st.none(), st.none(), st.just([(b'lan',)]), st.just([(b'corp', b'x'), (b'lan',)])),
)

# addresses known for a name, and how many aliases lead there
ZONE = st.tuples(
    st.lists(st.sampled_from(V4), max_size = 3, unique = True), st.lists(st.sampled_from(V6), max_size = 3, unique = True), st.integers(0, 2),
)


def _strategy():
    return st.tuples(
        st.lists(st.sampled_from([0, 0, 3, 5]), min_size = 1, max_size = 4),
        st.lists(SERVER, min_size = 1, max_size = 3),
        CONFIGURATION,
        st.lists(ZONE, min_size = 3, max_size = 3),
        st.lists(st.tuples(
            st.integers(0, 2), st.sampled_from([0, 0, AF_INET, AF_INET6]),
            st.sampled_from([0, SOCK_STREAM, SOCK_DGRAM]),
            st.sampled_from([0, 0, AI_CANONNAME, AI_NUMERICHOST]),
            st.sampled_from([None, 0, 80, 'http', '443']),
        ), min_size = 1, max_size = 2),
        st.one_of(st.none(), st.none(), st.none(), st.integers(0, 40)),
    )


class NameServer:
    def __init__(self, world, index, description):
        ipv6, self.multiple, self.secure_level, self.stream, self.datagram, self.secure = description
        self.world = world
        self.index = index
        self.ipv6 = ipv6
        self.address = SERVERS[index][ipv6]
        self.configuration = NameServerConfiguration(
            IP_TYPE_IP_V6 if ipv6 else IP_TYPE_IP_V4, int(ipaddress.ip_address(self.address)), self.multiple, self.secure_level,
        )
        self.connections = []
        self.asked = []

    async def start(self):
        world = self.world
        loop = world.loop
        if self.stream != ('refuse', 'refuse'):
            # a server can not refuse by question, so `refuse` resets when the other behaviour lets it listen
            world.servers.append(await loop.create_server_to(lambda: StreamSide(self, False), self.address, 53))
        if self.secure != 'refuse':
            context = tls_context('server')
            world.servers.append(await loop.create_server_to(lambda: StreamSide(self, True), self.address, 853, ssl_context = context))
        if self.datagram != ('refuse', 'refuse'):
            socket = world.net.socket(vnet.AF_INET6 if self.ipv6 else vnet.AF_INET, vnet.SOCK_DGRAM)
            socket.bind((self.address, 53))
            self.socket = socket

    def answer(self, questions, secure):
        """-> the behaviour and the response of it"""
        first = questions[0][1]
        if secure:
            return self.secure
        return self.stream[first == AAAA]

    def build(self, transaction_id, questions, behaviour, flags = 0):
        records = []
        if behaviour not in CODES and behaviour != 'empty':
            for question in questions:
                records.extend(self.world.records(question))
            if flags & 0x200:
                # the last records did not fit
                records = records[: len(records) // 2]
        flags |= 0x8180 | CODES.get(behaviour, 0)
        return bytes(encode((transaction_id, flags, questions, (records, [], [])), self.world.choices).out)

    def query(self, data):
        transaction_id, flags, questions, sections = decode(data)[: 4]
        check(len(questions) == 1 or self.multiple, 'multiple questions are sent to a name server not supporting it', questions)
        check(not flags & 0x8000, 'a query has the response bit set')
        check(flags & 0x0100, 'recursion is not requested')
        return transaction_id, questions

    def received(self, data, source):
        transaction_id, questions = self.query(data)
        self.world.asked.append((self.index, 'udp', questions[0][1]))
        behaviour = self.datagram[questions[0][1] == AAAA]
        self.world.behaviours.add(behaviour)
        net = self.world.net

        def send(response, late = 0.0):
            net.at(vsim.CLOCK.now + late, lambda: self.socket.closed or self.socket._send(response, source))

        if behaviour in ('silent', 'refuse'):
            return
        if behaviour == 'garbage':
            return send(b'\x00\x01\x80')
        good = self.build(transaction_id, questions, behaviour)
        bad = self.build(transaction_id ^ 0x101, questions, 'servfail')
        if behaviour == 'wrong':
            return send(bad)
        if behaviour == 'wrong_then_ok':
            send(bad)
            return send(good, 1.0)
        if behaviour == 'truncated':
            return send(self.build(transaction_id, questions, 'truncated', 0x200))
        if behaviour == 'twice':
            send(good)
            return send(good)
        return send(good, 2.0 if behaviour == 'slow' else 0.0)


class StreamSide(Recorder):
    def __init__(self, server, secure):
        Recorder.__init__(self, None, 'name server')
        self.server = server
        self.secure = secure
        self.buffer = bytearray()
        server.world.connections.append(self)

    def data_received(self, data):
        try:
            self.process(data)
        except Exception as exception:
            self.server.world.failures.append(exception)
            raise

    def process(self, data):
        self.buffer += data
        if len(self.buffer) < 2:
            return
        length = int.from_bytes(self.buffer[: 2], 'big')
        if len(self.buffer) < 2 + length:
            return
        server = self.server
        world = server.world
        transaction_id, questions = server.query(bytes(self.buffer[2 : 2 + length]))
        del self.buffer[: 2 + length]
        check(not self.buffer, 'more than a query is sent')
        world.asked.append((server.index, 'tls' if self.secure else 'tcp', questions[0][1]))
        behaviour = server.answer(questions, self.secure)
        world.behaviours.add(behaviour)
        transport = self.transport
        if behaviour == 'silent':
            return
        if behaviour == 'close':
            return transport.close()
        if behaviour in ('reset', 'refuse'):
            return transport.get_extra_info('socket').inject_reset()
        response = server.build(transaction_id, questions, behaviour)
        if behaviour == 'garbage':
            response = b'\x00\x01\x80'
        elif behaviour == 'wrong':
            response = server.build(transaction_id ^ 0x101, questions, 'ok')
        framed = len(response).to_bytes(2, 'big') + response
        if behaviour == 'cut':
            transport.write(framed[: max(len(framed) // 2, len(framed) - 3)])
            return transport.close()
        if behaviour == 'slow':
            world.loop.call_after(2.0, transport.write, framed)
            return
        transport.write(framed)


IDENTIFIERS = itertools.count(0)


def next_identifier():
    return next(IDENTIFIERS) & 0xffff


if hasattr(requests, '_get_next_id'):
    # so a case does not depend on the queries done before it
    requests._get_next_id = next_identifier


class World:
    def __init__(self, sim, net, servers, zones, choices = (0, 1, 1)):
        global IDENTIFIERS
        IDENTIFIERS = itertools.count(65535)
        self.sim = sim
        self.loop = sim.loop
        self.net = net
        self.zones = zones
        self.choices = [bool(choice) for choice in choices]
        self.servers = []
        self.connections = []
        self.failures = []
        self.asked = []
        self.behaviours = set()
        self.pointers = {}
        self.name_servers = [NameServer(self, index, description) for index, description in enumerate(servers)]
        addresses = {server.address: server for server in self.name_servers}

        def fate(data, source, target):
            server = addresses.get(target[0])
            if server is not None and target[1] == 53 and hasattr(server, 'socket'):
                try:
                    server.received(data, source)
                except Exception as exception:
                    self.failures.append(exception)
                return []
            return [net.latency()]

        net.fate = fate

    async def start(self):
        for server in self.name_servers:
            await server.start()
        for server in self.servers:
            await server.start()

    def records(self, question):
        name, type_, class_ = question
        check_eq(class_, 1, 'class of a question')
        if type_ == PTR:
            pointer = self.pointers.get(tuple(label.lower() for label in name))
            if pointer is None:
                return []
            aliased, target = pointer
            out = []
            if aliased:
                following = (b'alias', *name)
                out.append((name, CNAME, 1, 60, b'\x05alias\x00'))
                name = following
            out.append((name, PTR, 1, 60, target))
            return out
        zone = self.zones.get(name)
        if zone is None:
            return []
        v4, v6, aliases = zone
        out = []
        for alias in range(aliases):
            following = (b'n%d' % alias, *name)
            out.append((name, CNAME, 1, 60, b'\x01x\x00'))
            name = following
        for address in v4 if type_ == A else v6:
            out.append((name, type_, 1, 60, ipaddress.ip_address(address).packed))
        return out

    def canonical(self, name):
        for alias in range(self.zones[name][2]):
            name = (b'n%d' % alias, *name)
        return b'.'.join(name).decode()

    async def stop(self):
        for server in self.servers:
            server.close()
        for server in self.name_servers:
            if hasattr(server, 'socket'):
                server.socket.close()
        for server in self.servers:
            await server.wait_closed()
        for connection in self.connections:
            # the ones which were kept silent
            if connection.transport is not None and not connection.lost:
                connection.transport.abort()
        await self.sim.settle()

    def check_failures(self):
        for exception in self.failures:
            if isinstance(exception, Violation):
                raise exception
            raise Violation(f'the name server could not read the query: {exception!r}') from exception


def configure(world, configuration):
    transport, attempts, rotate, raise_, sorts, searches = configuration
    resolve = ResolveConfiguration()
    resolve.name_server_configurations = tuple(server.configuration for server in world.name_servers)
    resolve.name_server_configurations_fallback = None
    resolve.preference_query_transport_type = transport
    resolve.option_attempts = attempts
    resolve.option_timeout = TIMEOUT
    resolve.option_rotate = rotate
    resolve.preference_raise_upon_response_parsing_error = raise_
    resolve.searches = None if searches is None else tuple(searches)
    resolve.searches_fallback = None
    if sorts:
        elements = []
        for sort in sorts:
            network = ipaddress.ip_network(sort)
            elements.append(SortListElement(
                IP_TYPE_IP_V4 if network.version == 4 else IP_TYPE_IP_V6, int(network.network_address), int(network.netmask),
            ))
        resolve.sort_list = tuple(elements)
    return resolve


class Model:
    """What a query has to give, decided by the behaviour of the name servers alone."""
    def __init__(self, world, configuration, levels):
        self.world = world
        self.transport, self.attempts, self.rotate, self.raise_ = configuration[: 4]
        self.levels = levels

    def stream(self, server, type_):
        behaviour = server.stream[type_ == AAAA]
        return {'ok': 'ok', 'slow': 'ok', 'nxdomain': 'none', 'empty': 'none', 'garbage': 'error', 'cut': 'error', 'close': 'error'}.get(behaviour, 'fail')

    def datagram(self, server, type_):
        behaviour = server.datagram[type_ == AAAA]
        if behaviour == 'truncated':
            return self.stream(server, type_)
        return {
            'ok': 'ok', 'slow': 'ok', 'twice': 'ok', 'wrong_then_ok': 'ok', 'nxdomain': 'none', 'empty': 'none', 'garbage': 'error',
        }.get(behaviour, 'fail')

    def secure(self, server):
        return {'ok': 'ok', 'close': 'error'}.get(server.secure, 'fail')

    def one(self, server, type_):
        level = self.levels[server.index]
        if self.transport == 1:
            return self.datagram(server, type_)
        if self.transport == 2:
            return self.stream(server, type_)
        if self.transport == 3:
            return 'skip' if level == 0 else self.secure(server)
        if level == 0 or (level == 2 and server.secure == 'refuse'):
            return self.stream(server, type_)
        return self.secure(server)

    def ask(self, types, start):
        """-> the types which got answered, whether parsing error may be raised"""
        servers = self.world.name_servers
        for index in range(min(self.attempts, len(servers))):
            server = servers[(start + index) % len(servers)]
            if self.one(server, types[0]) == 'skip':
                continue
            groups = [types] if server.multiple or len(types) == 1 else [[type_] for type_ in types]
            passed = False
            answered = []
            for group in groups:
                outcome = self.one(server, group[0])
                if outcome == 'error':
                    if self.raise_:
                        return 'parsing'
                elif outcome in ('ok', 'none'):
                    passed = True
                    if outcome == 'ok':
                        answered.extend(group)
            if passed:
                return answered
        return None

    def starts(self):
        return range(len(self.world.name_servers)) if self.rotate else [0]

    def resolve(self, labels_of, types):
        """Every allowed outcome"""
        outcomes = []

        def walk(index):
            if index == len(labels_of):
                outcomes.append(('none', None, None))
                return
            for start in self.starts():
                answered = self.ask(types, start)
                if answered is None:
                    outcomes.append(('fail', None, None))
                elif answered == 'parsing':
                    outcomes.append(('parsing', None, None))
                else:
                    addresses = []
                    name = labels_of[index]
                    zone = self.world.zones.get(name)
                    for type_ in answered:
                        if zone is not None:
                            addresses.extend(zone[0] if type_ == A else zone[1])
                    if addresses:
                        outcomes.append(('ok', addresses, name))
                    else:
                        walk(index + 1)
        walk(0)
        return outcomes


def candidates(searches, name):
    """
    The names to try. The search domains are placed before the name (known finding), what the zones do not care about.
    """
    if searches is None or len(name) > 1:
        return [name]
    return [*((*search, *name) for search in searches), name]


def order(addresses, sorts):
    networks = [ipaddress.ip_network(sort) for sort in sorts]

    def key(address):
        address = ipaddress.ip_address(address)
        for index, network in enumerate(networks):
            if address.version == network.version and address in network:
                return index
        return len(networks)
    return sorted(addresses, key = key)


SERVICES = {None: 0, 'http': 80, '443': 443}


def expand(addresses, type_, port, canonical):
    port = SERVICES.get(port, port)
    kinds = [(SOCK_DGRAM, module_socket.SOL_UDP), (SOCK_STREAM, module_socket.SOL_TCP)]
    if type_:
        kinds = [kind for kind in kinds if kind[0] == type_]
    elif not port:
        kinds.append((SOCK_RAW, module_socket.SOL_IP))
    out = []
    for address in addresses:
        for kind, protocol in kinds:
            if ':' in address:
                out.append((AF_INET6, kind, protocol, canonical, (address, port, 0, 0)))
            else:
                out.append((AF_INET, kind, protocol, canonical, (address, port)))
    return out


def client_context():
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    context.check_hostname = False
    context.load_verify_locations(_certificate())
    return context


def _certificate():
    import os
    from c_transport import TLS_DIRECTORY
    return os.path.join(TLS_DIRECTORY, 'cert.pem')


CLIENT_CONTEXTS = {}


def get_client_context(trusted):
    context = CLIENT_CONTEXTS.get(trusted)
    if context is None:
        context = CLIENT_CONTEXTS[trusted] = client_context() if trusted else ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    return context


def normalize(result):
    """Text form of ip v6 addresses is not the question here."""
    return [
        (family, type_, protocol, canonical, (str(ipaddress.ip_address(address[0])), *address[1 :]))
        for family, type_, protocol, canonical, address in result
    ]


async def _c39_addresses(sim, net, case, ctx):
    plan, servers, configuration, zones, questions, cancel_at = case
    errors = Errors()
    world = World(sim, net, servers, dict(zip([*NAMES[: 2], (b'lan', b'single'), (b'single', b'lan')], [*zones, zones[2]])))
    untrusted = any(server.secure == 'untrusted' for server in world.name_servers)
    await world.start()
    opened = len(net.sockets)
    resolve = configure(world, configuration)
    levels = [server.secure_level for server in world.name_servers]
    # when a certificate is not trusted, then none of them is
    model = Model(world, configuration, levels)
    if untrusted:
        model.secure = lambda server: 'fail'
    loop = sim.loop
    tasks = []
    started = sim.now()
    ended = []

    async def run(question):
        name, family, type_, flags, port = question
        try:
            return await get_address_info_async(
                loop, b'.'.join(NAMES[name]).decode(), port, family, type_, 0, flags, resolve_configuration = resolve,
                ssl_context = get_client_context(not untrusted),
            )
        finally:
            ended.append(sim.now() - started)

    for question in questions:
        tasks.append(Task(loop, run(question)))
    if cancel_at is not None:
        if cancel_at < 20:
            for _ in range(cancel_at):
                await skip_ready_cycle()
        else:
            await sleep((cancel_at - 20) * 0.15)
        tasks[0].cancel()

    asked = 0
    for index, (task, question) in enumerate(zip(tasks, questions)):
        name, family, type_, flags, port = question
        types = [28, 1] if not family else [28] if family == AF_INET6 else [1]
        labels_of = candidates(configuration[5], NAMES[name])
        asked += len(types) * len(labels_of)
        if flags == AI_NUMERICHOST:
            expected = [('none', None, None)]
        else:
            expected = model.resolve(labels_of, types)
        try:
            outcome = ('ok', normalize(await task))
        except CancelledError:
            check(index == 0 and cancel_at is not None, 'cancelled by itself')
            continue
        except ResponseParsingError as exception:
            outcome = ('ResponseParsingError', exception)
        except module_socket.gaierror as exception:
            outcome = ('fail', exception)
        except Exception as exception:
            outcome = (type(exception).__name__, exception)
        world.check_failures()
        for kind, addresses, found in expected:
            if kind == 'ok':
                canonical = world.canonical(found) if flags == AI_CANONNAME else ''
                if outcome == ('ok', expand(order(addresses, configuration[4]), type_, port, canonical)):
                    break
            elif kind == 'none':
                if outcome[0] == 'fail' and outcome[1].errno == module_socket.EAI_NONAME:
                    break
            elif kind == 'fail':
                if outcome[0] == 'fail' and outcome[1].errno != module_socket.EAI_NONAME:
                    break
            elif outcome[0] == 'ResponseParsingError':
                break
        else:
            raise Violation(f'outcome of resolving {NAMES[name]!r}: got {outcome!r}, expected any of {expected!r}, asked {world.asked!r}')
    world.check_failures()
    bound = 0.0
    count = min(configuration[1], len(servers))
    for name, family, type_, flags, port in questions:
        labels_of = candidates(configuration[5], NAMES[name])
        bound = max(bound, len(labels_of) * count * (1 if family else 2) * (TIMEOUT + 0.5))
    check(max(ended, default = 0.0) <= bound + 10.0, 'resolving took too long', ended, bound)
    ctx.nontrivial(len({index for index, *_ in world.asked}) > 1 or bool(world.behaviours & {'wrong_then_ok', 'truncated'}))
    for behaviour in world.behaviours:
        ctx.label(behaviour)
    await sim.settle()
    mine = [socket for socket in net.sockets.values() if socket.peer_address is not None and socket.peer_address[1] in (53, 853)]
    check(not mine, 'connections to name servers stay open after resolving', mine)
    await world.stop()
    errors.check((ConnectionError, ssl.SSLError, OSError))
    check_eq(sorted(net.registered), [], 'registered descriptors at the end')
    check_eq(sorted(net.sockets), [], 'open sockets at the end')


@C39.case('addresses', _strategy, quick = 1600, thorough = 40000, shards = 4)
def c39_addresses(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _c39_addresses, net, case, ctx)


POINTED = ['192.0.2.1', '198.51.100.3', '2001:db8::1', 'fd00::9']


def _names_strategy():
    return st.tuples(
        st.lists(st.sampled_from([0, 0, 3, 5]), min_size = 1, max_size = 4),
        st.lists(SERVER, min_size = 1, max_size = 3),
        CONFIGURATION,
        st.sampled_from(POINTED),
        st.lists(st.one_of(st.none(), st.tuples(st.booleans(), st.sampled_from(NAMES))), min_size = 4, max_size = 4),
        st.sampled_from([80, 443, 53, 64999]),
        st.sets(st.sampled_from([NI_NUMERICHOST, NI_NUMERICSERV, NI_NAMEREQD, NI_DGRAM])),
        st.sampled_from([0, 3]),
    )


async def _c39_names(sim, net, case, ctx):
    plan, servers, configuration, address, pointers, port, flags, scope = case
    errors = Errors()
    world = World(sim, net, servers, {})
    for pointed, pointer in zip(POINTED, pointers):
        if pointer is not None:
            name = tuple(label.encode() for label in ipaddress.ip_address(pointed).reverse_pointer.split('.'))
            world.pointers[name] = pointer
    untrusted = any(server.secure == 'untrusted' for server in world.name_servers)
    await world.start()
    resolve = configure(world, configuration)
    model = Model(world, configuration, [server.secure_level for server in world.name_servers])
    if untrusted:
        model.secure = lambda server: 'fail'
    all_flags = 0
    for flag in flags:
        all_flags |= flag
    try:
        outcome = ('ok', await get_name_info_async(
            sim.loop, (address, port) if '.' in address else (address, port, 0, scope), all_flags, resolve_configuration = resolve,
            ssl_context = get_client_context(not untrusted),
        ))
    except ResponseParsingError as exception:
        outcome = ('ResponseParsingError', exception)
    except module_socket.gaierror as exception:
        outcome = ('fail', exception)
    except Exception as exception:
        outcome = (type(exception).__name__, exception)
    world.check_failures()
    numeric = address if '.' in address else f'{address}%{scope}'
    pointer = pointers[POINTED.index(address)]
    expected = set()
    if NI_NUMERICHOST in flags:
        expected.add(numeric)
    else:
        for start in model.starts():
            answered = model.ask([PTR], start)
            if answered is None:
                expected.add('fail')
            elif answered == 'parsing':
                expected.add('parsing')
            elif answered and pointer is not None:
                expected.add(b'.'.join(pointer[1]).decode())
            elif NI_NAMEREQD in flags:
                expected.add('fail')
            else:
                expected.add(numeric)
    if NI_NUMERICSERV in flags:
        service = str(port)
    else:
        try:
            service = module_socket.getservbyport(port, 'udp' if NI_DGRAM in flags else 'tcp')
        except OSError:
            service = None
    if outcome[0] == 'ok':
        check(outcome[1][0] in expected, 'name of address', address, outcome, expected)
        check_eq(outcome[1][1], service, 'name of service', port)
    elif outcome[0] == 'fail':
        check('fail' in expected or service is None, 'finding the name of an address failed', address, outcome, expected)
    else:
        check(outcome[0] == 'ResponseParsingError' and 'parsing' in expected, 'finding the name of an address failed', address, outcome, expected)
    ctx.nontrivial(bool(world.asked))
    await sim.settle()
    mine = [socket for socket in net.sockets.values() if socket.peer_address is not None and socket.peer_address[1] in (53, 853)]
    check(not mine, 'connections to name servers stay open after resolving', mine)
    await world.stop()
    errors.check((ConnectionError, ssl.SSLError, OSError))
    check_eq(sorted(net.sockets), [], 'open sockets at the end')


@C39.case('names', _names_strategy, quick = 600, thorough = 20000, shards = 2)
def c39_names(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _c39_names, net, case, ctx)


HOSTS = st.one_of(
    st.none(),
    st.sampled_from(V4), st.sampled_from(V6),
    st.sampled_from(['0.0.0.0', '255.255.255.255', '::', '::1', '::ffff:192.0.2.1', 'fe80::1%1', 'fe80::1%lo', 'FE80::ABCD', '1:2:3:4:5:6:7:8']),
    st.sampled_from(['', '.', 'a..b', '.a', 'x' * 64 + '.com', '.'.join(['y' * 60] * 5), 'a b', '256.1.1.1', '1.2.3', ':::', '1::2::3', 'fe80::1%nope0']),
    st.integers(0, (1 << 32) - 1).map(lambda value: str(ipaddress.IPv4Address(value))),
    st.integers(0, (1 << 128) - 1).map(lambda value: str(ipaddress.IPv6Address(value))),
    st.text('ab.-_\\%:1é', max_size = 8),
)
PORTS = st.sampled_from([None, 0, 80, 65535, 'http', '80', 'domain', 'no-such-service', '１２'])


def _parameters_strategy():
    return st.tuples(
        HOSTS, PORTS, st.sampled_from([0, 0, AF_INET, AF_INET6, 1]),
        st.sampled_from([0, SOCK_STREAM, SOCK_DGRAM]), st.sampled_from([0, 0, 6, 17]),
        st.sampled_from([0, AI_NUMERICHOST]),
    )


async def _c39_parameters(sim, net, case, ctx):
    host, port, family, type_, protocol, flags = case
    resolve = ResolveConfiguration()
    # nobody listens there
    resolve.name_server_configurations = (NameServerConfiguration(IP_TYPE_IP_V4, int(ipaddress.ip_address('10.0.53.1')), True, 0),)
    numeric = None
    if host is not None:
        try:
            numeric = ipaddress.ip_address(host)
        except ValueError:
            pass
    try:
        result = await get_address_info_async(sim.loop, host, port, family, type_, protocol, flags, resolve_configuration = resolve)
    except module_socket.gaierror as exception:
        result = exception
    if numeric is not None and numeric.version == 6 and numeric.ipv4_mapped is not None and family == AF_INET:
        # the system turns it into the ip v4 address, it is not required
        return
    if host is not None and numeric is None:
        if isinstance(result, list) and not host.endswith('%'):
            raise Violation(f'a name is resolved without asking anybody: {host!r} {result!r}')
        if flags:
            check(not net.connects, 'a name server is asked about a numeric host')
        return
    ctx.nontrivial()
    if host is None or family in (0, AF_INET if numeric.version == 4 else AF_INET6):
        check(not net.connects, 'a name server is asked about an address', host)
    # only addresses of the system are asked, so this one goes nowhere
    try:
        expected = module_socket.getaddrinfo(host, {'http': 80, 'domain': 53}.get(port, port), family, type_, protocol, AI_NUMERICHOST)
    except (module_socket.gaierror, OverflowError, UnicodeError) as exception:
        check(not isinstance(result, list), 'resolving what the system refuses', result, exception)
        return
    if host is None and {info[0] for info in expected} != ({AF_INET, AF_INET6} if not family else {family}):
        # the system has no ip v6 support
        return
    check(isinstance(result, list), 'resolving an address failed', result, expected)
    got = [
        (family_, kind, number, (str(ipaddress.ip_address(address[0].partition('%')[0])), *address[1 :]))
        for family_, kind, number, canonical, address in result
    ]
    expected = [
        (family_, kind, number, (str(ipaddress.ip_address(address[0].partition('%')[0])), *address[1 :]))
        for family_, kind, number, canonical, address in expected
        # scarletio knows that a port has no meaning for raw sockets
        if kind != SOCK_RAW or not port
    ]
    got = [item for item in got if item[1] != SOCK_RAW]
    expected = [item for item in expected if item[1] != SOCK_RAW]
    check_eq(sorted(got), sorted(expected), 'address info')


@C39.case('parameters', _parameters_strategy, quick = 800, thorough = 20000)
def c39_parameters(case, ctx):
    net = vnet.Net([0])
    vnet.run(net, _c39_parameters, net, case, ctx)


async def _c39_loop(sim, net, case, ctx):
    address, port, flow, scope, connect = case
    loop = sim.loop
    full = (address, port) if '.' in address else (address, port, flow, scope)
    if connect:
        socket = net.socket(AF_INET if '.' in address else AF_INET6, SOCK_STREAM)
        try:
            await loop.socket_connect(socket, full)
        except ConnectionRefusedError:
            pass
        else:
            raise Violation('connected to nothing')
        finally:
            socket.close()
        ctx.nontrivial(bool(flow or scope))
        check_eq(net.connects, [full], 'connected to')
        return
    ctx.nontrivial()
    name, service = await loop.get_name_info(full, NI_NUMERICHOST | NI_NUMERICSERV)
    check_eq(ipaddress.ip_address(name.partition('%')[0]), ipaddress.ip_address(address), 'numeric name')
    check_eq(service, str(port), 'numeric service')


@C39.case('loop', lambda: st.tuples(
    st.sampled_from([*V4, *V6, 'fe80::1', '::1']), st.sampled_from([1, 80, 65535]), st.sampled_from([0, 0, 5]), st.sampled_from([0, 1, 3]), st.booleans(),
), quick = 100, thorough = 400)
def c39_loop(case, ctx):
    net = vnet.Net([0])
    vnet.run(net, _c39_loop, net, case, ctx)


@C39.known('search-domain-first')
def c39_known_search():
    """existing tests expect the search domain before the name"""
    configuration = ResolveConfiguration()
    configuration.searches = ((b'example', b'com'),)
    got = list(iter_labels_with_searches(configuration, (b'host',)))
    check_eq(got, [(b'host', b'example', b'com'), (b'host',)], 'names tried by searches')
