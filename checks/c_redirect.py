"""C34: redirects, credentials and timeouts of the http client."""
import base64, gc, os, ssl
from urllib.parse import parse_qsl
import vsim
import vnet
from hypothesis import strategies as st
from scarletio import Task, CancelledError
from scarletio import sleep
from scarletio.web_common import BasicAuthorization, URL
from scarletio.web_common.exceptions import PayloadError
from scarletio.http_client import HTTPClient
from vharness import Property, Violation, check, check_eq
from c_transport import Errors, TLS_DIRECTORY
from c_handshake import values_of
from c_client import Server, ServerConnection, build_response

C34 = Property('C34', rule = (
    'A graph of up to 6 pages on 5 origins (names, ports, ipv6, https) whose answers are redirects of every status and form of location, with cookies, bodies, '
    'delays and broken ones, is requested with credentials, cookies, bodies, limits and timeouts; every request is compared to a reference user agent. '
    'Non-trivial = at least one redirect was followed.'
))

ORIGINS = [
    ('http', 'a.example', 80), ('http', 'a.example', 8080), ('http', 'b.example', 80), ('http', '[fd00::1]', 8080), ('https', 'a.example', 443),
]
ADDRESSES = {'a.example': '10.0.0.1', 'b.example': '10.0.0.2', '[fd00::1]': 'fd00::1'}

# How a path is written within a location and on the wire
SPELLINGS = [
    ('x', 'x'), ('x', 'x'), ('x', 'x'), ('a%20b', 'a%20b'), ('a b', 'a%20b'), ('\xe9', '%C3%A9'), ('%C3%A9', '%C3%A9'), ('a%2Fb', 'a%2Fb'), ('a%25b', 'a%25b'),
    ('a+b', 'a+b'), ('', ''), ('a=b&c', 'a=b&c'),
]
QUERIES = [None, None, None, ('a=b', 'a=b'), ('a=b+c&d=%26', 'a=b+c&d=%26'), ('a=%20', 'a=%20'), ('k=\xe9', 'k=%C3%A9'), ('a&b=', 'a&b='), ('u=http://b.example/', 'u=http://b.example/')]
FORMS = ['absolute', 'absolute', 'absolute', 'network', 'path', 'path', 'relative', 'dots', 'upper', 'fragment', 'credentials', 'port']


def origin_text(index, default_port = False):
    scheme, host, port = ORIGINS[index]
    if not default_port and (scheme, port) in (('http', 80), ('https', 443)):
        return f'{scheme}://{host}'
    return f'{scheme}://{host}:{port}'


def host_header(index):
    return origin_text(index).partition('://')[2]


def _strategy():
    node = st.tuples(
        st.sampled_from([0, 0, 0, 1, 2, 2, 3, 4]),
        st.sampled_from(SPELLINGS),
        st.sampled_from(QUERIES),
        st.sampled_from([200, 301, 302, 303, 307, 301, 302, 303, 307, 404, 308]),
        st.integers(0, 5),
        st.sampled_from(FORMS * 3 + ['missing', 'ftp', 'mailto', 'bad_host', 'bad_port', 'uri']),
        st.one_of(st.none(), st.integers(0, 2)),
        st.sampled_from([0, 0, 5, 3000]),
        st.sampled_from([0, 0, 0, 0, 0, 0, 0, 4, 25, 50]),
    )
    return st.tuples(
        st.lists(st.integers(0, 12), min_size = 1, max_size = 4),
        st.lists(node, min_size = 1, max_size = 6),
        st.sampled_from(['GET', 'GET', 'POST', 'POST', 'HEAD', 'PUT', 'DELETE']),
        st.sampled_from([None, None, 'bytes', 'str', 'form']),
        # authorization: no, header, parameter, within the url
        st.sampled_from([None, None, 'header', 'parameter', 'url']),
        st.booleans(),
        st.sampled_from([None, None, None, 0, 1, 2, 5, 10]),
        st.sampled_from([None, None, None, 3.0, 30.0]),
        st.booleans(),
        st.sampled_from([None, None, None, {'q': 'v w'}]),
        st.integers(1, 2),
    )


def normalise(target):
    path, separator, query = target.partition('?')
    check(query.isascii() and ' ' not in query, 'a query is not encoded', target)
    return path, sorted(parse_qsl(query, True))


def basic(user, password):
    return 'Basic ' + base64.b64encode(f'{user}:{password}'.encode('latin-1')).decode()


async def _redirects(sim, net, case, ctx):
    plan, nodes, method, data_kind, credentials, user_cookie, limit, timeout, use_2, query, repeats = case
    loop = sim.loop
    errors = Errors()
    if credentials == 'parameter' or timeout is not None or any(node[0] == 4 for node in nodes):
        use_2 = True
    count = len(nodes)

    def target_of(index):
        _, spelling, query_of, *_ = nodes[index]
        target = f'/n/{index}/{spelling[1]}'
        if query_of is not None:
            target += '?' + query_of[1]
        return target

    def location_of(index, to):
        """Location header of the node"""
        form = nodes[index][5]
        origin, spelling, query_of, *_ = nodes[to]
        path = f'/n/{to}/{spelling[0]}'
        if query_of is not None:
            path += '?' + query_of[0]
        same_scheme = ORIGINS[origin][0] == ORIGINS[nodes[index][0]][0]
        same_origin = origin == nodes[index][0]
        if form == 'missing':
            return None
        if form == 'ftp':
            return 'ftp://b.example' + path
        if form == 'mailto':
            return 'mailto:somebody@b.example'
        if form == 'bad_host':
            return 'http://:80' + path if len(path) % 2 else 'http://[bad' + path
        if form == 'bad_port':
            return 'http://a.example:port' + path
        if form == 'network' and same_scheme:
            return origin_text(origin)[len(ORIGINS[origin][0]) + 1 :] + path
        if form == 'path' and same_origin:
            return path
        if form == 'relative' and same_origin:
            return '../' + path[3 :]
        if form == 'dots' and same_origin:
            return '/n/no/../.' + path[2 :]
        if form == 'upper':
            return origin_text(origin).upper() + path
        if form == 'fragment':
            return origin_text(origin) + path + '#frag'
        if form == 'credentials':
            return origin_text(origin).replace('://', f'://node{index}:pass@') + path
        if form == 'port':
            return origin_text(origin, True) + path
        return origin_text(origin) + path

    def answer_of(index):
        return f'answer {index}'.encode() + b'.' * nodes[index][7]

    requests = []

    async def respond(request):
        origin = request.connection.origin
        if not await request.complete:
            return
        index = int(request.target.split('/')[2]) if request.target.startswith('/n/') and request.target.split('/')[2].isdigit() else None
        check(index is not None and index < count, 'request of an unknown target', request.target)
        requests.append((origin, index, request))
        _, _, _, status, to, form, cookie, _, delay = nodes[index]
        await sleep(delay)
        headers = []
        if status in (301, 302, 303, 307, 308):
            location = location_of(index, to % count)
            if location is not None:
                headers.append(('URI' if form == 'uri' else 'Location', location))
        if cookie is not None:
            if index % 2:
                # removing the old one first is common
                headers.append(('Set-Cookie', f'c{cookie}=; Path=/; Max-Age=0; Secure'))
            headers.append(('Set-Cookie', f'c{cookie}=v{index}; Path=/'))
        head, wire = build_response(status, headers, answer_of(index), 'length')
        if request.method == 'HEAD':
            wire = b''
        request.connection.transport.write(head + wire)
        request.answered = True

    server = Server(loop, respond)
    server_context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    server_context.load_cert_chain(os.path.join(TLS_DIRECTORY, 'cert.pem'), os.path.join(TLS_DIRECTORY, 'key.pem'))
    client_context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    client_context.check_hostname = False
    client_context.verify_mode = ssl.CERT_NONE
    for index, (scheme, host, port) in enumerate(ORIGINS):
        if not host.startswith('['):
            net.hosts[host] = [ADDRESSES[host]]

        def create(index = index):
            connection = ServerConnection(server)
            connection.origin = index
            return connection
        keyword = {'ssl': server_context} if scheme == 'https' else {}
        item = await loop.create_server_to(create, ADDRESSES[host], port, **keyword)
        await item.start()
        server.servers.append(item)

    client = HTTPClient(loop)
    # reference user agent
    jar = {}

    def expectation():
        """Returns the expected requests and the outcome"""
        sequence = []
        index = 0
        current_method = method
        has_body = data_kind is not None
        header_authorization = 'Token abc' if credentials == 'header' else None
        parameter = basic('user', 'secret') if credentials == 'parameter' else None
        url_credentials = basic('us er', 'pass') if credentials == 'url' else None
        cookie_given = user_cookie
        left = 3 if limit is None else limit
        first = True
        older = set()
        while True:
            origin, spelling, query_of, status, to, form, cookie, size, delay = nodes[index]
            host = ORIGINS[origin][1]
            target = target_of(index)
            if first and query is not None:
                target += ('&' if '?' in target else '?') + 'q=v+w'
            cookies = dict(jar.get(host, {}))
            if cookie_given:
                cookies.setdefault('given', '1')
            if host.startswith('['):
                cookies = {'given': '1'} if cookie_given else {}
            authorization = parameter or url_credentials or header_authorization
            authorizations = {authorization} if parameter else {authorization, *older}
            sequence.append((origin, index, current_method, target, authorizations, cookies, has_body, delay))
            if cookie is not None and not host.startswith('['):
                jar.setdefault(host, {})[f'c{cookie}'] = f'v{index}'
            if status not in (301, 302, 303, 307) or not left:
                return sequence, ('response', index)
            left -= 1
            if not left:
                return sequence, ('too_many',)
            if form == 'missing':
                return sequence, ('response', index)
            if form in ('ftp', 'mailto', 'bad_host', 'bad_port'):
                return sequence, ('bad',)
            if (status == 303 and current_method != 'HEAD') or (status in (301, 302) and current_method == 'POST'):
                current_method = 'GET'
                has_body = False
            to = to % count
            if nodes[to][0] != origin:
                parameter = header_authorization = url_credentials = None
                cookie_given = False
                older = set()
            if form == 'credentials':
                if url_credentials is not None:
                    # either of them is fine for the same origin
                    older.add(url_credentials)
                url_credentials = basic(f'node{index}', 'pass')
            index = to
            first = False

    async def do():
        headers = {'X-Request': 'yes', 'Content-Type': 'text/custom'}
        if credentials == 'header':
            headers['Authorization'] = 'Token abc'
        if user_cookie:
            headers['Cookie'] = 'given=1'
        keyword = {}
        if data_kind == 'bytes':
            keyword['data'] = b'bytes data'
        elif data_kind == 'str':
            keyword['data'] = 'str data'
        elif data_kind == 'form':
            keyword['data'] = {'a': 'b c'}
            del headers['Content-Type']
        if limit is not None:
            keyword['redirects'] = limit
        if query is not None:
            keyword['query'] = query
        if use_2:
            keyword['ssl_context'] = client_context
            if timeout is not None:
                keyword['timeout'] = timeout
            if credentials == 'parameter':
                keyword['authorization'] = BasicAuthorization('user', 'secret')
        origin, spelling, query_of, *_ = nodes[0]
        url = origin_text(origin)
        if credentials == 'url':
            url = url.replace('://', '://us%20er:pass@')
        url = URL(url + target_of(0), True)
        given = dict(headers)
        started = sim.now()
        try:
            async with (client.request2 if use_2 else client.request)(method, url, headers, **keyword) as response:
                elapsed = sim.now() - started
                out = ('response', response.status, [item.status for item in response.history], (await response.read()) or b'')
        except TimeoutError:
            return ('timeout', None, None, None), sim.now() - started
        except ConnectionError as exception:
            elapsed = sim.now() - started
            out = ('connection_error', exception, None, None)
        except ValueError as exception:
            elapsed = sim.now() - started
            out = ('value_error', exception, None, None)
        check_eq(headers, given, 'headers given by the user are changed')
        return out, elapsed

    for repeat in range(repeats):
        expected, verdict = expectation()
        del requests[:]
        task = Task(loop, do())
        await sleep(200.0)
        check(task.is_done(), 'a request never ends')
        out, elapsed = task.get_result()
        server.check()
        allowed = (60.0 if timeout is None else timeout)
        check(elapsed <= allowed + 0.01, 'a request took longer than its timeout', elapsed)
        if out[0] == 'timeout':
            check(elapsed >= allowed - 0.01, 'a request timed out too early', elapsed)
            check(sum(item[7] for item in expected) + 12 * len(expected) >= allowed, 'a request timed out without a reason', elapsed)
            check(len(requests) <= len(expected), 'too many requests')
            expected = expected[: len(requests)]
        else:
            check_eq(len(requests), len(expected), 'amount of requests', [(origin, request.target) for origin, index, request in requests], out)
        if len(requests) > 1:
            ctx.nontrivial()
        for (origin, index, request), (e_origin, e_index, e_method, e_target, e_authorization, e_cookies, e_body, e_delay) in zip(requests, expected):
            headers = request.headers
            check_eq((origin, normalise(request.target)), (e_origin, normalise(e_target)), 'target of a request')
            check_eq(request.method, e_method, 'method of a request', request.target)
            check_eq([value.lower() for value in values_of(headers, 'host')], [host_header(e_origin)], 'host header', request.target)
            check(
                values_of(headers, 'authorization') in [[] if item is None else [item] for item in e_authorization], 'authorization of a request',
                request.target, values_of(headers, 'authorization'), e_authorization
            )
            check_eq(values_of(headers, 'x-request'), ['yes'], 'header of a request', request.target)
            cookies = values_of(headers, 'cookie')
            check(len(cookies) <= 1, 'more cookie headers', cookies)
            got = dict(piece.strip().split('=', 1) for piece in cookies[0].split(';')) if cookies else {}
            check_eq(got, e_cookies, 'cookies of a request', request.target)
            body = bytes(request.body)
            content_type = values_of(headers, 'content-type')
            if not e_body:
                check_eq((body, content_type), (b'', []), 'body and type of a request without a body', request.target)
            elif data_kind == 'form':
                check_eq((body, content_type), (b'a=b+c', ['application/x-www-form-urlencoded']), 'body of a request', request.target)
            else:
                check_eq((body, content_type), (f'{data_kind} data'.encode(), ['text/custom']), 'body of a request', request.target)
        if out[0] == 'timeout':
            # what happened to the jar is not known
            break
        elif verdict[0] == 'response':
            index = verdict[1]
            check_eq(out[: 2], ('response', nodes[index][3]), 'outcome')
            check_eq(out[3], b'' if expected[-1][2] == 'HEAD' else answer_of(index), 'body of the response')
            if nodes[index][3] in (200, 404, 308):
                check_eq(out[2], [nodes[item[1]][3] for item in expected[: -1]], 'history')
        elif verdict[0] == 'too_many':
            check_eq(out[0], 'connection_error', 'outcome of too many redirects')
        else:
            check(out[0] in ('connection_error', 'value_error'), 'outcome of an invalid redirect', out)

    client.close()
    client = None
    server.close()
    await sim.settle()
    gc.collect()
    await sim.settle()
    server.check()
    # the server reports handshakes ended by the timeout of the client
    errors.check(() if timeout is None else ConnectionError)
    check_eq(net.open_sockets(), [], 'sockets left open')
    check_eq(net.registered, {}, 'descriptors left in the selector')


@C34.case('graph', _strategy, quick = 500, thorough = 15000, shards = 4)
def c34_graph(case, ctx):
    net = vnet.Net(case[0], growing = True)
    vnet.run(net, _redirects, net, case, ctx)
