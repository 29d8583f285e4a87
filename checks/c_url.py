"""C15: quoting; C16: url parsing & replacing; C17: query and path algebra."""
import re, string
from urllib.parse import parse_qsl, quote as std_quote, quote_plus as std_quote_plus, unquote_to_bytes
from ipaddress import IPv4Address, IPv6Address

from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import MultiValueDictionary
from scarletio.web_common import URL
from scarletio.web_common.quoting import quote, unquote


C15 = Property(
    'C15',
    rule = 'Case = a string (with percentages, reserved, non-ASCII characters) and the options. Non-trivial = it has a character which is encoded / a percent sign.',
)

SPECIAL = '%+&=/?#:@;,!$\'()*[] ~-._"<>\\^`{|}0123456789abcdefABCDEFzZ'
TEXT = st.text(st.one_of(st.sampled_from(SPECIAL), st.sampled_from('éű鈴😀ß\x80\xff\x00\n'), st.characters(exclude_categories = ('Cs',))), max_size = 12)
SAFE = st.one_of(st.none(), st.text(st.sampled_from(' /?:@#%+&=[]éű"'), max_size = 4))
PERCENT = st.one_of(
    st.integers(0, 255).map('%{:02X}'.format), st.integers(0, 255).map('%{:02x}'.format),
    st.sampled_from(['%', '%a', '%zz', '%2', '%%', '%C5%B1', '%c5%B1', '%C5', '%B1', '%E9%88%B4', '%F0%9F%98%80', '%2B', '%26', '%3d', '%20', '%38', '%99']),
    st.sampled_from('+&=a 0é').map(str), st.sampled_from(SPECIAL), st.characters(exclude_categories = ('Cs',)),
)
ALLOWED = set(string.ascii_letters + string.digits + '-._~' + '!$\'()*,;')


def _quote_strategy():
    return st.tuples(TEXT, SAFE, SAFE, st.booleans())


@C15.case('quote', _quote_strategy, quick = 12000, thorough = 300000, shards = 3, fixed = [
    ('100%', None, None, False), ('89', None, None, False), ('a+b&c=d e', None, None, True), ('鈴', 'é', None, False),
])
def run_quote(case, ctx):
    value, safe, protected, query_string = case
    quoted = quote(value, safe, protected, query_string)
    allowed = ALLOWED | set(safe or '') | set(protected or '')
    if not query_string:
        allowed |= set('+&=')
    allowed = {char for char in allowed if char.isascii()}
    # reference
    expected = []
    for char in value:
        if query_string and char == ' ':
            expected.append('+')
        elif char in allowed:
            expected.append(char)
        else:
            expected.extend(f'%{byte:02X}' for byte in char.encode('utf8'))
    check_eq(quoted, ''.join(expected), 'quote()', value)
    ctx.nontrivial(quoted != value)
    ctx.note = quoted
    if '%' not in allowed and not (query_string and '+' in allowed):
        # decoding with anything standard gives the value back
        raw = quoted.replace('+', ' ') if query_string else quoted
        check_eq(unquote_to_bytes(raw).decode('utf8'), value, 'standard unquoting of quote()')
        if query_string:
            back = unquote(quoted, query_string = True)
            # these characters stay quoted when unquoted as a query string
            for char in '+&=':
                if char not in allowed:
                    check(char not in back, 'unquote(query_string = True) gave a separator back', back)
            check_eq(back.replace('%2B', '+').replace('%26', '&').replace('%3D', '='), value.replace('%2B', '+').replace('%26', '&').replace('%3D', '='), 'round-trip')
        else:
            check_eq(unquote(quoted), value, 'round-trip')


def _unquote_strategy():
    return st.tuples(st.lists(PERCENT, max_size = 10).map(''.join), st.one_of(st.none(), st.text(st.sampled_from(' /?:%+&=éűa8'), max_size = 3)), st.booleans())


@C15.case('unquote', _unquote_strategy, quick = 12000, thorough = 300000, shards = 3, fixed = [
    ('%38%39', None, False), ('a+b', None, False), ('a+b', None, True), ('abc%', None, False), ('%zz', None, False), ('%C5a%B1', None, False), ('ű', 'ű', False), ('%61', 'a', False),
])
def run_unquote(case, ctx):
    value, unsafe, query_string = case
    result = unquote(value, unsafe, query_string)
    ctx.nontrivial('%' in value)
    ctx.note = result

    def encoded(char):
        return ''.join(f'%{byte:02X}' for byte in char.encode('utf8'))

    expected = []
    index = 0
    while index < len(value):
        run = []
        while re.match('%[0-9a-fA-F]{2}', value[index:]):
            run.append(value[index : index + 3])
            index += 3
        position = 0
        while position < len(run):
            for length in (1, 2, 3, 4):
                try:
                    char = bytes(int(item[1:], 16) for item in run[position : position + length]).decode('utf8')
                except UnicodeDecodeError:
                    continue
                if len(char) != 1 or position + length > len(run):
                    continue
                if (unsafe and char in unsafe) or (query_string and char in '+&='):
                    char = encoded(char)
                expected.append(char)
                position += length
                break
            else:
                expected.append(run[position])
                position += 1
        if run:
            continue
        char = value[index]
        index += 1
        if unsafe and char in unsafe:
            char = encoded(char)
        elif query_string and char == '+':
            char = ' '
        expected.append(char)
    check_eq(result, ''.join(expected), 'unquote()', value)


# ---------------------------------------------------------------------------------------------------------------------

LABEL = st.one_of(
    st.text(st.sampled_from('abcxyz019'), min_size = 1, max_size = 5),
    st.sampled_from(['a-b', 'xn--fiq228c', 'münchen', '例え', 'www', 'example', 'a1', 'A']),
)
TLD = st.sampled_from(['com', 'uk', 'hu', 'museum', 'rs', 'рф'])
NAME = st.builds(lambda labels, tld, dot: '.'.join([*labels, tld]) + ('.' if dot else ''), st.lists(LABEL, min_size = 1, max_size = 4), TLD, st.booleans())
HOST = st.one_of(
    NAME.map(lambda value: ('name', value)), NAME.map(lambda value: ('name', value)),
    st.sampled_from([('name', 'localhost'), ('name', 'localhost.')]),
    st.builds(lambda value: ('v4', str(IPv4Address(value))), st.integers(int(IPv4Address('1.0.0.0')), int(IPv4Address('223.255.255.255')))),
    st.builds(lambda groups, form: ('v6', '[' + getattr(IPv6Address(':'.join('%x' % item for item in groups)), form) + ']'),
        st.lists(st.one_of(st.just(0), st.integers(0, 65535)), min_size = 8, max_size = 8), st.sampled_from(['compressed', 'exploded'])),
)
USER_TEXT = st.text(st.one_of(st.sampled_from('abz09-._~!$&\'()*+,;=%:@/? #[]'), st.sampled_from('éű鈴')), min_size = 1, max_size = 8)
SEGMENT = st.one_of(
    st.text(st.one_of(st.sampled_from('abz09-._~!$&\'()*+,;=%:@? #[]"<>'), st.sampled_from('éű鈴😀')), min_size = 1, max_size = 8),
    st.sampled_from(['a', 'b', '...', '.a', '100%', '%20', '%2F', 'a+b', '89', 'a/b', '/']),
).filter(lambda value: value not in ('.', '..'))
QUERY_TEXT = st.text(st.one_of(st.sampled_from('abz09-._~!$&\'()*+,;=%:@/? #[]"<>'), st.sampled_from('éű鈴😀')), max_size = 8)
QUERY = st.lists(st.tuples(QUERY_TEXT, QUERY_TEXT).filter(lambda item: item[0] or item[1]), max_size = 5)
PORT = st.one_of(st.none(), st.sampled_from([80, 443, 10, 8080, 65535]), st.integers(0, 65535))
SCHEME = st.sampled_from(['http', 'https', 'ws', 'wss', 'ftp', 'svn+ssh'])

C16 = Property(
    'C16',
    rule = (
        'Case = components of an url (scheme, user, password, host name / IPv4 / IPv6, port, path segments, query, fragment) with reserved and non-ASCII characters and a replacement. '
        'Non-trivial = at least 3 of the optional components are present.'
    ),
    assumptions = ['the first path segment is not empty (such segments are merged by design)'],
)
DEFAULT_PORTS = {'http': 80, 'https': 443, 'ws': 80, 'wss': 443}


def _url_strategy():
    return st.tuples(
        SCHEME, st.one_of(st.none(), USER_TEXT), st.one_of(st.none(), USER_TEXT), HOST, PORT,
        st.lists(SEGMENT, max_size = 4), QUERY, st.one_of(st.none(), QUERY_TEXT.filter(bool)), st.booleans(),
        st.sampled_from(['scheme', 'user', 'password', 'host', 'port', 'query', 'fragment', 'name', 'origin', 'relative']),
        st.one_of(st.none(), USER_TEXT), HOST, PORT, SEGMENT, QUERY,
    )


def _query_items(query):
    # keys are sorted
    result = []
    for key in sorted({key for key, value in query}):
        for value in [value for item, value in query if item == key]:
            if (key, value) not in result:
                result.append((key, value))
    return result


def _idna(value):
    try:
        value.encode('ascii')
    except UnicodeEncodeError:
        return value.encode('idna').decode('ascii')
    return value


def _snapshot(url):
    query = url.query
    return {
        'scheme': url.scheme, 'user': url.user, 'password': url.password, 'host': url.raw_host, 'port': url._port,
        'parts': url.parts or (), 'query': [] if query is None else _query_items([*query.items()]), 'fragment': url.fragment,
    }


def _q(value):
    return std_quote(value, safe = '')


def _form(components):
    built = [components['scheme'], '://']
    if components['user'] is not None or components['password'] is not None:
        if components['user'] is not None:
            built.append(_q(components['user']))
        if components['password'] is not None:
            built.append(':' + _q(components['password']))
        built.append('@')
    built.append(_idna(components['host']))
    if components['port'] is not None:
        built.append(f':{components["port"]}')
    for part in components['parts']:
        built.append('/' + _q(part))
    if components['query']:
        built.append('?' + '&'.join(f'{std_quote_plus(key)}={std_quote_plus(value)}' for key, value in components['query']))
    if components['fragment'] is not None:
        built.append('#' + _q(components['fragment']))
    return ''.join(built)


@C16.case('components', _url_strategy, quick = 8000, thorough = 120000, shards = 4)
def run_url(case, ctx):
    scheme, user, password, (host_kind, host), port, parts, query, fragment, with_user, change, new_user, (new_kind, new_host), new_port, new_name, new_query = case
    if not with_user:
        user = password = None
    components = {
        'scheme': scheme, 'user': user, 'password': password, 'host': host, 'port': port, 'parts': tuple(parts),
        'query': _query_items(query), 'fragment': fragment,
    }
    ctx.nontrivial(sum(bool(item) for item in (user, password, port, parts, query, fragment)) >= 3)
    text = _form({**components, 'query': query})
    ctx.note = text
    url = URL(text, encoded = True)

    def verify(url, components, what):
        expected = {**components, 'host': _idna(components['host'])}
        check_eq(_snapshot(url), expected, f'components of {what}', str(text))
        kind = 'v6' if components['host'].startswith('[') else 'v4' if re.fullmatch('[0-9.]+', components['host']) else 'name'
        check_eq((url.is_host_ip(), url.is_host_ip_v4(), url.is_host_ip_v6()), (kind != 'name', kind == 'v4', kind == 'v6'), f'host kind of {what}')
        check_eq(url.port, components['port'] if components['port'] is not None else DEFAULT_PORTS.get(components['scheme']), f'port of {what}')
        check_eq(url.is_default_port(), components['scheme'] in DEFAULT_PORTS and url.port == DEFAULT_PORTS[components['scheme']], f'is_default_port() of {what}')
        raw_host = _idna(components['host'])
        # hosts given decoded stay as they were given
        if not ('xn--' in components['host'] and what == 'url with host replaced'):
            check_eq(url.host, raw_host if kind == 'v6' else raw_host.encode('ascii').decode('idna'), f'decoded host of {what}')
        if all(re.fullmatch('[a-z0-9éű鈴\\-]*', item) for item in (components['user'] or '', components['password'] or '', *components['parts'], *[item for pair in components['query'] for item in pair], components['fragment'] or '')):
            # nothing to quote, so the decoded form is the same url too
            again = URL(url.value_decoded)
            check_eq(_snapshot(again), expected, f'components of the {what} parsed from its decoded form', str(url))
            check('xn--' in raw_host or again == url and hash(again) == hash(url), 'decoded and encoded urls differ', str(url))
        # the encoded form is plain ASCII, and it is the same url
        encoded = url.value_encoded
        check(encoded.isascii() and not re.search(r'[\s"<>\\^`{|}]', encoded), f'not an encoded url: {what}', encoded)
        again = URL(encoded, encoded = True)
        check_eq(_snapshot(again), expected, f'components of the reparsed {what}', encoded)
        check_eq(again.value_encoded, encoded, f'reserialization of {what}')
        check(again == url and hash(again) == hash(url) and not (again != url) and again <= url and again >= url, f'reparsed {what} is not equal')
        check_eq(bool(url), True, 'bool(url)')
        repr(url), str(url)

    verify(url, components, 'url')

    changed = dict(components)
    if change == 'scheme':
        new = url.with_scheme('https')
        changed['scheme'] = 'https'
    elif change == 'user':
        new = url.with_user(new_user)
        changed['user'] = new_user
    elif change == 'password':
        new = url.with_password(new_user)
        changed['password'] = new_user
    elif change == 'host':
        new = url.with_host(new_host)
        changed['host'] = new_host
    elif change == 'port':
        new = url.with_port(new_port)
        changed['port'] = new_port
    elif change == 'query':
        new = url.with_query([*new_query])
        changed['query'] = _query_items(new_query)
    elif change == 'fragment':
        new = url.with_fragment(new_user)
        changed['fragment'] = new_user
    elif change == 'name':
        new = url.with_name(new_name)
        changed['parts'] = (*parts[:-1], new_name)
    elif change == 'origin':
        new = url.origin()
        changed.update(user = None, password = None, parts = (), query = [], fragment = None)
    elif change == 'relative':
        new = url.relative()
        check_eq(_snapshot(new), {**components, 'scheme': None, 'user': None, 'password': None, 'host': None, 'port': None}, 'relative()')
        check(not new.is_absolute(), 'relative().is_absolute()')
        check_eq(_snapshot(URL(new.value_encoded, encoded = True)), _snapshot(new), 'reparsed relative()')
        new = None
    if new is not None:
        verify(new, changed, f'url with {change} replaced')
        # a total order, which agrees with equality
        same = url.value_encoded == new.value_encoded
        order = (url < new, url == new, url > new)
        check(sum(order) == 1 and order[1] == same, 'the order of two urls is not total', str(url), str(new), order)
        check_eq((url <= new, url != new, url >= new), (order[0] or same, not same, order[2] or same), 'order of two urls', str(url), str(new))
        check_eq((new < url, new <= url, new > url, new >= url), (url > new, url >= new, url < new, url <= new), 'mirrored order of two urls', str(url), str(new))
    verify(url, components, 'url after the replacement')


# ---------------------------------------------------------------------------------------------------------------------

C17 = Property(
    'C17',
    rule = 'Case = query strings / items or path operations. Non-trivial = at least two items / a dot segment.',
)


def _query_string_strategy():
    piece = st.one_of(
        st.sampled_from(['a', 'b', 'key', '&', '&', '=', '=', '+', '%20', '%26', '%3D', '%2B', '%25', '%C5%B1', '%38', '?', '/', ':', '@', ';', '%', '%4', '']),
    )
    return st.tuples(st.lists(piece, max_size = 14).map(''.join), QUERY, st.sampled_from(['list', 'dict', 'lists', 'string', 'set']), QUERY)


@C17.case('query', _query_string_strategy, quick = 8000, thorough = 120000, shards = 2)
def run_query(case, ctx):
    text, items, kind, extension = case
    url = URL('http://example.com/?' + text, encoded = True)
    expected = parse_qsl(text, keep_blank_values = True)
    ctx.nontrivial(len(expected) > 1 or len(items) > 1)
    got = [] if url.query is None else _query_items([*url.query.items()])
    if any('\ufffd' in key or '\ufffd' in value for key, value in expected):
        # undecodable bytes: the standard library replaces them
        return
    check_eq(got, _query_items(expected), 'parsed query', text)
    # serialized with anything standard parses back to the same
    raw = url.raw_query_string
    check_eq(_query_items(parse_qsl(raw or '', keep_blank_values = True)), _query_items(expected), 'serialized query', text)

    # values of any type
    if kind == 'dict':
        source = dict(items)
        flat = [*source.items()]
    elif kind == 'lists':
        source = {}
        for key, value in items:
            source.setdefault(key, []).append(value)
        flat = items
    elif kind == 'set':
        source = set(items)
        flat = items
    elif kind == 'string':
        if any(set(key) & set('&=') or '&' in value for key, value in items):
            return
        source = '&'.join(f'{key}={value}' for key, value in items)
        flat = items
    else:
        source = [*items]
        flat = items
    new = URL('http://example.com/').with_query(source)
    check_eq(sorted(parse_qsl(new.raw_query_string or '', keep_blank_values = True)), sorted(_query_items(flat)), f'with_query({kind})')
    before = [] if new.query is None else sorted(new.query.items())
    extended = new.extend_query([*extension])
    check_eq(sorted(_query_items(parse_qsl(extended.raw_query_string or '', keep_blank_values = True))), sorted(_query_items([*flat, *extension])), 'extend_query()')
    check_eq([] if new.query is None else sorted(new.query.items()), before, 'url after it was extended')
    cleared = extended.with_query(None)
    check(cleared.query is None and cleared.raw_query_string is None, 'with_query(None)')


def _value_strategy():
    value = st.one_of(st.integers(), st.booleans(), st.none(), st.floats(), st.text(st.sampled_from('ab&=+ %'), max_size = 4), st.datetimes())
    values = st.lists(value, max_size = 3)
    value = st.one_of(value, value, values, values.map(tuple))
    return st.lists(st.tuples(st.sampled_from('abc'), value), max_size = 5)


@C17.case('values', _value_strategy, quick = 1500, thorough = 20000)
def run_values(case, ctx):
    expected = []
    bad = False
    for key, value in [(key, value) for key, values in case for value in (values if isinstance(values, (list, tuple)) else [values])]:
        if isinstance(value, bool):
            value = 'true' if value else 'false'
        elif value is None:
            value = 'null'
        elif isinstance(value, float):
            bad |= value != value or value in (float('inf'), float('-inf'))
            value = str(value)
        elif isinstance(value, str):
            pass
        elif isinstance(value, int):
            value = str(value)
        else:
            value = value.isoformat()
        expected.append((key, value))
    ctx.nontrivial(len(case) > 1)
    try:
        url = URL('http://example.com/').with_query([*case])
    except ValueError:
        check(bad, 'with_query() raised')
        return
    check(not bad, 'nan / inf accepted')
    check_eq(parse_qsl(url.raw_query_string or '', keep_blank_values = True), _query_items(expected), 'with_query()')


def _path_strategy():
    part = st.one_of(st.sampled_from(['a', 'b', 'c', '.', '..', '..', 'a b', '...', 'é', '100%', 'a+b', 'a/b', '/', '%2F', 'a/..', '../b']))
    parts = st.lists(part, max_size = 7)
    return st.tuples(parts, parts, st.sampled_from(['truediv', 'join', 'parent', 'with_name', 'parse']), part, st.booleans())


def normalize(parts):
    """Model: dot segments removed with a stack; a trailing dot leaves a directory."""
    stack = []
    trailing = bool(parts) and parts[-1] == '.'
    for part in parts:
        if part == '.':
            continue
        if part == '..':
            if stack:
                stack.pop()
        else:
            stack.append(part)
    if trailing and stack:
        stack.append('')
    return tuple(stack)


@C17.case('path', _path_strategy, quick = 6000, thorough = 80000, fixed = [(['a', '..', '..', 'b'], [], 'parse', 'a', False)])
def run_path(case, ctx):
    parts, others, operation, name, encoded = case
    ctx.nontrivial('..' in parts or '.' in parts or name in ('..', '.'))
    text = 'http://example.com/' + '/'.join(_q(part) for part in parts)
    url = URL(text, encoded = True)
    base = normalize(parts)
    check_eq(url.parts or (), base, 'parsed path', text)
    if not base:
        check_eq(url.raw_path, '/', 'empty path')
    check_eq(url.name, base[-1] if base else '', 'name')
    if base and base[-1] == '':
        return
    if operation == 'truediv':
        new = url / name
        expected = normalize([*base, name])
    elif operation == 'join':
        other = URL('/' + '/'.join(_q(part) for part in others), encoded = True)
        new = url.join(other)
        expected = normalize([*base, *normalize(others)])
    elif operation == 'parent':
        new = url.parent
        expected = base[:-1]
    elif operation == 'with_name':
        new = url.with_name(name)
        expected = normalize([*base[:-1], name])
    else:
        new = URL(url.value_encoded, encoded = True)
        expected = base
        check(new == url, 'reparsed url')
    check_eq(new.parts or (), expected, operation)
    check_eq(new.host, 'example.com', 'host')
    check_eq(URL(new.value_encoded, encoded = True).parts or (), expected, f'reparsed after {operation}')
