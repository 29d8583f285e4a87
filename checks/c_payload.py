"""C25 - C26: header values; payloads, forms and multipart bodies."""
import base64, binascii, io, json, os, quopri, re, shutil, tempfile, zlib
from urllib.parse import parse_qsl

import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import IgnoreCaseMultiValueDictionary, Task
from scarletio.web_common import BasicAuthorization, HttpReadProtocol
from scarletio.web_common.content_type import ContentType, parse_content_type
from scarletio.web_common.exceptions import PayloadError
from scarletio.web_common.form_data import FormData
from scarletio.web_common.header_building_and_parsing import (
    build_content_disposition_header, build_extensions, build_subprotocols, parse_connections, parse_extensions,
    parse_subprotocols, parse_upgrades,
)
from scarletio.web_common.multipart import MultipartWriter, create_payload

C25 = Property(
    'C25',
    rule = (
        'lists: lists of extensions / options / upgrades, rendered with generated white space, empty elements and quoting. '
        'disposition / authorization / content_type: values of any text. garbage: any text given to each of the parsers. '
        'Non-trivial = two or more elements, a value needing quoting or escaping, respectively any garbage which is accepted.'
    ),
)
C26 = Property(
    'C26',
    rule = (
        'Case = a form or a multipart body of up to 4 parts (bytes-likes, text, text and binary files, async iterables, json, '
        'nested) with names, file names, content types, transfer and content encodings, written to a collecting writer and '
        'parsed by a reference parser. Non-trivial = two or more parts, or an encoded or file part.'
    ),
)

TOKEN = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
token_strategy = st.text(alphabet = TOKEN, min_size = 1, max_size = 6)
space_strategy = st.sampled_from(['', '', ' ', '\t', '  '])
text_strategy = st.one_of(
    st.text(alphabet = 'ab "\\;,=\'()*/%.é漢', max_size = 12),
    st.text(alphabet = st.characters(min_codepoint = 0, max_codepoint = 0x2ff), max_size = 6),
    st.sampled_from(['', 'file.txt', 'a;b', '\\', '"', "utf-8''x", 'C:\\dir\\f.txt', '\U0001f600', 'a\r\nb', 'x\ny', '\x00', '\x7f']),
)


# ---- C25 lists ----

class Extension:
    def __init__(self, name, parameters):
        self.name = name
        self.request_params = parameters


def _join(parts, spaces, empties):
    """Joins elements with , and generated white space and empty elements"""
    index = 0
    result = []
    for position, part in enumerate(parts):
        if position:
            result.append(spaces[index % len(spaces)] + ',' + ',' * empties[index % len(empties)] + spaces[(index + 1) % len(spaces)])
            index += 1
        result.append(part)
    return spaces[0] + ''.join(result) + spaces[-1]


lists_strategy = st.tuples(
    st.lists(st.tuples(
        token_strategy, st.lists(st.tuples(token_strategy, st.one_of(st.none(), token_strategy), st.booleans()), max_size = 3),
    ), max_size = 4),
    st.lists(st.tuples(token_strategy, st.one_of(st.none(), token_strategy)), max_size = 4),
    st.lists(space_strategy, min_size = 2, max_size = 5),
    st.lists(st.integers(0, 2), min_size = 1, max_size = 3),
)


@C25.case('lists', lambda: lists_strategy, quick = 700, thorough = 30000)
def run_lists(case, ctx):
    extensions, upgrades, spaces, empties = case
    expected = [(name, [(key, value) for key, value, quoted in parameters]) for name, parameters in extensions]
    if len(extensions) > 1 or len(upgrades) > 1:
        ctx.nontrivial()
    built = build_extensions([Extension(*item) for item in expected])
    check_eq(parse_extensions(built), expected, 'extensions built and parsed', built)
    index = 0

    def space():
        nonlocal index
        index += 1
        return spaces[index % len(spaces)]

    parts = []
    for name, parameters in extensions:
        part = name
        for key, value, quoted in parameters:
            part += f'{space()};{space()}{key}'
            if value is not None:
                part += f'{space()}={space()}' + (f'"{value}"' if quoted else value)
        parts.append(part)
    rendered = _join(parts, spaces, empties)
    check_eq(parse_extensions(rendered), expected, 'extensions parsed', rendered)

    names = [name for name, version in upgrades]
    check_eq(parse_subprotocols(build_subprotocols(names)), names, 'sub-protocols built and parsed')
    rendered = _join(names, spaces, empties)
    check_eq(parse_connections(rendered), names, 'connection options parsed', rendered)
    upgrades = [name if version is None else f'{name}/{version}' for name, version in upgrades]
    rendered = _join(upgrades, spaces, empties)
    check_eq(parse_upgrades(rendered), upgrades, 'upgrades parsed', rendered)


# ---- C25 content disposition ----

def parse_disposition(value):
    """Reference parser of RFC 6266 / 2231 / 7578 values."""
    match = re.match(f'[{re.escape(TOKEN)}]+', value)
    check(match is not None, 'no disposition type', value)
    kind = match.group()
    position = match.end()
    parameters = []
    while position < len(value):
        match = re.compile(f';[ \t]*([{re.escape(TOKEN)}]+)=').match(value, position)
        check(match is not None, 'malformed content disposition', value, position)
        key = match.group(1)
        position = match.end()
        if key.endswith('*'):
            match = re.compile("([uU][tT][fF]-8)'([^']*)'((?:[!#$&+.^_`|~0-9A-Za-z-]|%[0-9A-Fa-f]{2})*)(?=;|$)").match(value, position)
            check(match is not None, 'malformed extended value in content disposition', value, value[position:])
            parameters.append((key[:-1], re.sub(
                rb'%(..)', lambda match: bytes([int(match.group(1), 16)]), match.group(3).encode(),
            ).decode('utf8')))
        else:
            match = re.compile(r'"((?:[^"\\\x00-\x08\x0a-\x1f\x7f]|\\[^\x00-\x08\x0a-\x1f\x7f])*)"(?=;|$)').match(value, position)
            check(match is not None, 'malformed quoted value in content disposition', value, value[position:])
            parameters.append((key, re.sub(r'\\(.)', r'\1', match.group(1))))
        position = match.end()
    return kind, parameters


@C25.case(
    'disposition',
    lambda: st.tuples(
        st.one_of(st.sampled_from(['form-data', 'attachment', 'inline']), text_strategy, token_strategy),
        st.dictionaries(
            st.one_of(st.sampled_from(['name', 'filename', 'file_name']), token_strategy.filter(lambda key: not key.endswith('*')), text_strategy),
            text_strategy, max_size = 3,
        ).filter(lambda parameters: not {'filename', 'file_name'} <= {*parameters}),
        st.booleans(),
    ), quick = 1000, thorough = 40000,
)
def run_disposition(case, ctx):
    kind, parameters, quote_fields = case
    valid = bool(kind) and not set(kind) - set(TOKEN) and all(key and not set(key) - set(TOKEN) for key in parameters)
    if any(key.endswith('*') for key in parameters):
        return
    try:
        value = build_content_disposition_header(kind, dict(parameters), quote_fields)
    except ValueError:
        if not quote_fields and any(set(value) & CONTROLS for value in parameters.values()):
            return
        check(not valid, 'valid parameters refused', case)
        return
    check(valid, 'not a token is written as it is', value, case)
    ctx.nontrivial(any(set(value) - set(TOKEN) for value in parameters.values()))
    check(not set(value) & CONTROLS - {'\t'}, 'control characters in a header', value)
    got_kind, got = parse_disposition(value)
    check_eq(got_kind, kind, 'disposition type')
    expected = [('filename' if key == 'file_name' else key, value) for key, value in parameters.items()]
    if not quote_fields and any(set(value) & CONTROLS for key, value in expected):
        # these can not be represented
        expected = [(key, None) for key, value in expected]
        got = [(key, None) for key, value in got]
    check_eq(got, expected, 'content disposition parameters', value)


CONTROLS = {*(chr(index) for index in range(32)), '\x7f'} - {'\t'}


# ---- C25 authorization ----

@C25.case(
    'authorization',
    lambda: st.tuples(
        st.text(max_size = 8), st.one_of(st.text(max_size = 8), st.sampled_from(['a\nb', ':', 'x:y', '\n', ' '])),
        st.sampled_from(['latin1', 'latin1', 'utf8', 'utf-16', 'utf-32', 'cp1250']), space_strategy, space_strategy,
        st.sampled_from(['Basic', 'basic', 'BASIC']),
    ), quick = 600, thorough = 20000,
)
def run_authorization(case, ctx):
    user_id, password, encoding, before, after, word = case
    try:
        f'{user_id}:{password}'.encode(encoding)
    except UnicodeEncodeError:
        user_id = user_id.encode('ascii', 'replace').decode()
        password = password.encode('ascii', 'replace').decode()
    try:
        authorization = BasicAuthorization(user_id, password, encoding = encoding)
    except ValueError:
        check(':' in user_id, 'user id refused', user_id)
        return
    check(':' not in user_id, 'user id with : accepted', user_id)
    header = authorization.to_header()
    ctx.nontrivial(bool(user_id or password))
    check_eq(header, 'Basic ' + base64.b64encode(f'{user_id}:{password}'.encode(encoding)).decode('ascii'), 'header')
    for rendered in (header, f'{before}{word}{before or " "}{header[6:]}{after}'):
        again = BasicAuthorization.from_header(rendered, encoding = encoding)
        check_eq((again.user_id, again.password), (user_id, password), 'read back', rendered)
        check(again == authorization and hash(again) == hash(authorization), 'read back is not equal', rendered)
    repr(authorization)


# ---- C25 content type ----

ct_token_strategy = st.text(alphabet = "abcXYZ019!#$%&*.^_`|~-", min_size = 1, max_size = 6)


@C25.case(
    'content_type',
    lambda: st.tuples(
        ct_token_strategy, st.one_of(st.none(), ct_token_strategy), st.one_of(st.none(), ct_token_strategy),
        st.lists(st.tuples(ct_token_strategy, st.text(alphabet = 'abZ09 "\\;=/,\té', max_size = 8), st.booleans()), max_size = 3),
        st.lists(space_strategy, min_size = 2, max_size = 5),
    ), quick = 800, thorough = 30000,
)
def run_content_type(case, ctx):
    type_, sub_type, suffix, parameters, spaces = case
    index = 0

    def space():
        nonlocal index
        index += 1
        return spaces[index % len(spaces)]

    value = space() + type_
    if sub_type is None:
        suffix = None
    else:
        value += f'{space()}/{space()}{sub_type}'
        if suffix is not None:
            value += f'{space()}+{space()}{suffix}'
    value += space()
    expected = {}
    for key, item, quoted in parameters:
        plain = item and not set(item) - set("abZ09é")
        rendered = item if plain and not quoted else '"' + re.sub(r'["\\]', r'\\\g<0>', item) + '"'
        value += f';{space()}{key}{space()}={space()}{rendered}{space()}'
        values = expected.setdefault(key.casefold(), [])
        if item not in values:
            values.append(item)
    ctx.nontrivial(bool(parameters))
    content_type, error = parse_content_type(value)
    check_eq(error, None, 'error of a valid content type', value)
    if type_ == '*' and sub_type is None:
        sub_type = '*'
    check_eq(
        (content_type.type, content_type.sub_type, content_type.suffix),
        (type_.casefold(), sub_type and sub_type.casefold(), suffix and suffix.casefold()), 'content type', value,
    )
    got = {} if content_type.parameters is None else {key: content_type.parameters.get_all(key) for key in content_type.parameters}
    check_eq(got, expected, 'content type parameters', value)
    for key, values in expected.items():
        check(content_type.get_parameter(key) in values, 'get_parameter', key, value)
    again, error = parse_content_type(value)
    check(again == content_type, 'same content types are different', value)
    check_eq(hash(again), hash(content_type), 'hashes of equal content types', value)
    repr(content_type)


@C25.case(
    'garbage',
    lambda: st.one_of(
        st.text(alphabet = 'aB1/;=,"\\ \t*\'+:%é\n\r', max_size = 16), st.text(max_size = 8),
        st.text(alphabet = 'aGVsbG8=:+/ \tBasicbasic', max_size = 20), st.text(alphabet = 'aGVs6OjpAg==', max_size = 12).map('Basic {}'.format),
        st.binary(max_size = 8).map(lambda data: 'Basic ' + base64.b64encode(data).decode()),
    ), quick = 2500, thorough = 200000,
)
def run_garbage(case, ctx):
    for parser in (parse_extensions, parse_connections, parse_upgrades, BasicAuthorization.from_header):
        try:
            result = parser(case)
        except ValueError:
            continue
        except Exception as exception:
            raise Violation('a received header value raised something else than ValueError', parser.__name__, case, repr(exception))
        ctx.nontrivial()
        if parser is parse_extensions:
            check_eq(parse_extensions(build_extensions([Extension(*item) for item in result])), result, 'built of what got parsed', case)
        elif parser == BasicAuthorization.from_header:
            check_eq(BasicAuthorization.from_header(result.to_header()), result, 'built of what got parsed', case)
        else:
            check_eq(parser(', '.join(result)), result, 'built of what got parsed', case)
    try:
        content_type, error = parse_content_type(case)
        repr(content_type), repr(error)
        hash(content_type), hash(error)
    except Exception as exception:
        raise Violation('parse_content_type raised', case, repr(exception))
    check(isinstance(content_type, ContentType), 'no content type', case)
    if error is not None:
        check(0 <= error.index <= len(case), 'index of an error', error.index)


# ---- C26 ----

SCRATCH = None


def scratch_path():
    global SCRATCH
    if SCRATCH is None:
        import atexit
        SCRATCH = tempfile.mkdtemp(prefix = 'c26-')
        atexit.register(shutil.rmtree, SCRATCH, True)
    return os.path.join(SCRATCH, 'file.txt')


class Collector:
    def __init__(self):
        self.data = []

    async def write(self, chunk):
        check(isinstance(chunk, (bytes, bytearray, memoryview)), 'not bytes are written', type(chunk))
        self.data.append(bytes(chunk))

    def get(self):
        return b''.join(self.data)


class Chunks:
    def __init__(self, chunks):
        self.chunks = chunks

    async def __aiter__(self):
        for chunk in self.chunks:
            yield chunk


content_strategy = st.one_of(
    st.binary(max_size = 12), st.text(alphabet = 'ab =\r\n.\t-', max_size = 20).map(str.encode),
    st.integers(60, 200).map(lambda length: (b'line of text = \t\r\n' * 20)[:length]),
    st.integers(70, 90).map(lambda length: b'x' * length),
    st.integers(65500, 65600).map(lambda length: (b'0123456789\n' * 7000)[:length]),
)
body_text_strategy = st.one_of(
    st.text(alphabet = 'ab =\r\né', max_size = 16), st.integers(70, 90).map(lambda length: 'x' * length),
    st.integers(65500, 65600).map(lambda length: ('é 123456\r\n' * 7000)[:length]),
)
KINDS = [
    'bytes', 'bytearray', 'memoryview', 'items', 'bytesio', 'file', 'file+', 'raw', 'temporary', 'iterable', 'str', 'str', 'stringio',
    'textfile', 'json', 'form', 'nested',
]
part_strategy = st.fixed_dictionaries(dict(
    kind = st.sampled_from(KINDS), content = content_strategy, text = body_text_strategy, skip = st.integers(0, 4),
    json = st.recursive(
        st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size = 4)),
        lambda inner: st.one_of(st.lists(inner, max_size = 3), st.dictionaries(st.text(max_size = 3), inner, max_size = 3)), max_leaves = 5,
    ),
    form = st.lists(st.tuples(st.text(alphabet = 'ab é&=+', max_size = 4), st.text(alphabet = 'ab é&=+', max_size = 4)), max_size = 3),
    type = st.sampled_from([None, None, None, 'text/x-thing', 'text/plain; charset=latin-1', 'text/plain; charset="utf-16"', 'application/json']),
    transfer = st.sampled_from([None, None, None, 'base64', 'BASE64', 'quoted-printable', 'quoted-printable', 'binary', '']),
    encoding = st.sampled_from([None, None, None, 'gzip', 'deflate', 'Gzip', 'identity']),
    extra = st.sampled_from([None, None, ('X-Extra', 'value')]),
    newline = st.sampled_from([None, '', '\n', '\r\n']),
    file_encoding = st.sampled_from(['utf-8', 'utf-16', 'latin-1']),
))


def open_body(part):
    """Returns the body to send and the bytes / text it means"""
    kind = part['kind']
    content = part['content']
    skip = min(part['skip'], len(content))
    if kind == 'bytes':
        return content, content
    if kind == 'bytearray':
        return bytearray(content), content
    if kind == 'memoryview':
        return memoryview(content), content
    if kind == 'items':
        content = content[:len(content) // 2 * 2]
        return memoryview(content).cast('H'), content
    if kind == 'bytesio':
        body = io.BytesIO(content)
        body.seek(skip)
        return body, content[skip:]
    if kind in ('file', 'file+', 'raw'):
        path = scratch_path()
        with open(path, 'wb') as file:
            file.write(content)
        body = open(path, 'rb', 0) if kind == 'raw' else open(path, 'rb' if kind == 'file' else 'rb+')
        body.read(skip)
        return body, content[skip:]
    if kind == 'temporary':
        body = tempfile.TemporaryFile()
        body.write(content)
        body.seek(skip)
        return body, content[skip:]
    if kind == 'iterable':
        step = 1 + part['skip'] * 7
        return Chunks([content[index : index + step] for index in range(0, len(content), step)]), content
    text = part['text']
    if kind == 'str':
        return text, text
    if kind == 'stringio':
        return io.StringIO(text, ''), text
    if kind == 'textfile':
        path = scratch_path()
        with open(path, 'w', encoding = part['file_encoding'], newline = '') as file:
            file.write(text)
        body = open(path, encoding = part['file_encoding'], newline = part['newline'])
        with open(path, encoding = part['file_encoding'], newline = part['newline']) as file:
            text = file.read()
        return body, text
    raise RuntimeError(kind)


def charset_of(content_type, default = 'utf-8'):
    match = re.search('charset="?([^;"]+)', content_type)
    return match.group(1) if match else default


def parse_multipart(data, boundary):
    """Reference parser of multipart bodies; gives (headers, body) pairs"""
    delimiter = b'--' + boundary
    parts = []
    check(data.startswith(delimiter), 'a multipart body does not start with its boundary', data[:200])
    position = len(delimiter)
    while True:
        if data[position : position + 2] == b'--':
            check_eq(data[position + 2:], b'\r\n', 'after the closing boundary')
            return parts
        check_eq(data[position : position + 2], b'\r\n', 'after a boundary', data[max(0, position - 100) : position + 100])
        position += 2
        end = data.index(b'\r\n\r\n', position)
        headers = []
        for line in data[position : end].split(b'\r\n'):
            check(b':' in line and b'\r' not in line and b'\n' not in line, 'malformed header line in a part', line)
            key, value = line.split(b':', 1)
            headers.append((key.decode().casefold(), value.decode().strip()))
        position = end + 4
        end = data.find(b'\r\n' + delimiter, position)
        check(end >= 0, 'a part has no end', data[position : position + 100])
        parts.append((headers, data[position : end]))
        position = end + 2 + len(delimiter)


def header_of(headers, name):
    values = [value for key, value in headers if key == name]
    check(len(values) <= 1, 'a header is there more than once in a part', headers)
    return values[0] if values else None


def decode_part(headers, body):
    transfer = (header_of(headers, 'content-transfer-encoding') or '').casefold()
    length = header_of(headers, 'content-length')
    if length is not None:
        check_eq(int(length), len(body), 'content length of a part', headers)
    if transfer == 'base64':
        body = base64.b64decode(body, validate = True)
    elif transfer == 'quoted-printable':
        for line in re.split(b'\r\n|\n', body):
            check(len(line) <= 76 and not line.endswith((b' ', b'\t')), 'malformed quoted-printable line', line)
        body = binascii.a2b_qp(body)
    encoding = (header_of(headers, 'content-encoding') or '').casefold()
    if encoding in ('gzip', 'deflate'):
        decompressor = zlib.decompressobj(wbits = 31 if encoding == 'gzip' else 15)
        try:
            body = decompressor.decompress(body)
        except zlib.error as exception:
            raise Violation('content encoding of a part is not what it tells', encoding, repr(exception))
        check(decompressor.eof and not decompressor.unused_data, 'compressed part is not ended', encoding)
    return body


async def _write_and_size(payload):
    collector = Collector()
    await payload.write(collector)
    data = collector.get()
    if payload.size is not None:
        check_eq(payload.size, len(data), 'size of a payload and what it wrote', type(payload).__name__, data[:200])
    return data


def _build_part(writer, part, ctx):
    """Adds the part to the writer and returns what is expected."""
    kind = part['kind']
    headers = IgnoreCaseMultiValueDictionary()
    expected_headers = {}
    for key, name in (('type', 'Content-Type'), ('transfer', 'Content-Transfer-Encoding'), ('encoding', 'Content-Encoding')):
        if part[key] is not None and not (key == 'type' and kind in ('json', 'form', 'nested')):
            headers[name] = part[key]
            expected_headers[name.casefold()] = part[key]
    if part['extra'] is not None:
        headers[part['extra'][0]] = part['extra'][1]
        expected_headers[part['extra'][0].casefold()] = part['extra'][1]
    if part['transfer'] or part['encoding'] or kind in ('file', 'textfile', 'nested', 'temporary'):
        ctx.nontrivial()
    ctx.label(kind)
    if kind == 'json':
        writer.append_json(part['json'], headers)
        return ('json', part['json'], {'content-type': 'application/json', **expected_headers})
    if kind == 'form':
        writer.append_form(part['form'], headers)
        return ('form', part['form'], {'content-type': 'application/x-www-form-urlencoded', **expected_headers})
    if kind == 'nested':
        inner = MultipartWriter('mixed')
        inner.append(part['content'])
        inner.append(part['text'])
        writer.append(inner, headers)
        return ('nested', (inner.boundary.encode(), part['content'], part['text']), expected_headers)
    body, content = open_body(part)
    if isinstance(content, str):
        try:
            content.encode(charset_of(part['type'] or ''))
        except UnicodeEncodeError:
            content = ''
            body = ''
    writer.append(body, headers)
    return ('content', content, expected_headers)


def _check_part(what, headers, body, charset = 'utf-8'):
    kind, expected, expected_headers = what
    for key, value in expected_headers.items():
        check_eq(header_of(headers, key), value, f'header {key} of a part', headers)
    content_type = header_of(headers, 'content-type')
    check(content_type is not None, 'a part has no content type', headers)
    if kind == 'json':
        check_eq(json.loads(body), expected, 'json part')
    elif kind == 'form':
        check_eq(parse_qsl(body.decode('ascii'), True), [(key, value) for key, value in expected], 'form part', body)
    elif kind == 'nested':
        inner = parse_multipart(body, expected[0])
        check_eq([body for headers, body in inner], [expected[1], expected[2].encode('utf8')], 'nested parts')
    elif isinstance(expected, str):
        try:
            got = body.decode(charset_of(content_type, charset))
        except UnicodeDecodeError as exception:
            raise Violation('text can not be decoded by its charset', content_type, body[:100], repr(exception))
        if got != expected:
            raise Violation('text of a part differs', content_type, got[:100], expected[:100], len(got), len(expected))
    elif body != expected:
        raise Violation('content of a part differs', body[:100], expected[:100], len(body), len(expected), headers)


async def _multipart_program(sim, case, ctx):
    parts, subtype, boundary, cuts, rest = case
    if len(parts) > 1:
        ctx.nontrivial()
    if boundary is not None and any(boundary.encode() in part['content'] or boundary in part['text'] for part in parts):
        boundary = None
    # boundaries are not longer than 70 and are not ended by space
    writer = MultipartWriter(subtype, boundary)
    wire_boundary = writer.boundary.encode()
    content_type, error = parse_content_type(writer.headers['Content-Type'])
    check_eq(error, None, 'content type of a multipart body', writer.headers)
    check_eq(content_type.get_parameter('boundary'), writer.boundary, 'boundary in the content type', writer.headers)
    # the same file is used for each file like
    seen = set()
    expected = []
    for part in parts:
        if part['kind'] in ('file', 'file+', 'raw', 'textfile'):
            if seen:
                continue
            seen.add(part['kind'])
        expected.append(_build_part(writer, part, ctx))
    data = await _write_and_size(writer)
    if not expected:
        check_eq(data, b'--' + wire_boundary + b'--\r\n', 'multipart body without parts')
        return
    got = parse_multipart(data, wire_boundary)
    check_eq(len(got), len(expected), 'amount of parts', data[:300])
    for what, (headers, body) in zip(expected, got):
        _check_part(what, headers, decode_part(headers, body))
    if len(data) > 3000:
        cuts = [0] if cuts is None else cuts

    # and reading it back
    protocol = HttpReadProtocol(sim.loop)
    received = []

    async def read():
        async for headers, body in protocol.read_multipart(writer.headers):
            received.append((headers, body))

    task = Task(sim.loop, read())
    await sim.settle()
    terminated = len(rest) != 5
    if terminated:
        stream = data + rest
    else:
        stream = data.removesuffix(b'\r\n')
        rest = b''
    positions = range(len(stream) + 1) if cuts is None else sorted({0, len(stream), *(cut % (len(stream) + 1) for cut in cuts)})
    for start, end in zip(positions, positions[1:]):
        protocol.data_received(stream[start : end])
        if len(positions) < 20:
            await sim.settle()
    await sim.settle()
    if not terminated:
        # the last line does not need to be terminated if nothing follows it
        protocol.eof_received()
        await sim.settle()
    check(task.is_done(), 'reading a multipart body never ends', data[-200:])
    exception = task.get_exception()
    check(exception is None, 'reading a multipart body failed', repr(exception), data[:300])
    check_eq(len(received), len(expected), 'amount of read parts')
    for what, (headers, body) in zip(expected, received):
        _check_part(what, [(key.casefold(), value) for key, value in headers.items()], bytes(body))
    check_eq(protocol.get_size(), len(rest), 'bytes left after a multipart body')


def _cuts():
    return st.one_of(st.none(), st.lists(st.integers(0, 1 << 20), max_size = 6))


@C26.case(
    'multipart',
    lambda: st.tuples(
        st.lists(part_strategy, max_size = 4), st.sampled_from(['mixed', 'form-data']),
        st.one_of(st.none(), st.none(), st.sampled_from(['bound', 'with space', 'b"o\\u', "a'()+_,-./:=?b"])), _cuts(),
        st.sampled_from([b'', b'', b'rest', b'--', b'\r\n', b'until']),
    ), quick = 600, thorough = 30000,
)
def run_multipart(case, ctx):
    vsim.run(_multipart_program, case, ctx)


class _Truncating:
    pass


async def _form_program(sim, case, ctx):
    fields, quote_fields, encoding = case
    form = FormData(quote_fields)
    expected = []
    seen = False
    multipart = False
    for field in fields:
        name = field['name']
        part = field['part']
        if part['kind'] in ('form', 'nested'):
            continue
        if part['kind'] in ('file', 'file+', 'raw', 'textfile'):
            if seen:
                continue
            seen = True
        if part['kind'] == 'json':
            form.add_json(name, part['json'])
            expected.append((name, None, ('json', part['json'], {'content-type': 'application/json'})))
            multipart = True
            continue
        body, content = open_body(part)
        content_type = part['type']
        if isinstance(content, str):
            try:
                content.encode(encoding), content.encode(charset_of(content_type or ''))
            except UnicodeEncodeError:
                body = content = 'text'
        file_name = field['file_name']
        transfer = part['transfer'] or None
        form.add_field(name, body, content_type, file_name, transfer)
        headers = {}
        if content_type is not None:
            headers['content-type'] = content_type
        if transfer is not None:
            headers['content-transfer-encoding'] = transfer
        if file_name is None:
            if isinstance(body, io.IOBase):
                file_name = getattr(body, 'name', name)
                if not isinstance(file_name, str):
                    file_name = name
            elif isinstance(content, bytes) and transfer is None and not isinstance(body, Chunks):
                file_name = name
        if file_name is not None or content_type is not None or transfer is not None or not isinstance(body, str):
            multipart = True
        expected.append((name, file_name, ('content', content, headers)))
    if not multipart and any(not isinstance(what[1], str) for name, file_name, what in expected):
        return
    payload = form.generate_form(encoding)
    data = await _write_and_size(payload)
    if not multipart:
        ctx.label('urlencoded')
        check_eq(
            parse_qsl(data.decode('ascii'), True, encoding = encoding), [(name, what[1]) for name, file_name, what in expected],
            'form read back', data,
        )
        content_type, error = parse_content_type(payload.headers['Content-Type'])
        check_eq((content_type.type, content_type.sub_type), ('application', 'x-www-form-urlencoded'), 'content type')
        check_eq(content_type.get_parameter('charset', 'utf-8'), encoding, 'charset', payload.headers)
        return
    ctx.nontrivial()
    ctx.label('multipart')
    content_type, error = parse_content_type(payload.headers['Content-Type'])
    check_eq((content_type.type, content_type.sub_type), ('multipart', 'form-data'), 'content type')
    got = parse_multipart(data, content_type.get_parameter('boundary').encode())
    check_eq(len(got), len(expected), 'amount of fields')
    for (name, file_name, what), (headers, body) in zip(expected, got):
        kind, parameters = parse_disposition(header_of(headers, 'content-disposition'))
        check_eq(kind, 'form-data', 'disposition of a field')
        if quote_fields or not any(set(value or '') & CONTROLS for value in (name, file_name)):
            wanted = {'name': name}
            if file_name is not None:
                wanted['filename'] = file_name
            if os.sep in (file_name or '') and dict(parameters).get('filename') == os.path.basename(file_name):
                wanted['filename'] = os.path.basename(file_name)
            check_eq(dict(parameters), wanted, 'names of a field', headers)
        _check_part(what, headers, decode_part(headers, body), encoding)


@C26.case(
    'form',
    lambda: st.tuples(
        st.lists(st.fixed_dictionaries(dict(
            name = st.one_of(st.just('name'), text_strategy), part = part_strategy,
            file_name = st.one_of(st.none(), st.none(), st.just('file.png'), text_strategy),
        )), min_size = 1, max_size = 4), st.sampled_from([True, True, False]), st.sampled_from(['utf-8', 'utf-8', 'latin-1', 'utf-16']),
    ), quick = 600, thorough = 30000,
)
def run_form(case, ctx):
    vsim.run(_form_program, case, ctx)


@C26.case(
    'form_text',
    lambda: st.tuples(
        st.one_of(st.lists(st.tuples(st.text(alphabet = 'ab é&=+\r\n%', max_size = 4), st.text(alphabet = 'ab é&=+;%\r\n', max_size = 6)), max_size = 5)),
        st.sampled_from(['utf-8', 'latin-1', 'utf-16']), st.sampled_from(['list', 'tuple', 'dict']),
    ), quick = 300, thorough = 5000,
)
def run_form_text(case, ctx):
    fields, encoding, how = case
    if how == 'dict':
        fields = list(dict(fields).items())
    form = FormData.from_fields(dict(fields) if how == 'dict' else tuple(fields) if how == 'tuple' else fields)
    check_eq(bool(form), bool(fields), 'bool of a form')
    ctx.nontrivial(len(fields) > 1)
    data = vsim.run(lambda sim: _write_and_size(form.generate_form(encoding)))
    check_eq(parse_qsl(data.decode('ascii'), True, encoding = encoding), fields, 'form read back', data)


@C26.case(
    'injection',
    lambda: st.tuples(
        st.sampled_from(['name', 'value', 'type', 'transfer', 'field_type']), st.sampled_from(['\r\n', '\n', '\r', '\r\nX-Evil: 1', '\r\n\r\nbody']),
        st.text(alphabet = 'abc', max_size = 3),
    ), quick = 60, thorough = 500,
)
def run_injection(case, ctx):
    where, piece, text = case
    ctx.nontrivial()
    value = f'text{piece}{text}'

    async def program(sim):
        if where == 'field_type':
            form = FormData()
            form.add_field('name', 'value', value)
            payload = form.generate_form()
        else:
            payload = MultipartWriter()
            headers = IgnoreCaseMultiValueDictionary()
            headers[value if where == 'name' else {'value': 'X-Name', 'type': 'Content-Type', 'transfer': 'X-Transfer'}[where]] = value
            payload.append(b'content', headers)
        data = await _write_and_size(payload)
        raise Violation('line breaks given in a part header are written', data)

    try:
        vsim.run(program)
    except (ValueError, TypeError):
        # (A form wraps what went wrong to TypeError.)
        pass
