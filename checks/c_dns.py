"""C36: dns messages; C37: text forms of names and addresses & resolve configuration."""
import ipaddress, string
from hypothesis import strategies as st
from scarletio.dns_query.building_and_parsing import (
    build_query_data, parse_domain_name_pointer_data, parse_ip_v4_data, parse_ip_v6_data, parse_result_data
)
from scarletio.dns_query.constants import IP_TYPE_IP_V4, IP_TYPE_IP_V6, IP_TYPE_NONE
from scarletio.dns_query.helpers import (
    build_name_from_labels, iter_intermediate_intermediate_addresses_ordered, parse_ip_string, parse_labels_from_name,
    parse_reversed_labels_from_address, produce_ip_string
)
from scarletio.dns_query.query import Query
from scarletio.dns_query.question import Question
from scarletio.dns_query.resolve_configuration import (
    ResolveConfiguration, parse_sort_list_element, update_resolve_configuration_from_file_content
)
from scarletio.dns_query.resource_record import ResourceRecord
from scarletio.dns_query.response_parsing_error import ResponseParsingError
from vharness import Property, Violation, check, check_eq

C36 = Property('C36', rule = (
    'Case = a message of questions and records in the three sections, names compressed at random places (pointers to names, to suffixes and to pointers), '
    'possibly cut, mutated, with bytes replaced by pointers, or random bytes. Non-trivial = a name is compressed, or the message is damaged behind its header.'
))

LABEL = st.one_of(
    st.sampled_from([b'a', b'b', b'www', b'example', b'com', b'xn--x', b'\xff\x00', b'.', b'A', b'x' * 63, b'_tcp']),
    st.binary(min_size = 1, max_size = 8),
)
NAME = st.one_of(
    st.lists(LABEL, max_size = 5),
    st.lists(st.sampled_from([b'a', b'b', b'com']), max_size = 4),
).map(tuple)
U16 = st.one_of(st.sampled_from([0, 1, 255, 256, 65535]), st.integers(0, 65535))
U32 = st.one_of(st.sampled_from([0, 1, 1 << 31, (1 << 32) - 1]), st.integers(0, (1 << 32) - 1))
TYPE = st.one_of(st.sampled_from([1, 28, 12, 5, 16]), U16)
PTR = 12


class Encoder:
    """Encodes a message compressing names at the given choices"""
    def __init__(self, choices):
        self.out = bytearray()
        self.known = {}
        self.choices = list(choices)
        self.compressed = 0

    def choose(self):
        if self.choices:
            return self.choices.pop(0)
        return False

    def number(self, value, size):
        self.out += value.to_bytes(size, 'big')

    def name(self, labels):
        for index in range(len(labels) + 1):
            suffix = labels[index :]
            position = self.known.get(suffix)
            if position is not None and self.choose():
                self.compressed += 1
                if suffix and len(self.out) < 0x4000:
                    # later names may point at this pointer
                    self.known[suffix] = len(self.out)
                self.number(0xc000 | position, 2)
                return
            if len(self.out) < 0x4000:
                self.known[suffix] = len(self.out)
            if suffix:
                self.number(len(suffix[0]), 1)
                self.out += suffix[0]
        self.out.append(0)


def encode(message, choices):
    transaction_id, flags, questions, sections = message
    encoder = Encoder(choices)
    encoder.number(transaction_id, 2)
    encoder.number(flags, 2)
    encoder.number(len(questions), 2)
    for records in sections:
        encoder.number(len(records), 2)
    for name, type_, class_ in questions:
        encoder.name(name)
        encoder.number(type_, 2)
        encoder.number(class_, 2)
    for records in sections:
        for name, type_, class_, duration, data in records:
            encoder.name(name)
            encoder.number(type_, 2)
            encoder.number(class_, 2)
            encoder.number(duration, 4)
            at = len(encoder.out)
            encoder.number(0, 2)
            if type_ == PTR and isinstance(data, tuple):
                encoder.name(data)
            else:
                encoder.out += data
            encoder.out[at : at + 2] = (len(encoder.out) - at - 2).to_bytes(2, 'big')
    return encoder


class Malformed(Exception):
    pass


def decode_name(data, index, strict):
    labels = []
    end = None
    seen = set()
    start = index
    while True:
        if index in seen:
            raise Malformed('loop')
        seen.add(index)
        if index >= len(data):
            raise Malformed('cut')
        length = data[index]
        if length == 0:
            index += 1
            break
        if length < 64:
            if index + 1 + length > len(data):
                raise Malformed('cut')
            labels.append(bytes(data[index + 1 : index + 1 + length]))
            index += 1 + length
            continue
        if length < 192:
            raise Malformed('length')
        if index + 2 > len(data):
            raise Malformed('cut')
        target = int.from_bytes(data[index : index + 2], 'big') & 0x3fff
        if target > index + 1:
            raise Malformed('forward')
        if target >= start and strict:
            raise Unclear
        if end is None:
            end = index + 2
        start = index = target
    return tuple(labels), index if end is None else end


class Unclear(Exception):
    """A pointer into the name itself or into the pointer: refusing is fine too"""


def decode(data, strict = True):
    if len(data) < 12:
        raise Malformed('header')
    counts = [int.from_bytes(data[at : at + 2], 'big') for at in range(4, 12, 2)]
    index = 12
    questions = []
    for _ in range(counts[0]):
        name, index = decode_name(data, index, strict)
        if index + 4 > len(data):
            raise Malformed('question')
        questions.append((name, int.from_bytes(data[index : index + 2], 'big'), int.from_bytes(data[index + 2 : index + 4], 'big')))
        index += 4
    sections = []
    for count in counts[1 :]:
        records = []
        for _ in range(count):
            name, index = decode_name(data, index, strict)
            if index + 10 > len(data):
                raise Malformed('record')
            numbers = [int.from_bytes(data[index + at : index + at + size], 'big') for at, size in ((0, 2), (2, 2), (4, 4), (8, 2))]
            index += 10
            if index + numbers[3] > len(data):
                raise Malformed('data')
            record_data = bytes(data[index : index + numbers[3]])
            if numbers[0] == PTR:
                try:
                    pointed, pointed_end = decode_name(data, index, strict)
                except (Malformed, Unclear):
                    record_data = None
                else:
                    record_data = pointed if pointed_end == index + numbers[3] else None
            records.append((name, *numbers[: 3], record_data))
            index += numbers[3]
        sections.append(records)
    return int.from_bytes(data[: 2], 'big'), int.from_bytes(data[2 : 4], 'big'), questions, sections


def listed(value):
    check(value is None or (type(value) is tuple and value), 'an empty section or name is not `None`', value)
    return list(value or ())


def compare(result, message, what):
    transaction_id, flags, questions, sections = message
    check_eq(
        (result.transaction_id, result.data_verified, result.truncated, result.recursion_available, result.response_code),
        (transaction_id, bool(flags & 0x20), bool(flags & 0x200), bool(flags & 0x80), flags & 15),
        f'header of {what}', hex(flags)
    )
    check_eq([(tuple(listed(item.labels)), item.resource_record_type, item.class_code) for item in listed(result.questions)], questions, f'questions of {what}')
    for got, expected in zip((result.answers, result.authority_resource_records, result.additional_resource_records), sections):
        got = listed(got)
        check_eq(
            [(tuple(listed(item.labels)), item.resource_record_type, item.class_code, item.validity_duration) for item in got],
            [item[: 4] for item in expected], f'records of {what}'
        )
        for item, (name, type_, class_, duration, data) in zip(got, expected):
            if type_ != PTR:
                check_eq(b'' if item.data is None else bytes(item.data), data, f'data of a record of {what}')
                if type_ == 1:
                    check_eq(parse_ip_v4_data(item.data), int.from_bytes(data, 'big') if len(data) == 4 else None, 'ip v4 of a record')
                elif type_ == 28:
                    check_eq(parse_ip_v6_data(item.data), int.from_bytes(data, 'big') if len(data) == 16 else None, 'ip v6 of a record')
                continue
            pointed = parse_domain_name_pointer_data(item.data)
            if data is not None:
                check_eq(pointed, build_name_from_labels(data) if data else None, f'name pointed by a record of {what}')


def _message_strategy():
    question = st.tuples(NAME, TYPE, U16)
    record = TYPE.flatmap(lambda type_: st.tuples(
        NAME, st.just(type_), U16, U32,
        NAME if type_ == PTR else
        st.binary(min_size = 4, max_size = 4) if type_ == 1 else
        st.binary(min_size = 16, max_size = 16) if type_ == 28 else
        st.one_of(st.binary(max_size = 20), st.integers(60, 300).map(bytes)),
    ))
    records = st.lists(record, max_size = 3)
    flags = st.one_of(U16, st.sampled_from([0x8180, 0x8380, 0x81a0, 0x8183]))
    return st.tuples(
        st.tuples(U16, flags, st.lists(question, max_size = 3), st.tuples(records, records, records).map(list)),
        st.lists(st.booleans(), max_size = 30),
    )


@C36.case('parse', _message_strategy, quick = 2500, thorough = 60000, shards = 2)
def c36_parse(case, ctx):
    message, choices = case
    encoder = encode(message, choices)
    ctx.nontrivial(encoder.compressed > 0)
    result, error = parse_result_data(bytes(encoder.out))
    check(error is None, 'a valid message is refused', error)
    compare(result, message, 'the message')
    again, _ = parse_result_data(bytes(encode(message, ()).out))
    compare(again, message, 'the uncompressed message')
    repr(result)
    # the spelling of the message does not matter
    if not any(item[1] == PTR for records in message[3] for item in records):
        check(again == result and hash(again) == hash(result), 'equal messages differ')


def _query_strategy():
    label = st.binary(min_size = 1, max_size = 63)
    name = st.one_of(st.none(), st.lists(label, min_size = 1, max_size = 5).map(tuple))
    question = st.tuples(name, U16, U16)
    record = st.tuples(name, U16.filter(lambda value: value != PTR), U16, U32, st.one_of(st.none(), st.binary(min_size = 1, max_size = 300)))
    optional = lambda item: st.one_of(st.none(), st.lists(item, min_size = 1, max_size = 3).map(tuple))
    return st.tuples(U16, st.booleans(), st.booleans(), st.booleans(), optional(question), optional(record))


@C36.case('build', _query_strategy, quick = 1200, thorough = 30000)
def c36_build(case, ctx):
    transaction_id, recursion, verification, verified, questions, records = case
    ctx.nontrivial(questions is not None)
    configuration = ResolveConfiguration()
    configuration.option_set_verified_data_in_requests = verified
    query = Query(
        transaction_id, recursion, verification,
        None if questions is None else tuple(Question(*item) for item in questions),
        None if records is None else tuple(ResourceRecord(*item) for item in records),
    )
    data = build_query_data(query, configuration)
    decoded = decode(data)
    check_eq(decoded, (
        transaction_id, (0x100 if recursion else 0) | (0x10 if verification else 0) | (0x20 if verified else 0),
        [(name or (), *rest) for name, *rest in questions or ()],
        [[], [], [(name or (), *rest, record_data or b'') for name, *rest, record_data in records or ()]],
    ), 'the query built')


def _garbage_strategy():
    damage = st.one_of(
        st.tuples(st.just('cut'), st.integers(0, 400)),
        st.tuples(st.just('byte'), st.integers(0, 400), st.integers(0, 255)),
        st.tuples(st.just('pointer'), st.integers(0, 400), st.integers(0, 60)),
        st.tuples(st.just('pointer'), st.integers(0, 400), st.integers(-4, 6).map(lambda value: ('relative', value))),
        st.tuples(st.just('count'), st.integers(0, 3), st.one_of(st.integers(0, 6), U16)),
        st.tuples(st.just('insert'), st.integers(0, 400), st.binary(min_size = 1, max_size = 4)),
        st.tuples(st.just('delete'), st.integers(0, 400), st.integers(1, 4)),
    )
    return st.one_of(
        st.tuples(_message_strategy(), st.lists(damage, min_size = 1, max_size = 3)),
        st.tuples(st.binary(max_size = 60), st.lists(damage, max_size = 3)),
    )


@C36.case('garbage', _garbage_strategy, quick = 4000, thorough = 150000, shards = 3)
def c36_garbage(case, ctx):
    source, damages = case
    data = bytearray(source if isinstance(source, bytes) else encode(*source).out)
    for kind, at, *values in damages:
        at = at % (len(data) + 1)
        if kind == 'cut':
            del data[at :]
        elif kind == 'byte':
            if at < len(data):
                data[at] = values[0]
        elif kind == 'pointer':
            target = values[0]
            if isinstance(target, tuple):
                target = max(at + target[1], 0)
            data[at : at + 2] = (0xc000 | target).to_bytes(2, 'big')
        elif kind == 'count':
            if len(data) >= 12:
                data[4 + case_index(at) : 6 + case_index(at)] = values[0].to_bytes(2, 'big')
        elif kind == 'insert':
            data[at : at] = values[0]
        else:
            del data[at : at + values[0]]
    data = bytes(data)
    ctx.nontrivial(len(data) > 12)
    ctx.note = data
    judge(data)


def judge(data):
    result, error = parse_result_data(data)
    check((result is None) != (error is None), 'there is not exactly one of a result and an error', result, error)
    if error is not None:
        check(isinstance(error, ResponseParsingError), 'not an error', error)
        str(error), repr(error)
    try:
        message = decode(data)
    except Malformed as exception:
        check(error is not None, 'a malformed message is accepted', str(exception), result)
        return
    except Unclear:
        if error is None:
            try:
                message = decode(data, False)
            except Malformed as exception:
                raise Violation(f'a malformed message is accepted: {exception} {result!r}')
            compare(result, message, 'the message')
        return
    check(error is None, 'a valid message is refused', error)
    compare(result, message, 'the message')


# Pieces of the data of a record, that later names point into: labels, an end, or a pointer to an other piece
PIECE = st.one_of(
    st.tuples(st.just('labels'), st.lists(st.sampled_from([b'a', b'bc', b'example']), max_size = 2)),
    st.just(('end',)),
    st.tuples(st.just('jump'), st.integers(0, 8)),
    st.tuples(st.just('jump'), st.integers(0, 8)),
)


def _chains_strategy():
    return st.tuples(
        st.lists(PIECE, min_size = 1, max_size = 8), st.lists(st.tuples(st.lists(st.sampled_from([b'w', b'com']), max_size = 2), st.integers(0, 8)), min_size = 1, max_size = 3),
    )


@C36.case('chains', _chains_strategy, quick = 1500, thorough = 60000, fixed = [
    ([('jump', 0)], [([], 0)]), ([('end',), ('jump', 1)], [([], 1)]), ([('jump', 1), ('jump', 0)], [([b'w'], 1)]), ([('labels', [b'a']), ('jump', 0)], [([], 1)]),
])
def c36_chains(case, ctx):
    """Names pointing into the data of an earlier record, where the pointers can go around"""
    pieces, names = case
    start = 12 + 1 + 10
    positions = []
    size = 0
    for kind, *values in pieces:
        positions.append(start + size)
        size += {'labels': lambda: sum(1 + len(label) for label in values[0]), 'end': lambda: 1, 'jump': lambda: 2}[kind]()
    blob = bytearray()
    for kind, *values in pieces:
        if kind == 'labels':
            for label in values[0]:
                blob.append(len(label))
                blob += label
        elif kind == 'end':
            blob.append(0)
        else:
            blob += (0xc000 | positions[values[0] % len(positions)]).to_bytes(2, 'big')
    blob.append(0)
    data = bytearray(b'\x00\x07\x81\x80\x00\x00')
    data += (1 + len(names)).to_bytes(2, 'big') + bytes(4)
    data += b'\x00' + (16).to_bytes(2, 'big') + b'\x00\x01' + bytes(4) + len(blob).to_bytes(2, 'big') + blob
    for labels, target in names:
        for label in labels:
            data.append(len(label))
            data += label
        data += (0xc000 | positions[target % len(positions)]).to_bytes(2, 'big') + b'\x00\x01\x00\x01' + bytes(4) + b'\x00\x04\x7f\x00\x00\x01'
    data = bytes(data)
    ctx.note = data
    ctx.nontrivial(sum(piece[0] == 'jump' for piece in pieces) > 0)
    judge(data)


def case_index(at):
    return at % 4 * 2


C37 = Property('C37', rule = (
    'Case = an address in any valid or nearly valid text form with scope, a number, labels of a name, a sort list with addresses, or the lines of a resolv.conf '
    'with every keyword, option, comment and garbage. Non-trivial = the form is abbreviated, damaged or has a scope / more than two lines.'
))

NUMBER_4 = st.one_of(st.sampled_from([0, 1, (127 << 24) + 1, (1 << 32) - 1]), st.integers(0, (1 << 32) - 1))
GROUP = st.one_of(st.just(0), st.just(0), st.sampled_from([1, 0xffff, 0x10, 0xabc]), st.integers(0, 65535))
NUMBER_6 = st.lists(GROUP, min_size = 8, max_size = 8).map(lambda groups: sum(group << 16 * index for index, group in enumerate(groups)))


def spell_6(number, form, start, end, upper, dotted):
    groups = [number >> shift & 0xffff for shift in range(112, -16, -16)]
    texts = [format(group, '04x' if form == 'padded' else 'x') for group in groups]
    if dotted:
        texts[6 :] = [str(ipaddress.IPv4Address(number & 0xffffffff))]
    if form == 'short':
        # any run of zeros may be left out
        start, end = sorted((start % (7 if dotted else 9), end % (7 if dotted else 9)))
        while start < end and any(groups[start : end]):
            end -= 1
        if start < end:
            text = ':'.join(texts[: start]) + '::' + ':'.join(texts[end :])
        else:
            text = ':'.join(texts)
    else:
        text = ':'.join(texts)
    return text.upper() if upper else text


def reference_address(text):
    """(type, number) of a text; scopes are separated by the first percent sign"""
    try:
        return IP_TYPE_IP_V4, int(ipaddress.IPv4Address(text))
    except ValueError:
        pass
    text = text.partition('%')[0]
    try:
        return IP_TYPE_IP_V6, int(ipaddress.IPv6Address(text))
    except ValueError:
        return IP_TYPE_NONE, 0


def _address_strategy():
    six = st.builds(spell_6, NUMBER_6, st.sampled_from(['short', 'short', 'padded', 'plain']), st.integers(0, 8), st.integers(0, 8), st.booleans(), st.booleans())
    four = NUMBER_4.map(lambda number: str(ipaddress.IPv4Address(number)))
    valid = st.one_of(six, six, four)
    scope = st.sampled_from(['', '', '%', '%1', '%eth0', '%lo%'])
    edit = st.tuples(st.integers(0, 60), st.sampled_from(['', ':', '::', '.', '0', '1', 'a', 'g', '256', '/', ' ', '\u0661', '-', '\n']), st.integers(0, 2))
    return st.tuples(valid, scope, st.lists(edit, max_size = 2))


@C37.case('address', _address_strategy, quick = 4000, thorough = 150000, shards = 2)
def c37_address(case, ctx):
    text, scope, edits = case
    if '.' not in text or ':' in text:
        text += scope
    for at, new, count in edits:
        at %= len(text) + 1
        text = text[: at] + new + text[at + count :]
    ctx.note = text
    type_, number = parse_ip_string(text)
    expected = reference_address(text)
    ctx.nontrivial('::' in text or '%' in text or expected[0] == IP_TYPE_NONE)
    check_eq((type_, number if type_ != IP_TYPE_NONE else 0), expected, 'parsed address', text)
    if expected[0] == IP_TYPE_NONE:
        return
    # as it is written by every other tool
    produced = ''.join(produce_ip_string(type_, number))
    address = ipaddress.IPv4Address(number) if type_ == IP_TYPE_IP_V4 else ipaddress.IPv6Address(number)
    check_eq(reference_address(produced), expected, 'address produced', produced)
    check_eq(parse_ip_string(produced), expected, 'address produced and parsed', produced)
    labels = parse_reversed_labels_from_address(produced)
    check_eq(b'.'.join(labels).decode(), address.reverse_pointer, 'reverse labels of an address')


def _name_strategy():
    text = st.one_of(
        st.text(st.sampled_from(string.ascii_letters + string.digits + '-_'), min_size = 1, max_size = 10),
        st.text(st.sampled_from('ab.\\;@$()" \x00\x7f\x1f/\'0189'), min_size = 1, max_size = 6),
        st.sampled_from(['@', 'x' * 63, 'a.b', '.', '\\', '\u0171', 'k\xf6sz\xf6n\xf6m', '\u9234\u4ed9', '\xe9\u0171a']),
    )
    return st.lists(text, min_size = 1, max_size = 5), st.booleans()


@C37.case('name', lambda: st.tuples(*_name_strategy()), quick = 2000, thorough = 60000)
def c37_name(case, ctx):
    texts, absolute = case
    labels = tuple(text.encode('ascii') if text.isascii() else text.encode('idna') for text in texts)
    ctx.nontrivial(any(not text.isalnum() for text in texts))
    name = build_name_from_labels(labels)
    ctx.note = name
    check(all(item.isprintable() and item != ' ' for item in name), 'a name is not printable', name)
    if name == '@' or labels == (b'',):
        return
    check_eq(parse_labels_from_name(name + '.' * absolute), labels, 'labels of a name built from labels', name)
    if all(text.isascii() and text.isprintable() for text in texts):
        escaped = '.'.join(''.join(item if item.isalnum() or item in '-_' else '\\' + item for item in text) for text in texts)
        check_eq(parse_labels_from_name(escaped), labels, 'labels of an escaped name', escaped)
    if all(all(item.isalnum() or item in '-_' for item in text) for text in texts):
        check_eq(parse_labels_from_name('.'.join(texts)), labels, 'labels of a name', name)


@C37.case('bad_name', lambda: st.one_of(
    st.text(st.sampled_from('ab.\\0129\u0661@\u0171'), max_size = 12), st.lists(st.sampled_from(['a' * 63, 'a' * 64, '\u0171' * 70, '', 'b']), max_size = 4).map('.'.join)
), quick = 1500, thorough = 40000)
def c37_bad_name(case, ctx):
    try:
        labels = parse_labels_from_name(case)
    except ValueError:
        ctx.nontrivial()
        return
    check(labels is None or (len(labels) and all(type(label) is bytes and 0 < len(label) < 64 for label in labels)), 'labels of a name are invalid', labels)
    # names without escapes, as everybody splits them
    if '\\' not in case and case.isascii() and case not in ('@', '@.'):
        pieces = case.split('.')
        if pieces[-1] == '':
            del pieces[-1]
        check_eq(labels, tuple(piece.encode() for piece in pieces) if pieces and pieces != [''] else None, 'labels', case)


def _sort_strategy():
    mask = st.one_of(st.none(), st.just(''), st.integers(0, 130).map(str), NUMBER_4.map(lambda number: str(ipaddress.IPv4Address(number))), NUMBER_6.map(lambda number: str(ipaddress.IPv6Address(number))), st.sampled_from(['x', '\xb2', '-1', '/']))
    # closely related ones
    four = st.one_of(NUMBER_4, st.integers(0, 15).map(lambda number: (10 << 24) + number))
    six = st.one_of(NUMBER_6, st.integers(0, 15))
    network = st.one_of(four.map(lambda number: (IP_TYPE_IP_V4, number)), six.map(lambda number: (IP_TYPE_IP_V6, number)))
    return st.tuples(st.lists(st.tuples(network, mask), max_size = 4), st.lists(network, max_size = 8))


def text_of(item):
    return str(ipaddress.IPv4Address(item[1]) if item[0] == IP_TYPE_IP_V4 else ipaddress.IPv6Address(item[1]))


@C37.case('sort', _sort_strategy, quick = 1500, thorough = 40000)
def c37_sort(case, ctx):
    networks, addresses = case
    elements = []
    matchers = []
    for network, mask in networks:
        text = text_of(network) + ('' if mask is None else f'/{mask}')
        element = parse_sort_list_element(text)
        bits = 32 if network[0] == IP_TYPE_IP_V4 else 128
        if not mask:
            expected_mask = (1 << bits) - 1
        elif mask.isdecimal():
            expected_mask = (1 << bits) - 1 ^ (1 << max(bits - int(mask), 0)) - 1
        else:
            mask_type, expected_mask = reference_address(mask)
            if mask_type != network[0]:
                check(element is None, 'a sort list element with invalid mask is accepted', text)
                continue
        check(element is not None, 'a sort list element is refused', text)
        check_eq((element.ip_type, element.ip_value, element.ip_mask), (*network, expected_mask), 'sort list element', text)
        elements.append(element)
        matchers.append((*network, expected_mask))
    configuration = ResolveConfiguration()
    configuration.sort_list = tuple(elements) or None
    given = [(*address, None, index) for index, address in enumerate(addresses)]
    got = list(iter_intermediate_intermediate_addresses_ordered(configuration, list(given)))

    def key(item):
        for index, (type_, value, mask) in enumerate(matchers):
            if type_ == item[0] and item[1] & mask == value:
                return index
        return len(matchers)
    expected = sorted(given, key = key)
    ctx.nontrivial(expected != given)
    check_eq(got, expected, 'order of the addresses')


OPTIONS = {
    'debug': 'option_debug', 'rotate': 'option_rotate', 'no-aaaa': 'option_no_ip_v6_lookups', 'no-check-names': 'option_disable_bind_checking',
    'inet6': 'option_prefer_ip_v6', 'edns0': 'option_enable_dns_extension', 'single-request': 'option_limit_to_single_request',
    'single-request-reopen': 'option_single_request_re_open', 'no-tld-query': 'option_no_unqualified_name_resolving', 'use-vc': 'option_force_tcp',
    'no-reload': 'option_no_reload', 'trust-ad': 'option_set_verified_data_in_requests',
}
LIMITED = {'ndots': ('option_required_dot_count', 1, 30), 'timeout': ('option_timeout', 1, 30), 'attempts': ('option_attempts', 1, 5)}


def _configuration_strategy():
    address = st.one_of(NUMBER_4.map(lambda number: (IP_TYPE_IP_V4, number)), NUMBER_6.map(lambda number: (IP_TYPE_IP_V6, number)))
    option = st.one_of(
        st.sampled_from([*OPTIONS]), st.tuples(st.sampled_from([*LIMITED]), st.sampled_from(['0', '1', '2', '3', '5', '7', '12', '30', '31', '100000'])).map(':'.join),
        st.sampled_from(['ip6-dotint', 'unknown', 'unknown:3', 'ndots', 'ndots:', 'ndots:-1', 'timeout:1.5', 'attempts:\xb2', 'Debug', ':', ':1']),
    )
    domain = st.lists(st.sampled_from(['a', 'example', 'com', 'local']), min_size = 1, max_size = 3).map('.'.join)
    line = st.one_of(
        st.tuples(st.just('nameserver'), st.lists(address, max_size = 1).map(lambda items: [text_of(item) for item in items])),
        st.tuples(st.just('nameserver'), st.sampled_from([['10.0.0.256'], ['name.example'], ['fe80::1%eth0'], ['::1%'], ['10.0.0.1', 'extra'], ['FD00::A']])),
        st.tuples(st.just('search'), st.lists(st.one_of(domain, st.sampled_from(['.', '@', 'a.', 'a..b', 'x' * 64, 'a\\'])), max_size = 4)),
        st.tuples(st.just('options'), st.lists(option, max_size = 4)),
        st.tuples(st.sampled_from(['domain', 'unknown', 'Nameserver', 'lookup']), st.lists(domain, max_size = 2)),
        st.tuples(st.sampled_from(['#nameserver', ';options', '#']), st.lists(option, max_size = 2)),
    )
    return st.lists(st.tuples(line, st.sampled_from([' ', '\t', '  ']), st.sampled_from(['', ' ', '\t']), st.sampled_from(['\n', '\n', '\r\n', '\n\n', '\n \n'])), max_size = 8)


@C37.case('configuration', _configuration_strategy, quick = 1500, thorough = 40000)
def c37_configuration(case, ctx):
    configuration = ResolveConfiguration()
    names = [name for name in (*OPTIONS.values(), *(item[0] for item in LIMITED.values()), 'name_server_configurations', 'searches')]
    expected = {name: getattr(configuration, name) for name in names}
    servers = None
    searches = None
    content = ''
    for (keyword, values), space, tail, end in case:
        content += space.join([keyword, *values]) + tail + end
        if keyword == 'nameserver' and values:
            type_, number = reference_address(values[0])
            if type_ != IP_TYPE_NONE:
                servers = [*(servers or ()), (type_, number)]
        elif keyword == 'search':
            for value in values:
                if value in ('.', '@', 'a..b', 'x' * 64, 'a\\'):
                    # the root, and the invalid ones are ignored
                    continue
                searches = [*(searches or ()), tuple(piece.encode() for piece in value.rstrip('.').split('.'))]
        elif keyword == 'options':
            for value in values:
                if value in OPTIONS:
                    expected[OPTIONS[value]] = True
                    continue
                name, _, number = value.partition(':')
                if name in LIMITED and number.isascii() and number.isdecimal():
                    name, lower, upper = LIMITED[name]
                    expected[name] = min(max(int(number), lower), upper)
    ctx.note = content
    ctx.nontrivial(len(case) > 2)
    expected['name_server_configurations'] = servers
    expected['searches'] = None if searches is None else tuple(searches)
    update_resolve_configuration_from_file_content(configuration, content)
    got = {name: getattr(configuration, name) for name in names}
    if got['name_server_configurations'] is not None:
        got['name_server_configurations'] = [(item.ip_type, item.ip_value) for item in got['name_server_configurations']]
    check_eq(got, expected, 'configuration', content)
    repr(configuration)


@C37.known('sortlist-of-files')
def c37_known_sort_list():
    """existing tests expect the elements of a `sortlist` line as strings, so they cannot be repaired without editing those"""
    configuration = ResolveConfiguration()
    update_resolve_configuration_from_file_content(configuration, 'sortlist 10.0.0.0/8\n')
    given = [(IP_TYPE_IP_V4, 11 << 24, None, 0), (IP_TYPE_IP_V4, 10 << 24, None, 1)]
    try:
        got = list(iter_intermediate_intermediate_addresses_ordered(configuration, list(given)))
    except AttributeError as exception:
        raise Violation(f'sortlist of a resolve configuration file makes ordering addresses raise: {exception!r}')
    check_eq([item[3] for item in got], [1, 0], 'order of the addresses')
