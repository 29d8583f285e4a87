"""C41: zip streaming and resource streams."""
import io, random, struct, zipfile, zlib
from datetime import datetime, timedelta, timezone
from hypothesis import strategies as st
import vsim
from scarletio import CancelledError, Task, skip_ready_cycle, sleep
from scarletio.streaming import ResourceStream, ResourceStreamFunction, ZipStreamFile, create_zip_stream_resource, stream_zip
from scarletio.streaming.zip_streaming.name_deduplication import NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT, name_deduplicator_default, name_deduplicator_name_reconstructor_default
from vharness import Property, Violation, check, check_eq

C41 = Property('C41', rule = (
    'Archives of files with generated (often colliding) names, contents in any chunks, both compression methods, dates, failures and delays of their sources; consumed whole, '
    'partly, twice, or concurrently. Non-trivial = at least two files, or a name which had to be changed.'
))

BLOB = random.Random(41).randbytes(1 << 18)

BASES = st.sampled_from(['a', 'b', 'a (1)', 'a (2)', 'a (0)', 'a (01)', 'd/a', 'd.x/a', 'd (1)/a', 'é', '', 'a\nb', 'a (1', 'a(1)', 'a (1)(1)', 'a (1) (1)', 'ą'])
EXTENSIONS = st.sampled_from(['', '', '.', '.x', '.x', '.tar.gz', '.x (1)', '.x (1).y', '\n.x', '.x\n'])
NAMES = st.one_of(
    st.builds(lambda *parts: ''.join(parts), BASES, st.sampled_from(['', '', ' (1)', ' (2)', ' (0)', ' (3)', ' (1) (1)']), EXTENSIONS),
    st.builds(lambda *parts: ''.join(parts), st.sampled_from(['a', 'a\nb']), st.sampled_from(['', ' (1)', ' (2)']), st.sampled_from(['', '.x'])),
    st.text(alphabet = 'a (1)./\n', max_size = 12),
    st.text(max_size = 6).filter(lambda text: text.isprintable()),
)
CHUNKS = st.lists(st.tuples(st.integers(0, 100000), st.sampled_from([0, 1, 5, 100, 4000, 70000]), st.sampled_from([0, 0, 1, 2, 3])), max_size = 5)
FILE = st.tuples(
    NAMES, CHUNKS, st.booleans(), st.integers(0, 126 * 365 * 86400), st.sampled_from([None, None, None, None, None, 'error']),
)


def content_of(chunks):
    out = []
    for offset, size, kind in chunks:
        out.append(bytes(size) if kind == 3 else BLOB[offset : offset + size])
    return out


class Source:
    def __init__(self, chunks, fault, produced):
        self.chunks = chunks
        self.fault = fault
        self.produced = produced

    async def stream(self):
        for (offset, size, kind), data in zip(self.chunks, content_of(self.chunks)):
            if kind == 1:
                await skip_ready_cycle()
            if kind == 2:
                await sleep(0.1)
                data = bytearray(data)
            self.produced[0] += 1
            yield data
        if self.fault == 'error':
            raise KeyError('source failed')


def date_of(seconds):
    return datetime(1980, 1, 1) + timedelta(seconds = seconds)


def make_files(files, produced):
    return [
        ZipStreamFile(
            name, ResourceStream(Source(chunks, fault, produced).stream), compression_method = 8 if deflate else 0, modified_at = date_of(date),
        ) for name, chunks, deflate, date, fault in files
    ]


def verify_names(names, given):
    check_eq(len(names), len(given), 'amount of files')
    check_eq(len(set(names)), len(names), 'names of the files are not unique', names)
    # a name nobody else could want is kept
    for index, (name, wanted) in enumerate(zip(names, given)):
        if index == 0 or (given.count(wanted) == 1 and '(' not in ''.join(given)):
            check_eq(name, wanted, 'a name which did not have to be changed', given)


def verify_archive(data, files, names):
    archive = zipfile.ZipFile(io.BytesIO(data))
    infos = archive.infolist()
    check_eq(len(infos), len(files), 'amount of files')
    position = 0
    for info, (name, chunks, deflate, date, fault), final in zip(infos, files, names):
        content = b''.join(content_of(chunks))
        # zipfile cuts names at null and changes separators, so compare the raw name
        check_eq(info.orig_filename, final, 'name of a file')
        check_eq(info.file_size, len(content), 'size of a file')
        check_eq(info.CRC, zlib.crc32(content), 'crc of a file')
        check_eq(info.compress_type, 8 if deflate else 0, 'compression of a file')
        when = date_of(date)
        check_eq(info.date_time, (when.year, when.month, when.day, when.hour, when.minute, when.second // 2 * 2), 'date of a file')
        check_eq(archive.read(info), content, 'content of a file')
        check_eq(info.header_offset, position, 'offset of a file')
        signature, version, flags, method, time, day, crc, compressed, size, name_length, extra_length = struct.unpack_from('<4sHHHHHLLLHH', data, position)
        check_eq((signature, method, name_length, extra_length), (b'PK\3\4', info.compress_type, len(final.encode()), 0), 'local header')
        check_eq(flags, info.flag_bits, 'flags of the local header')
        check(final.isascii() or flags & 0x800, 'name which is not ascii is not marked as utf-8')
        check_eq(data[position + 30 : position + 30 + name_length].decode(), final, 'name in the local header')
        position += 30 + name_length
        stored = data[position : position + info.compress_size]
        if deflate:
            decompressor = zlib.decompressobj(-15)
            check_eq(decompressor.decompress(stored) + decompressor.flush(), content, 'compressed content')
            check(decompressor.eof and not decompressor.unused_data, 'compressed content does not end at its end')
        else:
            check_eq(stored, content, 'stored content')
        position += info.compress_size
        check_eq(struct.unpack_from('<4sLQQ', data, position), (b'PK\7\x08', info.CRC, info.compress_size, info.file_size), 'data descriptor')
        position += 24
    check_eq(archive.start_dir, position, 'start of the central directory')
    check_eq(archive.comment, b'', 'comment')


def unique_names(names):
    generator = name_deduplicator_default(NAME_DEDUPLICATOR_REGEX_PATTERN_DEFAULT, name_deduplicator_name_reconstructor_default)
    generator.send(None)
    return [generator.send(name) for name in names]


def _names_strategy():
    return st.lists(NAMES, min_size = 1, max_size = 12)


@C41.case('names', _names_strategy, quick = 8000, thorough = 300000, shards = 2)
def c41_names(case, ctx):
    names = unique_names(case)
    ctx.nontrivial(names != case or len(case) > 4)
    verify_names(names, case)
    for name, wanted in zip(names, case):
        check_eq(name.rpartition('/')[0] if '/' in wanted else '', wanted.rpartition('/')[0], 'directory of the name', name, wanted)
    if '(0' not in ''.join(case):
        check_eq(unique_names(names), names, 'unique names are kept')


def _archive_strategy():
    return st.tuples(
        st.lists(FILE, max_size = 6), st.booleans(),
        st.sampled_from(['whole', 'whole', 'twice', 'concurrent', 'partial', 'resource']), st.integers(0, 30),
    )


async def collect(stream):
    out = bytearray()
    async for chunk in stream:
        out += chunk
    return bytes(out)


async def _c41_archive(sim, case, ctx):
    files, deduplicate, how, amount = case
    produced = [0]
    names = [file[0] for file in files]
    keyword = {} if deduplicate else {'name_deduplicator' : None}
    ctx.nontrivial(len(files) > 1)
    if not deduplicate and len(set(names)) != len(names):
        seen = set()
        files = [file for file in files if not (file[0] in seen or seen.add(file[0]))]
        names = [file[0] for file in files]
    if deduplicate:
        names = unique_names(names)
    made = make_files(files, produced)
    fails = any(file[4] for file in files)

    async def get(stream):
        try:
            data = await collect(stream)
        except KeyError:
            check(fails, 'failed')
            return
        check(not fails, 'the error of a source is lost')
        verify_archive(data, files, names)
        return data

    if how == 'whole':
        await get(stream_zip(made, **keyword))
    elif how == 'twice':
        check_eq(await get(stream_zip(made, **keyword)), await get(stream_zip(made, **keyword)), 'archives of the same files')
    elif how == 'resource':
        resource = create_zip_stream_resource(made, **keyword)
        check_eq(resource, create_zip_stream_resource(made, **keyword), 'equality of resources')
        check_eq(await get(resource), await get(resource), 'archives of the same resource')
    elif how == 'concurrent':
        tasks = [Task(sim.loop, get(stream_zip(made, **keyword))) for _ in range(3)]
        results = [await task for task in tasks]
        check(results[0] == results[1] == results[2], 'archives of the same files differ')
    else:
        stream = stream_zip(made, **keyword)
        got = 0
        try:
            for _ in range(amount):
                await stream.__anext__()
                got += 1
                empty = sum(1 for file in files for chunk in file[1] if file[2] or not chunk[1])
                check(produced[0] <= got + empty, 'sources are read ahead', produced[0], got)
        except StopAsyncIteration:
            check(not fails, 'the error of a source is lost')
        except KeyError:
            check(fails, 'failed')
        await stream.aclose()
        before = produced[0]
        await sleep(1.0)
        check_eq(produced[0], before, 'sources are read after the stream is closed')


@C41.case('archive', _archive_strategy, quick = 1200, thorough = 40000, shards = 4)
def c41_archive(case, ctx):
    vsim.run(_c41_archive, case, ctx)


def _many_strategy():
    return st.sampled_from([65536, 65535, 70000])


async def _c41_many(sim, amount, ctx):
    ctx.nontrivial()

    class Empty:
        def __aiter__(self):
            return self
        async def __anext__(self):
            raise StopAsyncIteration
    empty = Empty()
    when = date_of(0)
    out = []
    async for chunk in stream_zip([ZipStreamFile(str(index), empty, modified_at = when) for index in range(amount)], name_deduplicator = None):
        out.append(chunk)
    archive = zipfile.ZipFile(io.BytesIO(b''.join(out)))
    check_eq(archive.namelist(), [str(index) for index in range(amount)], 'names')


@C41.case('many', _many_strategy, quick = 2, thorough = 8)
def c41_many(case, ctx):
    vsim.run(_c41_many, case, ctx)


VALUES = st.one_of(st.integers(-2, 2), st.text(max_size = 2), st.none())


def _resource_strategy():
    return st.tuples(
        st.lists(VALUES, max_size = 3), st.dictionaries(st.sampled_from(['x', 'function', 'self', 'cls', 'positional_parameters']), VALUES, max_size = 3),
        st.integers(1, 3), st.booleans(),
    )


async def _c41_resource(sim, case, ctx):
    positional, keyword, times, direct = case
    ctx.nontrivial(len(positional) + len(keyword) > 1)
    calls = []

    async def generator(*args, **kwargs):
        calls.append((args, kwargs))
        for arg in args:
            await skip_ready_cycle()
            yield arg
        for item in kwargs.items():
            yield item
    expected = [*positional, *keyword.items()]
    keyword.pop('self', None)
    expected = [*positional, *keyword.items()]
    function = ResourceStreamFunction(generator)
    resource = function(*positional, **keyword)
    check_eq(resource == function(*positional, **keyword), True, 'equality')
    check_eq(resource == function(*positional, 5), False, 'equality to an other')
    repr(function)
    if direct:
        keyword.pop('function', None)
        keyword.pop('cls', None)
        expected = [*positional, *keyword.items()]
        resource = ResourceStream(generator, *positional, **keyword)
    check_eq(len(calls), 0, 'called before it is iterated')
    for _ in range(times):
        check_eq([item async for item in resource], expected, 'what the stream produces')
    check_eq(len(calls), times, 'times called')
    repr(resource)


@C41.case('resource', _resource_strategy, quick = 800, thorough = 10000)
def c41_resource(case, ctx):
    vsim.run(_c41_resource, case, ctx)
