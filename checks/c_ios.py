"""C42: asynchronous and reusable files."""
import gc, io, os, random, shutil, tempfile
from hypothesis import strategies as st
import vsim
from scarletio import AsyncIO, CancelledError, ReuAsyncIO, ReuBytesIO, Task, skip_ready_cycle, sleep
from c_process import run_real
from c_transport import Errors
from vharness import Property, Violation, check, check_eq

C42 = Property('C42', rule = (
    'Programs of operations on a file opened in any mode, issued one by one or many at once, compared with the same program on a plain file. '
    'Non-trivial = at least 3 operations had an effect.'
))

TEXTS = ['', 'a', 'b\n', 'é\n', '\r\n', 'x\ry', '\n\n', 'long ' * 20, 'line\nline\n', '🦊', '\udce4']
SIZE = st.sampled_from([-1, -1, 0, 1, 2, 5, 100, None])
OPERATION = st.one_of(
    st.tuples(st.just('read'), SIZE), st.tuples(st.just('read1'), st.sampled_from([-1, 0, 1, 5, 100])), st.tuples(st.just('readline'), st.sampled_from([-1, -1, 0, 1, 3, 100])),
    st.tuples(st.just('readlines'), st.sampled_from([-1, -1, 0, 1, 10])), st.tuples(st.just('readinto'), st.integers(0, 8)), st.tuples(st.just('readinto1'), st.integers(0, 8)),
    st.tuples(st.just('write'), st.integers(0, len(TEXTS) - 1)), st.tuples(st.just('write'), st.integers(0, len(TEXTS) - 1)),
    st.tuples(st.just('writelines'), st.lists(st.integers(0, len(TEXTS) - 1), max_size = 3)),
    st.tuples(st.just('seek'), st.integers(0, 30), st.sampled_from([0, 0, 0])), st.tuples(st.just('seek'), st.just(0), st.sampled_from([1, 2])), st.tuples(st.just('seek'), st.integers(-10, 10), st.sampled_from([0, 1, 2])),
    st.tuples(st.just('truncate'), st.sampled_from([None, 0, 3, 50])),
    st.sampled_from([('tell',), ('flush',), ('iterate', 1), ('iterate', 100), ('attributes',)]),
)


def _file_strategy():
    return st.tuples(
        st.sampled_from(['rb', 'r', 'r+b', 'r+', 'w+b', 'w+', 'wb', 'w', 'ab', 'a+', 'xb', 'rb0', 'r+b0']),
        st.sampled_from([None, 'utf-8', 'latin1', 'utf-16']), st.sampled_from([None, '', '\n', '\r\n']), st.sampled_from([None, None, 'surrogateescape', 'replace']),
        st.lists(st.integers(0, len(TEXTS) - 1), max_size = 6),
        st.lists(OPERATION, max_size = 10), st.sampled_from(['one', 'one', 'batch', 'wrap']),
        st.sampled_from(['close', 'with', 'detach', 'detach_to_self', 'delete', 'closed']),
        st.sampled_from([None, None, None, None, None, None, None, 'missing', 'directory', 'mode', 'unknown']),
    )


def value_of(file, binary, index):
    text = TEXTS[index]
    return text.encode('utf-8', 'surrogateescape') if binary else text


ATTRIBUTES = ('encoding', 'errors', 'mode', 'newlines', 'line_buffering', 'closed')
METHODS = ('isatty', 'seekable', 'readable', 'writable')


def call(file, operation, binary):
    """Prepares the call, so that both files get the same. -> (method name, parameters, buffer to compare)"""
    kind, *values = operation
    if kind == 'write':
        return kind, (value_of(file, binary, values[0]),), None
    if kind == 'writelines':
        return kind, ([value_of(file, binary, value) for value in values[0]],), None
    if kind in ('readinto', 'readinto1'):
        buffer = bytearray(values[0])
        return kind, (buffer,), buffer
    return kind, tuple(values), None


def outcome_of(function, *args):
    try:
        return ('ok', function(*args))
    except Exception as exception:
        return ('raised', type(exception), str(exception))


def simple(file, operation, binary):
    kind, parameters, buffer = call(file, operation, binary)
    if kind == 'iterate':
        out = []
        try:
            for _ in range(parameters[0]):
                line = file.readline()
                if not line:
                    break
                out.append(line)
        except Exception as exception:
            return ('raised', type(exception), str(exception)), None
        return ('ok', out), None
    if kind == 'attributes':
        return [*(outcome_of(getattr, file, name) for name in ATTRIBUTES), *(outcome_of(lambda: getattr(file, name)()) for name in METHODS)], None
    try:
        method = getattr(file, kind)
    except AttributeError:
        return ('raised', AttributeError), buffer
    result = outcome_of(method, *parameters)
    return result, buffer


async def awaited(file, operation, binary):
    kind, parameters, buffer = call(file, operation, binary)
    if kind == 'iterate':
        out = []
        try:
            if parameters[0]:
                async for line in file:
                    out.append(line)
                    if len(out) == parameters[0]:
                        break
        except Exception as exception:
            return ('raised', type(exception), str(exception)), None
        return ('ok', out), None
    if kind == 'attributes':
        return [*(outcome_of(getattr, file, name) for name in ATTRIBUTES), *(outcome_of(lambda: getattr(file, name)()) for name in METHODS)], None
    try:
        return ('ok', await getattr(file, kind)(*parameters)), buffer
    except Exception as exception:
        return ('raised', type(exception), str(exception)), buffer


def comparable(result):
    if isinstance(result, list):
        return [comparable(item) for item in result]
    if result[0] == 'raised':
        if result[1] is AttributeError:
            return ('raised', AttributeError)
        return result[:2]
    return result


async def _c42_file(sim, case, ctx):
    mode, encoding, newline, errors_mode, initial, operations, how, ending, fault = case
    loop = sim.loop
    errors = Errors()
    folder = tempfile.mkdtemp(prefix = 'c42-')
    try:
        paths = [os.path.join(folder, name) for name in ('plain', 'tested')]
        content = b''.join(value_of(None, True, index) for index in initial)
        keyword = {}
        if mode.endswith('0'):
            mode = mode[:-1]
            keyword['buffering'] = 0
        binary = 'b' in mode
        if not binary:
            keyword.update(encoding = encoding or 'utf-8', newline = newline, errors = errors_mode)
        if fault == 'mode':
            mode = 'rw'
        elif fault == 'unknown':
            # a `ValueError` with binary modes
            keyword['encoding'] = 'no-such-encoding'
        for path in paths:
            if fault == 'directory':
                os.mkdir(path)
            elif fault != 'missing' and 'x' not in mode:
                with open(path, 'wb') as file:
                    file.write(content)
        plain = outcome_of(lambda: open(paths[0], mode, **keyword))
        try:
            if how == 'wrap':
                file = AsyncIO.wrap(open(paths[1], mode, **keyword))
            else:
                file = await AsyncIO(paths[1], mode, **keyword)
        except Exception as exception:
            check_eq(('raised', type(exception)), plain[:2], 'opening')
            await sim.settle()
            check_eq(loop.get_used_executor_count(), 0, 'executor kept after opening failed')
            errors.check()
            return
        check_eq(plain[0], 'ok', 'opening', plain)
        plain = plain[1]
        check_eq(file.name, paths[1], 'name')
        os.fstat(file.fileno())
        repr(file)
        effective = 0
        if how == 'batch':
            tasks = []
            for operation in operations:
                if operation[0] in ('iterate', 'attributes'):
                    continue
                expected = simple(plain, operation, binary)
                tasks.append((operation, expected, Task(loop, awaited(file, operation, binary))))
            for operation, expected, task in tasks:
                got = await task
                check_eq(comparable(got[0]), comparable(expected[0]), 'outcome of', operation)
                check_eq(got[1], expected[1], 'buffer of', operation)
                effective += expected[0][0] == 'ok'
        else:
            for operation in operations:
                expected = simple(plain, operation, binary)
                got = await awaited(file, operation, binary)
                check_eq(comparable(got[0]), comparable(expected[0]), 'outcome of', operation)
                check_eq(got[1], expected[1], 'buffer of', operation)
                effective += isinstance(expected[0], list) or expected[0][0] == 'ok'
        ctx.nontrivial(effective > 2)
        check_eq(loop.get_used_executor_count(), 1, 'executors used by a file')
        kept = None
        if ending in ('detach', 'detach_to_self'):
            expected = outcome_of(lambda: plain.detach())
            try:
                got = ('ok', await getattr(file, ending)())
            except Exception as exception:
                got = ('raised', type(exception))
            if expected[0] == 'raised':
                check(got[0] == 'raised' and got[1] is expected[1], 'detaching', got, expected)
                file.close()
                plain.close()
            else:
                check_eq(got[0], 'ok', 'detaching', got)
                if ending == 'detach':
                    check(file.closed, 'a detached file is not closed')
                    kept = got[1]
                    check_eq(type(kept), type(expected[1]), 'type of the detached file')
                    check(not kept.closed, 'the detached file is closed')
                    check(comparable((await awaited(file, ('read', 1), binary))[0]) == ('raised', ValueError), 'a detached file can be read')
                    kept.close()
                else:
                    check(not file.closed, 'closed when it is detached to itself')
                    file.close()
                expected[1].close()
        elif ending == 'with':
            with file as entered:
                check(entered is file, 'not the file is entered')
            plain.close()
            try:
                with file:
                    pass
            except ValueError:
                pass
            else:
                raise Violation('a closed file can be entered')
        elif ending == 'delete':
            number = file.fileno()
            # files in a reference cycle (an exception through its traceback) may be collected in any order
            await awaited(file, ('flush',), binary)
            task = got = tasks = None
            del file
            plain.close()
            file = None
            if not closed(number):
                # an exception may hold it through its traceback, and the handle which woke us holds that
                await sim.settle()
                gc.collect()
            check(closed(number), 'the file is not closed when it is dropped')
        elif ending == 'closed':
            plain.close()
            number = file.fileno()
            file.close()
            file.close()
            check(closed(number), 'the file is not closed')
            for operation in operations:
                if operation[0] != 'attributes' and operation != ('iterate', 0):
                    got = await awaited(file, operation, binary)
                    check(got[0][0] == 'raised' and got[0][1] is ValueError, 'operation on a closed file', operation, got)
        else:
            plain.close()
            file.close()
        if file is not None:
            check(file.closed, 'a closed file is not closed')
        with open(paths[0], 'rb') as left, open(paths[1], 'rb') as right:
            check_eq(right.read(), left.read(), 'content of the file')
        await sim.settle()
        check_eq(loop.get_used_executor_count(), 0, 'executor kept after the file is closed')
        errors.check()
    finally:
        shutil.rmtree(folder, ignore_errors = True)


def closed(number):
    try:
        os.fstat(number)
    except OSError:
        return True
    return False


@C42.case('file', _file_strategy, quick = 1200, thorough = 40000, shards = 4)
def c42_file(case, ctx):
    run_real(_c42_file, case, ctx)


READ_OPERATION = st.one_of(
    st.tuples(st.just('read'), st.sampled_from([-1, -1, 0, 1, 2, 5, 100])), st.tuples(st.just('read1'), st.sampled_from([-1, 0, 1, 5, 100])), st.tuples(st.just('readline'), st.sampled_from([-1, -1, 0, 1, 3, 100])),
    st.tuples(st.just('readlines'), st.sampled_from([-1, -1, 0, 1, 10])), st.tuples(st.just('readinto'), st.integers(0, 8)), st.tuples(st.just('readinto1'), st.integers(0, 8)),
    st.tuples(st.just('seek'), st.integers(0, 30), st.just(0)), st.tuples(st.just('seek'), st.integers(-10, 10), st.sampled_from([0, 1, 2])),
    st.sampled_from([('tell',), ('iterate', 1), ('iterate', 100), ('close',), ('close',), ('close',)]),
)


def _reusable_strategy():
    return st.tuples(
        st.lists(st.integers(0, len(TEXTS) - 1), max_size = 6), st.lists(READ_OPERATION, max_size = 12), st.booleans(), st.sampled_from(['real_close', 'with', 'detach', 'delete']),
    )


async def _c42_reusable(sim, case, ctx):
    initial, operations, wrap, ending = case
    loop = sim.loop
    errors = Errors()
    folder = tempfile.mkdtemp(prefix = 'c42-')
    try:
        path = os.path.join(folder, 'file')
        with open(path, 'wb') as file:
            file.write(b''.join(value_of(None, True, index) for index in initial))
        plain = open(path, 'rb')
        file = ReuAsyncIO.wrap(open(path, 'rb')) if wrap else await ReuAsyncIO(path)
        ctx.nontrivial(('close',) in operations and len(operations) > 2)
        for operation in operations:
            if operation == ('close',):
                file.close()
                plain.seek(0)
                check(not file.closed, 'a reusable file is closed')
                continue
            expected = simple(plain, operation, True)
            got = await awaited(file, operation, True)
            check_eq(comparable(got[0]), comparable(expected[0]), 'outcome of', operation)
            check_eq(got[1], expected[1], 'buffer of', operation)
        plain.close()
        number = file.fileno()
        if ending == 'real_close':
            file.real_close()
        elif ending == 'with':
            with file:
                pass
        elif ending == 'detach':
            (await file.detach()).close()
        else:
            file = None
            if not closed(number):
                await sim.settle()
                gc.collect()
        if file is not None:
            check(file.closed, 'a closed file is not closed')
            check(comparable((await awaited(file, ('read', 1), True))[0]) == ('raised', ValueError), 'a closed file can be read')
        check(closed(number), 'the file is not closed')
        await sim.settle()
        check_eq(loop.get_used_executor_count(), 0, 'executor kept after the file is closed')
        errors.check()
    finally:
        shutil.rmtree(folder, ignore_errors = True)


@C42.case('reusable', _reusable_strategy, quick = 700, thorough = 20000, shards = 2)
def c42_reusable(case, ctx):
    run_real(_c42_reusable, case, ctx)


BUFFER_OPERATION = st.one_of(
    st.tuples(st.just('write'), st.sampled_from([0, 1, 3, 20])), st.tuples(st.just('write'), st.sampled_from([1, 5, 20])),
    st.tuples(st.just('read'), st.sampled_from([None, None, -1, 0, 1, 5, 100])), st.tuples(st.just('read'), st.just(None)),
    st.tuples(st.just('seek'), st.integers(0, 30), st.just(0)), st.tuples(st.just('seek'), st.integers(-5, 5), st.sampled_from([1, 2])),
    st.sampled_from([('close',), ('close',), ('tell',), ('len',), ('size',), ('getvalue',)]),
)


def _buffer_strategy():
    return st.tuples(st.lists(BUFFER_OPERATION, max_size = 14), st.sampled_from(['real_close', 'with']))


@C42.case('buffer', _buffer_strategy, quick = 5000, thorough = 200000)
def c42_buffer(case, ctx):
    operations, ending = case
    ctx.nontrivial(sum(operation[0] in ('write', 'read') for operation in operations) > 2)
    tested = ReuBytesIO()
    model = io.BytesIO()
    reading = False
    counter = 0
    for operation in operations:
        kind, *values = operation
        if kind == 'write':
            data = bytes((counter + index) % 255 + 1 for index in range(values[0]))
            counter += len(data)
            if reading:
                model = io.BytesIO()
                reading = False
            check_eq(tested.write(data), model.write(data), 'amount written')
        elif kind == 'read':
            reading = True
            check_eq(tested.read(*values), model.read(*values), 'data read', operation)
        elif kind == 'close':
            tested.close()
            model.seek(0)
        elif kind == 'len':
            check_eq(len(tested), len(model.getvalue()), 'length')
        elif kind == 'size':
            # the way sizes of files are usually learned
            position = tested.tell()
            check_eq(tested.seek(0, os.SEEK_END), len(model.getvalue()), 'size')
            check_eq(tested.tell(), len(model.getvalue()), 'position at the end')
            tested.seek(position)
        elif kind == 'getvalue':
            check_eq(tested.getvalue(), model.getvalue(), 'value')
        else:
            got, expected = outcome_of(getattr(tested, kind), *values), outcome_of(getattr(model, kind), *values)
            check_eq(comparable(got), comparable(expected), 'outcome of', operation)
        check_eq(tested.tell(), model.tell(), 'position after', operation)
        check(not tested.closed, 'closed')
    if ending == 'with':
        with tested:
            pass
    else:
        tested.real_close()
    check(tested.closed, 'a really closed buffer is not closed')
