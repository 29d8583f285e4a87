"""C01: Future; C02 / C03: Task outcome and cancellation; C04: timeouts and cancel_with."""
import asyncio

import vsim, vaio
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import (
    CancelledError, Future, InvalidStateError, Task, repeat_timeout, shield, skip_ready_cycle, sleep
)


class Boom(Exception):
    def __init__(self, n):
        Exception.__init__(self, n)
        self.n = n


# ---------------------------------------------------------------------------------------------------------------------
# C02 / C03 -- programs of nested coroutines and tasks, compared with the same program on asyncio
# ---------------------------------------------------------------------------------------------------------------------

class ApiScarletio:
    Cancelled = CancelledError

    def __init__(self, sim):
        self.sim = sim
        self.loop = sim.loop

    def now(self):
        return self.loop.time()

    def sleep(self, delay):
        return sleep(delay, self.loop)

    def task(self, coroutine):
        return self.loop.create_task(coroutine)

    def future(self):
        return self.loop.create_future()

    def at(self, when, function, *args):
        self.loop.call_at(when, function, *args)

    def shield(self, task):
        return shield(task, self.loop)

    def cycle(self):
        return skip_ready_cycle()

    def set_result(self, future, value):
        if future.is_pending():
            future.set_result(value)

    def set_exception(self, future, exception):
        if future.is_pending():
            future.set_exception(exception)

    def outcome(self, future):
        if future.is_pending():
            return ('pending',)
        if future.is_cancelled():
            future.get_exception()
            return ('cancelled',)
        exception = future.get_exception()
        if exception is not None:
            return ('raise', describe(exception, self.Cancelled))
        return ('return', future.get_result())

    def done(self, future):
        return future.is_done()


class ApiAsyncio(ApiScarletio):
    Cancelled = asyncio.CancelledError

    def __init__(self, loop):
        self.sim = loop
        self.loop = loop

    def sleep(self, delay):
        if delay <= 0:
            # scarletio's returns a finished future for it
            future = self.loop.create_future()
            future.set_result(None)
            return future

        future = self.loop.create_future()
        handle = self.loop.call_later(delay, lambda: future.done() or future.set_result(None))
        future.add_done_callback(lambda future: handle.cancel())
        return future

    def at(self, when, function, *args):
        self.loop.call_at(when, function, *args)

    def shield(self, task):
        return asyncio.shield(task)

    def cycle(self):
        return asyncio.sleep(0)

    def set_result(self, future, value):
        if not future.done():
            future.set_result(value)

    def set_exception(self, future, exception):
        if not future.done():
            future.set_exception(exception)

    def outcome(self, future):
        if not future.done():
            return ('pending',)
        if future.cancelled():
            return ('cancelled',)
        exception = future.exception()
        if exception is not None:
            return ('raise', describe(exception, self.Cancelled))
        return ('return', future.result())

    def done(self, future):
        return future.done()


def describe(exception, cancelled):
    if isinstance(exception, cancelled):
        return 'cancelled'
    if isinstance(exception, Boom):
        return ('boom', exception.n)
    return repr(exception)


class Interpreter:
    """Runs programs. Each task logs what it saw into its own trace."""
    def __init__(self, api, case):
        self.api = api
        self.case = case
        # Tasks are named by their position in the tree: the order in which siblings are resumed is not specified.
        self.tasks = {}
        self.traces = {}
        self.children = {}
        self.futures = [api.future() for _ in range(2)]

    def spawn(self, name, program):
        self.children[name] = 0
        self.traces[name] = []
        self.tasks[name] = self.api.task(self.main(name, program))
        return name

    def spawn_child(self, parent, program):
        count = self.children[parent]
        if count >= 3 or len(parent) >= 4:
            return None
        self.children[parent] = count + 1
        return self.spawn((*parent, count), program)

    def log(self, index, *what):
        self.traces[index].append((round(self.api.now() - 1000.0, 4), *what))

    async def main(self, index, program):
        self.log(index, 'start')
        try:
            value = await self.body(index, program)
        except BaseException as exception:
            self.log(index, 'leave', describe(exception, self.api.Cancelled))
            raise
        self.log(index, 'return', value)
        return value

    async def body(self, index, program):
        value = None
        for op in program:
            value = await self.op(index, op)
        return value

    async def op(self, index, op):
        api = self.api
        kind = op[0]
        if kind == 'sleep':
            await api.sleep(float(op[1]))
            self.log(index, 'slept')
            return op[1]
        if kind == 'cycle':
            for _ in range(op[1]):
                await api.cycle()
            return None
        if kind == 'value':
            return op[1]
        if kind == 'raise':
            self.log(index, 'raises', op[1])
            raise Boom(op[1])
        if kind == 'call':
            return await self.body(index, op[1])
        if kind == 'spawn':
            self.spawn_child(index, op[1])
            return None
        if kind == 'spawn_wait':
            child = self.spawn_child(index, op[1])
            if child is None:
                return None
            value = await self.tasks[child]
            self.log(index, 'child', value)
            return value
        if kind == 'shield_wait':
            child = self.spawn_child(index, op[1])
            if child is None:
                return None
            value = await api.shield(self.tasks[child])
            self.log(index, 'child', value)
            return value
        if kind == 'join':
            # Await an other, lower top level task, which waits for no one: nobody waits for themselves.
            if index[0] == 0:
                return None
            other = (op[1] % index[0],)
            if other not in self.joinable:
                return None
            value = await self.tasks[other]
            self.log(index, 'joined', other, value)
            return value
        if kind == 'cancel_self':
            self.tasks[index].cancel()
            return None
        if kind == 'cancel_child':
            child = self.spawn_child(index, op[1])
            if child is None:
                return None
            for _ in range(op[2]):
                await api.cycle()
            self.log(index, 'cancels', bool(self.tasks[child].cancel()))
            value = await self.tasks[child]
            self.log(index, 'child', value)
            return value
        if kind == 'future':
            value = await self.futures[op[1]]
            self.log(index, 'future', value)
            return value
        if kind == 'try':
            try:
                value = await self.body(index, op[1])
            except BaseException as exception:
                name = describe(exception, api.Cancelled)
                catches = op[2]
                if isinstance(exception, GeneratorExit):
                    raise
                if catches == 'all' or (catches == 'boom' and name != 'cancelled') or (catches == 'cancel' and name == 'cancelled'):
                    self.log(index, 'caught', name)
                    return await self.body(index, op[3])
                raise
            else:
                return value
        if kind == 'finally':
            try:
                return await self.body(index, op[1])
            finally:
                self.log(index, 'finally')
                await self.body(index, op[2])
        raise RuntimeError(kind)

    def prepare(self):
        programs, cancels, sets = self.case
        self.joinable = {(i,) for i, program in enumerate(programs) if not _waits_others(program)}

    async def run(self):
        programs, cancels, sets = self.case
        self.prepare()
        api = self.api
        base = api.now()
        for position, program in enumerate(programs):
            self.spawn((position,), program)
        answers = []

        def cancel(target, position):
            names = sorted(self.tasks)
            target = names[target % len(names)]
            answers.append((position, target, bool(self.tasks[target].cancel())))

        for position, (instant, target) in enumerate(cancels):
            # unique sub-instants: no two causes may meet at the same time, so order of callbacks does not matter
            api.at(base + instant + (position + 1) / 16, cancel, target, position)

        def put(which, how, target):
            if how is None:
                api.set_exception(self.futures[which], Boom(90 + which))
            else:
                api.set_result(self.futures[which], how)
            if target is not None:
                # the waiters are to be resumed already
                cancel(target, 100 + which)

        for position, (instant, how, target) in enumerate(sets):
            api.at(base + instant + 1 / 2 + position / 4, put, position, how, target)

        await api.sim.settle()
        outcomes = [(name, api.outcome(self.tasks[name])) for name in sorted(self.tasks)]
        for future in self.futures:
            api.outcome(future)
        return outcomes, [(name, self.traces[name]) for name in sorted(self.traces)], answers


def _waits_others(program):
    for op in program:
        if op[0] in ('join', 'spawn_wait', 'shield_wait', 'spawn', 'cancel_child'):
            return True
        for part in op[1:]:
            if isinstance(part, list) and _waits_others(part):
                return True
    return False


async def _run_scarletio(sim, case):
    return await Interpreter(ApiScarletio(sim), case).run()


async def _run_asyncio(loop, case):
    return await Interpreter(ApiAsyncio(loop), case).run()


def _ops(cancels):
    leaf = st.one_of(

        st.tuples(st.just('sleep'), st.integers(0, 4)),
        st.tuples(st.just('sleep'), st.integers(1, 4)),
        st.tuples(st.just('cycle'), st.integers(1, 3)),
        st.tuples(st.just('value'), st.integers(0, 5)),
        st.tuples(st.just('raise'), st.integers(0, 5)),
        st.tuples(st.just('join'), st.integers(0, 5)),
        st.tuples(st.just('future'), st.integers(0, 1)),
        *((st.tuples(st.sampled_from(['sleep', 'sleep', 'sleep', 'cancel_self']), st.integers(1, 4)),) if cancels else ()),
    )
    return st.recursive(
        leaf,
        lambda inner: st.one_of(
            st.tuples(st.sampled_from(['call', 'spawn_wait', 'shield_wait', 'spawn']), st.lists(inner, min_size = 1, max_size = 3)),
            st.tuples(
                st.just('try'), st.lists(inner, min_size = 1, max_size = 3), st.sampled_from(['all', 'boom', 'cancel']),
                st.lists(inner, max_size = 2),
            ),
            st.tuples(st.just('finally'), st.lists(inner, min_size = 1, max_size = 3), st.lists(inner, max_size = 2)),
            *((
                st.tuples(st.just('cancel_child'), st.lists(inner, min_size = 1, max_size = 3), st.integers(0, 3)),
            ) if cancels else ()),
        ),
        max_leaves = 8,
    )


def _programs(cancels):
    # Put the wait before, so cancellation hits in the middle of something.
    return lambda: st.tuples(
        st.lists(st.lists(_ops(cancels), min_size = 1, max_size = 4), min_size = 1, max_size = 4),
        (
            st.lists(st.tuples(st.integers(0, 6), st.integers(0, 7)), min_size = 1, max_size = 5)
            if cancels else st.just([])
        ),
        st.tuples(
            *[
                st.tuples(
                    st.integers(0, 6), st.one_of(st.none(), st.integers(0, 9)),
                    st.one_of(st.none(), st.integers(0, 7)) if cancels else st.none(),
                )
                for _ in range(2)
            ],
        ),
    )


def _compare(case, ctx):
    got = vsim.run(_run_scarletio, case)
    expected = vaio.run(_run_asyncio, case)
    for name, g, e in zip(('outcomes', 'traces', 'answers of .cancel()'), got, expected):
        if g != e:
            for index, (a, b) in enumerate(zip(g, e)):
                if a != b:
                    raise Violation(f'{name}[{index}] differ: got {a!r}, expected (by asyncio): {b!r}')
            raise Violation(f'{name} differ: got {g!r}, expected (by asyncio): {e!r}')
    outcomes, traces, answers = got
    for name, outcome in outcomes:
        ctx.label(outcome[0])
    ctx.label('caught', any(entry[1] == 'caught' for name, trace in traces for entry in trace))
    ctx.label('caught-cancel', any(entry[1:] == ('caught', 'cancelled') for name, trace in traces for entry in trace))
    ctx.label('cancel-hit', any(answer[2] for answer in answers))
    ctx.label('multi', len(outcomes) > 1)
    return got


C02 = Property(
    'C02',
    rule = (
        'Case = 1..4 programs of nested coroutines / child tasks / shields / try / finally / futures set from timers, '
        'interpreted by coroutines on scarletio (virtual time) and on asyncio (virtual time); per task traces and '
        'outcomes are compared. Non-trivial = more than one task ran, or an exception was caught.'
    ),
    assumptions = ['CPython\'s asyncio as reference implementation of task semantics shared by both libraries'],
)


@C02.case('differential', _programs(False), quick = 6000, thorough = 90000, shards = 4)
def run_c02(case, ctx):
    outcomes, traces, answers = _compare(case, ctx)
    ctx.nontrivial(len(outcomes) > 1 or any(entry[1] == 'caught' for name, trace in traces for entry in trace))
    ctx.note = outcomes


C03 = Property(
    'C03',
    rule = (
        'As C02 with 1..5 cancellations injected at unique instants into any of the running (nested) tasks. '
        'Non-trivial = a cancellation hit a task which was not done.'
    ),
    assumptions = ['CPython\'s asyncio as reference implementation of task cancellation semantics shared by both libraries'],
)


@C03.case('differential', _programs(True), quick = 9000, thorough = 120000, shards = 6)
def run_c03(case, ctx):
    outcomes, traces, answers = _compare(case, ctx)
    ctx.nontrivial(any(answer[2] for answer in answers))
    ctx.note = outcomes


# ---------------------------------------------------------------------------------------------------------------------
# C01 -- Future
# ---------------------------------------------------------------------------------------------------------------------

C01 = Property(
    'C01',
    rule = (
        'Case = a sequence of operations on one Future (setters, cancellers, callback registration / removal, awaiting '
        'tasks of three kinds, queries, letting the loop run), compared with a state machine model after each step. '
        'Non-trivial = the future got done with at least one callback or awaiter registered.'
    ),
)

_VALUE = st.integers(0, 3)


def _future_ops():
    op = st.one_of(
        st.tuples(st.just('set_result'), _VALUE),
        st.tuples(st.just('set_result_if_pending'), _VALUE),
        st.tuples(st.sampled_from(['set_exception', 'set_exception_if_pending', 'cancel_with']), st.sampled_from(['type', 'instance', 'stop', 'stop_type'])),
        st.tuples(st.just('cancel'), st.none()),
        st.tuples(st.just('silence'), st.none()),
        st.tuples(st.just('timeout'), st.integers(0, 3)),
        st.tuples(st.just('get'), st.none()),
        st.tuples(st.just('sleep'), st.integers(1, 2)),
    )
    quiet = st.one_of(
        st.tuples(st.just('add'), _VALUE),
        st.tuples(st.just('add_bad'), _VALUE),
        st.tuples(st.just('remove'), _VALUE),
        st.tuples(st.just('await'), st.sampled_from(['await', 'wait_for_completion', 'shield', 'shield', 'async_wrap', 'cancelled', 'cancelled shield'])),
        st.tuples(st.just('cycle'), st.integers(1, 2)),
        st.tuples(st.just('get'), st.none()),
    )
    return st.lists(st.one_of(quiet, quiet, op), min_size = 1, max_size = 14)


async def _future_program(sim, ops, ctx):
    loop = sim.loop
    future = Future(loop)
    model = {'state': 'pending', 'value': None, 'at': None, 'cancelled': False}
    calls = {i: 0 for i in range(4)}
    expected_calls = {i: 0 for i in range(4)}
    registered = []
    bad_calls = []
    awaiters = []
    interrupted = []
    timeouts = []

    def make_callback(i):
        def callback(source):
            if source is not future:
                bad_calls.append('a callback got something else than its future')
            if not source.is_done():
                bad_calls.append('a callback ran before the future was done')
            calls[i] += 1
        return callback

    def bad_callback(source):
        raise Boom(77)

    class Owner:
        def __init__(self, function):
            self.function = function

        def callback(self, source):
            self.function(source)

    class Callbacks(dict):
        # every second one is a bound method, created each time it is accessed.
        def __getitem__(self, i):
            owner = dict.__getitem__(self, i)
            return owner.callback if i % 2 else owner.function

    callbacks = Callbacks((i, Owner(make_callback(i))) for i in range(4))

    def finish(state, value, cancelled = False):
        if registered or awaiters:
            ctx.nontrivial()
        model['state'] = state
        model['value'] = value
        model['cancelled'] = cancelled
        for i in registered:
            if i is not None:
                expected_calls[i] += 1
        registered.clear()

    async def waiter(how, record):
        try:
            if how == 'await':
                record.append(('return', await future))
            elif how == 'wait_for_completion':
                record.append(('return', await future.wait_for_completion()))
            elif how == 'shield':
                record.append(('return', await shield(future, loop)))
            elif how == 'async_wrap':
                record.append(('return', await future.async_wrap(loop)))
        except BaseException as exception:
            record.append(('raise', exception))

    def model_outcome():
        state, value = model['state'], model['value']
        if state == 'returned':
            return ('return', value)
        if state == 'cancelled':
            return ('raise', CancelledError)
        return ('raise', value)

    def same(got, expected):
        if got[0] != expected[0]:
            return False
        if got[0] == 'return':
            return got[1] == expected[1]
        if isinstance(expected[1], type):
            return type(got[1]) is expected[1]
        return got[1] is expected[1]

    def expire():
        # a timeout which elapsed cancels the future with TimeoutError
        if model['state'] == 'pending' and timeouts and min(timeouts) <= loop.time() + 1e-6:
            finish('raised', TimeoutError, True)

    def query():
        expire()
        state = model['state']
        check_eq(future.is_done(), state != 'pending', 'is_done()')
        check_eq(future.is_pending(), state == 'pending', 'is_pending()')
        check_eq(future.is_cancelled(), model['cancelled'], 'is_cancelled()')
        repr(future)
        if state == 'pending':
            for method in (future.get_result, future.get_exception):
                try:
                    method()
                except InvalidStateError:
                    pass
                else:
                    raise Violation(f'{method.__name__}() of a pending future did not raise')
            check(future.get_cancellation_exception() is None, 'get_cancellation_exception() of a pending future')
        else:
            expected = model_outcome()
            try:
                got = ('return', future.get_result())
            except BaseException as exception:
                got = ('raise', exception)
            check(same(got, expected), 'get_result()', got, expected)
            exception = future.get_exception()
            if expected[0] == 'return':
                check(exception is None, 'get_exception() of a returned future', exception)
            else:
                check(same(('raise', exception), expected), 'get_exception()', exception, expected)
            exception = future.get_cancellation_exception()
            if model['cancelled']:
                check(same(('raise', exception), expected), 'get_cancellation_exception()', exception, expected)
            else:
                check(exception is None, 'get_cancellation_exception() of a not cancelled future', exception)

    def make_exception(kind):
        if kind == 'type':
            return KeyError, KeyError
        if kind == 'stop':
            return StopIteration(5), None
        if kind == 'stop_type':
            return StopIteration, None
        exception = Boom(3)
        return exception, exception

    for name, value in ops:
        expire()
        pending = model['state'] == 'pending'
        if name == 'set_result':
            try:
                future.set_result(value)
            except InvalidStateError:
                check(not pending, 'set_result() of a pending future raised InvalidStateError')
            else:
                check(pending, 'set_result() of a done future did not raise')
                finish('returned', value)
        elif name == 'set_result_if_pending':
            answer = future.set_result_if_pending(value)
            check_eq(bool(answer), pending, 'set_result_if_pending()')
            if pending:
                finish('returned', value)
        elif name in ('set_exception', 'set_exception_if_pending', 'cancel_with'):
            exception, stored = make_exception(value)
            try:
                answer = getattr(future, name)(exception)
            except InvalidStateError:
                check(not pending and name == 'set_exception', f'{name}() raised InvalidStateError')
            except TypeError:
                check(pending and stored is None, f'{name}({exception!r}) raised TypeError')
            else:
                if not pending:
                    check(name != 'set_exception', 'set_exception() of a done future did not raise')
                    check(not answer, f'{name}() of a done future reported success')
                else:
                    check(stored is not None, f'{name}() accepted StopIteration')
                    if name != 'set_exception':
                        check(answer, f'{name}() of a pending future reported failure')
                    finish('raised', stored, name == 'cancel_with')
        elif name == 'cancel':
            answer = future.cancel()
            check_eq(bool(answer), pending, 'cancel()')
            if pending:
                finish('cancelled', None, True)
        elif name == 'silence':
            future.silence()
            check(future.is_silenced(), 'is_silenced() after silence()')
        elif name == 'timeout':
            answer = future.apply_timeout(float(value))
            check_eq(bool(answer), pending, 'apply_timeout()')
            if pending:
                if value <= 0:
                    finish('raised', TimeoutError, True)
                else:
                    timeouts.append(loop.time() + value)
        elif name == 'add':
            future.add_done_callback(callbacks[value])
            if pending:
                registered.append(value)
            else:
                expected_calls[value] += 1
        elif name == 'add_bad':
            # a callback which raises may not affect the others
            future.add_done_callback(bad_callback)
            if pending:
                registered.append(None)
        elif name == 'remove':
            answer = future.remove_done_callback(callbacks[value])
            count = registered.count(value) if pending else 0
            check_eq(answer, count, 'remove_done_callback()')
            registered[:] = [i for i in registered if i != value]
        elif name == 'await':
            if value == 'cancelled':
                # an awaiter which gets cancelled cancels what it awaits
                record = []
                task = loop.create_task(waiter('await', record))
                await skip_ready_cycle()
                expire()
                pending = model['state'] == 'pending'
                answer = task.cancel()
                check_eq(bool(answer), True, 'cancel() of a task not resumed yet') if pending else None
                if pending:
                    finish('cancelled', None, True)
                awaiters.append(('await', record, task, not pending))
            elif value == 'cancelled shield':
                # while one which awaits it through a shield does not
                record = []
                task = loop.create_task(waiter('shield', record))
                await skip_ready_cycle()
                expire()
                pending = model['state'] == 'pending'
                answer = task.cancel()
                if pending:
                    check_eq(bool(answer), True, 'cancel() of a task not resumed yet')
                    interrupted.append((record, task))
                else:
                    awaiters.append(('shield', record, task, True))
            else:
                record = []
                awaiters.append((value, record, loop.create_task(waiter(value, record)), False))
        elif name == 'cycle':
            for _ in range(value):
                await skip_ready_cycle()
        elif name == 'sleep':
            await sleep(float(value), loop)
        elif name == 'get':
            pass
        query()

    await sim.settle()
    expire()
    query()
    check_eq(calls, expected_calls, 'how many times each callback ran')
    for how, record, task, racing in awaiters:
        if model['state'] == 'pending':
            check(not record, f'{how} of a pending future finished', record)
            continue
        check(len(record) == 1, f'an awaiter ({how}) of a done future was not resumed', record)
        expected = model_outcome()
        if how == 'wait_for_completion':
            expected = ('return', None)
        if racing and type(record[0][1]) is CancelledError:
            # the future was done before; the awaiter itself got cancelled
            continue
        check(same(record[0], expected), f'{how} resumed with', record[0], expected)
    for record, task in interrupted:
        check(len(record) == 1 and type(record[0][1]) is CancelledError, 'a task cancelled while waiting through a shield', record)
    if bad_calls:
        raise Violation(bad_calls[0])
    # never again
    before = dict(calls)
    future.cancel()
    future.set_result_if_pending('late')
    await sim.settle()
    if model['state'] != 'pending':
        query()
        check_eq(calls, before, 'callbacks ran again')
    else:
        future.silence()


@C01.case('model', _future_ops, quick = 8000, thorough = 120000, shards = 4)
def run_c01(case, ctx):
    vsim.run(_future_program, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# C04 -- timeouts
# ---------------------------------------------------------------------------------------------------------------------

from scarletio.web_common.helpers import Timeout

C04 = Property(
    'C04',
    rule = (
        'Case = a program of nested sleeps, cleanups, cancellation swallowing, child tasks, `Timeout` contexts and '
        '`repeat_timeout` loops with an optional `apply_timeout`, `cancel` or `cancel_with` from outside; deadlines are '
        'unique (powers of two fractions). The trace of (instant, event) is compared with a simulator. Second sub check: '
        'the deadline elapses in the same instant as the awaited future gets done. Non-trivial = a timeout fired.'
    ),
)


def _timeout_programs():
    duration = st.integers(0, 4)
    plain = st.recursive(
        st.tuples(st.just('sleep'), duration),
        lambda inner: st.tuples(st.just('finally'), st.lists(inner, min_size = 1, max_size = 2), st.lists(inner, max_size = 2)),
        max_leaves = 4,
    )
    op = st.recursive(
        st.one_of(
            st.tuples(st.just('sleep'), duration),
            st.tuples(st.just('child'), st.lists(plain, min_size = 1, max_size = 3)),
            st.tuples(st.just('repeat'), st.integers(0, 3), st.lists(duration, min_size = 1, max_size = 4)),
        ),
        lambda inner: st.one_of(
            st.tuples(st.just('ctx'), st.integers(0, 5), st.lists(inner, min_size = 1, max_size = 3)),
            st.tuples(st.just('catch'), st.lists(inner, min_size = 1, max_size = 3)),
            st.tuples(st.just('swallow'), st.lists(inner, min_size = 1, max_size = 3)),
            st.tuples(st.just('finally'), st.lists(inner, min_size = 1, max_size = 3), st.lists(inner, max_size = 2)),
        ),
        max_leaves = 7,
    )
    return st.tuples(
        st.lists(op, min_size = 1, max_size = 4),
        st.one_of(
            st.none(), st.none(),
            st.tuples(st.sampled_from(['apply_timeout', 'cancel', 'cancel_with']), st.integers(0, 8)),
        ),
    )


class _SimCancelled(Exception):
    pass


class _SimTimeout(Exception):
    pass


class _TimeoutSimulator:
    def __init__(self):
        self.now = 0.0
        self.deadlines = {}
        self.fired = set()
        self.trace = []
        self.counter = 0

    def next_id(self):
        self.counter += 1
        return self.counter

    def sleep(self, duration):
        if duration <= 0:
            return
        until = self.now + duration
        pending = [(when, id_) for id_, when in self.deadlines.items() if id_ not in self.fired]
        if pending:
            when, id_ = min(pending)
            if when < until:
                self.now = when
                self.fired.add(id_)
                raise _SimCancelled
        self.now = until

    def body(self, program):
        for op in program:
            self.op(op)

    def op(self, op):
        kind = op[0]
        if kind == 'sleep':
            self.sleep(op[1])
            self.trace.append((round(self.now, 6), 'slept'))
        elif kind == 'child':
            self.body(op[1])
        elif kind == 'finally':
            try:
                self.body(op[1])
            finally:
                self.trace.append((round(self.now, 6), 'finally'))
                self.body(op[2])
        elif kind == 'catch':
            try:
                self.body(op[1])
            except _SimTimeout:
                self.trace.append((round(self.now, 6), 'timeout caught'))
        elif kind == 'swallow':
            try:
                self.body(op[1])
            except _SimCancelled:
                self.trace.append((round(self.now, 6), 'swallowed'))
        elif kind == 'ctx':
            id_ = self.next_id()
            self.deadlines[id_] = self.now + op[1] + 2.0 ** -id_
            try:
                self.body(op[2])
            except _SimCancelled:
                if id_ in self.fired:
                    raise _SimTimeout
                raise
            finally:
                del self.deadlines[id_]
        elif kind == 'repeat':
            id_ = self.next_id()
            try:
                for duration in op[2]:
                    self.deadlines[id_] = self.now + op[1] + 2.0 ** -id_
                    self.sleep(duration)
                    self.trace.append((round(self.now, 6), 'iterated'))
            except _SimCancelled:
                if id_ in self.fired:
                    raise _SimTimeout
                raise
            finally:
                del self.deadlines[id_]


async def _timeout_program(sim, case):
    loop = sim.loop
    program, outside = case
    trace = []
    base = loop.time()
    counter = 0

    def log(what):
        trace.append((round(loop.time() - base, 6), what))

    def next_id():
        nonlocal counter
        counter += 1
        return counter

    async def body(program):
        for op in program:
            await do(op)

    async def do(op):
        kind = op[0]
        if kind == 'sleep':
            await sleep(float(op[1]), loop)
            log('slept')
        elif kind == 'child':
            await loop.create_task(body(op[1]))
        elif kind == 'finally':
            try:
                await body(op[1])
            finally:
                log('finally')
                await body(op[2])
        elif kind == 'catch':
            try:
                await body(op[1])
            except TimeoutError:
                log('timeout caught')
        elif kind == 'swallow':
            try:
                await body(op[1])
            except CancelledError:
                log('swallowed')
        elif kind == 'ctx':
            id_ = next_id()
            with Timeout(loop, op[1] + 2.0 ** -id_):
                await body(op[2])
        elif kind == 'repeat':
            id_ = next_id()
            iterator = iter(op[2])
            remaining = len(op[2])
            with repeat_timeout(op[1] + 2.0 ** -id_) as repeater:
                for _ in repeater:
                    await sleep(float(next(iterator)), loop)
                    log('iterated')
                    remaining -= 1
                    if not remaining:
                        break

    task = loop.create_task(body(program))
    finished_at = []
    task.add_done_callback(lambda task: finished_at.append(round(loop.time() - base, 6)))
    custom = Boom(5)
    if outside is not None:
        how, delay = outside
        delay += 2.0 ** -20
        if how == 'apply_timeout':
            task.apply_timeout(delay)
        elif how == 'cancel':
            loop.call_after(delay, task.cancel)
        else:
            loop.call_after(delay, task.cancel_with, custom)
    await sim.settle()
    if not task.is_done():
        return trace, 'pending', None, None
    try:
        task.get_result()
    except CancelledError:
        outcome = 'cancelled'
    except TimeoutError:
        outcome = 'timeout'
    except Boom as exception:
        outcome = 'custom' if exception is custom else 'other'
    else:
        outcome = 'returned'
    return trace, outcome, finished_at, task.is_cancelled()


@C04.case('program', _timeout_programs, quick = 9000, thorough = 120000, shards = 5)
def run_c04(case, ctx):
    program, outside = case
    simulator = _TimeoutSimulator()
    if outside is not None:
        simulator.deadlines['outside'] = outside[1] + 2.0 ** -20
        # smaller fraction than any context's
    expected_cancelled = False
    try:
        # ids and 'outside' are not comparable; instants are unique, so `min` never compares them
        simulator.body(program)
    except _SimTimeout:
        expected = 'timeout'
    except _SimCancelled:
        expected_cancelled = True
        expected = {'apply_timeout': 'timeout', 'cancel': 'cancelled', 'cancel_with': 'custom'}[outside[0]]
    else:
        expected = 'returned'
    trace, outcome, finished_at, is_cancelled = vsim.run(_timeout_program, case)
    ctx.nontrivial(simulator.fired)
    ctx.label(expected)
    for event in ('timeout caught', 'swallowed', 'finally', 'iterated'):
        ctx.label(event, any(entry[1] == event for entry in simulator.trace))
    ctx.note = (outcome, finished_at)
    for index, (a, b) in enumerate(zip(trace, simulator.trace)):
        if a != b:
            raise Violation(f'event {index} differs: got {a!r}, expected {b!r}')
    check_eq(trace, simulator.trace, 'trace')
    check_eq(outcome, expected, 'outcome')
    check_eq(is_cancelled, expected_cancelled, 'is_cancelled()')
    check_eq(finished_at, [round(simulator.now, 6)], 'finished at')


def _race_cases():
    return st.tuples(
        st.sampled_from(['apply_timeout', 'cancel_with', 'cancel']),
        st.lists(st.sampled_from(['fire', 'set']), min_size = 1, max_size = 4),
        st.integers(0, 3),            # ready cycles between
        st.booleans(),                # nested in a child task
        st.integers(0, 3),            # what the task sleeps after
    )


async def _race_program(sim, case):
    how, order, cycles, nested, after = case
    loop = sim.loop
    future = Future(loop)
    progress = []

    async def inner():
        await future
        progress.append('resumed')
        if after:
            await sleep(float(after), loop)
            progress.append('slept')
        return 'value'

    async def outer():
        if nested:
            return await loop.create_task(inner())
        return await inner()

    task = loop.create_task(outer())
    await sleep(1.0, loop)
    custom = Boom(1)
    hits = []
    for index, step in enumerate(order):
        if index:
            for _ in range(cycles):
                await skip_ready_cycle()
        if step == 'set':
            future.set_result_if_pending(None)
        else:
            done_before = task.is_done()
            if how == 'apply_timeout':
                answer = task.apply_timeout(0.0)
            elif how == 'cancel_with':
                answer = task.cancel_with(custom)
            else:
                answer = task.cancel()
            hits.append((done_before, bool(answer)))
    await sim.settle()
    if not task.is_done():
        return hits, 'pending', progress
    exception = task.get_exception()
    if exception is None:
        return hits, 'returned', progress
    if exception is custom:
        return hits, 'custom', progress
    return hits, type(exception).__name__, progress


@C04.case(
    'race', _race_cases, quick = 1500, thorough = 20000,
    fixed = [('apply_timeout', ['set', 'fire'], 0, False, 0), ('cancel_with', ['set', 'fire'], 0, False, 3)],
)
def run_c04_race(case, ctx):
    how, order, cycles, nested, after = case
    hits, outcome, progress = vsim.run(_race_program, case)
    for done_before, answer in hits:
        check_eq(answer, not done_before, f'{how} told it hit the task')
    effective = any(answer for done_before, answer in hits)
    ctx.nontrivial(effective and 'set' in order)
    if effective:
        expected = {'apply_timeout': 'TimeoutError', 'cancel_with': 'custom', 'cancel': 'CancelledError'}[how]
        check_eq(outcome, expected, f'the task reported to be hit by {how} ended as')
    else:
        check_eq(outcome, 'returned' if 'set' in order else 'pending', 'outcome')
