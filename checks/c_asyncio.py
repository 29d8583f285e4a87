"""C46: the synchronization and task api of the asyncio extension; C47: its streams and runners. Oracle: asyncio itself."""
import concurrent.futures, os, sys, tempfile, threading, time, warnings

import vsim
from vsim import CLOCK
from vharness import HarnessError, Property, Violation, check, check_eq
from hypothesis import strategies as st

import asyncio as std
import asyncio.base_events, asyncio.selector_events, asyncio.streams, asyncio.tasks, asyncio.timeouts  # noqa: F401
import selectors

# The extension takes the place of asyncio in `sys.modules` (by design) and empties the one already there.
# Hide the real one, so both are usable side by side.
_hidden = {name: module for name, module in sys.modules.items() if name == '_asyncio' or name == 'asyncio' or name.startswith('asyncio.')}
for _name in _hidden:
    del sys.modules[_name]
import scarletio.ext.asyncio  # noqa: E402
from scarletio.ext.asyncio import asyncio as ext  # noqa: E402
if ext is std or not hasattr(std, 'run') or not hasattr(ext, 'run'):
    raise HarnessError('could not load asyncio and the extension side by side')
from scarletio import CancelledError as ScarletCancelledError  # noqa: E402


class _StdSelector:
    def __init__(self, inner):
        self.inner = inner

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def select(self, timeout = None):
        events = self.inner.select(0)
        if not events:
            if timeout is None:
                raise Violation('the reference program can never end')
            if timeout > 0.0:
                CLOCK.now += timeout
        return events


class _StdLoop(std.SelectorEventLoop):
    def __init__(self):
        std.SelectorEventLoop.__init__(self, selectors.SelectSelector())
        self._selector = _StdSelector(self._selector)

    def time(self):
        return CLOCK.now


def run_std(function):
    CLOCK.now = 1000.0
    loop = _StdLoop()
    loop.set_exception_handler(lambda loop, context: None)
    # it imports parts of itself lazily
    shown = {name: sys.modules.get(name) for name in _hidden}
    sys.modules.update(_hidden)
    try:
        return loop.run_until_complete(function(std))
    finally:
        for name, module in shown.items():
            if module is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = module
        loop.close()


def run_ext(function):
    async def wrapper(sim):
        return await function(ext)

    return vsim.run(wrapper)


def name_of(exception):
    """Name of an exception, same on both sides."""
    if isinstance(exception, (std.CancelledError, ScarletCancelledError)):
        return 'CancelledError'
    if isinstance(exception, TimeoutError):
        return 'TimeoutError'
    if isinstance(exception, Boom):
        return f'Boom{exception.args!r}'
    return type(exception).__name__


class Boom(Exception):
    pass


def compare(function, what):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        expected = run_std(function)
        got = run_ext(function)
    check_eq(got, expected, what)
    return expected


# ---------------------------------------------------------------------------------------------------------------------

C46 = Property(
    'C46',
    rule = (
        'locks, queues: up to 5 tasks doing up to 6 operations each on one shared object (lock, event, condition, semaphore, bounded semaphore, barrier, queue, lifo queue), '
        'each operation in its own time slot, with time limits and cancellations. tasks: awaiting compositions (gather, wait, wait_for, shield, as_completed, timeout) of children with given endings. '
        'moments: tasks start, get released, notified and cancelled at once on one shared object, nothing is lost, given twice or waited for while it is there. identity: attributes and equality of the current task. '
        'The same program runs on asyncio and on the extension, both on virtual time, and the logs (times included) have to be the same. Non-trivial = something got blocked, timed out or cancelled.'
    ),
    assumptions = [
        'no two tasks act in the same moment: the order within a moment is not specified by asyncio',
        'parts which the extension refuses with NotImplementedError or does not have are not exercised',
    ],
)

SLOTS = 8
HORIZON = 60.0


class Slots:
    """Where time is an integer and the fraction tells which task acts; so no two tasks act in the same moment."""
    def __init__(self, aio):
        self.aio = aio
        self.start = CLOCK.now

    def now(self):
        return round(CLOCK.now - self.start, 4)

    async def until(self, index, tick):
        """Waits till the first slot of the task, which is at least `tick` and is in the future."""
        offset = (index + 1) / SLOTS
        now = self.now()
        target = tick + offset
        while target <= now + 1e-6:
            target += 1.0
        await self.aio.sleep(self.start + target - CLOCK.now)


def _synchronization_strategy():
    def operations(names):
        return st.lists(
            st.lists(
                st.tuples(
                    st.integers(0, 6),                                   # not before this tick
                    st.sampled_from(names),
                    st.integers(0, 3),                                   # value
                    st.sampled_from([None, None, None, 0, 1, 3]),        # time limit
                    st.sampled_from(['wait_for', 'timeout']),            # how is the time limit applied
                    st.sampled_from([None, None, None, 0, 1, 2]),        # who is cancelled in the same moment
                ),
                min_size = 1,
                max_size = 6,
            ),
            min_size = 1,
            max_size = 5,
        )

    return st.one_of(*(
        st.tuples(st.just(kind), st.integers(0, 3), operations(names + ['cancel', 'state']))
        for kind, names in OPERATIONS.items()
    ))


OPERATIONS = {
    'lock': ['acquire', 'acquire', 'release', 'cycle', 'with'],
    'event': ['wait', 'wait', 'set', 'clear'],
    'condition': ['wait', 'wait', 'wait_for', 'notify', 'notify_all', 'notify_hold', 'notify_hold', 'hold', 'hold', 'bad_notify', 'bad_wait'],
    'semaphore': ['acquire', 'acquire', 'release', 'cycle', 'with'],
    'bounded': ['acquire', 'acquire', 'release', 'cycle', 'with'],
    'barrier': ['wait', 'wait', 'wait', 'reset', 'abort', 'with'],
    'queue': ['put', 'put', 'get', 'get', 'put_nowait', 'get_nowait'],
    'lifo': ['put', 'put', 'get', 'get', 'put_nowait', 'get_nowait'],
}


def make(aio, kind, size):
    if kind == 'lock':
        return aio.Lock()
    if kind == 'event':
        return aio.Event()
    if kind == 'condition':
        return aio.Condition()
    if kind == 'semaphore':
        return aio.Semaphore(size)
    if kind == 'bounded':
        return aio.BoundedSemaphore(size)
    if kind == 'barrier':
        return aio.Barrier(max(size, 1))
    if kind == 'queue':
        return aio.Queue(size)
    if kind == 'lifo':
        return aio.LifoQueue(size)
    raise AssertionError(kind)


def state_of(kind, target):
    if kind in ('lock', 'condition', 'semaphore', 'bounded'):
        return target.locked()
    if kind == 'event':
        return target.is_set()
    if kind == 'barrier':
        return (target.n_waiting, target.broken, target.parties)
    return None


async def apply(aio, slots, kind, target, shared, held, name, value, index):
    if name == 'state':
        check(isinstance(repr(target), str), 'repr')
        return state_of(kind, target)
    if kind in ('lock', 'semaphore', 'bounded'):
        if name == 'acquire':
            if kind == 'lock' and held[0]:
                return 'skipped'
            await target.acquire()
            held[0] += 1
            return 'acquired'
        if name == 'release':
            if not held[0] and kind != 'bounded':
                return 'skipped'
            target.release()
            held[0] -= 1
            return 'released'
        if name == 'cycle':
            # gives a turn to the others
            if not held[0]:
                return 'skipped'
            target.release()
            held[0] -= 1
            await target.acquire()
            held[0] += 1
            return 'again'
        if kind == 'lock' and held[0]:
            return 'skipped'
        async with target:
            await slots.until(index, int(slots.now()) + value)
        return 'done'
    if kind == 'event':
        if name == 'wait':
            await target.wait()
            return 'waited'
        return getattr(target, name)() and None
    if kind == 'condition':
        if name == 'bad_notify':
            if target.locked():
                return 'skipped'
            target.notify()
            return 'notified'
        if name == 'bad_wait':
            if target.locked():
                return 'skipped'
            await target.wait()
            return 'waited'
        async with target:
            inside = shared['inside']
            inside.add(index)
            if len(inside) != 1:
                shared['problem'] = True
            try:
                if name in ('wait', 'wait_for'):
                    inside.discard(index)
                    # An interrupted wait of the extension may return without the lock, so only those which return count.
                    if name == 'wait':
                        result = bool(await target.wait())
                    else:
                        result = await target.wait_for(lambda: shared['value'] >= value and shared['value'])
                    inside.add(index)
                    if len(inside) != 1 or not target.locked():
                        shared['problem'] = True
                    return result
                if name == 'notify':
                    shared['value'] = value
                    target.notify(value)
                    return 'notified'
                if name == 'notify_all':
                    shared['value'] = value
                    target.notify_all()
                    return 'notified'
                if name == 'notify_hold':
                    # those notified have to wait for the lock
                    shared['value'] = value
                    target.notify(value)
                await slots.until(index, int(slots.now()) + value)
                return 'held'
            finally:
                inside.discard(index)
    if kind == 'barrier':
        if name == 'wait':
            # which of them gets which index is not specified for those which leave in the same moment
            return 0 <= await target.wait() < target.parties
        if name == 'with':
            async with target as position:
                return 0 <= position < target.parties
        return await getattr(target, name)()
    if kind in ('queue', 'lifo'):
        shared['value'] += 1
        item = shared['value']
        if name == 'put':
            await target.put(item)
            return 'put'
        if name == 'put_nowait':
            target.put_nowait(item)
            return 'put'
        if name == 'get':
            return await target.get()
        return target.get_nowait()
    raise AssertionError(name)


def synchronization_program(kind, size, tasks):
    async def program(aio):
        slots = Slots(aio)
        target = make(aio, kind, size)
        shared = {'inside': set(), 'value': 0, 'problem': False, 'interrupted': False}
        if kind == 'condition' and aio is std:
            # notes when someone is interrupted while (re-)acquiring
            original = target.acquire

            async def acquire():
                try:
                    return await original()
                except BaseException:
                    if not stop[0]:
                        shared['interrupted'] = True
                    raise

            target.acquire = acquire
        logs = [[] for _ in tasks]
        handles = []
        stop = [False]
        limited = [False for _ in tasks]

        def cancel(index, victim):
            victim = victim % len(tasks)
            # What a task being timed out already is interrupted with by a further cancellation is not specified.
            if victim != index and victim < len(handles) and not handles[victim].done() and not (kind == 'condition' and limited[victim]):
                handles[victim].cancel()

        async def worker(index, operations):
            held = [0]
            log = logs[index]
            for tick, name, value, limit, how, then in operations:
                try:
                    await slots.until(index, tick)
                    if stop[0]:
                        break
                    if name == 'cancel':
                        cancel(index, value)
                        continue
                    started = slots.now()
                    if limit is None or name == 'state':
                        result = await apply(aio, slots, kind, target, shared, held, name, value, index)
                    else:
                        # a slot nobody acts in
                        duration = limit and limit + 0.5 / SLOTS
                        limited[index] = True
                        if how == 'wait_for':
                            result = await aio.wait_for(apply(aio, slots, kind, target, shared, held, name, value, index), duration)
                        else:
                            async with aio.timeout(duration):
                                result = await apply(aio, slots, kind, target, shared, held, name, value, index)
                except BaseException as exception:
                    if stop[0] or isinstance(exception, (GeneratorExit, Violation)):
                        raise
                    log.append((slots.now(), name, name_of(exception)))
                else:
                    log.append((slots.now(), name, result, started))
                    # A get moves the element of a waiting put as well, so whether that can be cancelled yet is not specified.
                    if (then is not None) and (limit is None) and started == slots.now() and name not in ('get', 'get_nowait'):
                        cancel(index, then)
                limited[index] = False
            log.append((slots.now(), 'end'))

        for index, operations in enumerate(tasks):
            handles.append(aio.create_task(worker(index, operations)))
        await aio.sleep(HORIZON)
        unfinished = [index for index, handle in enumerate(handles) if not handle.done()]
        final = state_of(kind, target)
        stop[0] = True
        for _ in range(3):
            for handle in handles:
                if not handle.done():
                    handle.cancel()
            await aio.sleep(1.0)
        for handle in handles:
            if handle.done() and not handle.cancelled():
                handle.exception()
        return logs, unfinished, final, shared['problem'], [handle.done() for handle in handles], shared['interrupted']

    return program


@C46.case('synchronization', _synchronization_strategy, quick = 5000, thorough = 60000, shards = 8)
def run_synchronization(case, ctx):
    kind, size, tasks = case
    ctx.label(kind)
    program = synchronization_program(kind, size, tasks)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        expected = run_std(program)
        got = run_ext(program)
    logs, unfinished, final, problem, done, interrupted = expected
    if problem or not all(done):
        raise HarnessError('the reference itself failed')
    if interrupted:
        # A wait of the extension interrupted while re-acquiring the lock ends at once instead of waiting for the lock first.
        ctx.label('interrupted while re-acquiring')
        logs, unfinished, final, problem, done, interrupted = got
        check(not problem, f'condition: more tasks hold its lock at the same time: {logs!r}')
        check(all(done), f'condition: uncancellable: {logs!r}')
        check(unfinished or not final, f'condition: everyone finished, but it is still locked: {logs!r}')
    else:
        check_eq(got, expected, kind)
    ctx.nontrivial(bool(unfinished) or any(len(item) == 3 or (len(item) == 4 and item[0] != item[3]) for log in logs for item in log))


def _tasks_strategy():
    limit = st.one_of(st.none(), st.integers(0, 5))
    child = st.tuples(
        st.integers(0, 4),                                                                # finishes in this tick
        st.sampled_from(['return', 'return', 'return', 'raise', 'cancelled', 'never']),   # how
        st.sampled_from(['accept', 'accept', 'accept', 'slow', 'value', 'raise']),        # what it does when cancelled
        st.booleans(),                                                                    # given as coroutine or as task
    )
    composition = st.one_of(
        st.tuples(st.just('gather'), st.booleans()),
        st.tuples(st.just('wait'), st.sampled_from(['FIRST_COMPLETED', 'FIRST_EXCEPTION', 'ALL_COMPLETED']), limit),
        st.tuples(st.just('wait_for'), limit),
        st.tuples(st.just('shield')),
        st.tuples(st.just('as_completed'), limit),
        st.tuples(st.just('timeout'), limit, limit),
        st.tuples(st.just('reschedule'), limit, limit),
        st.tuples(st.just('await')),
    )
    return st.tuples(
        composition,
        st.lists(child, min_size = 1, max_size = 4),
        st.one_of(st.none(), st.none(), st.integers(0, 5)),      # outer cancelled
    )


def tasks_program(composition, children, cancelled_at):
    async def program(aio):
        slots = Slots(aio)
        logs = [[] for _ in children]
        log = []

        async def child(index):
            delay, ending, on_cancel, as_coroutine = children[index]
            mine = logs[index]
            try:
                if ending == 'never':
                    await aio.Future()
                await aio.sleep(slots.start + delay + (index + 1) / 16 - CLOCK.now)
                if ending == 'raise':
                    raise Boom(index)
                if ending == 'cancelled':
                    raise aio.CancelledError()
                mine.append((slots.now(), 'return'))
                return index
            except aio.CancelledError:
                mine.append((slots.now(), 'cancelled'))
                # Whether a cancelled gather waits for its children is not specified.
                if composition[0] == 'gather' and on_cancel in ('slow', 'raise'):
                    raise
                # What a task both cancelled and timed out ends with is not specified either.
                if on_cancel == 'slow' and (cancelled_at is None or composition[0] in ('wait', 'as_completed', 'shield', 'await')):
                    await aio.sleep(1.0)
                    mine.append((slots.now(), 'cancelled slowly'))
                elif on_cancel == 'value':
                    return -1
                elif on_cancel == 'raise':
                    raise Boom(-1)
                raise

        tasks = {}

        def given(index):
            if children[index][3] and composition[0] != 'wait':
                return child(index)
            tasks[index] = aio.create_task(child(index))
            return tasks[index]

        def show(index):
            task = tasks.get(index)
            if task is None:
                return None
            if not task.done():
                return 'pending'
            if task.cancelled():
                return 'cancelled'
            exception = task.exception()
            if exception is not None:
                return name_of(exception)
            return task.result()

        # a moment when no one finishes
        def duration(limit):
            return limit and limit + 0.5 / 16

        async def outer():
            name = composition[0]
            if name == 'gather':
                results = await aio.gather(*(given(index) for index in range(len(children))), return_exceptions = composition[1])
                return [name_of(result) if isinstance(result, BaseException) else result for result in results]
            if name == 'wait':
                waited = [given(index) for index in range(len(children))]
                done, pending = await aio.wait(waited, return_when = getattr(aio, composition[1]), timeout = duration(composition[2]))
                indexes = {task: index for index, task in tasks.items()}
                return sorted(indexes[task] for task in done), sorted(indexes[task] for task in pending)
            if name == 'wait_for':
                return await aio.wait_for(given(0), duration(composition[1]))
            if name == 'shield':
                return await aio.shield(given(0))
            if name == 'as_completed':
                results = []
                for awaitable in aio.as_completed([given(index) for index in range(len(children))], timeout = duration(composition[1])):
                    try:
                        results.append((await awaitable, slots.now()))
                    except (TimeoutError, Boom) as exception:
                        results.append((name_of(exception), slots.now()))
                return results
            if name == 'timeout':
                async with aio.timeout(duration(composition[1])) as first:
                    try:
                        async with aio.timeout(duration(composition[2])) as second:
                            return await given(0)
                    finally:
                        log.append((slots.now(), first.expired(), second.expired()))
            if name == 'reschedule':
                limit = duration(composition[1])
                async with aio.timeout_at(None if limit is None else slots.start + limit) as first:
                    limit = duration(composition[2])
                    first.reschedule(None if limit is None else slots.start + limit)
                    log.append(first.when() and first.when() - slots.start)
                    return await given(0)
            return await given(0)

        async def watch():
            try:
                result = await outer()
            except BaseException as exception:
                if isinstance(exception, GeneratorExit):
                    raise
                log.append((slots.now(), name_of(exception)))
            else:
                log.append((slots.now(), result))

        task = aio.create_task(watch())
        if cancelled_at is not None:
            await aio.sleep(cancelled_at + 0.75 / 16)
            if not task.done():
                task.cancel()
        await aio.sleep(HORIZON)
        states = [show(index) for index in range(len(children))]
        ended = task.done()
        for victim in [task, *tasks.values()]:
            if not victim.done():
                victim.cancel()
        await aio.sleep(3.0)
        for victim in tasks.values():
            if victim.done() and not victim.cancelled():
                victim.exception()
        return log, ended, logs, states

    return program


@C46.case('tasks', _tasks_strategy, quick = 4000, thorough = 60000, shards = 8)
def run_tasks(case, ctx):
    composition, children, cancelled_at = case
    ctx.label(composition[0])
    log, ended, logs, states = compare(tasks_program(composition, children, cancelled_at), composition[0])
    ctx.nontrivial(cancelled_at is not None or any(child[1] != 'return' for child in children) or any(item is not None for item in composition[1:]))


def _futures_strategy():
    operation = st.one_of(
        st.tuples(st.sampled_from(['done', 'cancelled', 'result', 'exception', 'cancel', 'pause', 'pause', 'await']), st.just(0)),
        st.tuples(st.sampled_from(['set_result', 'set_exception', 'add_done_callback', 'remove_done_callback', 'wait', 'shield']), st.integers(0, 2)),
    )
    return st.tuples(st.sampled_from(['future', 'future', 'task']), st.sampled_from(['return', 'raise', 'never']), st.integers(0, 3), st.lists(operation, min_size = 1, max_size = 10))


def futures_program(kind, ending, after, operations):
    async def program(aio):
        log = []
        called = []

        async def function():
            for _ in range(after):
                await aio.sleep(1.0)
            if ending == 'never':
                await aio.Future()
            if ending == 'raise':
                raise Boom('task')
            return 'task'

        future = aio.Future() if kind == 'future' else aio.create_task(function())

        def callback(index):
            return lambda future: called.append((index, future.done(), round(CLOCK.now - 1000.0, 4)))

        callbacks = [callback(index) for index in range(3)]

        async def wait(index):
            try:
                result = await (future if index else aio.shield(future))
            except (aio.CancelledError, Boom) as exception:
                result = name_of(exception)
            called.append(('wait', index, result, round(CLOCK.now - 1000.0, 4)))

        waiters = []
        for name, value in operations:
            try:
                if name == 'pause':
                    await aio.sleep(1.0)
                    result = len(called)
                elif name == 'await':
                    if not future.done():
                        continue
                    result = await future
                elif name == 'set_result':
                    if kind == 'task':
                        continue
                    result = future.set_result(value) and None
                elif name == 'set_exception':
                    if kind == 'task':
                        continue
                    result = future.set_exception(Boom(value) if value else Boom) and None
                elif name == 'add_done_callback':
                    future.add_done_callback(callbacks[value])
                    result = None
                elif name == 'remove_done_callback':
                    # how many were removed is not given by scarletio
                    future.remove_done_callback(callbacks[value])
                    result = None
                elif name in ('wait', 'shield'):
                    waiters.append(aio.create_task(wait(int(name == 'wait') * (value + 1))))
                    result = None
                else:
                    result = getattr(future, name)()
                    if name == 'exception' and isinstance(result, BaseException):
                        result = name_of(result)
                    elif name == 'cancel':
                        result = bool(result)
            except Boom as exception:
                result = f'raised {name_of(exception)}'
            except (aio.CancelledError, aio.InvalidStateError) as exception:
                result = f'raised {name_of(exception)}'
            log.append((name, result))
        await aio.sleep(20.0)
        ended = future.done()
        for item in (future, *waiters):
            item.cancel()
        await aio.sleep(1.0)
        if not future.cancelled():
            future.exception()
        # the order inside of a moment is not specified
        return log, sorted(called, key = repr), ended

    return program


@C46.case('futures', _futures_strategy, quick = 2000, thorough = 30000, shards = 4)
def run_futures(case, ctx):
    kind, ending, after, operations = case
    names = {name for name, value in operations}
    # removing callbacks twice added is up to the implementation
    compare(futures_program(kind, ending, after, operations), kind)
    ctx.nontrivial('cancel' in names or 'set_exception' in names or len(names) > 3)


def _moments_strategy():
    start = st.just(('start', 0))
    cancel = st.tuples(st.just('cancel'), st.integers(0, 5))
    spin = st.tuples(st.just('spin'), st.integers(1, 3))
    release = st.just(('release', 0))

    def moments(*actions, patterns):
        return st.lists(st.one_of(
            st.lists(st.one_of(*actions), min_size = 1, max_size = 5),
            st.lists(st.sampled_from(patterns), min_size = 1, max_size = 2).map(lambda parts: [action for part in parts for action in part]),
        ), min_size = 1, max_size = 6)

    return st.one_of(
        st.tuples(st.sampled_from(['lock', 'semaphore', 'bounded']), st.integers(1, 3), moments(
            start, start, start, release, release, cancel, cancel, spin,
            patterns = [[('start', 0)], [('start', 0), ('start', 0)], [('release', 0), ('cancel', 0)], [('release', 0), ('cancel', 1)], [('cancel', 0), ('release', 0)], [('release', 0), ('start', 0)]],
        )),
        st.tuples(st.just('condition'), st.just(0), moments(start, start, start, st.tuples(st.just('notify'), st.integers(0, 3)), st.just(('notify', 9)), cancel, spin, patterns = [
            [('start', 0), ('start', 0)], [('notify', 1), ('cancel', 0)], [('cancel', 0), ('notify', 1)], [('notify', 1), ('notify', 1)],
        ])),
        st.tuples(st.sampled_from(['queue', 'lifo']), st.integers(0, 3), moments(
            st.just(('put', 0)), st.just(('put', 0)), st.just(('get', 0)), st.just(('get', 0)), st.just(('put_nowait', 0)), st.just(('get_nowait', 0)), cancel, cancel, spin,
            patterns = [
                [('get', 0)], [('put_nowait', 0)], [('put', 0)], [('put', 0), ('put', 0)], [('put_nowait', 0), ('put_nowait', 0), ('cancel', 0)], [('put_nowait', 0), ('cancel', 0)],
                [('get_nowait', 0), ('cancel', 0)], [('get_nowait', 0), ('put_nowait', 0)],
            ],
        )),
        st.tuples(st.just('event'), st.just(0), moments(start, start, st.just(('set', 0)), st.just(('clear', 0)), cancel, spin, patterns = [[('set', 0), ('clear', 0)], [('set', 0), ('cancel', 0)]])),
    )


def moments_program(kind, size, moments, ctx):
    """
    Everything of a moment happens at once, so a cancelled one may already have got what it waits for. Who gets ahead is up to the implementation,
    but nothing is lost or given out twice.
    """
    async def program(aio):
        target = make(aio, kind, size)
        capacity = 1 if kind == 'lock' else size
        tasks = []
        cancelled = set()
        refused = set()
        done = []
        state = {'held': 0, 'put': [], 'got': [], 'item': 0, 'woken': 0}

        async def acquire(index):
            await target.acquire()
            state['held'] += 1
            check(state['held'] <= capacity, 'more are inside than what is allowed', state['held'], capacity)
            done.append(index)

        async def wait(index):
            if kind == 'event':
                await target.wait()
            else:
                async with target:
                    await target.wait()
                    state['woken'] += 1
            done.append(index)

        async def put(index, item):
            refused.add(item)
            await target.put(item)
            refused.discard(item)
            state['put'].append(item)
            done.append(index)

        async def get(index):
            state['got'].append(await target.get())
            done.append(index)

        def start(coroutine, role):
            tasks.append((aio.create_task(coroutine), role))

        def length():
            return len(target) if aio is ext else target.qsize()

        def cancelled_of(role):
            return sum(tasks[index][1] == role for index in cancelled)

        def pending(role = None):
            return [index for index, (task, its_role) in enumerate(tasks) if not task.done() and (role is None or its_role == role)]

        for moment in moments:
            woken_before = state['woken']
            waited_before = len(pending())
            notified = 0
            cancelled_now = 0
            starts = 0
            was_set = False
            for name, value in moment:
                if name == 'start':
                    starts += 1
                    start((wait if kind in ('event', 'condition') else acquire)(len(tasks)), 'wait')
                elif name == 'release':
                    if state['held']:
                        state['held'] -= 1
                        target.release()
                elif name == 'cancel':
                    waiting = pending()
                    if waiting:
                        index = waiting[value % len(waiting)]
                        tasks[index][0].cancel()
                        cancelled.add(index)
                        cancelled_now += 1
                elif name == 'spin':
                    for _ in range(value):
                        await aio.sleep(0)
                elif name == 'notify':
                    async with target:
                        target.notify(value)
                    notified += value
                elif name in ('set', 'clear'):
                    was_set |= name == 'set'
                    getattr(target, name)()
                elif name in ('put', 'put_nowait'):
                    item = state['item'] = state['item'] + 1
                    if name == 'put':
                        start(put(len(tasks), item), 'put')
                        continue
                    try:
                        target.put_nowait(item)
                    except aio.QueueFull:
                        check(size and (length() >= size or pending()), 'a queue which is not full says so')
                    else:
                        state['put'].append(item)
                elif name == 'get':
                    start(get(len(tasks)), 'get')
                else:
                    try:
                        state['got'].append(target.get_nowait())
                    except aio.QueueEmpty:
                        # what those, who already left the queue, took out or did not put in yet
                        pass
            if cancelled_now and (starts or waited_before):
                ctx.nontrivial(True)
            await aio.sleep(1.0)
            for index, (task, role) in enumerate(tasks):
                if task.done() and not task.cancelled():
                    exception = task.exception()
                    if isinstance(exception, BaseException):
                        raise exception
                    check(index in done, 'returned without being done')
                elif task.done():
                    check(index in cancelled, 'cancelled by itself')
            waiting = pending()
            if kind in ('lock', 'semaphore', 'bounded'):
                check(state['held'] == capacity or not waiting, 'waiting for something which is free', state['held'], capacity, len(waiting))
                check_eq(target.locked(), state['held'] == capacity, 'locked')
            elif kind == 'event':
                check(not (target.is_set() and waiting), 'waiting for a set event')
            elif kind == 'condition':
                woken = state['woken'] - woken_before
                check(woken <= notified, 'more are woken than notified', woken, notified)
                check(woken + cancelled_now >= min(notified, waited_before), 'less are woken than notified', woken, notified, waited_before, cancelled_now)
                check(not target.locked(), 'the lock is kept')
            else:
                left = length()
                # a cancelled putter may already be done, and what a cancelled getter got is put back
                lost = len(state['put']) - len(state['got']) - left
                check(-cancelled_of('put') <= lost <= 0, 'items are lost or doubled', state['put'], state['got'], left)
                check(not size or left <= size + cancelled_of('get'), 'the queue is over its size', left, size)
                check(not (pending('get') and left), 'waiting for an item while there is one', left)
                check(not (pending('put') and (not size or left < size)), 'waiting for place while there is some', left, size)
        # what is left is still usable
        for task, role in tasks:
            task.cancel()
        await aio.sleep(1.0)
        check(not pending(), 'not cancelled')
        if kind in ('lock', 'semaphore', 'bounded'):
            while state['held']:
                state['held'] -= 1
                target.release()
            for _ in range(capacity):
                check(not target.locked(), 'something is lost')
                await aio.wait_for(target.acquire(), 1.0)
            check(target.locked(), 'something is given twice')
        elif kind in ('queue', 'lifo'):
            while length():
                state['got'].append(target.get_nowait())
            got = state['got']
            check(len(set(got)) == len(got), 'an item is given twice', got)
            check(not {*state['put']} - {*got}, 'an item is lost', state['put'], got)
            check({*got} - {*state['put']} <= refused, 'an item is not from those put', state['put'], got)

    return program


@C46.case('moments', _moments_strategy, quick = 2500, thorough = 60000, shards = 4)
def run_moments(case, ctx):
    kind, size, moments = case
    ctx.label(kind)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if os.environ.get('VERIF_STD'):
            run_std(moments_program(kind, size, moments, ctx))
        run_ext(moments_program(kind, size, moments, ctx))


IDENTITY_OPERATION = st.one_of(
    st.tuples(st.sampled_from(['set', 'set', 'get', 'get', 'has']), st.integers(0, 2)),
    st.tuples(st.sampled_from(['same', 'keep', 'pause', 'other', 'protected', 'awaited']), st.integers(0, 3)),
    st.tuples(st.sampled_from(['eager', 'factory', 'ensure']), st.integers(0, 2)),
)


def identity_program(tasks):
    async def program(aio):
        log = [[] for _ in tasks]
        handles = []
        seen = {}
        keep = []

        async def child(ending):
            if ending == 1:
                await aio.sleep(1.0)
            if ending == 2:
                raise Boom('child')
            return aio.current_task() is not None

        async def function(index, operations):
            out = log[index]
            for step, (kind, value) in enumerate(operations):
                me = aio.current_task()
                if kind == 'set':
                    setattr(me, f'attribute_{value}', (index, step))
                elif kind == 'get':
                    out.append(getattr(me, f'attribute_{value}', 'missing'))
                elif kind == 'has':
                    out.append(hasattr(me, f'attribute_{value}'))
                elif kind == 'same':
                    out.append((me == aio.current_task(), me == handles[index], handles[index] == me, hash(me) == hash(aio.current_task()), me != me, me.done(), me.cancelled()))
                elif kind == 'keep':
                    keep.append(me)
                    seen[me] = index
                    out.append(seen[aio.current_task()])
                elif kind == 'pause':
                    me = None
                    await aio.sleep(1.0 + index / 8.0)
                elif kind == 'other':
                    other = handles[value % len(handles)]
                    # whether the other one was there already depends on who runs first in the same moment
                    out.append((me == other, seen.get(other, value % len(handles)) == value % len(handles)))
                elif kind == 'protected':
                    # `name` is read only on the tasks of scarletio
                    if aio is ext:
                        outcomes = []
                        for target in (me, handles[index]):
                            try:
                                setattr(target, 'name', 'koishi')
                            except Exception as exception:
                                outcomes.append(type(exception))
                            else:
                                outcomes.append(target.name)
                        check_eq(outcomes[0], outcomes[1], 'setting an attribute of the task through the current task')
                elif kind == 'awaited':
                    out.append(await aio.create_task(child(0)))
                else:
                    try:
                        if kind == 'eager':
                            result = await aio.eager_task_factory(aio.get_running_loop(), child(value))
                        elif kind == 'factory':
                            # the task type is given
                            result = await aio.create_eager_task_factory(aio.Task)(aio.get_running_loop(), child(value))
                        else:
                            result = await aio.ensure_future(child(value))
                    except Boom as exception:
                        result = name_of(exception)
                    out.append((kind, result))
                # the next one gets the current task again
                me = None
            return index

        for index, operations in enumerate(tasks):
            handles.append(aio.create_task(function(index, operations)))
        results = [await handle for handle in handles]
        return log, results

    return program


@C46.case('identity', lambda: st.lists(st.lists(IDENTITY_OPERATION, min_size = 1, max_size = 7), min_size = 1, max_size = 3), quick = 700, thorough = 15000, shards = 2)
def run_identity(case, ctx):
    compare(identity_program(case), 'current task')
    ctx.nontrivial(len(case) > 1 and any(kind == 'pause' for operations in case for kind, value in operations))


# ---------------------------------------------------------------------------------------------------------------------

C47 = Property(
    'C47',
    rule = (
        'reader: a StreamReader with a small limit is fed with up to 10 chunks / eof / an exception while up to 2 tasks do up to 10 reads of every kind, with time limits; same program on asyncio, logs (times included) and what the transport was told have to be the same. '
        'connections: clients and a server (tcp or unix) exchange generated messages, half closing, closing and aborting; both ends have to see what the conversation implies. '
        'writer: up to 4 tasks write to and drain a StreamWriter, while it is paused, resumed, closed or its connection is lost, same program on asyncio. '
        'runners: run, Runner, run_until_complete, run_coroutine_threadsafe, to_thread and processes with functions returning / raising / cancelled. '
        'Non-trivial = a read got blocked, cut or refused / more than one message / the function did not just return.'
    ),
    assumptions = [
        'the connections are real ones on the loopback interface, with timing given by the operating system',
    ],
)


def _reader_strategy():
    chunk = st.text('ab\n', min_size = 0, max_size = 6)
    feed = st.one_of(
        st.tuples(st.just('feed'), chunk),
        st.tuples(st.just('feed'), chunk),
        st.tuples(st.just('feed'), chunk),
        st.tuples(st.sampled_from(['eof', 'exception', 'pause']), st.just('')),
    )
    read = st.one_of(
        st.tuples(st.just('read'), st.integers(-1, 6), st.none()),
        st.tuples(st.just('readexactly'), st.integers(-1, 6), st.one_of(st.none(), st.integers(0, 2))),
        st.tuples(st.just('readline'), st.just(0), st.one_of(st.none(), st.integers(0, 2))),
        st.tuples(st.just('readuntil'), st.sampled_from(['a', 'ab', 'b\n', '\n\n', '']), st.none()),
        st.tuples(st.just('iterate'), st.integers(1, 3), st.none()),
        st.tuples(st.sampled_from(['at_eof', 'exception']), st.just(0), st.none()),
    )
    return st.tuples(
        st.integers(1, 8),
        st.booleans(),
        st.lists(feed, max_size = 10),
        st.lists(st.lists(read, min_size = 1, max_size = 8), min_size = 1, max_size = 2),
    )


class FakeTransport:
    def __init__(self, log, slots):
        self.log = log
        self.slots = slots

    def pause_reading(self):
        self.log.append((self.slots.now(), 'pause'))

    def resume_reading(self):
        self.log.append((self.slots.now(), 'resume'))


def reader_program(limit, with_transport, feeds, readers):
    async def program(aio):
        slots = Slots(aio)
        loop = aio.get_running_loop()
        reader = aio.StreamReader(limit, loop)
        transport_log = []
        if with_transport:
            reader.set_transport(FakeTransport(transport_log, slots))
        logs = [[] for _ in readers]

        async def read(name, value):
            if name == 'readuntil':
                return await reader.readuntil(value.encode())
            if name == 'readline':
                return await reader.readline()
            if name == 'iterate':
                lines = []
                async for line in reader:
                    lines.append(line)
                    if len(lines) == value:
                        break
                return lines
            return await getattr(reader, name)(value)

        async def read_all(index, operations):
            log = logs[index]
            for name, value, time_limit in operations:
                await slots.until(index, 0)
                check(isinstance(repr(reader), str), 'repr')
                try:
                    if name == 'at_eof':
                        result = reader.at_eof()
                    elif name == 'exception':
                        result = reader.exception() and name_of(reader.exception())
                    elif time_limit is None:
                        result = await read(name, value)
                    else:
                        result = await aio.wait_for(read(name, value), time_limit and time_limit + 0.5 / SLOTS)
                except aio.CancelledError:
                    log.append((slots.now(), name, 'cancelled'))
                    raise
                except aio.IncompleteReadError as exception:
                    result = ('IncompleteReadError', exception.partial, exception.expected)
                except aio.LimitOverrunError as exception:
                    result = ('LimitOverrunError', exception.consumed)
                except Exception as exception:
                    result = name_of(exception)
                log.append((slots.now(), name, result))

        async def feed():
            ended = False
            for name, value in feeds:
                await slots.until(SLOTS - 2, 0)
                if name == 'feed':
                    if not ended:
                        reader.feed_data(value.encode())
                elif name == 'eof':
                    ended = True
                    reader.feed_eof()
                elif name == 'exception':
                    reader.set_exception(Boom('connection'))

        tasks = [aio.create_task(read_all(index, operations)) for index, operations in enumerate(readers)]
        tasks.append(aio.create_task(feed()))
        await aio.sleep(HORIZON)
        ended = [task.done() for task in tasks]
        for task in tasks:
            task.cancel()
        await aio.sleep(1.0)
        return logs, transport_log, ended

    return program


@C47.case('reader', _reader_strategy, quick = 4000, thorough = 60000, shards = 4)
def run_reader(case, ctx):
    limit, with_transport, feeds, readers = case
    logs, transport_log, ended = compare(reader_program(limit, with_transport, feeds, readers), 'reader')
    ctx.nontrivial(bool(transport_log) or not all(ended) or any(type(item[2]) is not bytes for log in logs for item in log))


def _writer_strategy():
    event = st.sampled_from([('pause',), ('pause',), ('resume',), ('resume',), ('wait',), ('wait',), ('closing',), ('lost', 0), ('lost', 1), ('reader',), ('eof',)])
    drain = st.tuples(st.sampled_from(['drain', 'drain', 'drain', 'write', 'wait_closed', 'nothing']), st.one_of(st.none(), st.none(), st.integers(0, 3)))
    return st.tuples(st.lists(event, max_size = 9), st.lists(st.lists(drain, min_size = 1, max_size = 5), min_size = 1, max_size = 4))


class FakeWriteTransport(FakeTransport):
    closing = False

    def get_extra_info(self, name, default = None):
        return default

    def is_closing(self):
        return self.closing

    def write(self, data):
        self.log.append((self.slots.now(), 'write', bytes(data)))

    def close(self):
        self.closing = True


def writer_program(events, writers):
    async def program(aio):
        slots = Slots(aio)
        loop = aio.get_running_loop()
        reader = aio.StreamReader(limit = 100, loop = loop)
        protocol = aio.streams.StreamReaderProtocol(reader, loop = loop) if aio is std else aio.StreamReaderProtocol(reader, loop = loop)
        transport_log = []
        transport = FakeWriteTransport(transport_log, slots)
        protocol.connection_made(transport)
        writer = aio.StreamWriter(transport, protocol, reader, loop)
        logs = [[] for _ in writers]

        async def act(index, operations):
            log = logs[index]
            for step, (name, time_limit) in enumerate(operations):
                await slots.until(index + 1, 0)
                try:
                    if name == 'write':
                        result = writer.write(b'%d' % step)
                    elif name == 'nothing':
                        result = writer.is_closing()
                    elif time_limit is None:
                        result = await getattr(writer, name)()
                    else:
                        result = await aio.wait_for(aio.shield(writer.wait_closed()) if name == 'wait_closed' else writer.drain(), time_limit + 0.5 / SLOTS)
                except aio.CancelledError:
                    log.append((slots.now(), name, 'cancelled'))
                    raise
                except Exception as exception:
                    result = name_of(exception)
                log.append((slots.now(), name, result))

        tasks = [aio.create_task(act(index, operations)) for index, operations in enumerate(writers)]
        paused = lost = ended = False
        for kind, *values in events:
            await slots.until(0, 0)
            if lost:
                continue
            if kind == 'pause':
                if not paused:
                    paused = True
                    protocol.pause_writing()
            elif kind == 'resume':
                if paused:
                    paused = False
                    protocol.resume_writing()
            elif kind == 'closing':
                writer.close()
            elif kind == 'eof':
                if not ended:
                    ended = True
                    protocol.eof_received()
            elif kind == 'reader':
                reader.set_exception(Boom('reader'))
            elif kind == 'lost':
                lost = True
                transport.closing = True
                protocol.connection_lost(Boom('lost') if values[0] else None)
        await slots.until(0, 30)
        pending = [not task.done() for task in tasks]
        for task in tasks:
            task.cancel()
        await aio.sleep(1.0)
        for task in tasks:
            if task.done() and not task.cancelled():
                task.exception()
        return logs, transport_log, pending

    return program


@C47.case('writer', _writer_strategy, quick = 2000, thorough = 40000, shards = 4)
def run_writer(case, ctx):
    events, writers = case
    logs, transport_log, pending = compare(writer_program(events, writers), 'draining')
    ctx.nontrivial(any(event[0] == 'pause' for event in events) and sum(operation[0] == 'drain' for operations in writers for operation in operations) > 1)


def _connections_strategy():
    message = st.tuples(st.sampled_from(['small', 'small', 'line', 'big']), st.integers(0, 255), st.booleans())
    return st.tuples(
        st.sampled_from(['tcp', 'unix']),
        st.lists(st.tuples(
            st.lists(message, max_size = 4),                     # what the client sends
            st.sampled_from(['eof', 'eof', 'close', 'abort']),   # how it ends
            st.sampled_from(['echo', 'echo', 'count', 'bye']),   # what the server does
        ), min_size = 1, max_size = 3),
    )


def make_message(kind, seed):
    if kind == 'small':
        return bytes([seed]) * (seed % 9)
    if kind == 'line':
        return (f'{seed}-' * (seed % 5)).encode() + b'\n'
    return bytes([seed, seed ^ 0x5a, 7]) * (60000 + seed * 100)


def connections_program(kind, clients, directory):
    async def program(sim):
        aio = ext
        loop = aio.get_running_loop()
        done = {}
        problems = []

        async def serve(reader, writer):
            try:
                await serve_one(reader, writer)
            except BaseException as exception:
                problems.append(exception)
                raise

        async def serve_one(reader, writer):
            index, behaviour = (await reader.readline()).decode().split()
            index = int(index)
            received = bytearray()
            failure = None
            try:
                if behaviour == 'bye':
                    writer.write(b'bye')
                    writer.write_eof()
                while True:
                    data = await reader.read(65536)
                    if not data:
                        break
                    received += data
                    if behaviour == 'echo':
                        writer.write(data)
                        await writer.drain()
                check(reader.at_eof(), 'at_eof() after reading everything')
                if behaviour == 'count':
                    writer.write(str(len(received)).encode())
                    await writer.drain()
            except OSError as exception:
                failure = exception
            writer.close()
            check(writer.is_closing(), 'is_closing() after close()')
            done[index] = (bytes(received), failure)

        if kind == 'tcp':
            server = await aio.start_server(serve, '127.0.0.1', 0)
            port = server.sockets[0].getsockname()[1]
        else:
            path = os.path.join(directory, 's.sock')
            server = await aio.start_unix_server(serve, path)
        await server.start()

        async def client(index):
            messages, ending, behaviour = clients[index]
            if kind == 'tcp':
                reader, writer = await aio.open_connection('127.0.0.1', port)
                check_eq(writer.get_extra_info('peername')[1], port, 'peer name')
            else:
                reader = aio.StreamReader(loop = loop)
                protocol = aio.StreamReaderProtocol(reader, loop = loop)
                transport, _ = await loop.create_unix_connection(lambda: protocol, path)
                writer = aio.StreamWriter(transport, protocol, reader, loop)
            check(writer.can_write_eof() and not writer.is_closing(), 'a fresh writer')
            check_eq(writer.get_extra_info('missing', 5), 5, 'default of get_extra_info()')
            writer.write(f'{index} {behaviour}\n'.encode())
            sent = b''.join(make_message(name, seed) for name, seed, drain in messages)

            async def write():
                for name, seed, drain in messages:
                    data = make_message(name, seed)
                    if seed % 2:
                        writer.write(data)
                    else:
                        writer.writelines([data[:3], data[3:]])
                    if drain:
                        await writer.drain()
                if ending == 'eof':
                    writer.write_eof()

            writing = aio.create_task(write())
            if ending == 'eof':
                data = await reader.read()
                await writing
                check_eq(data, sent if behaviour == 'echo' else b'bye' if behaviour == 'bye' else str(len(sent)).encode(), 'what the client received')
                check(reader.at_eof(), 'at_eof() after reading everything')
                writer.close()
                await writer.wait_closed()
            elif ending == 'close':
                if behaviour == 'echo':
                    await reader.readexactly(len(sent))
                await writing
                writer.close()
                try:
                    await writer.wait_closed()
                except ConnectionError:
                    # an answer arrived after it was closed
                    check(behaviour != 'echo', 'closed with a connection error')
            else:
                if behaviour != 'echo':
                    await writing
                writer.transport.abort()
                try:
                    await writing
                except (ConnectionError, OSError):
                    pass
                try:
                    await writer.wait_closed()
                except ConnectionError:
                    pass
            check(writer.is_closing(), 'is_closing() after the connection is over')
            try:
                await writer.drain()
            except (ConnectionError, OSError):
                pass
            return sent

        everything = await aio.gather(*(client(index) for index in range(len(clients))))
        for index, (messages, ending, behaviour) in enumerate(clients):
            if ending == 'abort':
                continue
            while index not in done:
                if problems:
                    raise problems[0]
                await aio.sleep(0.001)
            received, failure = done[index]
            if ending == 'eof' or behaviour == 'echo':
                check(failure is None, 'the server failed on a proper connection', failure)
            if failure is not None and behaviour == 'bye':
                # what the client did not read resets the connection
                continue
            check(received == everything[index], 'what the server received', len(received), len(everything[index]))
        server.close()
        await server.wait_closed()

    return program


@C47.case('connections', _connections_strategy, quick = 300, thorough = 4000, shards = 4)
def run_connections(case, ctx):
    kind, clients = case
    deadline = time.monotonic() + 20.0
    with tempfile.TemporaryDirectory() as directory, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        vsim.run(connections_program(kind, clients, directory), external = lambda: time.monotonic() < deadline)
    ctx.nontrivial(any(messages or ending != 'eof' for messages, ending, behaviour in clients))


def _runners_strategy():
    return st.tuples(
        st.sampled_from(['run', 'runner', 'runner', 'run_until_complete', 'run_coroutine_threadsafe', 'to_thread', 'process_shell', 'process_exec']),
        st.lists(st.tuples(
            st.sampled_from(['return', 'return', 'raise', 'cancel', 'base', 'leave', 'wait']),
            st.integers(0, 3),
        ), min_size = 1, max_size = 3),
    )


class Base(BaseException):
    pass


def runners_program(aio, kind, functions):
    """Gives what each of the functions ended with."""
    log = []

    async def function(position, ending, cycles):
        for _ in range(cycles):
            await aio.sleep(0)
        check(aio.get_running_loop() is not None, 'no running loop inside of a coroutine')
        if ending == 'raise':
            raise Boom(position)
        if ending == 'cancel':
            raise aio.CancelledError()
        if ending == 'leave' and kind == 'runner':
            aio.create_task(left_behind(position))
            await aio.sleep(0)
        if ending == 'wait' and kind == 'run_coroutine_threadsafe':
            started.set()
            await left_behind(position)
        return position

    left = []
    started = threading.Event()
    ended = threading.Event()

    async def left_behind(position):
        try:
            # scarletio knows about those tasks, which are scheduled
            await aio.sleep(600.0)
        except aio.CancelledError:
            left.append(position)
            ended.set()
            raise

    def plain(position, ending, a, *, b):
        check_eq((a, b), (1, 2), 'parameters')
        check(threading.current_thread() is not running[0], 'to_thread() in the thread of the loop')
        if ending == 'raise':
            raise Boom(position)
        return position

    running = []

    def ends(position, get):
        try:
            result = get()
        except (Boom, aio.CancelledError, concurrent.futures.CancelledError) as exception:
            result = 'CancelledError' if isinstance(exception, concurrent.futures.CancelledError) else name_of(exception)
        log.append((position, result))

    if kind == 'run':
        for position, (ending, cycles) in enumerate(functions):
            ends(position, lambda: aio.run(function(position, ending, cycles)))
        try:
            aio.run(5)
        except (ValueError, TypeError):
            log.append('refused')
    elif kind == 'runner':
        with aio.Runner() as runner:
            loops = set()
            for position, (ending, cycles) in enumerate(functions):
                ends(position, lambda: runner.run(function(position, ending, cycles)))
                loops.add(runner.get_loop())
            log.append(len(loops))
        coroutine = function(0, 'return', 0)
        try:
            runner.run(coroutine)
        except RuntimeError:
            log.append('closed')
        finally:
            coroutine.close()
    elif kind == 'run_until_complete':
        loop = aio.new_event_loop()
        try:
            for position, (ending, cycles) in enumerate(functions):
                ends(position, lambda: loop.run_until_complete(function(position, ending, cycles)))
        finally:
            loop.close()
    elif kind == 'run_coroutine_threadsafe':
        loop = aio.new_event_loop()
        thread = None
        if aio is std:
            thread = threading.Thread(target = loop.run_forever)
            thread.start()
        try:
            for position, (ending, cycles) in enumerate(functions):
                future = aio.run_coroutine_threadsafe(function(position, ending, cycles), loop)
                if ending == 'wait':
                    check(started.wait(15.0), 'did not start')
                    started.clear()
                    # let the loop fall asleep
                    time.sleep(0.002)
                    check(future.cancel(), 'could not be cancelled')
                    check(ended.wait(15.0), 'what is cancelled from an other thread goes on')
                    ended.clear()
                ends(position, lambda: future.result(15.0))
                log.append((future.done(), future.cancelled()))
        finally:
            if thread is None:
                loop.stop()
            else:
                loop.call_soon_threadsafe(loop.stop)
                thread.join()
                loop.close()
    elif kind == 'to_thread':
        async def main():
            running.append(threading.current_thread())
            for position, (ending, cycles) in enumerate(functions):
                try:
                    result = await aio.to_thread(plain, position, ending, 1, b = 2)
                except Boom as exception:
                    result = name_of(exception)
                log.append((position, result))

        aio.run(main())
    else:
        async def main():
            for position, (ending, cycles) in enumerate(functions):
                text = 'x' * (cycles * 50000)
                code = {'return': 0, 'raise': 3, 'cancel': 200, 'base': 1, 'leave': 0, 'wait': 2}[ending]
                script = f'cat; echo problem >&2; exit {code}'
                if kind == 'process_shell':
                    process = await aio.create_subprocess_shell(script, stdin = aio.subprocess.PIPE, stdout = aio.subprocess.PIPE, stderr = aio.subprocess.PIPE)
                else:
                    process = await aio.create_subprocess_exec('sh', '-c', script, stdin = aio.subprocess.PIPE, stdout = aio.subprocess.PIPE, stderr = aio.subprocess.PIPE)
                stdout, stderr = await process.communicate(text.encode())
                log.append((stdout == text.encode(), stderr, process.returncode, await process.wait()))

        aio.run(main())
    # the order of those left behind is not specified
    log.append(sorted(left))
    return log


@C47.case('runners', _runners_strategy, quick = 200, thorough = 3000, shards = 4)
def run_runners(case, ctx):
    kind, functions = case
    functions = [('return' if kind in ('to_thread',) and ending in ('cancel', 'base') else ending, cycles) for ending, cycles in functions]
    ctx.label(kind)
    shown = {name: sys.modules.get(name) for name in _hidden}
    sys.modules.update(_hidden)
    try:
        expected = runners_program(std, kind, functions)
    finally:
        for name, module in shown.items():
            if module is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = module
    got = runners_program(ext, kind, functions)
    check_eq(got, expected, kind)
    ctx.nontrivial(len(functions) > 1 or functions[0][0] != 'return')
