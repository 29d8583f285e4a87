"""C54: failures which nobody looked at are reported."""
import gc, re, threading, time
import vsim
import scarletio
from hypothesis import strategies as st
from scarletio.core import ExceptionWriterContextManager
from scarletio import CancelledError, Cycler, Future, Task, TaskGroup, shield, sleep
from vharness import Property, Violation, check, check_eq

C54 = Property('C54', rule = (
    'Up to 6 futures, tasks, chains of tasks and abandoned futures with their outcomes, each with up to 4 lookers of 19 kinds at any time before or after its end, dropped at any time; '
    'and up to 8 failing callbacks of 7 kinds (handles, future callbacks, cyclers, async generators). '
    'Non-trivial = something failed and someone dealt with it without looking at it, or looked at it through an other object, or a callback failed between others.'
))


class Failure(Exception):
    pass


class BaseFailure(BaseException):
    pass


class OSFailure(OSError):
    pass


def _freeze():
    # Collecting is fast only if what the harness uses is left out.
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()


KINDS = [Failure, BaseFailure, OSFailure]

# those which get to know the exception
WAITING_LOOKERS = ['await', 'shield', 'async_wrap', 'async_wrap_wait', 'callback_look', 'group_look', 'exhaust', 'nested', 'timeout']
INSTANT_LOOKERS = ['get_result', 'get_exception']
NOT_LOOKERS = ['completion', 'repr', 'callback', 'group_all', 'is_done', 'async_wrap_completion']


def _futures_strategy():
    look = st.tuples(
        st.integers(0, 8),
        st.sampled_from(WAITING_LOOKERS + INSTANT_LOOKERS + NOT_LOOKERS + NOT_LOOKERS + ['silence', 'shield_drop', 'shield_cancelled', 'cancel']),
    )
    item = st.tuples(
        st.sampled_from(['future', 'task', 'chain', 'chain_2', 'task_now', 'ok', 'future_ok', 'cleanup', 'abandoned', 'abandoned_awaited']),
        st.integers(0, 2),                                          # type of the exception
        st.integers(0, 6),                                          # when it ends
        st.integers(0, 10),                                         # when it is dropped
        st.one_of(st.just([]), st.lists(look, max_size = 1), st.lists(look, max_size = 4)),
    )
    return st.lists(item, min_size = 1, max_size = 6)


async def _futures(sim, case, ctx):
    loop = sim.loop
    vsim.RECORDED.clear()
    exceptions = [KINDS[item[1]](f'failure {index}') for index, item in enumerate(case)]
    targets = []
    early = []

    def count(index):
        return sum(exception is exceptions[index] for exception, _ in vsim.RECORDED)

    async def fail(index, delay):
        if delay is not None:
            await sleep(delay)
        raise exceptions[index]

    async def give(delay):
        await sleep(delay)
        return 'fine'

    async def chain(task):
        return await task

    async def clean_up(index):
        try:
            await sleep(50.0)
        except CancelledError:
            raise exceptions[index]

    def create(index):
        kind, _, end, _, _ = case[index]
        delay = end + 0.5
        if kind == 'future' or kind == 'future_ok':
            future = Future(loop)
            if kind == 'future':
                loop.call_after(delay, future.set_exception_if_pending, exceptions[index])
            else:
                loop.call_after(delay, future.set_result_if_pending, 'fine')
            return future
        if kind == 'task':
            return Task(loop, fail(index, delay))
        if kind == 'task_now':
            return Task(loop, fail(index, None))
        if kind == 'chain':
            return Task(loop, chain(Task(loop, fail(index, delay))))
        if kind == 'chain_2':
            return Task(loop, chain(Task(loop, chain(Task(loop, fail(index, delay))))))
        if kind == 'ok':
            return Task(loop, give(delay))
        if kind == 'cleanup':
            task = Task(loop, clean_up(index))
            loop.call_after(delay, task.cancel)
            return task
        if kind == 'abandoned':
            return Future(loop)
        if kind == 'abandoned_awaited':
            future = Future(loop)
            future.add_done_callback(print)
            return future
        raise ValueError(kind)

    async def wait_and_look(index, how):
        target = targets[index]
        try:
            if how == 'await':
                await target
            elif how == 'shield':
                await shield(target, loop)
            elif how == 'async_wrap':
                await target.async_wrap(loop)
            elif how == 'async_wrap_wait':
                await target.async_wrap(loop).wait()
            elif how == 'async_wrap_completion':
                await target.async_wrap(loop).wait_for_completion()
            elif how == 'completion':
                await target.wait_for_completion()
            elif how == 'nested':
                await Task(loop, chain(target))
            elif how == 'timeout':
                target.apply_timeout(30.0)
                await target
            elif how == 'group_all':
                await TaskGroup(loop, [target]).wait_all()
            elif how == 'group_look':
                future = await TaskGroup(loop, [target]).wait_first()
                future.get_result()
            elif how == 'exhaust':
                async for future in TaskGroup(loop, [target]).exhaust():
                    future.get_result()
        except (Failure, BaseFailure, OSFailure, CancelledError):
            pass

    def look(index, how):
        target = targets[index]
        if target is None:
            return
        kind = case[index][0]
        if how == 'get_result':
            if target.is_done():
                try:
                    target.get_result()
                except (Failure, BaseFailure, OSFailure, CancelledError):
                    pass
        elif how == 'get_exception':
            if target.is_done():
                target.get_exception()
        elif how == 'repr':
            repr(target)
        elif how == 'is_done':
            target.is_done(), target.is_cancelled(), target.is_pending(), target.is_silenced(), target.is_cancelling()
        elif how == 'silence':
            target.silence()
        elif how == 'callback':
            target.add_done_callback(repr)
        elif how == 'callback_look':
            target.add_done_callback(get_exception)
        elif how == 'cancel':
            target.cancel()
        elif how == 'shield_drop':
            shield(target, loop)
        elif how == 'shield_cancelled':
            if not target.is_done():
                shield(target, loop).cancel()
        elif not kind.startswith('abandoned'):
            Task(loop, wait_and_look(index, how))

    def get_exception(future):
        future.get_exception()

    def drop(index):
        targets[index] = None
        gc.collect()

    with vsim.StderrCapture() as capture:
        for index in range(len(case)):
            targets.append(create(index))
        for index, (kind, _, end, drop_at, lookers) in enumerate(case):
            for tick, how in lookers:
                loop.call_at(1000.0 + tick, look, index, how)
        for tick in range(12):
            await sleep(1000.25 + tick - vsim.CLOCK.now)
            for index, item in enumerate(case):
                if item[3] == tick and targets[index] is not None:
                    # (a dropped shield is reported by itself)
                    if count(index) and not any(how == 'shield_drop' for _, how in item[4]):
                        early.append(index)
                    drop(index)
        await sleep(40.0)
        gc.collect()
        await sim.settle()
        gc.collect()

    check(not early, 'a failure is reported while it can be looked at yet', early)
    expected_pending = [0, 0]
    for index, (kind, _, end, drop_at, lookers) in enumerate(case):
        # Lookers of the time when it is dropped come before it.
        active = [(tick, how) for tick, how in lookers if tick <= drop_at]
        amount = count(index)
        hows = [how for tick, how in active]
        if kind in ('ok', 'future_ok'):
            check_eq(amount, 0, 'something which did not fail is reported')
            continue
        if kind.startswith('abandoned'):
            check_eq(amount, 0, 'something which did not fail is reported')
            has_callback = kind == 'abandoned_awaited' or 'callback' in hows or 'callback_look' in hows
            unsure = any(how.startswith('shield') for how in hows)
            quiet = 'silence' in hows or 'cancel' in hows
            if unsure:
                expected_pending[1] += 2 * sum(how.startswith('shield') for how in hows) + 1
            elif has_callback and not quiet:
                ctx.nontrivial()
                expected_pending[0] += 1
            continue
        done_at = 0.0 if kind == 'task_now' else end + 0.5
        cancelled_at = min((tick for tick, how in active if how == 'cancel'), default = 100)
        if kind == 'cleanup':
            # it fails when it is cancelled
            done_at = min(done_at, cancelled_at - 0.0001)
            cancelled_at = 100
        if cancelled_at < done_at or 'silence' in hows:
            check_eq(amount, 0, 'a cancelled or silenced failure is reported', index)
            continue
        looked = any(
            how in WAITING_LOOKERS or (how in INSTANT_LOOKERS and tick > done_at)
            for tick, how in active
        )
        unsure = 'shield_cancelled' in hows or ('shield_drop' in hows and (looked or len(hows) > 1))
        if lookers:
            ctx.nontrivial()
        if unsure:
            check(amount <= 1 + hows.count('shield_drop'), 'a failure is reported more times', index, amount)
        elif looked:
            check_eq(amount, 0, 'a failure someone looked at is reported', index)
        else:
            check_eq(amount, 1, 'reports of a failure nobody looked at', index)
    others = [exception for exception, _ in vsim.RECORDED if not any(exception is item for item in exceptions)]
    check(not others, 'an other exception is reported', others)
    amount = capture.text.count('is not finished, but still pending')
    check(
        expected_pending[0] <= amount <= sum(expected_pending), 'reports of awaited futures dropped without a result',
        amount, expected_pending, capture.text,
    )
    check_eq(
        [line for line in capture.text.splitlines() if 'is not finished, but still pending' not in line], [], 'other output',
    )


@C54.case('futures', _futures_strategy, quick = 900, thorough = 30000, shards = 4)
def run_futures(case, ctx):
    _freeze()
    vsim.run(_futures, case, ctx)


# ---- callbacks

def _callbacks_strategy():
    return st.lists(st.tuples(
        st.sampled_from(['soon', 'after', 'thread_safe', 'future', 'future_now', 'cycler', 'generator', 'at_weak']),
        st.sampled_from([None, 0, 0, 1, 2]),
        st.integers(0, 4),
    ), min_size = 1, max_size = 8)


async def _callbacks(sim, case, ctx):
    loop = sim.loop
    vsim.RECORDED.clear()
    exceptions = [None if item[1] is None else KINDS[item[1]](f'failure {index}') for index, item in enumerate(case)]
    called = [0] * len(case)
    shared = Future(loop)
    cycler = Cycler(loop, 1.0)

    def run(index):
        called[index] += 1
        if exceptions[index] is not None:
            raise exceptions[index]

    class Weak:
        def __init__(self, index):
            self.index = index

        def __call__(self):
            run(self.index)

    async def generate(index):
        try:
            yield 1
            yield 2
        finally:
            run(index)

    async def use(index):
        generator = generate(index)
        async for element in generator:
            break
        generator = None

    keep = []
    for index, (kind, _, tick) in enumerate(case):
        if kind == 'soon':
            loop.call_soon(run, index)
        elif kind == 'after':
            loop.call_after(tick + 0.0, run, index)
        elif kind == 'thread_safe':
            loop.call_soon_thread_safe(run, index)
        elif kind == 'future':
            shared.add_done_callback(lambda future, index = index: run(index))
        elif kind == 'future_now':
            future = Future(loop)
            future.set_result(None)
            future.add_done_callback(lambda future, index = index: run(index))
        elif kind == 'cycler':
            def function(cycler, index = index):
                if not called[index]:
                    run(index)
            cycler.append(function)
        elif kind == 'generator':
            Task(loop, use(index))
        elif kind == 'at_weak':
            weak = Weak(index)
            keep.append(weak)
            loop.call_after_weak(tick + 0.0, weak)
    loop.call_after(2.0, shared.set_result, None)
    await sleep(10.0)
    cycler.cancel()
    gc.collect()
    await sleep(1.0)
    check_eq(called, [1] * len(case), 'calls of the callbacks')
    failed = [exception for exception in exceptions if exception is not None]
    if failed and len(case) > 1:
        ctx.nontrivial()
    for index, exception in enumerate(exceptions):
        if exception is not None:
            check_eq(sum(item is exception for item, _ in vsim.RECORDED), 1, 'reports of a failed callback', case[index][0])
    check_eq(len(vsim.RECORDED), len(failed), 'amount of reports')


@C54.case('callbacks', _callbacks_strategy, quick = 300, thorough = 10000, shards = 2)
def run_callbacks(case, ctx):
    _freeze()
    vsim.run(_callbacks, case, ctx)


# ---- context managers

ORDERS = [Failure, BaseFailure, OSFailure, KeyError, Exception, OSError, (KeyError, Failure)]


def _contexts_strategy():
    context = st.tuples(
        st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6]),             # include
        st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 5, 6]),       # exclude
        st.booleans(),                                                  # asynchronous
        st.sampled_from([None, None, 'somewhere']),                     # location
    )
    return st.lists(st.tuples(
        st.lists(context, min_size = 1, max_size = 4),                  # from the outermost
        st.sampled_from([None, 0, 1, 2, 3, 'exit', 'cancel']),          # what is raised
        st.sampled_from(['task', 'callback']),
        st.integers(0, 2),                                              # awaiting before raising
    ), min_size = 1, max_size = 4)


async def _contexts(sim, case, ctx):
    loop = sim.loop
    vsim.RECORDED.clear()
    for index, (contexts, what, where, wait) in enumerate(case):
        vsim.RECORDED.clear()
        if what is None:
            exception = None
        elif what == 'exit':
            exception = GeneratorExit()
        elif what == 'cancel':
            exception = CancelledError()
        else:
            exception = (Failure, BaseFailure, OSFailure, KeyError)[what](f'failure {index}')
        after = []

        def manager(context):
            include, exclude, _, location = context
            return ExceptionWriterContextManager(
                include = None if include is None else ORDERS[include], exclude = None if exclude is None else ORDERS[exclude],
                location = location,
            )

        def sync(level):
            if level == len(contexts):
                if exception is not None:
                    raise exception
                return
            with manager(contexts[level]):
                sync(level + 1)
            after.append(level)

        async def asynchronous(level):
            if level == len(contexts):
                for _ in range(wait):
                    await sleep(0.5)
                if exception is not None:
                    raise exception
                return
            if contexts[level][2]:
                async with manager(contexts[level]):
                    await asynchronous(level + 1)
            else:
                with manager(contexts[level]):
                    await asynchronous(level + 1)
            after.append(level)

        raised = None
        try:
            if where == 'task':
                await asynchronous(0)
            else:
                outcome = Future(loop)

                def call():
                    try:
                        sync(0)
                    except BaseException as err:
                        outcome.set_result(err)
                    else:
                        outcome.set_result(None)

                loop.call_soon(call)
                raised = await outcome
        except BaseException as err:
            raised = err
        # The innermost one which takes it takes it.
        expected = -1
        if exception is not None:
            for level in reversed(range(len(contexts))):
                include, exclude, is_async, location = contexts[level]
                if isinstance(exception, GeneratorExit) and where == 'task':
                    continue
                if exclude is not None and isinstance(exception, ORDERS[exclude]):
                    continue
                if include is not None and not isinstance(exception, ORDERS[include]):
                    continue
                expected = level
                break
        if exception is None:
            check_eq((raised, vsim.RECORDED), (None, []), 'without exception')
            check_eq(after, list(reversed(range(len(contexts)))), 'continued')
            continue
        if expected == -1:
            check(raised is exception, 'an exception no context manager takes is lost', raised)
            check_eq(vsim.RECORDED, [], 'reports of an exception no one takes')
            check_eq(after, [], 'continued')
            continue
        if len(contexts) > 1:
            ctx.nontrivial()
        check(raised is None, 'an exception taken by a context manager is raised', raised)
        check_eq([item[0] is exception for item in vsim.RECORDED], [True], 'reports of an exception taken')
        check_eq(after, list(reversed(range(expected + 1))), 'continued')
        location = contexts[expected][3]
        check(location is None or location in vsim.RECORDED[0][1], 'location is not told', vsim.RECORDED[0][1])


@C54.case('contexts', _contexts_strategy, quick = 300, thorough = 10000, shards = 2)
def run_contexts(case, ctx):
    vsim.run(_contexts, case, ctx)


# ---- rendered for real

def _rendered_strategy():
    return st.lists(st.tuples(
        st.sampled_from(['task', 'future', 'thread', 'soon', 'callback', 'write', 'write_awaited', 'maybe', 'sync', 'context', 'context_sync', 'generator']),
        st.integers(0, 2),
        st.sampled_from([None, 'before', ['be', 'fore', 12], 'two\nlines\n', '']),
        st.sampled_from([None, 'after', ['af', 'ter']]),
    ), min_size = 1, max_size = 8)


def title_of(value):
    if not value:
        return ''
    if isinstance(value, list):
        value = ''.join(map(str, value))
    return value.rstrip('\n') + '\n'


def _rendered_case(case, ctx):
    exceptions = [KINDS[item[1]](f'failure number {index} ends') for index, item in enumerate(case)]
    given = {}

    def call(index):
        raise exceptions[index]

    async def fail(index):
        raise exceptions[index]

    async def generate(index):
        try:
            yield 1
        finally:
            raise exceptions[index]

    async def use(index):
        generator = generate(index)
        async for element in generator:
            break

    async def main(sim):
        loop = sim.loop
        for index, (kind, _, before, after) in enumerate(case):
            keyword = {'before': before, 'after': after}
            if kind == 'task':
                Task(loop, fail(index))
            elif kind == 'future':
                Future(loop).set_exception(exceptions[index])
            elif kind == 'thread':
                # dropped by an other thread
                holder = [Future(loop)]
                holder[0].set_exception(exceptions[index])
                thread = threading.Thread(target = holder.clear)
                thread.start()
                thread.join()
            elif kind == 'soon':
                loop.call_soon(call, index)
            elif kind == 'callback':
                future = Future(loop)
                future.add_done_callback(lambda future, index = index: call(index))
                future.set_result(None)
            elif kind == 'write':
                scarletio.write_exception_async(exceptions[index], **keyword)
                given[index] = True
            elif kind == 'write_awaited':
                await scarletio.write_exception_async(exceptions[index], **keyword)
                given[index] = True
                check(f'failure number {index} ends' in capture.text, 'writing an exception is not finished when awaited')
            elif kind == 'maybe':
                scarletio.write_exception_maybe_async(exceptions[index], **keyword)
                given[index] = True
            elif kind == 'sync':
                scarletio.write_exception_sync(exceptions[index], **keyword)
                given[index] = True
            elif kind == 'context':
                async with ExceptionWriterContextManager():
                    await fail(index)
            elif kind == 'context_sync':
                with ExceptionWriterContextManager():
                    call(index)
            elif kind == 'generator':
                Task(loop, use(index))
            if index % 3 == 2:
                await sleep(0.125)
        await sleep(1.0)
        gc.collect()
        # Rendering happens on other threads.
        for _ in range(5000):
            if all(f'failure number {index} ends\n' in capture.text for index in range(len(case))):
                break
            time.sleep(0.002)
        for executor in range(3):
            await sleep(0.125)

    with vsim.Unrecorded(), vsim.StderrCapture() as capture:
        vsim.run(main, external = lambda: True)
    text = re.sub('\x1b\\[[0-9;]*m', '', capture.text)
    if len(case) > 1:
        ctx.nontrivial()
    for index, (kind, which, before, after) in enumerate(case):
        line = f'{KINDS[which].__name__}: failure number {index} ends\n'
        check_eq(text.count(line), 1, 'amount of times a failure is written', kind, text)
        end = text.index(line) + len(line)
        start = text.rfind('Traceback (most recent call last):\n', 0, end)
        has_frames = kind not in ('future', 'thread', 'write', 'write_awaited', 'maybe', 'sync')
        if has_frames:
            check(start != -1, 'a failure is written without its frames', text)
            check(' ends' not in text[start : end - len(line)], 'failures are written into each other', text)
        if given.get(index):
            title = title_of(after)
            check(text[end :].startswith(title), 'what should be after a failure is not there', text, title)
            title = title_of(before)
            beginning = text[: end - len(line)]
            header = 'Traceback (most recent call last):\n'
            if beginning.endswith(header):
                beginning = beginning[: -len(header)]
            check(beginning.endswith(title), 'what should be before a failure is not there', text, title)


@C54.case('rendered', _rendered_strategy, quick = 50, thorough = 1500, shards = 3)
def run_rendered(case, ctx):
    _rendered_case(case, ctx)
