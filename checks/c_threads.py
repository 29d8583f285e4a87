"""C12: crossing threads; C13: executors."""
import sys, threading, time
from vpreempt import Pause # has to be before scarletio
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, EventThread, Future, Task, enter_executor, skip_ready_cycle, sleep
from scarletio.core import SyncQueue


class Boom(Exception):
    pass


HANG = 20.0


class Programs:
    """Runs the given functions parallelly, each in its own thread, with a rapid thread switching."""
    def __init__(self, switch):
        self.switch = switch
        self.problems = []
        self.current = {}

    def run(self, functions):
        old = sys.getswitchinterval()
        sys.setswitchinterval(self.switch)
        try:
            threads = []
            for index, function in enumerate(functions):
                thread = threading.Thread(target = self._run, args = (index, function), daemon = True)
                threads.append(thread)
            for thread in threads:
                thread.start()
            deadline = time.monotonic() + HANG
            for index, thread in enumerate(threads):
                thread.join(max(0.0, deadline - time.monotonic()))
                if thread.is_alive():
                    raise Violation(f'never finished: {self.current.get(index)}')
        finally:
            sys.setswitchinterval(old)
        if self.problems:
            problem = self.problems[0]
            if isinstance(problem, BaseException):
                raise problem
            raise Violation(problem)

    def _run(self, index, function):
        try:
            function(index)
        except BaseException as exception:
            self.problems.append(exception)


SWITCH = st.sampled_from([0.005, 0.0001, 0.00001, 0.000001])
OUTCOME = st.sampled_from(['return', 'raise', 'cancel'])


def expect(outcome, value, function):
    """Calls the function and checks whether it ends as expected."""
    try:
        got = ('return', function())
    except CancelledError:
        got = ('cancel', None)
    except Boom as exception:
        got = ('raise', exception.args[0])
    except TimeoutError:
        got = ('timeout', None)
    check_eq(got, (outcome, None if outcome in ('cancel', 'timeout') else value), 'outcome')


class AwaitableOf:
    def __init__(self, coroutine):
        self.coroutine = coroutine

    def __await__(self):
        return self.coroutine.__await__()


async def work(loop, outcome, value, cycles, pause):
    check(threading.current_thread() is loop, 'coroutine ran outside of its loop')
    for _ in range(cycles):
        await skip_ready_cycle()
    if pause:
        await sleep(pause * 0.0005, loop)
    check(threading.current_thread() is loop, 'coroutine ran outside of its loop')
    if outcome == 'return':
        return value
    if outcome == 'raise':
        raise Boom(value)
    raise CancelledError


C12 = Property(
    'C12',
    rule = (
        'Case = thread switch interval and 1..3 threads with up to 5 operations each (run a coroutine, run one with a timeout, '
        'schedule callbacks, wait a future through sync_wrap, await one from an other loop, set one through a wrapper, suspend the loop). '
        'Non-trivial = at least two threads or a timeout.'
    ),
    assumptions = ['real threads; the interleavings are sampled by the operating system and the switch interval, not enumerated'],
)


def _cross_strategy():
    operation = st.one_of(
        st.tuples(st.just('run'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('run_timeout'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('soon'), st.just('return'), st.integers(1, 6), st.integers(0, 2)),
        st.tuples(st.just('sync_wrap'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('completion'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('async_wrap'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('async_wait'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('setter'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('suspend'), st.just('return'), st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('ensure'), OUTCOME, st.integers(0, 3), st.integers(0, 2)),
    )
    return st.tuples(SWITCH, st.booleans(), st.lists(st.lists(operation, min_size = 1, max_size = 5), min_size = 1, max_size = 3))


@C12.case('operations', _cross_strategy, quick = 1500, thorough = 8000, shards = 4)
def run_c12(case, ctx):
    switch, ticks, threads = case
    loop = EventThread(daemon = True)
    other = EventThread(daemon = True)
    programs = Programs(switch)
    in_step = [False]
    ticking = [ticks]     # when nothing ticks, the loop sleeps till it is told to wake up

    async def ticker():
        # something which runs in the loop all the time
        while ticking[0]:
            in_step[0] = True
            time.sleep(0)
            in_step[0] = False
            await sleep(0.0002, loop)

    def program(operations):
        def run(thread_index):
            for position, (name, outcome, cycles, pause) in enumerate(operations):
                programs.current[thread_index] = (name, outcome, cycles, pause)
                value = (thread_index, position)
                if name == 'run':
                    expect(outcome, value, lambda: loop.run(work(loop, outcome, value, cycles, pause)))
                elif name == 'run_timeout':
                    if cycles == 0:
                        async def forever():
                            await Future(loop)

                        coroutine = forever()
                        expect('timeout', None, lambda: loop.run(coroutine, 0.003))
                        # the task is cancelled by its own loop, so it might take some time
                        deadline = time.monotonic() + HANG
                        while coroutine.cr_frame is not None and time.monotonic() < deadline:
                            time.sleep(0.0005)
                        check(coroutine.cr_frame is None, 'the timed out task keeps running')
                    else:
                        expect(outcome, value, lambda: loop.run(work(loop, outcome, value, cycles, pause), 15.0))
                elif name == 'soon':
                    calls = []
                    done = threading.Event()
                    for index in range(cycles):
                        loop.call_soon_thread_safe(calls.append, index)
                    loop.call_soon_thread_safe(done.set)
                    check(done.wait(HANG), 'call_soon_thread_safe callback never ran')
                    check_eq(calls, list(range(cycles)), 'call_soon_thread_safe order')
                elif name == 'sync_wrap':
                    task = loop.create_task_thread_safe(work(loop, outcome, value, cycles, pause))
                    expect(outcome, value, lambda: task.sync_wrap().wait())
                elif name == 'completion':
                    task = loop.create_task_thread_safe(work(loop, outcome, value, cycles, pause))
                    wrapper = task.sync_wrap()
                    check_eq(wrapper.wait_for_completion(), True, 'wait_for_completion()')
                    check(wrapper.is_done() and task.is_done(), 'waited task is not done')
                    expect(outcome, value, wrapper.get_result)
                elif name == 'ensure':
                    coroutine = work(loop, outcome, value, cycles >> 1, pause)
                    task = loop.ensure_future_thread_safe(AwaitableOf(coroutine) if cycles & 1 else coroutine)
                    wait_outcome(task, [(outcome, None if outcome == 'cancel' else value)], 'outcome of an ensured task')
                elif name in ('async_wrap', 'async_wait'):
                    task = loop.create_task_thread_safe(work(loop, outcome, value, cycles, pause))

                    async def watch():
                        wrapper = task.async_wrap(other)
                        try:
                            if name == 'async_wrap':
                                return await wrapper
                            return await wrapper.wait(15.0)
                        finally:
                            check(threading.current_thread() is other, 'async wrapper resumed its awaiter on an other thread')

                    expect(outcome, value, lambda: other.run(watch()))
                elif name == 'setter':
                    future = Future(loop)
                    waiting = threading.Event()

                    async def waiter():
                        loop.call_soon(waiting.set)
                        return await future

                    task = loop.create_task_thread_safe(waiter())
                    check(waiting.wait(HANG), 'the task did not start')
                    wrapper = future.sync_wrap()
                    if outcome == 'return':
                        wrapper.set_result(value)
                    elif outcome == 'raise':
                        wrapper.set_exception(Boom(value))
                    else:
                        check_eq(wrapper.cancel(), 1, 'cancel()')
                    expect(outcome, value, lambda: task.sync_wrap().wait())
                elif name == 'suspend':
                    with loop.enter():
                        for _ in range(cycles + 1):
                            check(not in_step[0], 'the loop is running inside of `with loop.enter()`')
                            time.sleep(0.0001 * pause)
        return run

    try:
        tick = loop.create_task_thread_safe(ticker())
        programs.run([program(operations) for operations in threads])
        ticking[0] = False
        tick.sync_wrap().wait()
    finally:
        ticking[0] = False
        loop.stop()
        other.stop()
    loop.join(HANG)
    other.join(HANG)
    check(not loop.is_alive(), 'the loop did not stop')
    check(loop.is_stopped(), 'is_stopped() of a stopped loop')
    try:
        loop.run
    except RuntimeError:
        pass
    else:
        raise Violation('running something on a stopped loop is not refused')
    check(loop.call_soon(print) is None and loop.call_after(0.0, print) is None, 'scheduling on a stopped loop')
    ctx.nontrivial(len(threads) > 1 or any(operation[0] == 'run_timeout' for operations in threads for operation in operations))



def _waits_strategy():
    return st.lists(
        st.tuples(
            st.sampled_from(['sync', 'async']),
            st.sampled_from(['wait', 'wait_for_completion', 'await']),
            st.sampled_from(['timeout', 'cancel', 'complete', 'already']),
            st.sampled_from([None, False, True]),                            # propagate_cancellation
            st.sampled_from(['future', 'task', 'stubborn', 'failing']),      # what is waited
            OUTCOME,
        ),
        min_size = 1,
        max_size = 4,
    )


@C12.case('waits', _waits_strategy, quick = 1200, thorough = 8000, shards = 4)
def run_c12_waits(case, ctx):
    """A wait which is over before the waited future: it must leave it alone, or cancel it if it is told to do so."""
    loop = EventThread(daemon = True)
    other = EventThread(daemon = True)

    def one(position, kind, method, trigger, propagate, source, outcome):
        if kind == 'sync' and method == 'await':
            method = 'wait'
        if kind == 'sync' and trigger == 'cancel':
            trigger = 'timeout'
        if method == 'await':
            if trigger == 'timeout':
                trigger = 'cancel'
            propagate = None
        started = threading.Event()
        inner = Future(loop)
        hits = []

        async def task_function():
            loop.call_soon(started.set)
            while True:
                try:
                    return await inner
                except CancelledError:
                    hits.append(threading.current_thread() is loop)
                    if inner.is_done() and outcome == 'cancel':
                        raise
                    if source == 'stubborn':
                        return ('stubborn', position)
                    if source == 'failing':
                        raise Boom('failing')
                    raise

        if source == 'future':
            future = inner
        else:
            future = loop.create_task_thread_safe(task_function())
            check(started.wait(HANG), 'the task did not start')

        def complete():
            inner_wrapper = inner.sync_wrap()
            if outcome == 'return':
                inner_wrapper.set_result(position)
            elif outcome == 'raise':
                inner_wrapper.set_exception(Boom(position))
            else:
                inner_wrapper.cancel()

        if outcome == 'cancel' and source in ('stubborn', 'failing'):
            outcome = 'return'
        if trigger == 'already':
            complete()
            check_eq(future.sync_wrap().wait_for_completion(HANG), True, 'wait_for_completion() of a future done soon')
        keywords = {} if propagate is None else {'propagate_cancellation': propagate}
        timeout = 0.002 if trigger == 'timeout' else HANG / 2
        cause = None

        if kind == 'sync':
            wrapper = future.sync_wrap()
            if trigger == 'complete':
                loop.call_soon_thread_safe(loop.call_after, 0.001, complete)
            try:
                got = ('return', getattr(wrapper, method)(timeout, **keywords))
            except CancelledError:
                got = ('cancel', None)
            except Boom as exception:
                got = ('raise', exception.args[0])
            except TimeoutError as exception:
                got = ('timeout', None)
                cause = exception.__cause__
        else:
            waiting = threading.Event()
            causes = []

            async def watch():
                wrapper = future.async_wrap(other)
                other.call_soon(waiting.set)
                try:
                    if method == 'await':
                        return await wrapper
                    if method == 'wait':
                        return await wrapper.wait(timeout, **keywords)
                    return await wrapper.wait_for_completion(timeout, **keywords)
                except BaseException as exception:
                    causes.append(exception.__cause__)
                    raise
                finally:
                    check(threading.current_thread() is other, 'async wrapper resumed its awaiter on an other thread')

            task = other.create_task_thread_safe(watch())
            check(waiting.wait(HANG), 'the waiter did not start')
            if trigger == 'complete':
                complete()
            elif trigger == 'cancel':
                check_eq(task.sync_wrap().cancel(), 1, 'cancel() of a waiting task')
            try:
                got = ('return', task.sync_wrap().wait(HANG))
            except CancelledError:
                got = ('cancel', None)
            except Boom as exception:
                got = ('raise', exception.args[0])
            except TimeoutError:
                got = ('timeout', None)
            if causes:
                cause = causes[0]

        finishes = trigger in ('complete', 'already')
        if finishes:
            if method == 'wait_for_completion':
                expected = ('return', True)
            else:
                expected = (outcome, None if outcome == 'cancel' else position)
        elif trigger == 'cancel':
            expected = ('cancel', None)
        elif method == 'wait_for_completion':
            expected = ('return', False)
        else:
            expected = ('timeout', None)
        check_eq(got, expected, 'outcome of the wait')

        if finishes:
            check(future.is_done(), 'not done after the wait')
            return
        if propagate:
            # it is cancelled -> gets done soon
            check_eq(future.sync_wrap().wait_for_completion(HANG), True, 'completion after propagating cancellation')
            if source != 'future':
                check_eq(hits, [True], 'count of the cancellations reaching the waited task')
            if source in ('future', 'task'):
                check(future.is_cancelled(), 'the waited future is not cancelled though cancellation was to be propagated')
            elif source == 'stubborn':
                check_eq(future.get_result(), ('stubborn', position), 'result of a task not accepting cancellation')
            else:
                check(isinstance(future.get_exception(), Boom), 'result of a task failing on cancellation')
            check(cause is None or type(cause) is type(future.get_exception()), 'unrelated cause', cause)
            ctx.nontrivial()
        else:
            check(future.is_pending() and not future.is_cancelling(), 'a finished wait altered the waited future')
            check(not hits, 'a finished wait cancelled the waited task')
            callbacks = getattr(future, '_callbacks', None)
            if source == 'future':
                # the wait removed its own, and nobody else is waiting
                check(not callbacks, 'a finished wait left its callback behind', callbacks)
            complete()
            if source == 'future' or outcome != 'cancel':
                expect(outcome, position, lambda: future.sync_wrap().wait(HANG))
            else:
                check_eq(future.sync_wrap().wait_for_completion(HANG), True, 'later completion')
            ctx.nontrivial()

    try:
        for position, item in enumerate(case):
            one(position, *item)
            ctx.label('waits')
    finally:
        loop.stop()
        other.stop()
    loop.join(HANG)
    other.join(HANG)


# ---------------------------------------------------------------------------------------------------------------------

C13 = Property(
    'C13',
    rule = (
        'queue: up to 20 operations of a SyncQueue against a deque model, getters in own threads. executor: up to 8 operations (run_in_executor, claimed executors, '
        'enter_executor blocks with awaits, all optionally cancelled) done parallelly by tasks of a loop. Non-trivial = a getter blocked / something got cancelled or raised.'
    ),
    assumptions = ['real threads; the interleavings are sampled by the operating system and the switch interval, not enumerated'],
)


def _queue_strategy():
    return st.tuples(
        st.one_of(st.none(), st.integers(1, 4)),
        st.lists(st.sampled_from(['set', 'set', 'set', 'get', 'get', 'get', 'no_wait', 'clear', 'reverse', 'copy', 'cancel', 'repr']), max_size = 20),
    )


@C13.case('queue', _queue_strategy, quick = 800, thorough = 10000, shards = 2)
def run_c13_queue(case, ctx):
    max_length, operations = case
    from collections import deque
    queue = SyncQueue(max_length = max_length)
    model = deque(maxlen = max_length)
    cancelled = False
    waiting = []       # ids of blocked getters in order
    records = {}
    threads = []
    expected = {}

    def getter(id_):
        try:
            records[id_] = ('return', queue.get_result())
        except CancelledError:
            records[id_] = ('cancelled',)

    for position, name in enumerate(operations):
        if name == 'set':
            queue.set_result(position)
            if waiting:
                expected[waiting.pop(0)] = ('return', position)
            else:
                model.append(position)
        elif name == 'get':
            if model:
                check_eq(queue.get_result(), model.popleft(), 'get_result()')
            elif cancelled:
                try:
                    queue.get_result()
                except CancelledError:
                    pass
                else:
                    raise Violation('get_result() on a cancelled queue')
            else:
                thread = threading.Thread(target = getter, args = (position,), daemon = True)
                threads.append(thread)
                thread.start()
                waiting.append(position)
                ctx.nontrivial()
                # wait till it blocks, so the order of the getters is known
                for _ in range(100):
                    frame = sys._current_frames().get(thread.ident)
                    if frame is not None and frame.f_code.co_name == 'wait':
                        break
                    time.sleep(0.0005)
                check(position not in records, 'the getter did not block on an empty queue')
        elif name == 'no_wait':
            try:
                got = ('return', queue.get_result_no_wait())
            except IndexError:
                got = ('empty',)
            except CancelledError:
                got = ('cancelled',)
            check_eq(got, ('return', model.popleft()) if model else ('cancelled',) if cancelled else ('empty',), 'get_result_no_wait()')
        elif name == 'clear':
            queue.clear()
            model.clear()
        elif name == 'reverse':
            queue.reverse()
            model.reverse()
        elif name == 'copy':
            copy = queue.copy()
            check_eq(len(copy), len(model), 'len of copy')
            for item in model:
                check_eq(copy.get_result_no_wait(), item, 'copied element')
        elif name == 'cancel':
            queue.cancel()
            cancelled = True
            for id_ in waiting:
                expected[id_] = ('cancelled',)
            waiting.clear()
        elif name == 'repr':
            text = repr(queue)
            for item in model:
                check(repr(item) in text, 'repr misses an element', text)
        check_eq(len(queue), len(model), 'len()')
        check_eq(bool(queue), bool(model), 'bool()')
        check_eq(queue.max_length, max_length, 'max_length')
    queue.cancel()
    for id_ in waiting:
        expected[id_] = ('cancelled',)
    for thread in threads:
        thread.join(HANG)
        check(not thread.is_alive(), 'a getter never finished')
    check_eq(records, expected, 'results of the getters')


def _executor_strategy():
    operation = st.tuples(
        st.sampled_from(['executor', 'executor', 'claimed', 'block', 'block', 'block']),
        st.sampled_from(['return', 'return', 'raise']),
        st.integers(0, 3),                                      # count of functions / awaits inside of the block
        st.sampled_from([None, None, None, 0, 1, 2, 3, 5]),     # cancelled after (ms)
        st.integers(0, 2),                                      # pauses (ms)
    )
    return st.tuples(SWITCH, st.lists(operation, min_size = 1, max_size = 6))


@C13.case('executor', _executor_strategy, quick = 500, thorough = 8000, shards = 4)
def run_c13_executor(case, ctx):
    switch, operations = case
    loop = EventThread(daemon = True)
    programs = Programs(switch)
    current_thread = threading.current_thread
    problems = []
    finished = {}

    def verify(condition, message):
        if not condition:
            problems.append(message)

    async def executor(index, outcome, count, pause):
        calls = []

        def function():
            verify(current_thread() is not loop, 'run_in_executor ran on the loop')
            if pause:
                time.sleep(pause * 0.001)
            calls.append(1)
            if outcome == 'raise':
                raise Boom(index)
            return index

        futures = [loop.run_in_executor(function) for _ in range(count + 1)]
        for future in futures:
            try:
                result = ('return', await future)
            except Boom as exception:
                result = ('raise', exception.args[0])
            verify(current_thread() is loop, 'resumed on an other thread')
            verify(result == (outcome, index), f'run_in_executor gave {result}')
        verify(len(calls) == count + 1, f'{count + 1} functions were called {len(calls)} times')
        return index

    async def claimed(index, outcome, count, pause):
        threads = []
        order = []

        def function(position):
            threads.append(current_thread())
            if pause:
                time.sleep(pause * 0.001)
            order.append(position)
            if outcome == 'raise':
                raise Boom(index)
            return index

        with loop.claim_executor() as claim:
            futures = [claim.execute(lambda position = position: function(position)) for position in range(count + 1)]
        try:
            claim.execute(function)
        except RuntimeError:
            pass
        else:
            verify(False, 'executed on a released executor')
        # a released executor thread cannot be given away till it is done
        verify(await loop.run_in_executor(lambda: 'other') == 'other', 'run_in_executor')
        for future in futures:
            try:
                result = ('return', await future)
            except Boom as exception:
                result = ('raise', exception.args[0])
            verify(result == (outcome, index), f'claimed executor gave {result}')
        verify(order == list(range(count + 1)), f'claimed executor order: {order}')
        verify(len(set(threads)) == 1 and threads[0] is not loop, 'claimed executor used more threads')
        return index

    async def block(index, outcome, count, pause):
        entered = left = False
        try:
            async with enter_executor():
                entered = True
                verify(current_thread() is not loop, 'the block ran on the loop')
                if pause:
                    time.sleep(pause * 0.001)
                for position in range(count):
                    if position & 1:
                        await sleep(pause * 0.001, loop)
                    else:
                        verify((await work(loop, 'return', 3, 1, 0) if False else await Task(loop, value_after(pause))) == 7, 'awaited value')
                    verify(current_thread() is not loop, 'the block ran on the loop after an await')
                left = True
                if outcome == 'raise':
                    raise Boom(index)
        finally:
            verify(current_thread() is loop, 'not on the loop after the block')
            finished[index] = (entered, left)
        await skip_ready_cycle()
        verify(current_thread() is loop, 'not on the loop after the block')
        return index

    async def value_after(pause):
        await sleep(pause * 0.001, loop)
        return 7

    kinds = {'executor': executor, 'claimed': claimed, 'block': block}

    async def main():
        tasks = []
        for index, (kind, outcome, count, cancel, pause) in enumerate(operations):
            task = Task(loop, kinds[kind](index, outcome, count, pause))
            tasks.append(task)
            if cancel is not None:
                if cancel == 0:
                    loop.call_soon(task.cancel)
                else:
                    loop.call_after(cancel * 0.001, task.cancel)
        results = []
        for task in tasks:
            try:
                results.append(('return', await task))
            except CancelledError:
                results.append(('cancelled', None))
            except Boom as exception:
                results.append(('raise', exception.args[0]))
        return results

    def run(thread_index):
        programs.current[0] = 'the tasks'
        results = loop.run(main())
        for index, (kind, outcome, count, cancel, pause) in enumerate(operations):
            got = results[index]
            if got[0] == 'cancelled':
                check(cancel is not None, f'{kind} got cancelled out of nothing')
                ctx.nontrivial()
            elif kind == 'block' and outcome == 'raise':
                check_eq(got, ('raise', index), 'raised from the block')
                ctx.nontrivial()
            else:
                check_eq(got, ('return', index), kind)

        async def idle():
            # every thread is given back
            for _ in range(5000):
                if not loop.get_used_executor_count():
                    return True
                await sleep(0.001, loop)
            return False

        check(loop.run(idle()), 'an executor thread was never given back')

    try:
        programs.run([run])
    finally:
        loop.stop()
    loop.join(HANG)
    check(not problems, problems[0] if problems else '')


def _busy_strategy():
    return st.tuples(
        st.sampled_from(['cancelled', 'claimed', 'claimed_two', 'claimed_cancelled', 'crowd', 'crowd', 'skip', 'skip', 'stop', 'stop']),
        st.integers(1, 3),
        st.integers(2, 24),
    )


def busy_crowd(count, size, ctx):
    """Functions waiting for each other."""
    loop = EventThread(daemon = True)

    async def main():
        for _ in range(count):
            barrier = threading.Barrier(size)
            futures = []
            for position in range(size):
                if position % 3 == 2:
                    with loop.claim_executor() as claim:
                        futures.append(claim.execute(lambda: barrier.wait(HANG / 2)))
                else:
                    futures.append(loop.run_in_executor(lambda: barrier.wait(HANG / 2)))
            results = []
            for future in futures:
                try:
                    results.append(await future)
                except threading.BrokenBarrierError:
                    raise Violation('functions given to executors are not ran parallelly') from None
            check_eq(sorted(results), list(range(size)), 'results')
            await skip_ready_cycle()

    try:
        loop.run(main())
    finally:
        loop.stop()
    ctx.nontrivial()


def busy_skip(count, size, ctx):
    """A function queued up to a claimed executor is not called if it is cancelled before its turn."""
    loop = EventThread(daemon = True)
    called = []

    async def main():
        release = threading.Event()
        entered = threading.Event()

        def first():
            entered.set()
            release.wait(HANG)

        with loop.claim_executor() as claim:
            futures = [claim.execute(first)]
            for position in range(size % 6 + 1):
                futures.append(claim.execute(lambda position = position: called.append(position)))
            await loop.run_in_executor(entered.wait)
            cancelled = set()
            for position in range(size % 6 + 1):
                if (size * 7 + count) >> position & 1 or position == size % 6:
                    cancelled.add(position)
                    check_eq(futures[position + 1].cancel(), 1, 'cancel()')
            release.set()
            if count & 1:
                # till this everything is executed
                await futures[0]
                await sleep(0.003, loop)
        for position, future in enumerate(futures):
            if position - 1 in cancelled:
                check(future.is_cancelled(), 'not cancelled')
            else:
                await future
        check(await loop.run_in_executor(lambda: True), 'run_in_executor')
        for _ in range(5000):
            if not loop.get_used_executor_count():
                break
            await sleep(0.001, loop)
        else:
            raise Violation('an executor thread was never given back')
        check_eq(called, [position for position in range(size % 6 + 1) if position not in cancelled], 'called functions')

    try:
        loop.run(main())
    finally:
        loop.stop()
    ctx.nontrivial()


def busy_stop(count, size, ctx):
    """Cancelling the executors: the running functions finish, the ones which were not started are cancelled."""
    loop = EventThread(daemon = True)
    release = threading.Event()
    called = []
    futures = []

    def function(index, position):
        if position == 0:
            entered[index].set()
            release.wait(HANG)
        called.append((index, position))
        return position

    entered = [threading.Event() for _ in range(count)]

    async def start():
        for index in range(count):
            claim = loop.claim_executor()
            futures.append([
                claim.execute(lambda position = position, index = index: function(index, position))
                for position in range(1 + (size + index) % 4)
            ])
            claim.release()

    try:
        loop.run(start())
        for event in entered:
            check(event.wait(HANG), 'the function did not start')
        if size & 4:
            loop.cancel_executors()
        else:
            done = threading.Event()
            loop.call_soon_thread_safe(lambda: (loop.cancel_executors(), done.set()))
            check(done.wait(HANG), 'cancel_executors() did not finish')
        # the cancelled ones do not have to wait for the running ones
        for index, group in enumerate(futures):
            for position, future in enumerate(group):
                if position:
                    wait_outcome(future, [('cancel', None)], 'a function which was not started')
        release.set()
        for group in futures:
            wait_outcome(group[0], [('return', 0)], 'a function which was running')
    finally:
        release.set()
        loop.stop()
    check_eq(sorted(called), [(index, 0) for index in range(count)], 'called functions')
    ctx.nontrivial()


@C13.case('busy', _busy_strategy, quick = 120, thorough = 2000, shards = 2)
def run_c13_busy(case, ctx):
    """A thread which is still executing something is not given to anyone else, so these cannot wait for each other."""
    how, count, size = case
    if how in ('crowd', 'skip', 'stop'):
        ctx.label(how)
        return {'crowd': busy_crowd, 'skip': busy_skip, 'stop': busy_stop}[how](count, size, ctx)
    loop = EventThread(daemon = True)
    release = threading.Event()
    entered = threading.Event()

    def blocking():
        entered.set()
        release.wait(HANG)
        return 'blocking'

    async def main():
        futures = []
        if how == 'cancelled':
            future = loop.run_in_executor(blocking)
            await loop.run_in_executor(entered.wait)
            future.cancel()
        else:
            claim = loop.claim_executor()
            futures.append(claim.execute(blocking))
            if how == 'claimed_two':
                futures.append(claim.execute(blocking))
            elif how == 'claimed_cancelled':
                claim.execute(blocking).cancel()
            claim.release()
        await sleep(0.002, loop)
        # these have to run, although `blocking` never ends till they do
        for _ in range(count):
            task = loop.run_in_executor(lambda: 'other').apply_timeout
            future = task.__self__
            future.apply_timeout(5.0)
            try:
                check_eq(await future, 'other', 'run_in_executor')
            except TimeoutError:
                raise Violation('run_in_executor got a thread which is still executing an other function') from None
        release.set()
        for future in futures:
            check_eq(await future, 'blocking', 'claimed executor')
        return True

    try:
        check(loop.run(main(), 15.0), 'main')
    finally:
        release.set()
        loop.stop()
    ctx.nontrivial()


# ---------------------------------------------------------------------------------------------------------------------

SOON = 5.0      # everything below takes milliseconds


class Situation:
    """A thread does something, while an other one does something else at a selected point of it."""
    def __init__(self, at):
        self.pause = Pause(at)
        self.loop = EventThread(daemon = True)
        self.other = EventThread(daemon = True)
        self.results = {}
        self.done = threading.Event()
        self.thread = None

    def in_thread(self, function):
        """Does the action in an own thread."""
        def run():
            self.pause.install()
            try:
                self.results['action'] = outcome_of(function)
            finally:
                self.pause.uninstall()
                self.done.set()

        self.thread = threading.Thread(target = run, daemon = True)
        self.thread.start()

    def in_loop(self, loop, function):
        """Does the action in a loop. It is watched till the loop goes to sleep."""
        def run():
            self.pause.install()
            try:
                self.results['action'] = outcome_of(function)
            finally:
                self.done.set()

        loop.call_soon_thread_safe(run)

    def in_executor(self, loop, function):
        def run():
            self.pause.install()
            try:
                return function()
            finally:
                self.done.set()
        return run

    def settle(self, loop):
        """Lets the loop do what it has to."""
        for _ in range(3):
            event = threading.Event()
            loop.call_soon_thread_safe(event.set)
            # the loop itself can be the stopped one
            event.wait(0.02)

    def wait_action(self):
        check(self.done.wait(SOON), 'never finished')
        if self.thread is not None:
            self.thread.join(SOON)
        return self.results['action']

    def close(self):
        self.pause.go.set()
        self.pause.uninstall()
        self.loop.stop()
        self.other.stop()
        self.loop.join(HANG)
        self.other.join(HANG)
        check(not self.loop.is_alive() and not self.other.is_alive(), 'a loop did not stop')


def outcome_of(function):
    try:
        return ('return', function())
    except CancelledError:
        return ('cancel', None)
    except Boom as exception:
        return ('raise', exception.args[0])
    except TimeoutError:
        return ('timeout', None)
    except BaseException as exception:
        return ('unexpected', repr(exception))


def complete_with(target, outcome):
    """`target` is either a future or a wrapper of it."""
    if outcome == 'return':
        target.set_result_if_pending(1)
    elif outcome == 'raise':
        target.set_exception_if_pending(Boom(1))
    elif outcome == 'cancel':
        target.cancel()
    elif outcome == 'cancel_with':
        target.cancel_with(Boom(1))


def expected_of(outcome):
    return {'return': ('return', 1), 'raise': ('raise', 1), 'cancel': ('cancel', None), 'cancel_with': ('raise', 1)}[outcome]


def wait_result(future):
    return outcome_of(lambda: future.sync_wrap().wait(SOON))


def wait_outcome(future, allowed, message):
    """Waits without adding anything to the future, since that would wake up its loop as well."""
    deadline = time.monotonic() + SOON
    while not future.is_done():
        check(time.monotonic() < deadline, message, 'never done')
        time.sleep(0.0005)
    got = outcome_of(future.get_result)
    check(got in allowed, message, got)
    # does not change later
    check_eq(future.is_done(), True, 'is_done() changed')
    return got


def s_sync_wait(s, outcome, variant):
    """A thread waits for a future, which is completed meanwhile."""
    method = ('wait', 'wait_for_completion', 'run', 'timeout', 'task')[variant % 5]
    future = Future(s.loop)

    async def waiter():
        return await future

    if method == 'task':
        started = threading.Event()

        async def outer():
            s.loop.call_soon(started.set)
            return await future
        waited = s.loop.create_task_thread_safe(outer())
        check(started.wait(SOON), 'the task did not start')
    else:
        waited = future
    if method == 'run':
        s.in_thread(lambda: s.loop.run(waiter()))
    elif method == 'timeout':
        s.in_thread(lambda: waited.sync_wrap().wait(0.002))
    elif method == 'wait_for_completion':
        s.in_thread(lambda: waited.sync_wrap().wait_for_completion(SOON))
    else:
        s.in_thread(lambda: waited.sync_wrap().wait(SOON))
    yield
    s.loop.call_soon_thread_safe(complete_with, future, outcome)
    s.settle(s.loop)
    yield
    got = s.wait_action()
    if method == 'timeout' and got == ('timeout', None):
        return
    check_eq(got, ('return', True) if method == 'wait_for_completion' else expected_of(outcome), 'outcome of the wait')


def s_async_wait(s, outcome, variant):
    """A task waits for a future of an other loop, which is completed meanwhile."""
    method = ('await', 'wait', 'wait_for_completion', 'timeout')[variant % 4]
    future = Future(s.loop)

    async def waiter():
        wrapper = future.async_wrap(s.other)
        if method == 'await':
            return await wrapper
        if method == 'wait':
            return await wrapper.wait()
        if method == 'timeout':
            return await wrapper.wait(0.002)
        return await wrapper.wait_for_completion()

    tasks = []
    s.in_loop(s.other, lambda: tasks.append(Task(s.other, waiter())))
    yield
    s.loop.call_soon_thread_safe(complete_with, future, outcome)
    s.settle(s.loop)
    yield
    s.wait_action()
    allowed = [('return', True) if method == 'wait_for_completion' else expected_of(outcome)]
    if method == 'timeout':
        allowed.append(('timeout', None))
    wait_outcome(tasks[0], allowed, 'outcome of the wait')


def s_await(s, outcome, variant):
    """A task starts to wait for a future, which is set from an other thread meanwhile."""
    future = Future(s.loop)
    tasks = []

    async def waiter():
        return await future

    s.in_loop(s.loop, lambda: tasks.append(Task(s.loop, waiter())))
    yield
    complete_with(future.sync_wrap(), outcome)
    yield
    s.wait_action()
    wait_outcome(tasks[0], [expected_of(outcome)], 'outcome of the task')


def s_set(s, outcome, variant):
    """A thread sets a future, what a task awaits, or starts to await meanwhile."""
    future = Future(s.loop)

    async def waiter():
        return await future

    started = threading.Event()

    async def early():
        s.loop.call_soon(started.set)
        return await future

    tasks = []
    if variant & 1:
        tasks.append(s.loop.create_task_thread_safe(early()))
        check(started.wait(SOON), 'the task did not start')
    s.in_thread(lambda: complete_with(future.sync_wrap(), outcome))
    yield
    if not variant & 1 or variant & 2:
        tasks.append(s.loop.create_task_thread_safe(waiter()))
    s.settle(s.loop)
    yield
    s.wait_action()
    for task in tasks:
        wait_outcome(task, [expected_of(outcome)], 'outcome of the task')
    check_eq(outcome_of(future.get_result), expected_of(outcome), 'the future')


class Awaitable:
    def __init__(self, value):
        self.value = value

    def __await__(self):
        return self.value
        yield


async def give(value):
    return value


def s_idle(s, outcome, variant):
    """A loop goes to sleep, while something is scheduled to it."""
    loop = s.loop
    s.in_loop(loop, lambda: loop.call_after(60.0, print) if variant & 1 else None)
    yield
    event = threading.Event()
    how = variant % 7
    task = None
    if how == 0:
        loop.call_soon_thread_safe(event.set)
    elif how == 1:
        task = loop.create_task_thread_safe(give(1))
    elif how == 2:
        task = loop.ensure_future_thread_safe(Awaitable(1))
    elif how == 3:
        task = loop.ensure_future_thread_safe(give(1))
    elif how == 4:
        loop.call_soon_thread_safe_lazy(event.set)
    elif how == 5:
        loop.call_soon(event.set)
        loop.wake_up()
    else:
        thread = threading.Thread(target = lambda: (loop.run(give(1)), event.set()), daemon = True)
        thread.start()
        time.sleep(0.002)
    yield
    if task is None:
        check(event.wait(SOON), 'it never ran')
    else:
        wait_outcome(task, [('return', 1)], 'outcome of the task')


def s_schedule(s, outcome, variant):
    """Threads schedule things concurrently."""
    calls = []
    functions = [
        lambda: s.loop.call_soon_thread_safe(calls.append, 1),
        lambda: s.loop.create_task_thread_safe(note(calls)),
        lambda: s.loop.ensure_future_thread_safe(Awaitable2(calls)),
        lambda: s.loop.call_soon_thread_safe(s.loop.call_after, 0.0, calls.append, 1),
    ]
    functions.append(lambda: s.loop.call_soon_thread_safe_lazy(calls.append, 1))
    # the loop is started by these, excepting the lazy one
    s.in_thread(functions[variant % 5])
    yield
    functions[variant // 5 % 4]()
    s.settle(s.loop)
    yield
    s.wait_action()
    deadline = time.monotonic() + SOON
    while len(calls) < 2:
        check(time.monotonic() < deadline, 'something scheduled never ran', calls)
        time.sleep(0.0005)


async def note(calls):
    calls.append(1)


class Awaitable2:
    def __init__(self, calls):
        self.calls = calls

    def __await__(self):
        self.calls.append(1)
        return
        yield


def s_cancel(s, outcome, variant):
    """A thread cancels a task, while what it waits for is completed."""
    future = Future(s.loop)
    started = threading.Event()

    async def waiter():
        s.loop.call_soon(started.set)
        return await future

    task = s.loop.create_task_thread_safe(waiter())
    check(started.wait(SOON), 'the task did not start')
    with_exception = variant & 1
    if variant & 2:
        # the completion is the watched one
        s.in_loop(s.loop, lambda: complete_with(future, outcome))
        yield
        wrapper = task.sync_wrap()
        returned = wrapper.cancel_with(Boom(2)) if with_exception else wrapper.cancel()
        yield
        s.wait_action()
    else:
        wrapper = task.sync_wrap()
        s.in_thread(lambda: wrapper.cancel_with(Boom(2)) if with_exception else wrapper.cancel())
        yield
        s.loop.call_soon_thread_safe(complete_with, future, outcome)
        s.settle(s.loop)
        yield
        got = s.wait_action()
        check_eq(got[0], 'return', 'cancel()', got)
        returned = got[1]
    allowed = [expected_of(outcome)]
    if returned:
        allowed.append(('raise', 2) if with_exception else ('cancel', None))
        allowed.append(('cancel', None))
    wait_outcome(task, allowed, 'outcome of the task')


def s_both(s, outcome, variant):
    """Two threads complete the same future, only one of them can."""
    future = Future(s.loop)

    def complete(how, value):
        wrapper = future.sync_wrap()
        if how == 'return':
            return wrapper.set_result_if_pending(value)
        if how == 'raise':
            return wrapper.set_exception_if_pending(Boom(value))
        if how == 'cancel':
            return wrapper.cancel()
        return wrapper.cancel_with(Boom(value))

    async def waiter():
        return await future

    tasks = []
    if variant & 4:
        tasks.append(s.loop.create_task_thread_safe(waiter()))
    s.in_thread(lambda: complete(outcome, 1))
    yield
    second = ('return', 'raise', 'cancel', 'cancel_with')[variant & 3]
    returned = complete(second, 2)
    s.settle(s.loop)
    seen = outcome_of(future.get_result)
    yield
    got = s.wait_action()
    check_eq(got[0], 'return', 'completing', got)
    check_eq(sorted([got[1], returned]), [0, 1], 'exactly one of them completes the future')
    how, value = (outcome, 1) if got[1] else (second, 2)
    expected = ('cancel', None) if how == 'cancel' else ('return' if how == 'return' else 'raise', value)
    check_eq(outcome_of(future.get_result), expected, 'outcome of the future')
    check_eq(seen, expected, 'outcome of the future changed')
    for task in tasks:
        wait_outcome(task, [expected], 'outcome of the task')


def s_executor(s, outcome, variant):
    """An executor thread finishes something, while the loop gives up on it."""
    loop = s.loop
    how = ('nothing', 'cancel', 'cancel_executors', 'more', 'release', 'claim_more')[variant % 6]

    def function():
        if outcome == 'raise':
            raise Boom(1)
        return 1

    started = {}

    def start():
        watched = s.in_executor(loop, function)
        if how in ('release', 'claim_more'):
            started['claim'] = claim = loop.claim_executor()
            started['future'] = claim.execute(watched)
        else:
            started['future'] = loop.run_in_executor(watched)

    loop.call_soon_thread_safe(start)
    yield
    future = started['future']
    others = []

    def give_up():
        if how == 'cancel':
            future.cancel()
        elif how == 'cancel_executors':
            loop.cancel_executors()
        elif how == 'more':
            others.append(loop.run_in_executor(lambda: 1))
        elif how == 'release':
            started['claim'].release()
        elif how == 'claim_more':
            others.append(started['claim'].execute(lambda: 1))
            started['claim'].release()

    loop.call_soon_thread_safe(give_up)
    s.settle(loop)
    yield
    result = expected_of('raise' if outcome == 'raise' else 'return')
    allowed = [result]
    if how == 'cancel':
        allowed.append(('cancel', None))
    wait_outcome(future, allowed, 'outcome of run_in_executor')
    for other in others:
        wait_outcome(other, [('return', 1)], 'outcome of an other run_in_executor')

    async def later():
        return await loop.run_in_executor(lambda: 5)

    check_eq(wait_result(loop.create_task_thread_safe(later())), ('return', 5), 'later run_in_executor')
    deadline = time.monotonic() + SOON
    while loop.get_used_executor_count():
        check(time.monotonic() < deadline, 'an executor thread was never given back')
        time.sleep(0.001)


def s_cancel_executors(s, outcome, variant):
    """The executors are cancelled while they are going through their functions."""
    loop = s.loop
    release = threading.Event()
    entered = threading.Event()
    called = []
    futures = []

    def function(position):
        entered.set()
        if position == 0:
            release.wait(HANG)
        called.append(position)
        return position

    async def start():
        claim = loop.claim_executor()
        for position in range(1 + (variant >> 1) % 4):
            futures.append(claim.execute(lambda position = position: function(position)))
        if variant & 8:
            claim.release()
        return claim

    claim = loop.run(start())
    try:
        check(entered.wait(SOON), 'the function did not start')
        if variant & 1:
            s.in_loop(loop, loop.cancel_executors)
        else:
            s.in_thread(loop.cancel_executors)
        yield
        release.set()
        time.sleep(0.002)
        yield
        check_eq(s.wait_action(), ('return', None), 'cancel_executors()')
    finally:
        release.set()
    loop.wake_up()
    for position, future in enumerate(futures):
        got = wait_outcome(future, [('return', position), ('cancel', None)], 'outcome of the function')
        check_eq(got[0] == 'return', position in called, 'called')
    check_eq(futures[0].is_cancelled(), False, 'a function which is running was cancelled')
    check_eq(called, sorted(called), 'order of the functions')


def s_block(s, outcome, variant):
    """A task inside of an `enter_executor` block is cancelled or gets what it waits for."""
    loop = s.loop
    future = Future(loop)
    marks = []

    async def function():
        async with enter_executor():
            s.pause.install()
            s.done.set()
            try:
                if variant & 1:
                    await future
                marks.append(threading.current_thread() is not loop)
            finally:
                marks.append(True)
        marks.append(threading.current_thread() is loop)
        await skip_ready_cycle()
        return 1

    task = loop.create_task_thread_safe(function())
    yield
    if variant & 2:
        returned = task.sync_wrap().cancel()
    else:
        returned = 0
    loop.call_soon_thread_safe(complete_with, future, outcome)
    s.settle(loop)
    yield
    allowed = [expected_of(outcome) if (variant & 1 and outcome != 'return') else ('return', 1)]
    if returned:
        allowed.append(('cancel', None))
    wait_outcome(task, allowed, 'outcome of the task')
    check(all(marks), 'executed in the wrong thread')
    deadline = time.monotonic() + SOON
    while loop.get_used_executor_count():
        check(time.monotonic() < deadline, 'an executor thread was never given back')
        time.sleep(0.001)


def s_queue(s, outcome, variant):
    """Getting from a queue, while something happens to it."""
    queue = SyncQueue([0]) if variant & 1 else SyncQueue()
    no_wait = variant & 2
    s.in_thread(queue.get_result_no_wait if no_wait else queue.get_result)
    yield
    how = (variant >> 2) % 4
    if how == 0:
        queue.set_result(1)
    elif how == 1:
        queue.cancel()
    elif how == 2:
        queue.clear()
    else:
        taken = outcome_of(queue.get_result_no_wait)
    yield
    if how != 1 and not no_wait and not s.done.wait(0.01):
        # waiting since there was nothing
        check(how != 0 and not (how not in (2, 3) and variant & 1), 'waiting for a non-empty queue')
        queue.set_result(2)
    got = s.wait_action()
    items = [0] if variant & 1 else []
    if how == 0:
        items.append(1)
    if how == 3 and taken[0] == 'return':
        check_eq(taken[1], items.pop(0), 'taken')
    if got[0] == 'return':
        if got[1] == 2:
            items.append(2)
        check(items, 'got something out of an empty queue', got)
        if how == 2:
            check(got[1] in items, 'got', got)
        else:
            check_eq(got[1], items.pop(0), 'got')
            left = []
            while len(queue):
                left.append(queue.get_result_no_wait())
            check_eq(left, items, 'left in the queue')
    elif got[0] == 'cancel':
        check_eq(how, 1, 'cancelled')
    else:
        check(no_wait and 'IndexError' in str(got[1]), 'got', got)


def s_enter(s, outcome, variant):
    """A thread suspends the loop, while the loop would do something."""
    loop = s.loop
    inside = [False]
    wrong = []
    ran = threading.Event()

    def callback():
        if inside[0]:
            wrong.append(1)
        ran.set()

    def suspend():
        with loop.enter():
            inside[0] = True
            time.sleep(0.001)
            inside[0] = False

    if variant & 1:
        s.in_loop(loop, lambda: None)
        yield
        thread = threading.Thread(target = suspend, daemon = True)
        thread.start()
        time.sleep(0.001)
        loop.call_soon_thread_safe(callback)
        yield
        thread.join(SOON)
        check(not thread.is_alive(), 'suspending the loop never finished')
    else:
        s.in_thread(suspend)
        yield
        loop.call_soon_thread_safe(callback)
        s.settle(loop)
        yield
        check_eq(s.wait_action(), ('return', None), 'suspending the loop')
    check(ran.wait(SOON), 'scheduled callback never ran')
    check(not wrong, 'the loop is running inside of `with loop.enter()`')


def s_stop(s, outcome, variant):
    """A thread stops the loop, while something is scheduled to it, or it is stopped by an other too."""
    loop = s.loop
    if variant & 1:
        s.in_loop(loop, loop.stop)
    else:
        s.in_thread(loop.stop)
    yield
    if variant & 2:
        loop.stop()
    elif variant & 4:
        loop.call_soon_thread_safe(print)
    else:
        loop.wake_up()
    yield
    loop.join(SOON)
    check(not loop.is_alive(), 'the loop did not stop')


SITUATIONS = {
    'sync_wait': s_sync_wait,
    'async_wait': s_async_wait,
    'await': s_await,
    'set': s_set,
    'idle': s_idle,
    'schedule': s_schedule,
    'cancel': s_cancel,
    'both': s_both,
    'enter': s_enter,
    'stop': s_stop,
}
SITUATIONS_EXECUTOR = {
    'executor': s_executor,
    'cancel_executors': s_cancel_executors,
    'block': s_block,
    'queue': s_queue,
}
COUNTS = {}


def do_situation(situations, name, outcome, variant, at):
    situation = Situation(at)
    try:
        steps = situations[name](situation, outcome, variant)
        next(steps)
        if at is None:
            situation.done.wait(0.05)
            time.sleep(0.004)
            count = situation.pause.count
        else:
            situation.pause.reached.wait(0.1)
            count = None
        next(steps)
        situation.pause.go.set()
        for _ in steps:
            pass
    except Violation as exception:
        if situation.pause.where is None:
            raise
        raise Violation(f'{exception} -- switched at {situation.pause.where}') from exception
    finally:
        situation.close()
    return count


def run_switch(situations, case, ctx):
    name, outcome, variant, at = case
    key = (name, outcome, variant)
    count = COUNTS.get(key)
    if count is None:
        COUNTS[key] = count = do_situation(situations, name, outcome, variant, None)
    if not count:
        return
    do_situation(situations, name, outcome, variant, at % count)
    ctx.label(name)
    ctx.nontrivial()


def _switch_strategy(situations):
    return lambda: st.tuples(
        st.sampled_from(sorted(situations)),
        st.sampled_from(['return', 'raise', 'cancel', 'cancel_with']),
        st.integers(0, 31),
        st.integers(0, 999),
    )


@C12.case('switch', _switch_strategy(SITUATIONS), quick = 3000, thorough = 30000, shards = 8)
def run_c12_switch(case, ctx):
    """A thread switch at every point where the interpreter could do one."""
    run_switch(SITUATIONS, case, ctx)


@C13.case('switch', _switch_strategy(SITUATIONS_EXECUTOR), quick = 1000, thorough = 10000, shards = 8)
def run_c13_switch(case, ctx):
    run_switch(SITUATIONS_EXECUTOR, case, ctx)
