"""C09: ScarletExecutor; C10: handles and timers; C11: Cycler."""
import gc
import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, Cycler, Future, ScarletExecutor, Task, skip_ready_cycle, sleep


class Boom(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------------

C09 = Property(
    'C09',
    rule = (
        'Case = limit 1..4, 0..10 added coroutines / futures (duration, outcome), the body\'s gaps and its outcome, optional cancellation of the '
        'whole. Non-trivial = `add()` had to block or a failure cancelled others.'
    ),
)


def _executor_strategy():
    job = st.tuples(
        st.integers(0, 5), st.sampled_from(['return', 'return', 'return', 'return', 'raise', 'cancel']),
        st.integers(0, 2), st.sampled_from(['coroutine', 'task', 'future']),
    )
    return st.tuples(
        st.integers(1, 4), st.lists(job, max_size = 10), st.sampled_from(['end', 'end', 'end', 'raise']),
        st.one_of(st.none(), st.none(), st.none(), st.integers(0, 12)),
        st.integers(0, 4),
    )


async def _executor_program(sim, case, ctx):
    limit, jobs, ending, cancel_at, tail = case
    loop = sim.loop
    running = set()
    started = []
    ended = {}
    added = []
    problems = []
    failures = []
    first_failure = []

    async def work(index, duration, outcome):
        started.append(index)
        try:
            await sleep(duration + (index + 1) / 64, loop)
            if outcome == 'raise':
                first_failure.append(index)
                raise Boom(index)
            if outcome == 'cancel':
                raise CancelledError
            ended[index] = 'done'
            if left:
                problems.append(f'job {index} was still going on after the block was left')
        except CancelledError:
            ended[index] = 'cancelled'
            raise
        except Boom:
            ended[index] = 'raised'
            raise
        finally:
            running.discard(index)

    blocked = 0
    any_cancelled = []
    left = []
    body_raised = []

    def cancel():
        any_cancelled.append(True)
        body_task.cancel()

    async def main():
        nonlocal blocked
        async with ScarletExecutor(limit) as executor:
            for index, (duration, outcome, gap, kind) in enumerate(jobs):
                if gap:
                    await sleep(float(gap), loop)
                coroutine = work(index, duration, outcome)
                if kind == 'coroutine':
                    future = coroutine
                elif kind == 'task':
                    future = Task(loop, coroutine)
                else:
                    future = Future(loop)
                    Task(loop, link(coroutine, future))
                running.add(index)
                added.append(index)
                before = loop.time()
                await executor.add(future)
                if loop.time() > before:
                    blocked += 1
                if len(running) >= limit:
                    problems.append(f'after add() {len(running)} are running, the limit is {limit}')
                repr(executor)
            if tail:
                await sleep(float(tail), loop)
            if ending == 'raise':
                body_raised.append(loop.time())
                raise Boom('body')
        if running and not any_cancelled:
            problems.append(f'left the block while {running} were running')

    async def link(coroutine, future):
        # runs the coroutine and mirrors it to the future, cancellation too
        task = Task(loop, coroutine)
        future.add_done_callback(lambda future: task.cancel())
        try:
            result = await task
        except CancelledError:
            future.cancel()
        except BaseException as exception:
            future.set_exception_if_pending(exception)
        else:
            future.set_result_if_pending(result)

    body_task = Task(loop, main())
    if cancel_at is not None:
        loop.call_after(cancel_at + 0.5, cancel)
    try:
        try:
            await body_task
        finally:
            left.append(True)
            if body_raised and not any_cancelled:
                check(loop.time() - body_raised[0] < 1 / 128, 'left the block late after its body raised')
    except CancelledError:
        outcome = 'cancelled'
    except Boom as exception:
        outcome = exception.args[0]
    else:
        outcome = 'ended'
    await sim.settle()
    check(not problems, problems[0] if problems else '')
    ctx.nontrivial(blocked > 0 or any(value == 'cancelled' for value in ended.values()))
    ctx.label('blocked', blocked > 0)
    ctx.label(f'outcome {type(outcome).__name__}')
    # nothing started is left running
    for index in started:
        check(index in ended, f'job {index} was left running')
    if outcome == 'ended' and cancel_at is None:
        check_eq(len(added), len(jobs), 'all added')
        for index, (duration, job_outcome, gap, kind) in enumerate(jobs):
            check(job_outcome != 'raise', f'exception of {index} got lost')
            check_eq(ended.get(index), 'cancelled' if job_outcome == 'cancel' else 'done', f'job {index}')
    elif isinstance(outcome, int):
        check_eq(outcome, first_failure[0], 'propagated exception')
    elif outcome == 'cancelled':
        check(cancel_at is not None, 'cancelled out of nothing')
    elif outcome == 'body':
        check(ending == 'raise', 'raised out of nothing')
    ctx.note = outcome


@C09.case('limit', _executor_strategy, quick = 4000, thorough = 60000, shards = 3)
def run_c09(case, ctx):
    vsim.run(_executor_program, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------

C10 = Property(
    'C10',
    rule = (
        'Case = a tree of up to 30 callbacks; each schedules further ones (call_soon, call_after, call_at, their weak versions), cancels '
        'handles, drops weakly scheduled objects or raises. Non-trivial = at least 2 timers due and something was cancelled / dropped / raised.'
    ),
)


def _timer_strategy():
    action = st.one_of(
        st.tuples(st.sampled_from(['soon', 'after', 'at', 'after_weak', 'at_weak', 'after_weak_method']), st.integers(-1, 6)),
        st.tuples(st.sampled_from(['cancel', 'cancel', 'drop']), st.integers(0, 40)),
        st.tuples(st.just('raise'), st.integers(0, 1)),
    )
    return st.lists(st.lists(action, max_size = 5), min_size = 1, max_size = 12)


class _Target:
    def __init__(self, run, id_):
        self.run_ = run
        self.id_ = id_

    def __call__(self):
        self.run_(self.id_)

    def method(self):
        self.run_(self.id_)


async def _timer_program(sim, case, ctx):
    loop = sim.loop
    base = loop.time()
    handles = []
    expected_at = []
    kinds = []
    targets = []
    ran = {}
    cancelled = set()
    soon_order = []
    soon_ran = []
    order = []
    problems = []
    raised = 0
    scripts = list(case)
    next_script = 1

    def act(actions):
        nonlocal raised
        for name, argument in actions:
            if name == 'raise':
                raised += 1
                raise (Boom if argument else KeyboardInterrupt)('callback')
            if name == 'cancel':
                if handles:
                    index = argument % len(handles)
                    handles[index].cancel()
                    handles[index].cancel()
                    if index not in ran:
                        cancelled.add(index)
                    repr(handles[index])
            elif name == 'drop':
                if handles:
                    index = argument % len(handles)
                    if targets[index] is not None and index not in active:
                        targets[index] = None
                        if index not in ran:
                            cancelled.add(index)
            else:
                index = len(handles)
                if index > 30:
                    continue
                now = loop.time()
                target = None
                if name == 'soon':
                    handle = loop.call_soon(run, index)
                    at = now
                    soon_order.append(index)
                elif name == 'after':
                    handle = loop.call_after(float(argument), run, index)
                    at = now + argument
                elif name == 'at':
                    handle = loop.call_at(base + argument * 2, run, index)
                    at = base + argument * 2
                elif name == 'after_weak':
                    target = _Target(run, index)
                    handle = loop.call_after_weak(float(argument), target)
                    at = now + argument
                elif name == 'at_weak':
                    target = _Target(run, index)
                    handle = loop.call_at_weak(base + argument * 2, target)
                    at = base + argument * 2
                else:
                    target = _Target(run, index)
                    handle = loop.call_after_weak(float(argument), target.method)
                    at = now + argument
                repr(handle)
                handles.append(handle)
                kinds.append(name)
                targets.append(target)
                target = None
                expected_at.append((now, at))

    active = set()

    def run(index):
        nonlocal next_script
        if index in ran:
            problems.append(f'{kinds[index]} ran twice')
        if index in cancelled:
            problems.append(f'{kinds[index]} ran, although it was cancelled / its target was dropped')
        ran[index] = loop.time()
        order.append(index)
        if kinds[index] == 'soon':
            soon_ran.append(index)
        if next_script < len(scripts):
            script = scripts[next_script]
            next_script += 1
            active.add(index)
            try:
                act(script)
            finally:
                active.discard(index)

    try:
        act(scripts[0])
    except (Boom, KeyboardInterrupt):
        pass
    await sim.settle()
    gc_needed = [index for index in range(len(handles)) if index not in ran and index not in cancelled]
    check(not problems, problems[0] if problems else '')
    check(not gc_needed, f'{[kinds[index] for index in gc_needed]} never ran')
    for index, at in ran.items():
        scheduled, when = expected_at[index]
        check_eq(round(at - base, 6), round(max(scheduled, when) - base, 6), f'{kinds[index]} ran at')
    check_eq(soon_ran, [index for index in soon_order if index in ran], 'order of call_soon callbacks')
    timers = [index for index in order if kinds[index] != 'soon']
    for first, second in zip(timers, timers[1:]):
        # both were scheduled when the first ran
        if expected_at[second][0] < ran[first]:
            check(expected_at[first][1] <= expected_at[second][1] + 1e-6, 'timers ran out of order')
    for handle in handles:
        check(not handle.cancelled or handle.func is None, 'cancelled handle keeps its function')
    ctx.nontrivial(len(timers) > 1 and (bool(cancelled) or raised > 0))
    ctx.label('raised', raised > 0)
    ctx.label('cancelled', bool(cancelled))


@C10.case('callbacks', _timer_strategy, quick = 5000, thorough = 80000, shards = 3)
def run_c10(case, ctx):
    vsim.run(_timer_program, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------

C11 = Property(
    'C11',
    rule = (
        'Case = cycle time, functions with priorities and an operation (cancel, reschedule, call_now, set_cycle_time, append, remove, raise) '
        'they do at a given call, and outside operations at given instants. Non-trivial = at least two cycles and one operation done.'
    ),
)


def _cycler_strategy():
    operation = st.one_of(
        st.tuples(st.sampled_from(['cancel', 'reschedule', 'call_now']), st.none()),
        st.tuples(st.just('cycle_time'), st.integers(1, 4)),
        st.tuples(st.sampled_from(['append', 'remove']), st.tuples(st.integers(0, 4), st.integers(-1, 2))),
    )
    function = st.tuples(
        st.integers(-1, 2),                                                     # priority
        st.booleans(),                                                          # async
        st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.one_of(operation, st.just(('raise', None))))),
    )
    outside = st.tuples(st.integers(0, 12), operation)
    return st.tuples(st.integers(1, 4), st.lists(function, max_size = 4), st.lists(outside, max_size = 5))


async def _cycler_program(sim, case, ctx):
    cycle_time, functions, outside = case
    loop = sim.loop
    base = loop.time()
    log = []
    counts = {}
    # model
    m = {'time': cycle_time, 'next': None, 'version': 0}
    m_funcs = []
    m_log = []
    m_counts = {}
    operations = 0
    limit = 40

    made = []

    def make(index):
        spec = functions[index] if index < len(functions) else (0, False, None)

        def sync(cycler):
            counts[index] = count = counts.get(index, -1) + 1
            log.append((loop.time() - base, index))
            if spec[2] is not None and spec[2][0] == count and len(log) < limit:
                apply(cycler, *spec[2][1])

        async def asynchronous(cycler):
            sync(cycler)

        return asynchronous if spec[1] else sync

    def apply(cycler, name, argument):
        if name == 'cancel':
            cycler.cancel()
            check(not cycler.running, 'running after cancel()')
            check(cycler.get_time_till_next_call() == -1.0 and cycler.get_time_of_next_call() == -1.0, 'next call of a cancelled cycler')
        elif name == 'reschedule':
            cycler.reschedule()
        elif name == 'call_now':
            cycler.call_now()
        elif name == 'cycle_time':
            cycler.set_cycle_time(argument)
        elif name == 'append':
            cycler.append(make_cached(argument[0]), argument[1])
        elif name == 'remove':
            cycler.remove(make_cached(argument[0]))
        else:
            raise Boom('cycled')

    cache = {}

    def make_cached(index):
        try:
            return cache[index]
        except KeyError:
            cache[index] = result = make(index)
            return result

    # ---- model -----

    pending_async = []

    def m_apply(name, argument, now):
        nonlocal operations
        operations += 1
        if name == 'cancel':
            m['next'] = None
            m['version'] += 1
        elif name == 'reschedule':
            m['next'] = now + m['time']
            m['version'] += 1
        elif name == 'call_now':
            m_run(now)
        elif name == 'cycle_time':
            m['time'] = argument
        elif name == 'append':
            m_funcs.append((argument[1], argument[0]))
            m_funcs.sort(key = lambda item: item[0])
        elif name == 'remove':
            for position, item in enumerate(m_funcs):
                if item[1] == argument[0]:
                    del m_funcs[position]
                    break

    def m_call(index, now):
        spec = functions[index] if index < len(functions) else (0, False, None)
        m_counts[index] = count = m_counts.get(index, -1) + 1
        m_log.append((float(now), index))
        if spec[2] is not None and spec[2][0] == count and len(m_log) < limit:
            if spec[2][1][0] != 'raise':
                m_apply(*spec[2][1], now)

    def m_run(now):
        m['next'] = now + m['time']
        m['version'] += 1
        version = m['version']
        for priority, index in list(m_funcs):
            spec = functions[index] if index < len(functions) else (0, False, None)
            if spec[1]:
                pending_async.append(index)
            else:
                m_call(index, now)
        if m['version'] == version:
            m['next'] = now + m['time']
            m['version'] += 1

    def m_flush(now):
        while pending_async:
            m_call(pending_async.pop(0), now)

    end = 14
    cycler = Cycler(loop, cycle_time)
    m['next'] = cycle_time
    for index, spec in enumerate(functions):
        cycler.append(make_cached(index), spec[0])
        m_funcs.append((spec[0], index))
    m_funcs.sort(key = lambda item: item[0])
    repr(cycler)

    for position, (at, operation) in enumerate(outside):
        loop.call_at(base + at + 0.25 + position / 64, apply, cycler, *operation)
    loop.call_at(base + end, cycler.cancel)

    # run the model
    events = sorted((at + 0.25 + position / 64, operation) for position, (at, operation) in enumerate(outside))
    events = sorted(((at + 0.25 + position / 64, position, operation) for position, (at, operation) in enumerate(outside)), key = lambda item: item[:2])
    while True:
        times = [end]
        if events:
            times.append(events[0][0])
        if m['next'] is not None:
            times.append(m['next'])
        now = min(times)
        if now >= end:
            break
        if events and events[0][0] == now:
            m_apply(*events.pop(0)[2], now)
        else:
            m_run(now)
        m_flush(now)
        if len(m_log) > 400:
            break

    recorded = len(vsim.RECORDED)
    await sim.settle()
    ours = [(round(at, 6), index) for at, index in log if at < end - 1e-6]
    theirs = [(round(at, 6), index) for at, index in m_log]
    check_eq(ours, theirs, 'calls')
    ctx.nontrivial(len(theirs) > 1 and operations > 0)
    ctx.note = theirs[:10]


@C11.case('cycles', _cycler_strategy, quick = 4000, thorough = 60000, shards = 3)
def run_c11(case, ctx):
    vsim.run(_cycler_program, case, ctx)
