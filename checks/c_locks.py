"""C05: Lock / ScarletLock; C07: Event."""
import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, Event, Lock, ScarletLock, sleep, skip_ready_cycle

C05 = Property(
    'C05',
    rule = (
        'Case = lock size, 1..7 acquirer programs (start instant, hold time, acquiring style, optional cancellation / '
        'timeout instant, ready-cycle jitter) and 0..2 `await lock` watchers, ran on virtual time. '
        'Non-trivial = at least one acquirer had to wait.'
    ),
    assumptions = ['lock used from one event loop (it is not thread safe by documentation)'],
)

_instant = st.integers(0, 6)


def _strategy():
    acquirer = st.tuples(
        _instant,                                              # start
        st.integers(0, 4),                                     # hold
        st.sampled_from(['with', 'acquire', 'raise']),         # style
        st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['cancel', 'timeout', 'cancel_with']), st.integers(0, 12))),
        st.integers(0, 3),                                     # jitter (ready cycles before the acquire / cancel)
    )
    watcher = st.tuples(_instant, st.one_of(st.none(), st.none(), st.integers(0, 12)))
    return st.tuples(
        st.one_of(st.none(), st.integers(1, 3)),               # None -> Lock
        st.lists(acquirer, min_size = 1, max_size = 7),
        st.lists(watcher, max_size = 2),
    )


class _Failure(Exception):
    pass


async def _lock_program(sim, case, ctx):
    size, acquirers, watchers = case
    loop = sim.loop
    if size is None:
        lock = Lock(loop)
        size = 1
        is_plain = True
    else:
        lock = ScarletLock(loop, size)
        is_plain = False

    holders = set()
    waiting = []          # arrival order of requesters not yet granted
    hit = set()           # tasks the harness cancelled
    problems = []
    overtaken = []

    def request(name):
        waiting.append(name)
        if len(holders) + len(waiting) > size:
            ctx.nontrivial()

    def granted(name):
        # With one slot nobody may overtake. With more, two requesters resumed in one instant are both granted already,
        # their order is decided at the end of the instant (see `observe`).
        index = waiting.index(name)
        if size == 1:
            for earlier in waiting[:index]:
                if earlier not in hit:
                    problems.append(f'{name} was granted before the earlier waiting {earlier}')
        overtaken.extend((name, earlier) for earlier in waiting[:index])
        waiting.remove(name)
        holders.add(name)
        if len(holders) > size:
            problems.append(f'{len(holders)} holders at once, size is {size}')

    async def acquirer(name, hold, style, jitter):
        for _ in range(jitter):
            await skip_ready_cycle()
        request(name)
        entered = False
        try:
            if style == 'with' or style == 'raise':
                async with lock:
                    entered = True
                    granted(name)
                    try:
                        if hold:
                            await sleep(float(hold), loop)
                        if style == 'raise':
                            raise _Failure
                    finally:
                        holders.discard(name)
            else:
                await lock.acquire()
                entered = True
                granted(name)
                try:
                    if hold:
                        await sleep(float(hold), loop)
                finally:
                    holders.discard(name)
                    lock.release()
        except _Failure:
            pass
        finally:
            if not entered:
                waiting.remove(name)

    async def watcher(name):
        await lock
        if holders:
            problems.append(f'awaiting the lock finished while it was held by {holders!r}')

    tasks = {}

    def start(name, *args):
        tasks[name] = loop.create_task(acquirer(name, *args))

    def start_watcher(name):
        tasks[name] = loop.create_task(watcher(name))

    def hit_task(name, how):
        task = tasks.get(name)
        if task is None or task.is_done():
            return
        hit.add(name)
        if how == 'cancel':
            task.cancel()
        elif how == 'cancel_with':
            task.cancel_with(_Failure())
        else:
            task.apply_timeout(0.0)

    def observe():
        # everything of this instant ran
        live_waiting = [name for name in waiting if name not in hit]
        for name, earlier in overtaken:
            if earlier in live_waiting:
                problems.append(f'{name} was granted before the earlier waiting {earlier}')
        overtaken.clear()
        if live_waiting and len(holders) < size:
            problems.append(f'{live_waiting} are waiting, while only {len(holders)} of {size} slots are used')
        total = len(holders) + len(waiting)
        if is_plain:
            expected = bool(total)
        else:
            expected = total >= size
            if lock.get_acquired() != min(total, size):
                problems.append(f'get_acquired() = {lock.get_acquired()}, model: {min(total, size)}')
            if lock.get_waiting() != max(total - size, 0):
                problems.append(f'get_waiting() = {lock.get_waiting()}, model: {max(total - size, 0)}')
            if lock.get_size() != size:
                problems.append(f'get_size() = {lock.get_size()}')
        if lock.is_locked() != expected:
            problems.append(f'is_locked() = {lock.is_locked()}, model: {expected}')
        repr(lock)

    base = loop.time()
    for index, (start_at, hold, style, interruption, jitter) in enumerate(acquirers):
        name = f'a{index}'
        loop.call_at(base + start_at, start, name, hold, style, jitter)
        if interruption is not None:
            how, at = interruption

            def later(name = name, how = how, jitter = jitter):
                if jitter:
                    loop.call_soon(hit_task, name, how)
                else:
                    hit_task(name, how)

            loop.call_at(base + at, later)
            ctx.label('interrupted')
    for index, (start_at, cancel_at) in enumerate(watchers):
        name = f'w{index}'
        loop.call_at(base + start_at, start_watcher, name)
        if cancel_at is not None:
            loop.call_at(base + cancel_at, hit_task, name, 'cancel')
    for instant in range(45):
        loop.call_at(base + instant + 0.5, observe)

    await sim.settle()

    for name, task in sorted(tasks.items()):
        if not task.is_done():
            problems.append(f'{name} never finished (stuck waiting for the lock)')
            continue
        if name in hit:
            continue
        exception = None if task.is_cancelled() else task.get_exception()
        if task.is_cancelled() or exception is not None:
            problems.append(f'{name} was not interrupted, but ended with {exception!r}, {task!r}')
    for name in hit:
        if tasks[name].is_done():
            tasks[name].get_exception()
    if not problems and lock.is_locked():
        problems.append('everyone left, but the lock is locked')
    if problems:
        raise Violation('; '.join(problems[:3]))
    # the lock is usable after
    task = loop.create_task(acquirer('late', 0, 'with', 0))
    await sim.settle()
    check(task.is_done(), 'the lock cannot be acquired after everyone left it')


@C05.case(
    'program', _strategy, quick = 3500, thorough = 60000, shards = 4,
    fixed = [
        # cancelled in the same instant as the slot is passed to it
        (None, [(0, 1, 'with', None, 0), (0, 1, 'with', ('cancel', 1), 0), (0, 1, 'with', None, 0)], []),
        (None, [(0, 1, 'with', None, 0), (0, 1, 'with', ('cancel', 1), 1), (0, 1, 'with', None, 0)], []),
        (None, [(0, 2, 'with', None, 0), (1, 1, 'with', None, 0)], [(0, 1)]),
    ],
)
def run_lock(case, ctx):
    vsim.run(_lock_program, case, ctx)
