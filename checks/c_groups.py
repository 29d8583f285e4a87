"""C07: Event; C08: TaskGroup."""
import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, Event, Future, TaskGroup, skip_ready_cycle, sleep


class Boom(Exception):
    pass


C07 = Property(
    'C07',
    rule = (
        'Case = up to 16 operations on an Event (set, clear, two ways of waiting, cancelling a waiter, set directly followed by clear / '
        'cancellation in the same instant). Non-trivial = a waiter had to block and got released or cancelled.'
    ),
)


def _event_strategy():
    op = st.one_of(
        st.tuples(st.sampled_from(['set', 'clear', 'wait', 'await', 'wait', 'await', 'set_clear', 'clear_set']), st.none()),
        st.tuples(st.sampled_from(['cancel', 'set_cancel', 'cancel_set']), st.integers(0, 9)),
    )
    return st.lists(st.tuples(op, st.one_of(st.none(), st.integers(0, 2))), min_size = 2, max_size = 16)


async def _event_program(sim, case, ctx):
    loop = sim.loop
    event = Event(loop)
    value = False
    blocked = {}         # id -> state: waiting / released
    records = {}
    tasks = {}
    hit = set()

    async def waiter(id_, how):
        try:
            if how == 'wait':
                result = await event.wait()
            else:
                result = await event
        except BaseException as exception:
            records[id_] = type(exception).__name__
        else:
            records[id_] = 'passed'

    def do_set():
        nonlocal value
        event.set()
        value = True
        for id_ in blocked:
            if blocked[id_] == 'waiting':
                blocked[id_] = 'released'
                ctx.nontrivial()

    def do_cancel(target):
        names = sorted(tasks)
        if not names:
            return
        id_ = names[target % len(names)]
        if not tasks[id_].is_done():
            hit.add(id_)
            ctx.nontrivial()
        tasks[id_].cancel()
        if blocked.get(id_) == 'waiting':
            blocked[id_] = 'cancelled'
        elif blocked.get(id_) == 'released':
            blocked[id_] = 'either'

    for position, ((name, argument), gap) in enumerate(case):
        if gap is not None:
            for _ in range(gap):
                await skip_ready_cycle()
        else:
            await sim.settle()
            for id_, record in records.items():
                pass
        if name == 'set':
            do_set()
        elif name == 'clear':
            event.clear()
            value = False
        elif name == 'set_clear':
            do_set()
            event.clear()
            value = False
        elif name == 'clear_set':
            event.clear()
            value = False
            do_set()
        elif name in ('wait', 'await'):
            tasks[position] = loop.create_task(waiter(position, name))
            # it starts in its own step; the flag may not change until that
            await skip_ready_cycle()
            if value:
                check(position in records, 'waiting a set event blocked')
            else:
                check(position not in records, 'waiting an unset event did not block')
                blocked[position] = 'waiting'
        elif name == 'cancel':
            do_cancel(argument)
        elif name == 'set_cancel':
            do_set()
            do_cancel(argument)
        elif name == 'cancel_set':
            do_cancel(argument)
            do_set()
        check_eq(event.is_set(), value, 'is_set()')
        repr(event)
    await sim.settle()
    for id_ in tasks:
        state = blocked.get(id_, 'released')
        record = records.get(id_)
        if state == 'waiting':
            check(record is None, f'waiter {id_} passed an unset event', record)
        elif state == 'released':
            check_eq(record, 'passed', f'waiter {id_} of a set event')
        elif state == 'cancelled':
            check_eq(record, 'CancelledError', f'cancelled waiter {id_}')
        else:
            check(record in ('passed', 'CancelledError'), f'waiter {id_}', record)
    event.set()
    await sim.settle()
    check(all(task.is_done() for task in tasks.values()), 'a waiter never got released')


@C07.case('model', _event_strategy, quick = 4000, thorough = 60000, shards = 2)
def run_c07(case, ctx):
    vsim.run(_event_program, case, ctx)


# ---------------------------------------------------------------------------------------------------------------------

C08 = Property(
    'C08',
    rule = (
        'Case = 0..6 futures / tasks with outcome (return, raise, cancel, custom cancel), completion and joining instants, '
        '0..5 waiters of the eight kinds created and cancelled at given instants (also in the very callback which completes a '
        'future), pops. Each instant is unique, so a sequential model decides every waiter\'s result and the done / pending sets. '
        'Non-trivial = a waiter had to wait and got its result.'
    ),
)

KINDS = [
    'next', 'first', 'first_and_pop', 'exception', 'exception_and_pop', 'exception_or_cancellation',
    'exception_or_cancellation_and_pop', 'first_n', 'all',
]


def _group_strategy():
    future = st.tuples(
        st.sampled_from(['future', 'task']),
        st.sampled_from(['return', 'return', 'raise', 'cancel', 'custom']),
        st.integers(0, 6),                                             # completes at
        st.one_of(st.none(), st.none(), st.integers(0, 7)),            # joins the group at
        st.one_of(st.none(), st.none(), st.none(), st.integers(0, 4)), # waiter cancelled in the completing callback
    )
    waiter = st.tuples(
        st.sampled_from(KINDS), st.integers(0, 6), st.integers(0, 4), st.one_of(st.none(), st.none(), st.integers(0, 7))
    )
    pops = st.lists(st.tuples(st.integers(0, 7), st.sampled_from(['pop_done', 'exhaust_done'])), max_size = 2)
    return st.tuples(st.lists(future, max_size = 6), st.lists(waiter, min_size = 1, max_size = 5), pops)


class _GroupModel:
    def __init__(self):
        self.pending = set()
        self.done = {}
        self.waiters = {}
        self.results = {}

    @staticmethod
    def matches(kind, outcome):
        if kind.startswith('exception_or_cancellation'):
            return outcome != 'return'
        return outcome in ('raise', 'custom')

    def completed(self, future, outcome, ctx):
        self.pending.discard(future)
        removed = False
        for id_, (kind, count, seen) in list(self.waiters.items()):
            result = None
            finished = False
            if kind == 'next':
                finished = True
                result = 'any'
            elif kind in ('first', 'first_and_pop'):
                finished = True
                result = future
                removed |= kind == 'first_and_pop'
            elif kind.startswith('exception'):
                if self.matches(kind, outcome):
                    finished = True
                    result = future
                    removed |= kind.endswith('_and_pop')
                elif not self.pending:
                    finished = True
            elif kind == 'first_n':
                seen += 1
                self.waiters[id_] = (kind, count, seen)
                if seen >= count:
                    finished = True
                    result = seen
            elif kind == 'all':
                if not self.pending:
                    finished = True
                    result = 'any'
            if finished:
                del self.waiters[id_]
                self.results[id_] = ('return', result)
                ctx.nontrivial()
                ctx.label(f'waited {kind}')
        if not removed:
            self.done[future] = outcome

    def wait(self, id_, kind, count):
        """Returns the candidates if it can be decided only by looking at the real result."""
        if kind == 'next':
            pass
        elif kind in ('first', 'first_and_pop'):
            if self.done:
                return set(self.done)
            if not self.pending:
                self.results[id_] = ('return', None)
                return None
        elif kind.startswith('exception'):
            matching = {future for future, outcome in self.done.items() if self.matches(kind, outcome)}
            if matching:
                return matching
            if not self.pending:
                self.results[id_] = ('return', None)
                return None
        elif kind == 'first_n':
            if len(self.done) >= count:
                self.results[id_] = ('return', len(self.done))
                return None
        elif kind == 'all':
            if not self.pending:
                self.results[id_] = ('return', 'any')
                return None
        self.waiters[id_] = (kind, count, len(self.done))
        return None


async def _group_program(sim, case, ctx):
    futures, waiters, pops = case
    loop = sim.loop
    model = _GroupModel()
    problems = []
    objects = []
    names = {}
    gates = []

    async def body(gate):
        return await gate

    for index, (kind, outcome, at, join, kill) in enumerate(futures):
        gate = Future(loop)
        gates.append(gate)
        if kind == 'future':
            objects.append(gate)
        else:
            objects.append(loop.create_task(body(gate)))
        names[objects[-1]] = f'f{index}'
    await sim.settle()
    initial = [index for index, (kind, outcome, at, join, kill) in enumerate(futures) if join is None]
    group = TaskGroup(loop, [objects[index] for index in initial])
    joined = set(initial)
    for index in initial:
        model.pending.add(f'f{index}')
    real_waiters = {}
    observed = {}
    finished = set()

    async def watch(id_, waiter):
        try:
            value = await waiter
        except CancelledError:
            observed[id_] = ('cancelled',)
        except BaseException as exception:
            observed[id_] = ('raise', repr(exception))
        else:
            observed[id_] = ('return', names.get(value, value))

    def complete(index):
        kind, outcome, at, join, kill = futures[index]
        if kill is not None and kill in real_waiters:
            waiter = real_waiters[kill]
            if waiter.is_pending():
                waiter.cancel()
                model.waiters.pop(kill, None)
                model.results.setdefault(kill, ('cancelled',))
                ctx.label('waiter cancelled at completion')
        if outcome == 'return':
            gates[index].set_result(index)
        elif outcome == 'raise':
            gates[index].set_exception(Boom(index))
        elif outcome == 'cancel':
            objects[index].cancel()
        else:
            objects[index].cancel_with(Boom(index))
        finished.add(index)
        if index in joined:
            model.completed(f'f{index}', outcome, ctx)

    def join_group(index):
        # joining with a different method each
        future = objects[index]
        method = (group.add_future, group.add_task, group.add_awaitable)[index % 3]
        returned = method(future)
        if returned is not future:
            problems.append(f'{method.__name__}() returned something else')
        joined.add(index)
        if index in finished:
            model.completed(f'f{index}', futures[index][1], ctx)
        else:
            model.pending.add(f'f{index}')

    def create_waiter(id_):
        kind, at, count, cancel_at = waiters[id_]
        candidates = model.wait(id_, kind, count)
        method = getattr(group, f'wait_{kind}')
        waiter = method(count) if kind == 'first_n' else method()
        if candidates is not None:
            if not waiter.is_done():
                problems.append(f'wait_{kind}() has something done already, but waits')
                return
            name = names.get(waiter.get_result())
            if name not in candidates:
                problems.append(f'wait_{kind}() gave {name}, can be any of {sorted(candidates)}')
                return
            model.results[id_] = ('return', name)
            if kind.endswith('_and_pop'):
                model.done.pop(name)
        real_waiters[id_] = waiter
        loop.create_task(watch(id_, waiter))

    def cancel_waiter(id_):
        waiter = real_waiters.get(id_)
        if waiter is not None and waiter.is_pending():
            waiter.cancel()
            model.waiters.pop(id_, None)
            model.results.setdefault(id_, ('cancelled',))
            ctx.label('waiter cancelled')

    def pop(how):
        if how == 'pop_done':
            future = group.pop_done()
            if future is None:
                if model.done:
                    problems.append('pop_done() gave nothing, while there are done futures')
            elif names[future] not in model.done:
                problems.append(f'pop_done() gave {names[future]}, done are {sorted(model.done)}')
            else:
                del model.done[names[future]]
        else:
            popped = sorted(names[future] for future in group.exhaust_done())
            if popped != sorted(model.done):
                problems.append(f'exhaust_done() gave {popped}, expected {sorted(model.done)}')
            model.done.clear()

    def observe():
        done = sorted(names[future] for future in group.done)
        pending = sorted(names[future] for future in group.pending)
        if done != sorted(model.done) or pending != sorted(model.pending):
            problems.append(
                f'at {loop.time() - base}: done = {done}, pending = {pending}; '
                f'expected: done = {sorted(model.done)}, pending = {sorted(model.pending)}'
            )
        if group.has_done() != bool(model.done) or group.has_pending() != bool(model.pending):
            problems.append('has_done() / has_pending() is wrong')
        if sorted(names[future] for future in group.iter_futures()) != sorted([*model.done, *model.pending]):
            problems.append('iter_futures() is wrong')
        repr(group)

    base = loop.time()
    step = 1 / 64
    for index, (kind, outcome, at, join, kill) in enumerate(futures):
        loop.call_at(base + at + (index + 1) * step, complete, index)
        if join is not None:
            loop.call_at(base + join + (index + 10) * step, join_group, index)
    for id_, (kind, at, count, cancel_at) in enumerate(waiters):
        loop.call_at(base + at + (id_ + 20) * step, create_waiter, id_)
        if cancel_at is not None:
            loop.call_at(base + cancel_at + (id_ + 30) * step, cancel_waiter, id_)
    for index, (at, how) in enumerate(pops):
        loop.call_at(base + at + (index + 40) * step, pop, how)
    for instant in range(9):
        loop.call_at(base + instant + 0.9, observe)
    await sim.settle()
    check(not problems, problems[0] if problems else '')
    for id_ in range(len(waiters)):
        expected = model.results.get(id_)
        got = observed.get(id_)
        kind = waiters[id_][0]
        if expected is None:
            check(got is None, f'wait_{kind} should be still waiting', got)
        elif expected == ('return', 'any'):
            check(got is not None and got[0] == 'return', f'wait_{kind} was to finish', got)
        else:
            check_eq(got, expected, f'result of wait_{kind}')
    for future in objects:
        future.silence()
    ctx.note = {waiters[i][0]: observed.get(i) for i in range(len(waiters))}


@C08.case(
    'waiters', _group_strategy, quick = 6000, thorough = 80000, shards = 4,
    fixed = [([('future', 'return', 1, None, 0)], [('first_and_pop', 0, 0, None)], [])],
)
def run_c08(case, ctx):
    vsim.run(_group_program, case, ctx)


def _exhaust_strategy():
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(['future', 'task', 'coroutine']), st.integers(0, 5), st.sampled_from(['return', 'raise', 'cancel'])), max_size = 7),
        st.lists(st.integers(1, 3), max_size = 3),          # further tasks created while iterating
        st.integers(0, 3),                                  # time spent with each item
        st.one_of(st.none(), st.integers(0, 4)),            # the context fails after this many items
    )


async def _exhaust_program(sim, case, ctx):
    specs, further, spend, fail_after = case
    loop = sim.loop
    group = TaskGroup(loop)
    order = []
    everything = []

    async def work(index, at, outcome):
        await sleep(at + (index + 1) / 64, loop)
        if outcome == 'raise':
            raise Boom(index)
        if outcome == 'cancel':
            raise CancelledError
        return index

    def finished(future):
        order.append(future)

    def register(future):
        everything.append(future)
        future.add_done_callback(finished)

    for index, (kind, at, outcome) in enumerate(specs):
        if kind == 'future':
            future = group.create_future()
            action = {'return': lambda f, i: f.set_result(i), 'raise': lambda f, i: f.set_exception(Boom(i)), 'cancel': lambda f, i: f.cancel()}[outcome]
            loop.call_after(at + (index + 1) / 64, action, future, index)
        elif kind == 'task':
            future = group.create_task(work(index, float(at), outcome))
        else:
            future = group.add_awaitable(work(index, float(at), outcome))
        register(future)
    got = []
    failed = False
    remaining = list(further)
    try:
        with group.cancel_on_exception():
            async for future in group.exhaust():
                got.append(future)
                check(future.is_done(), 'exhaust() gave a pending future')
                if remaining:
                    register(group.create_task(work(20 + len(remaining), float(remaining.pop()), 'return')))
                if spend:
                    await sleep(float(spend), loop)
                if fail_after is not None and len(got) > fail_after:
                    raise Boom('context')
    except Boom:
        failed = True
    await sim.settle()
    ctx.nontrivial(len(got) > 1)
    ctx.label('failed', failed)
    check(len(set(got)) == len(got), 'exhaust() gave a future twice')
    if failed:
        for future in everything:
            check(future.is_done(), 'a future of the group is not cancelled after the context failed')
    else:
        check(set(got) == set(everything), f'exhaust() gave {len(got)} futures of {len(everything)}')
        check(not group.has_done() and not group.has_pending(), 'the group is not empty after exhausting it')
        # The done futures are an unordered set, so the order is defined only when each completion has its own instant and the
        # consumer takes them as they come. Coroutines joining may be already late, so they are not compared either.
        if (not spend) and (not further):
            check([id(f) for f in got] == [id(f) for f in order], 'exhaust() did not follow the completion order')
    for future in everything:
        future.silence()


@C08.case('exhaust', _exhaust_strategy, quick = 2000, thorough = 30000, shards = 2)
def run_c08_exhaust(case, ctx):
    vsim.run(_exhaust_program, case, ctx)
