"""C06: AsyncQueue / AsyncLifoQueue."""
import vsim
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import AsyncLifoQueue, AsyncQueue, CancelledError, skip_ready_cycle, sleep

C06 = Property(
    'C06',
    rule = (
        'Case = queue kind, initial elements, max length, and up to 16 operations (set_result, set_result_wait, '
        'four ways of getting, cancelling an earlier blocked operation, set_exception, clear, reverse). Each '
        'operation has a flag telling whether the loop settles before it or it lands in the same instant (0..3 ready cycles later). '
        'Settled runs are compared to an exact model, racing ones with conservation / bound / liveness invariants. '
        'Non-trivial = an operation had to wait.'
    ),
)


class Stop(Exception):
    pass


def _strategy():
    op = st.one_of(
        st.tuples(st.sampled_from(['put', 'put_wait', 'put_wait']), st.none()),
        st.tuples(st.sampled_from(['get', 'await', 'anext', 'get_no_wait', 'get', 'anext']), st.none()),
        st.tuples(st.just('cancel'), st.integers(0, 15)),
        st.tuples(st.just('cancel'), st.integers(0, 15)),
        st.tuples(st.sampled_from(['put', 'get', 'put_wait', 'await']), st.none()),
        st.tuples(st.sampled_from(['put', 'get', 'put_wait', 'anext']), st.none()),
        st.tuples(st.sampled_from(['put', 'get_no_wait', 'put_wait', 'await']), st.none()),
        st.tuples(st.just('misc'), st.sampled_from(['clear', 'reverse', 'copy', 'clear', 'stop', 'cancelled'])),
    )
    gap = st.sampled_from([None, None, 0, 0, 0, 1, 2, 3])
    return st.tuples(
        st.sampled_from(['fifo', 'lifo']),
        st.sampled_from([0, 0, 1, 2, 3]),
        st.one_of(st.none(), st.integers(1, 3)),
        st.sampled_from([False, False, True]),                                         # all settled?
        st.lists(st.tuples(op, gap), min_size = 4, max_size = 16),
    )


class Model:
    def __init__(self, kind, items, max_length):
        self.kind = kind
        if max_length is not None:
            items = items[max(0, len(items) - max_length):]
        self.items = list(items)
        self.max_length = max_length
        self.getters = []
        self.putters = []
        self.exception = None
        self.results = {}

    def room(self):
        return self.max_length is None or len(self.items) < self.max_length

    def fill(self):
        while self.putters and self.room():
            id_, element = self.putters.pop(0)
            self.items.append(element)
            self.results[id_] = ('return', 2)

    def pop(self):
        element = self.items.pop(0 if self.kind == 'fifo' else -1)
        self.fill()
        return element

    def put(self, id_, element, wait):
        if self.getters:
            getter, name = self.getters.pop(0)
            self.results[getter] = ('return', element)
            self.results[id_] = ('return', 0)
        elif self.room():
            self.items.append(element)
            self.results[id_] = ('return', 0)
        elif wait:
            self.putters.append((id_, element))
        else:
            self.results[id_] = ('return', 1)

    def fail(self, name):
        if name == 'anext' and self.exception is CancelledError:
            return ('raise', 'StopAsyncIteration')
        return ('raise', self.exception.__name__)

    def get(self, id_, name):
        if self.items:
            self.results[id_] = ('return', self.pop())
        elif self.exception is not None:
            self.results[id_] = self.fail(name)
        elif name == 'get_no_wait':
            self.results[id_] = ('raise', 'IndexError')
        else:
            self.getters.append((id_, name))

    def set_exception(self, exception):
        self.exception = exception
        for id_, name in self.getters:
            self.results[id_] = self.fail(name)
        self.getters.clear()
        for id_, element in self.putters:
            self.results[id_] = ('return', 1)
        self.putters.clear()

    def cancel(self, id_):
        for waiting in (self.getters, self.putters):
            for item in waiting:
                if item[0] == id_:
                    waiting.remove(item)
                    self.results[id_] = ('raise', 'CancelledError')
                    return


async def _program(sim, case, ctx):
    kind, initial, max_length, settled, ops = case
    loop = sim.loop
    items = [f'i{i}' for i in range(initial)]
    queue = (AsyncQueue if kind == 'fifo' else AsyncLifoQueue)(loop, items, max_length)
    model = Model(kind, items, max_length)
    check_eq(queue.max_length, max_length, 'max_length')
    results = {}
    tasks = {}
    got = []
    accepted = list(model.items)
    maybe = []
    cleared = False
    removed = []
    hit = set()
    raced = False
    exceptions = set()
    blocking = {}
    started = set()
    released = set()

    async def operation(id_, name):
        started.add(id_)
        try:
            if name == 'put':
                value = queue.set_result(id_)
            elif name == 'put_wait':
                value = await queue.set_result_wait(id_)
            elif name == 'get':
                value = await queue.get_result()
            elif name == 'await':
                value = await queue
            elif name == 'anext':
                value = await queue.__anext__()
            elif name == 'get_no_wait':
                value = queue.get_result_no_wait()
        except BaseException as exception:
            results[id_] = ('raise', type(exception).__name__)
            if name == 'put_wait':
                maybe.append(id_)
            raise
        else:
            results[id_] = ('return', value)
            if name in ('put', 'put_wait'):
                if value in (0, 2):
                    accepted.append(id_)
            else:
                got.append(value)

    for position, ((name, value), gap) in enumerate(ops):
        if settled or gap is None:
            await sim.settle()
        else:
            raced = True
            for _ in range(gap):
                await skip_ready_cycle()
        id_ = position
        if name == 'cancel':
            if not tasks:
                continue
            target = sorted(tasks)[value % len(tasks)]
            if not tasks[target].is_done():
                hit.add(target)
                ctx.label('cancel')
            tasks[target].cancel()
            model.cancel(target)
        elif name == 'misc':
            ctx.label(value)
            if value == 'clear':
                before = len(queue)
                removed.append(before)
                cleared = True
                queue.clear()
                model.items.clear()
                model.fill()
            elif value == 'reverse':
                queue.reverse()
                model.items.reverse()
            elif value == 'stop':
                released.update(started)
                exceptions.add(Stop)
                queue.set_exception(Stop if len(results) % 2 else Stop())
                model.set_exception(Stop)
            elif value == 'cancelled':
                released.update(started)
                exceptions.add(CancelledError)
                queue.set_exception(CancelledError if len(results) % 2 else CancelledError())
                model.set_exception(CancelledError)
            elif value == 'copy':
                copy = queue.copy()
                check_eq(len(copy), len(queue), 'length of the copy')
                check_eq(copy.max_length, max_length, 'max_length of the copy')
                if not raced:
                    drained = []
                    while len(copy):
                        drained.append(copy.get_result_no_wait())
                    check_eq(drained, model.items if kind == 'fifo' else model.items[::-1], 'elements of the copy')
        else:
            if name in ('put', 'get_no_wait'):
                # These never block: done right now, before those interrupted at this instant could run.
                try:
                    operation(id_, name).send(None)
                except StopIteration:
                    pass
                except (IndexError, CancelledError, Stop) as exception:
                    check(name == 'get_no_wait', 'put raised', exception)
            else:
                tasks[id_] = loop.create_task(operation(id_, name))
            if name in ('put', 'put_wait'):
                model.put(id_, id_, name == 'put_wait')
            else:
                model.get(id_, name)
            blocking[id_] = name
        if settled or gap is None:
            await sim.settle()
        if not raced:
            check_eq(results, model.results, f'results after operation {position} ({name})')
            check_eq(len(queue), len(model.items), f'length after operation {position} ({name})')
        if max_length is not None and len(queue) > max_length and not hit:
            raise Violation(f'{len(queue)} elements on a queue with max length {max_length}')
        repr(queue)

    await sim.settle()
    pending = sorted(id_ for id_, task in tasks.items() if not task.is_done())
    ctx.nontrivial(bool(hit or pending or any(r == ('return', 2) for r in results.values())))
    ctx.label('raced', raced)
    ctx.note = results
    # liveness: who is still blocked
    for id_ in pending:
        if id_ in hit:
            raise Violation(f'operation {id_} ({blocking[id_]}) was cancelled, but still waits')
        if blocking[id_] == 'put_wait':
            if max_length is None or len(queue) < max_length:
                raise Violation(f'producer {id_} is blocked, but there is space: {queue!r}')
            if id_ in released:
                raise Violation(f'producer {id_} is blocked, after an exception was set to the queue')
        else:
            if len(queue):
                raise Violation(f'consumer {id_} is blocked, but there are elements: {queue!r}')
            if model.exception is not None:
                raise Violation(f'consumer {id_} is blocked, but an exception is set')
    for id_, result in results.items():
        if result == ('raise', 'CancelledError') and id_ not in hit and CancelledError not in exceptions:
            raise Violation(f'operation {id_} ({blocking[id_]}) was not cancelled, but got CancelledError')
        if result[0] == 'raise' and id_ in hit and result[1] == 'StopAsyncIteration' and CancelledError not in exceptions:
            raise Violation(f'the cancellation of operation {id_} got swallowed')
    # conservation
    rest = []
    while len(queue):
        rest.append(queue.get_result_no_wait())
        await sim.settle()
    everything = got + rest
    duplicates = sorted({str(e) for e in everything if everything.count(e) > 1})
    check(not duplicates, 'elements were delivered more than once', duplicates)
    missing = [e for e in accepted if e not in everything]
    if not cleared:
        check(not missing, 'elements were lost', missing)
    else:
        check(len(missing) <= sum(removed) + len(hit), 'elements were lost', missing)
    extra = [e for e in everything if e not in accepted and e not in maybe]
    check(not extra, 'elements were delivered, but their putting was refused', extra)
    if not raced:
        expected = list(model.items) + [element for id_, element in model.putters]
        if model.putters and kind == 'lifo':
            return
        check_eq(rest, expected if kind == 'fifo' else expected[::-1], 'order of the remaining elements')


_FIXED = [
    (kind, 0, max_length, False, [*((('get', None), None) for _ in range(count)), (('cancel', 0), 0), *((('put', None), 0) for _ in range(puts))])
    for kind in ('fifo', 'lifo') for max_length in (None, 1) for count in (2, 3) for puts in (1, 2)
]


@C06.case('model', _strategy, quick = 7000, thorough = 100000, shards = 4, fixed = _FIXED)
def run_c06(case, ctx):
    vsim.run(_program, case, ctx)
