"""C14: asynchronous generators."""
import vsim
import gc
from vharness import Property, Violation, check, check_eq
from hypothesis import strategies as st

from scarletio import CancelledError, Task, skip_ready_cycle, sleep


class Boom(Exception):
    pass


C14 = Property(
    'C14',
    rule = (
        'Case = 1..3 asynchronous generators (length, cycles / sleep while finalizing, raising while finalizing) and up to 16 operations on them (advance, close, drop the last reference, '
        'drop it as part of a reference cycle, let time pass, shut the generators down), Non-trivial = a generator was left suspended and then dropped or shut down.'
    ),
    assumptions = ['virtual time, CPython reference counting'],
)


def _strategy():
    generator = st.tuples(st.sampled_from([0, 1, 2, 2, 3]), st.integers(0, 2), st.integers(0, 2), st.sampled_from([False, False, True]))
    operation = st.one_of(
        st.tuples(st.sampled_from(['advance', 'advance', 'advance', 'close', 'drop', 'drop_cycle', 'iterate']), st.integers(0, 2)),
        st.tuples(st.just('pass'), st.integers(0, 2)),
        st.tuples(st.sampled_from(['pass', 'shutdown']), st.just(0)),
    )
    return st.tuples(st.lists(generator, min_size = 1, max_size = 3), st.lists(operation, min_size = 2, max_size = 16), st.booleans())


class Holder:
    pass


async def _program(sim, case, ctx):
    specs, operations, end_with_shutdown = case
    loop = sim.loop
    log = []

    def make(index):
        length, cycles, duration, raises = specs[index]

        async def generate():
            log.append(('enter', index))
            try:
                for item in range(length):
                    await skip_ready_cycle()
                    yield item
            finally:
                log.append(('closing', index))
                for _ in range(cycles):
                    await skip_ready_cycle()
                if duration:
                    await sleep(duration, loop)
                log.append(('closed', index))
                if raises:
                    raise Boom(index)

        return generate()

    generators = [make(index) for index in range(len(specs))]
    state = ['created' for _ in specs]        # created, suspended, finished
    position = [0 for _ in specs]
    shut_down = False
    unmanaged = set()           # first iterated after the shutdown

    def count(kind, index):
        return sum(1 for item in log if item == (kind, index))

    async def shut():
        # returns the generators whose failure got reported
        before = len(vsim.RECORDED)
        await loop.shutdown_async_generators()
        return sorted(exception.args[0] for exception, text in vsim.RECORDED[before:] if isinstance(exception, Boom))

    async def advance(index):
        length, cycles, duration, raises = specs[index]
        generator = generators[index]
        if state[index] == 'created' and shut_down:
            unmanaged.add(index)
        try:
            got = ('item', await generator.__anext__())
        except StopAsyncIteration:
            got = ('stop',)
        except Boom:
            got = ('boom',)
        if state[index] == 'finished':
            expected = ('stop',)
        elif position[index] < length:
            expected = ('item', position[index])
            position[index] += 1
            state[index] = 'suspended'
        else:
            expected = ('boom',) if raises else ('stop',)
            state[index] = 'finished'
        check_eq(got, expected, 'advanced generator')
        return got[0] == 'item'

    for name, argument in operations:
        index = argument % len(specs)
        if name == 'pass':
            await sleep(argument + 0.001, loop)
        elif name == 'shutdown':
            failing = [
                index_ for index_, item in enumerate(state)
                if item == 'suspended' and generators[index_] is not None and index_ not in unmanaged and specs[index_][3]
            ]
            reported = [item for item in await shut() if state[item] != 'dropped']
            check_eq(reported, failing, 'failures of generators reported by shutdown_async_generators()')
            for index_, item in enumerate(state):
                if item == 'suspended' and generators[index_] is not None and index_ not in unmanaged:
                    ctx.nontrivial()
                    state[index_] = 'finished'
                    check_eq(count('closed', index_), 1, 'finalized by shutdown_async_generators()')
            shut_down = True
        elif generators[index] is None:
            continue
        elif name == 'advance':
            await advance(index)
        elif name == 'iterate':
            while await advance(index):
                pass
        elif name == 'close':
            try:
                await generators[index].aclose()
            except Boom:
                check(state[index] == 'suspended' and specs[index][3], 'aclose() raised')
            if state[index] == 'suspended':
                state[index] = 'finished'
                check_eq(count('closed', index), 1, 'finalized by aclose()')
            elif state[index] == 'created':
                state[index] = 'finished'
        elif name in ('drop', 'drop_cycle'):
            if name == 'drop_cycle':
                holder = Holder()
                holder.holder = holder
                holder.generator = generators[index]
                generators[index] = None
                del holder
                gc.collect()
            else:
                generators[index] = None
            if state[index] == 'suspended':
                ctx.nontrivial()
                state[index] = 'dropped'
        # nothing is closed behind our back
        for index_, item in enumerate(state):
            if item == 'suspended':
                check_eq(count('closing', index_), 0, 'generator closed while used')

    await sleep(10.0, loop)
    for index, item in enumerate(state):
        if item == 'dropped':
            check_eq((count('closing', index), count('closed', index)), (1, 1), 'finalization of a dropped generator')
    if end_with_shutdown and not shut_down:
        failing = [index for index, item in enumerate(state) if item == 'suspended' and specs[index][3]]
        check_eq(await shut(), failing, 'failures of generators reported by shutdown_async_generators()')
        for index, item in enumerate(state):
            if item == 'suspended':
                ctx.nontrivial()
                check_eq((count('closing', index), count('closed', index)), (1, 1), 'finalization by shutdown_async_generators()')
            elif item == 'created' and generators[index] is not None:
                check_eq((count('enter', index), count('closed', index)), (0, 0), 'shutdown touched a never started generator')
    for index in range(len(specs)):
        check(count('closed', index) <= 1, 'finalized more times')
    ctx.note = state
    generators.clear()
    await sleep(10.0, loop)


@C14.case('generators', _strategy, quick = 3000, thorough = 50000, shards = 3)
def run_c14(case, ctx):
    with vsim.StderrCapture():
        vsim.run(_program, case, ctx)
