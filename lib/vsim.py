"""
Virtual time for scarletio's event loop.

``import vsim`` before ``scarletio``: scarletio takes ``time.monotonic`` once (as ``LOOP_TIME``), so it is replaced for the
time of the import with a clock owned by the harness. The loop's selector is wrapped: whenever the loop would sleep, the
clock jumps; whenever it would sleep *forever*, nothing can ever happen any more, which makes "it never completes" a
decidable observation instead of a timeout.
"""
import sys, threading, time

from vharness import HarnessError, Violation

_real_monotonic = time.monotonic


class _Clock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        return self.now


CLOCK = _Clock()

if 'scarletio' in sys.modules:
    raise HarnessError('vsim must be imported before scarletio')

time.monotonic = CLOCK
try:
    import scarletio
    import scarletio.core
finally:
    time.monotonic = _real_monotonic

from scarletio import EventThread, Future, Task, CancelledError  # noqa: E402


class SimSelector:
    def __init__(self, inner, sim):
        self._inner = inner
        self._sim = sim

    def __getattr__(self, name):
        return getattr(self._inner, name)

    def select(self, timeout = None):
        sim = self._sim
        sim.polls += 1
        events = self._inner.select(0)
        if events:
            return events
        if timeout is not None:
            if timeout > 0.0:
                if sim.external and sim.external():
                    events = self._inner.select(0.002)
                    if events:
                        return events
                if CLOCK.now + timeout > sim.limit:
                    return self._idle()
                # land on or after the deadline; float rounding must not make the loop spin
                target = CLOCK.now + timeout
                CLOCK.now = target
            return events
        return self._idle()

    def _idle(self):
        sim = self._sim
        # something outside the loop (an executor, a child process, an other thread) may be working yet
        if sim.external and sim.external():
            return self._inner.select(0.005)
        if sim.settlers:
            settlers, sim.settlers = sim.settlers, []
            for future in settlers:
                future.set_result_if_pending(None)
            return []
        sim.idle.set()
        return self._inner.select(0.05 if not sim.finished else None)


class Sim:
    """
    One event loop on virtual time.

    errors: everything scarletio wrote about exceptions it could not deliver (``write_exception_*``), captured.
    """
    def __init__(self, limit = 1e7, external = None):
        CLOCK.now = 1000.0
        self.limit = CLOCK.now + limit
        self.polls = 0
        self.settlers = []
        self.idle = threading.Event()
        self.finished = False
        self.external = external
        self.loop = EventThread(daemon = True)
        self.loop.selector = SimSelector(self.loop.selector, self)

    def now(self):
        return CLOCK.now - 1000.0

    def settle(self):
        """Awaitable finishing when nothing else can happen any more (all the timers elapsed, everyone blocks)."""
        future = Future(self.loop)
        self.settlers.append(future)
        return future

    def run(self, function, *args):
        """
        Runs ``await function(sim, *args)`` in the loop.

        Returns its result / raises its exception. Raises ``Violation`` if it can never end.
        """
        loop = self.loop
        outcome = []
        done = threading.Event()

        async def main():
            try:
                outcome.append((True, await function(self, *args)))
            except BaseException as exception:
                outcome.append((False, exception))
            finally:
                done.set()

        task = loop.create_task_thread_safe(main())
        started = _real_monotonic()
        try:
            while not done.wait(0.0005):
                if self.idle.is_set():
                    self.idle.clear()
                    if done.wait(0.03):
                        break
                    # idle, and after the grace period still idle
                    if self.idle.wait(0.2) and not done.is_set():
                        raise Violation('deadlock: nothing is scheduled any more and the program did not end')
        finally:
            self.finished = True
            self.close()
        success, value = outcome[0]
        if success:
            return value
        raise value

    def close(self):
        loop = self.loop
        self.finished = True
        loop.stop()
        loop.join(5.0)


def run(function, *args, **keyword):
    return Sim(**keyword).run(function, *args)


class StderrCapture:
    """Collects what gets written to stderr while active."""
    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(data)
        return len(data)

    def flush(self):
        pass

    def __enter__(self):
        self.old = sys.stderr
        sys.stderr = self
        return self

    def __exit__(self, *args):
        sys.stderr = self.old
        return False

    @property
    def text(self):
        return ''.join(self.parts)


# What scarletio could not deliver anywhere. Normally it is rendered to stderr on an executor thread.
RECORDED = []


def _record(exception, before = None, after = None, file = None, **keyword):
    RECORDED.append((exception, before if isinstance(before, str) else ''.join(map(str, before or ()))))


async def _record_coroutine():
    return None


class _Done:
    def __await__(self):
        return iter(())


def _record_async(exception, before = None, after = None, file = None, **keyword):
    _record(exception, before)
    return _Done()


REPLACED = []


def install_recorder():
    for name, module in list(sys.modules.items()):
        if name.startswith('scarletio'):
            for attribute, replacement in (
                ('write_exception_async', _record_async),
                ('write_exception_maybe_async', _record_async),
            ):
                original = getattr(module, attribute, None)
                if callable(original) and original is not replacement:
                    REPLACED.append((module, attribute, original))
                    setattr(module, attribute, replacement)


class Unrecorded:
    """The failures are rendered to stderr for real while active."""
    def __enter__(self):
        for module, attribute, original in REPLACED:
            setattr(module, attribute, original)

    def __exit__(self, *args):
        for module, attribute, original in REPLACED:
            setattr(module, attribute, _record_async)
        return False


install_recorder()
