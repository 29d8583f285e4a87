"""
Virtual time for the standard library's asyncio: the independent implementation programs are compared against.
"""
import asyncio, selectors


class Deadlock(Exception):
    pass


class _Selector:
    def __init__(self, inner, loop):
        self._inner = inner
        self._loop = loop

    def __getattr__(self, name):
        return getattr(self._inner, name)

    def select(self, timeout = None):
        events = self._inner.select(0)
        if events:
            return events
        loop = self._loop
        if timeout is None:
            settlers, loop.settlers = loop.settlers, []
            if not settlers:
                raise Deadlock
            for future in settlers:
                if not future.done():
                    future.set_result(None)
        elif timeout > 0:
            # asyncio's BaseEventLoop clamps the timeout to a day
            loop.now += timeout
        return events


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        self.settlers = []
        super().__init__(selectors.DefaultSelector())
        self._selector = _Selector(self._selector, self)
        self.set_exception_handler(lambda loop, context: None)
        self._clock_resolution = 1e-9

    def time(self):
        return self.now

    def settle(self):
        future = self.create_future()
        self.settlers.append(future)
        return future


def run(function, *args):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(function(loop, *args))
    finally:
        try:
            for task in asyncio.all_tasks(loop):
                task._log_destroy_pending = False
                task.cancel()
        finally:
            asyncio.set_event_loop(None)
            loop.close()
