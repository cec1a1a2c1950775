"""asyncio in the simulated world: an event loop using the virtual clock"""

import asyncio
import selectors

from . import seams


class SimSelector(selectors.SelectSelector):
    """Only the self-pipe of the loop is registered: wait with the virtual clock"""

    strand = None
    woken = False

    def select(self, timeout=None):
        k = seams.K
        me = k.current
        self.strand = me
        if not self.woken and (timeout is None or timeout > 0):
            k.yield_point("asyncio", None, delay=False)
            k.block(None if timeout is None else timeout)
        self.woken = False
        return []

    def wake(self):
        self.woken = True
        strand = self.strand
        if strand is not None and seams.K is strand.kernel:
            strand.kernel.wake(strand)


class SimEventLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._sim_selector = SimSelector()
        super().__init__(self._sim_selector)

    def time(self):
        return 1000.0 + seams.K.now

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()
        try:
            future.set_result(func(*args))
        except Exception as error:
            future.set_exception(error)
        return future

    def _write_to_self(self):
        self._sim_selector.wake()


def run(coro):
    """Run a coroutine in the current strand"""
    loop = SimEventLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        try:
            tasks = asyncio.all_tasks(loop)
            for task in tasks:
                task.cancel()
            if tasks:
                loop.run_until_complete(
                    asyncio.gather(*tasks, return_exceptions=True)
                )
        finally:
            asyncio.set_event_loop(None)
            loop.close()
