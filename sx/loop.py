"""A deterministic asyncio event loop with virtual time (no z3 here: also used by the replay).

It is asyncio's own BaseEventLoop (ready queue, timers, call_soon order, task and handle code are
the standard library's); only the selector is replaced: there is no I/O, timers fire by advancing a
virtual clock, an idle loop without timers is a deadlock and is reported as such, and the number of
iterations is bounded so that a livelock is reported too.
"""
import asyncio
import heapq
from asyncio import base_events, events

MAX_ITER = 6000


class Deadlock(Exception):
    """nothing can ever run again"""


class Livelock(Exception):
    """the loop did not come to rest within the bound"""


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        loop.iters += 1
        if loop.abort_check is not None:
            loop.abort_check()
        if loop.iters > MAX_ITER:
            loop.stuck = "livelock"
            raise Livelock("event loop still busy after %d iterations" % MAX_ITER)
        if timeout is None:
            loop.stuck = "deadlock"
            raise Deadlock("every task waits and nothing can wake one")
        if timeout > 0:
            loop.now += timeout
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class VLoop(base_events.BaseEventLoop):
    abort_check = None  # class attribute, set by the symbolic runner

    def __init__(self):
        super().__init__()
        self.iters = 0
        self.now = 0.0
        self.stuck = None
        self._selector = _Sel(self)
        self._clock_resolution = 1e-9

    def time(self):
        return self.now

    def _process_events(self, evs):
        pass

    def _write_to_self(self):
        pass

    def run_in_executor(self, *a):
        raise RuntimeError("no executors in the verification loop")


class Policy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = VLoop


def install():
    asyncio.set_event_loop_policy(Policy())
