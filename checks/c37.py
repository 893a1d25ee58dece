"""C37: on older interpreters the clock event is made anew for the loop of the run."""
import asyncio
import sys

from sx.common import harness

from .lib import DUT


class OldEvent(asyncio.Event):
    """asyncio.Event as it was: bound to a loop when it is made, and unusable in any other"""

    def __init__(self, loop=None):
        super().__init__()
        self.made_for = loop

    async def wait(self):
        if self.made_for is not asyncio.get_running_loop():
            raise RuntimeError("the event belongs to a different loop")
        return await super().wait()


class OldAsyncio:
    """The asyncio module with the old Event"""

    Event = OldEvent

    def __getattr__(self, n):
        return getattr(asyncio, n)


class Version(tuple):
    """sys.version_info"""

    major = property(lambda self: self[0])
    minor = property(lambda self: self[1])
    micro = property(lambda self: self[2])
    releaselevel = property(lambda self: self[3])
    serial = property(lambda self: self[4])


class OldSys:
    def __init__(self, version):
        self.version_info = version

    def __getattr__(self, n):
        return getattr(sys, n)


class Clock:
    pass


def design(pins):
    d = DUT(pins)
    d.xclock = Clock()
    d.event = OldEvent(None)
    d.xclock._step_event = d.event
    for p in pins:
        getattr(d, p).__dict__["event"] = d.event
    return d


PINS = ["a", "b", "c"]


@harness("C37", params=[{"runs": 2}], thorough=[{"runs": 3}], labels=("old", "new", "no design"))
def renew(ctx, runs):
    """Any version of Python, a design with 0..3 pins, given to run or not, run once or again, the test a function, a
    coroutine or a function of the environment made for it, that waits on the design, on a pin, or through a bundle"""
    import toffee
    from toffee import asynchronous as A

    ver = Version((ctx.int("major", 2, 4), ctx.int("minor", 0, 30), ctx.int("micro", 0, 30), "final", 0))
    old = bool(ver[0] < 3) or (bool(ver[0] == 3) and (bool(ver[1] < 10) or (bool(ver[1] == 10) and bool(ver[2] < 1))))
    npin = ctx.choose("pins", 4)
    kind = ctx.choose("test", 3)
    given = ctx.choose("given", 2)
    dut = design(PINS[:npin])
    seen = []
    state = {}

    async def body(*a):
        seen.append((a, asyncio.get_running_loop(), dut.event, dut.xclock._step_event, [getattr(dut, p).event for p in PINS[:npin]]))
        toffee.start_clock(dut)
        c0 = dut.cyc()
        await toffee.ClockCycles(dut, 2)
        if npin:
            await toffee.ClockCycles(dut.a, 1)
            await toffee.Bundle.new_class_from_list(PINS[:npin])().bind(dut).step()
        return dut.cyc() - c0

    if not old:
        # nothing of this applies: the run makes a loop of its own, and the events are the design's own
        def new_run(coro):
            coro.close()
            state["new"] = True
            return "done"

        class NewAsyncio(OldAsyncio):
            run = staticmethod(new_run)

        fake = NewAsyncio()
    else:
        fake = OldAsyncio()

    saved = A.asyncio, A.sys
    keep = []
    A.asyncio, A.sys = fake, OldSys(ver)
    try:
        for r in range(runs):
            loop = asyncio.new_event_loop()
            keep.append(loop)
            asyncio.set_event_loop(loop)
            before = dut.event
            args = {"dut": dut} if given else {}
            try:
                if kind == 0:
                    res = toffee.run(body, **args)
                elif kind == 1:
                    res = toffee.run(body(), **args)
                else:
                    res = toffee.run(body, env_handle=lambda: (1, 2), **args)
            except AssertionError:
                ctx.check(old and not given, "the design is asked for although it is given or not needed")
                ctx.check(dut.event is before, "the event is replaced in a run that is refused")
                ctx.note("no design")
                continue
            if not old:
                ctx.check(state.get("new") and res == "done", "the run does not use asyncio.run on a newer interpreter")
                ctx.check(dut.event is before, "the event is replaced on a newer interpreter")
                ctx.note("new")
                continue
            ctx.check(given, "a run without the design is accepted")
            a, lp, ev, st, pe = seen[-1]
            ctx.check(len(seen) == r + 1, "the test does not run exactly once")
            ctx.check(ev is not before, "the event is not made anew")
            ctx.check(st is ev, "the clock steps another event than the design's")
            ctx.check(all(e is ev for e in pe), "a pin has another event than the design")
            ctx.check(ev.made_for is lp, "the event is not made for the loop of the run")
            ctx.check(a == ((1, 2) if kind == 2 else ()), "the test is not given what the environment handle returned")
            ctx.check(res == (4 if npin else 2), "the result of the test is not returned")
            ctx.note("old")
    finally:
        A.asyncio, A.sys = saved
        asyncio.set_event_loop(None)
        for l in keep:
            l.close()
