"""C36: a component's main runs once, from the first cycle, and can serve ports."""
import asyncio

from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


@harness("C36", params=[{"n": 2}], thorough=[{"n": 3}], labels=("end", "early", "late"))
def start(ctx, n):
    """n components (models or plain) created before the clock starts, after it, in the same cycle as other work or
    in a later cycle 0..2: main starts exactly once, in the first cycle after both"""
    import toffee
    from toffee.asynchronous import Component
    from toffee.model import Model

    kind = [ctx.choose(f"k{i}", 2) for i in range(n)]
    when = [ctx.choose(f"w{i}", 4) for i in range(n)]  # before the clock, cycle 0, 1, 2
    gap = ctx.choose("gap", 3)
    clock2 = ctx.choose("yields", 2)
    log = []
    duts = []

    class C(Component):
        def __init__(self, i):
            super().__init__()
            self.i = i

        async def main(self):
            log.append((self.i, duts[0].cyc()))
            await asyncio.sleep(0)

    class M(Model):
        def __init__(self, i):
            super().__init__()
            self.i = i

        async def main(self):
            log.append((self.i, duts[0].cyc()))
            await toffee.ClockCycles(duts[0], 1)

    keep = []

    async def test():
        def make(i):
            keep.append((M if kind[i] else C)(i))

        dut = DUT(["p"])
        duts.append(dut)
        for i in range(n):
            if when[i] == 0:
                make(i)
        for _ in range(gap):
            await asyncio.sleep(0)
        toffee.start_clock(dut)
        for c in range(3):
            for i in range(n):
                if when[i] == c + 1:
                    make(i)
            if clock2:
                await asyncio.sleep(0)
            await toffee.ClockCycles(dut, 1)
        await toffee.ClockCycles(dut, 2)

    run(test)
    for i in range(n):
        mine = [c for j, c in log if j == i]
        exp = 1 if when[i] == 0 else when[i]
        ctx.check(mine == [exp], "main did not start exactly once, after the first step")
        ctx.note("early" if when[i] == 0 else "late")
    ctx.note("end")


@harness("C36", params=[{}], labels=("fail", "ok"))
def errors(ctx):
    """main of a component or model that raises (any of several exceptions), at once, after 1 cycle, or after reading a
    port; in a test that holds a reference to it or not, and ends 0..2 cycles later"""
    import toffee
    from toffee.asynchronous import Component
    from toffee.model import Model

    kind = ctx.choose("kind", 2)
    at = ctx.choose("at", 4)  # never, at once, 1 cycle later, after an event
    exc = [ValueError("x"), AssertionError("x"), StopAsyncIteration(), RuntimeError("x")][ctx.choose("exc", 4)]
    tail = ctx.int("tail", 0, 2)
    hold = ctx.choose("hold", 2)
    evs = []
    keep = []

    async def body():
        if at == 2:
            await toffee.ClockCycles(duts[0], 1)
        if at == 3:
            await evs[0].wait()
        if at:
            raise exc

    class C(Component):
        async def main(self):
            await body()

    class M(Model):
        async def main(self):
            await body()

    duts = []

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        evs.append(toffee.Event())
        c = (M if kind else C)()
        if hold:
            keep.append(c)
        del c
        await toffee.ClockCycles(dut, 1)
        evs[0].set()
        await toffee.ClockCycles(dut, tail)

    try:
        run(test)
        failed = False
    except Exception:  # noqa
        failed = True
    if at == 0 or (at == 2 and tail == 0):
        ctx.check(not failed, "the run failed without an error in main")
        ctx.note("ok")
    else:
        ctx.check(failed, "an error raised in main did not fail the run")
        ctx.note("fail")


@harness("C36", params=[{"T": 3}], thorough=[{"T": 5}], labels=("end", "items"))
def serve(ctx, T):
    """a model whose main reads a driver port (or a monitor or agent port) in a loop and answers: every
    item (0..2 per cycle, any values) is received once, in order, in its cycle"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import AgentPort, DriverPort, Model, MonitorPort

    kind = ctx.choose("kind", 3)
    per = [ctx.choose(f"n{t}", 3) if kind != 1 else ctx.choose(f"n{t}", 2) for t in range(T)]
    v = {(t, j): ctx.int(f"v{t}{j}") for t in range(T) for j in range(per[t])}
    got, duts = [], []

    class A(Agent):
        @driver_method()
        async def send(self, x):
            return x

        @monitor_method()
        async def watch(self):
            c = duts[0].cyc()
            return v.get((c - 1, 0)) if kind == 1 else None

    class M(Model):
        def __init__(self):
            super().__init__()
            if kind == 0:
                self.port = DriverPort("a.send")
            elif kind == 1:
                self.port = MonitorPort("a.watch")
            else:
                self.port = AgentPort("a")

        async def main(self):
            while True:
                x = await self.port()
                got.append((x, duts[0].cyc()))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        for t in range(T):
            await toffee.ClockCycles(dut, 1)
            if kind != 1:
                for j in range(per[t]):
                    await e.a.send(v[t, j])

    run(test)
    exp = [(v[t, j], t + 1) for t in range(T) for j in range(per[t])]
    ctx.check(len(got) == len(exp), "an item was lost or received twice")
    for (x, c), (y, d) in zip(got, exp):
        if kind == 2:
            ctx.check(x[0] == "a.send" and ctx.eq(x[1]["x"], y), "main received another item")
        else:
            ctx.check(ctx.eq(x, y), "main received another item")
        ctx.check(c == d, "main received an item in a later cycle")
    ctx.note("end")
    if exp:
        ctx.note("items")
