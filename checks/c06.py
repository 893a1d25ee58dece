"""C06: runs in one process are independent of each other."""
from sx.common import harness

from .lib import DUT, LogCapture, Pin, plain_bundle, run


def scenario(ctx, fail, x, tag, log):
    """One run: two agents, a model with driver, agent and monitor hooks, an executor, a delayer."""
    import asyncio

    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.delay import Delayer
    from toffee.env import Env
    from toffee.executor import Executor
    from toffee.model import DriverPort, Model, agent_hook, driver_hook, monitor_hook

    duts = []

    def put(*a):
        log.append((tag,) + a + (duts[0].cyc(),))

    class A(Agent):
        @driver_method()
        async def send(self, v):
            put("body", v)
            await self.bundle.step()
            if fail == "driver":
                raise ValueError("driver")
            return v

        @driver_method()
        async def late(self, v):
            return v

        @monitor_method()
        async def watch(self):
            return duts[0].cyc()

    class M(Model):
        @driver_hook(agent_name="a", driver_name="send", sche_order="model_first", priority=7)
        def h(self, v):
            put("hook", v)
            if fail == "hook":
                raise ValueError("hook")
            return v if fail != "mismatch" else v + 1

        @driver_hook(agent_name="a", driver_name="late", sche_order="dut_first", priority=9)
        def l(self, v):
            put("late", v)
            return v

        @agent_hook("a")
        def g(self, name, v):
            put("agent", name)

        @monitor_hook(agent_name="a", monitor_name="watch")
        def w(self, v):
            put("mon", v)

    class E(Env):
        def __init__(self, b):
            super().__init__()
            self.a = A(b)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = E(plain_bundle(dut, ["p"]))
        e.attach(M())
        d = Delayer(dut.p, 1)
        dut._on_step = lambda c: setattr(dut.p, "value", c * 10)
        async with Executor(exit="none" if fail == "pending" else "all") as ex:
            ex(e.a.send(x), priority=3)
            ex(e.a.late(x), sche_order="dut_first")
        if fail == "body":
            toffee.create_task(e.a.send(x))
            await asyncio.sleep(0)
            raise ValueError("body")
        if fail == "pending":
            return 1
        if fail == "exit":
            toffee.create_task(e.a.late(x))
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            raise SystemError("exit")
        await toffee.ClockCycles(dut, 2)
        put("delay", d.value)
        return 2

    try:
        r = run(test)
        return ("ret", r, duts[0].cyc())
    except Exception as e:  # noqa
        return ("exc", type(e).__name__, None)
    finally:
        # the design is finished: whoever reads or writes its pins later fails
        for d in duts:
            d.p.__class__ = Gone


class Gone(Pin):
    @property
    def value(self):
        raise RuntimeError("a pin of the design of an earlier run is read")

    @value.setter
    def value(self, v):
        raise RuntimeError("a pin of the design of an earlier run is written")


FAILS = ["ok", "body", "driver", "hook", "mismatch", "pending", "exit"]


@harness("C06", params=[{"n": 1}], thorough=[{"n": 2}], labels=("end",))
def history(ctx, n):
    """n earlier runs of every kind (success, failure in the test, in a driver method, in a hook, by
    mismatch, calls pending at the end or at a failure) before any later run; its trace is that of the
    same run in a fresh process"""
    prior = [FAILS[ctx.choose(f"p{i}", len(FAILS))] for i in range(n)]
    last = FAILS[ctx.choose("last", len(FAILS))]
    x = ctx.int("x")
    fresh, got = [], []
    r0 = scenario(ctx, last, x, 0, fresh)  # the first toffee run of the process (one fork per subtree)
    other = []
    for i, p in enumerate(prior):
        scenario(ctx, p, ctx.int(f"y{i}"), 0, other)
    r1 = scenario(ctx, last, x, 0, got)
    ctx.check(r0 == r1, "the outcome of a run depends on the runs before it")
    ctx.check(len(fresh) == len(got), "a run does other work after other runs")
    for a, b in zip(fresh, got):
        ctx.check(len(a) == len(b), "a run does other work after other runs")
        for p, q in zip(a, b):
            ctx.check(p is q or ctx.eq(p, q), "the trace of a run depends on the runs before it")
    if last == "ok":
        kinds = [a[1] for a in got]
        ctx.check(kinds.count("hook") == 1 and kinds.count("body") == 1 and kinds.count("late") == 1, "hooks of another run ran")
    ctx.note("end")


@harness("C06", params=[{}], labels=("end",))
def logs(ctx):
    """what a run logs (dropped values of a port) does not depend on an earlier run with full ports or
    mismatches"""
    import toffee
    from toffee.model import Port

    n = ctx.int("n", 0, 6)
    n2 = ctx.int("n2", 0, 6)

    def go(k):
        async def test():
            dut = DUT(["p"])
            toffee.start_clock(dut)
            p = Port("x", 4)
            for i in range(k):
                await p.put(i)
            await toffee.ClockCycles(dut, 1)
            return p.qsize()

        with LogCapture("ERROR") as lc:
            r = run(test)
        return r, lc.texts()

    go(n2)
    r, t = go(n)
    ctx.check(r == ctx.ite(n > 4, 4, n), "the port kept values of an earlier run")
    ctx.check(len(t) == ctx.ite(n > 4, n - 4, 0), "the log depends on an earlier run")
    ctx.note("end")
