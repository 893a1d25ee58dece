"""C39: errors in background activity fail the run."""
import asyncio

from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run

WHERE = [
    "none", "driver_mf", "driver_df", "agent_mf", "agent_df", "monitor_hook", "monitor_agent_hook", "monitor",
    "driver_task", "driver_await", "exec_all", "exec_any", "exec_none_wait", "exec_any_other", "exec_any_first", "task",
]


@harness("C39", params=[{}], thorough=[{"tails": 4, "others": 3}], labels=("fail", "ok"))
def errors(ctx, tails=3, others=2):
    """an exception of several types raised in a driver hook, agent hook, monitor hook, monitor method, driver
    method (awaited, in a task, in an executor with each exit condition), or plain task, in cycle 1..2 (or at once),
    with other calls of 0..1 cycles around it, or one that waits forever for the failed one, in a test ending 0..2 cycles later, environment kept alive or not; the executors
    are kept, and one left with the first call is not waited for again"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.executor import Executor
    from toffee.model import Model, agent_hook, driver_hook, monitor_hook

    where = ctx.choose("where", WHERE)
    exc = [ValueError("x"), AssertionError("x"), KeyError("x")][ctx.choose("exc", 3)]
    at = ctx.int("at", 1, 2)
    tail = ctx.int("tail", 0, tails - 1)
    dur = ctx.choose("dur", others)
    body = ctx.choose("body", 2)
    keep_env = ctx.choose("keep", 2)
    stuck = ctx.choose("stuck", 2) if where.startswith("exec") else 0
    if where == "exec_any_first":
        ctx.assume(stuck or dur > body)  # the failing call is the first to end, nothing waits for the others
    duts, keep, raised = [], [], []

    def boom(here, now=True):
        if where == here and now and not raised:
            raised.append(duts[0].cyc())
            raise exc

    class A(Agent):
        @driver_method()
        async def send(self, x):
            if body and x == 1:
                await self.bundle.step(1)
            if where.startswith("driver_t") or where.startswith("driver_a") or where.startswith("exec"):
                boom(where, x == 1)
            return None

        @driver_method()
        async def other(self, x):
            await self.bundle.step(dur)
            if stuck:
                await toffee.Event().wait()
            return None

        @monitor_method()
        async def watch(self):
            boom("monitor", duts[0].cyc() >= at)
            return 5

    class M(Model):
        @driver_hook("a.send", sche_order="dut_first" if where == "driver_df" else "model_first")
        def h(self, x):
            boom("driver_mf")
            boom("driver_df")

        @agent_hook("a", sche_order="dut_first" if where == "agent_df" else "model_first")
        def g(self, name, args):
            if name == "a.watch":
                boom("monitor_agent_hook", duts[0].cyc() >= at)
            elif name == "a.send":
                boom("agent_mf")
                boom("agent_df")

        @monitor_hook("a.watch")
        def m(self, x):
            boom("monitor_hook", duts[0].cyc() >= at)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        if keep_env:
            keep.append(e)
        e.attach(M())
        await toffee.ClockCycles(dut, at)
        if where.startswith("exec"):
            mode = where.split("_")[1]
            ex = Executor(exit=mode)
            keep.append(ex)
            async with ex:
                if where != "exec_any":
                    ex(e.a.other(0))
                ex(e.a.send(1))
            if where not in ("exec_all", "exec_any_first"):
                await ex.wait_all()
        elif where == "driver_task":
            toffee.create_task(e.a.send(1))
        elif where == "task":

            async def t():
                boom("task")

            toffee.create_task(t())
        else:
            ts = [toffee.create_task(e.a.other(0))]
            await e.a.send(1)
            await ts[0]
        await toffee.ClockCycles(dut, tail)

    try:
        run(test)
        failed = False
    except Exception:  # noqa
        failed = True
    ctx.check(duts[0].cyc() < 20, "the run did not end after the error")
    if raised:
        ctx.check(failed, "an error raised in background work did not fail the run")
        ctx.note("fail")
    else:
        ctx.check(not failed, "the run failed although nothing was raised")
        ctx.note("ok")
