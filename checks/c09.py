"""C09: hooks due in the same cycle run in priority order."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


@harness("C09", params=[{"n": 3}, {"n": 5, "srcs": (0,)}], thorough=[{"n": 4}, {"n": 6, "srcs": (0,)}], labels=("end", "tie"),
         fallback=[{"n": 3}])
def declared(ctx, n, srcs=(0, 1, 2)):
    """n driver methods called in one cycle by an executor; each has a driver or agent hook (five: a driver hook), declared
    with any priority 0..99 or called with any priority 0..99, model-first or (all) design-first"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor
    from toffee.model import Model, agent_hook, driver_hook

    pr = [ctx.int(f"p{i}", 0, 99) for i in range(n)]
    src = [ctx.choose(f"src{i}", srcs) for i in range(n)]  # driver hook, agent hook, the call
    order = ctx.choose("order", ["model_first", "dut_first"])
    log = []
    meths, hooks = {}, {}
    for i in range(n):

        def m(self, x=0):
            return _ret()

        async def _ret():
            return None

        async def meth(self, x=0):
            return None

        meth.__name__ = f"m{i}"
        meths[f"m{i}"] = driver_method()(meth)
        if src[i] == 1:

            def h(self, name, args, i=i):
                log.append(i)

            hooks[f"h{i}"] = agent_hook(methods=[f"a.m{i}"], priority=pr[i], sche_order=order)(h)
        else:

            def h(self, x=0, i=i):
                log.append(i)

            hooks[f"h{i}"] = driver_hook(f"a.m{i}", priority=pr[i] if src[i] == 0 else (50 + i), sche_order=order)(h)
    A = type("A", (Agent,), meths)
    M = type("M", (Model,), hooks)

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        await toffee.ClockCycles(dut, 1)
        async with Executor() as ex:
            for i in range(n):
                if src[i] == 2:
                    ex(getattr(e.a, f"m{i}")(), priority=pr[i])
                else:
                    ex(getattr(e.a, f"m{i}")())

    run(test)
    ctx.check(sorted(log) == list(range(n)), "a hook did not run exactly once")
    for a, b in zip(log, log[1:]):
        ctx.check(
            ctx.Or(pr[a] < pr[b], ctx.And(ctx.eq(pr[a], pr[b]), a < b)),
            "hooks of one cycle ran out of priority order, or equal ones out of request order",
        )
        if a < b and not (pr[a] < pr[b]):
            ctx.note("tie")
    ctx.note("end")


@harness("C09", params=[{}], labels=("end",))
def models(ctx):
    """one call (or two) with hooks in three models, driver and agent hooks with any priorities"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    order = ctx.choose("order", ["model_first", "dut_first"])
    two = ctx.choose("two", 2)
    pr = [ctx.int(f"p{i}", 0, 99) for i in range(3)]
    kind = [ctx.choose(f"k{i}", 2) for i in range(3)]
    log = []

    class A(Agent):
        @driver_method()
        async def send(self, x):
            return None

    def model(i):
        if kind[i]:

            class M(Model):
                @agent_hook("a", priority=pr[i], sche_order=order)
                def g(self, name, args):
                    log.append((i, args["x"]))

        else:

            class M(Model):
                @driver_hook("a.send", priority=pr[i], sche_order=order)
                def h(self, x):
                    log.append((i, x))

        return M()

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        for i in range(3):
            e.attach(model(i))
        await toffee.ClockCycles(dut, 1)
        ts = [toffee.create_task(e.a.send(x)) for x in range(1 + two)]
        for t in ts:
            await t

    run(test)
    ctx.check(len(log) == 3 * (1 + two), "a hook did not run once per call")
    for (a, x), (b, y) in zip(log, log[1:]):
        # across kinds and models the request order is not observable: only the priorities are compared,
        # and two requests of the same hook keep the order of the calls
        ctx.check(pr[a] <= pr[b], "hooks of one cycle ran out of priority order")
    for i in range(3):
        ctx.check([x for a, x in log if a == i] == list(range(1 + two)), "equal hooks ran out of request order")
    ctx.note("end")


@harness("C09", params=[{"n": 2}], thorough=[{"n": 3}], labels=("end",))
def monitors(ctx, n):
    """n monitor methods with monitor or agent hooks, and one driver call with a hook, all due in one
    cycle, with any priorities"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import Model, agent_hook, driver_hook, monitor_hook

    pr = [ctx.int(f"p{i}", 0, 99) for i in range(n + 1)]
    kind = [ctx.choose(f"k{i}", 2) for i in range(n)]
    log = []
    duts = []
    ns = {}
    hooks = {}
    for i in range(n):

        async def w(self, i=i):
            return i if duts[0].cyc() == 1 else None

        w.__name__ = f"w{i}"
        ns[f"w{i}"] = monitor_method()(w)
        if kind[i]:

            def g(self, name, v, i=i):
                log.append((i, v, duts[0].cyc()))

            hooks[f"h{i}"] = agent_hook(methods=[f"a.w{i}"], priority=pr[i])(g)
        else:

            def h(self, v, i=i):
                log.append((i, v, duts[0].cyc()))

            hooks[f"h{i}"] = monitor_hook(f"a.w{i}", priority=pr[i])(h)

    async def send(self, x):
        return None

    ns["send"] = driver_method()(send)

    def h(self, x):
        log.append((n, n, duts[0].cyc()))

    hooks["hd"] = driver_hook("a.send", priority=pr[n])(h)
    A = type("A", (Agent,), ns)
    M = type("M", (Model,), hooks)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        await toffee.ClockCycles(dut, 1)
        await e.a.send(1)
        await toffee.ClockCycles(dut, 1)

    run(test)
    ctx.check(sorted(a for a, _, _ in log) == list(range(n + 1)), "a hook did not run exactly once")
    ctx.check(all(a == v and c == 1 for a, v, c in log), "a hook ran with another value or in another cycle")
    for (a, _, _), (b, _, _) in zip(log, log[1:]):
        ctx.check(pr[a] <= pr[b], "hooks of one cycle ran out of priority order")
    ctx.note("end")


@harness("C09", params=[{"n": 3}], thorough=[{"n": 4}], labels=("end", "tie"))
def ties(ctx, n):
    """n requests made one after the other in one cycle, each a driver call with a driver or agent hook or a
    monitor value with a monitor or agent hook, of any priorities: by priority, and equal ones in the order
    of the requests whatever their kinds"""
    import asyncio

    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import Model, agent_hook, driver_hook, monitor_hook

    pr = [ctx.int(f"p{i}", 0, 99) for i in range(n)]
    kind = [ctx.choose(f"k{i}", 4) for i in range(n)]
    default = ctx.choose("default", 2)  # the priority of monitor hooks is not given
    if default:
        for i in range(n):
            if kind[i] == 2:
                pr[i] = 0
            elif kind[i] == 3:
                pr[i] = 99
    log, duts, ns, hooks, evs = [], [], {}, {}, []
    for i in range(n):

        async def m(self, i=i):
            if kind[i] < 2:
                return None
            await evs[i].wait()
            evs[i].clear()
            return i

        m.__name__ = f"m{i}"
        ns[f"m{i}"] = (driver_method if kind[i] < 2 else monitor_method)()(m)

        def h(self, *a, i=i):
            log.append((i, duts[0].cyc()))

        def hd(self, i=0, k=i):
            log.append((k, duts[0].cyc()))

        kw = {} if default and kind[i] >= 2 else {"priority": pr[i]}
        if kind[i] == 0:
            hooks[f"h{i}"] = driver_hook(f"a.m{i}", **kw)(hd)
        elif kind[i] == 2:
            hooks[f"h{i}"] = monitor_hook(f"a.m{i}", **kw)(h)
        else:
            hooks[f"h{i}"] = agent_hook(methods=[f"a.m{i}"], **kw)(h)
    A = type("A", (Agent,), ns)
    M = type("M", (Model,), hooks)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        evs.extend(toffee.Event() for _ in range(n))
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        await toffee.ClockCycles(dut, 2)
        ts = []
        for i in range(n):
            if kind[i] < 2:
                ts.append(toffee.create_task(getattr(e.a, f"m{i}")()))
            else:
                evs[i].set()
            for _ in range(8):
                await asyncio.sleep(0)
        ctx.check(dut.cyc() == 2, "the design was stepped while work was left")
        for t in ts:
            await t
        await toffee.ClockCycles(dut, 1)

    run(test)
    ctx.check(sorted(i for i, c in log) == list(range(n)), "a hook did not run exactly once")
    ctx.check(all(c == 2 for i, c in log), "a hook ran in another cycle")
    for (a, _), (b, _) in zip(log, log[1:]):
        ctx.check(
            ctx.Or(pr[a] < pr[b], ctx.And(ctx.eq(pr[a], pr[b]), a < b)),
            "hooks of one cycle ran out of priority order, or equal ones out of request order",
        )
        if a < b and not (pr[a] < pr[b]):
            ctx.note("tie")
    ctx.note("end")
