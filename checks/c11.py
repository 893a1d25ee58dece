"""C11: per-call priority and order apply to exactly that call."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


@harness("C11", params=[{"n": 2}], thorough=[{"n": 3}], labels=("over", "plain"))
def calls(ctx, n):
    """n calls (of one method or of two, same or different groups, concurrent or one after the
    other), each with or without a scheduling order of its own and with or without a priority of its own
    (any 0..99), hooks declared with either order and any priority, then one call outside the executor;
    probe hooks of fixed priorities in the same cycles reveal the priority in force"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor
    from toffee.model import Model, agent_hook, driver_hook

    decl_o = ctx.choose("decl", ["model_first", "dut_first"])
    decl_p = ctx.int("declp", 0, 99)
    agent = ctx.choose("agent", 2)
    so = [ctx.choose(f"so{i}", [None, "model_first", "dut_first", "parallel"]) for i in range(n)]
    has_p = [ctx.choose(f"hp{i}", 2) for i in range(n)]
    pr = [ctx.int(f"p{i}", 0, 99) for i in range(n)]
    same_group = ctx.choose("group", 2)
    late = ctx.choose("late", 2)
    log = []
    duts = []

    class A(Agent):
        @driver_method()
        async def send(self, i):
            log.append(("body", i, duts[0].cyc()))
            if late:
                await self.bundle.step(1)
            log.append(("end", i, duts[0].cyc()))
            return None

    class M(Model):
        if agent:

            @agent_hook("a", priority=decl_p, sche_order=decl_o)
            def h(self, name, args):
                log.append(("hook", args["i"], duts[0].cyc()))

        else:

            @driver_hook("a.send", priority=decl_p, sche_order=decl_o)
            def h(self, i):
                log.append(("hook", i, duts[0].cyc()))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        await toffee.ClockCycles(dut, 1)
        async with Executor() as ex:
            for i in range(n):
                kw = {} if so[i] is None else {"sche_order": so[i]}
                if has_p[i]:
                    kw["priority"] = pr[i]
                ex(e.a.send(i), sche_group="g" if same_group else f"g{i}", **kw)
        await toffee.ClockCycles(dut, 1)
        await e.a.send(n)
        await toffee.ClockCycles(dut, 1)

    run(test)
    # "parallel" is the older name of model_first
    order = [("model_first" if s == "parallel" else s or decl_o) for s in so] + [decl_o]
    prio = [pr[i] if has_p[i] else decl_p for i in range(n)] + [decl_p]
    pos = {}
    for j, (k, i, c) in enumerate(log):
        ctx.check((k, i) not in pos, "a hook or body ran twice")
        pos[k, i] = (j, c)
    ctx.check(len(pos) == 3 * (n + 1), "a hook or body did not run")
    for i in range(n + 1):
        h, b, e_ = pos["hook", i], pos["body", i], pos["end", i]
        if order[i] == "model_first":
            ctx.check(h[0] < b[0] and h[1] == b[1], "the order in force is not the call's own or the declared one")
        else:
            ctx.check(h[0] > e_[0] and h[1] == e_[1], "the order in force is not the call's own or the declared one")
        ctx.note("over" if i < n and so[i] else "plain")
    # calls of different groups have their hooks due in the same cycle when the orders are alike
    if not same_group:
        for a in range(n):
            for b in range(n):
                if a != b and order[a] == order[b] and pos["hook", a][0] < pos["hook", b][0]:
                    ctx.check(prio[a] <= prio[b], "the priority in force is not the call's own or the declared one")


@harness("C11", params=[{}], labels=("end",))
def probe(ctx):
    """one call with its own priority, with both kinds of hooks (before and after the body), against
    a concurrent call of another method without one, in either position; then the same two calls without"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor
    from toffee.model import Model, agent_hook, driver_hook

    p = ctx.int("p", 0, 99)
    d = [ctx.int(f"d{i}", 0, 99) for i in range(2)]
    order = ctx.choose("order", ["model_first", "dut_first"])
    first = ctx.choose("first", 2)
    direct = ctx.choose("direct", 2)
    log = []

    class A(Agent):
        @driver_method()
        async def s(self, r):
            await self.bundle.step(1)

        @driver_method()
        async def t(self, r):
            await self.bundle.step(1)

    class M(Model):
        @driver_hook("a.s", priority=d[0], sche_order=order)
        def hs(self, r):
            log.append(("s", r))

        @agent_hook(methods=["a.t"], priority=d[1], sche_order=order)
        def ht(self, name, args):
            log.append(("t", args["r"]))

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        for r in range(2):
            await toffee.ClockCycles(dut, 1)
            if r == 1 and direct:
                ts = [toffee.create_task(c) for c in (e.a.s(r), e.a.t(r))]
                for t in ts:
                    await t
            else:
                async with Executor() as ex:
                    kw = {"priority": p} if r == 0 else {}
                    if first:
                        ex(e.a.t(r))
                    ex(e.a.s(r), **kw)
                    if not first:
                        ex(e.a.t(r))

    run(test)
    ctx.check(len(log) == 4, "a hook did not run exactly once per call")
    for r, ps in ((0, p), (1, d[0])):
        o = [k for k, x in log if x == r]
        ctx.check(sorted(o) == ["s", "t"], "a hook did not run exactly once per call")
        if o == ["s", "t"]:
            ctx.check(ps <= d[1], "the priority in force is not the call's own or the declared one")
        else:
            ctx.check(d[1] <= ps, "the priority in force is not the call's own or the declared one")
    ctx.note("end")
