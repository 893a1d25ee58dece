"""C10: executor: groups, exit conditions and results."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


@harness("C10", params=[{"n": 3, "dmax": 1}], thorough=[{"n": 4, "dmax": 2}], labels=("all", "any", "none"),
         fallback=[{"n": 2, "dmax": 1}])
def groups(ctx, n, dmax):
    """n calls, each in one of 2 named groups or in its default group (driver method or plain
    coroutine), of duration 0..dmax cycles, with any result; every exit condition, then wait_all or not"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor

    exit_ = ctx.choose("exit", ["all", "any", "none"])
    grp = [ctx.choose(f"g{i}", [None, "x", "y"]) for i in range(n)]
    kind = [ctx.choose(f"k{i}", 3) for i in range(n)]  # agent a, agent b, plain coroutine
    dur = [ctx.choose(f"d{i}", dmax + 1) for i in range(n)]
    val = [ctx.int(f"v{i}") for i in range(n)]
    log = []
    duts = []

    class A(Agent):
        @driver_method()
        async def send(self, i):
            return await work(self.bundle, i)

    async def work(b, i):
        log.append(("start", i, duts[0].cyc()))
        await b.step(dur[i])
        log.append(("end", i, duts[0].cyc()))
        return val[i]

    out = {}

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        b = plain_bundle(dut, ["p"])
        e = make_env(b, a=A, b=A)
        await toffee.ClockCycles(dut, 1)
        async with Executor(exit=exit_) as ex:
            for i in range(n):
                c = work(b, i) if kind[i] == 2 else (e.a, e.b)[kind[i]].send(i)
                if grp[i] is None:
                    ex(c)
                else:
                    ex(c, sche_group=grp[i])
        out["left"] = dut.cyc()
        out["done"] = [i for k, i, _ in log if k == "end"]
        await ex.wait_all()
        out["all"] = dut.cyc()
        out["res"] = ex.get_results()

    run(test)
    ref = {}
    for i in range(n):
        g = grp[i] or ["a.send", "b.send", "work"][kind[i]]
        ref.setdefault(g, []).append(i)
    st = {i: c for k, i, c in log if k == "start"}
    en = {i: c for k, i, c in log if k == "end"}
    ctx.check(len(log) == 2 * n and len(st) == n and len(en) == n, "a call did not run exactly once")
    ends = {}
    for g, ids in ref.items():
        c = 1
        for i in ids:
            ctx.check(st[i] == c, "a call did not start when the one before it in its group had ended")
            c += dur[i]
            ctx.check(en[i] == c, "a call took another number of cycles")
        ends[g] = c
        order = [i for k, i, _ in log if k == "start" and i in ids]
        ctx.check(order == ids, "the calls of a group did not run in the order given")
        for a, b in zip(ids, ids[1:]):
            ctx.check(log.index(("end", a, en[a])) < log.index(("start", b, st[b])), "two calls of a group overlapped")
    if exit_ == "all":
        ctx.check(out["left"] == max(ends.values()), "leaving the block did not wait for exactly all groups")
        ctx.check(len(out["done"]) == n, "the block was left before all calls ended")
    elif exit_ == "any":
        ctx.check(out["left"] == min(ends.values()), "leaving the block did not wait for exactly the first group")
        ctx.check(any(all(i in out["done"] for i in ids) for ids in ref.values()), "the block was left before a group ended")
    else:
        ctx.check(out["left"] == 1, "leaving the block waited although told not to")
    ctx.check(out["all"] == max(ends.values()), "waiting for all did not end with the last group")
    res = out["res"]
    ctx.check(list(res) == list(ref), "the results do not have the groups' names")
    for g, ids in ref.items():
        if len(ids) == 1:
            ctx.check(not isinstance(res[g], list) and ctx.eq(res[g], val[ids[0]]), "a single result is wrong")
        else:
            ctx.check(isinstance(res[g], list) and len(res[g]) == len(ids), "a list of results is wrong")
            ctx.check(ctx.And(*[ctx.eq(r, val[i]) for r, i in zip(res[g], ids)]), "a list of results is wrong")
    ctx.note(exit_)


@harness("C10", params=[{}], labels=("end",))
def names(ctx):
    """default group names of coroutines whose own parameter is called agent, whatever it is, and of
    driver methods with any name; results of a coroutine returning any value, None or a list"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor

    v = ctx.int("v")
    val = ctx.choose("val", [0, 1, 2, 3])
    vals = [v, None, [v], [v, v]]
    what = ctx.choose("what", 6)

    class A(Agent):
        @driver_method()
        async def send(self):
            return vals[val]

    async def work(agent):
        return vals[val]

    async def other(x):
        agent = x
        return vals[val] if agent is x else None

    async def send(agent):
        return vals[val]

    out = {}

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), my_agent=A)
        async with Executor() as ex:
            ex([lambda: e.my_agent.send(), lambda: work(e.my_agent), lambda: work("text"), lambda: work(None), lambda: other(3), lambda: send(e.my_agent)][what]())
        out.update(ex.get_results())

    run(test)
    ctx.check(list(out) == [["my_agent.send", "work", "work", "work", "other", "send"][what]], "the default group name is wrong")
    r = list(out.values())[0]
    ctx.check(r is vals[val] or ctx.eq(r, vals[val]), "the result is wrong")
    ctx.note("end")
