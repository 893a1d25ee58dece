"""C26: a delayed signal is the signal exactly d cycles before the last edge."""
import asyncio

from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


@harness("C26", params=[{"T": 4, "D": 2, "nd": 2}], thorough=[{"T": 6, "D": 3, "nd": 2}], labels=("none", "value"))
def delay(ctx, T, D, nd):
    """nd delayers of 0..D cycles on two pins, created in cycle 0..1; in each of T cycles the design drives
    one pin to any value, a task rewrites a pin any number 0..2 of times, and driver hooks, monitor
    hooks or task chains run (0..1 of each kind by choice)"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.delay import Delayer
    from toffee.model import Model, driver_hook, monitor_hook

    ds = [ctx.choose(f"d{i}", D + 1) for i in range(nd)]
    born = ctx.choose("born", 2)
    act = ctx.choose("act", 6)
    dv = [ctx.int(f"dv{t}", 0, 255) for t in range(T + 1)]
    w1 = [ctx.int(f"w{t}", 0, 255) for t in range(T + 1)]
    reread = ctx.choose("reread", 2)
    dlog = []

    class A(Agent):
        @driver_method()
        async def send(self, x):
            dlog.append("body")

        @monitor_method()
        async def watch(self):
            return 1 if act in (2, 4) else None

    class M(Model):
        @driver_hook("a.send", sche_order="dut_first" if act == 3 else "model_first")
        def h(self, x):
            dlog.append("hook")

        @monitor_hook("a.watch")
        def m(self, x):
            dlog.append("mon")

    async def test():
        dut = DUT(["p", "q"])
        dut.p.value = dv[0]
        dut._on_step = lambda c: setattr(dut.p, "value", dv[c]) if c <= T else None
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p", "q"]), a=A)
        e.attach(M())
        await toffee.ClockCycles(dut, born)
        dels = [Delayer((dut.p, dut.q)[i % 2], ds[i]) for i in range(nd)]
        hist = [{}, {}]
        q = toffee.Queue()

        async def chain():
            while True:
                x = await q.get()
                await asyncio.sleep(0)
                dut.q.value = x

        toffee.create_task(chain())
        for t in range(born, T + 1):
            for i in range(nd):
                exp = hist[i % 2].get(t - 1 - ds[i])
                got = dels[i].value
                if exp is None:
                    ctx.check(got is None, "a delayer has a value although too few cycles have passed")
                    ctx.note("none")
                else:
                    ctx.check(got is not None and ctx.eq(got, exp), "a delayer has another value than the signal had")
                    ctx.note("value")
            # activity of the cycle
            dut.q.value = t + 300
            if act in (1, 3, 4):
                await e.a.send(t)
            if act == 5:
                async with toffee.Executor() as ex:
                    ex(e.a.send(1))
                    ex(e.a.send(2), sche_group="g")
            await q.put(w1[t])
            hist[0][t] = dv[t]
            hist[1][t] = w1[t]
            if reread:
                await toffee.sleep(0)
                for i in range(nd):
                    exp = hist[i % 2].get(t - 1 - ds[i])
                    got = dels[i].value
                    ctx.check(got is None if exp is None else ctx.eq(got, exp), "a delayer changed within a cycle")
            await toffee.ClockCycles(dut, 1)

    run(test)


@harness("C26", params=[{"T": 11, "D": 8}], thorough=[{"T": 40, "D": 35}], labels=("none", "value"), fallback=[{"T": 6, "D": 4}])
def long(ctx, T, D):
    """one delayer of 0..D cycles, created in cycle 0..2, on a pin with any value in each of T cycles, set by the design or by a
    task; read in every cycle, or only in the last one"""
    import toffee
    from toffee.delay import Delayer

    d = ctx.choose("d", D + 1)
    born = ctx.choose("born", 3)
    by_task = ctx.choose("by", 2)
    seldom = ctx.choose("seldom", 2)
    v = [ctx.int(f"v{t}") for t in range(T + 1)]

    async def test():
        dut = DUT(["p"])
        if not by_task:
            dut.p.value = v[0]
            dut._on_step = lambda c: setattr(dut.p, "value", v[c]) if c <= T else None
        toffee.start_clock(dut)
        await toffee.ClockCycles(dut, born)
        x = Delayer(dut.p, d)
        for t in range(born, T + 1):
            if not seldom or t == T:
                got = x.value
                if t - 1 - d < born:
                    ctx.check(got is None, "a delayer has a value although too few cycles have passed")
                    ctx.note("none")
                else:
                    ctx.check(got is not None and ctx.eq(got, v[t - 1 - d]), "a delayer has another value than the signal had")
                    ctx.note("value")
            if by_task:
                dut.p.value = 0
                await toffee.sleep(0)
                dut.p.value = v[t]
            await toffee.ClockCycles(dut, 1)

    run(test)


@harness("C26", params=[{"T": 4, "D": 2}], thorough=[{"T": 5, "D": 3}], labels=("none", "value", "nothing"))
def shared(ctx, T, D):
    """three delayers of 0..D cycles on one object, created in cycle 0, 0 or 1, and 1, whose value is any integer, 0 or None in
    each of T cycles (as an unconnected signal's is)"""
    import toffee
    from toffee.delay import Delayer

    ds = [ctx.choose(f"d{i}", D + 1) for i in range(3)]
    born = [0, ctx.choose("born", 2), 1]
    v = [[None, 0, ctx.int(f"v{t}")][ctx.choose(f"k{t}", 3) if t < 3 else 2] for t in range(T + 1)]

    class Box:
        value = v[0]

    async def test():
        dut = DUT(["p"])
        box = Box()
        dut._on_step = lambda c: setattr(box, "value", v[c]) if c <= T else None
        toffee.start_clock(dut)
        dels = {}
        for t in range(T + 1):
            for i in range(3):
                if born[i] == t:
                    dels[i] = Delayer(box, ds[i])
            for i, x in dels.items():
                at = t - 1 - ds[i]
                exp = v[at] if at >= born[i] else None
                got = x.value
                if exp is None:
                    ctx.check(got is None, "a delayer has a value although the signal had none, or too few cycles have passed")
                    ctx.note("nothing" if at >= born[i] else "none")
                else:
                    ctx.check(got is not None and ctx.eq(got, exp), "a delayer has another value than the signal had")
                    ctx.note("value")
            await toffee.ClockCycles(dut, 1)

    run(test)
