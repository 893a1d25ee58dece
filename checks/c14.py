"""C14: monitors deliver every value once, in order."""
import types

from sx.common import harness

from .lib import DUT, LogCapture, make_env, plain_bundle, run


@harness("C14", params=[{"T": 4}], thorough=[{"T": 6}], labels=("end", "none", "falsy"),
         fallback=[{"T": 3}])
def hooks(ctx, T):
    """values out of None, 0, False, empty tuple, any integer in each of T cycles; monitor hook and agent hook of two
    models: every value other than None once per hook, in the cycle and order of the returns"""
    import toffee
    from toffee.agent import Agent, monitor_method
    from toffee.model import Model, agent_hook, monitor_hook

    kinds = [ctx.choose(f"k{t}", 5) for t in range(T)]
    v = [ctx.int(f"v{t}") for t in range(T)]
    vals = [[None, 0, False, (), v[t]][kinds[t]] for t in range(T)]
    long = ctx.choose("long", 2)  # a monitor whose body waits a cycle itself
    duts, log, runs = [], [], []

    class A(Agent):
        @monitor_method()
        async def watch(self):
            c = duts[0].cyc()
            runs.append(c)
            if long:
                await self.bundle.step()
            return vals[c - 1] if c <= T else None

    class M(Model):
        def __init__(self, i):
            super().__init__()
            self.i = i

        @monitor_hook("a.watch")
        def w(self, x):
            log.append((self.i, "m", x, duts[0].cyc()))

        @agent_hook("a")
        def g(self, name, x):
            log.append((self.i, name, x, duts[0].cyc()))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M(0))
        e.attach(M(1))
        await toffee.ClockCycles(dut, T)

    run(test)
    exp_runs = list(range(1, T + 1, 2 if long else 1))
    ctx.check(runs == exp_runs, "the monitor method was not re-entered on the step after it returned")
    exp = [(vals[c - 1], c + long) for c in exp_runs if vals[c - 1] is not None and c + long <= T]
    for i in (0, 1):
        for kind in ("m", "a.watch"):
            seen = [x for x in log if x[0] == i and x[1] == kind]
            ctx.check(len(seen) == len(exp), "a hook did not get every value other than None exactly once")
            for a, (b, c) in zip(seen, exp):
                ctx.check(a[2] is b or ctx.eq(a[2], b), "a hook got another value or another order")
                ctx.check(a[3] == c, "a hook got a value in a later cycle")
    if None in [vals[c - 1] for c in exp_runs]:
        ctx.note("none")
    if any(kinds[c - 1] in (1, 2, 3) for c in exp_runs):
        ctx.note("falsy")
    ctx.note("end")


@harness("C14", params=[{"T": 4, "caps": (1, 2)}], thorough=[{"T": 6, "caps": (1, 2, 3)}], labels=("drop", "read", "wait", "bare"),
         fallback=[{"T": 3, "caps": (1,)}])
def queue(ctx, T, caps):
    """the get queue with capacity 1..2 (or the default 4) enabled in cycle 0..1, values None, falsy or any
    integer in each cycle, and 0..1 reads in each cycle by the test, or a reader that waits all the time, or from each step
    on, before the monitor runs; the agent in an
    environment or in none"""
    import toffee
    from toffee.agent import Agent, monitor_method

    kinds = [ctx.choose(f"k{t}", 3) for t in range(T)]
    v = [ctx.int(f"v{t}") for t in range(T)]
    vals = [[None, 0, v[t]][kinds[t]] for t in range(T)]
    cap = (list(caps) + [None])[ctx.choose("cap", len(caps) + 1)]
    late = ctx.choose("late", 2)
    reader = ctx.choose("reader", 2 if late else 3)
    reads = [ctx.bool(f"r{t}") if not reader else False for t in range(T)]
    bare = 0 if late else ctx.choose("bare", 2)  # an agent in no environment
    duts, got, agent = [], [], []

    class A(Agent):
        @monitor_method()
        async def watch(self):
            c = duts[0].cyc()
            return vals[c - 1] if c <= T else None

    async def rd():
        while True:
            if reader == 2:
                await duts[0].event.wait()
            x = await agent[0].watch()
            got.append((x, duts[0].cyc()))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        if reader == 2:
            toffee.create_task(rd())
            await toffee.sleep(0)
        if bare:
            e = types.SimpleNamespace(a=A(plain_bundle(dut, ["p"])))
            ctx.note("bare")
        else:
            e = make_env(plain_bundle(dut, ["p"]), a=A)
        ctx.check(e.a.monitor_size("watch") == 0, "a monitor without queue has values")
        if late:
            await toffee.ClockCycles(dut, 1)
            await settle(dut)
        c0 = dut.cyc()
        if cap is None:
            e.a.start_monitor("watch")
        else:
            e.a.start_monitor("watch", maxsize=cap)
        ref = []
        mx = 4 if cap is None else cap

        agent.append(e.a)
        if reader == 1:
            toffee.create_task(rd())
        with LogCapture("ERROR") as lc:
            nerr = 0
            for t in range(c0, T):
                await toffee.ClockCycles(dut, 1)
                await settle(dut)
                x = vals[t]
                if reader:
                    if x is not None:
                        ctx.check(len(got) >= 1, "a waiting reader did not get the value")
                        g = got.pop(0)
                        ctx.check((g[0] is x or ctx.eq(g[0], x)) and g[1] == t + 1, "a waiting reader did not get the value in its cycle")
                        ctx.note("wait")
                    ctx.check(got == [], "a reader got a value that was not returned")
                    ctx.check(e.a.monitor_size("watch") == 0, "the queue size is not that of the values not yet read")
                elif x is not None:
                    if len(ref) >= mx:
                        nerr += 1
                        ctx.note("drop")
                    else:
                        ref.append(x)
                ctx.check(len(lc.records) == nerr, "a dropped value was not reported once, or a kept one was")
                if not reader:
                    ctx.check(e.a.monitor_size("watch") == len(ref), "the queue size is not that of the values not yet read")
                    if reads[t] and ref:
                        x = await e.a.watch()
                        y = ref.pop(0)
                        ctx.check(x is y or ctx.eq(x, y), "reading the monitor gave another value than the oldest")
                        ctx.check(e.a.monitor_size("watch") == len(ref), "the queue size is not that of the values not yet read")
                        ctx.note("read")
            while ref:
                x = await e.a.watch()
                y = ref.pop(0)
                ctx.check(x is y or ctx.eq(x, y), "reading the monitor gave another value than the oldest")
            ctx.check(e.a.monitor_size("watch") == 0, "the queue size is not that of the values not yet read")

    run(test)


@harness("C14", params=[{"T": 3}], thorough=[{"T": 5}], labels=("end", "falsy"),
         fallback=[{"T": 2}])
def kinds(ctx, T):
    """values of every kind (None, 0, False, "", an empty tuple, any integer) in the queue of a monitor, with
    or without an attached model with a hook of this monitor; read in one go at the end; another monitor, whose name begins
    with the first one's, has more values"""
    import toffee
    from toffee.agent import Agent, monitor_method
    from toffee.model import Model, monitor_hook

    v = [ctx.int(f"v{t}") for t in range(T)]
    ks = [ctx.choose(f"k{t}", 6) for t in range(T)]
    vals = [[None, 0, False, "", (), v[t]][ks[t]] for t in range(T)]
    model = ctx.choose("model", 3)
    duts, log = [], []

    class A(Agent):
        @monitor_method()
        async def watch(self):
            c = duts[0].cyc()
            return vals[c - 1] if c <= T else None

        @monitor_method()
        async def watch_more(self):
            return duts[0].cyc()

    class M(Model):
        if model == 1:

            @monitor_hook("a.watch")
            def w(self, x):
                log.append(x)

    def same(a, b):
        return type(a) is type(b) and (a is b or ctx.eq(a, b))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        if model:
            e.attach(M())
        more = ctx.choose("more", 2)
        if more:
            e.a.start_monitor("watch_more", T + 1)
        e.a.start_monitor("watch", T)
        await toffee.ClockCycles(dut, T)
        await settle(dut)
        exp = [x for x in vals if x is not None]
        ctx.check(e.a.monitor_size("watch") == len(exp), "the queue does not hold every value other than None")
        for x in exp:
            y = await e.a.watch()
            ctx.check(same(x, y), "reading the monitor gave another value than the oldest")
        ctx.check(e.a.monitor_size("watch_more") == (T if more else 0), "the queue of another monitor is changed")
        got.extend(exp)

    got = []
    run(test)
    if model == 1:
        ctx.check(
            len(log) >= len(got) and all(same(a, b) for a, b in zip(log, got)),
            "the hook did not get the same values as the queue",
        )
    if any(k in (1, 2, 3, 4) for k in ks):
        ctx.note("falsy")
    ctx.note("end")


async def settle(dut):
    """Lets everything due in the cycle run (a bounded number of bare yields is enough here)."""
    import asyncio

    c = dut.cyc()
    for _ in range(12):
        await asyncio.sleep(0)
    assert dut.cyc() == c


@harness("C14", params=[{"T": 12, "top": 8}], thorough=[{"T": 40, "top": 36}], labels=("drop", "kept"), fallback=[{"T": 7, "top": 4}])
def deep(ctx, T, top):
    """queues of capacity 1..top or the default on two monitors of one agent, any value in each of T cycles (none in one of
    them): some values are read in one go in cycle 2, 5 or 9, the rest at the end"""
    import toffee
    from toffee.agent import Agent, monitor_method

    cap = ctx.choose("cap", top + 1)
    when, k = [2, 5, 9][ctx.choose("when", 3)], ctx.choose("reads", 4)
    gap = ctx.choose("gap", [None, 1, 6])
    v = [[ctx.int(f"v{m}{t}") for t in range(T)] for m in range(2)]
    duts = []

    def value(m):
        c = duts[0].cyc() - 1
        return None if c >= T or c == gap else v[m][c]

    class A(Agent):
        @monitor_method()
        async def watch(self):
            return value(0)

        @monitor_method()
        async def look(self):
            return value(1)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        if cap == 0:
            e.a.start_monitor("watch")
        else:
            e.a.start_monitor("watch", cap)
        e.a.start_monitor("look", maxsize=T + 1)
        mx, nerr, ref, other = cap or 4, 0, [], []

        async def read():
            x, y = await e.a.watch(), ref.pop(0)
            ctx.check(ctx.eq(x, y), "reading the monitor gave another value than the oldest")
            ctx.check(e.a.monitor_size("watch") == len(ref), "the queue size is not that of the values not yet read")

        with LogCapture("ERROR") as lc:
            for t in range(T):
                await toffee.ClockCycles(dut, 1)
                await settle(dut)
                if t != gap:
                    other.append(v[1][t])
                    if len(ref) < mx:
                        ref.append(v[0][t])
                        ctx.note("kept")
                    else:
                        nerr += 1
                        ctx.note("drop")
                ctx.check(len(lc.records) == nerr, "a dropped value was not reported once, or a kept one was")
                ctx.check(e.a.monitor_size("watch") == len(ref) and e.a.monitor_size("look") == len(other), "the queue size is not that of the values not yet read")
                if t == when:
                    for _ in range(min(k, len(ref))):
                        await read()
            while ref:
                await read()
            for y in other:
                ctx.check(ctx.eq(await e.a.look(), y), "reading the monitor gave another value than the oldest")

    run(test)
