"""C41: agents and environments of one class do not interfere, and overridden methods act as the object's own."""
from sx.common import harness

from .lib import DUT, plain_bundle, run

PATHS = ("x.send", "y.send")


def env_class(bundle, **agents):
    from toffee.env import Env

    class E(Env):
        def __init__(self):
            super().__init__()
            for n, c in agents.items():
                setattr(self, n, c(bundle))

    return E


@harness("C41", params=[{"n": 2}], thorough=[{"n": 3}], labels=("attached", "silent", "two"))
def drivers(ctx, n):
    """two environments of one class, each with two agents of one class, and two models of one class, each attached to either
    environment or to none; n calls, each on any of the four agents, one after the other or at the same time, with any
    argument: the body runs on that agent, and the hooks of exactly the models of its environment"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    att = [ctx.choose(f"a{m}", 3) for m in range(2)]  # environment 0 or 1, or none
    tgt = [(ctx.choose(f"e{i}", 2), ctx.choose(f"g{i}", "xy")) for i in range(n)]
    val = [ctx.int(f"v{i}") for i in range(n)]
    together = ctx.choose("together", 2)
    order = ctx.choose("order", ["model_first", "dut_first"])
    log, bodies, got = [], [], []

    class A(Agent):
        @driver_method()
        async def send(self, v, i):
            bodies.append((self, v, i))
            await self.bundle.step()
            return (i, v)

        @driver_method()
        async def recv(self, v, i):
            bodies.append((self, "recv", i))

    class M(Model):
        def __init__(self, k):
            super().__init__()
            self.k = k

        @driver_hook("x.send", sche_order=order)
        def a(self, v, i):
            log.append((self.k, "driver x.send", v, i))

        @agent_hook("y", sche_order=order)
        def b(self, name, args):
            log.append((self.k, "agent " + name, args["v"], args["i"]))

        @agent_hook(methods=["x.send", "y.recv"], sche_order=order)
        def c(self, name, args):
            log.append((self.k, "method " + name, args["v"], args["i"]))

    envs = []

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        cls = env_class(plain_bundle(dut, ["p"]), x=A, y=A)
        envs.extend([cls(), cls()])
        for m in range(2):
            if att[m] < 2:
                envs[att[m]].attach(M(m))
        ts = []
        for i, (e, g) in enumerate(tgt):
            t = toffee.create_task(getattr(envs[e], g).send(val[i], i))
            ts.append(t)
            if not together:
                await t
                await toffee.ClockCycles(dut, 1)
        for t in ts:
            got.append(await t)
        await toffee.ClockCycles(dut, 1)

    run(test)
    ctx.check(len(bodies) == n, "the driver method's body did not run exactly once per call")
    for i, (e, g) in enumerate(tgt):
        ctx.check(got[i][0] == i and ctx.eq(got[i][1], val[i]), "a call returned the result of another call")
        mine = [b for b in bodies if b[2] == i]
        ctx.check(len(mine) == 1 and mine[0][0] is getattr(envs[e], g) and ctx.eq(mine[0][1], val[i]), "a driver method ran on another agent")
        seen = [(k, what) for k, what, v, j in log if j == i]
        want = []
        for m in range(2):
            if att[m] == e:
                want += [(m, "driver x.send"), (m, "method x.send")] if g == "x" else [(m, "agent y.send")]
        ctx.check(sorted(seen) == sorted(want), "the hooks of the models of the call's environment did not run exactly once each")
        ctx.check(ctx.And(*[ctx.eq(v, val[i]) for k, what, v, j in log if j == i]), "a hook got the argument of another call")
        ctx.note("attached" if want else "silent")
        if len({m for m, _ in want}) == 2:
            ctx.note("two")


@harness("C41", params=[{"T": 2}], thorough=[{"T": 3}], labels=("hook", "read", "full"))
def monitors(ctx, T):
    """two environments of one class with two agents of one class each, watching any values (or None) over T cycles; one model
    attached to either or none; the queues of any two of the four agents enabled, with different sizes: values, hooks, sizes and
    drops belong to the own agent and environment only"""
    import toffee
    from toffee.agent import Agent, monitor_method
    from toffee.model import Model, agent_hook, monitor_hook

    att = ctx.choose("a", 3)
    KEYS = [(0, "x"), (0, "y"), (1, "x"), (1, "y")]
    on = KEYS[ctx.choose("q0", 4)]
    on2 = KEYS[ctx.choose("q1", 4)]
    size = {on2: 4}
    size[on] = 1
    v = {k: [ctx.int(f"v{k[0]}{k[1]}{t}") for t in range(T)] for k in KEYS}
    quiet = KEYS[ctx.choose("quiet", 4)]  # returns a value in the last cycle only
    log, duts, who = [], [], {}

    class A(Agent):
        @monitor_method()
        async def watch(self):
            c = duts[0].cyc() - 1
            k = who.get(self)
            if k is None or c >= T or k == quiet and c < T - 1:
                return None
            return v[k][c]

    class M(Model):
        @monitor_hook("x.watch")
        def a(self, v):
            log.append(("x.watch", v, duts[0].cyc()))

        @agent_hook("y")
        def b(self, name, v):
            log.append((name, v, duts[0].cyc()))

    out = {}

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        cls = env_class(plain_bundle(dut, ["p"]), x=A, y=A)
        envs = [cls(), cls()]
        for e, g in KEYS:
            who[getattr(envs[e], g)] = (e, g)
        if att < 2:
            envs[att].attach(M())
        for k, s in size.items():
            getattr(envs[k[0]], k[1]).start_monitor("watch", s)
        await toffee.ClockCycles(dut, T + 1)
        for k in KEYS:
            a = getattr(envs[k[0]], k[1])
            out[k] = [a.monitor_size("watch")]
            for _ in range(out[k][0]):
                out[k].append(await a.watch())
            ctx.check(a.monitor_size("watch") == 0, "reading a monitor leaves its size")
            if k in size:
                ctx.note("read")

    run(test)
    for k in KEYS:
        vals = v[k][T - 1 :] if k == quiet else v[k]
        want = vals[: size[k]] if k in size else []
        if len(vals) > len(want) and k in size:
            ctx.note("full")
        ctx.check(out[k][0] == len(want), "the queue of a monitor holds values of another one, or lacks some of its own")
        ctx.check(ctx.And(*[ctx.eq(a, b) for a, b in zip(out[k][1:], want)]), "a monitor delivered the values of another agent")
    for g in "xy":
        seen = [(x, c) for n, x, c in log if n == g + ".watch"]
        want = []
        if att < 2:
            k = (att, g)
            want = [(v[k][t], t + 1) for t in range(T) if k != quiet or t == T - 1]
            ctx.note("hook")
        ctx.check(len(seen) == len(want), "a hook got values of the other environment, or not all of its own")
        ctx.check(ctx.And(*[c == d and ctx.eq(a, b) for (a, c), (b, d) in zip(seen, want)]), "a hook got other values or in other cycles")
    ctx.check(len(log) == len([1 for n, _, _ in log if n in ("x.watch", "y.watch")]), "a hook got an unknown path")


@harness("C41", params=[{}], labels=("super", "plain"))
def inheritance(ctx):
    """two agents, each of a base class, of a class overriding a driver method (also one with other parameters) and a monitor
    method, calling the inherited ones before, after, or not at all, or of a class derived from that without changes; environments
    of a class derived from another one; any arguments: the object's own method is the driver or monitor method, hooks run once"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import Model, agent_hook, driver_hook, monitor_hook

    kx, ky = ctx.choose("x", 3), ctx.choose("y", 3)
    sup = ctx.choose("super", 3)  # not called, called first, called last
    a, b, w = ctx.int("a"), ctx.int("b"), ctx.int("w")
    order = ctx.choose("order", ["model_first", "dut_first"])
    log, duts, bodies, got = [], [], [], []

    class Base(Agent):
        @driver_method()
        async def send(self, v):
            bodies.append(("base", self, v))
            return v + 1

        @driver_method()
        async def both(self, v):
            return await self.send(v)

        @monitor_method()
        async def watch(self):
            return w if duts[0].cyc() == 1 else None

    base = Base

    class Base(base):  # of the same name
        @driver_method()
        async def send(self, v, extra=3):
            if sup == 1:
                got.append(await super().send(v))
            bodies.append(("derived", self, v))
            if sup == 2:
                got.append(await super().send(v))
            return v + extra + 10

        @monitor_method()
        async def watch(self):
            r = None
            if sup:
                r = await super().watch()
                return None if r is None else r + 100
            return w + 100 if duts[0].cyc() == 1 else None

    Derived, Base = Base, base

    class Third(Derived):
        pass

    KINDS = [Base, Derived, Third]

    class M(Model):
        @driver_hook("x.send", sche_order=order)
        def s(self, *args, **kw):
            log.append(("x.send", args, kw))

        @agent_hook("y", sche_order=order)
        def y(self, name, args):
            log.append((name, args))

        @monitor_hook("x.watch")
        def w(self, v):
            log.append(("x.watch", v))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        bundle = plain_bundle(dut, ["p"])
        E1 = env_class(bundle, x=KINDS[kx])

        class E2(E1):
            def __init__(self):
                super().__init__()
                self.y = KINDS[ky](bundle)

        e = E2()
        e.attach(M())
        await toffee.ClockCycles(dut, 1)
        ra = await e.x.send(a)
        rb = await e.y.both(b)
        for r, k, v in ((ra, kx, a), (rb, ky, b)):
            ctx.check(ctx.eq(r, v + (13 if k else 1)), "another class's driver method was run")
        await toffee.ClockCycles(dut, 2)
        for k, ag, v in ((kx, e.x, a), (ky, e.y, b)):
            want = ["base"] if not k else [["derived"], ["base", "derived"], ["derived", "base"]][sup]
            mine = [x for x in bodies if x[1] is ag]
            ctx.check([x[0] for x in mine] == want, "the bodies of the overriding and inherited methods did not run once each, in order")
            ctx.check(ctx.And(*[ctx.eq(x[2], v) for x in mine]), "a body got another argument")

    run(test)
    xs = [x for x in log if x[0] == "x.send"]
    ctx.check(len(xs) == 1 and len(xs[0][1]) == 1 and not xs[0][2] and ctx.eq(xs[0][1][0], a), "the driver hook did not run once with the call's arguments")
    for name, one in (("y.send", True), ("y.both", False)):
        ys = [x for x in log if x[0] == name]
        ctx.check(len(ys) == 1 and ctx.eq(ys[0][1]["v"], b), "the agent hook did not run once for each method")
        keys = ["extra", "v"] if one and ky else ["v"]
        ctx.check(sorted(ys[0][1]) == keys, "the agent hook did not get the parameters of the object's own method")
    ws = [x[1] for x in log if x[0] == "x.watch"]
    ctx.check(len(ws) == 1 and ctx.eq(ws[0], w + (100 if kx else 0)), "the monitor hook did not get the value of the object's own method once")
    ctx.check(len([x for x in log if x[0] == "y.watch"]) == 1, "the agent hook did not get the monitored value once")
    ctx.note("super" if sup and (kx or ky) else "plain")
