"""C13: ports receive the right content for each call."""
from sx.common import harness

from .c08 import DEFAULTS, SIGS, _fn, same
from .lib import DUT, make_env, plain_bundle, run


def drain(q):
    out = []
    while not q.empty():
        out.append(q.get_nowait())
    return out


@harness("C13", params=[{"reps": 2}], thorough=[{"reps": 3}], labels=("bare", "dict", "defaults"))
def drivers(ctx, reps):
    """every signature and calling form, with a driver port (by name, by path, by agent and driver
    name), an agent port (by agent, agents, methods), or both, calls awaited, in an executor or as
    tasks, any argument values"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor
    from toffee.model import AgentPort, DriverPort, Model

    si = ctx.choose("sig", len(SIGS))
    sig, forms = SIGS[si]
    form = forms[ctx.choose("form", len(forms))]
    ports = ctx.choose("ports", 6)
    how = ctx.choose("how", 3)
    args = [{n: ctx.int(f"v{r}{n}") for n in form[0] + form[1]} for r in range(reps)]
    ret = [ctx.int(f"ret{r}") for r in range(reps)]
    bodies = []

    async def body(self, d):
        bodies.append(d)
        await self.bundle.step(1)
        return ret[len(bodies) - 1]

    class A(Agent):
        send = driver_method()(_fn(sig, body, True))

        @driver_method()
        async def other(self, z):
            return z

    class M(Model):
        def __init__(self):
            super().__init__()
            if ports in (0, 3):
                self.a__send = DriverPort()
            if ports in (1, 4):
                self.d = DriverPort("a.send")
            if ports == 5:
                self.send = DriverPort(agent_name="a")
            if ports in (2, 5):
                self.a = AgentPort()
            if ports == 3:
                self.g = AgentPort(agents=["a"])
            if ports == 4:
                self.g = AgentPort(methods=["a.send"])

    ms = []

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A, b=A)
        m = M()
        ms.append(m)
        e.attach(m)
        e.attach(Model())
        await toffee.ClockCycles(dut, 1)
        cs = [e.a.send(*[args[r][n] for n in form[0]], **{n: args[r][n] for n in form[1]}) for r in range(reps)]
        await e.b.send(*[0 for n in form[0]], **{n: 0 for n in form[1]})
        bodies.clear()
        if how == 0:
            for r in range(reps):
                ctx.check(ctx.eq(await cs[r], ret[r]), "the caller got another value than the driver method's")
        elif how == 1:
            async with Executor() as ex:
                for c in cs:
                    ex(c)
        else:
            for c in cs:
                toffee.create_task(c)
            await toffee.ClockCycles(dut, 1)

    run(test)
    names = [p.split("=")[0].strip() for p in sig.split(",") if p.strip() and p.strip() != "*"]
    exp = [{n: args[r].get(n, DEFAULTS.get((si, n))) for n in names} for r in range(reps)]
    ctx.check(len(bodies) == reps, "the driver method did not run once per call")
    m = ms[0]
    dp = {0: "a__send", 3: "a__send", 1: "d", 4: "d", 5: "send"}.get(ports)
    ap = {2: "a", 5: "a", 3: "g", 4: "g"}.get(ports)
    if dp:
        items = drain(getattr(m, dp))
        ctx.check(len(items) == reps, "a driver port did not receive exactly one item per call")
        for it, x in zip(items, exp):
            if len(names) == 1:
                ctx.check(not isinstance(it, dict) and ctx.eq(it, x[names[0]]), "a driver port of a one-parameter method did not receive the bare value")
                ctx.note("bare")
            else:
                ctx.check(isinstance(it, dict) and same(ctx, it, x), "a driver port did not receive the arguments by name")
                ctx.note("dict")
            if len(x) > len(args[0]):
                ctx.note("defaults")
    if ap:
        items = drain(getattr(m, ap))
        ctx.check(len(items) == reps, "an agent port did not receive exactly one item per call")
        for it, x in zip(items, exp):
            ctx.check(it[0] == "a.send" and same(ctx, it[1], x), "an agent port did not receive the path and the arguments by name")


@harness("C13", params=[{"T": 3}], thorough=[{"T": 4}], labels=("none", "falsy"))
def monitors(ctx, T):
    """monitor values out of None, 0, False, empty text, a tuple, any integer in each of T cycles, to a monitor
    port (by name, path, agent and monitor name) and agent ports, also in a second model; with a hook beside the port or not"""
    import toffee
    from toffee.agent import Agent, monitor_method
    from toffee.model import AgentPort, Model, MonitorPort, monitor_hook

    kinds = [ctx.choose(f"k{t}", 5) for t in range(T)]
    v = [ctx.int(f"v{t}") for t in range(T)]
    vals = [[None, 0, (), (v[t], 1), v[t]][kinds[t]] for t in range(T)]
    ports = ctx.choose("ports", 5)
    hook = ctx.choose("hook", 2)
    duts, log = [], []

    class A(Agent):
        @monitor_method()
        async def watch(self):
            c = duts[0].cyc()
            return vals[c - 1] if c <= T else None

    class M(Model):
        def __init__(self, ports):
            super().__init__()
            if ports in (0, 3):
                self.a__watch = MonitorPort(maxsize=-1)
            if ports in (1, 4):
                self.d = MonitorPort("a.watch", maxsize=-1)
            if ports == 2:
                self.watch = MonitorPort(agent_name="a", maxsize=-1)
            if ports == 3:
                self.a = AgentPort(maxsize=-1)
            if ports == 4:
                self.g = AgentPort(maxsize=-1, methods=["a.watch"])

        if hook:

            @monitor_hook("a.watch")
            def h(self, x):
                log.append((self, x))

    ms = []

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        for k in (ports, 0):
            ms.append(M(k))
            e.attach(ms[-1])
        await toffee.ClockCycles(dut, T)

    run(test)
    exp = [x for x in vals if x is not None]
    if len(exp) < T:
        ctx.note("none")
    if any(k in (1, 2) for k in kinds):
        ctx.note("falsy")
    for m, k in zip(ms, (ports, 0)):
        items = drain(getattr(m, {0: "a__watch", 3: "a__watch", 1: "d", 4: "d", 2: "watch"}[k]))
        ctx.check(len(items) == len(exp), "a monitor port did not receive each value other than None once")
        for a, b in zip(items, exp):
            ctx.check(a is b or ctx.eq(a, b), "a monitor port received another value")
        items = [x for o, x in log if o is m]
        ctx.check(len(items) == (len(exp) if hook else 0) and all(a is b or ctx.eq(a, b) for a, b in zip(items, exp)), "a hook beside the port did not get each value once")
        if k in (3, 4):
            items = drain(getattr(m, {3: "a", 4: "g"}[k]))
            ctx.check(len(items) == len(exp), "an agent port did not receive each monitor value other than None once")
            for a, b in zip(items, exp):
                ctx.check(a[0] == "a.watch" and (a[1] is b or ctx.eq(a[1], b)), "an agent port received another path or value")


@harness("C13", params=[{"forms": 1}], thorough=[{"forms": 2}], labels=("same", "other"))
def neighbours(ctx, forms):
    """two agents of one class, of two, or of a class and one derived from it, whose driver methods have the same name and
    any two signatures; in one environment or in two; calls on both in either order, then on the first again: each port
    gets the names and defaults of its own agent's method"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import AgentPort, DriverPort, Model

    kind = ctx.choose("classes", 3)
    si = [ctx.choose("sig0", len(SIGS)), 0]
    si[1] = ctx.choose("sig1", len(SIGS)) if kind else si[0]
    envs = ctx.choose("environments", 2)
    order = [(0, 1, 0), (1, 0, 1)][ctx.choose("order", 2)]
    form = [SIGS[s][1][ctx.choose(f"form{k}", min(forms, len(SIGS[s][1])))] for k, s in enumerate(si)]
    args = [{n: ctx.int(f"v{c}{n}") for n in form[k][0] + form[k][1]} for c, k in enumerate(order)]

    async def body(self, d):
        return None

    class A(Agent):
        send = driver_method()(_fn(SIGS[si[0]][0], body, True))

    class B(Agent if kind < 2 else A):
        send = driver_method()(_fn(SIGS[si[1]][0], body, True))

    names = ["x", "x" if envs else "y"]

    class M(Model):
        def __init__(self, which):
            super().__init__()
            for k in which:
                setattr(self, f"d{k}", DriverPort(names[k] + ".send"))
                setattr(self, f"g{k}", AgentPort(agents=[names[k]]))

    ports = {}

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        b = plain_bundle(dut, ["p"])
        cls = [A, B if kind else A]
        if envs:
            es = [make_env(b, x=c) for c in cls]
            ms = [M([0]), M([1])]
            agents = [e.x for e in es]
        else:
            es = [make_env(b, x=cls[0], y=cls[1])] * 2
            ms = [M([0, 1])] * 2
            agents = [es[0].x, es[0].y]
        es[0].attach(ms[0])
        if envs:
            es[1].attach(ms[1])
        for c, k in enumerate(order):
            await agents[k].send(*[args[c][n] for n in form[k][0]], **{n: args[c][n] for n in form[k][1]})
        for k in range(2):
            ports[k] = drain(getattr(ms[k], f"d{k}")), drain(getattr(ms[k], f"g{k}"))

    run(test)
    for k in range(2):
        sig = SIGS[si[k]][0]
        pn = [p.split("=")[0].strip() for p in sig.split(",") if p.strip() and p.strip() != "*"]
        exp = [{n: args[c].get(n, DEFAULTS.get((si[k], n))) for n in pn} for c in range(3) if order[c] == k]
        d, g = ports[k]
        ctx.check(len(d) == len(exp) == len(g), f"a port of agent {k} did not receive exactly one item per call of it")
        for it, x in zip(d, exp):
            if len(pn) == 1:
                ctx.check(not isinstance(it, dict) and ctx.eq(it, x[pn[0]]), "a driver port of a one-parameter method did not receive the bare value")
            else:
                ctx.check(isinstance(it, dict) and same(ctx, it, x), "a driver port did not receive the arguments by the names of its agent's method")
        for it, x in zip(g, exp):
            ctx.check(it[0] == names[k] + ".send" and same(ctx, it[1], x), "an agent port did not receive the path and the arguments of its agent's method")
    ctx.note("same" if si[0] == si[1] else "other")
