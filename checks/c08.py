"""C08: every driver call runs each matching hook once, with its arguments."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run

# the driver methods' signatures, and the ways of calling each: (positional, keyword) argument names
SIGS = [
    ("a", [(("a",), ()), ((), ("a",))]),
    ("a, b=5", [(("a",), ()), (("a", "b"), ()), (("a",), ("b",)), ((), ("b", "a"))]),
    ("a, b, *, k=7", [(("a", "b"), ()), (("a", "b"), ("k",)), ((), ("a", "b", "k"))]),
    ("", [((), ())]),
    ("a=1, *, k", [((), ("k",)), (("a",), ("k",))]),
]
DEFAULTS = {(1, "b"): 5, (2, "k"): 7, (4, "a"): 1}


def _fn(sig, body, is_async):
    ns = {"body": body}
    names = [p.split("=")[0].strip() for p in sig.split(",") if p.strip() and p.strip() != "*"]
    d = "dict(%s)" % ", ".join("%s=%s" % (n, n) for n in names)
    exec(
        "%sdef send(self%s):\n    return %sbody(self, %s)\n"
        % ("async " if is_async else "", (", " + sig) if sig else "", "await " if is_async else "", d),
        ns,
    )
    return ns["send"]


HOOKS = [
    ("driver",),
    ("agent",),
    ("driver", "agents"),
    ("agent", "methods"),
    ("driver", "agent", "methods"),
]


@harness(
    "C08",
    params=[{"nmodels": 1, "reps": 1}, {"nmodels": 2, "reps": 1, "sigs": (1,), "hooks": (0, 3, 4)}],
    thorough=[{"nmodels": 2, "reps": 2, "sigs": (0, 1, 2, 3, 4), "hooks": (0, 1, 3, 4)}],
    labels=("mf", "df", "defaults"),
)
def calls(ctx, nmodels, reps, sigs=(0, 1, 2, 3, 4), hooks=(0, 1, 2, 3, 4)):
    """every signature and calling form, every set of driver and agent hooks (by path, agent, agents
    and methods), both orders per model, bodies of 0..1 cycles, any argument values"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    si = sigs[ctx.choose("sig", len(sigs))]
    sig, forms = SIGS[si]
    form = forms[ctx.choose("form", len(forms))]
    cyc = ctx.choose("cyc", 2)
    start = ctx.int("start", 0, 1)
    cfg = []
    for m in range(nmodels):
        hs = HOOKS[hooks[ctx.choose(f"hooks{m}", len(hooks))]]
        cfg.append((hs, ctx.choose(f"order{m}", ["model_first", "dut_first"])))
    args = [{n: ctx.int(f"v{r}{n}") for n in form[0] + form[1]} for r in range(reps)]
    ret = [ctx.int(f"ret{r}") for r in range(reps)]
    log = []
    duts = []
    cur = []

    async def body(self, d):
        log.append(("body", None, d, duts[0].cyc()))
        if cyc:
            await self.bundle.step(cyc)
        log.append(("end", None, None, duts[0].cyc()))
        return ret[cur[-1]]

    class A(Agent):
        send = driver_method()(_fn(sig, body, True))

        @driver_method()
        async def other(self, z):
            return z

    class B(Agent):
        @driver_method()
        async def send(self, z):
            return z

    def model(m):
        hs, order = cfg[m]
        ns = {}
        for h in hs:

            def rec(tag):
                def f(self, d):
                    log.append(("hook", (m, tag), d, duts[0].cyc()))

                return f

            if h == "driver":
                ns["h_driver"] = driver_hook("a.send", sche_order=order)(_fn(sig, rec(h), False))
            else:
                kw = {"agent": {"agent_name": "a"}, "agents": {"agents": ["a"]}, "methods": {"methods": ["a.send"]}}[h]

                def g(self, name, d, h=h):
                    log.append(("hook", (m, h), (name, d), duts[0].cyc()))

                ns["h_" + h] = agent_hook(sche_order=order, **kw)(g)
        return type("M", (Model,), ns)()

    got = []

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A, b=B)
        for m in range(nmodels):
            e.attach(model(m))
        await toffee.ClockCycles(dut, start)
        for r in range(reps):
            cur.append(r)
            log.append(("call", None, None, dut.cyc()))
            got.append(
                await e.a.send(
                    *[args[r][n] for n in form[0]], **{n: args[r][n] for n in form[1]}
                )
            )
            await toffee.ClockCycles(dut, 1)

    run(test)
    names = [p.split("=")[0].strip() for p in sig.split(",") if p.strip() and p.strip() != "*"]
    pos = 0
    for r in range(reps):
        ctx.check(ctx.eq(got[r], ret[r]), "the caller got another value than the driver method's")
        end = next((i for i in range(pos + 1, len(log)) if log[i][0] == "call"), len(log))
        ev = log[pos:end]
        pos = end
        start_c = ev[0][3]
        exp = {n: args[r].get(n, DEFAULTS.get((si, n))) for n in names}
        if len(exp) > len(args[r]):
            ctx.note("defaults")
        bodies = [i for i, x in enumerate(ev) if x[0] == "body"]
        ends = [i for i, x in enumerate(ev) if x[0] == "end"]
        ctx.check(len(bodies) == 1 and len(ends) == 1, "the driver method's body did not run exactly once")
        ctx.check(ev[bodies[0]][3] == start_c, "the driver method's body started in a later cycle")
        ctx.check(same(ctx, ev[bodies[0]][2], exp), "the driver method got other arguments")
        seen = []
        for i, x in enumerate(ev):
            if x[0] != "hook":
                continue
            m, h = x[1]
            seen.append(x[1])
            order = cfg[m][1]
            if order == "model_first":
                ctx.note("mf")
                ctx.check(i < bodies[0] and x[3] == start_c, "a model-first hook did not run before the body in the cycle of the call")
            else:
                ctx.note("df")
                ctx.check(i > ends[0] and x[3] == ev[ends[0]][3], "a design-first hook did not run after the body in the cycle in which it ended")
            if h == "driver":
                ctx.check(same(ctx, x[2], exp), "a driver hook got other arguments")
            else:
                ctx.check(x[2][0] == "a.send", "an agent hook got another path")
                ctx.check(same(ctx, dict(x[2][1]), exp), "an agent hook got another dictionary")
        want = sorted((m, h) for m in range(nmodels) for h in cfg[m][0])
        ctx.check(sorted(seen) == want, "the matching hooks did not run exactly once each")


def same(ctx, d, exp):
    return sorted(d) == sorted(exp) and ctx.And(*[ctx.eq(d[n], exp[n]) for n in exp])


@harness("C08", params=[{"n": 2}], thorough=[{"n": 3}], labels=("end",))
def concurrent(ctx, n):
    """n concurrent calls of methods of two agents, each with any argument, in bodies of 0..2 cycles: the
    hooks of each run once with its own argument, and hooks of methods not called never run"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    tgt = [ctx.choose(f"t{i}", ["a.send", "a.recv", "b.send"]) for i in range(n)]
    dur = [ctx.choose(f"d{i}", 3) for i in range(n)]
    val = [ctx.int(f"v{i}") for i in range(n)]
    order = ctx.choose("order", ["model_first", "dut_first"])
    log = []
    duts = []

    class A(Agent):
        @driver_method()
        async def send(self, x, d):
            await self.bundle.step(d[0])
            log.append(("send", x, duts[0].cyc(), d))

        @driver_method()
        async def recv(self, x, d):
            await self.bundle.step(d[0])
            log.append(("recv", x, duts[0].cyc(), d))

    class M(Model):
        @driver_hook("a.send", sche_order=order)
        def s(self, x, d):
            log.append(("h a.send", x, duts[0].cyc(), d))

        @driver_hook("a.recv", sche_order=order)
        def r(self, x, d):
            log.append(("h a.recv", x, duts[0].cyc(), d))

        @agent_hook("b", sche_order=order)
        def b(self, name, args):
            log.append(("g " + name, args["x"], duts[0].cyc(), args["d"]))

        @agent_hook(methods=["a.recv", "b.send"], sche_order=order)
        def q(self, name, args):
            log.append(("q " + name, args["x"], duts[0].cyc(), args["d"]))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A, b=A)
        e.attach(M())
        await toffee.ClockCycles(dut, 1)
        ts = []
        for i in range(n):
            ag, me = tgt[i].split(".")
            ts.append(toffee.create_task(getattr(getattr(e, ag), me)(val[i], (dur[i], i))))
        for t in ts:
            await t

    run(test)
    for kind, hits in (
        ("h a.send", ["a.send"]),
        ("h a.recv", ["a.recv"]),
        ("g b.send", ["b.send"]),
        ("q a.recv", ["a.recv"]),
        ("q b.send", ["b.send"]),
    ):
        mine = [i for i in range(n) if tgt[i] in hits]
        seen = sorted((x for x in log if x[0] == kind), key=lambda x: x[3][1])
        ctx.check(len(seen) == len(mine), "a hook did not run exactly once per matching call")
        for i, x in zip(mine, seen):
            ctx.check(x[3][1] == i, "a hook did not run exactly once per matching call")
            ctx.check(ctx.eq(x[1], val[i]), "a hook got the argument of another call")
            ctx.check(x[2] == (1 if order == "model_first" else 1 + dur[i]), "a hook ran in another cycle")
    ctx.check(not any(x[0] in ("g b.recv", "q a.send") for x in log), "a hook ran for a method that was not called")
    ctx.note("end")


@harness("C08", params=[{"n": 2}], thorough=[{"n": 3}], labels=("inherited", "overridden", "mixin"))
def derived(ctx, n):
    """models whose hooks come from the class, a base class, a mixin, or override those of the base class; environments whose
    agents are made by the initialiser of the class, of a base class, or of both; agents with methods from a base class;
    n calls of any of the methods, any arguments: each hook in force runs once for its call, the overridden ones never"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.env import Env
    from toffee.model import Model, agent_hook, driver_hook

    how = ctx.choose("model", 4)
    where = ctx.choose("agents", 3)
    order = ctx.choose("order", ["model_first", "dut_first"])
    calls = [(ctx.choose(f"agent{i}", "xy"), ctx.choose(f"method{i}", ["send", "more"]), ctx.int(f"v{i}")) for i in range(n)]
    log = []

    class A0(Agent):
        @driver_method()
        async def send(self, v):
            await self.bundle.step()
            return v

    class A(A0):
        @driver_method()
        async def more(self, v):
            return v


    class Base(Model):
        @driver_hook("x.send", sche_order=order)
        def one(self, v):
            log.append(("base one", "x", "send", v))

        @agent_hook("y", sche_order=order)
        def two(self, path, args):
            log.append(("base two",) + tuple(path.split(".")) + (args["v"],))

    class Mixin:
        @driver_hook("x.more", sche_order=order)
        def three(self, v):
            log.append(("mixin three", "x", "more", v))

    if how == 0:

        class M(Base):
            pass

        table = {("x", "send"): ["base one"], ("y", "send"): ["base two"], ("y", "more"): ["base two"]}
        ctx.note("inherited")
    elif how == 1:

        class M(Base):
            @driver_hook("x.more", sche_order=order)
            def one(self, v):
                log.append(("derived one", "x", "more", v))

        table = {("x", "more"): ["derived one"], ("y", "send"): ["base two"], ("y", "more"): ["base two"]}
        ctx.note("overridden")
    elif how == 2:

        class M(Mixin, Base):
            pass

        table = {("x", "send"): ["base one"], ("x", "more"): ["mixin three"], ("y", "send"): ["base two"], ("y", "more"): ["base two"]}
        ctx.note("mixin")
    else:

        class M1(Base):
            @agent_hook("x", sche_order=order)
            def two(self, path, args):
                log.append(("derived two",) + tuple(path.split(".")) + (args["v"],))

        class M(M1):
            def __init__(self):
                super().__init__()
                self.extra = 1

        table = {("x", "send"): ["base one", "derived two"], ("x", "more"): ["derived two"]}
        ctx.note("overridden")

    def build(b):
        class E0(Env):
            def __init__(self):
                super().__init__()
                if where != 0:
                    self.x = A(b)
                if where == 1:
                    self.y = A(b)

        class E(E0):
            def __init__(self):
                super().__init__()
                if where == 0:
                    self.x = A(b)
                if where != 1:
                    self.y = A(b)

        class Last(E):
            pass

        return Last()

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = build(plain_bundle(dut, ["p"]))
        e.attach(M())
        for a, m, v in calls:
            await getattr(getattr(e, a), m)(v)
        await toffee.ClockCycles(dut, 1)

    run(test)
    want = [(h, a, m, v) for a, m, v in calls for h in table.get((a, m), [])]
    key = lambda t: t[:3]
    ctx.check(sorted(map(key, log)) == sorted(map(key, want)), f"the hooks in force did not run once each: {[key(t) for t in log]}")
    for k in {key(t) for t in want}:
        got, exp = [t[3] for t in log if key(t) == k], [t[3] for t in want if key(t) == k]
        ctx.check(ctx.And(*[ctx.eq(x, y) for x, y in zip(got, exp)]), "a hook got another argument")
