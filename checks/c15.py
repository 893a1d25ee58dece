"""C15: attaching accepts a model if and only if everything in it matches."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run

DT = [("a", "send"), ("ab", "send"), ("b", "send"), ("b", "recv"), ("c", "send"), ("a", "nope"), ("a", "watch"), ("z", "zap"), ("_u", "send")]
MT = [("a", "watch"), ("b", "look"), ("a", "send"), ("c", "watch"), ("a", "nope"), ("z", "see")]
AT = [
    ("agent", "a"), ("agent", "c"), ("own", "b"), ("own", "nope"), ("agent", "z"), ("agent", "attached_models"),
    ("agents", ["a"]), ("agents", ["a", "b"]), ("agents", ["b", "c"]), ("agents", ["attach"]), ("agents", ["c"]),
    ("methods", ["a.send"]), ("methods", ["b.recv", "a.watch"]), ("methods", ["a.nope"]),
    ("methods", ["a.send", "c.send"]), ("methods", ["a.send", "a.send"]), ("methods", ["z.zap"]),
    ("both", (["a"], ["b.look"])), ("both", (["b"], ["b.recv"])), ("both", (["a"], ["b.nope"])),
    ("named b", ["a.send"]),
    ("own", "ab"), ("agents", ["ab"]), ("agents", ["ab", "a"]), ("methods", ["ab.send"]),
    ("agent", "_u"), ("agents", ["_u", "a"]), ("methods", ["_u.send"]),
]
FORMS = ["path", "agent+name", "agent", "own"]
SPECS = (
    [(k, f, t) for k in ("dhook", "dport") for f in FORMS for t in DT]
    + [(k, f, t) for k in ("mhook", "mport") for f in FORMS for t in MT]
    + [(k, None, t) for k in ("ahook", "aport") for t in AT]
)
DRIVERS = {"a": ["send"], "b": ["send", "recv"], "ab": ["send"], "_u": ["send"]}
MONITORS = {"a": ["watch"], "b": ["look"]}


def elem(i, spec, log):
    """(attribute name, maker) of a hook or port."""
    from toffee.model import AgentPort, DriverPort, MonitorPort, agent_hook, driver_hook, monitor_hook

    kind, form, t = spec
    if kind[0] in "dm":
        word = "driver" if kind[0] == "d" else "monitor"
        ag, me = t
        name, kw = {
            "path": (f"e{i}", {word + "_path": f"{ag}.{me}"}),
            "agent+name": (f"e{i}", {"agent_name": ag, word + "_name": me}),
            "agent": (me, {"agent_name": ag}),
            "own": (f"{ag}__{me}", {}),
        }[form]
        if kind.endswith("port"):
            return name, lambda: (DriverPort if kind[0] == "d" else MonitorPort)(**kw)

        def h(self, x):
            log.append((i, x))

        h.__name__ = name
        return name, (driver_hook if kind[0] == "d" else monitor_hook)(**kw)(h)
    f, v = t
    name, kw = {
        "agent": (f"e{i}", {"agent_name": v}),
        "own": (v, {}),
        "agents": (f"e{i}", {"agents": v}),
        "methods": (f"e{i}", {"methods": v}),
        "both": (f"e{i}", {"agents": v[0], "methods": v[-1]}),
        "named b": ("b", {"methods": v}),
    }[f]
    if kind == "aport":
        return name, lambda: AgentPort(maxsize=-1, **kw)

    def g(self, path, x):
        log.append((i, path))

    g.__name__ = name
    return name, agent_hook(**kw)(g)


def target(spec, drivers, monitors):
    """(accepted, set of methods named) by the documentation."""
    kind, form, t = spec
    allm = {f"{a}.{m}": "d" for a in drivers for m in drivers[a]}
    allm.update({f"{a}.{m}": "m" for a in monitors for m in monitors[a]})
    if kind[0] in "dm":
        p = "%s.%s" % t
        return allm.get(p) == kind[0], {p}
    f, v = t
    ags, ms = {
        "agent": ([v], []), "own": ([v], []), "agents": (v, []), "methods": ([], v), "both": v, "named b": ([], v),
    }[f]
    ok = all(a in drivers for a in ags) and all(m in allm for m in ms)
    return ok, {p for p in allm if p.split(".")[0] in ags} | set(ms)


def model_class(specs, log):
    from toffee.model import Model

    ns, ports = {}, {}
    names = {}
    for i, s in enumerate(specs):
        n, v = elem(i, s, log)
        if n in names.values():
            return None
        names[i] = n
        (ports if s[0].endswith("port") else ns)[n] = v

    class M(Model):
        def __init__(self):
            super().__init__()
            for n, mk in ports.items():
                setattr(self, n, mk())

    for n, v in ns.items():
        setattr(M, n, v)
    M._names = names
    return M


def agents(active):
    from toffee.agent import Agent, driver_method, monitor_method

    class A(Agent):
        @driver_method()
        async def send(self, x):
            return None

        @monitor_method()
        async def watch(self):
            return "a.watch" if active[0] else None

    class B(Agent):
        @driver_method()
        async def send(self, x):
            return None

        @driver_method()
        async def recv(self, x):
            return None

        @monitor_method()
        async def look(self):
            return "b.look" if active[0] else None

    class Z(Agent):
        @driver_method()
        async def zap(self, x):
            return None

        @driver_method()
        async def nope(self, x):
            return None

        @monitor_method()
        async def see(self):
            return None

    class AB(Agent):
        @driver_method()
        async def send(self, x):
            return None

    return A, B, Z, AB


async def exercise(e, dut, active, skip=()):
    """Calls every driver method with its own path, and lets every monitor return its path once."""
    import toffee

    for ag in DRIVERS:
        for me in DRIVERS[ag]:
            await getattr(getattr(e, ag), me)(f"{ag}.{me}")
    active[0] = True
    await toffee.ClockCycles(dut, 1)
    for _ in range(6):
        await toffee.sleep(0)
    active[0] = False
    await toffee.ClockCycles(dut, 1)


def seen(i, spec, m, log):
    """The methods that triggered element i."""
    if not spec[0].endswith("port"):
        return sorted(p for k, p in log if k == i)
    q = getattr(m, type(m)._names[i])
    items = []
    while not q.empty():
        items.append(q.get_nowait())
    return sorted(x[0] if spec[0] == "aport" else x for x in items)


@harness(
    "C15",
    params=[{"prior": 0}, {"prior": 1}, {"prior": 2}],
    labels=("accept", "reject"),
)
def single(ctx, prior):
    """every kind of hook and port in every form of naming with matching and non-matching targets, in a model
    on its own; with the same class attached before to an environment where everything exists (1), or
    with another model and environment attached before (2)"""
    _attach(ctx, [ctx.choose("spec", SPECS)], prior)


@harness(
    "C15",
    params=[{"n": 2}],
    thorough=[{"n": 2, "every": 1}, {"n": 3}],
    labels=("accept", "reject"),
)
def several(ctx, n, every=5):
    """models with n hooks and ports (a spread of the cases), one after the other attached model"""
    sub = SPECS[::every]
    _attach(ctx, [ctx.choose(f"spec{i}", sub) for i in range(n)], ctx.choose("prior", [0, 2]) if every > 1 else 0)


def _attach(ctx, specs, prior):
    import toffee

    log, other_log = [], []
    active = [False]
    M = model_class(specs, log)
    # two elements for one path in one model: outside the claim
    keys = [(s[0], tuple(target(s, DRIVERS, MONITORS)[1])) for s in specs if s[0][0] in "dm"]
    if M is None or len(set(keys)) != len(keys):
        ctx.assume(False)
    targets = [target(s, DRIVERS, MONITORS) for s in specs]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        b = plain_bundle(dut, ["p"])
        A, B, Z, AB = agents(active)
        e = make_env(b, a=A, b=B, ab=AB, _u=AB)
        if prior == 1:
            # an environment that has nearly everything
            class Both(*agents([False])[:3]):
                pass

            full = make_env(b, a=Both, b=Both, c=Both, z=Both, ab=Both, _u=Both)
            try:
                full.attach(M())
            except ValueError:
                pass
        elif prior == 2:
            from toffee.model import Model, agent_hook

            class Other(Model):
                @agent_hook(agents=["a", "b", "ab", "_u"])
                def all(self, path, x):
                    other_log.append(path)

            class Other2(Model):
                @agent_hook(agents=["a", "b"])
                def all(self, path, x):
                    pass

            e.attach(Other())
            make_env(b, a=A, b=B, c=B).attach(Other2())
        m = M()
        ok = all(t[0] for t in targets)
        try:
            e.attach(m)
            acc = True
        except ValueError:
            acc = False
        ctx.check(acc == ok, "attach accepted a model with something unmatched" if acc else "attach rejected a model in which everything matches")
        ctx.note("accept" if ok else "reject")
        await exercise(e, dut, active)
        drv = {f"{a}.{x}" for a in DRIVERS for x in DRIVERS[a]}
        with_port = set()
        for s, t in zip(specs, targets):
            if s[0] in ("dport", "aport"):
                with_port |= t[1] & drv
        for i, s in enumerate(specs):
            got = seen(i, s, m, log)
            exp = sorted(targets[i][1]) if ok else []
            if s[0] in ("dhook", "ahook"):
                # a model with a port for a driver method is served through the port (see C08)
                exp = [p for p in exp if p not in with_port]
            ctx.check(got == exp, "a hook or port was triggered by other methods than it names")
        if prior == 2:
            ctx.check(sorted(other_log) == sorted(list(drv) + ["a.watch", "b.look"]), "attaching a model disturbed another one")

    run(test)


@harness("C15", params=[{"L": 3}], thorough=[{"L": 4}], labels=("accept", "reject"))
def text(ctx, L):
    """a driver hook, driver port, monitor hook or agent hook or port (by path, agent, own name, list) whose
    path is any text of 1..L characters over a, b, s, t, dot and underscore, in an environment
    with methods a.s, b.s, b.t (drivers) and a.t, ab.s (monitors)"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import AgentPort, DriverPort, Model, MonitorPort, agent_hook, driver_hook, monitor_hook

    what = ctx.choose("what", ["dhook", "dport", "mhook", "mport", "agent", "agents", "methods", "aport", "amethods", "split"])
    p = ctx.str("path", "abst._", 1, L)
    q = ctx.str("name", "st", 1, 1) if what == "split" else None

    def dm(n):
        async def f(self, x):
            return None

        f.__name__ = n
        return driver_method()(f)

    def mm(n):
        async def f(self):
            return None

        f.__name__ = n
        return monitor_method()(f)

    A = type("A", (Agent,), {"s": dm("s"), "t": mm("t")})
    B = type("B", (Agent,), {"s": dm("s"), "t": dm("t")})
    AB = type("AB", (Agent,), {"s": mm("s")})
    ns = {}

    def one(self, x):
        pass

    def two(self, path, x):
        pass

    if what == "dhook":
        ns["h"] = driver_hook(p)(one)
    elif what == "split":
        ns["h"] = driver_hook(agent_name=p, driver_name=q)(one)
    elif what == "mhook":
        ns["h"] = monitor_hook(p)(one)
    elif what == "agent":
        ns["h"] = agent_hook(p)(two)
    elif what == "agents":
        ns["h"] = agent_hook(agents=[p, "a"])(two)
    elif what == "methods":
        ns["h"] = agent_hook(methods=["a.s", p])(two)
    else:

        def init(self):
            Model.__init__(self)
            self.h = {
                "dport": lambda: DriverPort(p),
                "mport": lambda: MonitorPort(p),
                "aport": lambda: AgentPort(p),
                "amethods": lambda: AgentPort(methods=[p, "b.t"]),
            }[what]()

        ns["__init__"] = init
    M = type("M", (Model,), ns)

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A, b=B, ab=AB)
        try:
            e.attach(M())
            acc = True
        except ValueError:
            acc = False
        drv, mon, ags = ["a.s", "b.s", "b.t"], ["a.t", "ab.s"], ["a", "b", "ab"]
        if what == "split":
            ok = ctx.Or(*[ctx.And(p == d[:-2], q == d[-1]) for d in drv])
        else:
            names = {
                "dhook": drv, "dport": drv, "mhook": mon, "mport": mon, "agent": ags, "agents": ags,
                "aport": ags, "methods": drv + mon, "amethods": drv + mon,
            }[what]
            ok = ctx.Or(*[p == n for n in names])
        if acc:
            ctx.check(ok, "attach accepted a model with something unmatched")
            ctx.note("accept")
        else:
            ctx.check(ctx.Not(ok), "attach rejected a model in which everything matches")
            ctx.note("reject")

    run(test)
