"""C05: a run ends cleanly and returns what the test returned."""
import asyncio

from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


class Boom(Exception):
    pass


@harness("C05", params=[{"k": 2}], thorough=[{"k": 6}], labels=("ret", "exc", "noclock", "factory"))
def outcome(ctx, k):
    """every kind of returned value (any integer, None, a tuple, a list, an exception object) or raised
    exception, after a symbolic number 0..k of cycles, with and without a clock, test given as a function
    or a coroutine, with a factory returning nothing, one value (also 0, empty text, a list), or tuples of 0..3 values,
    or no factory"""
    import toffee

    clock = ctx.choose("clock", 2)
    n = ctx.int("n", 0, k) if clock else 0
    v = ctx.int("v")
    rk = ctx.choose("rk", 8)
    vals = [v, None, (v, 2), [v], Boom("returned"), {}, Boom("raised"), AssertionError("assert")]
    val = vals[rk]
    mode = ctx.choose("mode", 12)  # 0 function, 1 coroutine, 2.. factory
    ret = [None, v, [v, 1], (), (v,), (v, 2), (v, 2, 3), 0, "", []]
    order = []
    duts = []

    async def body():
        order.append("test")
        if clock:
            dut = DUT(["p"])
            duts.append(dut)
            toffee.start_clock(dut)
            await toffee.ClockCycles(dut, n)
        elif ctx.choose("yield", 2):
            await asyncio.sleep(0)
        if rk >= 6:
            raise val
        return val

    got_args = []

    def factory():
        order.append("factory")
        return ret[mode - 2]

    async def test(*a):
        got_args.append(a)
        return await body()

    try:
        if mode == 0:
            r = run(test)
        elif mode == 1:
            r = run(test())
        else:
            r = run(test, factory)
        raised = None
    except (Boom, AssertionError) as e:
        raised = e
        r = None
    if rk >= 6:
        ctx.check(raised is val, "the exception of the test did not come out of the run")
        ctx.note("exc")
    else:
        ctx.check(raised is None, "the run failed although the test returned")
        if rk == 0:
            ctx.check(ctx.eq(r, v), "the run returned another value")
        else:
            ctx.check(r is val, "the run returned another value")
        ctx.note("ret")
        if clock:
            ctx.check(duts[0].cyc() == n + 1, "the design was not stepped exactly once after the test returned")
    if not clock:
        ctx.note("noclock")
    ctx.check(len(got_args) == 1, "the test was not called once")
    if mode >= 2:
        ctx.note("factory")
        ctx.check(order == ["factory", "test"], "the factory was not called first")
        f = ret[mode - 2]
        exp = f if isinstance(f, tuple) else (f,)
        a = got_args[0]
        ctx.check(len(a) == len(exp), "the test got another number of arguments")
        for x, y in zip(a, exp):
            if isinstance(y, list):
                ctx.check(x is y, "the test got another argument")
            else:
                ctx.check(x is y or ctx.eq(x, y), "the test got another argument")
    else:
        ctx.check(got_args[0] == (), "a test without factory got arguments")


@harness("C05", params=[{"n": 2, "k": 1}], thorough=[{"n": 3, "k": 1}], labels=("end", "work"))
def ending(ctx, n, k):
    """the test returns in cycle 0..k while n tasks exist, each either waiting forever, waiting for
    steps, or still having work triggered in that cycle (through an event, a queue, bare yields, a
    further task); all triggered work is done in that cycle, then exactly one step, then all
    remaining tasks have been cancelled, whatever the test returns"""
    import toffee

    kinds = [ctx.choose(f"k{i}", 6) for i in range(n)]
    stop = ctx.int("stop", 0, k)
    ret = ["done", False, 0, None, ()][ctx.choose("ret", 5)]
    log, cancelled, steps = [], [], []
    duts = []

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        qs, ev = [toffee.Queue() for _ in range(n)], asyncio.Event()
        started = []

        async def t(i):
            started.append(i)
            try:
                kd = kinds[i]
                if kd == 0:
                    await asyncio.Event().wait()
                elif kd == 1:
                    while True:
                        await toffee.ClockCycles(dut)
                        steps.append(dut.cyc())
                elif kd == 2:
                    await ev.wait()
                    log.append((i, dut.cyc()))
                elif kd == 3:
                    while True:
                        await qs[i].get()
                        log.append((i, dut.cyc()))
                elif kd == 4:
                    await ev.wait()
                    for _ in range(4):
                        await asyncio.sleep(0)
                    log.append((i, dut.cyc()))
                else:
                    await ev.wait()

                    async def child():
                        await toffee.sleep(0)
                        log.append((i, dut.cyc()))

                    toffee.create_task(child())
            except asyncio.CancelledError:
                cancelled.append((i, dut.cyc()))
                raise

        ts = [toffee.create_task(t(i)) for i in range(n)]
        await toffee.ClockCycles(dut, stop)
        ev.set()
        for i in range(n):
            if kinds[i] == 3:
                await qs[i].put(1)
        return ret

    r = run(test)
    ctx.check(r is ret, "the run returned another value")
    dut = duts[0]
    ctx.check(dut.cyc() == stop + 1, "the design was not stepped exactly once after the test returned")
    work = [i for i in range(n) if kinds[i] >= 2]
    ctx.check(sorted(i for i, _ in log) == work, "work triggered before the test returned was not completed")
    ctx.check(all(c == stop for _, c in log), "work triggered before the test returned ran after the last step")
    wait = [i for i in range(n) if kinds[i] in (0, 1, 3)]
    ctx.check(sorted(i for i, _ in cancelled) == wait, "the tasks still waiting were not cancelled, once each")
    ctx.check(all(s <= stop for s in steps), "a task saw the final step")
    if work:
        ctx.note("work")
    ctx.note("end")


@harness("C05", params=[{}], labels=("end",))
def pending_hooks(ctx):
    """the test's last statement is a driver call (awaited, or started as a task in the last
    instant) in cycle 0..1: model-first and design-first hooks and monitor hooks of that cycle run"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.env import Env
    from toffee.model import Model, driver_hook, monitor_hook

    order = ctx.choose("order", ["model_first", "dut_first"])
    how = ctx.choose("how", 2)
    stop = ctx.int("stop", 0, 2)
    mon = ctx.choose("mon", 2)
    x = ctx.int("x")
    log, mlog, duts = [], [], []

    class A(Agent):
        @driver_method()
        async def send(self, v):
            log.append(("body", v, duts[0].cyc()))
            return v

        @monitor_method()
        async def watch(self):
            return duts[0].cyc()

    class M(Model):
        @driver_hook(agent_name="a", driver_name="send", sche_order=order)
        def h(self, v):
            log.append(("hook", v, duts[0].cyc()))
            return v

        if mon:

            @monitor_hook(agent_name="a", monitor_name="watch")
            def w(self, v):
                mlog.append((v, duts[0].cyc()))

    class E(Env):
        def __init__(self, b):
            super().__init__()
            self.a = A(b)

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = E(plain_bundle(dut, ["p"]))
        e.attach(M())
        await toffee.ClockCycles(dut, stop)
        if how == 0:
            await e.a.send(x)
        else:
            toffee.create_task(e.a.send(x))

    run(test)
    exp = ["hook", "body"] if order == "model_first" else ["body", "hook"]
    ctx.check([l[0] for l in log] == exp, "a pending hook or call was not completed when the test returned")
    ctx.check(ctx.And(*[ctx.eq(l[1], x) for l in log]), "a pending hook got another argument")
    ctx.check(all(l[2] == stop for l in log), "a pending hook ran in another cycle")
    if mon:
        ctx.check(mlog == [(c, c) for c in range(1, stop + 1)], "a monitor hook of the last cycle was lost or came late")
    ctx.check(duts[0].cyc() == stop + 1, "the design was not stepped exactly once after the test returned")
    ctx.note("end")


@harness("C05", params=[{"n": 8, "far": (60, 400)}], thorough=[{"n": 20, "far": (60, 400, 3000)}], labels=("short", "far"),
         fallback=[{"n": 4, "far": (60,)}])
def long_end(ctx, n, far):
    """when the test returns (in cycle 0..1) it has triggered a chain of up to n further links, or of the lengths in `far`:
    bare yields, tasks that wake each other through queues or events, or tasks that start each other; the last link makes a
    driver call with a hook of either order: all of it is done in that cycle, then exactly one step"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, driver_hook

    kind = ctx.choose("kind", 4)
    length = ctx.concrete(ctx.int("length", 0, n + len(far)))
    ctx.note("far" if length > n else "short")
    if length > n:
        length = far[length - n - 1]
    stop = ctx.choose("stop", 2)
    order = ctx.choose("order", ["model_first", "dut_first"])
    x = ctx.int("x")
    log, duts, got = [], [], []

    class A(Agent):
        @driver_method()
        async def send(self, v):
            log.append(("body", v, duts[0].cyc()))
            return v

    class M(Model):
        @driver_hook("a.send", sche_order=order)
        def h(self, v):
            log.append(("hook", v, duts[0].cyc()))

    async def test():
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())

        async def end():
            got.append(await e.a.send(x))

        if kind == 0:
            ev = asyncio.Event()

            async def t():
                await ev.wait()
                for _ in range(length):
                    await asyncio.sleep(0)
                await end()

            toffee.create_task(t())
            fire = ev.set
        elif kind == 3:

            async def t(i):
                if i < length:
                    toffee.create_task(t(i + 1))
                else:
                    await end()

            fire = lambda: toffee.create_task(t(0))
        else:
            cells = [toffee.Queue() if kind == 1 else asyncio.Event() for _ in range(length + 1)]

            async def t(i):
                await (cells[i].get() if kind == 1 else cells[i].wait())
                if i < length:
                    wake(i + 1)
                else:
                    await end()

            def wake(i):
                if kind == 1:
                    cells[i].put_nowait(i)
                else:
                    cells[i].set()

            for i in range(length + 1):
                toffee.create_task(t(i))
            fire = lambda: wake(0)
        await toffee.ClockCycles(dut, stop)
        fire()

    run(test)
    ctx.check([s[0] for s in log] == (["hook", "body"] if order == "model_first" else ["body", "hook"]), "work triggered before the test returned was not completed")
    ctx.check(all(s[2] == stop for s in log), "work triggered before the test returned ran in another cycle")
    ctx.check(len(got) == 1 and ctx.eq(got[0], x), "a driver call pending when the test returned was not completed")
    ctx.check(duts[0].cyc() == stop + 1, "the design was not stepped exactly once after the test returned")
