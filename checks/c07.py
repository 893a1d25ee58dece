"""C07: a mismatch with the reference model fails the run, agreement never does."""
from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run


def _model(hooks, results, calls):
    """A model with the given hooks: (kind, order) pairs; results(call, i) is what hook i returns."""
    from toffee.model import Model, agent_hook, driver_hook

    ns = {}
    for i, (kind, order) in enumerate(hooks):

        def mk(i=i, kind=kind, order=order):
            if kind == "driver":

                @driver_hook("a.send", sche_order=order)
                def h(self, c):
                    calls.append((i, c))
                    return results(c, i)

            else:

                @agent_hook("a", sche_order=order)
                def h(self, name, args):
                    calls.append((i, args["c"]))
                    return results(args["c"], i)

            return h

        ns[f"h{i}"] = mk()
    return type("M", (Model,), ns)()


SETS = [
    (("driver", "model_first"),),
    (("driver", "dut_first"),),
    (("agent", "model_first"),),
    (("agent", "dut_first"),),
    (("driver", "model_first"), ("agent", "dut_first")),
    (("driver", "dut_first"), ("agent", "model_first")),
    (("agent", "model_first"), ("agent", "dut_first")),
]


@harness(
    "C07",
    params=[{"ncalls": 1, "nmodels": 2, "sets": tuple(range(7))}, {"ncalls": 2, "nmodels": 1, "sets": tuple(range(7))}],
    thorough=[{"ncalls": 2, "nmodels": 2, "sets": tuple(range(7))}],
    labels=("mismatch", "agree", "last_cycle"),
    fallback=[{"ncalls": 1, "nmodels": 1, "sets": tuple(range(7))}],
)
def values(ctx, ncalls, nmodels, sets):
    """every set of hooks of every model (driver/agent, model-first/design-first), every hook result
    being None or any integer, every driver result any integer, bodies of 0 or 1 cycles, calls awaited one by
    one, run by an executor, or left running as tasks; the test ends at once or two cycles later"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.executor import Executor

    msets = [SETS[sets[ctx.choose(f"set{m}", len(sets))]] for m in range(nmodels)]
    cyc = ctx.choose("cyc", 2)
    how = ctx.choose("how", 3)
    tail = ctx.choose("tail", 2)
    d = [ctx.int(f"d{c}") for c in range(ncalls)]
    none = {}
    res = {}
    for m in range(nmodels):
        for i in range(len(msets[m])):
            for c in range(ncalls):
                none[m, i, c] = ctx.choose(f"none{m}{i}{c}", 2) if c == 0 or nmodels == 1 else 0
                res[m, i, c] = ctx.int(f"r{m}{i}{c}")
    called = [[] for _ in range(nmodels)]
    finished = []

    class A(Agent):
        @driver_method()
        async def send(self, c):
            if cyc:
                await self.bundle.step(cyc)
            finished.append(c)
            return d[c]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        for m in range(nmodels):
            e.attach(_model(msets[m], lambda c, i, m=m: None if none[m, i, c] else res[m, i, c], called[m]))
        await toffee.ClockCycles(dut, 1)
        if how == 0:
            for c in range(ncalls):
                await e.a.send(c)
        elif how == 1:
            async with Executor() as ex:
                for c in range(ncalls):
                    ex(e.a.send(c), sche_group=f"g{c}")
        else:
            for c in range(ncalls):
                toffee.create_task(e.a.send(c))
        if tail:
            await toffee.ClockCycles(dut, 2)

    try:
        run(test)
        failed = False
    except Exception:  # noqa
        failed = True
    done = list(range(ncalls)) if how < 2 or tail or not cyc else []
    if not failed:
        ctx.check(sorted(finished) == done, "a call did not complete")
    exp = ctx.Or(
        *[
            ctx.Not(ctx.eq(res[k], d[k[2]]))
            for k in res
            if not none[k] and k[2] in done
        ]
    )
    if failed:
        ctx.check(exp, "the run failed although every hook result is None or equal to the driver's value")
        ctx.note("mismatch")
    else:
        ctx.check(ctx.Not(exp), "a hook's result differs from the driver method's value and the run did not fail")
        ctx.note("agree")
        if not tail and how == 0:
            ctx.note("last_cycle")


@harness("C07", params=[{}], labels=("mismatch", "agree"))
def shapes(ctx):
    """structured and falsy values: every pair of driver result and hook result out of: any integer, any
    boolean, None, empty and non-empty text, lists, tuples and dictionaries around any integer"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    def val(tag, kind):
        v = ctx.int(tag, -2, 2)
        return [v, ctx.bool(tag + "b"), None, "", "t", [], [v], (), (v, 1), {}, {"k": v}, {"k": [v]}][kind]

    order = ctx.choose("order", ["model_first", "dut_first"])
    agent = ctx.choose("agent", 2)
    dk, mk = ctx.choose("dk", 12), ctx.choose("mk", 12)
    dv, mv = val("d", dk), val("m", mk)

    class A(Agent):
        @driver_method()
        async def send(self, x):
            return dv

    class M(Model):
        if agent:

            @agent_hook("a", sche_order=order)
            def h(self, name, args):
                return mv

        else:

            @driver_hook("a.send", sche_order=order)
            def h(self, x):
                return mv

    got = []

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        got.append(await e.a.send(1))
        await toffee.ClockCycles(dut, 1)

    try:
        run(test)
        failed = False
    except Exception:  # noqa
        failed = True
    if not failed or order == "dut_first":
        ctx.check(len(got) == 1, "the call did not return")
        ctx.check(got[0] is dv or ctx.eq(got[0], dv), "the caller got another value than the driver method's")
    if mv is None:
        ctx.check(not failed, "a hook that returned None failed the run")
        ctx.note("agree")
    elif mv == dv:
        ctx.check(not failed, "equal values failed the run")
        ctx.note("agree")
    else:
        ctx.check(failed, "different values did not fail the run")
        ctx.note("mismatch")
