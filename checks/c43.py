"""C43: the log of bindings and comparisons tells what happened."""
from sx.common import harness

from .bundles import NDUT, dotted, fetch, is_pin, make
from .c18 import cases, mentions
from .lib import DUT, LogCapture, make_env, plain_bundle, run


def says(texts, pin, path):
    return [t for t in texts if mentions(t, pin) and mentions(t, path)]


@harness("C43", params=[{}], labels=("all", "some", "none", "again"))
def binding(ctx):
    """16 structures (all rule kinds, lists, three levels), each signal's pin symbolically present or absent, the
    bundle with and without a name, bound once, or again to a design with the other pins: one message for each
    connection, naming pin and path, none for anything else, and none from queries"""
    cs = cases()
    ci = ctx.choose("case", len(cs))
    spec, rule, sigs = cs[ci]
    named = ctx.choose("named", 2)
    again = ctx.choose("again", 2)
    real = [(p, pin) for p, pin, _ in sigs if pin is not None]
    here = {p: bool(ctx.bool("pin " + dotted(p))) for p, _ in real}
    with LogCapture("INFO") as lc:
        b = make(spec.cls(), rule)
        if named:
            b.set_name("top")
    ctx.check(not lc.texts("INFO"), "creating a bundle logs connections")
    if again:
        b.bind(NDUT([pin for p, pin in real if not here[p]] + ["other"]))
        ctx.note("again")
    dut = NDUT([pin for p, pin in real if here[p]] + ["unrelated"])
    with LogCapture("INFO") as lc:
        for _, pin in real[:2]:
            b.detect_connectivity(pin)
            b.detect_specific_connectivity(pin, dotted(real[0][0]))
        b.all_signals_rule()
    ctx.check(not lc.texts("INFO"), "a query logs connections")
    with LogCapture("INFO") as lc:
        b.bind(dut)
    texts = lc.texts("INFO")
    top = "top." if named else ""
    n = 0
    for p, pin in real:
        got = says(texts, pin, top + dotted(p))
        if here[p]:
            n += 1
            ctx.check(fetch(b, p) is getattr(dut, pin), f"{dotted(p)} is not connected")
            ctx.check(len(got) >= 1, f"no message says that {pin} is connected to {top + dotted(p)}: {texts}")
        else:
            ctx.check(not is_pin(fetch(b, p)), f"{dotted(p)} is connected")
            ctx.check(not got, f"a message says that {pin} is connected to {top + dotted(p)}")
    ctx.check(len(texts) == n, "not one message for each connection")
    ctx.check(not [t for t in texts if mentions(t, "unrelated")], "a message names a pin that is not connected")
    ctx.note("all" if n == len(real) else "none" if n == 0 else "some")


class Item:
    """A value with a text of its own, equal to others by a number"""

    def __init__(self, name, v):
        self.name, self.v = name, v

    def __eq__(self, o):
        return isinstance(o, Item) and self.v == o.v

    def __str__(self):
        return self.name

    __repr__ = __str__
    __hash__ = None


@harness("C43", params=[{"n": 2}], thorough=[{"n": 4}], labels=("mismatch", "agree"))
def comparisons(ctx, n):
    """n driver calls one after the other, each compared with the result of a driver hook or agent hook of either order: the
    first that differs logs one error that shows both values, those that agree none"""
    import toffee
    from toffee.agent import Agent, driver_method
    from toffee.model import Model, agent_hook, driver_hook

    kind = ctx.choose("kind", 2)
    order = ctx.choose("order", ["model_first", "dut_first"])
    d = [Item(f"<dut {i}>", ctx.int(f"d{i}")) for i in range(n)]
    s = [Item(f"<std {i}>", ctx.int(f"s{i}")) for i in range(n)]
    made = []

    class A(Agent):
        @driver_method()
        async def send(self, c):
            return d[c]

    class M(Model):
        if kind:

            @agent_hook("a", sche_order=order)
            def h(self, path, args):
                return s[args["c"]]

        else:

            @driver_hook("a.send", sche_order=order)
            def h(self, c):
                return s[c]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())
        for c in range(n):
            made.append(c)
            await e.a.send(c)
            await toffee.ClockCycles(dut, 1)

    with LogCapture("INFO") as lc:
        try:
            run(test)
            failed = False
        except Exception:  # noqa
            failed = True
    errors = lc.texts("ERROR")
    bad = [c for c in range(n) if not (d[c].v == s[c].v)]
    if bad:
        c = bad[0]
        ctx.note("mismatch")
        ctx.check(failed, "a mismatch does not fail the run")
        ctx.check(len(errors) == 1 and f"<dut {c}>" in errors[0] and f"<std {c}>" in errors[0], "no error shows both values of the mismatch")
        ctx.check(made == list(range(c + 1)), "the run goes on after the mismatch")
    else:
        ctx.note("agree")
        ctx.check(not failed and not errors, "an error is logged although all values agree")
    for c in range(n):
        shown = [t for l, t in lc.records if f"<dut {c}>" in t or f"<std {c}>" in t]
        ctx.check(all(f"<dut {c}>" in t and f"<std {c}>" in t for t in shown), "a comparison is reported without one of the values")
        ctx.check(len(shown) == (1 if not bad or c <= bad[0] else 0), "a comparison is not reported exactly once")
