"""C22: bundle instances of one class do not share state."""
from sx.common import harness

from .bundles import NDUT, Spec, dotted, fetch, is_pin, make
from .c17 import D, P, R
from .c21 import counts, kind
from .lib import LogCapture

LEAF = Spec(["a"])
IN = Spec(["a"], lists=[("v", "v#", 1)])
# structure, outer rule, pins, parts on which one can act
SPECS = [
    (Spec(["a"], lists=[("v", "v#", 2)], subs=[("s", P("s_"), IN)]), P(""), ["a", "v0", "v1", "s_a", "s_v0"], [(), ("s",)]),
    (Spec(["a", "b"], blists=[("k", "k#_", 2, IN)], declared=True), P("p_"), ["p_a", "p_b", "p_k0_a", "p_k0_v0", "p_k1_a", "p_k1_v0"], [(), (("k", 0),), (("k", 1),)]),
    (Spec([], subs=[("s", R("s(.*)"), Spec(["_a"], subs=[("t", P("t"), LEAF)]))]), P(""), ["s_a", "sta"], [(), ("s",), ("s", "t")]),
    (Spec([], subs=[("s", P("s_"), Spec([], blists=[("k", "#_", 2, LEAF)]))]), D({"s_0_a": "x", "s_1_a": "y"}), ["x", "y"], [(), ("s",), ("s", ("k", 0)), ("s", ("k", 1))]),
]
OPS = 11


def snap(b, spec):
    """What a user sees of a bundle."""
    paths = [p for p, _, _ in spec.leaves()]
    parts = sorted({q[:i] for q in paths for i in range(0, len(q))}, key=str)
    out = [kind(b, p) for p in paths]
    out += [n for n, _ in b.all_signals()]
    with LogCapture("WARNING"):
        for q in parts:
            o = fetch(b, q)
            out += [dotted(q), o.name, o.bound, o.write_mode]
        out.append(sorted(b.all_signals_rule().items()))
    return out


def norm(s, dut):
    return [("pin", dut._pins.index(x)) if is_pin(x) and x in dut._pins else x for x in s]


def act(ctx, k, b, o, dut):
    op = ctx.choose(f"op{k}", OPS)
    if op == 0:
        b.bind(dut)
    elif op == 1:
        b.bind(dut, False)
    elif op == 2:
        o.bind(dut)
    elif op == 3:
        o.set_prefix("z")
    elif op == 4:
        o.set_dict({"a": "a"})
    elif op == 5:
        o.set_name("n")
    elif op == 6:
        o.set_write_mode_as_rise()
    elif op == 7:
        b.bind(dut)
        b.set_all(7)
        b.assign({"*": 3})
    elif op == 8:
        o.set_regex("(x)")
    elif op == 9:
        b.bind(dut)
        for n, s in b.all_signals():
            s.value = 4
    else:
        b.make_requset_response_for(dut)
        b.process_requests([{}, {}])


@harness("C22", params=[{"acts": 2}], thorough=[{"acts": 3}], labels=("bound", "unbound"),
         fallback=[{"acts": 1}])
def instances(ctx, acts):
    """four structures (lists, sub-bundles, bundle lists, nested, all rule kinds); two actions out of 11 on
    an instance x or a part nested in it; instance y (bound before or after) and instance w (created
    after) look and behave exactly as instances of a class of which no instance was touched"""
    ci = ctx.choose("case", len(SPECS))
    spec, rule, pins, parts = SPECS[ci]
    early = ctx.bool("early")
    cls, ref = spec.cls(), spec.cls()
    x, y = make(cls, rule), make(cls, rule)
    z = make(ref, rule)
    d1, d2, d3 = NDUT(pins[:-1] + ["a"] if "a" not in pins else pins), NDUT(pins), NDUT(pins)
    if early:
        y.bind(d2)
        z.bind(d3)
        ctx.note("bound")
    else:
        ctx.note("unbound")
    part = parts[ctx.choose("part", len(parts))]
    for k in range(acts):
        act(ctx, k, x, fetch(x, part), d1)
    ctx.check(norm(snap(y, spec), d2) == norm(snap(z, spec), d3), "another instance looks different")
    ctx.check(not d2._writes and d2._cycle == 0 and counts(d2) == counts(d3), "the design of another instance is touched")
    ctx.check([p.mode for p in d2._pins] == [None] * len(pins), "write modes of another instance are changed")
    if not early:
        with LogCapture("WARNING") as a:
            y.bind(d2)
        with LogCapture("WARNING") as b:
            z.bind(d3)
        ctx.check(sorted(a.texts()) == sorted(b.texts()), "binding another instance logs something else")
        ctx.check(norm(snap(y, spec), d2) == norm(snap(z, spec), d3), "another instance is bound in another way")
        ctx.check([p.mode for p in d2._pins] == [None] * len(pins), "write modes of another instance are changed")
    w, u = make(cls, rule), make(ref, rule)
    d4, d5 = NDUT(pins[1:]), NDUT(pins[1:])
    ctx.check(snap(w, spec) == snap(u, spec), "a new instance looks different")
    w.bind(d4)
    u.bind(d5)
    ctx.check(norm(snap(w, spec), d4) == norm(snap(u, spec), d5), "a new instance is bound in another way")
    v = ctx.int("v", 0, 9)
    d1._writes.clear()
    x_writes = len(d1._writes)
    for o, d in ((y, d2), (w, d4)):
        o.set_all(v)
        ctx.check(len(d._writes) == len(d._pins), "an instance does not write its own pins")
        o.process_requests([{"__funcs__": lambda c, b: None}])
        ctx.check(d._cycle == 1, "an instance does not step its own design")
    ctx.check(len(d1._writes) == x_writes, "an instance writes the pins of another")


@harness("C22", params=[{}], labels=("done",))
def sources(ctx):
    """classes made from name lists, from a port and from a design's pins by prefix: instances and the
    class stay as they are when another is made, bound or extended"""
    from toffee import Bundle

    from .lib import XData

    how = ctx.choose("how", 3)
    sig = ["a", "b"]
    cls = Bundle.new_class_from_list(sig)
    y = cls.from_prefix("p_")
    d1, d2 = NDUT(["p_a", "p_c"]), NDUT(["p_a", "p_b", "p_c"])
    if how == 0:

        class Extra(XData):
            pass

        d1.p_extra = Extra(None)
        Extra.__name__ = "XDataExtra"
        x = cls.from_prefix("p_", d1)
        ctx.check("extra" in x.current_level_signals, "from_prefix does not add the design's signals")
    elif how == 1:
        x = cls.from_prefix("p_")
        x.bind(d1)
    else:

        class Port(dict):
            def GetKeys(self):
                return list(self)

        x = cls.from_xport(Port(a=d1.p_a, c=d1.p_c))
        ctx.check(x.a is d1.p_a and x.c is d1.p_c, "from_xport does not take over the pins")
    ctx.check(cls.signals == ["a", "b"] and sig == ["a", "b"], "the class changed")
    ctx.check(y.current_level_signals == ["a", "b"], "another instance changed")
    w = cls.from_prefix("p_")
    ctx.check(w.current_level_signals == ["a", "b"], "a new instance is different")
    for o in (y, w):
        o.bind(d2)
        ctx.check(o.a is d2.p_a and o.b is d2.p_b and not hasattr(o, "c"), "another instance is bound in another way")
    ctx.note("done")
