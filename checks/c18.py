"""C18: unconnected signals are inert or forbidden, as requested."""
import re

from sx.common import harness

from .bundles import NDUT, Spec, dotted, fetch, is_pin, make, prefix_name
from .c17 import BL, BLL, D, DECL, DEEP, FLAT, LIST, P, PAIR, R
from .lib import LogCapture

L3 = Spec(["x"], lists=[("v", "v#", 3)])
SUBL = Spec([], subs=[("s", P("s_"), L3)], blists=[("t", "t#_", 2, Spec(["y"], lists=[("u", "u#", 1)]))])
TRI = Spec(["a"], subs=[("s", P("s_"), Spec(["b"], subs=[("t", P("t_"), Spec(["c"], blists=[("k", "k#", 2, Spec(["d"]))]))]))])
DSUB = Spec(["a"], subs=[("s", D({"b": "pin_b", "t_c": "pin_c", "nope": "pin_n"}), Spec(["b", "e"], subs=[("t", P("t_"), Spec(["c"]))]))])
DLIST = Spec([], lists=[("v", "v#", 2)], blists=[("k", "k#_", 2, Spec(["d"]))])
RSUB = Spec([], subs=[("s", R("r_(.*)"), Spec(["b", "c"]))], lists=[("v", "v#", 2)])


def inner(spec):
    return [(p, prefix_name(r, s)) for p, r, s in spec.leaves()]


# (structure, outer rule, [(path, pin name, text the rule shows in a warning)])
def cases():
    out = []
    for spec, pre in [(FLAT, "a_"), (DECL, "io"), (LIST, ""), (PAIR, "q"), (DEEP, "x_"), (BL, ""), (BLL, "t"), (L3, "z"), (SUBL, "io_"), (TRI, "")]:
        out.append((spec, P(pre), [(p, pre + n, [pre + n]) for p, n in inner(spec)]))
    for spec in (L3, TRI):
        out.append((spec, R("u_(.*)"), [(p, "u_" + n, ["u_(.*)", n]) for p, n in inner(spec)]))
    out.append((DSUB, P("io_"), [(("a",), "io_a", ["io_a"]), (("s", "b"), "io_pin_b", ["io_pin_b"]), (("s", "e"), None, []), (("s", "t", "c"), "io_pin_c", ["io_pin_c"])]))
    d = {"v0": "one", "v1": "two", "k0_d": "three", "k1_d": "four"}
    out.append((DLIST, D(d), [(p, d[n], [d[n]]) for p, n in inner(DLIST)]))
    out.append((TRI, D({"a": "one", "s_b": "two", "s_t_k0d": "three"}), [(("a",), "one", ["one"]), (("s", "b"), "two", ["two"]), (("s", "t", "c"), None, []), (("s", "t", ("k", 0), "d"), "three", ["three"]), (("s", "t", ("k", 1), "d"), None, [])]))
    out.append((RSUB, P("io_"), [((("v", i),), f"io_v{i}", [f"io_v{i}"]) for i in range(2)] + [(("s", c), f"io_r_{c}", ["io_", "r_(.*)", c]) for c in "bc"]))
    return out


def mentions(text, name):
    return re.search(r"(?<![\w.\]])" + re.escape(name) + r"(?![\w.\[])", text) is not None


def about(text, name, rule, exact):
    """whether the text names the signal and, apart from that, shows the rule"""
    if not mentions(text, name):
        return False
    rest = re.sub(r"(?<![\w.\]])" + re.escape(name) + r"(?![\w.\[])", "", text, count=1)
    return all(r in rest for r in rule) and (not exact or mentions(rest, rule[0]))


def raises(f):
    try:
        f()
    except AttributeError:
        return True
    return False


def probe(ctx, b, path, access, what):
    def owner():
        o = b
        for p in path:
            o = getattr(o, p) if isinstance(p, str) else getattr(o, p[0])[p[1]]
        return o

    def put(v):
        owner().value = v

    if access:
        ctx.check(owner().value is None, f"{what} reads as something")
        put(5)
        ctx.check(owner().value is None, f"{what} keeps what is written")
    else:
        ctx.check(raises(lambda: owner().value), f"reading {what} raises no AttributeError")
        ctx.check(raises(lambda: put(5)), f"writing {what} raises no AttributeError")


@harness("C18", params=[{}], labels=("all", "some", "none"))
def missing(ctx):
    """16 structures (all rule kinds, lists, three levels), each signal's pin symbolically present or
    absent, both access modes, bundle with and without a name: pins connected, the others inert or
    forbidden, one warning per unconnected signal naming it and its rule, none for the others"""
    cs = cases()
    spec, rule, sigs = cs[ctx.choose("case", len(cs))]
    access = ctx.bool("access")
    named = ctx.choose("named", 2)
    here = {}
    for path, pin, _ in sigs:
        here[path] = bool(ctx.bool("pin " + dotted(path))) if pin is not None else False
    dut = NDUT([pin for path, pin, _ in sigs if here[path]] + ["unrelated"])
    b = make(spec.cls(), rule)
    if named:
        b.set_name("top")
    with LogCapture("WARNING") as lc:
        b.bind(dut, access)
    texts = lc.texts()
    top = "top." if named else ""
    owned = set()
    for path, pin, rl in sigs:
        name = top + dotted(path)
        if here[path]:
            ctx.check(is_pin(fetch(b, path)), f"{name} is not connected")
            ctx.check(fetch(b, path) is getattr(dut, pin), f"{name} is connected to another pin")
        else:
            own = [t for t in texts if about(t, name, rl, pin is not None and rule[0] == "prefix" and len(rl) == 1)]
            ctx.check(bool(own), f"no warning names {name} and its rule {rl}: {texts}")
            owned.update(own)
            probe(ctx, b, path, access, name)
    ctx.check(len(texts) == len([1 for p in here if not here[p]]), "not one warning per unconnected signal")
    ctx.check(owned == set(texts), "warnings are logged for something else")
    ctx.check(not dut._writes, "a pin was written")
    n = sum(here.values())
    ctx.note("all" if n == len(here) else "none" if n == 0 else "some")


@harness("C18", params=[{"length": 2}], thorough=[{"length": 4}], labels=("done",))
def rule_text(ctx, length):
    """symbolic prefixes of three nested bundles: the warnings show the exact pin name of each signal"""
    p = [ctx.str(f"p{i}", "ab_", 0, length) for i in range(3)]
    spec = Spec(["x"], subs=[("s", P(p[1]), Spec(["y"], subs=[("t", P(p[2]), Spec(["z"], lists=[("v", "v#", 2)]))]))])
    b = make(spec.cls(), P(p[0]))
    with LogCapture("WARNING") as lc:
        b.bind(NDUT(["unrelated"]), True)
    texts = lc.texts()
    want = [(dotted(q), prefix_name((P(p[0]),) + r, s)) for q, r, s in spec.leaves()]
    ctx.check(len(texts) == len(want), "not one warning per signal")
    for q, n in want:
        t = [t for t in texts if f'"{q}"' in t]
        ctx.check(len(t) == 1, f"{len(t)} warnings name {q}")
        ctx.check(f'"{n}"' in t[0], f"the warning for {q} does not show its rule")
    ctx.note("done")


@harness("C18", params=[{}], labels=("done",))
def operations(ctx):
    """bulk operations on bundles with unconnected signals, pins symbolically present: with access allowed
    as_dict, set_all, randomize_all, write modes and assign work and touch only the connected pins"""
    spec = Spec(["x", "y"], lists=[("v", "v#", 2)], subs=[("s", P("s_"), Spec(["x"]))])
    names = ["x", "y", "v0", "v1", "s_x"]
    here = [bool(ctx.bool("pin " + n)) for n in names]
    dut = NDUT([n for n, h in zip(names, here) if h] + ["zz"])
    b = spec.cls()().bind(dut)
    v = ctx.int("v", -3, 300)
    op = ctx.choose("op", 5)
    if op == 0:
        b.set_all(v)
    elif op == 1:
        b.assign({"*": v})
    elif op == 2:
        b.assign({"x": v, "y": v, "v": [v, v], "s": {"x": v}})
    elif op == 3:
        b.randomize_all(random_func=lambda a, z: v)
    else:
        b.assign({"x": v, "y": v, "v": [v, v], "s.x": v}, multilevel=False)
    d = b.as_dict()
    got = [d["x"], d["y"], *d["v"], d["s"]["x"]]
    for n, h, g in zip(names, here, got):
        ctx.check(ctx.eq(g, v) if h else g is None, f"{n} reads back wrong")
    ctx.check(len(dut._writes) == sum(here), "not exactly the connected pins were written")
    b.set_write_mode_as_rise()
    for n, h in zip(names, here):
        if h:
            ctx.check(getattr(dut, n).mode == "rise", f"{n} has another write mode")
    ctx.check(dut.zz.mode is None, "a pin outside the bundle changed")
    ctx.note("done")
