"""C17: binding connects exactly the pins the bundle's rules describe."""
from sx.common import harness

from .bundles import NDUT, Spec, describes, dotted, fetch, is_pin, make, waits_on

P = lambda p: ("prefix", p)
R = lambda p: ("regex", p)
D = lambda d: ("dict", d)
FLAT = Spec(["x", "a", "a_x"])
DECL = Spec(["x", "a", "a_x"], declared=True)
LIST = Spec(["x"], lists=[("v", "x#", 2), ("w", "#_x", 2, lambda i: "ab"[i])])
TWICE = Spec(["a"], lists=[("v", "#x#", 2, lambda i: "ab"[i])])
PAIR = Spec(["x"], subs=[("p", P("a_"), Spec(["x", "a"])), ("q", P("b"), Spec(["x", "_x"]))])
LEAK = Spec(["b"], subs=[("p", P("a"), Spec(["x"])), ("q", P("a_"), Spec(["b"])), ("r", R("(.)(b)_"), Spec(["ab", "bb"]))])
DEEP = Spec([], subs=[("p", P("a"), Spec(["b"], subs=[("q", P("_"), Spec(["x"], lists=[("v", "b#", 2)]))], lists=[("w", "x_#", 1)]))])
BL = Spec(["x"], blists=[("t", "a#", 2, Spec(["x", "_"]), lambda i: ["", "_b"][i])])
BLL = Spec([], blists=[("t", "#", 2, Spec(["x"], lists=[("v", "_#", 2)]), lambda i: "ab"[i])])
DICTS = Spec(["x"], subs=[("p", D({"x": "a", "b": "x_x"}), Spec(["x", "b"])), ("q", P("q_"), Spec(["a"]))])
MIX = Spec(["x"], subs=[("p", P("p"), Spec(["a"], blists=[("t", "b#", 2, Spec(["x"]), lambda i: "a_"[i])]))], lists=[("v", "_#", 2, lambda i: "ab"[i])])

# (structure, rule of the outermost bundle)
CASES = [
    (FLAT, ("none", None)), (FLAT, P("a_")), (DECL, P("a_")), (DECL, P("x")),
    (FLAT, R("(a_x|x)")), (FLAT, R("a_(.*)")), (FLAT, R("(a?)b*(_x)?")), (DECL, R("^(.)_*(_x)?$")), (FLAT, R("[ab](?:_)(x|a)(b)?")),
    (FLAT, D({"x": "a", "a": "x", "a_x": "b_b"})), (DECL, D({"x": "a_", "a": "x"})), (FLAT, D({"a_x": "ab", "zz": "ba"})),
    (LIST, P("a")), (LIST, R("_(.*)")), (LIST, D({"x": "x1", "x0": "x", "x1": "a", "a_x": "b"})),
    (TWICE, P("b")), (FLAT, R("a(b)?")), (FLAT, R("a_?x?")),
    (PAIR, P("")), (PAIR, P("b")), (PAIR, R("(a_|b)_?(.)")), (PAIR, D({"x": "x", "a_x": "b", "bx": "a", "b_x": "a_x"})),
    (LEAK, P("")), (LEAK, P("a")), (LEAK, R("(a?_?)x*(b|x)")),
    (DEEP, P("")), (DEEP, P("x_")), (DEEP, R("(a)(b|_.*)")), (DEEP, D({"a_x": "x", "ab": "a", "ax_0": "a_b", "a_b1": "b"})),
    (BL, P("")), (BL, P("_")), (BL, R("(a_?b?)(x|_)")), (BL, D({"x": "a", "ax": "x", "a_b_": "b", "a_bx": "_"})),
    (BLL, P("")), (BLL, P("x")), (BLL, R("(.*)")),
    (DICTS, P("")), (DICTS, P("b")), (DICTS, D({"x": "b", "x_x": "a", "a": "x", "q_a": "x_"})),
    (MIX, P("")), (MIX, P("a")), (MIX, R("(p?)(.*)")),
]


def pin_names(ctx, k, length, alphabet="ab_x"):
    names = [ctx.str(f"n{i}", alphabet, 1, length) for i in range(k)]
    for a, b in zip(names, names[1:]):
        ctx.assume(a < b)
    return names


def verify(ctx, b, dut, names, leaves):
    """leaves: (path, rules, leaf name)"""
    desc = [[describes(rules, leaf, n) for _, rules, leaf in leaves] for n in names]
    for row in desc:
        ctx.assume(sum(row) <= 1)  # no pin is described twice
    for j in range(len(leaves)):
        ctx.assume(sum(row[j] for row in desc) <= 1)  # no signal is described twice
    connected = 0
    for j, (path, _, _) in enumerate(leaves):
        s = fetch(b, path)
        want = [i for i in range(len(names)) if desc[i][j]]
        if want:
            connected += 1
            ctx.check(s is dut._pins[want[0]], f"{dotted(path)} is not connected to the pin its rules describe")
        else:
            ctx.check(not is_pin(s), f"{dotted(path)} is connected to a pin its rules do not describe")
    if connected:
        ctx.check(waits_on(b, dut.event), "the clock of the bundle is not that of the design")
        ctx.note("connected")
        if connected > 1:
            ctx.note("several")
    else:
        ctx.note("none")


@harness("C17", params=[{"k": 1, "length": 5}, {"k": 2, "length": 3}], thorough=[{"k": 1, "length": 7}, {"k": 2, "length": 4}],
         labels=("connected", "none"),
         fallback=[{"k": 1, "length": 3}, {"k": 2, "length": 2}])
def names(ctx, k, length):
    """every structure and rule of the list (prefix, regex, dict; flat, signal lists, sub-bundles up to
    three levels, bundle lists), k pins with symbolic names of 1..length characters over a b _ x, both
    access modes (k = 1); cases where two rules describe one pin or two pins one signal are left out"""
    spec, rule = CASES[ctx.choose("case", len(CASES))]
    access = ctx.bool("access") if k == 1 else True
    ns = pin_names(ctx, k, length)
    b = make(spec.cls(), rule)
    dut = NDUT(ns)
    ctx.check(b.bind(dut, access) is b, "bind does not return the bundle")
    verify(ctx, b, dut, ns, [(p, (rule,) + r, s) for p, r, s in spec.leaves()])


@harness("C17", params=[{"length": 2, "plen": 3}], thorough=[{"length": 3, "plen": 5}], labels=("connected", "none"),
         fallback=[{"length": 1, "plen": 3}])
def rules(ctx, length, plen):
    """symbolic rules: the prefixes of the bundle, of a sub-bundle and of one nested in it (or the
    values of a connection dictionary), each of up to `length` characters, against a pin with a
    symbolic name; also set with set_prefix/set_dict on an existing bundle"""
    kind = ctx.choose("kind", 3)
    access = ctx.bool("access")
    n = ctx.str("n0", "ab_", 1, plen)
    p = [ctx.str(f"p{i}", "ab_", 0, length) for i in range(3 if kind == 0 else 2)]
    inner = Spec(["b", "_"])
    if kind == 0:
        spec = Spec(["a", "_b"], subs=[("s", P(p[1]), Spec(["a"], subs=[("t", P(p[2]), inner)]))])
        rule = P(p[0])
    elif kind == 1:
        ctx.assume(p[0] != p[1])
        spec = Spec(["a"], subs=[("s", P("_"), inner)])
        rule = D({"a": p[0], "_b": p[1]})
    else:
        spec = Spec(["a"], lists=[("v", "b#_", 2)])
        rule = P(p[0])
    b = spec.cls()()
    if kind == 2:
        b = make(spec.cls(), P("zz"))
        b.set_prefix(p[1])
        b.set_prefix(p[0])
    elif kind == 1:
        b.set_dict(rule[1])
    else:
        b.set_prefix(p[0])
    dut = NDUT([n])
    b.bind(dut, access)
    verify(ctx, b, dut, [n], [(q, (rule,) + r, s) for q, r, s in spec.leaves()])


def declare(way):
    """(class, [(path, pin)]) of a bundle whose members come from the class, from a base class, or from its initialiser"""
    from toffee import Bundle, BundleList, Signal, SignalList, Signals

    class Leaf(Bundle):
        x = Signal()

    class Other(Bundle):
        x, y = Signals(2)

    if way in (0, 1):

        class Base(Bundle):
            a = Signal()
            v = SignalList("v#", 2)
            s = Leaf.from_prefix("s_")
            k = BundleList(Leaf, "k#_", 1)

        class B(Base):
            b = Signal()
            w = SignalList("w#", 1)
            t = Leaf.from_prefix("t_")
            if way == 1:
                s = Other.from_prefix("u_")
                v = SignalList("z#", 1)
                k = BundleList(Other, "l#_", 2)

        one = [(("s", "x"), "s_x"), ((("v", 0),), "v0"), ((("v", 1),), "v1"), ((("k", 0), "x"), "k0_x")]
        two = [(("s", "x"), "u_x"), (("s", "y"), "u_y"), ((("v", 0),), "z0"), ((("k", 1), "y"), "l1_y")]
        return B, [(("a",), "a"), (("b",), "b"), ((("w", 0),), "w0"), (("t", "x"), "t_x")] + (two if way else one)
    if way == 2:

        class B(Bundle):
            a = Signal()

            def __init__(self):
                super().__init__()
                self.s = Leaf.from_prefix("s_")
                self.v = SignalList("v#", 2)
                self.k = BundleList(Leaf, "k#_", 2)

        return B, [(("a",), "a"), (("s", "x"), "s_x"), ((("v", 0),), "v0"), ((("v", 1),), "v1"), ((("k", 1), "x"), "k1_x")]
    if way == 3:

        class Base(Bundle):
            signals = ["a", "b"]

            def __init__(self):
                super().__init__()
                self.t = Leaf.from_prefix("t_")

        class B(Base):
            signals = ["b", "c"]
            d = Signal()

            def __init__(self):
                super().__init__()
                self.s = Leaf.from_prefix("s_")

        return B, [(("b",), "b"), (("c",), "c"), (("d",), "d"), (("s", "x"), "s_x"), (("t", "x"), "t_x")]

    class Base(Bundle):
        a = Signal()

    class Mixin:
        s = Leaf.from_prefix("s_")

    class B(Mixin, Base):
        pass

    return B, [(("a",), "a"), (("s", "x"), "s_x")]


@harness("C17", params=[{}], labels=("alone", "part", "listed"))
def declared(ctx):
    """members from the class, from a base class (overridden or not), from the initialisers of both, from a mixin; each pin
    of the last three symbolically present; the bundle alone, as a part of another, or in a list of bundles, beside
    an instance of the class that was bound before to a design with all the pins"""
    from toffee import Bundle, BundleList

    B, leaves = declare(ctx.choose("way", 5))
    use = ctx.choose("use", 3)
    here = [bool(ctx.bool("pin " + n)) for _, n in leaves[-3:]]
    here = [True] * (len(leaves) - len(here)) + here
    full = NDUT([n for _, n in leaves])
    first = B().bind(full) if ctx.choose("before", 2) else None
    pre = ["i_", "o_", "q0_"][use]
    if use == 0:
        b = B.from_prefix(pre)
        ctx.note("alone")
    elif use == 1:
        b = type("Outer", (Bundle,), {"o": B.from_prefix("o_")})()
        ctx.note("part")
    else:
        b = type("Outer", (Bundle,), {"q": BundleList(B, "q#_", 1)})()
        ctx.note("listed")
    dut = NDUT([pre + n for (_, n), h in zip(leaves, here) if h] + ["a", "unrelated"])
    b.bind(dut)
    inner = b if use == 0 else b.o if use == 1 else b.q[0]
    for (p, n), h in zip(leaves, here):
        s = fetch(inner, p)
        if h:
            ctx.check(s is getattr(dut, pre + n), f"{dotted(p)} is not connected to {pre + n}")
        else:
            ctx.check(not is_pin(s), f"{dotted(p)} is connected to a pin its rules do not describe")
        if first is not None:
            ctx.check(fetch(first, p) is getattr(full, n), "an instance bound before is changed")
    ctx.check(sum(is_pin(x) for _, x in b.all_signals()) == sum(here), "something else is connected")
    ctx.check(len(list(b.all_signals())) >= len(leaves), "a signal is missing")
