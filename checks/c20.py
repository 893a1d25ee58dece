"""C20: the connection counts reported for a design are exact."""
from sx.common import harness

from .bundles import NDUT, Spec, fetch, is_pin, make
from .c17 import D, P, R

LEAF = Spec(["a", "b"])
SPECS = [
    (Spec(["a", "b"], lists=[("v", "v#", 2)]), P("")),
    (Spec(["b"], subs=[("s", P("s_"), LEAF), ("t", R("(a)"), Spec(["a"]))]), P("")),
    (Spec([], blists=[("k", "k#_", 2, LEAF)], lists=[("w", "#", 2, lambda i: "ab"[i])]), P("")),
    (Spec(["a"], lists=[("v", "v#", 2)]), R("(?:s_)?(a|v.)")),
    (Spec(["x"], subs=[("s", P("s_"), Spec(["b"], lists=[("v", "v#", 1)]))], lists=[("v", "v#", 2)]), D({"x": "a", "s_b": "k0_a", "v1": "v0", "s_v0": "b"})),
]
PINS = ["a", "b", "v0", "s_v0", "v1", "s_a", "s_b", "k0_a", "k0_b", "k1_a", "z"]


def count(duts, bundles):
    """How many signals of the bundles refer to each pin of each design."""
    n = {id(p): 0 for d in duts for p in d._pins}
    for spec, b in bundles:
        for path, _, _ in spec.leaves():
            s = fetch(b, path)
            if is_pin(s):
                n[id(s)] += 1
    return n


def verify(ctx, duts, bundles, when):
    from toffee import Bundle

    n = count(duts, bundles)
    for i, d in enumerate(duts):
        lone = sorted(x for x, p in zip(d._names, d._pins) if n[id(p)] == 0)
        many = sorted(x for x, p in zip(d._names, d._pins) if n[id(p)] > 1)
        ctx.check(sorted(Bundle.detect_unconnected_signals(d)) == lone, f"unconnected pins of design {i} {when}")
        ctx.check(sorted(Bundle.detect_multiple_connections(d)) == many, f"multiply connected pins of design {i} {when}")
        if many:
            ctx.note("several")
        if lone and len(lone) < len(d._names):
            ctx.note("some")


@harness("C20", params=[{"steps": 3}], thorough=[{"steps": 4}], labels=("some", "several", "again"),
         fallback=[{"steps": 2}])
def histories(ctx, steps):
    """five bundles (flat with a list; sub-bundles by prefix and regex; bundle list and overlapping list;
    a regex that takes two pins for one signal or list element; dictionary with a nested list) and two designs with overlapping pins (one lacking some); every
    sequence of bindings, with either access mode; verified after every step"""
    duts = [NDUT(PINS), NDUT(["a", "v1", "s_a", "s_v1", "k1_a", "k1_b", "z"])]
    bundles = [(sp, make(sp.cls(), r)) for sp, r in SPECS]
    verify(ctx, duts, bundles, "at first")
    done = set()
    acts = steps
    for k in range(steps):
        i, j = ctx.choose(f"bundle{k}", len(bundles)), ctx.choose(f"design{k}", 2)
        if i in done:
            ctx.note("again")
        done.add(i)
        bundles[i][1].bind(duts[j], ctx.choose(f"access{k}", 2) == 0 if k == 0 else True)
        verify(ctx, duts, bundles, f"after step {k}")
    for sp, b in bundles:
        if sp is SPECS[0][0] and 0 in done:
            b.set_all(1)
            b.set_write_mode_as_rise()
            b.all_signals_rule()
            b.detect_connectivity("a")
            b.detect_specific_connectivity("v0", "v[0]")
    verify(ctx, duts, bundles, "after using the bundle")


@harness("C20", params=[{"length": 3}], thorough=[{"length": 4}], labels=("some", "several"),
         fallback=[{"length": 2}])
def names(ctx, length):
    """a design with a symbolic pin name besides two fixed ones, and two bundles with a symbolic prefix
    each (up to 2 characters), bound in either order, one of them twice"""
    n = ctx.str("n", "ab_", 1, length)
    p, q = ctx.str("p", "ab_", 0, 2), ctx.str("q", "ab_", 0, 1)
    ctx.assume(ctx.And(n != "a", n != "bb"))
    sp = Spec(["a", "b"], subs=[("s", P("b"), Spec(["b", "_"]))])
    d = NDUT([n, "a", "bb"])
    bundles = [(sp, make(sp.cls(), P(p))), (sp, make(sp.cls(), P(q)))]
    order = ctx.choose("order", 3)
    for i in [(0, 1), (1, 0, 1), (0, 1, 0)][order]:
        bundles[i][1].bind(d)
    verify(ctx, [d], bundles, "at last")
