"""C19: connectivity queries agree with binding."""
from sx.common import harness

from .bundles import NDUT, Spec, dotted, fetch, is_pin, make, prefix_name
from .c17 import CASES, P, pin_names
from .c18 import L3, SUBL, TRI


@harness("C19", params=[{"length": 5}], thorough=[{"length": 7}], labels=("yes", "no"),
         fallback=[{"length": 3}])
def queries(ctx, length):
    """every structure and rule of C17, a pin with a symbolic name of 1..length characters over a b _ x:
    both queries, for the path of every signal and for paths that are no signals, before and after
    binding a second copy (which, other than the first, has no name) to a design with that pin; asking changes nothing"""
    spec, rule = CASES[ctx.choose("case", len(CASES))]
    n = pin_names(ctx, 1, length)[0]
    b, c = make(spec.cls(), rule), make(spec.cls(), rule)
    b.set_name("top")
    dut = NDUT([n])
    c.bind(dut)
    paths = [p for p, _, _ in spec.leaves()]
    hit = [p for p in paths if is_pin(fetch(c, p))]
    for o in (b, c):
        ctx.check(o.detect_connectivity(n) is bool(hit), "detect_connectivity does not agree with binding")
        for p in paths:
            ctx.check(
                o.detect_specific_connectivity(n, dotted(p)) is (p in hit),
                f"detect_specific_connectivity of {dotted(p)} does not agree with binding",
            )
        for w in [] if o is c else ["nope", "", "." + dotted(paths[0]), dotted(paths[0]) + ".y"] + [dotted(q[:-1]) for q in paths]:
            if w not in [dotted(p) for p in paths]:
                ctx.check(o.detect_specific_connectivity(n, w) is False, f"a pin can be connected to {w!r}, which is no signal")
    ctx.check([p for p in paths if is_pin(fetch(c, p))] == hit, "asking changes the connections")
    ctx.check(not any(is_pin(fetch(b, p)) for p in paths), "asking connects the bundle")
    ctx.check(dut._pins[0].xdata.__dict__.get("number_of_bundles_connected_to", 0) == len(hit), "asking counts as connection")
    ctx.note("yes" if hit else "no")


@harness("C19", params=[{"length": 2}], thorough=[{"length": 4}], labels=("done",),
         fallback=[{"length": 1}])
def rules(ctx, length):
    """symbolic prefixes at three levels (lists and bundle lists inside): the listed rules are exactly the
    signals and their pin names, binding to a design with these pins connects each as listed, and the
    queries say so"""
    p = [ctx.str(f"p{i}", "ab_", 0, length) for i in range(3)]
    spec = [
        Spec(["x"], subs=[("s", P(p[1]), Spec(["y"], subs=[("t", P(p[2]), Spec(["z"], lists=[("v", "v#", 2)]))]))]),
        Spec(["x"], blists=[("k", "k#_", 2, Spec(["y"], subs=[("t", P(p[1]), Spec(["z"]))], lists=[("v", "#v", 1)]))]),
        Spec([], subs=[("s", P(p[1]), Spec([], blists=[("k", "#k", 2, Spec(["y"]), lambda i: ["", "m"][i])]))]),
    ][ctx.choose("spec", 3)]
    rule = P(p[0])
    b = make(spec.cls(), rule)
    got = b.all_signals_rule()
    named = make(spec.cls(), rule)
    named.set_name("top")
    ctx.check({k.removeprefix("top."): v for k, v in named.all_signals_rule().items()} == got, "a bundle with a name has other rules")
    leaves = [(q, prefix_name((rule,) + r, s)) for q, r, s in spec.leaves()]
    ctx.check(set(got) == {dotted(q) for q, _ in leaves}, "the rules are not listed for exactly the signals")
    for q, n in leaves:
        ctx.check(got[dotted(q)] == n, f"the rule of {dotted(q)} is not its pin name")
    q, n = leaves[ctx.choose("leaf", len(leaves))]
    for i, (q2, n2) in enumerate(leaves):
        if q2 != q:
            ctx.assume(n2 != n)
    ctx.check(b.detect_connectivity(n) is True, "the listed pin cannot be connected")
    ctx.check(b.detect_specific_connectivity(n, dotted(q)) is True, "the listed pin cannot be connected to its signal")
    dut = NDUT([got[dotted(q)]])
    b.bind(dut)
    ctx.check(fetch(b, q) is dut._pins[0], "the listed pin is not connected to its signal")
    ctx.check({k: v for k, v in b.all_signals_rule().items()} == got, "binding changes the rules")
    ctx.note("done")
