"""C24: bulk operations touch exactly the inputs, within range."""
from sx.base import Sym
from sx.common import harness

from .bundles import NDUT, Spec, dotted, make
from .c17 import D, P, R

IN = Spec(["a"], lists=[("v", "v#", 2)])
SPECS = [
    (Spec(["a", "ab"], lists=[("v", "v#", 2)], subs=[("s", P("s_"), Spec(["a"]))]), P("")),
    (Spec(["x"], subs=[("s", P("s_"), Spec([], subs=[("t", P("t_"), IN)]))]), P("io_")),
    (Spec([], blists=[("k", "k#_", 2, Spec(["a"], subs=[("t", P("t_"), Spec(["a"]))]))], lists=[("w", "w#", 1)]), P("")),
    (Spec(["x"], subs=[("s", P("s_"), Spec([], blists=[("k", "#", 2, Spec(["a"]))], lists=[("v", "v#", 1)]))]), P("")),
]


def setup(ctx, spec, rule, missing=True):
    """A bundle each of whose pins is symbolically an output, an input, bidirectional or missing."""
    leaves = [(dotted(p), "".join(v for _, v in ((rule,) + r)) + s) for p, r, s in spec.leaves()]
    present = []
    for i, (n, pin) in enumerate(leaves):
        if not (missing and i % 3 == 1 and ctx.bool("missing " + n)):
            present.append((n, pin))
    d = NDUT([pin for _, pin in present] + ["zz"])
    out = {}
    for n, pin in present:
        p = getattr(d, pin)
        p.__dict__["out"] = out[n] = ctx.bool("out " + n)
        p.__dict__["both"] = ctx.bool("both " + n)
        p.__dict__["val"] = 1000 + len(out)
    b = make(spec.cls(), rule).bind(d)
    return d, b, present, out


@harness("C24", params=[{}], labels=("in", "out"))
def all_and_modes(ctx):
    """four structures (lists, sub-bundles two deep, bundle lists, lists inside them), each pin symbolically
    input or output (some symbolically missing), a symbolic value; set_all, and the three write modes set
    before or after binding and changed once more"""
    spec, rule = SPECS[ctx.choose("case", len(SPECS))]
    op = ctx.choose("op", 5)
    d, b, present, out = setup(ctx, spec, rule, missing=op < 2)
    if op < 2:
        v = ctx.int("v", -5, 2**65)
        (b.set_all(v) if op == 0 else b.assign({"*": v}))
        for i, (n, pin) in enumerate(present):
            o = bool(out[n])
            ctx.check(ctx.eq(getattr(d, pin).value, 1001 + i if o else v), f"{n} has the wrong value")
            ctx.note("out" if o else "in")
        ctx.check({x for x, _ in d._writes} == {pin for n, pin in present if not out[n]}, "other pins than the inputs are written")
        ctx.check(d.zz.mode is None, "a mode is changed")
    else:
        modes = ["imme", "rise", "fall"]
        m = [ctx.choose("mode0", 3), ctx.choose("mode1", 4)]
        if op == 2:
            b = make(spec.cls(), rule)
            getattr(b, "set_write_mode_as_" + modes[m[0]])()
            b.bind(d)
        elif op == 3:
            getattr(b, "set_write_mode_as_" + modes[m[0]])()
        else:
            from toffee import WriteMode

            b.set_write_mode([WriteMode.Imme, WriteMode.Rise, WriteMode.Fall][m[0]])
        last = m[0]
        if m[1] < 3:
            getattr(b, "set_write_mode_as_" + modes[m[1]])()
            last = m[1]
        for n, pin in present:
            o = bool(out[n])
            ctx.check(getattr(d, pin).mode == (None if o else modes[last]), f"{n} has the wrong write mode")
            ctx.note("out" if o else "in")
        ctx.check(d.zz.mode is None and not d._writes, "something else is changed")


@harness("C24", params=[{"wmax": 5}], thorough=[{"wmax": 12}], labels=("excluded", "range", "width", "zero"),
         fallback=[{"wmax": 3}])
def randomize(ctx, wmax):
    """four structures, pins symbolically input or output, two of them symbolically excluded by their dotted
    name (and a name that is no signal), widths: one symbolic from 0 to wmax, others 1, 8, 64 and 130 bits;
    a symbolic range or none; the random source returns any value within the bounds it is asked for"""
    spec, rule = SPECS[ctx.choose("case", len(SPECS))]
    d, b, present, out = setup(ctx, spec, rule, missing=False)
    widths = {}
    for i, (n, pin) in enumerate(present):
        widths[n] = ctx.int("width", 0, wmax) if i == len(present) - 1 else [1, 8, 64, 130][i % 4]
        getattr(d, pin).__dict__["width"] = widths[n]
    ex = [n for i, (n, _) in enumerate(present) if i in (0, len(present) - 2) and ctx.bool(f"exclude {n}")]
    ranged = ctx.bool("ranged")
    lo, hi = ctx.int("lo", -50, 2**66), ctx.int("hi", -50, 2**66)
    ctx.assume(lo <= hi)
    asked, bounds = [], []

    def source(a, z):
        r = ctx.int(f"r{len(asked)}", None, None)
        ctx.check(a <= z, "the random source is asked for an empty range")
        ctx.assume(ctx.And(r >= a, r <= z))
        asked.append(r)
        bounds.append((a, z))
        return r

    kw = {"value_range": (lo, hi)} if ranged else {}
    if ex:
        kw["exclude_signals"] = ex + ["nope"]
    b.randomize_all(random_func=source, **kw)
    for i, (n, pin) in enumerate(present):
        v = getattr(d, pin).value
        if n in ex or out[n]:
            ctx.check(ctx.eq(v, 1001 + i), f"{n} is written")
            ctx.check(pin not in [x for x, _ in d._writes], f"{n} is written")
            ctx.note("excluded")
            continue
        ctx.check([x for x, _ in d._writes].count(pin) == 1, f"{n} is not written exactly once")
        a, z = bounds[[x for x, _ in d._writes].index(pin)]
        if ranged:
            ctx.check(ctx.And(v >= lo, v <= hi), f"{n} is out of the given range")
            ctx.check(ctx.And(a <= lo, z >= hi), f"{n} cannot get every value of the given range")
            ctx.note("range")
        else:
            w = widths[n]
            for k in range(wmax + 1) if isinstance(w, Sym) else [w]:
                if w == k:
                    ctx.check(ctx.And(v >= 0, v < 2 ** max(k, 1)), f"{n} does not fit its width")
                    # the source is asked for the whole range
                    ctx.check(ctx.And(a <= 0, z >= 2 ** max(k, 1) - 1), f"{n} cannot get every value of its width")
                    ctx.note("zero" if k == 0 else "width")
    ctx.check(len(d._writes) == len(asked), "the random source is asked in vain")
