"""C23: assign writes exactly what it is given; as_dict reads it back."""
import copy

from sx.common import harness

from .bundles import NDUT, Spec, dotted, fetch, make
from .c17 import P
from .lib import LogCapture

IN = Spec(["a", "o"], lists=[("v", "v#", 2)])
SPEC = Spec(
    ["a", "b", "o"],
    lists=[("v", "v#", 2)],
    subs=[("s", P("s_"), Spec(["a", "o"], subs=[("t", P("t_"), IN)])), ("r", P("r_"), Spec(["a"]))],
    blists=[("k", "k#_", 2, Spec(["a", "o"], subs=[("t", P("t_"), Spec(["a"]))]))],
)
LEAVES = [(dotted(p), p, "".join(v for _, v in r) + s) for p, r, s in SPEC.leaves()]


def setup(ctx):
    d = NDUT([n for _, _, n in LEAVES] + ["zz"], outs=[i for i, (_, p, _) in enumerate(LEAVES) if p[-1] == "o"])
    b = SPEC.cls()().bind(d)
    for i, (_, p, n) in enumerate(LEAVES):
        getattr(d, n).__dict__["val"] = 100 + i
    return d, b


def value(ctx, tag):
    return ctx.int(tag, -(2**40), 2**70)


def tree(vals):
    """The nested and the flat form of all values."""
    g = lambda n: vals[n]
    nest = {
        "a": g("a"), "b": g("b"), "o": g("o"), "v": [g("v[0]"), g("v[1]")],
        "s": {"a": g("s.a"), "o": g("s.o"), "t": {"a": g("s.t.a"), "o": g("s.t.o"), "v": [g("s.t.v[0]"), g("s.t.v[1]")]}},
        "r": {"a": g("r.a")},
        "k": [{"a": g(f"k[{i}].a"), "o": g(f"k[{i}].o"), "t": {"a": g(f"k[{i}].t.a")}} for i in range(2)],
    }
    flat = {n: g(n) for n, p, _ in LEAVES if isinstance(p[-1], str)}
    flat["v"] = [g("v[0]"), g("v[1]")]
    flat["s.t.v"] = [g("s.t.v[0]"), g("s.t.v[1]")]
    return nest, flat


def compare(ctx, d, b, want, what):
    for n, p, pin in LEAVES:
        ctx.check(ctx.eq(getattr(d, pin).value, want[n]), f"{n} has another value {what}")
        ctx.check(ctx.eq(fetch(b, p).value, want[n]), f"{n} reads another value {what}")
    nest, flat = tree(want)
    ctx.check(eqtree(ctx, b.as_dict(), nest), f"as_dict is wrong {what}")
    ctx.check(eqtree(ctx, b.as_dict(multilevel=False), flat), f"flat as_dict is wrong {what}")
    ctx.check(d.zz.value == 0, "another pin is written")


def eqtree(ctx, x, y):
    if isinstance(y, dict):
        return isinstance(x, dict) and set(x) == set(y) and ctx.And(*[eqtree(ctx, x[k], y[k]) for k in y])
    if isinstance(y, list):
        return isinstance(x, list) and len(x) == len(y) and ctx.And(*[eqtree(ctx, a, b) for a, b in zip(x, y)])
    return ctx.eq(x, y)


# what an assignment may hold: nested key path, flat key, signals named (None: unknown)
NEST = [
    (("a",), ["a"]), (("o",), ["o"]), (("v",), ["v[0]", "v[1]"]), (("nope",), None), (("s", "a"), ["s.a"]), (("s", "nope"), None),
    (("s", "t", "o"), ["s.t.o"]), (("s", "t", "v"), ["s.t.v[0]", "s.t.v[1]"]), (("k",), "k"), (("*",), "*"), (("s", "*"), "s.*"), (("s", "t", "*"), "s.t.*"),
]
FLAT = [
    ("a", ["a"]), ("o", ["o"]), ("v", ["v[0]", "v[1]"]), ("nope", None), ("s.a", ["s.a"]), ("s.t.o", ["s.t.o"]), ("s.t.v", ["s.t.v[0]", "s.t.v[1]"]),
    ("s.nope", None), ("k[1].a", ["k[1].a"]), ("k[0].t.a", ["k[0].t.a"]), ("nope.a", None), ("*", "*"), ("k", "k"),
]


def apply(want, target, v, star):
    """the reading of one entry; star entries are noted with their prefix"""
    if target is None:
        return 1
    if isinstance(target, str) and target.endswith("*"):
        star.append((target[:-1], v))
    elif target == "k":
        for i in range(2):
            want[f"k[{i}].a"] = v[i]["a"]
    else:
        for j, n in enumerate(target):
            want[n] = v[j] if len(target) > 1 else v
    return 0


@harness("C23", params=[{"n": 3}], thorough=[{"n": 4}], labels=("unknown", "star", "plain"),
         fallback=[{"n": 2}])
def assign(ctx, n):
    """a bundle with outputs, a list, sub-bundles two deep and a bundle list; every choice of up to n
    different entries (of 12 nested or 13 flat ones, unknown names and "*" at each level included) in any
    order, symbolic values: final values, errors for the unknown names, the caller's dictionary, and both
    forms of as_dict"""
    d, b = setup(ctx)
    want = {x: 100 + i for i, (x, _, _) in enumerate(LEAVES)}
    flat = ctx.choose("flat", 2) == 1
    menu = FLAT if flat else NEST
    picked = []
    for k in range(n):
        c = ctx.choose(f"e{k}", len(menu) + (1 if k else 0))
        if c == len(menu):
            break
        ctx.assume(c not in picked)
        picked.append(c)
    item, named, star, bad = {}, {}, [], []
    for k, c in enumerate(picked):
        key, target = menu[c]
        if target == "k":
            v = [{"a": value(ctx, f"v{k}.{i}")} for i in range(2)]
        elif isinstance(target, list) and len(target) > 1:
            v = [value(ctx, f"v{k}.{i}") for i in range(2)]
        else:
            v = value(ctx, f"v{k}")
        if apply(named, target, v, star):
            bad.append(key if flat else key[-1])
        if flat:
            item[key] = v
        else:
            o = item
            for q in key[:-1]:
                o = o.setdefault(q, {})
            o[key[-1]] = v
    for pre, v in sorted(star, key=lambda t: len(t[0])):
        for x, p, _ in LEAVES:
            if x.startswith(pre) and p[-1] != "o":
                want[x] = v
    want.update(named)
    kept = copy.deepcopy(item)
    with LogCapture("ERROR") as lc:
        b.assign(item, multilevel=not flat)
    ctx.check(len(lc.texts()) == len(bad), "not one error per unknown name")
    ctx.check(all(any(x in t for t in lc.texts()) for x in bad), "an error does not name the unknown signal")
    ctx.check(eqtree(ctx, item, kept) and list(item) == list(kept), "the caller's dictionary is changed")
    wrote = {x for x, _ in d._writes}
    allowed = {pin for x, p, pin in LEAVES if x in named or (p[-1] != "o" and any(x.startswith(pre) for pre, _ in star))}
    ctx.check(wrote == allowed, "other pins are written than those named")
    compare(ctx, d, b, want, "after assigning")
    ctx.note("unknown" if bad else "star" if star else "plain")


@harness("C23", params=[{}], labels=("done",))
def roundtrip(ctx):
    """all values symbolic: what as_dict returns, in either form, assigned to another bundle in the same
    form makes it equal; assigning the same dictionary again changes nothing; objects with a
    __bundle_assign__ method get the bundle, other objects are rejected without effect"""
    d, b = setup(ctx)
    e, c = setup(ctx)
    vals = {x: value(ctx, x) for x, _, _ in LEAVES}
    for x, p, pin in LEAVES:
        getattr(d, pin).__dict__["val"] = vals[x]
    ml = ctx.bool("multilevel")
    compare(ctx, d, b, vals, "at first")
    got = b.as_dict(ml) if ml else b.as_dict(False)
    c.assign(got, bool(ml))
    compare(ctx, e, c, vals, "after the round trip")
    c.assign(got, bool(ml))
    compare(ctx, e, c, vals, "after the second round trip")

    class Item:
        def __bundle_assign__(self, bundle):
            self.seen = bundle
            bundle.a.value = 5

    it = Item()
    c.assign(it)
    ctx.check(it.seen is c, "__bundle_assign__ does not get the bundle")
    with LogCapture("ERROR") as lc:
        c.assign(7)
    ctx.check(len(lc.texts()) == 1, "an unusable item is not reported")
    compare(ctx, e, c, {**vals, "a": 5}, "after __bundle_assign__")
    x, v = LEAVES[0][0], value(ctx, "one")
    part = [("s", {"a": v}), ("r", {"a": v}), ("v", [v, v])][ctx.choose("part", 3)]
    if part[0] == "v":
        c.v.assign(part[1])
        upd = {"v[0]": v, "v[1]": v}
    else:
        getattr(c, part[0]).assign(part[1])
        upd = {part[0] + ".a": v}
    compare(ctx, e, c, {**vals, "a": 5, **upd}, "after assigning to a part")
    ctx.note("done")
