"""C40: bundle classes generated from a signal tree connect exactly its signals."""
import ast
import json
import os
import shutil
import tempfile

from sx.common import harness

from .bundles import NDUT, is_pin

# what a name stands for: nothing, a signal, a group, or both
ABSENT, SIGNAL, GROUP, BOTH = range(4)


def grow(ctx, names, depth, only, tag=""):
    """A tree with any of the names at each level; names in `only` are no groups"""
    t = {}
    for n in names:
        k = ctx.choose(f"k{tag}_{n}", 2 if depth == 1 or n in only else 4)
        if k == ABSENT:
            continue
        t[n] = {"_": n} if k in (SIGNAL, BOTH) else {}
        if k in (GROUP, BOTH):
            sub = grow(ctx, names, depth - 1, only, f"{tag}_{n}")
            ctx.assume(bool(sub))
            t[n].update(sub)
    return t


def walk(t, path=()):
    """(path, whether it is a signal, whether it is a group)"""
    for n, s in t.items():
        if n == "_":
            continue
        yield path + (n,), "_" in s, any(x != "_" for x in s)
        yield from walk(s, path + (n,))


def reach(b, path, groups):
    """The signal found at the path: groups that are no signals are parts of their own, all others are spelled out"""
    o, pre = b, ""
    for i, n in enumerate(path):
        pre += ("_" if i else "") + n
        if i == len(path) - 1:
            return getattr(o, pre, None)
        if path[: i + 1] in groups:
            o = getattr(o, pre, None)
            if o is None:
                return None
            pre = ""


def generate(tree):
    import bundle_code_intel_gen as g

    d = tempfile.mkdtemp(prefix="c40")
    try:
        a, b = os.path.join(d, "signals.json"), os.path.join(d, "out.py")
        with open(a, "w") as f:
            json.dump(tree, f)
        g.main(a, b)
        with open(b) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def verify(ctx, tree):
    from toffee import Bundle

    code = generate(tree)
    try:
        mod = ast.parse(code)
    except SyntaxError:
        ctx.check(False, "the generated code is no valid Python")
    classes = [n.name for n in mod.body if isinstance(n, ast.ClassDef)]
    ctx.check(bool(classes) and len(set(classes)) == len(classes), "no class is generated, or two of one name")
    ns = {}
    try:
        exec(compile(mod, "<generated>", "exec"), ns)
    except NameError:
        ctx.check(False, "the generated code uses a class before its definition")
    cls = ns[classes[-1]]
    ctx.check(issubclass(cls, Bundle), "the generated class is no bundle class")
    nodes = list(walk(tree))
    both = {p for p, s, g in nodes if s and g}
    groups = {p for p, s, g in nodes if g and not s}
    leaves = [p for p, s, g in nodes if s]
    # groups inside a name that is a signal, too, are spelled out
    groups = {p for p in groups if not any(p[:i] in both for i in range(1, len(p)))}
    pins = ["_".join(p) for p in leaves]
    dut = NDUT(pins + ["zz", "a_zz", "zz_a"])
    b = cls()
    b.bind(dut)
    want = [getattr(dut, p) for p in pins]
    got = [s for _, s in b.all_signals()]
    ctx.check(all(is_pin(s) for s in got), "a signal of the generated class is not connected")
    ctx.check(sorted(map(id, got)) == sorted(map(id, want)), "the generated class does not connect each signal of the tree exactly once")
    for p, pin in zip(leaves, want):
        ctx.check(reach(b, p, groups) is pin, "a signal is not found at its place in the groups")
    if both:
        ctx.note("both")
    if any(len(p) > 1 for p in groups):
        ctx.note("nested")
    if any(p[:i] in both for p, s, g in nodes if g for i in range(1, len(p))):
        ctx.note("group in both")


@harness(
    "C40",
    params=[{"names": "abc", "depth": 2}, {"names": "ab", "depth": 3, "only": "b"}, {"names": "ab", "depth": 6, "only": "b"}],
    thorough=[{"names": "ab", "depth": 3}, {"names": "abcd", "depth": 2, "only": "d"}, {"names": "abc", "depth": 3, "only": "c"}, {"names": "ab", "depth": 8, "only": "b"}],
    labels=("both", "nested", "group in both"),
    fallback=[{"names": "ab", "depth": 3, "only": "b"}, {"names": "ab", "depth": 2}],
)
def trees(ctx, names, depth, only=""):
    """every tree of the given names at each level down to the given depth, each absent, a signal, a group or both (those
    in `only`: no groups), with at least one signal"""
    t = grow(ctx, names, depth, only)
    ctx.assume(bool(t))
    verify(ctx, t)


@harness("C40", params=[{"n": 3}], thorough=[{"n": 4}], labels=("same", "other"),
         fallback=[{"n": 2}])
def siblings(ctx, n):
    """n groups next to each other, each of one of seven contents, at the top level or inside a group, which is a signal, too,
    or not: equal contents under different names"""
    s = lambda: {"_": 1}
    shapes = [
        lambda: {"x": s()},
        lambda: {"x": s(), "y": s()},
        lambda: {"y": s(), "x": s()},
        lambda: {"x": {"x": s()}},
        lambda: {"x": {"_": 1, "x": s()}},
        lambda: {"x": {"_": 1, "x": s()}, "y": {"x": s()}},
        lambda: {"_": 1, "x": s(), "y": {"x": s()}},
    ]
    ks = [ctx.choose(f"s{i}", len(shapes)) for i in range(n)]
    t = {"grp%d" % i: shapes[k]() for i, k in enumerate(ks)}
    where = ctx.choose("where", 3)
    if where:
        t = {"io": t, "clock": s()}
        if where == 2:
            t["io"]["_"] = 1
    ctx.note("same" if len(set(ks)) < n else "other")
    verify(ctx, t)
