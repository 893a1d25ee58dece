"""C33: generated bundle code defines exactly the design's signals."""
import ast
import re

from sx.common import harness

from .bundles import NDUT, strip


def gens():
    import bundle_code_gen as g

    return {"prefix": g.gen_bundle_code_from_prefix, "regex": g.gen_bundle_code_from_regex, "dict": g.gen_bundle_code_from_dict}


def load(ctx, code, names, dut, wants, what="B"):
    """wants: signal name -> pin name"""
    code = ctx.concrete(code)
    try:
        tree = ast.parse(code)
    except SyntaxError:
        ctx.check(False, "the generated code is no valid Python")
    classes = [n for n in tree.body if isinstance(n, ast.ClassDef)]
    ctx.check(len(classes) == 1 and classes[0].name == what, "the generated code does not define the one class")
    ns = {}
    exec(compile(tree, "<generated>", "exec"), ns)
    from toffee import Bundle
    from toffee.bundle import Signal

    cls = ns.get(what)
    ctx.check(isinstance(cls, type) and issubclass(cls, Bundle), "the generated class is no bundle class")
    got = [k for k, v in vars(cls).items() if not k.startswith("__")]
    ctx.check(all(isinstance(vars(cls)[k], Signal) for k in got), "the generated class defines something else than signals")
    ctx.check(sorted(got) == sorted(wants), "the generated class has other signals than the matching pins")
    ctx.check(got == sorted(got), "the signals are not in sorted order")
    ctx.check(len({id(vars(cls)[k]) for k in got}) == len(got), "two signals are one object")
    b = ns.get("bundle")
    ctx.check(isinstance(b, cls), "no bundle is created")
    b.bind(dut)
    for k, pin in wants.items():
        ctx.check(getattr(b, k) is getattr(dut, pin), f"a signal is not connected to the pin it came from")
    return tree, classes[0]


def widths(ctx, code, node, width):
    """the lines of the definitions"""
    lines = code.split("\n")[node.body[0].lineno - 1 : node.end_lineno]
    for ln in lines:
        n = len(ln.expandtabs(4))
        left, eq, right = ln.strip().rstrip("\\").partition("=")
        held = [x for x in left.split(",") if x.strip()]
        if len(held) == 1 and not eq or not held:
            continue
        ctx.check(n <= width, "a line is longer than the maximum width")
    return len(lines)


def pins(lens):
    """different names of these lengths"""
    return ["abcdefghijklm"[i] + "xyz"[i % 3] * (n - 1) for i, n in enumerate(lens)]


@harness("C33", params=[{"n": 3, "m": 3}], thorough=[{"n": 4, "m": 5}], labels=("one", "several", "tail"))
def lines(ctx, n, m):
    """1..n pins with names of m different lengths, any maximum width (every integer), from a prefix"""
    k = 1 + ctx.choose("n", n)
    L = [1, 4, 11, 2, 7][:m]
    names = pins([L[ctx.choose(f"l{i}", m)] for i in range(k)])
    width = ctx.int("width")
    dut = NDUT(names + ["_other"])
    code = gens()["prefix"]("B", NDUT(names), "", width)
    dut = NDUT(names)
    tree, node = load(ctx, code, names, dut, {x: x for x in names})
    c = widths(ctx, code, node, width)
    ctx.note("one" if c == 1 else "several")
    if code.split("\n")[node.end_lineno - 1].strip().startswith("="):
        ctx.note("tail")


@harness("C33", params=[{}], labels=("one", "several"))
def many(ctx):
    """9..12 pins (the number of signals gets a second digit), any maximum width, from a prefix, a regular expression or a
    dictionary; the default width"""
    k = 9 + ctx.choose("n", 4)
    shape = ctx.choose("shape", 2)
    names = [f"{'q' * (i % 3 if shape else 2)}{c}" for i, c in enumerate("lkjihgfedcba"[:k])]
    width = ctx.int("width")
    kind = ctx.choose("kind", 3)
    full = {x: "io_" + x for x in names}
    dut = NDUT(list(full.values()) + ["clock", "xio_z"])
    arg = ["io_", "^io_(.*)", dict(full)][kind]
    g = gens()[["prefix", "regex", "dict"][kind]]
    if ctx.choose("default", 2):
        code, width = g("B", dut, arg), 120
    else:
        code = g("B", dut, arg, width)
    tree, node = load(ctx, code, names, dut, full)
    c = widths(ctx, code, node, width)
    ctx.note("one" if c == 1 else "several")


def usable(x):
    return x.isidentifier() and not x.startswith("__")


RULES = [("prefix", ""), ("prefix", "a"), ("prefix", "b_"), ("regex", "(.*)"), ("regex", "a(.+)"), ("regex", "(a|b)_?(b)?"), ("regex", '^([^"\']+)b'),
         ("regex", r"_([a\b]*)b?"), ("regex", "b(?:_)(?P<n>a|b)"),
         ("regex", "([A-Z])|(a_?)"), ("dict", {"a": "b", "x": "ab", "y": "b_"}), ("dict", {"b": "a", "a": "ba", "z": "__"}), ("dict", {"q": "bb"})]


@harness("C33", params=[{"n": 2}], thorough=[{"n": 3}], labels=("none", "some", "all"))
def matching(ctx, n):
    """two pins with any names of up to n characters of a B b _; 13 prefixes, regular expressions and dictionaries"""
    x, y = ctx.str("x", "aBb_", 1, n), ctx.str("y", "aBb_", 1, n)
    ctx.assume(x != y)
    kind, arg = rule = RULES[ctx.choose("rule", len(RULES))]
    names = [x, y]
    wants = {}
    for p in names:
        s = strip(rule, p)
        if s is None:
            continue
        s, p = ctx.concrete(s), ctx.concrete(p)
        ctx.assume(usable(s) and s not in wants)  # two pins for one signal, or no name for it
        wants[s] = p
    try:
        code = gens()[kind]("Cls_1", NDUT(names), dict(arg) if kind == "dict" else arg)
    except AssertionError:
        ctx.check(not wants, "matching pins are not found")
        ctx.note("none")
        return
    ctx.check(bool(wants), "code is generated without a matching pin")
    load(ctx, code, wants, NDUT([ctx.concrete(n) for n in names]), wants, "Cls_1")
    ctx.note("all" if len(wants) == 2 else "some")
