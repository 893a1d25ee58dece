"""C42: bundles made from a list of names, a port or a design's pins have exactly those signals."""
from sx.common import harness

from .bundles import NDUT, is_pin, make
from .c17 import D, P, R
from .lib import LogCapture, Pin

POOL = ["a", "b", "a_b", "io_a", "v"]


class XDataPin(Pin):
    """a pin as designs of other picker versions have it: the data itself"""


class Port(dict):
    """Like picker's XPort: keys and the pin of each"""

    def GetKeys(self):
        return list(self)


def pick(ctx, n, tag=""):
    """n distinct names of the pool in any order"""
    out = []
    for i in range(n):
        k = ctx.choose(f"{tag}n{i}", [x for x in POOL if x not in out])
        out.append(k)
    return out


def verify(ctx, b, dut, sigs, pin_of, vals):
    """The bundle has the signals, each at its pin (or without one), and nothing else"""
    ctx.check(sorted(b.current_level_signals) == sorted(sigs), "the bundle does not have exactly the signals asked for")
    have = dict(b.all_signals())
    ctx.check(sorted(have) == sorted(sigs), "the bundle lists other signals")
    for p, v in zip(dut._pins, vals):
        p.__dict__["val"] = v
    dut._writes.clear()
    r = b.as_dict()
    ctx.check(sorted(r) == sorted(sigs), "the dictionary has other signals")
    for s in sigs:
        p = pin_of(s)
        o = getattr(b, s)
        if p is None:
            ctx.check(not is_pin(o) and o.value is None and r[s] is None, "a signal without a pin is not inert")
            ctx.note("inert")
        else:
            ctx.check(o is p, "a signal is connected to another pin")
            ctx.check(ctx.eq(r[s], p.val), "a signal reads another value")
            ctx.note("connected")
    ctx.check(not dut._writes, "reading wrote")
    x = ctx.int("x", 0, 255)
    b.set_all(x)
    mine = [pin_of(s) for s in sigs if pin_of(s) is not None]
    ctx.check(len(dut._writes) == len(mine), "setting all signals does not write each of them once")
    for p, v in zip(dut._pins, vals):
        ctx.check(ctx.eq(p.val, x if any(p is q for q in mine) else v), "setting all signals wrote other pins")


@harness("C42", params=[{"n": 2}], thorough=[{"n": 3}], labels=("inert", "connected"))
def lists(ctx, n):
    """classes made from lists of 1..n names in any order, another class made from another list in between;
    instances by prefix, regular expression, dictionary or plainly, any of their pins missing, any values"""
    from toffee import Bundle

    k = 1 + ctx.choose("len", n)
    names = pick(ctx, k)
    form = ctx.choose("form", 2)
    given = tuple(names) if form else list(names)
    rule = [P("io_"), P(""), R("io_(.*)"), ("none", None), D({x: f"d_{x}" for x in names})][ctx.choose("rule", 5)]
    cls = Bundle.new_class_from_list(given)
    other = Bundle.new_class_from_list(["q"] + names[:1])
    o = other()
    b = make(cls, rule)
    ctx.check(list(given) == names and list(cls.signals) == names, "the list of names is changed")
    ctx.check(sorted(o.current_level_signals) == sorted(["q"] + names[:1]), "another class got other signals")

    def pin_name(x):
        return f"d_{x}" if rule[0] == "dict" else f"io_{x}" if rule[1] and "io_" in rule[1] else x

    there = [x for i, x in enumerate(names) if ctx.bool(f"there{i}")]
    dut = NDUT([pin_name(x) for x in there] + ["zz"])
    vals = [ctx.int(f"v{i}", 0, 255) for i in range(len(dut._pins))]
    with LogCapture("ERROR") as lg:
        b.bind(dut)
    ctx.check(not lg.texts(), "binding logs an error")
    verify(ctx, b, dut, names, lambda s: getattr(dut, pin_name(s), None), vals)


@harness("C42", params=[{"n": 2}], thorough=[{"n": 3}], labels=("connected", "class", "bundle"))
def ports(ctx, n):
    """classes and bundles made from ports of 1..n keys, whose pins have other names in the design, as pins
    or outputs, any values; the port stays as it is"""
    from toffee import Bundle

    names = pick(ctx, 1 + ctx.choose("len", n))
    how = ctx.choose("how", 3)
    dut = NDUT([f"io_{x}" for x in names] + ["zz"])
    vals = [ctx.int(f"v{i}", 0, 255) for i in range(len(dut._pins))]
    port = Port((x, getattr(dut, f"io_{x}")) for x in names)
    was = list(port.items())
    if how == 0:
        b = Bundle.new_class_from_xport(port).from_prefix("io_").bind(dut)
        ctx.note("class")
    elif how == 1:
        b = Bundle.from_xport(port)
        ctx.note("bundle")
    else:
        Bundle.from_xport(Port(a=Pin(dut.event), q=Pin(dut.event)))
        b = Bundle.from_xport(port)
        Bundle.from_xport(Port(a=Pin(dut.event), q=Pin(dut.event)))
    ctx.check([k for k, _ in port.items()] == [k for k, _ in was] and all(x[1] is y[1] for x, y in zip(port.items(), was)), "the port is changed")
    verify(ctx, b, dut, names, lambda s: getattr(dut, f"io_{s}"), vals)


KINDS = ["absent", "data", "pin", "number", "method"]


@harness("C42", params=[{}], labels=("inert", "connected", "found", "part"))
def designs(ctx):
    """bundles made by prefix from a design in which names under the prefix and others are absent, data
    signals, other pins, numbers or methods; the class has signals of its own, with and without a pin; bound itself or
    as a part of another class, of which there are two instances; the class and other instances stay as they are"""
    from toffee import Bundle, Signal

    pre = ["io_", "", "io_a"][ctx.choose("prefix", 3)]
    kinds = {n: KINDS[ctx.choose(f"k_{n}", 5 if n == "io_b" else 3)] for n in ("io_b", "io_io_a", "io_ab", "w")}
    declared = ctx.bool("declared")
    extra = [] if pre == "" else ["own"]
    pins = [n for n, k in kinds.items() if k in ("data", "pin")]
    dut = NDUT(pins + ["zz_own"] if pre == "" else pins + [pre + "own"] if ctx.bool("own") else pins)
    for n, p in zip(dut._names, dut._pins):
        if kinds.get(n, "data" if n == "zz_own" else "pin") == "data":
            object.__setattr__(p, "__class__", XDataPin)
    for n, k in kinds.items():
        if k == "number":
            setattr(dut, n, 5)
        elif k == "method":
            setattr(dut, n, lambda: 5)

    if declared:
        cls = Bundle.new_class_from_list(list(extra))
    else:
        cls = type("B", (Bundle,), {s: Signal() for s in extra})
    y = cls.from_prefix(pre)
    b = cls.from_prefix(pre, dut)
    z = cls.from_prefix(pre)
    found = [n[len(pre):] for n, k in list(kinds.items()) + ([("zz_own", "data")] if pre == "" else []) if k == "data" and n[: len(pre)] == pre]
    ctx.assume(all(found))
    if found:
        ctx.note("found")
    for o in (y, z):
        ctx.check(list(o.current_level_signals) == extra, "another instance got the design's signals")
    vals = [ctx.int(f"v{i}", 0, 255) for i in range(len(dut._pins))]
    if ctx.choose("part", 2):
        top = type("Top", (Bundle,), {"part": b})
        top()
        t = top()
        t.bind(dut)
        ctx.check(t.part is not b, "the instance shares its part with the class")
        ctx.check(not any(is_pin(getattr(b, x, None)) for x in found + extra), "binding the instance binds the class's part")
        b = t.part
        ctx.note("part")
    else:
        b.bind(dut)
    by = dict(zip(dut._names, dut._pins))
    verify(ctx, b, dut, found + extra, lambda s: by.get(pre + s), vals)
