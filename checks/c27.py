"""C27: coverage conditions mean what their names say."""
from sx.common import harness

from .lib import Pin

class Half:
    """The number n/2, as far as comparisons go (what a float or a fraction offers)."""

    __hash__ = None

    def __init__(self, n):
        self.n = n

    def _o(self, o):
        return o.n if isinstance(o, Half) else 2 * o

    def __eq__(self, o):
        return self.n == self._o(o)

    def __ne__(self, o):
        return self.n != self._o(o)

    def __lt__(self, o):
        return self.n < self._o(o)

    def __le__(self, o):
        return self.n <= self._o(o)

    def __gt__(self, o):
        return self.n > self._o(o)

    def __ge__(self, o):
        return self.n >= self._o(o)


NAMES = ["Eq", "Ne", "Lt", "Le", "Gt", "Ge"]


class Obj:
    def __init__(self, v):
        self.value = v
        self.low = 7  # other attributes mean nothing
        self.data = -1


class Prop:
    def __init__(self, v):
        self.v = v
        self.reads = 0

    @property
    def value(self):
        self.reads += 1
        return self.v


def target(ctx, v):
    k = ctx.choose("target", 4)
    if k == 0:
        return v
    if k == 1:
        return Obj(v)
    if k == 2:
        return Pin(None, value=v)
    return Prop(v)


def intact(ctx, t, v):
    if isinstance(t, Obj):
        ctx.check(set(vars(t)) == {"value", "low", "data"} and t.low == 7 and t.data == -1, "the target gets other attributes")
    if isinstance(t, (Obj, Pin)):
        ctx.check(t.value is v, "the target is changed")
    if isinstance(t, Prop):
        ctx.check(set(vars(t)) == {"v", "reads"} and t.v is v, "the target is changed")


def cls(ctx, name):
    from toffee import funcov

    return getattr(funcov, ("Cov" if ctx.choose("long", 2) else "") + name)


def agree(ctx, cond, t, want, what):
    got = cond(t)
    ctx.check(ctx.eq(bool(got), want), what)
    ctx.check(ctx.eq(bool(cond(t)), want), what + " (asked again)")
    return got


@harness("C27", params=[{}], labels=("true", "false"))
def orders(ctx):
    """the six comparisons under both names; target an integer, an object, a pin or an object computing its
    value; value and operand any integers; the value then changes to another integer"""
    n = NAMES[ctx.choose("cond", 6)]
    x, y, z = ctx.int("value"), ctx.int("operand"), ctx.int("later")
    c = cls(ctx, n)(y)
    t = target(ctx, x)
    rel = lambda v: {"Eq": v == y, "Ne": v != y, "Lt": v < y, "Le": v <= y, "Gt": v > y, "Ge": v >= y}[n]
    g = agree(ctx, c, t, rel(x), f"{n} is wrong")
    intact(ctx, t, x)
    if isinstance(t, (Obj, Pin)):
        if isinstance(t, Pin):
            t.__dict__["val"] = z
        else:
            t.value = z
        agree(ctx, c, t, rel(z), f"{n} does not look at the current value")
    ctx.note("true" if g else "false")


@harness("C27", params=[{}], labels=("true", "false"))
def wide(ctx):
    """the six comparisons on 64-bit values and on truth values"""
    n = NAMES[ctx.choose("cond", 6)]
    if ctx.choose("kind", 2):
        x, y = ctx.bv("value", 64), ctx.bv("operand", 64)
        rel = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[n]
    else:
        x, y = ctx.bool("value"), ctx.bool("operand")
        a, b = (1 if x else 0), (1 if y else 0)
        rel = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[n]
    t = target(ctx, x)
    g = agree(ctx, cls(ctx, n)(y), t, rel, f"{n} is wrong")
    intact(ctx, t, x)
    ctx.note("true" if g else "false")


@harness("C27", params=[{"n": 3}], thorough=[{"n": 5}], labels=("true", "false"))
def members(ctx, n):
    """in and not in: lists and tuples of up to n symbolic elements, ranges, text in text, dictionaries and sets"""
    neg = ctx.choose("neg", 2)
    kind = ctx.choose("kind", 5)
    x = ctx.int("value", -10, 30)
    if kind < 2:
        k = ctx.choose("k", n + 1)
        xs = [ctx.int(f"e{i}", -10, 30) for i in range(k)]
        op = xs if kind == 0 else tuple(xs)
        rel = ctx.Or(*[x == e for e in xs]) if xs else False
    elif kind == 2:
        lo, hi = [(0, 5), (-3, 1), (4, 4)][ctx.choose("range", 3)]
        op = range(lo, hi)
        rel = ctx.And(x >= lo, x < hi)
    elif kind == 3:
        x = ctx.str("s", "ab", 1, 2)
        op = "abba"
        rel = ctx.Or(*[x == s for s in ("a", "b", "ab", "bb", "ba")])
    else:
        op = [{3: 0, 8: 1}, {3, 8}, frozenset((3, 8))][ctx.choose("keyed", 3)]
        rel = ctx.Or(x == 3, x == 8)
    c = cls(ctx, "NotIn" if neg else "In")(op)
    t = target(ctx, x)
    g = agree(ctx, c, t, ctx.Not(rel) if neg else rel, "membership is wrong")
    intact(ctx, t, x)
    ctx.note("true" if g else "false")


@harness("C27", params=[{}], labels=("true", "false", "ends"))
def ranges(ctx):
    """the inclusive range: any integers for value and both ends (also when the ends are swapped)"""
    x, lo, hi = ctx.int("value"), ctx.int("lo"), ctx.int("hi")
    t = target(ctx, x)
    g = agree(ctx, cls(ctx, "IsInRange")(lo, hi), t, ctx.And(lo <= x, x <= hi), "IsInRange is wrong")
    intact(ctx, t, x)
    ctx.note("true" if g else "false")
    if ctx.Or(x == lo, x == hi):
        ctx.note("ends")


@harness("C27", params=[{}], labels=("true", "false"))
def fractions(ctx):
    """every condition on values that are no integers (halves, compared with halves and with integers)"""
    n = (NAMES + ["In", "NotIn", "IsInRange"])[ctx.choose("cond", 9)]
    a, b, c = ctx.int("value"), ctx.int("operand"), ctx.int("operand2")
    x = Half(a)
    half = ctx.choose("half", 2)
    op = Half if half else (lambda v: v)
    y, z = (b, c) if half else (2 * b, 2 * c)
    t = target(ctx, x)
    if n == "IsInRange":
        cond, rel = cls(ctx, n)(op(b), op(c)), ctx.And(y <= a, a <= z)
    elif n in ("In", "NotIn"):
        cond, rel = cls(ctx, n)([op(b), op(c)]), ctx.Or(y == a, a == z)
        if n == "NotIn":
            rel = ctx.Not(rel)
    else:
        cond = cls(ctx, n)(op(b))
        rel = {"Eq": a == y, "Ne": a != y, "Lt": a < y, "Le": a <= y, "Gt": a > y, "Ge": a >= y}[n]
    g = agree(ctx, cond, t, rel, f"{n} is wrong")
    intact(ctx, t, x)
    ctx.note("true" if g else "false")


@harness("C27", params=[{}], labels=("true", "false"))
def nothing(ctx):
    """values and operands that are None, False, 0 or empty text, of every kind of target: equal, not equal, in, not in"""
    P = [None, False, 0, "", 1]
    n = ["Eq", "Ne", "In", "NotIn"][ctx.choose("cond", 4)]
    x, y = P[ctx.choose("value", 5)], P[ctx.choose("operand", 5)]
    z = ctx.choose("rest", [None, 5])
    t = target(ctx, x)
    op = [y, z] if n in ("In", "NotIn") else y
    rel = {"Eq": x == y, "Ne": x != y, "In": x in (y, z), "NotIn": x not in (y, z)}[n]
    g = agree(ctx, cls(ctx, n)(op), t, rel, f"{n} is wrong")
    intact(ctx, t, x)
    ctx.note("true" if g else "false")
