"""Self-test of the proxies: operations on symbolic values constrained to constants must give what
plain Python gives for the constants (setup_cmd; touches nothing outside the process)."""
import operator
import os
import random
import re
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sx import engine, symre, symstr  # noqa: E402
from sx.engine import Engine, SymCtx  # noqa: E402

rnd = random.Random(7)
bad = []
n = 0


def fresh():
    eng = Engine(time_limit=300)
    engine.CUR = eng
    eng.start()
    symstr.reset()
    return SymCtx(eng)


def plain(v):
    if isinstance(v, symstr.SymStr):
        return symstr.realise(v)
    if isinstance(v, engine.SymBool):
        return bool(v)
    if isinstance(v, (engine.SymInt, engine.SymBV)):
        return int(v)
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def same(what, got, want):
    global n
    n += 1
    g = plain(got)
    if g != want:
        bad.append("%s: got %r, want %r" % (what, g, want))


for a in (-12, -1, 0, 1, 7):
    for t in ("-12", "0", "-0", "00", "7", " 7", "+7", "x", "", "True"):
        ctx = fresh()
        x = ctx.int("x")
        ctx.assume(x == a)
        same("str(%d) == %r" % (a, t), str(x) == t, str(a) == t)
        same("str(%d) != %r" % (a, t), repr(x) != t, repr(a) != t)
        same("in", str(x) in {t, "1"}, str(a) in {t, "1"})
    for b in (-12, 0, 1):
        ctx = fresh()
        x, y = ctx.int("x"), ctx.int("y")
        ctx.assume(ctx.And(x == a, y == b))
        same("str(%d) == str(%d)" % (a, b), str(x) == repr(y), a == b)
for a in (-120, -12, -1, 0, 1, 9, 10, 99, 100, 10**11 + 1, 10**12 + 5):
    for b in (-12, -2, 0, 1, 10, 12, 9, 10**11, 10**13):
        for f in (operator.lt, operator.le, operator.gt, operator.ge):
            ctx = fresh()
            x, y = ctx.int("x"), ctx.int("y")
            ctx.assume(ctx.And(x == a, y == b))
            same("%s of str(%d), str(%d)" % (f.__name__, a, b), f(str(x), repr(y)), f(str(a), str(b)))
            same("%s of str(%d), '%d'" % (f.__name__, a, b), f(str(x), str(b)), f(str(a), str(b)))
            same("%s of '%d', str(%d)" % (f.__name__, a, b), f(str(a), str(y)), f(str(a), str(b)))
            same("%s of str(%d), 'x'" % (f.__name__, a), f(str(x), "x"), f(str(a), "x"))
for a in (True, False):
    ctx = fresh()
    x = ctx.bool("x")
    ctx.assume(x == a)
    for t in ("True", "False", "true", "1"):
        same("str(%r) == %r" % (a, t), str(x) == t, str(a) == t)
BIN = [operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod, operator.lt, operator.le,
       operator.gt, operator.ge, operator.eq, operator.ne]
BIT = [operator.and_, operator.or_, operator.xor]
for a in (-5, -1, 0, 1, 3, 7, 12):
    for b in (-3, -1, 0, 1, 2, 7):
        for f in BIN:
            if b == 0 and f in (operator.floordiv, operator.mod):
                continue
            ctx = fresh()
            x, y = ctx.int("x"), ctx.int("y")
            ctx.assume(x == a)
            ctx.assume(y == b)
            w = f(a, b)
            same("int %s(%d,%d)" % (f.__name__, a, b), f(x, y), w)
            same("int %s(%d,c%d)" % (f.__name__, a, b), f(x, b), w)
            same("int %s(c%d,%d)" % (f.__name__, a, b), f(a, y), w)
for a in (0, 1, 2, 0x8000000000000001, 0xDEADBEEF, 2**64 - 1):
    for b in (0, 1, 27, 0xFFFF, 2**63):
        for f in BIN[:3] + BIN[5:] + BIT:
            ctx = fresh()
            x = ctx.bv("x", 64)
            ctx.assume(x == a)
            w = f(a, b)
            same("bv %s(%d,%d)" % (f.__name__, a, b), f(x, b), w)
            same("bv r%s(%d,%d)" % (f.__name__, a, b), f(b, x), f(b, a))
        ctx = fresh()
        x = ctx.bv("x", 64)
        ctx.assume(x == a)
        k = b % 67
        same("bv >>", x >> k, a >> k)
        same("bv <<", x << k, a << k)
        same("bv ~", ~x, ~a)
        same("bv -", -x, -a)
        same("bv bool", not x, not a)

WORDS = ["", "a", "_", "ab", "a_b", "io_ab", "b.a", "a.b.c", "aab", "ba_"]
PATS = ["", "a", "(a)", "a*b", "(a|b)_(.*)", ".*", "(io_)?(a+)(b)?", "[^_]+", r"\w*", "a.b", "^a", "b$", "(?:a)(b)"]
GLOB = ["*", "a*", "?b", "*_*", "ab", "[ab]*", "a?"]
for w in WORDS:
    ctx = fresh()
    s = ctx.str("s", "abio_.c", len(w), len(w))
    ctx.assume(s == w)
    for p in WORDS:
        for m in ("startswith", "endswith", "find", "rfind", "count", "removeprefix", "removesuffix", "partition", "split"):
            if p == "" and m in ("partition", "split", "count", "find", "rfind"):
                continue
            same("str %s(%r,%r)" % (m, w, p), getattr(s, m)(p), getattr(w, m)(p))
        same("in", p in s, p in w)
        same("==", s == p, w == p)
        same("<", s < p, w < p)
        same("+", s + p, w + p)
        same("+r", p + s, p + w)
    for p in PATS:
        for m in ("match", "fullmatch", "search"):
            q = getattr(symre.re_mod, m)(p, s)
            r = getattr(re, m)(p, w)
            same("re %s(%r,%r)" % (m, p, w), q is None, r is None)
            if q is not None and r is not None:
                same("re groups %r %r" % (p, w), q.groups(), r.groups())
                same("re span %r %r" % (p, w), q.span(), r.span())
    import fnmatch

    for p in GLOB:
        same("fnmatch %r %r" % (p, w), symre.fnmatch_mod.fnmatch(s, p), fnmatch.fnmatch(w, p))

# dictionaries and sets with symbolic keys: random histories against the plain ones
from sx.symdict import SDict, SSet, sx_get  # noqa: E402

KEYS = ["a", "b", "ab", "c_"]
for r in range(150):
    ctx = fresh()
    sk = []
    for i, w in enumerate(KEYS):
        s = ctx.str("s%d" % i, "abc_", len(w), len(w))
        ctx.assume(s == w)
        sk.append(s)
    d, e, t, u = SDict(), {}, SSet(), set()
    for j in range(10):
        i = rnd.randrange(4)
        w, k = KEYS[i], (sk[i] if rnd.random() < 0.5 else KEYS[i])
        if rnd.random() < 0.2:
            w, k = (w, 1), (k, 1)
        op = rnd.randrange(9)
        if op < 2:
            d[k] = e[w] = j
            t.add(k), u.add(w)
        elif op == 2:
            same("get", d.get(k, -1), e.get(w, -1))
            same("get of plain", sx_get(e, k, -1), e.get(w, -1))
        elif op == 3:
            same("in dict", k in d, w in e)
            same("in set", k in t, w in u)
        elif op == 4:
            same("pop", d.pop(k, -2), e.pop(w, -2))
            t.discard(k), u.discard(w)
        elif op == 5:
            same("setdefault", d.setdefault(k, j), e.setdefault(w, j))
        elif op == 6:
            d.update({k: j}), e.update({w: j})
            t |= {k}
            u |= {w}
        elif op == 7:
            same("fromkeys", list(SDict.fromkeys([k, sk[0], k])), list(dict.fromkeys([w, KEYS[0], w])))
            same("set ops", len(t & SSet([k, sk[1]])), len(u & {w, KEYS[1]}))
            same("set ops", len(t - SSet([k, sk[1]])), len(u - {w, KEYS[1]}))
        else:
            same("subset", SSet([k]) <= t, {w} <= u)
            same("copy", list(d.copy().items()), list(e.items()))
        same("items", list(d.items()), list(e.items()))
        same("len", (len(d), len(t)), (len(e), len(u)))
        same("set", sorted(map(repr, map(plain, t))), sorted(map(repr, u)))
        same("eq", d == e, True)
        same("eq", t == u, True)

if bad:
    print("\n".join(bad[:20]))
    sys.exit(1)
print("self-test: %d comparisons agree" % n)
