"""C29: marking functions reaches exactly the matching bins."""
import re

from sx.common import harness


class V:
    value = 1


def wild(p, s):
    """whole name matches the wildcard pattern (concrete or symbolic characters)"""
    if len(p) == 0:
        return len(s) == 0
    c = p[0]
    if c == "*":
        return any([wild(p[1:], s[i:]) for i in range(len(s) + 1)])
    if len(s) == 0:
        return False
    if c == "?" or c == s[0]:
        return wild(p[1:], s[1:])
    return False


def select(sel, bins):
    if any([sel == b for b in bins]):
        return {b for b in bins if b == sel}
    if any([c == "*" or c == "?" for c in sel]):
        return {b for b in bins if wild(sel, b)}
    return None


def report(g, name="P"):
    p = [q for q in g.as_dict()["points"] if q["name"] == name][0]
    return {b: sorted(f) for b, f in p["functions"].items() if f}


def group(bins, name="P"):
    from toffee.funcov import CovEq, CovGroup

    g = CovGroup("g")
    g.add_watch_point(V(), {b: CovEq(1) for b in bins}, name=name)
    g.add_watch_point(V(), {b: CovEq(1) for b in ("a", "ab")}, name="other")
    return g


def refused(ctx, f):
    try:
        f()
    except Exception:
        return True
    return False


def marked(ctx, g, sels, want, fn="test_x", form=0, before=None):
    """want None: rejected; otherwise the set of bins"""
    before = report(g) if before is None else before
    arg = sels[0] if len(sels) == 1 and form == 0 else list(sels) if form < 2 else tuple(sels)
    ok = not refused(ctx, lambda: g.mark_function("P", fn, arg))
    if want:
        ctx.check(ok, "a selector that matches is rejected")
        exp = {b: sorted(set(before.get(b, [])) | ({fn} if b in want else set())) for b in set(before) | want}
        ctx.check(report(g) == exp, "the function is recorded under other bins than the selected ones")
        ctx.note("some")
    else:
        ctx.check(not ok, "a selector that matches no bin is accepted")
        ctx.check(report(g) == before, "a rejected selector records something")
        ctx.note("none")
    ctx.check(report(g, "other") == {}, "another point gets the function")


POOLS = [["a", "ab", "b"], ["ba", "a", "*", "a*", "aab"], ["?", "a?b", "", "ab"], ["a.b", "a b", "b ", "b", " a"], ["ab", "aB", "B"]]


@harness("C29", params=[{"n": 3}], thorough=[{"n": 5}], labels=("some", "none"),
         fallback=[{"n": 2}])
def wildcards(ctx, n):
    """any selector of up to n characters of a b * ?, or a B * ?, with a wildcard or naming a bin; five sets of bins"""
    k = ctx.choose("pool", 5)
    bins = POOLS[k]
    sel = ctx.str("sel", "aB*?" if k == 4 else "ab*?", 0, n)
    want = select(sel, bins)
    ctx.assume(want is not None)  # regular expressions: below
    marked(ctx, group(bins), [sel], want, form=ctx.choose("form", 3))


@harness("C29", params=[{"n": 2}], thorough=[{"n": 3}], labels=("some", "none"),
         fallback=[{"n": 1}])
def names(ctx, n):
    """bin names: any two different names of up to n characters of a b *; a selector of 1..2 characters of a * ?"""
    x, y = ctx.str("x", "ab*", 0, n), ctx.str("y", "ab*", 0, n)
    ctx.assume(x != y)
    x, y = ctx.concrete(x), ctx.concrete(y)
    sel = ctx.str("sel", "a*?", 1, 2)
    want = select(sel, [x, y])
    ctx.assume(want is not None)
    marked(ctx, group([x, y]), [sel], want)


@harness("C29", params=[{}], labels=("some", "none"))
def blanks(ctx):
    """literal names with blanks"""
    bins = POOLS[3]
    sel = ctx.str("sel", "ab .", 2, 3)
    if any([sel == b for b in bins]):
        marked(ctx, group(bins), [sel], {b for b in bins if b == sel})
    else:
        ctx.assume(ctx.And(sel[0] != " ", sel[-1] != " "))
        sel = ctx.concrete(sel)
        marked(ctx, group(bins), [sel], {b for b in bins if re.match(sel, b)})


REGEX = ["ab|b", "a+b", "[ab]", "^ab$", "a(b)", "b$", ".", "..", "a.", "(a|b)a", r"\w", "a{2}", "x", "[^a]", "a|ab", r"[?]", r"\."]


@harness("C29", params=[{}], labels=("some", "none"))
def regexes(ctx):
    """17 regular expressions and every selector of up to 2 characters of a b .; four sets of bins: the start of the name has
    to match"""
    bins = POOLS[ctx.choose("pool", 4)]
    if ctx.choose("kind", 2):
        sel = ctx.concrete(ctx.str("sel", "ab.", 1, 2))
    else:
        sel = REGEX[ctx.choose("regex", len(REGEX))]
    ctx.assume("?" not in sel or sel not in bins)
    if sel in bins:
        want = {sel}
    elif "*" in sel or "?" in sel:
        want = {b for b in bins if wild(sel, b)}
        ctx.assume("[" not in sel)
    else:
        want = {b for b in bins if re.match(sel, b)}
    marked(ctx, group(bins), [sel], want)


@harness("C29", params=[{}], labels=("some", "none"))
def lists(ctx):
    """two marks one after the other, each with a list of 0..2 selectors (any of a b * ?, up to 2 characters); one function
    each, the same or another one"""
    bins = ["a", "ab", "b", "*"]
    g = group(bins)
    same = ctx.choose("same", 2)
    form = ctx.choose("form", 2)
    for i in range(2):
        k = ctx.choose(f"k{i}", 3)
        sels = [ctx.str(f"s{i}{j}", "ab*?" if i == 0 else "a?", 1, 1 if i else 2) for j in range(k)]
        want = set()
        for s in sels:
            w = select(s, bins)
            ctx.assume(w is not None)
            if not w:
                want = None
                break
            want |= w
        marked(ctx, g, sels, want, fn="f" if same or i == 0 else "h", form=1 + form)


def alpha():
    pass


class Alpha:
    def alpha(self):
        pass

    @classmethod
    def make(cls):
        pass


class Beta:
    def alpha(self):
        pass


@harness("C29", params=[{}], labels=("end",))
def functions(ctx):
    """one function or a list or tuple of them: plain functions, methods of instances, classes and class methods, texts; each
    is recorded once, and different ones stay different"""

    def beta():
        pass

    fs = ["alpha", "t::x", alpha, beta, Alpha.alpha, Alpha().alpha, Alpha.make, Beta.alpha, Beta().alpha]
    same = {(4, 5), (7, 8)}
    i = ctx.choose("i", len(fs))
    g = group(["a", "ab", "c"])
    one = ctx.choose("form", 4)
    if one == 0:
        g.mark_function("P", fs[i], "a")
        g.mark_function("P", fs[i], ["a", "a"])
        r = report(g)
        ctx.check(set(r) == {"a"} and len(r["a"]) == 1, "a function marked twice is recorded twice or elsewhere")
    else:
        j = ctx.choose("j", len(fs))
        seq = [list, tuple][one % 2]
        ret = g.mark_function("P", seq([fs[i], fs[j]]), "a?" if one == 2 else ["a", "ab"])
        ctx.check(ret is g, "mark_function does not return the group")
        bins = ["ab"] if one == 2 else ["a", "ab"]
        r = report(g)
        n = 1 if i == j or (min(i, j), max(i, j)) in same else 2
        ctx.check(sorted(r) == bins, "functions are recorded under other bins")
        for b in bins:
            ctx.check(len(r[b]) == n, "not every function is recorded exactly once")
        i = j
    ctx.check(any(isinstance(fs[i], str) and f == fs[i] or not isinstance(fs[i], str) and f.endswith("::" + fs[i].__name__) for f in r[min(r, key=len)] + r[max(r, key=len)]),
              "a function is recorded under another name")
    # sampling and resetting keep what is marked
    g.sample()
    g.reset_point("P")
    ctx.check(report(g) == r, "sampling or resetting changes the marks")
    ctx.note("end")


@harness("C29", params=[{"n": 2}], labels=("known", "unknown"))
def points(ctx, n):
    """any point name of up to n characters of P a b *: unknown points are refused, or ignored if so requested"""
    name = ctx.str("name", "Pab*", 0, n)
    g = group(["a", "b"])
    how = ctx.choose("how", 3)
    kw = [{}, {"raise_error": True}, {"raise_error": False}][how]
    bad = refused(ctx, lambda: g.mark_function(name, "f", "a", **kw))
    if name == "P":
        ctx.check(not bad and report(g) == {"a": ["f"]}, "a known point is not marked")
        ctx.note("known")
    else:
        ctx.check(bad == (how < 2), "an unknown point is accepted, or refused although errors are disabled")
        ctx.check(report(g) == {}, "an unknown point marks another one")
        ctx.check(list(g.cover_points()) == ["P", "other"], "an unknown point is created")
        ctx.note("unknown")
    ctx.check(report(g, "other") == {}, "another point gets the function")
    from toffee.funcov import CovGroup

    g0 = CovGroup("none")  # a group without any point
    bad = refused(ctx, lambda: g0.mark_function(name, "f", "a", **kw))
    ctx.check(bad == (how < 2) and not list(g0.cover_points()), "an unknown point is accepted by an empty group, or refused although errors are disabled")
    # wrong selectors never are accepted
    for s in ([], ()):
        before = report(g)
        ctx.check(refused(ctx, lambda: g.mark_function("P", "f", s)), "an empty list of selectors is accepted")
        ctx.check(report(g) == before, "an empty list of selectors records something")


@harness("C29", params=[{}], labels=("end",))
def default(ctx):
    """without a selector all bins are marked"""
    k = ctx.choose("k", 3)
    bins = [["a"], ["a", "b", ""], ["x.y", "?", "a b"]][k]
    g = group(bins)
    g.mark_function("P", "f")
    ctx.check(report(g) == {b: ["f"] for b in bins}, "not every bin is marked by default")
    ctx.note("end")
