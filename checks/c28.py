"""C28: coverage accounting is exact."""
from sx.common import harness


class Target:
    def __init__(self, v=0):
        self.value = v


class Ref:
    """What the group has to report.  points: name -> [once, {bin: predicate}, {bin: count}]"""

    def __init__(self, name):
        self.name = name
        self.stopped = False
        self.clear()

    def clear(self):
        self.points, self.calls, self.taken, self.vague = {}, 0, 0, False

    def covered(self, n):
        return all(c > 0 for c in self.points[n][2].values())

    def all_covered(self):
        return all(self.covered(n) for n in self.points)

    def complete(self):
        return bool(self.points) and self.all_covered() and all(p[0] for p in self.points.values())

    def add(self, n, once, bins):
        self.points[n] = [once, bins, {b: 0 for b in bins}]

    def sample(self):
        self.calls += 1
        self.vague = self.vague or not self.points  # whether an empty group takes samples is not specified
        if self.stopped or self.complete():
            return
        self.taken += 1
        for once, bins, cnt in self.points.values():
            for b, pred in bins.items():
                if pred():
                    cnt[b] += 1


def agree(ctx, g, r, what):
    d = g.as_dict()
    got = {p["name"]: {b["name"]: b["hints"] for b in p["bins"]} for p in d["points"]}
    want = {n: p[2] for n, p in r.points.items()}
    ctx.check(list(got) == list(want) and all(list(got[n]) == list(want[n]) for n in want), f"{what}: other points or bins are reported")
    for n in want:
        for b in want[n]:
            ctx.check(ctx.eq(got[n][b], want[n][b]), f"{what}: wrong count of a bin")
    for p in d["points"]:
        n = p["name"]
        ctx.check(bool(p["hinted"]) == r.covered(n), f"{what}: a point is reported covered wrongly")
        ctx.check(bool(g.is_point_covered(n)) == r.covered(n), f"{what}: is_point_covered is wrong")
        ctx.check(bool(p["once"]) == r.points[n][0], f"{what}: one-shot is reported wrongly")
        ctx.check({b: g.cover_point(n)["hints"][b] for b in want[n]} == want[n], f"{what}: cover_point has wrong counts")
    ctx.check(list(g.cover_points()) == list(want), f"{what}: wrong list of points")
    ctx.check(d["point_num_total"] == len(want), f"{what}: wrong number of points")
    ctx.check(d["point_num_hints"] == sum(r.covered(n) for n in want), f"{what}: wrong number of covered points")
    ctx.check(d["bin_num_total"] == sum(len(c) for c in want.values()), f"{what}: wrong number of bins")
    ctx.check(d["bin_num_hints"] == sum(x > 0 for c in want.values() for x in c.values()), f"{what}: wrong number of hit bins")
    ctx.check(bool(d["has_once"]) == any(p[0] for p in r.points.values()), f"{what}: has_once is wrong")
    ctx.check(d["name"] == r.name, f"{what}: wrong name of the group")
    ctx.check(d["__sample_calln__"] == r.calls and (r.vague or d["__sample_count__"] == r.taken), f"{what}: wrong number of samples")
    if want:
        ctx.check(bool(d["hinted"]) == r.all_covered(), f"{what}: the group is reported covered wrongly")
        ctx.check(bool(g.is_all_covered()) == r.all_covered(), f"{what}: is_all_covered is wrong")
        ctx.check(bool(g.sample_stoped()) == (r.stopped or r.complete()), f"{what}: sample_stoped is wrong")


OPS = ["none", "stop", "resume", "reset P", "del P", "del Q", "add R", "clear"]


def apply(ctx, op, g, r, t):
    from toffee.funcov import CovEq

    if op == "stop":
        g.stop_sample()
        r.stopped = True
    elif op == "resume":
        ctx.assume(not r.complete())  # what this does to a completed group is not specified
        g.resume_sample()
        r.stopped = False
    elif op == "clear":
        ctx.assume(not r.stopped)
        g.clear()
        r.clear()
    elif op == "reset P" and "P" in r.points:
        g.reset_point("P")
        r.points["P"][2].update({b: 0 for b in r.points["P"][2]})
    elif op[:3] == "del" and op[4] in r.points:
        g.del_point(op[4])
        del r.points[op[4]]
    elif op == "add R":
        ctx.assume("R" not in r.points)
        g.add_watch_point(t, CovEq(1), name="R", once=True)
        r.add("R", True, {"anonymous": lambda: t.value == 1})


@harness("C28", params=[{"n": 2}], thorough=[{"n": 3}], labels=("complete", "stopped", "covered"),
         fallback=[{"n": 1}])
def operations(ctx, n):
    """two points (two bins, one of them a list of conditions; one bin), each one-shot or not, in a group whose default is
    one-shot or not; n times: one of nothing/stop/resume/reset/delete/delete/add/clear, then a value (any
    integer) and a sample; everything reported is compared after every operation"""
    from toffee import funcov

    onceP, onceQ = ctx.choose("onceP", 2), ctx.choose("onceQ", 2)
    dflt = onceP ^ ctx.choose("explicit", 2)
    g = funcov.CovGroup("grp", disable_sample_when_point_hinted=bool(dflt))
    r = Ref("grp")
    t = Target()
    g.add_watch_point(t, {"a": funcov.CovEq(0), "b": [funcov.CovGe(1), funcov.CovLe(2)]}, name="P",
                      **({} if onceP == dflt else {"once": bool(onceP)}))
    g.add_watch_point(t, {"x": funcov.CovEq(2)}, name="Q", **({} if onceQ == dflt else {"once": bool(onceQ)}))
    r.add("P", bool(onceP), {"a": lambda: t.value == 0, "b": lambda: ctx.And(t.value >= 1, t.value <= 2)})
    r.add("Q", bool(onceQ), {"x": lambda: t.value == 2})
    agree(ctx, g, r, "at first")
    for i in range(n + 1):
        if i:
            op = OPS[ctx.choose(f"op{i}", len(OPS))]
            apply(ctx, op, g, r, t)
            agree(ctx, g, r, f"after {op}")
        t.value = ctx.int(f"v{i}")
        g.sample()
        r.sample()
        agree(ctx, g, r, "after a sample")
    if r.stopped:
        ctx.note("stopped")
    elif r.complete():
        ctx.note("complete")
    elif r.points and r.all_covered():
        ctx.note("covered")


@harness("C28", params=[{"n": 4}], thorough=[{"n": 6}], labels=("complete", "open"),
         fallback=[{"n": 2}])
def long(ctx, n):
    """one operation at any place between n samples of one point with two bins (values 0, 1 or 2), one-shot or not"""
    from toffee import funcov

    once = ctx.choose("once", 2)
    g, r, t = funcov.CovGroup("g"), Ref("g"), Target()
    g.add_cover_point(t, {"a": funcov.CovEq(0), "b": funcov.CovEq(1)}, "P", once=bool(once))
    r.add("P", bool(once), {"a": lambda: t.value == 0, "b": lambda: t.value == 1})
    at = ctx.choose("at", n)
    op = ["none", "stop", "reset P", "del P", "add R", "clear", "pause"][ctx.choose("op", 7)]
    for i in range(n):
        if i == at:
            apply(ctx, "stop" if op == "pause" else op, g, r, t)
            agree(ctx, g, r, f"after {op}")
        if op == "pause" and i == at + 2:
            apply(ctx, "resume", g, r, t)
            agree(ctx, g, r, "after resume")
        t.value = ctx.int(f"v{i}", 0, 2)
        g.sample()
        r.sample()
        agree(ctx, g, r, "after a sample")
    ctx.note("complete" if r.complete() else "open")


@harness("C28", params=[{}], labels=("dict", "single", "shared"))
def conditions(ctx):
    """any outcome of every condition, twice (truth values, or other values that count as one); conditions are functions or condition objects, alone, in lists or tuples; the
    target is watched by a second group through the same dictionary of bins, which is sampled once"""
    from toffee import funcov

    class Cond(funcov.CovCondition):
        def __init__(self, k):
            self.k = k

        def __check__(self, v):
            return says(self.k)

    kind = ctx.choose("kind", 4)
    t = Target(5) if ctx.choose("obj", 2) else 5
    now = {}
    yes, no = [(True, False), (2, 0), ("yes", None), ([0], [])][ctx.choose("truth", 4)]
    says = lambda k: now[k] if yes is True else yes if now[k] else no
    f = (lambda k: Cond(k)) if ctx.choose("objects", 2) else (lambda k: (lambda x: says(k) if x is t else 1 / 0))
    g, h = funcov.CovGroup("g", False), funcov.CovGroup("h")
    r, s = Ref("g"), Ref("h")
    if kind < 2:
        seq = list if kind else tuple
        bins = {"a": f("a"), "b": seq([f("b0"), f("b1")]), "c": seq([f("c0")]), "d": seq([])}
        g.add_watch_point(t, bins, name="P")
        h.add_watch_point(t, bins, name="P")
        pred = {"a": lambda: now["a"], "b": lambda: ctx.And(now["b0"], now["b1"]), "c": lambda: now["c0"], "d": lambda: True}
        keys, names = ["a", "b0", "b1", "c0"], ["P"]
        r.add("P", False, pred)
        s.add("P", True, pred)
        ctx.note("dict")
    else:
        keys = ["a"]
        one = f("a")
        if kind == 2:
            g.add_watch_point(t, one, "P")
            h.add_watch_point(t, one, "P")
            names = ["P"]
        else:
            g.add_watch_point(t, one)
            h.add_watch_point(t, one)
            names = list(g.cover_points())
            ctx.check(len(names) == 1 and list(h.cover_points()) == names, "a point without a name is not one point")
        r.add(names[0], False, {"anonymous": lambda: now["a"]})
        s.add(names[0], True, {"anonymous": lambda: now["a"]})
        ctx.note("single")
    agree(ctx, g, r, "at first")
    for i in range(2):
        for k in keys:
            now[k] = ctx.bool(f"{k}.{i}")
        g.sample()
        r.sample()
        if i:
            h.sample()
            s.sample()
        agree(ctx, g, r, "after a sample")
        agree(ctx, h, s, "another group with the same bins")
    ctx.note("shared")


@harness("C28", params=[{}], labels=("end",))
def rejected(ctx):
    """a point added twice, bins that are no conditions, and operations on unknown points are refused and change nothing"""
    from toffee import funcov

    g, r = funcov.CovGroup("g"), Ref("g")
    t = Target()
    g.add_watch_point(t, {"a": funcov.CovEq(0), "b": funcov.CovEq(1)}, name="P")
    r.add("P", True, {"a": lambda: t.value == 0, "b": lambda: t.value == 1})
    t.value = ctx.int("v0")
    g.sample()
    r.sample()
    bad = [
        lambda: g.add_watch_point(t, {"a": funcov.CovEq(0)}, name="P"),
        lambda: g.add_watch_point(t, funcov.CovEq(3), name="P"),
        lambda: g.add_watch_point(t, 5, name="Q"),
        lambda: g.add_watch_point(t, {"a": 5}, name="Q"),
        lambda: g.add_watch_point(t, {"a": funcov.CovEq(0), "b": [funcov.CovEq(0), 4]}, name="Q"),
        lambda: g.reset_point("Q"),
        lambda: g.del_point("Q"),
        lambda: g.is_point_covered("Q"),
        lambda: g.cover_point("p"),
    ][ctx.choose("bad", 9)]
    try:
        bad()
        ctx.check(False, "a wrong call is accepted")
    except ValueError:
        pass
    agree(ctx, g, r, "after a refused call")
    t.value = ctx.int("v1")
    g.sample()
    r.sample()
    agree(ctx, g, r, "after a sample")
    ctx.note("end")
