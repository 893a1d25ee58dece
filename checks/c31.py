"""C31: tree PLRU: victim in range, never the most recent one, exact tree policy."""
from sx.common import harness


class Tree:
    """The policy itself: for every subtree (lo, hi) which half was accessed last."""

    def __init__(self, n):
        self.n, self.last = n, {}

    def access(self, w):
        lo, hi = 0, self.n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            self.last[(lo, hi)] = w >= mid
            lo, hi = (mid, hi) if w >= mid else (lo, mid)

    def victim(self):
        lo, hi = 0, self.n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            upper = self.last.get((lo, hi)) is False  # the lower half was accessed last
            lo, hi = (mid, hi) if upper else (lo, mid)
        return lo

    def recent(self, lo, hi):
        """the way of the subtree one reaches by following what was accessed last"""
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (mid, hi) if self.last.get((lo, hi)) else (lo, mid)
        return lo


def agree(ctx, p, t, last):
    v = p.get()
    ctx.check(ctx.And(v >= 0, v < t.n), "the victim is no way")
    if last is not None:
        ctx.check(ctx.Not(ctx.eq(v, last)), "the victim is the most recently accessed way")
    ctx.check(ctx.eq(v, t.victim()), "the victim is not the one of the tree policy")
    ctx.check(ctx.eq(p.get(), t.victim()), "asking for the victim changes it")


@harness("C31", params=[{"W": 2, "n": 6}, {"W": 4, "n": 4}, {"W": 8, "n": 3}, {"W": 16, "n": 2}, {"W": 32, "n": 2}, {"W": 64, "n": 1}],
         thorough=[{"W": 2, "n": 10}, {"W": 4, "n": 6}, {"W": 8, "n": 4}, {"W": 16, "n": 3}, {"W": 32, "n": 2}, {"W": 64, "n": 2}, {"W": 256, "n": 1}], labels=("end",),
         fallback=[{"W": 2, "n": 4}, {"W": 4, "n": 3}, {"W": 8, "n": 2}, {"W": 16, "n": 1}, {"W": 64, "n": 1}])
def histories(ctx, W, n):
    """every sequence of n accesses to W ways; the victim is asked for after each one or only in the end; a second
    policy object is accessed in between"""
    from toffee.utils import PLRU

    p, t, q, u = PLRU(W), Tree(W), PLRU(W), Tree(W)
    peek = ctx.choose("peek", 2)
    if peek:
        agree(ctx, p, t, None)
    for i in range(n):
        w = ctx.int(f"w{i}", 0, W - 1)
        p.update(w)
        w = int(w)
        t.access(w)
        o = (w * 3 + 1) % W
        q.update(o)
        u.access(o)
        if peek:
            agree(ctx, p, t, w)
    agree(ctx, p, t, w)
    agree(ctx, q, u, o)
    ctx.note("end")


@harness("C31", params=[{"W": 4}, {"W": 8}], labels=("fresh", "used"),
         fallback=[{"W": 4}])
def states(ctx, W):
    """every state of the tree (each subtree: never accessed, lower half last, upper half last), followed by any access"""
    from toffee import PLRU

    p, t = PLRU(W), Tree(W)
    todo, fresh = [], False

    def visit(lo, hi):
        # 0: never accessed, 1: lower half last, 2: upper half last; below a subtree never accessed all are
        nonlocal fresh
        if hi - lo < 2:
            return
        mid = (lo + hi) // 2
        k = ctx.choose(f"n{lo}.{hi}", 3)
        if k == 0:
            fresh = True
            return
        # the half that was never visited keeps its initial state
        both = ctx.choose(f"b{lo}.{hi}", 2) if hi - lo > 2 else 1
        if both or k == 1:
            visit(lo, mid) if hi - lo > 2 else None
        if both or k == 2:
            visit(mid, hi) if hi - lo > 2 else None
        todo.append((lo, hi, mid, k))

    visit(0, W)
    for lo, hi, mid, k in todo:
        w = t.recent(lo, mid) if k == 1 else t.recent(mid, hi)
        p.update(w)
        t.access(w)
    agree(ctx, p, t, None)
    w = ctx.int("w", 0, W - 1)
    p.update(w)
    w = int(w)
    t.access(w)
    agree(ctx, p, t, w)
    ctx.note("fresh" if fresh else "used")
