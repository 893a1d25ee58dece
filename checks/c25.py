"""C25: requests are applied one per cycle, in order, under their condition."""
from sx.common import harness

from .bundles import NDUT, Spec, make
from .c17 import P
from .lib import LogCapture

SPEC = Spec(["a", "b"], subs=[("s", P("s_"), Spec(["a"]))])
PINS = ["a", "b", "s_a", "q_a"]
OTHER = Spec(["a"])


class Plan:
    """One request and what is expected of it."""

    def __init__(self, ctx, k, log, horizon, other, full=True):
        self.k, self.log = k, log
        self.va, self.vs = ctx.int(f"a{k}", 0, 255), ctx.int(f"s{k}", 0, 255)
        self.cond = ctx.choose(f"cond{k}", 3 if k == 0 else 2)
        self.ret = ctx.choose(f"ret{k}", 4 if full else 2)
        self.fun = ctx.choose(f"fun{k}", 4) if full else 0
        self.args = ctx.int(f"args{k}", 0, 3)
        self.seen = []
        # the edge (counted from the request's first try) at which the condition is true
        self.delay = ctx.int(f"delay{k}", 0, horizon) if self.cond else 0
        self.tries = 0
        self.other = other

    def request(self, ctx, b):
        r = {"a": self.va, "s": {"a": self.vs}}
        if self.cond:

            def cond(cycle, bundle, args):
                ctx.check(bundle is b, "the condition gets another bundle")
                ctx.check(args is None if self.cond == 1 else ctx.eq(args, self.args), "the condition gets other arguments")
                self.seen.append(cycle)
                self.tries += 1
                return self.delay < self.tries

            r["__condition_func__"] = cond
            if self.cond == 2:
                r["__condition_args__"] = self.args
        if self.fun:

            def f(cycle, bundle):
                ctx.check(bundle is b, "the function gets another bundle")
                self.log.append(("f", self.k, cycle, b.a.value, b.s.a.value))
                return self.va + 1

            def g(cycle, bundle):
                self.log.append(("g", self.k, cycle, b.a.value, b.s.a.value))
                bundle.b.value = self.vs
                return None

            r["__funcs__"] = [None, f, [f, g], [f]][self.fun]
        if self.ret:
            r["__return_bundles__"] = [None, b, [b, self.other], [self.other]][self.ret]
        return r


@harness("C25", params=[{"n": 3, "horizon": 2, "full": False}, {"n": 1, "horizon": 3, "full": True}, {"n": 2, "horizon": 1, "full": True}],
         thorough=[{"n": 4, "horizon": 2, "full": False}, {"n": 1, "horizon": 6, "full": True}, {"n": 2, "horizon": 2, "full": True, "big": True}],
         labels=("condition", "returned", "plain"),
         fallback=[{"n": 2, "horizon": 2, "full": False}, {"n": 1, "horizon": 2, "full": True}])
def lists(ctx, n, horizon, full, big=False):
    """n requests with symbolic values, each with or without a condition (that first holds at a symbolic
    later edge, up to horizon, with or without arguments), functions (none, one, a list), and data to
    return (none, the bundle, two bundles, another one); the design drives a pin of its own at each step;
    compared edge by edge with a plain reading of the rules; two lists processed one after the other"""
    d = NDUT(PINS)
    b = SPEC.cls()().bind(d)
    o = make(OTHER.cls(), P("q_")).bind(d)
    edges = []  # (cycle, writes) of every edge

    def probe(cycle):
        edges.append((cycle, list(d._writes)))
        d._writes.clear()
        d.q_a.__dict__["val"] = 1000 + cycle

    d.StepRis(probe)
    if full and n == 1 and ctx.choose("response", 2):
        b.make_requset_response_for(d)
    log = []
    plans = [Plan(ctx, k, log, horizon, o, full and (k == 0 or big)) for k in range(n)]
    reqs = [p.request(ctx, b) for p in plans]
    first = ctx.choose("first", n) + 1 if n > 1 else 1
    single = ctx.choose("single", 2) if first == 1 else 0
    with LogCapture("WARNING") as lc:
        got = b.process_requests(reqs[0] if single else reqs[:first])
        parts = [(plans[:first], got)]
        if first < n:
            parts.append((plans[first:], b.process_requests(reqs[first:])))
    ctx.check(not lc.records, "a request that names only signals is complained about")
    # --- the plain reading: what happens at each edge
    at, c, q0 = {}, 0, 0
    for p in plans:
        c += 1
        ctx.check(p.seen == ([] if not p.cond else list(range(c, c + len(p.seen)))), f"the condition of request {p.k} is not tried at consecutive edges")
        for t in range(horizon + 1):
            if not p.cond or p.delay == t:
                at[p.k] = c = c + t
                break
        if p.cond:
            ctx.note("condition")
            ctx.check(p.seen[-1] == c, f"request {p.k} is not applied at the first edge at which its condition holds")
    ctx.check(d._cycle == c, "processing does not end with the edge that applies the last request")
    ctx.check([cy for cy, _ in edges] == list(range(1, c + 1)), "an edge is lost")
    for cy, ws in edges:
        mine = [p for p in plans if at[p.k] == cy]
        if not mine:
            ctx.check(not ws, f"something is written at edge {cy}, which applies no request")
            continue
        p = mine[0]
        want = [("a", p.va), ("s_a", p.vs)] + ([("b", p.vs)] if p.fun == 2 else [])
        ctx.check([x for x, _ in ws] == [x for x, _ in want], f"edge {cy} does not write exactly what request {p.k} says")
        ctx.check(ctx.And(*[ctx.eq(x[1], y[1]) for x, y in zip(ws, want)]), f"edge {cy} writes other values than those of request {p.k}")
    calls = [(x, p.k, at[p.k], p.va, p.vs) for p in plans for x in ["", "f", "fg", "f"][p.fun]]
    ctx.check([x[:3] for x in log] == [x[:3] for x in calls], "the functions are not called once each, in order, at their edge")
    ctx.check(ctx.And(*[ctx.eq(x[i], y[i]) for x, y in zip(log, calls) for i in (3, 4)]), "a function runs before its request is applied")
    # --- what is returned
    bval = 0
    bs = {}
    for p in plans:
        if p.fun == 2:
            bval = p.vs
        bs[p.k] = bval
    for ps, ret in parts:
        asked = [p for p in ps if p.ret]
        ctx.check(isinstance(ret, list) and len(ret) == len(asked), "not one entry for each request that asks for data")
        for p, r in zip(asked, ret):
            ctx.note("returned")
            qv = 1000 + at[p.k] - 1 if at[p.k] > 1 else 0
            one = {"a": p.va, "b": bs[p.k], "s": {"a": p.vs}}
            want = [None, one, [one, {"a": qv}], {"a": qv}][p.ret]
            ctx.check(same(ctx, r["data"], want), f"the data returned for request {p.k} is not what was read at its edge")
            ctx.check(r["cycle"] == at[p.k], f"the cycle returned for request {p.k} is wrong")
            fw = [None, p.va + 1, [p.va + 1, None], p.va + 1][p.fun]
            ctx.check(same(ctx, r["__funcs_return__"], fw), f"the function results returned for request {p.k} are wrong")
        if not asked:
            ctx.note("plain")


def same(ctx, x, y):
    if isinstance(y, dict):
        return isinstance(x, dict) and set(x) == set(y) and ctx.And(*[same(ctx, x[k], y[k]) for k in y])
    if isinstance(y, list):
        return isinstance(x, list) and len(x) == len(y) and ctx.And(*[same(ctx, a, b) for a, b in zip(x, y)])
    if x is None or y is None:
        return x is y
    return ctx.eq(x, y)


@harness("C25", params=[{"n": 3}], thorough=[{"n": 4}], labels=("done",),
         fallback=[{"n": 2}])
def outside(ctx, n):
    """steps taken by others (before, between lists, and by the design's own callbacks while a request is
    held back) neither repeat nor skip a request; two bundles on one design each process their own;
    nothing is applied on edges when there is no request"""
    d = NDUT(PINS)
    b, o = SPEC.cls()().bind(d), make(OTHER.cls(), P("q_")).bind(d)
    early = ctx.int("early", 0, 2)
    for t in range(3):
        if t < early:
            d.Step(1)
    ctx.check(not d._writes, "an edge without requests writes something")
    hits = []
    who = [ctx.choose(f"who{k}", 2) for k in range(n)]
    vals = [ctx.int(f"v{k}", 0, 255) for k in range(n)]
    gap = ctx.choose("gap", 3)
    for k in range(n):
        x = (b, o)[who[k]]
        before = d._cycle
        r = x.process_requests([{"a": vals[k], "__funcs__": (lambda c, q, k=k: hits.append((k, c))), "__return_bundles__": x}])
        ctx.check(d._cycle == before + 1 and hits[-1] == (k, before + 1) and len(hits) == k + 1, "a request is not applied exactly once at the next edge")
        ctx.check(ctx.And(ctx.eq(r[0]["data"]["a"], vals[k]), r[0]["cycle"] == before + 1), "the data returned is wrong")
        n0 = len(d._writes)
        d.Step(gap)
        ctx.check(len(d._writes) == n0, "an edge without requests writes something")
    ctx.note("done")


@harness("C25", params=[{}], labels=("empty", "none"))
def empty(ctx):
    """requests that ask for the values of a bundle without signals or of signals that are
    all 0, with functions that return nothing, 0 or an empty list, mixed with plain ones"""
    d = NDUT(PINS)
    b = SPEC.cls()().bind(d)
    bare = make(Spec([]).cls(), P("zz_")).bind(d)
    o = make(OTHER.cls(), P("q_")).bind(d)
    v = [ctx.int(f"v{k}", 0, 255) for k in range(2)]
    kinds = [ctx.choose(f"ret{k}", 4) for k in range(2)]
    vals = [None, 0, [], {}]
    fk = ctx.choose("funcs", 6)
    funcs = [[lambda c, x: None], [lambda c, x: 0], lambda c, x: [], [lambda c, x: {}, lambda c, x: None], [None], [lambda c, x: 0, lambda c, x: 0]][fk]
    fwant = [None, 0, [], [{}, None], None, [0, 0]][fk]
    reqs = []
    for k in range(2):
        r = {"a": v[k]}
        if kinds[k]:
            r["__return_bundles__"] = [None, bare, [bare], o][kinds[k]]
        if k == 0:
            r["__funcs__"] = funcs
        reqs.append(r)
    got = b.process_requests(reqs)
    ctx.check(d._cycle == 2, "the requests are not processed one per edge")
    asked = [k for k in range(2) if kinds[k]]
    ctx.check(len(got) == len(asked), "not one entry for each request that asks for data")
    for k, r in zip(asked, got):
        ctx.note("empty")
        ctx.check(same(ctx, r["data"], [None, {}, {}, {"a": 0}][kinds[k]]), "other data is returned")
        ctx.check(r["cycle"] == k + 1, "another cycle is returned")
        ctx.check(same(ctx, r["__funcs_return__"], fwant if k == 0 else None), "other function results are returned")
    if not asked:
        ctx.note("none")
    ctx.check([n for n, _ in d._writes] == ["a", "a"] and ctx.And(*[ctx.eq(x[1], y) for x, y in zip(d._writes, v)]), "the requests are not applied once each")


@harness("C25", params=[{"n": 2}], thorough=[{"n": 3}], labels=("called", "skipped", "repeated"))
def callables(ctx, n):
    """n requests, each a dictionary, a callable that makes one, a callable that makes none, or the dictionary of the request
    before it once more; with or without a condition, a function and data to return; the same list processed once or twice"""
    d = NDUT(PINS)
    b = SPEC.cls()().bind(d)
    log = []  # (what, request, cycle)
    kinds, delays, rets, vals, reqs, owner = [], [], [], [], [], []
    tries = {}

    def make_dict(k):
        r = {"a": vals[k]}
        if delays[k] is not None:

            def cond(c, q, args):
                ctx.check(q is b and args is None, "the condition gets other arguments")
                log.append(("cond", k, c))
                tries[k] = tries.get(k, 0) + 1
                if delays[k] < tries[k]:
                    tries[k] = 0
                    return True
                return False

            r["__condition_func__"] = cond
        if rets[k]:
            r["__return_bundles__"] = b
            r["__funcs__"] = lambda c, q: (log.append(("f", k, c)), vals[k] + 1)[1]
        return r

    for k in range(n):
        kind = ctx.choose(f"kind{k}", 4 if k else 3)
        vals.append(ctx.int(f"v{k}", 0, 255))
        delays.append([None, 0, 1][ctx.choose(f"delay{k}", 3)] if kind < 2 else None)
        rets.append(ctx.choose(f"ret{k}", 2) if kind < 2 else 0)
        kinds.append(kind)
        if kind == 0:
            reqs.append(make_dict(k))
            owner.append(k)
        elif kind == 3:
            ctx.assume(kinds[k - 1] in (0, 3))
            reqs.append(reqs[k - 1])
            owner.append(owner[k - 1])
            ctx.note("repeated")
        else:

            def call(c, q, k=k):
                ctx.check(q is b, "the callable gets another bundle")
                log.append(("call", k, c))
                return make_dict(k) if kinds[k] == 1 else None

            reqs.append(call)
            owner.append(k)
            ctx.note("called" if kind == 1 else "skipped")
    shape = [set(r) if isinstance(r, dict) else None for r in reqs]
    rounds = 1 + ctx.choose("again", 2)
    c = 0
    with LogCapture("WARNING") as lc:
        for _ in range(rounds):
            log.clear()
            d._writes.clear()
            got = b.process_requests(reqs)
            want, writes, out = [], [], []
            for k in range(n):
                o = owner[k]
                c += 1
                if kinds[o] in (1, 2):
                    want.append(("call", o, c))
                    if kinds[o] == 2:
                        continue
                if delays[o] is not None:
                    for t in range(delays[o] + 1):
                        want.append(("cond", o, c + t))
                    c += delays[o]
                writes.append(vals[o])
                if rets[o]:
                    want.append(("f", o, c))
                    out.append((c, vals[o]))
            ctx.check(d._cycle == c, "the requests do not take one edge each, and those their conditions wait for")
            ctx.check(log == want, "callables, conditions and functions are not called as they should be")
            ctx.check([x for x, _ in d._writes] == ["a"] * len(writes) and ctx.And(*[ctx.eq(x[1], y) for x, y in zip(d._writes, writes)]), "the requests are not applied once each, in order")
            ctx.check(len(got) == len(out), "not one entry for each request that asks for data")
            for r, (cy, v) in zip(got, out):
                ctx.check(r["cycle"] == cy and ctx.eq(r["data"]["a"], v) and ctx.eq(r["__funcs_return__"], v + 1), "other data, results or cycles are returned")
    ctx.check([set(r) if isinstance(r, dict) else None for r in reqs] == shape, "the caller's requests are changed")
    ctx.check(not lc.records, "something is reported as wrong")


@harness("C25", params=[{}], labels=("end",))
def designs(ctx):
    """a bundle bound to one design and then to another (or back); each edge of the one it is bound to steps the other as well,
    before or after it; requests with a condition that first holds at a symbolic edge"""
    ds = [NDUT(PINS), NDUT(PINS)]
    last = ctx.choose("last", 2)
    order = ctx.choose("order", 2)  # the other design is stepped before or after the bundle's turn
    b = SPEC.cls()()
    d, e = ds[last], ds[1 - last]
    if order == 0:
        d.StepRis(lambda c: e.Step(1))
    if last == 0:
        b.bind(ds[0])
    b.bind(ds[1])
    if last == 0:
        b.bind(ds[0])
    if order == 1:
        d.StepRis(lambda c: e.Step(1))
    v = [ctx.int(f"v{k}", 0, 255) for k in range(2)]
    delay = ctx.int("delay", 0, 2)
    seen = []
    reqs = [{"a": v[0], "__condition_func__": lambda c, q, a: (seen.append(c), delay < len(seen))[1], "__return_bundles__": b},
            {"a": v[1], "__return_bundles__": b}]
    if ctx.choose("reverse", 2):
        reqs.reverse()
        v.reverse()
        at0 = 1
        off = 2
    else:
        at0, off = None, 1
    got = b.process_requests(reqs)
    w = len(seen)
    ctx.check(ctx.eq(w, delay + 1), "the condition is not tried until it holds")
    ctx.check(seen == list(range(off, off + w)), "the condition is not tried once per edge of the bundle's design")
    ctx.check(d._cycle == w + 1, "the requests are not applied one per edge")
    at = [at0, w + 1] if at0 else [w, w + 1]
    ctx.check([r["cycle"] for r in got] == at, "the cycles returned are wrong")
    ctx.check([x for x, _ in d._writes] == ["a", "a"] and ctx.And(ctx.eq(d._writes[0][1], v[0]), ctx.eq(d._writes[1][1], v[1])), "the requests are not applied once each")
    ctx.check(not e._writes, "the other design is written")
    ctx.note("end")
