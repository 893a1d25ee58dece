"""C21: re-binding fully replaces the previous binding."""
from sx.common import harness

from .bundles import NDUT, Ev, Spec, dotted, fetch, is_pin, make, waits_on
from .c17 import D, P, R
from .lib import LogCapture

LEAF = Spec(["a"])
SPECS = [
    (Spec(["a", "b"], lists=[("v", "v#", 2)]), P(""), ["a", "b", "v0", "v1"]),
    (Spec(["b"], subs=[("s", P("s_"), LEAF), ("t", R("^t_(.)$"), LEAF)], declared=True), P(""), ["b", "s_a", "t_a"]),
    (Spec([], blists=[("k", "k#_", 2, Spec(["a"], lists=[("v", "v#", 1)]))]), P(""), ["k0_a", "k1_a", "k0_v0", "k1_v0"]),
    (Spec(["x"], subs=[("s", P("s_"), Spec([], subs=[("t", P("t_"), LEAF)]))]), D({"x": "a", "s_t_a": "b"}), ["a", "b"]),
    (Spec([], subs=[("s", P("s_"), Spec([], blists=[("k", "k#_", 1, LEAF)], lists=[("v", "v#", 1)]))]), P(""), ["s_k0_a", "s_v0"]),
]


def presence(ctx, tag, names):
    return [n for n in names if ctx.bool(f"{tag} {n}")]


def kind(b, path):
    """what one finds at the path: a pin, a signal that is inert, or one that is forbidden"""
    s = fetch(b, path)
    if is_pin(s):
        return s
    try:
        o = b
        for p in path:
            o = getattr(o, p) if isinstance(p, str) else getattr(o, p[0])[p[1]]
        return "inert" if o.value is None else "odd"
    except AttributeError:
        return "forbidden"


def counts(dut):
    return [p.xdata.__dict__.get("number_of_bundles_connected_to", 0) for p in dut._pins]


@harness("C21", params=[{}], labels=("same", "other", "lost", "gained"))
def again(ctx):
    """five structures, a first binding (pins symbolically present, either access mode), something done in
    between, a second binding to the same or another design (pins symbolically present, either access
    mode), compared with a fresh copy bound to an identical design in every respect a user can see"""
    ci = ctx.choose("case", len(SPECS))
    spec, rule, pins = SPECS[ci]
    same = ctx.choose("same", 2)
    acc = [ctx.bool("access0"), ctx.bool("access1")]
    n2 = presence(ctx, "2", pins)
    n1 = n2 if same else presence(ctx, "1", pins)
    d1 = NDUT(n1 + ["z"])
    d2 = d1 if same else NDUT(n2 + ["z"])
    d3 = NDUT(n2 + ["z"])
    b = make(spec.cls(), rule)
    b.bind(d1, acc[0])
    act = ctx.choose("act", 4)
    if act == 1:
        b.set_write_mode_as_rise()
    elif act == 2:
        b.set_all(1)
        b.process_requests([{}, {}])
    elif act == 3:
        b.bind(d1, acc[1])
    before1, steps1 = list(d1._writes), d1._cycle
    modes1 = [p.mode for p in d1._pins]
    c = make(spec.cls(), rule)
    if act == 1:
        c.set_write_mode_as_rise()
    with LogCapture("WARNING") as lb:
        b.bind(d2, acc[1])
    with LogCapture("WARNING") as lcap:
        c.bind(d3, acc[1])
    # connections
    paths = [p for p, _, _ in spec.leaves()]
    for p in paths:
        x, y = kind(b, p), kind(c, p)
        if is_pin(y):
            ctx.check(is_pin(x) and x in d2._pins and d2._pins.index(x) == d3._pins.index(y), f"{dotted(p)} is not connected as in a fresh bundle")
        else:
            ctx.check(x == y, f"{dotted(p)} is {x}, in a fresh bundle {y}")
    ctx.check([n for n, _ in b.all_signals()] == [n for n, _ in c.all_signals()], "the signals differ from those of a fresh bundle")
    ctx.check(b.all_signals_rule() == c.all_signals_rule(), "the rules differ from those of a fresh bundle")
    ctx.check(counts(d2) == counts(d3), "the pins are counted in another way")
    ctx.check(sorted(t for t in lb.texts() if "already bound" not in t) == sorted(lcap.texts()), "other warnings are logged")
    ctx.check([p.mode for p in d2._pins] == [p.mode for p in d3._pins] or (same and act == 1), "the write modes differ")
    # clock
    linked = any(is_pin(kind(c, p)) for p in paths)
    for q in {p[:i] for p in paths for i in range(1, len(p))}:
        if any(is_pin(kind(c, p)) for p in paths if p[: len(q)] == q):
            ctx.check(waits_on(fetch(b, q), d2.event), f"the clock of {dotted(q)} is not that of the new design")
    if linked:
        ctx.check(waits_on(b, d2.event) and waits_on(c, d3.event), "the clock is not that of the new design")
        ctx.note("gained")
    else:
        for o in (b, c):
            try:
                o.step(1).send(None)
                ctx.check(False, "a bundle without pins has a clock")
            except (AttributeError, StopIteration) as e:
                ctx.check(isinstance(e, AttributeError), "a bundle without pins has a clock")
        ctx.note("lost")
    # use
    d2._writes.clear()
    v = ctx.int("v", 0, 255)
    b.set_all(v)
    c.set_all(v)
    ctx.check([n for n, _ in d2._writes] == [n for n, _ in d3._writes], "set_all writes other pins")
    if acc[1]:
        ctx.check(b.as_dict() == c.as_dict(), "as_dict differs")
    reqs = [[], []]

    def req(i):
        return {"__funcs__": lambda cycle, o: reqs[i].append(cycle)}

    s2, s3 = d2._cycle, d3._cycle
    b.process_requests([req(0), req(0)])
    c.process_requests([req(1), req(1)])
    ctx.check(d2._cycle - s2 == d3._cycle - s3 == 2 == len(reqs[0]) == len(reqs[1]), "requests take another course")
    b.set_write_mode_as_fall()
    # the former design
    if not same:
        ctx.note("other")
        ctx.check(d1._writes == before1 and d1._cycle == steps1, "the former design is written or stepped")
        ctx.check([p.mode for p in d1._pins] == modes1, "the former design's write modes are changed")
        ctx.check(not any(counts(d1)), "the former design still counts connections")
        late = []

        def fn(cycle, o):
            late.append(cycle)
            if len(late) == 1:
                d1.Step(2)

        b.process_requests([{"__funcs__": fn}, {"__funcs__": fn}])
        ctx.check(len(late) == 2 and late[1] == late[0] + 1, "an edge of the former design applies a request")
    else:
        ctx.note("same")


@harness("C21", params=[{"n": 4}], thorough=[{"n": 5}], labels=("done",),
         fallback=[{"n": 3}])
def chains(ctx, n):
    """n bindings in a row to three designs (two of them partial), in every order: after
    the last, clock, requests and counts belong to the last design only"""
    spec, rule, pins = SPECS[ctx.choose("case", len(SPECS))]
    ds = [NDUT(pins), NDUT(pins[:2]), NDUT(pins[1:])]
    b = make(spec.cls(), rule)
    for k in range(n):
        last = ctx.choose(f"d{k}", 3)
        b.bind(ds[last])
        hits = []
        if ctx.choose(f"use{k}", 2) if k in (0, n - 2) else 1:
            b.process_requests([{"__funcs__": lambda c, o: hits.append(c)}])
            ctx.check(len(hits) == 1, "a request is not applied exactly once")
    for i, d in enumerate(ds):
        ctx.check(sum(counts(d)) == (len(d._pins) if i == last else 0), f"connections of design {i}")
    cyc = [d._cycle for d in ds]
    hits = []
    b.process_requests([{"__funcs__": lambda c, o: hits.append(c)} for _ in range(2)])
    ctx.check([d._cycle - c for d, c in zip(ds, cyc)] == [2 if i == last else 0 for i in range(3)], "another design is stepped")
    ctx.check(len(hits) == 2 and hits[1] == hits[0] + 1, "requests are not applied one per cycle")
    ctx.check(waits_on(b, ds[last].event), "the clock is that of another design")
    ctx.note("done")
