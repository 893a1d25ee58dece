"""C03: level triggers return at the first qualifying cycle."""
from sx.common import harness

from .lib import DUT, plain_bundle, run, trace


@harness(
    "C03",
    params=[{"T": 5, "npins": 1, "kinds": (0, 1, 2, 3, 4)}, {"T": 3, "npins": 3, "kinds": (1, 3, 4)}],
    thorough=[{"T": 8, "npins": 1, "kinds": (0, 1, 2, 3, 4)}, {"T": 5, "npins": 3, "kinds": (1, 3, 4)}],
    labels=("hit", "miss", "delay0"),
)
def level(ctx, T, npins, kinds):
    """Value, AllValid and Condition (on a pin, a bundle, the design) with minimum delay 0..3, on
    pins with arbitrary values in each of T cycles, called in cycle 0 or 1"""
    import toffee

    kind = kinds[ctx.choose("kind", len(kinds))]
    delay = ctx.choose("delay", 4 + 1)  # 4: the default
    start = ctx.choose("start", 2)
    target = ctx.int("target", 0, 255) if kind in (0, 2) else 0
    pins = ["p%d" % i for i in range(npins)]
    tr = [[ctx.int(f"v{t}_{i}", 0, 255) for i in range(npins)] for t in range(T + 1)]
    got = []

    def cond(vals):
        if kind in (0, 2):
            return vals[0] == target
        if kind == 1:
            for v in vals:
                if v == 0:
                    return False
            return True
        return vals[-1] > vals[0] if npins > 1 else vals[0] > 10

    async def test():
        dut = DUT(pins)
        trace(dut, pins, tr)
        toffee.start_clock(dut)
        b = plain_bundle(dut, pins)
        await toffee.ClockCycles(dut, start)
        kw = {} if delay == 4 else {"delay": delay}

        async def w():
            if kind == 0:
                await toffee.Value(dut.p0, target, **kw)
            elif kind == 1:
                await toffee.AllValid(*[getattr(dut, p) for p in pins], **kw)
            elif kind == 2:
                await toffee.Condition(dut.p0, lambda p: p.value == target, **kw)
            elif kind == 3:
                await toffee.Condition(b, lambda x: cond([x[p].value for p in pins]), **kw)
            else:
                await toffee.Condition(dut, lambda x: cond([getattr(x, p).value for p in pins]), **kw)
            got.append(dut.cyc())

        toffee.create_task(w())
        await toffee.ClockCycles(dut, T - start)

    run(test)
    d = 1 if delay == 4 else delay
    exp = None
    for t in range(start + d, T + 1):
        if cond(tr[t]):
            exp = t
            break
    if exp is None:
        # the extra step after the test keeps the last values: nothing qualifies there either
        ctx.check(got == [], "returned in a cycle in which the condition is false")
        ctx.note("miss")
    else:
        ctx.check(got == [exp], "did not return in the first qualifying cycle")
        ctx.note("hit")
    if d == 0:
        ctx.note("delay0")


@harness("C03", params=[{"T": 14}], thorough=[{"T": 30}], labels=("hit", "miss"), fallback=[{"T": 7}])
def late(ctx, T):
    """Value, AllValid and Condition with a minimum delay of 0..T on a pin with arbitrary values in each of T cycles, called in
    cycle 0"""
    import toffee

    kind = ctx.choose("kind", 3)
    delay = ctx.int("delay", 0, T)
    target = ctx.int("target", 0, 255)
    tr = [[ctx.int(f"v{t}", 0, 255)] for t in range(T + 1)]
    got = []

    async def test():
        dut = DUT(["p"])
        trace(dut, ["p"], tr)
        toffee.start_clock(dut)

        async def w():
            if kind == 0:
                await toffee.Value(dut.p, target, delay)
            elif kind == 1:
                await toffee.AllValid(dut.p, delay=delay)
            else:
                await toffee.Condition(dut, lambda x: x.p.value > target, delay)
            got.append(dut.cyc())

        toffee.create_task(w())
        await toffee.ClockCycles(dut, T)

    run(test)
    exp = []
    for t in range(T + 1):
        if t >= delay and (tr[t][0] == target if kind == 0 else tr[t][0] != 0 if kind == 1 else tr[t][0] > target):
            exp = [t]
            break
    ctx.check(got == exp, "did not return in the first qualifying cycle")
    ctx.note("hit" if exp else "miss")


@harness("C03", params=[{"T": 4}], thorough=[{"T": 6}], labels=("end",))
def two(ctx, T):
    """two concurrent waiters (any two of Value, AllValid) on the same pin with symbolic targets"""
    import toffee

    ks = [ctx.choose(f"k{i}", 2) for i in range(2)]
    ds = [ctx.choose(f"d{i}", 2) for i in range(2)]
    tg = [ctx.int(f"t{i}", 0, 255) if ks[i] == 0 else 0 for i in range(2)]
    tr = [[ctx.int(f"v{t}", 0, 255)] for t in range(T + 1)]
    got = [None, None]

    async def test():
        dut = DUT(["p"])
        trace(dut, ["p"], tr)
        toffee.start_clock(dut)

        async def w(i):
            if ks[i] == 0:
                await toffee.Value(dut.p, tg[i], ds[i])
            else:
                await toffee.AllValid(dut.p, delay=ds[i])
            got[i] = dut.cyc()

        for i in range(2):
            toffee.create_task(w(i))
        await toffee.ClockCycles(dut, T)

    run(test)
    for i in range(2):
        exp = None
        for t in range(ds[i], T + 1):
            if (tr[t][0] == tg[i]) if ks[i] == 0 else (tr[t][0] != 0):
                exp = t
                break
        ctx.check(got[i] == exp, "a concurrent level trigger returned in another cycle")
    ctx.note("end")
