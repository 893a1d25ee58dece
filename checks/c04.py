"""C04: edge triggers return exactly at the edge."""
from sx.common import harness

from .lib import DUT, run, trace

KINDS = ["Change", "RisingEdge", "FallingEdge"]


def _edge(kind, v0, prev, cur):
    if kind == 0:
        return cur != v0
    if kind == 1:
        return prev == 0 and cur != 0
    return prev != 0 and cur == 0


@harness("C04", params=[{"T": 5}], thorough=[{"T": 8}], labels=("hit", "miss"))
def edge(ctx, T):
    """each edge trigger on a pin with arbitrary values in each of T cycles, called in cycle 0..2"""
    import toffee

    kind = ctx.choose("kind", 3)
    start = ctx.choose("start", 3)
    tr = [[ctx.int(f"v{t}", 0, 255)] for t in range(T + 1)]
    got = []

    async def test():
        dut = DUT(["p"])
        trace(dut, ["p"], tr)
        toffee.start_clock(dut)
        await toffee.ClockCycles(dut, start)

        async def w():
            await getattr(toffee, KINDS[kind])(dut.p)
            got.append(dut.cyc())

        toffee.create_task(w())
        await toffee.ClockCycles(dut, T - start)

    run(test)
    exp = None
    for t in range(start + 1, T + 1):
        if _edge(kind, tr[start][0], tr[t - 1][0], tr[t][0]):
            exp = t
            break
    ctx.check(got == ([] if exp is None else [exp]), "an edge was missed, invented or reported late")
    ctx.note("miss" if exp is None else "hit")


@harness("C04", params=[{"T": 5}], thorough=[{"T": 7}], labels=("end",))
def repeated(ctx, T):
    """the same trigger awaited again and again reports every later edge exactly once"""
    import toffee

    kind = ctx.choose("kind", 3)
    tr = [[ctx.int(f"v{t}", 0, 255)] for t in range(T + 1)]
    got = []

    async def test():
        dut = DUT(["p"])
        trace(dut, ["p"], tr)
        toffee.start_clock(dut)

        async def w():
            while True:
                await getattr(toffee, KINDS[kind])(dut.p)
                got.append(dut.cyc())

        toffee.create_task(w())
        await toffee.ClockCycles(dut, T)

    run(test)
    exp = []
    base = 0
    for t in range(1, T + 1):
        if _edge(kind, tr[base][0], tr[t - 1][0], tr[t][0]):
            exp.append(t)
            base = t
    ctx.check(got == exp, "the edges reported are not the edges of the pin")
    ctx.note("end")
