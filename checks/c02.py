"""C02: waiting n cycles takes exactly n steps."""
import asyncio

from sx.common import harness

from .lib import DUT, run

PINS = ["x", "s_x", "s_t_x", "v_0", "v_1", "b_0_x", "b_1_x", "m_v_0", "m_v_1", "n_b_0_x", "n_b_1_x", "e_b_0_v_0"]


def make_item(kind, dut):
    """The kinds of things one can wait on."""
    from toffee import Bundle, BundleList, Signal, SignalList

    class Leaf(Bundle):
        x = Signal()

    class Lst(Bundle):
        v = SignalList("v_#", 2)

    class BLst(Bundle):
        b = BundleList(Leaf, "b_#_", 2)

    class Deep1(Bundle):
        v = SignalList("v_#", 1)

    class Sub(Bundle):
        s = Leaf.from_prefix("s_")

    class SubT(Bundle):
        t = Leaf.from_prefix("t_")

    class SubSub(Bundle):
        s = SubT.from_prefix("s_")

    class SubLst(Bundle):
        m = Lst.from_prefix("m_")

    class SubBLst(Bundle):
        n = BLst.from_prefix("n_")

    class BLstLst(Bundle):
        b = BundleList(Deep1, "b_#_", 1)

    class Mixed(Bundle):
        x = Signal()
        b = BundleList(Leaf, "b_#_", 2)
        s = Leaf.from_prefix("s_")
        v = SignalList("v_#", 2)

    class NoneOwn(Bundle):
        y = Signal()  # has no pin
        s = Leaf.from_prefix("s_")

    if kind == 0:
        return dut
    if kind == 1:
        return dut.x
    cls = [Leaf, Lst, BLst, Sub, SubSub, SubLst, SubBLst, None, Mixed, NoneOwn][kind - 2]
    if cls is None:
        return BLstLst.from_prefix("e_").bind(dut)
    return cls().bind(dut)


NKINDS = 12


@harness("C02", params=[{"n": 4}], thorough=[{"n": 8}], labels=("zero", "many"),
         fallback=[{"n": 2}])
def one(ctx, n):
    """every kind of item, the wait starting in cycle 0..2, n (symbolic) from 0 to the given bound; both
    ClockCycles and, for bundles, step"""
    import toffee

    kind = ctx.choose("kind", NKINDS)
    how = ctx.choose("how", 2) if kind >= 2 else 0
    cnt = ctx.int("cnt", 0, n)
    start = ctx.int("start", 0, 2)
    out = []

    async def test():
        dut = DUT(PINS)
        toffee.start_clock(dut)
        item = make_item(kind, dut)
        await toffee.ClockCycles(dut.x, start)
        c = dut.cyc()
        ctx.check(c == start, "waiting on a pin took another number of steps")
        if how:
            await item.step(cnt)
        else:
            await toffee.ClockCycles(item, cnt)
        out.append(dut.cyc() - c)

    run(test)
    ctx.check(out[0] == cnt, "waiting n cycles did not take n steps")
    ctx.note("zero" if cnt == 0 else "many")


@harness("C02", params=[{"m": 2, "n": 2}], thorough=[{"m": 3, "n": 2}], labels=("end",),
         fallback=[{"m": 2, "n": 1}])
def concurrent(ctx, m, n):
    """m concurrent waiters on different kinds of items, each waiting twice for a symbolic number of
    cycles, next to tasks that wake each other through events and queues in every cycle"""
    import toffee

    kinds = [ctx.choose(f"kind{i}", [0, 1, 8, 10]) for i in range(m)]
    cnts = [[ctx.int(f"n{i}{j}", 0, n) for j in range(2)] for i in range(m)]
    noise = ctx.choose("noise", 3)
    got = [[] for _ in range(m)]

    async def test():
        dut = DUT(PINS)
        toffee.start_clock(dut)

        async def w(i, item):
            for cn in cnts[i]:
                c = dut.cyc()
                await toffee.ClockCycles(item, cn)
                got[i].append(dut.cyc() - c)

        q, ev = toffee.Queue(), asyncio.Event()

        async def ping():
            while True:
                await toffee.ClockCycles(dut)
                await q.put(dut.cyc())
                if noise == 2:
                    ev.set()
                    await asyncio.sleep(0)
                    ev.clear()

        async def pong():
            while True:
                await q.get()
                await toffee.sleep(0)

        if noise:
            toffee.create_task(ping())
            toffee.create_task(pong())
        ts = [toffee.create_task(w(i, make_item(kinds[i], dut))) for i in range(m)]
        for t in ts:
            await t

    run(test)
    for i in range(m):
        for j in range(2):
            ctx.check(got[i][j] == cnts[i][j], "a concurrent wait took another number of steps")
    ctx.note("end")
