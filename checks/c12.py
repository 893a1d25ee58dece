"""C12: ports and bounded queues are lossless FIFOs up to their capacity."""
import asyncio

from sx.common import harness

from .lib import DUT, LogCapture, run


@harness(
    "C12",
    params=[{"n": 6, "caps": (1, 2, 3, -1)}],
    thorough=[{"n": 10, "caps": (1, 2, 3, 4, -1)}],
    labels=("drop", "full", "unbounded"),
)
def ops(ctx, n, caps):
    """any sequence of n puts and gets on a port of each kind with capacity 1..3 or unbounded; values
    are distinguishable"""
    import toffee
    from toffee.model import AgentPort, DriverPort, MonitorPort, Port

    kind = ctx.choose("kind", 4)
    cap = caps[ctx.choose("cap", len(caps))]
    puts = [ctx.bool(f"put{i}") for i in range(n)]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        port = [
            lambda: Port("x", cap),
            lambda: DriverPort("a.x", maxsize=cap),
            lambda: MonitorPort(agent_name="a", maxsize=cap),
            lambda: AgentPort("a", cap),
        ][kind]()
        ref = []
        for i in range(n):
            v = 1000 + i * 37
            if puts[i]:
                with LogCapture("ERROR") as lc:
                    await port.put(v)
                errs = lc.texts()
                if cap != -1 and len(ref) >= cap:
                    ctx.check(len(errs) == 1 and str(v) in errs[0], "a dropped value was not reported as an error naming it")
                    ctx.note("drop")
                else:
                    ctx.check(errs == [], "an error was logged although the port had room")
                    ref.append(v)
                if len(ref) == cap:
                    ctx.note("full")
                if len(ref) > 3:
                    ctx.note("unbounded")
            elif ref:
                got = await (port.get() if kind == 0 or i % 2 else port())
                ctx.check(got == ref.pop(0), "a port delivered another value than the oldest one")
            ctx.check(port.qsize() == len(ref), "a port holds another number of values than put and not read")
        while ref:
            ctx.check((await port.get()) == ref.pop(0), "a port delivered another value than the oldest one")
        ctx.check(port.empty(), "a port delivered a value twice")

    run(test)


@harness("C12", params=[{"n": 4}], thorough=[{"n": 6}], labels=("end",))
def readers(ctx, n):
    """two readers (in tasks, waiting or busy for 0..1 cycles after each value), values of any content put in
    n cycles, 0..2 per cycle: together they read each value once, in order"""
    import toffee
    from toffee.model import Port

    per = [ctx.choose(f"k{i}", 3) for i in range(n)]
    busy = ctx.choose("busy", 2)
    vals = [[ctx.int(f"v{i}{j}") for j in range(per[i])] for i in range(n)]
    got = []

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        port = Port("x", -1)

        async def reader(r):
            while True:
                v = await port.get()
                got.append((v, dut.cyc()))
                await toffee.ClockCycles(dut, busy)

        for r in range(2):
            toffee.create_task(reader(r))
        for i in range(n):
            await toffee.ClockCycles(dut, 1)
            for v in vals[i]:
                await port.put(v)
        await toffee.ClockCycles(dut, n)

    run(test)
    flat = [(v, i + 1) for i in range(n) for v in vals[i]]
    ctx.check(len(got) == len(flat), "a value was lost or delivered twice")
    ctx.check(ctx.And(*[ctx.eq(g[0], f[0]) for g, f in zip(got, flat)]), "values were delivered out of order")
    if not busy:
        ctx.check(all(g[1] == f[1] for g, f in zip(got, flat)), "a value was not delivered to a waiting reader in its cycle")
    ctx.note("end")


@harness("C12", params=[{"n": 3}], thorough=[{"n": 5}], labels=("drop", "all"))
def waiting(ctx, n):
    """a port of capacity 1, 2 or unbounded with 0..2 readers waiting, each for one value; n values of any content put, each
    at once or a cycle after the one before: what arrives while the port holds its maximum is dropped, and nothing else"""
    import toffee
    from toffee.model import Port

    cap = [1, 2, -1][ctx.choose("cap", 3)]
    nr = ctx.choose("readers", 3)
    gap = [ctx.choose(f"gap{i}", 2) for i in range(n)]
    val = [ctx.int(f"v{i}") for i in range(n)]
    got, kept = [], []

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        port = Port("x", cap)

        async def reader(r):
            got.append((await port.get(), dut.cyc()))

        for r in range(nr):
            toffee.create_task(reader(r))
        await toffee.ClockCycles(dut, 1)
        held, left = 0, nr
        for i in range(n):
            if gap[i]:
                await toffee.ClockCycles(dut, 1)
                k = min(held, left)
                held, left = held - k, left - k
            ctx.check(port.qsize() == held, "a port holds another number of values than put and not read")
            with LogCapture("ERROR") as lc:
                await port.put(val[i])
            if cap != -1 and held >= cap:
                ctx.check(len(lc.texts()) == 1, "a dropped value was not reported as an error")
                ctx.note("drop")
            else:
                ctx.check(lc.texts() == [], "an error was logged although the port had room")
                held += 1
                kept.append((val[i], dut.cyc()))
            ctx.check(cap == -1 or port.qsize() <= cap, "a port holds more values than its capacity")
        await toffee.ClockCycles(dut, 1)
        k = min(nr, len(kept))
        ctx.check(len(got) == k, "a waiting reader did not get a value, or one was delivered twice")
        ctx.check(all(a[1] == b[1] and ctx.eq(a[0], b[0]) for a, b in zip(got, kept)), "the readers got other values, in another order or later")
        for v, _ in kept[k:]:
            ctx.check(port.qsize() > 0 and ctx.eq(await port.get(), v), "a port lost a value")
        ctx.check(port.empty(), "a port delivered a value twice")
        if len(kept) == n:
            ctx.note("all")

    run(test)


@harness("C12", params=[{"n": 6}], thorough=[{"n": 9}], labels=("end",))
def primitives(ctx, n):
    """toffee.Queue, Event and gather against the standard semantics: any sequence of puts and gets;
    events set, cleared and waited for in any order; gather over 0..3 coroutines finishing in any order"""
    import toffee

    ops = [ctx.choose(f"o{i}", 2) for i in range(n)]
    k = ctx.choose("k", 4)
    dur = [ctx.choose(f"d{i}", 3) for i in range(k)]
    val = [ctx.int(f"v{i}") for i in range(k)]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        q, ref = toffee.Queue(), []
        for i in range(n):
            if ops[i]:
                if i % 2:
                    await q.put(i)
                else:
                    q.put_nowait(i)
                ref.append(i)
            elif ref:
                ctx.check((await q.get()) == ref.pop(0), "a queue delivered another value than the oldest one")
        ctx.check(q.qsize() == len(ref), "a queue lost or duplicated a value")
        ev = toffee.Event()
        ctx.check(not ev.is_set(), "a new event is set")
        log = []

        async def waiter():
            await ev.wait()
            log.append(dut.cyc())

        toffee.create_task(waiter())
        await toffee.ClockCycles(dut, 1)
        ctx.check(log == [], "a wait ended before its event was set")
        ev.set()
        await waiter()
        ctx.check(ev.is_set(), "an event lost its state")
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        ctx.check(len(log) == 2, "a waiter was not woken")
        ev.clear()
        ctx.check(not ev.is_set(), "an event was not cleared")
        started = []

        async def job(i):
            started.append(i)
            await toffee.ClockCycles(dut, dur[i])
            return val[i]

        c = dut.cyc()
        r = await toffee.gather(*[job(i) for i in range(k)])
        ctx.check(len(r) == k and ctx.And(*[ctx.eq(a, b) for a, b in zip(r, val)]), "gather's results are not in argument order")
        ctx.check(dut.cyc() - c == max([0] + dur), "gather did not run its coroutines at the same time")
        ctx.check(started == list(range(k)), "gather did not start each coroutine once")

    run(test)
    ctx.note("end")
