"""C01: the clock never overtakes runnable work."""
import asyncio

from sx.common import harness

from .lib import DUT, make_env, plain_bundle, run

ASSUMPTIONS = ["tasks wait with toffee/asyncio primitives; real-time sleeps (delay > 0) are outside the claim"]

KINDS = ["tevent", "aevent", "tqueue", "aqueue", "join", "cancel", "yield", "tsleep0", "gather", "future",
         "agather", "taskgroup", "wait", "shield", "wait_for", "lock", "condition", "semaphore", "call_soon", "done_cb", "failed", "asgen"]


def _link(kind, nxt, log, dut, loop):
    """One link of a chain: returns (start coroutine function, fire function).  The link waits until
    fired, records the cycle, then fires the next link."""
    import toffee

    if kind in ("tevent", "aevent"):
        ev = toffee.Event() if kind == "tevent" else asyncio.Event()

        async def body():
            await ev.wait()
            log.append(dut.cyc())
            nxt()

        return body, ev.set
    if kind in ("tqueue", "aqueue"):
        q = toffee.Queue() if kind == "tqueue" else asyncio.Queue()

        async def body():
            await q.get()
            log.append(dut.cyc())
            nxt()

        return body, lambda: q.put_nowait(1)
    if kind == "future":
        f = loop.create_future()

        async def body():
            await f
            log.append(dut.cyc())
            nxt()

        return body, lambda: f.set_result(1)
    if kind == "join":
        ev = asyncio.Event()

        async def child():
            await ev.wait()
            return 5

        async def body():
            t = asyncio.ensure_future(child())
            await t
            log.append(dut.cyc())
            nxt()

        return body, ev.set
    if kind == "gather":
        ev = asyncio.Event()

        async def child():
            await ev.wait()

        async def body():
            await toffee.gather(child(), child())
            log.append(dut.cyc())
            nxt()

        return body, ev.set
    if kind == "cancel":
        box = []

        async def body():
            box.append(asyncio.current_task())
            try:
                await asyncio.Event().wait()
            except asyncio.CancelledError:
                log.append(dut.cyc())
                nxt()
                raise

        return body, lambda: box[0].cancel()
    if kind in ("yield", "tsleep0"):
        ev = asyncio.Event()

        async def body():
            await ev.wait()
            for _ in range(3):
                if kind == "yield":
                    await asyncio.sleep(0)
                else:
                    await toffee.sleep(0)
            log.append(dut.cyc())
            nxt()

        return body, ev.set
    ev = asyncio.Event()

    async def child():
        await ev.wait()
        return 5

    fire = ev.set
    box = []

    async def body():
        if kind == "agather":
            r = await asyncio.gather(child(), child())
            assert r == [5, 5]
        elif kind == "taskgroup":
            async with asyncio.TaskGroup() as tg:
                tg.create_task(child())
                tg.create_task(child())
        elif kind == "wait":
            ts = [asyncio.ensure_future(child()) for _ in range(2)]
            await asyncio.wait(ts)
        elif kind == "shield":
            await asyncio.shield(child())
        elif kind == "wait_for":
            await asyncio.wait_for(child(), 1e6)
        elif kind == "lock":
            lk = asyncio.Lock()
            await lk.acquire()
            box.append(lk)
            async with lk:
                pass
        elif kind == "condition":
            cd = asyncio.Condition()

            async def notify():
                await ev.wait()
                async with cd:
                    cd.notify_all()

            asyncio.ensure_future(notify())
            async with cd:
                await cd.wait()
        elif kind == "semaphore":
            sm = asyncio.Semaphore(0)
            box.append(sm)
            await sm.acquire()
        elif kind == "call_soon":
            f = loop.create_future()
            box.append(f)
            await f
        elif kind == "done_cb":
            f = loop.create_future()
            asyncio.ensure_future(child()).add_done_callback(lambda t: f.set_result(t.result()))
            assert await f == 5
        elif kind == "failed":

            async def bad():
                await ev.wait()
                raise KeyError(3)

            try:
                await asyncio.ensure_future(bad())
            except KeyError:
                pass
        elif kind == "asgen":

            async def gen():
                for _ in range(2):
                    await asyncio.sleep(0)
                    yield 1
                await ev.wait()
                yield 2

            async for _ in gen():
                pass
        log.append(dut.cyc())
        nxt()

    if kind in ("lock", "semaphore"):
        fire = lambda: box[0].release()
    elif kind == "call_soon":
        fire = lambda: loop.call_soon(lambda: loop.call_soon(box[0].set_result, 1))
    return body, fire


@harness(
    "C01",
    params=[{"n": 3, "kinds": tuple(range(10))}, {"n": 2, "kinds": tuple(range(22))}],
    thorough=[{"n": 4, "kinds": tuple(range(10))}, {"n": 3, "kinds": tuple(range(22))}],
    labels=("chain", "late_start"),
)
def chain(ctx, n, kinds):
    """chains of n wake-ups of every combination of kinds (event, queue, future, task end with a result or
    an error, toffee and asyncio gather, task group, wait, shield, wait_for, lock, condition, semaphore,
    call_soon, done callback, asynchronous generator, cancellation, bare yield), created in either order, started by a step in a symbolic cycle 1..2;
    an observer counts cycles"""
    import toffee

    ks = [KINDS[kinds[ctx.choose(f"k{i}", len(kinds))]] for i in range(n)]
    rev = ctx.choose("rev", 2)
    start = ctx.int("start", 1, 2)
    log, fin = [], []

    async def test():
        loop = asyncio.get_running_loop()
        dut = DUT(["p"])
        toffee.start_clock(dut)
        nxt = lambda: fin.append(dut.cyc())
        bodies = []
        for k in reversed(ks):
            b, nxt = _link(k, nxt, log, dut, loop)
            bodies.append(b)
        if rev:
            bodies.reverse()
        for b in bodies:
            toffee.create_task(b())
        await toffee.ClockCycles(dut, start)
        c = dut.cyc()
        ctx.check(c == start, "the starting cycle is not the one waited for")
        nxt()
        await toffee.ClockCycles(dut, 2)
        ctx.check(len(fin) == 1, "work triggered in a cycle was still unfinished two cycles later")
        ctx.check(fin[0] == c and all(x == c for x in log), "work triggered in one cycle ran in a later cycle")
        ctx.check(len(log) == n, "a link of the chain was lost")

    run(test)
    ctx.note("chain")
    if start == 2:
        ctx.note("late_start")


LONG = ["tevent", "tqueue", "future", "join", "tsleep0", "call_soon", "done_cb", "gather", "lock", "asgen"]


@harness("C01", params=[{"n": 9, "far": (40, 300)}], thorough=[{"n": 16, "far": (40, 300, 1500)}], labels=("short", "far"),
         fallback=[{"n": 4, "far": (40,)}])
def long(ctx, n, far):
    """chains of up to n links, and of the lengths in `far`, of one kind or of two kinds in turn, started in cycle 1 by the
    test or by another task; the test ends right after, or waits for two more cycles"""
    import toffee

    a = ctx.choose("kind", LONG)
    b = ctx.choose("other", ["same", "tqueue", "tsleep0"])
    length = ctx.int("length", 1, n + len(far))
    length = ctx.concrete(length)
    if length > n:
        length = far[length - n - 1]
        ctx.note("far")
    else:
        ctx.note("short")
    by_task = ctx.choose("by", 2)
    last = ctx.choose("last", 2)
    log, fin, duts = [], [], []

    async def test():
        loop = asyncio.get_running_loop()
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        nxt = lambda: fin.append(dut.cyc())
        for i in range(length):
            body, nxt = _link(a if b == "same" or i % 2 else b, nxt, log, dut, loop)
            toffee.create_task(body())
        if by_task:

            async def starter():
                await toffee.ClockCycles(dut.p)
                nxt()

            toffee.create_task(starter())
        await toffee.ClockCycles(dut, 1)
        if not by_task:
            nxt()
        if not last:
            await toffee.ClockCycles(dut, 2)

    run(test)
    ctx.check(len(log) == length and len(fin) == 1, "a link of the chain was lost")
    ctx.check(fin[0] == 1 and all(x == 1 for x in log), "work triggered in one cycle ran in a later cycle")
    ctx.check(duts[0].cyc() == (2 if last else 4), "another number of steps was taken")


@harness("C01", params=[{"n": 3, "c": 3}], thorough=[{"n": 3, "c": 5}], labels=("end",))
def watchers(ctx, n, c):
    """n tasks wait for steps (each on a different kind of item, symbolic start), and every one of
    them must see every cycle from its start exactly once; work between tasks passes through a queue"""
    import toffee

    kinds = [ctx.choose(f"kind{i}", 2) for i in range(n)]
    delay = [ctx.choose(f"d{i}", 3) for i in range(n)]
    seen = [[] for _ in range(n)]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        q = toffee.Queue()

        async def watcher(i):
            for _ in range(delay[i]):
                await asyncio.sleep(0)
            while True:
                await toffee.ClockCycles(dut if kinds[i] else dut.p)
                seen[i].append(dut.cyc())
                await q.put((i, dut.cyc()))

        async def reader():
            while True:
                i, cy = await q.get()
                ctx.check(cy == dut.cyc(), "an item put in one cycle was read in a later one")

        for i in range(n):
            toffee.create_task(watcher(i))
        toffee.create_task(reader())
        await toffee.ClockCycles(dut, c)

    run(test)
    for s in seen:
        ctx.check(
            s == list(range(1, c + 1)) or s == list(range(1, c + 2)),
            "a task waiting for steps was not woken exactly once per step",
        )
    ctx.note("end")


@harness("C01", params=[{"n": 4}], thorough=[{"n": 6}], labels=("end",))
def fanout(ctx, n):
    """an arbitrary wake-up graph over n tasks: when task i is woken it wakes task j for every
    symbolic edge (i, j); all tasks reachable from task 0 run in the cycle in which 0 is woken, the
    others never"""
    import toffee

    edge = {(i, j): ctx.bool(f"e{i}{j}") for i in range(n) for j in range(i + 1, n)}
    via = [ctx.choose(f"via{i}", 3) for i in range(1)]
    ran = {}

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        evs = [asyncio.Event() for _ in range(n)]
        if via[0] == 1:
            evs = [toffee.Event() for _ in range(n)]

        async def t(i):
            await evs[i].wait()
            if via[0] == 2:
                await asyncio.sleep(0)
            ran[i] = dut.cyc()
            for j in range(i + 1, n):
                if edge[(i, j)]:
                    evs[j].set()

        for i in reversed(range(n)):
            toffee.create_task(t(i))
        await toffee.ClockCycles(dut, 1)
        evs[0].set()
        await toffee.ClockCycles(dut, 1)
        reach = {0}
        for i in range(n):
            if i in reach:
                for j in range(i + 1, n):
                    if edge[(i, j)]:
                        reach.add(j)
        ctx.check(set(ran) == reach, "a reachable task had not run when the clock stepped")
        ctx.check(all(v == 1 for v in ran.values()), "a triggered task ran in a later cycle")

    run(test)
    ctx.note("end")


@harness("C01", params=[{"n": 6}, {"n": 70}], thorough=[{"n": 9}, {"n": 200}], labels=("driver", "monitor"), fallback=[{"n": 4}])
def hooks(ctx, n):
    """a chain of 1..n rounds (n rounds, if n > 20) within one cycle: a hook of a model (driver hook before or after the call,
    agent hook, monitor hook at the start) wakes a task, which makes the next driver call; every round
    and every task sees the cycle of the first"""
    import toffee
    from toffee.agent import Agent, driver_method, monitor_method
    from toffee.model import Model, agent_hook, driver_hook, monitor_hook

    length = ctx.int("length", 1, n) if n <= 20 else n
    kinds = [ctx.choose(f"k{i}", 3) for i in range(2)]
    mon = ctx.choose("mon", 2)
    ext = ctx.choose("ext", 2)
    seen, hooked, duts = [], [], []

    class A(Agent):
        @driver_method()
        async def first(self, x):
            return None

        @driver_method()
        async def last(self, x):
            return None

        @driver_method()
        async def any(self, x):
            return None

        @monitor_method()
        async def watch(self):
            return 0 if duts[0].cyc() == 2 else None

    class M(Model):
        def got(self, x):
            hooked.append((x, duts[0].cyc()))
            q.put_nowait(x)

        @driver_hook("a.first")
        def h1(self, x):
            self.got(x)

        @driver_hook("a.last", sche_order="dut_first")
        def h2(self, x):
            self.got(x)

        @agent_hook(methods=["a.any"], sche_order="dut_first")
        def h3(self, name, args):
            self.got(args["x"])

        if mon:

            @monitor_hook("a.watch")
            def h4(self, x):
                self.got(x)

    async def test():
        nonlocal q
        dut = DUT(["p"])
        duts.append(dut)
        toffee.start_clock(dut)
        q = toffee.Queue()
        e = make_env(plain_bundle(dut, ["p"]), a=A)
        e.attach(M())

        async def chain():
            while True:
                x = await q.get()
                seen.append((x, dut.cyc()))
                if x < length:
                    m = [e.a.first, e.a.last, e.a.any][kinds[x % 2]]
                    if ext:
                        async with toffee.Executor() as ex:
                            ex(m(x + 1))
                    else:
                        await m(x + 1)

        toffee.create_task(chain())
        await toffee.ClockCycles(dut, 2)
        if not mon:
            await [e.a.first, e.a.last, e.a.any][kinds[0]](0)
        await toffee.ClockCycles(dut, 1)
        k = len(seen)
        ctx.check(k == length + 1, "a task woken by a hook had not run when the clock stepped")

    q = None
    run(test)
    ctx.check([x for x, c in seen] == list(range(len(seen))), "a round was lost or ran twice")
    ctx.check([x for x, c in hooked] == list(range(len(hooked))), "a round was lost or ran twice")
    ctx.check(all(c == 2 for x, c in seen + hooked), "work triggered in a cycle ran in a later one")
    ctx.note("monitor" if mon else "driver")
