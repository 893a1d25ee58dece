"""C16: detached models are silent, re-attached models work."""
from sx.common import harness

from .c15 import agents, exercise, model_class, seen, target
from .lib import DUT, make_env, plain_bundle, run

SETS = [
    [("dhook", "path", ("a", "send")), ("mhook", "own", ("b", "look"))],
    [("ahook", None, ("agents", ["a", "b"]))],
    [("dport", "own", ("b", "recv")), ("mport", "path", ("a", "watch"))],
    [("aport", None, ("agent", "a")), ("ahook", None, ("methods", ["b.look", "b.send"]))],
]
D = {"a": ["send"], "b": ["send", "recv"]}
M_ = {"a": ["watch"], "b": ["look"]}


@harness("C16", params=[{"n": 3, "sets": (0, 3)}, {"n": 2, "sets": (1, 2)}], thorough=[{"n": 4, "sets": (0, 1, 2, 3)}], labels=("detached", "moved", "again"))
def history(ctx, n, sets):
    """any sequence of n operations out of attaching either of two models (one class or two, with hooks, with
    ports, or both) to either of two environments and detaching it, also when it is not attached, with calls of every
    method of both environments after the last operation and (by choice) between operations"""
    import toffee

    si = sets[ctx.choose("set", len(sets))]
    same_class = ctx.choose("same", 2)
    ops = [ctx.choose(f"op{i}", 7) for i in range(n)]  # 4 attach, 2 detach, 1 detach from the other env
    between = ctx.choose("between", 2)
    logs = [[], []]
    active = [False]
    specs = [SETS[si], SETS[si] if same_class else SETS[(si + 1) % 4]]
    cls = [model_class(specs[i], logs[i]) for i in range(2)]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        b = plain_bundle(dut, ["p"])
        A, B, _, AB = agents(active)
        envs = [make_env(b, a=A, b=B, ab=AB, _u=AB) for _ in range(2)]
        ms = [cls[i]() for i in range(2)]
        where = [None, None]
        ever = [False, False]

        async def verify():
            for k in range(2):
                for lg in logs:
                    lg.clear()
                await exercise(envs[k], dut, active)
                for i in range(2):
                    for j, s in enumerate(specs[i]):
                        got = seen(j, s, ms[i], logs[i])
                        if where[i] == k:
                            # monitors of both environments return values while either is exercised
                            exp = target(s, D, M_)[1]
                        elif where[i] is not None:
                            exp = {p for p in target(s, D, M_)[1] if p in ("a.watch", "b.look")}
                        else:
                            exp = set()
                            if ever[i]:
                                ctx.note("detached")
                        ctx.check(
                            got == sorted(exp),
                            "a detached model was triggered" if where[i] is None else "an attached model was not triggered by exactly its methods, once each",
                        )

        for o in ops:
            if o < 4:
                i, k = o // 2, o % 2
                if where[i] is not None and where[i] != k:
                    ctx.note("moved")
                elif where[i] is None and ever[i]:
                    ctx.note("again")
                envs[k].attach(ms[i])
                where[i] = k
                ever[i] = True
            elif o < 6:
                i = o - 4
                envs[where[i] if where[i] is not None else 0].unattach(ms[i])
                where[i] = None
            else:
                k = 1 if where[0] == 0 else 0
                envs[k].unattach(ms[0])  # not attached there: nothing happens
            if between:
                await verify()
        for i in range(2):
            ctx.check(ms[i].is_attached() == (where[i] is not None), "the model does not know whether it is attached")
            for k in range(2):
                ctx.check((ms[i] in envs[k].attached_models) == (where[i] == k), "the list of attached models is wrong")
        await verify()

    run(test)
