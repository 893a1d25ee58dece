"""C38: the example environment agrees with the adder described by adder.v."""
import os
import re

from sx.common import harness

from .lib import DUT, LogCapture, run

REPO = os.environ.get("SX_REPO", "/repo")


class Verilog:
    """A combinational module: ports, wires, parameters and continuous assignments over + - & | ^ ~ and names"""

    def __init__(self, text):
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
        self.par = {n: int(v) for n, v in re.findall(r"\bparameter\s+(?:\w+\s+)?(\w+)\s*=\s*(\d+)", text)}
        self.width, self.ins, self.outs = {}, [], []
        head, body = text.split(";", 1)
        for kind, rng, names in re.findall(r"\b(input|output|wire)\b\s*(?:wire\b|logic\b)?\s*(\[[^\]]*\])?\s*(\w+(?:\s*,\s*(?!input|output)\w+)*)", text):
            for n in re.split(r"\s*,\s*", names.strip()):
                self.width[n] = self.span(rng)
                if kind != "wire":
                    (self.ins if kind == "input" else self.outs).append(n)
        self.assigns = [(self.target(l), r.strip()) for l, r in re.findall(r"\bassign\s+([^=;]+)=([^;]+);", body)]
        if not self.ins or not self.outs or not self.assigns:
            raise ValueError("adder.v is not in the subset of Verilog understood here")

    def span(self, rng):
        if not rng:
            return 1
        hi, lo = rng.strip("[] ").split(":")
        return eval(hi, {}, dict(self.par)) - eval(lo, {}, dict(self.par)) + 1

    def target(self, l):
        return [n.strip() for n in l.strip().strip("{}").split(",")]

    def evaluate(self, inputs):
        """Values of the outputs; every assignment is computed in the width of its widest operand or target"""
        v = {n: x % (1 << self.width[n]) for n, x in inputs.items()}
        left = list(self.assigns)
        while left:
            ready = [a for a in left if all(n in v for n in re.findall(r"[A-Za-z_]\w*", a[1]))]
            if not ready:
                raise ValueError("adder.v is not in the subset of Verilog understood here")
            for a in ready:
                left.remove(a)
                names, rhs = a
                w = max([sum(self.width[n] for n in names)] + [self.width[n] for n in re.findall(r"[A-Za-z_]\w*", rhs)])
                r = eval(rhs, {}, dict(v)) % (1 << w)
                for n in reversed(names):
                    v[n] = r % (1 << self.width[n])
                    r = r >> self.width[n]
        return {n: v[n] for n in self.outs}


def design():
    with open(os.path.join(REPO, "example", "adder", "adder.v")) as f:
        return Verilog(f.read())


def bundle(dut):
    from env import AdderBundle

    return AdderBundle.from_prefix("io_").bind(dut)


@harness("C38", params=[{"n": 2}], thorough=[{"n": 3}], labels=("right", "wrong"))
def additions(ctx, n):
    """n additions one after the other with any operands in range, on the adder that adder.v describes, with its outputs
    as they are, or with one of them off by any amount in one of the additions"""
    import toffee
    from env import AdderEnv

    hw = design()
    W = hw.width["io_a"]
    ops = [(ctx.int(f"a{i}", 0, (1 << W) - 1), ctx.int(f"b{i}", 0, (1 << W) - 1), ctx.int(f"c{i}", 0, 1)) for i in range(n)]
    bad = ctx.choose("wrong addition", n + 1) - 1
    which = ctx.choose("wrong output", hw.outs) if bad >= 0 else None
    off = ctx.int("off", 1, (1 << hw.width[which]) - 1) if bad >= 0 else 0
    got = []

    def settle(c, dut):
        out = hw.evaluate({p: getattr(dut, p).val for p in hw.ins})
        for p in hw.outs:
            x = out[p] + off if p == which and c == bad + 1 else out[p]
            getattr(dut, p).__dict__["val"] = x % (1 << hw.width[p])

    async def test():
        dut = DUT(hw.ins + hw.outs, outs=hw.outs, widths=hw.width)
        dut._on_step = lambda c: settle(c, dut)
        toffee.start_clock(dut)
        e = AdderEnv(bundle(dut))
        for a, b, c in ops:
            got.append(await e.add_agent.exec_add(a, b, c))

    with LogCapture("ERROR"):
        try:
            run(test)
            failed = False
        except Exception:  # noqa
            failed = True
    ctx.check(failed == (bad >= 0), "a correct adder is reported" if failed else "a wrong adder is not reported")
    if bad < 0:
        for (a, b, c), (s, k) in zip(ops, got):
            ctx.check(k * (1 << W) + s == a + b + c, "the sum and carry returned are not those of the operands")
        ctx.check(len(got) == n, "an addition did not return")
    ctx.note("wrong" if bad >= 0 else "right")


@harness("C38", params=[{"n": 2}], thorough=[{"n": 4}], labels=("right", "wrong"))
def models(ctx, n):
    """Each reference model on its own, given n additions with any operands and any outputs: the driver hook returns the
    outputs of adder.v, the other two fail exactly if an output is not that of adder.v"""
    import toffee
    from env import AdderModelWithDriverHook, AdderModelWithMonitorHook, AdderModelWithPort

    hw = design()
    kind = ctx.choose("model", 3)
    items = []
    for i in range(n):
        d = {p[3:]: ctx.int(f"{p}{i}", 0, (1 << hw.width[p]) - 1) for p in hw.ins + hw.outs}
        items.append((d, hw.evaluate({p: d[p[3:]] for p in hw.ins})))
    ins = [p[3:] for p in hw.ins]

    async def test():
        dut = DUT(["p"])
        toffee.start_clock(dut)
        if kind == 0:
            m = AdderModelWithDriverHook()
            for d, out in items:
                s, c = m.exec_add(**{k: d[k] for k in ins})
                if s != out["io_sum"] or c != out["io_cout"]:
                    raise AssertionError("driver hook")
        elif kind == 1:
            m = AdderModelWithMonitorHook()
            for d, _ in items:
                m.monitor_once(d)
        else:
            m = AdderModelWithPort()
            for d, _ in items:
                await m.exec_add_port.put({k: d[k] for k in ins})
                await m.monitor_once_port.put(d)
            await toffee.ClockCycles(dut, 2)

    with LogCapture("ERROR"):
        try:
            run(test)
            failed = False
        except Exception:  # noqa
            failed = True
    if kind == 0:
        ctx.check(not failed, "the driver hook does not return what the adder does")
    else:
        ok = True
        for d, out in items:
            ok = ok and bool(d["sum"] == out["io_sum"]) and bool(d["cout"] == out["io_cout"])
        ctx.note("right" if ok else "wrong")
        ctx.check(failed != ok, "a model accepts a wrong output or rejects a right one")
