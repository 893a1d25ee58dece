"""C35: the debug console acts exactly as commanded."""
import contextlib
import io

from sx.common import harness


class Sig:
    """An internal signal as the simulator offers it: forced until released; writes of the present value are dropped
    unless that is turned off."""

    def __init__(self, value, width):
        self.__dict__.update(cur=value, width=width, mode="normal", ignore=True, forced=False, log=[])

    def W(self):
        return self.width

    @property
    def value(self):
        return self.cur

    @value.setter
    def value(self, v):
        if self.ignore and v == self.cur:
            return
        d = self.__dict__
        self.log.append((self.mode, v))
        if self.mode == "force":
            d.update(forced=True, cur=v)
        elif self.mode == "release":
            d.update(forced=False)
        elif not self.forced:
            d.update(cur=v)

    def SetIgnoreSameDataWrite(self, x):
        self.__dict__["ignore"] = bool(x)

    def AsVPIWriteForce(self):
        self.__dict__["mode"] = "force"

    def AsVPIWriteRelease(self):
        self.__dict__["mode"] = "release"

    def AsVPIWriteNoDelay(self):
        self.__dict__["mode"] = "normal"


class Design:
    def __init__(self, sigs):
        self.sigs = sigs
        self.calls = []

    def Step(self, n=1):
        self.calls.append(("step", n))

    def FlushWaveform(self):
        self.calls.append(("flush",))

    def RefreshComb(self):
        self.calls.append(("refresh", sum(len(s.log) for s in self.sigs.values())))

    def GetInternalSignal(self, name, *a, **k):
        return self.sigs.get(name)

    def VPIInternalSignalList(self, prefix="", deep=99):
        self.calls.append(("list", prefix, deep))
        return [prefix + n for n in self.sigs]


def console(d):
    from toffee.debug import get

    return get(d, readrc=False)


def cmd(p, line):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.onecmd(line)
    return out.getvalue()


def number(t):
    try:
        return int(t)
    except ValueError:
        return None


def snapshot(d):
    return [(n, s.cur, s.forced, s.ignore, s.mode, len(s.log)) for n, s in d.sigs.items()]


def untouched(ctx, d, before, what):
    ctx.check(len(d.calls) == 0, f"{what}: something is done to the design")
    for a, b in zip(before, snapshot(d)):
        ctx.check(a[0] == b[0] and ctx.eq(a[1], b[1]) and a[2:] == b[2:], f"{what}: a signal is changed")


def design(ctx):
    return Design({"a": Sig(ctx.int("a", -2, 12), 4), "a.b": Sig(ctx.int("ab", 0, 3), 20)})


@harness("C35", params=[{"n": 3}], thorough=[{"n": 4}], labels=("good", "bad", "default"),
         fallback=[{"n": 2}])
def step(ctx, n):
    """tstep with any argument of up to n characters of 0 1 7 - _ x and blanks, or none"""
    arg = ctx.concrete(ctx.str("arg", "017-_x ", 0, n))
    v = number(arg.strip())
    ctx.assume(v is None or v >= 0)
    d = Design({"a": Sig(5, 4)})
    before = snapshot(d)
    out = cmd(console(d), "tstep " + arg)
    if not arg.strip():
        v = 1
        ctx.note("default")
    if v is None:
        ctx.check(out.strip() != "", "no error is reported for a wrong number of cycles")
        untouched(ctx, d, before, "a wrong number of cycles")
        ctx.note("bad")
        return
    steps = [c[1] for c in d.calls if c[0] == "step"]
    ctx.check(sum(steps) == v, "the design is advanced by another number of cycles")
    ctx.check(d.calls[-1] == ("flush",) and all(c[0] in ("step", "flush") for c in d.calls), "the waveform is not flushed after stepping")
    ctx.check(snapshot(d) == before, "stepping changes a signal")
    ctx.check(out == "", "something is reported for a correct command")
    ctx.note("good")


@harness("C35", params=[{}], thorough=[{"n": 3}], labels=("set", "force", "bad"))
def write(ctx, n=2):
    """tset and tforce: any name of up to 3 characters of a . b, any value text of up to n characters of 0 1 8 - x _,
    either left out, or the value given twice with a blank; any present values"""
    d = design(ctx)
    name = ctx.concrete(ctx.str("name", "a.b", 0, 3))
    text = ctx.concrete(ctx.str("text", "018-x_", 0, n)) if name in d.sigs or name == "b" else "1"
    do = ["tset", "tforce"][ctx.choose("cmd", 2)]
    before = snapshot(d)
    line = f"{do} {name} {text}" if name else f"{do} {text}"
    words = line.split()[1:]
    name = words[0] if words else None
    v = number(words[1]) if len(words) > 1 else None
    p = console(d)
    out = cmd(p, line)
    if v is None or name not in d.sigs:
        ctx.check(not words or out.strip() != "", "no error is reported for a wrong command")
        untouched(ctx, d, before, "a wrong command")
        ctx.note("bad")
        return
    s = d.sigs[name]
    ctx.check(s.cur == v, "the signal does not get the value")
    ctx.check(s.forced == (do == "tforce"), "the signal is not forced, or it is although it was only set")
    ctx.check(all([x == v for _, x in s.log]), "the signal is written another value")
    ctx.check(s.ignore, "equal writes are no longer ignored afterwards")
    for a, b in zip(before, snapshot(d)):
        ctx.check(a[0] == name or ctx.eq(a[1], b[1]) and a[2:] == b[2:], "another signal is changed")
    ctx.check(len(d.calls) > 0 and all(c[0] == "refresh" for c in d.calls) and d.calls[-1][1] == len(s.log), "the design is not refreshed after writing")
    ctx.check(out == "", "something is reported for a correct command")
    ctx.note("force" if s.forced else "set")


@harness("C35", params=[{"n": 2}], thorough=[{"n": 3}], labels=("released", "forced"),
         fallback=[{"n": 1}])
def sequence(ctx, n):
    """n+1 commands of set, force and release on two signals, any present values, values -1..2: each signal has what
    it was last given, and is forced until it is released"""
    d = design(ctx)
    p = console(d)
    cur = {k: s.cur for k, s in d.sigs.items()}
    forced = {k: False for k in cur}
    for i in range(n + 1):
        k = ["a", "a.b"][ctx.choose(f"s{i}", 2)]
        do = ["tset", "tforce", "trelease"][ctx.choose(f"c{i}", 3)]
        ctx.assume(not (do == "tset" and forced[k]))  # setting what is forced is up to the simulator
        if do == "trelease":
            out = cmd(p, f"{do} {k}")
            forced[k] = False
            ctx.note("released")
        else:
            v = ctx.concrete(ctx.int(f"v{i}", -1, 2))
            out = cmd(p, f"{do} {k} {v}")
            cur[k] = v
            forced[k] = forced[k] or do == "tforce"
        ctx.check(out == "", "something is reported for a correct command")
        for q, s in d.sigs.items():
            ctx.check(ctx.eq(s.cur, cur[q]), "a signal has another value than it was given")
            ctx.check(s.forced == forced[q], "a signal is forced after a release, or not forced after a force")
            ctx.check(s.ignore, "equal writes are no longer ignored afterwards")
        ctx.check(d.calls[-1] == ("refresh", sum(len(s.log) for s in d.sigs.values())), "the design is not refreshed")
        if any(forced.values()):
            ctx.note("forced")


@harness("C35", params=[{}], labels=("bad", "bin", "hex", "dec"))
def show(ctx):
    """tprint: any name of up to 3 characters of a . b; nine texts for the radix, or none; any present values"""
    d = design(ctx)
    for x in d.sigs.values():
        x.__dict__["cur"] = ctx.concrete(x.cur)
    name = ctx.concrete(ctx.str("name", "a.b", 0, 3))
    radix = ["", "bin", "hex", "dec", "HEX", "Bin", "oct", "he", "x", "10"][ctx.choose("radix", 10)]
    before = snapshot(d)
    words = f"{name} {radix}".split()
    out = cmd(console(d), "tprint " + " ".join(words))
    untouched(ctx, d, before, "printing")
    name = words[0] if words else None
    r = words[1].lower() if len(words) > 1 else "dec"
    if name not in d.sigs or r not in ("bin", "hex", "dec"):
        ctx.check(not words or out.strip() != "", "no error is reported for a wrong command")
        ctx.check("value:" not in out, "a wrong command prints a value")
        ctx.note("bad")
        return
    v = ctx.concrete(d.sigs[name].cur)
    exp = {"bin": bin, "hex": hex, "dec": str}[r](v)
    toks = out.replace(":", " ").replace("(", " ").replace(")", " ").split()
    ctx.check(toks[-1] == exp, "another value is printed, or in another radix")
    ctx.check(str(d.sigs[name].width) in toks[:-1], "the width is not printed")
    ctx.note(r)


@harness("C35", params=[{}], labels=("good", "bad"))
def others(ctx):
    """tflush and trelease with any argument of up to two characters of a . b, tlist with any of up to three characters of
    0 2 a and blanks"""
    d = design(ctx)
    before = snapshot(d)
    k = ctx.choose("cmd", 3)
    arg = ctx.concrete(ctx.str("arg", "02a " if k == 2 else "a.b", 0, 3 if k == 2 else 2)).strip()
    out = cmd(console(d), ["tflush", "trelease", "tlist"][k] + " " + arg)
    if k == 0:
        if arg:
            ctx.check(out.strip() != "", "no error is reported for a wrong command")
            untouched(ctx, d, before, "a wrong command")
            ctx.note("bad")
        else:
            ctx.check(d.calls == [("flush",)] and out == "", "the waveform is not flushed")
            ctx.note("good")
    elif k == 1:
        if arg not in d.sigs:
            ctx.check(not arg or out.strip() != "", "no error is reported for a wrong command")
            untouched(ctx, d, before, "a wrong command")
            ctx.note("bad")
        else:
            ctx.check(all([ctx.eq(a[1], b[1]) for a, b in zip(before, snapshot(d))]) and not d.sigs[arg].forced, "releasing changes a value")
    else:
        words = arg.split()
        depth = number(words[0]) if words else 99
        prefix = words[1] if len(words) > 1 else ""
        if depth is None:
            ctx.check(out.strip() != "", "no error is reported for a wrong command")
            untouched(ctx, d, before, "a wrong command")
            ctx.note("bad")
        else:
            ctx.check(d.calls == [("list", prefix, depth)], "other signals are listed than asked for")
            got = [ln.split()[-1] for ln in out.splitlines()]
            ctx.check(got == [prefix + n for n in d.sigs], "not every signal is listed once")
            ctx.note("good")
