"""Stand-ins for what picker generates (the design and its pins), shared by the harnesses."""
import asyncio


class StepLimit(Exception):
    pass


class XData:
    def __init__(self, owner):
        self.owner = owner


class Pin:
    """Like picker's XPin: a value, the clock event, and everything else forwarded to xdata."""

    def __init__(self, event, out=False, width=8, value=0, log=None, name=""):
        d = self.__dict__
        d["xdata"] = XData(self)
        d["event"] = event
        d["out"] = out
        d["both"] = False
        d["width"] = width
        d["val"] = value
        d["log"] = log
        d["pname"] = name
        d["mode"] = None

    @property
    def value(self):
        return self.val

    @value.setter
    def value(self, v):
        self.__dict__["val"] = v
        if self.log is not None:
            self.log.append((self.pname, v))

    def __getattr__(self, n):
        return getattr(self.__dict__["xdata"], n)

    def IsOutIO(self):
        return self.out

    def IsInIO(self):
        return not self.out and not self.both

    def IsBiIO(self):
        return not self.out and bool(self.both)

    def W(self):
        return self.width

    def AsImmWrite(self):
        self.__dict__["mode"] = "imme"

    def AsRiseWrite(self):
        self.__dict__["mode"] = "rise"

    def AsFallWrite(self):
        self.__dict__["mode"] = "fall"


class DUT:
    """cycle counts the steps taken; on_step(cycle) lets a harness drive pins from a trace."""

    def __init__(self, pins=(), limit=60, outs=(), widths=None):
        self.event = asyncio.Event()
        self._cycle = 0
        self._limit = limit
        self._ris = []
        self._on_step = None
        self._writes = []
        for p in pins:
            setattr(
                self, p,
                Pin(self.event, out=p in outs, width=(widths or {}).get(p, 8), log=self._writes, name=p),
            )

    def cyc(self):
        return self._cycle

    def StepRis(self, f, *a, **k):
        self._ris.append(f)

    def Step(self, n=1):
        for _ in range(n):
            self._cycle += 1
            if self._cycle > self._limit:
                raise StepLimit("the design was stepped more than %d times" % self._limit)
            for f in list(self._ris):
                f(self._cycle)
            if self._on_step is not None:
                self._on_step(self._cycle)


def run(test, *a, **k):
    """toffee.run; used by every harness that needs a clock."""
    import toffee

    return toffee.run(test, *a, **k)


class LogCapture:
    """Collects the records of the toffee logger (what a user configures with a handler)."""

    def __init__(self, level="WARNING"):
        import logging

        outer = self
        self.records = []
        self.level = getattr(logging, level)

        class H(logging.Handler):
            def emit(self, rec):
                outer.records.append((rec.levelname, rec.getMessage()))

        self.h = H()

    def __enter__(self):
        from toffee import logger

        self.lg = logger.get_logger()
        self.old = self.lg.level
        self.lg.setLevel(self.level)
        self.lg.addHandler(self.h)
        return self

    def __exit__(self, *a):
        self.lg.removeHandler(self.h)
        self.lg.setLevel(self.old)

    def texts(self, level=None):
        return [m for l, m in self.records if level is None or l == level]


def plain_bundle(dut, names):
    """A bound bundle over the named pins of the design."""
    from toffee import Bundle

    return Bundle.new_class_from_list(list(names))().bind(dut)


def trace(dut, pins, values):
    """Lets the design drive its pins: values[t][i] is the value of pins[i] in cycle t."""
    for p, v in zip(pins, values[0]):
        getattr(dut, p).__dict__["val"] = v

    def on_step(c):
        if c < len(values):
            for p, v in zip(pins, values[c]):
                getattr(dut, p).__dict__["val"] = v

    dut._on_step = on_step


def make_env(bundle, **agents):
    """An environment with the given agent classes, all on one bundle."""
    from toffee.env import Env

    class E(Env):
        def __init__(self):
            super().__init__()
            for n, c in agents.items():
                setattr(self, n, c(bundle))

    return E()
