"""Bundle structures described as plain data, built as toffee bundles, with an independent reading of
which pin name belongs to which signal."""
import asyncio
import re

from sx.base import Sym

from .lib import Pin


class Ev:
    """A clock event that only records that it was waited for."""

    def __init__(self):
        self.waits = 0

    async def wait(self):
        self.waits += 1


class NDUT:
    """A design whose pins have the given (possibly symbolic) names."""

    def __init__(self, names, outs=(), widths=None, event=None):
        self.event = event if event is not None else Ev()
        self._names = list(names)
        self._writes = []
        self._ris = []
        self._cycle = 0
        self._pins = [
            Pin(self.event, out=i in outs, width=(widths or {}).get(i, 8), log=self._writes, name=n)
            for i, n in enumerate(self._names)
        ]
        self._sym = any(isinstance(n, Sym) for n in self._names)
        for n, p in zip(self._names, self._pins):
            if not isinstance(n, Sym):
                setattr(self, n, p)

    def __dir__(self):
        return ["Step", "StepRis", "event"] + (self._names if self._sym else list(self.__dict__))

    @classmethod
    def __sx_getattr__(cls, o, n, *d):
        for m, p in zip(o._names, o._pins):
            if m is n:
                return p
        for m, p in zip(o._names, o._pins):
            if m == n:
                return p
        if d:
            return d[0]
        raise AttributeError(n)

    def StepRis(self, f, *a, **k):
        self._ris.append(f)

    def Step(self, n=1):
        for _ in range(n):
            self._cycle += 1
            if self._cycle > 60:
                raise RuntimeError("the design was stepped more than 60 times")
            for f in list(self._ris):
                f(self._cycle)


class Spec:
    """sigs: signal names; lists: (attr, format, n[, rule]); subs: (attr, rule, Spec);
    blists: (attr, format, n, Spec[, rule]); declared: signals given by a name list"""

    def __init__(self, sigs=(), lists=(), subs=(), blists=(), declared=False):
        self.sigs, self.lists, self.subs, self.blists = list(sigs), list(lists), list(subs), list(blists)
        self.declared = declared

    def cls(self):
        from toffee import Bundle, BundleList, Signal, SignalList

        ns = {}
        if self.declared:
            ns["signals"] = list(self.sigs)
        else:
            for s in self.sigs:
                ns[s] = Signal()
        for a, f, n, *r in self.lists:
            ns[a] = SignalList(f, n, *r)
        for a, rule, sp in self.subs:
            ns[a] = make(sp.cls(), rule)
        for a, f, n, sp, *r in self.blists:
            ns[a] = BundleList(sp.cls(), f, n, *r)
        return type("B", (Bundle,), ns)

    def leaves(self, rules=(), path=()):
        """(path, rules from the outside in, name the rules have to arrive at)"""
        for s in self.sigs:
            yield path + (s,), rules, s
        for a, f, n, *r in self.lists:
            for i in range(n):
                yield path + ((a, i),), rules, f.replace("#", r[0](i) if r else str(i))
        for a, rule, sp in self.subs:
            yield from sp.leaves(rules + (rule,), path + (a,))
        for a, f, n, sp, *r in self.blists:
            for i in range(n):
                p = f.replace("#", r[0](i) if r else str(i))
                yield from sp.leaves(rules + (("prefix", p),), path + ((a, i),))


def make(cls, rule):
    k, v = rule
    if k == "none":
        return cls()
    return {"prefix": cls.from_prefix, "regex": cls.from_regex, "dict": cls.from_dict}[k](v)


def dotted(path):
    return ".".join(p if isinstance(p, str) else f"{p[0]}[{p[1]}]" for p in path)


def fetch(b, path):
    """The signal found at the path, or 'missing'."""
    o = b
    for p in path:
        if isinstance(p, str):
            if p not in o.__dict__ and not hasattr(type(o), p):
                return "missing"
            o = getattr(o, p)
        else:
            o = getattr(o, p[0])[p[1]]
    return o


def strip(rule, name):
    """What the rule leaves of the name for the next level, or None."""
    k, v = rule
    if k == "none":
        return name
    if k == "prefix":
        if name.startswith(v):
            return name[len(v):]
        return None
    if k == "regex":
        m = re.search(v, name)
        if m is None:
            return None
        out = ""
        for g in m.groups():
            if g is not None:
                out = out + g
        return out
    for key, val in v.items():
        if val == name:
            return key
    return None


def describes(rules, leaf, name):
    for r in rules:
        name = strip(r, name)
        if name is None:
            return False
    return bool(name == leaf)


def prefix_name(rules, leaf):
    """The pin name of a signal whose rules are all prefixes."""
    out = ""
    for k, v in rules:
        out = out + ("" if k == "none" else v)
    return out + leaf


def is_pin(s):
    return isinstance(s, Pin)


def waits_on(b, ev):
    """Whether waiting for a clock cycle of the bundle waits for the event."""
    n = ev.waits
    try:
        b.step(1).send(None)
    except StopIteration:
        return ev.waits == n + 1
    return False
