"""Harness-facing vocabulary that works both on symbolic and on plain values.

This file must not import z3: the concrete replay runs it on the plain interpreter
in /opt/venv, against the un-instrumented toffee.
"""


class Abort(SystemExit):
    """Ends a path.  A SystemExit, because asyncio re-raises only that (and KeyboardInterrupt) out
    of a task at once."""


class Infeasible(Abort):
    """The assumptions of the path cannot be satisfied (path is dropped)."""


class Inconclusive(Abort):
    """The solver or a budget gave no answer: never reported as success."""


class ViolationFound(Abort):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Sym:
    """Base class of every symbolic value."""

    __slots__ = ()


class BaseCtx:
    """Common part of the symbolic and the concrete context."""

    symbolic = False

    def __init__(self):
        self.reached = {}
        self.data = {}

    def note(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1


class ConcreteCtx(BaseCtx):
    """Runs a harness on concrete values: the solver's assignment, replayed."""

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.failures = []
        self.missing = []
        self.checks = 0
        self.infeasible = None

    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bv(self, name, bits):
        return int(self._get(name, 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def str(self, name, alphabet, minlen, maxlen):
        return str(self._get(name, alphabet[0] * minlen))

    def choose(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        return opts[int(self._get(name, 0))]

    def assume(self, cond):
        if not cond:
            self.infeasible = "assumption does not hold on replayed values"
            raise Infeasible(self.infeasible)

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            self.failures.append(msg)
            raise ViolationFound(msg)

    # logic helpers
    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def concrete(self, x):
        return x
