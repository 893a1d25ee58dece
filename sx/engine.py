"""Path-exhaustive symbolic execution of real CPython code with z3.

The code under test runs unmodified on proxy values.  Every truth test of a proxy asks the
solver which outcomes are feasible under the path condition; both are explored by re-execution
(depth first, deterministic).  Every assertion is discharged as  unsat(path condition & not A).
"""
import time

import z3
import z3.z3 as _z3z3

_z3z3.Z3_DEBUG = False  # argument sanity checks of the binding: a third of the run time

from .base import Abort, BaseCtx, Inconclusive, Infeasible, Sym, ViolationFound

CUR = None  # the engine of this process


class _D:
    __slots__ = ("expr", "val", "kind", "aux", "alt")

    def __init__(self, expr, val, kind, aux=None, alt=None):
        self.expr, self.val, self.kind, self.aux, self.alt = expr, val, kind, aux, alt


class NonDeterminism(Inconclusive):
    """re-execution took another course: the harness or the code is not deterministic"""


def _pack(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return ("i", v.as_long())
    return ("v", v.as_long(), v.size())


def _unpack(t):
    if t is None:
        return None
    if t[0] == "i":
        return z3.IntVal(t[1])
    return z3.BitVecVal(t[1], t[2])


class Engine:
    def __init__(self, fixed=None, time_limit=600.0, prefix=(), query_ms=60_000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.trail = []
        self.pos = 0
        self.memo = {}  # conditions decided on the current path
        self.model = None
        self.fixed = fixed or {}
        self.deadline = time.time() + time_limit
        # decisions of the subtree this engine explores: (kind, value, aux) per trail position
        self.prefix = [(k, v, _unpack(a)) for k, v, a in prefix]
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.forced = 0
        self.asserts = 0
        self.obligations = 0
        self.abort = None  # first exception that ended the current path

    def start(self):
        """A new path begins."""
        self.pos = 0
        self.memo = {}
        self.abort = None

    def stop(self, exc):
        if self.abort is None:
            self.abort = exc
        raise self.abort

    def check_abort(self):
        if self.abort is not None:
            raise self.abort

    # ---- solver ---------------------------------------------------------
    def _sat(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        if r == z3.sat:
            return True, self.solver.model()
        if r == z3.unsat:
            return False, None
        self.stop(Inconclusive("solver answered unknown: " + self.solver.reason_unknown()))

    def _need_model(self):
        if self.model is None:
            ok, m = self._sat()
            if not ok:
                self.stop(Infeasible("path condition unsatisfiable"))
            self.model = m
        return self.model

    def truth_in_model(self, e):
        v = self._need_model().eval(e, model_completion=True)
        return z3.is_true(v)

    # ---- branching ------------------------------------------------------
    def branch(self, e, aux=None, simplified=False):
        """The truth value of the condition on this path; conditions decided before are remembered
        (decisions of realise are always taken anew, so that the trail keeps their values)."""
        if self.abort is not None:
            raise self.abort
        if not simplified:
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
        neg = z3.is_not(e)
        key = e.arg(0) if neg else e
        if aux is None:
            m = self.memo.get(key.get_id())
            if m is not None:
                return m[1] != neg
        v = self._decide(e, aux)
        self.memo[key.get_id()] = (key, v != neg)
        return v

    def _decide(self, e, aux):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d.expr.eq(e):
                self.stop(NonDeterminism(f"replay diverged: {d.expr} vs {e}"))
            self.pos += 1
            return d.val
        if self.pos < len(self.prefix):
            kind, val, aux = self.prefix[self.pos]
            if kind == "f":
                self.trail.append(_D(e, val, "f", aux))
            elif kind in ("b", "x"):
                self.trail.append(_D(e, val, "x", aux))
                self.solver.push()
                self.solver.add(e if val else z3.Not(e))
                self.model = None
            else:
                self.stop(NonDeterminism("prefix diverged"))
            self.pos += 1
            return val
        if time.time() > self.deadline:
            self.stop(Inconclusive("time budget exhausted"))
        cur = self.truth_in_model(e)
        m_cur = self.model
        ok, m_alt = self._sat(z3.Not(e) if cur else e)
        if not ok:
            self.forced += 1
            self.trail.append(_D(e, cur, "f", aux))
            self.pos += 1
            return cur
        self.branches += 1
        # explore the value of the current model first: no model recomputation needed
        self.trail.append(_D(e, cur, "b", aux, m_alt))
        self.pos += 1
        self.solver.push()
        self.solver.add(e if cur else z3.Not(e))
        self.model = m_cur
        return cur

    def assume(self, e):
        if self.abort is not None:
            raise self.abort
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.stop(Infeasible("assumption is false"))
        neg = z3.is_not(e)
        key = e.arg(0) if neg else e
        self.memo[key.get_id()] = (key, not neg)
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d.expr.eq(e) or d.kind != "a":
                self.stop(NonDeterminism("replay diverged at an assumption"))
            self.pos += 1
            return
        if self.pos < len(self.prefix):
            if self.prefix[self.pos][0] != "a":
                self.stop(NonDeterminism("prefix diverged at an assumption"))
            self.model = None
        elif self.model is None or not self.truth_in_model(e):
            ok, m = self._sat(e)
            if not ok:
                self.stop(Infeasible("assumption unsatisfiable"))
            self.model = m
        self.trail.append(_D(e, True, "a"))
        self.pos += 1
        self.solver.push()
        self.solver.add(e)

    def realise(self, expr):
        """Fork over every feasible value of expr; returns a z3 value."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_bv_value(expr):
            return expr
        while True:
            if self.pos < len(self.trail):
                v = self.trail[self.pos].aux
                if v is None:
                    self.stop(NonDeterminism("replay diverged in realise"))
            elif self.pos < len(self.prefix):
                v = self.prefix[self.pos][2]
                if v is None:
                    self.stop(NonDeterminism("prefix diverged in realise"))
            else:
                v = self._need_model().eval(expr, model_completion=True)
            if self.branch(expr == v, aux=v):
                return v

    def backtrack(self):
        while self.trail:
            d = self.trail.pop()
            if d.kind == "b":
                self.solver.pop()
                nd = _D(d.expr, not d.val, "x", d.aux)
                self.trail.append(nd)
                self.solver.push()
                self.solver.add(d.expr if nd.val else z3.Not(d.expr))
                self.model = d.alt
                return True
            if d.kind in ("a", "x"):
                self.solver.pop()
        return False

    def frontier(self):
        """Hand the unexplored alternatives back as prefixes (call right after backtrack())."""
        path = [(d.kind, d.val, _pack(d.aux)) for d in self.trail]
        out = [path]
        for i, d in enumerate(self.trail):
            if d.kind == "b":
                out.append(path[:i] + [("x", not d.val, path[i][2])])
        return out

    def in_prefix(self):
        return self.pos < len(self.trail) or self.pos < len(self.prefix)

    def check(self, cond, msg, ctx):
        """Discharge an assertion; raises ViolationFound with a model stored in ctx."""
        if self.abort is not None:
            raise self.abort
        if self.in_prefix():
            # already discharged under the same path condition on an earlier path
            return
        self.asserts += 1
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                self.obligations += 1
                return
            ok, m = self._sat(z3.Not(e))
            if not ok:
                self.obligations += 1
                return
            self.model = m
        elif isinstance(cond, Sym):
            raise TypeError("check() needs a truth value")
        elif cond:
            # the truth value was decided by branching: the solver has shown it for every value
            # satisfying the path condition
            self.obligations += 1
            return
        self._need_model()
        self.stop(ViolationFound(msg))


# ---------------------------------------------------------------------------
# symbolic booleans


def _zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymBV):
        return x.e != 0
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    """self.e is simplified and neither true nor false (see mkbool)"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e, None, True)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, _zb(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, _zb(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, _zb(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == _zb(o))
        if isinstance(o, (int, SymInt)):
            return self._i() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._i()

    def __lshift__(self, o):
        return int(self) << o

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return ValText(self, "<symbool>")

    __str__ = __repr__

    def __format__(self, s):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def CUR_and(*xs):
    return mkbool(z3.And([_zb(x) for x in xs]))


# ---------------------------------------------------------------------------
# symbolic mathematical integers


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymBV):
        return z3.BV2Int(x.e, is_signed=True)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def _bin(f):
    def op(self, o):
        z = _zi(o)
        if z is None:
            return NotImplemented
        return mkint(f(self.e, z))

    return op


def _rbin(f):
    def op(self, o):
        z = _zi(o)
        if z is None:
            return NotImplemented
        return mkint(f(z, self.e))

    return op


def _cmp(f, dflt=NotImplemented):
    def op(self, o):
        z = _zi(o)
        if z is None:
            if isinstance(o, float):
                return f(int(self), o)
            return dflt
        return mkbool(f(self.e, z))

    return op


def _pyfloordiv(a, b):
    # z3 Int div rounds so that the remainder is non-negative; Python floors
    q, r = a / b, a % b
    return z3.If(z3.And(b < 0, r != 0), q - 1, q)


def _pymod(a, b):
    r = a % b
    return z3.If(z3.And(b < 0, r != 0), r + b, r)


def _digits(e):
    """(negative, the digits of a number of up to 12 of them followed by zeros, how many there are)"""
    n = e < 0
    x = z3.If(n, -e, e)
    scaled, length = x, z3.IntVal(12)
    for k in range(11, 0, -1):
        scaled, length = z3.If(x < 10**k, x * 10 ** (12 - k), scaled), z3.If(x < 10**k, z3.IntVal(k), length)
    return n, scaled, length


class ValText(str):
    """str() of a symbolic number or truth value: a place holder that is equal to the texts its value can have"""

    def __new__(cls, v, text):
        s = str.__new__(cls, text)
        s.v = v
        return s

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, ValText):
            if isinstance(self.v, SymBool) != isinstance(o.v, SymBool):
                return False
            return self.v == o.v
        if type(o) is str:
            if isinstance(self.v, SymBool):
                return self.v if o == "True" else self.v == False if o == "False" else False  # noqa: E712
            d = o[1:] if o[:1] == "-" else o
            return self.v == int(o) if d.isdecimal() and d.isascii() and str(int(o)) == o else False
        if isinstance(o, str):
            return self._real() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def _real(self):
        return str(bool(self.v) if isinstance(self.v, SymBool) else int(self.v))

    def _order(self, o, f):
        """Compares the texts: by their decimal digits, exactly, where both are those of integers"""
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.v, o.v if isinstance(o, ValText) else None
        if b is None and o.isdecimal() and o.isascii() and str(int(o)) == o:
            b = int(o)
        if isinstance(a, SymInt) and (isinstance(b, SymInt) or type(b) is int):
            top = 10**12
            a, b = a.e, _zi(b)
            if mkbool(z3.And(a > -top, a < top, b > -top, b < top)):
                (na, xa, la), (nb, xb, lb) = _digits(a), _digits(b)
                lt = z3.Or(xa < xb, z3.And(xa == xb, la < lb))
                return mkbool(f(z3.If(na == nb, lt, na), a == b))
        x, y = self._real(), o._real() if isinstance(o, ValText) else str(o)
        return z3.is_true(z3.simplify(f(z3.BoolVal(x < y), z3.BoolVal(x == y))))

    def __lt__(self, o):
        return self._order(o, lambda lt, eq: lt)

    def __le__(self, o):
        return self._order(o, lambda lt, eq: z3.Or(lt, eq))

    def __gt__(self, o):
        return self._order(o, lambda lt, eq: z3.Not(z3.Or(lt, eq)))

    def __ge__(self, o):
        return self._order(o, lambda lt, eq: z3.Not(lt))

    def __hash__(self):
        return hash(self._real())

    def __len__(self):
        return len(self._real())

    def __getitem__(self, k):
        return self._real()[k]

    def __iter__(self):
        return iter(self._real())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _rbin(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def _div(self, o, f, swap=False):
        z = _zi(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        if CUR.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(f(a, b))

    def __floordiv__(self, o):
        return self._div(o, _pyfloordiv)

    def __rfloordiv__(self, o):
        return self._div(o, _pyfloordiv, True)

    def __mod__(self, o):
        return self._div(o, _pymod)

    def __rmod__(self, o):
        return self._div(o, _pymod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return int(self) / o

    def __pow__(self, o, mod=None):
        return pow(int(self), int(o), mod)

    def __rpow__(self, o):
        return o ** int(self)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __lshift__(self, o):
        return mkint(self.e * (1 << int(o)))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return mkint(self.e / (1 << int(o)))

    def __rrshift__(self, o):
        return o >> int(self)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return mkint(((self.e / o) % 2) * o)
        return int(self) & (int(o) if isinstance(o, Sym) else o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | (int(o) if isinstance(o, Sym) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ (int(o) if isinstance(o, Sym) else o)

    __rxor__ = __xor__

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __int__(self):
        return CUR.realise(self.e).as_long()

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def bit_length(self):
        return int(self).bit_length()

    def __repr__(self):
        return ValText(self, "<symint>")

    __str__ = __repr__

    def __format__(self, s):
        return "<symint>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------------------
# symbolic Python ints as exact-width signed bit-vectors (no wrap-around is possible: every
# operation widens its result enough to hold the exact value)


def mkbv(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    # drop redundant sign/zero extension so that widths stay bounded in loops
    return SymBV(e)


def _w(n):
    return max(1, n.bit_length() + 1)


def _zv(x):
    if isinstance(x, SymBV):
        return x.e
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    if isinstance(x, int):
        return z3.BitVecVal(x, _w(x))
    return None


def _ext(a, b, extra=0):
    w = max(a.size(), b.size()) + extra
    return z3.SignExt(w - a.size(), a), z3.SignExt(w - b.size(), b)


def _vbin(f, extra):
    def op(self, o):
        z = _zv(o)
        if z is None:
            return NotImplemented
        return mkbv(f(*_ext(self.e, z, extra)))

    def rop(self, o):
        z = _zv(o)
        if z is None:
            return NotImplemented
        return mkbv(f(*_ext(z, self.e, extra)))

    return op, rop


def _vcmp(f, dflt=NotImplemented):
    def op(self, o):
        z = _zv(o)
        if z is None:
            return dflt
        return mkbool(f(*_ext(self.e, z)))

    return op


class SymBV(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _vbin(lambda a, b: a + b, 1)
    __sub__, __rsub__ = _vbin(lambda a, b: a - b, 1)
    __or__, __ror__ = _vbin(lambda a, b: a | b, 0)
    __xor__, __rxor__ = _vbin(lambda a, b: a ^ b, 0)
    __lt__ = _vcmp(lambda a, b: a < b)
    __le__ = _vcmp(lambda a, b: a <= b)
    __gt__ = _vcmp(lambda a, b: a > b)
    __ge__ = _vcmp(lambda a, b: a >= b)
    __eq__ = _vcmp(lambda a, b: a == b)
    __ne__ = _vcmp(lambda a, b: a != b)

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            # result fits in o's bits
            w = _w(o)
            if self.e.size() > w:
                return mkbv(z3.Extract(w - 1, 0, self.e) & z3.BitVecVal(o, w))
        z = _zv(o)
        if z is None:
            return NotImplemented
        a, b = _ext(self.e, z)
        return mkbv(a & b)

    __rand__ = __and__

    def __mul__(self, o):
        z = _zv(o)
        if z is None:
            return NotImplemented
        w = self.e.size() + z.size()
        return mkbv(z3.SignExt(w - self.e.size(), self.e) * z3.SignExt(w - z.size(), z))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __invert__(self):
        return mkbv(~self.e)

    def __abs__(self):
        e = z3.SignExt(1, self.e)
        return mkbv(z3.If(e < 0, -e, e))

    def __lshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        return mkbv(z3.Concat(self.e, z3.BitVecVal(0, n))) if n else self

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        n = int(o)
        if n < 0:
            raise ValueError("negative shift count")
        n = min(n, self.e.size() - 1)
        return mkbv(z3.Extract(self.e.size() - 1, n, self.e))

    def __rrshift__(self, o):
        return o >> int(self)

    def __floordiv__(self, o):
        n = int(o)
        if n > 0 and n & (n - 1) == 0:
            return self >> (n.bit_length() - 1)
        return int(self) // n

    def __mod__(self, o):
        n = int(o)
        if n > 0 and n & (n - 1) == 0:
            return self & (n - 1)
        return int(self) % n

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return pow(int(self), int(o), mod)

    def __rpow__(self, o):
        return o ** int(self)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __int__(self):
        return CUR.realise(self.e).as_signed_long()

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def bit_count(self):
        return sum((self >> i) & 1 for i in range(self.e.size()))

    def bit_length(self):
        return int(self).bit_length()

    def __repr__(self):
        return ValText(self, "<symbv>")

    __str__ = __repr__

    def __format__(self, s):
        return "<symbv>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------------------


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.decl = {}  # name -> (kind, z3 expr or tuple of them)

    def _new(self, name):
        if name in self.decl:
            raise RuntimeError(f"symbol {name} declared twice")

    def int(self, name, lo=None, hi=None):
        self._new(name)
        e = z3.Int(name)
        self.decl[name] = ("i", e)
        if name in self.eng.fixed:
            self.eng.assume(e == self.eng.fixed[name])
            return self.eng.fixed[name]
        if lo is not None:
            self.eng.assume(e >= lo)
        if hi is not None:
            self.eng.assume(e <= hi)
        return SymInt(e)

    def bv(self, name, bits):
        """A non-negative integer below 2**bits."""
        self._new(name)
        e = z3.BitVec(name, bits)
        self.decl[name] = ("v", e)
        return SymBV(z3.ZeroExt(1, e))

    def bool(self, name):
        self._new(name)
        if name in self.eng.fixed:
            e = z3.Bool(name)
            self.decl[name] = ("b", e)
            self.eng.assume(e if self.eng.fixed[name] else z3.Not(e))
            return bool(self.eng.fixed[name])
        e = z3.Bool(name)
        self.decl[name] = ("b", e)
        return SymBool(e)

    def str(self, name, alphabet, minlen, maxlen):
        from .symstr import mkstr

        self._new(name)
        ln = self.choose(name + ".len", list(range(minlen, maxlen + 1)))
        chars = []
        for k in range(ln):
            c = z3.BitVec(f"{name}.{k}", 8)
            self.eng.assume(z3.Or([c == ord(a) for a in alphabet]))
            chars.append(c)
        self.decl[name] = ("s", chars)
        return mkstr(chars)

    def choose(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        if name in self.decl:
            raise RuntimeError(f"symbol {name} declared twice")
        e = z3.Int(name)
        self.decl[name] = ("i", e)
        if name in self.eng.fixed:
            i = self.eng.fixed[name]
            self.eng.assume(e == i)
            return opts[i]
        if len(opts) == 1:
            self.eng.assume(e == 0)
            return opts[0]
        self.eng.assume(z3.And(e >= 0, e < len(opts)))
        return opts[self.eng.realise(e).as_long()]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.eng.assume(cond.e)
        elif not cond:
            self.eng.stop(Infeasible("assume(False)"))

    def check(self, cond, msg):
        self.eng.check(cond, msg, self)

    # logic helpers that do not fork
    def And(self, *xs):
        return mkbool(z3.And(*[_zb(x) for x in xs])) if xs else True

    def Or(self, *xs):
        return mkbool(z3.Or(*[_zb(x) for x in xs])) if xs else False

    def Not(self, x):
        return mkbool(z3.Not(_zb(x)))

    def ite(self, c, a, b):
        if not isinstance(c, Sym):
            return a if c else b
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(z3.If(_zb(c), _zb(a), _zb(b)))
        if isinstance(a, SymBV) or isinstance(b, SymBV):
            x, y = _ext(_zv(a), _zv(b))
            return mkbv(z3.If(_zb(c), x, y))
        za, zb = _zi(a), _zi(b)
        if za is None or zb is None:
            return a if c else b
        return mkint(z3.If(_zb(c), za, zb))

    def eq(self, a, b):
        """Structural equality without forking where possible."""
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a.keys()) != list(b.keys()) and set(a.keys()) != set(b.keys()):
                return False
            return self.And(*[self.eq(a[k], b[k]) for k in a])
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        r = a == b
        return r

    def concrete(self, x):
        if isinstance(x, (SymInt, SymBV)):
            return int(x)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, str) and isinstance(x, Sym):
            return x._real()
        return x

    def values(self, model=None):
        m = model or self.eng._need_model()
        out = {}
        for n, (k, e) in self.decl.items():
            if k == "s":
                out[n] = "".join(
                    chr(m.eval(c, model_completion=True).as_long()) for c in e
                )
            elif k == "b":
                out[n] = z3.is_true(m.eval(e, model_completion=True))
            else:
                out[n] = m.eval(e, model_completion=True).as_long()
        return out
