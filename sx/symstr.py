"""Symbolic strings: concrete length, symbolic 8-bit characters.

A SymStr *is a* str whose C-level content holds one private-use code point per symbolic character
(so that it survives logging), while every operation that Python code can observe is redefined to
work on the symbolic characters.  Anything not redefined here first forks over all its values.
"""
import z3

from . import engine as E
from .base import Sym

_PUA = 0xE000
_reg = {}  # code point -> z3 expr
_rev = {}
_known = {}  # id of a wrapper -> the wrapper (kept alive)
_byid = {}  # z3 id -> the one wrapper used for this expression
_eqs = {}  # pairs of character sequences -> their equality


def reset():
    """Called at the start of a path: the tables only depend on the expressions and may stay."""
    if len(_reg) > 5000 or len(_eqs) > 100_000:
        for t in (_reg, _rev, _known, _byid, _eqs):
            t.clear()


def _canon(e):
    """a one-character str, or the one wrapper of the simplified expression"""
    if id(e) in _known:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return chr(e.as_long())
    c = _byid.get(e.get_id())
    if c is None:
        c = _byid[e.get_id()] = _known[id(e)] = e
    return c


def _cp(e):
    k = id(e)
    c = _rev.get(k)
    if c is None:
        c = _PUA + len(_reg)
        if c > 0xF8FF:
            c = 0xF0000 + len(_reg)
        _reg[c] = e
        _rev[k] = c
    return chr(c)


def mkstr(chars):
    """chars: list of one-character str or z3 BitVec(8)."""
    out = []
    sym = False
    for c in chars:
        if not isinstance(c, str):
            c = _canon(c)
            sym = sym or not isinstance(c, str)
        out.append(c)
    if not sym:
        return "".join(out)
    s = str.__new__(SymStr, "".join([c if isinstance(c, str) else _cp(c) for c in out]))
    s.ch = out
    s.conc = None
    return s


def chars(x):
    if isinstance(x, SymStr):
        return x.ch
    return list(x)


def desym(x):
    """Recover a symbolic string from plain text that contains its place holders."""
    if type(x) is str and not x.isascii() and any(ord(c) in _reg for c in x):
        return mkstr([_reg.get(ord(c), c) for c in x])
    return x


def _ce(a, b):
    """z3 / bool equality of two characters"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if ord(b) > 255:
            return False
        return a == z3.BitVecVal(ord(b), 8)
    if a.eq(b):
        return True
    return a == b


def _alleq(xs, ys):
    if len(xs) != len(ys):
        return False
    k = (tuple([c if isinstance(c, str) else id(c) for c in xs]), tuple([c if isinstance(c, str) else id(c) for c in ys]))
    r = _eqs.get(k)
    if r is None:
        r = _eqs[k] = _alleq1(xs, ys)
    return r


def _alleq1(xs, ys):
    cs = []
    for a, b in zip(xs, ys):
        r = _ce(a, b)
        if r is False:
            return False
        if r is not True:
            cs.append(r)
    if not cs:
        return True
    return E.mkbool(z3.And(cs))


def _bv(c):
    return z3.BitVecVal(ord(c) & 0xFF, 8) if isinstance(c, str) else c


def realise(x):
    if isinstance(x, SymStr):
        return x._real()
    return x


class SymStr(str, Sym):
    # str subclasses with __dict__: keep .ch (characters) and .conc (realised value)

    def _real(self):
        if self.conc is None:
            self.conc = "".join(
                c if isinstance(c, str) else chr(E.CUR.realise(c).as_long()) for c in self.ch
            )
        return self.conc

    # -- identity ---------------------------------------------------------
    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return NotImplemented
        return _alleq(self.ch, chars(desym(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return E.mkbool(z3.Not(r.e)) if isinstance(r, E.SymBool) else not r

    def __hash__(self):
        return hash(self._real())

    def _cmp(self, o, strict, less):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.ch, chars(o)
        # lexicographic comparison, built from the end
        n = min(len(a), len(b))
        if less:
            base = len(a) < len(b) if strict else len(a) <= len(b)
        else:
            base = len(a) > len(b) if strict else len(a) >= len(b)
        r = z3.BoolVal(base)
        for i in range(n - 1, -1, -1):
            x, y = _bv(a[i]), _bv(b[i])
            lt = z3.ULT(x, y) if less else z3.UGT(x, y)
            r = z3.Or(lt, z3.And(x == y, r))
        return E.mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, True, True)

    def __le__(self, o):
        return self._cmp(o, False, True)

    def __gt__(self, o):
        return self._cmp(o, True, False)

    def __ge__(self, o):
        return self._cmp(o, False, False)

    def __bool__(self):
        return len(self.ch) > 0

    def __len__(self):
        return len(self.ch)

    def __str__(self):
        return self

    def __repr__(self):
        return "'" + str.__str__(self) + "'"

    def __format__(self, spec):
        if spec:
            return format(self._real(), spec)
        return str.__str__(self)

    def __iter__(self):
        for c in self.ch:
            yield mkstr([c])

    def __getitem__(self, k):
        r = self.ch[k]
        return mkstr(r if isinstance(k, slice) else [r])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.ch + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars(o) + self.ch)

    def __mul__(self, n):
        return mkstr(self.ch * int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._real() % o

    def __reduce__(self):
        return (str, (self._real(),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- searching --------------------------------------------------------
    def _at(self, sub, i):
        return _alleq(self.ch[i : i + len(sub)], sub)

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        return contains(self.ch, o)

    def startswith(self, p, start=0, end=None):
        ch = self.ch[start:end]
        if isinstance(p, tuple):
            return any(mkstr(ch).startswith(x) for x in p)
        p = chars(p)
        if len(p) > len(ch):
            return False
        return _alleq(ch[: len(p)], p)

    def endswith(self, p, start=0, end=None):
        ch = self.ch[start:end]
        if isinstance(p, tuple):
            return any(mkstr(ch).endswith(x) for x in p)
        p = chars(p)
        if len(p) > len(ch):
            return False
        return _alleq(ch[len(ch) - len(p) :], p)

    def find(self, sub, start=0, end=None):
        s = chars(sub)
        end = len(self.ch) if end is None else min(end, len(self.ch))
        for i in range(start, end - len(s) + 1):
            if self._at(s, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = chars(sub)
        end = len(self.ch) if end is None else min(end, len(self.ch))
        for i in range(end - len(s), start - 1, -1):
            if self._at(s, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        if a or not len(sub):
            return self._real().count(sub, *a)
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n, i = n + 1, i + len(sub)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._real().split(None, maxsplit)
        out, i = [], 0
        while maxsplit != 0:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mkstr(self.ch[i:j]))
            i = j + len(sep)
            maxsplit -= 1
        out.append(mkstr(self.ch[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._real().rsplit(None, maxsplit)
        out, e = [], len(self.ch)
        while maxsplit != 0:
            j = self.rfind(sep, 0, e)
            if j < 0:
                break
            out.insert(0, mkstr(self.ch[j + len(sep) : e]))
            e = j
            maxsplit -= 1
        out.insert(0, mkstr(self.ch[:e]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return (self, "", "")
        return (mkstr(self.ch[:j]), sep, mkstr(self.ch[j + len(sep) :]))

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return ("", "", self)
        return (mkstr(self.ch[:j]), sep, mkstr(self.ch[j + len(sep) :]))

    def removeprefix(self, p):
        return mkstr(self.ch[len(p) :]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self.ch[: len(self.ch) - len(p)]) if p and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        if not len(old):
            return self._real().replace(old, new, count)
        out, i, hits = [], 0, 0
        while count != 0:
            j = self.find(old, i)
            if j < 0:
                break
            out += self.ch[i:j] + chars(new)
            i, hits, count = j + len(old), hits + 1, count - 1
        return mkstr(out + self.ch[i:]) if hits else self

    def _isin(self, c, cset):
        if isinstance(c, str):
            return c in cset
        return bool(E.mkbool(z3.Or([c == z3.BitVecVal(ord(x), 8) for x in cset if ord(x) < 256])))

    def lstrip(self, cs=None):
        cs = " \t\n\r\x0b\x0c" if cs is None else realise(cs)
        i = 0
        while i < len(self.ch) and self._isin(self.ch[i], cs):
            i += 1
        return mkstr(self.ch[i:]) if i else self

    def rstrip(self, cs=None):
        cs = " \t\n\r\x0b\x0c" if cs is None else realise(cs)
        i = len(self.ch)
        while i > 0 and self._isin(self.ch[i - 1], cs):
            i -= 1
        return mkstr(self.ch[:i]) if i < len(self.ch) else self

    def strip(self, cs=None):
        a = self.lstrip(cs)
        return a.rstrip(cs)

    def join(self, xs):
        return sx_join(self, xs)


def _fallback(name):
    def m(self, *a, **k):
        return getattr(self._real(), name)(*[realise(x) for x in a], **k)

    m.__name__ = name
    return m


for _n in dir(str):
    if _n not in SymStr.__dict__ and not _n.startswith("__"):
        setattr(SymStr, _n, _fallback(_n))


def contains(ch, sub):
    """does the text made of these characters contain the other one"""
    s = chars(sub)
    rs = [_alleq(ch[i : i + len(s)], s) for i in range(len(ch) - len(s) + 1)]
    if any(r is True for r in rs):
        return True
    return bool(E.mkbool(z3.Or([E._zb(r) for r in rs]))) if rs else False


def sx_join(sep, xs):
    xs = [x for x in xs]
    if not isinstance(sep, SymStr) and not any(isinstance(x, SymStr) for x in xs):
        return str.join(sep, xs)
    out = []
    for i, x in enumerate(xs):
        if i:
            out += chars(sep)
        out += chars(x)
    return mkstr(out)


def sx_fstr(*parts):
    if not any(isinstance(p, SymStr) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out += chars(p)
    return mkstr(out)


def sx_fmt(v, conv, spec):
    if isinstance(v, SymStr) and not spec and conv in (-1, 115):
        return v
    if conv == 115:
        v = str(v)
    elif conv == 114:
        v = repr(v)
    elif conv == 97:
        v = ascii(v)
    r = format(v, spec)
    return desym(r)
