"""Dictionaries and sets for instrumented code that accept symbolic keys.

Without a symbolic key they are the plain ones.  With the first symbolic key the entries move into an association
list, and keys are found by comparing (which forks) instead of by hash (which would enumerate all values).
Keys are symbolic when they are, or are tuples that hold, symbolic text or integers.
"""
import builtins

import z3

from . import engine as E
from .base import Inconclusive
from .symstr import SymStr

_dict, _set = builtins.dict, builtins.set
_MISSING = object()
_KINDS = (SymStr, E.SymInt, E.SymBV)


def issym(k):
    if isinstance(k, _KINDS):
        return True
    return type(k) is tuple and any(issym(x) for x in k)


class _Poison:
    """Held by the native storage in symbolic mode: C code that bypasses the methods below ends here."""

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if self is o:
            return True
        E.CUR.stop(Inconclusive("native access to a symbolic dictionary"))

    def _no(self, *a):
        E.CUR.stop(Inconclusive("native access to a symbolic dictionary"))

    __str__ = __repr__ = __lt__ = __iter__ = __bool__ = __len__ = _no


_poison = _Poison()


def same(a, b):
    """equality of two keys as a plain or symbolic truth value"""
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple and (issym(a) or issym(b)):
        if len(a) != len(b):
            return False
        rs = [same(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        rs = [E._zb(r) for r in rs if r is not True]
        return E.mkbool(z3.And(rs)) if rs else True
    if isinstance(b, _KINDS) and not isinstance(a, _KINDS):
        a, b = b, a
    return a == b


def has(keys, k):
    """is the key one of these"""
    rs = [same(x, k) for x in keys]
    if any(r is True for r in rs):
        return True
    rs = [r for r in rs if r is not False and r is not NotImplemented]
    if not rs:
        return False
    return bool(E.mkbool(z3.Or([E._zb(r) for r in rs])))


def find(keys, k):
    """position of the key, -1 without it"""
    for i, x in enumerate(keys):
        if x is k:
            return i
    for i, x in enumerate(keys):
        if same(x, k):
            return i
    return -1


class _MD(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _dict) if cls is SDict else type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, o):
        return issubclass(o, _dict) if cls is SDict else type.__subclasscheck__(cls, o)


class _View:
    def __init__(self, d, f):
        self.d, self.f = d, f

    def __iter__(self):
        n = len(self.d.al)
        for k, v in list(self.d.al):
            if len(self.d.al) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield self.f(k, v)

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        return len(self.d.al)

    def __contains__(self, x):
        return has(list(self), x)

    def __eq__(self, o):
        return len(self) == len(o) and all(x in self for x in o)

    def _s(self, o, op):
        return getattr(SSet(self), op)(o)

    def __and__(self, o):
        return self._s(o, "__and__")

    def __or__(self, o):
        return self._s(o, "__or__")

    def __sub__(self, o):
        return self._s(o, "__sub__")

    def __xor__(self, o):
        return self._s(o, "__xor__")

    __hash__ = None


class SDict(_dict, metaclass=_MD):
    __slots__ = ("al",)

    def __new__(cls, *a, **k):
        self = _dict.__new__(cls)
        self.al = None
        return self

    def __init__(self, *a, **k):
        if len(a) > 1:
            raise TypeError(f"dict expected at most 1 argument, got {len(a)}")
        self.update(*a, **k)

    def _sym(self):
        self.al = [[k, v] for k, v in _dict.items(self)]
        _dict.clear(self)
        _dict.__setitem__(self, _poison, _poison)

    def _at(self, k):
        return find([x[0] for x in self.al], k)

    # -- single entries -----------------------------------------------------
    def __setitem__(self, k, v):
        if self.al is None:
            if not issym(k):
                return _dict.__setitem__(self, k, v)
            self._sym()
        if not issym(k):
            hash(k)
        i = self._at(k)
        if i < 0:
            self.al.append([k, v])
        else:
            self.al[i][1] = v

    def _look(self, k, d):
        if self.al is None:
            if not issym(k):
                return _dict.get(self, k, d)
            ks = list(_dict.keys(self))
            i = find(ks, k)
            return _dict.__getitem__(self, ks[i]) if i >= 0 else d
        if not issym(k):
            hash(k)
        i = self._at(k)
        return self.al[i][1] if i >= 0 else d

    def __getitem__(self, k):
        r = self._look(k, _MISSING)
        if r is _MISSING:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return r

    def get(self, k, d=None):
        return self._look(k, d)

    def __contains__(self, k):
        if self.al is None:
            if not issym(k):
                return _dict.__contains__(self, k)
            return has(list(_dict.keys(self)), k)
        if not issym(k):
            hash(k)
        return has([x[0] for x in self.al], k)

    def pop(self, k, *d):
        if self.al is None:
            if not issym(k):
                return _dict.pop(self, k, *d)
            ks = list(_dict.keys(self))
            i = find(ks, k)
            if i >= 0:
                return _dict.pop(self, ks[i])
        else:
            i = self._at(k)
            if i >= 0:
                return self.al.pop(i)[1]
        if d:
            return d[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def setdefault(self, k, d=None):
        r = self._look(k, _MISSING)
        if r is _MISSING:
            self[k] = r = d
        return r

    # -- everything -----------------------------------------------------------
    def update(self, *a, **k):
        for o in a:
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, v in o:
                    self[x] = v
        for x, v in _dict.items(k):
            self[x] = v

    def __iter__(self):
        if self.al is None:
            return _dict.__iter__(self)
        return iter(_View(self, lambda k, v: k))

    def __reversed__(self):
        if self.al is None:
            return _dict.__reversed__(self)
        return reversed(_View(self, lambda k, v: k))

    def keys(self):
        return _dict.keys(self) if self.al is None else _View(self, lambda k, v: k)

    def values(self):
        return _dict.values(self) if self.al is None else _View(self, lambda k, v: v)

    def items(self):
        return _dict.items(self) if self.al is None else _View(self, lambda k, v: (k, v))

    def __len__(self):
        return _dict.__len__(self) if self.al is None else len(self.al)

    def clear(self):
        _dict.clear(self)
        self.al = None

    def popitem(self):
        if self.al is None:
            return _dict.popitem(self)
        if not self.al:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self.al.pop())

    def copy(self):
        return type(self)(self.items()) if type(self) is not SDict else SDict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = type(self)()
        memo[id(self)] = r
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __reduce_ex__(self, p):
        if self.al is None:
            return (_dict, (_dict(self),)) if type(self) is SDict else (type(self), (), None, None, iter(self.items()))
        E.CUR.stop(Inconclusive("native copy of a symbolic dictionary"))

    def __eq__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        if self.al is None and getattr(o, "al", None) is None:
            return _dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        if getattr(o, "al", None) is None and type(o) is not SDict:
            o = SDict(o)
        for k, v in self.items():
            w = o._look(k, _MISSING)
            if w is _MISSING or not (w is v or w == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        r = SDict(self.items())
        r.update(o)
        return r

    def __ror__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        r = SDict(o.items())
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        if self.al is None:
            return _dict.__repr__(self)
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.al) + "}"

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            r[k] = v
        return r


class _MS(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _set) if cls is SSet else type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, o):
        return issubclass(o, _set) if cls is SSet else type.__subclasscheck__(cls, o)


class SSet(_set, metaclass=_MS):
    __slots__ = ("al",)

    def __new__(cls, *a):
        self = _set.__new__(cls)
        self.al = None
        return self

    def __init__(self, *a):
        if len(a) > 1:
            raise TypeError(f"set expected at most 1 argument, got {len(a)}")
        _set.__init__(self)
        for x in a[0] if a else ():
            self.add(x)

    def _sym(self):
        self.al = list(_set.__iter__(self))
        _set.clear(self)
        _set.add(self, _poison)

    def add(self, k):
        if self.al is None:
            if not issym(k):
                return _set.add(self, k)
            self._sym()
        if not issym(k):
            hash(k)
        if find(self.al, k) < 0:
            self.al.append(k)

    def _els(self):
        return list(_set.__iter__(self)) if self.al is None else list(self.al)

    def __contains__(self, k):
        if self.al is None and not issym(k):
            return _set.__contains__(self, k)
        return has(self._els(), k)

    def __iter__(self):
        return _set.__iter__(self) if self.al is None else iter(list(self.al))

    def __len__(self):
        return _set.__len__(self) if self.al is None else len(self.al)

    def discard(self, k):
        if self.al is None and not issym(k):
            return _set.discard(self, k)
        els = self._els()
        i = find(els, k)
        if i >= 0:
            if self.al is None:
                _set.discard(self, els[i])
            else:
                self.al.pop(i)

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def pop(self):
        if self.al is None:
            return _set.pop(self)
        if not self.al:
            raise KeyError("pop from an empty set")
        return self.al.pop(0)

    def clear(self):
        _set.clear(self)
        self.al = None

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return SSet([copy.deepcopy(x, memo) for x in self])

    def __reduce_ex__(self, p):
        if self.al is None:
            return (_set, (list(self),))
        E.CUR.stop(Inconclusive("native copy of a symbolic set"))

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            o = SSet(o)
            r = SSet([x for x in r if x in o])
        return SSet(r)

    def difference(self, *os):
        r = self
        for o in os:
            o = SSet(o)
            r = SSet([x for x in r if x not in o])
        return SSet(r)

    def symmetric_difference(self, o):
        o = SSet(o)
        return SSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def _put(self, r):
        r = list(r)
        self.clear()
        self.update(r)

    def intersection_update(self, *os):
        self._put(self.intersection(*os))

    def difference_update(self, *os):
        self._put(self.difference(*os))

    def symmetric_difference_update(self, o):
        self._put(self.symmetric_difference(o))

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _bin(name, rev=False):  # noqa: N805
        def f(self, o):
            if not isinstance(o, (_set, frozenset, type({}.keys()), _View)):
                return NotImplemented
            a, b = (SSet(o), self) if rev else (self, o)
            return getattr(a, name)(b)

        return f

    __or__ = _bin("union")
    __and__ = _bin("intersection")
    __sub__ = _bin("difference")
    __xor__ = _bin("symmetric_difference")
    __ror__ = _bin("union", True)
    __rand__ = _bin("intersection", True)
    __rsub__ = _bin("difference", True)
    __rxor__ = _bin("symmetric_difference", True)
    __le__ = _bin("issubset")
    __ge__ = _bin("issuperset")

    def _ibin(name):  # noqa: N805
        def f(self, o):
            if not isinstance(o, (_set, frozenset, type({}.keys()), _View)):
                return NotImplemented
            getattr(self, name)(o)
            return self

        return f

    __ior__ = _ibin("update")
    __iand__ = _ibin("intersection_update")
    __isub__ = _ibin("difference_update")
    __ixor__ = _ibin("symmetric_difference_update")

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (_set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}" if len(self) else "set()"


for _c, _n in ((SDict, "dict"), (SSet, "set")):
    _c.__name__ = _c.__qualname__ = _n


def sx_dict(items):
    """a dictionary display or comprehension: tuples of a key and a value, or of one mapping (`**m`)"""
    r = SDict()
    for t in items:
        if len(t) == 1:
            r.update(t[0])
        else:
            r[t[0]] = t[1]
    return r


def sx_set(items):
    return SSet(items)


def sx_getitem(o, k):
    """o[k] where a plain dictionary meets a symbolic key"""
    if isinstance(k, _KINDS) and type(o) is _dict:
        ks = list(o)
        i = find(ks, k)
        if i < 0:
            raise KeyError(k)
        return o[ks[i]]
    return o[k]


def sx_get(o, *a, **kw):
    """o.get(k[, default]) likewise"""
    if type(o) is _dict and a and isinstance(a[0], _KINDS) and not kw:
        ks = list(o)
        i = find(ks, a[0])
        return o[ks[i]] if i >= 0 else (a[1] if len(a) > 1 else None)
    return o.get(*a, **kw)
