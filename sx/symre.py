"""A backtracking regular-expression and fnmatch matcher over symbolic strings.

The pattern must be concrete for `re` (it is parsed by the standard library's own parser); for
fnmatch either side may be symbolic.
"""
import fnmatch as _fn
import re as _re
import types
from re import _constants as C
from re import _parser as P

import z3

from . import engine as E
from .symstr import SymStr, chars, mkstr, realise


class Unsupported(Exception):
    pass


def _test(c, pred_z3, pred_py):
    if isinstance(c, str):
        return pred_py(c)
    return bool(E.mkbool(pred_z3(c)))


_CAT = {
    C.CATEGORY_DIGIT: lambda x: x.isdigit(),
    C.CATEGORY_NOT_DIGIT: lambda x: not x.isdigit(),
    C.CATEGORY_WORD: lambda x: x.isalnum() or x == "_",
    C.CATEGORY_NOT_WORD: lambda x: not (x.isalnum() or x == "_"),
    C.CATEGORY_SPACE: lambda x: x.isspace(),
    C.CATEGORY_NOT_SPACE: lambda x: not x.isspace(),
}


def _in_set(items):
    """set of accepted code points (0..127) of an IN node; larger code points are not supported"""
    neg = False
    acc = set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            acc.add(av)
        elif op is C.RANGE:
            acc.update(range(av[0], min(av[1], 127) + 1))
        elif op is C.CATEGORY:
            acc.update(i for i in range(128) if _CAT[av](chr(i)))
        else:
            raise Unsupported(str(op))
    if neg:
        acc = set(range(128)) - acc
    return acc


def _one(op, av, c, flags):
    if op is C.LITERAL:
        return _test(c, lambda z: z == av if av < 256 else z3.BoolVal(False), lambda s: ord(s) == av)
    if op is C.NOT_LITERAL:
        return _test(c, lambda z: z != av if av < 256 else z3.BoolVal(True), lambda s: ord(s) != av)
    if op is C.ANY:
        if flags & _re.DOTALL:
            return True
        return _test(c, lambda z: z != 10, lambda s: s != "\n")
    if op is C.IN:
        acc = _in_set(av)
        return _test(c, lambda z: z3.Or([z == a for a in sorted(acc)]), lambda s: ord(s) in acc)
    raise Unsupported(str(op))


_SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


def _m(seq, k, s, i, g, flags):
    """yield (position, groups) for seq[k:] matched at s[i:], in priority order"""
    if k == len(seq):
        yield i, g
        return
    op, av = seq[k]
    if op in _SINGLE:
        if i < len(s) and _one(op, av, s[i], flags):
            yield from _m(seq, k + 1, s, i + 1, g, flags)
    elif op is C.SUBPATTERN:
        gid, add, dele, sub = av
        if add or dele:
            raise Unsupported("inline flags")
        for j, g2 in _m(list(sub), 0, s, i, g, flags):
            if gid is not None:
                g2 = {**g2, gid: (i, j)}
            yield from _m(seq, k + 1, s, j, g2, flags)
    elif op is C.BRANCH:
        for alt in av[1]:
            for j, g2 in _m(list(alt), 0, s, i, g, flags):
                yield from _m(seq, k + 1, s, j, g2, flags)
    elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(n, i, g):
            if op is C.MIN_REPEAT and n >= lo:
                yield from _m(seq, k + 1, s, i, g, flags)
            if hi is C.MAXREPEAT or n < hi:
                for j, g2 in _m(sub, 0, s, i, g, flags):
                    if j == i and n >= lo:
                        continue
                    yield from rep(n + 1, j, g2)
            if op is C.MAX_REPEAT and n >= lo:
                yield from _m(seq, k + 1, s, i, g, flags)

        yield from rep(0, i, g)
    elif op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if flags & _re.MULTILINE:
                raise Unsupported("multiline")
            ok = i == 0
        elif av is C.AT_END_STRING:
            ok = i == len(s)
        elif av is C.AT_END:
            ok = i == len(s) or (i == len(s) - 1 and _one(C.LITERAL, 10, s[i], flags))
        else:
            raise Unsupported(str(av))
        if ok:
            yield from _m(seq, k + 1, s, i, g, flags)
    elif op is C.GROUPREF:
        if av not in g:
            return
        a, b = g[av]
        w = s[a:b]
        if i + len(w) <= len(s) and bool(mk_eq(s[i : i + len(w)], w)):
            yield from _m(seq, k + 1, s, i + len(w), g, flags)
    elif op is C.ASSERT and av[0] == 1:
        for _, g2 in _m(list(av[1]), 0, s, i, g, flags):
            yield from _m(seq, k + 1, s, i, g2, flags)
            return
    elif op is C.ASSERT_NOT and av[0] == 1:
        for _ in _m(list(av[1]), 0, s, i, g, flags):
            return
        yield from _m(seq, k + 1, s, i, g, flags)
    else:
        raise Unsupported(str(op))


def mk_eq(a, b):
    from .symstr import _alleq

    return _alleq(a, b)


class SymMatch:
    def __init__(self, s, start, end, groups, ngroups, names):
        self.string, self._s, self._e, self._g, self._n, self._names = s, start, end, groups, ngroups, names

    def _span(self, i):
        if isinstance(i, str):
            i = self._names[i]
        if i == 0:
            return (self._s, self._e)
        if not 0 < i <= self._n:
            raise IndexError("no such group")
        return self._g.get(i, (-1, -1))

    def _get(self, i):
        a, b = self._span(i)
        return None if a < 0 else self.string[a:b]

    def group(self, *idx):
        if not idx:
            return self._get(0)
        if len(idx) == 1:
            return self._get(idx[0])
        return tuple(self._get(i) for i in idx)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(
            default if self._get(i) is None else self._get(i) for i in range(1, self._n + 1)
        )

    def groupdict(self, default=None):
        return {n: default if self._get(i) is None else self._get(i) for n, i in self._names.items()}

    def start(self, i=0):
        return self._span(i)[0]

    def end(self, i=0):
        return self._span(i)[1]

    def span(self, i=0):
        return self._span(i)

    @property
    def lastindex(self):
        return max(self._g) if self._g else None


def _run(pattern, flags, s, mode):
    p = P.parse(pattern, flags)
    flags = p.state.flags
    if flags & (_re.IGNORECASE | _re.MULTILINE | _re.VERBOSE):
        raise Unsupported("flags")
    ch = s.ch
    seq = list(p)
    for i in range(len(ch) + 1 if mode == "search" else 1):
        for j, g in _m(seq, 0, ch, i, {}, flags):
            if mode == "fullmatch" and j != len(ch):
                continue
            return SymMatch(s, i, j, g, p.state.groups - 1, dict(p.state.groupdict))
    return None


class SymPattern:
    def __init__(self, real):
        self._real = real
        self.pattern, self.flags, self.groups = real.pattern, real.flags, real.groups
        self.groupindex = real.groupindex

    def _do(self, mode, s, a):
        if isinstance(s, SymStr) and not a:
            try:
                return _run(self.pattern, self.flags & ~_re.UNICODE, s, mode)
            except Unsupported:
                pass
        return getattr(self._real, mode)(realise(s), *a)

    def search(self, s, *a):
        return self._do("search", s, a)

    def match(self, s, *a):
        return self._do("match", s, a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, a)

    def __getattr__(self, n):
        f = getattr(self._real, n)
        if callable(f):
            return lambda *a, **k: f(*[realise(x) for x in a], **k)
        return f


def _mod():
    m = types.ModuleType("re")
    for n in dir(_re):
        if not n.startswith("__"):
            setattr(m, n, getattr(_re, n))

    def comp(p, flags=0):
        if isinstance(p, SymPattern):
            return p
        return SymPattern(_re.compile(realise(p), flags))

    m.compile = comp
    for name in ("search", "match", "fullmatch", "split", "findall", "finditer"):
        def f(p, s, *a, _n=name, flags=0, **k):
            return getattr(comp(p, flags), _n)(s, *a, **k)

        setattr(m, name, f)

    def sub(p, r, s, *a, **k):
        return _re.sub(realise(p), realise(r), realise(s), *a, **k)

    m.sub = sub
    return m


re_mod = _mod()


def _fnm(s, p, i, j):
    while j < len(p):
        c = p[j]
        if _test(c, lambda z: z == 42, lambda x: x == "*"):
            return any(_fnm(s, p, k, j + 1) for k in range(i, len(s) + 1))
        if _test(c, lambda z: z == 91, lambda x: x == "["):
            raise Unsupported("[")
        if i >= len(s):
            return False
        if not _test(c, lambda z: z == 63, lambda x: x == "?"):
            if not bool(mk_eq([s[i]], [c])):
                return False
        i, j = i + 1, j + 1
    return i == len(s)


def sx_fnmatch(name, pat):
    if isinstance(name, SymStr) or isinstance(pat, SymStr):
        try:
            return _fnm(chars(name), chars(pat), 0, 0)
        except Unsupported:
            pass
    return _fn.fnmatchcase(realise(name), realise(pat))


def _fnmod():
    m = types.ModuleType("fnmatch")
    m.translate = lambda p: _fn.translate(realise(p))
    m.fnmatch = m.fnmatchcase = sx_fnmatch
    m.filter = lambda names, pat: [n for n in names if sx_fnmatch(n, pat)]
    m.filterfalse = lambda names, pat: [n for n in names if not sx_fnmatch(n, pat)]
    return m


fnmatch_mod = _fnmod()
