"""Import hook: loads /repo/toffee (and the harnesses) from source with a light AST rewrite so that
symbolic values survive C-level builtins.

 * f-strings and str.join build symbolic strings when a part is symbolic;
 * `in` knows symbolic text in plain text; dictionaries and sets accept symbolic keys (symdict.py);
 * `is True`/`is False` decide symbolic truth values, type() of a symbolic value is the plain type;
 * getattr/setattr/hasattr/delattr, range, isinstance, re and fnmatch accept symbolic arguments.

Nothing else is touched: the code that runs is the code in /repo, regenerated on every run.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import engine as E
from .symdict import SDict, SSet, has, issym, sx_dict, sx_get, sx_getitem, sx_set
from .symre import fnmatch_mod, re_mod
from .symstr import SymStr, contains, realise, sx_fmt, sx_fstr, sx_join

REPO = os.environ.get("SX_REPO", "/repo")


def _call(name, node, *args):
    return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), []), node)


class _Rw(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(
                    ast.Call(
                        ast.Name("__sx_fmt", ast.Load()), [v.value, ast.Constant(v.conversion), spec], []
                    )
                )
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name("__sx_fstr", ast.Load()), parts, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join":
            return ast.copy_location(
                ast.Call(ast.Name("__sx_join", ast.Load()), [f.value] + node.args, node.keywords), node
            )
        if isinstance(f, ast.Attribute) and f.attr == "get":
            return ast.copy_location(
                ast.Call(ast.Name("__sx_get", ast.Load()), [f.value] + node.args, node.keywords), node
            )
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__sx_in", ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None:
                return node
            c = ast.Call(ast.Name("__sx_is", ast.Load()), [node.left, r], [])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return _call("__sx_dict", node, ast.List(items, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call("__sx_dict", node, ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _call("__sx_set", node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("__sx_set", node, ast.ListComp(node.elt, node.generators))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, (ast.Constant, ast.Slice, ast.Tuple, ast.UnaryOp)):
            return node
        return _call("__sx_getitem", node, node.value, node.slice)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == "str" and isinstance(node.ctx, ast.Load) and not node.attr.startswith("_") and node.attr != "maketrans":
            return _call("__sx_strm", node, node.value, ast.Constant(node.attr))
        return node

    # names used inside classes are mangled when they start with two underscores and do not end
    # with two; the injected names therefore end in two underscores (see _N)


_N = {"__sx_fmt": "__sx_fmt__", "__sx_fstr": "__sx_fstr__", "__sx_join": "__sx_join__", "__sx_in": "__sx_in__",
      "__sx_is": "__sx_is__", "__sx_dict": "__sx_dict__", "__sx_set": "__sx_set__", "__sx_getitem": "__sx_getitem__",
      "__sx_get": "__sx_get__", "__sx_strm": "__sx_strm__"}


class _Ren(ast.NodeTransformer):
    def visit_Name(self, node):
        if node.id in _N:
            node.id = _N[node.id]
        return node


def _join(obj, *a, **k):
    if isinstance(obj, str) and len(a) == 1 and not k:
        return sx_join(obj, a[0])
    return obj.join(*a, **k)


def sx_strm(cls, n):
    """str.lower and the like, of plain and symbolic text"""
    if cls is not str:
        return getattr(cls, n)
    if n == "join":
        return _join

    def method(s, *a, **k):
        if not builtins.isinstance(s, str):
            return getattr(str, n)(s, *a, **k)
        return getattr(s, n)(*a, **k)

    return method


def sx_in(x, c):
    if isinstance(x, SymStr) and type(c) is str:
        return contains(list(c), x)
    if type(c) in (dict, set, frozenset) and issym(x):
        return has(list(c), x)
    return x in c


def sx_is(a, b):
    if a is b:
        return True
    if builtins.isinstance(a, E.SymBool) and builtins.isinstance(b, (bool, E.SymBool)):
        return bool(a == b)
    if builtins.isinstance(b, E.SymBool) and builtins.isinstance(a, bool):
        return bool(b == a)
    if a is sx_type or b is sx_type:
        return (type if a is sx_type else a) is (type if b is sx_type else b)
    return False


def sx_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        if builtins.isinstance(x, E.SymBool):
            return bool
        if builtins.isinstance(x, SymStr):
            return str
        if builtins.isinstance(x, E.Sym):
            return int
        t = type(x)
        return SDict if t is dict else SSet if t is set else t
    return type(*a, **k)


_NO = object()


def sx_getattr(o, n, *d):
    if type(n) is not str and isinstance(n, SymStr):
        h = getattr(type(o), "__sx_getattr__", None)
        if h is not None:
            return h(o, n, *d)
        n = realise(n)
    return getattr(o, n, *d)


def sx_hasattr(o, n):
    if isinstance(n, SymStr):
        h = getattr(type(o), "__sx_getattr__", None)
        if h is not None:
            return h(o, n, _NO) is not _NO
        n = realise(n)
    return hasattr(o, n)


def sx_setattr(o, n, v):
    return setattr(o, realise(n), v)


def sx_delattr(o, n):
    return delattr(o, realise(n))


class SxRange:
    """range() whose membership test does not fork once per element."""

    def __init__(self, *a):
        self.r = builtins.range(*[int(x) if isinstance(x, E.Sym) else x for x in a])

    def __contains__(self, x):
        if isinstance(x, (E.SymInt, E.SymBV)) and self.r.step == 1:
            if not len(self.r):
                return False
            return bool(E.CUR_and(x >= self.r.start, x < self.r.stop))
        return x in self.r

    def __iter__(self):
        return iter(self.r)

    def __reversed__(self):
        return reversed(self.r)

    def __len__(self):
        return len(self.r)

    def __getitem__(self, k):
        return self.r[k]

    def __eq__(self, o):
        return self.r == (o.r if isinstance(o, SxRange) else o)

    def __hash__(self):
        return hash(self.r)

    def __getattr__(self, n):
        return getattr(self.r, n)


_SYM = frozenset((E.Sym, E.SymBool, E.SymInt, E.SymBV))


def _flat(c):
    if isinstance(c, tuple):
        return [x for y in c for x in _flat(y)]
    if builtins.isinstance(c, types.UnionType):
        return [x for y in c.__args__ for x in _flat(y)]
    return [type if c is sx_type else c]


def sx_isinstance(o, c, _is=isinstance, _type=type):
    if _type(o) not in _SYM and c is not sx_type and _type(c) is _type:
        return _is(o, c)
    if builtins.isinstance(o, E.Sym) and not builtins.isinstance(o, SymStr):
        cs = _flat(c)
        if any(builtins.isinstance(x, type) and issubclass(x, E.Sym) and builtins.isinstance(o, x) for x in cs):
            return True
        if builtins.isinstance(o, E.SymBool):
            return bool in cs or int in cs or E.SymBool in cs or object in cs
        return int in cs or type(o) in cs or object in cs
    return builtins.isinstance(o, tuple(_flat(c)))


def inject(ns):
    ns["__sx_fmt__"] = sx_fmt
    ns["__sx_fstr__"] = sx_fstr
    ns["__sx_join__"] = _join
    ns["__sx_in__"] = sx_in
    ns["__sx_is__"] = sx_is
    ns["type"] = sx_type
    ns["getattr"] = sx_getattr
    ns["setattr"] = sx_setattr
    ns["hasattr"] = sx_hasattr
    ns["delattr"] = sx_delattr
    ns["isinstance"] = sx_isinstance
    ns["range"] = SxRange
    ns["__sx_dict__"] = sx_dict
    ns["__sx_set__"] = sx_set
    ns["__sx_getitem__"] = sx_getitem
    ns["__sx_get__"] = sx_get
    ns["__sx_strm__"] = sx_strm
    ns["dict"] = SDict
    ns["set"] = SSet


def transform(src, path):
    tree = ast.parse(src, path)
    tree = _Ren().visit(_Rw().visit(tree))
    # `import re` / `import fnmatch` keep their meaning but bind the symbolic versions
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


_REPLACE = {"re": re_mod, "fnmatch": fnmatch_mod}


def _sx_import(name, g=None, l=None, fromlist=(), level=0):
    if level == 0 and name in _REPLACE:
        return _REPLACE[name]
    return builtins.__import__(name, g, l, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path)
        ns = module.__dict__
        inject(ns)
        b = dict(builtins.__dict__)
        b["__import__"] = _sx_import
        ns["__builtins__"] = b
        exec(code, ns)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory holding it

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            f, pkg = base + ".py", False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, _Loader(f, pkg), origin=f, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        spec.cached = None
        return spec


def install():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    roots = {"toffee": REPO, "checks": here, "bundle_code_gen": os.path.join(REPO, "scripts"), "bundle_code_intel_gen": os.path.join(REPO, "scripts"), "env": os.path.join(REPO, "example", "adder")}
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
    if REPO not in sys.path:
        sys.path.append(REPO)
