"""Loads the package's current Python source with symbolic-aware semantics.

Only operators that native Python would evaluate on concrete objects are
rewritten (comparison, containment, formatting, method calls on text, set/dict
displays); control flow is the program's own.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import conts, core, rx, strs, vio
from .core import EngineError, SymBool, Unsupported, boolf, fnot, mkbool
from .iset import ISet
from .strs import (LazyStr, SymBytes, SymEnum, SymInt, SymStr, decide, deep_sym, fmt_mod, has_sym, is_str, is_sym, mk,
                   sx_eq, sx_fstr, sx_in, sx_ne, sx_notin, sx_repr, sx_w, t_eq, terms, to_str)

STRM = {m for m in dir(str) if not m.startswith("__")}
NAMES = {"str": "_sx_str", "int": "_sx_int", "float": "_sx_float", "complex": "_sx_complex", "repr": "_sx_repr", "set": "_sx_set",
         "dict": "_sx_dict", "frozenset": "_sx_fset", "hash": "_sx_hash", "type": "_sx_type", "ord": "_sx_ord",
         "chr": "_sx_chr", "print": "_sx_print", "open": "_sx_open", "bytes": "_sx_bytes", "bool": "_sx_bool",
         "ascii": "_sx_ascii", "format": "_sx_format", "len": "_sx_len"}
UNREP = {"sx_str": str, "sx_int": int, "sx_float": float, "sx_bool": bool, "sx_complex": complex, "sx_bytes": bytes}
NOREP_CALLEES = {"isinstance", "issubclass", "cast", "TypeVar", "NewType", "NamedTuple", "namedtuple", "super"}


class T(ast.NodeTransformer):
    def __init__(self):
        self.ntmp = 0
        self.cls = []

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    # names in value positions
    def rep_name(self, n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            return ast.copy_location(ast.Name(NAMES[n.id], ast.Load()), n)
        return n

    def visit_Call(self, node):
        f = node.func
        callee = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        self.generic_visit(node)
        if callee not in NOREP_CALLEES:
            node.args = [self.rep_name(a) for a in node.args]
            for k in node.keywords:
                k.value = self.rep_name(k.value)
        node.func = self.rep_name(node.func)
        if callee == "isinstance":
            node.func = ast.Name("_sx_isinstance", ast.Load())
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        m = {ast.Eq: "_sx_eq", ast.NotEq: "_sx_ne", ast.In: "_sx_in", ast.NotIn: "_sx_notin"}
        if not any(type(o) in m for o in node.ops):
            return node
        if len(node.ops) == 1:
            return ast.copy_location(self.call(m[type(node.ops[0])], node.left, node.comparators[0]), node)
        parts = []
        left = node.left
        for i, (o, r) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1 and not isinstance(r, ast.Constant):
                self.ntmp += 1
                nm = "_sx_t%d" % self.ntmp
                rr = ast.NamedExpr(ast.Name(nm, ast.Store()), r)
                nxt = ast.Name(nm, ast.Load())
            else:
                rr = nxt = r
            if type(o) in m:
                parts.append(self.call(m[type(o)], left, rr))
            else:
                parts.append(ast.Compare(left, [o], [rr]))
            left = nxt
        return ast.copy_location(ast.BoolOp(ast.And(), parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("_sx_mod", node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self.call("_sx_not", node.operand), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id in ("dict", "set", "frozenset"):
            node.value = self.rep_name(node.value)
        if isinstance(node.ctx, ast.Load) and node.attr in STRM:
            node.value = self.call("_sx_w", node.value)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                conv = chr(v.conversion) if v.conversion != -1 else ""
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(self.call("_sx_fstr", *parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("_sx_set", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("_sx_set", ast.ListComp(node.elt, node.generators)), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self.call("_sx_dict", ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Tuple([ast.Constant(None), v], ast.Load()))
                else:
                    parts.append(ast.Tuple([ast.Tuple([k], ast.Load()), v], ast.Load()))
            return ast.copy_location(self.call("_sx_dictm", ast.List(parts, ast.Load())), node)
        items = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, [self.rep_name(v) for v in node.values])]
        return ast.copy_location(self.call("_sx_dict", ast.List(items, ast.Load())), node)

    def _tick(self, node):
        node.body.insert(0, ast.Expr(self.call("_sx_tick")))

    def visit_While(self, node):
        self.generic_visit(node)
        self._tick(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        self._tick(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = ast.Name("_sx_BaseExc", ast.Load())
        return node

    def visit_ClassDef(self, node):
        bases = node.bases
        node.bases = []
        self.cls.append(True)
        self.generic_visit(node)
        self.cls.pop()
        node.bases = bases
        return node

    def _fn(self, node):
        self.cls.append(False)
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.generic_visit(node)
        self.cls.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if self.cls and self.cls[-1]:
            if node.value is not None:
                node.value = self.visit(node.value)
            return node  # dataclass / NamedTuple field
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        r = ast.Assign([node.target], self.visit(node.value))
        return ast.copy_location(r, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.body = self.rep_name(node.body)
        node.orelse = self.rep_name(node.orelse)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values = [self.rep_name(v) for v in node.values]
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        node.value = self.rep_name(node.value)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        node.elts = [self.rep_name(v) for v in node.elts]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, ast.Tuple):
            node.iter.elts = [self.rep_name(v) for v in node.iter.elts]
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None:
            node.value = self.rep_name(node.value)
        return node

    def visit_arguments(self, node):
        self.generic_visit(node)
        node.defaults = [self.rep_name(v) for v in node.defaults]
        node.kw_defaults = [v and self.rep_name(v) for v in node.kw_defaults]
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    # annotations are never evaluated; one merged __future__ import comes first
    names = {"annotations"}
    rest = []
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.module == "__future__":
            names.update(x.name for x in n.names)
        else:
            rest.append(n)
    k = 1 if rest and isinstance(rest[0], ast.Expr) and isinstance(rest[0].value, ast.Constant) else 0
    fut = ast.ImportFrom("__future__", [ast.alias(x) for x in sorted(names)], 0)
    tree.body = rest[:k] + [fut] + rest[k:]
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ---------------------------------------------------------------- runtime helpers
def sx_isinstance(x, c):
    if type(c) is tuple:
        return any(sx_isinstance(x, y) for y in c)
    if isinstance(c, types.UnionType):
        return any(sx_isinstance(x, y) for y in c.__args__)
    if type(c) is types.FunctionType:
        c = UNREP.get(c.__name__, c)
    t = type(x)
    if t is SymStr or t is LazyStr or t is SymEnum:
        return c is str or c is object or getattr(c, "__name__", "") in ("Sequence", "Iterable", "Collection", "Sized", "Hashable", "Container", "Reversible")
    if t is SymBool:
        return c in (bool, int, object)
    if t is SymInt:
        return c in (int, object)
    if t is LazyNum:
        return c in (x.kind, object)
    if isinstance(c, type):
        if c is set or c is conts.SymSet:
            return t is conts.SymSet or isinstance(x, set)
        if c is frozenset or c is conts.FrozenSet:
            return t is conts.FrozenSet or isinstance(x, frozenset)
        if c is dict:
            return isinstance(x, (conts.SymDict, dict))
        if t is conts.SymDict or isinstance(x, conts.SymDict):
            if getattr(c, "__name__", "") in ("Mapping", "MutableMapping"):
                return True
    return isinstance(x, c)


def sx_not(x):
    t = type(x)
    if t is SymBool:
        return mkbool(fnot(x.f))
    return not x


class _StrType(type):
    def __instancecheck__(cls, o):
        return is_str(o)

    def __getattr__(cls, name):
        return getattr(strs._STRCLS, name)


def sx_str(*a, **k):
    if not a:
        return ""
    if len(a) > 1 or k:
        x = a[0]
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(a[0])


def sx_int(*a, **k):
    if a and is_sym(a[0]):
        return int_of(a[0], *a[1:], **k)
    if a and type(a[0]) in (SymInt, SymBool):
        return int(a[0])
    return int(*a, **k)


def int_of(s, base=10):
    s = strs.lift(s if not isinstance(s, LazyStr) else s.force()).strip()
    t = terms(s)
    if base != 10:
        if base != 16:
            raise Unsupported("int() with a base")
        n = 0
        for x in t:
            for c in "0123456789abcdefABCDEF":
                if decide(t_eq(x, ord(c))):
                    n = n * 16 + int(c, 16)
                    break
            else:
                raise Unsupported("int() with a base")
        return n
    D = strs.uset("isdecimal")
    # grammar: sign? digit (_? digit)*
    i = 0
    sign = 1
    if t and decide(t_eq(t[0], 0x2D)):
        sign, i = -1, 1
    elif t and decide(t_eq(t[0], 0x2B)):
        i = 1
    digs = []
    prev_us = True
    for x in t[i:]:
        if decide(strs.t_in(x, D)):
            digs.append(x)
            prev_us = False
        elif not prev_us and decide(t_eq(x, 0x5F)):
            prev_us = True
        else:
            raise ValueError("invalid literal for int() with base 10")
    if prev_us:
        raise ValueError("invalid literal for int() with base 10")
    def value():
        v = 0
        for x in digs:
            v = v * 10 + digit_value(x)
        return sign * v

    return LazyNum(value, int)


class LazyNum:
    """a number whose value is only computed (by forking on digits) when used"""

    __hash__ = None

    def __init__(self, thunk, kind):
        self.thunk = thunk
        self.kind = kind
        self.v = None

    def f(self):
        if self.v is None:
            self.v = self.thunk()
        return self.v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.f(), n)


def _lazy_ops():
    for n in ("eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv mod rmod pow neg pos abs int float "
              "index bool round and or").split():
        def op(self, *a, _n="__%s__" % n):
            a = [x.f() if isinstance(x, LazyNum) else x for x in a]
            return getattr(self.f(), _n)(*a)

        setattr(LazyNum, "__%s__" % n, op)


_lazy_ops()
INFNAN = "[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]"
_FLOAT = _COMPLEX = None


def sx_complex(*a, **k):
    global _COMPLEX
    if len(a) != 1 or k or not is_sym(a[0]):
        return complex(*a, **k)
    s = a[0].force() if isinstance(a[0], LazyStr) else a[0]
    if not is_sym(s):
        return complex(s)
    if _COMPLEX is None:
        import re as _re

        u = r"\d+(?:_\d+)*"
        f = r"(?:(?:%s(?:\.(?:%s)?)?|\.%s)(?:[eE][+-]?%s)?|%s)" % (u, u, u, u, INFNAN)
        c = r"[+-]?%s|[+-]?(?:%s)?[jJ]|[+-]?%s[+-](?:%s)?[jJ]" % (f, f, f, f)
        _COMPLEX = rx.make_module(_re).compile(r"\s*(?:\(\s*(?:%s)\s*\)|(?:%s))\s*" % (c, c))
    if not _COMPLEX.fullmatch(s):
        raise ValueError("complex() arg is a malformed string")

    def value():
        raise Unsupported("value of a symbolic complex number")

    return LazyNum(value, complex)


def float_of(s):
    global _FLOAT
    import re as _re

    if isinstance(s, LazyStr):
        s = s.force()
    if _FLOAT is None:
        _FLOAT = rx.make_module(_re).compile(
            r"\s*[+-]?((\d(_?\d)*\.?(\d(_?\d)*)?|\.\d(_?\d)*)([eE][+-]?\d(_?\d)*)?|%s)\s*" % INFNAN)
    if is_sym(s) and not _FLOAT.fullmatch(s):
        raise ValueError("could not convert string to float")

    def value():
        raise Unsupported("value of a symbolic float")

    return LazyNum(value, float)


_DIG = None


def digit_value(x):
    global _DIG
    if _DIG is None:
        import unicodedata

        acc = {}
        D = strs.uset("isdecimal")
        for lo, hi in D.ranges():
            for c in range(lo, hi + 1):
                acc.setdefault(unicodedata.decimal(chr(c)), []).append(c)
        _DIG = {k: ISet.from_iter(v) for k, v in acc.items()}
    for v, s in _DIG.items():
        if decide(strs.t_in(x, s)):
            return v
    raise core.Infeasible


def sx_float(*a):
    if a and is_sym(a[0]):
        return float_of(a[0])
    if a and type(a[0]) in (SymInt, SymBool):
        return float(int(a[0]))
    return float(*a)


def sx_ord(c):
    if is_sym(c):
        t = terms(c)
        if len(t) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(t))
        if type(t[0]) is int:
            return SymInt(-t[0] - 1) if t[0] < 0 else t[0]
        raise Unsupported("ord of a mapped character")
    return ord(c)


def sx_chr(i):
    if type(i) is SymInt:
        if i.k == 0:
            return mk((-i.v - 1,))
        return chr(i.conc())
    return chr(i)


def sx_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return bool(a[0])
    return bool(*a)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        return {SymStr: str, LazyStr: str, SymEnum: str, SymBool: bool, SymInt: int, conts.SymSet: set,
                conts.SymDict: dict, conts.FrozenSet: frozenset}.get(t, t)
    if type(a[2]) is conts.SymDict:
        ns = {}
        for k, v in a[2].items():
            k = strs.concrete(k) if hasattr(strs, "concrete") else k
            ns[k] = v
        a = (a[0], a[1], ns)
    return type(*a)


def sx_dictm(parts):
    d = conts.SymDict()
    for k, v in parts:
        if k is None:
            d.update(v)
        else:
            d[k[0]] = v
    return d


def sx_mod(a, b):
    if is_str(a):
        return fmt_mod(a, b)
    if isinstance(a, SymInt):
        a = a.conc()
    if isinstance(b, SymInt):
        b = b.conc()
    return a % b


def sx_bytes(*a, **k):
    if a and is_sym(a[0]):
        return SymBytes(a[0], *a[1:], **k)
    return bytes(*a, **k)


def sx_tick():
    c = core.CUR
    if c is not None:
        c.tick()


def sx_len(x):
    if type(x) is LazyStr:
        return len(x.force())
    return len(x)


def sx_format(v, spec=""):
    return strs.fmt_value(v, None, spec)


class Sub:
    """module proxy: overrides on top of a native module"""

    def __init__(self, base, **over):
        self.__dict__["_base"] = base
        self.__dict__["__name__"] = base.__name__
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._base, name)


class LruCache:
    """functools.lru_cache: also recomputes on a hit and compares (purity)"""

    def __init__(self, world, fn, maxsize, typed):
        self.w = world
        self.fn = fn
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, "__name__", "f")
        self.__doc__ = fn.__doc__
        self.d = conts.SymDict() if False else None
        self.order = []
        self.maxsize = maxsize
        world.caches.append(self)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        for i, (kk, v) in enumerate(self.order):
            if decide(boolf(sx_eq(kk, key))):
                self.order.append(self.order.pop(i))
                return v
        v = self.fn(*a, **k)
        self.order.append((key, v))
        if self.maxsize is not None and len(self.order) > self.maxsize:
            self.order.pop(0)
        return v

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return lambda *a, **k: self(obj, *a, **k)

    def cache_clear(self):
        self.order.clear()

    def cache_info(self):
        raise Unsupported("cache_info")


class World:
    """one loaded copy of the package (per process)"""

    def __init__(self, root, machine=None, harness_dir=None):
        self.root = root  # directory that contains clevercsv/
        self.M = machine
        self.mods = {}
        self.caches = []
        self.encoded = set()
        self.fs = None
        self.stdout = None
        self.stderr = None
        self.harness_dir = harness_dir
        self.shims = {}
        self.stubs = {}  # made by the harness of the current path
        self.init_builtins()
        self.init_shims()
        self.snap = None

    # ---- builtins
    def init_builtins(self):
        b = dict(vars(builtins))
        b.update(
            _sx_eq=sx_eq, _sx_ne=sx_ne, _sx_in=sx_in, _sx_notin=sx_notin, _sx_mod=sx_mod, _sx_not=sx_not, _sx_w=sx_w,
            _sx_fstr=sx_fstr, _sx_set=conts.SymSet, _sx_dict=conts.SymDict, _sx_fset=conts.FrozenSet,
            _sx_dictm=sx_dictm, _sx_tick=sx_tick, _sx_str=sx_str, _sx_int=sx_int, _sx_float=sx_float, _sx_complex=sx_complex,
            _sx_repr=sx_repr, _sx_hash=conts.sx_hash, _sx_type=sx_type, _sx_ord=sx_ord, _sx_chr=sx_chr,
            _sx_bool=sx_bool, _sx_ascii=ascii, _sx_format=sx_format, _sx_bytes=sx_bytes, _sx_len=sx_len,
            _sx_isinstance=sx_isinstance, _sx_BaseExc=(Exception, KeyboardInterrupt, SystemExit, GeneratorExit),
            _sx_print=self.print, _sx_open=lambda *a, **k: self.fs.open(*a, **k), __import__=self.imp,
        )
        self.builtins = b

    def print(self, *args, sep=" ", end="\n", file=None, flush=False):
        f = self.stdout if file is None else file
        if sep is None:
            sep = " "
        if end is None:
            end = "\n"
        out = ""
        for i, a in enumerate(args):
            if i:
                out = out + sep
            s = to_str(a)
            if isinstance(s, LazyStr):
                s = s.force()
            out = out + s
        f.write(out + end)

    # ---- shims
    def init_shims(self):
        import re as _re

        S = self.shims
        S["re"] = rx.make_module(_re)
        try:
            import regex as _regex

            S["regex"] = rx.make_module(_regex)
        except ImportError:
            pass
        import io as _io

        S["io"] = Sub(_io, StringIO=vio.StringIO, open=lambda *a, **k: self.fs.open(*a, **k),
                      UnsupportedOperation=vio.UnsupportedOperation)
        import unicodedata as _u

        S["unicodedata"] = Sub(_u, category=sx_category, normalize=sx_normalize)
        import functools as _f

        S["functools"] = Sub(_f, lru_cache=self.lru_cache, cache=lambda fn: self.lru_cache(None)(fn))
        import collections as _c

        S["collections"] = Sub(_c, OrderedDict=conts.OrderedDict, Counter=conts.Counter, defaultdict=conts.defaultdict)
        S["sys"] = SysShim(self)
        import dataclasses as _dc

        S["dataclasses"] = Sub(_dc, dataclass=self.dataclass)
        from . import vos

        vos.install(self, S, Sub)

    def dataclass(self, cls=None, **k):
        import dataclasses as _dc

        if cls is None:
            return lambda c: self.dataclass(c, **k)
        name = cls.__module__
        had = sys.modules.get(name)
        sys.modules[name] = self.mods[name]
        try:
            return _dc.dataclass(cls, **k)
        finally:
            if had is None:
                del sys.modules[name]
            else:
                sys.modules[name] = had

    def lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return LruCache(self, maxsize, 128, typed)
        return lambda fn: LruCache(self, fn, maxsize, typed)

    # ---- import machinery
    STDLIB_XFORM = {"csv", "json", "json.decoder", "json.scanner", "json.encoder", "textwrap", "shlex"}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        m = self.get(name)
        if fromlist:
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f):
                    try:
                        sub = self.get(name + "." + f)
                    except ImportError:
                        raise ImportError("cannot import name %r from %r" % (f, name))
            return m
        return self.get(name.split(".")[0])

    def get(self, name):
        if name in self.stubs:
            if self.stubs[name] is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return self.stubs[name]
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.shims:
            return self.shims[name]
        top = name.split(".")[0]
        if top == "clevercsv":
            return self.load_pkg(name)
        if top == "harness":
            return self.load_harness(name)
        if name in self.STDLIB_XFORM:
            return self.load_std(name)
        if name == "_csv":
            return self.exec_file("_csv", os.path.join(os.path.dirname(os.path.abspath(__file__)), "xcsv_src.py"), "", False)
        if top == "os" and name == "os.path":
            return self.shims["os"].path
        if core.CUR is not None and top in ("pandas", "tabview"):
            raise ImportError("not available symbolically: " + name)
        return importlib.import_module(name)

    def load_pkg(self, name):
        parts = name.split(".")
        if name in ("clevercsv.cparser", "clevercsv.cabstraction"):
            self.get("clevercsv")
            return self.load_c(name)
        if len(parts) > 1:
            parent = self.get(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        path = os.path.join(self.root, *parts)
        if os.path.isdir(path):
            fn = os.path.join(path, "__init__.py")
            pkg = name
        else:
            fn = path + ".py"
            pkg = ".".join(parts[:-1])
        if not os.path.exists(fn):
            raise ImportError("No module named %r" % name)
        return self.exec_file(name, fn, pkg, os.path.isdir(path))

    def exec_file(self, name, fn, pkg, is_pkg, src=None):
        if src is None:
            with open(fn, encoding="utf-8") as f:
                src = f.read()
        code = transform(src, fn)
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = pkg
        if is_pkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        par, _, leaf = name.rpartition(".")
        if par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m

    def load_harness(self, name):
        parts = name.split(".")
        path = os.path.join(self.harness_dir, *parts[1:])
        if len(parts) == 1:
            m = types.ModuleType("harness")
            m.__path__ = [self.harness_dir]
            self.mods["harness"] = m
            return m
        self.get("harness")
        return self.exec_file(name, path + ".py", ".".join(parts[:-1]), False)

    def load_std(self, name):
        real = importlib.import_module(name)
        with open(real.__file__, encoding="utf-8") as f:
            src = f.read()
        if name == "json.decoder":
            src = src.replace("scanstring = c_scanstring or py_scanstring", "scanstring = py_scanstring")
            # as in the C code
            src = src.replace("esc[1] not in 'xX'", "all([c in '0123456789abcdefABCDEF' for c in esc])")
        if name == "json.scanner":
            src = src.replace("make_scanner = c_make_scanner or py_make_scanner", "make_scanner = py_make_scanner")
        if name == "json.encoder":
            src = src.replace("from _json import", "from _json_none import")
        if "." in name:
            self.get(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        is_pkg = real.__file__.endswith("__init__.py")
        return self.exec_file(name, real.__file__, name if is_pkg else name.rpartition(".")[0], is_pkg, src)

    def load_c(self, name):
        leaf = name.rpartition(".")[2]
        if self.M is None or leaf not in self.M.modules:
            raise ImportError("no model of " + name)
        m = types.ModuleType(name)
        self.mods[name] = m
        for n in self.M.names(leaf):
            setattr(m, n, self.M.function(leaf, n))
        setattr(self.mods["clevercsv"], leaf, m)
        return m

    # ---- per-path state
    def take_snapshot(self):
        seen = {}
        todo = []
        for n, m in list(self.mods.items()):
            todo.append(m.__dict__)
        for v in todo:
            self._walk(v, seen)
        self.snap = list(seen.values())

    def _walk(self, v, seen):
        stack = [v]
        while stack:
            v = stack.pop()
            t = type(v)
            if id(v) in seen:
                continue
            if t is dict:
                if v is self.builtins:
                    continue
                seen[id(v)] = (v, dict(v))
                stack.extend(x for k, x in v.items() if k not in ("__builtins__",))
            elif t is list:
                seen[id(v)] = (v, list(v))
                stack.extend(v)
            elif t is set:
                seen[id(v)] = (v, set(v))
            elif t is tuple:
                seen[id(v)] = (v, None)
                stack.extend(v)
            elif isinstance(v, conts.SymDict):
                seen[id(v)] = (v, (v.k.copy(), [list(e) for e in v.items_]))
                stack.extend(e[1] for e in v.items_)
            elif isinstance(v, conts.SymSet):
                seen[id(v)] = (v, (v.k.copy(), list(v.seq)))
            elif t is types.FunctionType:
                if v.__globals__.get("__builtins__") is not self.builtins:
                    continue
                seen[id(v)] = (v, (v.__defaults__, dict(v.__kwdefaults__) if v.__kwdefaults__ else None, dict(v.__dict__)))
                stack.extend(v.__defaults__ or ())
                stack.extend((v.__kwdefaults__ or {}).values())
                stack.extend(v.__dict__.values())
                for c in v.__closure__ or ():
                    stack.append(c)
            elif t is types.CellType:
                try:
                    seen[id(v)] = (v, (v.cell_contents,))
                    stack.append(v.cell_contents)
                except ValueError:
                    pass
            elif isinstance(v, type):
                if getattr(sys.modules.get(v.__module__), v.__name__, None) is v or v.__module__ not in self.mods:
                    continue
                seen[id(v)] = (v, {k: x for k, x in vars(v).items() if k not in ("__dict__", "__weakref__", "__doc__", "__abstractmethods__", "_abc_impl")})
                stack.extend(vars(v).values())
            elif t in (staticmethod, classmethod):
                stack.append(v.__func__)
            elif t is property:
                stack.extend(x for x in (v.fget, v.fset) if x)
            elif t is LruCache:
                stack.append(v.fn)
            elif hasattr(v, "__dict__") and isinstance(t, type) and t.__module__ in self.mods:
                seen[id(v)] = (v, dict(v.__dict__))
                stack.extend(v.__dict__.values())

    def reset(self):
        for c in self.caches:
            c.order.clear()
        self.fs = vio.VFS()
        self.stdout = vio.StringIO(newline="")
        self.stderr = vio.StringIO(newline="")
        self.restore()

    def restore(self):
        """all modules as they were after their import"""
        if self.snap is None:
            return
        for v, s in self.snap:
            t = type(v)
            if t is dict:
                if v != s if False else (len(v) != len(s) or any(v.get(k, self) is not x for k, x in s.items())):
                    v.clear()
                    v.update(s)
            elif t is list:
                if len(v) != len(s) or any(a is not b for a, b in zip(v, s)):
                    v[:] = s
            elif t is set:
                if v != s:
                    v.clear()
                    v.update(s)
            elif isinstance(v, conts.SymDict):
                if v.k.ver != s[0].ver or len(v.items_) != len(s[1]) or any(a[1] is not b[1] for a, b in zip(v.items_, s[1])):
                    v.k = s[0].copy()
                    v.items_ = [list(e) for e in s[1]]
                    v.pos = {e[0]: e for e in v.items_ if conts.is_conc(e[0])}
            elif isinstance(v, conts.SymSet):
                if v.k.ver != s[0].ver or len(v.seq) != len(s[1]):
                    v.k = s[0].copy()
                    v.seq = list(s[1])
            elif t is types.FunctionType:
                if v.__defaults__ is not s[0]:
                    v.__defaults__ = s[0]
                if v.__dict__ or s[2]:
                    v.__dict__.clear()
                    v.__dict__.update(s[2])
            elif t is types.CellType:
                if v.cell_contents is not s[0]:
                    v.cell_contents = s[0]
            elif isinstance(v, type):
                cur = vars(v)
                for k in list(cur):
                    if k not in s and k not in ("__dict__", "__weakref__", "__doc__", "__abstractmethods__", "_abc_impl"):
                        try:
                            type.__delattr__(v, k)
                        except (AttributeError, TypeError):
                            pass
                for k, x in s.items():
                    if cur.get(k, self) is not x:
                        try:
                            type.__setattr__(v, k, x)
                        except (AttributeError, TypeError):
                            pass
            elif s is not None and hasattr(v, "__dict__"):
                d = v.__dict__
                if len(d) != len(s) or any(d.get(k, self) is not x for k, x in s.items()):
                    d.clear()
                    d.update(s)


class SysShim:
    def __init__(self, w):
        self.w = w
        self.__name__ = "sys"

    def __getattr__(self, n):
        if n == "stdout":
            return self.w.stdout
        if n == "stderr":
            return self.w.stderr
        return getattr(sys, n)


def sx_category(c):
    if not is_sym(c):
        import unicodedata

        return unicodedata.category(c)
    t = terms(c)
    if len(t) != 1:
        raise TypeError("category() argument must be a unicode character, not str")
    if type(t[0]) is not int:
        raise Unsupported("category of a mapped character")
    if t[0] >= 0:
        import unicodedata

        return unicodedata.category(chr(t[0]))
    v = -t[0] - 1
    d = core.CUR.d
    dom = d.dom[d.find(v)]
    m = {k: s for k, s in strs.categories().items() if not dom.isdisjoint(s)}
    if len(m) == 1:
        return next(iter(m))
    return SymEnum(v, m)


def sx_normalize(form, s):
    if is_sym(s):
        raise Unsupported("unicode normalisation")
    import unicodedata

    return unicodedata.normalize(form, s)
