"""Abstract machine executing generated IR functions against a model of CPython 3.12's C API.

Pointers are plain ints: (object id << 32) + BASE + offset.  Every load/store is
checked for bounds, liveness and initialisation; reference counts live in memory
and are manipulated by the extension's own (inlined) code.
"""
import os

import z3

from . import core, strs
from .core import EngineError, F, FZ, SymBool, Unsupported, boolf, fand, feq, fin, fnot, for_
from .iset import ISet
from .llir import FnGen, IRModule, to_ir
from .strs import MAXU, LazyStr, SymStr, is_str, mk, norm, t_eq, t_in, t_lt, terms

BASE = 1 << 30
M64 = (1 << 64) - 1
IMMORTAL = 0xFFFFFFFF


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class CError(Exception):
    """C API failure already recorded in the machine's error indicator"""


class SC:
    """character term + constant, modulo 2^w"""

    __slots__ = ("t", "w", "k")

    def __init__(self, t, w, k=0):
        self.t = t
        self.w = w
        self.k = k

    def __add__(self, o):
        return _bop("add", self, o, self.w)

    def z(self):
        x = core.zvar(-self.t - 1)
        x = z3.ZeroExt(self.w - core.BW, x) if self.w > core.BW else z3.Extract(self.w - 1, 0, x) if self.w < core.BW else x
        return x + self.k if self.k else x

    def vs(self):
        return (-self.t - 1,)

    def __repr__(self):
        return "SC(%r,%d,+%d)" % (self.t, self.w, self.k)


class ZB:
    __slots__ = ("e", "w", "v")

    def __init__(self, e, w, v):
        self.e = e
        self.w = w
        self.v = v

    def z(self):
        return self.e

    def vs(self):
        return self.v


def zof(x, w):
    if type(x) is int:
        return z3.BitVecVal(x, w)
    return x.z()


def vsof(x):
    return () if type(x) is int else x.vs()


def intervals(pred, c, w):
    """{y in [0,2^w): y pred c} as half-open intervals"""
    n = 1 << w
    if pred == "eq":
        return [(c, c + 1)]
    if pred == "ne":
        return [(0, c), (c + 1, n)]
    if pred == "ult":
        return [(0, c)]
    if pred == "ule":
        return [(0, c + 1)]
    if pred == "ugt":
        return [(c + 1, n)]
    if pred == "uge":
        return [(c, n)]
    h = n >> 1
    s = c - n if c >= h else c
    lo, hi = -h, h
    if pred == "slt":
        lo, hi = -h, s
    elif pred == "sle":
        lo, hi = -h, s + 1
    elif pred == "sgt":
        lo, hi = s + 1, h
    elif pred == "sge":
        lo, hi = s, h
    out = []
    if hi > 0 and max(lo, 0) < hi:
        out.append((max(lo, 0), hi))
    if lo < 0 and lo < min(hi, 0):
        out.append((lo + n, min(hi, 0) + n))
    return out


SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule",
        "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}


def conc1(x):
    """SC whose variable has become concrete -> int"""
    if type(x) is SC:
        n = norm(x.t)
        if n >= 0:
            return (n + x.k) & ((1 << x.w) - 1)
    return x


def _icmp(pred, a, b, w):
    a = conc1(a)
    b = conc1(b)
    if a is UNDEF or b is UNDEF:
        raise UndefUse()
    if type(a) is int and type(b) is not int:
        a, b, pred = b, a, SWAP[pred]
    if type(a) is SC and type(b) is int:
        n = 1 << w
        bs = []
        for lo, hi in intervals(pred, b, w):
            lo -= a.k
            hi -= a.k
            for sh in (0, n):
                l2, h2 = max(lo + sh, 0), min(hi + sh, MAXU)
                if l2 < h2 and l2 < n:
                    bs.append((l2, min(h2, n)))
        # characters beyond 2^w wrap; callers guarantee the domain fits
        s = ISet.make(sum(([l, h] for l, h in merge(bs)), []))
        return t_in(a.t, s)
    if type(a) is SC and type(b) is SC and a.k == b.k:
        if pred in ("eq", "uge", "ule", "ne", "ult", "ugt") and a.t == b.t:
            return pred in ("eq", "uge", "ule")
        if pred == "eq":
            return t_eq(a.t, b.t)
        if pred == "ne":
            return fnot(t_eq(a.t, b.t))
        if type(a.t) is int and type(b.t) is int and a.k == 0:
            # characters are far below 2^31: signed and unsigned agree
            if w >= 32 or pred[0] == "u":
                if pred[1:] == "lt":
                    return t_lt(a.t, b.t)
                if pred[1:] == "gt":
                    return t_lt(b.t, a.t)
                if pred[1:] == "le":
                    return fnot(t_lt(b.t, a.t))
                if pred[1:] == "ge":
                    return fnot(t_lt(a.t, b.t))
    if type(a) is int and type(b) is int:
        h = 1 << (w - 1)
        sa, sb = (a ^ h), (b ^ h)
        return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
    x, y = zof(a, w), zof(b, w)
    e = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
         "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
         "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
    return FZ(e, tuple(vsof(a)) + tuple(vsof(b)))


def merge(iv):
    iv = sorted(iv)
    out = []
    for l, h in iv:
        if out and l <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], h))
        else:
            out.append((l, h))
    return out


def _bop(op, a, b, w):
    a = conc1(a)
    b = conc1(b)
    if a is UNDEF or b is UNDEF:
        raise UndefUse()
    mask = (1 << w) - 1
    if type(a) is int and type(b) is int:
        sx = lambda v: v - (1 << w) if v >> (w - 1) else v
        if op == "add":
            return (a + b) & mask
        if op == "sub":
            return (a - b) & mask
        if op == "mul":
            return (a * b) & mask
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & mask if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sx(a) >> min(b, w - 1)) & mask
        if op in ("udiv", "urem", "sdiv", "srem"):
            if b == 0:
                raise UndefUse("division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sx(a), sx(b)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) & mask
    if type(a) is SC and type(b) is int:
        if op == "add":
            return SC(a.t, w, (a.k + b) & mask)
        if op == "sub":
            return SC(a.t, w, (a.k - b) & mask)
    if type(b) is SC and type(a) is int and op == "add":
        return SC(b.t, w, (b.k + a) & mask)
    x, y = zof(a, w), zof(b, w)
    e = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
         "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
         "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y)}.get(op)
    if e is None:
        raise Unsupported("symbolic " + op)
    return ZB(e(), w, tuple(vsof(a)) + tuple(vsof(b)))


class UndefUse(Exception):
    pass


class MemViolation(Exception):
    pass


class Obj:
    __slots__ = ("size", "cells", "alive", "kind", "py", "frozen", "name", "ro", "track", "bg")

    def __init__(self, size, kind="raw", name=""):
        self.size = size
        self.cells = {}
        self.alive = True
        self.kind = kind
        self.py = None
        self.frozen = False
        self.name = name
        self.ro = False
        self.track = False
        self.bg = 0 if kind == "static" else None  # value of bytes without a cell

    def clone(self):
        o = Obj(self.size, self.kind, self.name)
        o.bg = self.bg
        o.cells = dict(self.cells)
        o.alive = self.alive
        p = self.py
        o.py = p.copy() if type(p) is UniData else p
        o.ro = self.ro
        o.track = self.track
        return o


class UniData:
    """payload of a str object"""

    __slots__ = ("terms", "kind", "ascii", "built", "orig")

    def __init__(self, t):
        self.terms = t
        self.kind = None
        self.ascii = None
        self.built = False
        # the object of a class derived from str
        self.orig = None

    def copy(self):
        u = UniData(self.terms)
        u.orig = self.orig
        u.kind, u.ascii, u.built = self.kind, self.ascii, self.built
        return u


# type table: name -> (basicsize, extra flags)
F_DEFAULT = 1 << 18
F_LONG, F_LIST, F_TUPLE, F_BYTES, F_UNICODE, F_DICT, F_BASEEXC, F_TYPE = (1 << i for i in range(24, 32))
F_BASETYPE, F_READY, F_GC = 1 << 10, 1 << 12, 1 << 14
TYPES = {
    "PyUnicode_Type": ("str", F_UNICODE), "PyLong_Type": ("int", F_LONG), "PyList_Type": ("list", F_LIST | F_GC),
    "PyTuple_Type": ("tuple", F_TUPLE | F_GC), "PyDict_Type": ("dict", F_DICT | F_GC), "PyBool_Type": ("bool", F_LONG),
    "PyType_Type": ("type", F_TYPE | F_GC), "PyBytes_Type": ("bytes", F_BYTES), "PyBaseObject_Type": ("object", 0),
    "_PyNone_Type": ("NoneType", 0), "PyModule_Type": ("module", F_GC), "PyFloat_Type": ("float", 0),
    "PySet_Type": ("set", F_GC), "PyFrozenSet_Type": ("frozenset", F_GC),
}
EXCS = {n: getattr(__import__("builtins"), n) for n in (
    "Exception TypeError ValueError RuntimeError MemoryError OverflowError StopIteration SystemError IndexError KeyError "
    "AttributeError BaseException LookupError UnicodeError UnicodeDecodeError BufferError NotImplementedError ImportError OSError ArithmeticError".split())}


class Machine:
    def __init__(self, srcs, workdir):
        """srcs: list of C files; compiles and loads them (concrete, before any path)"""
        self.funcs_list = []
        self.F = {}
        self.objs = {}
        self.next = 1
        self.base_next = None
        self.types = {}
        self.modules = {}
        self.err = None
        self.uni_mode = "ucs4"
        self.alloc_fail = None
        self.extern = {}
        self.handles = []
        self.leakcheck = False
        self.calls = 0
        self.encoded = []
        self.init_types()
        for src in srcs:
            self.load_src(src, workdir)
        self.base_objs = self.objs
        for o in self.base_objs.values():
            o.frozen = True
        self.base_next = self.next
        self.base_types = dict(self.types)

    # ------------------------------------------------------------ lifecycle
    def reset(self):
        self.objs = dict(self.base_objs)
        self.next = self.base_next
        self.types = dict(self.base_types)
        self.err = None
        self.handles = []
        self.fails_left = 0
        self.alloc_n = 0
        self.failed_at = None
        self.alloc_total = 0
        self.uni_mode = "ucs4"

    def violation(self, msg):
        p = core.CUR
        if p is None:
            raise EngineError("memory error during module initialisation: " + msg)
        p.check(False, "memory: " + msg)
        raise EngineError("violation not raised")

    # ------------------------------------------------------------ memory
    def new(self, size, kind="raw", name=""):
        i = self.next
        self.next = i + 1
        self.objs[i] = Obj(size, kind, name)
        return (i << 32) + BASE

    def obj(self, addr):
        return self.objs.get(addr >> 32)

    def wobj(self, addr):
        o = self.objs[addr >> 32]
        if o.frozen:
            o = o.clone()
            self.objs[addr >> 32] = o
        return o

    def bad(self, what, addr, size):
        if type(addr) is not int:
            if addr is UNDEF:
                self.violation("%s through an uninitialised pointer" % what)
            raise Unsupported("symbolic address")
        if addr < 4096 or addr >> 32 == 0:
            self.violation("%s through a NULL pointer" % what)
        o = self.objs.get(addr >> 32)
        if o is None:
            self.violation("%s through a wild pointer" % what)
        if not o.alive:
            self.violation("%s after free (%s)" % (what, o.name or o.kind))
        off = (addr & 0xFFFFFFFF) - BASE
        self.violation("%s of %d bytes at offset %d of a %d-byte object (%s)" % (what, size, off, o.size, o.name or o.kind))

    def load(self, addr, size):
        try:
            o = self.objs[addr >> 32]
            off = (addr & 0xFFFFFFFF) - BASE
            if not o.alive or off < 0 or off + size > o.size:
                self.bad("read", addr, size)
        except (KeyError, TypeError):
            self.bad("read", addr, size)
        if o.kind == "str" and off >= 24 and not (o.py.built):
            o = self.resolve(addr)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if v is UNDEF:
                self.violation("read of uninitialised memory (%s)" % (o.name or o.kind))
            return v
        return self.load_slow(o, off, size)

    def load_slow(self, o, off, size):
        # inside a bigger cell
        for s in (8, 4, 2):
            b = off // s * s
            c = o.cells.get(b)
            if c is not None and c[0] >= off - b + size:
                v = c[1]
                if type(v) is int:
                    return (v >> (8 * (off - b))) & ((1 << (8 * size)) - 1)
                if v is UNDEF:
                    self.violation("read of uninitialised memory (%s)" % (o.name or o.kind))
                if off == b:
                    return self.cast("trunc", v, 8 * c[0], 8 * size)
                raise Unsupported("partial read of a symbolic value")
        # assembled from smaller cells
        v = 0
        i = 0
        while i < size:
            c = o.cells.get(off + i)
            if c is None:
                one = self.load_byte_cover(o, off + i)
                v |= one << (8 * i)
                i += 1
                continue
            if c[1] is UNDEF:
                self.violation("read of uninitialised memory (%s)" % (o.name or o.kind))
            if type(c[1]) is not int:
                raise Unsupported("assembling symbolic bytes")
            v |= c[1] << (8 * i)
            i += c[0]
        return v & ((1 << (8 * size)) - 1)

    def load_byte_cover(self, o, off):
        for b in range(off - 1, off - 8, -1):
            c = o.cells.get(b)
            if c is not None:
                if b + c[0] > off and type(c[1]) is int:
                    return (c[1] >> (8 * (off - b))) & 0xFF
                break
        if o.bg is not None:
            return o.bg
        self.violation("read of uninitialised memory (%s)" % (o.name or o.kind))

    def loadb(self, addr):
        v = self.load(addr, 1)
        if type(v) is int:
            return bool(v & 1)
        return _icmp("ne", v, 0, 8)

    def store(self, addr, size, val):
        try:
            o = self.objs[addr >> 32]
            off = (addr & 0xFFFFFFFF) - BASE
            if not o.alive or off < 0 or off + size > o.size:
                self.bad("write", addr, size)
        except (KeyError, TypeError):
            self.bad("write", addr, size)
        if o.frozen:
            o = self.wobj(addr)
        if o.ro:
            self.violation("write to constant data (%s)" % o.name)
        if o.kind == "str" and off >= 24:
            u = o.py
            if not u.built:
                o = self.resolve(addr)
                u = o.py
            u.terms = None
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, val)
            return
        self.store_slow(o, off, size, val)

    def store_slow(self, o, off, size, val):
        cells = o.cells
        # split any overlapping bigger cell
        for b in range(off - 7, off + size):
            c = cells.get(b)
            if c is None or b + c[0] <= off:
                continue
            if b >= off and b + c[0] <= off + size:
                del cells[b]
                continue
            s, v = c
            del cells[b]
            if type(v) is int:
                for i in range(s):
                    if not (off <= b + i < off + size):
                        cells[b + i] = (1, (v >> (8 * i)) & 0xFF)
            elif v is UNDEF:
                for i in range(s):
                    if not (off <= b + i < off + size):
                        cells[b + i] = (1, UNDEF)
            else:
                raise Unsupported("partial overwrite of a symbolic value")
        cells[off] = (size, val)

    def alloca(self, size):
        return self.new(size, "stack", "stack variable")

    def free_stack(self, a):
        self.objs[a >> 32].alive = False

    # ------------------------------------------------------------ values
    def conc(self, v):
        if type(v) is int:
            return v
        if type(v) is bool:
            return int(v)
        v = conc1(v)
        if type(v) is int:
            return v
        if v is UNDEF:
            self.violation("use of an uninitialised value")
        if type(v) is SC:
            d = core.CUR.d
            while True:
                n = norm(v.t)
                if n >= 0:
                    return (n + v.k) & ((1 << v.w) - 1)
                dom = d.dom[d.find(-v.t - 1)]
                if dom.size > 300:
                    raise Unsupported("symbolic value used as a size or address")
                core.CUR.decide(fin(-v.t - 1, ISet.of(dom.b[0])))
        raise Unsupported("concretising a symbolic value")

    def br(self, c):
        if type(c) is bool:
            return c
        if c is UNDEF:
            self.violation("branch on an uninitialised value")
        return core.CUR.decide(c)

    def swin(self, v, consts, w):
        v = conc1(v)
        if type(v) is int:
            return v in consts
        return self.br(for_(self.icmp("eq", v, c, w) for c in consts))

    def tick(self):
        p = core.CUR
        if p is not None:
            p.tick()

    def b2i(self, c):
        return 1 if self.br(c) else 0

    def bop(self, op, a, b, w):
        try:
            return _bop(op, a, b, w)
        except UndefUse as e:
            self.violation("arithmetic on an uninitialised value" if not e.args else e.args[0])

    def bop1(self, op, a, b):
        if type(a) is bool and type(b) is bool:
            return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b, "sub": a != b, "mul": a and b}[op]
        if a is UNDEF or b is UNDEF:
            self.violation("logic on an uninitialised value")
        if op == "and" or op == "mul":
            return fand((a, b))
        if op == "or":
            return for_((a, b))
        if op == "xor":
            return fnot(core.fiff(a, b))
        raise Unsupported("i1 " + op)

    def icmp(self, pred, a, b, w):
        try:
            r = _icmp(pred, a, b, w)
        except UndefUse:
            self.violation("comparison of an uninitialised value")
        return r

    def icmp1(self, pred, a, b):
        r = core.fiff(a, b)
        if pred == "eq":
            return r
        if pred == "ne":
            return fnot(r)
        raise Unsupported("i1 compare")

    def cast(self, op, a, w1, w2):
        if w1 == 1:
            b = self.b2i(a)
            return b if op == "zext" else ((1 << w2) - 1 if b else 0)
        if type(a) is not int:
            a = conc1(a)
        if type(a) is int:
            if op == "zext":
                return a
            if op == "trunc":
                return a & ((1 << w2) - 1) if w2 > 1 else bool(a & 1)
            return a | (((1 << w2) - 1) ^ ((1 << w1) - 1)) if a >> (w1 - 1) else a
        if a is UNDEF:
            self.violation("conversion of an uninitialised value")
        if type(a) is SC:
            dom = core.CUR.d.dom[core.CUR.d.find(-a.t - 1)]
            hi = dom.b[-1]
            if a.k == 0:
                if op == "zext":
                    return SC(a.t, w2)
                if op == "sext" and hi <= (1 << (w1 - 1)):
                    return SC(a.t, w2)
                if op == "trunc" and hi <= (1 << w2):
                    return SC(a.t, w2)
            elif op == "trunc" and hi <= (1 << w2):
                return SC(a.t, w2, a.k & ((1 << w2) - 1))
        e = zof(a, w1)
        if op == "zext":
            return ZB(z3.ZeroExt(w2 - w1, e), w2, vsof(a))
        if op == "sext":
            return ZB(z3.SignExt(w2 - w1, e), w2, vsof(a))
        if w2 == 1:
            return FZ(z3.Extract(0, 0, e) == 1, tuple(vsof(a)))
        return ZB(z3.Extract(w2 - 1, 0, e), w2, vsof(a))

    def select(self, c, a, b):
        if type(c) is bool:
            return a if c else b
        if a is b or (type(a) is int and type(b) is int and a == b):
            return a
        isb = lambda x: type(x) is bool or isinstance(x, F)
        if isb(a) and isb(b):
            return for_((fand((c, a)), fand((fnot(c), b))))
        return a if self.br(c) else b

    def unreachable(self):
        self.violation("undefined behaviour reached")

    def memset(self, dst, val, n):
        n = self.conc(n)
        val = self.conc(val) & 0xFF
        o = self.objs.get(dst >> 32) if type(dst) is int else None
        if o is not None and o.alive and not o.frozen and not o.ro and o.kind == "heap" and n == o.size and (dst & 0xFFFFFFFF) == BASE:
            o.cells.clear()
            o.bg = val
            return
        for i in range(n):
            self.store(dst + i, 1, val)

    def memcpy(self, dst, src, n):
        n = self.conc(n)
        if n == 0:
            return
        for base, what in ((src, "read"), (dst, "write")):
            o = self.objs.get(base >> 32) if type(base) is int else None
            off = (base & 0xFFFFFFFF) - BASE if o else 0
            if o is None or not o.alive or off < 0 or off + n > o.size:
                self.bad(what, base, n)
        if self.objs[src >> 32].kind == "str":
            self.load(src, 1)
        so = self.objs[src >> 32]
        soff = (src & 0xFFFFFFFF) - BASE
        out = []
        i = 0
        while i < n:
            c = so.cells.get(soff + i)
            if c is None or i + c[0] > n:
                c2 = None
                for s in (8, 4, 2):
                    b = (soff + i) // s * s
                    c2 = so.cells.get(b)
                    if c2 is not None and b + c2[0] > soff + i:
                        break
                    c2 = None
                if c2 is None and so.bg is None:
                    out.append((i, 1, UNDEF))
                else:
                    out.append((i, 1, self.load(src + i, 1)))
                i += 1
                continue
            out.append((i, c[0], c[1]))
            i += c[0]
        for i, s, v in out:
            self.store(dst + i, s, v)

    memmove = memcpy

    def intrinsic(self, name, *a):
        m = name.split(".")
        if m[1] in ("umax", "umin", "smax", "smin"):
            w = int(m[-1][1:])
            p = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[m[1]]
            return self.select(self.icmp(p, a[0], a[1], w), a[0], a[1])
        if m[1] == "abs":
            w = int(m[-1][1:])
            v = self.conc(a[0])
            return (-v) & ((1 << w) - 1) if v >> (w - 1) else v
        if m[1] == "expect":
            return a[0]
        if m[1] in ("stacksave",):
            return 0
        if m[1] in ("stackrestore",):
            return None
        raise Unsupported("intrinsic " + name)

    def icall(self, addr, *args):
        if type(addr) is not int:
            raise Unsupported("symbolic call target")
        o = self.objs.get(addr >> 32)
        if o is None or o.kind != "func":
            self.violation("call through an invalid function pointer")
        return o.py(self, *args)

    # ------------------------------------------------------------ modules
    def init_types(self):
        self.sym = {}
        for n, (tn, fl) in TYPES.items():
            a = self.new(416, "static", n)
            self.sym["@" + n] = a
            self.types[n] = a
            o = self.obj(a)
            o.cells[0] = (8, IMMORTAL)
            o.cells[24] = (8, self.cstr(tn))
            o.cells[168] = (8, fl | F_DEFAULT | F_READY | F_BASETYPE)
        for n in TYPES:
            self.obj(self.sym["@" + n]).cells[8] = (8, self.sym["@PyType_Type"])
        for n, tn, py in (("_Py_NoneStruct", "_PyNone_Type", None), ("_Py_TrueStruct", "PyBool_Type", True),
                          ("_Py_FalseStruct", "PyBool_Type", False)):
            a = self.new(32, "const", n)
            o = self.obj(a)
            o.py = py
            o.cells[0] = (8, IMMORTAL)
            o.cells[8] = (8, self.sym["@" + tn])
            self.sym["@" + n] = a
        self.exc_cls = {}
        for n, cls in EXCS.items():
            a = self.host(cls)
            self.obj(a).cells[0] = (8, IMMORTAL)
            g = self.new(8, "static", "PyExc_" + n)
            self.obj(g).cells[0] = (8, a)
            self.sym["@PyExc_" + n] = g
            self.exc_cls[cls] = a

    def cstr(self, s):
        b = s.encode()
        a = self.new(len(b) + 1, "static", "string")
        o = self.obj(a)
        for i, x in enumerate(b + b"\0"):
            o.cells[i] = (1, x)
        return a

    def load_src(self, src, workdir):
        mod = IRModule(to_ir(src, workdir))
        gaddr = dict(self.sym)
        faddr = {}
        for g, (ty, init, const) in mod.globals.items():
            if init is None and g in gaddr:
                continue
            if init is None:
                raise EngineError("unknown external variable %s" % g)
            gaddr[g] = self.new(max(ty.size, 1), "static", g)
        for f in list(mod.funcs) + list(mod.decls):
            if f.startswith("@llvm."):
                continue
            a = self.new(1, "func", f)
            faddr[f] = a
        F = {}
        ns = {"UNDEF": UNDEF}
        helper = None
        for f in mod.funcs:
            g = FnGen(mod, f, gaddr, faddr)
            code = g.gen()
            if helper is None:
                helper = g
            d = dict(ns)
            # calls inside the module go through its own table
            code = code.replace("M.F[", "FT[")
            d["FT"] = F
            exec(compile(code, "<ir %s %s>" % (os.path.basename(src), f), "exec"), d)
            F[f] = d["f"]
            self.obj(faddr[f]).py = d["f"]
            self.encoded.append("%s:%s" % (os.path.basename(src), f[1:]))
        for f in mod.decls:
            if f.startswith("@llvm."):
                continue
            self.obj(faddr[f]).py = (lambda name: lambda M, *a: M.api(name, *a))(f[1:])
        for g, (ty, init, const) in mod.globals.items():
            if init is None:
                continue
            o = self.obj(gaddr[g])
            tk, k = init
            self.fill(mod, helper, gaddr[g], ty, tk, k)
            if const:
                o.ro = True
        inits = [f for f in mod.funcs if f.startswith("@PyInit_")]
        if not inits:
            raise EngineError("no PyInit in %s" % src)
        r = F[inits[0]](self)
        name = inits[0][8:]
        if r == 0:
            raise EngineError("module initialisation of %s failed: %r" % (name, self.err))
        o = self.obj(r)
        if o.kind != "module":  # multi-phase
            r = self.make_module(r)
            slots = self.load(o_def := (r and self.obj(r).py["def"]) + 72, 8)
            while slots and self.load(slots, 4):
                if self.load(slots, 4) == 2:
                    if self.conc(self.icall(self.load(slots + 8, 8), r)) != 0:
                        raise EngineError("module exec of %s failed" % name)
                slots += 16
        self.modules[name] = r
        self.modaddr = getattr(self, "modaddr", {})
        self.modaddr[name] = (gaddr, faddr)

    def fill(self, mod, gen, addr, ty, tk, k):
        """static initialiser; returns next token index"""
        t = tk[k]
        if t in ("zeroinitializer", "undef", "poison"):
            return k + 1
        if ty.k == "a" and t[0] == "c" and t[1:2] == '"':
            s = t[2:-1]
            i = 0
            j = 0
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        v = 0x5C
                        i += 2
                    else:
                        v = int(s[i + 1 : i + 3], 16)
                        i += 3
                else:
                    v = ord(s[i])
                    i += 1
                self.store(addr + j, 1, v)
                j += 1
            return k + 1
        if ty.k == "a":
            assert t == "["
            k += 1
            j = 0
            while tk[k] != "]":
                ety, k = mod.ty(tk, k)
                k = self.fill(mod, gen, addr + j * ty.e.size, ety, tk, k)
                j += 1
                if tk[k] == ",":
                    k += 1
            return k + 1
        if ty.k == "s":
            packed = t == "<"
            k += 2 if packed else 1
            j = 0
            while tk[k] != "}":
                ety, k = mod.ty(tk, k)
                k = self.fill(mod, gen, addr + ty.offs[j], ety, tk, k)
                j += 1
                if tk[k] == ",":
                    k += 1
            return k + (2 if packed else 1)
        v, k = gen.val(tk, k, ty)
        v = {"True": 1, "False": 0}.get(v) if v in ("True", "False") else int(v)
        self.store(addr, ty.size, v)
        return k

    # ------------------------------------------------------------ python objects
    def typ(self, n):
        return self.sym["@" + n]

    def pyobj(self, size, tname, kind):
        a = self.new(size, kind, kind)
        o = self.objs[a >> 32]
        o.cells[0] = (8, 1)
        o.cells[8] = (8, self.sym["@" + tname] if type(tname) is str else tname)
        return a

    def host_type(self, v):
        n = type(v).__name__
        key = "host:" + n
        a = self.types.get(key)
        if a is None:
            std = {"list": "PyList_Type_host", "dict": "PyDict_Type", "bytes": "PyBytes_Type", "float": "PyFloat_Type",
                   "set": "PySet_Type", "type": "PyType_Type"}.get(n)
            if std and "@" + std in self.sym:
                return self.sym["@" + std]
            a = self.new(416, "static", "type " + n)
            o = self.obj(a)
            o.cells[0] = (8, IMMORTAL)
            o.cells[8] = (8, self.sym["@PyType_Type"])
            o.cells[24] = (8, self.cstr(n))
            o.cells[168] = (8, F_DEFAULT | F_READY | F_BASETYPE | (F_UNICODE if isinstance(v, str) else 0))
            self.types[key] = a
        return a

    def host(self, v):
        a = self.pyobj(16, self.host_type(v), "host")
        self.objs[a >> 32].py = v
        return a

    def new_str(self, v):
        t = terms(v)
        a = self.pyobj(0, "PyUnicode_Type", "str")
        o = self.objs[a >> 32]
        o.py = UniData(t)
        o.size = 56 + 4 * (len(t) + 1)
        o.cells[16] = (8, len(t))
        return a

    def new_tuple(self, ptrs):
        a = self.pyobj(24 + 8 * len(ptrs), "PyTuple_Type", "tuple")
        o = self.objs[a >> 32]
        o.cells[16] = (8, len(ptrs))
        for i, p in enumerate(ptrs):
            o.cells[24 + 8 * i] = (8, p)
        return a

    def new_list(self, ptrs):
        a = self.pyobj(40, "PyList_Type", "list")
        o = self.objs[a >> 32]
        o.cells[16] = (8, len(ptrs))
        n = len(ptrs)
        buf = self.new(8 * n, "listbuf", "list items") if n else 0
        for i, p in enumerate(ptrs):
            self.objs[buf >> 32].cells[8 * i] = (8, p)
        o.cells[24] = (8, buf)
        o.cells[32] = (8, n)
        return a

    def incref(self, a):
        r = self.load(a, 4)
        if r != 0xFFFFFFFF:
            self.store(a, 4, r + 1)
        return a

    def decref(self, a):
        r = self.load(a, 8)
        if r & 0x80000000:
            return
        if r == 0:
            self.violation("reference count below zero")
        self.store(a, 8, r - 1)
        if r == 1:
            self.dealloc(a)

    def dealloc(self, a):
        o = self.obj(a)
        if o is None or not o.alive:
            self.bad("dealloc", a, 0)
        k = o.kind
        if k == "tuple":
            n = self.load(a + 16, 8)
            for i in range(n):
                c = o.cells.get(24 + 8 * i)
                if c and c[1]:
                    self.decref(c[1])
            self.kill(a)
        elif k == "list":
            n = self.load(a + 16, 8)
            buf = self.load(a + 24, 8)
            for i in range(n):
                p = self.load(buf + 8 * i, 8)
                if p:
                    self.decref(p)
            if buf:
                self.kill(buf)
            self.kill(a)
        elif k == "inst":
            ty = self.load(a + 8, 8)
            d = self.load(ty + 48, 8)
            if d == 0:
                raise Unsupported("inherited tp_dealloc")
            self.icall(d, a)
            if self.obj(a).alive:
                self.violation("object not released by its deallocator")
        elif k == "const":
            self.violation("deallocating an immortal singleton")
        elif k == "module":
            raise Unsupported("module deallocation")
        else:
            self.kill(a)

    def kill(self, a):
        o = self.wobj(a)
        o.alive = False
        o.cells = {}

    def resolve(self, addr):
        """fix the internal kind of a str object and lay out its data"""
        o = self.wobj(addr)
        u = o.py
        t = u.terms
        hi = 0
        sym = []
        for x in t:
            x = norm(x)
            if type(x) is int and x >= 0:
                if x > hi:
                    hi = x
            else:
                sym.append(x)
        if not sym or self.uni_mode == "fork":
            lim = 0x80 if hi < 0x80 else 0x100 if hi < 0x100 else 0x10000 if hi < 0x10000 else MAXU
            for x in sym:
                if lim >= MAXU:
                    break
            if sym:
                dec = core.CUR.decide
                for cand in (0x80, 0x100, 0x10000):
                    if cand < lim:
                        continue
                    if dec(fand(t_in(x, ISet.range(0, cand - 1)) for x in sym)):
                        lim = cand
                        break
                else:
                    lim = MAXU
        else:
            lim = MAXU
        u.ascii = lim == 0x80
        u.kind = 1 if lim <= 0x100 else 2 if lim == 0x10000 else 4
        self.layout(o, u, len(t))
        base = 40 if u.ascii else 56
        w = 8 * u.kind
        for i, x in enumerate(t):
            x = norm(x)
            if type(x) is int:
                o.cells[base + i * u.kind] = (u.kind, x if x >= 0 else SC(x, w))
            else:
                raise Unsupported("mapped character passed to C")
        return o

    def layout(self, o, u, n):
        base = 40 if u.ascii else 56
        u.built = True
        o.size = base + (n + 1) * u.kind
        o.cells[24] = (8, M64)
        o.cells[32] = (4, (u.kind << 2) | (1 << 5) | ((1 << 6) if u.ascii else 0))
        o.cells[36] = (4, 0)
        if not u.ascii:
            o.cells[40] = (8, 0)
            o.cells[48] = (8, 0)
        o.cells[base + n * u.kind] = (u.kind, 0)

    def str_terms(self, a):
        """terms of a str object (from memory if C code wrote to it)"""
        o = self.obj(a)
        if o is None or not o.alive:
            self.bad("read", a, 8)
        if o.kind != "str":
            return None
        u = o.py
        if u.terms is not None:
            return u.terms
        n = self.load(a + 16, 8)
        base = 40 if u.ascii else 56
        out = []
        for i in range(n):
            v = conc1(self.load(a + base + i * u.kind, u.kind))
            if type(v) is int:
                out.append(v)
            elif type(v) is SC and v.k == 0:
                out.append(v.t)
            else:
                raise Unsupported("computed character")
        # representation invariant
        if self.uni_mode == "fork" or all(type(x) is int and x >= 0 for x in out):
            low = {1: 0x80, 2: 0x100, 4: 0x10000}[u.kind]
            if u.ascii:
                core.CUR.check(fand(t_in(x, ISet.range(0, 127)) for x in out), "memory: ASCII string holding non-ASCII characters")
            else:
                core.CUR.check(for_(t_in(x, ISet.range(low, MAXU - 1)) for x in out),
                               "canonical: string built in a wider representation than its characters need")
        u.terms = tuple(out)
        return u.terms

    # conversions host <-> C
    def to_c(self, v):
        """new reference"""
        if v is None:
            return self.sym["@_Py_NoneStruct"]
        t = type(v)
        if t is bool:
            return self.sym["@_Py_TrueStruct" if v else "@_Py_FalseStruct"]
        if t is SymBool:
            return self.to_c(bool(v))
        if t is SymStr or t is str:
            return self.new_str(v)
        if t is LazyStr:
            return self.to_c(v.force())
        if isinstance(v, str):
            a = self.new_str(str.__str__(v))
            o = self.objs[a >> 32]
            o.py.orig = v
            o.cells[8] = (8, self.host_type(v))
            return a
        if t is int:
            a = self.pyobj(32, "PyLong_Type", "long")
            self.objs[a >> 32].py = v
            return a
        if t is CObj:
            return self.incref(v.ptr)
        if t is tuple:
            return self.new_tuple([self.to_c(x) for x in v])
        return self.host(v)

    def from_c(self, a):
        """value of a borrowed reference"""
        o = self.obj(a) if type(a) is int else None
        if o is None or not o.alive:
            self.bad("read", a, 8)
        k = o.kind
        if k == "str":
            if o.py.orig is not None:
                return o.py.orig
            return mk(self.str_terms(a))
        if k in ("const", "long", "host"):
            return o.py
        if k == "list":
            n = self.load(a + 16, 8)
            buf = self.load(a + 24, 8)
            return [self.from_c(self.load(buf + 8 * i, 8)) for i in range(n)]
        if k == "tuple":
            n = self.load(a + 16, 8)
            return tuple(self.from_c(self.load(a + 24 + 8 * i, 8)) for i in range(n))
        if k == "inst":
            self.incref(a)
            self.handles.append(a)
            return CObj(self, a)
        if k == "dict":
            return o.py
        raise Unsupported("C object of kind " + k)

    # ------------------------------------------------------------ calling in
    def raise_err(self):
        e = self.err
        self.err = None
        raise e

    def result(self, r):
        if r == 0:
            if self.err is None:
                core.CUR.check(False, "memory: NULL returned without an exception set")
            self.raise_err()
        if self.err is not None:
            core.CUR.check(False, "memory: result returned with an exception set")
        v = self.from_c(r)
        self.decref(r)
        return v

    def function(self, modname, name):
        """host callable for a module-level function, or a module attribute"""
        m = self.modules[modname]
        info = self.obj(m).py
        d = self.load(info["def"] + 64, 8)
        while d and self.load(d, 8):
            if self.read_cstr(self.load(d, 8)) == name:
                meth = self.load(d + 8, 8)
                flags = self.load(d + 16, 4)
                return CFunc(self, name, meth, flags, m)
            d += 32
        if name in info["dict"]:
            return self.from_c(info["dict"][name])
        raise AttributeError("module %r has no attribute %r" % (modname, name))

    def names(self, modname):
        info = self.obj(self.modules[modname]).py
        out = list(info["dict"])
        d = self.load(info["def"] + 64, 8)
        while d and self.load(d, 8):
            out.append(self.read_cstr(self.load(d, 8)))
            d += 32
        return out

    def read_cstr(self, a):
        out = bytearray()
        while True:
            c = self.conc(self.load(a, 1))
            if c == 0:
                return out.decode("utf-8", "replace")
            out.append(c)
            a += 1

    def call(self, meth, flags, selfp, args, kwargs):
        self.calls += 1
        conv = flags & (1 | 2 | 4 | 8 | 0x80)
        made = []
        try:
            if conv in (1, 3):
                cargs = [self.to_c(x) for x in args]
                tup = self.new_tuple(cargs)
                made.append(tup)
                if conv == 3:
                    kw = 0
                    if kwargs:
                        kw = self.pyobj(64, "PyDict_Type", "dict")
                        items = {k: self.to_c(v) for k, v in kwargs.items()}
                        self.obj(kw).py = items
                        made.append(kw)
                        made.extend(items.values())
                    r = self.icall(meth, selfp, tup, kw)
                else:
                    if kwargs:
                        raise TypeError("function takes no keyword arguments")
                    r = self.icall(meth, selfp, tup)
            elif conv == 8:
                if kwargs or len(args) != 1:
                    raise TypeError("function takes exactly one argument (%d given)" % len(args))
                x = self.to_c(args[0])
                made.append(x)
                r = self.icall(meth, selfp, x)
            elif conv == 4:
                if kwargs or args:
                    raise TypeError("function takes no arguments (%d given)" % len(args))
                r = self.icall(meth, selfp, 0)
            elif conv == 0x80 or conv == 0x82:
                if conv == 0x80 and kwargs:
                    raise TypeError("function takes no keyword arguments")
                vals = [self.to_c(x) for x in args] + [self.to_c(x) for x in kwargs.values()]
                made.extend(vals)
                arr = self.new(8 * max(len(vals), 1), "raw", "argument vector")
                for i, x in enumerate(vals):
                    self.store(arr + 8 * i, 8, x)
                if conv == 0x82:
                    kn = 0
                    if kwargs:
                        kn = self.to_c(tuple(kwargs))
                        made.append(kn)
                    r = self.icall(meth, selfp, arr, len(args), kn)
                else:
                    r = self.icall(meth, selfp, arr, len(args))
            else:
                raise Unsupported("calling convention %d" % flags)
            if type(r) is not int:
                r = self.conc(r)
            if r == 0:
                return self.result(0)
            v = self.result(r)
        finally:
            import sys

            if not isinstance(sys.exc_info()[1], core.PathAbort):
                for x in made:
                    self.decref(x)
        return v

    # end of a path: everything the host owned is released; what is left is a leak
    def finish(self):
        for h in self.handles:
            self.decref(h)
        self.handles = []
        for i, o in self.objs.items():
            if i < self.base_next or not o.alive:
                continue
            if o.kind in ("str", "list", "tuple", "long", "inst", "host", "dict", "heap"):
                core.CUR.check(False, "leak: %s still allocated at the end" % (o.name or o.kind))
        for i, o in self.base_objs.items():
            n = self.objs[i]
            if n is not o and o.kind in ("host", "str", "module") and o.cells.get(0) != n.cells.get(0):
                a = self.load((i << 32) + BASE, 8)
                b = o.cells[0][1]
                core.CUR.check(a == b, "leak: reference count of %s changed" % (o.name or o.kind))

    # ------------------------------------------------------------ C API
    def api(self, name, *a):
        f = getattr(self, "c_" + name, None)
        if f is None:
            raise Unsupported("C API function %s" % name)
        return f(*a)

    def set_err(self, cls, msg):
        if self.err is None or True:
            self.err = cls(msg)

    def nomem(self):
        """inject an allocation failure here?"""
        p = core.CUR
        if p is None:
            return False
        self.alloc_total += 1
        if not p.opts.get("alloc_fail") or self.failed_at is not None:
            return False
        if p.choose(2):
            self.failed_at = self.alloc_total
            return True
        return False

    def fail_mem(self, ret=0):
        self.err = MemoryError()
        return ret

    # memory
    def c_malloc(self, n):
        n = self.conc(n)
        if self.nomem():
            return 0
        if n > 1 << 28:
            return 0
        return self.new(n, "heap", "heap block")

    c_PyMem_Malloc = c_PyMem_RawMalloc = c_PyObject_Malloc = c_malloc

    def c_calloc(self, n, m):
        n = self.conc(n) * self.conc(m)
        a = self.c_malloc(n)
        if a:
            o = self.obj(a)
            o.bg = 0
        return a

    c_PyMem_Calloc = c_PyObject_Calloc = c_PyMem_RawCalloc = c_calloc

    def c_free(self, a):
        if a == 0:
            return
        o = self.obj(a) if type(a) is int else None
        if o is None or o.kind != "heap" or (a & 0xFFFFFFFF) != BASE:
            self.violation("free of a pointer that is not a heap block")
        if not o.alive:
            self.violation("double free")
        self.kill(a)

    c_PyMem_Free = c_PyMem_RawFree = c_PyObject_Free = c_free

    def c_realloc(self, a, n):
        n = self.conc(n)
        if a == 0:
            return self.c_malloc(n)
        o = self.obj(a)
        if o is None or o.kind != "heap" or (a & 0xFFFFFFFF) != BASE:
            self.violation("realloc of a pointer that is not a heap block")
        if not o.alive:
            self.violation("realloc after free")
        if self.nomem() or n > 1 << 30:
            return 0
        b = self.new(n, "heap", "heap block")
        nb = self.obj(b)
        for off, c in o.cells.items():
            if off + c[0] <= n:
                nb.cells[off] = c
        if o.bg is not None:
            if n <= o.size:
                nb.bg = o.bg
            else:
                cov = set()
                for off, c in o.cells.items():
                    cov.update(range(off, off + c[0]))
                for i in range(o.size):
                    if i not in cov:
                        nb.cells[i] = (1, o.bg)
        self.kill(a)
        return b

    c_PyMem_Realloc = c_PyMem_RawRealloc = c_PyObject_Realloc = c_realloc

    # errors
    def c_PyErr_NoMemory(self):
        self.err = MemoryError()
        return 0

    def c_PyErr_SetString(self, t, msg):
        self.err = self.obj(t).py(self.read_cstr(msg))

    def c_PyErr_SetNone(self, t):
        self.err = self.obj(t).py()

    def c_PyErr_SetObject(self, t, v):
        self.err = self.obj(t).py(self.from_c(v))

    def fmt(self, f, args):
        f = self.read_cstr(f)
        import re

        out = []
        i = 0
        k = 0
        for m in re.finditer(r"%([-0]*)(\d+|\*)?(\.(\d+|\*))?(ll|l|z|t|j)?([a-zA-Z%])", f):
            out.extend(map(ord, f[i : m.start()]))
            i = m.end()
            c = m.group(6)
            if c == "%":
                out.append(37)
                continue
            v = args[k]
            k += 1
            if c in "sV":
                s = self.read_cstr(v)
                if m.group(4):
                    s = s[: int(m.group(4))]
                out.extend(map(ord, s))
            elif c == "c":
                v = conc1(v)
                out.append(v if type(v) is int else v.t if type(v) is SC and v.k == 0 else 0x3F)
            elif c in "di":
                v = self.conc(v)
                w = 64 if m.group(5) else 32
                v &= (1 << w) - 1
                out.extend(map(ord, str(v - (1 << w) if v >> (w - 1) else v)))
            elif c in "ux":
                out.extend(map(ord, format(self.conc(v), "d" if c == "u" else "x")))
            elif c == "U":
                out.extend(self.str_terms(v))
            else:
                out.extend(map(ord, "<object>"))
        out.extend(map(ord, f[i:]))
        return mk(out)

    def c_PyErr_Format(self, t, f, *args):
        self.err = self.obj(t).py(self.fmt(f, args))
        return 0

    def c_PyUnicode_FromFormat(self, f, *args):
        return self.new_str(self.fmt(f, args))

    def c_PyErr_Occurred(self):
        if self.err is None:
            return 0
        a = self.exc_cls.get(type(self.err))
        if a is None:
            a = self.host(type(self.err))
            self.obj(a).kind = "temp"
        return a

    def c_PyErr_Clear(self):
        self.err = None

    def c_PyErr_ExceptionMatches(self, t):
        return 1 if self.err is not None and isinstance(self.err, self.obj(t).py) else 0

    def c_PyErr_BadInternalCall(self):
        self.err = SystemError("bad argument to internal function")

    c__PyErr_BadInternalCall = lambda self, *a: self.c_PyErr_BadInternalCall()

    def c_PyErr_BadArgument(self):
        self.err = TypeError("bad argument type for built-in operation")
        return 0

    def c_PyErr_CheckSignals(self):
        return 0

    def c_PyErr_NewException(self, name, base, d):
        n = self.read_cstr(name)
        modn, _, cn = n.rpartition(".")
        b = Exception if base == 0 else self.obj(base).py
        cls = type(cn, (b,), {"__module__": modn})
        a = self.host(cls)
        self.exc_cls[cls] = a
        return a

    # modules
    def make_module(self, d):
        a = self.pyobj(64, "PyModule_Type", "module")
        n = self.load(d + 56, 8)
        st = 0
        if n and not n >> 63:
            st = self.new(n, "static", "module state")
            for i in range(0, n, 8):
                self.obj(st).cells[i] = (8, 0)
        self.obj(a).py = {"def": d, "state": st, "dict": {}}
        self.objs[a >> 32].name = "module"
        return a

    def c_PyModule_Create2(self, d, v):
        return self.make_module(d)

    def c_PyModuleDef_Init(self, d):
        return d

    def c_PyModule_GetState(self, m):
        o = self.obj(m) if type(m) is int else None
        if o is None:
            self.bad("read", m, 8)
        return o.py["state"]

    def c_PyModule_GetDict(self, m):
        raise Unsupported("PyModule_GetDict")

    def c_PyState_FindModule(self, d):
        for i, o in self.objs.items():
            if o.kind == "module" and o.py["def"] == d:
                return (i << 32) + BASE
        return 0

    def c_PyModule_AddStringConstant(self, m, k, v):
        self.obj(m).py["dict"][self.read_cstr(k)] = self.new_str(self.read_cstr(v))
        return 0

    def c_PyModule_AddIntConstant(self, m, k, v):
        self.obj(m).py["dict"][self.read_cstr(k)] = self.to_c(v)
        return 0

    def c_PyModule_AddObject(self, m, k, v):
        self.obj(m).py["dict"][self.read_cstr(k)] = v
        return 0

    def c_PyModule_AddObjectRef(self, m, k, v):
        self.incref(v)
        return self.c_PyModule_AddObject(m, k, v)

    def c_PyModule_AddType(self, m, t):
        return 0

    def c_PyType_Ready(self, t):
        o = self.wobj(t)
        fl = self.load(t + 168, 8)
        self.store(t + 168, 8, fl | F_READY)
        self.store(t, 8, IMMORTAL)
        self.store(t + 8, 8, self.sym["@PyType_Type"])
        return 0

    # objects
    def c__Py_Dealloc(self, a):
        self.dealloc(a)

    c__Py_NewReference = lambda self, a: None

    def c__PyObject_GC_New(self, t):
        if self.nomem():
            return self.fail_mem()
        n = self.load(t + 32, 8)
        a = self.new(n, "inst", "object")
        o = self.obj(a)
        o.cells[0] = (8, 1)
        o.cells[8] = (8, t)
        return a

    c__PyObject_New = c__PyObject_GC_New

    def c_PyObject_GC_Track(self, a):
        o = self.wobj(a)
        if o.track:
            self.violation("object tracked twice by the collector")
        # every field the collector would visit must be valid now
        self.traverse(a)
        o.track = True

    def traverse(self, a):
        ty = self.load(a + 8, 8)
        tr = self.load(ty + 184, 8)
        seen = []
        if tr:
            v = self.new(1, "func", "visitproc")

            def visit(M, x, arg):
                M.load(x, 8)
                seen.append(x)
                return 0

            self.obj(v).py = visit
            self.icall(tr, a, v, 0)
        return seen

    def c_PyObject_GC_UnTrack(self, a):
        self.load(a, 8)
        self.wobj(a).track = False

    def c_PyObject_GC_Del(self, a):
        o = self.obj(a) if type(a) is int else None
        if o is None or o.kind != "inst":
            self.violation("PyObject_GC_Del of something else")
        if not o.alive:
            self.violation("double free of an object")
        if o.track:
            self.violation("object freed while tracked by the collector")
        self.kill(a)

    c_PyObject_Free_inst = c_PyObject_GC_Del

    def c_PyObject_IsTrue(self, a):
        v = self.from_c(a)
        try:
            if self.obj(a).kind == "inst":
                return 1
            if hasattr(type(v), "sx_truth"):
                return 1 if v.sx_truth() else 0
            return 1 if v else 0
        except Exception as e:
            self.err = e
            return 0xFFFFFFFF

    def c_PyObject_Not(self, a):
        r = self.c_PyObject_IsTrue(a)
        return r if r == 0xFFFFFFFF else 1 - r

    def c_PyObject_SelfIter(self, a):
        return self.incref(a)

    def c_PyObject_GetIter(self, a):
        o = self.obj(a)
        if o is None or not o.alive:
            self.bad("read", a, 8)
        if o.kind == "inst":
            ty = self.load(a + 8, 8)
            it = self.load(ty + 216, 8)
            if it:
                return self.icall(it, a)
            self.err = TypeError("object is not iterable")
            return 0
        v = self.from_c(a)
        try:
            it = iter(v)
        except Exception as e:
            self.err = e
            return 0
        if self.nomem():
            return self.fail_mem()
        if it is v:
            return self.incref(a)
        return self.host(it)

    def c_PyIter_Next(self, a):
        o = self.obj(a)
        if o is None or not o.alive:
            self.bad("read", a, 8)
        if o.kind == "inst":
            ty = self.load(a + 8, 8)
            r = self.icall(self.load(ty + 224, 8), a)
            if r == 0 and isinstance(self.err, StopIteration):
                self.err = None
            return r
        try:
            v = next(o.py)
        except StopIteration:
            return 0
        except Exception as e:
            self.err = e
            return 0
        return self.to_c(v)

    def c_PyObject_Str(self, a):
        return self.new_str(strs.to_str(self.from_c(a)))

    def c_PyObject_RichCompareBool(self, a, b, op):
        if op == 2:
            return 1 if strs.sx_eq(self.from_c(a), self.from_c(b)) else 0
        raise Unsupported("RichCompareBool %d" % op)

    def c_PyIter_Check(self, a):
        o = self.obj(a)
        return 1 if hasattr(o.py, "__next__") or o.kind == "inst" else 0

    def c_PyCallable_Check(self, a):
        return 1 if callable(self.obj(a).py) else 0

    def c_PyType_IsSubtype(self, a, b):
        return 1 if a == b else 0

    def c_Py_IncRef(self, a):
        if a:
            self.incref(a)

    def c_Py_DecRef(self, a):
        if a:
            self.decref(a)

    def c_PyObject_Type(self, a):
        return self.incref(self.load(a + 8, 8))

    # lists / tuples
    def c_PyList_New(self, n):
        n = self.conc(n)
        if self.nomem():
            return self.fail_mem()
        return self.new_list([0] * n)

    def chk(self, a, kind):
        o = self.obj(a) if type(a) is int else None
        if o is None:
            self.bad("read", a, 8)
        if o.kind != kind:
            if not o.alive:
                self.bad("read", a, 8)
            self.c_PyErr_BadInternalCall()
            return None
        if not o.alive:
            self.bad("read", a, 8)
        return o

    def c_PyList_Append(self, a, x):
        if self.chk(a, "list") is None or x == 0:
            self.c_PyErr_BadInternalCall()
            return 0xFFFFFFFF
        self.load(x, 8)
        if self.nomem():
            return self.fail_mem(0xFFFFFFFF)
        n = self.load(a + 16, 8)
        buf = self.load(a + 24, 8)
        if buf:
            nb = self.wobj(buf)
            nb.size = max(nb.size, 8 * (n + 1))
        else:
            buf = self.new(8, "listbuf", "list items")
            self.store(a + 24, 8, buf)
        self.store(buf + 8 * n, 8, x)
        self.store(a + 16, 8, n + 1)
        self.incref(x)
        return 0

    def c_PyList_Insert(self, a, i, x):
        if self.chk(a, "list") is None or x == 0:
            self.c_PyErr_BadInternalCall()
            return 0xFFFFFFFF
        i = self.conc(i)
        i = i - (1 << 64) if i >> 63 else i
        n = self.load(a + 16, 8)
        i = max(0, i + n) if i < 0 else min(i, n)
        if self.c_PyList_Append(a, x):
            return 0xFFFFFFFF
        buf = self.load(a + 24, 8)
        for k in range(n, i, -1):
            self.store(buf + 8 * k, 8, self.load(buf + 8 * (k - 1), 8))
        self.store(buf + 8 * i, 8, x)
        return 0

    def c_PyList_Size(self, a):
        if self.chk(a, "list") is None:
            return M64
        return self.load(a + 16, 8)

    def c_PyList_GetItem(self, a, i):
        i = self.conc(i)
        if self.chk(a, "list") is None:
            return 0
        if i >= self.load(a + 16, 8):
            self.err = IndexError("list index out of range")
            return 0
        return self.load(self.load(a + 24, 8) + 8 * i, 8)

    def c_PyList_SetItem(self, a, i, x):
        i = self.conc(i)
        if self.chk(a, "list") is None or i >= self.load(a + 16, 8):
            if x:
                self.decref(x)
            self.err = IndexError("list assignment index out of range")
            return 0xFFFFFFFF
        buf = self.load(a + 24, 8)
        old = self.load(buf + 8 * i, 8)
        self.store(buf + 8 * i, 8, x)
        if old:
            self.decref(old)
        return 0

    def c_PyList_AsTuple(self, a):
        if self.chk(a, "list") is None:
            return 0
        n = self.load(a + 16, 8)
        buf = self.load(a + 24, 8)
        return self.new_tuple([self.incref(self.load(buf + 8 * i, 8)) for i in range(n)])

    def c_PyTuple_New(self, n):
        n = self.conc(n)
        if self.nomem():
            return self.fail_mem()
        return self.new_tuple([0] * n)

    def c_PyTuple_Size(self, a):
        if self.chk(a, "tuple") is None:
            return M64
        return self.load(a + 16, 8)

    def c_PyTuple_SetItem(self, a, i, x):
        i = self.conc(i)
        o = self.chk(a, "tuple")
        if o is None or i >= self.load(a + 16, 8) or self.load(a, 8) != 1:
            if x:
                self.decref(x)
            if o is not None:
                self.err = IndexError("tuple assignment index out of range")
            return 0xFFFFFFFF
        old = self.load(a + 24 + 8 * i, 8)
        self.store(a + 24 + 8 * i, 8, x)
        if old:
            self.decref(old)
        return 0

    def c_PyTuple_GetItem(self, a, i):
        i = self.conc(i)
        if self.chk(a, "tuple") is None:
            return 0
        if i >= self.load(a + 16, 8):
            self.err = IndexError("tuple index out of range")
            return 0
        return self.load(a + 24 + 8 * i, 8)

    def c_PyTuple_Pack(self, n, *xs):
        n = self.conc(n)
        if self.nomem():
            return self.fail_mem()
        return self.new_tuple([self.incref(x) for x in xs[:n]])

    # numbers
    def c_PyLong_AsLong(self, a):
        o = self.obj(a)
        if o.kind == "const":
            return 1 if o.py else 0
        if o.kind != "long":
            self.err = TypeError("an integer is required")
            return M64
        v = o.py
        if not -(1 << 63) <= v < (1 << 63):
            self.err = OverflowError("Python int too large to convert to C long")
            return M64
        return v & M64

    c_PyLong_AsSsize_t = c_PyLong_AsLongLong = c_PyLong_AsLong

    def c_PyLong_FromLong(self, v):
        v = self.conc(v)
        if self.nomem():
            return self.fail_mem()
        return self.to_c(v - (1 << 64) if v >> 63 else v)

    c_PyLong_FromSsize_t = c_PyLong_FromLongLong = c_PyLong_FromLong

    def c_PyLong_AsLongAndOverflow(self, a, of):
        self.store(of, 4, 0)
        if self.obj(a).kind == "long":
            v = self.obj(a).py
            if not -(1 << 63) <= v < (1 << 63):
                self.store(of, 4, 1 if v > 0 else 0xFFFFFFFF)
                return M64
        return self.c_PyLong_AsLong(a)

    def c_Py_BuildValue(self, f, *args):
        """the formats that only hold objects and plain integers"""
        f = self.read_cstr(f)
        body = f[1:-1] if f[:1] in "([" and f[-1:] in ")]" else f
        if f == "" or any(c not in "ONSinl" for c in body) or (body == f and len(f) != 1):
            raise Unsupported("Py_BuildValue(%r)" % f)
        args = list(args)
        out = []
        bad = False
        for c in body:
            v = args.pop(0)
            if c in "inl":
                v = self.conc(v)
                w = 32 if c == "i" else 64
                v = self.to_c(v - (1 << w) if v >> (w - 1) else v)
            elif v == 0:
                bad = True
            elif c != "N":
                self.incref(v)
            out.append(v)
        if bad or self.nomem():
            for v in out:
                if v:
                    self.decref(v)
            if bad:
                if self.err is None:
                    self.err = SystemError("NULL object passed to Py_BuildValue")
                return 0
            return self.fail_mem()
        if body == f:
            return out[0]
        return self.new_tuple(out) if f[0] == "(" else self.new_list(out)

    def c_PyBool_FromLong(self, v):
        return self.to_c(bool(self.br(self.icmp("ne", v, 0, 64))))

    # unicode
    def c__PyUnicode_Ready(self, a):
        self.load(a, 8)
        return 0

    def ustr(self, a):
        """checked str object"""
        o = self.obj(a) if type(a) is int else None
        if o is None or not o.alive:
            self.bad("read", a, 8)
        if o.kind != "str":
            self.err = TypeError("bad argument type for built-in operation")
            return None
        return o

    def c_PyUnicode_GetLength(self, a):
        if self.ustr(a) is None:
            return M64
        return self.load(a + 16, 8)

    def c_PyUnicode_ReadChar(self, a, i):
        i = self.conc(i)
        if self.ustr(a) is None:
            return 0xFFFFFFFF
        t = self.str_terms(a)
        if i >= len(t):
            self.err = IndexError("string index out of range")
            return 0xFFFFFFFF
        x = norm(t[i])
        return x if x >= 0 else SC(x, 32)

    def chars(self, data, kind, n):
        out = []
        for i in range(n):
            v = conc1(self.load(data + i * kind, kind))
            if type(v) is int:
                out.append(v)
            elif type(v) is SC and v.k == 0:
                out.append(v.t)
            else:
                raise Unsupported("computed character")
        return out

    def c_PyUnicode_FromKindAndData(self, kind, data, n):
        kind, n = self.conc(kind), self.conc(n)
        if n >> 63:
            self.err = ValueError("size must be positive")
            return 0
        if kind not in (1, 2, 4):
            self.err = SystemError("invalid kind")
            return 0
        out = self.chars(data, kind, n)
        for x in out:
            if x > 0x10FFFF:
                self.err = ValueError("character out of range")
                return 0
        if self.nomem():
            return self.fail_mem()
        return self.new_str(mk(out))

    def c_PyUnicode_FromStringAndSize(self, data, n):
        n = self.conc(n)
        if n >> 63:
            self.err = SystemError("Negative size passed to PyUnicode_FromStringAndSize")
            return 0
        out = []
        for i in range(n):
            v = conc1(self.load(data + i, 1))
            if type(v) is int:
                if v >= 128:
                    try:
                        bytes([v]).decode()
                    except UnicodeDecodeError as e:
                        self.err = e
                        return 0
                out.append(v)
            elif type(v) is SC and v.k == 0:
                if not core.CUR.decide(t_in(v.t, ISet.range(0, 127))):
                    raise Unsupported("UTF-8 decoding of symbolic bytes")
                out.append(v.t)
            else:
                raise Unsupported("computed character")
        if self.nomem():
            return self.fail_mem()
        return self.new_str(mk(out))

    def c_PyUnicode_FromString(self, s):
        if self.nomem():
            return self.fail_mem()
        return self.new_str(self.read_cstr(s))

    c_PyUnicode_InternFromString = c_PyUnicode_FromString

    def c_PyUnicode_New(self, n, maxchar):
        n = self.conc(n)
        maxchar = self.conc(maxchar)
        if n >> 63:
            self.err = SystemError("Negative size passed to PyUnicode_New")
            return 0
        if self.nomem():
            return self.fail_mem()
        if n == 0:
            return self.new_str("")
        if maxchar > 0x10FFFF:
            self.err = SystemError("invalid maximum character passed to PyUnicode_New")
            return 0
        a = self.pyobj(0, "PyUnicode_Type", "str")
        o = self.obj(a)
        u = o.py = UniData(None)
        u.ascii = maxchar < 128
        u.kind = 1 if maxchar < 256 else 2 if maxchar < 65536 else 4
        o.cells[16] = (8, n)
        self.layout(o, u, n)
        return a

    def c_PyUnicode_CopyCharacters(self, to, ts, fr, fs, n):
        ts, fs, n = self.conc(ts), self.conc(fs), self.conc(n)
        if self.ustr(to) is None or self.ustr(fr) is None:
            return M64
        src = self.str_terms(fr)
        uo = self.obj(to)
        if not uo.py.built:
            uo = self.resolve(to)
        tn = self.load(to + 16, 8)
        if fs > len(src) or ts > tn:
            self.err = IndexError("string index out of range")
            return M64
        if n >> 63:
            self.err = SystemError("how_many cannot be negative")
            return M64
        n = min(n, len(src) - fs)
        if ts + n > tn:
            self.err = SystemError("Cannot write %d characters at %d in a string of %d characters" % (n, ts, tn))
            return M64
        if n == 0:
            return 0
        if self.load(to, 8) != 1:
            self.err = SystemError("Cannot modify a string currently used")
            return M64
        u = uo.py
        lim = 0x80 if u.ascii else {1: 0x100, 2: 0x10000, 4: MAXU}[u.kind]
        base = 40 if u.ascii else 56
        if not core.CUR.decide(fand(t_in(x, ISet.range(0, lim - 1)) for x in src[fs : fs + n])):
            self.err = SystemError("Cannot copy characters into a narrower string")
            return M64
        for i in range(n):
            x = norm(src[fs + i])
            self.store(to + base + (ts + i) * u.kind, u.kind, x if x >= 0 else SC(x, 8 * u.kind))
        return n

    def c_PyUnicode_WriteChar(self, a, i, c):
        i = self.conc(i)
        if self.ustr(a) is None:
            return 0xFFFFFFFF
        o = self.obj(a)
        u = o.py
        if not u.built:
            o = self.resolve(a)
            u = o.py
        if i >= self.load(a + 16, 8):
            self.err = IndexError("string index out of range")
            return 0xFFFFFFFF
        self.store(a + (40 if u.ascii else 56) + i * u.kind, u.kind, self.cast("trunc", c, 32, 8 * u.kind) if u.kind < 4 else c)
        return 0

    def c_PyUnicode_Substring(self, a, s, e):
        s, e = self.conc(s), self.conc(e)
        if self.ustr(a) is None:
            return 0
        t = self.str_terms(a)
        if s >> 63 or e >> 63:
            self.err = IndexError("string index out of range")
            return 0
        e = min(e, len(t))
        if self.nomem():
            return self.fail_mem()
        if s == 0 and e == len(t) and self.ustr(a).orig is None:
            return self.incref(a)
        return self.new_str(mk(t[s:e]) if s < e else "")

    def c_PyUnicode_Concat(self, a, b):
        if self.ustr(a) is None or self.ustr(b) is None:
            return 0
        if self.nomem():
            return self.fail_mem()
        return self.new_str(mk(self.str_terms(a) + self.str_terms(b)))

    def c_PyUnicode_Append(self, p, b):
        a = self.load(p, 8)
        r = self.c_PyUnicode_Concat(a, b) if a and b else 0
        if a:
            self.decref(a)
        self.store(p, 8, r)

    def c_PyUnicode_AppendAndDel(self, p, b):
        self.c_PyUnicode_Append(p, b)
        if b:
            self.decref(b)

    def c_PyUnicode_FromObject(self, a):
        u = self.ustr(a)
        if u is None:
            return 0
        if u.orig is not None:
            return self.fail_mem() if self.nomem() else self.new_str(mk(self.str_terms(a)))
        return self.incref(a)

    def c_PyUnicode_FromOrdinal(self, c):
        c = conc1(c)
        if self.nomem():
            return self.fail_mem()
        return self.new_str(mk((c if type(c) is int else c.t,)))

    def c_PyUnicode_Compare(self, a, b):
        x, y = mk(self.str_terms(a)), mk(self.str_terms(b))
        if strs.sx_eq(x, y):
            return 0
        return 0xFFFFFFFF if x < y else 1

    def c_PyUnicode_CompareWithASCIIString(self, a, s):
        x, y = mk(self.str_terms(a)), self.read_cstr(s)
        if strs.sx_eq(x, y):
            return 0
        return 0xFFFFFFFF if x < y else 1

    def c_PyUnicode_Tailmatch(self, a, sub, s, e, d):
        t, p = self.str_terms(a), self.str_terms(sub)
        s, e, d = self.conc(s), self.conc(e), self.conc(d)
        sx = lambda v, w=64: v - (1 << w) if v >> (w - 1) else v
        x = strs.lift(mk(t))
        f = x.endswith if sx(d, 32) > 0 else x.startswith
        return 1 if f(mk(p), sx(s), sx(e)) else 0

    def c_PyUnicode_FindChar(self, a, ch, s, e, d):
        t = self.str_terms(a)
        s, e, d = self.conc(s), self.conc(e), self.conc(d)
        e = min(e, len(t))
        ch = conc1(ch)
        ct = ch if type(ch) is int else ch.t
        rng = range(s, e) if not d >> 31 else range(e - 1, s - 1, -1)
        for i in rng:
            if core.CUR.decide(t_eq(norm(t[i]), ct)):
                return i
        return M64

    # UCS4 copies
    def c_PyUnicode_AsUCS4Copy(self, a):
        t = self.str_terms(a)
        if self.nomem():
            return self.fail_mem()
        b = self.new(4 * (len(t) + 1), "heap", "heap block")
        o = self.obj(b)
        for i, x in enumerate(t):
            x = norm(x)
            o.cells[4 * i] = (4, x if x >= 0 else SC(x, 32))
        o.cells[4 * len(t)] = (4, 0)
        return b

    # argument parsing
    def parse_args(self, items, kw, fmt, names, outs):
        """items: borrowed pointers"""
        fmt = fmt.split(":")[0].split(";")[0]
        i = 0
        opt = False
        kwonly = False
        pos = 0
        oi = 0
        used = 0
        idx = 0
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c == "|":
                opt = True
                continue
            if c == "$":
                kwonly = True
                if len(items) > idx:
                    self.err = TypeError("function takes at most %d positional arguments (%d given)" % (idx, len(items)))
                    return False
                continue
            val = 0
            if idx < len(items):
                val = items[idx]
                if names and kw and names[idx] in kw:
                    self.err = TypeError("argument for function given by name (%r) and position" % names[idx])
                    return False
            elif names and kw and names[idx] and names[idx] in kw:
                val = kw[names[idx]]
                used += 1
            elif not opt:
                self.err = TypeError("function missing required argument")
                return False
            extra = None
            if c == "O" and i < len(fmt) and fmt[i] == "!":
                extra = outs[oi]
                oi += 1
                i += 1
            elif c == "O" and i < len(fmt) and fmt[i] == "&":
                conv = outs[oi]
                dst = outs[oi + 1]
                oi += 2
                i += 1
                if val and self.conc(self.icall(conv, val, dst)) == 0:
                    return False
                idx += 1
                continue
            dst = outs[oi]
            oi += 1
            if c == "s" and i < len(fmt) and fmt[i] == "#":
                raise Unsupported("s# argument")
            if val:
                if not self.convert(c, val, dst, extra):
                    return False
            idx += 1
        if len(items) > idx:
            self.err = TypeError("function takes at most %d arguments (%d given)" % (idx, len(items)))
            return False
        if kw and used < len(kw):
            for k in kw:
                if k not in names:
                    self.err = TypeError("%r is an invalid keyword argument for this function" % k)
                    return False
        return True

    def convert(self, c, val, dst, extra):
        o = self.obj(val)
        if c == "O":
            if extra is not None and self.load(val + 8, 8) != extra:
                self.err = TypeError("argument has the wrong type")
                return False
            self.store(dst, 8, val)
        elif c == "U":
            if o.kind != "str":
                self.err = TypeError("argument must be str")
                return False
            self.store(dst, 8, val)
        elif c in "liInkL":
            v = self.c_PyLong_AsLong(val)
            if self.err is not None:
                return False
            w = 4 if c in "iI" else 8
            if w == 4 and c == "i" and not -(1 << 31) <= (v - (1 << 64) if v >> 63 else v) < (1 << 31):
                self.err = OverflowError("signed integer is greater than maximum")
                return False
            self.store(dst, w, v & ((1 << (8 * w)) - 1))
        elif c == "p":
            r = self.c_PyObject_IsTrue(val)
            if r == 0xFFFFFFFF:
                return False
            self.store(dst, 4, r)
        elif c == "C":
            if o.kind != "str" or len(self.str_terms(val)) != 1:
                self.err = TypeError("argument must be a unicode character")
                return False
            x = norm(self.str_terms(val)[0])
            self.store(dst, 4, x if x >= 0 else SC(x, 32))
        else:
            raise Unsupported("argument format %r" % c)
        return True

    def c_PyArg_ParseTuple(self, tup, fmt, *outs):
        n = self.load(tup + 16, 8)
        items = [self.load(tup + 24 + 8 * i, 8) for i in range(n)]
        return 1 if self.parse_args(items, None, self.read_cstr(fmt), None, outs) else 0

    def c_PyArg_ParseTupleAndKeywords(self, tup, kw, fmt, names, *outs):
        n = self.load(tup + 16, 8)
        items = [self.load(tup + 24 + 8 * i, 8) for i in range(n)]
        nm = []
        while True:
            p = self.load(names, 8)
            if p == 0:
                break
            nm.append(self.read_cstr(p))
            names += 8
        kwd = self.obj(kw).py if kw else None
        return 1 if self.parse_args(items, kwd, self.read_cstr(fmt), nm, outs) else 0

    def c_PyArg_UnpackTuple(self, tup, name, lo, hi, *outs):
        n = self.load(tup + 16, 8)
        if not self.conc(lo) <= n <= self.conc(hi):
            self.err = TypeError("wrong number of arguments")
            return 0
        for i in range(n):
            self.store(outs[i], 8, self.load(tup + 24 + 8 * i, 8))
        return 1

    # libc
    def c_strlen(self, a):
        n = 0
        while self.conc(self.load(a + n, 1)):
            n += 1
        return n

    def c_memcpy(self, d, s, n):
        self.memcpy(d, s, n)
        return d

    c_memmove = c_memcpy

    def c_memset(self, d, v, n):
        self.memset(d, self.conc(v) & 0xFF, n)
        return d

    def c_abort(self):
        self.violation("abort() called")

    c_Py_FatalError = lambda self, *a: self.violation("fatal error")


class CFunc:
    """host view of a builtin function"""

    __slots__ = ("M", "name", "meth", "flags", "mod")
    __name__ = "builtin"

    def __init__(self, M, name, meth, flags, mod):
        self.M, self.name, self.meth, self.flags, self.mod = M, name, meth, flags, mod

    def __call__(self, *a, **k):
        return self.M.call(self.meth, self.flags, self.mod, a, k)


class CObj:
    """host view of an instance of an extension type (owns a reference)"""

    __slots__ = ("M", "ptr")

    def __init__(self, M, ptr):
        self.M = M
        self.ptr = ptr

    def __iter__(self):
        M = self.M
        ty = M.load(self.ptr + 8, 8)
        it = M.load(ty + 216, 8)
        if not it:
            raise TypeError("object is not iterable")
        r = M.icall(it, self.ptr)
        return M.result(r)

    def __next__(self):
        M = self.M
        M.calls += 1
        ty = M.load(self.ptr + 8, 8)
        it = M.load(ty + 224, 8)
        if not it:
            raise TypeError("object is not an iterator")
        M.incref(self.ptr)
        r = M.icall(it, self.ptr)
        if r == 0 and M.err is None:
            M.decref(self.ptr)
            raise StopIteration
        try:
            return M.result(r)
        finally:
            import sys

            if not isinstance(sys.exc_info()[1], core.PathAbort):
                M.decref(self.ptr)

    def __getattr__(self, name):
        M = object.__getattribute__(self, "M")
        ty = M.load(self.ptr + 8, 8)
        m = M.load(ty + 240, 8)
        while m and M.load(m, 8):
            if M.read_cstr(M.load(m, 8)) == name:
                t = M.load(m + 8, 4)
                p = self.ptr + M.load(m + 16, 8)
                if t == 1:
                    v = M.conc(M.load(p, 4))
                    return v - (1 << 32) if v >> 31 else v
                if t == 2 or t == 19:
                    v = M.conc(M.load(p, 8))
                    return v - (1 << 64) if v >> 63 else v
                if t == 14:
                    return bool(M.conc(M.load(p, 1)))
                if t in (6, 16):
                    v = M.load(p, 8)
                    if v == 0 and t == 6:
                        return None
                    if v == 0:
                        raise AttributeError(name)
                    return M.from_c(v)
                raise Unsupported("member type %d" % t)
            m += 40
        md = M.load(ty + 232, 8)
        while md and M.load(md, 8):
            if M.read_cstr(M.load(md, 8)) == name:
                return CFunc(M, name, M.load(md + 8, 8), M.load(md + 16, 4), self.ptr)
            md += 32
        g = M.load(ty + 248, 8)
        while g and M.load(g, 8):
            if M.read_cstr(M.load(g, 8)) == name:
                return M.result(M.icall(M.load(g + 8, 8), self.ptr, M.load(g + 32, 8)))
            g += 40
        raise AttributeError("object has no attribute %r" % name)
