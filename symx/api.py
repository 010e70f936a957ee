"""Harness interface, symbolic side.  The same harness source runs natively
against the compiled package through native.NatH (replay, validation)."""
import gc
import sys
import types

from . import core, loader, pysrc, strs, vio
from .conts import SymDict, SymSet
from .core import (FAnd, FEq, FIn, FLt, FNot, FOr, FZ, EngineError, Infeasible, SymBool, Unsupported, boolf, fnot)
from .iset import UNICODE, ISet
from .strs import MC, LazyStr, SymBytes, SymEnum, SymInt, SymStr, mk

_DOMS = {}


def domain(only, without):
    k = (only, without)
    d = _DOMS.get(k)
    if d is None:
        d = UNICODE if only is None else ISet.from_iter(map(ord, only))
        if without:
            d = d - ISet.from_iter(map(ord, without))
        _DOMS[k] = d
    return d


class Stub:
    """stand-in for a module that is not part of the package"""

    def __init__(self, names):
        self.__dict__.update(names)


class SymH:
    symbolic = True

    def __init__(self, world, path, cfg):
        self.w = world
        self.p = path
        self.cfg = cfg
        self.fs = world.fs
        world.stubs.clear()

    # ---- inputs
    def text(self, n, only=None, without=None, name="text"):
        ban = ()
        if without is not None and type(without) is not str:
            without = [mk([x]) for x in strs.terms(without)]
            ban = [c for c in without if type(c) is not str]
            without = "".join(c for c in without if type(c) is str)
        d = domain(only, without)
        vs = [self.p.new_var(d, name) for _ in range(n)]
        self.p.log.append(("t", name, vs))
        for v in vs:
            for c in ban:
                self.p.assume(fnot(boolf(mk([-(v + 1)]) == c)))
        return mk([-(v + 1) for v in vs])

    def pick(self, options, name="pick"):
        options = list(options)
        i = self.p.choose(len(options))
        self.p.log.append(("p", name, i))
        return options[i]

    def flag(self, name="flag"):
        return self.pick((False, True), name)

    def text_upto(self, n, only=None, without=None, name="text", least=0):
        k = self.pick(range(n, least - 1, -1), name + ".len")
        return self.text(k, only, without, name)

    # ---- logic
    def assume(self, c):
        self.p.assume(boolf(c))

    def check(self, c, label):
        if isinstance(c, SymStr) or not isinstance(c, (bool, SymBool)):
            c = bool(c)
        self.p.check(boolf(c), label)

    def fail(self, label):
        self.p.check(False, label)

    def reach(self, label):
        self.p.reached.add(label)

    def obs(self, x):
        self.p.observed.append(freeze(x))

    # ---- environment
    def mod(self, name):
        return self.w.get(name)

    def opt(self, name, value):
        if name == "uni_mode":
            self.w.M.uni_mode = value
        else:
            self.p.opts[name] = value

    def detected_encoding(self, enc):
        """what the encoding detector answers, whatever it is fed with"""
        self.p.opts["detected"] = enc

    def write_file(self, name, text, encoding="utf-8"):
        k = self.fs.key(name)
        ino = vio.Inode(strs.terms(text), encoding)
        self.fs.files[k] = ino
        return name

    def read_file(self, name, encoding="utf-8"):
        self.fs.settle()
        ino = self.fs.files[self.fs.key(name)]
        a, b = vio.norm_enc(ino.enc), vio.norm_enc(encoding)
        if ino.t and a != b:
            compat = ("utf-8", "ascii", "iso8859-1", "cp1252")
            if not (a in compat and b in compat and all(strs.decide(vio._below(x, 128)) for x in ino.t)):
                return ("stored as", a)
        return mk(ino.t)

    def exists(self, name):
        return self.fs.key(name) in self.fs.files

    def open_files(self):
        """number of files that are open and can still be reached"""
        if any(not f.closed for f in self.fs.seen):
            gc.collect()
        return sum(not f.closed for f in self.fs.seen)

    def listing(self):
        """names of all files in the working directory"""
        r = self.fs.ROOT + "/"
        return sorted(k[len(r):] for k in list(self.fs.files) + list(self.fs.links) if k.startswith(r))

    def mkdir(self, name):
        self.fs.dirs.add(self.fs.key(name))

    def symlink(self, target, name):
        self.fs.links[self.fs.key(name, False)] = target

    def hardlink(self, target, name):
        self.fs.files[self.fs.key(name)] = self.fs.files[self.fs.key(target)]

    def is_link(self, name):
        return self.fs.key(name, False) in self.fs.links

    def leftovers(self):
        """number of files in the directory for temporary files"""
        r = self.fs.ROOT + "/"
        return sum(1 for k in self.fs.files if not k.startswith(r))

    def mode(self, name):
        return self.fs.files[self.fs.key(name)].mode

    def set_mode(self, name, m):
        self.fs.files[self.fs.key(name)].mode = m

    def stub(self, name, names):
        self.w.stubs[name] = Stub(names)

    def restart(self):
        """a new process: all modules of the package are as after their import"""
        for c in self.w.caches:
            c.order.clear()
        self.w.restore()

    def missing(self, name):
        """the package is not installed"""
        self.w.stubs[name] = None

    def detector(self, package, cls):
        """the class a package for encoding detection offers"""
        self.p.opts.setdefault("detectors", {})[package] = cls

    def bytes_of(self, parts):
        """the text that pieces of a plain ASCII file make up"""
        t = []
        for b in parts:
            t += list(b) if isinstance(b, (bytes, bytearray)) else list(b.t)
        return mk(t)

    def set_argv(self, argv):
        sys.argv = list(argv)
        self.w.get("sys").argv = sys.argv

    def sessions(self):
        """interactive sessions that were started: (variables, banner)"""
        return self.p.opts.setdefault("sessions", [])

    def run_code(self, code, names=None):
        """runs generated source text; its string literals may hold unknown characters"""
        lits, src = pysrc.split(code)
        m = types.ModuleType("__generated__")
        m.__dict__["__builtins__"] = self.w.builtins
        m.__dict__["_lit"] = lits
        for k, v in (names or {}).items():
            m.__dict__[loader.NAMES.get(k, k)] = v
        exec(loader.transform(src, "<generated>"), m.__dict__)
        return m.__dict__

    def arm(self):
        """file operations may fail from here on"""
        self.fs.armed = True

    def disarm(self):
        self.fs.armed = False

    def fault_op(self):
        """the file operation that failed, or None"""
        return self.fs.fault_op

    def crashed(self, name):
        """content of a file when the process was stopped: None where it was not"""
        s = self.fs.snap
        if s is None:
            return None
        k = self._snap_key(name)
        if k not in s:
            return ("no file",)
        return mk(s[k][0])

    def _snap_key(self, name):
        now, self.fs.links = self.fs.links, self.fs.snap_links
        try:
            return self.fs.key(name)
        finally:
            self.fs.links = now

    def crashed_mode(self, name):
        return self.fs.snap[self._snap_key(name)][2]

    def stdout(self):
        return self.w.stdout.getvalue()

    def stringio(self, text, newline=""):
        return vio.StringIO(text, newline=newline)

    def ordinary(self, s, label):
        """s is an exact str in its canonical representation (the representation itself is
        checked by the C machine when the object is handed to Python)"""
        self.check(strs.is_str(s) and type(s) in (str, strs.SymStr, strs.LazyStr), label)

    def machine_finish(self):
        """end-of-life checks of the C models (leaks, invalid objects)"""
        self.w.M.finish()


def freeze(x):
    """force delayed text so that the observation is a function of the model"""
    t = type(x)
    if t is LazyStr:
        return x.force()
    if t in (list, tuple):
        return [freeze(y) for y in x]
    if isinstance(x, SymDict):
        return {"d": [[freeze(k), freeze(v)] for k, v in x.items()]}
    if isinstance(x, SymSet):
        return [freeze(y) for y in x]
    if t is dict:
        return {"d": [[freeze(k), freeze(v)] for k, v in x.items()]}
    if t.__name__ == "LazyNum":
        return x.f()
    return x


def evf(f, m):
    t = type(f)
    if t is bool:
        return f
    if t is FIn:
        return m[f.v] in f.s
    if t is FEq:
        return m[f.a] == m[f.b]
    if t is FLt:
        return m[f.a] < m[f.b]
    if t is FNot:
        return not evf(f.f, m)
    if t is FAnd:
        return all(evf(g, m) for g in f.fs)
    if t is FOr:
        return any(evf(g, m) for g in f.fs)
    if t is FZ:
        import z3

        e = z3.substitute(f.e, *[(core.zvar(v), z3.BitVecVal(m[v], core.BW)) for v in f.vs])
        return z3.is_true(z3.simplify(e))
    raise EngineError("evf")


def conc(x, m):
    """value of an observation under a model, in JSON shape"""
    t = type(x)
    if t is SymStr:
        out = []
        for y in x.t:
            if type(y) is MC:
                c = m[y.v]
                r = y.tab.image(c) if hasattr(y.tab, "image") else getattr(chr(c), y.tab.name)()
                out.append(r)
            else:
                out.append(chr(y) if y >= 0 else chr(m[-y - 1]))
        return "".join(out)
    if t in (list, tuple):
        return [conc(y, m) for y in x]
    if t is dict:
        return {k: conc(v, m) for k, v in x.items()}
    if t is SymBool:
        return evf(x.f, m)
    if t is SymInt:
        return m[x.v] + x.k
    if t is SymEnum:
        for val, s in x.m.items():
            if m[x.v] in s:
                return val
    if x is None or t in (bool, int, float, str):
        return x
    return "<%s>" % t.__name__


def inputs_of(path, vals):
    """replayable inputs under a model"""
    out = []
    for e in path.log:
        if e[0] == "t":
            out.append(["t", e[1], [vals[v] for v in e[2]]])
        else:
            out.append(list(e))
    return out
