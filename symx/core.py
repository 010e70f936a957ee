"""Path-exploring symbolic execution core: formulas over character variables,
a domain/equality pre-solver, and z3 as the decider.

A path is re-executed from the start with a prefix of recorded decisions.  Every
completed path has its raw path condition checked satisfiable by z3 (which gives
the model that is replayed), and the negation of every assertion checked by z3.
"""
import sys
import time
from bisect import bisect_right

import z3

from .iset import EMPTY, UNICODE, ISet

BW = 21


class PathAbort(BaseException):
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if CUR is not None and CUR.aborted is None:
            CUR.aborted = self


class Infeasible(PathAbort):
    """an assumption is false on this path"""


class Unsupported(PathAbort):
    """the engine cannot encode what the code does here"""


class Hang(PathAbort):
    """step budget exceeded"""


class Stop(PathAbort):
    """path ended early by the harness after a recorded violation"""


class EngineError(BaseException):
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if CUR is not None and CUR.aborted is None:
            CUR.aborted = self


CUR = None


# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ()


class FIn(F):
    __slots__ = ("v", "s")

    def __init__(self, v, s):
        self.v = v
        self.s = s

    def __repr__(self):
        return "c%d in %r" % (self.v, self.s)


class FEq(F):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return "c%d==c%d" % (self.a, self.b)


class FLt(F):
    """c_a < c_b as code points"""

    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return "c%d<c%d" % (self.a, self.b)


class FNot(F):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "!(%r)" % (self.f,)


class FAnd(F):
    __slots__ = ("fs",)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return "(" + " & ".join(map(repr, self.fs)) + ")"


class FOr(F):
    __slots__ = ("fs",)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return "(" + " | ".join(map(repr, self.fs)) + ")"


class FZ(F):
    __slots__ = ("e", "vs")

    def __init__(self, e, vs=()):
        self.e = e
        self.vs = vs

    def __repr__(self):
        return "z3[%s]" % (self.e,)


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if type(f) is FNot:
        return f.f
    return FNot(f)


def fin(v, s):
    if not s:
        return False
    return FIn(v, s)


def feq(a, b):
    if a == b:
        return True
    return FEq(a, b) if a < b else FEq(b, a)


def fand(fs):
    out = []
    ins = {}
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if type(f) is FAnd:
            items = f.fs
        else:
            items = (f,)
        for g in items:
            if type(g) is FIn:
                k = ins.get(g.v)
                if k is not None:
                    s = out[k].s & g.s
                    if not s:
                        return False
                    out[k] = FIn(g.v, s)
                    continue
                ins[g.v] = len(out)
            out.append(g)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return FAnd(tuple(out))


def for_(fs):
    out = []
    ins = {}
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if type(f) is FOr:
            items = f.fs
        else:
            items = (f,)
        for g in items:
            if type(g) is FIn:
                k = ins.get(g.v)
                if k is not None:
                    out[k] = FIn(g.v, out[k].s | g.s)
                    continue
                ins[g.v] = len(out)
            out.append(g)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return FOr(tuple(out))


def fimp(a, b):
    return for_((fnot(a), b))


def fiff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return fnot(b)
    if b is False:
        return fnot(a)
    return for_((fand((a, b)), fand((fnot(a), fnot(b)))))


def fvars(f, acc=None):
    if acc is None:
        acc = set()
    t = type(f)
    if t is FIn:
        acc.add(f.v)
    elif t is FEq or t is FLt:
        acc.add(f.a)
        acc.add(f.b)
    elif t is FNot:
        fvars(f.f, acc)
    elif t is FAnd or t is FOr:
        for g in f.fs:
            fvars(g, acc)
    elif t is FZ:
        acc.update(f.vs)
    return acc


_ZV = []
_ZIN = {}
_ZSET = {}


def zvar(i):
    while len(_ZV) <= i:
        _ZV.append(z3.BitVec("c%d" % len(_ZV), BW))
    return _ZV[i]


_ZRNG = {}


def zrange(v, lo, hi):
    k = (v, lo, hi)
    r = _ZRNG.get(k)
    if r is None:
        x = zvar(v)
        full = (1 << BW) - 1
        if lo == hi:
            r = x == lo
        elif lo <= 0:
            r = z3.ULE(x, hi) if hi < full else z3.BoolVal(True)
        elif hi >= full:
            r = z3.UGE(x, lo)
        else:
            r = z3.And(z3.ULE(x, hi), z3.UGE(x, lo))
        _ZRNG[k] = r
    return r


def zin(v, s):
    k = (v, s.id)
    r = _ZIN.get(k)
    if r is None:
        b = s.b
        n = len(b) >> 1
        if n == 0:
            r = z3.BoolVal(False)
        elif n == 1:
            r = zrange(v, b[0], b[1] - 1)
        else:
            ctx = z3.main_ctx()
            arr = (z3.Ast * n)(*[zrange(v, b[i], b[i + 1] - 1).as_ast() for i in range(0, 2 * n, 2)])
            r = z3.BoolRef(z3.Z3_mk_or(ctx.ref(), n, arr), ctx)
        if len(_ZIN) > 20000:
            _ZIN.clear()
        _ZIN[k] = r
    return r


def tozf(f):
    t = type(f)
    if t is FIn:
        return zin(f.v, f.s)
    if t is FEq:
        return zvar(f.a) == zvar(f.b)
    if t is FLt:
        return z3.ULT(zvar(f.a), zvar(f.b))
    if t is FNot:
        return z3.Not(tozf(f.f))
    if t is FAnd:
        return z3.And(*[tozf(g) for g in f.fs])
    if t is FOr:
        return z3.Or(*[tozf(g) for g in f.fs])
    if t is FZ:
        return f.e
    return z3.BoolVal(bool(f))


# ---------------------------------------------------------------- statistics
class Stats:
    FIELDS = (
        "paths", "infeasible", "decisions", "z3_queries", "z3_time", "z3_sat",
        "z3_unsat", "checks", "steps", "unsupported", "hangs", "violations", "reached",
        "forced", "search", "implied", "confirmed",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


STATS = Stats()
_SOLVER = None


def solver():
    global _SOLVER
    if _SOLVER is None:
        _SOLVER = z3.SolverFor("QF_BV")
        _SOLVER.set("timeout", 120000)
    return _SOLVER


def zcheck(exprs, want_model=False):
    """sat? of a conjunction; returns (True/False, model or None)"""
    t = time.perf_counter()
    s = solver()
    s.push()
    try:
        s.add(*exprs)
        r = s.check()
        m = s.model() if (r == z3.sat and want_model) else None
    finally:
        s.pop()
    STATS.z3_queries += 1
    STATS.z3_time += time.perf_counter() - t
    if r == z3.sat:
        STATS.z3_sat += 1
        return True, m
    if r == z3.unsat:
        STATS.z3_unsat += 1
        return False, None
    raise EngineError("solver returned unknown: %s" % s.reason_unknown())


# ---------------------------------------------------------------- path state
class Dom:
    """domains + union-find + disequalities + order edges; cheap to clone"""

    __slots__ = ("dom", "par", "dis", "lt")

    def __init__(self):
        self.dom = []
        self.par = []
        self.dis = {}
        self.lt = []  # (x, y, strict): x < y or x <= y

    def clone(self):
        d = Dom.__new__(Dom)
        d.dom = self.dom[:]
        d.par = self.par[:]
        d.dis = {k: set(v) for k, v in self.dis.items()} if self.dis else {}
        d.lt = self.lt[:]
        return d

    def find(self, i):
        p = self.par
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i

    def ev(self, f):
        t = type(f)
        if t is bool:
            return f
        if t is FIn:
            d = self.dom[self.find(f.v)]
            x = d & f.s
            if x is d:
                return True
            if not x:
                return False
            return None
        if t is FEq:
            a = self.find(f.a)
            b = self.find(f.b)
            if a == b:
                return True
            da = self.dom[a]
            db = self.dom[b]
            if b in self.dis.get(a, ()):
                return False
            x = da & db
            if not x:
                return False
            if da.size == 1 and db.size == 1:
                return True
            return None
        if t is FLt:
            a = self.find(f.a)
            b = self.find(f.b)
            if a == b:
                return False
            da = self.dom[a]
            db = self.dom[b]
            if da.max() < db.min():
                return True
            if da.min() >= db.max():
                return False
            if self.lt:
                if self.reach(a, b) == 2:
                    return True
                if self.reach(b, a):
                    return False
            return None
        if t is FNot:
            r = self.ev(f.f)
            return None if r is None else not r
        if t is FAnd:
            res = True
            for g in f.fs:
                r = self.ev(g)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if t is FOr:
            res = False
            for g in f.fs:
                r = self.ev(g)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if t is FZ:
            return None
        raise EngineError("bad formula %r" % (f,))

    def setdom(self, r, s):
        """returns False when inconsistent"""
        if not s:
            return False
        if s is self.dom[r]:
            return True
        self.dom[r] = s
        if s.size == 1:
            for o in list(self.dis.get(r, ())):
                d = self.dom[o]
                n = d - s
                if n is not d and not self.setdom(o, n):
                    return False
        if self.lt:
            for x, y, k in self.lt:
                x = self.find(x)
                y = self.find(y)
                if r == x or r == y:
                    if x == y:
                        if k:
                            return False
                        continue
                    if not self.edge(x, y, k):
                        return False
        return True

    def edge(self, x, y, k):
        """bounds propagation over x < y (k=1) or x <= y (k=0)"""
        dx = self.dom[x]
        dy = self.dom[y]
        m = dy.max() - k
        if dx.max() > m and not self.setdom(x, dx & ISet.range(0, m)):
            return False
        m = self.dom[x].min() + k
        if dy.min() < m and not self.setdom(y, self.dom[y] & ISet.range(m, 0x1FFFFF)):
            return False
        return True

    def reach(self, x, y):
        """2: a path with a strict edge, 1: a path, 0: none"""
        seen = {}
        todo = [(x, 0)]
        best = 0
        while todo:
            n, k = todo.pop()
            for p, q, s in self.lt:
                if self.find(p) == n:
                    q = self.find(q)
                    ks = k | s
                    if q == y:
                        best = max(best, 1 + ks)
                        if best == 2:
                            return 2
                    if seen.get(q, -1) < ks:
                        seen[q] = ks
                        todo.append((q, ks))
        return best

    def assume(self, f, val, rest):
        """Apply literal facts; undetermined disjunctions go to `rest`.
        False when inconsistent."""
        t = type(f)
        if t is bool:
            return f == val
        if t is FIn:
            r = self.find(f.v)
            d = self.dom[r]
            return self.setdom(r, d & f.s if val else d - f.s)
        if t is FEq:
            a = self.find(f.a)
            b = self.find(f.b)
            if val:
                if a == b:
                    return True
                if b in self.dis.get(a, ()):
                    return False
                if b < a:
                    a, b = b, a
                self.par[b] = a
                nb = self.dis.pop(b, None)
                if nb:
                    sa = self.dis.setdefault(a, set())
                    for o in nb:
                        so = self.dis[o]
                        so.discard(b)
                        so.add(a)
                        sa.add(o)
                x = self.dom[a] & self.dom[b]
                if not x:
                    return False
                if self.lt and self.reach(a, a) == 2:
                    return False
                old = self.dom[a]
                if x is old:
                    if (x.size == 1 and nb) or self.lt:
                        self.dom[a] = UNICODE  # force propagation to the new neighbours
                        return self.setdom(a, x)
                    return True
                return self.setdom(a, x)
            if a == b:
                return False
            da = self.dom[a]
            db = self.dom[b]
            if da.size == 1:
                return self.setdom(b, db - da)
            if db.size == 1:
                return self.setdom(a, da - db)
            if da & db:
                self.dis.setdefault(a, set()).add(b)
                self.dis.setdefault(b, set()).add(a)
            return True
        if t is FLt:
            if val:
                x, y, k = self.find(f.a), self.find(f.b), 1
            else:
                x, y, k = self.find(f.b), self.find(f.a), 0
            if x == y:
                return not k
            back = self.reach(y, x)
            if back:
                if k or back == 2:
                    return False
                return self.assume(FEq(x, y), True, rest)
            self.lt.append((x, y, k))
            return self.edge(x, y, k)
        if t is FNot:
            return self.assume(f.f, not val, rest)
        if (t is FAnd and val) or (t is FOr and not val):
            for g in f.fs:
                if not self.assume(g, val, rest):
                    return False
            return True
        if t is FOr or t is FAnd:
            # at least one g has ev(g)==val
            und = []
            for g in f.fs:
                r = self.ev(g)
                if r is val:
                    return True
                if r is None:
                    und.append(g)
            if not und:
                return False
            if len(und) == 1:
                return self.assume(und[0], val, rest)
            rest.append((t(tuple(und)), val))
            return True
        if t is FZ:
            rest.append((f, val))
            return True
        raise EngineError("bad formula %r" % (f,))

    def solve(self):
        """dict of values for the constrained classes: satisfies dis and lt;
        False: unsatisfiable; None: do not know"""
        dis = self.dis
        lt = []
        for x, y, k in self.lt:
            x = self.find(x)
            y = self.find(y)
            if x == y:
                if k:
                    return False
                continue
            lt.append((x, y, k))
        nodes = {k for k, v in dis.items() if v}
        if not nodes and not lt:
            return {}
        preds = {}
        for x, y, k in lt:
            preds.setdefault(y, []).append((x, k))
            nodes.add(x)
            nodes.add(y)
        val = {}
        order = sorted(nodes, key=lambda n: (self.dom[n].size, n))
        pushed = False
        while len(val) < len(nodes):
            progress = False
            for n in order:
                if n in val:
                    continue
                ps = preds.get(n, ())
                if any(x not in val for x, _ in ps):
                    continue
                lo = max([val[x] + k for x, k in ps], default=0)
                ban = {val[o] for o in dis.get(n, ()) if o in val}
                v = self.dom[n].at_least(lo)
                while v is not None and v in ban:
                    pushed = True
                    v = self.dom[n].at_least(v + 1)
                if v is None:
                    return None if pushed else False
                val[n] = v
                progress = True
            if not progress:
                return None
        return val

    def peel(self):
        """True / False / None: satisfiable?"""
        if not self.lt:
            if not self.dis:
                return True
        r = self.solve()
        if r is None:
            return None
        return r is not False


class Budget(Exception):
    pass


def search(d, rest, budget):
    """Decide dom+rest by splitting on disjuncts: a solved Dom / False; Budget if unsure"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget
    changed = True
    while changed and rest:
        changed = False
        new = []
        n0 = len(rest)
        for f, val in rest:
            r = d.ev(f)
            if r is None:
                if not d.assume(f, val, new):
                    return False
            elif r is not val:
                return False
        if len(new) < n0:
            changed = True
        rest = new
        if changed and not rest:
            break
    if not rest:
        r = d.peel()
        if r is None:
            raise Budget
        return d if r else False
    rest = sorted(rest, key=lambda x: len(x[0].fs) if type(x[0]) in (FOr, FAnd) else 999)
    f, val = rest[0]
    if type(f) is FZ:
        raise Budget
    others = rest[1:]
    for g in f.fs:
        d2 = d.clone()
        r2 = list(others)
        if d2.assume(g, val, r2):
            m = search(d2, r2, budget)
            if m:
                return m
    return False


class Path:
    def __init__(self, prefix=(), max_steps=2_000_000):
        self.prefix = prefix
        self.trace = []  # decisions taken
        self.alts = []  # prefixes still to explore
        self.d = Dom()
        self.rest = []
        self.pc = []  # raw (formula, val)
        self.names = []  # per var: (input name, index) or None
        self.inputs = {}  # name -> spec
        self.order = []
        self.pending = []  # (formula, label)
        self.violation = None
        self.steps = 0
        self.max_steps = max_steps
        self.observed = []
        self.reached = set()
        self.notes = []
        self.z3extra = []
        self.objs = None
        self.opts = {}
        self.aborted = None
        self.log = []  # inputs in creation order

    # -- variables
    def new_var(self, dom=UNICODE, name=None):
        i = len(self.d.dom)
        self.d.dom.append(dom)
        self.d.par.append(i)
        self.names.append((name, dom))
        zvar(i)
        return i

    # -- feasibility
    def feasible(self, f, val):
        d = self.d.clone()
        rest = list(self.rest)
        if not d.assume(f, val, rest):
            return False
        if not rest:
            r = d.peel()
            if r is not None:
                return r
        STATS.search += 1
        try:
            return bool(search(d, rest, [200]))
        except Budget:
            pass
        e = tozf(f)
        return zcheck(self.zsimp(fvars(f)) + [e if val else z3.Not(e)])[0]

    def zsimp(self, seed):
        """the path condition in solved form (class domains, equalities,
        disequalities, order, open disjunctions), sliced to what `seed` touches"""
        d = self.d
        find = d.find
        groups = []
        for k, os in d.dis.items():
            for o in os:
                if k < o:
                    groups.append(({k, o}, lambda k=k, o=o: zvar(k) != zvar(o)))
        for x, y, k in d.lt:
            x, y = find(x), find(y)
            groups.append(({x, y}, lambda x=x, y=y, k=k: z3.ULT(zvar(x), zvar(y)) if k else z3.ULE(zvar(x), zvar(y))))
        for f, v in self.rest:
            groups.append(({find(i) for i in fvars(f)}, lambda f=f, v=v: tozf(f) if v else z3.Not(tozf(f))))
            groups[-1][0].update(fvars(f))
        want = set()
        for v in seed:
            want.add(v)
            want.add(find(v))
        out = []
        todo = groups
        while True:
            new = []
            for g in todo:
                if g[0] & want:
                    out.append(g[1]())
                    for v in g[0]:
                        want.add(v)
                        want.add(find(v))
                else:
                    new.append(g)
            if len(new) == len(todo):
                break
            todo = new
        for v in sorted(want):
            r = find(v)
            if r != v:
                out.append(zvar(v) == zvar(r))
            else:
                out.append(zin(v, d.dom[v]))
        return out + self.z3extra

    def zpc(self, near=None):
        """the raw path condition (membership literals of one variable are
        intersected first; with `near`, only the interval around the given value
        is asserted, which is stronger)"""
        used = {}
        rest = []
        for f, val in self.pc:
            t = type(f)
            if t is FNot:
                f, val = f.f, not val
                t = type(f)
            if t is FIn:
                v = f.v
                s = used.get(v)
                if s is None:
                    s = self.names[v][1]
                used[v] = s & f.s if val else s - f.s
            else:
                for v in fvars(f):
                    if v not in used:
                        used[v] = self.names[v][1]
                rest.append((f, val))
        if near is None:
            out = [zin(v, used[v]) for v in sorted(used)]
        else:
            out = []
            for v in sorted(used):
                b = used[v].b
                i = bisect_right(b, near[v])
                if not i & 1:
                    return None
                out.append(zrange(v, b[i - 1], b[i] - 1))
        for f, val in rest:
            e = tozf(f)
            out.append(e if val else z3.Not(e))
        return out + self.z3extra

    def _assume(self, f, val):
        self.pc.append((f, val))
        if not self.d.assume(f, val, self.rest):
            raise Infeasible
        if self.rest:
            # simplify the remaining disjunctions
            new = []
            for g, v in self.rest:
                r = self.d.ev(g)
                if r is None:
                    new.append((g, v))
                elif r is not v:
                    raise Infeasible
            self.rest = new

    def decide(self, f):
        t = type(f)
        if t is bool:
            return f
        r = self.d.ev(f)
        if r is not None:
            STATS.implied += 1
            if STATS.implied % 300 == 0:
                self.confirm(f, r)
            return r
        n = len(self.trace)
        if n < len(self.prefix):
            val = self.prefix[n]
            self.trace.append(val)
            self._assume(f, bool(val & 1))
            return bool(val & 1)
        STATS.decisions += 1
        ft = self.feasible(f, True)
        ff = self.feasible(f, False)
        if ft and ff:
            self.alts.append(self.trace + [0])
            self.trace.append(1)
            self._assume(f, True)
            return True
        if not ft and not ff:
            raise Infeasible
        STATS.forced += 1
        if STATS.forced % 20 == 0:
            self.confirm(f, ft)
        self.trace.append(3 if ft else 2)
        self._assume(f, ft)
        return ft

    def confirm(self, f, val):
        """z3 must agree that the path condition implies f == val"""
        STATS.confirmed += 1
        e = tozf(f)
        doms = [zin(v, self.names[v][1]) for v in sorted(fvars(f))]
        if zcheck(self.zpc() + doms + [z3.Not(e) if val else e])[0]:
            raise EngineError("pre-solver and z3 disagree: %r is not implied by %r" % ((f, val), self.pc))

    def choose(self, n):
        """unconstrained n-way fork"""
        if n <= 1:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            val = self.prefix[k]
            self.trace.append(val)
            return val
        STATS.decisions += 1
        for i in range(n - 1, 0, -1):
            self.alts.append(self.trace + [i])
        self.trace.append(0)
        return 0

    def assume(self, f):
        self.flush()
        r = self.d.ev(f) if type(f) is not bool else f
        if r is False:
            raise Infeasible
        if r is None:
            if not self.feasible(f, True):
                raise Infeasible
            self._assume(f, True)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Hang("step budget of %d exceeded" % self.max_steps)

    # -- assertions
    def check(self, f, label):
        STATS.checks += 1
        self.pending.append((f, label))
        if f is False or (type(f) is not bool and self.d.ev(f) is False):
            self.flush()

    def flush(self):
        """z3 decides: path condition and not (all pending assertions)"""
        if not self.pending:
            return
        pend = self.pending
        self.pending = []
        if all(f is True for f, _ in pend):
            return
        negs = [z3.Not(tozf(f)) for f, _ in pend if f is not True]
        extra = set()
        for f, _ in pend:
            fvars(f, extra)
        neg = negs[0] if len(negs) == 1 else z3.Or(*negs)
        sat, m = zcheck(self.zsimp(extra) + [neg])
        if sat:
            doms = [zin(v, self.names[v][1]) for v in sorted(extra)]
            sat, m = zcheck(self.zpc() + doms + [neg], True)
            if not sat:
                raise EngineError("solved form and path condition disagree: %r" % (self.pc,))
            label = None
            for f, lab in pend:
                if f is True:
                    continue
                if f is False or z3.is_false(m.eval(tozf(f), model_completion=True)):
                    label = lab
                    break
            self.violation = (label, self.model_values(m))
            raise Stop
        for f, _ in pend:
            if f is not True:
                r = self.d.ev(f)
                if r is None:
                    self._assume(f, True)

    def model_values(self, m):
        vals = []
        for i, (name, dom) in enumerate(self.names):
            v = m.eval(zvar(i), model_completion=False)
            if z3.is_bv_value(v):
                v = v.as_long()
                if v not in dom:
                    v = dom.min()
            else:
                v = self._default(dom)
            vals.append(v)
        return vals

    @staticmethod
    def _default(dom):
        for c in (0x78, 0x31, 0x2C):
            if c in dom:
                return c
        return dom.min()

    def witness(self):
        """z3 model of the whole path condition (raises if z3 disagrees)"""
        d = self.d
        if self.rest:
            try:
                d = search(d.clone(), list(self.rest), [200])
            except Budget:
                d = None
        if d:
            val = d.solve()
            if val:
                val = dict(val)
            if val is not None and val is not False:
                near = []
                for v in range(len(self.names)):
                    r = d.find(v)
                    if r not in val:
                        val[r] = self._default(d.dom[r])
                    near.append(val[r])
                pc = self.zpc(near)
                if pc is not None:
                    sat, m = zcheck([zrange(v, x, x) for v, x in enumerate(near)] + pc, True)
                    if sat:
                        return self.model_values(m)
        sat, m = zcheck(self.zpc(), True)
        if not sat:
            raise EngineError("pre-solver and z3 disagree: path condition is unsat: %r" % (self.pc,))
        return self.model_values(m)


def cur():
    return CUR


def set_cur(p):
    global CUR
    CUR = p


class SymBool:
    """truth value of a formula; bool() forks"""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CUR.decide(self.f)

    def __invert__(self):
        raise Unsupported("~SymBool")

    def __and__(self, o):
        return mkbool(fand((self.f, boolf(o))))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(for_((self.f, boolf(o))))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(fnot(fiff(self.f, boolf(o))))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(fiff(self.f, boolf(o)))
        return int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(fnot(boolf(r)))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "SymBool(%r)" % (self.f,)


def boolf(x):
    """formula of a truth value"""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.f
    if isinstance(x, F):
        return x
    return bool(x)


def mkbool(f):
    if f is True or f is False:
        return f
    r = CUR.d.ev(f) if CUR is not None else None
    if r is not None:
        return r
    return SymBool(f)
