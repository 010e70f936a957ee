"""Regular expressions over symbolic strings.

The pattern text of the code under test is parsed at run time; a match on a string
of fixed length becomes a disjunction over the backtracking derivations (in priority
order), each a conjunction of character-set memberships.  Character classes are
computed by scanning all code points with the real module."""
import re as _re

import regex as _regex

from . import core, strs
from .core import Unsupported, boolf, fand, fin, fnot, for_, mkbool
from .iset import EMPTY, UNICODE_ALL, ISet
from .strs import SymStr, decide, is_str, is_sym, mk, t_eq, t_in, terms

_ALL = None
_SETS = {}
INF = 10**9


def charset(mod, atom, flags):
    global _ALL
    key = (mod.__name__, atom, int(flags))
    r = _SETS.get(key)
    if r is None:
        if _ALL is None:
            _ALL = "".join(map(chr, range(0x110000)))
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = mod.compile("(?:%s)+" % atom, flags)
        b = []
        for m in p.finditer(_ALL):
            b += [m.start(), m.end()]
        r = _SETS[key] = ISet.make(b)
    return r


class Parser:
    def __init__(self, mod, pat, flags):
        self.mod = mod
        self.p = pat
        self.i = 0
        self.flags = flags
        self.ngroups = 0
        self.names = {}

    def peek(self, n=1):
        return self.p[self.i : self.i + n]

    def err(self, what):
        raise Unsupported("regex feature %s in %r" % (what, self.p))

    def parse(self):
        n = self.alt()
        if self.i != len(self.p):
            self.err("unbalanced )")
        return n

    def alt(self):
        alts = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def seq(self):
        items = []
        while self.i < len(self.p) and self.peek() not in ("|", ")"):
            if self.flags & _re.X:
                if self.peek().isspace():
                    self.i += 1
                    continue
                if self.peek() == "#":
                    while self.i < len(self.p) and self.peek() != "\n":
                        self.i += 1
                    continue
            a = self.atom()
            if a is None:
                continue
            items.append(self.quant(a))
        return items[0] if len(items) == 1 else ("cat", items)

    def quant(self, a):
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, INF
                self.i += 1
            elif c == "+":
                lo, hi = 1, INF
                self.i += 1
            elif c == "?":
                lo, hi = 0, 1
                self.i += 1
            elif c == "{":
                m = _re.match(r"\{(\d*)(,?)(\d*)\}", self.p[self.i :])
                if not m or (not m.group(1) and not m.group(3)):
                    return a
                lo = int(m.group(1) or 0)
                hi = lo if not m.group(2) else int(m.group(3)) if m.group(3) else INF
                self.i += m.end()
            else:
                return a
            mode = "greedy"
            if self.peek() == "?":
                mode = "lazy"
                self.i += 1
            elif self.peek() == "+":
                mode = "poss"
                self.i += 1
            if mode == "poss":
                a = ("atomic", ("rep", a, lo, hi, "greedy"))
            else:
                a = ("rep", a, lo, hi, mode)

    def group_ref(self, name):
        if name.isdigit():
            return int(name)
        if name not in self.names:
            self.err("unknown group " + name)
        return self.names[name]

    def atom(self):
        c = self.peek()
        if c == "(":
            return self.group()
        if c == "[":
            return ("set", charset(self.mod, self.klass(), self.flags))
        if c == ".":
            self.i += 1
            return ("set", charset(self.mod, ".", self.flags))
        if c == "^":
            self.i += 1
            return ("bol",) if self.flags & _re.M else ("bos",)
        if c == "$":
            self.i += 1
            return ("eol",) if self.flags & _re.M else ("eosn",)
        if c == "\\":
            return self.escape()
        self.i += 1
        return self.lit(c)

    def lit(self, c):
        if self.flags & _re.I:
            return ("set", charset(self.mod, _re.escape(c), self.flags))
        return ("set", ISet.of(ord(c)))

    def klass(self):
        s = self.i
        i = s + 1
        p = self.p
        if p[i : i + 1] == "^":
            i += 1
        if p[i : i + 1] == "]":
            i += 1
        while i < len(p) and p[i] != "]":
            if p[i] == "\\":
                i += 1
            elif p[i : i + 2] == "[:":
                j = p.find(":]", i)
                if j > 0:
                    i = j + 1
            i += 1
        if i >= len(p):
            self.err("unterminated set")
        self.i = i + 1
        return p[s : i + 1]

    def escape(self):
        p = self.p
        c = p[self.i + 1 : self.i + 2]
        if c in "pP":
            if p[self.i + 2] == "{":
                e = p.index("}", self.i) + 1
            else:
                e = self.i + 3
            a = p[self.i : e]
            self.i = e
            return ("set", charset(self.mod, a, self.flags))
        if c in "dDsSwWhR" and c:
            if c in "hR":
                self.err("\\" + c)
            self.i += 2
            return ("set", charset(self.mod, "\\" + c, self.flags))
        if c == "A":
            self.i += 2
            return ("bos",)
        if c in "Zz":
            self.i += 2
            return ("eos",)
        if c == "b" or c == "B":
            self.i += 2
            return ("wb", c == "B", charset(self.mod, "\\w", self.flags))
        if c.isdigit() and c != "0":
            m = _re.match(r"\d{1,2}", p[self.i + 1 :])
            self.i += 1 + m.end()
            return ("ref", int(m.group()))
        if c == "x":
            a = p[self.i + 2 : self.i + 4]
            self.i += 4
            return self.lit(chr(int(a, 16)))
        if c == "u":
            a = p[self.i + 2 : self.i + 6]
            self.i += 6
            return self.lit(chr(int(a, 16)))
        if c == "U":
            a = p[self.i + 2 : self.i + 10]
            self.i += 10
            return self.lit(chr(int(a, 16)))
        if c in "ntrfva0":
            self.i += 2
            return self.lit({"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a", "0": "\0"}[c])
        if c.isalpha():
            self.err("\\" + c)
        self.i += 2
        return self.lit(c)

    def close(self):
        if self.peek() != ")":
            self.err("missing )")
        self.i += 1

    def group(self):
        p = self.p
        self.i += 1
        if self.peek() != "?":
            self.ngroups += 1
            g = self.ngroups
            n = self.alt()
            self.close()
            return ("grp", g, n)
        two = p[self.i : self.i + 2]
        three = p[self.i : self.i + 3]
        if two == "?:":
            self.i += 2
            n = self.alt()
            self.close()
            return n
        if two == "?>":
            self.i += 2
            n = self.alt()
            self.close()
            return ("atomic", n)
        if two in ("?=", "?!"):
            self.i += 2
            n = self.alt()
            self.close()
            return ("look", True, two == "?!", n)
        if three in ("?<=", "?<!"):
            self.i += 3
            n = self.alt()
            self.close()
            return ("look", False, three == "?<!", n)
        m = _re.match(r"\?P?<(\w+)>", p[self.i :])
        if m:
            self.i += m.end()
            self.ngroups += 1
            g = self.ngroups
            self.names[m.group(1)] = g
            n = self.alt()
            self.close()
            return ("grp", g, n)
        m = _re.match(r"\?P=(\w+)\)", p[self.i :])
        if m:
            self.i += m.end()
            return ("ref", self.group_ref(m.group(1)))
        m = _re.match(r"\?\((\w+)\)", p[self.i :])
        if m:
            self.i += m.end()
            g = self.group_ref(m.group(1))
            yes = self.seq()
            no = ("cat", [])
            if self.peek() == "|":
                self.i += 1
                no = self.seq()
            self.close()
            return ("cond", g, yes, no)
        m = _re.match(r"\?#[^)]*\)", p[self.i :])
        if m:
            self.i += m.end()
            return None
        m = _re.match(r"\?([aimsux]+)(:|\))", p[self.i :])
        if m:
            fl = 0
            for ch in m.group(1):
                fl |= {"a": _re.A, "i": _re.I, "m": _re.M, "s": _re.S, "u": _re.U, "x": _re.X}[ch]
            self.i += m.end()
            if m.group(2) == ")":
                self.flags |= fl
                return None
            old = self.flags
            self.flags |= fl
            n = self.alt()
            self.close()
            self.flags = old
            return n
        self.err(p[self.i - 1 : self.i + 4])


LIMIT = 60000


_ONE = {}


class Domains(dict):
    """the possible characters at each position, looked up once"""

    def __init__(self, t):
        self.t = t

    def __missing__(self, i):
        x = self.t[i]
        if type(x) is int and x >= 0:
            r = _ONE.get(x)
            if r is None:
                r = _ONE[x] = ISet.of(x)
        elif type(x) is int:
            d = core.CUR.d
            r = d.dom[d.find(-x - 1)]
        else:
            r = UNICODE_ALL
        self[i] = r
        return r


class Matcher:
    def __init__(self, t):
        self.t = t
        self.n = len(t)
        self.count = 0
        self.dom = Domains(t)

    def step(self, cond, i, s):
        """require t[i] in s; new cond or None.  cond = (sets tuple-dict, extra)"""
        sets, extra = cond
        c = sets.get(i)
        if c is None:
            c = self.dom[i]
        x = c & s
        if not x:
            return None
        if x is c:
            return cond
        ns = dict(sets)
        ns[i] = x
        return (ns, extra)

    def m(self, node, i, caps, cond):
        """yield (end, caps, cond) in priority order"""
        self.count += 1
        if self.count > LIMIT + 100 * self.n + 10 * min(self.n, 1000) ** 2:
            raise Unsupported("regex derivation limit")
        k = node[0]
        if k == "set":
            if i < self.n:
                c = self.step(cond, i, node[1])
                if c is not None:
                    yield i + 1, caps, c
        elif k == "cat":
            yield from self.cat(node[1], 0, i, caps, cond)
        elif k == "alt":
            for a in node[1]:
                yield from self.m(a, i, caps, cond)
        elif k == "rep":
            yield from self.rep(node, 0, i, caps, cond)
        elif k == "grp":
            for e, c2, cd in self.m(node[2], i, caps, cond):
                n = dict(c2)
                n[node[1]] = (i, e)
                yield e, n, cd
        elif k == "ref":
            sp = caps.get(node[1])
            if sp is None:
                return
            a, b = sp
            if i + b - a > self.n:
                return
            f = fand(t_eq(self.t[a + j], self.t[i + j]) for j in range(b - a))
            if f is False:
                return
            if f is not True:
                cond = (cond[0], cond[1] + (f,))
            yield i + b - a, caps, cond
        elif k == "cond":
            yield from self.m(node[2] if caps.get(node[1]) is not None else node[3], i, caps, cond)
        elif k == "look":
            ahead, neg, sub = node[1], node[2], node[3]
            if ahead:
                res = list(self.m(sub, i, caps, cond))
            else:
                res = []
                for s in range(i, -1, -1):
                    res += [r for r in self.m(sub, s, caps, cond) if r[0] == i]
            if neg:
                f = fnot(for_(self.formula(r[2]) for r in res)) if res else True
                if f is False:
                    return
                if f is not True:
                    cond = (cond[0], cond[1] + (f,))
                yield i, caps, cond
            else:
                if len(res) == 1:
                    yield i, res[0][1], res[0][2]
                elif res:
                    if all(r[1] == caps for r in res):
                        f = for_(self.formula(r[2]) for r in res)
                        yield i, caps, (cond[0], cond[1] + ((f,) if f is not True else ()))
                    else:
                        prev = []
                        for r in res:
                            ex = tuple(fnot(g) for g in prev)
                            yield i, r[1], (r[2][0], r[2][1] + ex)
                            prev.append(self.formula(r[2]))
        elif k == "atomic":
            prev = []
            for e, c2, cd in list(self.m(node[1], i, caps, cond)):
                ex = tuple(fnot(g) for g in prev)
                yield e, c2, (cd[0], cd[1] + ex)
                prev.append(self.formula(cd))
        elif k == "bos":
            if i == 0:
                yield i, caps, cond
        elif k == "eos":
            if i == self.n:
                yield i, caps, cond
        elif k == "eosn":
            if i == self.n:
                yield i, caps, cond
            elif i == self.n - 1:
                c = self.step(cond, i, ISet.of(10))
                if c is not None:
                    yield i, caps, c
        elif k == "bol":
            if i == 0:
                yield i, caps, cond
            else:
                c = self.step(cond, i - 1, ISet.of(10))
                if c is not None:
                    yield i, caps, c
        elif k == "eol":
            if i == self.n:
                yield i, caps, cond
            else:
                c = self.step(cond, i, ISet.of(10))
                if c is not None:
                    yield i, caps, c
        elif k == "wb":
            a = t_in(self.t[i - 1], node[2]) if i > 0 else False
            b = t_in(self.t[i], node[2]) if i < self.n else False
            f = core.fiff(a, b)
            if not node[1]:
                f = fnot(f)
            if f is False:
                return
            yield i, caps, (cond if f is True else (cond[0], cond[1] + (f,)))
        else:
            raise Unsupported("regex node %s" % k)

    def cat(self, items, j, i, caps, cond):
        if j == len(items):
            yield i, caps, cond
            return
        for e, c2, cd in self.m(items[j], i, caps, cond):
            yield from self.cat(items, j + 1, e, c2, cd)

    def rep(self, node, n, i, caps, cond):
        sub, lo, hi, mode = node[1], node[2], node[3], node[4]
        if n == 0 and sub[0] == "set":
            # single characters: the same order without recursion
            lazy = mode == "lazy"
            conds = [cond]
            k = 0
            while True:
                if lazy and k >= lo:
                    yield i + k, caps, conds[k]
                if k >= hi or i + k >= self.n:
                    break
                c = self.step(conds[k], i + k, sub[1])
                if c is None:
                    break
                conds.append(c)
                k += 1
            if not lazy:
                while k >= lo:
                    yield i + k, caps, conds[k]
                    k -= 1
            return
        if n >= lo and mode == "lazy":
            yield i, caps, cond
        if n < hi:
            for e, c2, cd in self.m(sub, i, caps, cond):
                if e == i and n >= lo:
                    continue
                yield from self.rep(node, n + 1, e, c2, cd)
        if n >= lo and mode != "lazy":
            yield i, caps, cond

    def formula(self, cond):
        fs = []
        for i, s in cond[0].items():
            fs.append(t_in(self.t[i], s))
        return fand(fs + list(cond[1]))

    def derivs(self, node, i, end=None):
        """[(end, caps, formula)] deduplicated, priority order"""
        out = []
        seen = set()
        for e, caps, cd in self.m(node, i, {}, ({}, ())):
            if end is not None and e != end:
                continue
            key = (e, tuple(sorted(caps.items())), frozenset((a, b.id) for a, b in cd[0].items()), cd[1])
            if key in seen:
                continue
            seen.add(key)
            f = self.formula(cd)
            if f is False:
                continue
            out.append((e, caps, f))
            if f is True:
                break
        return out


class SymMatch:
    def __init__(self, pat, s, start, ds):
        self.re = pat
        self.string = s
        self.start_ = start
        self.ds = ds
        self.res = None

    def _resolve(self, want_caps):
        """fork until the (end[, caps]) is determined"""
        if self.res is not None and (not want_caps or self.res[1] is not None):
            return self.res
        ds = self.ds
        key = (lambda d: (d[0], tuple(sorted(d[1].items())))) if want_caps else (lambda d: d[0])
        i = 0
        while i < len(ds):
            j = i
            while j < len(ds) and key(ds[j]) == key(ds[i]):
                j += 1
            if j == len(ds):
                break
            if decide(for_(d[2] for d in ds[i:j])):
                break
            i = j
        else:
            raise core.Infeasible
        self.ds = ds[i:j]
        self.res = (ds[i][0], ds[i][1] if want_caps else None)
        return self.res

    def span(self, g=0):
        g = self._g(g)
        if g == 0:
            return (self.start_, self._resolve(False)[0])
        sp = self._resolve(True)[1].get(g)
        return (-1, -1) if sp is None else sp

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g):
        if isinstance(g, str):
            return self.re._prog().names[g]
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self.span(g)
            r.append(None if a < 0 else mk(terms(self.string)[a:b]))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(
            default if self.span(i)[0] < 0 else self.group(i) for i in range(1, self.re._prog().ngroups + 1)
        )

    def groupdict(self, default=None):
        return {k: (default if self.span(v)[0] < 0 else self.group(v)) for k, v in self.re._prog().names.items()}

    def __bool__(self):
        return True


_PROGS = {}


class Prog:
    def __init__(self, mod, pat, flags):
        p = Parser(mod, pat, flags)
        self.node = p.parse()
        self.ngroups = p.ngroups
        self.names = p.names


class SxPattern:
    def __init__(self, mod, pat, flags=0):
        self.mod = mod
        if isinstance(pat, SxPattern):
            pat = pat.pattern
        self.pattern = pat
        self.real = mod.compile(pat, flags)
        self.flags = self.real.flags
        self._f = flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex

    def __deepcopy__(self, memo):
        return self

    def _prog(self):
        key = (self.mod.__name__, self.pattern, int(self._f))
        r = _PROGS.get(key)
        if r is None:
            r = _PROGS[key] = Prog(self.mod, self.pattern, int(self._f))
        return r

    @staticmethod
    def _sub(t, pos, endpos):
        """(terms visible to the matcher, start)"""
        if endpos is not None:
            t = t[: max(0, endpos)]
        return t, min(max(0, pos), len(t))

    def fullmatch(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.fullmatch(s, pos) if endpos is None else self.real.fullmatch(s, pos, endpos)
        t, pos = self._sub(terms(s), pos, endpos)
        ds = Matcher(t).derivs(self._prog().node, pos, len(t))
        if not decide(for_(d[2] for d in ds)):
            return None
        return SymMatch(self, s, pos, ds)

    def match(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.match(s, pos) if endpos is None else self.real.match(s, pos, endpos)
        t, pos = self._sub(terms(s), pos, endpos)
        return self._at(t, s, pos)

    def _at(self, t, s, i):
        ds = Matcher(t).derivs(self._prog().node, i)
        if not decide(for_(d[2] for d in ds)):
            return None
        return SymMatch(self, s, i, ds)

    def search(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self.real.search(s, pos) if endpos is None else self.real.search(s, pos, endpos)
        t, pos = self._sub(terms(s), pos, endpos)
        for i in range(pos, len(t) + 1):
            m = self._at(t, s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not is_sym(s):
            yield from self.real.finditer(s)
            return
        t = terms(s)
        i = 0
        while i <= len(t):
            m = self._at(t, s, i)
            if m is None:
                i += 1
                continue
            e = m.end()
            yield m
            if e == i:
                i += 1
            else:
                # an empty match right after a non-empty one is allowed
                i = e

    def findall(self, s):
        if not is_sym(s):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        if not is_sym(s) and not is_sym(repl) and not callable(repl):
            return self.real.subn(repl, s, count)
        if not callable(repl) and not is_sym(repl) and "\\" in repl:
            raise Unsupported("template replacement")
        t = terms(s)
        out = []
        last = 0
        n = 0
        it = self.finditer(s)
        for m in it:
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(t[last:a])
            r = repl(m) if callable(repl) else repl
            out.extend(terms(r))
            last = b
            n += 1
        out.extend(t[last:])
        return mk(out), n

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self.real.split(s, maxsplit)
        t = terms(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(mk(t[last:a]))
            out.extend(m.groups())
            last = b
            n += 1
        out.append(mk(t[last:]))
        return out


_COMPILED = {}


def make_module(mod):
    import types

    ns = types.ModuleType(mod.__name__)
    for k in dir(mod):
        if k.isupper() and len(k) > 1 or k in ("A", "I", "M", "S", "U", "X", "L", "V0", "V1", "error", "escape"):
            setattr(ns, k, getattr(mod, k))

    def compile(pat, flags=0, **kw):
        k = (mod.__name__, pat if not isinstance(pat, SxPattern) else pat.pattern, int(flags))
        if k not in _COMPILED:
            _COMPILED[k] = SxPattern(mod, pat, flags)
        return _COMPILED[k]

    ns.compile = compile
    ns.Pattern = SxPattern
    ns.Match = SymMatch
    ns.purge = lambda: None
    for name in ("fullmatch", "match", "search", "findall", "finditer"):

        def f(pat, s, flags=0, _n=name):
            return getattr(compile(pat, flags), _n)(s)

        setattr(ns, name, f)
    ns.sub = lambda pat, repl, s, count=0, flags=0: compile(pat, flags).sub(repl, s, count)
    ns.subn = lambda pat, repl, s, count=0, flags=0: compile(pat, flags).subn(repl, s, count)
    ns.split = lambda pat, s, maxsplit=0, flags=0: compile(pat, flags).split(s, maxsplit)
    return ns
