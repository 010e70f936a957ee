"""Symbolic strings: tuples of character terms.

A term is an int >= 0 (code point), an int < 0 (variable -(v+1)) or an MC
(mapped character).  A string all of whose terms are concrete is a native str.
"""
import unicodedata

from . import core
from .core import FZ, SymBool, Unsupported, fand, feq, fin, fnot, for_, mkbool
from .iset import EMPTY, UNICODE, UNICODE_ALL, ISet
import z3

MAXU = 0x110000


class CharTable:
    """a map on code points"""

    def __init__(self, name, fn):
        self.name = name
        self.exc = {}  # code point -> mapped int
        self.multi = {}  # code point -> tuple
        for c in range(MAXU):
            if 0xD800 <= c < 0xE000:
                continue
            m = fn(chr(c))
            if len(m) == 1:
                if m != chr(c):
                    self.exc[c] = ord(m)
            else:
                self.multi[c] = tuple(map(ord, m))
        self.excset = ISet.from_iter(self.exc)
        self.multiset = ISet.from_iter(self.multi)
        self._pre = {}
        self.rev = {}
        for c, m in self.exc.items():
            self.rev.setdefault(m, []).append(c)

    def pre(self, s):
        r = self._pre.get(s.id)
        if r is None:
            r = s - self.excset
            extra = [c for c, m in self.exc.items() if m in s]
            r = r | ISet.from_iter(extra)
            self._pre[s.id] = r
        return r


class DigitTable:
    """a hexadecimal digit of the code point"""

    def __init__(self, k):
        self.k = k
        self.name = "digit%d" % k
        self._pre = {}
        self._of = {}

    def image(self, c):
        return "0123456789abcdef"[(c >> (4 * self.k)) & 15]

    def of(self, m):
        r = self._of.get(m)
        if r is None:
            w = 1 << (4 * self.k)
            out = []
            for lo in range("0123456789abcdef".index(chr(m)) * w, MAXU, 16 * w):
                out += [lo, min(lo + w, MAXU)]
            r = self._of[m] = ISet.make(out)
        return r

    def pre(self, s):
        r = self._pre.get(s.id)
        if r is None:
            r = ISet.make(())
            for ch in "0123456789abcdef":
                if ord(ch) in s:
                    r = r | self.of(ord(ch))
            self._pre[s.id] = r
        return r


_TABLES = {}


def digit_term(x, k):
    t = _TABLES.get(k)
    if t is None:
        t = _TABLES[k] = DigitTable(k)
    return MC(-x - 1, t)


def table(name):
    t = _TABLES.get(name)
    if t is None:
        t = _TABLES[name] = CharTable(name, {"lower": str.lower, "upper": str.upper, "casefold": str.casefold}[name])
    return t


class MC:
    __slots__ = ("v", "tab")

    def __init__(self, v, tab):
        self.v = v
        self.tab = tab

    def __eq__(self, o):
        return type(o) is MC and o.v == self.v and o.tab is self.tab

    def __hash__(self):
        return hash((self.v, self.tab.name))


_CLASSES = {}


def uset(name):
    """set of code points satisfying a str predicate (isdigit, ...) or a category"""
    r = _CLASSES.get(name)
    if r is None:
        if name.startswith("cat:"):
            want = name[4:]
            _fill_categories()
            r = _CLASSES.get(name) or EMPTY
            _CLASSES[name] = r
            return r
        fn = getattr(str, name)
        out = []
        prev = False
        for c in range(MAXU):
            x = fn(chr(c))
            if x != prev:
                out.append(c)
                prev = x
        if prev:
            out.append(MAXU)
        r = _CLASSES[name] = ISet.make(out)
    return r


def _fill_categories():
    acc = {}
    prev = None
    cat = unicodedata.category
    for c in range(MAXU):
        x = cat(chr(c))
        if x != prev:
            if prev is not None:
                acc[prev].append(c)
            acc.setdefault(x, []).append(c)
            prev = x
    acc[prev].append(MAXU)
    for k, b in acc.items():
        # merge adjacent
        _CLASSES["cat:" + k] = ISet.make(b)
    _CLASSES["cats"] = {k: _CLASSES["cat:" + k] for k in acc}


def categories():
    if "cats" not in _CLASSES:
        _fill_categories()
    return _CLASSES["cats"]


# ---------------------------------------------------------------- terms
def norm(t):
    if type(t) is int and t < 0:
        d = core.CUR.d
        r = d.find(-t - 1)
        x = d.dom[r]
        if x.size == 1:
            return x.b[0]
    return t


def t_in(t, s):
    if type(t) is int:
        if t >= 0:
            return t in s
        return fin(-t - 1, s)
    return fin(t.v, t.tab.pre(s))


def t_eq(a, b):
    if a == b:
        return True
    ta = type(a)
    tb = type(b)
    if ta is int and tb is int:
        if a >= 0:
            if b >= 0:
                return False
            return fin(-b - 1, ISet.of(a))
        if b >= 0:
            return fin(-a - 1, ISet.of(b))
        return feq(-a - 1, -b - 1)
    if ta is int and a >= 0:
        return t_in(b, ISet.of(a))
    if tb is int and b >= 0:
        return t_in(a, ISet.of(b))
    # mapped against variable: explicit map over the exceptional points
    if ta is MC and type(a.tab) is DigitTable or tb is MC and type(b.tab) is DigitTable:
        return for_(fand((t_in(a, ISet.of(ord(c))), t_in(b, ISet.of(ord(c))))) for c in "0123456789abcdef")
    if ta is MC and tb is MC and a.tab is b.tab:
        # equal raw, or both map to the same image
        alts = [feq(a.v, b.v)]
        for m, cs in a.tab.rev.items():
            grp = ISet.from_iter(cs + ([m] if m not in a.tab.exc else []))
            alts.append(fand((fin(a.v, grp), fin(b.v, grp))))
        return for_(alts)
    if tb is MC:
        a, b = b, a
        ta, tb = tb, ta
    if ta is MC and tb is int:
        v = -b - 1
        alts = [fand((fnot(fin(a.v, a.tab.excset)), feq(a.v, v)))]
        for m, cs in a.tab.rev.items():
            alts.append(fand((fin(a.v, ISet.from_iter(cs)), fin(v, ISet.of(m)))))
        return for_(alts)
    raise Unsupported("comparison of differently mapped characters")


def t_lt(a, b):
    if type(a) is MC or type(b) is MC:
        raise Unsupported("ordering of mapped characters")
    if a == b:
        return False
    if a >= 0 and b >= 0:
        return a < b
    if a >= 0:
        return t_in(b, ISet.range(a + 1, MAXU - 1))
    if b >= 0:
        return t_in(a, ISet.range(0, b - 1))
    return core.FLt(-a - 1, -b - 1)


def decide(f):
    if f is True or f is False:
        return f
    return core.CUR.decide(f)


def terms(x):
    if type(x) is SymStr:
        return x.t
    if isinstance(x, str):
        return tuple(map(ord, x))
    if isinstance(x, LazyStr):
        return terms(x.force())
    raise TypeError("expected str, got %s" % type(x).__name__)


def mk(t):
    """canonical string value of a term sequence"""
    t = tuple(t)
    sym = False
    for x in t:
        if type(x) is not int or x < 0:
            sym = True
            break
    if not sym:
        return "".join(map(chr, t))
    n = tuple(norm(x) for x in t)
    for x in n:
        if type(x) is not int or x < 0:
            return SymStr(n)
    return "".join(map(chr, n))


def is_sym(x):
    t = type(x)
    return t is SymStr or t is LazyStr


def is_str(x):
    return isinstance(x, str) or type(x) is SymStr or type(x) is LazyStr


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return fand(t_eq(x, y) for x, y in zip(a, b))


def seq_lt(a, b, orequal=False):
    """lexicographic formula"""
    alts = []
    pre = []
    for x, y in zip(a, b):
        alts.append(fand(pre + [t_lt(x, y)]))
        e = t_eq(x, y)
        if e is False:
            return for_(alts)
        pre.append(e)
    if len(a) < len(b) or (orequal and len(a) == len(b)):
        alts.append(fand(pre))
    return for_(alts)


WS = None


def ws():
    return uset("isspace")


LINEBREAKS = ISet.of(0x0A, 0x0B, 0x0C, 0x0D, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029)


class SymStr:
    __slots__ = ("t",)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    # ---- basic protocol
    def __len__(self):
        return len(self.t)

    def __bool__(self):
        return len(self.t) > 0

    def __iter__(self):
        for x in self.t:
            yield mk((x,))

    def __reversed__(self):
        for x in reversed(self.t):
            yield mk((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.t[i])
        return mk((self.t[i],))

    def __eq__(self, o):
        if not is_str(o):
            if isinstance(o, SymEnum):
                return o.__eq__(self)
            return NotImplemented
        return mkbool(seq_eq(self.t, terms(o)))

    def __ne__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(fnot(seq_eq(self.t, terms(o))))

    def __lt__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(seq_lt(self.t, terms(o)))

    def __gt__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(seq_lt(terms(o), self.t))

    def __le__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(seq_lt(self.t, terms(o), True))

    def __ge__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkbool(seq_lt(terms(o), self.t, True))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.t + terms(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(terms(o) + self.t)

    def __mul__(self, n):
        return mk(self.t * n)

    __rmul__ = __mul__

    def __contains__(self, o):
        return decide(core.boolf(self.contains(o)))

    def __mod__(self, args):
        return fmt_mod(self, args)

    def __str__(self):
        raise Unsupported("native str() of symbolic text")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<SymStr %r>" % (self.t,)

    def __format__(self, spec):
        raise Unsupported("format of a symbolic string outside the transform")

    def contains(self, o):
        """formula-level containment"""
        p = terms(o)
        t = self.t
        n = len(p)
        return mkbool(for_(seq_eq(t[i : i + n], p) for i in range(len(t) - n + 1)))

    # ---- predicates
    def _bounds(self, start, end):
        n = len(self.t)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(for_(core.boolf(self.startswith(q, start, end)) for q in p))
        t = self.t
        if start is not None or end is not None:
            if start is not None and start > len(t):
                return False
            t = t[slice(start, end)]
        p = terms(p)
        if len(p) > len(t):
            return False
        return mkbool(seq_eq(t[: len(p)], p))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(for_(core.boolf(self.endswith(q, start, end)) for q in p))
        t = self.t
        if start is not None or end is not None:
            t = t[slice(start, end)]
        p = terms(p)
        if len(p) > len(t):
            return False
        return mkbool(seq_eq(t[len(t) - len(p) :], p))

    def _allin(self, s):
        if not self.t:
            return False
        return mkbool(fand(t_in(x, s) for x in self.t))

    def isdigit(self):
        return self._allin(uset("isdigit"))

    def isdecimal(self):
        return self._allin(uset("isdecimal"))

    def isnumeric(self):
        return self._allin(uset("isnumeric"))

    def isalpha(self):
        return self._allin(uset("isalpha"))

    def isalnum(self):
        return self._allin(uset("isalnum"))

    def isspace(self):
        return self._allin(uset("isspace"))

    def isprintable(self):
        return mkbool(fand(t_in(x, uset("isprintable")) for x in self.t))

    def isascii(self):
        return mkbool(fand(t_in(x, ISet.range(0, 127)) for x in self.t))

    def isidentifier(self):
        if not self.t:
            return False
        return mkbool(fand([t_in(self.t[0], uset("isidentifier"))] + [t_in(x, idcont()) for x in self.t[1:]]))

    def isupper(self):
        if len(self.t) == 1:
            return mkbool(t_in(self.t[0], uset("isupper")))
        raise Unsupported("isupper on a long symbolic string")

    def islower(self):
        if len(self.t) == 1:
            return mkbool(t_in(self.t[0], uset("islower")))
        raise Unsupported("islower on a long symbolic string")

    # ---- stripping
    def _stripset(self, chars):
        if chars is None:
            return lambda x: t_in(x, ws())
        cs = terms(chars)
        return lambda x: for_(t_eq(x, c) for c in cs)

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        p = self._stripset(chars)
        i = 0
        while i < len(self.t) and decide(p(self.t[i])):
            i += 1
        return mk(self.t[i:])

    def rstrip(self, chars=None):
        p = self._stripset(chars)
        j = len(self.t)
        while j > 0 and decide(p(self.t[j - 1])):
            j -= 1
        return mk(self.t[:j])

    def removeprefix(self, p):
        if self.startswith(p):
            return mk(self.t[len(p) :])
        return mk(self.t)

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk(self.t[: len(self.t) - len(p)])
        return mk(self.t)

    # ---- searching
    def find(self, p, start=None, end=None):
        p = terms(p)
        s, e = self._bounds(start, end)
        if start is not None and start > len(self.t):
            return -1
        for i in range(s, e - len(p) + 1):
            if decide(seq_eq(self.t[i : i + len(p)], p)):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        p = terms(p)
        s, e = self._bounds(start, end)
        if start is not None and start > len(self.t):
            return -1
        for i in range(e - len(p), s - 1, -1):
            if decide(seq_eq(self.t[i : i + len(p)], p)):
                return i
        return -1

    def index(self, p, start=None, end=None):
        i = self.find(p, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, p, start=None, end=None):
        i = self.rfind(p, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, p, start=None, end=None):
        p = terms(p)
        s, e = self._bounds(start, end)
        if not p:
            return max(0, e - s + 1)
        n = 0
        i = s
        while i <= e - len(p):
            if decide(seq_eq(self.t[i : i + len(p)], p)):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        old = terms(old)
        new = terms(new)
        t = self.t
        out = []
        i = 0
        n = 0
        if not old:
            for k, x in enumerate(t):
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out.extend(new)
            return mk(out)
        while i < len(t):
            if (count < 0 or n < count) and i + len(old) <= len(t) and decide(seq_eq(t[i : i + len(old)], old)):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(t[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        t = self.t
        out = []
        if sep is None:
            i = 0
            W = ws()
            while True:
                while i < len(t) and decide(t_in(t[i], W)):
                    i += 1
                if i >= len(t):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = len(t)
                    while j > i and decide(t_in(t[j - 1], W)):
                        j -= 1
                    out.append(mk(t[i:j]))
                    break
                j = i
                while j < len(t) and not decide(t_in(t[j], W)):
                    j += 1
                out.append(mk(t[i:j]))
                i = j
            return out
        p = terms(sep)
        if not p:
            raise ValueError("empty separator")
        i = last = 0
        while i + len(p) <= len(t):
            if (maxsplit < 0 or len(out) < maxsplit) and decide(seq_eq(t[i : i + len(p)], p)):
                out.append(mk(t[last:i]))
                i += len(p)
                last = i
            else:
                i += 1
        out.append(mk(t[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        p = terms(sep)
        t = self.t
        out = []
        end = len(t)
        i = end - len(p)
        while i >= 0:
            if len(out) < maxsplit and decide(seq_eq(t[i : i + len(p)], p)):
                out.append(mk(t[i + len(p) : end]))
                end = i
                i -= len(p)
            else:
                i -= 1
        out.append(mk(t[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.t), "", "")
        return (mk(self.t[:i]), sep, mk(self.t[i + len(sep) :]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", mk(self.t))
        return (mk(self.t[:i]), sep, mk(self.t[i + len(sep) :]))

    def splitlines(self, keepends=False):
        out = []
        t = self.t
        i = last = 0
        while i < len(t):
            if decide(t_in(t[i], LINEBREAKS)):
                e = i
                i += 1
                if decide(t_eq(t[e], 13)) and i < len(t) and decide(t_eq(t[i], 10)):
                    i += 1
                out.append(mk(t[last : i if keepends else e]))
                last = i
            else:
                i += 1
        if last < len(t):
            out.append(mk(t[last:]))
        return out

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.t)
            first = False
            if not is_str(p):
                raise TypeError("sequence item: expected str instance")
            out.extend(terms(p))
        return mk(out)

    # ---- mapping
    def _map(self, name):
        tab = table(name)
        out = []
        for x in self.t:
            x = norm(x)
            if type(x) is int and x >= 0:
                out.extend(map(ord, getattr(chr(x), name)()))
                continue
            if type(x) is MC:
                if name != "upper" and type(x.tab) is DigitTable:
                    out.append(x)
                    continue
                raise Unsupported("mapping a mapped character")
            v = -x - 1
            if decide(fin(v, tab.multiset)):
                # few code points: fork on the value
                for c in tab.multi:
                    if decide(fin(v, ISet.of(c))):
                        out.extend(tab.multi[c])
                        break
                continue
            if name == "lower" and len(self.t) > 1 and decide(fin(v, ISet.of(0x3A3))):
                out.append(-core.CUR.new_var(ISet.of(0x3C3, 0x3C2)) - 1)
                continue
            d = core.CUR.d
            if d.dom[d.find(v)].isdisjoint(tab.excset):
                out.append(x)
            else:
                out.append(MC(v, tab))
        return mk(out)

    def lower(self):
        return self._map("lower")

    def upper(self):
        return self._map("upper")

    def casefold(self):
        return self._map("casefold")

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(mk(self.t), encoding, errors)

    def translate(self, tab):
        out = []
        for x in self.t:
            for k, r in tab.items():
                kk = k if isinstance(k, int) else ord(k)
                if decide(t_eq(x, kk)):
                    if r is None:
                        pass
                    elif isinstance(r, int):
                        out.append(r)
                    else:
                        out.extend(terms(r))
                    break
            else:
                out.append(x)
        return mk(out)

    def format(self, *a, **k):
        raise Unsupported("str.format on a symbolic template")

    def ljust(self, n, fill=" "):
        return mk(self.t + terms(fill) * max(0, n - len(self.t)))

    def rjust(self, n, fill=" "):
        return mk(terms(fill) * max(0, n - len(self.t)) + self.t)

    def zfill(self, n):
        raise Unsupported("zfill")

    def title(self):
        raise Unsupported("title")


_IDC = None


def idcont():
    global _IDC
    if _IDC is None:
        _IDC = ISet.from_iter(c for c in range(MAXU) if ("a" + chr(c)).isidentifier())
    return _IDC


class SymBytes:
    """encoded symbolic text: only decoding with the same codec is modelled"""

    def __init__(self, s, encoding, errors="strict"):
        self.s = s
        self.encoding = encoding
        t = terms(s)
        enc = encoding.lower().replace("_", "-")
        lim = {"ascii": 0x7F, "latin-1": 0xFF, "iso-8859-1": 0xFF}.get(enc)
        if lim is not None:
            if not decide(fand(t_in(x, ISet.range(0, lim)) for x in t)):
                raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
        elif enc in ("utf-8", "utf8"):
            if not decide(fand(t_in(x, UNICODE) for x in t)):
                raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
        elif enc not in ("utf-16", "utf-32"):
            raise Unsupported("codec %s" % encoding)

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") != self.encoding.lower().replace("_", "-"):
            raise Unsupported("decoding with another codec")
        return self.s

    def __eq__(self, o):
        if isinstance(o, SymBytes) and o.encoding.lower() == self.encoding.lower():
            return sx_eq(self.s, o.s)
        if isinstance(o, (bytes, SymBytes)):
            raise Unsupported("comparison of encoded text")
        return NotImplemented

    __hash__ = None


class SymEnum:
    """a string-valued function of one character with few values (e.g. category)"""

    __slots__ = ("v", "m")
    __hash__ = None

    def __init__(self, v, m):
        self.v = v
        self.m = m

    def is_(self, val):
        if type(val) is SymStr:
            return for_(fand((fin(self.v, s), seq_eq(terms(k), val.t))) for k, s in self.m.items())
        s = self.m.get(val)
        return False if s is None else fin(self.v, s)

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            return mkbool(for_(fand((fin(self.v, s), o.is_(k))) for k, s in self.m.items()))
        if not is_str(o):
            return NotImplemented
        return mkbool(self.is_(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else mkbool(fnot(core.boolf(r)))

    def conc(self):
        for k, s in self.m.items():
            if decide(fin(self.v, s)):
                return k
        raise Unsupported("SymEnum outside its domain")

    def __getattr__(self, name):
        return getattr(self.conc(), name)

    def __getitem__(self, i):
        m = {}
        for k, s in self.m.items():
            kk = k[i]
            m[kk] = m[kk] | s if kk in m else s
        return SymEnum(self.v, m)

    def startswith(self, p):
        return mkbool(for_(fin(self.v, s) for k, s in self.m.items() if k.startswith(p)))

    def endswith(self, p):
        return mkbool(for_(fin(self.v, s) for k, s in self.m.items() if k.endswith(p)))

    def __len__(self):
        return len(self.conc())

    def __iter__(self):
        return iter(self.conc())

    def __str__(self):
        return self.conc()

    def contains(self, o):
        return mkbool(for_(fin(self.v, s) for k, s in self.m.items() if o in k))


class LazyStr:
    """text built for messages: only computed if something looks at it"""

    __hash__ = None

    def __init__(self, thunk):
        self.thunk = thunk
        self.val = None

    def force(self):
        if self.val is None:
            self.val = self.thunk()
        return self.val

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(NStr.wrap(self.force()), name)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __eq__(self, o):
        return sx_eq(self.force(), o)

    def __ne__(self, o):
        return sx_ne(self.force(), o)

    def __add__(self, o):
        return LazyStr(lambda: self.force() + o)

    def __radd__(self, o):
        return LazyStr(lambda: o + self.force())

    def __mod__(self, a):
        return LazyStr(lambda: fmt_mod(self.force(), a))

    def __str__(self):
        return "<lazy message>"

    __repr__ = __str__

    def contains(self, o):
        return sx_in(o, self.force())


def lift(s):
    """native or symbolic string -> SymStr (whose methods are symbolic)"""
    if type(s) is SymStr:
        return s
    return SymStr(terms(s))


def has_sym(x):
    t = type(x)
    if t is SymStr or t is LazyStr or t is SymEnum:
        return True
    if t is tuple or t is list:
        return any(has_sym(y) for y in x)
    return False


class NStr:
    """method access on a native str whose arguments may be symbolic"""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @staticmethod
    def wrap(s):
        return NStr(s) if isinstance(s, str) else s

    def __getattr__(self, name):
        s = self.s
        nat = getattr(s, name)
        if name == "join":

            def join(parts):
                parts = list(parts)
                if has_sym(parts):
                    return lift(s).join(parts)
                return s.join(parts)

            return join
        if name == "format":

            def format(*a, **k):
                if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                    return fmt_format(s, a, k)
                return s.format(*a, **k)

            return format

        def call(*a, **k):
            if has_sym(a):
                a = tuple(x.force() if type(x) is LazyStr else x for x in a)
                return getattr(lift(s), name)(*a, **k)
            return nat(*a, **k)

        return call


class _StrCls:
    """attribute access on the class str"""

    def __getattr__(self, name):
        if name == "maketrans":
            return str.maketrans
        return lambda x, *a, **k: getattr(sx_w(x), name)(*a, **k)


_STRCLS = _StrCls()


def sx_w(x):
    """receiver of a method call"""
    if type(x) is str:
        return NStr(x)
    if x is str:
        return _STRCLS
    return x


# ---------------------------------------------------------------- ints
class SymInt:
    """k + value of a small nonnegative variable"""

    __slots__ = ("v", "k")
    __hash__ = None

    def __init__(self, v, k=0):
        self.v = v
        self.k = k

    def _cmp(self, o, pred):
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, SymInt):
            x, y = core.zvar(self.v), core.zvar(o.v)
            ex = z3.ZeroExt(11, x) + self.k
            ey = z3.ZeroExt(11, y) + o.k
            return mkbool(FZ({"lt": ex < ey, "le": ex <= ey, "eq": ex == ey}[pred], (self.v, o.v)))
        if isinstance(o, float):
            if o != int(o):
                import math

                o = math.ceil(o) if pred == "lt" else math.floor(o)
                if pred == "eq":
                    return False
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        c = o - self.k
        if pred == "eq":
            return mkbool(fin(self.v, ISet.of(c))) if 0 <= c < MAXU else False
        if pred == "lt":
            c -= 1
        if c < 0:
            return False
        return mkbool(fin(self.v, ISet.range(0, min(c, MAXU))))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else mkbool(fnot(core.boolf(r)))

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else mkbool(fnot(core.boolf(r)))

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else mkbool(fnot(core.boolf(r)))

    def __add__(self, o):
        if isinstance(o, int):
            return SymInt(self.v, self.k + o)
        return self.conc() + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return SymInt(self.v, self.k - o)
        return self.conc() - o

    def __rsub__(self, o):
        return o - self.conc()

    def _quotient(self, m):
        """the quotient by a positive constant, by forking over the blocks of the domain"""
        d = core.CUR.d
        for _ in range(80):
            dom = d.dom[d.find(self.v)]
            lo, hi = dom.b[0] + self.k, dom.b[-1] - 1 + self.k
            q = lo // m
            if hi // m == q:
                return q
            if decide(fin(self.v, ISet.range(max(0, q * m - self.k), q * m + m - 1 - self.k))):
                return q
        raise Unsupported("dividing a wide integer")

    def __floordiv__(self, o):
        return self._quotient(o) if isinstance(o, int) and o > 0 else self.conc() // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.v, self.k - self._quotient(o) * o)
        return self.conc() % o

    def __divmod__(self, o):
        return self // o, self % o

    def __rshift__(self, o):
        return self._quotient(1 << o) if isinstance(o, int) and 0 <= o < 64 else self.conc() >> o

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self.conc() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.conc() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.conc() ^ o

    __rxor__ = __xor__

    def __mul__(self, o):
        return self.conc() * o

    __rmul__ = __mul__

    def __lshift__(self, o):
        return self.conc() << o

    def __neg__(self):
        return -self.conc()

    def wide(self):
        d = core.CUR.d
        return d.dom[d.find(self.v)].size > 64

    def conc(self):
        """concretise by forking over the domain"""
        d = core.CUR.d
        while True:
            dom = d.dom[d.find(self.v)]
            if dom.size == 1:
                return dom.b[0] + self.k
            if dom.size > 64:
                raise Unsupported("concretising a wide integer")
            if decide(fin(self.v, ISet.of(dom.b[0]))):
                return dom.b[0] + self.k

    __index__ = conc
    __int__ = conc

    def __bool__(self):
        return decide(fnot(core.boolf(self._cmp(0, "eq"))))

    def __repr__(self):
        return "<SymInt c%d+%d>" % (self.v, self.k)


# ---------------------------------------------------------------- equality etc.
def sx_eq(a, b):
    if a is b:
        if type(a) is float:
            return a == b
        return True
    ta = type(a)
    tb = type(b)
    if ta is SymStr or tb is SymStr:
        if is_str(a) and is_str(b):
            if isinstance(a, str) and type(a) is not str and hasattr(a, "value"):
                a = a.value
            if isinstance(b, str) and type(b) is not str and hasattr(b, "value"):
                b = b.value
            return mkbool(seq_eq(terms(a), terms(b)))
        return a == b
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = core.boolf(sx_eq(x, y))
            if f is False:
                return False
            fs.append(f)
        return mkbool(fand(fs))
    if ta is LazyStr:
        return sx_eq(a.force(), b)
    if tb is LazyStr:
        return sx_eq(a, b.force())
    return a == b


def sx_ne(a, b):
    ta = type(a)
    tb = type(b)
    if ta in (SymStr, list, tuple, LazyStr) or tb in (SymStr, list, tuple, LazyStr):
        return mkbool(fnot(core.boolf(sx_eq(a, b))))
    return a != b


def sx_in(x, c):
    tc = type(c)
    if tc is str:
        if is_sym(x):
            return lift(c).contains(x)
        if type(x) is SymEnum:
            return mkbool(for_(fin(x.v, s) for k, s in x.m.items() if k in c))
        return x in c
    if tc is SymStr or tc is LazyStr or tc is SymEnum:
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand")
        return c.contains(x)
    if tc is list or tc is tuple:
        fs = []
        for y in c:
            f = core.boolf(sx_eq(x, y))
            if f is True:
                return True
            if f is not False:
                fs.append(f)
        return mkbool(for_(fs))
    m = getattr(tc, "sx_contains", None)
    if m is not None:
        return m(c, x)
    if is_sym(x) or type(x) is SymEnum:
        if tc in (set, frozenset, dict):
            return mkbool(for_(core.boolf(sx_eq(x, y)) for y in c))
        if isinstance(c, dict) or hasattr(tc, "__iter__") and not hasattr(tc, "__contains__"):
            return mkbool(for_(core.boolf(sx_eq(x, y)) for y in c))
        if tc.__name__ in ("dict_keys", "dict_values", "odict_keys"):
            return mkbool(for_(core.boolf(sx_eq(x, y)) for y in c))
    return x in c


def sx_notin(x, c):
    return mkbool(fnot(core.boolf(sx_in(x, c))))


# ---------------------------------------------------------------- formatting
def to_str(x):
    """str(x)"""
    t = type(x)
    if t is str or t is SymStr or t is LazyStr:
        return x
    if t is SymEnum:
        return x
    if isinstance(x, BaseException) and has_sym(list(x.args)):
        if len(x.args) == 1:
            return to_str(x.args[0])
        return LazyStr(lambda: sx_repr(x.args))
    if t is SymInt:
        return str(x.conc())
    if t is SymBool:
        return str(bool(x))
    if t in (list, tuple) and has_sym(x) or t is dict and deep_sym(x):
        return sx_repr(x)
    if type(x).__str__ is not object.__str__ and hasattr(type(x).__str__, "__code__"):
        return type(x).__str__(x)
    if type(x).__str__ is object.__str__ and hasattr(type(x).__repr__, "__code__"):
        return type(x).__repr__(x)
    return str(x)


def repr_terms(t):
    """exact repr of a symbolic string (forks on the character classes)"""
    has_s = decide(for_(t_eq(x, 0x27) for x in t))
    q = 0x27
    if has_s and not decide(for_(t_eq(x, 0x22) for x in t)):
        q = 0x22
    out = [q]
    for x in t:
        x = norm(x)
        if type(x) is int and x >= 0:
            r = repr(chr(x))[1:-1]
            if x == 0x27:
                r = "\\'" if q == 0x27 else "'"
            elif x == 0x22:
                r = '"'
            out.extend(map(ord, r))
            continue
        if decide(for_((t_eq(x, q), t_eq(x, 0x5C)))):
            out += [0x5C, x]
            continue
        if decide(t_in(x, uset("isprintable"))):
            out.append(x)
            continue
        for c, r in ((9, "\\t"), (10, "\\n"), (13, "\\r")):
            if decide(t_eq(x, c)):
                out.extend(map(ord, r))
                break
        else:
            if type(x) is not int:
                raise Unsupported("repr of a mapped non-printable character")
            n, c = (2, "x") if decide(t_in(x, ISet.range(0, 0xFF))) else (4, "u") if decide(t_in(x, ISet.range(0, 0xFFFF))) else (8, "U")
            out += [0x5C, ord(c)]
            for k in range(n - 1, -1, -1):
                out.append(0x30 if k >= 6 else digit_term(x, k))
    out.append(q)
    return mk(out)


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        return repr_terms(x.t)
    if t is LazyStr:
        return sx_repr(x.force())
    if t is SymEnum:
        return repr(x.conc())
    if t in (list, tuple) and has_sym(x):
        parts = [sx_repr(y) for y in x]
        o, c = "[]" if t is list else "()"
        if t is tuple and len(parts) == 1:
            c = ",)"
        return lift(lift(o) + lift(", ").join(parts)) + c
    if t is dict and deep_sym(x):
        parts = [lift(lift(sx_repr(k)) + ": ") + sx_repr(v) for k, v in x.items()]
        return lift(lift("{") + lift(", ").join(parts)) + "}"
    r = getattr(type(x), "__repr__", None)
    if hasattr(r, "__code__"):
        return r(x)
    return repr(x)


def deep_sym(x, depth=0):
    """might formatting x look at symbolic data?"""
    t = type(x)
    if t in (SymStr, LazyStr, SymEnum, SymInt, SymBool):
        return True
    if t in (str, int, float, bool, type(None), bytes):
        return False
    if depth > 3:
        return True
    if t in (list, tuple):
        return any(deep_sym(y, depth + 1) for y in x)
    if t is dict:
        return any(deep_sym(y, depth + 1) for y in x) or any(deep_sym(y, depth + 1) for y in x.values())
    if hasattr(x, "__dict__"):
        return any(deep_sym(y, depth + 1) for y in vars(x).values())
    return False


def fmt_mod(fmt, args):
    if not is_sym(fmt):
        aa = args if isinstance(args, tuple) else (args,)
        if not any(deep_sym(a) for a in aa):
            return fmt % args
        return LazyStr(lambda: _fmt_mod(fmt, args))
    return LazyStr(lambda: _fmt_mod(fmt, args))


def _fmt_mod(fmt, args):
    import re

    if is_sym(fmt):
        raise Unsupported("symbolic format string")
    aa = list(args) if isinstance(args, tuple) else [args]
    out = ""
    i = 0
    k = 0
    for m in re.finditer(r"%(\((\w+)\))?([-+ #0]*)(\*|\d+)?(\.\d+)?([a-zA-Z%])", fmt):
        out = out + fmt[i : m.start()]
        i = m.end()
        conv = m.group(6)
        if conv == "%":
            out = out + "%"
            continue
        if m.group(2):
            a = args[m.group(2)]
        else:
            a = aa[k]
            k += 1
        if conv == "s":
            v = to_str(a)
        elif conv == "r":
            v = sx_repr(a)
        else:
            if isinstance(a, (SymInt, SymBool)):
                a = int(a)
            v = ("%" + m.group(3) + (m.group(4) or "") + (m.group(5) or "") + conv) % (a,)
            out = out + v
            continue
        if isinstance(v, LazyStr):
            v = v.force()
        if m.group(4):
            w = int(m.group(4))
            v = lift(v).ljust(w) if "-" in m.group(3) else lift(v).rjust(w)
        out = out + v
    return out + fmt[i:]


def fmt_format(fmt, a, k):
    import string

    def go():
        out = ""
        n = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out = out + lit
            if field is None:
                continue
            if field == "":
                v = a[n]
                n += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported("format field %r" % field)
            out = out + fmt_value(v, conv, spec)
        return out

    return LazyStr(go)


def fmt_value(v, conv, spec):
    if conv == "r":
        v = sx_repr(v)
    elif conv == "s":
        v = to_str(v)
    elif conv == "a":
        raise Unsupported("!a conversion")
    if isinstance(v, (SymInt, SymBool)):
        v = int(v)
    if not spec:
        r = to_str(v)
        return r.force() if isinstance(r, LazyStr) else r
    if isinstance(v, LazyStr):
        v = v.force()
    if is_sym(v):
        import re

        m = re.fullmatch(r"(?:(.)?([<>^]))?(\d*)(?:\.(\d+))?s?", spec)
        if m is None or m.group(3).startswith("0") and not m.group(2):
            raise Unsupported("format spec on symbolic text")
        fill, align, width = m.group(1) or " ", m.group(2) or "<", int(m.group(3) or 0)
        if m.group(4):
            v = mk(terms(v)[: int(m.group(4))])
        k = max(0, width - len(terms(v)))
        left = {"<": 0, ">": k, "^": k // 2}[align]
        return fill * left + v + fill * (k - left)
    return format(v, spec)


def sx_fstr(*parts):
    """parts: str constants or (value, conv, spec)"""
    vals = []
    lazy = False
    for p in parts:
        if type(p) is tuple:
            if deep_sym(p[0]) or deep_sym(p[2]):
                lazy = True
        vals.append(p)
    if not lazy:
        return "".join(p if type(p) is str else fmt_value(*p) for p in vals)

    def go():
        out = ""
        for p in vals:
            out = out + (p if type(p) is str else fmt_value(*p))
        return out

    simple = all(
        type(p) is str or (not p[1] and not p[2] and (type(p[0]) in (str, SymStr, int))) for p in vals
    )
    return go() if simple else LazyStr(go)
