"""set / dict models whose keys may be symbolic (equality by formula, iteration in
insertion order unless the run asks for another order)."""
import collections

from . import core
from .core import SymBool, Unsupported, boolf, fand, for_, mkbool
from .iset import ISet
from .strs import LazyStr, SymEnum, SymInt, SymStr, decide, is_sym, sx_eq, t_in


def is_conc(x):
    t = type(x)
    if t in (str, int, float, bool, type(None), bytes):
        return True
    if t in (SymStr, LazyStr, SymEnum, SymInt, SymBool):
        return False
    if t is tuple or t is frozenset:
        return all(is_conc(y) for y in x)
    h = t.__hash__
    if h is None:
        return False
    if hasattr(h, "__code__"):
        # user-defined hash: compare by __eq__
        import enum

        return isinstance(x, enum.Enum)
    return True


def unlazy(x):
    if type(x) is LazyStr:
        return x.force()
    if type(x) is SymEnum:
        return x.conc()
    if type(x) is SymInt:
        return x if x.wide() else x.conc()
    if type(x) is SymBool:
        return bool(x)
    return x


def check_hashable(x):
    t = type(x)
    if t in (list, dict, set, SymSet, SymDict) or isinstance(x, (SymDict,)):
        raise TypeError("unhashable type: '%s'" % t.__name__)


class KeyIndex:
    """ordered keys with lookup: concrete keys hashed, others by equality"""

    __slots__ = ("n", "l", "ver", "_iset")

    def __init__(self):
        self.n = {}  # concrete key -> order stamp
        self.l = []  # symbolic keys
        self.ver = 0
        self._iset = None

    def one_char_set(self):
        if self._iset is None:
            self._iset = ISet.from_iter(ord(k) for k in self.n if type(k) is str and len(k) == 1)
        return self._iset

    def contains(self, x):
        x = unlazy(x)
        check_hashable(x)
        if is_conc(x):
            if x in self.n:
                return True
            fs = []
            for y in self.l:
                f = boolf(sx_eq(x, y))
                if f is True:
                    return True
                fs.append(f)
            return mkbool(for_(fs))
        fs = []
        if type(x) is SymStr and len(x.t) == 1:
            fs.append(t_in(x.t[0], self.one_char_set()))
        else:
            for y in self.n:
                f = boolf(sx_eq(x, y))
                if f is True:
                    return True
                fs.append(f)
        for y in self.l:
            f = boolf(sx_eq(x, y))
            if f is True:
                return True
            fs.append(f)
        return mkbool(for_(fs))

    def find(self, x):
        """the stored key equal to x, by forking; (found, key)"""
        x = unlazy(x)
        check_hashable(x)
        if is_conc(x):
            if x in self.n:
                return True, x
            for y in self.l:
                if decide(boolf(sx_eq(x, y))):
                    return True, y
            return False, x
        # identity / structural hits first
        for y in self.l:
            if y is x or boolf(sx_eq(x, y)) is True:
                return True, y
        if type(x) is SymStr and len(x.t) == 1:
            s = self.one_char_set()
            if s and decide(t_in(x.t[0], s)):
                for y in self.n:
                    if type(y) is str and len(y) == 1 and decide(boolf(sx_eq(x, y))):
                        return True, y
        else:
            for y in self.n:
                if decide(boolf(sx_eq(x, y))):
                    return True, y
        for y in self.l:
            if decide(boolf(sx_eq(x, y))):
                return True, y
        return False, x

    def add(self, x):
        x = unlazy(x)
        if is_conc(x):
            self.n[x] = None
            self._iset = None
        else:
            self.l.append(x)

    def remove(self, k):
        if is_conc(k) and k in self.n:
            del self.n[k]
            self._iset = None
            return
        for i, y in enumerate(self.l):
            if y is k:
                del self.l[i]
                return
        raise KeyError(k)

    def copy(self):
        r = KeyIndex()
        r.n = dict(self.n)
        r.l = list(self.l)
        return r


def order(seq):
    """iteration order of a hash-ordered container"""
    p = core.CUR
    o = p.opts.get("set_order") if p is not None else None
    if o == "rev":
        return list(reversed(seq))
    if o == "rot" and seq:
        return seq[1:] + seq[:1]
    return seq


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, set)


class SymSet(metaclass=_SetMeta):
    __hash__ = None

    def __init__(self, it=()):
        self.k = KeyIndex()
        self.seq = []
        if type(it) is SymSet:
            self.k = it.k.copy()
            self.seq = list(it.seq)
            return
        for x in it:
            self.add(x)

    def add(self, x):
        x = unlazy(x)
        if is_conc(x) and x in self.k.n:
            return
        if not self.k.find(x)[0]:
            self.k.add(x)
            self.seq.append(x)

    def sx_contains(self, x):
        return self.k.contains(x)

    def __contains__(self, x):
        return bool(self.k.contains(x))

    def __len__(self):
        return len(self.seq)

    def __iter__(self):
        return iter(order(list(self.seq)))

    def __bool__(self):
        return bool(self.seq)

    def _new(self, it=()):
        return type(self)(it)

    def __and__(self, o):
        if not isinstance(o, (SymSet, FrozenSet, set, frozenset)) and not _setlike(o):
            return NotImplemented
        o = o if hasattr(o, "k") else SymSet(o)
        return self._new(x for x in self.seq if decide(boolf(o.k.contains(x))))

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (SymSet, FrozenSet, set, frozenset)) and not _setlike(o):
            return NotImplemented
        r = self._new(self.seq)
        r.update(o)
        return r

    __ror__ = __or__

    def __sub__(self, o):
        if not isinstance(o, (SymSet, FrozenSet, set, frozenset)) and not _setlike(o):
            return NotImplemented
        o = o if hasattr(o, "k") else SymSet(o)
        return self._new(x for x in self.seq if not decide(boolf(o.k.contains(x))))

    def __rsub__(self, o):
        return SymSet(o) - self

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        r = self & o
        self.k, self.seq = r.k, r.seq
        return self

    def __isub__(self, o):
        r = self - o
        self.k, self.seq = r.k, r.seq
        return self

    def union(self, *its):
        r = self._new(self.seq)
        for i in its:
            for x in i:
                r.add(x)
        return r

    def intersection(self, *its):
        r = self
        for i in its:
            r = r & SymSet(i)
        return self._new(r)

    def difference(self, *its):
        r = self
        for i in its:
            r = r - SymSet(i)
        return self._new(r)

    def symmetric_difference(self, o):
        return self ^ SymSet(o)

    def difference_update(self, *its):
        r = self.difference(*its)
        self.k, self.seq = r.k, r.seq

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.k, self.seq = r.k, r.seq

    def issubset(self, o):
        o = o if hasattr(o, "k") else SymSet(o)
        return mkbool(fand(boolf(o.k.contains(x)) for x in self.seq))

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def isdisjoint(self, o):
        from .core import fnot

        return mkbool(fand(fnot(boolf(self.k.contains(x))) for x in o))

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return bool(self.issubset(o)) and len(self) < len(o)

    def __gt__(self, o):
        return bool(self.issuperset(o)) and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (SymSet, FrozenSet, set, frozenset)) and not _setlike(o):
            return False
        o = o if hasattr(o, "k") else SymSet(o)
        if len(o.seq) != len(self.seq):
            return False
        return self.issubset(o)

    def __ne__(self, o):
        from .core import fnot

        return mkbool(fnot(boolf(self == o)))

    def remove(self, x):
        f, k = self.k.find(x)
        if not f:
            raise KeyError(x)
        self._del(k)

    def _del(self, k):
        self.k.remove(k)
        for i, y in enumerate(self.seq):
            if y is k or (is_conc(k) and is_conc(y) and y == k):
                del self.seq[i]
                return

    def discard(self, x):
        f, k = self.k.find(x)
        if f:
            self._del(k)

    def pop(self):
        if not self.seq:
            raise KeyError("pop from an empty set")
        x = order(list(self.seq))[0]
        self._del(x)
        return x

    def clear(self):
        self.k = KeyIndex()
        self.seq = []

    def copy(self):
        return self._new(self)

    __copy__ = copy

    def __repr__(self):
        return "SymSet(%r)" % (self.seq,)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, frozenset)


class FrozenSet(SymSet, metaclass=type("_FM2", (_SetMeta, _FMeta), {"__instancecheck__": _FMeta.__instancecheck__})):
    pass


def _setlike(o):
    return type(o).__name__ in ("dict_keys", "KeysView", "dict_items", "odict_keys", "odict_items") or isinstance(
        o, collections.abc.Set
    )


class KeysView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def sx_contains(self, x):
        return self.d.k.contains(x)

    def __contains__(self, x):
        return bool(self.d.k.contains(x))

    def __sub__(self, o):
        return SymSet(self.d) - SymSet(o)

    def __rsub__(self, o):
        return SymSet(o) - SymSet(self.d)

    def __and__(self, o):
        return SymSet(self.d) & SymSet(o)

    __rand__ = __and__

    def __or__(self, o):
        return SymSet(self.d) | SymSet(o)

    __ror__ = __or__

    def __eq__(self, o):
        return SymSet(self.d) == SymSet(o)

    def __le__(self, o):
        return SymSet(self.d) <= SymSet(o)

    def __ge__(self, o):
        return SymSet(self.d) >= SymSet(o)

    def isdisjoint(self, o):
        return SymSet(self.d).isdisjoint(o)

    __hash__ = None

    def __reversed__(self):
        return iter(list(self)[::-1])


class _DictMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or (cls is SymDict and isinstance(o, dict))


_MISSING = object()


class SymDict(metaclass=_DictMeta):
    __hash__ = None

    def __init__(self, *a, **kw):
        self.k = KeyIndex()
        self.items_ = []  # [key, value]
        self.pos = {}  # concrete key -> entry
        if a:
            src = a[0]
            if isinstance(src, (SymDict, dict)):
                for k in src.keys():
                    self[k] = src[k]
            elif hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def _entry(self, key):
        key = unlazy(key)
        if is_conc(key):
            e = self.pos.get(key)
            if e is not None:
                return e
            if not self.k.l:
                return None
        f, k = self.k.find(key)
        if not f:
            return None
        for e in self.items_:
            if e[0] is k:
                return e
        if is_conc(k):
            return self.pos[k]
        raise AssertionError

    def __getitem__(self, key):
        e = self._entry(key)
        if e is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return e[1]

    def __setitem__(self, key, v):
        key = unlazy(key)
        check_hashable(key)
        e = self._entry(key)
        if e is None:
            e = [key, v]
            self.items_.append(e)
            self.k.add(key)
            if is_conc(key):
                self.pos[key] = e
        else:
            e[1] = v

    def __delitem__(self, key):
        e = self._entry(key)
        if e is None:
            raise KeyError(key)
        self._rm(e)

    def _rm(self, e):
        self.k.remove(e[0])
        if is_conc(e[0]):
            self.pos.pop(e[0], None)
        for i, x in enumerate(self.items_):
            if x is e:
                del self.items_[i]
                return

    def get(self, key, d=None):
        e = self._entry(key)
        return d if e is None else e[1]

    def pop(self, key, d=_MISSING):
        e = self._entry(key)
        if e is None:
            if d is _MISSING:
                raise KeyError(key)
            return d
        self._rm(e)
        return e[1]

    def popitem(self, last=True):
        if not self.items_:
            raise KeyError("popitem(): dictionary is empty")
        e = self.items_[-1 if last else 0]
        self._rm(e)
        return (e[0], e[1])

    def setdefault(self, key, d=None):
        e = self._entry(key)
        if e is None:
            self[key] = d
            return d
        return e[1]

    def update(self, *a, **kw):
        for src in a:
            if hasattr(src, "keys"):
                for k in list(src.keys()):
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        r = type(self)(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def sx_contains(self, x):
        return self.k.contains(x)

    def __contains__(self, x):
        return bool(self.k.contains(x))

    def __iter__(self):
        n = len(self.items_)
        for e in list(self.items_):
            if len(self.items_) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield e[0]

    def __reversed__(self):
        return iter([e[0] for e in reversed(self.items_)])

    def __len__(self):
        return len(self.items_)

    def __bool__(self):
        return bool(self.items_)

    def keys(self):
        return KeysView(self)

    def values(self):
        return [e[1] for e in self.items_]

    def items(self):
        return [(e[0], e[1]) for e in self.items_]

    def clear(self):
        self.k = KeyIndex()
        self.items_ = []
        self.pos = {}

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, (SymDict, dict)):
            return False
        if len(o) != len(self):
            return False
        o = o if isinstance(o, SymDict) and hasattr(o, "k") else SymDict(o)
        fs = []
        for k, v in self.items():
            e = o._entry(k)
            if e is None:
                return False
            fs.append(boolf(sx_eq(v, e[1])))
        return mkbool(fand(fs))

    def __ne__(self, o):
        from .core import fnot

        return mkbool(fnot(boolf(self == o)))

    def __repr__(self):
        return "SymDict(%r)" % (self.items_,)


class OrderedDict(SymDict):
    def move_to_end(self, key, last=True):
        e = self._entry(key)
        if e is None:
            raise KeyError(key)
        self.items_ = [x for x in self.items_ if x is not e]
        if last:
            self.items_.append(e)
        else:
            self.items_.insert(0, e)

    def __eq__(self, o):
        if isinstance(o, OrderedDict):
            return sx_eq([list(e) for e in self.items_], [list(e) for e in o.items_])
        return SymDict.__eq__(self, o)


class Counter(SymDict):
    def __init__(self, it=None, **kw):
        SymDict.__init__(self)
        self.update(it, **kw)

    def update(self, it=None, **kw):
        if it is not None:
            if hasattr(it, "keys"):
                for k in it.keys():
                    self[k] = self.get(k, 0) + it[k]
            else:
                for x in it:
                    self[x] = self.get(x, 0) + 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda e: -e[1])
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def copy(self):
        return Counter(self)


class defaultdict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = self.default_factory()
        return v


class HashTerm:
    """hash(x): equal arguments give equal hashes, nothing else is known"""

    __slots__ = ("key",)
    __hash__ = None

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        if isinstance(o, HashTerm):
            return sx_eq(self.key, o.key)
        return NotImplemented

    def __ne__(self, o):
        from .core import fnot

        return mkbool(fnot(boolf(self == o)))

    def _mix(self, op, o):
        return HashTerm((op, self.key, o.key if isinstance(o, HashTerm) else o))

    def __xor__(self, o):
        return self._mix("^", o)

    __rxor__ = __xor__

    def __add__(self, o):
        return self._mix("+", o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._mix("*", o)

    __rmul__ = __mul__

    def __and__(self, o):
        return self._mix("&", o)


def sx_hash(x):
    x = unlazy(x)
    check_hashable(x)
    h = getattr(type(x), "__hash__", None)
    if type(x) is not SymStr and hasattr(h, "__code__"):
        return h(x)
    if is_conc(x):
        return HashTerm(("h", x))
    if type(x) is tuple:
        return HashTerm(("h", tuple(y if not hasattr(type(y).__hash__, "__code__") else sx_hash(y) for y in x)))
    return HashTerm(("h", x))
