"""Immutable sets of integers as unions of half-open intervals, interned."""
from bisect import bisect_right

_INTERN = {}
_MEMO = {}


class ISet:
    """bounds = (lo0, hi0, lo1, hi1, ...) with lo0<hi0<lo1<hi1...; [lo, hi)"""

    __slots__ = ("b", "size", "id")

    @staticmethod
    def make(bounds):
        bounds = tuple(bounds)
        r = _INTERN.get(bounds)
        if r is None:
            r = object.__new__(ISet)
            r.b = bounds
            r.size = sum(bounds[i + 1] - bounds[i] for i in range(0, len(bounds), 2))
            r.id = len(_INTERN)
            _INTERN[bounds] = r
        return r

    @staticmethod
    def of(*vals):
        return ISet.from_iter(vals)

    @staticmethod
    def range(lo, hi):
        """[lo, hi] inclusive"""
        return ISet.make((lo, hi + 1)) if lo <= hi else EMPTY

    @staticmethod
    def from_iter(vals):
        out = []
        for v in sorted(set(vals)):
            if out and out[-1] == v:
                out[-1] = v + 1
            else:
                out += [v, v + 1]
        return ISet.make(out)

    def __contains__(self, v):
        return bisect_right(self.b, v) & 1 == 1

    def __len__(self):
        return self.size

    def __bool__(self):
        return self.size > 0

    def __iter__(self):
        b = self.b
        for i in range(0, len(b), 2):
            yield from range(b[i], b[i + 1])

    def ranges(self):
        b = self.b
        return [(b[i], b[i + 1] - 1) for i in range(0, len(b), 2)]

    def min(self):
        return self.b[0]

    def max(self):
        return self.b[-1] - 1

    def at_least(self, k):
        """smallest member >= k, or None"""
        i = bisect_right(self.b, k)
        if i & 1:
            return k
        return self.b[i] if i < len(self.b) else None

    def _merge(self, o, op):
        a, b = self.b, o.b
        i = j = 0
        out = []
        ina = inb = cur = False
        while i < len(a) or j < len(b):
            if j >= len(b) or (i < len(a) and a[i] <= b[j]):
                x = a[i]
            else:
                x = b[j]
            while i < len(a) and a[i] == x:
                ina = not ina
                i += 1
            while j < len(b) and b[j] == x:
                inb = not inb
                j += 1
            n = op(ina, inb)
            if n != cur:
                out.append(x)
                cur = n
        return ISet.make(out)

    def __and__(self, o):
        if self is o:
            return self
        k = (0, self.id, o.id) if self.id < o.id else (0, o.id, self.id)
        r = _MEMO.get(k)
        if r is None:
            if o.size == 1:
                r = o if o.b[0] in self else EMPTY
            elif self.size == 1:
                r = self if self.b[0] in o else EMPTY
            else:
                r = self._merge(o, lambda x, y: x and y)
            _MEMO[k] = r
        return r

    def __or__(self, o):
        if self is o:
            return self
        k = (1, self.id, o.id) if self.id < o.id else (1, o.id, self.id)
        r = _MEMO.get(k)
        if r is None:
            r = _MEMO[k] = self._merge(o, lambda x, y: x or y)
        return r

    def __sub__(self, o):
        k = (2, self.id, o.id)
        r = _MEMO.get(k)
        if r is None:
            r = _MEMO[k] = self._merge(o, lambda x, y: x and not y)
        return r

    def issubset(self, o):
        return (self & o) is self

    def isdisjoint(self, o):
        return not (self & o)

    def __repr__(self):
        r = self.ranges()
        s = ",".join("%x" % a if a == b else "%x-%x" % (a, b) for a, b in r[:6])
        return "{" + s + (",..%d" % len(r) if len(r) > 6 else "") + "}"


EMPTY = ISet.make(())
UNICODE = ISet.make((0, 0xD800, 0xE000, 0x110000))
UNICODE_ALL = ISet.make((0, 0x110000))
