"""Splits Python source that may contain unknown characters into plain source and literals."""
from .core import Unsupported
from .iset import ISet
from .strs import decide, mk, t_eq, t_in, terms
from .iset import ISet

SIMPLE = {"n": 10, "t": 9, "r": 13, "\\": 92, "'": 39, '"': 34, "a": 7, "b": 8, "f": 12, "v": 11}


def is_ch(x, c):
    return decide(t_eq(x, ord(c)))


def split(code):
    """-> (values of the string literals, source referring to them as _lit[i])"""
    t = terms(code)
    n = len(t)
    out = []
    lits = []
    i = 0
    while i < n:
        x = t[i]
        if is_ch(x, "#"):
            while i < n and not is_ch(t[i], "\n") and not is_ch(t[i], "\r"):
                i += 1
            continue
        if is_ch(x, "'") or is_ch(x, '"'):
            raw = False
            k = len(out)
            while k and out[k - 1].isalnum() or k and out[k - 1] == "_":
                k -= 1
            pre = "".join(out[k:])
            if pre:
                if pre.lower() not in ("r", "u"):
                    raise Unsupported("string literal with prefix " + pre)
                raw = pre.lower() == "r"
                del out[k:]
            v, i = literal(t, i, raw)
            out.extend(" _lit[%d] " % len(lits))
            lits.append(v)
            continue
        if type(x) is not int or x < 0:
            raise SyntaxError("unknown character outside of a string literal")
        out.append(chr(x))
        i += 1
    return lits, "".join(out)


def literal(t, i, raw):
    q = '"' if is_ch(t[i], '"') else "'"
    n = len(t)
    triple = i + 2 < n and is_ch(t[i + 1], q) and is_ch(t[i + 2], q)
    i += 3 if triple else 1
    out = []
    while True:
        if i >= n:
            raise SyntaxError("unterminated string literal")
        x = t[i]
        if is_ch(x, q):
            if not triple:
                return mk(out), i + 1
            if i + 2 < n and is_ch(t[i + 1], q) and is_ch(t[i + 2], q):
                return mk(out), i + 3
            out.append(x)
            i += 1
            continue
        if is_ch(x, "\n") or is_ch(x, "\r"):
            if not triple:
                raise SyntaxError("unterminated string literal")
            if is_ch(x, "\r"):
                if i + 1 < n and is_ch(t[i + 1], "\n"):
                    i += 1
                x = 10
            out.append(x)
            i += 1
            continue
        if not is_ch(x, "\\"):
            out.append(x)
            i += 1
            continue
        if raw:
            if i + 1 >= n:
                raise SyntaxError("unterminated string literal")
            out.extend([92, t[i + 1]])
            i += 2
            continue
        i += 1
        if i >= n:
            raise SyntaxError("unterminated string literal")
        y = t[i]
        for c, v in SIMPLE.items():
            if is_ch(y, c):
                out.append(v)
                i += 1
                break
        else:
            if is_ch(y, "\n"):
                i += 1
                continue
            k = 0
            for c, m in (("x", 2), ("u", 4), ("U", 8)):
                if is_ch(y, c):
                    k = m
            if k:
                hexd = t[i + 1 : i + 1 + k]
                if any(type(z) is not int or z < 0 for z in hexd):
                    raise Unsupported("escape with unknown digits")
                out.append(int("".join(map(chr, hexd)), 16))
                i += 1 + k
            elif is_ch(y, "N") or decide(t_in(y, ISet.range(48, 55))):
                raise Unsupported("octal or named escape")
            else:
                out.extend([92, y])
                i += 1
