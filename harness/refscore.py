"""Reference definitions for dialect detection, written from the documentation
(module and function descriptions, and the paper they follow)."""
import unicodedata

BLOCK_CAT = ("Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co")
BLOCK_CHAR = (".", "/", '"', "'", "\n", "\r")
NO_ESCAPE = ("!", "?", '"', "'", ".", ",", ";", ":", "%", "*", "&", "#")


def category_in(c, cats):
    return unicodedata.category(c) in cats


# ------------------------------------------------------------------ pattern score
def abstraction(text, d, q, e):
    """C cell, D delimiter, Q quote, R row end"""
    out = []
    escaped = False
    for c in text:
        if c == "\r" or c == "\n":
            out.append("R")
            continue
        if d and c == d:
            out.append("C" if escaped else "D")
        elif q and c == q:
            out.append("C" if escaped else "Q")
        elif e and c == e and not escaped:
            escaped = True
            continue
        else:
            out.append("C")
        escaped = False
    return strip(fill(merge(join_rows(out))))


def join_rows(letters):
    """several row ends in a row count as one"""
    out = ""
    for x in letters:
        if x == "R" and out[-1:] == "R":
            continue
        out += x
    return out


def merge(A):
    """a quoted block, from its opening to its closing quote, is (part of) a cell;
    a doubled quote inside does not close it"""
    out = list(A)
    i = 0
    n = len(A)
    while i < n:
        if A[i] != "Q":
            i += 1
            continue
        j = i + 1
        while j < n:
            if A[j] == "Q":
                if j + 1 < n and A[j + 1] == "Q":
                    j += 2
                    continue
                break
            j += 1
        if j >= n:
            # never closed: it stays as it is
            return "".join(out)
        for k in range(i, j + 1):
            out[k] = "C"
        i = j + 1
    return "".join(out)


def fill(A):
    """empty cells are cells; neighbouring cell letters are one cell"""
    out = ""
    n = len(A)
    for i, x in enumerate(A):
        prev = A[i - 1] if i else ""
        if x == "D" and (i == 0 or prev == "D" or prev == "R"):
            out += "C"
        if x == "R" and prev == "D":
            out += "C"
        if x == "C" and out[-1:] == "C":
            continue
        out += x
    if n and A[-1] == "D":
        out += "C"
    return out


def strip(A):
    n = len(A)
    while n and A[n - 1] == "R":
        n -= 1
    return A[:n]


def pattern_score(A, eps):
    count = {}
    for p in A.split("R"):
        count[p] = count.get(p, 0) + 1
    total = 0.0
    for p, n in count.items():
        k = 1
        for x in p:
            if x == "D":
                k += 1
        total += n * max(eps, k - 1) / k
    return total / len(count)


# ------------------------------------------------------------------ candidates
def delimiters(text, allowed=None):
    out = [""]
    for c in text:
        if c in out:
            continue
        if allowed is not None:
            if c in allowed:
                out.append(c)
        elif c == "\t" or (c not in BLOCK_CHAR and not category_in(c, BLOCK_CAT)):
            out.append(c)
    return out


def quotechars(text):
    return [""] + [q for q in ("'", '"', "~", "`") if q in text]


def can_escape(c):
    return category_in(c, ("Po",)) and c not in NO_ESCAPE


def escapechars(text, d, q):
    out = [""]
    for a, b in zip(text, text[1:]):
        if ((d and b == d) or (q and b == q)) and a not in out and can_escape(a):
            out.append(a)
    return out


def masked(text, q, e, x):
    """every occurrence of x is between quotes; quotes can be escaped or doubled"""
    if x == "":
        return False
    inside = False
    escaped = False
    skip = False
    n = len(text)
    for i in range(n):
        c = text[i]
        if skip:
            skip = False
            continue
        if q and c == q:
            if escaped:
                escaped = False
            elif not inside:
                inside = True
            elif i + 1 < n and text[i + 1] == q:
                skip = True
            else:
                inside = False
            continue
        if c == x and not inside:
            return False
        escaped = bool(e) and c == e and not escaped
    return True


# ------------------------------------------------------------------ normal forms
LOW = "abcdefghijklmnopqrstuvwxyz"
ALNUM = LOW + LOW.upper() + "0123456789"
ELEMENTARY = ALNUM + "._&-@+%() /"
SINGLE = ALNUM + "._&-"


def rows_of(text):
    """rows without line ends at the end of the text"""
    n = len(text)
    while n and text[n - 1] == "\n":
        n -= 1
    while n and text[n - 1] == "\r":
        n -= 1
    text = text[:n]
    sep = None
    for s in ("\r\n", "\n", "\r"):
        if s in text:
            sep = s
            break
    return [text] if sep is None else text.split(sep)


def only(cell, chars):
    for c in cell:
        if c not in chars:
            return False
    return True


def elementary(cell):
    return len(cell) > 0 and only(cell, ELEMENTARY)


def quoted(cell, q):
    return len(cell) >= 2 and cell[0] == q and cell[-1] == q


def cut(row, d, q):
    """cells of a row, the quotes kept"""
    out = [""]
    inside = False
    for c in row:
        if c == d and not inside:
            out.append("")
            continue
        if q and c == q:
            inside = not inside
        out[-1] = out[-1] + c
    return out


def table(rows, d, q):
    """the cells if the rows are rectangular with several columns"""
    t = [cut(r, d, q) for r in rows]
    if any(len(x) != len(t[0]) for x in t) or len(t[0]) < 2:
        return None
    return t


def form1(rows, d, q):
    t = table(rows, d, q)
    return t is not None and all(quoted(c, q) and q not in c[1:-1] for r in t for c in r)


def form2(rows, d):
    t = table(rows, d, "")
    return t is not None and all(c == "" or elementary(c) for r in t for c in r)


def form3(rows, d, q):
    t = table(rows, d, q)
    if t is None or len(rows) < 2:
        return False
    for r in t:
        for c in r:
            if quoted(c, q):
                if len(c) == 2 or q in c[1:-1]:
                    return False
            elif not elementary(c):
                return False
    return True


def form4(rows, q):
    if len(rows) < 2:
        return False
    if q == "":
        return all(only(r, SINGLE) for r in rows)
    return all(quoted(r, q) and only(r[1:-1], SINGLE + " ") for r in rows)


def form5(rows, d, q):
    if len(rows) < 2 or not all(len(r) > 2 and quoted(r, q) and d in r for r in rows):
        return False
    return form2([r[1:-1] for r in rows], d)


def normal(text, delims):
    """(delimiter, quotechar, "") of the first normal form that fits, or None"""
    for a, b in zip(text, text[1:]):
        if (b in delims or b == "'" or b == '"') and can_escape(a):
            return None
    rows = rows_of(text)
    for d in delims:
        if form2(rows, d):
            return (d, "", "")
    for d in delims:
        for q in ("'", '"'):
            if form1(rows, d, q) or form3(rows, d, q) or form5(rows, d, q):
                return (d, q, "")
    for q in ("'", '"', ""):
        if form4(rows, q):
            return ("", q, "")
    return None
