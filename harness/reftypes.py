"""Reference grammars of the cell types, written from their descriptions."""
import json
import unicodedata

LOW = "abcdefghijklmnopqrstuvwxyz"
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"
AN = LOW + UP + DIG

# characters allowed in text besides letters, numbers and the space
SPECIAL = (
    "-_.\u06d4\u3002\ufe52\uff0e\uff61()\u27ee\u27ef\uff08\uff09?\u00bf\u037e\u055e\u061f\u1367\u1945\u2047\u2048\u2049"
    "\u2cfa\u2cfb\u2e2e\ua60f\ua6f7\ufe16\ufe56\uff1f\U00011143\U0001e95f!\u00a1\u01c3\u055c\u07f9\u109f\u1944\u203c\uaa77"
    "\ufe15\ufe57\uff01\U0001e95e"
)
QUOTED_SPECIAL = ",\u060c\u1363\u1802\u1808\uff0c\ufe50"
ORDER = ("empty", "url", "email", "ipv4", "number", "time", "percentage", "currency", "unix_path", "nan", "date", "datetime",
         "unicode_alphanum", "bytearray", "json")


def digit(c):
    return unicodedata.category(c) == "Nd"


def digits(s, lo=1, hi=None):
    if len(s) < lo or (hi is not None and len(s) > hi):
        return False
    for c in s:
        if not digit(c):
            return False
    return True


def word(s, chars, lo=1, hi=None):
    if len(s) < lo or (hi is not None and len(s) > hi):
        return False
    for c in s:
        if c not in chars:
            return False
    return True


def find(s, chars):
    for i, c in enumerate(s):
        if c in chars:
            return i
    return -1


def letter(c):
    k = unicodedata.category(c)
    return k == "Lu" or k == "Ll" or k == "Lt" or k == "Lm" or k == "Lo"


def numeral(c):
    k = unicodedata.category(c)
    return k == "Nd" or k == "Nl" or k == "No"


# ------------------------------------------------------------------ numbers
def whole(s):
    """0, or digits without a leading zero"""
    return s == "0" or (len(s) > 0 and s[0] in "123456789" and digits(s[1:], 0))


def exponent(s):
    """e5, E-087"""
    if len(s) < 2 or s[0] not in "eE":
        return False
    s = s[1:]
    if s[0] in "+-":
        s = s[1:]
    return digits(s)


def grouped(s, sep, point):
    """1,234,567.89"""
    i = find(s, point)
    if i < 0 or not digits(s[i + 1 :], 0):
        return False
    parts = s[:i].split(sep)
    if len(parts) < 2:
        return False
    if not (1 <= len(parts[0]) <= 3 and parts[0][0] in "123456789" and digits(parts[0][1:], 0)):
        return False
    for p in parts[1:]:
        if not digits(p, 3, 3):
            return False
    return True


def number(s):
    if s == "":
        return False
    if s[0] in "+-":
        s = s[1:]
        if s == "":
            return True  # a sign alone counts
    if grouped(s, ",", ".") or grouped(s, ".", ","):
        return True
    i = find(s, ".,eE")
    if i < 0:
        return whole(s)
    a, c, b = s[:i], s[i], s[i + 1 :]
    if a != "" and not whole(a):
        return False
    if c == "." or c == ",":
        j = find(b, "eE")
        m, x = (b, "") if j < 0 else (b[:j], b[j:])
        if x != "" and not exponent(x):
            return False
        if not digits(m, 0):
            return False
        if c == ".":
            return a != "" or m != ""
        return len(m) >= (1 if x == "" else 2)
    return a != "" and exponent(s[i:])


def percentage(s):
    return len(s) > 1 and s[-1] == "%" and number(s.rstrip("%").strip())


def currency(s):
    if s == "" or unicodedata.category(s[0]) != "Sc":
        return False
    s = s[1:]
    if len(s) > 0 and s[0].isspace():
        s = s[1:]
    return "\n" not in s and number(s.strip())


# ------------------------------------------------------------------ addresses
def ipv4(s):
    parts = s.split(".")
    return len(parts) == 4 and all(digits(p, 1, 3) for p in parts)


def email(s):
    parts = s.split("@")
    if len(parts) != 2 or not word(parts[0], AN + "_.+-"):
        return False
    i = find(parts[1], ".")
    return i >= 1 and word(parts[1][:i], AN + "-") and word(parts[1][i + 1 :], AN + "-.")


def label(s):
    if s == "":
        return False
    for c in s:
        if not (c == "-" or letter(c) or numeral(c)):
            return False
    return True


def domain(s, more):
    """example.com, bbc.co.uk; more: one more ending may follow"""
    parts = s.split(".")
    n = len(parts)
    for i in range(1, n):
        if not label(parts[i - 1]):
            return False
        rest = parts[i + 1 :]
        if len(rest) > 2 or not word(parts[i], LOW, 2):
            continue
        if not rest:
            return True
        if len(rest) == 1 and (word(rest[0], LOW, 2, 3) or (more and word(rest[0], LOW))):
            return True
        if len(rest) == 2 and more and word(rest[0], LOW, 2, 3) and word(rest[1], LOW):
            return True
    return False


def port(s):
    return s == "" or (s[0] == ":" and digits(s[1:], 1, 5))


def host(s, more):
    if domain(s, more):
        return True
    for t in (s, s[: s.rfind(".")]) if more and "." in s and word(s[s.rfind(".") + 1 :], LOW) else (s,):
        if t[:9] == "localhost" and port(t[9:]):
            return True
        i = find(t, ":")
        a, b = (t, "") if i < 0 else (t[:i], t[i:])
        if ipv4(a) and port(b):
            return True
    return False


def url(s):
    for p in ("http://", "https://", "ftp://"):
        if s[: len(p)] == p:
            s = s[len(p) :]
            if s[:1] == "-":
                return False
            break
    i = find(s, "/")
    if i < 0:
        return host(s, True)
    if not host(s[:i], False):
        return False
    for c in s[i:]:
        if not (c in "_/()~?=&%-#.:" or letter(c) or numeral(c)):
            return False
    return True


def unix_path(s):
    if s[:1] == "~" or s[:1] == ".":
        s = s[1:]
    if s[:1] != "/":
        return False
    parts = s[1:].split("/")
    if len(parts) > 1 and parts[-1] == "":
        parts = parts[:-1]
    return all(word(p, AN + ".-_") for p in parts)


# ------------------------------------------------------------------ dates
def hour(s):
    return len(s) == 2 and ((s[0] in "01" and s[1] in DIG) or (s[0] == "2" and s[1] in "0123"))


def sixty(s):
    return len(s) == 2 and s[0] in "012345" and s[1] in DIG


def time(s):
    p = s.split(":")
    if len(p) == 2:
        return sixty(p[1]) and (hour(p[0]) or (len(p[0]) == 1 and p[0] in DIG))
    if len(p) == 3:
        return hour(p[0]) and sixty(p[1]) and sixty(p[2])
    if len(p) == 4:
        # with a time zone
        m = p[2]
        return (hour(p[0]) and sixty(p[1]) and len(m) == 5 and sixty(m[:2]) and m[2] in "+-"
                and m[3] in "01" and m[4] in DIG and sixty(p[3]))
    return False


def month(s, strict=False):
    if len(s) == 1:
        return not strict and s in "123456789"
    return len(s) == 2 and ((s[0] == "0" and s[1] in "123456789") or (s[0] == "1" and s[1] in "012"))


def day(s, strict=False):
    if len(s) == 1:
        return not strict and s in "123456789"
    return len(s) == 2 and ((s[0] == "0" and s[1] in "123456789") or (s[0] in "12" and digit(s[1])) or (s[0] == "3" and s[1] in "01"))


def year(s):
    return digits(s, 2, 2) or (len(s) == 4 and s[0] in "12" and digits(s[1:]))


def date(s):
    if s == "":
        return False
    for sep in "-/. ":
        p = s.split(sep)
        if len(p) == 3 and ((month(p[0]) and day(p[1]) and year(p[2])) or (day(p[0]) and month(p[1]) and year(p[2]))
                            or (year(p[0]) and month(p[1]) and day(p[2]))):
            return True
    for y, m, d in ("\u5e74\u6708\u65e5", "\ub144\uc6d4\uc77c"):
        if s[-1] == d:
            i, j = find(s, y), find(s, m)
            if 0 <= i < j and year(s[:i]) and month(s[i + 1 : j]) and day(s[j + 1 : -1]):
                return True
    if len(s) == 6 or len(s) == 8:
        a, b, c = s[:2], s[2:4], s[4:]
        if ((month(a, True) and day(b, True)) or (day(a, True) and month(b, True))) and year(c):
            return True
        if year(s[:-4]) and month(s[-4:-2], True) and day(s[-2:], True):
            return True
    return False


def offset(s):
    return time(s) or (len(s) == 4 and hour(s[:2]) and sixty(s[2:])) or hour(s)


def datetime(s):
    """[date] [time] and [date]T[time], with Z or an offset"""
    if " " in s:
        p = s.split(" ")
        return len(p) == 2 and date(p[0].strip()) and time(p[1].strip())
    p = s.split("T")
    if len(p) != 2 or not date(p[0].strip()):
        return False
    t = p[1]
    if time(t.strip()):
        return True
    if t[-1:] == "Z" and time(t[:-1].strip()):
        return True
    for sign in "+-":
        if sign in t:
            a, b = t.split(sign)[:2]
            return time(a.strip()) and offset(b.strip())
    return False


# ------------------------------------------------------------------ text
def alphanum(s, quoted):
    if s == "":
        return False
    chars = " " + SPECIAL + (QUOTED_SPECIAL if quoted else "")
    for c in s:
        if not (c in chars or letter(c) or numeral(c)):
            return False
    return True


def is_json(s):
    if s[:1] != "{" or s[-1:] != "}":
        return False
    try:
        json.loads(s)
    except Exception:
        return False
    return True


def test(name, s, quoted=False):
    """does the text (without white space around it) fit the type?"""
    if name == "empty":
        return s == ""
    if name == "url":
        return url(s)
    if name == "email":
        return email(s)
    if name == "ipv4":
        return ipv4(s)
    if name == "number":
        return number(s)
    if name == "time":
        return time(s)
    if name == "percentage":
        return percentage(s)
    if name == "currency":
        return currency(s)
    if name == "unix_path":
        return unix_path(s)
    if name == "nan":
        return s.lower() in ("n/a", "na", "nan")
    if name == "date":
        return date(s)
    if name == "datetime":
        return datetime(s)
    if name == "unicode_alphanum":
        return alphanum(s, quoted)
    if name == "bytearray":
        return s[:11] == "bytearray(b" and s[-1:] == ")"
    return is_json(s)


def detect(s, quoted=False):
    for name in ORDER:
        if test(name, s, quoted):
            return name
    return None
