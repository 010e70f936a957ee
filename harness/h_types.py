"""Types of cells."""
import unicodedata

from harness import reftypes
from harness.h_score import sample


def cell_of(h):
    s = sample(h)
    for c in s:
        # the tables of the regex module know characters of a later Unicode version
        h.assume(unicodedata.category(c) != "Cn")
    return s


def detect(h):
    """the type is the first whose grammar fits"""
    T = h.mod("clevercsv.detect_type")
    s = cell_of(h)
    td = T.TypeDetector()
    quoted = h.flag("quoted")
    want = reftypes.detect(s.strip(), quoted)
    got = td.detect_type(s, is_quoted=quoted)
    h.obs(got)
    h.check(got == want, "the type of a cell is the first that fits")
    h.check(td.is_known_type(s, is_quoted=quoted) == (want is not None), "a cell is known when it has a type")
    h.reach(str(want))


def grammar(h):
    """one type test"""
    T = h.mod("clevercsv.detect_type")
    td = T.TypeDetector()
    name = h.cfg["type"]
    s = cell_of(h)
    s = s.strip() if h.cfg.get("strip", True) else s
    fn = getattr(td, {"json": "is_json_obj"}.get(name, "is_" + name))
    for quoted in ((False, True) if name == "unicode_alphanum" else (False,)):
        want = reftypes.test(name, s, quoted)
        got = fn(s, is_quoted=quoted)
        h.check(bool(got) == bool(want), "%s exactly by its grammar" % name)
        h.obs(bool(got))
        h.reach(name if want else "not " + name)


def spaces(h):
    """white space around a cell does not matter"""
    T = h.mod("clevercsv.detect_type")
    td = T.TypeDetector()
    s = cell_of(h)
    a = h.text_upto(1, h.cfg["space"], name="before")
    b = h.text_upto(1, h.cfg["space"], name="after")
    quoted = h.flag("quoted")
    x = td.detect_type(s, is_quoted=quoted)
    h.check(td.detect_type(a + s + b, is_quoted=quoted) == x, "white space around a cell does not change its type")
    if x is not None and not quoted:
        h.check(td.detect_type(s, is_quoted=True) is not None, "quotes do not make a known type unknown")
    h.obs(x)


def names(h):
    """the list of types, and detectors with other settings"""
    T = h.mod("clevercsv.detect_type")
    td = T.TypeDetector()
    h.check(list(td.list_known_types()) == list(reftypes.ORDER), "the known types")
    s = cell_of(h)
    raw = T.TypeDetector(strip_whitespace=False)
    x = raw.detect_type(s)
    if s == s.strip():
        h.check(x == td.detect_type(s), "not removing white space only matters for cells with white space around them")
    h.check(list(T.gen_known_type([s, s])) == [td.is_known_type(s)] * 2, "known types of a list of cells")
    h.obs(x)


def change(h, x, k):
    how = h.pick(("replace", "insert", "delete", "cut", "double"), "change%d" % k)
    h.reach(how)
    i = h.pick(range(len(x) + (how == "insert")), "at%d" % k)
    if how == "delete":
        return x[:i] + x[i + 1:]
    if how == "cut":
        return x[:i]
    if how == "double":
        return x[:i] + x[i] + x[i:]
    c = h.text(1, h.cfg.get("only"), "", name="c%d" % k)
    h.assume(unicodedata.category(c) != "Cn")
    return x[:i] + c + x[i + (how == "replace"):]


def near(h):
    """everything a few changes away from an example of a type"""
    T = h.mod("clevercsv.detect_type")
    td = T.TypeDetector()
    name = h.cfg["type"]
    x = h.cfg["example"]
    h.check(reftypes.test(name, x, False), "the example is one")
    s = x
    for k in range(h.cfg["changes"]):
        s = change(h, s, k)
    s = s.strip()
    for quoted in ((False, True) if name == "unicode_alphanum" else (False,)):
        h.check(bool(getattr(td, {"json": "is_json_obj"}.get(name, "is_" + name))(s, is_quoted=quoted)) == bool(reftypes.test(name, s, quoted)), "%s exactly by its grammar" % name)
    if h.cfg["whole"]:
        h.check(td.detect_type(s) == reftypes.detect(s.strip(), False), "the type of a cell is the first that fits")
    h.obs(s)
