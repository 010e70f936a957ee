"""Memory safety of the extension modules: the checks are those of the C machine
(bounds, liveness, initialisation, reference counts, leaks); the harness only
drives the modules through every kind of use."""
from harness.h_parser import dialect


class Boom(Exception):
    pass


class Falsy:
    def __bool__(self):
        raise Boom("no truth value")


class Source:
    """iterator over the given items; an exception among them is raised"""

    def __init__(self, items, hook=None):
        self.items = list(items)
        self.i = 0
        self.hook = hook

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        x = self.items[self.i]
        self.i += 1
        if x == "hook!":
            self.hook()
            return "h,"
        if type(x) is str and x == "raise!":
            raise Boom("source")
        return x


def errors(h):
    return (h.mod("clevercsv.cparser").Error, MemoryError, Boom, TypeError, SystemError, OverflowError)


def drain(h, p, n, keep):
    for _ in range(n):
        try:
            keep.append(next(p))
        except StopIteration:
            keep.append("stop")
            break
        except errors(h) as e:
            keep.append(type(e).__name__)


def parser(h):
    """any text in any pieces, read partly or completely, also after an error"""
    C = h.mod("clevercsv.cparser")
    d, q, e = dialect(h, h.cfg["dialect"])
    lines = [h.cfg.get("prefix", "") + h.text_upto(n, h.cfg.get("only"), name="line%d" % i) for i, n in enumerate(h.cfg["sizes"])]
    kw = {"delimiter": d, "quotechar": q, "escapechar": e, "strict": h.flag("strict"), "return_quoted": h.flag("flags")}
    if h.cfg.get("limit"):
        kw["field_limit"] = h.pick(h.cfg["limit"], "limit")
    got = []
    try:
        p = C.Parser(Source(lines), **kw)
    except (MemoryError, TypeError) as x:
        h.obs(type(x).__name__)
        return
    drain(h, p, h.pick(h.cfg.get("steps", (1, 4)), "steps"), got)
    h.obs(got)


def sources(h):
    """sources that raise, give other things than text, or are used by someone else at the same time"""
    C = h.mod("clevercsv.cparser")
    a = h.text_upto(h.cfg["n"], name="a")
    b = h.text_upto(h.cfg["n"], name="b")
    bad = h.pick(("raise!", None, 3, b"x", ["x"], "hook!"), "item")
    got = []
    box = []

    def hook():
        drain(h, box[0], 1, got)

    q = h.pick(('"', ""), "quote")
    try:
        p = C.Parser(Source([a, bad, b], hook), delimiter=",", quotechar=q, escapechar="\\", return_quoted=h.flag("flags"))
    except (MemoryError, TypeError) as x:
        h.obs(type(x).__name__)
        return
    box.append(p)
    drain(h, p, 4, got)
    box.clear()
    h.obs(got)


def arguments(h):
    """wrong arguments are refused, nothing is lost"""
    C = h.mod("clevercsv.cparser")
    good = ["a"]
    which = h.pick(("iterable", "delimiter", "quotechar", "escapechar", "limit", "strict", "return_quoted", "missing", "unknown",
                    "positional"), "which")
    c = h.text(1, name="character")
    try:
        if which == "iterable":
            C.Parser(h.pick((None, 3, 2.5), "value"))
        elif which in ("delimiter", "quotechar", "escapechar"):
            v = h.pick((None, "", 3, "ab", b"x", "c"), "value")
            C.Parser(good, **{which: c if v == "c" else v})
        elif which == "limit":
            C.Parser(good, field_limit=h.pick((None, "3", 2.5, True, 0, -1, 2 ** 40, 2 ** 70, -2 ** 70), "value"))
        elif which in ("strict", "return_quoted"):
            v = h.pick(("raises", None, "c", 0), "value")
            C.Parser(good, **{which: Falsy() if v == "raises" else c if v == "c" else v})
        elif which == "missing":
            C.Parser()
        elif which == "unknown":
            C.Parser(good, other=1)
        else:
            C.Parser(good, ",", '"')
        h.obs("accepted")
        h.reach("accepted")
    except errors(h) as e:
        h.obs(type(e).__name__)
        h.reach(type(e).__name__)


def scan(h):
    """the two functions of the pattern score, on long texts and with any characters"""
    A = h.mod("clevercsv.cabstraction")
    text = h.cfg.get("prefix", "") + h.text_upto(h.cfg["n"], h.cfg.get("only")) + h.cfg.get("suffix", "")
    d, q, e = dialect(h, h.cfg["dialect"])
    out = []
    try:
        x = A.base_abstraction(text, d, q, e)
        out.append(x)
        out.append(A.c_merge_with_quotechar(x))
    except MemoryError:
        out.append("no memory")
    h.obs([len(out), [y[-8:] for y in out]])


def scan_arguments(h):
    A = h.mod("clevercsv.cabstraction")
    c = h.text(1, name="character")
    vals = ["c", None, "", "ab", 3, b"x"]
    args = [h.pick(vals, "delimiter"), h.pick(vals, "quotechar"), h.pick(vals, "escapechar")]
    args = [c if a == "c" else a for a in args]
    n = h.pick((4, 3, 5), "number")
    text = h.pick(("x,y", b"x,y", None, 3, ["x"]), "text")
    args = ([text] + args + [None])[:n]
    try:
        h.obs(A.base_abstraction(*args))
    except (TypeError, MemoryError) as e:
        h.obs(type(e).__name__)
    try:
        A.c_merge_with_quotechar(*args[:n - 3])
    except (TypeError, MemoryError) as e:
        h.obs(type(e).__name__)


def letters(h):
    """blocks of quotes, up to and past the size of the block table"""
    A = h.mod("clevercsv.cabstraction")
    s = h.cfg.get("prefix", "") + h.text_upto(h.cfg["n"], "CDQR", name="letters")
    try:
        h.obs(A.c_merge_with_quotechar(s))
    except MemoryError:
        h.obs("no memory")


def ordinary(h):
    """every cell is an ordinary string and every row an ordinary list"""
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error
    h.opt("uni_mode", "fork")
    d, q, e = dialect(h, h.cfg["dialect"])
    text = h.text_upto(h.cfg["n"], h.cfg.get("only"), "\0")
    flags = h.flag("flags")
    rows = []
    try:
        for row in P.parse_string(text, D(d, q, e), return_quoted=flags):
            h.check(type(row) is list, "a row is a list")
            rows.append(row)
            for cell in row:
                if flags:
                    h.check(type(cell) is tuple and len(cell) == 2 and (cell[1] is True or cell[1] is False), "a flag is a bool")
                    cell = cell[0]
                h.ordinary(cell, "a cell is an ordinary string, equal to and hashed like the same text made otherwise")
                h.check(cell in {"".join([c for c in cell]): 1}, "a cell is found in a dictionary")
    except X:
        pass
    h.obs(rows)


def ordinary_scan(h):
    A = h.mod("clevercsv.cabstraction")
    h.opt("uni_mode", "fork")
    text = h.text_upto(h.cfg["n"])
    d, q, e = dialect(h, h.cfg["dialect"])
    x = A.base_abstraction(text, d, q, e)
    h.ordinary(x, "an abstraction is an ordinary string")
    h.obs(x)
    y = A.c_merge_with_quotechar(x)
    h.ordinary(y, "an abstraction is an ordinary string")
    h.obs(y)


class Text(str):
    """text of a class of its own"""


def ordinary_from(h):
    """also for text of a class derived from str"""
    C = h.mod("clevercsv.cparser")
    A = h.mod("clevercsv.cabstraction")
    d, q, e = dialect(h, h.cfg["dialect"])
    text = Text(h.pick(h.cfg["texts"], "text"))
    for flags in (False, True):
        for row in C.Parser([text, text], delimiter=d, quotechar=q, escapechar=e, return_quoted=flags):
            for cell in row:
                h.ordinary(cell[0] if flags else cell, "a cell is an ordinary string")
    x = A.base_abstraction(text, d, q, e)
    h.ordinary(x, "an abstraction is an ordinary string")
    y = A.c_merge_with_quotechar(Text(x))
    h.ordinary(y, "an abstraction is an ordinary string")
    h.obs([x, y])
