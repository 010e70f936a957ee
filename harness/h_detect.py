"""Dialect detection from end to end."""
from harness import refscore
from harness.h_score import fill, sample


def name(r):
    return None if r is None else [r.delimiter, r.quotechar, r.escapechar]


def limit_of(h):
    return h.mod("clevercsv").field_size_limit()


def valid(h):
    """any text gives no result or a dialect made from its own characters"""
    T = h.mod("clevercsv.detect")
    text = sample(h)
    method = h.pick(h.cfg.get("methods", ("auto", "normal", "consistency")), "method")
    allowed = h.cfg.get("delimiters")
    det = T.Detector()
    before = limit_of(h)
    r = det.detect(text, delimiters=None if allowed is None else allowed, method=method)
    h.obs(name(r))
    h.check(limit_of(h) == before, "the field size limit is unchanged")
    if method == "auto":
        n = T.Detector().detect(text, delimiters=allowed, method=T.DetectionMethod.NORMAL)
        if n is None:
            n = T.Detector().detect(text, delimiters=allowed, method=T.DetectionMethod.CONSISTENCY)
            h.check(det.method_ == "consistency", "the method that was used is recorded")
        else:
            h.check(det.method_ == "normal", "the method that was used is recorded")
        h.check(n == r, "auto is the normal form if there is one and the consistency measure otherwise")
    else:
        h.check(det.method_ == method, "the method that was used is recorded")
        if method == "normal":
            w = refscore.normal(text, (",", ";", "|", "\t") if allowed is None else allowed)
            h.check((r is None) == (w is None), "the normal method gives a result exactly for normal forms")
    if r is None:
        h.reach("none")
        return
    h.reach(method)
    usable(h, text, r, allowed)


def usable(h, text, r, allowed):
    h.check(type(r) is h.mod("clevercsv.dialect").SimpleDialect, "the result is a dialect")
    r.validate()
    h.check(r.delimiter == "" or r.delimiter in text, "the delimiter occurs in the text")
    if allowed is not None:
        h.reach("delimiters given")
        h.check(r.delimiter == "" or r.delimiter in list(allowed), "the delimiter is one of those allowed")
    else:
        h.check(r.delimiter in refscore.delimiters(text), "the delimiter is an allowed character")
    h.check(r.quotechar == "" or (r.quotechar in ("'", '"', "~", "`") and r.quotechar in text),
            "the quote character is a known one that occurs in the text")
    h.check(r.escapechar in refscore.escapechars(text, r.delimiter, r.quotechar),
            "the escape character occurs before the delimiter or the quote character")
    h.check(r.strict is False, "the result is not strict")
    rows = list(h.mod("clevercsv").reader(h.stringio(text), r))
    h.check(rows == list(h.mod("clevercsv.cparser_util").parse_string(text, r)), "the text can be read with it")


def total(h):
    """detection ends with a result for every text (no error, no endless loop)"""
    T = h.mod("clevercsv.detect")
    text = sample(h)
    r = T.Detector().detect(text, delimiters=h.cfg.get("delimiters"))
    if r is not None:
        usable(h, text, r, h.cfg.get("delimiters"))
    h.obs(name(r))


def entry_points(h):
    """all ways to detect agree"""
    T = h.mod("clevercsv.detect")
    pkg = h.mod("clevercsv")
    text = sample(h)
    r = T.Detector().detect(text)
    h.check(T.Detector().sniff(text) == r, "sniff is detect")
    h.check(T.Detector().detect(text, verbose=True) == r, "being verbose changes nothing")
    h.check(T.Detector().detect(text, method=T.DetectionMethod.AUTO) == r, "auto is the default")
    h.check(T.Detector().detect(text, skip=False) == r, "skipping changes nothing")
    n = T.Detector().detect(text, method="normal")
    N = h.mod("clevercsv.normal_form").detect_dialect_normal(text)
    h.check(n == N, "method normal is the normal form detection")
    c = T.Detector().detect(text, method="consistency")
    C = h.mod("clevercsv.consistency").detect_dialect_consistency(text)
    h.check(c == C, "method consistency is the consistency measure")
    h.check(h.mod("clevercsv.consistency").ConsistencyDetector().detect(text) == c, "as an object, too")
    ds = [c for c in (",", ";", "x", "-") ]
    a = T.Detector().detect(text, delimiters=ds)
    h.check(T.Detector().detect(text, delimiters=iter(ds)) == a, "delimiters can be any iterable")
    h.check(T.Detector().detect(text, delimiters="".join(ds)) == a, "delimiters can be a string")
    h.check(T.Detector().sniff(text, ds) == a, "sniff takes delimiters")
    for bad in ("AUTO", "x", ""):
        try:
            T.Detector().detect(text, method=bad)
            h.fail("unknown methods are refused")
        except ValueError:
            pass
    h.write_file("f.csv", text)
    h.check(pkg.detect_dialect("f.csv", encoding="utf-8") == r, "detection on a file is detection on its text")
    h.check(pkg.detect_dialect("f.csv", encoding="utf-8", method="consistency", skip=False) == c, "with all options")
    h.check(pkg.detect_dialect("f.csv", encoding="utf-8", method="normal") == n, "with all options")
    h.obs([name(r), name(n), name(c), name(a)])


def pure(h):
    """the result depends on the text alone"""
    T = h.mod("clevercsv.detect")
    pkg = h.mod("clevercsv")
    text = sample(h)
    det = T.Detector()
    limit = h.pick(h.cfg.get("limits", (131072, 2)), "limit")
    pkg.field_size_limit(limit)
    first = det.detect(text)
    h.check(pkg.field_size_limit() == limit, "the field size limit is as before")
    how = h.pick(("again", "other text", "other settings", "failed"), "history")
    if how == "again":
        pass
    elif how == "other text":
        other = h.pick(("a,b\nc,d\n", "'a';'b'\n", "x\ty\\\tz\n1\t2\t3", ""), "other")
        det.detect(other, method="consistency")
        T.Detector().detect(other)
    elif how == "other settings":
        det.detect(text, delimiters=[";", "x"], method="consistency", skip=False)
        det.detect(text, method="normal")
        limit = 3
        pkg.field_size_limit(limit)
    else:
        try:
            det.detect("a\0b,c", method="consistency")
        except pkg.Error:
            pass
        try:
            det.detect(text, method="no such method")
        except ValueError:
            pass
    h.check(det.detect(text) == first, "the same detector gives the same result again")
    h.check(T.Detector().detect(text) == first, "and so does another one")
    h.check(pkg.field_size_limit() == limit, "the field size limit is as before")
    h.obs(name(first))


def earlier(h):
    """what was detected before does not matter, and a new process gives the same"""
    text = sample(h)
    before = fill(h, h.cfg["before"], "before")
    T = h.mod("clevercsv.detect")
    method = h.pick(("auto", "consistency"), "method")
    T.Detector().detect(before, method=method)
    a = name(T.Detector().detect(text, method=method))
    D = h.mod("clevercsv.detect").Detector
    if h.flag("other settings"):
        d = D()
        d.detect(text, delimiters=[";", "x"], method=method)
        d.detect(before, delimiters=[",", "y"], method=method, skip=False)
        h.check(name(d.detect(text, method=method)) == a, "the same result with a detector that was used before")
    h.restart()
    b = name(h.mod("clevercsv.detect").Detector().detect(text, method=method))
    h.check(a == b, "the same result in a new process")
    h.obs(b)


def unordered(h):
    """the result does not depend on the order of hash tables"""
    T = h.mod("clevercsv.detect")
    text = sample(h)
    method = h.pick(("auto", "consistency"), "method")
    a = T.Detector().detect(text, method=method)
    h.opt("set_order", h.pick(("rev", "rot"), "order"))
    b = T.Detector().detect(text, method=method)
    h.opt("set_order", None)
    h.obs(name(a))
    h.check(a == b, "the same result for every order of sets")


def skipping(h):
    """skipping type scores does not change the result"""
    C = h.mod("clevercsv.consistency")
    T = h.mod("clevercsv.detect")
    text = sample(h)
    ds = h.cfg.get("delimiters")
    a = C.ConsistencyDetector(skip=True).detect(text, delimiters=ds)
    b = C.ConsistencyDetector(skip=False).detect(text, delimiters=ds)
    h.check(a == b, "the same result with and without skipping")
    c = T.Detector().detect(text, delimiters=ds, method="consistency", skip=False)
    h.check(a == c, "the same result with and without skipping")
    d = C.ConsistencyDetector(cache_capacity=1).detect(text, delimiters=ds)
    h.check(a == d, "the size of the cache does not matter")
    h.obs(name(a))


def failing(h):
    """a failing detection leaves the field size limit as it was"""
    pkg = h.mod("clevercsv")
    T = h.mod("clevercsv.detect")
    a = h.text_upto(h.cfg["n"], without="\0", name="before")
    b = h.text_upto(h.cfg["n"], without="\0", name="after")
    old = h.pick((131072, 0, 5, 10 ** 9), "limit")
    pkg.field_size_limit(old)
    try:
        r = T.Detector().detect(a + "\0" + b, method=h.pick(("auto", "consistency"), "method"))
        h.reach("result")
    except pkg.Error:
        h.reach("error")
    h.check(pkg.field_size_limit() == old, "the field size limit is as before")


def interrupted(h):
    """so does one that is interrupted, wherever that happens"""
    pkg = h.mod("clevercsv")
    T = h.mod("clevercsv.detect")
    C = h.mod("clevercsv.consistency")
    text = sample(h)
    old = h.pick((131072, 7), "limit")
    kind = h.pick((KeyboardInterrupt, MemoryError, ValueError, GeneratorExit, pkg.Error), "exception")
    where = h.pick(h.cfg.get("where", ("consistency", "detect_pattern", "detect_type", "potential_dialects", "break_ties", "cparser_util", "normal_form")), "where")
    M = h.mod("clevercsv." + where)
    names = [x for x in ("pattern_score", "get_dialects", "tie_breaker", "make_abstraction", "get_delimiters", "filter_urls", "parse_string",
                         "gen_known_type", "is_form_5", "reduce_pairwise", "break_ties_two") if hasattr(M, x)]
    met = []

    def stop(*args, **kw):
        met.append(1)
        raise kind("stopped")

    pkg.field_size_limit(old)
    saved = [(x, getattr(M, x)) for x in names]
    try:
        for x, f in saved:
            setattr(M, x, stop)
        try:
            T.Detector().detect(text, method=h.pick(("auto", "consistency"), "method"))
        except kind:
            h.reach("reported")
    finally:
        for x, f in saved:
            setattr(M, x, f)
    h.check(pkg.field_size_limit() == old, "the field size limit is as before")
    h.reach("stopped" if met else "went on")


def helpers(h):
    """settings of one call of a helper do not stay for later ones"""
    T = h.mod("clevercsv.detect")
    P = h.mod("clevercsv.potential_dialects")
    E = h.mod("clevercsv.escape")
    text = sample(h)

    def all_of(ds):
        return sorted([[d.delimiter, d.quotechar, d.escapechar] for d in ds])

    def now():
        return [name(T.Detector().detect(text)), name(T.Detector().detect(text, method="consistency")), all_of(P.get_dialects(text)),
                E.is_potential_escapechar("\\", "utf-8"), E.is_potential_escapechar("?", "utf-8"), E.is_potential_escapechar("a", "utf-8")]

    before = now()
    what = h.pick(("escape", "escape none", "candidates", "delimiters", "quotes", "types", "count"), "helper")
    if what == "escape":
        h.check(E.is_potential_escapechar("\\", "utf-8", block_char=["\\", "/"]) is False, "own blocked characters")
        h.check(E.is_potential_escapechar("?", "utf-8", block_char=["\\", "/"]) is True, "instead of the usual ones")
    elif what == "escape none":
        E.is_potential_escapechar("?", "utf-8", block_char=[])
        E.is_potential_escapechar("\\", "latin-1", block_char=iter("\\@"))
    elif what == "candidates":
        P.get_dialects(text, delimiters=[","])
        P.get_dialects(text, test_masked_by_quotes=False)
        P.get_dialects("a@,b\\;c", encoding="latin-1", delimiters=";@")
    elif what == "delimiters":
        P.get_delimiters(text, "utf-8", delimiters=["a"])
        P.get_delimiters(text, "utf-8", block_cat=["Po"], block_char=[",", "x"])
        P.get_delimiters(text, "utf-8", block_cat=[], block_char=[])
    elif what == "quotes":
        P.get_quotechars(text, quote_chars=["a"])
        P.get_quotechars("", quote_chars="'")
    elif what == "types":
        H = h.mod("clevercsv.detect_type")
        H.TypeDetector(strip_whitespace=False).detect_type(" 1 ")
        mine = H.TypeDetector()
        for k in list(mine.patterns):
            mine.patterns.pop(k)
    else:
        h.mod("clevercsv.consistency").detect_dialect_consistency("a|b\nc|d", delimiters="|", skip=False)
        h.mod("clevercsv.normal_form").detect_dialect_normal("a|b\nc|d", delimiters=["|"])
    h.check(now() == before, "nothing has changed")
    h.obs(before)
