"""Dialect objects."""


def comp(h, name, n=1, kinds=("char", "none", "")):
    """a component: "", one character, or None"""
    k = h.pick(kinds, name + ".kind")
    if k == "plain":
        return h.text(1, only=PLAIN, name=name)
    if k == "other":
        return h.pick(OTHERS, name + ".other")
    if k == "char":
        return h.text(1, name=name)
    if k == "long":
        return h.text(2, name=name)
    return None if k == "none" else ""


# written by the JSON encoder without \\u escapes
PLAIN = "".join(map(chr, range(32, 127))) + "\t\n\r\b\f"
OTHERS = ("\x00", "\x7f", "\xe9", "\u2028", "\U0001f600")


def some(h, i, kinds=("char", "")):
    D = h.mod("clevercsv.dialect").SimpleDialect
    parts = [comp(h, "%s%d" % (n, i), kinds=kinds) for n in ("delimiter", "quotechar", "escapechar")]
    st = h.flag("strict%d" % i)
    return D(parts[0], parts[1], parts[2], st), parts + [st]


def same(p, q):
    return all(type(x) is type(y) and x == y if x is None or y is None else x == y for x, y in zip(p, q))


def equality(h):
    """equality and hash are those of the four components"""
    a, pa = some(h, 0, ("char", "", "none"))
    b, pb = some(h, 1, ("char", "", "none"))
    eq = same(pa, pb)
    h.check((a == b) == eq, "equal exactly when all components are")
    h.check((b == a) == eq, "equality is symmetric")
    h.check((a != b) == (not eq), "!= is the opposite of ==")
    h.check(a == a and not (a != a), "equality is reflexive")
    if eq:
        h.check(hash(a) == hash(b), "equal dialects have equal hashes")
        h.check(len({a, b}) == 1 and len({a: 1, b: 2}) == 1, "equal dialects are one element of a set")
        h.reach("equal")
    else:
        h.check(len({a, b}) == 2, "different dialects are two elements of a set")
        h.reach("different")
    for other in (None, 3, ",", (",", "", ""), object):
        h.check(not (a == other) and a != other, "never equal to another kind of object")
    h.obs(eq)


def order(h):
    """a total order with comma first, then semicolon"""
    a, pa = some(h, 0)
    b, pb = some(h, 1)
    lt, gt, eq = a < b, b < a, a == b
    h.check(int(bool(lt)) + int(bool(gt)) + int(bool(eq)) == 1, "exactly one of <, ==, > holds")
    h.check((a <= b) == (lt or eq) and (a > b) == gt and (a >= b) == (gt or eq), "the other comparisons agree")
    da, db = pa[0], pb[0]
    ra = 0 if da == "," else 1 if da == ";" else 2
    rb = 0 if db == "," else 1 if db == ";" else 2
    if ra != rb:
        h.check(lt == (ra < rb), "comma comes first, then semicolon")
    h.obs([bool(lt), bool(eq)])


def transitive(h):
    a, pa = some(h, 0)
    b, pb = some(h, 1)
    h.assume(a < b)
    c, pc = some(h, 2)
    h.assume(b < c)
    h.check(a < c, "the order is transitive")
    h.check(not (c < a), "the order has no cycles")
    got = sorted([c, a, b])
    h.check(got[0] == a and got[1] == b and got[2] == c, "sorting gives the order")
    h.obs([bool(x == y) for x, y in zip(got, (a, b, c))])


def serial(h):
    """a dialect survives its serialised forms"""
    D = h.mod("clevercsv.dialect").SimpleDialect
    a, p = some(h, 0, ("plain", "", "other"))
    d = a.to_dict()
    h.check(sorted(d) == ["delimiter", "escapechar", "quotechar", "strict"], "four components")
    h.check(d["delimiter"] == p[0] and d["quotechar"] == p[1] and d["escapechar"] == p[2] and d["strict"] == p[3],
            "with their values")
    h.check(D.from_dict(d) == a, "from_dict inverts to_dict")
    s = a.serialize()
    h.obs(s)
    b = D.deserialize(s)
    h.check(b == a, "deserialize inverts serialize")
    h.check(b.delimiter == p[0] and b.quotechar == p[1] and b.escapechar == p[2] and b.strict == p[3], "component by component")
    h.check(repr(a) == "SimpleDialect(%r, %r, %r)" % (p[0], p[1], p[2]), "the representation shows the components")


def validity(h):
    """validate accepts exactly components of at most one character"""
    D = h.mod("clevercsv.dialect").SimpleDialect
    kinds = ("plain", "other", "", "none", "long")
    parts = [comp(h, n, kinds=kinds) for n in ("delimiter", "quotechar", "escapechar")]
    st = h.pick((True, False, None, 2, "x", 1, 0), "strict")
    a = D(parts[0], parts[1], parts[2], st)
    ok = all(x is not None and len(x) <= 1 for x in parts) and st in (True, False)
    for what in ("validate", "to_dict", "serialize", "reader"):
        try:
            if what == "reader":
                pkg = h.mod("clevercsv")
                pkg.reader([], a)
            else:
                getattr(a, what)()
            h.check(ok, "%s refuses components that are missing or too long" % what)
        except ValueError:
            h.check(not ok, "%s accepts valid dialects" % what)
    h.reach("valid" if ok else "invalid")
    h.check(a.delimiter is parts[0] and a.quotechar is parts[1] and a.escapechar is parts[2] and a.strict is st,
            "validation changes nothing")


def csv_there(h):
    """to the csv module and back"""
    import csv
    D = h.mod("clevercsv.dialect").SimpleDialect
    d = h.text(1, without="\0\r\n", name="delimiter")
    q = comp(h, "quotechar", kinds=("char", ""))
    e = comp(h, "escapechar", kinds=("char", ""))
    for x in (q, e):
        if x:
            h.assume(x != d and x != "\0" and x != "\r" and x != "\n")
    st = h.flag("strict")
    a = D(d, q, e, st)
    c = a.to_csv_dialect()
    h.check(c.delimiter == d, "the delimiter")
    h.check((c.quotechar is None) if q == "" else c.quotechar == q, "the quote character")
    h.check((c.escapechar is None) if e == "" else c.escapechar == e, "the escape character")
    h.check(bool(c.strict) == st, "the strictness")
    h.check((c.quoting == csv.QUOTE_NONE) == (q == ""), "no quoting exactly without a quote character")
    h.check(bool(c.doublequote) is True and not c.skipinitialspace, "the rest as documented")
    b = D.from_csv_dialect(c)
    h.check(b == a, "from_csv_dialect inverts to_csv_dialect")
    # usable by the csv module
    if not (d in "kv" or (q and q in "kv") or (e and e in "kv")):
        out = h.stringio("")
        csv.writer(out, c).writerow(["k", "v"])
        h.check(out.getvalue() == "k" + d + "v\n", "usable for writing")
        rows = list(csv.reader(h.stringio("k" + d + "v"), c))
        h.check(rows == [["k", "v"]], "usable for reading")
    csv.register_dialect("vx", c)
    try:
        h.check(D.from_csv_dialect(csv.get_dialect("vx")) == a, "also when registered by name")
    finally:
        csv.unregister_dialect("vx")


def csv_back(h):
    """from any dialect of the csv module"""
    import csv
    D = h.mod("clevercsv.dialect").SimpleDialect
    d = h.text(1, without="\0\r\n", name="delimiter")
    known = ("QUOTE_MINIMAL", "QUOTE_ALL", "QUOTE_NONNUMERIC", "QUOTE_NONE", "QUOTE_STRINGS", "QUOTE_NOTNULL")
    quoting = h.pick(tuple(getattr(csv, k) for k in known if hasattr(csv, k)), "quoting")
    q = comp(h, "quotechar", kinds=("char", "none") if quoting == csv.QUOTE_NONE else ("char",))
    e = comp(h, "escapechar", kinds=("char", "none"))
    st = h.pick((None, False, True), "strict")
    for x in (q, e):
        if x is not None:
            h.assume(x != d and x != "\0" and x != "\r" and x != "\n")
    rest = h.pick((("\r\n", True, False), ("\n", False, False), ("\r", True, True), (d, False, True)), "other parts")
    ns = {"delimiter": d, "quotechar": q, "escapechar": e, "quoting": quoting, "lineterminator": rest[0],
          "doublequote": rest[1], "skipinitialspace": rest[2]}
    if st is not None:
        ns["strict"] = st
    cls = type("given", (csv.Dialect,), ns)
    how = h.pick(("instance", "registered"), "how")
    if how == "instance":
        src = cls()
    else:
        csv.register_dialect("vx2", cls)
        src = csv.get_dialect("vx2")
        csv.unregister_dialect("vx2")
    a = D.from_csv_dialect(src)
    h.check(a.delimiter == d, "the delimiter")
    h.check(a.quotechar == ("" if quoting == csv.QUOTE_NONE else q), "the quote character, none without quoting")
    h.check(a.escapechar == ("" if e is None else e), "the escape character")
    h.check(bool(a.strict) == bool(st), "the strictness")
    h.obs([a.delimiter, a.quotechar, a.escapechar, bool(a.strict)])


def changed(h):
    """a dialect whose components are assigned anew is the dialect of its present components"""
    D = h.mod("clevercsv.dialect").SimpleDialect
    a, pa = some(h, 0, ("char", ""))
    b, pb = some(h, 1, ("char", ""))
    used = h.pick(("hash", "serialize", "compare", "order", "csv"), "used before")
    if used == "hash":
        h.check(len({a, b}) == (1 if same(pa, pb) else 2), "before the change")
    elif used == "serialize":
        D.deserialize(D("x", "", "", False).serialize())
        h.check(a.to_dict()["delimiter"] == pa[0], "before the change")
    elif used == "compare":
        h.check((a == b) == same(pa, pb), "before the change")
    elif used == "order":
        h.check(not (a < a), "before the change")
    elif pa[0]:
        h.assume(pa[0] != "\0" and pa[0] != "\r" and pa[0] != "\n")
        a.to_csv_dialect()
    names = ("delimiter", "quotechar", "escapechar", "strict")
    i = h.pick((0, 1, 2, 3), "component")
    setattr(a, names[i], pb[i])
    now = list(pa)
    now[i] = pb[i]
    fresh = D(*now)
    h.check(a == fresh and not (a != fresh), "equal to a new dialect of the same components")
    h.check(hash(a) == hash(fresh), "with the same hash")
    h.check(len({a, fresh}) == 1 and fresh in {a: 1}, "and one element of a set")
    h.check((a == b) == same(now, pb), "compared by the present components")
    h.check(a.to_dict() == fresh.to_dict(), "converted by the present components")
    h.check((a < b) == (fresh < b) and (b < a) == (b < fresh), "ordered by the present components")
    h.check(a.delimiter == now[0] and a.quotechar == now[1] and a.escapechar == now[2] and a.strict == now[3],
            "the components are those assigned")


def csv_two(h):
    """one conversion does not show in another"""
    import csv
    D = h.mod("clevercsv.dialect").SimpleDialect
    ps = []
    for i in (0, 1):
        ps.append([h.pick(",;", "delimiter%d" % i), h.pick(("", '"', "'"), "quotechar%d" % i), h.pick(("", "\\"), "escapechar%d" % i),
                   h.flag("strict%d" % i)])
    first = D(*ps[0])
    c = first.to_csv_dialect()
    spoil = h.pick(("keep", "change result", "change source"), "then")
    if spoil == "change result":
        c.delimiter = "#"
        c.lineterminator = "\r"
        c.strict = not ps[0][3]
    elif spoil == "change source":
        first.delimiter = "#"
        first.strict = not ps[0][3]
    k = D(*ps[1]).to_csv_dialect()
    h.check(k is not c, "a new object each time")
    h.check(k.delimiter == ps[1][0], "the delimiter")
    h.check(k.quotechar == (ps[1][1] or None), "the quote character")
    h.check(k.escapechar == (ps[1][2] or None), "the escape character")
    h.check(bool(k.strict) == ps[1][3], "the strictness")
    h.check((k.quoting == csv.QUOTE_NONE) == (ps[1][1] == ""), "the quoting")
    h.check(k.lineterminator == "\n", "the line end")
    h.check(D.from_csv_dialect(k) == D(*ps[1]), "and back")
    if spoil == "keep":
        h.check(c.delimiter == ps[0][0] and c.quotechar == (ps[0][1] or None) and bool(c.strict) == ps[0][3], "the first one as it was")
        h.check(D.from_csv_dialect(c) == D(*ps[0]), "and back as well")
    if spoil == "change source":
        h.check(first.to_csv_dialect().delimiter == "#" and bool(first.to_csv_dialect().strict) == (not ps[0][3]),
                "a changed dialect is converted anew")
