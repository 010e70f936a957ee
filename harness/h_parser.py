"""The parser against the reference."""
from harness import refparser

WHY = {
    "nul": "line contains NULL byte",
    "newline": "new-line character seen in unquoted field",
    "limit": "field larger than field limit",
    "quote": "expected after",
    "end": "unexpected end of data",
}


def dialect(h, spec):
    """spec: concrete characters, "" or "?" (any character)"""
    out = []
    for s, name in zip(spec, ("delimiter", "quotechar", "escapechar")):
        if s == "?":
            c = h.text(1, without="\0\r\n", name=name)
            for o in out:
                if o:
                    h.assume(o != c)
            s = c
        out.append(s)
    return out


def collect(it, error):
    rows = []
    try:
        for r in it:
            rows.append(r)
    except error as e:
        return rows, str(e)
    return rows, None


def same_error(h, want, got):
    if want is None:
        h.check(got is None, "the text is acceptable and is read without an error")
        h.reach("accepted")
    else:
        h.check(got is not None, "an error is raised for text that is not acceptable (%s)" % want)
        h.check(WHY[want] in got, "the error names the reason (%s)" % want)
        h.reach("error:" + want)


def string(h):
    """parse_string(text) == reference"""
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error
    d, q, e = dialect(h, h.cfg["dialect"])
    strict = h.cfg.get("strict", False)
    if strict == "?":
        strict = h.flag("strict")
    text = h.cfg.get("prefix", "") + h.text_upto(h.cfg["n"], h.cfg.get("only"), h.cfg.get("without"), least=h.cfg.get("least", 0))
    want, why = refparser.read(refparser.lines(text), d, q, e, strict)
    rows, err = collect(P.parse_string(text, D(d, q, e, strict), return_quoted=True), X)
    h.obs(rows)
    h.obs(err)
    same_error(h, why, err)
    h.check(rows == want, "cells and quote flags are those of the reference")
    rows, err2 = collect(P.parse_string(text, D(d, q, e, strict)), X)
    h.check(err == err2, "same error without quote flags")
    h.check(rows == [[c for c, _ in r] for r in want], "cells are those of the reference")


def chunks(h):
    """parse_data(chunks) == reference"""
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error
    d, q, e = dialect(h, h.cfg["dialect"])
    strict = h.flag("strict")
    data = list(h.cfg.get("first", ()))
    for n in h.cfg["sizes"]:
        data.append(h.text_upto(n, h.cfg.get("only"), name="chunk%d" % len(data)))
    want, why = refparser.read(data, d, q, e, strict)
    how = h.pick(("overrides", "dialect", "default"), "how")
    if how == "default":
        if not (d == "," and q == "" and e == ""):
            how = "dialect"
    if how == "overrides":
        it = P.parse_data(data, D(None, None, None), d, q, e, strict, True)
    else:
        it = P.parse_data(iter(data), D(d, q, e, strict), return_quoted=True)
    rows, err = collect(it, X)
    h.obs(rows)
    h.obs(err)
    same_error(h, why, err)
    h.check(rows == want, "cells and quote flags are those of the reference")


def line_of(rec, d, q, sep):
    return d.join(rec) + sep


def wellformed(h):
    """a table written by the rules of RFC 4180 is read back cell by cell"""
    import csv
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    pkg = h.mod("clevercsv")
    d, q, e = dialect(h, h.cfg["dialect"])
    strict = h.flag("strict")
    sep = h.pick(("\r\n", "\n", "\r"), "line end")
    table, flags, recs = [], [], []
    for i in range(h.cfg.get("rows", 0)):
        # known rows before the others
        row = ["p%d" % i, q + d, ""] + ["x"] * h.cfg.get("columns", 0)
        table.append(row)
        flags.append([False, True] + [False] * (len(row) - 2))
        recs.append(d.join([row[0], q + q + q + d + q] + row[2:]))
    for i, widths in enumerate(h.cfg["shape"]):
        row, fl, rec = [], [], []
        for j, w in enumerate(widths):
            name = "cell%d.%d" % (i, j)
            quoted = h.flag(name + ".quoted")
            if quoted:
                # anything but NUL; the quote character is doubled
                c = h.text_upto(w, h.cfg.get("only"), "\0" + e, name=name)
                rec.append(q + c.replace(q, q + q) + q)
            else:
                c = h.text_upto(w, h.cfg.get("only"), "\0\r\n" + d + q + e, name=name)
                rec.append(c)
            row.append(c)
            fl.append(quoted)
        recs.append(d.join(rec))
        h.assume(recs[-1] != "")
        table.append(row)
        flags.append(fl)
    last = h.flag("last line end")
    text = sep.join(recs) + (sep if last else "")
    h.obs(text)
    got = list(P.parse_string(text, D(d, q, e, strict), return_quoted=True))
    h.obs(got)
    h.check([[c for c, _ in r] for r in got] == table, "the cells read are the cells written")
    h.check([[f for _, f in r] for r in got] == flags, "quoted cells are reported as quoted, others are not")
    how = h.pick(("SimpleDialect", "parameters"), "how")
    if how == "SimpleDialect":
        rd = pkg.reader(h.stringio(text), D(d, q, e, strict))
    else:
        rd = pkg.reader(h.stringio(text), delimiter=d, quotechar=q, escapechar=e, strict=strict)
    h.check(list(rd) == table, "the reader gives the same table")
    std = list(csv.reader(h.stringio(text), delimiter=d, quotechar=q, strict=strict))
    h.check(std == table, "so does the csv module")
    h.reach("table")


def strict(h):
    """strict mode only adds errors, and only for malformed text"""
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error
    d, q, e = dialect(h, h.cfg["dialect"])
    text = h.cfg.get("prefix", "") + h.text_upto(h.cfg["n"], h.cfg.get("only"), "\0")
    loose, e1 = collect(P.parse_string(text, D(d, q, e, False)), X)
    tight, e2 = collect(P.parse_string(text, D(d, q, e, True)), X)
    h.obs([loose, e1, tight, e2])
    h.check(e1 is None, "text without NUL is read without an error when not strict")
    if e2 is None:
        h.check(tight == loose, "strict mode gives the same cells")
        h.reach("accepted")
    else:
        h.check(tight == loose[: len(tight)], "records before the error are the same")
        h.check(len(tight) < len(loose), "the record of the error is not given")
        h.reach("rejected")
    bad = malformed(text, d, q, e)
    h.obs(bad)
    h.check((e2 is not None) == bad, "strict mode raises exactly for malformed text")


def malformed(text, d, q, e):
    """a quote that closes a cell is followed by something else than a delimiter
    or line end, or the text ends inside quotes or after an escape"""
    inside = False
    i = 0
    n = len(text)
    open_end = False
    while i < n:
        c = text[i]
        nxt = text[i + 1] if i + 1 < n else ""
        i += 1
        open_end = False
        if e and c == e:
            i += 1
            open_end = nxt == "" or (not inside and (nxt == "\r" or nxt == "\n") and at_line_end(text, i))
        elif q and c == q:
            if not inside:
                inside = True
            elif nxt == q:
                i += 1
            elif nxt == "" or nxt == "\r" or nxt == "\n" or (d and nxt == d):
                inside = False
            else:
                return True
    return inside or open_end


def at_line_end(text, i):
    """nothing more of the current line after position i"""
    return i >= len(text)


def limit(h):
    """cells up to the field size limit are read, larger ones are an error"""
    P = h.mod("clevercsv.cparser_util")
    pkg = h.mod("clevercsv")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error
    d, q, e = dialect(h, h.cfg["dialect"])
    lim = h.pick(h.cfg["limits"], "limit")
    text = h.cfg.get("prefix", "") + h.text_upto(h.cfg["n"], h.cfg.get("only"), "\0")
    who = h.pick(("parse_string", "reader", "DictReader"), "who")
    early = h.flag("made before the limit is set")
    if early:
        # nothing is read yet
        src = make(h, who, text, D(d, q, e))
    h.check(pkg.field_size_limit() == 131072, "the default limit is 131072")
    how = h.pick(("positional", "keyword"), "how")
    if how == "positional":
        old = pkg.field_size_limit(lim)
    else:
        old = pkg.field_size_limit(limit=lim)
    h.check(old == 131072, "setting the limit returns the previous one")
    h.check(pkg.field_size_limit() == lim, "the limit is set")
    for bad in ("3", 2.5, None):
        try:
            pkg.field_size_limit(bad)
            h.fail("a limit that is not an integer is refused")
        except TypeError:
            pass
    try:
        pkg.field_size_limit(1, 2)
        h.fail("two arguments are refused")
    except TypeError:
        pass
    h.check(pkg.field_size_limit() == lim, "a refused limit changes nothing")
    want, why = refparser.read(refparser.lines(text), d, q, e, False, lim)
    if not early:
        src = make(h, who, text, D(d, q, e))
    rows, err = collect(src, X)
    if who == "DictReader":
        rows = [r["all"] for r in rows]
        want = [r for r in want if len(r) > 0]
    h.obs([rows, err])
    same_error(h, why, err)
    h.check(rows == [[c for c, _ in r] for r in want], "cells before the error")
    h.check(pkg.field_size_limit(old) == lim, "reading does not change the limit")


def make(h, who, text, dia):
    pkg = h.mod("clevercsv")
    if who == "parse_string":
        return h.mod("clevercsv.cparser_util").parse_string(text, dia)
    if who == "reader":
        return pkg.reader(h.stringio(text), dia)
    return pkg.DictReader(h.stringio(text), fieldnames=[], restkey="all", dialect=dia)


def limit_default(h):
    """at the default limit"""
    pkg = h.mod("clevercsv")
    X = h.mod("clevercsv.exceptions").Error
    n = h.pick(h.cfg["sizes"], "size")
    body = "x" * (n - 1)
    c = h.text(1, without='\0\r\n,"', name="last")
    rows, err = collect(pkg.reader(h.stringio(body + c + ",y")), X)
    if n > 131072:
        h.check(err is not None and "field larger than field limit (131072)" in err, "one character more is an error")
        h.check(rows == [], "nothing is given")
    else:
        h.check(err is None and len(rows) == 1 and len(rows[0]) == 2, "a cell of the limit's size is read")
        h.check(len(rows[0][0]) == n and rows[0][0][n - 1] == c and rows[0][1] == "y", "completely")
    h.obs(err)


def long_cells(h):
    """cells longer than any buffer the parser starts with"""
    P = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    d, q, e = dialect(h, h.cfg["dialect"])
    n = h.pick(h.cfg["sizes"], "size")
    how = h.pick(("plain", "quoted", "doubled"), "how")
    pieces = how != "plain" and h.flag("in pieces")
    a, b, z = h.text(1, name="first"), h.text(1, name="middle"), h.text(1, name="last")
    for c in (a, b, z):
        h.assume(c not in "\0\r\n" + d + q + e)
    m = n // 2
    cell = a + "abcdefgh" * ((m - 1) // 8) + b
    cell = cell + "xyzw" * ((n - len(cell) - 1) // 4)
    cell = cell + "." * (n - len(cell) - 1) + z
    if how == "doubled":
        cell = cell + q
    if how == "plain":
        line = cell + d + z
    else:
        line = q + cell.replace(q, q + q) + q + d + z
    second = "k" + d + cell[: n // 3]
    data = [line + "\n", second + "\n"]
    if pieces:
        data = [line[: n - 3], line[n - 3:] + "\n", second + "\n"]
    got = list(P.parse_data(data, D(d, q, e, False), return_quoted=True))
    h.check(len(got) == 2 and [len(r) for r in got] == [2, 2], "two rows of two cells")
    h.check(len(got[0][0][0]) == len(cell), "no character of a long cell is lost")
    h.check(got[0][0][0] == cell and got[0][1][0] == z, "a long cell is read as it was written")
    h.check(got[1][0][0] == "k" and got[1][1][0] == cell[: n // 3], "so is the row after it")
    h.check([[f for _, f in r] for r in got] == [[how != "plain", False], [False, False]], "quoted cells are reported as quoted")
    h.obs(got[0][1][0])
    h.reach(how)
