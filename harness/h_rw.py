"""Writing, reading back, reader protocol, dictionaries."""
from harness.h_parser import collect, dialect
from harness.h_score import fill


def make_dialect(h, spec):
    """-> (dialect argument, extra parameters) from a description"""
    import csv
    D = h.mod("clevercsv.dialect").SimpleDialect
    kind = spec[0]
    if kind == "name":
        return spec[1], {}
    if kind == "simple":
        d, q, e = dialect(h, spec[1])
        return D(d, q, e), {}
    if kind == "class":
        return getattr(csv, spec[1]), {}
    if kind == "instance":
        return getattr(csv, spec[1])(), {}
    if kind == "csv":
        d, q, e = dialect(h, spec[1])
        return D(d, q, e).to_csv_dialect(), {}
    if kind == "made":
        cls = type("Made", (getattr(csv, spec[1]),), dict(spec[2]))
        return h.pick((cls, cls()), "dialect object"), {}
    d, q, e = dialect(h, spec[1])
    p = {"delimiter": d}
    if q:
        p["quotechar"] = q
    else:
        p["quoting"] = csv.QUOTE_NONE
    if e:
        p["escapechar"] = e
    p.update(spec[2])
    return "excel", p


def table_of(h, shape, only=None, without=None):
    out = []
    for i, widths in enumerate(shape):
        out.append([h.text_upto(w, only, without, name="cell%d.%d" % (i, j)) for j, w in enumerate(widths)])
    return out


def roundtrip(h):
    """what the writer writes, the reader with the same dialect reads back"""
    pkg = h.mod("clevercsv")
    X = h.mod("clevercsv.exceptions").Error
    dia, par = make_dialect(h, h.cfg["dialect"])
    table = table_of(h, h.cfg["shape"], h.cfg.get("only"), "\0" + h.cfg.get("without", ""))
    if "times" in h.cfg:
        table = [r * h.cfg["times"][1] for r in table] * h.cfg["times"][0]
    out = h.stringio("")
    w = pkg.writer(out, dia, **par)
    try:
        if h.flag("writerows"):
            w.writerows(table)
        else:
            for row in table:
                w.writerow(row)
    except X as e:
        h.obs(str(e))
        h.check(not h.cfg["total"], "every table can be written")
        h.reach("refused")
        return
    text = out.getvalue()
    h.obs(text)
    rp = {k: v for k, v in par.items() if k in ("delimiter", "quotechar", "escapechar", "strict")}
    if "quoting" in par:
        rp["quoting"] = par["quoting"]
    strict = h.flag("strict")
    rows = list(pkg.reader(h.stringio(text), dia, **dict(rp, strict=strict)))
    h.obs(rows)
    h.check(rows == table, "the table is read back cell for cell")
    h.reach("roundtrip")


def history(h):
    """any sequence of iter/next/for calls sees every record once, in order"""
    pkg = h.mod("clevercsv")
    n = h.cfg["rows"]
    cells = [h.text(1, without='\0\r\n,"', name="c%d" % i) for i in range(n)]
    more = h.cfg.get("more", 0)
    lines = [c + ",k\n" for c in cells]
    want = [[c, "k"] for c in cells]
    known = ['p%d,"q\n""r"\n' % i for i in range(more)]
    X = h.mod("clevercsv.exceptions").Error
    bad = h.pick(h.cfg.get("bad", (None,)), "bad")
    after = 0
    if bad is not None:
        # a line that is refused, and the records before and after it
        after = h.pick(range(n + 1), "at")
        lines.insert(after, bad[0] + h.text(1, without='\0\r\n,"', name="b") + bad[1])
    lines = known + lines
    given = h.pick(("lines", "iterator", "file"), "input")
    if given == "file":
        src = h.stringio("".join(lines))
    elif given == "iterator":
        src = iter(lines)
    else:
        src = lines
    rd = pkg.reader(src, strict=True) if bad is not None else pkg.reader(src)
    h.check(rd.line_num == 0, "no record has been read")
    if more > 0:
        # rows that come first
        if h.flag("next"):
            first = [next(rd) for _ in range(more)]
        else:
            first = []
            for row in rd:
                first.append(row)
                if len(first) == more:
                    break
        h.check(first == [["p%d" % i, 'q\n"r'] for i in range(more)], "each record once, in order")
    seen = []
    ended = False
    errors = 0
    for k in range(h.cfg["steps"]):
        op = h.pick(("next", "iter", "loop1", "loop"), "op%d" % k)
        if op == "iter":
            it = iter(rd)
            h.check(it is rd, "a reader is its own iterator")
        elif op == "next":
            try:
                seen.append(next(rd))
            except StopIteration:
                ended = True
            except X:
                errors += 1
                h.check(errors == 1 and bad is not None and len(seen) == after, "the error is reported once, in its place")
        elif op == "loop1":
            try:
                for row in rd:
                    seen.append(row)
                    break
                else:
                    ended = True
            except X:
                errors += 1
                h.check(errors == 1 and bad is not None and len(seen) == after, "the error is reported once, in its place")
        else:
            try:
                for row in rd:
                    seen.append(row)
                ended = True
            except X:
                errors += 1
                h.check(errors == 1 and bad is not None and len(seen) == after, "the error is reported once, in its place")
        h.check(rd.line_num == more + len(seen), "line_num counts the records read")
        if ended:
            h.check(len(seen) == n and (bad is None or errors == 1), "the end comes after the last record")
    h.check(seen == want[: len(seen)], "each record once, in order")
    h.check(rd.line_num == more + len(seen), "line_num counts the records read")
    h.reach("ended" if ended else "partial")
    h.obs(seen)


def interleaved(h):
    """readers, writers and detectors do not disturb each other"""
    pkg = h.mod("clevercsv")
    D = h.mod("clevercsv.dialect").SimpleDialect
    X = h.mod("clevercsv.exceptions").Error

    def rows_of(rd, n):
        out = []
        for _ in range(n):
            try:
                out.append(next(rd))
            except StopIteration:
                out.append("end")
            except X as e:
                out.append(str(e))
        return out

    dias = [D(",", '"', ""), D(";", "'", "\\")]
    texts = []
    for i, w in enumerate(h.cfg["sizes"]):
        texts.append("a," + h.text(w, h.cfg.get("only"), name="text%d" % i) + "\n'b;" + '"c\n')
    n = h.cfg["steps"]
    alone = [rows_of(pkg.reader(t.splitlines(True), d), n) for t, d in zip(texts, dias)]
    nested = h.flag("nested")
    if nested:
        # the input of one reader makes use of the other one
        b = pkg.reader(texts[1].splitlines(True), dias[1])
        got = [[], []]

        def lines():
            for ln in texts[0].splitlines(True):
                got[1].extend(rows_of(b, 1))
                yield ln

        got[0] = rows_of(pkg.reader(lines(), dias[0]), n)
    else:
        rds = [pkg.reader(t.splitlines(True), d) for t, d in zip(texts, dias)]
        got = [[], []]
        while len(got[0]) < n or len(got[1]) < n:
            k = h.pick((0, 1), "turn") if len(got[0]) < n and len(got[1]) < n else 0 if len(got[0]) < n else 1
            got[k].extend(rows_of(rds[k], 1))
            what = h.pick(h.cfg["between"], "between")
            if what == "write":
                pkg.writer(h.stringio(""), dias[k]).writerow(["x;'", "y"])
            elif what == "detect":
                pkg.Detector().detect("p;q\nr;s\n")
            elif what == "drop":
                next(pkg.reader(["u|v\n", "w"], delimiter="|"))
    h.check(all([got[i] == alone[i][:len(got[i])] for i in (0, 1)]) and len(got[0]) == n, "every reader gives its own records")
    h.obs(got)


def unchanged(h):
    """readers and writers leave the dialect they get as it is"""
    pkg = h.mod("clevercsv")
    D = h.mod("clevercsv.dialect").SimpleDialect
    d, q, e = dialect(h, ("?", "?", "?"))
    st = h.flag("strict")
    dia = D(d, q, e, st)
    other = h.text(1, without='\0\r\n', name="override")
    key = h.pick(("delimiter", "quotechar", "escapechar", "strict"), "key")
    val = other if key != "strict" else not st
    who = h.pick(("reader", "writer", "DictReader", "DictWriter"), "who")
    io = h.stringio("a")
    X = (ValueError, TypeError, h.mod("clevercsv.exceptions").Error)
    try:
        if who == "reader":
            r = pkg.reader(io, dia, **{key: val})
            have = r.dialect
            wanted = {"delimiter": d, "quotechar": q, "escapechar": e, "strict": st}
            wanted[key] = val
            h.check(have.delimiter == wanted["delimiter"], "the delimiter in use")
            h.check(have.quotechar == wanted["quotechar"], "the quote character in use")
            h.check(have.escapechar == wanted["escapechar"], "the escape character in use")
            h.check(have.strict == wanted["strict"], "the strictness in use")
            list(r)
        elif who == "writer":
            pkg.writer(io, dia, **{key: val}).writerow(["a"])
        elif who == "DictReader":
            list(pkg.DictReader(io, None, None, None, dia, **{key: val}))
        else:
            pkg.DictWriter(io, ["a"], dialect=dia, **{key: val}).writeheader()
    except X as err:
        h.obs(type(err).__name__)
    h.check(dia.delimiter == d and dia.quotechar == q and dia.escapechar == e and dia.strict == st,
            "the dialect object is unchanged")
    h.reach(who)


def accepted(h):
    """all ways of naming the same dialect read and write the same"""
    import csv
    pkg = h.mod("clevercsv")
    D = h.mod("clevercsv.dialect").SimpleDialect
    name, d, q = h.pick((("excel", ",", '"'), ("excel-tab", "\t", '"'), ("unix", ",", '"')), "dialect")
    cls = {"excel": csv.excel, "excel-tab": csv.excel_tab, "unix": csv.unix_dialect}[name]
    text = h.text_upto(h.cfg["n"], h.cfg.get("only"), "\0")
    ways = (name, cls, cls(), D(d, q, ""), csv.get_dialect(name))
    base = list(pkg.reader(h.stringio(text), ways[0]))
    i = h.pick(range(1, len(ways)), "way")
    h.check(list(pkg.reader(h.stringio(text), ways[i])) == base, "the same records")
    h.check(list(pkg.reader(h.stringio(text), delimiter=d, quotechar=q)) == base, "also when given as parameters")
    none = type("none", (cls,), {"quoting": csv.QUOTE_NONE})
    base2 = list(pkg.reader(h.stringio(text), none))
    h.check(list(pkg.reader(h.stringio(text), none())) == base2, "the same records without quoting")
    h.check(list(pkg.reader(h.stringio(text), D(d, "", ""))) == base2, "the same records without quoting")
    h.check(list(pkg.reader(h.stringio(text), ways[i], quoting=csv.QUOTE_NONE)) == base2, "also when given as parameter")
    kind = h.pick(("QUOTE_MINIMAL", "QUOTE_ALL", "QUOTE_STRINGS", "QUOTE_NOTNULL"), "quoting")
    h.check(list(pkg.reader(h.stringio(text), ways[i], quoting=getattr(csv, kind, csv.QUOTE_ALL))) == base, "other kinds of quoting only matter for writing")
    outs = []
    for j in (0, i):
        if j == 3:
            continue
        o = h.stringio("")
        pkg.writer(o, ways[j]).writerow([text, "a"])
        outs.append(o.getvalue())
    h.check(all(o == outs[0] for o in outs), "the same text is written")
    h.obs(base)
    h.obs(outs[0])
    try:
        pkg.reader([], 17)
        h.fail("other objects are refused")
    except ValueError:
        pass
    try:
        pkg.writer(h.stringio(""), 17)
        h.fail("other objects are refused")
    except ValueError:
        pass


def writer_like_csv(h):
    """the writer writes what the csv module writes"""
    import csv
    pkg = h.mod("clevercsv")
    X = h.mod("clevercsv.exceptions").Error
    par = dict(h.cfg["params"])
    row = [h.text_upto(w, h.cfg.get("only"), name="cell%d" % j) for j, w in enumerate(h.cfg["widths"])]
    row.append(h.pick((None, 12, 2.5, "a b", True), "value"))
    a, b = h.stringio(""), h.stringio("")
    err = err2 = r1 = r2 = None
    many = h.flag("writerows")
    try:
        w = pkg.writer(a, **par)
        r1 = w.writerows([row, row]) if many else w.writerow(row)
    except X as e:
        err = str(e)
    try:
        w = csv.writer(b, **par)
        r2 = w.writerows([row, row]) if many else w.writerow(row)
    except csv.Error as e:
        err2 = str(e)
    h.check(r1 == r2, "the same value is returned")
    h.check(err == err2, "the same error, as an error of the package")
    h.check(a.getvalue() == b.getvalue(), "the same text")
    h.obs([a.getvalue(), err])


def dictreader(h):
    """records as mappings"""
    import warnings
    pkg = h.mod("clevercsv")
    ncol = h.pick(h.cfg["ncol"], "columns")
    head = [h.text_upto(1, without='\0\r\n,"', name="h%d" % i) for i in range(ncol)]
    rows = []
    for i in range(h.cfg["rows"]):
        k = h.pick(range(0, h.cfg["maxlen"] + 1), "len%d" % i)
        row = [h.text(1, without='\0\r\n,"', name="v%d.%d" % (i, j)) for j in range(k)]
        rows.append(row)
    own = h.flag("fieldnames given")
    restkey = h.pick((None, "rest"), "restkey")
    restval = h.pick((None, "-"), "restval")
    text = "".join(",".join(r) + "\n" for r in ([] if own else [head]) + rows)
    if not own and head == [""]:
        head = []  # an empty line
        ncol = 0
    names = head
    if own:
        kind = h.pick(("list", "tuple", "iterator"), "kind of fieldnames")
        names = tuple(head) if kind == "tuple" else iter(head) if kind == "iterator" else head
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        rd = pkg.DictReader(h.stringio(text), names if own else None, restkey=restkey, restval=restval)
        if h.flag("ask names first"):
            h.check(list(rd.fieldnames) == head, "the field names are the first record or those given")
        got = []
        for m in rd:
            got.append([[k, m[k]] for k in m])
        told = len(told) > 0
    warnings.simplefilter("ignore")
    if len(got) > 0:
        h.check(told == (len(set(head)) < len(head)), "there is a warning when names are not unique, and only then")
    want = []
    for r in rows:
        if not r:
            continue
        m = []

        def put(k, v):
            for p in m:
                if p[0] == k:
                    p[1] = v
                    return
            m.append([k, v])

        for k, v in zip(head, r):
            put(k, v)
        if len(r) > ncol:
            put(restkey, r[ncol:])
        for k in head[len(r) :]:
            put(k, restval)
        want.append(m)
    h.obs(got)
    h.check(got == want, "each record becomes a mapping")
    h.check(list(rd.fieldnames) == head, "the field names are the first record or those given")


def dictwriter(h):
    """mappings are written in the order of the field names"""
    pkg = h.mod("clevercsv")
    few = h.cfg.get("few", False)
    names = ["a", "b", "c"][: h.pick((1, 2, 3) if not few else (2,), "columns")]
    extras = h.pick(("raise", "ignore", "RAISE", "Ignore", "drop") if not few else ("raise", "ignore"), "extrasaction")
    restval = h.pick(("", "-") if not few else ("-",), "restval")
    dia, par = make_dialect(h, h.cfg["dialect"])
    out, ref = h.stringio(""), h.stringio("")
    kind = h.pick(("list", "tuple", "iterator"), "kind of fieldnames") if extras == "raise" and not few else "list"
    given = tuple(names) if kind == "tuple" else iter(names) if kind == "iterator" else names
    try:
        w = pkg.DictWriter(out, given, restval, extras, dia, **par)
    except ValueError:
        h.check(extras == "drop", "every documented action is accepted")
        h.reach("refused action")
        return
    h.check(extras != "drop", "unknown actions are refused")
    extras = extras.lower()
    rw = pkg.writer(ref, dia, **par)
    if h.flag("header"):
        w.writeheader()
        rw.writerow(names)
    many = h.flag("writerows")
    ms = []
    for i in range(h.cfg["rows"]):
        m = {}
        for k in ["c", "b", "a", "z"] if not few else ["b", "z"]:
            if h.flag("has %s%d" % (k, i)):
                m[k] = h.text_upto(1, h.cfg.get("only"), "\0", name="v%s%d" % (k, i))
        ms.append(m)
    refused = False
    try:
        if many:
            w.writerows(ms)
        else:
            for m in ms:
                w.writerow(m)
    except ValueError:
        refused = True
    bad = [any(k not in names for k in m) for m in ms]
    if extras == "raise":
        h.check(refused == any(bad), "unknown keys are refused, and only those")
    else:
        h.check(not refused, "unknown keys are ignored")
    for m, no in zip(ms, bad):
        if refused and no:
            break
        rw.writerow([m.get(k, restval) for k in names])
    if not refused:
        h.check(out.getvalue() == ref.getvalue(), "the values in the order of the field names, missing ones replaced")
        h.reach("written")
    else:
        h.check(out.getvalue() == ref.getvalue(), "what comes before a refused mapping is written")
        h.reach("refused")
    h.obs(out.getvalue())
    try:
        pkg.DictWriter(out, names, extrasaction="other")
        h.fail("other actions are refused")
    except ValueError:
        pass


def names(h):
    """a registered name stands for what it is registered for at the time"""
    import csv
    pkg = h.mod("clevercsv")
    kinds = ((";", "'"), ("|", '"'), (",", "'"))
    cells = [h.text_upto(1, h.cfg.get("only"), "\0", name="cell%d" % i) for i in (0, 1)]
    name = h.pick(("vx-name", "excel"), "name")
    first = h.pick(kinds, "first")
    second = h.pick(kinds, "second")
    outs = []
    try:
        for k, (d, q) in enumerate((first, second)):
            csv.register_dialect(name, delimiter=d, quotechar=q, lineterminator="\r\n")
            out, ref, dic = h.stringio(""), h.stringio(""), h.stringio("")
            pkg.writer(out, name).writerow(cells)
            csv.writer(ref, delimiter=d, quotechar=q).writerow(cells)
            h.check(out.getvalue() == ref.getvalue(), "written by the dialect of that name")
            h.check(list(pkg.reader(h.stringio(out.getvalue()), name)) == [cells], "read by the dialect of that name")
            w = pkg.DictWriter(dic, ["p", "q"], dialect=name)
            w.writerow({"p": cells[0], "q": cells[1]})
            h.check(dic.getvalue() == ref.getvalue(), "also mappings")
            got = list(pkg.DictReader(h.stringio(dic.getvalue()), ["p", "q"], dialect=name))
            h.check([dict(m) for m in got] == [{"p": cells[0], "q": cells[1]}], "in both directions")
            outs.append(out.getvalue())
    finally:
        csv.register_dialect("excel", csv.excel)
        if name != "excel":
            csv.unregister_dialect(name)
    if name != "excel":
        for fn in (pkg.reader, pkg.writer):
            try:
                fn(h.stringio(""), name)
                h.fail("a name that is not registered is refused")
            except csv.Error:
                pass
    h.obs(outs)


def dict_like_csv(h):
    """records as mappings are those of the csv module"""
    import csv
    import warnings
    pkg = h.mod("clevercsv")
    text = fill(h, h.cfg["template"], "text") if "template" in h.cfg else h.text_upto(h.cfg["n"], h.cfg["only"])
    par = dict(h.pick(h.cfg["params"], "params"))
    names = h.pick((None, ["p", "q"], ("p", "q"), [], ["p", "p"]), "names")
    later = h.pick((None, ["s", "t", "u"]), "names given later") if names is None else None
    first = later is not None and h.flag("after the first record")
    outs = []
    for cls, one in ((pkg.DictReader, False), (csv.DictReader, True)):
        out = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rd = cls(h.stringio(text), names, **par)
            if first:
                try:
                    out.append([list(next(rd).items()), rd.line_num])
                except StopIteration:
                    out.append("end")
            if later is not None:
                rd.fieldnames = later
            for m in rd:
                out.append([list(m.items()), rd.line_num])
            try:
                next(rd)
                out.append("more")
            except StopIteration:
                out.append("end")
            out.append(rd.fieldnames)
        outs.append(out)
    h.check(outs[0] == outs[1], "the same records, record numbers and names as the csv module's")
    h.check(iter(rd) is rd, "a dictionary reader is its own iterator")
    h.obs(outs[0])


def writer_inputs(h):
    """rows may be any iterables, and a dictionary writer has the same values to return"""
    import csv
    pkg = h.mod("clevercsv")
    cells = [h.text_upto(1, h.cfg.get("only"), "\0", name="c%d" % i) for i in range(2)]
    kind = h.pick(("list", "tuple", "generator", "dict", "string", "none", "number"), "kind")
    many = h.flag("writerows")

    def row():
        return {"list": list(cells), "tuple": tuple(cells), "generator": (c for c in cells), "dict": {cells[0]: 1, cells[1]: 2},
                "string": "x;y", "none": None, "number": 5}[kind]

    got = []
    for W, err in ((pkg.writer, pkg.Error), (csv.writer, csv.Error)):
        out = h.stringio("")
        w = W(out)
        try:
            r = w.writerows(iter([row(), row()])) if many else w.writerow(row())
        except err as e:
            r = str(e)
        except TypeError:
            r = "type"
        got.append([out.getvalue(), r])
    h.check(got[0] == got[1], "the same text, value or error as the csv module's")
    outs = []
    for cls in (pkg.DictWriter, csv.DictWriter):
        out = h.stringio("")
        w = cls(out, ["k", "l"], restval="-")
        rs = [w.writeheader(), w.writerow({"k": cells[0], "l": cells[1]}), w.writerows(iter([{"l": cells[0]}, {}]))]
        outs.append([out.getvalue(), rs, list(w.fieldnames)])
    h.check(outs[0] == outs[1], "the same text and values as the csv module's dictionary writer")
    h.obs(got[0])
    h.obs(outs[0])


class Boom(Exception):
    pass


class Failing:
    """an iterator that raises errors among its items"""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        x = self.items.pop(0)
        if isinstance(x, Exception):
            raise x
        return x


def failing(h):
    """an error of the input is the caller's own, before and after it the rows are as ever"""
    import csv
    pkg = h.mod("clevercsv")
    U = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    err = h.pick((Boom("x"), OSError(5, "Input/output error"), ValueError("v"), KeyError("k"), csv.Error("other"), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")), "error")
    c = [h.text(1, only=h.cfg.get("only"), without='\0\r\n,"', name="c%d" % i) for i in range(2)]
    at = h.pick((0, 1, 2), "at")
    lines = [c[0] + ",k\n", c[1] + ",m\n"]
    want = [[c[0], "k"], [c[1], "m"]]
    lines.insert(at, err)
    how = h.pick(("reader", "dicts", "parse_data", "open quotes"), "how")
    got = []
    seen = None
    if how == "reader":
        it = pkg.reader(Failing(lines))
    elif how == "dicts":
        it = pkg.DictReader(Failing(lines), ["x", "y"])
        want = [{"x": r[0], "y": r[1]} for r in want]
    elif how == "parse_data":
        it = U.parse_data(Failing(lines), D(",", '"', ""))
    else:
        lines.insert(at, '"')
        it = pkg.reader(Failing(lines))
    try:
        for r in it:
            got.append(r)
    except Exception as e:
        seen = e
    h.check(seen is err, "the error of the input is passed on")
    h.check([r if how != "dicts" else dict(r) for r in got] == want[:at], "the rows before it are given")
    if how in ("reader", "dicts"):
        rest = [r if how != "dicts" else dict(r) for r in it]
        h.check(rest == want[at:], "the rows after it are given")
        h.check(it.line_num == 2 or how == "dicts", "line_num counts the records read")
    h.obs([how, at])


def failing_rows(h):
    """an error of a row or of the rows is the caller's own, and the rows before it are written"""
    import csv
    pkg = h.mod("clevercsv")
    err = h.pick((Boom("x"), OSError(5, "Input/output error"), ValueError("v"), KeyError("k")), "error")
    c = [h.text_upto(1, h.cfg.get("only"), without="\0", name="c%d" % i) for i in range(2)]
    where = h.pick(("rows", "row", "value"), "where")
    outs = []
    for M in (csv, pkg):
        out = h.stringio("")
        bad = {"rows": err, "row": Failing([c[0], err]), "value": [c[0], Unwritable(err)]}[where]
        seen = None
        try:
            M.writer(out, lineterminator="\n").writerows(Failing([[c[0], "k"], bad, [c[1], "m"]]))
        except Exception as e:
            seen = e
        h.check(seen is err, "the error is passed on")
        outs.append(out.getvalue())
    h.check(outs[0] == outs[1], "what the csv module writes until then")
    h.obs(outs[1])


class Unwritable:
    def __init__(self, err):
        self.err = err

    def __str__(self):
        raise self.err
