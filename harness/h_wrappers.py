"""Reading and writing whole files."""
import csv

from harness.h_rw import table_of
from harness.h_score import sample


def pairs(rows):
    """comparable form of a list of dictionaries"""
    return [list(r.items()) for r in rows]


def attempt(fn, *kinds):
    """-> (result, None) or (None, exception)"""
    try:
        return fn(), None
    except kinds as e:
        return None, e


def spec_dialect(h, spec):
    D = h.mod("clevercsv.dialect").SimpleDialect
    if spec[0] == "none":
        return None
    if spec[0] == "name":
        return spec[1]
    if spec[0] == "class":
        return getattr(csv, spec[1])
    if spec[0] == "instance":
        return getattr(csv, spec[1])()
    return D(*spec[1])


def plain_ascii(h, text):
    """text whose encoding chardet cannot miss"""
    for c in text:
        h.assume(c < "\x7f" and c != "\x1b" and c != "~")


def encoding_of(h, text):
    """-> (encoding of the file, encoding given); "?x": not given, and the detector says x"""
    enc = h.pick(h.cfg.get("encodings", ("utf-8",)), "encoding")
    if enc is None:
        plain_ascii(h, text)
        return "utf-8", None
    if enc[0] == "?":
        h.detected_encoding(enc[1:])
        return enc[1:], None
    # what the detector would say does not matter
    h.detected_encoding(h.cfg.get("detected", "utf-32"))
    return enc, enc


def read_file(h):
    """the table of a file is what the reader gives for its text"""
    pkg = h.mod("clevercsv")
    W = h.mod("clevercsv.wrappers")
    X = h.mod("clevercsv.exceptions")
    T = h.mod("clevercsv.detect")
    text = sample(h)
    spec = h.cfg["dialect"]
    n = h.pick(h.cfg.get("num_chars", (None,)), "num_chars")
    # the dialect of the file
    dia = spec_dialect(h, spec)
    if dia is None:
        use = T.Detector().detect(text[:n] if n else text)
    else:
        use = dia
    stored, enc = encoding_of(h, text)
    h.write_file("f.csv", text, stored)
    kw = {"dialect": dia, "encoding": enc, "num_chars": n}
    kind = h.pick(("table", "dicts"), "kind")
    bad = (X.NoDetectionResult, X.Error)
    if kind == "table":
        rows, err = attempt(lambda: W.read_table("f.csv", **kw), *bad)
        srows, serr = attempt(lambda: list(W.stream_table("f.csv", **kw)), *bad)
        want = None if use is None else attempt(lambda: list(pkg.reader(h.stringio(text), use)), *bad)
    else:
        rows, err = attempt(lambda: pairs(W.read_dicts("f.csv", **kw)), *bad)
        srows, serr = attempt(lambda: pairs(W.stream_dicts("f.csv", **kw)), *bad)
        want = None if use is None else attempt(lambda: pairs(pkg.DictReader(h.stringio(text), dialect=use)), *bad)
    if use is None:
        h.check(type(err) is X.NoDetectionResult and type(serr) is X.NoDetectionResult, "an error is raised when there is no dialect")
        h.reach("no dialect")
    else:
        h.check((err is None) == (want[1] is None) and (serr is None) == (want[1] is None), "errors are those of the reader")
        if err is None:
            h.check(rows == want[0], "the rows are those the reader gives for the whole text")
            h.check(srows == want[0], "streaming gives the same rows")
            h.reach("rows")
    h.check(h.open_files() == 0, "no file is left open")
    h.check(h.read_file("f.csv", stored) == text and h.listing() == ["f.csv"], "files are only read")
    h.obs([rows, err is None])


def whole(h):
    """without a number of characters the whole file counts, however long it is"""
    pkg = h.mod("clevercsv")
    W = h.mod("clevercsv.wrappers")
    text, rows = long_text(h)
    h.write_file("f.csv", text)
    how = h.pick(h.cfg["how"], "how")
    kw = {"encoding": "utf-8"}
    if h.flag("number"):
        kw["num_chars"] = None
    if how == "detect":
        d = pkg.detect_dialect("f.csv", **kw)
        h.check(d is not None and (d.delimiter, d.quotechar, d.escapechar) == (",", '"', ""), "the dialect is that of the whole file")
    elif how == "table":
        h.check(W.read_table("f.csv", **kw) == rows, "the rows are those of the whole file")
    elif how == "stream":
        h.check(list(W.stream_table("f.csv", **kw)) == rows, "the rows are those of the whole file")
    elif how == "dicts":
        h.check(pairs(W.read_dicts("f.csv", **kw)) == [merged(rows[0], r) for r in rows[1:]], "the dictionaries are those of the whole file")
    elif how == "stream dicts":
        h.check(pairs(W.stream_dicts("f.csv", **kw)) == [merged(rows[0], r) for r in rows[1:]], "the dictionaries are those of the whole file")
    else:
        calls = []

        def read_csv(*args, **kw):
            calls.append((args, kw))

        h.stub("pandas", {"read_csv": read_csv, "errors": Errors, "__version__": "2.0.0"})
        W.read_dataframe("f.csv", **kw)
        d = calls[0][1]["dialect"]
        h.check((d.delimiter, d.quotechar) == (",", '"') and d.quoting != csv.QUOTE_NONE, "the dialect is that of the whole file")
    h.obs(how)


def merged(names, row):
    """of cells of the same name the last one counts"""
    d = {}
    for k, v in zip(names, row):
        d[k] = v
    return list(d.items())


def long_text(h):
    """a file whose last row changes its dialect"""
    c = h.text(1, "abc1,;", name="last")
    row = ["a"] * h.cfg.get("columns", 1) + ["b" * h.cfg.get("width", 4095)]
    n = h.cfg["rows"]
    last = row[1:-1] + ["x"]
    return (",".join(row) + "\n") * n + '"' + c + '",' + ",".join(last) + "\n", [row] * n + [[c] + last]


def head(h):
    """a stream gives rows one by one and can be left at any time"""
    W = h.mod("clevercsv.wrappers")
    D = h.mod("clevercsv.dialect").SimpleDialect
    cells = [h.text(1, without='\0\r\n,"', name="c%d" % i) for i in range(3)]
    h.write_file("f.csv", "a,b\n" + "".join([c + ",k\n" for c in cells]))
    table = [["a", "b"]] + [[c, "k"] for c in cells]
    n = h.pick((0, 1, 2, 4), "rows")
    s = W.stream_table("f.csv", dialect=D(",", "", ""), encoding="utf-8")
    got = [next(s) for _ in range(n)]
    s.close()
    h.check(h.open_files() == 0, "a stream that is left closes its file")
    h.check(got == table[:n], "the first rows")
    t = W.stream_dicts("f.csv", dialect=D(",", "", ""), encoding="utf-8")
    k = min(n, 3)
    got = [next(t) for _ in range(k)]
    t.close()
    h.check(h.open_files() == 0, "a stream that is left closes its file")
    h.check([list(g.items()) for g in got] == [[("a", r[0]), ("b", r[1])] for r in table[1:k + 1]], "the first dictionaries")
    h.write_file("f.csv", "changed")
    h.check(W.read_table("f.csv", dialect="excel", encoding="utf-8") == [["changed"]], "the file can be used again")
    h.obs(n)


def detect_file(h):
    """the dialect of a file is that of its text, or of the part asked for"""
    pkg = h.mod("clevercsv")
    T = h.mod("clevercsv.detect")
    text = sample(h)
    n = h.pick(h.cfg["num_chars"], "num_chars")
    method = h.pick(("auto", "normal", "consistency"), "method")
    skip = h.flag("skip")
    stored, enc = encoding_of(h, text)
    h.write_file("f.csv", text, stored)
    got = pkg.detect_dialect("f.csv", num_chars=n, encoding=enc, method=method, skip=skip)
    want = T.Detector().detect(text[:n] if n else text, method=method, skip=skip)
    h.check(got == want, "the dialect is that of the first characters of the text")
    h.check(h.open_files() == 0, "no file is left open")
    h.obs(got and [got.delimiter, got.quotechar, got.escapechar])


def expected(h, table, dia):
    """what the csv module writes"""
    out = h.stringio("")
    w = csv.writer(out, dia)
    for r in table:
        w.writerow(r)
    return out.getvalue()


def csv_dialect(h, spec):
    """the same dialect for the csv module"""
    dia = spec_dialect(h, spec)
    if spec[0] == "simple":
        return dia.to_csv_dialect()
    return dia


def write_file(h):
    """tables are written completely or refused without touching the file"""
    W = h.mod("clevercsv.wrappers")
    X = h.mod("clevercsv.exceptions")
    shape = h.pick(h.cfg["shapes"], "shape")
    table = table_of(h, shape, h.cfg.get("only"), "\0")
    before = h.pick((None, "old"), "before")
    if before is not None:
        h.write_file("out.csv", before)
    spec = h.pick(h.cfg["dialects"], "dialect")
    transpose = h.flag("transpose")
    given = h.pick(("lists", "tuples", "generators", "iterator"), "given")
    arg = table
    if given == "tuples":
        arg = tuple([tuple(r) for r in table])
    elif given == "generators":
        arg = [iter(r) for r in table]
    elif given == "iterator":
        arg = iter([iter(r) for r in table])
    kw = {}
    if not (spec == ("name", "excel") and h.flag("default")):
        kw["dialect"] = spec_dialect(h, spec)
    even = len(set([len(r) for r in table])) <= 1
    r, err = attempt(lambda: W.write_table(arg, "out.csv", transpose=transpose, encoding="utf-8", **kw), ValueError, X.Error, csv.Error)
    if not even:
        h.check(type(err) is ValueError, "rows of different length are refused")
        h.check(h.exists("out.csv") == (before is not None) and (before is None or h.read_file("out.csv") == before), "and the file is left alone")
        h.check(h.open_files() == 0, "no file is left open")
        h.reach("refused")
        return
    h.check(h.open_files() == 0, "no file is left open")
    h.check(err is None, "every other table is written")
    if len(table) == 0:
        h.check(h.exists("out.csv") == (before is not None) and (before is None or h.read_file("out.csv") == before), "nothing is written for an empty table")
        h.reach("empty")
        return
    flat = [list(c) for c in zip(*table)] if transpose else table
    text = h.read_file("out.csv")
    h.obs(text)
    h.check(text == expected(h, flat, csv_dialect(h, spec)), "the file holds the table as the csv module writes it, and nothing else")
    h.check(h.listing() == ["out.csv"], "no other file is made")
    if len(flat) and len(flat[0]):
        back = W.read_table("out.csv", dialect=spec_dialect(h, spec), encoding="utf-8")
        h.check(back == flat, "the table is read back cell for cell")
        h.reach("written")


def many(h):
    """large tables are written completely, too"""
    W = h.mod("clevercsv.wrappers")
    X = h.mod("clevercsv.exceptions")
    n, m = h.pick(h.cfg["sizes"], "size")
    c = h.text_upto(1, h.cfg.get("only"), "\0", name="cell")
    i = h.pick((0, n // 2, n - 1), "row")
    j = h.pick((0, m - 1), "column")
    table = [["r%d" % k] + ["x"] * (m - 1) for k in range(n)]
    table[i][j] = c
    how = h.pick(("table", "transposed", "iterator", "ragged", "dicts"), "how")
    if how == "ragged":
        table[i] = table[i][1:] if h.flag("short") else table[i] + ["y"]
        if n == 1:
            return
        h.write_file("out.csv", "old")
        r, err = attempt(lambda: W.write_table(table, "out.csv", encoding="utf-8"), ValueError, X.Error, csv.Error)
        h.check(type(err) is ValueError, "rows of different length are refused")
        h.check(h.read_file("out.csv") == "old", "and the file is left alone")
        h.reach("refused")
        return
    if how == "dicts":
        names = ["k%d" % k for k in range(m)]
        W.write_dicts([dict(zip(names, r)) for r in table], "out.csv", encoding="utf-8")
        want = [names] + table
    elif how == "transposed":
        W.write_table(table, "out.csv", transpose=True, encoding="utf-8")
        want = [[r[k] for r in table] for k in range(m)]
    else:
        W.write_table(iter(table) if how == "iterator" else table, "out.csv", encoding="utf-8")
        want = table
    text = h.read_file("out.csv")
    h.check(text == expected(h, want, "excel"), "the file holds the table as the csv module writes it, and nothing else")
    h.check(W.read_table("out.csv", dialect="excel", encoding="utf-8") == want, "the table is read back cell for cell")
    h.reach(how)
    h.obs(len(text))


def write_dict_file(h):
    """dictionaries are written below a header of the first one's keys"""
    W = h.mod("clevercsv.wrappers")
    k1 = h.text_upto(1, None, "\0", name="key1")
    k2 = h.text_upto(1, None, "\0", name="key2")
    h.assume(k1 != k2)
    n = h.pick((0, 1, 2), "items")
    vals = [[h.text_upto(1, None, "\0", name="v%d" % j) for j in range(2)], ["p", "q r"]][:n]
    items = [{k1: v[0], k2: v[1]} for v in vals]
    how = h.pick(("plain", "missing", "extra", "iterator", "reversed", "empty"), "how")
    rows = [[k1, k2]] + vals
    if n < 2 and how != "iterator":
        how = "plain"
    if how == "missing":
        items[1] = {k2: vals[1][1]}
        rows[2] = ["", vals[1][1]]
    elif how == "extra":
        items[1] = {k1: vals[1][0], k2: vals[1][1], "other": "1"}
    elif how == "empty":
        items[1] = {}
        rows[2] = ["", ""]
    elif how == "reversed":
        items[1] = {k2: vals[1][1], k1: vals[1][0]}
    spec = h.pick(h.cfg["dialects"], "dialect")
    r, err = attempt(lambda: W.write_dicts(iter(items) if how == "iterator" else items, "out.csv", dialect=spec_dialect(h, spec),
                                           encoding="utf-8"), ValueError)
    if how == "extra":
        h.check(type(err) is ValueError, "a dictionary with other keys is refused")
        return
    h.check(err is None, "written")
    if n == 0:
        h.check(not h.exists("out.csv"), "nothing is written when there are no items")
        h.reach("empty")
        return
    text = h.read_file("out.csv")
    h.obs(text)
    h.check(text == expected(h, rows, csv_dialect(h, spec)), "the header is followed by one record for each dictionary")
    back = pairs(W.read_dicts("out.csv", dialect=spec_dialect(h, spec), encoding="utf-8"))
    h.check(back == [list(zip(rows[0], x)) for x in rows[1:]], "the dictionaries are read back")
    h.reach("written")


def encodings(h):
    """text is written and read with the encoding given"""
    W = h.mod("clevercsv.wrappers")
    enc = h.pick(("utf-8", "latin-1", "ascii", "utf-16"), "encoding")
    c = h.text(1, None, '\0\r\n,"', name="cell")
    fits = {"utf-8": 0x110000, "utf-16": 0x110000, "latin-1": 0x100, "ascii": 0x80}[enc]
    which = h.flag("dicts")
    if which:
        r, err = attempt(lambda: W.write_dicts([{"a": c, "b": "x"}], "out.csv", encoding=enc), UnicodeEncodeError)
    else:
        r, err = attempt(lambda: W.write_table([["a", "b"], [c, "x"]], "out.csv", encoding=enc), UnicodeEncodeError)
    ok = ord(c) < fits
    h.check((err is None) == ok, "text that the encoding cannot hold is an error")
    if ok:
        h.check(h.read_file("out.csv", enc) == "a,b\r\n" + c + ",x\r\n", "the file is encoded as asked")
        h.check(W.read_table("out.csv", dialect="excel", encoding=enc) == [["a", "b"], [c, "x"]], "and read as asked")
        h.reach("fits")


class Errors:
    class ParserWarning(Warning):
        pass


def frame_dialect(h, d, dia, seen):
    """pandas gets the dialect as one of the csv module"""
    if dia.delimiter == "":
        h.check(len(d.delimiter) == 1 and d.delimiter not in seen and d.delimiter not in "\r\n", "a delimiter that is not in the text stands for none")
        h.reach("one column")
    else:
        h.check(d.delimiter == dia.delimiter, "with the detected delimiter")
        h.reach("columns")
    if dia.quotechar == "":
        h.check(d.quoting == csv.QUOTE_NONE, "without quotes")
    else:
        h.check(d.quoting != csv.QUOTE_NONE and d.quotechar == dia.quotechar and d.doublequote, "with the detected quote character")
    h.check((d.escapechar or "") == dia.escapechar, "with the detected escape character")


def dataframe(h):
    """pandas gets the file, the detected dialect and all other arguments"""
    W = h.mod("clevercsv.wrappers")
    X = h.mod("clevercsv.exceptions")
    T = h.mod("clevercsv.detect")
    text = sample(h)
    n = h.pick(h.cfg.get("num_chars", (None,)), "num_chars")
    stored, enc = encoding_of(h, text)
    h.write_file("f.csv", text, stored)
    calls = []
    frame = object()

    def read_csv(*args, **kw):
        calls.append((args, kw))
        return frame

    h.stub("pandas", {"read_csv": read_csv, "errors": Errors, "__version__": "2.0.0"})
    extra = h.pick(((), ("a",)), "args")
    named = h.pick(({}, {"nrows": 3, "skip_blank_lines": False}, {"dialect": "excel-tab"}), "kwargs")
    kw = dict(named)
    if n is not None:
        kw["num_chars"] = n
    if enc is not None:
        kw["encoding"] = enc
    elif h.flag("encoding=None"):
        kw["encoding"] = None
    which = h.pick(("file", "no file", "directory"), "which")
    if which != "file":
        h.check(type(attempt(lambda: W.read_dataframe("none.csv" if which == "no file" else ".", *extra, **kw), ValueError, OSError)[1]) is ValueError,
                "only regular files are read")
        return
    seen = text[:n] if n else text
    dia = T.Detector().detect(seen)
    r, err = attempt(lambda: W.read_dataframe("f.csv", *extra, **kw), X.NoDetectionResult, TypeError)
    if "dialect" in named and type(err) is TypeError:
        h.check(not calls, "a dialect can be refused")
        return
    named = {k: named[k] for k in named if k != "dialect"}
    if dia is None:
        h.check(err is not None and not calls, "there is an error when there is no dialect")
        h.reach("no dialect")
        return
    h.check(err is None and r is frame and len(calls) == 1, "the data frame pandas makes is returned")
    args, got = calls[0]
    h.check(args == ("f.csv",) + extra, "pandas reads the file")
    h.check(sorted(got.keys()) == sorted(["dialect", "encoding"] + list(named)) and all([got[k] == named[k] for k in named]), "with the arguments given")
    d = got["dialect"]
    e = got["encoding"]
    h.check(e == enc if enc is not None else e is not None and (e.lower() in ("utf-8", "ascii") if stored == "utf-8" else e == stored),
            "with the encoding of the file")
    frame_dialect(h, d, dia, seen)
    h.check(h.read_file("f.csv", stored) == text and h.listing() == ["f.csv"], "the file is only read")
    h.obs([dia.delimiter, dia.quotechar, dia.escapechar])


class Place:
    """a path that is not a string"""

    def __init__(self, name):
        self.name = name

    def __fspath__(self):
        return self.name


def places(h):
    """files may be named by any kind of path"""
    pkg = h.mod("clevercsv")
    W = h.mod("clevercsv.wrappers")
    T = h.mod("clevercsv.detect")
    text = sample(h)
    h.write_file("f.csv", text)
    use = T.Detector().detect(text)
    p = h.pick((Place("f.csv"), b"f.csv", Place(b"f.csv")), "path")
    kw = {"encoding": "utf-8"}
    if use is not None:
        want = list(pkg.reader(h.stringio(text), use))
        h.check(W.read_table(p, **kw) == want, "the rows of the file")
        h.check(list(W.stream_table(p, **kw)) == want, "the rows of the file, streamed")
        h.check(pairs(W.read_dicts(p, **kw)) == pairs(W.stream_dicts("f.csv", **kw)), "the dictionaries of the file")
        h.check(pairs(W.stream_dicts(p, **kw)) == pairs(W.read_dicts("f.csv", **kw)), "the dictionaries of the file, streamed")
    h.check(pkg.detect_dialect(p, **kw) == use, "the dialect of the file")
    h.check(W.read_table(p, dialect="excel", **kw) == W.read_table("f.csv", dialect="excel", **kw), "with a dialect")
    W.write_table([["a", text]], p, **kw)
    one = h.read_file("f.csv")
    W.write_table([["a", text]], "g.csv", **kw)
    h.check(one == h.read_file("g.csv"), "written like any other")
    W.write_dicts([{"a": text}], p, **kw)
    one = h.read_file("f.csv")
    W.write_dicts([{"a": text}], "g.csv", **kw)
    h.check(one == h.read_file("g.csv"), "written like any other")
    h.check(h.listing() == ["f.csv", "g.csv"], "and no other file")
    h.obs(one)


def no_text(h):
    """-> name of a file with a byte that is no text in the encoding"""
    enc = h.pick(("utf-8", "ascii"), "encoding")
    text = sample(h)
    for c in text:
        h.assume(c < "\x7f")
    k = h.pick((0, 3, len(text)), "at")
    bad = text[:k] + "\udcff" + text[k:]
    h.write_file("f.csv", bad, enc)
    return bad, enc


def undecodable(h):
    """a file that is no text in the encoding is an error"""
    W = h.mod("clevercsv.wrappers")
    bad, enc = no_text(h)
    dia = h.pick((None, "excel"), "dialect")
    n = h.pick((None, 2), "num_chars")
    for name in ("read_table", "stream_table", "read_dicts", "stream_dicts", "detect_dialect"):
        kw = {"encoding": enc, "num_chars": n}
        if name != "detect_dialect":
            kw["dialect"] = dia
        r, err = attempt(lambda: getattr(W, name)("f.csv", **kw), UnicodeError)
        if err is None and name.startswith("stream"):
            r, err = attempt(lambda: list(r), UnicodeError)
        h.check(err is not None, "bytes that are no text are an error")
        h.check(h.open_files() == 0, "no file is left open")
    h.check(h.read_file("f.csv", enc) == bad and h.listing() == ["f.csv"], "the file is only read")
    h.obs([enc, dia])
