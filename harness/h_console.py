"""The commands of the command line application."""
from harness.h_score import sample
from harness.h_wrappers import Errors, attempt, expected, encoding_of, frame_dialect, long_text, no_text


def run(h, *args):
    app = h.mod("clevercsv.console").build_application()
    try:
        return app.run(args=list(args))
    except SystemExit as e:
        return e.code


def flip(rows):
    """columns become rows; short rows are filled up with empty cells"""
    n = max([len(r) for r in rows], default=0)
    return [[r[i] if i < len(r) else "" for r in rows] for i in range(n)]


def standard(h, text, dia, transpose):
    """the content of a file in the standard format"""
    rows = list(h.mod("clevercsv").reader(h.stringio(text), dia))
    return expected(h, flip(rows) if transpose else rows, "excel")


def detect(h, text, n):
    return h.mod("clevercsv.detect").Detector().detect(text[:n] if n is not None and n > 0 else text)


def number_args(h):
    n = h.pick(h.cfg.get("num_chars", (None,)), "num_chars")
    if n is None:
        return n, []
    return n, h.pick((["-n", str(n)], ["--num-chars", str(n)], ["--num-chars=" + str(n)]), "spelling")[:]


def encoding_args(h, text):
    stored, enc = encoding_of(h, text)
    return stored, [] if enc is None else ["-e", enc]


def standardize(h):
    """the standard form of a file goes where it is asked for"""
    text = sample(h)
    n, args = number_args(h)
    enc, eargs = encoding_args(h, text)
    transpose = h.pick(h.cfg.get("transpose", (False,)), "transpose")
    where = h.pick(h.cfg.get("where", ("stdout", "output", "in-place", "same")), "where")
    h.write_file("f.csv", text, enc)
    h.set_mode("f.csv", 0o640)
    h.write_file("keep.txt", "keep")
    args = ["standardize"] + args + eargs
    if transpose:
        args.append(h.pick(("-t", "--transpose"), "t"))
    if where == "in-place":
        args.append(h.pick(("-i", "--in-place"), "i"))
    elif where == "output":
        if h.flag("old"):
            h.write_file("out.csv", "old content of the file")
        args += ["-o", "out.csv"]
    elif where == "same":
        args += ["-o", h.pick(("f.csv", "./f.csv"), "o")]
    target = h.pick(h.cfg.get("target", (None,)), "target")
    if target is not None:
        args += ["-E", target]
    old = h.exists("out.csv")
    dia = detect(h, text, n)
    rc = run(h, *(args + ["f.csv"]))
    if dia is None:
        h.check(rc == 1, "the exit code tells that detection failed")
        h.check(h.read_file("f.csv", enc) == text and h.exists("out.csv") == old and h.stdout() == "", "and nothing is written")
        h.reach("no dialect")
        return
    want = standard(h, text, dia, transpose)
    out = h.stdout()
    names = ["f.csv", "keep.txt"]
    to = target or enc
    if where == "stdout":
        h.check(rc == 0 and out == want, "the standard form is printed")
        h.check(h.read_file("f.csv", enc) == text, "the file is only read")
    elif where == "output":
        h.check(rc == 0 and out == "", "nothing is printed")
        h.check(h.read_file("out.csv", to) == want, "the standard form is in the output file")
        h.check(h.read_file("f.csv", enc) == text, "the file is only read")
        names.append("out.csv")
    else:
        same = want == text and (to == enc or "utf-16" not in (to, enc))
        h.check(out == "", "nothing is printed")
        h.check(rc == (0 if same or where == "same" else 2), "the exit code tells whether the file was changed")
        h.check(h.read_file("f.csv", to) == want, "the file holds its standard form")
        h.reach("unchanged" if same else "changed")
        h.check(h.mode("f.csv") == 0o640, "the mode of the file is kept")
    h.check(h.listing() == sorted(names) and h.leftovers() == 0 and h.read_file("keep.txt") == "keep", "no other file is made or changed")
    h.reach("done")
    h.obs([want, rc])


def linked(h):
    """files are reached through links, and links stay links"""
    text = sample(h)
    h.mkdir("d")
    h.mkdir("e")
    h.write_file("d/f.csv", text)
    h.set_mode("d/f.csv", 0o640)
    h.write_file("f.csv", "keep;1\n")
    h.write_file("e/f.csv", "keep;2\n")
    h.symlink("../d/f.csv", "e/l.csv")
    h.symlink("e/l.csv", "l.csv")
    name = h.pick(("e/l.csv", "l.csv"), "name")
    n, args = number_args(h)
    args = ["standardize", "-e", "utf-8"] + args
    where = h.pick(h.cfg["where"], "where")
    dia = detect(h, text, n)
    if where == "in-place":
        args += ["-i", name]
    elif where == "same":
        args += ["-o", name, name]
    elif where == "to link":
        args += ["-o", name, "d/f.csv"]
    elif where == "to input":
        args += ["-o", "e/../d/f.csv", name]
    elif where == "read":
        args += ["-o", "out.csv", name]
    else:
        h.write_file("g.csv", text)
        args += ["-o", name, "g.csv"]
    rc = run(h, *args)
    h.check(h.is_link("l.csv") and h.is_link("e/l.csv"), "links stay links")
    h.check(h.read_file("f.csv") == "keep;1\n" and h.read_file("e/f.csv") == "keep;2\n", "other files are left alone")
    names = ["d/f.csv", "e/f.csv", "e/l.csv", "f.csv"] + {"read": ["out.csv"], "other": ["g.csv"]}.get(where, []) + ["l.csv"]
    if dia is None:
        h.check(rc == 1 and h.read_file("d/f.csv") == text, "nothing is written without a dialect")
        return
    want = standard(h, text, dia, False)
    h.check(rc == (2 if where == "in-place" and want != text else 0), "the exit code")
    h.check(h.read_file("d/f.csv") == (text if where == "read" else want), "the file behind the link holds the standard form")
    h.check(where != "read" or h.read_file("out.csv") == want, "the standard form is in the output file")
    h.check(sorted(h.listing()) == sorted(names) and h.leftovers() == 0, "no other file is made")
    h.check(h.mode("d/f.csv") == 0o640, "the mode of the file is kept")
    h.reach(where)
    h.obs([want, rc])


def hard(h):
    """an output that is another name of the input"""
    text = sample(h)
    h.mkdir("d")
    h.write_file("f.csv", text)
    h.hardlink("f.csv", "d/g.csv")
    src, out = h.pick((("f.csv", "d/g.csv"), ("d/g.csv", "f.csv"), ("./f.csv", "d/../d/g.csv")), "names")
    t = h.flag("transpose")
    n, args = number_args(h)
    dia = detect(h, text, n)
    rc = run(h, *(["standardize", "-e", "utf-8"] + args + (["-t"] if t else []) + ["-o", out, src]))
    h.check(h.listing() == ["d/g.csv", "f.csv"] and h.leftovers() == 0, "no other file is made")
    if dia is None:
        h.check(rc == 1 and h.read_file(src) == text and h.read_file(out) == text, "nothing is written without a dialect")
        return
    want = standard(h, text, dia, t)
    a, b = h.read_file(src), h.read_file(out)
    h.check(rc == 0, "the exit code")
    # by which of its names the file is replaced is not said
    h.check(a == want or b == want, "the standard form is written")
    h.check((a == want or a == text) and (b == want or b == text), "neither name loses its content")
    h.obs([rc, want])


def again(h):
    """a file that was standardized is standard"""
    text = sample(h)
    h.write_file("f.csv", text)
    if run(h, "standardize", "-i", "-e", "utf-8", "f.csv") == 1:
        return
    done = h.read_file("f.csv")
    dia = detect(h, done, None)
    if dia is None or (dia.delimiter, dia.quotechar, dia.escapechar) not in ((",", '"', ""), (",", "", "")):
        return
    h.check(run(h, "standardize", "-i", "-e", "utf-8", "f.csv") == 0, "a standard file is left alone")
    h.check(h.read_file("f.csv") == done, "and keeps its content")
    h.reach("again")


def many(h):
    """several files are done one after another, and wrong options do nothing"""
    a = h.text(1, h.cfg.get("only"), "\0", name="a") + ",1\r\n"
    b = "x;" + h.text(1, h.cfg.get("only"), "\0", name="b") + "\n"
    h.write_file("a.csv", a)
    h.write_file("b.csv", b)
    how = h.pick(("in-place", "output", "stdout", "fewer", "more", "both", "encodings", "two encodings"), "how")
    args = ["standardize"]
    order = h.pick((("a.csv", "b.csv"), ("b.csv", "a.csv"), ("b.csv", "b.csv")), "order")
    if how in ("in-place", "both"):
        args.append("-i")
    if how in ("output", "both", "more"):
        args += ["-o", "o1.csv", "-o", "o2.csv"]
    if how in ("fewer", "more"):
        args += ["-o", "o3.csv"]
    args += {"encodings": ["-e", "utf-8"] * 3, "two encodings": ["-e", "utf-8"] * 2}.get(how, ["-e", "utf-8"])
    texts = {"a.csv": a, "b.csv": b}
    rc = run(h, *(args + list(order)))
    if how in ("fewer", "more", "both", "encodings"):
        h.check(rc == 1, "wrong options are refused")
        h.check(h.listing() == ["a.csv", "b.csv"] and h.read_file("a.csv") == a and h.read_file("b.csv") == b and h.stdout() == "",
                "before anything is done")
        return
    code = 0
    printed = ""
    for i, f in enumerate(order):
        dia = detect(h, texts[f], None)
        if dia is None:
            code = 1
            break
        want = standard(h, texts[f], dia, False)
        if how == "in-place":
            if want != texts[f]:
                code = 2
            texts[f] = want
        else:
            h.check(h.read_file(f) == texts[f], "files are only read")
        if how == "output":
            h.check(h.read_file("o%d.csv" % (i + 1)) == want, "every file has its own output")
        if how in ("stdout", "two encodings"):
            printed = printed + want
    if how == "in-place" and code != 1:
        h.check(all(h.read_file(f) == texts[f] for f in order), "every file is replaced")
    h.check(rc == code, "the exit code covers all files")
    h.check(h.stdout() == printed, "and the output is in order")
    h.obs(rc)


def several(h):
    """every file is read and written in its own encoding"""
    a = "\u00e9" + h.text(1, h.cfg.get("only"), "\0", name="a") + ",1\r\n2,\u00fc\r\n"
    b = "x;" + h.text(1, h.cfg.get("only"), "\0", name="b") + "\u00e9\ny;1\n"
    encs = h.pick(h.cfg["encodings"], "encodings")
    h.write_file("a.csv", a, encs[0])
    h.write_file("b.csv", b, encs[1])
    how = h.pick(("in-place", "output"), "how")
    target = h.pick((None, "utf-8"), "target")
    args = ["standardize"] + {"in-place": ["-i"], "output": ["-o", "o1.csv", "-o", "o2.csv"]}[how]
    args += ["-e", encs[0], "-e", encs[1]] + ([] if target is None else ["-E", target])
    h.detected_encoding("utf-32")
    rc = run(h, *(args + ["a.csv", "b.csv"]))
    for f, t, e, o in (("a.csv", a, encs[0], "o1.csv"), ("b.csv", b, encs[1], "o2.csv")):
        dia = detect(h, t, None)
        if dia is None:
            h.check(rc == 1, "the exit code tells that detection failed")
            return
        want = standard(h, t, dia, False)
        if how == "in-place":
            o = f
        else:
            h.check(h.read_file(f, e) == t, "files are only read")
        h.check(h.read_file(o, target or e) == want, "the output is in the encoding asked for, or in that of the file")
    h.check(rc in (0, 2), "success")
    h.obs(rc)


def whole(h):
    """without a number of characters the whole file counts, however long it is"""
    text, rows = long_text(h)
    h.write_file("f.csv", text)
    what = h.pick(h.cfg["what"], "what")
    if what == "view":
        shown = []
        h.stub("tabview", {"view": lambda rows: shown.append(rows)})
        h.check(run(h, "view", "-e", "utf-8", "f.csv") == 0 and shown == [rows], "the rows are those of the whole file")
    elif what == "explore":
        s = h.sessions()
        h.check(run(h, "explore", "-e", "utf-8", "f.csv") == 0 and len(s) == 1 and s[0][0]["rows"] == rows, "the rows are those of the whole file")
    elif what == "detect":
        h.check(run(h, "detect", "-p", "-e", "utf-8", "f.csv") == 0, "success")
        h.check(h.stdout().split("\n")[:2] == ["delimiter = ,", 'quotechar = "'], "the dialect is that of the whole file")
    elif what == "code":
        h.check(run(h, "code", "-e", "utf-8", "f.csv") == 0, "success")
        h.check(h.run_code(h.stdout()).get("rows") == rows, "the rows are those of the whole file")
    else:
        h.check(run(h, "standardize", "-e", "utf-8", "-o", "out.csv", "f.csv") == 0, "success")
        h.check(h.read_file("out.csv") == expected(h, rows, "excel"), "the rows are those of the whole file")
    h.obs(what)


def big(h):
    """changes beyond the first part of a large file are seen"""
    c = h.text(1, h.cfg.get("only"), "\0", name="c")
    row = "aaaa,1\r\n"
    text = row * h.cfg["rows"] + c + ",2" + h.pick(("\r\n", ""), "end")
    h.write_file("f.csv", text)
    if h.cfg.get("prefix_only"):
        args = ["-n", "800"]
        dia = detect(h, text, 800)
    else:
        args = []
        dia = detect(h, text, None)
    rc = run(h, "standardize", "-i", "-e", "utf-8", *args, "f.csv")
    want = standard(h, text, dia, False)
    h.check(h.read_file("f.csv") == want, "the file holds its standard form")
    h.check(rc == (0 if want == text else 2), "the exit code tells whether the file was changed")
    h.reach("changed" if rc else "unchanged")
    h.obs(rc)


def digest(h):
    """the checksum that tells whether a file was changed covers all of it"""
    U = h.mod("clevercsv.utils")
    if not hasattr(U, "sha1sum"):
        return
    n = h.pick(h.cfg["sizes"], "size")
    a = h.text(1, h.cfg["only"], name="a")
    b = h.text_upto(1, h.cfg["only"], name="b")
    at = h.pick(h.cfg["at"], "at")
    one, two = ("x" * n + a, "x" * n + b) if at == "end" else (a + "x" * n, b + "x" * n)
    h.write_file("a.csv", one, "ascii")
    h.write_file("b.csv", two, "ascii")
    x = U.sha1sum("a.csv")
    h.check(x == U.sha1sum("a.csv"), "the same file, the same checksum")
    h.check((x == U.sha1sum("b.csv")) == (a == b), "the same checksum exactly for the same content")
    h.reach("same" if a == b else "other")


def faults(h):
    """a failure in the middle loses nothing"""
    text = sample(h)
    name = real = "f.csv"
    if h.pick(h.cfg.get("link", (False,)), "link"):
        h.mkdir("d")
        real = "d/f.csv"
        h.symlink(real, name)
    h.write_file(real, text)
    m = h.pick(h.cfg.get("modes", (0o604,)), "mode")
    h.set_mode(real, m)
    where = h.pick(h.cfg["where"], "where")
    args = ["standardize", "-e", "utf-8"]
    if where == "in-place":
        args.append("-i")
    elif where == "same":
        args += ["-o", "f.csv"]
    elif where == "output":
        args += ["-o", "out.csv"]
    if h.pick(h.cfg.get("transpose", (False,)), "transpose"):
        args.append("-t")
    target = h.pick(h.cfg.get("target", ("utf-8",)), "target")
    args += ["-E", target, "-n", str(h.cfg.get("num_chars", 1000))]
    dia = detect(h, text, h.cfg.get("num_chars", 1000))
    want = None
    if dia is not None:
        want, err = attempt(lambda: standard(h, text, dia, "-t" in args), h.mod("clevercsv.exceptions").Error)
    h.arm()
    rc, err = attempt(lambda: run(h, *(args + ["f.csv"])), Exception)
    h.disarm()
    op = h.fault_op()
    in_place = where in ("in-place", "same")
    stored = [h.read_file(real), h.read_file(real, target)] if h.exists(real) else []
    old = stored and stored[0] == text
    new = stored and want is not None and stored[1] == want
    h.check(old or (in_place and new), "the file has its old content or the complete new one")
    h.check(h.mode(real) == m, "the mode of the file is kept")
    h.check(name == real or h.is_link(name), "a link stays a link")
    if err is None and rc != 1 and op is None:
        h.check(new if in_place else (h.stdout() if where == "stdout" else h.read_file("out.csv", target)) == want, "success means that everything was written")
        h.reach("success")
    if op is not None:
        h.check(err is not None or rc == 1 or new, "a failure is reported")
        h.reach("failed in " + op)
    if err is not None and op is None:
        h.check(want is None or target != "utf-8", "there is no other failure")
        h.check(old, "a failure leaves the file alone")
        h.reach("cannot write")
    if op != "unlink":
        h.check(h.listing() == sorted(set([name, real])) + (["out.csv"] if h.exists("out.csv") else []) and h.leftovers() == 0, "no temporary file is left")
    at = h.crashed(real)
    if at is not None:
        h.check(at == text or (in_place and at == want), "at every moment the file is the old or the new one")
        h.check(at == ("no file",) or h.crashed_mode(real) == m, "and has its mode")
        h.reach("stopped")
    h.obs([rc, err is None, old])


NASTY = ("f.csv", 'we"ird.csv', "it's.csv", "back\\slash.csv", "new\nline.csv", "tab\t\rx.csv", "\u00fcn\u00ef\u2028.csv", "a{b}{0}.csv", "%s%d.csv",
         "\\", '"', "\\N{DASH}\\x41.csv", "#.csv", '"""', "'''", "\x7f\x1b.csv", " f.csv ")


# names with directories; the directory "l" is a link
PLACES = ("./f.csv", "l/../f.csv", "d//f.csv", "~/f.csv", "$HOME/f.csv", "d/../f.csv", "x/y/../../l/f.csv", "./-f.csv")


def place(h, name):
    """makes the directories of a file"""
    if "/" in name:
        for d in ("x", "x/y", "d", "~", "$HOME"):
            h.mkdir(d)
        h.symlink("x/y", "l")
        h.write_file("f.csv", "not,this,one\n")


def code(h):
    """the printed program reads the file with the detected dialect"""
    pkg = h.mod("clevercsv")
    name = h.pick(h.cfg.get("names", ("f.csv",)), "name")
    text = sample(h)
    n, args = number_args(h)
    enc, eargs = encoding_args(h, text)
    place(h, name)
    h.write_file(name, text, enc)
    there = h.listing()
    dia = detect(h, text, n)
    pandas = h.pick(h.cfg.get("pandas", (False, True)), "pandas")
    rc = run(h, "code", *args, *eargs, *([h.pick(("-p", "--pandas"), "p")] if pandas else []), "--", name)
    if dia is None:
        h.check(rc == 1 and h.stdout() == "", "nothing is printed when there is no dialect")
        h.reach("no dialect")
        return
    h.check(rc == 0, "success")
    src = h.stdout()
    if pandas:
        frame_of(h, lambda: h.run_code(src), name, dia, text[:n] if n else text, enc, eargs)
    else:
        rows = h.run_code(src).get("rows")
        h.check(rows == list(pkg.reader(h.stringio(text), dia)), "the program reads the rows of the file")
    h.check(h.listing() == there and h.read_file(name, enc) == text, "the file is only read")
    h.reach("program")
    h.obs(rc)


def frame_of(h, program, name, dia, seen, stored, given):
    """the program makes pandas read the file"""
    calls = []
    frame = object()

    def read_csv(*args, **kw):
        calls.append((args, kw))
        return frame

    h.stub("pandas", {"read_csv": read_csv, "errors": Errors, "__version__": "2.0.0"})
    h.check(program().get("df") is frame and len(calls) == 1, "the program reads a data frame")
    args, kw = calls[0]
    h.check(args == (name,), "of the file")
    e = kw["encoding"]
    h.check(e == stored if given or stored != "utf-8" else e is not None and e.lower() in ("utf-8", "ascii"), "with its encoding")
    frame_dialect(h, kw["dialect"], dia, seen)


def explore(h):
    """the session starts with the rows of the file"""
    pkg = h.mod("clevercsv")
    text = sample(h)
    name = h.pick(h.cfg.get("names", ("f.csv",)), "name")
    n, args = number_args(h)
    enc, eargs = encoding_args(h, text)
    place(h, name)
    h.write_file(name, text, enc)
    there = h.listing()
    dia = detect(h, text, n)
    pandas = h.pick(h.cfg.get("pandas", (False, True)), "pandas")
    started = h.sessions()
    got = []

    def start():
        got.append(run(h, "explore", *args, *eargs, *([h.pick(("-p", "--pandas"), "p")] if pandas else []), "--", name))
        return started[0][0] if started else {}

    if dia is None:
        start()
        h.check(got == [1] and len(started) == 0 and h.stdout() == "", "no session is started when there is no dialect")
        h.reach("no dialect")
        return
    if pandas:
        frame_of(h, start, name, dia, text[:n] if n else text, enc, eargs)
    else:
        rows = start().get("rows")
        h.check(rows == list(pkg.reader(h.stringio(text), dia)), "the rows of the file are there")
    h.check(got == [0] and len(started) == 1, "one session is started")
    h.check(("df" if pandas else "rows") in started[0][1], "the banner names the variable")
    h.check(h.listing() == there and h.read_file(name, enc) == text, "the file is only read")
    h.reach("session")


def view(h):
    """the rows of the file are shown, flipped if asked for"""
    pkg = h.mod("clevercsv")
    text = sample(h)
    n, args = number_args(h)
    enc, eargs = encoding_args(h, text)
    h.write_file("f.csv", text, enc)
    dia = detect(h, text, n)
    transpose = h.pick((False, True), "transpose")
    shown = []

    def show(rows, *a, **k):
        shown.append(rows)

    h.stub("tabview", h.pick(({"view": show, "__version__": "1.4.4"}, {"view": show}), "tabview"))
    rc = run(h, "view", *args, *eargs, *([h.pick(("-t", "--transpose"), "t")] if transpose else []), "f.csv")
    if dia is None:
        h.check(rc == 1 and len(shown) == 0, "nothing is shown when there is no dialect")
        h.reach("no dialect")
        return
    rows = list(pkg.reader(h.stringio(text), dia))
    h.check(rc == 0 and len(shown) == 1, "the file is shown")
    got = [["" if c is None else c for c in r] for r in shown[0]]
    h.check(got == (flip(rows) if transpose else rows), "with the rows of the file")
    h.check(h.listing() == ["f.csv"] and h.read_file("f.csv", enc) == text, "the file is only read")
    h.reach("flipped" if transpose else "shown")
    h.obs(got)


def no_tabview(h):
    """a missing viewer is reported"""
    h.write_file("f.csv", "a,b\n1,2\n")
    if h.flag("old"):
        h.stub("tabview", {"view": lambda rows: None, "__version__": h.pick(("1.3.9", "1.4b1", "0.9"), "version")})
    else:
        h.missing("tabview")
    h.check(type(attempt(lambda: run(h, "view", "-e", "utf-8", "f.csv"), ImportError)[1]) is ImportError, "there is an error")
    h.reach("missing")


def generate(h):
    """generated programs hold any file name, encoding and dialect"""
    pkg = h.mod("clevercsv")
    U = h.mod("clevercsv.console.commands._utils")
    if h.cfg["part"] == "name":
        name = h.text_upto(h.cfg["n"], None, "\0", name="file")
        d, q, e = ";", '"', "\\"
    else:
        name = "f.csv"
        k = h.cfg["part"]
        d, q, e = [h.text_upto(1, None if x == k else h.cfg["others"], "\0", name=x) for x in ("d", "q", "e")]
    enc = h.pick((None, "utf-8", "latin-1"), "encoding")
    pandas = h.flag("pandas")
    lines = U.generate_code(name, h.mod("clevercsv.dialect").SimpleDialect(d, q, e), enc, use_pandas=pandas)
    src = "\n".join(lines)
    calls = []

    def record(kind, result):
        def f(*args, **kw):
            calls.append((kind, args, kw))
            return result

        return f

    class File:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    f = File()
    pkg.reader = record("reader", ["rows"])
    pkg.read_dataframe = record("frame", "frame")
    h.run_code(src, {"open": record("open", f)})
    if pandas:
        h.check(len(calls) == 1 and calls[0][0] == "frame" and calls[0][1] == (name,), "the data frame of the file is read")
    else:
        h.check(len(calls) == 2 and calls[0][0] == "open" and calls[1][0] == "reader", "the file is opened and read")
        k = calls[0]
        h.check(k[1][0] == name and k[1][1:] in ((), ("r",)) and k[2].get("newline") == "" and k[2].get("encoding") == enc, "the file name and encoding are kept")
        h.check(calls[1][1] == (f,), "the reader gets the file")
    kw = calls[-1][2]
    h.check(kw == {"delimiter": d, "quotechar": q, "escapechar": e}, "the dialect is kept")


def detect_command(h):
    """the command prints the dialect the detection gives"""
    T = h.mod("clevercsv.detect")
    text = sample(h)
    n, args = number_args(h)
    method = h.pick(h.cfg.get("methods", ("auto", "consistency")), "method")
    if method == "consistency":
        args.append(h.pick(("-c", "--consistency"), "c"))
    skip = h.pick(h.cfg.get("skip", (True, False)), "skip")
    if not skip:
        args.append("--no-skip")
    enc, eargs = encoding_args(h, text)
    h.write_file("f.csv", text, enc)
    style = h.pick(h.cfg.get("styles", ("default", "plain", "json")), "style")
    runtime = h.pick(h.cfg.get("runtime", (False,)), "runtime")
    if style == "plain":
        args.append(h.pick(("-p", "--plain"), "p"))
    elif style == "json":
        args.append(h.pick(("-j", "--json"), "j"))
    if runtime:
        args.append("--add-runtime")
    dia = T.Detector().detect(text[:n] if n is not None and n > 0 else text, method=method, skip=skip)
    rc = run(h, "detect", *args, *eargs, "f.csv")
    out = h.stdout()
    if dia is None:
        h.check(rc == 1 and out == "", "the exit code tells that there is no dialect")
        h.reach("no dialect")
        return
    h.check(rc == 0, "success")
    d, q, e = dia.delimiter, dia.quotechar, dia.escapechar
    if style == "json":
        got = h.mod("json").loads(out)
        h.check(got["delimiter"] == d and got["quotechar"] == q and got["escapechar"] == e and got["strict"] == dia.strict,
                "the JSON object holds the dialect")
        names = ["delimiter", "escapechar", "quotechar", "strict"]
        if runtime:
            names = sorted(names + ["runtime"])
            h.check(got["runtime"] >= 0, "the runtime is a number")
        h.check(sorted(got.keys()) == names, "and nothing else")
    else:
        lines = out.split("\n")
        h.check(lines[-1] == "", "whole lines are printed")
        lines = lines[:-1]
        if style == "plain":
            want = ["delimiter = " + d, "quotechar = " + q, "escapechar = " + e]
            if runtime:
                h.check(lines.pop().startswith("runtime = "), "the runtime is on its own line")
            h.check([x.strip() for x in lines] == [x.strip() for x in want], "one line for each part of the dialect")
        else:
            if runtime:
                h.check(lines.pop().startswith("Runtime: "), "the runtime is on its own line")
            h.check(lines == ["Detected: SimpleDialect(" + ", ".join([repr(x) for x in (d, q, e)]) + ")"], "the dialect is printed")
    h.check(h.listing() == ["f.csv"] and h.read_file("f.csv", enc) == text, "the file is only read")
    h.reach("printed")
    if not runtime:
        h.obs([out, rc])


def undecodable(h):
    """a file that is no text in the encoding is an error and stays as it is"""
    bad, enc = no_text(h)
    name = h.cfg["command"]
    args = [name, "-e", enc] + h.pick(h.cfg.get("options", ((),)), "options")[:] if h.cfg.get("options") else [name, "-e", enc]
    r, err = attempt(lambda: run(h, *args, "f.csv"), UnicodeError)
    h.check(err is not None or r not in (0, 2), "bytes that are no text are an error")
    h.check(h.read_file("f.csv", enc) == bad, "the file is only read")
    h.check(err is not None or h.stdout() == "", "nothing is printed as result")
    h.obs(name)
