"""Verbose mode."""
from harness.h_console import flip, number_args, run
from harness.h_detect import name
from harness.h_score import sample
from harness.h_wrappers import attempt, pairs


def api(h):
    """being verbose changes no result of the detection"""
    T = h.mod("clevercsv.detect")
    C = h.mod("clevercsv.consistency")
    N = h.mod("clevercsv.normal_form")
    text = sample(h)
    method = h.pick(("auto", "normal", "consistency"), "method")
    skip = h.pick((True, False), "skip") if method != "normal" else True
    ds = h.pick(h.cfg.get("delimiters", (None,)), "delimiters")
    a = T.Detector().detect(text, ds, False, method, skip)
    b = T.Detector().detect(text, ds, True, method, skip)
    h.check(a == b, "the dialect is the same")
    if method == "normal":
        h.check(N.detect_dialect_normal(text, delimiters=ds, verbose=True) == a, "as a function, too")
    elif method == "consistency":
        h.check(C.detect_dialect_consistency(text, delimiters=ds, skip=skip, verbose=True) == a, "as a function, too")
    else:
        h.check(T.Detector().sniff(text, ds, True) == T.Detector().sniff(text, ds), "sniffing, too")
    h.reach(method)
    h.obs(name(b))


def files(h):
    """being verbose changes no rows"""
    W = h.mod("clevercsv.wrappers")
    X = h.mod("clevercsv.exceptions")
    text = sample(h)
    h.write_file("f.csv", text)
    how = h.pick(("read_table", "stream_table", "read_dicts", "stream_dicts", "detect_dialect"), "how")
    n = h.pick(h.cfg.get("num_chars", (None,)), "num_chars")

    def rows(verbose):
        f = getattr(W, how)
        r, err = attempt(lambda: f("f.csv", num_chars=n, encoding="utf-8", verbose=verbose), X.NoDetectionResult, StopIteration)
        if err is None and how.startswith("stream"):
            r, err = attempt(lambda: list(r), X.NoDetectionResult)
        if err is not None:
            return type(err)
        return pairs(r) if how.endswith("dicts") else name(r) if how == "detect_dialect" else r

    a = rows(False)
    h.check(rows(True) == a, "the result is the same")
    h.reach("error" if a is X.NoDetectionResult else how)
    h.check(h.listing() == ["f.csv"] and h.read_file("f.csv") == text, "the file is only read")


def commands(h):
    """being verbose changes neither the result of a command nor the files"""
    text = sample(h)
    n, args = number_args(h)
    h.write_file("f.csv", text)
    what = h.pick(h.cfg["what"], "command")
    shown = []
    args = args + ["-e", "utf-8"]
    if what == "detect":
        args = ["detect"] + args + h.pick(([], ["-p"], ["-j"], ["-c", "-p"]), "style")
    elif what == "code":
        args = ["code"] + args + h.pick(([], ["-p"]), "pandas")
    elif what == "view":
        h.stub("tabview", {"view": lambda rows: shown.append(rows)})
        args = ["view"] + args
    elif what == "in place":
        args = ["standardize", "-i"] + args
    else:
        args = ["standardize", "-o", "out.csv"] + args
    args.append("f.csv")
    rc = run(h, *args)
    plain = h.stdout()
    files = [(k, h.read_file(k)) for k in h.listing()]
    if what in ("in place", "standardize"):
        h.write_file("f.csv", text)
    rc2 = run(h, *([h.pick(("-v", "--verbose"), "v")] + args))
    out = h.stdout()[len(plain):]
    h.check(rc2 == rc, "the exit code is the same")
    h.check(out.endswith(plain), "what is printed comes last")
    h.check([(k, h.read_file(k)) for k in h.listing()] == files, "the files are the same")
    if what == "view" and rc == 0:
        h.check(len(shown) == 2 and shown[0] == shown[1], "the same rows are shown")
    h.reach("%s %s" % (what, rc))


def program(h):
    """python -m clevercsv ends with the exit code of the command"""
    M = h.mod("clevercsv.__main__")
    text = sample(h)
    args = h.pick((["detect", "-p"], ["standardize", "-i"], ["code"], ["standardize", "-o", "out.csv"]), "args")
    h.write_file("f.csv", text)
    want = run(h, *(args + ["-e", "utf-8", "f.csv"]))
    plain = h.stdout()
    files = [(k, h.read_file(k)) for k in h.listing()]
    h.write_file("f.csv", text)
    h.set_argv(["clevercsv"] + args + ["-e", "utf-8", "f.csv"])
    try:
        M.main()
        code = None
    except SystemExit as e:
        code = e.code
    h.check((code or 0) == (want or 0), "the exit code of the command")
    h.check(h.stdout()[len(plain):] == plain, "the output of the command")
    h.check([(k, h.read_file(k)) for k in h.listing()] == files, "the files of the command")
    h.reach("exit code %s" % want)
