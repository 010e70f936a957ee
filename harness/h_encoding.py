"""The encoding of a file."""


def make(answer, early, done_at, made):
    class Detector:
        def __init__(self, *args, **kw):
            self.done = False
            self.result = {"encoding": early, "confidence": 0.0}
            self.fed = []
            self.closed = False
            made.append(self)

        def feed(self, data):
            self.fed.append(data)
            if done_at is not None and len(self.fed) >= done_at:
                self.done = True

        def close(self):
            self.closed = True
            self.done = True
            self.result = dict(answer)
            return self.result

        def reset(self):
            self.fed = []
            self.closed = self.done = False
            self.result = {"encoding": early, "confidence": 0.0}

    return Detector


def encoding(h):
    """the detector sees the bytes of the file and its answer is taken"""
    E = h.mod("clevercsv.encoding")
    n = h.pick(h.cfg["sizes"], "size")
    text = "x" * n + h.text_upto(h.cfg["n"], h.cfg.get("only", "ab\n\r\t\x00\x1a"))
    h.write_file("f.csv", text, "ascii")
    answer = h.pick(({"encoding": "utf-8", "confidence": 0.9}, {"encoding": None}, {}, {"encoding": "Windows-1252", "confidence": 0.1, "language": ""},
                     {"encoding": "ASCII"}), "answer")
    done_at = h.pick((None, 1, 2), "done")
    made = {"chardet": [], "cchardet": []}
    for k in ("chardet", "cchardet"):
        h.detector(k, make(answer, h.pick((None, "latin-1"), "early"), done_at, made[k]))
    there = h.flag("installed")
    if not there:
        h.missing("cchardet")
    used, args, kw = h.pick((("cchardet", (), {}), ("cchardet", (True,), {}), ("chardet", (), {"try_cchardet": False}), ("chardet", (False,), {})), "call")
    if not there:
        used = "chardet"
    got = E.get_encoding("f.csv", *args, **kw)
    h.check(got == answer.get("encoding"), "the answer of the detector is taken")
    other = made["chardet" if used == "cchardet" else "cchardet"]
    h.check(len(made[used]) == 1 and len([d for d in other if d.fed]) == 0, "the package asked for is used")
    d = made[used][0]
    seen = h.bytes_of(d.fed)
    h.check(d.closed, "the detector is told that the file has ended")
    if done_at is None or len(d.fed) < done_at:
        h.check(seen == text, "it sees the whole file")
        h.reach("whole")
    else:
        h.check(text.startswith(seen), "it sees the file until it is sure")
        h.reach("sure")
    h.check(h.listing() == ["f.csv"] and h.read_file("f.csv", "ascii") == text, "the file is only read")
    h.obs([got, len(seen)])


def again(h):
    """every call looks at the file as it is then"""
    E = h.mod("clevercsv.encoding")
    a = h.text_upto(h.cfg["n"], "ab\n\r\t\x1a", name="first")
    b = h.text_upto(h.cfg["n"], "ab\n\r\t\x1a", name="second")
    made = {"chardet": [], "cchardet": []}

    class ByContent:
        """an answer that tells what was seen"""

        def __init__(self, *args, **kw):
            self.done = False
            self.result = {"encoding": None, "confidence": 0.0}
            self.fed = []

        def feed(self, data):
            self.fed.append(data)

        def close(self):
            self.done = True
            text = h.bytes_of(self.fed)
            self.result = {"encoding": "ascii" if text.startswith("a") else "utf-8" if text.startswith("b") else "cp%d" % len(text), "confidence": 1.0}
            return self.result

        def reset(self):
            self.__init__()

    for k in ("chardet", "cchardet"):
        h.detector(k, ByContent)
    use = h.flag("try_cchardet")

    def want(text):
        return "ascii" if text.startswith("a") else "utf-8" if text.startswith("b") else "cp%d" % len(text)

    h.write_file("f.csv", a, "ascii")
    h.check(E.get_encoding("f.csv", try_cchardet=use) == want(a), "the answer for the file")
    where = h.pick(("changed", "other file", "same"), "then")
    if where == "changed":
        h.write_file("f.csv", b, "ascii")
        h.check(E.get_encoding("f.csv", try_cchardet=use) == want(b), "the answer for the file as it is now")
    elif where == "other file":
        h.write_file("g.csv", b, "ascii")
        h.check(E.get_encoding("g.csv", try_cchardet=use) == want(b), "the answer for the other file")
        h.check(E.get_encoding("f.csv", try_cchardet=use) == want(a), "and again for the first")
    else:
        h.check(E.get_encoding("f.csv", try_cchardet=not use) == want(a), "the same by the other package")
        h.check(E.get_encoding("f.csv", try_cchardet=use) == want(a), "the same again")
    h.obs([want(a), want(b)])
