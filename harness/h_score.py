"""Pattern score, candidate dialects, consistency measure, tie breaking, normal forms."""
from harness import refscore
from harness.h_parser import dialect

EPS = 1e-9


def close(a, b):
    return abs(a - b) <= EPS * max(1.0, abs(a), abs(b))


def mkdialect(h, spec):
    d, q, e = dialect(h, spec)
    return h.mod("clevercsv.dialect").SimpleDialect(d, q, e), d, q, e


def sample(h, name="text"):
    """the text: templates with holes ("?" any character, "*" from cfg["only"]) or free text"""
    c = h.cfg
    if "template" in c:
        return c.get("prefix", "") + fill(h, c["template"], name) + c.get("suffix", "")
    return c.get("prefix", "") + h.text_upto(c["n"], c.get("only"), c.get("without", "\0"), name=name,
                                             least=c.get("least", 0)) + c.get("suffix", "")


def fill(h, template, name):
    """the template with a character for each question mark"""
    c = h.cfg
    out = ""
    k = 0
    for ch in template:
        if ch == "?":
            out = out + h.text(1, c.get("only"), c.get("without", "\0"), name="%s%d" % (name, k))
            k += 1
        else:
            out = out + ch
    return out


def abstraction(h):
    """the abstraction and the pattern score are those of the definition"""
    P = h.mod("clevercsv.detect_pattern")
    sd, d, q, e = mkdialect(h, h.cfg["dialect"])
    text = sample(h)
    want = refscore.abstraction(text, d, q, e)
    got = P.make_abstraction(text, sd)
    h.obs(got)
    h.check(got == want, "the abstraction of the text is the defined one")
    s = P.pattern_score(text, sd)
    h.check(close(s, refscore.pattern_score(want, 1e-3)), "the pattern score follows from the row patterns")
    for eps in (0.25, 0.75, 1.5, 0.0):
        s2 = P.pattern_score(text, sd, eps=eps)
        h.check(close(s2, refscore.pattern_score(want, eps)), "with the given minimum")
    h.check(s > 0, "the pattern score is positive")
    if "Q" in want:
        h.reach("unmatched quote")
    if "CDC" in want:
        h.reach("two cells")


def letters(h):
    """each step of the abstraction, on any sequence of abstraction letters"""
    P = h.mod("clevercsv.detect_pattern")
    A = h.text_upto(h.cfg["n"], "CDQR", name="letters")
    m = P.merge_with_quotechar(A)
    h.check(m == refscore.merge(A), "quoted blocks become cells")
    f = P.fill_empties(A)
    h.check(f == refscore.fill(A), "empty cells are filled in and neighbouring cell letters are joined")
    t = P.strip_trailing(A)
    h.check(t == refscore.strip(A), "row ends at the end are dropped")
    h.obs([m, f, t])


def candidates(h):
    """the candidate dialects are exactly the documented ones"""
    G = h.mod("clevercsv.potential_dialects")
    text = sample(h)
    allowed = None
    mode = h.cfg.get("delimiters")
    if mode == "?":
        allowed = [h.text(1, without="\0", name="allowed")]
    elif mode is not None:
        allowed = list(mode)
    enc = h.pick(h.cfg.get("encodings", (None,)), "encoding")
    got = G.get_dialects(text, delimiters=allowed) if enc is None else G.get_dialects(text, encoding=enc, delimiters=allowed)
    nourl = G.filter_urls(text)
    if not h.cfg.get("urls"):
        h.check(nourl == text, "text without a URL is left as it is")
    elif nourl != text:
        h.reach("url")
    delims = refscore.delimiters(nourl, allowed)
    quotes = refscore.quotechars(nourl)
    want = []
    for d in delims:
        for q in quotes:
            for e in refscore.escapechars(text, d, q):
                want.append((d, q, e))
    have = [(x.delimiter, x.quotechar, x.escapechar) for x in got]
    for x in have:
        h.check(x in want, "every candidate dialect is made from delimiters, quote and escape characters of the text")
    for x in want:
        h.check(x in have, "every such dialect is a candidate")
    h.check(len(have) == len(want), "no candidate is listed twice")
    h.check(all(x.strict is False for x in got), "candidates are not strict")
    h.obs(len(have))


def named_candidates(h):
    """delimiters and quote characters, with the documented parameters"""
    G = h.mod("clevercsv.potential_dialects")
    text = sample(h)
    ds = G.get_delimiters(text, "UTF-8", block_cat=["Lu"], block_char=["x"])
    want = [""]
    for c in text:
        if c not in want and c != "x" and (c == "\t" or not refscore.category_in(c, ("Lu",))):
            want.append(c)
    h.check(len(ds) == len(want) and all(c in ds for c in want), "blocked categories and characters are respected")
    qs = G.get_quotechars(text, quote_chars=["x", "'"])
    want = [""] + [c for c in ("x", "'") if c in text]
    h.check(len(qs) == len(want) and all(c in qs for c in want), "quote characters are those given that occur")
    h.obs([len(ds), len(qs)])


def masked(h):
    """a character is masked exactly when all its occurrences are between quotes"""
    G = h.mod("clevercsv.potential_dialects")
    d, q, e = dialect(h, h.cfg["dialect"])
    text = sample(h)
    got = G.masked_by_quotechar(text, q, e, d)
    h.check(bool(got) == refscore.masked(text, q, e, d), "masked exactly when every occurrence is between quotes")
    h.obs(bool(got))
    h.reach("masked" if got else "not masked")


def masked_candidates(h):
    """the optional filter drops exactly the masked candidates"""
    G = h.mod("clevercsv.potential_dialects")
    text = sample(h)
    every = G.get_dialects(text)
    kept = G.get_dialects(text, test_masked_by_quotes=True)
    for x in every:
        m = refscore.masked(text, x.quotechar, x.escapechar, x.delimiter)
        h.check((x in kept) == (not m), "a candidate is dropped exactly when its delimiter is masked")
    h.check(len(kept) <= len(every), "nothing is added")


def urls(h):
    """URLs are replaced by one letter and nothing else is changed"""
    G = h.mod("clevercsv.potential_dialects")
    url = h.pick(h.cfg["urls"], "url")
    a = h.text_upto(h.cfg["n"], h.cfg["around"], name="before")
    b = h.text_upto(h.cfg["n"], h.cfg["around"], name="after")
    got = G.filter_urls(a + url + b)
    h.check(got == a + "U" + b, "the URL becomes one letter, the rest of the text is kept")
    h.obs(got)
    ds = [(x.delimiter, x.quotechar) for x in G.get_dialects(a + url + b)]
    for c in "/:.?=&%#~-_()":
        if c in url and c not in a and c not in b:
            h.check(all(x[0] != c and x[1] != c for x in ds), "characters that only occur in URLs are no candidates")


def several_urls(h):
    """however many URLs there are"""
    G = h.mod("clevercsv.potential_dialects")
    text = want = ""
    known = h.cfg.get("known")
    for i, u in enumerate(h.cfg["urls"]):
        c = known if known is not None and 0 < i < len(h.cfg["urls"]) - 1 else h.text_upto(h.cfg["n"], h.cfg["around"], name="before%d" % i, least=1 if i else 0)
        text = text + c + u
        want = want + c + "U"
    got = G.filter_urls(text)
    h.check(got == want, "every URL becomes one letter, the rest of the text is kept")
    h.obs(got)


def cell_score(U, T, td, text, x):
    total = known = 0
    for row in U.parse_string(text, x, return_quoted=True):
        for cell, quoted in row:
            total += 1
            if td.detect_type(cell, is_quoted=quoted) is not None:
                known += 1
    return max(1e-10, known / total) if total else 1e-10


def some_candidates(h, text):
    cands = h.cfg.get("candidates")
    if cands is None:
        return h.mod("clevercsv.potential_dialects").get_dialects(text)
    D = h.mod("clevercsv.dialect").SimpleDialect
    return [D(*c) for c in cands]


def scores(h):
    """pattern score times type score, and the best dialects"""
    C = h.mod("clevercsv.consistency")
    P = h.mod("clevercsv.detect_pattern")
    T = h.mod("clevercsv.detect_type")
    U = h.mod("clevercsv.cparser_util")
    text = sample(h)
    cands = some_candidates(h, text)
    td = T.TypeDetector()
    det = C.ConsistencyDetector(skip=False)
    full = det.compute_consistency_scores(text, cands)
    h.check(len(full) == len(cands), "every candidate has a score")
    best = None
    for x in cands:
        f = full[x]
        t = cell_score(U, T, td, text, x)
        p = refscore.pattern_score(refscore.abstraction(text, x.delimiter, x.quotechar, x.escapechar), 1e-3)
        h.check(f.T is not None and f.Q is not None, "without skipping every score is computed")
        h.check(close(f.P, p) and close(P.pattern_score(text, x), p), "the pattern score is that of the dialect")
        h.check(abs(f.T - t) <= 1e-12, "the type score is the fraction of cells of a known type")
        h.check(abs(T.type_score(text, x) - t) <= 1e-12, "also when computed on its own")
        h.check(abs(f.Q - p * t) <= 1e-9 * max(1.0, p), "the score is their product")
        h.check(0 < f.T <= 1, "the type score is between zero and one")
        if best is None or f.Q > best:
            best = f.Q
    top = C.ConsistencyDetector.get_best_dialects(full)
    h.check(len(top) > 0, "there is a best dialect")
    for x in cands:
        h.check((x in top) == (full[x].Q == best), "the best dialects are all those with the highest score")
    again = det.compute_consistency_scores(text, cands)
    h.check(all(again[x] == full[x] for x in cands), "the scores stay the same when computed again")
    h.obs([round(full[x].Q, 9) for x in sorted(cands)])


def history(h):
    """a detector that was used on another text gives the same scores and result"""
    C = h.mod("clevercsv.consistency")
    text = sample(h)
    before = h.pick(h.cfg["before"], "before")
    det = C.ConsistencyDetector(skip=h.flag("skip"), cache_capacity=h.pick((100, 1), "cache"))
    det.detect(before)
    a = det.detect(text)
    b = C.ConsistencyDetector(skip=False).detect(text)
    h.check(a == b, "earlier use of a detector does not matter")
    h.obs(a and [a.delimiter, a.quotechar, a.escapechar])


def values(h, det, text):
    """the scores of all candidates, comparable between processes"""
    cands = some_candidates(h, text)
    got = det.compute_consistency_scores(text, cands)
    return [[x.delimiter, x.quotechar, x.escapechar, got[x].P, got[x].T, got[x].Q] for x in cands]


def earlier(h):
    """earlier use of the package does not matter, in this process or another"""
    text = sample(h)
    before = fill(h, h.cfg["before"], "before")
    det = h.mod("clevercsv.consistency").ConsistencyDetector(skip=False)
    values(h, h.pick((det, h.mod("clevercsv.consistency").ConsistencyDetector(skip=False)), "detector"), before)
    a = values(h, det, text)
    h.restart()
    b = values(h, h.mod("clevercsv.consistency").ConsistencyDetector(skip=False), text)
    h.check(a == b, "the scores are those of a new process")
    h.obs([[round(y, 9) if type(y) is float else y for y in x] for x in b])


def skip(h):
    """the type score is skipped only when it cannot matter"""
    C = h.mod("clevercsv.consistency")
    text = sample(h)
    cands = some_candidates(h, text)
    full = C.ConsistencyDetector(skip=False).compute_consistency_scores(text, cands)
    fast = C.ConsistencyDetector(skip=True).compute_consistency_scores(text, cands)
    h.check(len(fast) == len(full), "every candidate has a score")
    best = max([full[x].Q for x in cands])
    for x in cands:
        f, g = full[x], fast[x]
        h.check(g.P == f.P, "the pattern score is always computed")
        h.check((g.Q is None) == (g.T is None), "skipped scores are not set")
        if g.Q is None:
            h.reach("skipped")
            h.check(f.Q < best, "a skipped dialect does not have the best score")
        else:
            h.check(g.Q == f.Q and g.T == f.T, "skipping changes no score that is computed")
    top = C.ConsistencyDetector.get_best_dialects(fast)
    h.check(len(top) > 0, "there is a best dialect")
    for x in cands:
        h.check((x in top) == (full[x].Q == best), "the best dialects are the same")
    h.obs([round(full[x].Q, 9) for x in sorted(cands)])


def forged(h):
    """whatever the scores are, skipping keeps the best dialects"""
    C = h.mod("clevercsv.consistency")
    N = h.mod("clevercsv.detect_pattern")
    D = h.mod("clevercsv.dialect").SimpleDialect
    n = h.cfg["n"]
    ps = [h.pick(h.cfg["P"], "P%d" % i) for i in range(n)]
    ts = [h.pick(h.cfg["T"], "T%d" % i) for i in range(n)]
    # in the order in which dialects are looked at
    cands = sorted([D(c, "", "") for c in ",;|x"[:n]])
    asked = []

    def pattern(data, dialect, *args, **kw):
        asked.append(1)
        return ps[cands.index(dialect)]

    class Known(C.ConsistencyDetector):
        def compute_type_score(self, data, dialect, *args, **kw):
            return ts[cands.index(dialect)]

    old = [(m, getattr(m, "pattern_score", None)) for m in (C, N)]
    try:
        for m, f in old:
            if f is not None:
                m.pattern_score = pattern
        full = Known(skip=False).compute_consistency_scores("", cands)
        fast = Known(skip=True).compute_consistency_scores("", cands)
    finally:
        for m, f in old:
            if f is not None:
                m.pattern_score = f
    if len(asked) < n:
        # the scores are computed in another way
        return
    h.reach("scores")
    qs = [p * t for p, t in zip(ps, ts)]
    best = max(qs)
    for scores, what in ((full, "without"), (fast, "with")):
        top = C.ConsistencyDetector.get_best_dialects(scores)
        h.check([c in top for c in cands] == [q == best for q in qs], "the best dialects are those with the highest score, %s skipping" % what)
        for c, p, t, q in zip(cands, ps, ts, qs):
            g = scores[c]
            h.check(g.P == p, "the pattern score is always there")
            h.check((g.T is None and g.Q is None and what == "with") or (g.T == t and g.Q == q), "scores are given or skipped")
    h.obs([c in top for c in cands])


def ties(h):
    """the tie breaker returns one of the given dialects or none"""
    B = h.mod("clevercsv.break_ties")
    D = h.mod("clevercsv.dialect").SimpleDialect
    text = sample(h)
    n = h.pick(h.cfg.get("sizes", (2, 3, 4)), "number")
    pool = list(h.cfg["pool"])
    given = []
    for i in range(n):
        k = h.pick(range(len(pool) - (n - 1 - i)), "dialect%d" % i)
        given.append(D(*pool[k]))
        pool = pool[k + 1:]
    r = B.tie_breaker(text, list(given))
    h.check(r is None or r in given, "the result is one of the tied dialects or none")
    h.obs(repr(r))
    h.reach("none" if r is None else "broken")
    h.opt("set_order", "rev")
    r2 = B.tie_breaker(text, list(given))
    h.opt("set_order", None)
    h.check(r == r2, "the result does not depend on the order of sets")
    orders = ([1, 0],) if n == 2 else ([0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]) if n == 3 else (
        [3, 2, 1, 0], [1, 2, 3, 0], [2, 0, 3, 1], [0, 2, 1, 3], [3, 0, 1, 2])
    for o in orders:
        h.check(B.tie_breaker(text, [given[i] for i in o]) == r, "the result does not depend on the order of the dialects")


def parsed(U, text, x):
    return list(U.parse_string(text, x))


def tie_three(h):
    """the documented rules for three dialects"""
    B = h.mod("clevercsv.break_ties")
    U = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    text = sample(h)
    e = h.pick(h.cfg.get("escapes", ("", "\\")), "escapechar")
    d = h.cfg.get("delimiter", ",")
    rule = h.pick(("escape", "quote", "delimiter"), "rule")
    if rule == "quote":
        x = [D(d, "", e), D(d, '"', e), D(d, "'", e)]
        r = B.tie_breaker(text, [x[i] for i in h.pick(([0, 1, 2], [1, 2, 0], [2, 0, 1]), "order")])
        p = [parsed(U, text, y) for y in x]
        if p[0] == p[1] and p[1] == p[2]:
            h.check(r == x[0], "no quote character when none has an effect")
            h.reach("no effect")
        elif p[0] != p[1] and p[0] != p[2]:
            h.check(r is None, "no result when every quote character has an effect")
            h.reach("effect")
        else:
            h.check(r is None or r == x[0], "none but the dialect without quote character is chosen")
    elif rule == "escape":
        o = h.pick(tuple(c for c in ("/", "", "\\") if c != e), "other")
        q1, q2, q3 = h.pick((("", "", '"'), ('"', "'", ""), ('"', "", '"'), ("'", '"', '"')), "quotes")
        x = [D(d, q1, e), D(d, q2, e if q1 != q2 else o), D(d, q3, o)]
        if x[1] == x[2]:
            return
        r = B.tie_breaker(text, [x[i] for i in h.pick(([0, 1, 2], [1, 2, 0], [2, 1, 0]), "order")])
        if len(set(y.escapechar for y in x)) == 1:
            return
        quoted = [y for y in x if y.quotechar != ""]
        if len(quoted) == 2:
            h.check(r == B.tie_breaker(text, quoted), "the two dialects with a quote character decide")
            h.reach("two with quotes")
        else:
            h.check(r is None, "no result otherwise")
    else:
        x = [D(d, '"', e), D(";", '"', e), D(d, "", e)]
        h.check(B.tie_breaker(text, x) is None, "no result for different delimiters")
    h.obs(repr(r) if rule != "delimiter" else None)


def tie_four(h):
    """four dialects: ties between neighbours that read the text the same way are broken first"""
    B = h.mod("clevercsv.break_ties")
    U = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    text = sample(h)
    pool = [(q, e) for q in h.cfg["quotes"] for e in ("", "\\")]
    given = []
    for i in range(4):
        k = h.pick(range(len(pool) - (3 - i)), "dialect%d" % i)
        given.append(pool[k])
        pool = pool[k + 1:]
    x = [D(",", q, e) for q, e in sorted(given)]
    r = B.tie_breaker(text, [x[i] for i in h.pick(([0, 1, 2, 3], [2, 0, 3, 1]), "order")])
    tables = [parsed(U, text, y) for y in x]
    kept = []
    seen = [False] * 4
    for i in range(3):
        if tables[i] == tables[i + 1]:
            seen[i] = seen[i + 1] = True
            best = B.tie_breaker(text, [x[i], x[i + 1]])
            if best is not None and best not in kept:
                kept.append(best)
    kept += [x[i] for i in range(4) if not seen[i] and x[i] not in kept]
    if len(kept) == 1:
        h.check(r == kept[0], "the dialect that remains")
    elif len(kept) == 2:
        h.check(r == B.tie_breaker(text, kept), "the tie of the two that remain is broken")
    elif len(kept) == 3:
        h.check(any(r == B.break_ties_three(text, *[kept[i] for i in o]) for o in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))),
                "the tie of the three that remain is broken")
    else:
        h.check(r is None, "no result when no tie can be broken")
    h.check(B.tie_breaker(text, x[:3] + [D(";", x[3].quotechar, x[3].escapechar)]) is None, "no result for different delimiters")
    h.reach("kept %d" % len(kept))
    h.obs(repr(r))


def tie_rules(h):
    """the documented rules for two dialects"""
    B = h.mod("clevercsv.break_ties")
    U = h.mod("clevercsv.cparser_util")
    D = h.mod("clevercsv.dialect").SimpleDialect
    text = sample(h)
    rule = h.pick(h.cfg.get("rules", ("quote", "comma", "dash", "unrelated", "one", "escape", "both")), "rule")
    swap = h.flag("swap")

    def two(a, b):
        return B.tie_breaker(text, [b, a] if swap else [a, b])

    if rule == "quote":
        d, q, e = dialect(h, h.pick(((",", '"', ""), (";", "'", "\\"), ("", '"', "")), "which"))
        a, b = D(d, "", e), D(d, q, e)
        same = list(U.parse_string(text, a)) == list(U.parse_string(text, b))
        r = two(a, b)
        h.check(r == (a if same else b), "no quote character exactly when it has no effect")
        h.reach("no effect" if same else "effect")
    elif rule == "comma":
        q, e = h.pick((("", ""), ('"', ""), ("'", "\\")), "which")
        h.check(two(D(",", q, e), D(" ", q, e)) == D(",", q, e), "comma before space")
    elif rule == "dash":
        q, e = h.pick((("", ""), ('"', ""), ("'", "\\")), "which")
        o = h.text(1, without="-\0", name="other")
        h.check(two(D("-", q, e), D(o, q, e)) == D(o, q, e), "anything before the hyphen")
    elif rule == "unrelated":
        a, b = h.pick((((",", '"', ""), (";", "'", "")), ((",", "", ""), (";", "", "")), ((",", "'", ""), (",", '"', "")),
                       ((",", "'", "\\"), (",", '"', "/")), ((";", "", ""), ("", "", ""))), "which")
        h.check(two(D(*a), D(*b)) is None, "no rule, no result")
    elif rule == "escape":
        d, q, e = h.pick(((",", '"', "\\"), (";", "'", "/"), ("", '"', "\\")), "which")
        a, b = D(d, q, ""), D(d, q, e)
        X = list(U.parse_string(text, a))
        Y = list(U.parse_string(text, b))
        r = two(a, b)
        if [len(x) for x in X] != [len(y) for y in Y]:
            h.check(r is None, "no result for tables of different shape")
            h.reach("shape")
        else:
            u = None
            for x, y in zip(X, Y):
                for c, k in zip(x, y):
                    if u is None and c != k:
                        u = c
            if u is None:
                h.check(r is None, "no result without a difference")
            else:
                n = 0
                for c, k in zip(u, u[1:]):
                    if c == e and k == q:
                        n += 1
                h.check(r == (b if n > 0 and n % 2 == 0 else a), "an escape character that precedes the quote character an even number of times is used")
                h.reach("escape used" if r == b else "escape unused")
    elif rule == "both":
        d, q, e = dialect(h, h.pick(((",", '"', "\\"), (";", "'", "/"), ("", "'", "\\")), "which"))
        a, b = D(d, "", ""), D(d, q, e)
        X = list(U.parse_string(text, a))
        Y = list(U.parse_string(text, b))
        r = two(a, b)
        if [len(x) for x in X] != [len(y) for y in Y]:
            h.check(r is None, "no result for tables of different shape")
        else:
            cells = [c for x, y in zip(X, Y) for c, k in zip(x, y) if c != k]
            if cells:
                h.check(r == (b if all((e + q) in c for c in cells) else None), "escaped quotes in every cell that differs, or no result")
                h.reach("all" if r == b else "not all")
    else:
        h.check(B.tie_breaker(text, [D(",", "", "")] * 5) is None and B.tie_breaker(text, []) is None, "other numbers give none")
    h.obs(rule)


def normal(h):
    """a normal form result is a dialect of a regular table"""
    N = h.mod("clevercsv.normal_form")
    U = h.mod("clevercsv.cparser_util")
    text = sample(h)
    allowed = h.cfg.get("delimiters")
    r = N.detect_dialect_normal(text, delimiters=None if allowed is None else list(allowed))
    want = refscore.normal(text, (",", ";", "|", "\t") if allowed is None else allowed)
    if r is None:
        h.obs(None)
        h.check(want is None, "text in a normal form is recognised")
        h.reach("none")
        return
    h.obs([r.delimiter, r.quotechar, r.escapechar])
    h.check(want is not None, "only text in a normal form is recognised")
    h.check((r.delimiter, r.quotechar, r.escapechar) == want, "the dialect is that of the first form that fits")
    h.check(r.strict is False, "not strict")
    h.reach("delimiter %s" % (r.delimiter or "none"))
    rows = [x for x in U.parse_string(text.rstrip("\r\n"), r)]
    if r.delimiter:
        if r.quotechar == "" or not wrapped(text, r.quotechar):
            h.check(len(set(len(x) for x in rows)) == 1, "the table has rows of one length")
            h.check(len(rows[0]) > 1, "and more than one column")
    else:
        h.check(all(len(x) == 1 for x in rows if x), "one column")


def wrapped(text, q):
    """form 5: every row as a whole is between quotes"""
    for ln in refscore.rows_of(text):
        if not (len(ln) > 2 and ln[0] == q and ln[-1] == q and q not in ln[1:-1]):
            return False
    return True
