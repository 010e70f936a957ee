"""The header heuristic."""
from harness.h_score import sample
from harness.h_wrappers import attempt


def kind(cell):
    """the most specific number type a cell converts to, or its length"""
    for name, conv in zip(["int", "float", "complex"], [int, float, complex]):
        r, err = attempt(lambda: conv(cell), ValueError)
        if err is None:
            return name
    return len(cell)


def fits(k, cell):
    conv = [int, float, complex][["int", "float", "complex"].index(k)]
    return attempt(lambda: conv(cell), ValueError)[1] is None


def vote(rows, most):
    first = rows[0]
    n = len(first)
    body = [r for r in rows[1:most + 2] if len(r) == n]
    score = 0
    for i in range(n):
        kinds = [kind(r[i]) for r in body]
        if len(set(kinds)) > 1:
            continue  # not a column of one kind
        if not kinds:
            score += 1
        elif type(kinds[0]) is int:
            score += 1 if len(first[i]) != kinds[0] else -1
        else:
            score += -1 if fits(kinds[0], first[i]) else 1
    return score > 0


def header(h):
    """the first row is a header when the columns below it vote for that"""
    T = h.mod("clevercsv.detect")
    X = h.mod("clevercsv.exceptions")
    text = sample(h)
    dia = T.Detector().detect(text)
    most = h.pick(h.cfg.get("most", (None,)), "max_rows_to_check")
    kw = {} if most is None else {"max_rows_to_check": most}
    got, err = attempt(lambda: T.Detector().has_header(text, **kw), X.NoDetectionResult)
    if dia is None:
        h.check(err is not None, "without a dialect there is an error")
        h.reach("no dialect")
        return
    h.check(err is None, "otherwise there is an answer")
    rows = list(h.mod("clevercsv").reader(h.stringio(text), dia))
    want = vote(rows, 20 if most is None else most) if rows else False
    h.check(got == want, "the answer is the vote of the columns")
    h.check(type(got) is bool, "the answer is True or False")
    h.reach("header" if want else "no header")
    h.obs(got)
