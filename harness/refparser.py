"""Reference reading of delimited text, written from the documented rules.

The text arrives in chunks (usually lines).  A record is a sequence of cells
separated by the delimiter and ended by the line ends of its chunk, or by the
end of the chunk; inside quotes, and after an escaped line end, it goes on in
the next chunk.
"""


class Bad(Exception):
    """the text is not acceptable; args[0] says why"""


def cell_of(raw, q, at_end, plain):
    """text of a cell and whether it counts as quoted (a cell that begins with an escaped character never does)"""
    quoted = False
    if plain:
        return "".join(raw), False
    if q and len(raw) >= 2 and raw[0] == q and raw[-1] == q:
        raw, quoted = raw[1:-1], True
    if at_end and q and len(raw) > 0 and raw[0] == q:
        # the closing quote is missing because the text ended
        raw, quoted = raw[1:], True
    return "".join(raw), quoted


class Record:
    def __init__(self, q, limit):
        self.q = q
        self.limit = limit
        self.cells = []
        self.raw = []
        self.plain = False  # the cell begins with an escaped character
        self.inside = False  # between quotes
        self.hold = ""  # the chunk ended in an escape ("esc") or escaped line end ("nl")

    def add(self, c):
        if self.limit is not None and len(self.raw) >= self.limit:
            raise Bad("limit")
        self.raw.append(c)

    def close(self, at_end=False):
        self.cells.append(cell_of(self.raw, self.q, at_end, self.plain))
        self.raw = []
        self.plain = False
        self.inside = False


def read(chunks, d, q, e, strict, limit=None):
    """-> (records, error or None); a record is a list of (cell, quoted)"""
    out = []
    rec = None
    try:
        for chunk in chunks:
            fresh = rec is None
            if fresh:
                rec = Record(q, limit)
            if scan(chunk, rec, fresh, d, q, e, strict):
                out.append(rec.cells)
                rec = None
        if rec is not None:
            if strict:
                raise Bad("end")
            rec.close(at_end=True)
            out.append(rec.cells)
    except Bad as err:
        return out, err.args[0]
    return out, None


def scan(chunk, rec, fresh, d, q, e, strict):
    """read one chunk; True when the record is complete"""
    n = len(chunk)
    if n == 0:
        if fresh:
            return True
        if rec.inside or rec.hold == "nl":
            return False
        rec.close()
        return True
    rec.hold = ""
    i = 0
    while i < n:
        c = chunk[i]
        nxt = chunk[i + 1] if i + 1 < n else ""
        if c == "\0":
            raise Bad("nul")
        if e and c == e:
            i += 2
            if nxt == "":
                if rec.inside:
                    rec.add("\n")
                else:
                    rec.hold = "esc"
                continue
            if nxt == "\0":
                raise Bad("nul")
            if not rec.inside and (nxt == "\r" or nxt == "\n"):
                rec.hold = "nl" if i >= n else ""
            elif nxt != e and not (d and nxt == d) and not (q and nxt == q):
                rec.add(e)  # only these can be escaped
            if len(rec.raw) == 0:
                rec.plain = True
            rec.add(nxt)
            continue
        i += 1
        if q and c == q:
            if rec.inside:
                if nxt == q:
                    i += 1  # a doubled quote stands for one
                    rec.add(c)
                    continue
                if strict and nxt and nxt not in "\r\n\0" and not (d and nxt == d):
                    raise Bad("quote")
            rec.inside = not rec.inside
            rec.add(c)
        elif rec.inside:
            rec.add(c)
        elif d and c == d:
            rec.close()
        elif c == "\r" or c == "\n":
            # the record ends; only further line ends may follow
            if not (fresh and i == 1):
                rec.close()
            for x in chunk[i:]:
                if x == "\0":
                    raise Bad("nul")
                if x != "\r" and x != "\n":
                    raise Bad("newline")
            return True
        else:
            rec.add(c)
    if rec.inside or rec.hold:
        return False
    rec.close()
    return True


def lines(text):
    """the lines of a text with their line ends (\\n, \\r and \\r\\n)"""
    out = []
    start = 0
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        i += 1
        if c == "\n" or c == "\r":
            if c == "\r" and i < n and text[i] == "\n":
                i += 1
            out.append(text[start:i])
            start = i
    if start < n:
        out.append(text[start:])
    return out
