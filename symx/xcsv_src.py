"""Port of CPython 3.12's _csv extension (writer, reader, Dialect), used where the
real one would need concrete text."""

QUOTE_MINIMAL, QUOTE_ALL, QUOTE_NONNUMERIC, QUOTE_NONE, QUOTE_STRINGS, QUOTE_NOTNULL = 0, 1, 2, 3, 4, 5
__version__ = "1.0"
_dialects = {}
_limit = [128 * 1024]


class Error(Exception):
    pass


Error.__module__ = "_csv"
_UNSET = object()


def _get(dialect, name, over):
    if name in over:
        return over[name]
    if dialect is not None:
        return getattr(dialect, name, _UNSET)
    return _UNSET


def _char(name, v, dflt):
    if v is _UNSET:
        return dflt
    if not isinstance(v, str):
        raise TypeError('"%s" must be string, not %s' % (name, type(v).__name__))
    if len(v) != 1:
        raise TypeError('"%s" must be a 1-character string' % name)
    return v


def _char_none(name, v, dflt):
    if v is _UNSET:
        return dflt
    if v is None:
        return None
    if not isinstance(v, str):
        raise TypeError('"%s" must be string or None, not %s' % (name, type(v).__name__))
    if len(v) != 1:
        raise TypeError('"%s" must be a 1-character string' % name)
    return v


class Dialect:
    def __init__(self, dialect=None, **kw):
        for k in kw:
            if k not in ("delimiter", "doublequote", "escapechar", "lineterminator", "quotechar", "quoting",
                         "skipinitialspace", "strict"):
                raise TypeError("%r is an invalid keyword argument for this function" % k)
        if isinstance(dialect, str):
            dialect = get_dialect(dialect)
        self.delimiter = _char("delimiter", _get(dialect, "delimiter", kw), ",")
        v = _get(dialect, "doublequote", kw)
        self.doublequote = True if v is _UNSET else bool(v)
        self.escapechar = _char_none("escapechar", _get(dialect, "escapechar", kw), None)
        v = _get(dialect, "lineterminator", kw)
        if v is _UNSET:
            v = "\r\n"
        if v is not None and not isinstance(v, str):
            raise TypeError('"lineterminator" must be a string')
        self.lineterminator = v
        qc = _get(dialect, "quotechar", kw)
        self.quotechar = _char_none("quotechar", qc, '"')
        q = _get(dialect, "quoting", kw)
        quoting = q
        if q is _UNSET:
            quoting = QUOTE_MINIMAL
        elif type(q) is not int:
            raise TypeError('"quoting" must be an integer')
        self.quoting = quoting
        v = _get(dialect, "skipinitialspace", kw)
        self.skipinitialspace = False if v is _UNSET else bool(v)
        v = _get(dialect, "strict", kw)
        self.strict = False if v is _UNSET else bool(v)
        if not 0 <= quoting <= 5:
            raise TypeError('bad "quoting" value')
        if qc is None and q is _UNSET:
            self.quoting = QUOTE_NONE
        if self.quoting != QUOTE_NONE and self.quotechar is None:
            raise TypeError("quotechar must be set if quoting enabled")
        if self.lineterminator is None:
            raise TypeError("lineterminator must be set")


def _mk(dialect, kw):
    if isinstance(dialect, Dialect) and not kw:
        return dialect
    return Dialect(dialect, **kw)


def register_dialect(name, dialect=None, **kw):
    if not isinstance(name, str):
        raise TypeError("dialect name must be a string")
    _dialects[name] = _mk(dialect, kw)


def unregister_dialect(name):
    if name not in _dialects:
        raise Error("unknown dialect")
    del _dialects[name]


def get_dialect(name):
    if name not in _dialects:
        raise Error("unknown dialect")
    return _dialects[name]


def list_dialects():
    return list(_dialects)


def field_size_limit(*a):
    old = _limit[0]
    if a:
        _limit[0] = a[0]
    return old


class Writer:
    def __init__(self, f, dialect=None, **kw):
        self.dialect = _mk(dialect, kw)
        if not hasattr(f, "write"):
            raise TypeError('argument 1 must have a "write" method')
        self._f = f

    def writerow(self, row):
        d = self.dialect
        try:
            it = iter(row)
        except TypeError:
            raise Error("iterable expected, not %s" % type(row).__name__)
        out = ""
        n = 0
        null = False
        for field in it:
            if d.quoting == QUOTE_NONNUMERIC:
                quoted = not isinstance(field, (int, float))
            elif d.quoting == QUOTE_ALL:
                quoted = True
            elif d.quoting == QUOTE_STRINGS:
                quoted = isinstance(field, str)
            elif d.quoting == QUOTE_NOTNULL:
                quoted = field is not None
            else:
                quoted = False
            null = field is None
            if isinstance(field, str):
                s = field
            elif null:
                s = ""
            else:
                s = str(field)
            out = self._append(out, n, s, quoted, null)
            n += 1
        if n > 0 and len(out) == 0:
            if d.quoting == QUOTE_NONE or (null and d.quoting in (QUOTE_STRINGS, QUOTE_NOTNULL)):
                raise Error("single empty field record must be quoted")
            out = self._append("", 0, "", True, True)
        return self._f.write(out + d.lineterminator)

    def _append(self, out, n, s, quoted, null):
        d = self.dialect
        if n > 0:
            out = out + d.delimiter
        body = ""
        for c in s:
            if (c == d.delimiter or (d.escapechar is not None and c == d.escapechar)
                    or (d.quotechar is not None and c == d.quotechar) or c == "\n" or c == "\r"
                    or c in d.lineterminator):
                esc = False
                if d.quoting == QUOTE_NONE:
                    esc = True
                else:
                    if d.quotechar is not None and c == d.quotechar:
                        if d.doublequote:
                            body = body + d.quotechar
                        else:
                            esc = True
                    elif d.escapechar is not None and c == d.escapechar:
                        esc = True
                    if not esc:
                        quoted = True
                if esc:
                    if d.escapechar is None:
                        raise Error("need to escape, but no escapechar set")
                    body = body + d.escapechar
            body = body + c
        if quoted:
            return out + d.quotechar + body + d.quotechar
        return out + body

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def writer(f, *args, **kw):
    return Writer(f, *args, **kw)


SR, SF, ESC, INF, INQ, ESCQ, QINQ, EAT, AESC = range(9)


class Reader:
    def __init__(self, it, dialect=None, **kw):
        self.dialect = _mk(dialect, kw)
        self.it = iter(it)
        self.line_num = 0

    def __iter__(self):
        return self

    def save(self):
        s = "".join(self.field)
        self.field = []
        if self.numeric:
            self.numeric = False
            s = float(s)
        self.fields.append(s)

    def add(self, c):
        if len(self.field) >= _limit[0]:
            raise Error("field larger than field limit (%d)" % _limit[0])
        self.field.append(c)

    def __next__(self):
        self.fields = []
        self.field = []
        self.state = SR
        self.numeric = False
        d = self.dialect
        while True:
            try:
                line = next(self.it)
            except StopIteration:
                if len(self.field) != 0 or self.state == INQ:
                    if d.strict:
                        raise Error("unexpected end of data")
                    self.save()
                    break
                raise
            if not isinstance(line, str):
                raise Error("iterator should return strings, not %s (the file should be opened in text mode)"
                            % type(line).__name__)
            self.line_num += 1
            for c in line:
                self.step(c)
            self.step(None)
            if self.state == SR:
                break
        return self.fields

    def step(self, c):
        d = self.dialect
        st = self.state
        q, e = d.quotechar, d.escapechar
        nl = c is not None and (c == "\n" or c == "\r")
        eol = c is None
        if st == SR:
            if eol:
                return
            if nl:
                self.state = EAT
                return
            st = self.state = SF
        if st == SF:
            if nl or eol:
                self.save()
                self.state = SR if eol else EAT
            elif q is not None and c == q and d.quoting != QUOTE_NONE:
                self.state = INQ
            elif e is not None and c == e:
                self.state = ESC
            elif c == " " and d.skipinitialspace:
                pass
            elif c == d.delimiter:
                self.save()
            else:
                if d.quoting == QUOTE_NONNUMERIC:
                    self.numeric = True
                self.add(c)
                self.state = INF
            return
        if st == ESC:
            if nl:
                self.add(c)
                self.state = AESC
                return
            if eol:
                c = "\n"
            self.add(c)
            self.state = INF
            return
        if st == AESC:
            if eol:
                return
            st = INF
        if st == INF:
            if nl or eol:
                self.save()
                self.state = SR if eol else EAT
            elif e is not None and c == e:
                self.state = ESC
            elif c == d.delimiter:
                self.save()
                self.state = SF
            else:
                self.add(c)
            return
        if st == INQ:
            if eol:
                pass
            elif e is not None and c == e:
                self.state = ESCQ
            elif q is not None and c == q and d.quoting != QUOTE_NONE:
                if d.doublequote:
                    self.state = QINQ
                else:
                    self.state = INF
            else:
                self.add(c)
            return
        if st == ESCQ:
            if eol:
                c = "\n"
            self.add(c)
            self.state = INQ
            return
        if st == QINQ:
            if not eol and d.quoting != QUOTE_NONE and q is not None and c == q:
                self.add(c)
                self.state = INQ
            elif not eol and c == d.delimiter:
                self.save()
                self.state = SF
            elif nl or eol:
                self.save()
                self.state = SR if eol else EAT
            elif not d.strict:
                self.add(c)
                self.state = INF
            else:
                raise Error("'%s' expected after '%s'" % (d.delimiter, q))
            return
        if st == EAT:
            if nl:
                pass
            elif eol:
                self.state = SR
            else:
                raise Error("new-line character seen in unquoted field - do you need to open the file with newline=''?")


def reader(it, *args, **kw):
    return Reader(it, *args, **kw)
