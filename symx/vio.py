"""Text streams and a virtual file system over symbolic text."""
import os as _os
import weakref

from . import core
from .core import Unsupported
from .iset import ISet
from .strs import SymStr, decide, is_str, mk, t_eq, terms

CR, LF = 13, 10


def split_lines(t, pos, mode):
    """end index of the line starting at pos"""
    n = len(t)
    i = pos
    while i < n:
        x = t[i]
        if mode == "":
            if decide(t_eq(x, LF)):
                return i + 1
            if decide(t_eq(x, CR)):
                if i + 1 < n and decide(t_eq(t[i + 1], LF)):
                    return i + 2
                return i + 1
            i += 1
        elif mode in (None, "\n"):
            i += 1
            if decide(t_eq(x, LF)):
                return i
        elif mode == "\r":
            i += 1
            if decide(t_eq(x, CR)):
                return i
        else:
            if i + 1 < n and decide(t_eq(x, CR)) and decide(t_eq(t[i + 1], LF)):
                return i + 2
            i += 1
    return n


def translate(t):
    out = []
    i = 0
    while i < len(t):
        if decide(t_eq(t[i], CR)):
            out.append(LF)
            if i + 1 < len(t) and decide(t_eq(t[i + 1], LF)):
                i += 1
        else:
            out.append(t[i])
        i += 1
    return out


class UnsupportedOperation(OSError, ValueError):
    pass


class TextBase:
    newline = ""

    def __init__(self, t, newline):
        if newline not in (None, "", "\n", "\r", "\r\n"):
            raise ValueError("illegal newline value: %r" % (newline,))
        self.newline = newline
        self.buf = list(t)
        self.pos = 0
        self.closed = False
        self.line_buffering = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def read(self, n=-1):
        self._chk()
        self._rd()
        if n is None or n < 0:
            n = len(self.buf)
        r = self.buf[self.pos : self.pos + n]
        self.pos = min(len(self.buf), self.pos + len(r)) if self.pos < len(self.buf) else self.pos
        return mk(r)

    def readline(self, size=-1):
        self._chk()
        self._rd()
        if self.pos >= len(self.buf):
            return ""
        e = split_lines(self.buf, self.pos, self.newline)
        if size is not None and size >= 0:
            e = min(e, self.pos + size)
        r = self.buf[self.pos : e]
        self.pos = e
        return mk(r)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        self._chk()
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def write(self, s):
        self._chk()
        self._wr()
        if not is_str(s):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        t = list(terms(s))
        n = len(t)
        t = self._wtrans(t)
        if self.pos > len(self.buf):
            self.buf.extend([0] * (self.pos - len(self.buf)))
        self.buf[self.pos : self.pos + len(t)] = t
        self.pos += len(t)
        return n

    def _wtrans(self, t):
        return t

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, p, whence=0):
        self._chk()
        if whence == 1:
            p = self.pos
        elif whence == 2:
            p = len(self.buf)
        if p < 0:
            raise ValueError("Negative seek position %d" % p)
        self.pos = p
        return p

    def tell(self):
        self._chk()
        return self.pos

    def truncate(self, n=None):
        self._chk()
        if n is None:
            n = self.pos
        del self.buf[n:]
        return n

    def flush(self):
        self._chk()

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def _rd(self):
        pass

    def _wr(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise UnsupportedOperation("fileno")


class StringIO(TextBase):
    def __init__(self, initial_value="", newline="\n"):
        if initial_value is None:
            initial_value = ""
        if not is_str(initial_value):
            raise TypeError("initial_value must be str or None, not %s" % type(initial_value).__name__)
        t = list(terms(initial_value))
        if newline is None:
            t = translate(t)
        TextBase.__init__(self, t, newline)

    def getvalue(self):
        self._chk()
        return mk(self.buf)

    def _wtrans(self, t):
        if self.newline is None:
            return translate(t)
        if self.newline in ("\r", "\r\n"):
            raise Unsupported("StringIO newline translation")
        return t


class Inode:
    __slots__ = ("t", "enc", "mode")

    def __init__(self, t=(), enc="utf-8"):
        self.t = list(t)
        self.enc = enc
        self.mode = 0o644


def norm_enc(e):
    import codecs

    if e is None:
        return "utf-8"
    return codecs.lookup(e).name


class File(TextBase):
    def __init__(self, fs, name, ino, mode, newline, encoding, errors=None):
        self.fs = fs
        self.name = name
        self.ino = ino
        self.mode = mode
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        fs.seen.add(self)
        self.r = "r" in mode or "+" in mode
        self.w = any(c in mode for c in "wax+")
        self.dirty = False
        t = ino.t
        # bytes that are no text in the encoding of the file are U+DC80 to U+DCFF here
        self.bad = self.r and any(type(x) is int and 0xDC80 <= x <= 0xDCFF for x in t)
        if self.bad and self.w:
            raise Unsupported("update of a file that is no text")
        if self.bad and self.errors != "strict":
            if self.errors not in UNDECODABLE:
                raise Unsupported("errors=%r" % self.errors)
            self.bad = False
            t = [y for x in t for y in (UNDECODABLE[self.errors](x) if type(x) is int and 0xDC80 <= x <= 0xDCFF else (x,))]
        if self.r and ino.t and norm_enc(encoding) != norm_enc(ino.enc):
            ascii_like = ("utf-8", "ascii", "iso8859-1", "cp1252", "latin-1")
            a, b = norm_enc(encoding), norm_enc(ino.enc)
            simple = all(type(x) is int and 0 <= x < 128 for x in ino.t)
            if not (simple and a in ascii_like and b in ascii_like):
                raise UnicodeDecodeError(a, b"?", 0, 1, "stored text is encoded as %s" % b)
        if newline is None and self.r:
            t = translate(t)
        TextBase.__init__(self, t if (self.r or "a" in mode) else [], newline)
        if "a" in mode:
            self.pos = len(self.buf)
        if self.w:
            fs.open_files.append(self)

    def _rd(self):
        if not self.r:
            raise UnsupportedOperation("not readable")
        if self.bad:
            # the texts are shorter than a block of the decoder
            if len(self.buf) > 8000:
                raise Unsupported("long file that is no text")
            raise UnicodeDecodeError(norm_enc(self.encoding), b"?", 0, 1, "invalid byte")

    def _wr(self):
        if not self.w:
            raise UnsupportedOperation("not writable")
        self.fs.fault("write")
        self.dirty = True

    def _wtrans(self, t):
        if self.newline in (None, "", "\n"):
            lim = {"ascii": 0x80, "iso8859-1": 0x100}.get(norm_enc(self.encoding))
            if any(type(x) is int and 0xDC80 <= x <= 0xDCFF for x in t):
                if self.errors == "surrogateescape" and all(type(x) is int for x in t):
                    return t
                raise UnicodeEncodeError(self.encoding, "?", 0, 1, "surrogates not allowed")
            if lim and self.errors != "strict":
                if self.errors not in ("replace", "ignore"):
                    raise Unsupported("errors=%r" % self.errors)
                return [x if ok else 63 for x, ok in ((x, decide(_below(x, lim))) for x in t) if ok or self.errors == "replace"]
            if lim and not decide(core.fand(_below(x, lim) for x in t)):
                raise UnicodeEncodeError(self.encoding, "?", 0, 1, "ordinal not in range(%d)" % lim)
            return t
        out = []
        for x in t:
            if decide(t_eq(x, LF)):
                out.extend(map(ord, self.newline))
            else:
                out.append(x)
        return out

    def truncate(self, n=None):
        self.dirty = True
        return TextBase.truncate(self, n)

    def commit(self):
        if self.dirty:
            self.ino.t = list(self.buf)
            self.ino.enc = self.encoding
            self.dirty = False

    def flush(self):
        self._chk()
        self.commit()

    def close(self):
        if not self.closed:
            self.commit()
            self.closed = True
            if self in self.fs.open_files:
                self.fs.open_files.remove(self)
                self.fs.fault("close")


def _below(x, lim):
    from .strs import t_in

    return t_in(x, ISet.range(0, lim - 1))


UNDECODABLE = {"replace": lambda x: (0xFFFD,), "ignore": lambda x: (), "surrogateescape": lambda x: (x,),
               "backslashreplace": lambda x: tuple(map(ord, "\\x%02x" % (x - 0xDC00)))}


class BinFile:
    """binary view of an encoded file (opaque bytes)"""

    def __init__(self, fs, name, ino):
        self.ino = ino
        self.name = name
        self.pos = 0
        self.closed = False
        self.known = self.ascii = None
        fs.seen.add(self)

    def _bytes(self):
        if any(type(x) is not int or x < 0 for x in self.ino.t):
            raise Unsupported("bytes of symbolic text")
        return "".join(map(chr, self.ino.t)).encode(self.ino.enc, "surrogateescape")

    def read(self, n=-1):
        t = self.ino.t
        if self.known is None:
            self.known = all(type(x) is int and x >= 0 for x in t)
        if not self.known:
            from .vos import FBytes

            if n is not None and 0 <= n < len(t):
                # blocks: only where bytes and characters are the same
                if self.ascii is None:
                    self.ascii = norm_enc(self.ino.enc) in ("utf-8", "ascii", "iso8859-1", "cp1252") and decide(
                        core.fand(_below(x, 128) for x in t if not (type(x) is int and 0 <= x < 128)))
                if not self.ascii:
                    raise Unsupported("blocks of symbolic text")
                r = t[self.pos : self.pos + n]
                self.pos += len(r)
                return FBytes(r, self.ino.enc) if r else b""
            if self.pos >= max(1, len(t)):
                return b""
            r = t[self.pos :]
            self.pos = max(1, len(t))
            return FBytes(r, self.ino.enc)
        b = self._bytes()[self.pos :]
        if n is not None and n >= 0:
            b = b[:n]
        self.pos += len(b)
        return b

    def __iter__(self):
        for ln in self._bytes().splitlines(True):
            yield ln

    def tell(self):
        if self.pos and self.known is False and not self.ascii:
            raise Unsupported("position in encoded text")
        return self.pos

    def seek(self, p, whence=0):
        if p or whence:
            raise Unsupported("seek in a binary file")
        self.pos = 0
        return 0

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VFS:
    ROOT = "/vfs"

    def __init__(self):
        self.files = {}
        self.links = {}
        self.inos = []
        self.dirs = set()
        self.open_files = []
        self.seen = weakref.WeakSet()
        self.fds = {}
        self.ntmp = 0
        self.ops = 0
        self.fault_at = None
        self.fault_op = None
        self.snap = None
        self.armed = False
        self.log = []

    def fault(self, op, before=None):
        """a write-side operation: where asked for, it fails or the process stops here"""
        if not self.armed:
            return
        self.ops += 1
        p = core.CUR
        if p.opts.get("io_faults") and self.fault_at is None and p.choose(2):
            self.fault_at = self.ops
            self.fault_op = op
            p.notes.append(("io_fault", self.ops, op))
            if before:
                before()
            raise OSError(28, "No space left on device")
        if p.opts.get("io_crash") and self.snap is None and p.choose(2):
            self.snap = {k: (list(i.t), i.enc, i.mode) for k, i in self.files.items()}
            self.snap_links = dict(self.links)
            p.notes.append(("io_crash", self.ops, op))

    def key(self, path, follow=True):
        if isinstance(path, int):
            return self.fds[path]
        path = _os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        if not isinstance(path, str):
            raise Unsupported("symbolic path")
        path = _os.path.join(self.ROOT, path)
        if not self.links:
            return _os.path.normpath(path)
        out = []
        parts = path.split("/")
        left = 20
        while parts:
            c = parts.pop(0)
            if c == "..":
                if out:
                    out.pop()
            elif c and c != ".":
                out.append(c)
                k = "/" + "/".join(out)
                if k in self.links and (follow or parts):
                    left -= 1
                    if not left:
                        raise OSError(40, "Too many levels of symbolic links")
                    t = self.links[k]
                    out = [] if t.startswith("/") else out[:-1]
                    parts = t.split("/") + parts
        return "/" + "/".join(out)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        k = self.key(file)
        if "b" in mode:
            if "w" in mode or "a" in mode or "+" in mode:
                raise Unsupported("binary write")
            if k not in self.files:
                raise FileNotFoundError(2, "No such file or directory", file)
            return BinFile(self, file, self.files[k])
        if encoding is not None:
            norm_enc(encoding)
        if "x" in mode and k in self.files:
            raise FileExistsError(17, "File exists", file)
        if "r" in mode:
            if k not in self.files:
                raise FileNotFoundError(2, "No such file or directory", file)
        else:
            self.fault("open")
            if k not in self.files:
                self.files[k] = Inode()
        ino = self.files[k]
        if "w" in mode:
            ino.t = []
        return File(self, file, ino, mode, newline, encoding, errors)

    def ino_number(self, ino):
        for i, x in enumerate(self.inos):
            if x is ino:
                return i + 11
        self.inos.append(ino)
        return len(self.inos) + 10

    def settle(self):
        for f in list(self.open_files):
            f.commit()
