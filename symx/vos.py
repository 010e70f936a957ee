"""Virtual os / tempfile / shutil / hashlib / codecs / chardet over vio.VFS."""
import codecs as _codecs
import hashlib as _hashlib
import importlib
import importlib.util
import code as _code
import codeop as _codeop
import os as _os
import pathlib as _pathlib
import shutil as _shutil
import tempfile as _tempfile

from . import conts, core, pysrc, strs, vio
from .core import Unsupported, boolf, fand, fnot, mkbool
from .iset import ISet
from .strs import SymBytes, SymStr, decide, is_sym, mk, terms


class FBytes:
    """contents of a file holding symbolic text"""

    __hash__ = None

    def __init__(self, t, enc):
        self.t = tuple(t)
        self.enc = vio.norm_enc(enc)

    def __len__(self):
        return len(self.t)

    def __eq__(self, o):
        if isinstance(o, bytes):
            try:
                u = o.decode(self.enc)
                if u.encode(self.enc) != o:
                    return False
            except UnicodeError:
                return False
            return mkbool(strs.seq_eq(self.t, tuple(map(ord, u))))
        if not isinstance(o, FBytes):
            return NotImplemented
        if self.enc == o.enc:
            return mkbool(strs.seq_eq(self.t, o.t))
        asc = ISet.range(0, 127)
        compat = ("utf-8", "ascii", "iso8859-1", "cp1252")
        if self.enc in compat and o.enc in compat:
            a = fand(strs.t_in(x, asc) for x in self.t)
            b = fand(strs.t_in(x, asc) for x in o.t)
            if decide(a) and decide(b):
                return mkbool(strs.seq_eq(self.t, o.t))
            if not decide(a) and not decide(b):
                if "utf-8" in (self.enc, o.enc) and decide(strs.seq_eq(self.t, o.t)):
                    return False  # not of the same length in bytes
                raise Unsupported("comparing differently encoded text")
            return False
        if "utf-16" in (self.enc, o.enc) and ("utf-8" in (self.enc, o.enc) or "ascii" in (self.enc, o.enc)):
            return len(self.t) == 0 and len(o.t) == 0  # the byte order mark is not valid there
        raise Unsupported("comparing differently encoded text")

    def __ne__(self, o):
        return mkbool(fnot(boolf(self == o)))


class Hex(str):
    """digest of known contents"""

    __slots__ = ("d",)


class Digest:
    __hash__ = None

    def __init__(self, name, parts):
        self.name = name
        self.parts = parts

    def key(self, enc=()):
        """the hashed contents as one piece"""
        ps = [p for p in self.parts if len(p)]
        enc = {p.enc for p in ps if isinstance(p, FBytes)} or set(enc)
        if len(enc) > 1:
            raise Unsupported("digest of differently encoded parts")
        enc = enc.pop() if enc else "utf-8"
        out = []
        for p in ps:
            if isinstance(p, FBytes):
                out.extend(p.t)
            else:
                out.extend(map(ord, p.decode(enc)))
        return FBytes(out, enc)

    def __eq__(self, o):
        if isinstance(o, Hex):
            o = o.d
        if not isinstance(o, Digest) or o.name != self.name:
            return False
        if all(isinstance(p, bytes) for p in self.parts + o.parts):
            return b"".join(self.parts) == b"".join(o.parts)
        try:
            a, b = self.key([p.enc for p in o.parts if isinstance(p, FBytes)]), o.key([p.enc for p in self.parts if isinstance(p, FBytes)])
        except UnicodeDecodeError:
            return False
        if not len(a) or not len(b):
            return len(a) == len(b)
        return a == b

    def __ne__(self, o):
        return mkbool(fnot(boolf(self == o)))


class Hasher:
    def __init__(self, name, data=b""):
        self.name = name
        self.parts = []
        self.update(data)

    def update(self, b):
        if len(b):
            self.parts.append(b)

    def _val(self):
        if all(isinstance(p, bytes) for p in self.parts):
            return None
        return Digest(self.name, list(self.parts))

    def hexdigest(self):
        # all digests are compared by content: equal content <=> equal digest
        joined = self.parts
        if all(isinstance(p, bytes) for p in joined):
            r = Hex(_hashlib.new(self.name, b"".join(joined)).hexdigest())
            r.d = Digest(self.name, list(joined))
            return r
        return Digest(self.name, list(joined))

    digest = hexdigest


def install(w, S, Sub):
    def fs():
        return w.fs

    def exists(p):
        f = fs()
        k = f.key(p)
        return k in f.files or isdir(p)

    def lexists(p):
        return islink(p) or exists(p)

    def isfile(p):
        return fs().key(p) in fs().files

    def isdir(p):
        k = fs().key(p)
        return k in (f_root(), "/", "/tmp") or k in fs().dirs or any(x.startswith(k + "/") for x in fs().files)

    def islink(p):
        return fs().key(p, False) in fs().links

    def abspath(p):
        return _os.path.normpath(_os.path.join(f_root(), _os.fspath(p)))

    def readlink(p, **k):
        if not islink(p):
            raise OSError(22, "Invalid argument", p)
        return fs().links[fs().key(p, False)]

    def f_root():
        return vio.VFS.ROOT

    def getsize(p):
        f = fs()
        k = f.key(p)
        if k not in f.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return len(f.files[k].t)

    def same(a, b):
        ka, kb = fs().key(a), fs().key(b)
        for k, p in ((ka, a), (kb, b)):
            if not exists(k):
                raise FileNotFoundError(2, "No such file or directory", p)
        return ka == kb or (ka in fs().files and fs().files[ka] is fs().files.get(kb))

    path = Sub(_os.path, exists=exists, isfile=isfile, isdir=isdir, lexists=lexists, getsize=getsize,
               samefile=same, realpath=lambda p: fs().key(p),
               abspath=abspath, islink=islink)

    def unlink(p, **k):
        f = fs()
        f.fault("unlink")
        kk = f.key(p, False)
        if kk in f.links:
            del f.links[kk]
            return
        if kk not in f.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        del f.files[kk]

    def xdev(ka, kb):
        return core.CUR.opts.get("xdev") and _os.path.dirname(ka) != _os.path.dirname(kb)

    def rename(a, b, **k):
        f = fs()
        f.fault("rename")
        ka, kb = f.key(a, False), f.key(b, False)
        if ka not in f.files and ka not in f.links:
            raise FileNotFoundError(2, "No such file or directory", a)
        if xdev(ka, kb):
            raise OSError(18, "Invalid cross-device link")
        if ka == kb:
            return
        f.links.pop(kb, None)
        f.files.pop(kb, None)
        if ka in f.links:
            f.links[kb] = f.links.pop(ka)
        else:
            f.files[kb] = f.files.pop(ka)

    def fdopen(fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        return fs().open(fd, mode, buffering, encoding, errors, newline)

    def os_close(fd):
        fs().fds.pop(fd)

    class St:
        st_mode = 0o100644
        st_size = 0

    def stat(p, **k):
        f = fs()
        kk = f.key(p)
        if kk not in f.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        s = St()
        s.st_mode = 0o100000 | f.files[kk].mode
        s.st_size = len(f.files[kk].t)
        s.st_dev = 1
        s.st_ino = f.ino_number(f.files[kk])
        s.st_nlink = sum(1 for i in f.files.values() if i is f.files[kk])
        return s

    def chmod(p, m, **k):
        f = fs()
        f.fault("chmod")
        if f.key(p) not in f.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        f.files[f.key(p)].mode = m & 0o7777

    def access(p, m, **k):
        return exists(p) and not (m & _os.X_OK)

    def link(a, b, **k):
        f = fs()
        f.fault("link")
        if f.key(a) not in f.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        if f.key(b) in f.files:
            raise FileExistsError(17, "File exists", a)
        f.files[f.key(b)] = f.files[f.key(a)]

    def blocked(name):
        def call(*a, **k):
            raise Unsupported("os." + name)

        return call

    S["os"] = Sub(_os, path=path, remove=unlink, unlink=unlink, rename=rename, replace=rename, fdopen=fdopen,
                  close=os_close, stat=stat, chmod=chmod, fchmod=chmod, fsync=lambda fd: None, getcwd=lambda: vio.VFS.ROOT, access=access,
                  utime=lambda *a, **k: None, link=link, readlink=readlink,
                  **{n: blocked(n) for n in ("open", "write", "read", "truncate", "ftruncate", "mkdir", "makedirs", "rmdir", "removedirs", "renames", "symlink",
                                             "chown", "fchown", "lchown", "listdir", "scandir", "walk", "system", "popen", "kill", "killpg", "fork",
                                             "chdir", "chroot", "lseek", "sendfile", "copy_file_range", "mkfifo", "mknod", "setxattr", "lstat", "fstat")})
    S["os.path"] = path

    class VPath(_pathlib.PurePosixPath):
        """a path in the virtual file system"""

        __slots__ = ()

        @classmethod
        def cwd(cls):
            return cls(f_root())

        def exists(self, **k):
            return exists(self)

        def is_file(self, **k):
            return isfile(self)

        def is_dir(self, **k):
            return isdir(self)

        def is_symlink(self):
            return islink(self)

        def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
            return fs().open(self, mode, buffering, encoding, errors, newline)

        def read_text(self, encoding=None, errors=None, newline=None):
            with self.open("r", encoding=encoding, errors=errors, newline=newline) as fp:
                return fp.read()

        def write_text(self, data, encoding=None, errors=None, newline=None):
            with self.open("w", encoding=encoding, errors=errors, newline=newline) as fp:
                return fp.write(data)

        def read_bytes(self):
            with self.open("rb") as fp:
                return fp.read()

        def unlink(self, missing_ok=False):
            try:
                unlink(self)
            except FileNotFoundError:
                if not missing_ok:
                    raise

        def rename(self, target):
            rename(self, target)
            return type(self)(target)

        replace = rename

        def stat(self, **k):
            return stat(self)

        def chmod(self, mode, **k):
            chmod(self, mode)

        def resolve(self, strict=False):
            return type(self)(fs().key(self))

        def absolute(self):
            return type(self)(f_root(), self)

        def samefile(self, other):
            return same(self, other)

        def readlink(self):
            return type(self)(readlink(self))

        def hardlink_to(self, target):
            link(target, self)

        def __getattr__(self, name):
            if hasattr(_pathlib.Path, name):
                raise Unsupported("pathlib.Path." + name)
            raise AttributeError(name)

    S["pathlib"] = Sub(_pathlib, Path=VPath, PosixPath=VPath)

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        f = fs()
        f.fault("mkstemp")
        f.ntmp += 1
        name = _os.path.join(_os.fspath(dir) if dir else "/tmp", "%s%08d%s" % (prefix or "tmp", f.ntmp, suffix or ""))
        k = f.key(name)
        f.files[k] = vio.Inode()
        f.files[k].mode = 0o600
        fd = 1000 + f.ntmp
        f.fds[fd] = k
        return fd, name

    def NamedTemporaryFile(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                           delete=True, **kw):
        fd, name = mkstemp(suffix, prefix, dir)
        h = fs().open(name, mode, encoding=encoding, newline=newline)
        if delete:
            orig = h.close

            def close():
                if not h.closed:
                    orig()
                    fs().files.pop(fs().key(name), None)

            h.close = close
        return h

    S["tempfile"] = Sub(_tempfile, mkstemp=mkstemp, NamedTemporaryFile=NamedTemporaryFile, gettempdir=lambda: "/tmp")

    def copyfile(a, b, **k):
        f = fs()
        ka, kb = f.key(a), f.key(b)
        if ka not in f.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        if ka == kb:
            raise _shutil.SameFileError("%r and %r are the same file" % (a, b))
        if kb not in f.files:
            f.files[kb] = vio.Inode()
        f.files[kb].t = []
        f.fault("copy")
        f.files[kb].t = list(f.files[ka].t)
        f.files[kb].enc = f.files[ka].enc
        return b

    def move(a, b, **k):
        f = fs()
        if isdir(b):
            b = _os.path.join(_os.fspath(b), _os.path.basename(_os.fspath(a)))
        ka, kb = f.key(a, False), f.key(b, False)
        if ka in f.files and xdev(ka, kb):
            f.fault("rename")
            copyfile(a, b)
            f.files[kb].mode = f.files[ka].mode
            unlink(a)
        else:
            rename(a, b)
        return b

    S["shutil"] = Sub(_shutil, move=move, copy=copyfile, copyfile=copyfile, copy2=copyfile,
                      copymode=lambda a, b, **k: chmod(b, fs().files[fs().key(a)].mode),
                      copystat=lambda a, b, **k: chmod(b, fs().files[fs().key(a)].mode))

    S["hashlib"] = Sub(_hashlib, sha1=lambda d=b"", **k: Hasher("sha1", d), sha256=lambda d=b"", **k: Hasher("sha256", d),
                       md5=lambda d=b"", **k: Hasher("md5", d), sha512=lambda d=b"", **k: Hasher("sha512", d),
                       new=lambda n, d=b"", **k: Hasher(n, d))

    def decode(b, encoding="utf-8", errors="strict"):
        if isinstance(b, SymBytes):
            return b.decode(encoding, errors)
        return _codecs.decode(b, encoding, errors)

    def encode(s, encoding="utf-8", errors="strict"):
        if is_sym(s):
            return SymBytes(s, encoding, errors)
        return _codecs.encode(s, encoding, errors)

    S["codecs"] = Sub(_codecs, decode=decode, encode=encode,
                      open=lambda f, mode="r", encoding=None, errors="strict", buffering=-1: fs().open(
                          f, mode.replace("b", ""), encoding=encoding, newline=""))

    class Detector:
        """stand-in for the encoding detector: reports the file's own encoding"""

        def __init__(self, *a, **k):
            self.done = False
            self.result = {"encoding": None}
            self.enc = None

        def feed(self, b):
            p = core.cur()
            if p is not None and p.opts.get("detected"):
                self.enc = p.opts["detected"]
                return
            e = getattr(b, "enc", None)
            if e:
                self.enc = e
            elif isinstance(b, bytes) and b:
                self.enc = self.enc or "utf-8"

        def close(self):
            self.result = {"encoding": self.enc}
            return self.result

        def reset(self):
            self.__init__()

    def detector(package):
        def make(*a, **k):
            p = core.cur()
            c = (p.opts.get("detectors") or {}).get(package) if p is not None else None
            return (c or Detector)(*a, **k)

        return make

    try:
        chardet = importlib.import_module("chardet")
    except ImportError:
        chardet = _codecs
    S["chardet"] = Sub(chardet, UniversalDetector=detector("chardet"))
    S["faust_cchardet"] = S["cchardet"] = Sub(_codecs, UniversalDetector=detector("cchardet"), __name__="cchardet", __version__="2.1.19")

    class Console:
        """stand-in for interactive sessions: runs what is pushed"""

        def __init__(self, locals=None, filename="<console>", local_exit=False):
            self.locals = {"__name__": "__console__", "__doc__": None} if locals is None else locals
            self.ns = None
            self.buffer = []

        def push(self, line):
            from . import loader

            self.buffer.append(line)
            lits, src = pysrc.split(strs.lift("\n").join(self.buffer))
            try:
                more = _codeop.compile_command(src, "<console>", "exec" if "\n" in line else "single") is None
            except (OverflowError, SyntaxError, ValueError):
                self.buffer = []
                return False
            if more:
                return True
            self.buffer = []
            if self.ns is None:
                self.ns = dict(self.locals, __builtins__=w.builtins)
            self.ns["_lit"] = lits
            try:
                exec(loader.transform(src, "<console>"), self.ns)
            except Exception:
                pass
            self.locals.update({k: v for k, v in self.ns.items() if k not in ("_lit", "__builtins__")})
            return False

        def resetbuffer(self):
            self.buffer = []

        def interact(self, banner=None, exitmsg=None):
            core.cur().opts.setdefault("sessions", []).append((self.locals, banner))

    S["code"] = Sub(_code, InteractiveConsole=Console)

    real_import = importlib.import_module
    _resolve_name = importlib.util.resolve_name

    def import_module(name, package=None):
        if name.startswith("."):
            name = _resolve_name(name, package)
        if name.startswith("clevercsv") or name in S or name in w.stubs or name in ("pandas", "tabview"):
            return w.get(name)
        return real_import(name, package)

    S["importlib"] = Sub(importlib, import_module=import_module)

    import copy as _copy

    S["copy"] = Sub(_copy)
    import operator as _op

    S["operator"] = Sub(_op, eq=strs.sx_eq, ne=strs.sx_ne, contains=lambda c, x: strs.sx_in(x, c),
                        mod=lambda a, b: strs.fmt_mod(a, b) if strs.is_str(a) else a % b)
