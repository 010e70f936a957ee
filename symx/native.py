"""Replay server: runs a harness on concrete inputs against the compiled package.

usage: native.py TARGET_DIR HARNESS_DIR      (requests: JSON lines on stdin)

Every request runs in a forked child inside its own scratch directory.
"""
import builtins
import errno
import io
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


def freeze(x):
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[freeze(k), freeze(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return [freeze(y) for y in x]
    if x is None or type(x) in (bool, int, float, str):
        return x
    if isinstance(x, str):
        return str(x)
    return "<%s>" % type(x).__name__


class NatH:
    symbolic = False

    def __init__(self, cfg, inputs):
        self.cfg = cfg
        self.inputs = list(inputs)
        self.pos = 0
        self.observed = []
        self.reached = []
        self.out = None

    def _next(self, kind, name):
        if self.pos >= len(self.inputs):
            raise AssumeFailed("out of inputs at %s" % name)
        e = self.inputs[self.pos]
        self.pos += 1
        if e[0] != kind or e[1] != name:
            raise AssumeFailed("input mismatch: %r vs %r" % (e, (kind, name)))
        return e[2]

    def text(self, n, only=None, without=None, name="text"):
        r = "".join(map(chr, self._next("t", name)))
        self.assume(not without or not any(c in without for c in r))
        return r

    def pick(self, options, name="pick"):
        return list(options)[self._next("p", name)]

    def flag(self, name="flag"):
        return self.pick((False, True), name)

    def text_upto(self, n, only=None, without=None, name="text", least=0):
        k = self.pick(range(n, least - 1, -1), name + ".len")
        return self.text(k, only, without, name)

    def assume(self, c):
        if not c:
            raise AssumeFailed("assumption")

    def check(self, c, label):
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def reach(self, label):
        self.reached.append(label)

    def obs(self, x):
        self.observed.append(freeze(x))

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def opt(self, name, value):
        pass

    def detected_encoding(self, enc):
        import importlib

        class Detector:
            def __init__(self, *a, **k):
                self.done = False
                self.result = {"encoding": None}

            def feed(self, b):
                self.result = {"encoding": enc}

            def reset(self):
                self.__init__()

            def close(self):
                return self.result

        for n in ("chardet", "chardet.universaldetector", "cchardet", "faust_cchardet", "clevercsv.encoding"):
            try:
                m = importlib.import_module(n)
            except ImportError:
                continue
            if hasattr(m, "UniversalDetector"):
                m.UniversalDetector = Detector

    def write_file(self, name, text, encoding="utf-8"):
        # U+DC80 to U+DCFF are bytes that are no text
        with _open(name, "w", newline="", encoding=encoding, errors="surrogateescape") as f:
            f.write(text)
        return name

    def read_file(self, name, encoding="utf-8"):
        import gc

        gc.collect()
        with _open(name, "rb") as f:
            try:
                return f.read().decode(encoding, "surrogateescape")
            except UnicodeError:
                return ("stored as", None)

    def exists(self, name):
        return os.path.exists(name)

    def open_files(self):
        import gc

        gc.collect()
        here = os.path.realpath(".") + "/"
        fds = "/proc/self/fd/"
        n = 0
        for x in os.listdir(fds):
            try:
                n += os.readlink(fds + x).startswith(here)
            except OSError:
                pass
        return n

    def listing(self):
        return sorted(all_files())

    def mkdir(self, name):
        os.mkdir(name)

    def symlink(self, target, name):
        os.symlink(target, name)

    def hardlink(self, target, name):
        os.link(target, name)

    def is_link(self, name):
        return os.path.islink(name)

    def leftovers(self):
        return len(os.listdir(tempfile.tempdir))

    def mode(self, name):
        return os.stat(name).st_mode & 0o7777

    def set_mode(self, name, m):
        os.chmod(name, m)

    def stub(self, name, names):
        import types

        m = types.ModuleType(name)
        m.__dict__.update(names)
        sys.modules[name] = m

    def restart(self):
        for n in list(sys.modules):
            if n.startswith("clevercsv") and not hasattr(sys.modules[n], "__file__") or (
                    n.startswith("clevercsv") and str(sys.modules[n].__file__).endswith(".py")):
                del sys.modules[n]

    def missing(self, name):
        sys.modules[name] = None

    def detector(self, package, cls):
        import importlib

        for n in {"chardet": ("chardet", "chardet.universaldetector"), "cchardet": ("cchardet", "faust_cchardet")}[package]:
            try:
                importlib.import_module(n).UniversalDetector = cls
            except ImportError:
                pass

    def bytes_of(self, parts):
        return b"".join(parts).decode("ascii")

    def set_argv(self, argv):
        sys.argv = list(argv)

    def sessions(self):
        import code

        out = []

        def interact(con, banner=None, exitmsg=None):
            out.append((con.locals, banner))

        def write(con, data):
            self.errors = getattr(self, "errors", "") + data

        code.InteractiveConsole.interact = interact
        code.InteractiveConsole.write = write
        return out

    def run_code(self, code, names=None):
        g = {"__name__": "__generated__"}
        g.update(names or {})
        exec(compile(code, "<generated>", "exec"), g)
        return g

    def arm(self):
        self.faults = install_faults(self.req)

    def disarm(self):
        self.faults.armed = False

    def fault_op(self):
        return self.faults.op

    def crashed(self, name):
        s = self.faults.snap
        if s is None:
            return None
        if name not in s:
            return ("no file",)
        return s[name].decode()

    def crashed_mode(self, name):
        return self.faults.modes[name]

    def stdout(self):
        return self.out.getvalue()

    def stringio(self, text, newline=""):
        return io.StringIO(text, newline=newline)

    def machine_finish(self):
        pass

    def ordinary(self, s, label):
        """s is an exact str in its canonical representation"""
        t = "".join([chr(ord(c)) for c in s])
        if type(s) is not str or s != t or hash(s) != hash(t) or sys.getsizeof(s) != sys.getsizeof(t) or s.isascii() != t.isascii():
            raise CheckFailed(label)


_open = builtins.open


def all_files():
    out = []
    for top, dirs, files in os.walk("."):
        out += [os.path.relpath(os.path.join(top, n), ".") for n in files + [d for d in dirs if os.path.islink(os.path.join(top, d))]]
    return out


class Faults:
    """raises OSError at the k-th write-side file operation"""

    def __init__(self):
        self.k = 0
        self.crash = 0
        self.n = 0
        self.op = None
        self.snap = None
        self.armed = True

    def hit(self, op):
        if not self.armed:
            return
        self.n += 1
        if self.n == self.k:
            self.op = op
            raise OSError(errno.ENOSPC, "No space left on device")
        if self.n == self.crash:
            self.snap = {}
            self.modes = {}
            for n in all_files():
                with _open(n, "rb") as f:
                    self.snap[n] = f.read()
                self.modes[n] = os.stat(n).st_mode & 0o7777


class FaultFile:
    def __init__(self, f, faults):
        self.__dict__["_f"] = f
        self.__dict__["_x"] = faults

    def write(self, s):
        self._x.hit("write")
        return self._f.write(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        self._f.__enter__()
        return self

    def close(self):
        if not self._f.closed:
            self._f.close()
            self._x.hit("close")

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)


def install_faults(req):
    x = Faults()
    for nt in req.get("notes") or []:
        if nt[0] == "io_fault":
            x.k = nt[1]
        if nt[0] == "io_crash":
            x.crash = nt[1]
    xdev = (req.get("opts") or {}).get("xdev")
    real_fdopen = os.fdopen
    inside = []

    def wopen(file, mode="r", *a, **kw):
        if inside:
            return _open(file, mode, *a, **kw)
        w = any(c in mode for c in "wax+")
        if w:
            x.hit("open")
        f = _open(file, mode, *a, **kw)
        return FaultFile(f, x) if w else f

    def fdopen(fd, mode="r", *a, **kw):
        w = any(c in mode for c in "wax+")
        if w:
            x.hit("open")
        inside.append(fd)
        try:
            f = real_fdopen(fd, mode, *a, **kw)
        finally:
            inside.pop()
        return FaultFile(f, x) if w else f

    def wrap(mod, name, op):
        real = getattr(mod, name)

        def call(*a, **kw):
            x.hit(op)
            if op == "rename" and apart(*a[:2]):
                raise OSError(errno.EXDEV, "Invalid cross-device link")
            return real(*a, **kw)

        setattr(mod, name, call)

    def apart(a, b):
        return xdev and os.path.dirname(os.path.realpath(a)) != os.path.dirname(os.path.realpath(b))

    builtins.open = wopen
    io.open = wopen
    os.fdopen = fdopen
    wrap(os, "chmod", "chmod")
    wrap(os, "link", "link")
    for n in ("unlink", "remove"):
        wrap(os, n, "unlink")
    for n in ("rename", "replace"):
        wrap(os, n, "rename")
    real_mk = tempfile.mkstemp

    def mkstemp(*a, **kw):
        x.hit("mkstemp")
        return real_mk(*a, **kw)

    tempfile.mkstemp = mkstemp

    def move(a, b, *r, **kw):
        if apart(a, b):
            x.hit("rename")
            shutil.copy2(a, b)
            os.unlink(a)
            return b
        x.hit("rename")
        x.armed = False
        try:
            return real_move(a, b, *r, **kw)
        finally:
            x.armed = True

    real_move = shutil.move
    shutil.move = move
    for n in ("copy", "copyfile", "copy2"):
        def mk(real):
            def call(a, b, *r, **kw):
                with _open(b, "w"):
                    pass
                x.hit("copy")
                x.armed = False
                try:
                    return real(a, b, *r, **kw)
                finally:
                    x.armed = True
            return call
        setattr(shutil, n, mk(getattr(shutil, n)))
    return x


def run_one(req, harness_dir):
    res = {}
    h = NatH(req["cfg"], req["inputs"])
    h.req = req
    try:
        mod, fn = req["fn"].split(":")
        sys.path.insert(0, os.path.dirname(harness_dir))
        import importlib

        m = importlib.import_module("harness." + mod)
        h.out = io.StringIO(newline="")
        for n in req.get("preload", ()):
            importlib.import_module(n)
        real = sys.stdout
        sys.stdout = h.out
        notes = req.get("notes") or []
        for nt in notes:
            if nt[0] == "alloc_fail":
                os.environ["SX_FAIL_AT"] = str(nt[1])
        try:
            fnc = getattr(m, fn)
            if req.get("leak"):
                res["leak"] = leak_run(fnc, req)
            else:
                fnc(h)
        finally:
            sys.stdout = real
        res["ok"] = True
    except CheckFailed as e:
        res["failed"] = str(e)
    except AssumeFailed as e:
        res["assume"] = str(e)
    except BaseException as e:
        import traceback

        res["failed"] = "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
        res["trace"] = traceback.format_exc()[-1500:]
        res["exc"] = type(e).__name__
    res["obs"] = h.observed
    res["reached"] = h.reached
    return res


def leak_run(fnc, req):
    """growth of live memory per repetition"""
    import ctypes
    import gc

    class MI(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in (
            "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]

    lib = ctypes.CDLL(None)
    lib.mallinfo2.restype = MI
    lib.getenv.restype = ctypes.c_char_p

    def go(n):
        for _ in range(n):
            ctr = lib.getenv(b"SX_CTR")
            if ctr:
                ctypes.c_long.from_address(int(ctr, 16)).value = 0
            h = NatH(req["cfg"], req["inputs"])
            h.out = sys.stdout
            try:
                fnc(h)
            except CheckFailed:
                pass
        del h
        gc.collect()
        return sys.getallocatedblocks(), lib.mallinfo2().uordblks, refs()

    def refs():
        import importlib

        out = 0
        for n in ("clevercsv.cparser", "clevercsv.cabstraction"):
            out += sys.getrefcount(importlib.import_module(n))
        out += sum(sys.getrefcount(getattr(importlib.import_module("clevercsv.cparser"), x)) for x in ("Parser", "Error"))
        return out

    go(50)
    a = go(400)
    b = go(400)
    c = go(400)
    d = [(y - x, z - y) for x, y, z in zip(a, b, c)]
    # a leak grows by at least one unit per repetition in both halves
    if d[0][0] >= 390 and d[0][1] >= 390:
        raise CheckFailed("leak: %d blocks over 400 repetitions" % d[0][1])
    if d[1][0] >= 390 * 8 and d[1][1] >= 390 * 8:
        raise CheckFailed("leak: %d heap bytes over 400 repetitions" % d[1][1])
    if d[2][0] >= 390 and d[2][1] >= 390:
        raise CheckFailed("leak: %d references over 400 repetitions" % d[2][1])
    return [list(a), list(b), list(c)]


def main():
    target, harness_dir = sys.argv[1:3]
    sys.path.insert(0, target)
    sys.setrecursionlimit(5000)
    import clevercsv  # noqa: F401

    assert os.path.realpath(clevercsv.__file__).startswith(os.path.realpath(target)), clevercsv.__file__
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    for line in sys.stdin:
        req = json.loads(line)
        tmp = tempfile.mkdtemp(prefix="sxn")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                null = os.open("/dev/null", os.O_RDONLY)
                os.dup2(null, 0)
                out = os.open(os.path.join(tmp, ".out"), os.O_CREAT | os.O_WRONLY)
                err = os.open(os.path.join(tmp, ".err"), os.O_CREAT | os.O_WRONLY)
                os.dup2(out, 1)
                os.dup2(err, 2)
                d = os.path.join(tmp, "w")
                os.mkdir(d)
                os.chdir(d)
                t = os.path.join(tmp, "t")
                os.mkdir(t)
                tempfile.tempdir = t
                os.environ["TMPDIR"] = t
                res = run_one(req, harness_dir)
                b = json.dumps(res).encode()
                while b:
                    n = os.write(w, b)
                    b = b[n:]
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        end = time.time() + req.get("timeout", 20)
        hang = False
        while True:
            left = end - time.time()
            if left <= 0:
                hang = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if rl:
                c = os.read(r, 65536)
                if not c:
                    break
                buf += c
        os.close(r)
        if hang:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if hang:
            res = {"failed": "hang: no answer within %s s" % req.get("timeout", 20), "hang": True, "obs": []}
        elif not buf:
            e = ""
            try:
                with open(os.path.join(tmp, ".err")) as f:
                    e = f.read()[-3000:]
            except OSError:
                pass
            res = {"failed": "crash: status %d" % st, "crash": True, "stderr": e, "obs": []}
        else:
            res = json.loads(buf)
        shutil.rmtree(tmp, ignore_errors=True)
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
