"""Parallel bounded exploration of harnesses, replay of counterexamples against
the compiled package, validation of the encoding, evidence."""
import glob
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from multiprocessing import Pipe
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
PYINC = "/usr/include/python3.12"
NWORK = int(os.environ.get("VX_JOBS", "8"))


class Broken(Exception):
    """the check could not decide (exit 2)"""


# ------------------------------------------------------------------ native side
def build_native(work, name="plain", cflags=(), cc="gcc"):
    """copy of the package with freshly compiled extensions"""
    dst = os.path.join(work, "nat_" + name)
    shutil.copytree(os.path.join(REPO, "clevercsv"), os.path.join(dst, "clevercsv"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    for src, mod in (("cparser.c", "cparser"), ("abstraction.c", "cabstraction")):
        out = os.path.join(dst, "clevercsv", mod + ".cpython-312-x86_64-linux-gnu.so")
        cmd = [cc, "-shared", "-fPIC", "-O1", "-g", "-fno-strict-overflow", "-fwrapv", "-DNDEBUG", "-w", "-I", PYINC,
               *cflags, os.path.join(REPO, "src", src), "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("cannot compile %s: %s" % (src, r.stderr[-2000:]))
    return dst


class Native:
    def __init__(self, target, mode="plain", hashseed="0"):
        self.target = target
        self.mode = mode
        self.hashseed = hashseed
        self.p = None
        self.n = 0

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
        env.update(PYTHONHASHSEED=self.hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", COLUMNS="80")
        if self.mode == "asan":
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=lib, PYTHONMALLOC="malloc",
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
                       UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98")
        self.p = subprocess.Popen([VENV_PY, os.path.join(VERIF, "symx", "native.py"), self.target,
                                   os.path.join(VERIF, "harness")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE if False else subprocess.DEVNULL, text=True, env=env)
        line = self.p.stdout.readline()
        if line.strip() != "ready":
            raise Broken("the package does not import natively (%s)" % self.mode)

    def ask(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Broken("native server died")
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


# ------------------------------------------------------------------ symbolic side
class Engine:
    """the loaded package + C machine (per process)"""

    def __init__(self, work, modules=(), need_c=True):
        sys.setrecursionlimit(20000)
        if SITE not in sys.path:
            sys.path.append(SITE)
        from . import cmach, core, loader

        self.core = core
        self.M = cmach.Machine([os.path.join(REPO, "src", "cparser.c"), os.path.join(REPO, "src", "abstraction.c")],
                               work) if need_c else None
        self.W = loader.World(REPO, self.M, os.path.join(VERIF, "harness"))
        self.W.reset()
        self.W.get("clevercsv")
        for m in modules:
            self.W.get(m)
        self.seen_code = set()
        self.track()
        self.W.take_snapshot()

    def track(self):
        mon = sys.monitoring
        mon.use_tool_id(3, "vx")
        root = os.path.join(REPO, "clevercsv")

        def start(code, off):
            if code.co_filename.startswith(root):
                self.seen_code.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)

    def harness(self, fn):
        mod, f = fn.split(":")
        return getattr(self.W.get("harness." + mod), f)

    def run(self, inst, prefix):
        """one path -> result dict"""
        core = self.core
        from . import api

        S = core.STATS
        p = core.Path(prefix, inst.get("max_steps", 2_000_000))
        core.set_cur(p)
        fn = self.harness(inst["fn"])
        if self.M is not None:
            self.M.reset()
        self.W.reset()
        h = api.SymH(self.W, p, inst["cfg"])
        for k, v in (inst.get("opts") or {}).items():
            h.opt(k, v)
        res = {"kind": "ok"}
        err = None
        try:
            try:
                fn(h)
                if inst.get("finish"):
                    self.M.finish()
            except Exception as e:
                p.flush()
                if p.aborted is None and _of_engine(e):
                    raise core.Unsupported(str(e)[:120])
                if p.aborted is None:
                    res["trace"] = "".join(traceback.format_exception(e))[-3000:]
                    p.violation = ("unexpected %s: %s" % (type(e).__name__, str(e)[:200] if not _sym(e) else ""), None)
                    raise core.Stop
                raise p.aborted
            if p.aborted is not None:
                raise p.aborted
            p.flush()
        except core.Stop:
            pass
        except core.Infeasible:
            res["kind"] = "infeasible"
            S.infeasible += 1
        except core.Unsupported as e:
            res["kind"] = "unsupported"
            res["why"] = str(e)
            S.unsupported += 1
        except core.Hang as e:
            p.violation = ("hang: " + str(e), None)
            S.hangs += 1
        except RecursionError as e:
            res["kind"] = "unsupported"
            res["why"] = "recursion limit of the engine"
            S.unsupported += 1
        err = None
        S.paths += 1
        S.steps += p.steps
        res["alts"] = p.alts
        res["reached"] = sorted(p.reached)
        if res["kind"] == "infeasible":
            core.set_cur(None)
            return res
        if p.violation is not None:
            label, vals = p.violation
            if vals is None:
                p.pending = []
                vals = p.witness()
            S.violations += 1
            res["kind"] = "violation"
            res["label"] = label
            res["trace_"] = p.trace
        else:
            vals = p.witness()
        res["vals"] = vals
        res["inputs"] = api.inputs_of(p, vals)
        res["notes"] = list(p.notes)
        if self.M is not None and self.M.failed_at is not None:
            res["notes"].append(["alloc_fail", self.M.failed_at])
        if res["kind"] == "ok":
            res["obs"] = [api.conc(x, vals) for x in p.observed]
        core.set_cur(None)
        return res


OURS = ("SymStr", "LazyStr", "SymInt", "SymBool", "SymEnum", "SymSet", "SymDict", "FrozenSet")


def _of_engine(e):
    """an error that only the stand-ins for symbolic values raise"""
    return isinstance(e, (TypeError, AttributeError)) and not _sym(e) and any("'%s'" % n in str(e) or " %s" % n in str(e) for n in OURS)


def _sym(e):
    try:
        str(e)
        return False
    except BaseException:
        return True


# ------------------------------------------------------------------ worker
def request(inst, res, **kw):
    r = {"fn": inst["fn"], "cfg": inst["cfg"], "inputs": res["inputs"], "notes": res.get("notes") or [], "opts": inst.get("opts") or {},
         "timeout": inst.get("native_timeout", 20), "preload": inst.get("preload") or []}
    r.update(kw)
    return r


def canon(x):
    return json.loads(json.dumps(x))


class Worker:
    def __init__(self, eng, insts, targets, conn):
        self.eng = eng
        self.insts = insts
        self.targets = targets
        self.conn = conn
        self.nat = {}
        self.nseen = {}

    def native(self, mode, hashseed="0"):
        k = (mode, hashseed)
        if k not in self.nat:
            self.nat[k] = Native(self.targets[mode], mode, hashseed)
        return self.nat[k]

    def loop(self):
        from . import core

        while True:
            msg = self.conn.recv()
            if msg is None:
                break
            i, prefixes, slice_s = msg
            inst = self.insts[i]
            core.STATS.__init__()
            out = {"i": i, "viol": [], "unsup": {}, "reached": {}, "val": 0, "mism": [], "unrep": [], "events": {},
                   "t": 0, "done": 0, "samples": []}
            t0 = time.time()
            todo = [list(x) for x in prefixes]
            err = None
            while todo and time.time() - t0 < slice_s:
                pre = todo.pop()
                try:
                    res = self.eng.run(inst, pre)
                except BaseException as e:
                    err = "engine error: " + "".join(traceback.format_exception(e))[-3000:]
                    core.set_cur(None)
                    break
                out["done"] += 1
                todo.extend(res["alts"])
                for r in res["reached"]:
                    out["reached"][r] = out["reached"].get(r, 0) + 1
                try:
                    self.post(inst, i, res, out)
                except Broken as e:
                    err = str(e)
                    break
                if out["viol"]:
                    break
            out["t"] = time.time() - t0
            out["left"] = todo
            out["stats"] = core.STATS.as_dict()
            out["code"] = sorted(self.eng.seen_code)
            out["err"] = err
            rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            out["recycle"] = rss > 3_000_000
            self.conn.send(out)
            if out["recycle"]:
                break
        for n in self.nat.values():
            n.close()

    def post(self, inst, i, res, out):
        kind = res["kind"]
        if kind == "infeasible":
            return
        if kind == "unsupported":
            k = res["why"][:120]
            out["unsup"][k] = out["unsup"].get(k, 0) + 1
            r = self.native("plain").ask(request(inst, res))
            out["val"] += 1
            if "failed" in r:
                out["viol"].append(self.report(inst, res, r, "concrete run of a path outside the encoding"))
            return
        if kind == "violation":
            r, how = self.replay(inst, res)
            if r is not None:
                out["viol"].append(self.report(inst, res, r, how))
            elif res["label"].split(":")[0] in ("memory", "leak", "canonical") and not inst.get("memory"):
                out["events"][res["label"]] = out["events"].get(res["label"], 0) + 1
            else:
                out["unrep"].append({"label": res["label"], "inputs": res["inputs"], "cfg": inst["cfg"], "fn": inst["fn"],
                                     "notes": res["notes"], "trace": res.get("trace", "")})
            return
        # validation of the encoding against the compiled package
        n = self.nseen[i] = self.nseen.get(i, 0) + 1
        every = 1 if n <= inst.get("val_first", 6) else inst.get("val_every", 64)
        if not inst.get("validate", True) or zlib.crc32(repr(res["inputs"]).encode()) % every:
            return
        r = self.native(self.kind(res)).ask(request(inst, res))
        out["val"] += 1
        if "assume" in r:
            out["mism"].append({"inputs": res["inputs"], "native": r["assume"], "model": res["obs"], "fn": inst["fn"]})
        elif "failed" in r:
            # the real code fails where the encoding passed
            out["viol"].append(self.report(inst, res, r, "native run of a passing symbolic path"))
        elif canon(res["obs"]) != r["obs"]:
            out["mism"].append({"inputs": res["inputs"], "native": r["obs"], "model": canon(res["obs"]), "fn": inst["fn"],
                                "cfg": inst["cfg"]})
        elif len(out["samples"]) < 2 and n % 7 == 1:
            out["samples"].append({"inputs": res["inputs"], "observed": r["obs"]})

    def kind(self, res):
        return "shim" if "shim" in self.targets and any(n[0] == "alloc_fail" for n in res.get("notes") or ()) else "plain"

    def replay(self, inst, res):
        req = request(inst, res)
        lab = res["label"]
        kind = self.kind(res)
        r = self.native(kind).ask(req)
        if "failed" in r:
            return r, "native" if kind == "plain" else "native, with the injected allocation failure"
        if inst.get("hashseeds"):
            base = r.get("obs")
            for s in range(1, 17):
                r2 = self.native("plain", str(s)).ask(req)
                if "failed" in r2:
                    return r2, "native, PYTHONHASHSEED=%d" % s
                if r2.get("obs") != base:
                    r2["failed"] = "result depends on PYTHONHASHSEED: %r vs %r" % (base, r2.get("obs"))
                    return r2, "native, PYTHONHASHSEED=%d vs 0" % s
        if inst.get("memory") and "asan" in self.targets:
            r = self.native("asan").ask(req)
            if r.get("crash"):
                r["failed"] = "sanitizer: " + _first_error(r.get("stderr", ""))
                return r, "AddressSanitizer build"
            if "failed" in r:
                return r, "AddressSanitizer build"
            r = self.native(kind).ask(dict(req, leak=True, timeout=60))
            if "failed" in r:
                return r, "native, repeated"
            if lab.startswith("memory: read of uninit") or "uninitialised" in lab:
                r = valgrind(self.targets["plain"], req)
                if r:
                    return {"failed": r, "obs": []}, "valgrind"
        return None, None

    def report(self, inst, res, r, how):
        return {"fn": inst["fn"], "cfg": inst["cfg"], "inputs": res["inputs"], "notes": res.get("notes") or [], "opts": inst.get("opts") or {},
                "label": res.get("label") or r.get("failed"), "native": r, "how": how, "opts": inst.get("opts"),
                "memory": bool(inst.get("memory")), "hashseeds": bool(inst.get("hashseeds")),
                "preload": inst.get("preload") or []}


def _first_error(s):
    for ln in s.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error" in ln:
            return ln[:200]
    return s[:200]


def valgrind(target, req):
    env = dict(os.environ, PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONHASHSEED="0")
    p = subprocess.run(["valgrind", "--trace-children=yes", "--error-exitcode=9", "-q", VENV_PY,
                        os.path.join(VERIF, "symx", "native.py"), target, os.path.join(VERIF, "harness")],
                       input=json.dumps(dict(req, timeout=200)) + "\n", capture_output=True, text=True, env=env, timeout=400)
    for ln in p.stderr.splitlines():
        if "ninitialised" in ln or "Invalid read" in ln or "Invalid write" in ln:
            i = p.stderr.find(ln)
            if "cparser.c" in p.stderr[i : i + 1500] or "abstraction.c" in p.stderr[i : i + 1500]:
                return "valgrind: " + ln
    return None


# ------------------------------------------------------------------ master
class Result:
    def __init__(self, n):
        self.stats = {}
        self.viol = []
        self.unrep = []
        self.mism = []
        self.errors = []
        self.per = [dict(paths=0, left=0, unsup={}, reached={}, val=0, events={}, t=0.0, complete=False, samples=[])
                    for _ in range(n)]
        self.code = set()
        self.wall = 0.0


def explore(eng, insts, targets, budget, nwork=None, stop_first=True):
    nwork = nwork or NWORK
    R = Result(len(insts))
    t0 = time.time()
    stacks = [[[]] for _ in insts]
    busy = {}  # conn -> (inst, prefixes)
    outst = [0] * len(insts)
    procs = {}

    def spawn():
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                a.close()
                for c in procs:
                    c.close()
                Worker(eng, insts, targets, b).loop()
            except (EOFError, BrokenPipeError):
                pass
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        b.close()
        procs[a] = pid
        return a

    idle = [spawn() for _ in range(nwork)]
    stop = False
    try:
        while True:
            over = time.time() - t0 > budget
            if not stop and not over:
                while idle:
                    # breadth over the instances when the budget does not suffice for all
                    cand = min((i for i in range(len(insts)) if stacks[i]), default=None,
                               key=lambda i: (R.per[i]["t"] + outst[i]) / insts[i].get("weight", 1))
                    if cand is None:
                        break
                    st = stacks[cand]
                    k = max(1, min(64, (len(st) + nwork - 1) // nwork))
                    take, stacks[cand] = st[:k], st[k:]
                    total = sum(len(s) for s in stacks)
                    c = idle.pop()
                    busy[c] = (cand, take)
                    outst[cand] += 1
                    c.send((cand, take, 0.15 if total < 4 * nwork else 1.0))
            if not busy:
                break
            for c in wait(list(busy), timeout=5):
                try:
                    o = c.recv()
                except EOFError:
                    i, take = busy.pop(c)
                    outst[i] -= 1
                    R.errors.append("a worker died (instance %s)" % insts[i]["fn"])
                    procs.pop(c)
                    stop = True
                    continue
                i, take = busy.pop(c)
                outst[i] -= 1
                stacks[i].extend(o["left"])
                if o["recycle"]:
                    os.waitpid(procs.pop(c), 0)
                    c.close()
                    idle.append(spawn())
                else:
                    idle.append(c)
                P = R.per[i]
                P["paths"] += o["done"]
                P["val"] += o["val"]
                P["t"] += o["t"]
                for k, v in o["unsup"].items():
                    P["unsup"][k] = P["unsup"].get(k, 0) + v
                for k, v in o["reached"].items():
                    P["reached"][k] = P["reached"].get(k, 0) + v
                for k, v in o["events"].items():
                    P["events"][k] = P["events"].get(k, 0) + v
                if len(P["samples"]) < 3:
                    P["samples"].extend(o["samples"])
                for k, v in o["stats"].items():
                    R.stats[k] = R.stats.get(k, 0) + v
                R.code.update(o["code"])
                R.mism.extend(o["mism"])
                R.unrep.extend(o["unrep"])
                R.viol.extend(o["viol"])
                if o["err"]:
                    R.errors.append(o["err"])
                    stop = True
                if R.viol and stop_first:
                    stop = True
                if len(R.mism) > 20 or len(R.unrep) > 50:
                    stop = True
    finally:
        for c, pid in procs.items():
            try:
                if c in busy:
                    os.kill(pid, signal.SIGKILL)
                else:
                    c.send(None)
            except (OSError, BrokenPipeError):
                pass
        for c, pid in procs.items():
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
    for i in range(len(insts)):
        R.per[i]["left"] = len(stacks[i])
        R.per[i]["complete"] = not stacks[i] and not stop
    R.wall = time.time() - t0
    return R
