"""Command line: check PROPERTY [quick|thorough]  |  check --replay FILE"""
import importlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from symx import run as R  # noqa: E402


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known:"):
                    m = re.match(r"known: property=(\S+) match=(\{.*?\}) :: (.*)$", ln)
                    if m:
                        out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


def matches(v, m):
    for k, want in m.items():
        if k == "text":
            got = ["".join(map(chr, e[2])) for e in v["inputs"] if e[0] == "t"]
        else:
            got = json.loads(json.dumps(v.get(k)))
        if got != want:
            return False
    return True


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    import checks

    chk = checks.CHECKS[pid]
    t0 = time.time()
    base = os.environ.get("VX_TMP", tempfile.gettempdir())
    work = tempfile.mkdtemp(prefix="vx_%s_" % pid, dir=base)
    try:
        return go(pid, tier, chk, work, t0)
    except R.Broken as e:
        print("check %s cannot decide: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(pid, tier, chk, work, t0):
    insts = chk["instances"](tier)
    for x in insts:
        x.setdefault("cfg", {})
        x.setdefault("opts", {})
    targets = {"plain": R.build_native(work)}
    if any(i.get("memory") for i in insts):
        flags = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        flags += ["-include", os.path.join(VERIF, "symx", "failshim.h")]
        targets["asan"] = R.build_native(work, "asan", flags)
        targets["shim"] = R.build_native(work, "shim", flags[-2:])
    try:
        eng = R.Engine(work, chk.get("modules", ()))
        for f in sorted({i["fn"] for i in insts}):
            eng.harness(f)
        eng.W.take_snapshot()
    except R.Broken:
        raise
    except BaseException as e:
        # does the package itself still import?
        try:
            n = R.Native(targets["plain"])
            n.start()
            n.close()
        except R.Broken as b:
            return violation(pid, tier, chk, t0, {"label": "the package does not import: %s" % b, "fn": insts[0]["fn"],
                                                  "cfg": insts[0]["cfg"], "inputs": [], "how": "native"}, None, insts, None)
        print("check %s cannot encode the current tree: %s" % (pid, "".join(traceback.format_exception(e))[-1500:]))
        return 2
    budget = chk.get("budget", {}).get(tier, 420 if tier == "quick" else 700)
    known = [k for k in load_known() if k[0] == pid]
    res = R.explore(eng, insts, targets, budget, stop_first=not known)
    viol, hits = [], []
    for v in res.viol:
        k = next((k for k in known if matches(v, k[1])), None)
        if k is None:
            viol.append(v)
        elif k[2] not in hits:
            hits.append(k[2])
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        return violation(pid, tier, chk, t0, viol[0], res, insts, eng)
    evidence(pid, tier, chk, t0, res, insts, eng, 0)
    rc = 0
    tot = sum(p["paths"] for p in res.per)
    uns = sum(sum(p["unsup"].values()) for p in res.per)
    for i, p in zip(insts, res.per):
        print("%-34s %-40s paths=%d left=%d unsup=%d validated=%d cpu=%.1fs reached=%s" % (
            i["fn"], short(i["cfg"]), p["paths"], p["left"], sum(p["unsup"].values()), p["val"], p["t"], p["reached"]))
        for k, n in list(p["unsup"].items())[:5]:
            print("     outside the encoding: %s (%d paths)" % (k, n))
        for k, n in list(p["events"].items())[:5]:
            print("     note: %s (%d paths)" % (k, n))
    s = res.stats
    print("paths=%d decisions=%d z3 queries=%d (sat %d, unsat %d) z3 time=%.1fs wall=%.1fs" % (
        s.get("paths", 0), s.get("decisions", 0), s.get("z3_queries", 0), s.get("z3_sat", 0), s.get("z3_unsat", 0),
        s.get("z3_time", 0), time.time() - t0))
    if res.errors:
        print("check %s: engine error\n%s" % (pid, res.errors[0]))
        rc = 2
    if res.unrep:
        print("check %s: %d counterexamples of the encoding that the real code does not reproduce; first: %s" % (
            pid, len(res.unrep), json.dumps(res.unrep[0])[:1500]))
        rc = 2
    if res.mism:
        print("check %s: the encoding disagrees with the compiled code on %d validated paths; first: %s" % (
            pid, len(res.mism), json.dumps(res.mism[0])[:1500]))
        rc = 2
    if tot == 0 or uns > 0.25 * tot:
        print("check %s: too much of the code is outside the encoding (%d of %d paths)" % (pid, uns, tot))
        rc = 2
    if rc == 0:
        done = sum(p["complete"] for p in res.per)
        print("OK property=%s: held on everything explored (%d of %d instances exhausted)" % (pid, done, len(insts)))
    return rc


def short(cfg):
    s = json.dumps(cfg)
    return s if len(s) <= 60 else s[:57] + "..."


def violation(pid, tier, chk, t0, v, res, insts, eng):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s.json" % pid)
    v = dict(v, property=pid)
    with open(f, "w") as fh:
        json.dump(v, fh, indent=1)
    if res is not None:
        evidence(pid, tier, chk, t0, res, insts, eng, 1)
    print("violated: %s" % v["label"])
    print("  harness %s cfg=%s" % (v["fn"], json.dumps(v["cfg"])))
    for e in v["inputs"]:
        print("  input %s = %r" % (e[1], "".join(map(chr, e[2])) if e[0] == "t" else e[2]))
    nat = v.get("native") or {}
    print("  reproduced (%s): %s" % (v.get("how"), nat.get("failed")))
    print("VIOLATION property=%s replay=%s" % (pid, f))
    return 1


def replay(f):
    with open(f) as fh:
        v = json.load(fh)
    work = tempfile.mkdtemp(prefix="vx_replay_")
    try:
        if not v["inputs"] and "native" not in v:
            print(v["label"])
            return 1
        t = {"plain": R.build_native(work)}
        if v.get("memory"):
            shim = ["-include", os.path.join(VERIF, "symx", "failshim.h")]
            t["asan"] = R.build_native(work, "asan", ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + shim)
            t["shim"] = R.build_native(work, "shim", shim)
        w = R.Worker(None, [], t, None)
        r, how = w.replay(v, v)
        for n in w.nat.values():
            n.close()
        print(json.dumps(r, indent=1))
        print("reproduced" if r else "not reproduced")
        return 1 if r else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(pid, tier, chk, t0, res, insts, eng, nv):
    s = res.stats
    per = []
    for i, p in zip(insts, res.per):
        per.append({"harness": i["fn"], "bounds": i.get("bounds") or i["cfg"], "paths": p["paths"],
                    "exhausted": p["complete"], "unexplored_prefixes": p["left"],
                    "paths_outside_encoding": p["unsup"], "native_validations": p["val"],
                    "reached": p["reached"], "other_events": p["events"], "cpu_s": round(p["t"], 1)})
    cfun = sorted(eng.M.encoded) if eng is not None and eng.M is not None else []
    samples = []
    for p in res.per:
        samples.extend(p["samples"])
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": int(s.get("paths", 0)),
            "transitions": int(s.get("decisions", 0)),
            "traces_validated_against_impl": sum(p["val"] for p in res.per),
            "samples": samples[:8] or [x["bounds"] for x in per[:2]],
            "exhaustive": all(p["complete"] for p in res.per),
            "states_are": "completed symbolic paths (each a set of inputs described by a path condition)",
            "transitions_are": "branch decisions put to the pre-solver/z3",
            "solver": {"name": "z3", "queries": int(s.get("z3_queries", 0)), "sat": int(s.get("z3_sat", 0)),
                       "unsat": int(s.get("z3_unsat", 0)), "time_s": round(s.get("z3_time", 0), 2),
                       "presolver_decisions": int(s.get("decisions", 0)), "implied_conditions": int(s.get("implied", 0)),
                       "presolver_verdicts_confirmed_by_z3": int(s.get("confirmed", 0)),
                       "assertions_discharged": int(s.get("checks", 0))},
            "instances": per,
            "functions_encoded": {"python": sorted(res.code), "c": cfun},
            "outside": chk.get("outside", ""),
        },
        "assumptions": chk.get("assumptions", []) + BASE_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": nv,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)


BASE_ASSUMPTIONS = [
    "the Python source is executed by CPython with symbolic text objects; the models of str, re, set, dict, files and of the "
    "CPython C API in symx/ are trusted and are compared with the compiled package on sampled paths of every run",
    "clang 18 -O1 LLVM IR of src/*.c is what the extension modules do",
    "inputs within the stated bounds; code points are Unicode scalar values",
]


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
