#!/usr/bin/env python3-vt
"""check.py --property ID --tier quick|thorough : decide one property on /repo's current tree."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "props"))
from vf import *

CXX = ["g++", "-std=c++17", "-w", "-I" + REPO, "-I" + REPO + "/externals", "-pthread"]


def build_native(src, out, opt="-O1", extra=()):
    r = subprocess.run(CXX + [opt] + ["-I" + os.path.join(VERIF, "native"), src] + list(extra) + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def library(scratch, srcs=None):
    """/repo's library sources (by default all of them) as an archive, built from the current tree"""
    from concurrent.futures import ThreadPoolExecutor
    if srcs is None:
        srcs = [os.path.join(d, f) for d, _, fs in os.walk(REPO + "/dal") for f in fs if f.endswith(".cpp")]
    else:
        srcs = [REPO + "/dal/" + f for f in srcs if os.path.exists(REPO + "/dal/" + f)]
    objs = []

    def one(k):
        o = os.path.join(scratch, "lib%d.o" % k)
        r = subprocess.run(CXX + ["-O1", "-c", srcs[k], "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0:
            objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(srcs))))
    a = os.path.join(scratch, "libdal.a")
    subprocess.run(["ar", "rcs", a] + sorted(objs), check=True)
    return (a, "-Wl,--allow-multiple-definition")


def run_native(exe, args, secs, scratch):
    """-> (status, text); status ok / fail / error"""
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs, cwd=scratch)
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace")[-4000:] if isinstance(e.stdout, bytes) else str(e.stdout)[-4000:]
    if p.returncode == 0:
        return "ok", p.stdout[-4000:]
    if p.returncode == 1 and "FAIL" in p.stdout:
        return "fail", p.stdout[-6000:]
    if p.returncode < 0 or "Sanitizer" in p.stdout:
        return "crash", ("terminated by signal %d\n" % -p.returncode) + p.stdout[-6000:]
    return "error", p.stdout[-4000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--record", action="store_true", help="record the fingerprint of the extracted functions once everything is discharged")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = a.property
    mod = importlib.import_module(pid)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 1
    try:
        rc = decide(pid, mod, a, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(pid, mod, a, seed, t0, scratch):
    quick = a.tier == "quick"
    nsecs = getattr(mod, "NATIVE_SECS", 15) if quick else getattr(mod, "NATIVE_SECS_THOROUGH", 240)
    native = {}

    def native_job():
        src = os.path.join(VERIF, "native", pid + ".cpp")
        if not os.path.exists(src) or a.no_native:
            native["status"] = "none"
            return
        exe = os.path.join(scratch, "native")
        lib = library(scratch, mod.SOURCES) if hasattr(mod, "SOURCES") else ()
        rc, out = build_native(src, exe, getattr(mod, "NATIVE_OPT", "-O1"), tuple(getattr(mod, "NATIVE_FLAGS", ())) + tuple(lib))
        if rc and "undefined reference" in out:
            rc, out = build_native(src, exe, getattr(mod, "NATIVE_OPT", "-O1"), tuple(getattr(mod, "NATIVE_FLAGS", ())) + library(scratch))
        if rc:
            native["status"], native["text"] = "nobuild", out[-3000:]
            return
        native["exe"] = exe
        native["status"], native["text"] = run_native(exe, ["search", str(seed), str(nsecs)], nsecs * 4 + 120, scratch)

    th = threading.Thread(target=native_job)
    budget = 240 if quick else 900
    modules, errs = {}, {}
    results = []
    if not a.no_proof:
        need = []
        for n, spec, fn in mod.CONTRACTS:
            if spec not in need:
                need.append(spec)
        ensure_irdump()

        def ext(spec):
            d = mod.DRIVERS[spec]
            try:
                modules[spec] = extract(d[0], d[1], scratch, re.sub(r"\W", "_", spec), d[2] if len(d) > 2 else ())
            except Exception as e:
                errs[spec] = str(e)
        ts = [threading.Thread(target=ext, args=(s,)) for s in need]
        [t.start() for t in ts]
        [t.join() for t in ts]
        jobs = []
        for n, spec, fn in mod.CONTRACTS:
            if getattr(fn, "thorough_only", False) and quick:
                continue
            if spec in modules:
                jobs.append((modules[spec], n, fn, None))
            else:
                results.append({"contract": n, "status": "unsupported", "reason": "extraction failed: " + errs.get(spec, "?"), "obligations": [], "covers": []})
        pool = list(jobs)
        done = run_with_native(pool, a.tier, budget, th)
        retry = [j for j in pool for r in done if r["contract"] == j[1] and (any(o["status"] == "unknown" for o in r["obligations"]) or r.get("reason", "").startswith("time budget"))]
        if retry:
            th.join()
            again = {r["contract"]: r for r in run_with_native([(m, n, f, {"timeout_scale": 3}) for m, n, f, _ in retry], a.tier, budget, None)}
            done = [again.get(r["contract"], r) for r in done]
        results = done + results
    else:
        th.start()
    th.join()

    obligations = [dict(o, contract=r["contract"]) for r in results for o in r["obligations"]]
    bad = [o for o in obligations if o["status"] != "valid"]
    failed = [o for o in bad if o["status"] == "failed"]
    unsup = [r for r in results if r["status"] != "ok"]
    vac = [(r["contract"], c) for r in results for c in r["covers"] if c[1] == "unsat"]
    empty = [r["contract"] for r in results if r["status"] == "ok" and not r["obligations"]]
    known = known_findings(pid)
    fps = {k: m.fingerprint for k, m in modules.items()}
    rec = recorded().get(pid, {})
    spec_of = {n: spec for n, spec, fn in mod.CONTRACTS}
    # the extracted functions are, instruction for instruction, those of the tree on which every
    # obligation was discharged when this machinery was committed: a missing answer is then a
    # solver that ran out of time, not a change of the code
    same = {n: fps.get(s) is not None and rec.get(s) == fps.get(s) for n, s in spec_of.items()}

    violation = None          # (text, found)
    detail = ""
    if native.get("status") in ("fail", "crash"):
        violation = ("native", True)
        detail = native["text"]
    elif native.get("status") == "timeout":
        violation = ("native", True)
        detail = "the contract harness did not terminate (non-terminating call on the real code)\n" + native.get("text", "")
    elif bad and native.get("exe"):
        # replay the verifier's counterexamples and search around them
        for o in bad[:8]:
            m = o.get("model") or {}
            hints = ["%s=%s" % (k, ",".join(v) if isinstance(v, list) else v) for k, v in m.items()]
            s, txt = run_native(native["exe"], ["replay", o["contract"]] + hints, 120, scratch)
            if s in ("fail", "crash"):
                violation, detail = ("replay", True), txt
                break
        if violation is None:
            s, txt = run_native(native["exe"], ["search", str(seed + 1000), str(nsecs * 3)], nsecs * 10 + 120, scratch)
            if s in ("fail", "crash"):
                violation, detail = ("search", True), txt
    if violation is None and [o for o in bad if not same[o["contract"]]]:
        violation = ("proof", False)
    if violation is None and [r for r in unsup if not same[r["contract"]] and r.get("reason", "").startswith("time budget")]:
        violation = ("proof", False)
    undecided = []
    if violation is None:
        for o in bad:
            undecided.append("obligation not discharged (solver gave no answer): %s %s" % (o["name"], o["where"]))
    for r in unsup:
        undecided.append("contract '%s' outside the verifier's reach on this tree: %s" % (r["contract"], r.get("reason", "")))
    for n, c in vac:
        undecided.append("vacuous: %s %s" % (n, c))
    if native.get("status") in ("nobuild", "error"):
        undecided.append("harness on the real code: %s %s" % (native["status"], native.get("text", "")[-300:]))
    for n in empty:
        undecided.append("contract '%s' generated no obligation" % n)

    if a.record and not a.no_proof and not violation and not undecided:
        allr = recorded()
        allr[pid] = fps
        json.dump(allr, open(os.path.join(VERIF, "fingerprints.json"), "w"), indent=1, sort_keys=True)
    write_evidence(pid, mod, a, seed, t0, results, obligations, native, nsecs, undecided, violation, known)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    nd = sum(1 for o in obligations if o["status"] == "valid")
    print("%s: %d obligations, %d discharged, %d contracts, native stand-in: %s, %.1f s" % (pid, len(obligations), nd, len(results), native.get("status"), time.time() - t0))
    for u in undecided:
        print("UNDECIDED (bounded stand-in decides): " + u[:400])
    if violation:
        rp = os.path.join(BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.txt" % pid)
        with open(path, "w") as f:
            f.write("property %s\nfailing obligations generated from /repo's current source:\n" % pid)
            for o in bad[:20]:
                f.write("  [%s] %s (%s) %s\n      counterexample: %s\n      goal: %s\n" % (o["status"], o["name"], o["contract"], o["where"], json.dumps(o.get("model")), o.get("goal", "")))
            for u in undecided:
                f.write("  undecided: %s\n" % u)
            f.write("\ncontract harness on the real code (native/%s.cpp): %s\n%s\n" % (pid, native.get("status"), detail))
            if violation[1]:
                f.write("\nre-run: g++ -std=c++17 -O1 -I/repo -I/repo/externals -I/verif/native /verif/native/%s.cpp -pthread -o /tmp/%s && /tmp/%s search %d %d\n" % (pid, pid, pid, seed, nsecs))
        if detail:
            print(detail[-1500:])
        for o in bad[:6]:
            print("failed obligation: %s (%s) %s" % (o["name"], o["contract"], o["where"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if violation[1] else " no-failing-input-found"))
        return 1
    return 0


def run_with_native(jobs, tier, budget, th):
    """start native thread first; workers are forked from a helper process without threads"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    pa, pb = ctx.Pipe(False)

    def helper(conn):
        conn.send(run_all(jobs, tier, budget, workers=7))
        conn.close()
    p = ctx.Process(target=helper, args=(pb,))
    p.start()
    pb.close()
    if th is not None:
        th.start()
    try:
        r = pa.recv()
    except EOFError:
        r = [{"contract": j[1], "obligations": [], "status": "unsupported", "reason": "verifier process died", "covers": []} for j in jobs]
    p.join()
    return r


def recorded():
    f = os.path.join(VERIF, "fingerprints.json")
    return json.load(open(f)) if os.path.exists(f) else {}


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def write_evidence(pid, mod, a, seed, t0, results, obligations, native, nsecs, undecided, violation, known):
    by = {}
    st = 0.0
    q = 0
    for r in results:
        s = r.get("solver") or {}
        st += s.get("time", 0)
        q += s.get("queries", 0)
        for k, v in s.get("by", {}).items():
            by[k] = by.get(k, 0) + v
    disch = sum(1 for o in obligations if o["status"] == "valid")
    contracts = []
    for r in results:
        contracts.append({"contract": r["contract"], "status": r["status"] + (": " + r.get("reason", "")[:200] if r["status"] != "ok" else ""), "obligations": len(r["obligations"]),
                          "discharged": sum(1 for o in r["obligations"] if o["status"] == "valid"), "functions": r.get("entry", []), "wall_s": r.get("wall"),
                          "loops_proved_by_invariant": [l["loop"] for l in r.get("loops_cut", [])], "reachability": [c[0] + ": " + c[1] for c in r["covers"]][:6]})
    functions = sorted({f for r in results for f in r.get("entry", [])})
    inlined = sorted({f for r in results for f in r.get("inlined", []) if f.startswith("Dal::")} - set(functions))
    assumptions = sorted({x for r in results for x in r.get("assumptions", [])} | {"axiom: " + x for r in results for x in r.get("axioms", [])})
    assumptions += list(getattr(mod, "ASSUMPTIONS", []))
    full = not undecided and not violation and not a.no_proof
    level = getattr(mod, "LEVEL", "proof")
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level if full or violation else "other",
          "coverage": {"obligations": len(obligations), "discharged": disch,
                       "checker_cmd": "python3-vt /verif/engine/check.py --property %s --tier %s" % (pid, a.tier),
                       "trusted_base": ["clang 18 front end and LLVM sroa/simplifycfg/early-cse/loop-simplify/adce passes (extraction from /repo on every run)", "/verif/engine (VC generator)",
                                        "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2", "models of allocation, memory intrinsics and libm in engine/builtins_.py"],
                       "functions_under_contract": functions, "functions_verified_by_inlining": inlined,
                       "contracts": contracts, "solver_time_s": round(st, 2), "solver_queries": q, "by_back_end": by,
                       "obligation_classes": {c: sum(1 for o in obligations if o["class"] == c) for c in sorted({o["class"] for o in obligations})},
                       "callee_contracts_used": sorted({f for r in results for f in r.get("used_contracts", [])}),
                       "modelled_externals": sorted({f for r in results for f in r.get("builtins", [])})[:60],
                       "undecided": undecided,
                       "bounded_stand_in": {"what": getattr(mod, "STANDIN", ""), "bound_seconds": nsecs, "status": native.get("status"), "output": (native.get("text") or "")[-1500:],
                                            "note": "labelled bounded: never counted among the discharged obligations"}},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = "not every obligation was discharged on this tree (see 'undecided'); for those functions the bounded stand-in on the real code decided, and is not counted as proof"
    if known:
        ev["known_findings"] = known
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
