"""Contract framework: a property module declares contracts on functions of /repo; each contract is
run in its own process against IR freshly extracted from /repo, and every obligation is discharged
by the solvers in solve.py."""
import hashlib
import json
import multiprocessing
import os
import re
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
sys.path.insert(0, HERE)
import solve
from terms import *
from execir import *
import execir
import builtins_


def ensure_irdump():
    exe = os.path.join(BUILD, "irdump")
    src = os.path.join(HERE, "irdump.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run([LLVM + "/llvm-config", "--cxxflags"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = [f for f in flags if not f.startswith("-std") and f != "-fno-exceptions"]
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"], check=True)
    os.replace(tmp, exe)
    return exe


class ExtractionError(Exception):
    pass


def extract(driver_text, roots, scratch, tag, flags=()):
    """/repo sources -> bitcode -> JSON.  The functions are the compiler's own lowering of the
    current working tree; nothing is rewritten by hand."""
    exe = ensure_irdump()
    cpp, bc, js = (os.path.join(scratch, tag + e) for e in (".cpp", ".bc", ".json"))
    open(cpp, "w").write(driver_text)
    r = subprocess.run([LLVM + "/clang++", "-std=c++17", "-O1", "-gline-tables-only", "-w", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-I" + REPO,
                        "-I" + REPO + "/externals"] + list(flags) + ["-emit-llvm", "-c", cpp, "-o", bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ExtractionError("front end: " + r.stdout[-1500:])
    with open(js, "w") as f:
        r = subprocess.run([exe, bc] + list(roots), stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise ExtractionError("irdump: " + r.stderr[-1500:])
    with open(js) as f:
        d = json.load(f)
    fp = fingerprint(d)
    m = Module(d)
    m.fingerprint = fp
    return m


def fingerprint(d):
    """hash of the extracted functions without source positions"""
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ("line", "file")}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x
    return hashlib.sha256(json.dumps(strip({k: d[k] for k in ("functions", "globals")}), sort_keys=True).encode()).hexdigest()[:24]


class C:
    """One contract under verification."""

    def __init__(self, module, name, tier):
        self.m, self.name, self.tier = module, name, tier
        self.inputs = {}          # name -> term, for counterexample extraction
        self.entry = set()
        self.st = State()
        self.ex = None
        self.covers = []
        self.notes = []

    def exec(self, contracts=(), invariants=(), **opts):
        prev = self.ex
        self.ex = Exec(self.m, contracts=list(contracts), builtins=builtins_.STD + builtins_.XSTACK, invariants=[(re.compile(a), b) for a, b in invariants], opts=opts)
        if prev is not None:              # several executions in one contract: keep all obligations
            for k in ("results", "inlined", "used_contracts", "used_builtins", "assumptions", "loops_cut", "loops_unrolled"):
                setattr(self.ex, k, getattr(prev, k))
        if getattr(self, "force", None):
            self.ex.o.update(self.force)
        return self.ex

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        v = atom(z3.Int(name))
        self.inputs[name] = v
        if lo is not None:
            self.st.assume(icmp("le", lo, v))
        if hi is not None:
            self.st.assume(icmp("le", v, hi))
        return v

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return v

    def obj(self, name, cells, size=None, st=None):
        """object with concrete layout: {off: (ty, val)}"""
        st = st or self.st
        o = self.ex.new_obj(st, name, size if size is not None else max(off + TYSZ[t] for off, (t, v) in cells.items()), True)
        for off, (t, v) in cells.items():
            o.cells[off] = (TYSZ[t], t, v)
        return Ptr(o.id, 0)

    def array(self, name, n, ty="f64", fn=None, st=None):
        """array object of n elements of one scalar type; returns (ptr, select function)"""
        st = st or self.st
        a = base_array(name, 1, ty) if fn is None else ABase(fn)
        o = self.ex.arr_obj(st, name, n, TYSZ[ty], {0: (ty, a)})
        self.inputs[name] = ("array", name, ty, P(n))
        return Ptr(o.id, 0), (lambda i: a.fn(P(i)))

    def vector(self, name, n, ty="f64", fn=None, st=None):
        """std::vector<ty>/Vector_<ty> header over a fresh array"""
        st = st or self.st
        p, f = self.array(name, n, ty, fn, st)
        end = p.shift(P(n).scale(TYSZ[ty]))
        h = self.obj(name + ".hdr", {0: ("ptr", p), 8: ("ptr", end), 16: ("ptr", end)}, 24, st)
        return h, p, f

    def vec_view(self, st, h, ty="f64"):
        """(length, select) of a vector header in a state"""
        b = self.ex.load(st, h, "ptr")
        e = self.ex.load(st, h.shift(8), "ptr")
        if b.obj is None:
            return Poly.const(0), None
        n = e.off.add(b.off, -1).div_exact(TYSZ[ty])
        def sel(i):
            self.ex.quiet += 1
            try:
                return self.ex.load(st, b.shift(P(i).scale(TYSZ[ty])), ty)
            finally:
                self.ex.quiet -= 1
        return n, sel

    def assume(self, f):
        self.st.assume(f)

    # ---- running
    def fname(self, rx):
        fs = self.m.find(rx)
        if not fs:
            raise Unsupported("function not found: " + rx)
        return fs[0]["name"]

    def call(self, rx, args, st=None):
        """run the current body of the function; -> list of Results (kind ret/throw)"""
        st = st or self.st
        if not self.covers:
            self.cover("precondition of " + self.name, st)
        n = self.fname(rx)
        self.entry.add(self.m.fn[n]["dem"])
        return self.ex.run_function(n, st.fork(), list(args))

    def cover(self, what, st):
        """reachability: the assumptions in st must be satisfiable"""
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*[bz(p) for p in st.pc])
        inst = solve.instantiate(st.schemas, list(st.pc), rounds=2, limit=300) if st.schemas else []
        if inst:
            s.add(*[bz(i) for i in inst])
        r = s.check()
        self.covers.append((what, str(r)))
        return r

    def ensure(self, st, goal, name):
        q, self.ex.quiet = self.ex.quiet, 0
        try:
            self.ex.oblige(st, goal, "%s: %s" % (self.name, name), None, cls="post")
        finally:
            self.ex.quiet = q

    def lemma(self, st, goal, name):
        """intermediate assertion: proved, then available"""
        self.ensure(st, goal, "lemma " + name)
        st.assume(goal)

    def ensure_by(self, st, premises, goal, terms, name):
        """goal from premises alone, with the given terms generalised to arbitrary values: every premise
        is an obligation in st, and (premises => goal) one over fresh variables"""
        for k, p in enumerate(premises):
            self.ensure(st, p, "%s [premise %d]" % (name, k + 1))
        sub, seen = [], []
        for t in terms:
            t = Z(t) if not z3.is_expr(t) else t
            if any(t.eq(x) for x in seen):
                continue
            seen.append(t)
            sub.append((t, z3.Const(fresh_name("g"), t.sort())))
        f = z3.substitute(z3.Implies(z3.And(*[bz(p) for p in premises]), bz(goal)), *sub)
        self.ensure(State(), f, name)
        st.assume(goal)

    def ensure_cases(self, st, cases, goal, name):
        """proof by cases: the cases are shown to be exhaustive"""
        self.ensure(st, bor(*[c for _, c in cases]), name + " [cases exhaustive]")
        for n, cnd in cases:
            s2 = st.fork()
            try:
                s2.assume(cnd)
            except Infeasible:
                continue
            self.ensure(s2, goal, "%s [case %s]" % (name, n))

    def ensure_all(self, results, name, fn, throws=None):
        """fn(st, val) -> goal for normal returns; throws(st) -> condition that must hold when it throws
        (None: must never throw)."""
        nret = 0
        for r in results:
            if r.kind == "ret":
                nret += 1
                g = fn(r.st, r.val)
                for k, (sub, gg) in enumerate(g if isinstance(g, list) else [(None, g)]):
                    self.ensure(r.st, gg, name + ("" if sub is None else " [%s]" % sub))
                if self.cover("normal return of " + self.name, r.st) == z3.unsat:
                    nret -= 1
            else:
                self.ensure(r.st, False if throws is None else throws(r.st), name + " [only throws when specified]")
        if nret == 0 and fn is not None:
            self.covers.append(("some normal return of " + self.name, "unsat"))


def model_inputs(c, model):
    out = {}
    if model is None:
        return out
    for k, v in c.inputs.items():
        try:
            if isinstance(v, tuple) and v[0] == "array":
                _, nm, ty, n = v
                nn = model.eval(n.z(), model_completion=True).as_long()
                f = uf(nm, 1, ty)
                out[k] = [str(model.eval(f(z3.IntVal(i)), model_completion=True)) for i in range(max(0, min(nn, 12)))]
                out[k + ".size"] = str(nn)
            else:
                e = model.eval(Z(v), model_completion=True)
                out[k] = str(e)
        except Exception as e:
            out[k] = "?"
    return out


def run_contract(module, name, fn, tier, budget, force=None):
    t0 = time.time()
    c = C(module, name, tier)
    c.force = force
    res = {"contract": name, "obligations": [], "status": "ok", "covers": []}
    try:
        fn(c)
    except Unsupported as e:
        res["status"] = "unsupported"
        res["reason"] = str(e)
    except Infeasible:
        res["status"] = "unsupported"
        res["reason"] = "contradictory assumptions"
    except Exception as e:
        res["status"] = "unsupported"
        res["reason"] = "internal: " + traceback.format_exc()[-1200:]
    ex = c.ex
    if ex is not None:
        for o in ex.results:
            d = {k: o[k] for k in ("name", "where", "class", "status")}
            d["t"] = round(o["t"], 3)
            if o["status"] != "valid":
                d["model"] = model_inputs(c, o["model"])
                try:
                    d["goal"] = str(o["goal"])[:1500]
                except Exception:
                    pass
            res["obligations"].append(d)
        res["inlined"] = sorted(ex.inlined)
        res["entry"] = sorted(c.entry)
        res["used_contracts"] = sorted(ex.used_contracts)
        res["builtins"] = sorted(ex.used_builtins)
        res["assumptions"] = sorted(ex.assumptions)
        res["axioms"] = sorted(builtins_.AXIOMS_USED)
        res["loops_cut"] = ex.loops_cut
        res["unrolled"] = sorted(str(x[0]) for x in ex.loops_unrolled)
    res["covers"] = c.covers
    res["notes"] = c.notes
    res["wall"] = round(time.time() - t0, 2)
    res["solver"] = {"queries": solve.stats["queries"], "time": round(solve.stats["time"], 2), "by": dict(solve.stats["by"])}
    return res


def _child(conn, module, name, fn, tier, budget, force):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    solve.stats = {"queries": 0, "time": 0.0, "by": {}, "portfolio": 0}
    k = (force or {}).get("timeout_scale", 1)
    for q in ("t_fast", "t_slow"):
        solve.CFG[q] *= k
    r = run_contract(module, name, fn, tier, budget, {a: b for a, b in (force or {}).items() if a != "timeout_scale"})
    conn.send(r)
    conn.close()


def run_all(jobs, tier, budget, workers=8):
    """jobs: [(module, name, fn, force)] -> results, each in its own process with a hard time limit"""
    ctx = multiprocessing.get_context("fork")
    pend = list(jobs)
    live = []
    out = {}
    while pend or live:
        while pend and len(live) < workers:
            m, n, f, force = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, m, n, f, tier, budget, force))
            p.start()
            b.close()
            live.append((p, a, n, time.time()))
        for it in list(live):
            p, a, n, t0 = it
            done = None
            try:
                if a.poll(0):
                    done = a.recv()
                elif not p.is_alive():
                    done = {"contract": n, "obligations": [], "status": "unsupported", "reason": "worker died", "covers": []}
                elif time.time() - t0 > budget:
                    done = {"contract": n, "obligations": [], "status": "unsupported", "reason": "time budget of %d s exhausted" % budget, "covers": []}
            except EOFError:
                done = {"contract": n, "obligations": [], "status": "unsupported", "reason": "worker died", "covers": []}
            if done is not None:
                out[n] = done
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join()
                live.remove(it)
        time.sleep(0.02)
    return [out[j[1]] for j in jobs]
