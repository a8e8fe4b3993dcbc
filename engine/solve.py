"""Discharging proof obligations: z3 (in process), then z3 binary / cvc5 on SMT-LIB text."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from terms import bz, fresh_name

stats = {"queries": 0, "time": 0.0, "by": {}, "portfolio": 0}
CFG = {"t_fast": 4000, "t_slow": 30, "portfolio": True}


def _note(by, dt):
    stats["queries"] += 1
    stats["time"] += dt
    stats["by"][by] = stats["by"].get(by, 0) + 1


class Schema:
    """Universally quantified hypothesis, instantiated at the argument tuples with which any of
    `triggers` (z3 FuncDecls) is applied in the obligation.  fn(*args) -> formula."""

    def __init__(self, name, triggers, fn, extra=None, argmap=None, pairs=False):
        self.name, self.triggers, self.fn = name, triggers, fn
        self.pairs = pairs        # fn takes two arguments: every ordered pair of trigger arguments
        self.extra = extra or []
        self.argmap = argmap
        self.tids = {t.name() for t in triggers}
        self.memo = {}            # instances made so far, by argument ids (the arguments are kept with them)


INFO = {}    # term id -> (term, ids of its arguments, name if an uninterpreted application, real product or quotient?, integer?)


def _info(e, i):
    """summary of a term, computed once (the term is kept, so its id stays its own)"""
    ref = z3.main_ctx().ref()
    kids, name, nl, it = (), None, False, False
    if z3.is_app(e):
        n = z3.Z3_get_app_num_args(ref, e.as_ast())
        d = z3.Z3_get_app_decl(ref, e.as_ast())
        k = z3.Z3_get_decl_kind(ref, d)
        ch = [e.arg(j) for j in range(n)] if n else []
        kids = tuple((c.get_id(), c) for c in ch)
        if n and k == z3.Z3_OP_UNINTERPRETED:
            name = e.decl().name()
        elif k == z3.Z3_OP_MUL and e.sort() == z3.RealSort() and sum(0 if z3.is_rational_value(c) else 1 for c in ch) > 1:
            nl = True
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            nl = True
        it = e.sort() == z3.IntSort() and not z3.is_int_value(e)
    r = INFO[i] = (e, kids, name, nl, it)
    return r


def apps(exprs, names, seen, out):
    stack = [(e.get_id(), e) for e in exprs]
    while stack:
        i, e = stack.pop()
        if i in seen:
            continue
        seen[i] = e
        r = INFO.get(i) or _info(e, i)
        if r[2] is not None and r[2] in names:
            out.append(e)
        stack.extend(r[1])
    return out


def instantiate(schemas, exprs, rounds=3, limit=600):
    if not schemas:
        return []
    names = set()
    for s in schemas:
        names |= s.tids
    seen, done, res = {}, set(), []
    pool = {}
    frontier = list(exprs)
    first = True
    for _ in range(rounds):
        found = apps(frontier, names, seen, [])
        new = []
        for s in schemas:
            cands = []
            for e in found:
                if e.decl().name() in s.tids:
                    args = tuple(e.children())
                    if s.argmap:
                        args = s.argmap(e)
                        if args is None:
                            continue
                        for a in (args if isinstance(args, list) else [args]):
                            cands.append(a)
                        continue
                    cands.append(args)
            if s.pairs:
                old = pool.setdefault(id(s), [])
                ids = {x.get_id() for x in old}
                for a in cands:
                    if a[0].get_id() not in ids:
                        ids.add(a[0].get_id())
                        old.append(a[0])
                cands = [(a, b) for a in old for b in old if not a.eq(b)]
            if first:
                cands += [a if isinstance(a, tuple) else (a,) for a in s.extra]
            for a in cands:
                k = (id(s), tuple(x.get_id() if z3.is_expr(x) else x for x in a))
                if k in done:
                    continue
                done.add(k)
                m = s.memo.get(k[1])
                if m is None:
                    f = s.fn(*a)
                    m = s.memo[k[1]] = (a, [] if f is None or f is True else [bz(g) for g in (f if isinstance(f, list) else [f])])
                res.extend(m[1])
                new.extend(m[1])
                if len(res) > limit:
                    return res
        first = False
        if not new:
            break
        frontier = new
    return res


def _is_arith(e):
    return z3.is_arith(e)


def ackermann(exprs):
    """Replace uninterpreted applications by fresh constants, adding congruence clauses."""
    table = {}
    byf = {}
    cache = {}
    extra = []

    def go(e):
        i = e.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (e.decl().name(), tuple(c.get_id() for c in ch))
                if key not in table:
                    v = z3.Const(fresh_name("ack"), e.sort())
                    for (a2, v2) in byf.setdefault(e.decl().name(), []):
                        conds = []
                        distinct = False
                        for x, y in zip(ch, a2):
                            q = z3.simplify(x == y)
                            if z3.is_false(q):
                                distinct = True
                                break
                            if not z3.is_true(q):
                                conds.append(q)
                        if not distinct:
                            extra.append(z3.Implies(z3.And(conds), v == v2) if conds else v == v2)
                    byf[e.decl().name()].append((ch, v))
                    table[key] = v
                r = table[key]
            else:
                r = e.decl()(*ch) if not (z3.is_and(e) or z3.is_or(e) or z3.is_add(e) or z3.is_mul(e)) else \
                    (z3.And(ch) if z3.is_and(e) else z3.Or(ch) if z3.is_or(e) else z3.Sum(ch) if z3.is_add(e) else z3.Product(ch))
        else:
            r = e
        cache[i] = (e, r)
        return r

    out = [go(e) for e in exprs]
    return out + extra


def has_real_nl(exprs):
    seen = set()
    stack = [(e.get_id(), e) for e in exprs]
    nl = False
    ints = False
    while stack:
        i, e = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        r = INFO.get(i) or _info(e, i)
        nl = nl or r[3]
        ints = ints or r[4]
        stack.extend(r[1])
    return nl, ints


_UMUL = z3.Function("umul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_UDIV = z3.Function("udiv", z3.RealSort(), z3.RealSort(), z3.RealSort())


def opaque(exprs):
    """Weakening: real products and quotients of non-constants become uninterpreted (commutative)
    functions, so that a goal that follows by congruence and linear arithmetic is found at once.
    Only an `unsat` answer is used."""
    cache, comm = {}, []

    def mul(a, b):
        if z3.is_rational_value(a) or z3.is_rational_value(b):
            return a * b
        r = _UMUL(a, b)
        comm.append(r == _UMUL(b, a))
        return r

    def go(e):
        i = e.get_id()
        if i in cache:
            return cache[i][1]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if z3.is_mul(e) and e.sort() == z3.RealSort():
                k = [c for c in ch if z3.is_rational_value(c)]
                r = None
                for c in ch:
                    if not z3.is_rational_value(c):
                        r = c if r is None else mul(r, c)
                for c in k:
                    r = c if r is None else c * r
            elif e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                r = _UDIV(ch[0], ch[1])
            elif z3.is_and(e):
                r = z3.And(ch)
            elif z3.is_or(e):
                r = z3.Or(ch)
            elif z3.is_add(e):
                r = z3.Sum(ch)
            elif z3.is_mul(e):
                r = z3.Product(ch)
            else:
                r = e.decl()(*ch)
        cache[i] = (e, r)
        return r
    out = [go(e) for e in exprs]
    return out + comm


def raw_check(exprs, timeout_ms, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", timeout_ms)
    s.add(*exprs)
    t = time.time()
    r = s.check()
    _note("z3-%s" % z3.get_version_string(), time.time() - t)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", None


def portfolio(exprs, secs):
    """Run external solvers on the SMT-LIB text in parallel; only definite `unsat` is used."""
    s = z3.Solver()
    s.add(*exprs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    d = tempfile.mkdtemp(prefix="vc")
    try:
        f = os.path.join(d, "q.smt2")
        open(f, "w").write(txt)
        cmds = [("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (secs * 1000), "--nl-ext-tplanes", f]),
                ("cvc5-1.1.2/nl-cov", ["cvc5", "--tlimit=%d" % (secs * 1000), "--nl-cov", f]),
                ("z3-4.8.12", ["z3", "-T:%d" % secs, f])]
        procs = []
        for n, c in cmds:
            try:
                procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), time.time()))
            except OSError:
                pass
        res = "unknown"
        end = time.time() + secs + 2
        live = list(procs)
        while live and time.time() < end and res == "unknown":
            for it in list(live):
                n, p, t0 = it
                if p.poll() is not None:
                    live.remove(it)
                    out = (p.stdout.read() or "").strip().split("\n")[0]
                    if out in ("unsat", "sat"):
                        _note(n, time.time() - t0)
                        res = out
                        break
            time.sleep(0.01)
        for n, p, t0 in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        stats["portfolio"] += 1
        return res
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def valid(hyps, schemas, goal, timeout_ms=None, deep=True):
    """Is goal implied?  -> ('valid'|'failed'|'unknown', model-or-None)."""
    goal = bz(goal)
    if z3.is_true(goal):
        return "valid", None
    gs = z3.simplify(goal)
    if z3.is_true(gs):
        return "valid", None
    hyps = [bz(h) for h in hyps if h is not True]
    ng = z3.Not(goal)
    inst = instantiate(schemas, hyps + [ng])
    ex = hyps + inst + [ng]
    t1 = timeout_ms or CFG["t_fast"]
    nl, ints = has_real_nl(ex)
    if nl:
        r, m = raw_check(opaque(ex), min(t1, 1500))
        if r == "unsat":
            return "valid", None
    r, m = raw_check(ex, t1 if not nl else min(t1, 3000))
    if r == "unsat":
        return "valid", None
    if r == "sat":
        return "failed", m
    if not deep:
        return "unknown", None
    if nl:
        ak = ackermann(ex)
        for tac in (z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "smt"),
                    z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "solve-eqs", "qfnra-nlsat")):
            try:
                r, m = raw_check(ak, max(t1, 8000), tac)
            except z3.Z3Exception:
                continue
            if r == "unsat":
                return "valid", None
            if r == "sat":
                return "failed", None
    if CFG["portfolio"]:
        r = portfolio(ex, CFG["t_slow"])
        if r == "unsat":
            return "valid", None
        if r == "sat":
            return "failed", None
    return "unknown", None
