"""Contract-based VC generation over LLVM IR by forward symbolic execution.

Loops are cut at their header by inductive invariants (candidates supplied by contracts plus
automatically generated linear ones, filtered by the Houdini fixpoint: only candidates proved
initially true and preserved are kept), calls to functions under contract use the contract,
other calls are inlined, and every obligation is discharged by solve.valid().
"""
import json
import re
import time
from fractions import Fraction
import z3
import solve
from solve import Schema
from terms import *


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class BudgetExceeded(Unsupported):
    pass


# ------------------------------------------------------------------ arrays
class Arr:
    pass


class ABase(Arr):
    def __init__(self, fn, decl=None):
        self.fn, self.decl = fn, decl

    def select(self, ex, st, idx):
        return self.fn(*idx)


class AConst(Arr):
    def __init__(self, v):
        self.v = v

    def select(self, ex, st, idx):
        return self.v


class AStore(Arr):
    def __init__(self, parent, idx, val):
        self.parent, self.idx, self.val = parent, idx, val

    def select(self, ex, st, idx):
        c = True
        for a, b in zip(idx, self.idx):
            c = band(c, icmp("eq", a, b))
        c = as_bool(c)
        if not isinstance(c, bool) and st is not None:
            if ex.entails(st, bnot(c)):
                c = False
            elif ex.entails(st, c):
                c = True
        if c is True:
            return self.val
        if c is False:
            return self.parent.select(ex, st, idx)
        return ite(c, self.val, self.parent.select(ex, st, idx))


class ARange(Arr):
    """lo <= k < hi maps to fn(k); elsewhere parent."""

    def __init__(self, parent, lo, hi, fn):
        self.parent, self.lo, self.hi, self.fn = parent, lo, hi, fn

    def select(self, ex, st, idx):
        k = idx[0]
        c = as_bool(band(icmp("le", self.lo, k), icmp("lt", k, self.hi)))
        if not isinstance(c, bool) and st is not None:
            if ex.entails(st, c):
                c = True
            elif ex.entails(st, bnot(c)):
                c = False
        if c is True:
            return self.fn(k)
        if c is False:
            return self.parent.select(ex, st, idx)
        return ite(c, self.fn(k), self.parent.select(ex, st, idx))


class ARow(Arr):
    """(row, k) with lo <= k < hi maps to fn(k); elsewhere parent."""

    def __init__(self, parent, row, lo, hi, fn):
        self.parent, self.row, self.lo, self.hi, self.fn = parent, row, lo, hi, fn

    def select(self, ex, st, idx):
        i, k = idx
        c = as_bool(band(icmp("eq", i, self.row), band(icmp("le", self.lo, k), icmp("lt", k, self.hi))))
        if not isinstance(c, bool) and st is not None:
            if ex.entails(st, c):
                c = True
            elif ex.entails(st, bnot(c)):
                c = False
        if c is True:
            return self.fn(k)
        if c is False:
            return self.parent.select(ex, st, idx)
        return ite(c, self.fn(k), self.parent.select(ex, st, idx))


class AIte(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def select(self, ex, st, idx):
        return ite(self.c, self.a.select(ex, st, idx), self.b.select(ex, st, idx))


SORT = {"f64": z3.RealSort, "i1": z3.BoolSort}


def uf(name, arity, ty):
    return z3.Function(name, *([z3.IntSort()] * arity), (SORT.get(ty, z3.IntSort))())


def wrapty(ty, e):
    return P(e) if ty not in ("f64", "i1") else e


def base_array(name, arity, ty):
    d = uf(name, arity, ty)
    return ABase(lambda *ix: wrapty(ty, d(*[Z(i) for i in ix])), d)


# ------------------------------------------------------------------ objects
TYSZ = {"f64": 8, "f32": 4, "ptr": 8, "i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16}


def tykey(ty):
    return "i64p" if ty in ("ptr", "i64") else ("i8" if ty == "i1" else ty)


class Obj:
    def __init__(self, oid, name, size=None):
        self.id, self.name, self.size = oid, name, size
        self.cells = {}       # off -> (size, ty, val)
        self.zeros = []       # [(lo, hi)] byte ranges known zero (concrete)
        self.stride = None
        self.arrays = {}      # (field, tykey) -> Arr
        self.rowlen = None    # Poly (single atom) for two-dimensional objects
        self.zero_all = False
        self.lazy = None      # callable(off, ty) -> value for unset cells
        self.live = True
        self.known = True     # existed before the function under proof was entered

    def copy(self):
        o = Obj.__new__(Obj)
        o.__dict__.update(self.__dict__)
        o.cells = dict(self.cells)
        o.zeros = list(self.zeros)
        o.arrays = dict(self.arrays)
        return o


class State:
    def __init__(self):
        self.pc = []
        self.schemas = []
        self.heap = {}
        self.globals = {}     # global name -> obj id
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.schemas = list(self.schemas)
        s.heap = dict(self.heap)
        s.globals = self.globals
        s.ghost = dict(self.ghost)
        return s

    def assume(self, f):
        f = as_bool(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.pc.append(f)

    def own(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o


class Item:
    __slots__ = ("st", "env", "bb", "counts")

    def __init__(self, st, env, bb, counts):
        self.st, self.env, self.bb, self.counts = st, env, bb, counts


class Packed:
    """Several smaller cells (and padding) read as one integer: copied as they are, usable for nothing else."""
    __slots__ = ("sz", "parts")

    def __init__(self, sz, parts):
        self.sz, self.parts = sz, parts        # parts: [(relative offset, size, type, value)]


class Result:
    __slots__ = ("st", "kind", "val", "info")

    def __init__(self, st, kind, val=None, info=None):
        self.st, self.kind, self.val, self.info = st, kind, val, info


class All:
    """A universally quantified candidate / goal:  forall k..: fn(k..)"""

    def __init__(self, fn, arity=1, triggers=None, extra=None, argmap=None, pairs=False):
        self.pairs = pairs        # two indices of the same one-dimensional arrays
        self.fn, self.arity, self.triggers, self.extra, self.argmap = fn, arity, triggers or [], extra or [], argmap


class LoopCtx:
    """View of a loop-head state offered to candidate providers."""

    def __init__(self, ex, fn, loop, st, st0, vars_, arrays, env):
        self.ex, self.fn, self.loop, self.st, self.st0 = ex, fn, loop, st, st0
        self.vars = vars_        # list of dict(kind, name, cur, entry, stride)
        self.arrays = arrays     # havoced arrays: list of (objid, key)
        self.env = env

    def ints(self):
        return [v for v in self.vars if v["kind"] == "int" and isinstance(v["entry"], Poly) and isinstance(v["cur"], Poly)]

    def reals(self):
        return [v for v in self.vars if v["kind"] == "real"]

    def sel(self, st, oid, key, *idx):
        o = st.heap[oid]
        return o.arrays[key].select(self.ex, None, [P(i) for i in idx])

    def cur(self, oid, key, *idx):
        return self.sel(self.st, oid, key, *idx)

    def old(self, oid, key, *idx):
        return self.sel(self.st0, oid, key, *idx)


# ------------------------------------------------------------------ module
class Module:
    def __init__(self, js):
        self.fn = {f["name"]: f for f in js["functions"]}
        self.globals = js["globals"]
        self.decls = js["decls"]
        for f in self.fn.values():
            self.prep(f)

    def prep(self, f):
        bl = {b["id"]: b for b in f["blocks"]}
        f["B"] = bl
        f["L"] = {l["header"]: l for l in f["loops"]}
        for l in f["loops"]:
            l["set"] = set(l["blocks"])
        succ = {}
        for b in f["blocks"]:
            t = b["ins"][-1]
            op = t["op"]
            if op == "br":
                s = list(t["succ"])
            elif op == "switch":
                s = [t["default"]] + [c[1] for c in t["cases"]]
            elif op == "invoke":
                s = [t["normal"]]
            else:
                s = []
            succ[b["id"]] = s
        f["succ"] = succ
        # blocks that can only end in a throw / abort
        bad = set()
        for b in f["blocks"]:
            if b["ins"][-1]["op"] == "unreachable":
                bad.add(b["id"])
        ch = True
        while ch:
            ch = False
            for b in f["blocks"]:
                i = b["id"]
                if i not in bad and succ[i] and all(s in bad for s in succ[i]):
                    bad.add(i)
                    ch = True
        f["cold"] = bad
        # reverse post order over normal edges
        order, seen = [], set()

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(f["blocks"][0]["id"])
        f["rpo"] = {b: i for i, b in enumerate(reversed(order))}
        f["by_dem"] = f["dem"]

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.fn.values() if r.search(f["dem"])]


# ------------------------------------------------------------------ executor
class Exec:
    def __init__(self, module, contracts=(), builtins=(), invariants=(), opts=None):
        self.m = module
        self.contracts = list(contracts)      # [(compiled regex, handler(ex, st, args, ins) -> [Result])]
        self.builtins = list(builtins)
        self.invariants = list(invariants)    # [(compiled regex on demangled function name, provider(ctx) -> [(name, formula|All)])]
        self.o = {"unroll": 40, "merge": True, "overflow": False, "bounds": True, "budget": 600, "force_unroll": False, "max_steps": 400000,
                  "autoinv": True, "fork_fn": None}
        self.o.update(opts or {})
        self.results = []
        self.quotients = []       # (q, a, b) of divisions by variables                     # obligations
        self.quiet = 0
        self.writes = None
        self.nobj = 0
        self.entail_cache = {}
        self.inlined = set()
        self.used_contracts = set()
        self.used_builtins = set()
        self.loops_cut = []
        self.loops_unrolled = set()
        self.t0 = time.time()
        self.steps = 0
        self.depth = 0
        self.fnstack = []
        self.assumptions = set()
        self.feas = 0
        self.stepped = []

    # ---------------------------------------------------------- utilities
    def loc(self, ins):
        return "%s:%s" % (str(ins.get("file", "?")).replace("/repo/", ""), ins.get("line", "?"))

    def entails(self, st, f, timeout=1500):
        f = as_bool(f)
        if isinstance(f, bool):
            return f
        pcs = [p for p in st.pc if not self._has_real(p)] if not self._has_real(f) else st.pc
        key = (tuple(p.get_id() for p in pcs), f.get_id(), len(st.schemas) if self._has_uf(f) else 0)
        r = self.entail_cache.get(key)
        if r is not None:
            return r[0]
        hyp = pcs
        sch = st.schemas if self._has_uf(f) else []
        inst = solve.instantiate(sch, list(hyp) + [f]) if sch else []
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*hyp)
        if inst:
            s.add(*inst)
        s.add(z3.Not(f))
        t = time.time()
        ok = s.check() == z3.unsat
        solve._note("z3-%s" % z3.get_version_string(), time.time() - t)
        self.entail_cache[key] = (ok, pcs, f)
        return ok

    _hr = {}

    def _has_real(self, e):
        i = e.get_id()
        r = self._hr.get(i)
        if r is None:
            r = (e, False)
            stack, seen = [e], set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_expr(x) and x.sort() == z3.RealSort():
                    r = (e, True)
                    break
                stack.extend(x.children())
            self._hr[i] = r
        return r[1]

    _hu = {}

    def _has_uf(self, e):
        i = e.get_id()
        r = self._hu.get(i)
        if r is None:
            r = (e, False)
            stack, seen = [e], set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = (e, True)
                    break
                stack.extend(x.children())
            self._hu[i] = r
        return r[1]

    def feasible(self, st, f):
        f = as_bool(f)
        if isinstance(f, bool):
            return f
        return not self.entails(st, bnot(f), timeout=1000)

    def oblige(self, st, goal, name, ins=None, cls="safety", deep=True):
        """Record and discharge an obligation."""
        if self.quiet:
            return
        goal = as_bool(goal)
        where = self.loc(ins) if ins else ""
        t = time.time()
        if goal is True:
            status, model = "valid", None
        else:
            status, model = solve.valid(st.pc, st.schemas, goal, deep=deep)
        self.results.append({"name": name, "where": where, "class": cls, "status": status, "t": time.time() - t,
                             "model": model, "st": st if status != "valid" else None, "goal": goal if status != "valid" else None})
        if status != "valid" and cls == "safety":
            try:
                st.assume(goal)       # report once, then continue under the assumption
            except Infeasible:
                raise

    def new_obj(self, st, name, size=None, known=False):
        self.nobj += 1
        o = Obj(self.nobj, name, None if size is None else P(size))
        o.known = known
        st.heap[o.id] = o
        return o

    def arr_obj(self, st, name, n, esz, fields, known=True, rowlen=None):
        """fresh array object of n elements; fields: {off: (ty, Arr|None)}"""
        o = self.new_obj(st, name, P(n).scale(esz), known)
        o.stride = esz
        o.rowlen = rowlen
        for off, (ty, a) in fields.items():
            o.arrays[(off, tykey(ty))] = a if a is not None else base_array(fresh_name(name), 2 if rowlen is not None else 1, ty)
        return o

    # ---------------------------------------------------------- constants / globals
    def const(self, st, v):
        if "c" in v:
            c = int(v["c"])
            t = v["t"]
            if t == "i1":
                return c != 0
            if t in ("i8", "i16"):
                c %= 1 << int(t[1:])
            return Poly.const(c)
        if "f" in v:
            return self.fconst(v["f"])
        if "null" in v:
            return NULL
        if "g" in v:
            return self.global_ptr(st, v["g"])
        if "gep" in v:
            return self.const(st, v["gep"]).shift(v["off"])
        if "undef" in v:
            if isinstance(v["t"], dict) and "struct" in v["t"]:
                return Agg([UNDEF] * len(v["t"]["struct"]))
            return UNDEF
        if "zero" in v:
            t = v["t"]
            if isinstance(t, dict) and "struct" in t:
                return Agg([self.zero(x[1]) for x in t["struct"]])
            return self.zero(t)
        if "agg" in v:
            return Agg([self.const(st, x) for x in v["agg"]])
        if "ce" in v and v["ce"] in ("ptrtoint", "inttoptr", "bitcast"):
            return self.const(st, v["ops"][0])
        raise Unsupported("constant %s" % str(v)[:80])

    def fconst(self, s):
        if s in ("inf", "-inf"):
            self.assumptions.add("floating-point infinity constants are modelled as a real larger than 10^308")
            return z3.Real("INF") if s == "inf" else -z3.Real("INF")
        if s == "nan":
            return z3.Real("NAN")
        return Fraction(float.fromhex(s))

    def zero(self, t):
        if t == "f64" or t == "f32":
            return Fraction(0)
        if t == "ptr":
            return NULL
        if t == "i1":
            return False
        if isinstance(t, dict):
            if "struct" in t:
                return Agg([self.zero(x[1]) for x in t["struct"]])
            return Agg([self.zero(t["array"])] * t["n"])
        return Poly.const(0)

    def global_ptr(self, st, g):
        if g in self.m.fn or g in self.m.decls:
            return Ptr(("fn", g), 0)
        gl = self.m.globals.get(g)
        if gl is None:
            raise Unsupported("global " + g)
        if "alias" in gl:
            return self.global_ptr(st, gl["alias"])
        oid = st.globals.get(g)
        if oid is None or oid not in st.heap:
            if oid is None:
                self.nobj += 1
                oid = self.nobj
                st.globals[g] = oid
            o = Obj(oid, "@" + gl["dem"], Poly.const(gl["size"]))
            st.heap[oid] = o
            if "init" in gl:
                self.init_cells(st, o, 0, gl["init"], gl["t"])
            if not gl["const"] and not g.startswith("_ZGV"):
                o.mutable_global = True
            for off, (ty, v) in self.o.get("global_values", {}).get(g, {}).items():     # value fixed by a contract's precondition
                o.cells[off] = (TYSZ[ty], ty, v)
        return Ptr(oid, 0)

    def init_cells(self, st, o, off, v, t):
        if "zero" in v:
            n = self.tysize(t)
            o.zeros.append((off, off + n))
            return
        if "undef" in v:
            return
        if "agg" in v:
            if "struct" in t:
                for x, (fo, ft) in zip(v["agg"], t["struct"]):
                    self.init_cells(st, o, off + fo, x, ft)
            else:
                for i, x in enumerate(v["agg"]):
                    self.init_cells(st, o, off + i * t["esz"], x, t["array"])
            return
        try:
            o.cells[off] = (self.tysize(t), t, self.const(st, v))
        except Unsupported:
            pass

    def tysize(self, t):
        if isinstance(t, dict):
            if "struct" in t:
                return t["size"]
            if "array" in t:
                return t["n"] * t["esz"]
        return TYSZ[t]

    # ---------------------------------------------------------- memory
    def fresh_val(self, ty, name, st=None):
        if ty == "f64" or ty == "f32":
            return freal(name)
        if ty == "i1":
            return z3.Bool(fresh_name(name))
        if ty == "ptr":
            raise Unsupported("unknown pointer value (%s)" % name)
        v = fint(name)
        if st is not None:
            lo, hi = self.irange(ty)
            st.assume(icmp("le", lo, v))
            st.assume(icmp("le", v, hi))
        return v

    def irange(self, ty):
        w = int(ty[1:])
        if w <= 16:
            return 0, (1 << w) - 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def resolve(self, st, o, off, sz, ins, what):
        """byte offset -> (index tuple, field)"""
        stride = o.stride
        f = off.c() % stride
        p = off.add(Poly.const(f), -1).div_exact(stride)
        if p is None:
            raise Unsupported("offset %s not a multiple of element size %d in %s" % (off.z(), stride, o.name))
        if o.rowlen is not None:
            rl = o.rowlen
            (mono,) = rl.m.keys()
            if len(mono) == 0:
                k = rl.c()
                raise Unsupported("constant row length")
            a = mono[0]
            q, r = {}, {}
            for mm, c in p.m.items():
                if a in mm:
                    l = list(mm)
                    l.remove(a)
                    q[tuple(l)] = c
                else:
                    r[mm] = c
            i, j = Poly(q), Poly(r)
            # normalise j into [0, rowlen)
            if not self.entails(st, band(icmp("le", 0, j), icmp("lt", j, rl))):
                if not self.quiet:
                    self.oblige(st, band(icmp("le", 0, j), icmp("lt", j, rl)), "matrix column index in range: %s of %s" % (what, o.name), ins)
                else:
                    st.assume(band(icmp("le", 0, j), icmp("lt", j, rl)))
            return (i, j), f
        return (p,), f

    def to_array(self, o, stride):
        if o.stride is not None:
            return
        o.stride = stride
        byf = {}
        for off, (sz, ty, val) in o.cells.items():
            byf.setdefault((off % stride, tykey(ty)), []).append((off // stride, val, ty))
        for k, lst in byf.items():
            ty = lst[0][2]
            if o.zero_all or self._all_zero(o, k[0], stride):
                a = AConst(self.zero("ptr" if isinstance(lst[0][1], Ptr) else ty))
            elif isinstance(lst[0][1], (Ptr, PtrIte)):
                a = ABase(lambda i: (_ for _ in ()).throw(Unsupported("read of unset pointer element")))
            else:
                a = base_array(fresh_name("u_" + o.name), 1, "i64" if k[1] == "i64p" else k[1])
            for i, val, ty in sorted(lst, key=lambda x: x[0]):
                a = AStore(a, (Poly.const(i),), val)
            o.arrays[k] = a
        o.cells = {}

    def _all_zero(self, o, f, stride):
        return bool(o.zeros) and o.size is not None and o.size.is_const() and any(lo <= 0 and hi >= o.size.c() for lo, hi in o.zeros)

    def check_access(self, st, p, sz, ins, what):
        if p.obj is None:
            self.oblige(st, False, "null pointer is never dereferenced (%s)" % what, ins)
            raise Infeasible()
        if isinstance(p.obj, tuple):
            raise Unsupported("data access to a function")
        o = st.heap.get(p.obj)
        if o is None:
            raise Unsupported("dangling object")
        if not o.live:
            self.oblige(st, False, "no access after free (%s of %s)" % (what, o.name), ins)
        if self.o["bounds"] and o.size is not None:
            g = band(icmp("le", 0, p.off), icmp("le", p.off.add(Poly.const(sz)), o.size))
            if as_bool(g) is not True and not self.quiet:
                if o.rowlen is not None:
                    # checked by row / column indices, which is linear
                    (i, j), f = self.resolve(st, o, p.off, sz, ins, what)
                    (si, _), _ = self.resolve_size(o)
                    g = band(icmp("le", 0, i), icmp("lt", i, si))
                self.oblige(st, g, "%s of %s stays in bounds" % (what, o.name), ins)
        return o

    def resolve_size(self, o):
        p = o.size.div_exact(o.stride)
        (mono,) = o.rowlen.m.keys()
        a = mono[0]
        q = {}
        for mm, c in p.m.items():
            if a in mm:
                l = list(mm)
                l.remove(a)
                q[tuple(l)] = c
        return (Poly(q), None), 0

    def prune(self, st, p):
        while isinstance(p, PtrIte):
            if self.entails(st, p.c):
                p = p.a
            elif self.entails(st, bnot(p.c)):
                p = p.b
            else:
                break
        return p

    def load(self, st, p, ty, ins=None):
        p = self.prune(st, p)
        if isinstance(p, PtrIte):
            return ite(p.c, self.load(self.under(st, p.c), p.a, ty, ins), self.load(self.under(st, bnot(p.c)), p.b, ty, ins))
        if isinstance(p, Undef):
            raise Unsupported("load through undef pointer")
        if not isinstance(p, Ptr):
            raise Unsupported("load through non-pointer")
        if isinstance(ty, dict):
            if "struct" in ty:
                return Agg([self.load(st, p.shift(fo), ft, ins) for fo, ft in ty["struct"]])
            raise Unsupported("load of aggregate")
        sz = TYSZ[ty]
        o = self.check_access(st, p, sz, ins or {}, "read")
        if o.stride is None and p.off.is_const():
            off = p.off.c()
            c = o.cells.get(off)
            if c is not None:
                csz, cty, val = c
                if csz == sz:
                    return self.coerce(val, cty, ty)
                if isinstance(val, Poly) and val.is_const() and csz > sz:
                    return self.coerce(Poly.const(val.c() % (1 << (8 * sz))), "i%d" % (8 * sz), ty)
                x = self.pack(o, off, sz, ty)
                if x is not None:
                    return x
                raise Unsupported("size-mismatched read of %s+%d" % (o.name, off))
            if o.zero_all or any(lo <= off and off + sz <= hi for lo, hi in o.zeros):
                return self.zero(ty)
            for co, (csz, cty, val) in o.cells.items():
                if co < off + sz and off < co + csz:
                    if isinstance(val, Poly) and val.is_const():
                        raw = val.c() % (1 << (8 * csz))
                        d = off - co
                        if d >= 0 and d + sz <= csz and tykey(ty)[0] == "i":
                            x = (raw >> (8 * d)) % (1 << (8 * sz))
                            return self.canon_const(x, ty)
                    # assemble from smaller constants
                    x = self.assemble(o, off, sz)
                    if x is not None:
                        return self.canon_const(x, ty) if ty != "f64" else (_ for _ in ()).throw(Unsupported("reinterpreted bytes"))
                    x = self.pack(o, off, sz, ty)
                    if x is not None:
                        return x
                    raise Unsupported("overlapping read of %s+%d" % (o.name, off))
            if o.lazy is not None:
                val = o.lazy(st, off, ty)
            else:
                if ty == "ptr":
                    return UNDEF
                val = self.fresh_val(ty, "uninit_%s_%d" % (re.sub(r"\W", "_", o.name)[:24], off), st)
            o2 = st.own(p.obj)
            o2.cells[off] = (sz, ty, val)
            return val
        if o.stride is None:
            o = st.own(p.obj)
            g = p.off.coef_gcd()
            if g < sz:
                raise Unsupported("symbolic offset with stride %d in %s" % (g, o.name))
            self.to_array(o, g)
        idx, f = self.resolve(st, o, p.off, sz, ins or {}, "read")
        a = o.arrays.get((f, tykey(ty)))
        if a is None:
            others = [k for k in o.arrays if k[0] == f]
            inside = [k for k in o.arrays if f <= k[0] < f + sz]
            if others and ty in ("i16", "i32", "i64") and all(isinstance(k[1], str) and k[0] + TYSZ.get(k[1], 99) <= f + sz for k in inside):
                return Packed(sz, [(k[0] - f, TYSZ[k[1]], k[1], o.arrays[k].select(self, st, idx)) for k in inside])
            if others and not (o.zero_all):
                raise Unsupported("type-mismatched read of %s: %s vs %s" % (o.name, ty, others))
            o = st.own(p.obj)
            if o.zero_all or self._all_zero(o, f, o.stride):
                a = AConst(self.zero(ty))
            else:
                if ty == "ptr":
                    raise Unsupported("unknown pointer array element of " + o.name)
                a = base_array(fresh_name("u_" + re.sub(r"\W", "_", o.name)[:20]), 2 if o.rowlen is not None else 1, ty)
            o.arrays[(f, tykey(ty))] = a
        v = a.select(self, st, idx)
        return self.coerce(v, "ptr" if isinstance(v, (Ptr, PtrIte)) else ty, ty)

    def pack(self, o, off, sz, ty):
        if ty not in ("i16", "i32", "i64"):
            return None
        inside = [(co - off, csz, cty, val) for co, (csz, cty, val) in o.cells.items() if co < off + sz and off < co + csz]
        if any(r < 0 or r + n > sz for r, n, _, _ in inside):
            return None
        return Packed(sz, inside)

    def canon_const(self, x, ty):
        if ty == "i1":
            return x != 0
        w = int(ty[1:])
        if w > 16 and x >= 1 << (w - 1):
            x -= 1 << w
        return Poly.const(x)

    def assemble(self, o, off, sz):
        x = 0
        for b in range(sz):
            got = None
            for co, (csz, cty, val) in o.cells.items():
                if co <= off + b < co + csz:
                    if isinstance(val, bool):
                        val = Poly.const(int(val))
                    if isinstance(val, Poly) and val.is_const():
                        got = (val.c() % (1 << (8 * csz)) >> (8 * (off + b - co))) & 255
                    break
            else:
                if o.zero_all or any(lo <= off + b < hi for lo, hi in o.zeros):
                    got = 0
            if got is None:
                return None
            x |= got << (8 * b)
        return x

    def under(self, st, c):
        s = st.fork()
        try:
            s.assume(c)
        except Infeasible:
            pass
        return s

    def coerce(self, val, frm, to):
        if frm == to or isinstance(val, Undef):
            return val
        if isinstance(val, (Ptr, PtrIte)):
            if to in ("ptr", "i64"):
                return val
            raise Unsupported("pointer reinterpreted as " + str(to))
        if to == "ptr":
            if isinstance(val, Poly) and val.is_const() and val.c() == 0:
                return NULL
            raise Unsupported("integer reinterpreted as pointer")
        if to == "i1" and frm == "i8":
            if isinstance(val, (bool, z3.BoolRef)):
                return val
            return as_bool(icmp("ne", val, 0))
        if frm == "i1" and to == "i8":
            return ite(val, Poly.const(1), Poly.const(0)) if isinstance(val, (bool, z3.BoolRef)) else val
        if isinstance(frm, str) and isinstance(to, str) and frm[0] == "i" and to[0] == "i" and TYSZ[frm] == TYSZ[to]:
            return val
        if to == "f64" and isinstance(val, Poly) and val.is_const() and val.c() == 0:
            return Fraction(0)
        if to == "f64" and isinstance(val, (Fraction, z3.ArithRef)) and not isinstance(val, Poly):
            return val
        if to == "i64" and frm == "f64" and isinstance(val, Fraction) and val == 0:
            return Poly.const(0)
        if to == "i64" and frm == "f64":
            return val           # raw copy of the bits; only stored back or compared never
        raise Unsupported("reinterpretation %s -> %s" % (frm, to))

    def store(self, st, p, ty, val, ins=None):
        p = self.prune(st, p)
        if isinstance(p, PtrIte):
            # each side is read under its condition (which checks the access), then rewritten with itself
            # when the other side is meant; that rewrite is harmless at any index
            todo, leaves = [(p.c, p.a), (bnot(p.c), p.b)], []
            while todo:
                cnd, q = todo.pop()
                q = self.prune(self.under(st, cnd), q)
                if isinstance(q, PtrIte):
                    todo += [(band(cnd, q.c), q.a), (band(cnd, bnot(q.c)), q.b)]
                else:
                    leaves.append((cnd, q))
            for cnd, q in leaves:
                if isinstance(q, Ptr) and q.obj is None and self.entails(st, bnot(cnd)):
                    continue
                old = self.load(self.under(st, cnd), q, ty, ins)
                flat = isinstance(q, Ptr) and q.obj in st.heap and st.heap[q.obj].stride is not None and st.heap[q.obj].rowlen is None
                self.quiet += flat
                try:
                    self.store(st, q, ty, ite(cnd, val, old), ins)
                finally:
                    self.quiet -= flat
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if isinstance(ty, dict):
            if "struct" in ty and isinstance(val, Agg):
                for (fo, ft), x in zip(ty["struct"], val.v):
                    self.store(st, p.shift(fo), ft, x, ins)
                return
            raise Unsupported("store of aggregate")
        sz = TYSZ[ty]
        if isinstance(val, Packed):
            self.check_access(st, p, sz, ins or {}, "write")
            if p.off.is_const() and st.heap[p.obj].stride is None:
                self.clear_cells(st.own(p.obj), p.off.c(), p.off.c() + sz)
            for r, n, cty, x in val.parts:
                self.store(st, p.shift(r), cty, x, ins)
            return
        o = self.check_access(st, p, sz, ins or {}, "write")
        o = st.own(p.obj)
        if o.stride is None and p.off.is_const():
            off = p.off.c()
            self.clear_cells(o, off, off + sz)
            o.cells[off] = (sz, ty, val)
            if self.writes is not None:
                self.writes.add((p.obj, "cell", off, sz, ty))
            return
        if o.stride is None:
            g = p.off.coef_gcd()
            if o.size is not None and not o.size.is_const():
                g2 = o.size.coef_gcd()
                g = g2 if g % g2 == 0 else g
            if g < sz:
                raise Unsupported("symbolic store with stride %d" % g)
            self.to_array(o, g)
        idx, f = self.resolve(st, o, p.off, sz, ins or {}, "write")
        k = (f, tykey(ty))
        a = o.arrays.get(k)
        if a is None:
            if any(kk[0] == f for kk in o.arrays):
                for kk in list(o.arrays):
                    if kk[0] == f:
                        del o.arrays[kk]
            if o.zero_all:
                a = AConst(self.zero(ty))
            elif isinstance(val, (Ptr, PtrIte)):
                a = ABase(lambda *i: (_ for _ in ()).throw(Unsupported("read of unset pointer element")))
            else:
                a = base_array(fresh_name("u_" + re.sub(r"\W", "_", o.name)[:20]), 2 if o.rowlen is not None else 1, ty)
        o.arrays[k] = AStore(a, idx, val)
        if self.writes is not None:
            self.writes.add((p.obj, "arr", k, ty))

    def clear_cells(self, o, lo, hi):
        for co in [c for c, (s, t, v) in o.cells.items() if c < hi and lo < c + s]:
            csz, cty, val = o.cells[co]
            if co < lo or co + csz > hi:
                # partial overwrite: split constants into bytes, otherwise give up
                if isinstance(val, Poly) and val.is_const():
                    raw = val.c() % (1 << (8 * csz))
                    del o.cells[co]
                    for b in range(csz):
                        if not (lo <= co + b < hi):
                            o.cells[co + b] = (1, "i8", Poly.const((raw >> (8 * b)) & 255))
                    continue
                raise Unsupported("partial overwrite of %s+%d" % (o.name, co))
            del o.cells[co]
        nz = []
        for a, b in o.zeros:
            if a < hi and lo < b:
                if a < lo:
                    nz.append((a, lo))
                if hi < b:
                    nz.append((hi, b))
            else:
                nz.append((a, b))
        o.zeros = nz

    def memset(self, st, p, v, n, ins):
        if not isinstance(p, Ptr):
            raise Unsupported("memset")
        n = P(n)
        if n.is_const() and n.c() == 0:
            return
        o = self.check_access(st, p, 1, ins, "memset") if n.is_const() else st.heap[p.obj]
        if self.o["bounds"] and o.size is not None:
            self.oblige(st, bor(icmp("eq", n, 0), band(icmp("le", 0, p.off), icmp("le", p.off.add(n), o.size))), "memset of %s stays in bounds" % o.name, ins)
        if not (isinstance(v, Poly) and v.is_const() and v.c() == 0):
            raise Unsupported("memset non-zero")
        o = st.own(p.obj)
        if o.stride is None and n.is_const() and p.off.is_const():
            lo = p.off.c()
            self.clear_cells(o, lo, lo + n.c())
            o.zeros.append((lo, lo + n.c()))
            if self.writes is not None:
                self.writes.add((p.obj, "whole"))
            return
        if p.off.is_const() and p.off.c() == 0 and o.size is not None and o.size.same(n):
            o.cells, o.arrays, o.zeros = {}, {}, []
            o.zero_all = True
            if self.writes is not None:
                self.writes.add((p.obj, "whole"))
            return
        if o.stride is not None and o.rowlen is None:
            lo, f = self.resolve(st, o, p.off, 1, ins, "memset")
            ln = n.div_exact(o.stride)
            if f == 0 and ln is not None:
                for k in list(o.arrays):
                    z = self.zero("f64" if k[1] == "f64" else "i64")
                    o.arrays[k] = ARange(o.arrays[k], lo[0], lo[0].add(ln), lambda i, z=z: z)
                    if self.writes is not None:
                        self.writes.add((p.obj, "arr", k, k[1]))
                return
        raise Unsupported("memset shape")

    def fill_range(self, st, p, ln, ty, fn, ins=None):
        """elements 0..ln-1 from p become fn(k), k the element's index in its object"""
        ln = P(ln)
        if ln.is_const() and ln.c() == 0:
            return
        if not isinstance(p, Ptr) or p.obj is None:
            self.oblige(st, icmp("le", ln, 0), "null pointer is never dereferenced (fill)", ins)
            return
        sz = TYSZ[ty]
        o = st.own(p.obj)
        if self.o["bounds"] and o.size is not None:
            self.oblige(st, bor(icmp("le", ln, 0), band(icmp("le", 0, p.off), icmp("le", p.off.add(ln.scale(sz)), o.size))), "fill of %s stays in bounds" % o.name, ins)
        if o.stride is None:
            self.to_array(o, sz)
        if o.rowlen is not None or o.stride != sz:
            raise Unsupported("fill of a structured object")
        (i,), f = self.resolve(st, o, p.off, sz, ins, "fill")
        key = (f, tykey(ty))
        par = o.arrays.get(key)
        if par is None:
            par = base_array(fresh_name("u_" + re.sub(r"\W", "_", o.name)[:20]), 1, ty)
        o.arrays[key] = ARange(par, i, i.add(ln), fn)
        if self.writes is not None:
            self.writes.add((p.obj, "arr", key, key[1]))

    def memcpy(self, st, d, s, n, ins):
        n = P(n)
        if n.is_const() and n.c() == 0:
            return
        if isinstance(d, PtrIte) or isinstance(s, PtrIte):
            if isinstance(s, PtrIte) and n.is_const():
                # copy via per-cell ite
                s1, s2 = self.under(st, s.c), self.under(st, bnot(s.c))
                for (off, sz, ty) in self.cell_layout(st, s.a, n.c()):
                    v = ite(s.c, self.load(s1, s.a.shift(off), ty, ins), self.load(s2, s.b.shift(off), ty, ins))
                    self.store(st, d.shift(off), ty, v, ins)
                return
            raise Unsupported("memcpy through conditional pointer")
        if s.obj is None or d.obj is None:
            self.oblige(st, icmp("eq", n, 0), "null pointer is never dereferenced (memcpy)", ins)
            return
        so, do = st.heap[s.obj], st.heap[d.obj]
        if self.o["bounds"]:
            for q, oo, w in ((s, so, "source"), (d, do, "destination")):
                if oo.size is not None:
                    self.oblige(st, bor(icmp("eq", n, 0), band(icmp("le", 0, q.off), icmp("le", q.off.add(n), oo.size))), "memory copy %s %s stays in bounds" % (w, oo.name), ins)
        if n.is_const() and s.off.is_const() and d.off.is_const() and so.stride is None and do.stride is None:
            cells = [(off - s.off.c(), sz, ty, v) for off, (sz, ty, v) in so.cells.items() if s.off.c() <= off and off + sz <= s.off.c() + n.c()]
            zs = [(max(a, s.off.c()) - s.off.c(), min(b, s.off.c() + n.c()) - s.off.c()) for a, b in so.zeros if a < s.off.c() + n.c() and s.off.c() < b]
            if so.zero_all:
                zs.append((0, n.c()))
            lz = so.lazy
            if lz is not None:
                raise Unsupported("memcpy from lazily initialised object")
            do = st.own(d.obj)
            do0 = d.off.c()
            self.clear_cells(do, do0, do0 + n.c())
            for a, b in zs:
                do.zeros.append((do0 + a, do0 + b))
            for off, sz, ty, v in cells:
                do.cells[do0 + off] = (sz, ty, v)
                if self.writes is not None:
                    self.writes.add((d.obj, "cell", do0 + off, sz, ty))
            return
        # one whole element into an ordinary object
        if so.stride and so.rowlen is None and do.stride is None and n.is_const() and n.c() == so.stride and d.off.is_const():
            for (f, k), a in list(so.arrays.items()):
                ty = "f64" if k == "f64" else ("i64" if k == "i64p" else k)
                v = self.load(st, s.shift(f), ty, ins)
                self.store(st, d.shift(f), "ptr" if isinstance(v, (Ptr, PtrIte)) else ty, v, ins)
            return
        # array copies
        stride = so.stride or do.stride
        if stride is None:
            stride = n.coef_gcd() or None
            if stride is None:
                raise Unsupported("memcpy shape")
        if so.stride is None:
            so = st.own(s.obj)
            self.to_array(so, stride)
        if do.stride is None:
            do = st.own(d.obj)
            self.to_array(do, stride)
        if so.stride != do.stride:
            raise Unsupported("memcpy between different element sizes")
        stride = so.stride
        ln = n.div_exact(stride)
        if ln is None or so.rowlen is not None or do.rowlen is not None:
            if n.is_const() and n.c() % stride == 0 or so.rowlen is not None or do.rowlen is not None:
                return self.memcpy_rows(st, d, s, n, ins)
            # sub-element copy of constant length inside one element
            if n.is_const() and n.c() < stride:
                for (f, k), a in list(so.arrays.items()):
                    base = s.off.c() % stride
                    if base <= f and f < base + n.c():
                        ty = "f64" if k == "f64" else ("i64" if k == "i64p" else k)
                        v = self.load(st, s.shift(f - base), ty, ins)
                        self.store(st, d.shift(f - base), "ptr" if isinstance(v, (Ptr, PtrIte)) else ty, v, ins)
                return
            raise Unsupported("memcpy length")
        si, sf = self.resolve(st, so, s.off, 1, ins, "memcpy")
        di, df = self.resolve(st, do, d.off, 1, ins, "memcpy")
        if sf or df:
            raise Unsupported("memcpy inside elements")
        do = st.own(d.obj)
        src = dict(so.arrays)
        delta = si[0].add(di[0], -1)
        for k, a in src.items():
            par = do.arrays.get(k)
            if par is None:
                par = base_array(fresh_name("u_" + re.sub(r"\W", "_", do.name)[:20]), 1, "i64" if k[1] == "i64p" else k[1])
            do.arrays[k] = ARange(par, di[0], di[0].add(ln), (lambda i, a=a, delta=delta: a.select(self, None, (P(i).add(delta),))))
            if self.writes is not None:
                self.writes.add((d.obj, "arr", k, k[1]))
        if so.zero_all and not src:
            raise Unsupported("memcpy of untyped zero array")

    def memcpy_rows(self, st, d, s, n, ins):
        """copies within one row of a two-dimensional object, or of a whole one"""
        so, do = st.heap[s.obj], st.heap[d.obj]
        stride = so.stride
        ln = P(n).div_exact(stride)
        if ln is None:
            raise Unsupported("memcpy of matrix rows: length")
        do = st.own(d.obj)
        if so.rowlen is not None and do.rowlen is not None:
            if not (s.off.is_const() and s.off.c() == 0 and d.off.is_const() and d.off.c() == 0 and P(n).add(so.size, -1).is_const() and P(n).add(so.size, -1).c() == 0 and so.rowlen.add(do.rowlen, -1).m == {}):
                raise Unsupported("memcpy between matrices")
            for k, a in so.arrays.items():
                do.arrays[k] = a
                if self.writes is not None:
                    self.writes.add((d.obj, "arr", k, k[1]))
            return
        def start(o, p):
            if o.rowlen is None:
                return self.resolve(st, o, p.off, 1, ins, "memcpy")[0]
            # an empty copy may start one past a row
            (mono,) = o.rowlen.m.keys()
            q, r = {}, {}
            for mm, c in p.off.div_exact(stride).m.items():
                if mono[0] in mm:
                    l = list(mm)
                    l.remove(mono[0])
                    q[tuple(l)] = c
                else:
                    r[mm] = c
            i, j = Poly(q), Poly(r)
            self.oblige(st, bor(icmp("le", ln, 0), band(icmp("le", 0, j), icmp("le", j.add(ln), o.rowlen))), "memory copy stays within one row of " + o.name, ins)
            return (i, j)
        si, di = start(so, s), start(do, d)
        for k, a in dict(so.arrays).items():
            par = do.arrays.get(k)
            ty = "i64" if k[1] == "i64p" else k[1]
            if do.rowlen is None:
                if par is None:
                    par = base_array(fresh_name("u_" + re.sub(r"\W", "_", do.name)[:20]), 1, ty)
                do.arrays[k] = ARange(par, di[0], di[0].add(ln), (lambda i, a=a: a.select(self, None, (si[0], P(i).add(di[0], -1).add(si[1])))))
            else:
                if par is None:
                    par = base_array(fresh_name("u_" + re.sub(r"\W", "_", do.name)[:20]), 2, ty)
                do.arrays[k] = ARow(par, di[0], di[1], di[1].add(ln), (lambda i, a=a: a.select(self, None, (P(i).add(di[1], -1).add(si[0]),))))
            if self.writes is not None:
                self.writes.add((d.obj, "arr", k, k[1]))

    def cell_layout(self, st, p, n):
        o = st.heap[p.obj]
        if o.stride is None and p.off.is_const():
            b = p.off.c()
            return [(off - b, sz, ty) for off, (sz, ty, v) in sorted(o.cells.items()) if b <= off and off + sz <= b + n]
        if o.stride is not None:
            return [(f, TYSZ["i64" if k == "i64p" else k], "i64" if k == "i64p" else k) for (f, k) in o.arrays]
        raise Unsupported("cell layout")

    # ---------------------------------------------------------- evaluation
    def v(self, st, env, x):
        if "v" in x:
            r = env.get(x["v"])
            if r is None:
                raise Unsupported("value not available")
            return r
        return self.const(st, x)

    def uns(self, st, x, w):
        """unsigned mathematical value of a canonical integer of width w"""
        if w <= 16:
            return x
        if x.is_const():
            return Poly.const(x.c() % (1 << w))
        if self.entails(st, icmp("ge", x, 0)):
            return x
        return P(z3.If(x.z() >= 0, x.z(), x.z() + (1 << w)))

    def wrap(self, st, x, w):
        """mathematical integer -> canonical representation of width w"""
        lo, hi = (0, (1 << w) - 1) if w <= 16 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if x.is_const():
            c = x.c() % (1 << w)
            if c > hi:
                c -= 1 << w
            return Poly.const(c)
        if self.entails(st, band(icmp("le", lo, x), icmp("le", x, hi))):
            return x
        m = 1 << w
        if self.entails(st, band(icmp("le", lo - m, x), icmp("le", x, hi + m))):
            z = x.z()
            return P(z3.If(z > hi, z - m, z3.If(z < lo, z + m, z)))
        z = x.z()
        return P((z - lo) % m + lo)

    def as_int(self, x):
        if isinstance(x, (bool, z3.BoolRef)):
            return ite(x, Poly.const(1), Poly.const(0))
        return x

    def sgn(self, st, x, w):
        """signed mathematical value"""
        if w > 16:
            return x
        h = 1 << (w - 1)
        if x.is_const():
            return Poly.const(x.c() - (1 << w) if x.c() >= h else x.c())
        if self.entails(st, icmp("lt", x, h)):
            return x
        return P(z3.If(x.z() >= h, x.z() - (1 << w), x.z()))

    def tdiv(self, st, a, b):
        """C-style truncated division of mathematical integers"""
        if b.is_const() and b.c() > 0:
            q = a.div_exact(b.c())
            if q is not None:
                return q
        if a.is_const() and b.is_const() and b.c() != 0:
            q = abs(a.c()) // abs(b.c())
            return Poly.const(q if (a.c() >= 0) == (b.c() > 0) else -q)
        apos = self.entails(st, icmp("ge", a, 0))
        az, bz_ = a.z(), b.z()
        if apos and self.entails(st, icmp("gt", b, 0)):
            return P(az / bz_)
        if b.is_const() and b.c() > 0:
            return P(z3.If(az >= 0, az / bz_, -((-az) / bz_)))
        q = z3.If(z3.And(az >= 0, bz_ > 0), az / bz_, z3.If(z3.And(az < 0, bz_ > 0), -((-az) / bz_),
                  z3.If(z3.And(az >= 0, bz_ < 0), -(az / (-bz_)), (-az) / (-bz_))))
        return P(q)

    def binop(self, st, env, i):
        op, t = i["op"], i["t"]
        a, b = self.v(st, env, i["ops"][0]), self.v(st, env, i["ops"][1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if op == "fdiv":
                if not is_frac(b) or b == 0:
                    d = rcmp("ne", b, Fraction(0))
                    if self.o.get("check_div") and not self.quiet:
                        self.oblige(st, d, "no division by zero", i)
            if op == "frem":
                raise Unsupported("frem")
            r = {"fadd": radd, "fsub": rsub, "fmul": rmul, "fdiv": rdiv}[op](a, b)
            return self.fround(st, r) if self.o.get("fp_round") else r
        if t == "i1":
            if op == "and":
                return as_bool(band(a, b))
            if op == "or":
                return as_bool(bor(a, b))
            if op == "xor":
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        w = int(t[1:])
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    return a.off.add(b.off, -1)
                raise Unsupported("difference of pointers into different objects")
            if op == "sub" and (isinstance(a, PtrIte) or isinstance(b, PtrIte)):
                return self.map_ptr2(a, b, lambda x, y: x.off.add(y.off, -1) if x.obj == y.obj else (_ for _ in ()).throw(Unsupported("ptr diff")))
            if op == "add" and isinstance(b, Poly):
                return a.shift(b)
            if op == "sub" and isinstance(b, Poly):
                return a.shift(b.scale(-1))
            raise Unsupported("pointer arithmetic " + op)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported("integer op on reinterpreted value")
        if op in ("add", "sub", "mul"):
            sa, sb = self.sgn(st, a, w), self.sgn(st, b, w)
            r = sa.add(sb) if op == "add" else sa.add(sb, -1) if op == "sub" else sa.mul(sb)
            if i.get("nsw"):
                if self.o["overflow"] and not self.quiet and not r.is_const():
                    h = 1 << (w - 1)
                    self.oblige(st, band(icmp("le", -h, r), icmp("lt", r, h)), "no signed overflow in %s" % op, i)
                elif not self.o["overflow"]:
                    self.assumptions.add("signed integer arithmetic does not overflow (treated as mathematical) where no overflow obligation is listed")
                return r if w > 16 else self.wrap(st, r, w)
            return self.wrap(st, r, w)
        if op == "sdiv":
            return self.wrap(st, self.tdiv(st, self.sgn(st, a, w), self.sgn(st, b, w)), w) if w <= 16 else self.tdiv(st, a, b)
        if op == "srem":
            sa, sb = self.sgn(st, a, w), self.sgn(st, b, w)
            q = self.tdiv(st, sa, sb)
            r = sa.add(q.mul(sb), -1)
            if sb.is_const() and sb.c() > 0 and self.entails(st, icmp("ge", sa, 0)):
                r = P(sa.z() % sb.z())
            return self.wrap(st, r, w) if w <= 16 else r
        if op in ("udiv", "urem"):
            ua, ub = self.uns(st, a, w), self.uns(st, b, w)
            if ua.is_const() and ub.is_const() and ub.c():
                r = Poly.const(ua.c() // ub.c() if op == "udiv" else ua.c() % ub.c())
            else:
                if op == "udiv" and ub.is_const():
                    q = ua.div_exact(ub.c())
                    if q is not None:
                        return self.wrap(st, q, w)
                if op == "udiv" and not ub.is_const() and self.entails(st, icmp("ge", ub, 1)):
                    # quotient by a variable: named, with its defining inequalities
                    r = P(z3.Int(fresh_name("quot")))
                    pr = r.mul(ub)
                    st.assume(z3.And(Z(r) >= 0, Z(r) <= Z(ua), Z(pr) <= Z(ua), Z(ua) < Z(pr) + Z(ub)))
                    self.quotients.append((r, ua, ub))
                    return self.wrap(st, r, w)
                r = P(ua.z() / ub.z()) if op == "udiv" else P(ua.z() % ub.z())
            return self.wrap(st, r, w)
        if op == "shl":
            if b.is_const():
                return self.wrap(st, self.sgn(st, a, w).scale(1 << b.c()), w) if not i.get("nsw") else self.sgn(st, a, w).scale(1 << b.c())
            raise Unsupported("variable shift")
        if op in ("lshr", "ashr"):
            if not b.is_const():
                raise Unsupported("variable shift")
            k = 1 << b.c()
            x = self.uns(st, a, w) if op == "lshr" else self.sgn(st, a, w)
            q = x.div_exact(k)
            if q is not None:
                return self.wrap(st, q, w)
            if x.is_const():
                return self.wrap(st, Poly.const(x.c() // k), w)
            return self.wrap(st, P(x.z() / z3.IntVal(k)), w)
        if op in ("and", "or", "xor"):
            ua, ub = self.uns(st, a, w), self.uns(st, b, w)
            if ua.is_const() and ub.is_const():
                x, y = ua.c(), ub.c()
                return self.wrap(st, Poly.const({"and": x & y, "or": x | y, "xor": x ^ y}[op]), w)
            if ua.is_const():
                ua, ub, a, b = ub, ua, b, a
            if ub.is_const():
                c = ub.c()
                full = (1 << w) - 1
                if op == "and":
                    if c == 0:
                        return Poly.const(0)
                    if c == full:
                        return a
                    if c & (c + 1) == 0:
                        return self.wrap(st, P(ua.z() % z3.IntVal(c + 1)), w)
                    nc = full - c
                    if nc & (nc + 1) == 0:   # clears low bits
                        return self.wrap(st, ua.add(P(ua.z() % z3.IntVal(nc + 1)), -1), w)
                    if c & (c - 1) == 0:     # single bit
                        return self.wrap(st, P(z3.If((ua.z() / z3.IntVal(c)) % 2 == 1, z3.IntVal(c), z3.IntVal(0))), w)
                if op == "xor" and c == full:
                    return self.wrap(st, ua.scale(-1).add(Poly.const(full)), w)
                if op == "or" and c == 0 or op == "xor" and c == 0:
                    return a
                if op == "or" and c == 1:
                    return self.wrap(st, ua.add(P(1 - ua.z() % 2)), w)
            if self.o.get("opaque_xor") and op == "xor" and ub.is_const():
                # an unspecified function of the other operand with the operation's range
                r = P(z3.Function("xor%d_%d" % (w, ub.c()), z3.IntSort(), z3.IntSort())(ua.z()))
                st.assume(band(icmp("ge", r, 0), icmp("lt", r, 1 << w)))
                return self.wrap(st, r, w)
            bw = max(w, 8)
            e = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q}[op](z3.Int2BV(ua.z(), bw), z3.Int2BV(ub.z(), bw))
            r = P(z3.BV2Int(e, False))
            st.assume(icmp("ge", r, 0))
            return self.wrap(st, r, w)
        raise Unsupported(op)

    def map_ptr2(self, a, b, f):
        if isinstance(a, PtrIte):
            return ite(a.c, self.map_ptr2(a.a, b, f), self.map_ptr2(a.b, b, f))
        if isinstance(b, PtrIte):
            return ite(b.c, self.map_ptr2(a, b.a, f), self.map_ptr2(a, b.b, f))
        return f(a, b)

    def ptr_cmp(self, pred, a, b):
        if a.obj == b.obj:
            m = {"eq": "eq", "ne": "ne", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge"}[pred]
            return as_bool(icmp(m, a.off, b.off))
        if pred == "eq":
            return False
        if pred == "ne":
            return True
        raise Unsupported("ordering of pointers into different objects")

    def cmp(self, st, env, i):
        p = i["pred"]
        a, b = self.v(st, env, i["ops"][0]), self.v(st, env, i["ops"][1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.Bool(fresh_name("undefcmp"))
        if i["op"] == "fcmp":
            if p in ("ord", "uno"):
                self.assumptions.add("doubles are modelled as mathematical reals (no rounding, NaN or infinity arithmetic)")
                return p == "ord"
            return as_bool(rcmp({"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge"}[p[1:]], a, b))
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if isinstance(a, Poly) and a.is_const() and a.c() == 0:
                a = NULL
            if isinstance(b, Poly) and b.is_const() and b.c() == 0:
                b = NULL
            return as_bool(self.map_ptr2(a, b, lambda x, y: self.ptr_cmp(p, x, y)))
        t = i["ops"][0]["t"]
        if t == "i1":
            if p == "eq":
                return as_bool(bz(a) == bz(b)) if not (isinstance(a, bool) or isinstance(b, bool)) else (a if b is True else bnot(a) if b is False else b if a is True else bnot(b))
            if p == "ne":
                return as_bool(bz(a) != bz(b)) if not (isinstance(a, bool) or isinstance(b, bool)) else (bnot(a) if b is True else a if b is False else bnot(b) if a is True else b)
            raise Unsupported("i1 compare")
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported("comparison of reinterpreted values")
        w = int(t[1:])
        if p in ("eq", "ne"):
            return as_bool(icmp(p, a, b))
        if p[0] == "u":
            return as_bool(icmp(p[1:], self.uns(st, a, w), self.uns(st, b, w)))
        return as_bool(icmp(p[1:], self.sgn(st, a, w), self.sgn(st, b, w)))

    def fround(self, st, r):
        """IEEE double rounding: an exact result r becomes some r' with |r'-r| <= 2^-53 |r| (no under/overflow)"""
        if is_frac(r):
            return Fraction(float(r))
        q = freal("rnd")
        u = z3.Q(1, 1 << 53)
        st.assume(z3.If(rz(r) >= 0, z3.And(q >= rz(r) * (1 - u), q <= rz(r) * (1 + u)), z3.And(q <= rz(r) * (1 - u), q >= rz(r) * (1 + u))))
        return q

    def cast(self, st, env, i):
        op, t = i["op"], i["t"]
        x = self.v(st, env, i["ops"][0])
        ft = i["ops"][0]["t"]
        if isinstance(x, Undef):
            return UNDEF
        if op in ("bitcast", "freeze", "addrspacecast"):
            if op == "bitcast" and ft != t:
                return self.coerce(x, ft, t)
            return x
        if op in ("ptrtoint", "inttoptr"):
            return x if not (isinstance(x, Poly) and op == "inttoptr") else self.coerce(x, "i64", "ptr")
        if op in ("fpext", "fptrunc"):
            if op == "fptrunc":
                raise Unsupported("fptrunc")
            return x
        if op in ("sitofp", "uitofp"):
            if isinstance(x, (bool, z3.BoolRef)):
                return ite(x, Fraction(1 if op == "uitofp" else -1), Fraction(0))
            w = int(ft[1:])
            x = self.sgn(st, x, w) if op == "sitofp" else self.uns(st, x, w)
            return Fraction(x.c()) if x.is_const() else z3.ToReal(x.z())
        if op in ("fptosi", "fptoui"):
            w = int(t[1:])
            if is_frac(x):
                q = abs(x.numerator) // x.denominator
                return self.wrap(st, Poly.const(q if x >= 0 else -q), w)
            z = z3.simplify(rz(x))
            if self.entails(st, z >= 0):
                r = P(z3.ToInt(z))
            else:
                r = P(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
            h = 1 << (w - 1)
            if self.o.get("check_fptoint") and not self.quiet:
                self.oblige(st, band(icmp("le", -h, r), icmp("lt", r, h)), "real-to-integer conversion stays in range", i)
            else:
                self.assumptions.add("double-to-integer conversions stay in the target type's range where no obligation is listed")
            return r if w > 16 else self.wrap(st, r, w)
        if op in ("zext", "sext", "trunc"):
            if isinstance(x, (bool, z3.BoolRef)):
                if op == "zext":
                    return ite(x, Poly.const(1), Poly.const(0))
                return self.wrap(st, ite(x, Poly.const(-1), Poly.const(0)), int(t[1:]))
            w, fw = int(t[1:]), int(ft[1:])
            if isinstance(x, (Ptr, PtrIte)):
                raise Unsupported("truncated pointer")
            if op == "zext":
                return self.wrap(st, self.uns(st, x, fw), w)
            if op == "sext":
                return self.wrap(st, self.sgn(st, x, fw), w)
            if w == 1:
                if x.is_const():
                    return x.c() % 2 == 1
                # booleans stored as bytes
                if len(x.m) == 1:
                    z = x.z()
                    if z3.is_app_of(z, z3.Z3_OP_ITE) and z3.is_int_value(z.arg(1)) and z3.is_int_value(z.arg(2)) and z.arg(1).as_long() == 1 and z.arg(2).as_long() == 0:
                        return z.arg(0)
                return as_bool(x.z() % 2 == 1)
            return self.wrap(st, self.sgn(st, x, fw), w)
        raise Unsupported(op)

    # ---------------------------------------------------------- functions
    def run_function(self, name, st, args):
        """-> list of Result"""
        f = self.m.fn[name]
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth (recursion without contract): " + f["dem"])
        self.fnstack.append(f["dem"])
        try:
            env = {}
            for a, x in zip(f["args"], args):
                env[a["id"]] = x
            items = [Item(st, env, f["blocks"][0]["id"], {})]
            rets = []
            self.region(f, items, None, None, rets, None, None)
            if self.o["merge"] and len(rets) > 1:
                rets = self.merge_results(st, rets)
            return rets
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def merge_results(self, st0, rets):
        thr = [r for r in rets if r.kind != "ret"]
        ok = [r for r in rets if r.kind == "ret"]
        out = []
        for r in ok:
            for q in out:
                ms = self.merge_states(q.st, r.st)
                if ms is not None:
                    c, s = ms
                    try:
                        v = ite(c, q.val, r.val) if q.val is not None else None
                    except Unsupported:
                        continue
                    q.st, q.val = s, v
                    break
            else:
                out.append(r)
        tout = []
        for r in thr:
            for q in tout:
                ms = self.merge_states(q.st, r.st, heap=False)
                if ms is not None:
                    q.st = ms[1]
                    break
            else:
                tout.append(r)
        return out + tout

    def merge_states(self, a, b, heap=True):
        """-> (condition selecting a, merged state) or None"""
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        if len(a.schemas) != len(b.schemas) or any(x is not y for x, y in zip(a.schemas, b.schemas)):
            return None
        da, db = a.pc[n:], b.pc[n:]
        ca, cb = band(*da), band(*db)
        if not da or not db:
            return None
        s = a.fork()
        s.pc = a.pc[:n] + [z3.Or(bz(ca), bz(cb))]
        # a single distinguishing condition keeps terms small
        c = ca
        if da and db:
            for x in da:
                nx = z3.simplify(z3.Not(x))
                if any(z3.simplify(y).eq(nx) for y in db):
                    c = x
                    break
        if heap:
            for oid in set(a.heap) | set(b.heap):
                oa, ob = a.heap.get(oid), b.heap.get(oid)
                if oa is ob:
                    continue
                if oa is None or ob is None:
                    s.heap[oid] = oa or ob
                    continue
                if oa.stride != ob.stride or oa.live != ob.live or oa.zero_all != ob.zero_all or oa.zeros != ob.zeros:
                    return None
                o = oa.copy()
                cells = {}
                for off in set(oa.cells) & set(ob.cells):
                    (s1, t1, v1), (s2, t2, v2) = oa.cells[off], ob.cells[off]
                    if s1 != s2:
                        return None
                    if t1 != t2 and not same_val(v1, v2):
                        if {t1, t2} == {"i1", "i8"}:
                            v1, v2 = self.coerce(v1, t1, "i8"), self.coerce(v2, t2, "i8")
                            t1 = "i8"
                        elif {t1, t2} == {"ptr", "i64"} and isinstance(v1, (Ptr, PtrIte)) and isinstance(v2, (Ptr, PtrIte)):
                            pass
                        else:
                            return None
                    try:
                        cells[off] = (s1, t1, ite(c, v1, v2))
                    except Exception:
                        return None
                o.cells = cells
                arrs = {}
                for k in set(oa.arrays) | set(ob.arrays):
                    x, y = oa.arrays.get(k), ob.arrays.get(k)
                    if x is y:
                        arrs[k] = x
                    elif x is None or y is None:
                        return None
                    else:
                        arrs[k] = AIte(c, x, y)
                o.arrays = arrs
                if (oa.size is None) != (ob.size is None) or oa.size is not None and not oa.size.same(ob.size):
                    return None
                s.heap[oid] = o
        for k in set(a.ghost) | set(b.ghost):
            if k not in a.ghost or k not in b.ghost:
                return None
            if not same_val(a.ghost[k], b.ghost[k]):
                try:
                    s.ghost[k] = ite(c, a.ghost[k], b.ghost[k])
                except Exception:
                    return None
        return c, s

    def merge_items(self, its):
        out = []
        for it in its:
            for q in out:
                ms = self.merge_states(q.st, it.st)
                if ms is None:
                    continue
                c, s = ms
                env = {}
                try:
                    for k in q.env.keys() & it.env.keys():
                        env[k] = ite(c, q.env[k], it.env[k])
                except Exception:
                    continue
                q.st, q.env = s, env
                cn = dict(q.counts)
                for k, v in it.counts.items():
                    cn[k] = max(cn.get(k, 0), v)
                q.counts = cn
                break
            else:
                out.append(it)
        return out

    def region(self, f, items, header, blocks, rets, backs, exits):
        """Execute from items until they leave the region.  header/blocks None: whole function."""
        pend = {}
        for it in items:
            pend.setdefault(it.bb, []).append(it)
        first = header is not None
        rpo = f["rpo"]
        while pend:
            bb = min(pend, key=lambda b: rpo.get(b, 10 ** 9))
            its = pend.pop(bb)
            if self.o["merge"] and len(its) > 1:
                its = self.merge_items(its)
            for it in its:
                if time.time() - self.t0 > self.o["budget"]:
                    raise BudgetExceeded("time budget exhausted in " + f["dem"])
                start = first and bb == header
                # entering an inner loop from outside?
                if bb in f["L"] and not start and it.counts.get(("in", bb)) is None:
                    lp = f["L"][bb]
                    if self.o.get("step") and self.o["step"][0].search(f["dem"]):
                        self.step_loop(f, lp, it, rets)
                        continue
                    if self.should_cut(f, lp):
                        for e in self.cut_loop(f, lp, it, rets):
                            self.dispatch(f, e, header, blocks, pend, backs, exits)
                        continue
                    it.counts = dict(it.counts)
                    it.counts[("in", bb)] = 1
                    self.loops_unrolled.add((f["dem"], bb))
                try:
                    outs = self.block(f, it, rets)
                except Infeasible:
                    continue
                for e in outs:
                    self.dispatch(f, e, header, blocks, pend, backs, exits)
            first = False

    def step_loop(self, f, lp, it, rets):
        """one iteration from each loop-head state the contract describes; what happened is left in self.stepped"""
        for label, e in self.o["step"][1](self, f, lp, it):
            backs, exits = [], []
            self.region(f, [e], lp["header"], lp["set"], rets, backs, exits)
            self.stepped.append((label, e, backs, exits))

    def dispatch(self, f, e, header, blocks, pend, backs, exits):
        """e: Item whose bb is the target (phis already evaluated)."""
        if header is not None:
            if e.bb == header:
                backs.append(e)
                return
            if e.bb not in blocks:
                exits.append(e)
                return
        # leaving inner unrolled loops resets their counters
        for k in [k for k in e.counts if k[0] == "in"]:
            if e.bb not in f["L"][k[1]]["set"]:
                e.counts = {x: y for x, y in e.counts.items() if x != k and x != ("n", k[1])}
        pend.setdefault(e.bb, []).append(e)

    def should_cut(self, f, lp):
        if self.o["force_unroll"]:
            return False
        dem = f["dem"]
        for rx, prov in self.invariants:
            if rx.search(dem):
                return prov is not None and prov != "unroll"
        # inherit from the innermost caller under contract
        return self.o.get("cut_default", False)

    def provider(self, f):
        for rx, prov in self.invariants:
            if rx.search(f["dem"]) and callable(prov):
                return prov
        return self.o.get("default_provider")

    def edge(self, f, it, src, dst):
        """evaluate phis of dst for edge src->dst; returns Item"""
        env = it.env
        new = None
        for i in f["B"][dst]["ins"]:
            if i["op"] != "phi":
                break
            for val, b in i["in"]:
                if b == src:
                    if new is None:
                        new = dict(env)
                    try:
                        new[i["id"]] = self.v(it.st, env, val)
                    except Unsupported:
                        new.pop(i["id"], None)
                    break
        return Item(it.st, new if new is not None else env, dst, it.counts)

    def block(self, f, it, rets):
        """execute one basic block -> list of Items at successors"""
        bb = it.bb
        if bb in f["cold"]:
            if not self.feasible_state(it.st):
                return []
            rets.append(Result(it.st, "throw", None, self.loc(f["B"][bb]["ins"][-1]) if "line" in f["B"][bb]["ins"][-1] else f["dem"]))
            return []
        st, env = it.st, it.env
        if bb in f["L"]:
            n = it.counts.get(("n", bb), 0) + 1
            it.counts = dict(it.counts)
            it.counts[("n", bb)] = n
            if n > self.o["unroll"] + 1:
                raise Unsupported("loop in %s (block %d) needs an invariant: still running after %d iterations" % (f["dem"], bb, n))
        states = [(st, env)]
        ins = f["B"][bb]["ins"]
        for i in ins:
            self.steps += 1
            if self.steps > self.o["max_steps"]:
                raise BudgetExceeded("step budget")
            op = i["op"]
            if op == "phi":
                continue
            if op in ("call", "invoke"):
                ns = []
                for st, env in states:
                    try:
                        rs = self.call(f, st, env, i)
                    except Infeasible:
                        continue
                    for r in rs:
                        if r.kind == "throw":
                            if op == "invoke" and self.catches(f, i):
                                raise Unsupported("exception caught by a handler in " + f["dem"])
                            rets.append(r)
                        else:
                            e2 = dict(env)
                            if i["t"] != "void":
                                e2[i["id"]] = r.val
                            ns.append((r.st, e2))
                states = ns
                if op == "invoke":
                    return [self.edge(f, Item(s, e, bb, it.counts), bb, i["normal"]) for s, e in states]
                if not states:
                    return []
                continue
            if op in ("br", "switch", "ret", "unreachable", "resume"):
                out = []
                for st, env in states:
                    out += self.terminator(f, Item(st, env, bb, it.counts), i, rets)
                return out
            ns = []
            for st, env in states:
                try:
                    if len(states) == 1 and env is it.env:
                        env = dict(env)
                    self.simple(st, env, i)
                    ns.append((st, env))
                except Infeasible:
                    pass
            states = ns
            if not states:
                return []
        raise Unsupported("block without terminator")

    def catches(self, f, i):
        for x in f["B"][i["unwind"]]["ins"]:
            if x["op"] == "landingpad":
                ks = [o for o in x.get("ops", [])]
                return any("null" not in o for o in ks)
        return False

    def feasible_state(self, st):
        return not self.entails(st, False) if False else self.sat_state(st)

    def sat_state(self, st):
        ip = [p for p in st.pc]
        key = ("sat", tuple(p.get_id() for p in ip))
        r = self.entail_cache.get(key)
        if r is None:
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*ip)
            inst = solve.instantiate(st.schemas, ip, rounds=2, limit=200) if st.schemas else []
            if inst:
                s.add(*inst)
            r = (s.check() != z3.unsat, ip)
            self.entail_cache[key] = r
        return r[0]

    def terminator(self, f, it, i, rets):
        op = i["op"]
        st, env, bb = it.st, it.env, it.bb
        if op == "ret":
            ops = i.get("ops", [])
            rets.append(Result(st, "ret", self.v(st, env, ops[0]) if ops else None))
            return []
        if op in ("unreachable", "resume"):
            rets.append(Result(st, "throw", None, f["dem"]))
            return []
        if op == "br":
            s = i["succ"]
            if len(s) == 1:
                return [self.edge(f, it, bb, s[0])]
            c = as_bool(self.v(st, env, i["cond"]))
            if isinstance(c, Undef):
                raise Unsupported("branch on undefined value")
            if isinstance(c, bool):
                return [self.edge(f, it, bb, s[0] if c else s[1])]
            out = []
            for cond, tgt in ((c, s[0]), (bnot(c), s[1])):
                if self.feasible(st, cond) :
                    s2 = st.fork()
                    try:
                        s2.assume(cond)
                    except Infeasible:
                        continue
                    out.append(self.edge(f, Item(s2, env, bb, it.counts), bb, tgt))
            if len(out) == 1 and len(out[0].st.pc) > len(st.pc):
                out[0].st.pc = list(st.pc)     # implied condition: keep the path condition small
            return out
        if op == "switch":
            x = self.v(st, env, i["cond"])
            out = []
            negs = []
            groups = {}
            for cv, tgt in i["cases"]:
                c = as_bool(icmp("eq", x, self.const(st, cv)))
                groups.setdefault(tgt, []).append(c)
                negs.append(bnot(c))
            for tgt, cs in groups.items():
                c = as_bool(bor(*cs))
                if c is False or not self.feasible(st, c):
                    continue
                s2 = st.fork()
                s2.assume(c)
                out.append(self.edge(f, Item(s2, env, bb, it.counts), bb, tgt))
            c = as_bool(band(*negs))
            if c is not False and self.feasible(st, c):
                s2 = st.fork()
                s2.assume(c)
                out.append(self.edge(f, Item(s2, env, bb, it.counts), bb, i["default"]))
            return out
        raise Unsupported(op)

    def simple(self, st, env, i):
        op = i["op"]
        if op == "alloca":
            o = self.new_obj(st, "local:" + str(i.get("name", "")), i["size"])
            env[i["id"]] = Ptr(o.id, 0)
        elif op == "load":
            v = self.load(st, self.v(st, env, i["ops"][0]), i["t"], i)
            env[i["id"]] = v
        elif op == "store":
            val = self.v(st, env, i["ops"][0])
            self.store(st, self.v(st, env, i["ops"][1]), i["ops"][0]["t"], val, i)
        elif op == "getelementptr":
            p = self.v(st, env, i["base"])
            d = Poly.const(i["off"])
            for x, s in i["var"]:
                xv = self.v(st, env, x)
                if not isinstance(xv, Poly):
                    raise Unsupported("gep index")
                w = int(x["t"][1:])
                d = d.add(self.sgn(st, xv, w).scale(s))
            if isinstance(p, Poly):
                raise Unsupported("gep on integer")
            env[i["id"]] = p.shift(d) if not isinstance(p, Undef) else UNDEF
        elif op in ("icmp", "fcmp"):
            env[i["id"]] = self.cmp(st, env, i)
        elif op == "select":
            c = as_bool(self.v(st, env, i["ops"][0]))
            if isinstance(c, Undef):
                env[i["id"]] = UNDEF
                return
            a, b = self.v(st, env, i["ops"][1]), self.v(st, env, i["ops"][2])
            if not isinstance(c, bool):
                if self.entails(st, c):
                    c = True
                elif self.entails(st, bnot(c)):
                    c = False
            env[i["id"]] = ite(c, a, b)
        elif op == "fneg":
            x = self.v(st, env, i["ops"][0])
            env[i["id"]] = -x if is_frac(x) else (UNDEF if isinstance(x, Undef) else -rz(x))
        elif op == "extractvalue":
            x = self.v(st, env, i["ops"][0])
            for k in i["idx"]:
                if isinstance(x, Undef):
                    break
                x = x.v[k]
            env[i["id"]] = x
        elif op == "insertvalue":
            x = self.v(st, env, i["ops"][0])
            y = self.v(st, env, i["ops"][1])
            if len(i["idx"]) != 1:
                raise Unsupported("nested insertvalue")
            n = list(x.v)
            n[i["idx"][0]] = y
            env[i["id"]] = Agg(n)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            env[i["id"]] = self.binop(st, env, i)
        elif op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "freeze", "fpext", "fptrunc"):
            env[i["id"]] = self.cast(st, env, i)
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction " + op)

    # ---------------------------------------------------------- calls
    def call(self, f, st, env, i):
        cal = self.v(st, env, i["callee"])
        args = [self.v(st, env, a) for a in i["args"]]
        if isinstance(cal, PtrIte):
            out = []
            for c, p in ((cal.c, cal.a), (bnot(cal.c), cal.b)):
                if self.feasible(st, c):
                    s2 = st.fork()
                    s2.assume(c)
                    out += self.call_ptr(f, s2, p, list(args), i)
            return out
        return self.call_ptr(f, st, cal, args, i)

    def call_ptr(self, f, st, cal, args, i):
        if not isinstance(cal, Ptr) or not isinstance(cal.obj, tuple):
            raise Unsupported("indirect call in " + f["dem"])
        name = cal.obj[1]
        for k, n in enumerate(i.get("byval", [])):
            if n and isinstance(args[k], Ptr):
                o = self.new_obj(st, "byval", n)
                self.memcpy(st, Ptr(o.id, 0), args[k], n, i)
                args[k] = Ptr(o.id, 0)
        return self.invoke_name(f, st, name, args, i)

    def invoke_name(self, f, st, name, args, i):
        fn = self.m.fn.get(name)
        dem = fn["dem"] if fn else self.m.decls.get(name, name)
        for rx, h in self.contracts:
            if rx.search(dem):
                r = h(self, st, args, i, dem)
                if r is not None:
                    self.used_contracts.add(dem)
                    return r
        for rx, h in self.builtins:
            if rx.search(name) or rx.search(dem):
                r = h(self, st, args, i, dem)
                if r is not None:
                    self.used_builtins.add(dem if not name.startswith("llvm.") else name)
                    return r
        if fn is None:
            raise Unsupported("call to external function without contract: " + dem)
        self.inlined.add(dem)
        return self.run_function(name, st, args)

    # ---------------------------------------------------------- loops
    def loop_vars(self, f, lp, env_entry, st0, W, syms):
        """list of variable descriptors with entry values and head symbols"""
        out = []
        for i in f["B"][lp["header"]]["ins"]:
            if i["op"] != "phi":
                break
            e = env_entry.get(i["id"])
            out.append({"id": ("phi", i["id"]), "t": i["t"], "entry": e, "name": i.get("name", "phi%d" % i["id"])})
        for w in sorted([w for w in W if w[1] == "cell"], key=str):
            oid, _, off, sz, ty = w
            o = st0.heap.get(oid)
            if o is None:
                continue
            c = o.cells.get(off)
            out.append({"id": ("cell", oid, off, sz, ty), "t": ty, "entry": c[2] if c else UNDEF, "name": "%s%s+%d" % (o.name, "#%d" % oid if o.name.startswith("local") else "", off)})
        for v in out:
            e, t = v["entry"], v["t"]
            if v["id"] in syms:
                v["head"] = syms[v["id"]]
            else:
                nm = re.sub(r"\W", "_", v["name"])[:24]
                if isinstance(e, PtrIte):
                    raise Unsupported("loop over conditional pointer " + v["name"])
                if isinstance(e, Ptr) or t == "ptr":
                    if isinstance(e, Undef) or e is None:
                        h = UNDEF
                    elif e.obj is None:
                        h = ("dynptr",)
                    else:
                        o = st0.heap.get(e.obj)
                        s = (o.stride if o is not None and not isinstance(e.obj, tuple) and o.stride else 1) if not isinstance(e.obj, tuple) else 1
                        k = fint("ix_" + nm)
                        r = e.off.c() % s if s > 1 else 0
                        h = Ptr(e.obj, k.scale(s).add(Poly.const(r)))
                        v["stride"] = s
                elif t == "f64":
                    h = freal("r_" + nm)
                elif t == "i1":
                    h = z3.Bool(fresh_name("b_" + nm))
                elif isinstance(t, str) and t[0] == "i":
                    h = fint("i_" + nm)
                else:
                    h = UNDEF
                syms[v["id"]] = h
                v["head"] = h
        return out

    def var_views(self, vars_, values, st0):
        """descriptor list for LoopCtx with the given current values"""
        out = []
        for v, cur in zip(vars_, values):
            e, t = v["entry"], v["t"]
            if isinstance(v["head"], Ptr):
                if not isinstance(cur, Ptr):
                    continue
                o = st0.heap.get(cur.obj) if not isinstance(cur.obj, tuple) else None
                s = o.stride if o is not None and o.stride else 1
                ec, cc = e.off.add(Poly.const(e.off.c() % s), -1).div_exact(s), cur.off.add(Poly.const(cur.off.c() % s), -1).div_exact(s)
                if ec is None or cc is None:
                    ec, cc, s = e.off, cur.off, 1
                out.append({"kind": "int", "ptr": cur.obj, "name": v["name"], "cur": cc, "entry": ec, "id": v["id"]})
            elif isinstance(v["head"], Poly):
                if isinstance(cur, (bool, z3.BoolRef)) or not isinstance(cur, Poly):
                    continue
                out.append({"kind": "int", "ptr": None, "name": v["name"], "cur": cur, "entry": e, "id": v["id"]})
            elif t == "f64" and not isinstance(cur, Undef):
                out.append({"kind": "real", "name": v["name"], "cur": rz(cur), "entry": None if isinstance(e, Undef) else e, "id": v["id"]})
            elif t == "i1" and not isinstance(cur, Undef):
                out.append({"kind": "bool", "name": v["name"], "cur": cur, "entry": e, "id": v["id"]})
        return out

    def head_values(self, vars_, st, env):
        vals = []
        for v in vars_:
            if v["id"][0] == "phi":
                vals.append(env.get(v["id"][1], UNDEF))
            else:
                _, oid, off, sz, ty = v["id"]
                c = st.heap[oid].cells.get(off) if oid in st.heap else None
                vals.append(c[2] if c is not None else UNDEF)
        return vals

    def auto_candidates(self, ctx, conds, vars_):
        out = []
        ints = [v for v in ctx.ints() if isinstance(v["entry"], Poly)]
        for v in ints:
            out.append(("auto:%s>=entry" % v["name"], icmp("ge", v["cur"], v["entry"])))
            out.append(("auto:%s<=entry" % v["name"], icmp("le", v["cur"], v["entry"])))
        for a in range(len(ints)):
            for b in range(a + 1, len(ints)):
                va, vb = ints[a], ints[b]
                da, db = va["cur"].add(va["entry"], -1), vb["cur"].add(vb["entry"], -1)
                out.append(("auto:%s~%s" % (va["name"], vb["name"]), icmp("eq", da, db)))
                out.append(("auto:%s~-%s" % (va["name"], vb["name"]), icmp("eq", da, db.scale(-1))))
        return out

    def cut_loop(self, f, lp, it, rets):
        hdr = lp["header"]
        st0, env0 = it.st, it.env
        W = set()
        syms = {}
        arrsyms = {}
        prov = self.provider(f)
        dropped = set()
        guards = {}        # name -> formula over head symbols
        existing = set(st0.heap)
        label = "%s loop@%s" % (f["dem"].replace("(anonymous namespace)::", "").split("(")[0], self.loop_line(f, lp))
        outer_writes = self.writes
        for rnd in range(60):
            vars_ = self.loop_vars(f, lp, env0, st0, W, syms)
            if any(v["head"] == ("dynptr",) for v in vars_ if isinstance(v["head"], tuple)):
                raise Unsupported("loop pointer starts null in " + f["dem"])
            hst, henv, harr = self.havoc(f, lp, st0, env0, vars_, W, arrsyms)
            heads = [v["head"] for v in vars_]
            ectx = LoopCtx(self, f, lp, st0, st0, self.var_views(vars_, [v["entry"] if not isinstance(v["entry"], Undef) else v["head"] for v in vars_], st0), harr, env0)
            hctx = LoopCtx(self, f, lp, hst, st0, self.var_views(vars_, heads, st0), harr, henv)
            entry_sub = self.subst_pairs(vars_, heads, [v["entry"] for v in vars_])
            ecands = self.cands(ectx, prov, vars_)
            hcands = self.cands(hctx, prov, vars_)
            for n, g in guards.items():
                hcands[n] = g
                ecands[n] = z3.substitute(bz(g), *entry_sub) if entry_sub is not None else None
            # initially true?
            active = []
            for n in hcands:
                if n in dropped:
                    continue
                ef = ecands.get(n)
                if ef is None or not self.holds(st0, ef):
                    dropped.add(n)
                    continue
                active.append(n)
            s = hst.fork()
            try:
                for n in active:
                    self.assume_cand(s, hcands[n], n, harr, arrsyms)
            except Infeasible:
                raise Unsupported("loop invariant contradictory in " + f["dem"])
            fresh0 = fresh_counter()
            self.quiet += 1
            self.writes = set()
            self.guardlog = getattr(self, "guardlog", [])
            self.guardlog.append((lp, f, []))
            backs, exits, r2 = [], [], []
            try:
                self.region(f, [Item(s, henv, hdr, {})], hdr, lp["set"], r2, backs, exits)
            finally:
                self.quiet -= 1
                wr = self.writes
                self.writes = outer_writes
                gl = self.guardlog.pop()
            wr = {w for w in wr if w[0] in existing and w[0] in st0.heap}
            wr = self.norm_writes(wr, st0, backs)
            if not wr <= W:
                W |= wr
                continue
            # new guard candidates from exit conditions
            newg = self.guard_cands(f, lp, heads, vars_, backs, exits, s, fresh0) if rnd < 25 else {}
            added = False
            for n, g in newg.items():
                if n not in guards and n not in dropped:
                    guards[n] = g
                    added = True
            if added:
                continue
            # preserved?
            bad = set()
            loose = False
            for b in backs:
                bvals = self.head_values(vars_, b.st, b.env)
                for v, x in zip(vars_, bvals):
                    h = v["head"]
                    if isinstance(h, Ptr) and (not isinstance(x, Ptr) or x.obj != h.obj):
                        if v["id"][0] == "cell":
                            # a pointer in memory that moves to another object: unknown at the loop's head
                            syms[v["id"]] = UNDEF
                            loose = True
                            break
                        raise Unsupported("loop pointer %s changes object in %s" % (v["name"], f["dem"]))
                if loose:
                    break
                bctx = LoopCtx(self, f, lp, b.st, st0, self.var_views(vars_, bvals, st0), harr, b.env)
                bc = self.cands(bctx, prov, vars_)
                sub = self.subst_pairs(vars_, heads, bvals)
                for n in active:
                    if n in bad:
                        continue
                    fm = z3.substitute(bz(guards[n]), *sub) if n in guards and sub is not None else bc.get(n)
                    if fm is None or not self.holds(b.st, fm, heads):
                        bad.add(n)
            if loose:
                continue
            if bad:
                dropped |= bad
                continue
            # stable: final pass with obligations recorded
            break
        else:
            raise Unsupported("loop invariant search did not converge in " + f["dem"])
        # final pass
        s = hst.fork()
        for n in active:
            self.assume_cand(s, hcands[n], n, harr, arrsyms)
        if outer_writes is not None:
            outer_writes |= W
        if not self.quiet:
            keep = [n for n in active]
            self.loops_cut.append({"loop": label, "invariants": keep, "backedges": len(backs)})
            for n in keep:
                self.results.append({"name": "loop invariant '%s' of %s: initially true" % (n, label), "where": label, "class": "invariant", "status": "valid", "t": 0.0, "model": None, "st": None, "goal": None})
                if backs:
                    self.results.append({"name": "loop invariant '%s' of %s: preserved" % (n, label), "where": label, "class": "invariant", "status": "valid", "t": 0.0, "model": None, "st": None, "goal": None})
        backs, exits, r2 = [], [], []
        self.region(f, [Item(s, henv, hdr, {})], hdr, lp["set"], r2, backs, exits)
        rets.extend(r2)
        for e in exits:
            e.counts = it.counts
        return exits

    def loop_line(self, f, lp):
        for b in [lp["header"]] + sorted(lp["set"]):
            for i in f["B"][b]["ins"]:
                if i.get("line"):
                    return "%s:%s" % (str(i.get("file", "")).replace("/repo/", ""), i["line"])
        return "?"

    def holds(self, st, fm, heads=()):
        if isinstance(fm, All) and fm.arity == 1:
            # cases: the index just processed / any other index
            hs = [h for h in heads if isinstance(h, Poly)]
            if hs:
                k = atom(z3.Int(fresh_name("sk")))
                g = as_bool(fm.fn(k))
                r = solve.valid(st.pc, st.schemas, g, timeout_ms=1500, deep=False)[0] if not isinstance(g, bool) else "valid" if g else "unknown"
                if r == "valid":
                    return True
                if r == "unknown":
                    ok = True
                    for h in hs:
                        ok = self.holds(st, fm.fn(h))
                        if not ok:
                            break
                    if ok:
                        s = st.fork()
                        try:
                            for h in hs:
                                s.assume(Z(k) != Z(h))
                        except Infeasible:
                            return True
                        return self.holds(s, fm.fn(k))
                    return False
        if isinstance(fm, All):
            ks = [atom(z3.Int(fresh_name("sk"))) for _ in range(fm.arity)]
            g = fm.fn(*ks)
            if g is None:
                return True
        else:
            g = fm
        g = as_bool(g)
        if g is True:
            return True
        if g is False:
            return not self.sat_state(st)
        r, _ = solve.valid(st.pc, st.schemas, g, timeout_ms=self.o.get("t_inv", 4000), deep=self.o.get("deep_inv", True))
        return r == "valid"

    def assume_cand(self, st, fm, name, harr, arrsyms):
        if isinstance(fm, All):
            trig = [d for d in arrsyms.values() if d is not None and (fm.pairs or fm.argmap is not None or d.arity() == fm.arity)] + list(fm.triggers)
            if trig:
                st.schemas.append(Schema(name, trig, lambda *a: fm.fn(*[P(x) for x in a]), fm.extra, fm.argmap, fm.pairs))
        else:
            st.assume(fm)

    def cands(self, ctx, prov, vars_):
        out = {}
        if self.o["autoinv"]:
            for n, g in self.auto_candidates(ctx, None, vars_):
                out[n] = g
        if prov is not None:
            for n, g in prov(ctx):
                out[n] = g
        return out

    def subst_pairs(self, vars_, heads, vals):
        prs = []
        for v, h, x in zip(vars_, heads, vals):
            if isinstance(h, Ptr):
                if not isinstance(x, Ptr):
                    return None
                # head offset = stride*k + r ; substitute k
                (mono,) = [m for m in h.off.m if m != ()]
                s = h.off.m[mono]
                k = x.off.add(Poly.const(h.off.c()), -1).div_exact(s)
                if k is None:
                    return None
                prs.append((Poly({mono: 1}).z(), k.z()))
            elif isinstance(h, Poly):
                if not isinstance(x, Poly):
                    return None
                prs.append((h.z(), x.z()))
            elif z3.is_expr(h):
                if isinstance(x, Undef):
                    continue
                prs.append((h, rz(x) if h.sort() == z3.RealSort() else bz(x)))
        return prs

    def guard_cands(self, f, lp, heads, vars_, backs, exits, hst, fresh0):
        """candidate bounds from the conditions under which the loop continues / exits"""
        out = {}
        atoms_ = set()
        for h in heads:
            if isinstance(h, Ptr):
                for m in h.off.m:
                    atoms_ |= set(m)
            elif isinstance(h, Poly):
                for m in h.m:
                    atoms_ |= set(m)
        n0 = len(hst.pc)

        def scan(e):
            if z3.is_and(e) or z3.is_or(e):
                for c in e.children():
                    yield from scan(c)
            elif z3.is_not(e):
                yield from scan(e.arg(0))
            elif z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                if e.num_args() == 2 and e.arg(0).sort() == z3.IntSort():
                    yield e
        seen = set()
        for x in list(backs) + list(exits):
            for c in x.st.pc[n0:]:
                for e in scan(c):
                    d = P(e.arg(0)).add(P(e.arg(1)), -1)
                    used = set()
                    for m in d.m:
                        used |= set(m) & atoms_
                    if not used or d.key() in seen:
                        continue
                    if any(n > fresh0 for n in fresh_numbers(e)):      # mentions a symbol of one iteration only
                        continue
                    seen.add(d.key())
                    for nm, g in (("<=", icmp("le", d, 0)), (">=", icmp("ge", d, 0)), ("<=1", icmp("le", d, 1)), (">=-1", icmp("ge", d, -1))):
                        if not isinstance(g, bool):
                            out["guard:%s%s" % (d.z(), nm)] = g
        return out

    def norm_writes(self, wr, st0, backs):
        """writes to objects; cells of objects that became arrays are treated as array writes"""
        out = set()
        for w in wr:
            oid = w[0]
            o = st0.heap[oid]
            if w[1] == "cell" and o.stride is not None:
                continue
            if w[1] == "arr" and o.stride is None:
                # object turned into an array inside the loop: convert it up front
                raise Unsupported("object %s indexed symbolically only inside a loop" % o.name)
            out.add(w)
        return out

    def havoc(self, f, lp, st0, env0, vars_, W, arrsyms):
        st = st0.fork()
        env = dict(env0)
        for v in vars_:
            h = v["head"]
            if isinstance(h, Poly) and isinstance(v["t"], str) and v["t"][0] == "i":
                lo, hi = self.irange(v["t"])
                st.assume(icmp("le", lo, h))
                st.assume(icmp("le", h, hi))
            if v["id"][0] == "phi":
                if isinstance(h, Undef):
                    env[v["id"][1]] = UNDEF
                else:
                    env[v["id"][1]] = h
            else:
                _, oid, off, sz, ty = v["id"]
                o = st.own(oid)
                self.clear_cells(o, off, off + sz)
                if not isinstance(h, Undef):
                    o.cells[off] = (sz, ty, h)
        harr = []
        for w in sorted([w for w in W if w[1] in ("arr", "whole")], key=str):
            oid = w[0]
            if w[1] == "whole":
                o = st.own(oid)
                if o.stride is None:
                    o.cells, o.zeros, o.zero_all = {}, [], False
                continue
            k, ty = w[2], w[3]
            o = st.own(oid)
            a0 = o.arrays.get(k)
            key = (oid, k)
            if key not in arrsyms:
                if self.is_ptr_array(a0, o):
                    arrsyms[key] = None
                    if self.o.get("ptr_arrays"):
                        # the contract's model: every entry is null or entry number id of one object
                        nm = fresh_name("h_" + re.sub(r"\W", "_", o.name)[:24])
                        arrsyms[key] = uf(nm, 1, "i64")
                        arrsyms[key + ("null",)] = z3.Function(nm + "_null", z3.IntSort(), z3.BoolSort())
                else:
                    arrsyms[key] = uf(fresh_name("h_" + re.sub(r"\W", "_", o.name)[:24]), 2 if o.rowlen is not None else 1, "i64" if k[1] == "i64p" else k[1])
            d = arrsyms[key]
            if d is None:
                raise Unsupported("array of pointers modified in loop: " + o.name)
            nul = arrsyms.get(key + ("null",))
            if nul is not None:
                spec = self.o["ptr_arrays"](o)
                if callable(spec):      # entries given by the contract from one integer and one truth value each
                    o.arrays[k] = ABase(spec(d, nul), d)
                    harr.append((oid, k))
                    continue
                obj, sc = spec
                o.arrays[k] = ABase(lambda i, d=d, nul=nul, obj=obj, sc=sc: PtrIte(nul(Z(i)), NULL, Ptr(obj, P(d(Z(i))).scale(sc))), d)
                harr.append((oid, k))
                continue
            tt = "i64" if k[1] == "i64p" else k[1]
            o.arrays[k] = ABase(lambda *ix, d=d, tt=tt: wrapty(tt, d(*[Z(i) for i in ix])), d)
            harr.append((oid, k))
        return st, env, harr

    def is_ptr_array(self, a, o):
        try:
            if a is None:
                return False
            v = a.select(self, None, (Poly.const(0),) * (2 if o.rowlen is not None else 1))
            return isinstance(v, (Ptr, PtrIte))
        except Unsupported:
            return True
