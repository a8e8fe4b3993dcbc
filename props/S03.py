import S01
from S01 import *
ID = "S03"
META = dict(
    title="Smoothed evaluation blends the branches of an IF by its degree of truth",
    statement="For every script and smoothing width, a condition's degree of truth lies in [0,1], is exactly 0 or 1 wherever the compared value is further from the boundary than the smoothing reaches, and moves linearly in between; connectives combine degrees as probabilities. An IF with degree of truth strictly between 0 and 1 runs both branches from the same starting values and gives every variable the average of the two outcomes, weighted by that degree; with degree 0 or 1 it is the ordinary IF.",
    quantifier=dict(over=["programs", "inputs"], text="every condition and statement tree, every smoothing width, all operand values, every nesting level"),
    why_tests_cant="Tests smooth a few products at one width; a branch that starts from the other branch's outcome, or a variable missing from the average, shows only for nested blocks and values inside the smoothing band.",
    anchors=dict(files=["dal/script/visitor/fuzzy.hpp", "dal/script/visitor/ifprocessor.hpp", "dal/script/visitor/evaluator.hpp"],
                 mechanism=["call spread and butterfly @ CSpr, BFly in dal/script/visitor/fuzzy.hpp", "degree of truth per condition @ FuzzyEvaluator_::Visit", "blending of branches @ FuzzyEvaluator_::Visit(NodeIf_)",
                            "variables affected by a block @ IFProcessor_ in dal/script/visitor/ifprocessor.hpp"]),
    level_note="per node kind, children by contract (structural induction); doubles as reals; width > 0; 0 strictly inside the discrete bounds")

HEAD3 = HEAD
DRV = HEAD3
for _n in NODES:
    _c = "Node%s_" % _n.rstrip("_")
    DRV += "void T_%s(FuzzyEvaluator_<double>& e, const %s& n) { e.Visit(n); }\n" % (_n, _c)
DRV += '''const void* A_vars(const FuzzyEvaluator_<double>& e) { return &e.VarVals(); }
const void* A_consts(const FuzzyEvaluator_<double>& e) { return &e.ConstVarVals(); }
void A_scen(FuzzyEvaluator_<double>& e, const AAD::Scenario_<double>* s) { e.SetScenario(s); }
void A_evt(FuzzyEvaluator_<double>& e, size_t k) { e.SetCurEvt(k); }
const void* A_spot(const AAD::Sample_<double>& s) { return &s.spot_; }
const void* A_num(const AAD::Sample_<double>& s) { return &s.numeraire_; }
int A_samplesize() { return (int)sizeof(AAD::Sample_<double>); }
const void* A_level(const FuzzyEvaluator_<double>& e) { return &e.nestedIfLvl_; }
const void* A_store0(const FuzzyEvaluator_<double>& e) { return &e.varStore0_; }
const void* A_store1(const FuzzyEvaluator_<double>& e) { return &e.varStore1_; }
void A_width(FuzzyEvaluator_<double>& e, double w) { e.SetDefEps(w); }
double G_cspr(double x, double e) { return CSpr(x, e); }
double G_cspr2(double x, double l, double r) { return CSpr(x, l, r); }
double G_bfly(double x, double e) { return BFly(x, e); }
double G_bfly2(double x, double l, double r) { return BFly(x, l, r); }
void X_If(IFProcessor_& p, NodeIf_& n) { p.Visit(n); }
void X_Assign(IFProcessor_& p, NodeAssign_& n) { p.Visit(n); }
void X_Pays(IFProcessor_& p, NodePays_& n) { p.Visit(n); }
void X_Var(IFProcessor_& p, NodeVar_& n) { p.Visit(n); }
const void* A_xlevel(const IFProcessor_& p) { return &p.nestedIfLvl_; }
const void* A_xmax(const IFProcessor_& p) { return &p.maxNestedIfs_; }
const void* A_xstack(const IFProcessor_& p) { return &p.varStack_; }
'''
DRIVERS = {"s": (DRV, [r"^T_", r"^A_", r"^F_", r"^G_", r"^X_"], ["-Xclang", "-fno-access-control"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random scripts through the real parser and preprocessing, smoothed evaluation against an averaging interpreter of the generated tree, and against the sharp meaning away from every boundary"
ASSUMPTIONS = ["doubles as real numbers; exp, log, sqrt, pow as uninterpreted functions", "an expression nests less than 128 deep (capacity of the evaluation stacks)",
               "a node's arguments are of the kind its role requires (guaranteed by the parser)", "the smoothing width is positive; discrete bounds satisfy lb < 0 < rb (equality) and lb < rb (inequality), as the domain analysis sets them",
               "a degree of truth within 2e-14 of 0 or 1 counts as 0 or 1 (the library's own tolerance)", "the preallocated stores have one level per nesting depth, each with a slot per variable",
               "std::set insert and copy as their standard meaning"]
SOURCES = None


def cspr(x, l, r):
    return z3.If(x <= l, z3.RealVal(0), z3.If(x >= r, z3.RealVal(1), (x - l) / (r - l)))


def bfly(x, l, r):
    return z3.If(z3.Or(x <= l, x >= r), z3.RealVal(0), z3.If(x < 0, 1 - x / l, 1 - x / r))


@contract("s")
def shapes(c):
    """spread and butterfly: 0 or 1 outside the band, linear inside, always in [0,1]"""
    c.exec([])
    x, e, l, r = c.real("x"), c.real("eps"), c.real("lb"), c.real("rb")
    c.assume(z3.And(e > 0, l < r))
    h = e / 2
    for nm, args, spec in (("cspr", [x, e], cspr(x, -h, h)), ("cspr2", [x, l, r], cspr(x, l, r)), ("bfly", [x, e], bfly(x, -h, h)), ("bfly2", [x, l, r], bfly(x, l, r))):
        pre = c.st.fork()
        if nm == "bfly2":
            pre.assume(z3.And(l < 0, r > 0))
        for q in c.call(r"^G_%s\(" % nm, args, st=pre):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            v = rz(q.val)
            c.ensure(q.st, v == spec, "%s: linear between the ends of its band, constant outside" % nm)
            c.ensure(q.st, z3.And(v >= 0, v <= 1), "%s lies in [0,1]" % nm)
            if nm == "bfly" or nm == "bfly2":
                c.ensure(q.st, z3.Implies(x == 0, v == 1), "%s is 1 where the values are equal" % nm)
            else:
                lo, hi = (-h, h) if nm == "cspr" else (l, r)
                c.ensure(q.st, z3.Implies(x >= hi, v == 1), "%s is 1 beyond the band" % nm)
                c.ensure(q.st, z3.Implies(x <= lo, v == 0), "%s is 0 before the band" % nm)


# ---- arithmetic, assignments and payments: the instantiation the smoothed evaluator runs
for _n in NODES:
    if _n in BIN or _n in UN:
        contract("s")(S01.tree(_n))
for _n in ("Assign", "Pays"):
    contract("s")(S01.tree_act(_n))

DEGREE = z3.Function("degree_of_child", z3.IntSort(), z3.RealSort())
D = [DEGREE(z3.IntVal(k)) for k in range(3)]


def fpusher(ch, w, kind):
    def h(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        if not k.is_const():
            raise Unsupported("which child")
        ks = key(ex, st, Ptr(w["ev"].obj, w["d" if kind == "num" else "b"]))
        st.ghost[ks] = st.ghost.get(ks, ()) + (slot(ex, st, "double", VAL(z3.IntVal(k.c())) if kind == "num" else DEGREE(z3.IntVal(k.c()))),)
        return [Result(st, "ret", None)]
    return [(re.compile("^virtual:"), h)]


def level(c, w, depth=None):
    """the evaluator's nesting level and its preallocated stores at this level"""
    w["lo"] = probe(c, r"^A_level\(", w["ev"]).off.c()
    w["lvl"] = depth or c.int("level", 0, 10 ** 6)
    o = c.st.own(w["ev"].obj)
    o.cells[w["lo"]] = (8, "i64", w["lvl"])


def width(c, w):
    w["eps"] = c.real("default_width")
    c.assume(w["eps"] > 0)
    (r,) = c.ex.run_function(c.fname(r"^A_width"), c.st, [w["ev"], w["eps"]])
    c.st = r.st


def fuzzy_cond(name):
    def f(c):
        w, ch = {}, [None]
        c.exec(STACKS + fpusher(ch, w, "num" if name in CMPS else "bool"), merge=False)
        w.update(evaluator(c))
        where_stacks(c, w)
        width(c, w)
        extra = {}
        if name in CMPS:
            eps, lb, rb, dis = c.real("eps"), c.real("lb"), c.real("rb"), c.bool("discrete")
            c.assume(z3.And(lb < rb, eps != 0))
            if name == "Equal":
                c.assume(z3.And(lb < 0, rb > 0))
            extra = {"discrete": ("i8", ite(dis, Poly.const(1), Poly.const(0))), "eps": ("f64", eps), "lb": ("f64", lb), "rb": ("f64", rb)}
            e = z3.If(eps < 0, w["eps"], eps)
            g = bfly if name == "Equal" else cspr
            v = z3.If(dis, g(X[0], lb, rb), g(X[0], -e / 2, e / 2))
        elif NODES[name]:
            c.assume(z3.And([z3.And(d >= 0, d <= 1) for d in D]))
            v = {"And": D[0] * D[1], "Or": 1 - (1 - D[0]) * (1 - D[1]), "Not": 1 - D[0]}[name]
        else:
            v = z3.RealVal(1 if name == "True_" else 0)
        n, ch[0] = node(c, max(1, NODES[name]), extra)
        for r in c.call(r"^T_%s\(" % name, [w["ev"], n]):
            tree_post(c, r, w, [], [v])
            c.ensure(r.st, z3.And(v >= 0, v <= 1), "a degree of truth lies in [0,1]")
            if name in CMPS:
                far = z3.If(dis, z3.Or(X[0] <= lb, X[0] >= rb), z3.Or(X[0] <= -e / 2, X[0] >= e / 2))
                sharp = CMPS[name](X[0])
                c.ensure(r.st, z3.Implies(z3.And(far, z3.Or(z3.Not(dis), z3.And(lb <= 0, rb >= 0)), X[0] != 0), v == z3.If(sharp, z3.RealVal(1), z3.RealVal(0))), "beyond the band the condition is the sharp one")
    f.__name__ = "fuzzy_" + name.rstrip("_")
    return f


for _n in ("Equal", "Sup", "SupEqual", "And", "Or", "Not", "True_", "False_"):
    contract("s")(fuzzy_cond(_n))


@contract("s")
def fuzzy_leaves(c):
    w = {}
    c.exec(STACKS, merge=False)
    w.update(evaluator(c))
    where_stacks(c, w)
    x, i, j = c.real("constant"), c.int("index", 0, 10 ** 6), c.int("cindex", 0, 10 ** 6)
    c.assume(band(icmp("lt", i, w["nv"]), icmp("lt", j, w["nc"])))
    for nm, ex_, want in (("Const", {"constval": ("f64", x)}, x), ("Var", {"index": ("i32", i)}, w["V"](i)), ("ConstVar", {"cindex": ("i32", j)}, w["K"](j)), ("Spot", {}, w["spot"])):
        n, _ = node(c, 1, ex_)
        for r in c.call(r"^T_%s\(" % nm, [w["ev"], n]):
            tree_post(c, r, w, [want], [])


# ---- IF -------------------------------------------------------------------
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ST = z3.Function("true_branch_before", I_, I_, R_)      # value of variable j before statement k of the first branch
SF = z3.Function("else_branch_before", I_, I_, R_)
AF = z3.Function("affected", I_, I_)
AFF = z3.Function("is_affected", I_, B_)
POS = z3.Function("position_of", I_, I_)
EPS = Fraction(2e-14)


@contract("s")
def fuzzy_If(c):
    """both branches start from the same variables; the outcome is their average weighted by the degree of truth"""
    w, ch, g = {}, [None], [None]

    def child(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        ex.oblige(st, icmp("eq", ex.load(st, w["ev"].shift(w["lo"]), "i64", i), w["lvl"].add(Poly.const(1))), "blocks nested inside see a deeper level", i)
        j = P(z3.FreshInt("any"))
        now = lambda q: rz(c.vec_view(st, Ptr(w["ev"].obj, w["vo"]))[1](q))
        s = st.fork()
        s.assume(z3.And(Z(j) >= 0, Z(j) < Z(w["nv"])))
        if k.is_const() and k.c() == 0:
            ks = key(ex, st, Ptr(w["ev"].obj, w["b"]))
            st.ghost[ks] = st.ghost.get(ks, ()) + (slot(ex, st, "double", D[0]),)
            ex.oblige(s, now(j) == w["V"](j), "the condition is evaluated before anything else", i)
            return [Result(st, "ret", None)]
        first = z3.Or(Z(fe) == -1, Z(k) < Z(fe))
        ex.oblige(s, now(j) == z3.If(first, ST(Z(k), Z(j)), SF(Z(k), Z(j))), "a statement runs where its branch's previous one ended", i)
        o = st.own(w["pv"].obj)
        o.arrays[(0, "f64")] = ABase(lambda q, k=k: z3.If(first, ST(Z(k) + 1, Z(q)), SF(Z(k) + 1, Z(q))))
        if ex.writes is not None:
            ex.writes.add((w["pv"].obj, "arr", (0, "f64"), "f64"))
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = []
        for v in ctx.ints():
            i = Z(v["cur"])
            for oid, k in ctx.arrays:
                cur = lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))
                nm = "%s,%d: " % (v["name"], oid)
                def add(n, f):
                    out.append((nm + n, All(lambda q, f=f, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(w["nv"])), f(cur, Z(q))))))
                done = lambda q, i=i: z3.And(AFF(q), POS(q) < i)
                V0 = lambda q: rz(w["V"](P(q)))
                add("first branch", lambda cur, q, i=i: cur(P(q)) == ST(i, q))
                add("else branch", lambda cur, q, i=i: cur(P(q)) == SF(i, q))
                add("start recorded", lambda cur, q, done=done: z3.Implies(done(q), cur(P(q)) == V0(q)))
                add("first outcome recorded", lambda cur, q, done=done: z3.Implies(done(q), cur(P(q)) == ST(tend, q)))
                add("variables put back", lambda cur, q, done=done: cur(P(q)) == z3.If(done(q), V0(q), ST(tend, q)))
                add("variables averaged", lambda cur, q, done=done: cur(P(q)) == z3.If(done(q), D[0] * ST(tend, q) + (1 - D[0]) * fin(q), fin(q)))
        return out
    c.exec(STACKS + [(re.compile("^virtual:"), child)], [(r"FuzzyEvaluator_<.*::Visit\(Dal::Script::NodeIf_", inv)], merge=False)
    w.update(evaluator(c))
    where_stacks(c, w)
    level(c, w)
    n, fe = c.int("nargs", 1, 10 ** 6), c.int("firstElse", -1, 10 ** 6)
    c.assume(z3.Or(Z(fe) == -1, z3.And(Z(fe) >= 1, Z(fe) <= Z(n))))
    tend = z3.If(Z(fe) == -1, Z(n), Z(fe))
    fin = lambda q: z3.If(Z(fe) == -1, rz(w["V"](P(q))), SF(Z(n), q))
    na, nl, nv = c.int("naffected", 0, 10 ** 6), c.int("levels", 1, 10 ** 6), w["nv"]
    c.assume(z3.And(Z(w["lvl"]) < Z(nl), D[0] >= 0, D[0] <= 1))
    # the stores: at this level a row of its own; the other levels are out of bounds for this block
    st0 = {}
    for nm in ("store0", "store1"):
        so = probe(c, r"^A_%s\(" % nm, w["ev"]).off.c()
        p, f = c.array(nm, nv, "f64")
        bad = c.obj("other_level_" + nm, {}, 1)
        arr = c.ex.new_obj(c.st, nm + "_levels", nl.scale(24), True)
        arr.stride = 24
        mine = lambda k: icmp("eq", k, w["lvl"])
        arr.arrays[(0, "i64p")] = ABase(lambda k, p=p, bad=bad: PtrIte(mine(k), p, bad))
        for q in (8, 16):
            arr.arrays[(q, "i64p")] = ABase(lambda k, p=p, bad=bad: PtrIte(mine(k), p.shift(nv.scale(8)), bad))
        o = c.st.own(w["ev"].obj)
        ap = Ptr(arr.id, 0)
        for x, v in ((0, ap), (8, ap.shift(nl.scale(24))), (16, ap.shift(nl.scale(24)))):
            o.cells[so + x] = (8, "ptr", v)
        st0[nm] = p
    nd, ch[0] = node(c, n, {"first": ("i32", fe)})
    fo = off(c, "affected")
    ap, _ = c.array("affected_list", na, "i64", lambda q: P(AF(Z(q))))
    o = c.st.own(nd.obj)
    for x, v in ((0, ap), (8, ap.shift(na.scale(8))), (16, ap.shift(na.scale(8)))):
        o.cells[fo + x] = (8, "ptr", v)
    c.st.schemas.append(Schema("affected list", [AF], lambda a: z3.Implies(z3.And(a >= 0, a < Z(na)), z3.And(AF(a) >= 0, AF(a) < Z(nv), AFF(AF(a)), POS(AF(a)) == a))))
    c.st.schemas.append(Schema("position of an affected variable", [AFF, POS], lambda j: z3.Implies(AFF(j), z3.And(POS(j) >= 0, POS(j) < Z(na), AF(POS(j)) == j))))
    for F_, k0, nm in ((ST, z3.IntVal(1), "first"), (SF, Z(fe), "else")):
        c.st.schemas.append(Schema(nm + " branch", [F_], lambda k, j, F_=F_, k0=k0: z3.And(z3.Implies(k == k0, F_(k, j) == rz(w["V"](P(j)))), z3.Implies(z3.Not(AFF(j)), F_(k, j) == rz(w["V"](P(j)))))))
    j = c.int("j", 0, 10 ** 6)
    c.assume(Z(j) < Z(nv))
    for r in c.call(r"^T_If\(", [w["ev"], nd]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        v = rz(c.vec_view(r.st, Ptr(w["ev"].obj, w["vo"]))[1](j))
        t, f_ = ST(tend, Z(j)), fin(Z(j))
        near1, near0 = D[0] > z3.RealVal(Fraction(1.0 - 2e-14)), D[0] < z3.RealVal(EPS)
        c.ensure(r.st, z3.Implies(near1, v == t), "true: the outcome of the first branch")
        c.ensure(r.st, z3.Implies(z3.And(near0, z3.Not(near1)), v == f_), "false: the outcome of the else branch, or nothing")
        c.ensure(r.st, z3.Implies(z3.Not(z3.Or(near0, near1)), v == D[0] * t + (1 - D[0]) * f_), "in between: the weighted average of both outcomes")
        c.ensure(r.st, icmp("eq", c.ex.load(r.st, w["ev"].shift(w["lo"]), "i64"), w["lvl"]), "the nesting level is back")
        for k, ids in stacks(r.st).items():
            c.ensure(r.st, len(ids) == 0, "a statement leaves the stacks as they were")


# ---- which variables a block may change ------------------------------------
AFFC = z3.Function("child_affects", I_, I_, B_)
U = z3.Function("affected_before_child", I_, I_, B_)      # by children 1..k-1
DEPTH = z3.Function("depth_of_child", I_, I_)
MX = z3.Function("deepest_before_child", I_, I_)
OUTER = z3.Function("outer_affects", I_, B_)
SET = r"std::set<unsigned long.*?>::"
BIG = 10 ** 6


class Sets:
    """std::set<size_t> as its membership (a ghost array of 0/1), the stack of sets as a ghost stack of them"""

    def __init__(self, c, w):
        self.c, self.w = c, w

    def make(self, ex, st, fn):
        o = ex.arr_obj(st, "set", P(BIG), 1, {0: ("i8", ABase(fn))})
        return o.id

    def has(self, st, oid, q):
        return icmp("ne", st.heap[oid].arrays[(0, "i8")].select(self.c.ex, None, [P(q)]), 0)

    def put(self, ex, st, oid, fn):
        """set the membership to fn(q, old)"""
        old = st.heap[oid].arrays[(0, "i8")]
        o = st.own(oid)
        o.arrays[(0, "i8")] = ABase(lambda q, old=old: ite(fn(q, icmp("ne", old.select(ex, None, [P(q)]), 0)), Poly.const(1), Poly.const(0)))
        if ex.writes is not None:
            ex.writes.add((oid, "arr", (0, "i8"), "i8"))

    def of(self, ex, st, p):
        p = ex.prune(st, p)
        if isinstance(p, Ptr) and p.off.is_const():
            k = st.ghost.get(("set", p.obj, p.off.c()))
            if k is not None:
                return k
            if p.obj in st.heap and st.heap[p.obj].name == "set" and p.off.c() == 0:
                return p.obj
        raise Unsupported("which set")

    def handlers(self):
        R = lambda st, v=None: [Result(st, "ret", v)]

        def ctor(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            st.ghost[("set", p.obj, p.off.c())] = self.make(ex, st, lambda q: Poly.const(0))
            return R(st)

        def push(ex, st, a, i, dem):
            st.ghost["sets"] = st.ghost["sets"] + (self.of(ex, st, a[1]),)
            return R(st)

        def top(ex, st, a, i, dem):
            s = st.ghost["sets"]
            if len(s) == 1:
                ex.oblige(st, icmp("le", 1, self.w["L"]), "there is an enclosing block", i)
            return R(st, Ptr(s[-1], 0))

        def pop(ex, st, a, i, dem):
            s = st.ghost["sets"]
            ex.oblige(st, len(s) > 1, "only the block's own set is removed", i)
            st.ghost["sets"] = s[:-1]
            return R(st)

        def begin(ex, st, a, i, dem):
            return R(st, Ptr(self.of(ex, st, a[0]), 0 if "::begin" in dem else 1))

        def insert(ex, st, a, i, dem):
            v = ex.load(st, a[1], "i64", i)
            ex.oblige(st, band(icmp("le", 0, v), icmp("lt", v, BIG)), "a variable that exists", i)
            self.put(ex, st, self.of(ex, st, a[0]), lambda q, old, v=v: bor(old, icmp("eq", q, v)))
            return R(st, UNDEF)

        def clear(ex, st, a, i, dem):
            b = ex.load(st, a[0], "ptr", i)
            ex.store(st, a[0].shift(8), "ptr", b, i)
            return R(st)

        def copy_out(ex, st, a, i, dem):
            b, e, v = (ex.prune(st, x) for x in a[:3])
            if not (b.obj == e.obj and b.off.c() == 0 and e.off.c() == 1):
                raise Unsupported("copy of part of a set")
            old = ex.load(st, v, "ptr", i), ex.load(st, v.shift(8), "ptr", i)
            if not old[1].off.add(old[0].off, -1).same(Poly.const(0)):
                raise Unsupported("copy onto something")
            n = P(z3.FreshInt("members"))
            st.assume(z3.And(Z(n) >= 0, Z(n) <= BIG))
            arr = ex.arr_obj(st, "list", n, 8, {0: ("i64", base_array("list", 1, "i64"))})
            st.ghost[("list", arr.id)] = st.heap[b.obj].arrays[(0, "i8")]
            p = Ptr(arr.id, 0)
            for o, x in ((0, p), (8, p.shift(n.scale(8))), (16, p.shift(n.scale(8)))):
                ex.store(st, v.shift(o), "ptr", x, i)
            return R(st, v)

        def copy_in(ex, st, a, i, dem):
            b, e, s = (ex.prune(st, x) for x in a[:3])
            m = st.ghost.get(("list", b.obj))
            if m is None or b.obj != e.obj or not b.off.same(Poly.const(0)) or not e.off.same(st.heap[b.obj].size):
                raise Unsupported("copy of part of a list")
            self.put(ex, st, self.of(ex, st, s), lambda q, old: bor(old, icmp("ne", m.select(ex, None, [P(q)]), 0)))
            return R(st, Agg([s, UNDEF]))
        vec = r"std::vector<unsigned long, std::allocator<unsigned long>\s?>::"
        return [(re.compile("^" + SET + r"set\(\)"), ctor), (re.compile("^" + SET + r"~set"), lambda ex, st, a, i, dem: R(st)),
                (re.compile(r"^(void )?Dal::StaticStack_<std::set.*::Push<"), push), (re.compile(r"^Dal::StaticStack_<std::set.*::Top\("), top), (re.compile(r"^Dal::StaticStack_<std::set.*::Pop\("), pop),
                (re.compile("^" + SET + r"(begin|end)\("), begin), (re.compile("^" + SET + r"insert\(unsigned long"), insert), (re.compile("^" + vec + r"clear\("), clear),
                (re.compile(r"^std::back_insert_iterator<.*std::back_inserter<"), lambda ex, st, a, i, dem: R(st, a[0])),
                (re.compile(r"^std::back_insert_iterator<.*std::copy<std::_Rb_tree"), copy_out),
                (re.compile(r"^std::insert_iterator<.*std::inserter<"), lambda ex, st, a, i, dem: R(st, Agg([a[0], UNDEF]))),
                (re.compile(r"^std::insert_iterator<.*std::copy<"), copy_in)]


def processor(c, w):
    p = c.obj("processor", {}, 65536)
    w.update(p=p, L=c.int("level", 0, BIG), M0=c.int("deepest", 0, BIG))
    w["lo"], w["mo"] = probe(c, r"^A_xlevel\(", p).off.c(), probe(c, r"^A_xmax\(", p).off.c()
    o = c.st.own(p.obj)
    o.cells[w["lo"]] = (8, "i64", w["L"])
    o.cells[w["mo"]] = (8, "i64", w["M0"])
    c.assume(icmp("le", w["L"], w["M0"]))


@contract("s")
def affected_If(c):
    """the variables recorded on a block include every variable its statements may change, nested blocks included; so do those of the enclosing block"""
    w, ch = {}, [None]
    S = Sets(c, w)

    def child(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        lv = ex.load(st, w["p"].shift(w["lo"]), "i64", i)
        ex.oblige(st, icmp("eq", lv, w["L"].add(Poly.const(1))), "statements of a block are one level deeper", i)
        s = st.ghost["sets"]
        ex.oblige(st, len(s) == 2, "statements of a block see its own set", i)
        S.put(ex, st, s[-1], lambda q, old, k=k: bor(old, AFFC(Z(k), Z(q))))
        m = ex.load(st, w["p"].shift(w["mo"]), "i64", i)
        d = Z(w["L"]) + 1 + DEPTH(Z(k))
        ex.store(st, w["p"].shift(w["mo"]), "i64", P(z3.If(Z(m) < d, d, Z(m))), i)
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = []
        for v in ctx.ints():
            i = Z(v["cur"])
            for oid, k in ctx.arrays:
                if k == (0, "i8"):
                    out.append(("%s,%d: members so far" % (v["name"], oid), All(lambda q, i=i, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < BIG, U(i, Z(q))), bz(icmp("ne", ctx.cur(oid, k, q), 0))))))
            for x in ctx.ints():
                if x is not v:
                    out.append(("%s,%s: deepest so far" % (v["name"], x["name"]), z3.And(Z(x["cur"]) >= MX(i), Z(x["cur"]) >= Z(w["L"]) + 1)))
        return out
    c.exec(S.handlers() + [(re.compile("^virtual:"), child)], [(r"IFProcessor_::Visit", inv)], merge=False)
    processor(c, w)
    n = c.int("nargs", 1, BIG)
    nd, ch[0] = node(c, n, {})
    fo = off(c, "affected")
    m = c.int("old_list", 0, BIG)
    ap, _ = c.array("old_affected", m, "i64")
    o = c.st.own(nd.obj)
    for x, v in ((0, ap), (8, ap.shift(m.scale(8))), (16, ap.shift(m.scale(8)))):
        o.cells[fo + x] = (8, "ptr", v)
    outer = S.make(c.ex, c.st, lambda q: ite(OUTER(Z(q)), Poly.const(1), Poly.const(0)))
    c.st.ghost["sets"] = (outer,)
    c.st.schemas.append(Schema("affected by earlier children", [U], lambda k, q: z3.And(z3.Implies(k == 1, z3.Not(U(k, q))), z3.Implies(k > 1, U(k, q) == z3.Or(U(k - 1, q), AFFC(k - 1, q))))))
    c.st.schemas.append(Schema("depth", [MX], lambda k: z3.And(z3.Implies(k <= 1, MX(k) == Z(w["L"]) + 1), z3.Implies(k > 1, MX(k) == z3.If(MX(k - 1) < Z(w["L"]) + 1 + DEPTH(k - 1), Z(w["L"]) + 1 + DEPTH(k - 1), MX(k - 1))))))
    q = c.int("j", 0, BIG - 1)
    for r in c.call(r"^X_If\(", [w["p"], nd]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        b = c.ex.load(r.st, nd.shift(fo), "ptr")
        mem = r.st.ghost.get(("list", b.obj))
        c.ensure(r.st, mem is not None, "the block's list is its set")
        if mem is not None:
            c.ensure(r.st, z3.Implies(U(Z(n), Z(q)), bz(icmp("ne", mem.select(c.ex, None, [q]), 0))), "every variable a statement of the block may change is recorded on it")
        c.ensure(r.st, z3.Implies(z3.And(Z(w["L"]) >= 1, z3.Or(OUTER(Z(q)), U(Z(n), Z(q)))), bz(S.has(r.st, outer, q))), "and on the enclosing block")
        c.ensure(r.st, r.st.ghost["sets"] == (outer,), "the enclosing block's set is on top again")
        c.ensure(r.st, icmp("eq", c.ex.load(r.st, w["p"].shift(w["lo"]), "i64"), w["L"]), "the level is back")
        c.ensure(r.st, Z(c.ex.load(r.st, w["p"].shift(w["mo"]), "i64")) >= MX(Z(n)), "the depth recorded covers every nested block")
        c.ensure(r.st, Z(c.ex.load(r.st, w["p"].shift(w["mo"]), "i64")) >= Z(w["L"]) + 1, "the depth recorded covers this block")


def affected_act(name):
    def f(c):
        w, ch = {}, [None]
        S = Sets(c, w)

        def child(ex, st, a, i, dem):
            k = child_index(ex, st, a[0], ch[0])
            if not k.is_const() or k.c() != 0:
                return [Result(st, "ret", None)]
            # contract of visiting the left-hand variable, itself checked in affected_Var
            s = st.ghost["sets"]
            S.put(ex, st, s[-1], lambda q, old: bor(old, band(icmp("le", 1, w["L"]), icmp("eq", q, P(CINDEX(z3.IntVal(0)))))))
            return [Result(st, "ret", None)]
        c.exec(S.handlers() + [(re.compile("^virtual:"), child)], merge=False)
        processor(c, w)
        i = c.int("index", 0, BIG - 1)
        nd, ch[0] = node(c, max(1, NODES[name]), {"index": ("i32", i)} if name == "Var" else {})
        outer = S.make(c.ex, c.st, lambda q: ite(OUTER(Z(q)), Poly.const(1), Poly.const(0)))
        c.st.ghost["sets"] = (outer,)
        q = c.int("j", 0, BIG - 1)
        lhs = Z(i) if name == "Var" else CINDEX(z3.IntVal(0))
        for r in c.call(r"^X_%s\(" % name, [w["p"], nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            c.ensure(r.st, z3.Implies(z3.And(Z(w["L"]) >= 1, z3.Or(OUTER(Z(q)), Z(q) == lhs)), bz(S.has(r.st, outer, q))), "the variable assigned is recorded on the enclosing block")
            c.ensure(r.st, icmp("eq", c.ex.load(r.st, w["p"].shift(w["lo"]), "i64"), w["L"]), "the level is unchanged")
    f.__name__ = "affected_" + name
    return f


for _n in ("Assign", "Pays", "Var"):
    contract("s")(affected_act(_n))
