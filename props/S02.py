from S01 import *
ID = "S02"
META = dict(
    title="Preprocessing a script never changes what it means",
    statement="For every script, the preprocessing that folds constants, works out which values every expression can take, and removes conditions found always true or always false leaves the value of every variable in every scenario as the script's text states. An expression marked constant has that value in every scenario, a value an expression can take lies in the range computed for it, and a condition is removed only if it has the same truth in every scenario.",
    quantifier=dict(over=["programs", "inputs"], text="every expression, condition and statement tree, all operand values, all interval bounds and sets of intervals"),
    why_tests_cant="Whether a condition is removed depends on the interval arithmetic over all values the operands can take, at infinite, zero and touching bounds; tests run a few scripts for a few scenarios.",
    anchors=dict(files=["dal/script/visitor/constprocessor.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/domain.hpp", "dal/script/visitor/constcondprocessor.hpp", "dal/script/event.cpp"],
                 mechanism=["constant folding @ ConstProcessor_ in dal/script/visitor/constprocessor.hpp", "ranges of expressions and truth of conditions @ DomainProcessor_ in dal/script/visitor/domainproc.hpp",
                            "interval arithmetic @ Bound_, Interval_, Domain_ in dal/script/visitor/domain.hpp", "removal of decided conditions @ ConstCondProcessor_ in dal/script/visitor/constcondprocessor.hpp"]),
    level_note="per node kind and per interval operation, children by contract; doubles as reals; bounds that differ differ by more than the library's tolerance 2e-14")

FLAGS = ["-Xclang", "-fno-access-control"]
DRV = HEAD
CK = [n for n in NODES if n in BIN or n in UN] + ["Assign", "Pays", "Var", "If"]
DK = CK + ["Equal", "Sup", "SupEqual", "And", "Or", "Not", "Const", "ConstVar", "Spot"]
for _n in CK:
    DRV += "void C_%s(ConstProcessor_& p, Node%s_& n) { p.Visit(n); }\n" % (_n, _n)
for _n in DK:
    DRV += "void D_%s(DomainProcessor_& p, Node%s_& n) { p.Visit(n); }\n" % (_n, _n)
KK = ["Equal", "Sup", "SupEqual", "And", "Or", "Not", "If", "Assign", "Pays", "Add", "Spot", "Collect"]
for _n in KK:
    DRV += "void K_%s(ConstCondProcessor_& p, Node%s_& n) { p.Visit(n); }\n" % (_n, _n)
DRV += '''void K_top(ConstCondProcessor_& p, std::unique_ptr<Node_>& t) { p.ProcessFromTop(t); }
const void* P_doms(const DomainProcessor_& p) { return &p.varDomains_; }
const void* P_dstack(const DomainProcessor_& p) { return &p.domStack_; }
const void* P_cstack(const DomainProcessor_& p) { return &p.condStack_; }
const void* P_islhs(const DomainProcessor_& p) { return &p.isLhsVar_; }
const void* P_lhs(const DomainProcessor_& p) { return &p.lhsVarIdx_; }
const void* P_fuzzy(const DomainProcessor_& p) { return &p.fuzzy_; }
int P_dsize() { return (int)sizeof(Domain_); }
int P_psize() { return (int)sizeof(DomainProcessor_); }
int P_true() { return (int)DomainCondProp_::Value_::AlwaysTrue; }
int P_false() { return (int)DomainCondProp_::Value_::AlwaysFalse; }
int P_either() { return (int)DomainCondProp_::Value_::TrueOrFalse; }
const void* A_current(const ConstCondProcessor_& p) { return &p.current_; }
const void* A_const(const ConstProcessor_& p) { return &p.varConst_; }
const void* A_val(const ConstProcessor_& p) { return &p.varConstVal_; }
const void* A_cond(const ConstProcessor_& p) { return &p.isInConditional_; }
const void* B_plus(const Bound_& b) { return &b.isPlusInf_; }
const void* B_minus(const Bound_& b) { return &b.isMinusInf_; }
const void* B_real(const Bound_& b) { return &b.real_; }
const void* B_left(const Interval_& b) { return &b.left_; }
const void* B_right(const Interval_& b) { return &b.right_; }
int B_size() { return (int)sizeof(Interval_); }
int B_bsize() { return (int)sizeof(Bound_); }
void J_bmul(Bound_* r, const Bound_& a, const Bound_& b) { new (r) Bound_(a * b); }
bool J_bless(const Bound_& a, const Bound_& b) { return a < b; }
void J_add(Interval_* r, const Interval_& a, const Interval_& b) { new (r) Interval_(a + b); }
void J_sub(Interval_* r, const Interval_& a, const Interval_& b) { new (r) Interval_(a - b); }
void J_neg(Interval_* r, const Interval_& a, const Interval_&) { new (r) Interval_(-a); }
void J_mul(Interval_* r, const Interval_& a, const Interval_& b) { new (r) Interval_(a * b); }
void J_inv(Interval_* r, const Interval_& a, const Interval_&) { new (r) Interval_(a.Inverse()); }
void J_min(Interval_* r, const Interval_& a, const Interval_& b) { new (r) Interval_(a.IMin(b)); }
void J_max(Interval_* r, const Interval_& a, const Interval_& b) { new (r) Interval_(a.IMax(b)); }
void J_merge(Interval_& a, const Interval_& b) { a.Merge(b); }
void E_insert(Domain_& d, const Interval_& i) { d.AddInterval(i); }
void E_union(Domain_& d, const Domain_& e) { d.AddDomain(e); }
void E_single(Domain_* d, double x) { new (d) Domain_(x); }
void E_interval(Domain_* d, const Interval_& i) { new (d) Domain_(i); }
void E_add(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a + b); }
void E_sub(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a - b); }
void E_mul(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a * b); }
void E_div(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a / b); }
void E_neg(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(-a); }
void E_min(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a.DMin(b)); }
void E_max(Domain_* r, const Domain_& a, const Domain_& b) { new (r) Domain_(a.DMax(b)); }
bool E_zero(const Domain_& a) { return a.CanBeZero(); }
bool E_nonzero(const Domain_& a) { return a.CanBeNonZero(); }
bool E_disc(const Domain_& a) { return a.ZeroIsDiscrete(); }
bool E_pos(const Domain_& a, bool s) { return a.CanBePositive(s); }
bool E_nega(const Domain_& a, bool s) { return a.CanBeNegative(s); }
bool E_posl(const Domain_& a, double* r, bool s) { return a.SmallestPosLb(*r, s); }
bool E_negr(const Domain_& a, double* r, bool s) { return a.BiggestNegRb(*r, s); }
void E_values(Vector_<>* r, const Domain_& d) { new (r) Vector_<>(d.GetSingletons()); }
struct Fun { double operator()(double) const; double operator()(double, double) const; };
void E_fun(Domain_* r, Domain_& a, const Fun& f, const Interval_& i) { new (r) Domain_(a.ApplyFunc<Fun>(f, i)); }
void E_fun2(Domain_* r, Domain_& a, const Fun& f, const Domain_& b, const Interval_& i) { new (r) Domain_(a.ApplyFunc2<Fun>(f, b, i)); }
bool J_includes(const Interval_& a, double x) { return a.Includes(x); }
bool J_zero(const Interval_& a) { return a.IsZero(); }
bool J_single(const Interval_& a, double* v) { return a.IsSingleton(v); }
'''
DRIVERS = {"c": (DRV, [r"^C_", r"^A_", r"^F_", r"^B_"], FLAGS), "d": (DRV, [r"^D_", r"^F_", r"^A_", r"^B_", r"^P_"], FLAGS), "i": (DRV, [r"^J_", r"^B_"], FLAGS), "e": (DRV, [r"^E_", r"^B_", r"^P_dsize"], FLAGS), "k": (DRV, [r"^K_", r"^F_", r"^A_current"], FLAGS)}
CONTRACTS = contract = Registry()
STANDIN = "real code: random scripts through the real parser and the real preprocessing (constants, ranges, removal of decided conditions), tree and compiled evaluation against an interpreter of the generated tree"
ASSUMPTIONS = ["doubles as real numbers; exp, log, sqrt, pow as uninterpreted functions", "bounds that differ, differ by more than 2e-14, and lie within 1e29 (the library's tolerance and infinity)",
               "a node's arguments are of the kind its role requires (guaranteed by the parser)", "std::set is an ordered sequence: lower_bound, insert and erase as the standard states", "moving unique_ptr and vector elements behaves as the standard library states"]
SOURCES = None
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ---- constants --------------------------------------------------------------
def visited(c, ch, w=None, before=None):
    """contract of visiting child k: its flag and value are set; a flagged child has that value in every evaluation"""
    io, vo = off(c, "isconst"), off(c, "constval")

    def h(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        if before:
            before(ex, st, k, i)
        b = Ptr(ch[0], k.scale(NSZ))
        ex.store(st, b.shift(io), "i8", P(CCONST(Z(k))), i)
        ex.store(st, b.shift(vo), "f64", CVAL(Z(k)), i)
        return [Result(st, "ret", None)]
    return h


def fresh_children(c, ch):
    """nothing is known to be constant before it is visited"""
    o = c.st.own(ch)
    o.arrays[(off(c, "isconst"), "i8")] = ABase(lambda k: Poly.const(0))


def processor(c):
    p = c.obj("processor", {}, 4096)
    w = dict(p=p, nv=c.int("nvars", 1, 10 ** 6))
    for nm, ty in (("const", "i8"), ("val", "f64")):
        o_ = probe(c, r"^A_%s\(" % nm, p).off.c()
        q, f = c.array("var_" + nm, w["nv"], ty)
        x = c.st.own(p.obj)
        e = q.shift(w["nv"].scale(TYSZ[ty]))
        for d, v in ((0, q), (8, e), (16, e)):
            x.cells[o_ + d] = (8, "ptr", v)
        w[nm], w["o_" + nm], w["p_" + nm] = f, o_, q
    w["o_cond"] = probe(c, r"^A_cond\(", p).off.c()
    w["cond"] = c.bool("in_conditional")
    c.st.own(p.obj).cells[w["o_cond"]] = (1, "i8", ite(w["cond"], Poly.const(1), Poly.const(0)))
    return w


def flags(c, st, w):
    n, f = c.vec_view(st, w["p"].shift(w["o_const"]), "i8")
    m, v = c.vec_view(st, w["p"].shift(w["o_val"]), "f64")
    return (lambda j: bz(icmp("ne", f(j), 0))), (lambda j: rz(v(j)))


def const_expr(name):
    def f(c):
        ch, hook = [None], []
        c.exec([(re.compile("^virtual:"), lambda *a: hook[0](*a))], merge=False)
        w = processor(c)
        hook.append(visited(c, ch))
        n, ch[0] = node(c, NODES[name], {"isconst": ("i8", Poly.const(0)), "constval": ("f64", Fraction(0))})
        fresh_children(c, ch[0])
        for k in range(NODES[name]):
            c.assume(z3.And(CCONST(z3.IntVal(k)) >= 0, CCONST(z3.IntVal(k)) <= 1))
        io, vo = off(c, "isconst"), off(c, "constval")
        for r in c.call(r"^C_%s\(" % name, [w["p"], n]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            flag = bz(icmp("ne", c.ex.load(r.st, n.shift(io), "i8"), 0))
            val = rz(c.ex.load(r.st, n.shift(vo), "f64"))
            x = [CVAL(z3.IntVal(k)) for k in range(3)]
            c.ensure(r.st, z3.Implies(flag, z3.And([CCONST(z3.IntVal(k)) != 0 for k in range(NODES[name])])), "marked constant only if its operands are")
            c.ensure(r.st, z3.Implies(flag, val == meaning(name, x, [])), "the constant is the value the node states")
            j = c.int("j", 0, 10 ** 6)
            s = r.st.fork()
            s.assume(icmp("lt", j, w["nv"]))
            k_, v_ = flags(c, s, w)
            c.ensure(s, z3.And(z3.Implies(k_(j), bz(icmp("ne", w["const"](j), 0))), z3.Implies(k_(j), v_(j) == rz(w["val"](j)))), "variables are as before")
    f.__name__ = "const_" + name
    return f


for _n in NODES:
    if _n in BIN or _n in UN:
        contract("c")(const_expr(_n))


@contract("c")
def const_Var(c):
    c.exec([], merge=False)
    w = processor(c)
    i = c.int("index", 0, 10 ** 6)
    c.assume(icmp("lt", i, w["nv"]))
    n, _ = node(c, 1, {"isconst": ("i8", c.int("flag_before", 0, 1)), "constval": ("f64", c.real("value_before")), "index": ("i32", i)})
    for r in c.call(r"^C_Var\(", [w["p"], n]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        flag = bz(icmp("ne", c.ex.load(r.st, n.shift(off(c, "isconst")), "i8"), 0))
        c.ensure(r.st, z3.Implies(flag, bz(icmp("ne", w["const"](i), 0))), "marked constant only if the variable is constant here")
        c.ensure(r.st, z3.Implies(flag, rz(c.ex.load(r.st, n.shift(off(c, "constval")), "f64")) == rz(w["val"](i))), "with the variable's value")


def const_act(name):
    def f(c):
        """a variable counts as constant after an assignment only if it was assigned, unconditionally, a constant"""
        ch, hook = [None], []
        c.exec([(re.compile("^virtual:"), lambda *a: hook[0](*a))], merge=False)
        w = processor(c)
        hook.append(visited(c, ch))
        n, ch[0] = node(c, 2)
        fresh_children(c, ch[0])
        i = CINDEX(z3.IntVal(0))
        c.assume(z3.And(i >= 0, i < Z(w["nv"])))
        j = c.int("j", 0, 10 ** 6)
        c.assume(icmp("lt", j, w["nv"]))
        for r in c.call(r"^C_%s\(" % name, [w["p"], n]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            k_, v_ = flags(c, r.st, w)
            ok = z3.And(z3.Not(bz(w["cond"])), CCONST(z3.IntVal(1)) != 0, v_(j) == CVAL(z3.IntVal(1))) if name == "Assign" else z3.BoolVal(False)
            c.ensure(r.st, z3.Implies(z3.And(Z(j) == i, k_(j)), ok), "the named variable is constant only if assigned a constant outside any condition" if name == "Assign" else "a variable paid to is not constant")
            c.ensure(r.st, z3.Implies(z3.And(Z(j) != i, k_(j)), z3.And(bz(icmp("ne", w["const"](j), 0)), v_(j) == rz(w["val"](j)))), "every other variable is as before")
            c.ensure(r.st, bz(icmp("ne", c.ex.load(r.st, w["p"].shift(w["o_cond"]), "i8"), 0)) == bz(w["cond"]), "being inside a condition is as before")
    f.__name__ = "const_" + name
    return f


contract("c")(const_act("Assign"))
contract("c")(const_act("Pays"))
KEPT = z3.Function("constant_before_child", I_, I_, I_)        # flags before child k
ASG = z3.Function("child_assigns", I_, I_, B_)
ANY = z3.Function("assigned_before_child", I_, I_, B_)


@contract("c")
def const_If(c):
    """a variable assigned anywhere inside a block is not constant after it; the others keep flag and value"""
    ch, w = [None], {}

    def child(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        ex.oblige(st, icmp("ne", ex.load(st, w["p"].shift(w["o_cond"]), "i8", i), 0), "the parts of a block are visited as conditional", i)
        o = st.own(w["p_const"].obj)
        old = o.arrays[(0, "i8")]
        o.arrays[(0, "i8")] = ABase(lambda q, k=k, old=old: ite(ASG(Z(k), Z(q)), Poly.const(0), old.select(ex, None, [P(q)])))
        if ex.writes is not None:
            ex.writes.add((w["p_const"].obj, "arr", (0, "i8"), "i8"))
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = []
        for v in ctx.ints():
            i = Z(v["cur"])
            for oid, k in ctx.arrays:
                if k == (0, "i8"):
                    out.append(("%s,%d: flags so far" % (v["name"], oid), All(lambda q, i=i, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(w["nv"]), bz(icmp("ne", ctx.cur(oid, k, q), 0))), z3.And(z3.Not(ANY(i, Z(q))), bz(icmp("ne", w["const"](q), 0)))))))
        return out
    c.exec([(re.compile("^virtual:"), child)], [(r"(VisitArguments|ConstProcessor_::Visit)", inv)], merge=False)
    w.update(processor(c))
    n = c.int("nargs", 1, 10 ** 6)
    nd, ch[0] = node(c, n)
    c.st.schemas.append(Schema("assigned by earlier parts", [ANY], lambda k, q: z3.And(z3.Implies(k <= 0, z3.Not(ANY(k, q))), z3.Implies(k > 0, ANY(k, q) == z3.Or(ANY(k - 1, q), ASG(k - 1, q))))))
    j = c.int("j", 0, 10 ** 6)
    c.assume(icmp("lt", j, w["nv"]))
    for r in c.call(r"^C_If\(", [w["p"], nd]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        k_, v_ = flags(c, r.st, w)
        c.ensure(r.st, z3.Implies(k_(j), z3.And(z3.Not(ANY(Z(n), Z(j))), bz(icmp("ne", w["const"](j), 0)), v_(j) == rz(w["val"](j)))), "only a variable no part of the block assigns stays constant")
        c.ensure(r.st, bz(icmp("ne", c.ex.load(r.st, w["p"].shift(w["o_cond"]), "i8"), 0)) == bz(w["cond"]), "being inside a condition is as before")


# ---- intervals --------------------------------------------------------------
INF, EPS = Fraction(1e29), Fraction(2e-14)


class Bnd:
    def __init__(self, plus, minus, real):
        self.plus, self.minus, self.real = bz(plus), bz(minus), rz(real)

    def finite(self):
        return z3.Not(z3.Or(self.plus, self.minus))


class Itv:
    def __init__(self, l, r):
        self.l, self.r = l, r

    def has(self, x):
        """x is a point of the interval"""
        return z3.And(z3.Or(self.l.minus, z3.And(z3.Not(self.l.plus), self.l.real <= x)), z3.Or(self.r.plus, z3.And(z3.Not(self.r.minus), x <= self.r.real)))

    def formed(self):
        l, r = self.l, self.r
        return z3.And(z3.Not(l.plus), z3.Not(r.minus), z3.If(l.minus, l.real == -INF, z3.And(l.real > -INF, l.real < INF)), z3.If(r.plus, r.real == INF, z3.And(r.real > -INF, r.real < INF)), l.real <= r.real)


def inside(*itvs):
    """finite bounds stay well inside the library's infinity"""
    return z3.And([z3.Implies(q.finite(), z3.And(q.real > -INF / 4, q.real < INF / 4)) for v in itvs for q in (v.l, v.r)])


def sep(*vs):
    """values that differ, differ by more than the tolerance"""
    vs = [rz(v) for v in vs]
    return z3.And([z3.Or(a == b, a - b > EPS, b - a > EPS) for k, a in enumerate(vs) for b in vs[:k]])


class Layout:
    def __init__(self, c):
        b = Ptr(c.ex.new_obj(c.st, "probe", 256, True).id, 0)
        o = lambda nm: probe(c, r"^B_%s\(" % nm, b).off.c()
        self.plus, self.minus, self.real, self.left, self.right = o("plus"), o("minus"), o("real"), o("left"), o("right")
        self.size = probe(c, r"^B_size\(").c()
        self.bsize = probe(c, r"^B_bsize\(").c()

    def bound(self, c, st, p):
        f = lambda q: bz(icmp("ne", c.ex.load(st, p.shift(q), "i8"), 0))
        return Bnd(f(self.plus), f(self.minus), c.ex.load(st, p.shift(self.real), "f64"))

    def make(self, c, name, itv=None, st=None):
        cells = {}
        if itv is None:
            itv = Itv(Bnd(z3.BoolVal(False), c.bool(name + ".left_unbounded"), c.real(name + ".left")), Bnd(c.bool(name + ".right_unbounded"), z3.BoolVal(False), c.real(name + ".right")))
        for o, b in ((self.left, itv.l), (self.right, itv.r)):
            cells[o + self.plus] = ("i8", ite(b.plus, Poly.const(1), Poly.const(0)))
            cells[o + self.minus] = ("i8", ite(b.minus, Poly.const(1), Poly.const(0)))
            cells[o + self.real] = ("f64", b.real)
        return c.obj(name, cells, self.size, st), itv

    def view(self, c, st, p):
        return Itv(self.bound(c, st, p.shift(self.left)), self.bound(c, st, p.shift(self.right)))


def less(a, b):
    """the library's order of bounds"""
    return z3.Or(z3.And(a.minus, z3.Not(b.minus)), z3.And(z3.Not(a.plus), b.plus), a.real < b.real - EPS)


def times(a, b, prod=None):
    """product of two bounds; zero times infinity counts as infinity"""
    pos, neg, zero = (lambda q: z3.Or(q.plus, q.real > EPS)), (lambda q: z3.Or(q.minus, q.real < -EPS)), (lambda q: z3.And(q.finite(), q.real < EPS, -q.real < EPS))
    inf = z3.Or(z3.Not(a.finite()), z3.Not(b.finite()))
    up = z3.Or(z3.And(pos(a), pos(b)), z3.And(neg(a), neg(b)))
    pick = lambda f: z3.If(zero(a), f(b), z3.If(zero(b), f(a), f(None)))
    plus = z3.And(inf, z3.If(up, z3.BoolVal(True), pick(lambda q: q.plus if q else z3.BoolVal(False))))
    minus = z3.And(inf, z3.If(up, z3.BoolVal(False), pick(lambda q: q.minus if q else z3.BoolVal(True))))
    real = z3.If(inf, z3.If(up, z3.RealVal(INF), pick(lambda q: q.real if q else z3.RealVal(-INF))), a.real * b.real if prod is None else prod)
    return Bnd(plus, minus, real)


def bound_contracts(c, L, named=True):
    """Bound_ product and order, and std::min_element / max_element over bounds"""
    def mul(ex, st, a, i, dem):
        u, v = L[0].bound(c, st, a[0]), L[0].bound(c, st, a[1])
        # the product of the two values as a name of its own; its definition is used in the closing lemma
        p, fin = z3.FreshReal("product"), z3.And(u.finite(), v.finite())
        st.assume(z3.Implies(fin, z3.And(p > -INF / 2, p < INF / 2, sep(p, z3.RealVal(0)))))
        for q, g, _ in st.ghost.get("products", ()):
            st.assume(z3.Implies(z3.And(fin, g), sep(p, q)))
        st.ghost["products"] = st.ghost.get("products", ()) + ((p, fin, u.real * v.real),)
        if not named:
            st.assume(p == u.real * v.real)
        r = times(u, v, p)
        b = lambda f: ite(f, Poly.const(1), Poly.const(0))
        return [Result(st, "ret", Agg([Packed(8, [(L[0].plus, 1, "i8", b(r.plus)), (L[0].minus, 1, "i8", b(r.minus))]), r.real]))]

    def extreme(ex, st, a, i, dem):
        b, e = ex.prune(st, a[0]), ex.prune(st, a[1])
        n = e.off.add(b.off, -1).div_exact(L[0].bsize).c()
        v = [L[0].bound(c, st, b.shift(k * L[0].bsize)) for k in range(n)]
        out = []
        for k in range(n):
            s = st.fork()
            try:
                s.assume(z3.And([z3.Not(less(w, v[k]) if "min_element" in dem else less(v[k], w)) for w in v]))
            except Infeasible:
                continue
            if ex.entails(s, False):
                continue
            out.append(Result(s, "ret", b.shift(k * L[0].bsize)))
        return out
    return [(re.compile(r"^Dal::Script::Bound_::operator\*\("), mul), (re.compile(r"std::(min|max)_element<Dal::Script::Bound_"), extreme)]


@contract("i")
def bound_product(c):
    c.exec([], merge=False)
    L = Layout(c)
    p, v = L.make(c, "a")
    q, w = L.make(c, "b")
    c.assume(z3.And(v.formed(), w.formed()))
    out = c.obj("result", {}, L.bsize)
    for x, a in ((L.left, v.l), (L.right, v.r)):
        for y, b in ((L.left, w.l), (L.right, w.r)):
            for r in c.call(r"^J_bmul\(", [out, p.shift(x), q.shift(y)]):
                if r.kind != "ret":
                    c.ensure(r.st, False, "never throws")
                    continue
                g, t = L.bound(c, r.st, out), times(a, b)
                c.ensure(r.st, z3.And(g.plus == t.plus, g.minus == t.minus, g.real == t.real), "product of bounds")
            for r in c.call(r"^J_bless\(", [p.shift(x), q.shift(y)]):
                c.ensure(r.st, bz(r.val) == less(a, b), "order of bounds") if r.kind == "ret" else c.ensure(r.st, False, "never throws")


IOPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "neg": lambda x, y: -x, "mul": lambda x, y: x * y, "inv": lambda x, y: 1 / x, "min": lambda x, y: z3.If(x < y, x, y), "max": lambda x, y: z3.If(x < y, y, x)}


def interval_op(op, shape=None):
    """shape: which ends are unbounded (the product is checked shape by shape)"""
    def f(c):
        box = [None]
        c.exec(bound_contracts(c, box, shape == 0) if op == "mul" else [], merge=False)
        box[0] = L = Layout(c)
        pa, a = L.make(c, "a")
        pb, b = L.make(c, "b")
        x, y = c.real("x"), c.real("y")
        c.assume(z3.And(a.formed(), b.formed(), a.has(x), b.has(y)))
        if shape is not None:
            for k, q in enumerate((a.l.minus, a.r.plus, b.l.minus, b.r.plus)):
                c.assume(q if shape >> k & 1 else z3.Not(q))
        ends = [a.l.real, a.r.real, b.l.real, b.r.real]
        c.assume(z3.And(sep(z3.RealVal(0), *ends), inside(a, b)))
        if op == "inv":
            c.assume(z3.And(x != 0, z3.Not(z3.And(a.l.real == 0, a.r.real == 0))))
            c.assume(z3.And([z3.Implies(z3.And(q.finite(), q.real != 0), z3.And(q.real * q.real > 1 / (INF * INF))) for q in (a.l, a.r)]))
            c.assume(z3.Implies(z3.And(a.l.real != 0, a.r.real != 0), sep(1 / a.l.real, 1 / a.r.real)))
        out = c.obj("result", {}, L.size)
        for r in c.call(r"^J_%s\(" % op, [out, pa, pb]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            v = L.view(c, r.st, out)
            c.ensure(r.st, v.formed(), "the result is an interval")
            what = "the result contains the %s of any two members" % op
            ps = r.st.ghost.get("products")
            if not ps or shape != 0:
                c.ensure(r.st, v.has(IOPS[op](x, y)), what)
                continue
            # first the corners (products by name), then what any product of members owes to them
            corners = z3.And([z3.And(z3.Or(v.l.minus, v.l.real <= p), z3.Or(v.r.plus, p <= v.r.real)) for p, _, _ in ps])
            c.ensure(r.st, corners, "every corner lies in the result")
            s = State()
            s.assume(z3.And([p == d for p, _, d in ps] + [corners, a.formed(), b.formed(), a.has(x), b.has(y)]))
            if shape is not None:
                for k, q in enumerate((a.l.minus, a.r.plus, b.l.minus, b.r.plus)):
                    s.assume(q if shape >> k & 1 else z3.Not(q))
            c.ensure(s, v.has(x * y), what)
    f.__name__ = "interval_" + op + ("" if shape is None else "_%d%d%d%d" % tuple(shape >> k & 1 for k in range(4)))
    return f


for _o in IOPS:
    for _s in range(16) if _o == "mul" else [None]:
        contract("i")(interval_op(_o, _s))


@contract("i")
def interval_questions(c):
    """membership, singletons and zero are answered as the interval states; merging covers both"""
    c.exec([], merge=False)
    L = Layout(c)
    pa, a = L.make(c, "a")
    pb, b = L.make(c, "b")
    x = c.real("x")
    c.assume(z3.And(a.formed(), b.formed(), sep(z3.RealVal(0), x, a.l.real, a.r.real, b.l.real, b.r.real), x > -INF, x < INF))
    single = z3.And(a.l.finite(), a.r.finite(), a.l.real == a.r.real)
    for r in c.call(r"^J_includes\(", [pa, x]):
        c.ensure(r.st, bz(r.val) == a.has(x), "membership") if r.kind == "ret" else c.ensure(r.st, False, "never throws")
    for r in c.call(r"^J_zero\(", [pa]):
        c.ensure(r.st, bz(r.val) == z3.And(single, a.l.real == 0), "zero only") if r.kind == "ret" else c.ensure(r.st, False, "never throws")
    v = c.obj("value", {0: ("f64", Fraction(0))}, 8)
    for r in c.call(r"^J_single\(", [pa, v]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        c.ensure(r.st, bz(r.val) == single, "a single value")
        c.ensure(r.st, z3.Implies(single, rz(c.ex.load(r.st, v, "f64")) == a.l.real), "which one")
    for r in c.call(r"^J_merge\(", [pa, pb]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        m = L.view(c, r.st, pa)
        c.ensure(r.st, z3.Implies(z3.Or(a.has(x), b.has(x)), m.has(x)), "merging covers both intervals")
        c.ensure(r.st, m.formed(), "the merged interval is one")


# ---- removal of decided conditions --------------------------------------------
V_ = r"^std::vector<std::unique_ptr<Dal::Script::Node_, .*>::"


def removal(name):
    def f(c):
        ch, w = [None], {}

        def child(ex, st, a, i, dem):
            if len(a) == 1:                                             # virtual destructor
                p = ex.prune(st, a[0])
                ex.oblige(st, isinstance(p, Ptr) and p.obj == w["node"].obj, "only the replaced node is destroyed", i)
                st.ghost["destroyed"] = st.ghost.get("destroyed", 0) + 1
                return [Result(st, "ret", None)]
            k = child_index(ex, st, a[0], ch[0])
            n = ex.load(st, w["count"], "i64", i)
            ex.oblige(st, icmp("eq", k, n.add(st.ghost.get("base", Poly.const(0)))), "each remaining part is processed once, in order", i)
            cur = ex.prune(st, ex.load(st, w["p"].shift(w["cur"]), "ptr", i))
            at = ex.prune(st, ex.load(st, cur, "ptr", i))
            ex.oblige(st, bz(at.obj == ch[0]) if not isinstance(at, Ptr) else z3.And(bz(at.obj == ch[0]), bz(icmp("eq", at.off, k.scale(NSZ)))), "the place to replace is the one that holds the part", i)
            ex.store(st, w["count"], "i64", n.add(Poly.const(1)), i)
            ex.store(st, w["p"].shift(w["cur"]), "ptr", w["junk"], i)      # a part leaves it anywhere
            return [Result(st, "ret", None)]

        def new(ex, st, a, i, dem):
            """storage of a new list: what is put there has to be the statements of the branch taken, in order"""
            base = P(z3.If(w["true"], z3.IntVal(1), Z(w["first"])))
            o = ex.arr_obj(st, fresh_name("kept"), Poly.const(10 ** 9), 8, {0: ("ptr", ABase(lambda k: Ptr(ch[0], P(k).add(base).scale(NSZ))))})
            st.ghost["kept"] = o.id
            st.ghost["base"] = base
            for t in (0, 8, 16):
                ex.store(st, a[0].shift(t), "ptr", Ptr(o.id, 0) if t < 16 else Ptr(o.id, 8 * 10 ** 9), i)
            return [Result(st, "ret", None)]

        def push(ex, st, a, i, dem):
            e = ex.prune(st, ex.load(st, a[0].shift(8), "ptr", i))
            ex.oblige(st, e.obj == st.ghost.get("kept"), "statements are kept in the new node's list", i)
            v = ex.prune(st, ex.load(st, a[1], "ptr", i))
            k = child_index(ex, st, v, ch[0])
            ex.oblige(st, icmp("eq", k, e.off.div_exact(8).add(st.ghost["base"])), "the statements of the branch taken are kept in order", i)
            ex.store(st, a[0].shift(8), "ptr", e.shift(8), i)
            return [Result(st, "ret", e)]

        def inv(ctx):
            out = []
            for v in ctx.ints():
                cnt = Z(ctx.ex.load(ctx.st, w["count"], "i64"))
                i = Z(v["cur"])
                out.append(("%s: processed so far" % v["name"], cnt == i))
                out.append(("%s: range" % v["name"], z3.And(i >= 0, i <= Z(w["n"]))))
                b = ctx.st.ghost.get("base")
                if b is not None:
                    out.append(("%s: kept so far" % v["name"], z3.And(i + Z(b) <= w["stop"], i >= 0)))
                    for x in ctx.ints():
                        if x is not v:
                            out.append(("%s,%s: kept in step" % (v["name"], x["name"]), i == Z(x["cur"]) + Z(b)))
            return out
        c.exec([(re.compile("^virtual:"), child), (re.compile(V_ + r"vector\(\)"), new), (re.compile(V_ + r"(push_back|emplace_back(<.*>)?)\("), push), (re.compile(V_ + r"~vector\(\)"), lambda ex, st, a, i, dem: [Result(st, "ret", None)])],
               [(r"ConstCondProcessor_", inv)], merge=False)
        p = w["p"] = c.obj("processor", {}, 64)
        w["cur"] = probe(c, r"^A_current\(", p).off.c()
        w["count"] = c.obj("processed", {0: ("i64", Poly.const(0))}, 8)
        w["junk"] = c.obj("elsewhere", {0: ("ptr", NULL)}, 8)
        n = w["n"] = c.int("nargs", 1, 10 ** 6)
        tr, fa = c.bool("always_true"), c.bool("always_false")
        by = lambda q: ("i8", ite(q, Poly.const(1), Poly.const(0)))
        flags_ = name in ("Equal", "Sup", "SupEqual", "And", "Or", "Not", "If")
        w["true"], w["first"] = tr, Poly.const(0)
        fields = {}
        if name == "If":
            w["first"] = c.int("first_else", -1, 10 ** 6)
            c.assume(z3.Or(Z(w["first"]) == -1, z3.And(Z(w["first"]) >= 1, Z(w["first"]) <= Z(n))))
            fields = {"first": ("i32", w["first"]), "iftrue": by(tr), "iffalse": by(fa)}
            w["stop"] = z3.If(w["true"], z3.If(Z(w["first"]) == -1, Z(n), Z(w["first"])), Z(n))
        elif flags_:
            fields = {"true": by(tr), "false": by(fa)}
            w["stop"] = Z(n)
        c.assume(z3.Not(z3.And(bz(tr), bz(fa))))
        nd, ch[0] = node(c, n, fields)
        w["node"] = nd
        slot_ = c.obj("slot", {0: ("ptr", nd)}, 8)
        c.st.own(p.obj).cells[w["cur"]] = (8, "ptr", slot_)
        args0 = [c.ex.load(c.st, nd.shift(off(c, "args") + t), "ptr") for t in (0, 8)]
        ty = lambda st: c.ex.prune(st, c.ex.load(st, c.ex.prune(st, c.ex.load(st, slot_, "ptr")), "ptr"))
        for r in c.call(r"^K_%s\(" % name, [p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            st = r.st
            cnt = Z(c.ex.load(st, w["count"], "i64"))
            at = c.ex.prune(st, c.ex.load(st, slot_, "ptr"))
            same_ = at.obj == nd.obj
            if same_:
                c.ensure(st, z3.Not(z3.Or(bz(tr), bz(fa))) if flags_ else True, "a decided condition is removed")
                c.ensure(st, cnt == Z(n), "every part is processed")
                c.ensure(st, all(c.ex.load(st, nd.shift(off(c, "args") + t), "ptr") == q for t, q in zip((0, 8), args0)), "the parts stay in their places")
                continue
            c.ensure(st, flags_, "only a condition is replaced")
            cls = str(c.ex.prune(st, ty(st)).obj) + " " + getattr(st.heap.get(ty(st).obj), "name", "")
            if name == "If":
                c.ensure(st, "NodeCollect_" in cls, "a decided block becomes the list of the statements that run")
                c.ensure(st, z3.Or(bz(tr), bz(fa)), "only a decided block is replaced")
                ao = off(c, "args")
                b, e = (c.ex.prune(st, c.ex.load(st, at.shift(ao + t), "ptr")) for t in (0, 8))
                c.ensure(st, b.obj == e.obj == st.ghost.get("kept"), "the new list")
                m = Z(e.off.div_exact(8))
                want = z3.If(bz(tr), z3.If(Z(w["first"]) == -1, Z(n), Z(w["first"])) - 1, z3.If(Z(w["first"]) == -1, z3.IntVal(0), Z(n) - Z(w["first"])))
                c.ensure(st, m == want, "all the statements of the branch taken are kept, no other")
                c.ensure(st, cnt == m, "and each is processed")
            else:
                c.ensure(st, bz("NodeTrue_" in cls) == bz(tr) if "NodeTrue_" in cls else z3.And(bz("NodeFalse_" in cls), bz(fa)), "a decided condition becomes its truth value")
            c.ensure(st, st.ghost.get("destroyed", 0) == 1, "the replaced node is destroyed")
    f.__name__ = "remove_" + name
    return f


for _n in KK:
    contract("k")(removal(_n))


@contract("k")
def remove_top(c):
    """a statement is processed with its own place as the one to replace"""
    w = {}

    def visit(ex, st, a, i, dem):
        cur = ex.prune(st, ex.load(st, w["p"].shift(w["cur"]), "ptr", i))
        ex.oblige(st, cur.obj == w["slot"].obj and cur.off.c() == 0 and ex.prune(st, a[0]).obj == w["node"].obj, "the place to replace is the statement's own", i)
        st.ghost["seen"] = st.ghost.get("seen", 0) + 1
        return [Result(st, "ret", None)]
    c.exec([(re.compile("^virtual:"), visit)], merge=False)
    w["p"] = c.obj("processor", {}, 64)
    w["cur"] = probe(c, r"^A_current\(", w["p"]).off.c()
    w["node"], _ = node(c, c.int("nargs", 0, 10 ** 6))
    w["slot"] = c.obj("slot", {0: ("ptr", w["node"])}, 8)
    for r in c.call(r"^K_top\(", [w["p"], w["slot"]]):
        c.ensure(r.st, r.kind == "ret" and r.st.ghost.get("seen") == 1, "the statement is processed once")


# ---- ranges of expressions, truth of conditions --------------------------------
# a range is known by a number; IN(number, x): x belongs to it.  The operations on ranges are used through
# their contracts (proved below for the sets of intervals that implement them), at the scenario's values.
IN = z3.Function("in_range", I_, R_, B_)
ROP = {k: z3.Function("range_" + k, I_, I_, I_) for k in ("add", "sub", "mul", "div", "min", "max", "union")}
RNEG, RFUN, RFUN2 = z3.Function("range_neg", I_, I_), z3.Function("range_fun", I_, I_), z3.Function("range_fun2", I_, I_, I_)
SINGLE = z3.Function("range_of_value", R_, I_)
POSS, NEGS = z3.Function("can_be_positive", I_, B_, B_), z3.Function("can_be_negative", I_, B_, B_)
ZERO, NZERO, ZDISC = z3.Function("can_be_zero", I_, B_), z3.Function("can_be_nonzero", I_, B_), z3.Function("zero_is_discrete", I_, B_)
RIGHT, LEFT = z3.Function("smallest_positive_left_end", I_, R_), z3.Function("biggest_negative_right_end", I_, R_)
HASR, HASL = z3.Function("has_part_right_of_zero", I_, B_), z3.Function("has_part_left_of_zero", I_, B_)
CD = z3.Function("range_of_child", I_, I_)
CS = z3.Function("status_of_child", I_, I_)
DO = r"^(Dal::Script::Domain_ )?Dal::Script::Domain_::"
DST = r"^(void )?Dal::StaticStack_<Dal::Script::(Domain_|DomainCondProp_::Value_), 128ul>::"


def holds_in(d, x):
    """contract of the questions about range d, at the scenario value x"""
    out = [z3.Implies(z3.Not(ZERO(d)), z3.Not(z3.And(IN(d, x), x == 0))), z3.Implies(z3.Not(NZERO(d)), z3.Implies(IN(d, x), x == 0))]
    for s in (True, False):
        t = z3.BoolVal(s)
        out.append(z3.Implies(z3.Not(POSS(d, t)), z3.Implies(IN(d, x), x <= 0 if s else x < 0)))
        out.append(z3.Implies(z3.Not(NEGS(d, t)), z3.Implies(IN(d, x), x >= 0 if s else x > 0)))
    return z3.And(out)


def parts(d):
    """contract of the questions used for smoothing"""
    t = z3.BoolVal(True)
    return z3.And(z3.Implies(HASR(d), RIGHT(d) > 0), z3.Implies(HASL(d), LEFT(d) < 0), z3.Implies(z3.And(POSS(d, t), z3.Or(z3.Not(ZERO(d)), ZDISC(d))), HASR(d)), z3.Implies(z3.And(NEGS(d, t), z3.Or(z3.Not(ZERO(d)), ZDISC(d))), HASL(d)),
                  z3.Implies(z3.And(POSS(d, z3.BoolVal(False)), z3.Not(ZERO(d))), HASR(d)), z3.Implies(z3.And(NEGS(d, z3.BoolVal(False)), z3.Not(ZERO(d))), HASL(d)))


class Ranges:
    def __init__(self, c, child, inv=None, points=()):
        self.c, self.points = c, [rz(x) for x in points]
        self.ch = [None]
        c.exec(self.handlers() + [(re.compile("^virtual:"), child)], [(r"DomainProcessor_::Visit", inv)] if inv else [], merge=False)
        self.L = Layout(c)
        self.dsz = probe(c, r"^P_dsize\(").c()
        self.p = c.obj("processor", {}, probe(c, r"^P_psize\(").c())
        o = lambda nm: probe(c, r"^P_%s\(" % nm, self.p).off.c()
        self.o = {nm: o(nm) for nm in ("doms", "dstack", "cstack", "islhs", "lhs", "fuzzy")}
        self.T, self.F, self.E = (probe(c, r"^P_%s\(" % nm).c() for nm in ("true", "false", "either"))
        self.nv = c.int("nvars", 1, 10 ** 6)
        self.D0 = z3.Function("range_of_variable", I_, I_)
        arr = c.ex.arr_obj(c.st, "ranges", self.nv, self.dsz, {0: ("i64", ABase(lambda k: P(self.D0(Z(k)))))})
        self.arr = arr.id
        q = Ptr(arr.id, 0)
        cells = c.st.own(self.p.obj).cells
        for t, v in ((0, q), (8, q.shift(self.nv.scale(self.dsz))), (16, q.shift(self.nv.scale(self.dsz)))):
            cells[self.o["doms"] + t] = (8, "ptr", v)
        self.fuzzy = c.bool("fuzzy")
        cells[self.o["fuzzy"]] = (1, "i8", ite(self.fuzzy, Poly.const(1), Poly.const(0)))
        cells[self.o["islhs"]] = (1, "i8", Poly.const(0))
        self.dk, self.ck = ("stack", self.p.obj, self.o["dstack"]), ("stack", self.p.obj, self.o["cstack"])

    def id(self, ex, st, p, i=None):
        return Z(ex.load(st, ex.prune(st, p), "i64", i))

    def put(self, ex, st, p, d, i=None):
        ex.store(st, ex.prune(st, p), "i64", P(d), i)

    def slot(self, ex, st, d):
        o = ex.new_obj(st, "range", self.dsz)
        o.cells[0] = (8, "i64", P(d))
        return o.id

    def push(self, ex, st, d):
        st.ghost[self.dk] = st.ghost.get(self.dk, ()) + (self.slot(ex, st, d),)

    def pushc(self, ex, st, v):
        o = ex.new_obj(st, "status", 1)
        o.cells[0] = (1, "i8", P(v))
        st.ghost[self.ck] = st.ghost.get(self.ck, ()) + (o.id,)

    def handlers(self):
        R = lambda x: re.compile(x)
        ok = lambda st, v=None: [Result(st, "ret", v)]
        pts = lambda: self.points

        def binary(op, f, pre=None):
            def h(ex, st, a, i, dem):
                u, v = self.id(ex, st, a[1], i), self.id(ex, st, a[2], i)
                r = ROP[op](u, v)
                for x in list(pts()):
                    for y in list(pts()):
                        st.assume(z3.Implies(z3.And(IN(u, x), IN(v, y), *([pre(x, y)] if pre else [])), IN(r, f(x, y))))
                self.put(ex, st, a[0], r, i)
                return ok(st)
            return h

        def neg(ex, st, a, i, dem):
            u = self.id(ex, st, a[1], i)
            for x in pts():
                st.assume(z3.Implies(IN(u, x), IN(RNEG(u), -x)))
            self.put(ex, st, a[0], RNEG(u), i)
            return ok(st)

        def single(ex, st, a, i, dem):
            st.assume(IN(SINGLE(rz(a[1])), rz(a[1])))
            self.put(ex, st, a[0], SINGLE(rz(a[1])), i)
            return ok(st)

        def whole(ex, st, a, i, dem):
            v = self.L.view(self.c, st, ex.prune(st, a[1]))
            d = z3.FreshInt("range")
            for x in pts():
                st.assume(z3.Implies(v.has(x), IN(d, x)))
            self.put(ex, st, a[0], d, i)
            return ok(st)

        def copy(ex, st, a, i, dem):
            self.put(ex, st, a[0], self.id(ex, st, a[1], i), i)
            if "&&" in dem and not same_place(ex.prune(st, a[0]), ex.prune(st, a[1])):
                self.put(ex, st, a[1], z3.FreshInt("moved_from"), i)
            return ok(st, a[0] if "operator=" in dem else None)

        def apply(ex, st, a, i, dem):
            two = "ApplyFunc2" in dem
            u = self.id(ex, st, a[1], i)
            fp = ex.prune(st, a[2])
            if two:
                fp = ex.prune(st, ex.load(st, fp, "ptr", i))
            fn = self.fn_of(ex, fp)
            dom = self.L.view(self.c, st, ex.prune(st, a[-1]))
            r = z3.FreshInt("range")
            v = self.id(ex, st, a[3], i) if two else None
            for x in pts():
                for y in pts() if two else [None]:
                    val = fn(x, y) if two else fn(x)
                    st.assume(z3.Implies(z3.And(IN(u, x), *([IN(v, y)] if two else []), dom.has(val)), IN(r, val)))
            self.put(ex, st, a[0], r, i)
            return ok(st)

        def ask(f):
            def h(ex, st, a, i, dem):
                d = self.id(ex, st, a[0], i)
                for x in pts():
                    st.assume(holds_in(d, x))
                st.assume(parts(d))
                return ok(st, f(d, *[bz(x) for x in a[1:]]))
            return h

        def part(has, val):
            def h(ex, st, a, i, dem):
                d = self.id(ex, st, a[0], i)
                st.assume(parts(d))
                ex.oblige(st, bz(a[2]), "ends are asked for strictly away from zero", i)
                out = []
                for t in (True, False):
                    s = st.fork()
                    try:
                        s.assume(has(d) if t else z3.Not(has(d)))
                    except Infeasible:
                        continue
                    if t:
                        ex.store(s, a[1], "f64", val(d), i)
                    out.append(Result(s, "ret", t))
                return out
            return h

        def union(ex, st, a, i, dem):
            self.put(ex, st, a[0], ROP["union"](self.id(ex, st, a[0], i), self.id(ex, st, a[1], i)), i)
            return ok(st)

        def empty(ex, st, a, i, dem):
            self.put(ex, st, a[0], z3.FreshInt("empty"), i)
            return ok(st)

        # stacks
        kd = lambda dem: "Domain_" if re.match(DST, dem).group(2) == "Domain_" else "Value_"

        def push(ex, st, a, i, dem):
            if kd(dem) == "Value_":
                self.pushc(ex, st, Z(ex.load(st, ex.prune(st, a[1]), "i8", i)))
            elif "Push<double" in dem:
                x = rz(ex.load(st, ex.prune(st, a[1]), "f64", i))
                st.assume(IN(SINGLE(x), x))
                self.push(ex, st, SINGLE(x))
            else:
                self.push(ex, st, self.id(ex, st, a[1], i))
            return ok(st)

        def stk(dem):
            return self.dk if kd(dem) == "Domain_" else self.ck

        def at(ex, st, a, i, dem):
            n = a[1].c() if len(a) > 1 else 0
            return ok(st, Ptr(need(ex, st, stk(dem), n + 1, i)[-1 - n], 0))

        def pop(ex, st, a, i, dem):
            n = a[1].c() if len(a) > 1 else 1
            s = need(ex, st, stk(dem), n, i)
            st.ghost[stk(dem)] = s[:len(s) - n]
            return ok(st)

        def store(ex, st, a, i, dem):
            n = a[1]
            o = ex.arr_obj(st, fresh_name("store"), n, self.dsz, {0: ("i64", ABase(lambda k: Poly.const(-1)))})
            q = Ptr(o.id, 0)
            for t, v in ((0, q), (8, q.shift(n.scale(self.dsz))), (16, q.shift(n.scale(self.dsz)))):
                ex.store(st, a[0].shift(t), "ptr", v, i)
            return ok(st)
        mx, mn = (lambda x, y: z3.If(x < y, y, x)), (lambda x, y: z3.If(x < y, x, y))
        return [(R(DST + "Push"), push), (R(DST + r"(Top\(|operator\[\])"), at), (R(DST + r"Pop\("), pop),
                (R(DO + r"operator\+\(Dal"), binary("add", lambda x, y: x + y)), (R(DO + r"operator-\(Dal"), binary("sub", lambda x, y: x - y)), (R(DO + r"operator\*\("), binary("mul", lambda x, y: x * y)),
                (R(DO + r"operator/\("), binary("div", lambda x, y: x / y, lambda x, y: y != 0)), (R(DO + r"DMax\("), binary("max", mx)), (R(DO + r"DMin\("), binary("min", mn)), (R(DO + r"operator-\(\)"), neg),
                (R(DO + r"Domain_\(double\)"), single), (R(DO + r"Domain_\(Dal::Script::Interval_"), whole), (R(DO + r"(Domain_|operator=)\(Dal::Script::Domain_"), copy), (R(DO + r"Domain_\(\)"), empty), (R(DO + r"~Domain_"), lambda ex, st, a, i, dem: ok(st)),
                (R(DO + r"ApplyFunc"), apply), (R(DO + r"CanBeZero\("), ask(ZERO)), (R(DO + r"CanBeNonZero\("), ask(NZERO)), (R(DO + r"ZeroIsDiscrete\("), ask(ZDISC)), (R(DO + r"CanBePositive\("), ask(POSS)), (R(DO + r"CanBeNegative\("), ask(NEGS)),
                (R(DO + r"SmallestPosLb\("), part(HASR, RIGHT)), (R(DO + r"BiggestNegRb\("), part(HASL, LEFT)), (R(DO + r"AddDomain\("), union),
                (R(r"^Dal::Vector_<Dal::Script::Domain_.*>::Vector_\((unsigned long|int)"), store), (R(r"^(Dal::Vector_|std::vector)<Dal::Script::Domain_.*>::~"), lambda ex, st, a, i, dem: ok(st))]

    def fn_of(self, ex, fp):
        nm = fp.obj[1] if isinstance(fp.obj, tuple) else str(fp.obj)
        if re.search(r"pow", nm):
            return lambda x, y: POW(x, y)
        for k in ("exp", "log", "sqrt"):
            if re.search(k, nm):
                return UF1[k]
        raise Unsupported("function " + nm)

    def ranges(self, st, q):
        return Z(self.c.ex.load(st, Ptr(self.arr, P(q).scale(self.dsz)), "i64"))

    def settled(self, st, nd=0, nc=0):
        self.c.ensure(st, len(st.ghost.get(self.dk, ())) == nd and len(st.ghost.get(self.ck, ())) == nc, "the stacks hold the result and nothing else")
        return st.ghost.get(self.dk, ()), st.ghost.get(self.ck, ())


def same_place(p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and p.off.add(q.off, -1).is_const() and p.off.add(q.off, -1).c() == 0


DEXPR = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Multi": lambda x, y: x * y, "Div": lambda x, y: x / y, "Pow": lambda x, y: POW(x, y), "Max": lambda x, y: z3.If(x < y, y, x), "Min": lambda x, y: z3.If(x < y, x, y),
         "UPlus": lambda x: x, "UMinus": lambda x: -x, "Log": lambda x: UF1["log"](x), "Sqrt": lambda x: UF1["sqrt"](x), "Exp": lambda x: UF1["exp"](x)}


def range_expr(name):
    def f(c):
        n = NODES[name]

        def child(ex, st, a, i, dem):
            k = child_index(ex, st, a[0], w.ch[0])
            w.push(ex, st, CD(Z(k)))
            return [Result(st, "ret", None)]
        xs = [VAL(z3.IntVal(k)) for k in range(n)]
        w = Ranges(c, child, None, xs)
        for k in range(n):
            c.assume(IN(CD(z3.IntVal(k)), xs[k]))
        if name == "Div":
            c.assume(xs[1] != 0)
        if name == "Sqrt":
            c.assume(z3.And(xs[0] >= 0, UF1["sqrt"](xs[0]) >= 0))
        nd, w.ch[0] = node(c, n)
        got = 0
        for r in c.call(r"^D_%s\(" % name, [w.p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            got += 1
            d, _ = w.settled(r.st, 1, 0)
            if len(d) == 1:
                c.ensure(r.st, IN(w.id(c.ex, r.st, Ptr(d[0], 0)), DEXPR[name](*xs)), "the value belongs to the range worked out")
        c.ensure(c.st, got > 0, "some path returns")
    f.__name__ = "range_" + name
    return f


for _n in DEXPR:
    contract("d")(range_expr(_n))


DCOND = {"Equal": lambda x: x == 0, "Sup": lambda x: x > 0, "SupEqual": lambda x: x >= 0}


def range_comp(name):
    def f(c):
        def child(ex, st, a, i, dem):
            k = child_index(ex, st, a[0], w.ch[0])
            w.push(ex, st, CD(Z(k)))
            return [Result(st, "ret", None)]
        x = VAL(z3.IntVal(0))
        w = Ranges(c, child, None, [x])
        c.assume(IN(CD(z3.IntVal(0)), x))
        by = lambda nm: ("i8", ite(c.bool(nm), Poly.const(1), Poly.const(0)))
        nd, w.ch[0] = node(c, 1, {"true": by("t0"), "false": by("f0"), "discrete": by("d0"), "lb": ("f64", c.real("lb0")), "rb": ("f64", c.real("rb0"))})
        for r in c.call(r"^D_%s\(" % name, [w.p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            verdict(c, w, r.st, nd, DCOND[name](x))
            g = lambda nm, ty="i8": c.ex.load(r.st, nd.shift(off(c, nm)), ty)
            on = z3.And(bz(w.fuzzy), z3.Not(bz(icmp("ne", g("true"), 0))), z3.Not(bz(icmp("ne", g("false"), 0))), bz(icmp("ne", g("discrete"), 0)))
            lb, rb = rz(g("lb", "f64")), rz(g("rb", "f64"))
            c.ensure(r.st, z3.Implies(on, z3.And(lb < rb, lb <= 0, rb >= 0, *([lb < 0, rb > 0] if name == "Equal" else []))), "the ends used for smoothing lie on their sides of zero")
    f.__name__ = "decide_" + name
    return f


def verdict(c, w, st, nd, truth):
    _, cs = w.settled(st, 0, 1)
    t, f = (bz(icmp("ne", c.ex.load(st, nd.shift(off(c, q)), "i8"), 0)) for q in ("true", "false"))
    c.ensure(st, z3.Implies(t, truth), "found always true only if it is true")
    c.ensure(st, z3.Implies(f, z3.Not(truth)), "found always false only if it is false")
    if len(cs) == 1:
        v = Z(c.ex.load(st, Ptr(cs[0], 0), "i8"))
        c.ensure(st, z3.And((v == w.T) == t, (v == w.F) == f, z3.Or(v == w.T, v == w.F, v == w.E)), "what is reported to the enclosing condition is what is recorded")


for _n in DCOND:
    contract("d")(range_comp(_n))


def status(w, k):
    k = z3.IntVal(k)
    return z3.And(z3.Or(CS(k) == w.T, CS(k) == w.F, CS(k) == w.E), z3.Implies(CS(k) == w.T, TRUTH(k)), z3.Implies(CS(k) == w.F, z3.Not(TRUTH(k))))


def range_logic(name):
    def f(c):
        def child(ex, st, a, i, dem):
            w.pushc(ex, st, CS(Z(child_index(ex, st, a[0], w.ch[0]))))
            return [Result(st, "ret", None)]
        w = Ranges(c, child)
        n = NODES[name]
        for k in range(n):
            c.assume(status(w, k))
        by = lambda nm: ("i8", ite(c.bool(nm), Poly.const(1), Poly.const(0)))
        nd, w.ch[0] = node(c, n, {"true": by("t0"), "false": by("f0")})
        ts = [TRUTH(z3.IntVal(k)) for k in range(n)]
        for r in c.call(r"^D_%s\(" % name, [w.p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            verdict(c, w, r.st, nd, {"And": z3.And, "Or": z3.Or, "Not": z3.Not}[name](*ts))
    f.__name__ = "decide_" + name
    return f


for _n in ("And", "Or", "Not"):
    contract("d")(range_logic(_n))


@contract("d")
def range_leaves(c):
    """variables, constants and the market"""
    j = None
    x0 = z3.Function("value_of_variable", I_, R_)
    spot = z3.Real("spot")
    for name in ("Var", "Const", "ConstVar", "Spot"):
        c.st = State()
        w = Ranges(c, lambda *a: (_ for _ in ()).throw(Unsupported("leaf")), None, [spot])
        j, v = c.int("index", 0, 10 ** 6), c.real("constant")
        c.assume(z3.And(Z(j) < Z(w.nv), IN(w.D0(Z(j)), x0(Z(j)))))
        nd, w.ch[0] = node(c, 0, {"index": ("i32", j)} if name == "Var" else {"constval": ("f64", v)} if name != "Spot" else {})
        for r in c.call(r"^D_%s\(" % name, [w.p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            d, _ = w.settled(r.st, 1, 0)
            if len(d) == 1:
                c.ensure(r.st, IN(w.id(c.ex, r.st, Ptr(d[0], 0)), x0(Z(j)) if name == "Var" else spot if name == "Spot" else rz(v)), "the value belongs to the range worked out (%s)" % name)


def range_act(name):
    def f(c):
        x0 = z3.Function("value_of_variable", I_, R_)
        num = z3.Real("numeraire")

        def child(ex, st, a, i, dem):
            k = child_index(ex, st, a[0], w.ch[0])
            lhs = icmp("ne", ex.load(st, w.p.shift(w.o["islhs"]), "i8", i), 0)
            if k.c() == 0:
                ex.oblige(st, lhs, "the variable on the left is not read", i)
                ex.store(st, w.p.shift(w.o["lhs"]), "i64", j, i)
            else:
                ex.oblige(st, bnot(as_bool(lhs)), "the right-hand side is read", i)
                w.push(ex, st, CD(Z(k)))
            return [Result(st, "ret", None)]
        x = VAL(z3.IntVal(1))
        w = Ranges(c, child, None, [x, num])
        j, q = c.int("index", 0, 10 ** 6), c.int("any", 0, 10 ** 6)
        w.points += [x0(Z(j)), x / num]
        c.assume(z3.And(Z(j) < Z(w.nv), Z(q) < Z(w.nv), num > 0, IN(CD(z3.IntVal(1)), x), IN(w.D0(Z(j)), x0(Z(j))), IN(w.D0(Z(q)), x0(Z(q)))))
        nd, w.ch[0] = node(c, 2)
        for r in c.call(r"^D_%s\(" % name, [w.p, nd]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            w.settled(r.st, 0, 0)
            c.ensure(r.st, IN(w.ranges(r.st, j), x if name == "Assign" else x0(Z(j)) + x / num), "the new value belongs to the variable's range")
            c.ensure(r.st, z3.Implies(Z(q) != Z(j), IN(w.ranges(r.st, q), x0(Z(q)))), "the other variables keep theirs")
            c.ensure(r.st, icmp("eq", c.ex.load(r.st, w.p.shift(w.o["islhs"]), "i8"), 0), "variables are read again afterwards")
    f.__name__ = "range_" + name
    return f


for _n in ("Assign", "Pays"):
    contract("d")(range_act(_n))


@contract("d")
def range_If(c):
    """each variable's range after a block covers its value after the branch that runs"""
    AF, POS, AFF = z3.Function("affected", I_, I_), z3.Function("position_of", I_, I_), z3.Function("is_affected", I_, B_)
    DT, DF = z3.Function("range_in_first_branch", I_, I_, I_), z3.Function("range_in_else_branch", I_, I_, I_)
    XT, XF = z3.Function("value_after_first_branch", I_, R_), z3.Function("value_after_else_branch", I_, R_)

    def child(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], w.ch[0])
        j = P(z3.FreshInt("any"))
        s = st.fork()
        s.assume(z3.And(Z(j) >= 0, Z(j) < Z(w.nv)))
        now = w.ranges(s, j)
        if k.is_const() and k.c() == 0:
            ex.oblige(s, now == w.D0(Z(j)), "the condition is looked at first", i)
            w.pushc(ex, st, CS(z3.IntVal(0)))
            return [Result(st, "ret", None)]
        first = z3.Or(Z(fe) == -1, Z(k) < Z(fe))
        ex.oblige(s, now == z3.If(first, DT(Z(k), Z(j)), DF(Z(k), Z(j))), "a statement is looked at with the ranges its branch has there", i)
        o = st.own(w.arr)
        o.arrays[(0, "i64p")] = ABase(lambda q, k=k: P(z3.If(first, DT(Z(k) + 1, Z(q)), DF(Z(k) + 1, Z(q)))))
        if ex.writes is not None:
            ex.writes.add((w.arr, "arr", (0, "i64p"), "i64"))
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = []
        for v in ctx.ints():
            i = Z(v["cur"])
            for oid, k in ctx.arrays:
                cur = lambda q, oid=oid, k=k: Z(ctx.cur(oid, k, P(q)))
                nm = "%s,%d: " % (v["name"], oid)
                done = lambda q, i=i: z3.And(AFF(q), POS(q) < i)
                if oid == w.arr:
                    def add(n, f):
                        out.append((nm + n, All(lambda q, f=f: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(w.nv)), f(Z(q))))))
                    add("first branch", lambda q, i=i, cur=cur: cur(q) == DT(i, q))
                    add("else branch", lambda q, i=i, cur=cur: cur(q) == DF(i, q))
                    add("not yet moved", lambda q, done=done, cur=cur: z3.Or(done(q), cur(q) == DT(tend, q)))
                    add("put back", lambda q, done=done, cur=cur: z3.And(z3.Implies(done(q), cur(q) == w.D0(q)), z3.Implies(z3.Not(AFF(q)), cur(q) == DT(tend, q))))
                    add("joined", lambda q, done=done, cur=cur: cur(q) == z3.If(done(q), ROP["union"](fin(q), DT(tend, q)), fin(q)))
                else:
                    def addi(n, f):
                        out.append((nm + n, All(lambda q, f=f, i=i: z3.Implies(z3.And(Z(q) >= 0, Z(q) < i), f(Z(q))))))
                    addi("start recorded", lambda q, cur=cur: cur(q) == w.D0(AF(q)))
                    addi("outcome recorded", lambda q, cur=cur: cur(q) == DT(tend, AF(q)))
                    out.append((nm + "rest kept", All(lambda q, i=i, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= i, Z(q) < Z(na)), Z(ctx.cur(oid, k, P(Z(q)))) == Z(ctx.old(oid, k, P(Z(q))))))))
        return out
    w = Ranges(c, child, inv)
    n, fe = c.int("nargs", 1, 10 ** 6), c.int("firstElse", -1, 10 ** 6)
    c.assume(z3.Or(Z(fe) == -1, z3.And(Z(fe) >= 1, Z(fe) <= Z(n))))
    tend = z3.If(Z(fe) == -1, Z(n), Z(fe))
    fin = lambda q: z3.If(Z(fe) == -1, w.D0(q), DF(Z(n), q))
    na = c.int("naffected", 0, 10 ** 6)
    by = lambda nm: ("i8", ite(c.bool(nm), Poly.const(1), Poly.const(0)))
    nd, w.ch[0] = node(c, n, {"first": ("i32", fe), "iftrue": by("t0"), "iffalse": by("f0")})
    fo = off(c, "affected")
    ap, _ = c.array("affected_list", na, "i64", lambda q: P(AF(Z(q))))
    o = c.st.own(nd.obj)
    for x, v in ((0, ap), (8, ap.shift(na.scale(8))), (16, ap.shift(na.scale(8)))):
        o.cells[fo + x] = (8, "ptr", v)
    c.st.schemas.append(Schema("affected list", [AF], lambda a: z3.Implies(z3.And(a >= 0, a < Z(na)), z3.And(AF(a) >= 0, AF(a) < Z(w.nv), AFF(AF(a)), POS(AF(a)) == a))))
    c.st.schemas.append(Schema("position of an affected variable", [AFF, POS], lambda j: z3.Implies(AFF(j), z3.And(POS(j) >= 0, POS(j) < Z(na), AF(POS(j)) == j))))
    for F_, k0, nm in ((DT, z3.IntVal(1), "first"), (DF, Z(fe), "else")):
        c.st.schemas.append(Schema(nm + " branch", [F_], lambda k, j, F_=F_, k0=k0: z3.And(z3.Implies(k == k0, F_(k, j) == w.D0(j)), z3.Implies(z3.Not(AFF(j)), F_(k, j) == w.D0(j)))))
    c.assume(status(w, 0))
    j = c.int("j", 0, 10 ** 6)
    jz = Z(j)
    T = TRUTH(z3.IntVal(0))
    # the statements' own contracts, one after the other: the value after the branch belongs to the range after it
    c.assume(z3.And(jz < Z(w.nv), z3.Implies(T, IN(DT(tend, jz), XT(jz))), z3.Implies(z3.Not(T), IN(fin(jz), XF(jz)))))
    u = ROP["union"](fin(jz), DT(tend, jz))
    for x in (XT(jz), XF(jz)):
        c.assume(z3.Implies(z3.Or(IN(fin(jz), x), IN(DT(tend, jz), x)), IN(u, x)))
    for r in c.call(r"^D_If\(", [w.p, nd]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        w.settled(r.st, 0, 0)
        c.ensure(r.st, IN(w.ranges(r.st, j), z3.If(T, XT(jz), XF(jz))), "the value after the block belongs to the range worked out")
        t, f = (bz(icmp("ne", c.ex.load(r.st, nd.shift(off(c, q)), "i8"), 0)) for q in ("iftrue", "iffalse"))
        c.ensure(r.st, z3.And(z3.Implies(t, T), z3.Implies(f, z3.Not(T))), "a block is decided only as its condition is")


# ---- sets of intervals -----------------------------------------------------------
# std::set<Interval_> is an ordered sequence of intervals (trusted library); iterators are positions in it
SETN = 40
ST_ = r"^std::set<Dal::Script::Interval_.*?>::"
ITR = r"^std::_Rb_tree_const_iterator<Dal::Script::Interval_>::"


class Sets2:
    def __init__(self, c, extra=(), inv=(), target=None):
        self.c, self.sets, self.t = c, {}, target
        c.exec(list(extra) + self.handlers(), list(inv), merge=False)
        self.L = Layout(c)
        self.S = self.L.size
        L = self.L
        self.K = dict(lm=(L.left + L.minus, "i8"), lr=(L.left + L.real, "f64"), rp=(L.right + L.plus, "i8"), rr=(L.right + L.real, "f64"))

    def make(self, name, n=None, empty=False):
        """an ordered set of n disjoint intervals"""
        c = self.c
        p = c.obj(name, {}, probe(c, r"^P_dsize\(").c())
        n = c.int(name + ".count", 0, 10 ** 6) if n is None else P(n)
        F = {k: z3.Function("%s_%s" % (name, k), I_, B_ if ty == "i8" else R_) for k, (_, ty) in self.K.items()}
        o = c.ex.arr_obj(c.st, name + "_intervals", Poly.const(10 ** 9), self.S, {})
        L = self.L
        for k, (of, ty) in self.K.items():
            o.arrays[(of, ty)] = ABase(lambda q, f=F[k]: ite(f(Z(q)), Poly.const(1), Poly.const(0))) if ty == "i8" else ABase(lambda q, f=F[k]: f(Z(q)))
        for of in (L.left + L.plus, L.right + L.minus):
            o.arrays[(of, "i8")] = ABase(lambda q: Poly.const(0))
        c.st.own(p.obj).cells[SETN] = (8, "i64", n)
        self.sets[p.obj] = o.id
        e = lambda k: Itv(Bnd(z3.BoolVal(False), F["lm"](k), F["lr"](k)), Bnd(F["rp"](k), z3.BoolVal(False), F["rr"](k)))
        N = Z(n)
        c.st.schemas.append(Schema(name + " intervals", [F["lr"], F["rr"]], lambda k: z3.Implies(z3.And(k >= 0, k < N), e(k).formed())))
        self.ordered(c.st, F, N)
        return p, n, e

    def ordered(self, st, F, N):
        def pair(k, l):
            return z3.Implies(z3.And(k >= 0, k < l, l < N), F["rr"](k) < F["lr"](l))
        st.schemas.append(Schema("in order", [F["rr"], F["lr"]], pair, pairs=True))

    def n(self, ex, st, d, i=None):
        return ex.load(st, Ptr(d, SETN), "i64", i)

    def at(self, st, d, k):
        o = st.heap[self.sets[d]]
        g = lambda nm: o.arrays[self.K[nm]].select(self.c.ex, None, [P(k)])
        b = lambda v: bz(icmp("ne", v, 0))
        return Itv(Bnd(z3.BoolVal(False), b(g("lm")), rz(g("lr"))), Bnd(b(g("rp")), z3.BoolVal(False), rz(g("rr"))))

    def dom(self, ex, st, p):
        p = ex.prune(st, p)
        if p.obj not in self.sets:
            raise Unsupported("set")
        return p.obj

    def handlers(self):
        R = re.compile

        def begin(ex, st, a, i, dem):
            return give(ex, st, a, Ptr(self.sets[self.dom(ex, st, a[-1])], 0), i)

        def give(ex, st, a, p, i):
            if len(a) == 2:
                ex.store(st, a[0], "ptr", p, i)
                return [Result(st, "ret", None)]
            return [Result(st, "ret", p)]

        def end(ex, st, a, i, dem):
            d = self.dom(ex, st, a[-1])
            return give(ex, st, a, Ptr(self.sets[d], self.n(ex, st, d, i).scale(self.S)), i)

        def it(ex, st, a, i):
            return ex.prune(st, ex.load(st, ex.prune(st, a[0]), "ptr", i))

        def owner(p):
            return next(d for d, o in self.sets.items() if o == p.obj)

        def deref(ex, st, a, i, dem):
            p = it(ex, st, a, i)
            k = p.off.div_exact(self.S)
            ex.oblige(st, z3.And(Z(k) >= 0, Z(k) < Z(self.n(ex, st, owner(p), i))), "only members of the set are looked at", i)
            if "seen" in self.__dict__:
                ex.store(st, self.seen, "i64", k, i)
            return [Result(st, "ret", p)]

        def step(by):
            def h(ex, st, a, i, dem):
                p = it(ex, st, a, i)
                k = p.off.div_exact(self.S)
                N = self.n(ex, st, owner(p), i)
                ex.oblige(st, z3.And(Z(k) < Z(N), Z(k) >= 0) if by > 0 else z3.And(Z(k) > 0, Z(k) <= Z(N)), "positions stay in the set", i)
                ex.store(st, a[0], "ptr", p.shift(by * self.S), i)
                return [Result(st, "ret", a[0])]
            return h

        def count(ex, st, a, i, dem):
            if ex.prune(st, a[0]).obj not in self.sets:                     # a set under construction: any number
                n = P(z3.FreshInt("size"))
                st.assume(Z(n) >= 0)
            else:
                n = self.n(ex, st, self.dom(ex, st, a[0]), i)
            return [Result(st, "ret", as_bool(icmp("eq", n, 0)) if "empty" in dem else n)]

        def less_(gt):
            def h(ex, st, a, i, dem):
                u, v = (self.L.bound(self.c, st, ex.prune(st, q)) for q in a)
                return [Result(st, "ret", v.real < u.real if gt else u.real < v.real)]
            return h

        def equal_(ex, st, a, i, dem):
            u, v = (self.L.bound(self.c, st, ex.prune(st, q)) for q in a)
            return [Result(st, "ret", u.real == v.real)]

        def touch(ex, d):
            if ex.writes is not None:
                for key in self.K.values():
                    ex.writes.add((self.sets[d], "arr", key, key[1]))

        def before(u, v):
            return z3.Or(u.l.real < v.l.real, z3.And(u.l.real == v.l.real, u.r.real < v.r.real))

        def lower(ex, st, a, i, dem):
            d = self.dom(ex, st, a[0])
            v = self.L.view(self.c, st, ex.prune(st, a[1]))
            N, k = Z(self.n(ex, st, d, i)), z3.FreshInt("first_not_before")
            st.assume(z3.And(k >= 0, k <= N, z3.Implies(k > 0, before(self.at(st, d, P(k - 1)), v)), z3.Implies(k < N, z3.Not(before(self.at(st, d, P(k)), v)))))
            return [Result(st, "ret", Ptr(self.sets[d], P(k).scale(self.S)))]

        def insert(ex, st, a, i, dem):
            d = self.dom(ex, st, a[0])
            v = self.L.view(self.c, st, ex.prune(st, a[1]))
            n = self.n(ex, st, d, i)
            N, k = Z(n), z3.FreshInt("place")
            # the place: behind all smaller members
            st.assume(z3.And(k >= 0, k <= N, z3.Implies(k > 0, before(self.at(st, d, P(k - 1)), v)), z3.Implies(k < N, z3.Not(before(self.at(st, d, P(k)), v)))))
            ex.oblige(st, z3.Implies(k < N, before(v, self.at(st, d, P(k)))), "what is put into the set is not already there", i)
            ex.oblige(st, z3.And(z3.Implies(k > 0, self.at(st, d, P(k - 1)).r.real < v.l.real), z3.Implies(k < N, v.r.real < self.at(st, d, P(k)).l.real)), "what is put into the set meets none of its members", i)
            ex.oblige(st, v.formed(), "what is put into the set is an interval", i)
            o = st.own(self.sets[d])
            new = dict(lm=ite(v.l.minus, Poly.const(1), Poly.const(0)), lr=v.l.real, rp=ite(v.r.plus, Poly.const(1), Poly.const(0)), rr=v.r.real)
            for nm, key in self.K.items():
                old = o.arrays[key]
                o.arrays[key] = ABase(lambda q, old=old, x=new[nm], k=k: ite(Z(q) == k, x, ite(Z(q) < k, old.select(ex, None, [P(q)]), old.select(ex, None, [P(Z(q) - 1)]))))
            touch(ex, d)
            ex.store(st, Ptr(d, SETN), "i64", n.add(Poly.const(1)), i)
            if "W" in self.__dict__ and d == self.main:
                W = Z(ex.load(st, self.W, "i64", i))
                ex.store(st, self.W, "i64", P(z3.If(W < 0, z3.If(v.has(self.t), k, z3.IntVal(-1)), z3.If(W >= k, W + 1, W))), i)
            return [Result(st, "ret", UNDEF)]

        def erase(ex, st, a, i, dem):
            d = self.dom(ex, st, a[0])
            p = a[1]
            if isinstance(p, (Ptr, PtrIte)):
                p = ex.prune(st, p)
            if p.obj != self.sets[d]:
                p = ex.prune(st, ex.load(st, p, "ptr", i))
            k, n = Z(p.off.div_exact(self.S)), self.n(ex, st, d, i)
            ex.oblige(st, z3.And(k >= 0, k < Z(n)), "only a member is taken out", i)
            o = st.own(self.sets[d])
            for nm, key in self.K.items():
                old = o.arrays[key]
                o.arrays[key] = ABase(lambda q, old=old, k=k: ite(Z(q) < k, old.select(ex, None, [P(q)]), old.select(ex, None, [P(Z(q) + 1)])))
            touch(ex, d)
            ex.store(st, Ptr(d, SETN), "i64", n.add(Poly.const(-1)), i)
            if "W" in self.__dict__ and d == self.main:
                W = Z(ex.load(st, self.W, "i64", i))
                ex.store(st, self.W, "i64", P(z3.If(W == k, z3.IntVal(-1), z3.If(W > k, W - 1, W))), i)
            return [Result(st, "ret", p)]

        def clear(ex, st, a, i, dem):
            d = self.dom(ex, st, a[0])
            ex.store(st, Ptr(d, SETN), "i64", Poly.const(0), i)
            if "W" in self.__dict__ and d == self.main:
                ex.store(st, self.W, "i64", Poly.const(-1), i)
            return [Result(st, "ret", None)]

        def merge(ex, st, a, i, dem):
            """contract proved by interval_questions, exact ends"""
            u, v = (self.L.view(self.c, st, ex.prune(st, q)) for q in a)
            lo, hi = v.l.real < u.l.real, v.r.real > u.r.real
            by = lambda q: ite(q, Poly.const(1), Poly.const(0))
            b = ex.prune(st, a[0])
            L = self.L
            for of, x, y, c_ in ((L.left, u.l, v.l, lo), (L.right, u.r, v.r, hi)):
                ex.store(st, b.shift(of + L.plus), "i8", by(z3.If(c_, y.plus, x.plus)), i)
                ex.store(st, b.shift(of + L.minus), "i8", by(z3.If(c_, y.minus, x.minus)), i)
                ex.store(st, b.shift(of + L.real), "f64", z3.If(c_, y.real, x.real), i)
            return [Result(st, "ret", None)]
        BO = r"^Dal::Script::Bound_::operator"
        return [(R(ST_ + r"begin\("), begin), (R(ST_ + r"(end|rbegin)\("), end), (R(ITR + r"operator(\*|->)\("), deref), (R(ITR + r"operator\+\+\(\)"), step(1)), (R(ITR + r"operator--\(\)"), step(-1)),
                (R(ST_ + r"(size|empty)\("), count), (R(BO + r"<\("), less_(False)), (R(BO + r">\("), less_(True)), (R(BO + r"==\("), equal_), (R(ST_ + r"lower_bound\("), lower), (R(ST_ + r"insert\("), insert), (R(ST_ + r"erase"), erase), (R(ST_ + r"clear\("), clear),
                (R(r"^Dal::Script::Interval_::Merge\("), merge)]


@contract("e")
def set_insert(c):
    """an interval put into a set: every point of either stays in it; the set stays ordered and disjoint"""
    t = z3.Real("point")

    def inv(ctx):
        out = []
        ex, st = ctx.ex, ctx.st
        d = w.main
        try:
            N, W = Z(w.n(ex, st, d)), Z(ex.load(st, w.W, "i64"))
        except Unsupported:
            return out
        iv = [v for v in cand_intervals(ctx)]
        out.append(("count", N >= 0))
        out.append(("bounded count", N <= 10 ** 6))
        out.append(("members", All(lambda k: z3.Implies(z3.And(Z(k) >= 0, Z(k) < N), w.at(st, d, P(k)).formed()))))
        out.append(("order", All(lambda k, l: z3.Implies(z3.And(Z(k) >= 0, Z(k) < Z(l), Z(l) < N), w.at(st, d, P(k)).r.real < w.at(st, d, P(l)).l.real), arity=2, pairs=True)))
        out.append(("witness", z3.And(W >= -1, W < N, z3.Implies(W >= 0, w.at(st, d, P(W)).has(t)))))
        for nm, v in iv:
            out.append((nm + " formed", v.formed()))
            out.append((nm + " has it otherwise", z3.Implies(W < 0, v.has(t))))
        return out

    def cand_intervals(ctx):
        for oid in sorted({v["id"][1] for v in ctx.vars if v["id"][0] == "cell"}, key=str) + [w.src]:
            try:
                if oid != w.src and ctx.st.heap[oid].name != "byval":
                    continue
                yield "obj%s" % oid, w.L.view(c, ctx.st, Ptr(oid, 0))
            except Exception:
                continue
    w = Sets2(c, (), [(r"Domain_::AddInterval", inv)], t)
    p, n, e = w.make("set")
    w.main = p.obj
    W0 = c.int("where", -1, 10 ** 6)
    w.W = c.obj("witness", {0: ("i64", W0)}, 8)
    q, v = w.L.make(c, "new")
    w.src = q.obj
    c.assume(z3.And(v.formed(), t > -INF, t < INF, Z(W0) < Z(n), z3.If(Z(W0) >= 0, e(Z(W0)).has(t), v.has(t))))
    for r in c.call(r"^E_insert\(", [p, q]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        W, N = Z(c.ex.load(r.st, w.W, "i64")), Z(w.n(c.ex, r.st, p.obj))
        c.ensure(r.st, z3.And(W >= 0, W < N), "the point is still in the set")
        c.ensure(r.st, w.at(r.st, p.obj, P(W)).has(t), "in that member")
        k, l = c.int("k", 0, 10 ** 6), c.int("l", 0, 10 ** 6)
        s = r.st.fork()
        s.assume(z3.And(Z(k) < Z(l), Z(l) < N, Z(k) >= 0))
        c.ensure(s, w.at(s, p.obj, k).r.real < w.at(s, p.obj, l).l.real, "members are in order and apart")
        c.ensure(s, w.at(s, p.obj, k).formed(), "members are intervals")


class Hits(Sets2):
    """the set under construction, as one question: does it hold the point asked for?"""

    def __init__(self, c, t, extra=(), inv=()):
        R = re.compile

        def new(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            ex.store(st, p.shift(SETN), "i64", Poly.const(0), i)
            return [Result(st, "ret", None)]

        def copy(ex, st, a, i, dem):
            ex.store(st, ex.prune(st, a[0]).shift(SETN), "i64", ex.load(st, ex.prune(st, a[1]).shift(SETN), "i64", i), i)
            return [Result(st, "ret", None)]

        def add(ex, st, a, i, dem):
            """contract proved by set_insert"""
            p = ex.prune(st, a[0]).shift(SETN)
            v = self.L.view(c, st, ex.prune(st, a[1]))
            ex.oblige(st, v.formed(), "what is added is an interval", i)
            more = z3.FreshBool("more")
            ex.store(st, p, "i64", P(z3.If(z3.Or(bz(icmp("ne", ex.load(st, p, "i64", i), 0)), v.has(t), more), z3.IntVal(1), z3.IntVal(0))), i)
            return [Result(st, "ret", None)]

        def gone(ex, st, a, i, dem):
            return [Result(st, "ret", None)]
        super().__init__(c, list(extra) + [(R(ST_ + r"set\(\)"), new), (R(ST_ + r"set\(std::set"), copy), (R(r"^Dal::Script::Domain_::AddInterval\("), add), (R(ST_ + r"~set\("), gone)], inv, t)

    def hit(self, st, p):
        return bz(icmp("ne", self.c.ex.load(st, p.shift(SETN), "i64"), 0))

    def out(self, name):
        c = self.c
        return c.obj(name, {}, probe(c, r"^P_dsize\(").c())


def positions(w, st, d):
    """positions in set d held by the function's local variables"""
    for oid, o in sorted(st.heap.items(), key=lambda q: str(q[0])):
        if o.name.startswith("local"):
            for of, (_, ty, q) in sorted(o.cells.items(), key=lambda q: str(q[0])):
                if isinstance(q, Ptr) and q.obj == w.sets[d]:
                    yield "%s+%s" % (oid, of), Z(q.off.div_exact(w.S))


def pairwise(nm, fn, one=False):
    def run(c):
        x, y = z3.Real("x"), z3.Real("y")
        t = fn(x, y)
        f = nm

        def inv(ctx):
            out = []
            st = ctx.st
            try:
                hit = w.hit(st, r)
            except Exception:
                return out
            for m, i in positions(w, st, pa.obj):
                out.append(("%s: rows before it are done" % m, z3.Implies(Z(I0) < i, hit)))
                out.append(("%s: in the set" % m, z3.And(i >= 0, i <= Z(na))))
                if not one:
                    for n, j in positions(w, st, pb.obj):
                        out.append(("%s, %s: members before it are done" % (m, n), z3.Implies(z3.Or(Z(I0) < i, z3.And(Z(I0) == i, Z(J0) < j)), hit)))
                        out.append(("%s: in the set" % n, z3.And(j >= 0, j <= Z(nb))))
            return out

        def op(ex, st, a, i, dem):
            """contracts proved by interval_add ... interval_max"""
            u = w.L.view(c, st, ex.prune(st, a[1]))
            v = w.L.view(c, st, ex.prune(st, a[2])) if not one else u
            q, r = w.L.make(c, z3.FreshConst(B_, "r").decl().name(), None, st)
            g = IOPS[next(o for n_, o in (("operator+(", "add"), ("operator-()", "neg"), ("operator-(", "sub"), ("operator*(", "mul"), ("IMin(", "min"), ("IMax(", "max")) if n_ in dem)]
            st.assume(z3.And(r.formed(), z3.Implies(z3.And(u.has(x), v.has(y) if not one else z3.BoolVal(True)), r.has(g(x, y)))))
            put(w, ex, st, ex.prune(st, a[0]), r, i)
            return [Result(st, "ret", None)]

        def inverse(ex, st, a, i, dem):
            """contract proved by interval_inv; zero alone is refused"""
            u = w.L.view(c, st, ex.prune(st, a[1]))
            zero = z3.And(u.l.finite(), u.r.finite(), u.l.real == 0, u.r.real == 0)
            out = []
            if not ex.entails(st, z3.Not(zero)):
                bad = st.fork()
                bad.assume(zero)
                bad.ghost["refused"] = True
                out.append(Result(bad, "throw", None))
                st.assume(z3.Not(zero))
            q, r = w.L.make(c, z3.FreshConst(B_, "r").decl().name(), None, st)
            st.assume(z3.And(r.formed(), z3.Implies(u.has(div), r.has(y))))
            put(w, ex, st, ex.prune(st, a[0]), r, i)
            return [Result(st, "ret", None)] + out
        w = Hits(c, t, [(re.compile(r"^Dal::Script::Interval_::(operator[-+*]|IMin|IMax)\("), op), (re.compile(r"^Dal::Script::Interval_::Inverse\("), inverse)], [(r"Domain_::", inv)])
        pa, na, ea = w.make("left")
        pb, nb, eb = w.make("right")
        r = w.out("result")
        I0, J0 = c.int("where_left", 0, 10 ** 6), c.int("where_right", 0, 10 ** 6)
        div = z3.Real("divisor")                            # a quotient is the product with the inverse y of the divisor
        c.assume(z3.And(Z(I0) < Z(na), Z(J0) < Z(nb), ea(Z(I0)).has(x), eb(Z(J0)).has(div if nm == "div" else y), div != 0))
        for q in c.call(r"^E_%s\(" % nm, [r, pa, pb]):
            if q.kind != "ret":
                c.ensure(q.st, nm == "div" and q.st.ghost.get("refused", False), "only a division by a range that is zero alone is refused")
                continue
            c.ensure(q.st, w.hit(q.st, r), "the result of two members is in the resulting set")
    run.__name__ = "sets_" + nm
    run.__doc__ = "sets of intervals: %s" % nm
    contract("e")(run)


def put(w, ex, st, b, v, i):
    by = lambda q: ite(q, Poly.const(1), Poly.const(0))
    L = w.L
    for of, x in ((L.left, v.l), (L.right, v.r)):
        ex.store(st, b.shift(of + L.plus), "i8", by(x.plus), i)
        ex.store(st, b.shift(of + L.minus), "i8", by(x.minus), i)
        ex.store(st, b.shift(of + L.real), "f64", x.real, i)


for _o in ("add", "sub", "mul", "neg", "min", "max"):
    pairwise(_o, IOPS[_o], _o == "neg")
pairwise("div", IOPS["mul"])


@contract("e")
def sets_union(c):
    """a set put into another: every point of either stays in it"""
    t = z3.Real("point")

    def inv(ctx):
        hit = w.hit(ctx.st, p)
        out = [("what was there stays", z3.Implies(h0, hit))]
        for m, i in positions(w, ctx.st, q.obj):
            out.append((m + ": members before it are in", z3.Implies(Z(J0) < i, hit)))
            out.append((m + ": in the set", z3.And(i >= 0, i <= Z(n))))
        return out
    w = Hits(c, t, (), [(r"Domain_::AddDomain", inv)])
    h0, inside_ = c.bool("in_first"), c.bool("in_second")
    p = w.out("first")
    c.st.own(p.obj).cells[SETN] = (8, "i64", P(z3.If(h0, z3.IntVal(1), z3.IntVal(0))))
    q, n, e = w.make("second")
    J0 = c.int("where", 0, 10 ** 6)
    c.assume(z3.And(Z(J0) < Z(n), z3.Implies(inside_, e(Z(J0)).has(t))))
    c.assume(z3.Or(h0, inside_))
    for r in c.call(r"^E_union\(", [p, q]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        c.ensure(r.st, w.hit(r.st, p), "a point of either set is in the union")


@contract("e")
def sets_made(c):
    """a set made of a number or of an interval holds it"""
    t = z3.Real("point")
    w = Hits(c, t)
    c.assume(z3.And(t > -INF, t < INF))
    p, q = w.out("single"), w.out("whole")
    iv, v = w.L.make(c, "interval")
    c.assume(z3.And(v.formed(), v.has(t)))
    for f, a, o in (("single", t, p), ("interval", iv, q)):
        for r in c.call(r"^E_%s\(" % f, [o, a]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            c.ensure(r.st, w.hit(r.st, o), "what the set is made of is in it")


def member(c, w, need):
    """a set with a member (at an arbitrary place) that holds an x as needed"""
    p, n, e = w.make("set")
    x, J0 = c.real("x"), c.int("where", 0, 10 ** 6)
    c.assume(z3.And(Z(J0) < Z(n), e(Z(J0)).has(x), x > -INF, x < INF, need(x)))
    near(c, w, e, Z(n))
    return p, n, e, x, J0


def near(c, w, e, N):
    F = [e(z3.IntVal(0)).l.real.decl(), e(z3.IntVal(0)).r.real.decl()]
    c.st.schemas.append(Schema("ends are told from zero", F, lambda k: z3.Implies(z3.And(k >= 0, k < N), sep(z3.RealVal(0), e(k).l.real, e(k).r.real))))


def asked(nm, need, args=(), label=None):
    def run(c):
        def inv(ctx):
            return [("%s: not passed" % m, z3.And(i >= 0, i <= Z(J0))) for m, i in positions(w, ctx.st, p.obj)]
        w = Sets2(c, (), [(r"find_if|Domain_::", inv)])
        p, n, e, x, J0 = member(c, w, need)
        for r in c.call(r"^E_%s\(" % nm, [p] + list(args)):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            c.ensure(r.st, bz(r.val), "the set is said to allow it")
    run.__name__ = "asked_" + (label or nm)
    run.__doc__ = "a set that holds such a value says so"
    contract("e")(run)


asked("zero", lambda x: x == 0)
asked("nonzero", lambda x: x != 0)
asked("pos", lambda x: x > 0, [True], "positive")
asked("pos", lambda x: x >= 0, [False], "nonnegative")
asked("nega", lambda x: x < 0, [True], "negative")
asked("nega", lambda x: x <= 0, [False], "nonpositive")


@contract("e")
def asked_answers(c):
    """what the answers say of the set: a yes to positive (negative) means its last (first) end is; a yes to zero alone means that member is there"""
    w = Sets2(c, (), [(r"find_if|Domain_::", lambda ctx: [("%s: in the set" % m, z3.And(i >= 0, i <= Z(n))) for m, i in positions(w, ctx.st, p.obj)])])
    p, n, e = w.make("set")
    near(c, w, e, Z(n))
    w.seen = c.obj("seen", {0: ("i64", Poly.const(0))}, 8)
    st0 = c.st
    for f, args, fact in (("pos", [True], lambda st: w.at(st, p.obj, P(Z(n) - 1)).r.real > 0), ("pos", [False], lambda st: w.at(st, p.obj, P(Z(n) - 1)).r.real >= 0),
                          ("nega", [True], lambda st: w.at(st, p.obj, Poly.const(0)).l.real < 0), ("nega", [False], lambda st: w.at(st, p.obj, Poly.const(0)).l.real <= 0), ("disc", [], None)):
        for r in c.call(r"^E_%s\(" % f, [p] + args):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            if fact is None:
                k = Z(c.ex.load(r.st, w.seen, "i64"))
                m = w.at(r.st, p.obj, P(k))
                c.ensure(r.st, z3.Implies(bz(r.val), z3.And(k >= 0, k < Z(n), m.l.finite(), m.r.finite(), m.l.real == 0, m.r.real == 0)), "the member that is zero alone is there")
            else:
                c.ensure(r.st, z3.Implies(bz(r.val), z3.And(Z(n) > 0, fact(r.st))), "an end is on that side")


def side(nm):
    """the part right (left) of zero"""
    right = nm == "posl"

    def run(c):
        def inv(ctx):
            last = Z(n) - 1
            out = []
            for m, i in positions(w, ctx.st, p.obj):
                out.append(("%s: in the set" % m, z3.And(i >= 0, i <= last) if right else z3.And(i >= 1, i <= Z(n))))
            return out
        w = Sets2(c, (), [(r"Domain_::", inv)])
        p, n, e = w.make("set")
        near(c, w, e, Z(n))
        out = c.obj("edge", {0: ("f64", Fraction(0))}, 8)
        c.assume(Z(n) > 0)
        k0 = c.int("zero_alone", -1, 10 ** 6)
        apart, alone = c.bool("zero_outside"), z3.And(Z(k0) >= 0, Z(k0) < Z(n), e(Z(k0)).l.real == 0, e(Z(k0)).r.real == 0)
        some = c.bool("reaches_there")
        end = e(Z(n) - 1) if right else e(z3.IntVal(0))
        c.assume(z3.Implies(some, z3.If(apart, (end.r.real >= 0 if right else end.l.real <= 0), z3.And(alone, (end.r.real > 0 if right else end.l.real < 0)))))
        c.st.schemas.append(Schema("zero outside", [e(z3.IntVal(0)).l.real.decl(), e(z3.IntVal(0)).r.real.decl()], lambda k: z3.Implies(z3.And(apart, k >= 0, k < Z(n)), z3.Not(e(k).has(z3.RealVal(0))))))
        for r in c.call(r"^E_%s\(" % nm, [p, out, True]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            v = rz(c.ex.load(r.st, out, "f64"))
            c.ensure(r.st, z3.Implies(bz(r.val), v > 0 if right else v < 0), "the edge found is on that side of zero")
            c.ensure(r.st, z3.Implies(some, bz(r.val)), "an edge is found when the set reaches that side and zero is outside or alone")
    run.__name__ = "edge_" + ("right" if right else "left")
    run.__doc__ = "the edge next to zero"
    contract("e")(run)


side("posl")
side("negr")


class Values:
    """vectors of the members' values: the k-th number put there has to be the k-th member's"""

    def __init__(self, w, F=None):
        self.w, self.of = w, {}

    def room(self, st, d):
        ex = self.w.c.ex
        if d not in self.of:
            key = self.w.K["lr"]
            arr = st.heap[self.w.sets[d]].arrays[key]
            self.of[d] = ex.arr_obj(st, "values_%s" % d, Poly.const(10 ** 9), 8, {0: ("f64", ABase(lambda q, arr=arr: arr.select(ex, None, [P(q)])))}).id
        return self.of[d]

    def handlers(self, whose):
        R = re.compile
        V = r"^(Dal::Vector_<double>::Vector_|std::vector<double, std::allocator<double>>::(vector|~vector))"

        def new(ex, st, a, i, dem):
            q = Ptr(self.room(st, whose()), 0)
            p = ex.prune(st, a[0])
            for k in (0, 8, 16):
                ex.store(st, p.shift(k), "ptr", q, i)
            return [Result(st, "ret", None)]

        def push(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            b, e = (ex.prune(st, ex.load(st, p.shift(k), "ptr", i)) for k in (0, 8))
            ex.oblige(st, rz(ex.load(st, e, "f64", i)) == rz(ex.load(st, ex.prune(st, a[1]), "f64", i)), "the values are those of the members, in order", i)
            ex.store(st, p.shift(8), "ptr", e.shift(8), i)
            return [Result(st, "ret", None)]

        def move(ex, st, a, i, dem):
            p, q = (ex.prune(st, z) for z in a[:2])
            for k in (0, 8, 16):
                ex.store(st, p.shift(k), "ptr", ex.load(st, q.shift(k), "ptr", i), i)
            return [Result(st, "ret", None)]

        def gone(ex, st, a, i, dem):
            return [Result(st, "ret", None)]
        return [(R(V + r"\(\)$"), lambda *a: gone(*a) if "~" in a[-1] else new(*a)), (R(V + r"\((Dal::Vector_<double>|std::vector<double.*>)&&\)"), move), (R(r"^std::vector<double, std::allocator<double>>::(push_back|emplace_back(<.*>)?)\("), push)]


@contract("e")
def set_values(c):
    """the values of a set: none unless every member is a single number, then theirs, in order"""
    def inv(ctx):
        out = []
        try:
            sz = [Z(ctx.st.heap[o].cells[8][2].off.div_exact(8)) for o in sorted(ctx.st.heap) if ctx.st.heap[o].name in ("values",) or ctx.st.heap[o].name.startswith("local") and 8 in ctx.st.heap[o].cells and isinstance(ctx.st.heap[o].cells[8][2], Ptr) and ctx.st.heap[o].cells[8][2].obj == vs.of.get(p.obj)]
        except Exception:
            sz = []
        for m, i in positions(w, ctx.st, p.obj):
            out.append(("%s: in the set" % m, z3.And(i >= 0, i <= Z(n))))
            out.append(("%s: members before it are single numbers" % m, z3.Implies(Z(J0) < i, e(Z(J0)).l.real == e(Z(J0)).r.real)))
            for k, q in enumerate(sz):
                out.append(("%s: as many values %d" % (m, k), q == i))
        return out
    vs = [None]
    w = Sets2.__new__(Sets2)
    vs = Values(w)
    w.__init__(c, vs.handlers(lambda: p.obj), [(r"Domain_::GetSingletons", inv)])
    p, n, e = w.make("set")
    near(c, w, e, Z(n))
    vs.room(c.st, p.obj)
    J0 = c.int("where", 0, 10 ** 6)
    c.assume(Z(J0) < Z(n))
    out = c.obj("values", {}, 24)
    for r in c.call(r"^E_values\(", [out, p]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        b, x = (c.ex.prune(r.st, c.ex.load(r.st, out.shift(k), "ptr")) for k in (0, 8))
        sz = Z(x.off.div_exact(8)) - Z(b.off.div_exact(8))
        c.ensure(r.st, b.obj == vs.of[p.obj] and x.obj == b.obj, "the values are these")
        c.ensure(r.st, z3.Or(sz == 0, sz == Z(n)), "all or none")
        c.ensure(r.st, z3.Implies(sz > 0, e(Z(J0)).l.real == e(Z(J0)).r.real), "none unless every member is a single number")


FUN1, FUN2 = z3.Function("function", R_, R_), z3.Function("function2", R_, R_, R_)


def applied(nm):
    two = nm == "fun2"

    def run(c):
        x, y = c.real("x"), c.real("y")
        t = FUN2(x, y) if two else FUN1(x)

        def inv(ctx):
            out = []
            under = [o for o, q in ctx.st.heap.items() if (q.name.startswith("local") or o == r.obj) and SETN in q.cells and q.cells[SETN][1] == "i64"]
            if not under:
                return out
            hit = w.hit(ctx.st, Ptr(under[0], 0))
            pos = {}
            for oid, o in sorted(ctx.st.heap.items(), key=lambda q: str(q[0])):
                for of, (_, ty, q) in sorted(o.cells.items(), key=lambda q: str(q[0])):
                    if isinstance(q, Ptr) and o.name.startswith("local"):
                        for d, v in vs.of.items():
                            if v == q.obj:
                                pos.setdefault(d, []).append(("%s+%s" % (oid, of), Z(q.off.div_exact(8))))
            for m, i in pos.get(pa.obj, []):
                out.append(("%s: in range" % m, z3.And(i >= 0, i <= Z(na))))
                out.append(("%s: values before it are done" % m, z3.Implies(Z(I0) < i, hit)))
                for k, j in pos.get(pb.obj, []):
                    if two:
                        out.append(("%s, %s: values before it are done" % (m, k), z3.Implies(z3.Or(Z(I0) < i, z3.And(Z(I0) == i, Z(J0) < j)), hit)))
                        out.append(("%s: in range" % k, z3.And(j >= 0, j <= Z(nb))))
            return out

        def values(ex, st, a, i, dem):
            """contract proved by set_values"""
            d = w.dom(ex, st, a[1])
            n, q = w.n(ex, st, d, i), ex.prune(st, a[0])
            sz = P(z3.If(flag[d], Z(n), z3.IntVal(0)))
            b = Ptr(vs.of[d], 0)
            for k, v in ((0, b), (8, b.shift(sz.scale(8))), (16, b.shift(sz.scale(8)))):
                ex.store(st, q.shift(k), "ptr", v, i)
            return [Result(st, "ret", None)]

        def value(ex, st, a, i, dem):
            v = FUN2(rz(a[1]), rz(a[2])) if two else FUN1(rz(a[1]))
            st.assume(z3.And(v > -INF, v < INF))
            return [Result(st, "ret", v)]
        w = Hits.__new__(Hits)
        vs = Values(w)
        w.__init__(c, t, [(re.compile(r"^Dal::Script::Domain_::GetSingletons\("), values), (re.compile(r"^std::isfinite\("), lambda ex, st, a, i, dem: [Result(st, "ret", True)]), (re.compile(r"^Fun::operator\(\)"), value)] + vs.handlers(lambda: None), [(r"Domain_::ApplyFunc", inv)])
        pa, na, ea = w.make("left")
        pb, nb, eb = w.make("right")
        flag = {}
        for p, n, e, x_ in ((pa, na, ea, x), (pb, nb, eb, y)):
            f = flag[p.obj] = c.bool("all_single_%d" % p.obj)
            F = [e(z3.IntVal(0)).l.real.decl(), e(z3.IntVal(0)).r.real.decl()]
            c.st.schemas.append(Schema("single numbers", F, lambda k, f=f, n=n, e=e: z3.Implies(z3.And(f, k >= 0, k < Z(n)), e(k).l.real == e(k).r.real)))
            vs.room(c.st, p.obj)
        r = w.out("result")
        iv, v = w.L.make(c, "function_range")
        I0, J0 = c.int("where_left", 0, 10 ** 6), c.int("where_right", 0, 10 ** 6)
        c.assume(z3.And(v.formed(), v.has(t), t > -INF, t < INF, Z(I0) < Z(na), Z(J0) < Z(nb), ea(Z(I0)).has(x), eb(Z(J0)).has(y), x > -INF, x < INF, y > -INF, y < INF))
        fp = c.obj("the_function", {}, 8)
        for q in c.call(r"^E_%s\(" % nm, [r, pa, fp] + ([pb] if two else []) + [iv]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            c.ensure(q.st, w.hit(q.st, r), "the function's value at members is in the resulting set")
    run.__name__ = "sets_" + nm
    run.__doc__ = "a function of members"
    contract("e")(run)


applied("fun")
applied("fun2")
