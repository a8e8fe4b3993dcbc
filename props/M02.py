from M01 import *
ID = "M02"
META = dict(
    title="Local-volatility paths follow the volatility surface at every step",
    statement="Under the local-volatility model a path steps through today, every event date and evenly spaced dates in between so that no step exceeds the longest allowed by more than half a day; each step adds (rate - repo) dt + v (draw - v/2) to the logarithm of the spot, where v is the square root of the step times the surface, interpolated linearly in time and in the logarithm of the spot and flat outside its grid. Each event date receives the spot of its own step, the numeraire exp(rate t) and its discount factors. The published parameters are the spot, the rate, the repo rate and every volatility of the surface, spot by spot, and a clone publishes its own.",
    quantifier=dict(over=["inputs"], text="every surface, parameter set, list of event times (with or without today) and vector of draws"),
    why_tests_cant="Tests price one option on one flat surface; a volatility read from a neighbouring row, a step taken with the wrong time or an event given the spot of another step shows only for particular surfaces and dates.",
    anchors=dict(files=["dal/model/dupire.hpp", "dal/model/utilities.hpp", "dal/math/interp/interp.hpp"],
                 mechanism=["dates of the model @ FillData in dal/model/utilities.hpp, Allocate in dal/model/dupire.hpp", "volatilities and drifts per step @ Init in dal/model/dupire.hpp", "path generation @ GeneratePath in dal/model/dupire.hpp", "published parameters @ SetParameterPointers in dal/model/dupire.hpp"]),
    level_note="contracts for any number of dates, steps and grid points; linear interpolation by its contract (I01, M01); the constructor by the bounded stand-in")
LOFF = ["spot", "r", "q", "defLine", "spots", "logSpots", "times", "vols", "maxDt", "timeLine", "commonSteps", "interpVols", "drifts", "numeraires", "discounts", "parameters"]
DRV = '#include <dal/platform/platform.hpp>\n#include <dal/platform/strict.hpp>\n#include <dal/model/dupire.hpp>\nusing namespace Dal;\nusing namespace Dal::AAD;\n' + \
    "".join("void* O_%s(void* p) { return (void*)&((Dupire_<double>*)p)->%s_; }\n" % (k, k) for k in LOFF) + \
    "".join("void* O_%s(void* p) { return (void*)&((%s*)p)->%s_; }\n" % (a, b, k) for a, b, k in (("spotS", "Sample_<double>", "spot"), ("numS", "Sample_<double>", "numeraire"), ("disS", "Sample_<double>", "discounts"), ("fwdS", "Sample_<double>", "forwards"), ("numD", "SampleDef_", "numeraire"), ("disD", "SampleDef_", "discountMats"))) + '''
unsigned long S_model() { return sizeof(Dupire_<double>); }
unsigned long S_sample() { return sizeof(Sample_<double>); }
unsigned long S_def() { return sizeof(SampleDef_); }
void L_init(Dupire_<double>& m, const Vector_<>& t, const Vector_<SampleDef_>& d) { m.Dupire_<double>::Init(t, d); }
void L_path(const Dupire_<double>& m, const Vector_<>& z, Scenario_<double>* p) { m.Dupire_<double>::GeneratePath(z, p); }
void L_sample(const Dupire_<double>& m, const size_t& i, const double& s, Sample_<double>& x, const SampleDef_& d) { m.FillScenario(i, s, x, d); }
Model_<double>* L_clone(const Dupire_<double>& m) { return m.Dupire_<double>::Clone().release(); }
void L_par(Dupire_<double>& m) { m.SetParameterPointers(); }
void L_fill(Vector_<>* r, const Vector_<>& t, double a, double b, Vector_<>& x) { new (r) Vector_<>(FillData(t, a, b, x.begin(), x.end())); }
void L_fill0(Vector_<>* r, const Vector_<>& t, double a, double b) { new (r) Vector_<>(FillData(t, a, b)); }
void L_alloc(Dupire_<double>& m, const Vector_<>& t, const Vector_<SampleDef_>& d) { m.Dupire_<double>::Allocate(t, d); }
'''
DRIVERS = {"l": (DRV, ["^L_", "^[OS]_"], ["-Xclang", "-fno-access-control"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random surfaces, dates (with and without today) and draws against an independent stepping, clones, numeraires, discount factors, parameters, sensitivities against differences"
ASSUMPTIONS = ["doubles as real numbers", "exp, log and sqrt as functions", "event times increase, start at or after today and are whole days", "linear interpolation as proved by I01 and M01", "std::vector and matrix growth and copies, set_union (trusted library; matrices by L01's and the bounded stand-in's use)", "the constructor (logarithms of the spots, labels) by the bounded stand-in"]
SOURCES = __import__("M01").SOURCES
VT = z3.Function("surface_at", I_, RR, RR)          # row of the surface at a time
VS = z3.Function("step_volatility_at", I_, RR, RR)  # row of a step at a logarithm of the spot


def same(p, q):
    return z3.And(z3.BoolVal(isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj), Z(p.off) == Z(q.off)) if isinstance(p, Ptr) and isinstance(q, Ptr) else z3.BoolVal(False)


class LV:
    def __init__(self, c, vecs=(), mats=()):
        self.c = c
        self.o = {k: off(c, k) for k in LOFF}
        self.p = {k: c.real(k) for k in ("spot", "r", "q")}
        cells = {self.o[k]: ("f64", self.p[k]) for k in self.p}
        self.v, self.m = {}, {}
        for k, n in vecs:
            h, b, f = c.vector(k, n)
            self.v[k] = f
            for w in (0, 8, 16):
                cells[self.o[k] + w] = ("ptr", c.st.heap[h.obj].cells[w][2])
        for k, r, q in mats:
            h, data, f = dmat(c, k, r, q)
            self.m[k] = (data.obj, f, P(q))
            for w, (sz, ty, x) in c.st.heap[h.obj].cells.items():
                if w:
                    cells[self.o[k] + w] = (ty, x)
        self.this = c.obj("model", cells, size(c, "model"))

    def at(self, k):
        return self.this.shift(self.o[k])

    def data(self, st, k, w=0):
        return self.c.ex.prune(st, self.c.ex.load(st, self.at(k).shift(w), "ptr"))

    def handlers(self, xs, mat, fn):
        """a matrix row as a vector, and the interpolation of it over the grid xs: contract of linear interpolation"""
        R = re.compile

        def row(ex, st, a, i, dem):
            p = ex.prune(st, a[1])
            b, e = (ex.prune(st, ex.load(st, p.shift(k), "ptr", i)) for k in (0, 8))
            for k, q in ((0, b), (8, e), (16, e)):
                ex.store(st, ex.prune(st, a[0]).shift(k), "ptr", q, i)
            return [Result(st, "ret", None)]

        def interp(ex, st, a, i, dem):
            hx, hy = (ex.prune(st, q) for q in a[:2])
            bx, ex_, by, ey = (ex.prune(st, ex.load(st, h.shift(k), "ptr", i)) for h in (hx, hy) for k in (0, 8))
            x0 = rz(ex.load(st, ex.prune(st, a[2]), "f64", i))
            X_ = self.data(st, xs)
            obj, f, cols = self.m[mat]
            ex.oblige(st, bx.obj == X_.obj and by.obj == obj and z3.And(Z(bx.off) == 0, Z(ex_.off) - Z(bx.off) == Z(ey.off) - Z(by.off)), "interpolated over its own grid", i)
            k, r = self.rowof(st, by)
            ex.oblige(st, z3.And(Z(r) == 0, Z(ey.off) - Z(by.off) == 8 * Z(cols)), "one row is interpolated", i)
            return [Result(st, "ret", fn(Z(k), x0))]
        return [(R(r"ConstRow_::operator Dal::Vector_<double>\(\)"), row), (R(r"Dal::InterpLinearImplX<double>\("), interp), (R(r"^std::vector<double, std::allocator<double>>::~vector"), lambda ex, st, a, i, dem: [Result(st, "ret", None)])]

    def rowof(self, st, p):
        return split2(st.heap[p.obj], p.off.div_exact(8))


def ldefs(c, ne):
    """what each event date asks for: the numeraire and its discount dates (any number up to some width)"""
    w = c.int("width", 1, NMAX)
    a, cnt = base_array("wants", 1, "i8"), base_array("ndisc", 1, "i64")
    mb = base_array("mats", 2, "f64")
    mats = c.ex.arr_obj(c.st, "mats", ne.mul(w), 8, {0: ("f64", mb)}, rowlen=w)
    dis = c.ex.arr_obj(c.st, "disc", ne.mul(w), 8, {0: ("f64", base_array("disc", 2, "f64"))}, rowlen=w)
    row = lambda o: {0: ("ptr", ABase(lambda i: Ptr(o.id, P(i).mul(w).scale(8)))), 8: ("ptr", ABase(lambda i: Ptr(o.id, P(i).mul(w).add(P(cnt.fn(P(i)))).scale(8))))}
    es, od = size(c, "def"), off(c, "disD")
    o = c.ex.arr_obj(c.st, "defs", ne, es, dict([(off(c, "numD"), ("i8", a))] + [(od + k, v) for k, v in row(mats).items()]))
    v = c.ex.arr_obj(c.st, "discounts", ne, 24, row(dis))
    for nm, f, lo, hi in (("wants", a, 0, 1), ("ndisc", cnt, 0, Z(w))):
        c.st.schemas.append(Schema(nm, [f.decl if f.decl is not None else uf(nm, 1, "i8" if nm == "wants" else "i64")], lambda i, f=f, lo=lo, hi=hi: z3.And(Z(f.fn(P(i))) >= lo, Z(f.fn(P(i))) <= hi)))
    p, q = Ptr(o.id, 0), Ptr(v.id, 0)
    pe, qe = p.shift(P(ne).scale(es)), q.shift(P(ne).scale(24))
    return c.obj("defs.hdr", {0: ("ptr", p), 8: ("ptr", pe), 16: ("ptr", pe)}, 24), (q, qe), (lambda i: Z(a.fn(P(i))) != 0), (lambda i: Z(cnt.fn(P(i)))), (lambda i, j: rz(mb.fn(P(i), P(j)))), dis, w


@contract("l")
def steps(c):
    """Init: the drift and the volatilities of every step; numeraires and discount factors where asked for"""
    m = LV.__new__(LV)
    SQ, EX = UFS["sqrt"], UFS["exp"]

    def inv(ctx):
        out = []
        iv = ctx.ints()
        for v in iv:
            out.append(("%s counts up" % v["name"], z3.And(Z(v["cur"]) >= 0)))
            for nm, b in (("n", n), ("ns", ns), ("ne", ne)):
                out.append(("%s up to %s" % (v["name"], nm), Z(v["cur"]) <= Z(b)))
        rd = lambda oid, k, *q: rz(ctx.cur(oid, k, *q))
        rows = []
        for x in ctx.env.values():
            if isinstance(x, Poly) and not x.is_const() and not any(Z(x).eq(y) for y in rows) and len(rows) < 8:
                rows.append(Z(x))
        for oid, k in ctx.arrays:
            for v in iv:
                cv = Z(v["cur"])
                if oid == ids["drifts"]:
                    out.append(("%s: drifts so far" % v["name"], All(lambda q, oid=oid, k=k, cv=cv: z3.Implies(z3.And(Z(q) >= 0, Z(q) < cv), rd(oid, k, q) == dr(q)))))
                if oid == ids["numeraires"]:
                    out.append(("%s: numeraires so far" % v["name"], All(lambda q, oid=oid, k=k, cv=cv: z3.Implies(z3.And(Z(q) >= 0, Z(q) < cv, want(q)), rd(oid, k, q) == num(q)))))
                if oid == ids["interpVols"]:
                    out.append(("%s: volatilities of the steps so far" % v["name"], All(lambda r, q, oid=oid, k=k, cv=cv: z3.Implies(z3.And(Z(r) >= 0, Z(r) < cv, Z(q) >= 0, Z(q) < Z(ns)), rd(oid, k, r, q) == vol(r, q)), arity=2)))
                    for R in rows:
                        out.append(("%s: volatilities of step %s so far" % (v["name"], R), All(lambda r, q, oid=oid, k=k, cv=cv, R=R: z3.Implies(z3.And(Z(r) >= 0, z3.Or(Z(r) < R, z3.And(Z(r) == R, Z(q) < cv)), Z(q) >= 0, Z(q) < Z(ns)), rd(oid, k, r, q) == vol(r, q)), arity=2)))
                if oid == dis.id:
                    out.append(("%s: discount factors so far" % v["name"], All(lambda r, q, oid=oid, k=k, cv=cv: z3.Implies(z3.And(Z(r) >= 0, Z(r) < cv, Z(q) >= 0, Z(q) < cnt(r)), rd(oid, k, r, q) == df(r, q)), arity=2)))
                    for R in rows:
                        out.append(("%s: discount factors of date %s so far" % (v["name"], R), All(lambda r, q, oid=oid, k=k, cv=cv, R=R: z3.Implies(z3.And(Z(r) >= 0, z3.Or(Z(r) < R, z3.And(Z(r) == R, Z(q) < cv)), Z(q) >= 0, Z(q) < cnt(r)), rd(oid, k, r, q) == df(r, q)), arity=2)))
        return out
    c.exec(LIB + m.handlers("times", "vols", VT), [("Dupire", inv)])
    n, ns, nt, ne = c.int("n", 0, NMAX), c.int("ns", 1, NMAX), c.int("nt", 1, NMAX), c.int("ne", 1, NMAX)
    m.__init__(c, [("timeLine", n.add(one)), ("logSpots", ns), ("times", nt), ("drifts", n), ("numeraires", ne)], [("vols", ns, nt), ("interpVols", n, ns)])
    h, _, t = c.vector("t", ne)
    d, (q, qe), want, cnt, mat, dis, w = ldefs(c, ne)
    for k, x in ((0, q), (8, qe), (16, qe)):
        c.ex.store(c.st, m.at("discounts").shift(k), "ptr", x)
    p, tl = m.p, m.v["timeLine"]
    sorted_array(c, tl, n.add(one), strict=True, decl=uf("timeLine", 1, "f64"), name="dates increase")
    dt = lambda i: rz(tl(P(i).add(one))) - rz(tl(P(i)))
    dr = lambda i: dt(i) * (p["r"] - p["q"])
    vol = lambda i, j: SQ(dt(i)) * VT(Z(j), rz(tl(P(i))))
    num = lambda i: EX(p["r"] * rz(t(P(i))))
    df = lambda i, j: EX(-p["r"] * (mat(i, j) - rz(t(P(i)))))
    ids = {k: c.ex.load(c.st, m.at(k), "ptr").obj for k in ("drifts", "numeraires")}
    ids["interpVols"] = m.m["interpVols"][0]
    j, l = c.int("j", 0, NMAX), c.int("l", 0, NMAX)

    def got(st, o, cols):
        c.ex.quiet += 1
        try:
            return rz(c.ex.load(st.fork(), Ptr(o, P(j).mul(P(cols)).add(l).scale(8)), "f64"))
        finally:
            c.ex.quiet -= 1

    def post(st, _):
        L = lambda k: c.vec_view(st, m.at(k))
        return [("drift of a step", z3.Implies(Z(j) < Z(n), rz(L("drifts")[1](j)) == dr(j))),
                ("numeraire of an event date", z3.Implies(z3.And(Z(j) < Z(ne), want(j)), rz(L("numeraires")[1](j)) == num(j))),
                ("volatility of a step", z3.Implies(z3.And(Z(j) < Z(n), Z(l) < Z(ns)), got(st, m.m["interpVols"][0], ns) == vol(j, l))),
                ("discount factor", z3.Implies(z3.And(Z(j) < Z(ne), Z(l) < cnt(j)), got(st, dis.id, w) == df(j, l)))] + \
               [("%s untouched" % k, rz(c.ex.load(st, m.at(k), "f64")) == m.p[k]) for k in m.p]
    c.ensure_all(c.call(r"^L_init", [m.this, h, d]), "Init", post)


COMMON, CNT, STEP = z3.Function("is_event", I_, z3.BoolSort()), z3.Function("events_before", I_, I_), z3.Function("step_of_event", I_, I_)


def counting(c, n, ne):
    """n + 1 dates of which ne are event dates: their count before each date and the date of each event (established by `allocation`)"""
    S = c.st.schemas
    S.append(Schema("count", [CNT], lambda i: z3.And(CNT(0) == 0, z3.Implies(z3.And(i > 0, i <= Z(n) + 1), CNT(i) == CNT(i - 1) + z3.If(COMMON(i - 1), 1, 0)))))
    S.append(Schema("count up", [CNT], lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= Z(n) + 1), CNT(i) <= CNT(j)), pairs=True))
    S.append(Schema("event", [CNT], lambda i: z3.Implies(z3.And(0 <= i, i <= Z(n), COMMON(i)), STEP(CNT(i)) == i)))
    S.append(Schema("count with it", [COMMON], lambda i: z3.Implies(z3.And(i >= 0, i <= Z(n)), z3.And(CNT(i + 1) == CNT(i) + z3.If(COMMON(i), 1, 0), CNT(i + 1) <= CNT(Z(n) + 1)))))
    c.assume(CNT(Z(n) + 1) == Z(ne))


@contract("l")
def path(c):
    """GeneratePath: the logarithm of the spot follows the recursion, every event date is given the spot of its step"""
    m = LV.__new__(LV)
    R = re.compile
    EX, LG = UFS["exp"], UFS["log"]

    def common(ex, st, a, i, dem):
        p = ex.prune(st, a[0])
        ex.oblige(st, z3.And(z3.BoolVal(p.obj == m.this.obj), Z(p.off) == m.o["commonSteps"], Z(a[1]) >= 0, Z(a[1]) <= Z(n)), "asks about one of its own dates", i)
        return [Result(st, "ret", COMMON(Z(a[1])))]

    def fill(ex, st, a, i, dem):
        this, pi, ps, px, pd = (ex.prune(st, x) for x in a)
        k, s = P(ex.load(st, pi, "i64", i)), ex.load(st, ps, "f64", i)
        ex.oblige(st, px.obj == pid and pd.obj == did and z3.And(same(this, m.this), Z(k) >= 0, Z(k) < Z(ne), Z(px.off) == es * Z(k), Z(pd.off) == ds * Z(k)), "sample, definition and number of the same event", i)
        ex.store(st, px.shift(so), "f64", s, i)
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = []
        iv = ctx.ints()
        for v in iv:
            cv = Z(v["cur"])
            out.append(("%s counts up" % v["name"], z3.And(cv >= 0, cv <= Z(n))))
            for x in ctx.reals():
                out.append(("%s follows %s" % (x["name"], v["name"]), rz(x["cur"]) == X(cv)))
            for w in iv:
                if w is not v:
                    out.append(("%s counts events before %s" % (w["name"], v["name"]), Z(w["cur"]) == CNT(cv + 1)))
            for oid, k in ctx.arrays:
                if oid == pid:
                    out.append(("%s: spots so far" % v["name"], All(lambda q, oid=oid, k=k, cv=cv: z3.Implies(z3.And(Z(q) >= 0, Z(q) < CNT(cv + 1)), rz(ctx.cur(oid, k, q)) == EX(X(STEP(Z(q))))))))
        return out

    c.exec(LIB + m.handlers("logSpots", "interpVols", VS) + [(R(r"^std::vector<bool, std::allocator<bool>>::operator\[\]\(unsigned long\) const"), common), (R(r"Dupire_<double>::FillScenario"), fill)], [("GeneratePath", inv)])
    n, ns, ne = c.int("n", 0, NMAX), c.int("ns", 1, NMAX), c.int("ne", 1, NMAX)
    m.__init__(c, [("timeLine", n.add(one)), ("logSpots", ns), ("drifts", n)], [("interpVols", n, ns)])
    counting(c, n, ne)
    ds, es, so = size(c, "def"), size(c, "sample"), off(c, "spotS")
    o = c.ex.arr_obj(c.st, "defs", ne, ds, {})
    did = o.id
    e = Ptr(did, 0).shift(ne.scale(ds))
    d = c.obj("defs.hdr", {0: ("ptr", Ptr(did, 0)), 8: ("ptr", e), 16: ("ptr", e)}, 24)
    c.ex.store(c.st, m.at("defLine"), "ptr", d)
    ob = c.ex.arr_obj(c.st, "path", ne, es, {so: ("f64", base_array("old_spot", 1, "f64"))})
    pid = ob.id
    b = Ptr(pid, 0)
    pe = b.shift(ne.scale(es))
    ph = c.obj("path.hdr", {0: ("ptr", b), 8: ("ptr", pe), 16: ("ptr", pe)}, 24)
    zh, _, z = c.vector("z", n)
    v = lambda i: VS(i, X(i))
    c.st.schemas.append(Schema("recursion", [X], lambda i: z3.And(X(0) == LG(m.p["spot"]), z3.Implies(i > 0, X(i) == X(i - 1) + rz(m.v["drifts"](P(i - 1))) + v(i - 1) * (rz(z(P(i - 1))) - v(i - 1) / 2)))))
    k = c.int("k", 0, NMAX)
    c.assume(z3.And(Z(k) <= Z(n), COMMON(Z(k))))
    c.assume(CNT(Z(k) + 1) >= 0)

    def post(st, _):
        q = CNT(Z(k))
        return [("an event of this path", z3.And(q >= 0, q < Z(ne))), ("spot at an event date", rz(c.ex.load(st, b.shift(P(q).scale(es).add(Poly.const(so))), "f64")) == EX(X(Z(k))))]
    c.ensure_all(c.call(r"^L_path", [m.this, zh, ph]), "path", post)


@contract("l")
def sample(c):
    """FillScenario: the spot, every forward of the first curve the spot, the numeraire where asked for, the discount factors"""
    m = LV.__new__(LV)

    def inv(ctx):
        out = []
        for v in ctx.ints():
            for oid, k in ctx.arrays:
                if v.get("ptr") == oid:
                    out.append(("%s: filled so far" % v["name"], All(lambda q, oid=oid, k=k, v=v: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), rz(ctx.cur(oid, k, q)) == s))))
        return out
    c.exec(LIB + STRINGS, [("fill", inv)])
    ne, nf, i = c.int("ne", 1, NMAX), c.int("nf", 0, NMAX), c.int("i", 0, NMAX)
    c.assume(Z(i) < Z(ne))
    s, old = c.real("s"), c.real("old_numeraire")
    m.__init__(c, [("numeraires", ne)], [])
    d, (q, qe), want, cnt, mat, dis, w = ldefs(c, ne)
    for k, x in ((0, q), (8, qe), (16, qe)):
        c.ex.store(c.st, m.at("discounts").shift(k), "ptr", x)
    c.assume(z3.And(cnt(i) >= 0, cnt(i) <= Z(w)))
    hf, bf, _ = c.vector("f", nf)
    hd, bd, _ = c.vector("dd", P(cnt(i)))
    cells = c.st.heap[hf.obj].cells
    fo, do, so, no = (off(c, k) for k in ("fwdS", "disS", "spotS", "numS"))
    x = c.obj("sample", dict([(so, ("f64", c.real("old"))), (no, ("f64", old)), (fo, ("ptr", hf)), (fo + 8, ("ptr", hf.shift(24))), (fo + 16, ("ptr", hf.shift(24)))] + [(do + k, ("ptr", c.st.heap[hd.obj].cells[k][2])) for k in (0, 8, 16)]), size(c, "sample"))
    pi, ps = c.obj("pi", {0: ("i64", i)}, 8), c.obj("ps", {0: ("f64", s)}, 8)
    pd = Ptr(c.st.heap[d.obj].cells[0][2].obj, P(i).scale(size(c, "def")))
    j = c.int("j", 0, NMAX)

    def post(st, _):
        fw, ds = c.vec_view(st, hf), c.vec_view(st, x.shift(do))
        num = rz(c.ex.load(st, x.shift(no), "f64"))
        return [("spot", rz(c.ex.load(st, x.shift(so), "f64")) == s), ("every forward", z3.And(Z(fw[0]) == Z(nf), z3.Implies(Z(j) < Z(nf), rz(fw[1](j)) == s))),
                ("numeraire", num == z3.If(want(i), rz(m.v["numeraires"](i)), old)),
                ("discount factors", z3.And(Z(ds[0]) == cnt(i), z3.Implies(Z(j) < cnt(i), rz(ds[1](j)) == rz(dis.arrays[(0, "f64")].fn(P(i), j)))))]
    c.ensure_all(c.call(r"^L_sample", [m.this, pi, ps, x, pd]), "sample", post)


@contract("l")
def parameters(c):
    """SetParameterPointers: spot, rate, repo rate, then the volatilities row by row, all of this model"""
    m = LV.__new__(LV)

    def is_(p, obj, at):
        """a (possibly conditional) pointer is byte `at` of object obj"""
        if isinstance(p, PtrIte):
            return z3.If(bz(p.c), is_(p.a, obj, at), is_(p.b, obj, at))
        return z3.And(z3.BoolVal(isinstance(p, Ptr) and p.obj == obj), Z(p.off) == at) if isinstance(p, Ptr) and p.obj is not None else z3.BoolVal(False)
    right = lambda p, q: z3.Or(*[z3.And(Z(q) == k, is_(p, m.this.obj, m.o[w])) for k, w in enumerate(("spot", "r", "q"))] + [z3.And(Z(q) >= 3, is_(p, m.m["vols"][0], 8 * (Z(q) - 3)))])

    def inv(ctx):
        out = []
        iv = ctx.ints()
        for v in iv:
            out.append(("%s counts up" % v["name"], Z(v["cur"]) >= 0))
            out.append(("%s below rows" % v["name"], Z(v["cur"]) <= Z(ns)))
            out.append(("%s below columns" % v["name"], Z(v["cur"]) <= Z(nt)))
            for oid, k in ctx.arrays:
                out.append(("%s: parameters so far" % v["name"], All(lambda q, oid=oid, k=k, v=v: z3.Implies(z3.And(Z(q) >= 0, Z(q) <= Z(v["cur"])), right(ctx.cur(oid, k, q), q)))))
            for w in iv:
                if w is not v:
                    out.append(("%s = 2 + %s rows" % (w["name"], v["name"]), Z(w["cur"]) == Z(v["cur"].mul(nt)) + 2))
            for x in ctx.env.values():
                if isinstance(x, Poly) and not x.is_const():
                    for w in iv:
                        if w is not v:
                            out.append(("%s = 2 + %s rows of %s and columns" % (w["name"], x.z(), v["name"]), Z(w["cur"]) == Z(x.mul(nt).add(v["cur"])) + 2))
        return out
    c.exec(LIB, [("SetParameter", inv)], ptr_arrays=lambda o: lambda d, nul: lambda i: PtrIte(nul(Z(i)), Ptr(m.this.obj, P(d(Z(i)))), Ptr(m.m["vols"][0], P(d(Z(i))).scale(8))))
    ns, nt = c.int("ns", 1, 10 ** 4), c.int("nt", 1, 10 ** 4)
    m.__init__(c, [], [("vols", ns, nt)])
    np_ = ns.mul(nt).add(Poly.const(3))
    o = c.ex.arr_obj(c.st, "parameters", np_, 8, {0: ("ptr", ABase(lambda i: NULL))})
    b = Ptr(o.id, 0)
    for w, x in ((0, b), (8, b.shift(np_.scale(8))), (16, b.shift(np_.scale(8)))):
        c.ex.store(c.st, m.at("parameters").shift(w), "ptr", x)
    k = c.int("k", 0, 10 ** 9)
    c.assume(Z(k) < Z(np_))

    def post(st, _):
        n = c.ex.load(st, m.at("parameters").shift(8), "ptr")
        p = c.ex.load(st.fork(), b.shift(k.scale(8)), "ptr")
        return [("parameter k", right(p, k)), ("as many as published", Z(n.off) == 8 * Z(np_))]
    c.ensure_all(c.call(r"^L_par", [m.this]), "parameters", post)


class Filled:
    """FillData over a sequence: ghost arrays give, for every date, the member of the sequence it precedes or is, and whether it is one"""

    def __init__(self, c, first=None, only=None):
        self.c, self.first, self.only = c, first, only
        R = re.compile
        self.seq = None

        def push(ex, st, a, i, dem):
            e = ex.load(st, a[0].shift(8), "ptr", i)
            src = ex.prune(st, a[1])
            self.hdr = ex.prune(st, a[0])
            st.assume(Z(e.off) < 8 * 10 ** 9)           # trusted: memory for one more
            k = e.off.div_exact(8)
            own = src.obj == self.seq
            if own:
                p = src.off.div_exact(8)
                st.assume(z3.Implies(Z(p) + 1 < Z(self.ns), rz(self.S(p)) < rz(self.S(p.add(one)))))        # the sequence increases
                ex.store(st, Ptr(self.pos, p.scale(8)), "i64", k, i)
                ex.store(st, Ptr(self.cell, 0), "i64", p.add(one), i)
            nx = P(ex.load(st, Ptr(self.cell, 0), "i64", i))
            ex.store(st, Ptr(self.seg, k.scale(8)), "i64", nx.add(one, -1) if own else nx, i)
            ex.store(st, Ptr(self.flag, k.scale(8)), "i64", one if own else zero, i)
            return G[2][1](ex, st, a, i, dem)

        def union(ex, st, a, i, dem):
            b1, e1, b2, e2, dst = (ex.prune(st, x) for x in a[:5])
            if self.first is None:
                raise Unsupported("union in a refinement with nothing to add")
            ex.oblige(st, b1.obj == self.seq and b2.obj == self.x.obj and z3.And(Z(b1.off) == 0, Z(e1.off) == 8 * Z(self.n), Z(b2.off) == 0, Z(e2.off) == 8), "the union of the event times and today", i)
            fs = [f for f in c.m.fn.values() if re.search(r"FillData<.*lambda.*::operator\(\)\(double, double\) const$", f["dem"]) and f["dem"].split("FillData<", 1)[1][:60] in dem]
            u, v = z3.Real("left"), z3.Real("right")
            s = st.fork()
            cl = ex.new_obj(s, "closure", 8, True)
            ex.store(s, Ptr(cl.id, 0), "f64", a[5], i)
            rs = ex.run_function(fs[0]["name"], s, [Ptr(cl.id, 0), u, v])
            ex.oblige(st, len(rs) == 1 and bz(rs[0].val) == (u < v - self.mn), "times closer than the tolerance are the same", i)
            k = zero if self.first else one
            self.S = self.t if self.first else lambda q: z3.If(Z(q) == 0, z3.RealVal(0), rz(self.t(P(q).add(one, -1))))
            self.ns = self.n.add(k)
            o = ex.arr_obj(st, fresh_name("union"), self.ns, 8, {0: ("f64", ABase(self.S))})
            self.seq = o.id
            for w, p in ((0, Ptr(o.id, 0)), (8, Ptr(o.id, self.ns.scale(8))), (16, Ptr(o.id, self.ns.scale(8)))):
                ex.store(st, dst.shift(w), "ptr", p, i)
            return [Result(st, "ret", a[4])]
        c.exec([(R(r"^std::vector<double, std::allocator<double>>::push_back\("), push), (R(r"std::set_union<"), union)] + LIB, [("FillData", self.inv)], check_fptoint=False)
        self.n = c.int("n", 1, NMAX)
        self.mx, self.mn = c.real("max_dx"), c.real("min_dx")
        c.assume(z3.And(self.mx > 0, self.mn >= 0))
        self.h, b, self.t = c.vector("t", self.n)
        ar = lambda nm, n: c.ex.arr_obj(c.st, nm, n, 8, {0: ("i64", base_array(nm, 1, "i64"))}).id
        self.pos, self.seg, self.flag = ar("pos", NMAX_), ar("seg", NMAX_), ar("flag", NMAX_)
        self.cell = c.ex.new_obj(c.st, "cell", 8, True).id
        c.ex.store(c.st, Ptr(self.cell, 0), "i64", zero)
        self.B = self.mx * z3.RealVal("1.000000001") + self.mn
        self.out = c.obj("out", {k: ("ptr", NULL) for k in (0, 8, 16)}, 24)
        self.seq, self.S, self.ns = b.obj, self.t, self.n

    def facts(self, st, sel):
        """what holds of the dates so far, as (name, formula or All)"""
        e = st.heap[self.hdr.obj].cells.get(self.hdr.off.c() + 8, (0, 0, None))[2] if self.hdr.obj in st.heap else None
        if not isinstance(e, Ptr) or e.obj is None or self.cell not in st.heap or "i64" not in str(st.heap[self.cell].cells):
            return []
        L, p, S, ns = Z(e.off.div_exact(8)), Z(st.heap[self.cell].cells[0][2]), (lambda i: rz(self.S(P(i)))), Z(self.ns)
        F, seg, flag, pos = ((lambda q, o=o, k=k: sel(o, k, q)) for o, k in ((e.obj, (0, "f64")), (self.seg, (0, "i64p")), (self.flag, (0, "i64p")), (self.pos, (0, "i64p"))))
        F_ = lambda q: rz(F(P(q)))
        g, f, o = (lambda q: Z(seg(P(q)))), (lambda q: Z(flag(P(q)))), (lambda q: Z(pos(P(q))))
        last = P(L).add(one, -1)
        base = st.heap[self.pos].arrays[(0, "i64p")]
        while hasattr(base, "parent"):
            base = base.parent
        out = [("some dates", z3.And(L >= 1, p >= 1, p <= ns)), ("starts with the sequence", z3.And(F_(zero) == S(0), g(zero) == 0)),
               ("counted", p == g(last) + f(last)),
               ("steps so far", All(lambda q: z3.Implies(z3.And(Z(q) >= 0, Z(q) < L - 1), z3.And(F_(q) < F_(q.add(one)), F_(q.add(one)) - F_(q) <= self.B)))),
               ("counts so far", All(lambda q: z3.Implies(z3.And(Z(q) >= 0, Z(q) < L - 1), g(q.add(one)) == g(q) + f(q)))),
               ("dates so far", All(lambda q: z3.Implies(z3.And(Z(q) >= 0, Z(q) < L), z3.And(f(q) >= 0, f(q) <= 1, g(q) >= 0, g(q) <= p, g(q) < ns, z3.If(f(q) == 1, z3.And(g(q) < p, F_(q) == S(g(q))), z3.And(g(q) >= 1, S(g(q) - 1) < F_(q), F_(q) < S(g(q)) - self.mn)))))),
               ("even steps so far", All(lambda q: z3.Implies(z3.And(Z(q) >= 1, Z(q) < L - 1, f(q) == 0, f(q.add(one)) == 0), F_(q.add(one)) - F_(q) == F_(q) - F_(q.add(one, -1))))),
               ("members so far", All(lambda q: z3.Implies(z3.And(Z(q) >= 0, Z(q) < p), z3.And(o(q) >= 0, o(q) < L, g(o(q)) == Z(q), f(o(q)) == 1)), triggers=[base.decl] if getattr(base, "decl", None) is not None else None))]
        out.append(("next member later", z3.Implies(p < ns, S(p - 1) < S(p))))
        out.append(("between two members", z3.And(p < ns, S(p - 1) <= F_(last), F_(last) < S(p))))
        out.append(("at a member", z3.And(F_(last) == S(p - 1), f(last) == 1)))
        out = [(n, f) for n, f in out if (n in self.only if self.only else n != "even steps so far")]
        return out, F_(last), lambda x: z3.BoolVal(True) if "even steps so far" not in (self.only or ()) else z3.Implies(f(last) == 0, z3.And(L >= 2, F_(last) - F_(last.add(one, -1)) == x))

    def post(self, st, _):
        c = self.c
        q = c.int("any", 0, 10 ** 9)

        def sel(o, k, q):
            return st.heap[o].arrays[k].select(c.ex, None, [P(q)])
        self.hdr = self.out
        out = [(n, f.fn(q) if isinstance(f, All) else f) for n, f in self.facts(st, sel)[0] if n not in ("between two members", "next member later")]
        return out + [("all members", Z(st.heap[self.cell].cells[0][2]) == Z(self.ns))]

    def inv(self, ctx):
        sel = lambda o, k, q: ctx.cur(o, k, q)
        out = []
        fs = self.facts(ctx.st, sel)
        if not fs:
            return out
        fs, last, even = fs
        out += fs
        for v in ctx.ints():
            if v.get("ptr") == self.seq:
                out.append(("%s is the next member" % v["name"], Z(v["cur"]) == Z(ctx.st.heap[self.cell].cells[0][2])))
        for v in ctx.reals():
            seen = []
            for x in list(ctx.env.values()):
                if z3.is_expr(x) and x.sort() == RR and not any(x.eq(y) for y in seen) and len(seen) < 12:
                    seen.append(x)
                    out.append(("%s is %d beyond" % (v["name"], len(seen)), z3.And(v["cur"] == last + x, x > 0, x <= self.B - self.mn, even(x))))
        return out


NMAX_ = Poly.const(10 ** 9)


HERE = ("some dates", "at a member", "between two members", "next member later", "starts with the sequence")


def refined(first, name, only, text):
    def f(c):
        w = Filled(c, first, HERE + only)
        h, w.x, f = c.vector("x", one)
        c.assume(z3.And(rz(f(zero)) == 0, rz(w.t(zero)) == 0 if first else rz(w.t(zero)) > w.mn))
        c.ensure_all(c.call(r"^L_fill\(", [w.out, w.h, w.mx, w.mn, h]), "event today" if first else "no event today", w.post)
    f.__name__ = name + ("_from_today" if first else "_with_today")
    f.__doc__ = "FillData: the event times%s %s" % ("" if first else " and today", text)
    contract("l")(f)


for first_ in (True, False):
    refined(first_, "steps", ("steps so far",), "in order, no step exceeding the longest by more than the tolerance")
    refined(first_, "dates", ("counted", "counts so far", "dates so far", "members so far"), "are all there; every other date lies between two of them")


@contract("l")
def even_steps(c):
    """FillData: the dates put between two members of the sequence are evenly spaced"""
    w = Filled(c, True, ("some dates", "at a member", "next member later", "even steps so far"))
    h, w.x, f = c.vector("x", one)
    c.assume(z3.And(rz(f(zero)) == 0, rz(w.t(zero)) == 0))
    c.ensure_all(c.call(r"^L_fill\(", [w.out, w.h, w.mx, w.mn, h]), "dates", w.post)


def allocation(first):
    def f(c):
        R = re.compile
        m = LV.__new__(LV)
        sh = 0 if first else 1
        F, SEG, FLG, POS = uf("timeline", 1, "f64"), uf("member", 1, "i64"), uf("is_member", 1, "i64"), uf("position", 1, "i64")
        got = {}

        def fill(ex, st, a, i, dem):
            """FillData by contract (steps_from_today, dates_from_today, steps_with_today, dates_with_today)"""
            r, pt, pm, pn, b, e = (ex.prune(st, x) for x in a)
            d, tol = rz(ex.load(st, pm, "f64", i)), rz(ex.load(st, pn, "f64", i))
            x = ex.load(st, b, "f64", i)
            ex.oblige(st, z3.And(same(pt, h), d == mx, tol > 0, tol < z3.RealVal(1) / 365, Z(e.off) - Z(b.off) == 8, rz(x) == 0), "event times, longest step, half a day and today", i)
            st.assume(rz(t(zero)) == 0 if first else rz(t(zero)) > tol)         # whole days
            L = c.int("L", 1, NMAX)
            st.assume(z3.And(Z(L) >= 1, Z(L) <= NMAX))
            S = lambda q: rz(t(P(q))) if first else z3.If(Z(q) == 0, z3.RealVal(0), rz(t(P(q).add(one, -1))))
            ns = Z(n) + sh
            o = ex.arr_obj(st, "timeline", L, 8, {0: ("f64", ABase(lambda q: F(Z(q)), F))})
            for w, p in ((0, Ptr(o.id, 0)), (8, Ptr(o.id, L.scale(8))), (16, Ptr(o.id, L.scale(8)))):
                ex.store(st, r.shift(w), "ptr", p, i)
            st.assume(z3.And(F(0) == S(zero), SEG(0) == 0, SEG(Z(L) - 1) + FLG(Z(L) - 1) == ns))
            st.schemas.append(Schema("dates", [F, SEG, FLG], lambda q: z3.Implies(z3.And(q >= 0, q < Z(L)), z3.And(FLG(q) >= 0, FLG(q) <= 1, SEG(q) >= 0, SEG(q) < ns, z3.If(FLG(q) == 1, F(q) == S(SEG(q)), z3.And(SEG(q) >= 1, S(SEG(q) - 1) < F(q), F(q) < S(SEG(q)) - tol))))))
            st.schemas.append(Schema("counts", [SEG], lambda q: z3.Implies(z3.And(q >= 0, q < Z(L) - 1), SEG(q + 1) == SEG(q) + FLG(q))))
            st.schemas.append(Schema("steps", [F], lambda q: z3.Implies(z3.And(q >= 0, q < Z(L) - 1), z3.And(F(q) < F(q + 1), F(q + 1) - F(q) <= mx * z3.RealVal("1.000000001") + tol))))
            st.schemas.append(Schema("in order", [F], lambda q, r: z3.Implies(z3.And(q >= 0, q < r, r < Z(L)), F(q) < F(r)), pairs=True))
            got["L"] = L
            return [Result(st, "ret", None)]

        def bits(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            ex.oblige(st, z3.And(z3.BoolVal(p.obj == m.this.obj), Z(p.off) == m.o["commonSteps"]), "resizes its own marks", i)
            ex.store(st, Ptr(gh.obj, 0), "i64", P(a[1]), i)
            return [Result(st, "ret", None)]

        def marks(ex, st, a, i, dem):
            src, dst = ex.prune(st, a[0]), ex.prune(st, a[-1])
            L = got["L"]
            ex.oblige(st, z3.And(same(src, m.at("timeLine")), same(dst, m.at("commonSteps")), Z(ex.load(st, Ptr(gh.obj, 0), "i64", i)) == Z(L)), "marks every date of its time line", i)
            fs = [g for g in c.m.fn.values() if re.search(r"Dupire_<double>::Allocate\(.*lambda.*::operator\(\)\(double\) const$", g["dem"])]
            q = c.int("date", 0, NMAX)
            s = st.fork()
            s.assume(z3.And(Z(q) >= 0, Z(q) < Z(L)))
            cl = ex.new_obj(s, "closure", 8, True)
            ex.store(s, Ptr(cl.id, 0), "ptr", a[1], i)
            for r in ex.run_function(fs[0]["name"], s, [Ptr(cl.id, 0), F(Z(q))]):
                s2 = r.st
                ex.oblige(s2, bz(r.val) == ev(Z(q)), "a date is marked exactly when it is an event date", i, cls="post")
            ex.store(st, Ptr(gh.obj, 8), "i64", one, i)
            return [Result(st, "ret", None)]
        ev = lambda q: z3.And(FLG(q) == 1, q >= sh)
        cn = lambda q: SEG(q) if first else z3.If(q == 0, 0, SEG(q) - 1)

        def grid(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            ex.oblige(st, z3.And(same(p, m.at("interpVols")), Z(a[1]) == Z(got["L"]) - 1, Z(a[2]) == Z(nsp)), "one row of volatilities per step, one column per spot", i)
            ex.store(st, Ptr(gh.obj, 16), "i64", one, i)
            return [Result(st, "ret", None)]

        def lists(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            ex.oblige(st, z3.And(same(p, m.at("discounts")), Z(a[1]) == Z(n)), "one list of discount factors per event date", i)
            o = ex.arr_obj(st, "lists", n, 24, {0: ("i64", base_array("lists", 1, "i64"))})
            got["lists"] = o.id
            for w, x in ((0, zero), (8, n.scale(24)), (16, n.scale(24))):
                ex.store(st, p.shift(w), "ptr", Ptr(o.id, x), i)
            return [Result(st, "ret", None)]

        def resize(ex, st, a, i, dem):
            p = ex.prune(st, a[0])
            if p.obj == got.get("lists"):
                ex.store(st, p, "i64", P(a[1]), i)      # ghost: its length
                return [Result(st, "ret", None)]
            return resized()[0][1](ex, st, a, i, dem)

        def inv(ctx):
            out = []
            for v in ctx.ints():
                out.append(("%s counts up" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n))))
                for oid, k in ctx.arrays:
                    if oid == got.get("lists"):
                        out.append(("%s: lengths so far" % v["name"], All(lambda q, oid=oid, k=k, v=v: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), Z(ctx.cur(oid, k, q)) == cnt(q)))))
            return out

        def search(ex, st, a, i, dem):
            st.schemas = st.schemas + [Schema("event times increase", [uf("t", 1, "f64")], lambda u, v: z3.Implies(z3.And(0 <= u, u < v, v < Z(n)), rz(t(P(u))) < rz(t(P(v)))), pairs=True)]
            return bound(False)(ex, st, a, i, dem)

        def moved(ex, st, a, i, dem):
            for w in (0, 8, 16):
                ex.store(st, ex.prune(st, a[0]).shift(w), "ptr", ex.load(st, ex.prune(st, a[1]).shift(w), "ptr", i), i)
            return [Result(st, "ret", a[0])]
        c.exec([(R(r"FillData<"), fill), (R(r"^Dal::Vector_<bool>::Resize"), bits), (R(r"^void Dal::Transform<"), marks), (R(r"^Dal::Matrix_<double>::Resize"), grid), (R(r"^Dal::Vector_<Dal::Vector_<double>>::Resize"), lists),
                (R(r"^Dal::Vector_<double>::Resize"), resize), (R(r"std::__lower_bound<"), search), (R(r"^Dal::Vector_<double>::operator=\(Dal::Vector_<double>&&"), moved)] + LIB, [("Allocate", inv)])
        n, nsp = c.int("n", 1, NMAX), c.int("nsp", 1, NMAX)
        h, _, t = c.vector("t", n)
        mx = c.real("longest")
        m.__init__(c, [("timeLine", c.int("n0", 0, NMAX)), ("drifts", c.int("n1", 0, NMAX)), ("numeraires", c.int("n2", 0, NMAX)), ("spots", nsp), ("logSpots", nsp)], [])
        c.ex.store(c.st, m.at("maxDt"), "f64", mx)
        gh = c.obj("ghost", {k: ("i64", zero) for k in (0, 8, 16)}, 24)
        d, _, want, cnt, mat, dis, w = ldefs(c, n)
        q = c.int("q", 0, NMAX)

        def post(st, _):
            L = got["L"]
            V = lambda k: c.vec_view(st, m.at(k))
            nt, ft = V("timeLine")
            g = lambda k: Z(c.ex.load(st, Ptr(gh.obj, k), "i64"))
            inside = Z(q) < Z(L)
            return [("starts today", rz(ft(zero)) == 0), ("as many dates", Z(nt) == Z(L)), ("a drift per step", Z(V("drifts")[0]) == Z(L) - 1), ("a numeraire per event date", Z(V("numeraires")[0]) == Z(n)),
                    ("dates marked and volatilities sized", z3.And(g(8) == 1, g(16) == 1)),
                    ("steps as long as allowed", z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(L) - 1), z3.And(F(Z(q)) < F(Z(q) + 1), F(Z(q) + 1) - F(Z(q)) <= mx * z3.RealVal("1.000000001") + z3.RealVal(1) / 365))),
                    ("events counted", z3.And(cn(z3.IntVal(0)) == 0, z3.Implies(Z(q) < Z(L) - 1, cn(Z(q) + 1) == cn(Z(q)) + z3.If(ev(Z(q)), 1, 0)), cn(Z(L) - 1) + z3.If(ev(Z(L) - 1), 1, 0) == Z(n))),
                    ("an event date carries its own time", z3.Implies(z3.And(inside, ev(Z(q))), z3.And(cn(Z(q)) >= 0, cn(Z(q)) < Z(n), rz(ft(q)) == rz(t(P(cn(Z(q)))))))),
                    ("a list of discount factors as long as asked for", z3.Implies(Z(q) < Z(n), Z(c.ex.load(st.fork(), Ptr(got["lists"], q.scale(24)), "i64")) == cnt(q)) if got.get("lists") else z3.BoolVal(False)),
                    ("keeps the definitions", same(c.ex.load(st, m.at("defLine"), "ptr"), d))]
        c.assume(Z(q) < Z(n))
        c.ensure_all(c.call(r"^L_alloc", [m.this, h, d]), "event today" if first else "no event today", post)
    f.__name__ = "allocation_today" if first else "allocation_later"
    f.__doc__ = "Allocate: dates from FillData's contract, marks on the event dates, room for every step"
    contract("l")(f)


allocation(True)
allocation(False)


@contract("l")
def clones(c):
    """Clone: a new model with the same parameters, grids, dates and step tables, whose published parameters are its own"""
    R = re.compile
    m = LV.__new__(LV)
    done = []

    def same_vec(w):
        def h(ex, st, a, i, dem):
            d, s = ex.prune(st, a[0]), ex.prune(st, a[1])
            if s.obj == m.this.obj:
                ex.oblige(st, Z(d.off) == Z(s.off), "a member is copied from the same member", i)
            ex.store(st, Ptr(gh.obj, s.off.add(P(0))), "i64", one, i)
            for k in w:
                try:
                    ex.store(st, d.shift(k), "ptr", ex.load(st, s.shift(k), "ptr", i), i)
                except Unsupported:
                    pass
            return [Result(st, "ret", None)]
        return h

    def setp(ex, st, a, i, dem):
        p = ex.prune(st, a[0])
        ex.oblige(st, z3.BoolVal(p.obj != m.this.obj), "publishes the clone's parameters", i)
        done.append(p.obj)
        return [Result(st, "ret", None)]
    noop = lambda ex, st, a, i, dem: [Result(st, "ret", None)]
    V = r"^(std::vector<%s, std::allocator<.*>>::vector\(std::vector<.*const&\)|Dal::Vector_<%s>::Vector_\(Dal::Vector_<.*const&\))"
    c.exec([(R(V % (t, t)), same_vec((0, 8, 16))) for t in ("double", r"double\*", "bool", r"Dal::Vector_<double>", r"Dal::String_")] + [(R(r"^Dal::Matrix_<double>::Matrix_\(Dal::Matrix_<double> const&\)"), same_vec((8, 16, 24, 32, 40))), (R(r"Dupire_<double>::SetParameterPointers"), setp),
           (R(r"~Vector_|~vector|~Matrix_|::_M_dispose"), noop)] + LIB)
    n, ns, nt = c.int("n", 1, NMAX), c.int("ns", 1, NMAX), c.int("nt", 1, NMAX)
    m.__init__(c, [("timeLine", n.add(one)), ("logSpots", ns), ("spots", ns), ("times", nt), ("drifts", n), ("numeraires", n)], [("vols", ns, nt), ("interpVols", n, ns)])
    gh = c.obj("copied", {k: ("i64", zero) for k in range(0, size(c, "model"), 8)}, size(c, "model"))
    mx = c.real("longest")
    c.ex.store(c.st, m.at("maxDt"), "f64", mx)
    d = c.obj("defs.hdr", {}, 24)
    c.ex.store(c.st, m.at("defLine"), "ptr", d)

    def post(st, v):
        if not isinstance(v, Ptr) or v.obj is None or v.obj == m.this.obj:
            return [("a new model", False)]
        out = [("its own parameters are published", z3.BoolVal(v.obj in done))]
        ld = lambda p, ty="f64": c.ex.load(st, p, ty)
        for k in m.p:
            out.append(("same %s" % k, rz(ld(v.shift(m.o[k]))) == m.p[k]))
        out.append(("same longest step", rz(ld(v.shift(m.o["maxDt"]))) == mx))
        out.append(("same definitions", same(ld(v.shift(m.o["defLine"]), "ptr"), d)))
        for k in ("spots", "logSpots", "times", "vols", "timeLine", "commonSteps", "interpVols", "drifts", "numeraires", "discounts", "parameters"):
            out.append(("copies its %s" % k, Z(ld(Ptr(gh.obj, m.o[k]), "i64")) == 1))
        return out
    c.ensure_all(c.call(r"^L_clone", [m.this]), "clone", post)
