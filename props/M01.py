from stdc import *
ID = "M01"
META = dict(
    title="Simulated paths solve the model's equation exactly at every event date",
    statement="Under the lognormal model the simulated spot at an event date t is the initial spot times the exponential of (rate - dividend - vol^2/2) t plus vol times the sum of the Gaussian draws, each scaled by the square root of its time step; the number of draws is the number of event dates after today and an event today sees the initial spot. The numeraire at every event date is exp(rate t). A cloned model owns its parameters, in the same order and with the same values, and differentiating a path of either model with respect to a parameter gives that path's derivative.",
    quantifier=dict(over=["inputs"], text="every parameter set, every increasing list of event times with or without today, every vector of draws"),
    why_tests_cant="Tests price one option at one date with many draws and a loose tolerance; a wrong step, index or compounding at a particular date or with an event today stays inside Monte Carlo noise.",
    anchors=dict(files=["dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "dal/model/utilities.hpp", "dal/model/factory.hpp"],
                 mechanism=["time line of the model @ dal/model/blackscholes.hpp Allocate", "per-step drifts and deviations @ dal/model/blackscholes.hpp Init", "path generation @ dal/model/blackscholes.hpp GeneratePath", "parameter pointers @ dal/model/blackscholes.hpp Clone"]),
    level_note="lognormal model by contract for any number of dates; the local-volatility model is M02")
OFFS = ["spot", "rate", "div", "vol", "timeLine", "todayOnTimeLine", "defLine", "stds", "drifts", "numeraires", "parameters"]
DRIVERS = {"m": ('#include <dal/platform/platform.hpp>\n#include <dal/model/blackscholes.hpp>\nusing namespace Dal;\nusing namespace Dal::AAD;\ntemplate class Dal::AAD::BlackScholes_<double>;\n'
                 + "".join("void* O_%s(void* p) { return (void*)&((BlackScholes_<double>*)p)->%s_; }\n" % (k, k) for k in OFFS)
                 + "void* O_spotS(void* p) { return (void*)&((Sample_<double>*)p)->spot_; }\nvoid* O_numS(void* p) { return (void*)&((Sample_<double>*)p)->numeraire_; }\nvoid* O_numD(void* p) { return (void*)&((SampleDef_*)p)->numeraire_; }\n"
                 + "unsigned long S_model() { return sizeof(BlackScholes_<double>); }\nunsigned long S_sample() { return sizeof(Sample_<double>); }\nunsigned long S_def() { return sizeof(SampleDef_); }\n"
                 + "Model_<double>* CloneOf(const BlackScholes_<double>& m) { return m.BlackScholes_<double>::Clone().release(); }\n",
                 [r"BlackScholes_<double>::(Allocate|Init|GeneratePath|Clone|SimDim|Parameters|SetParamPointers)", r"^[OS]_", "^CloneOf"], ["-Xclang", "-fno-access-control"]),
           "d": ("""#include <dal/platform/platform.hpp>
#include <dal/math/interp/interp.hpp>
namespace Dal {
struct Dual_ { double v, d; Dual_() = default; Dual_(double x) : v(x), d(0) {} Dual_(double x, double y) : v(x), d(y) {} explicit operator double() const { return v; } };
inline Dual_ operator+(const Dual_& a, const Dual_& b) { return Dual_(a.v + b.v, a.d + b.d); }
inline Dual_ operator-(const Dual_& a, const Dual_& b) { return Dual_(a.v - b.v, a.d - b.d); }
inline Dual_ operator*(const Dual_& a, const Dual_& b) { return Dual_(a.v * b.v, a.d * b.v + a.v * b.d); }
inline Dual_ operator/(const Dual_& a, const Dual_& b) { return Dual_(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline bool IsZero(const Dual_& a) { return IsZero(a.v); }
void Row(const Vector_<>& x, const Vector_<Dual_>& y, const Dual_& q, double* v, double* d) { const Dual_ r = InterpLinearImplX<Dual_>(x, y, q); *v = r.v; *d = r.d; }
}
""", ["^Dal::Row"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random parameters and event times (with and without today), paths against the closed formula, clones, both models (local volatility against an independent stepping), numeraires"
ASSUMPTIONS = ["doubles as real numbers", "exp, log and sqrt as functions with exp(log x) = x for x > 0", "event times increase and start at or after today", "std::vector growth and copies (trusted library)"]
SOURCES = ["math/aad/expr.cpp", "math/aad/tape.cpp", "math/aad/aad.cpp", "storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp", "math/specialfunctions.cpp", "math/interp/interp.cpp", "math/interp/interpcubic.cpp", "time/dateutils.cpp", "time/datetimeutils.cpp", "platform/host.cpp", "model/ivs.cpp", "math/analytics/vanilla.cpp", "math/distribution/black.cpp", "math/rootfind.cpp", "protocol/optiontype.cpp"]
NMAX = 10 ** 6
I_, RR = z3.IntSort(), z3.RealSort()
one = Poly.const(1)
zero = Poly.const(0)
X = z3.Function("log_spot", I_, RR)
G = growing()
from builtins_ import UF1 as UFS
LIB = G + [(re.compile(r"std::vector<double, std::allocator<double>>::clear\("), G[1][1])] + resized() + STRINGS


def probe(c, rx, *a):
    q = c.ex.quiet
    c.ex.quiet = 1
    try:
        return c.ex.run_function(c.fname(rx), c.st.fork(), list(a))[0].val
    finally:
        c.ex.quiet = q


def off(c, k):
    p = Ptr(c.ex.new_obj(c.st, "probe", 4096, True).id, 0)
    return probe(c, r"^O_%s\(" % k, p).off.c()


def size(c, k):
    return P(probe(c, r"^S_%s\(" % k)).c()


def copied(ex, st, a, i, dem):
    """std::vector's copy constructor (trusted library): a fresh object with the same elements"""
    b, e = ex.load(st, a[1], "ptr", i), ex.load(st, a[1].shift(8), "ptr", i)
    o = st.heap[b.obj]
    n = ex.new_obj(st, fresh_name("copy"), o.size, True) if not o.arrays else None
    if n is not None:
        n.cells = dict(o.cells)
    else:
        n = ex.arr_obj(st, fresh_name("copy"), e.off.add(b.off, -1).div_exact(o.stride), o.stride, {k[0]: (k[1], v) for k, v in o.arrays.items()})
    for w, p in ((0, b), (8, e), (16, e)):
        ex.store(st, a[0].shift(w), "ptr", Ptr(n.id, p.off.add(b.off, -1)), i)
    return [Result(st, "ret", None)]


COPY = [(re.compile(r"std::vector<(double|double\*), std::allocator<\1>>::vector\(std::vector<.*const&\)"), copied),
        (re.compile(r"std::vector<Dal::String_, std::allocator<Dal::String_>>::(~)?vector\("), lambda ex, st, a, i, dem: [Result(st, "ret", None)])]


class Model:
    def __init__(self, c, vecs=(), today=None):
        self.o = {k: off(c, k) for k in OFFS}
        self.p = {k: c.real(k) for k in ("spot", "rate", "div", "vol")}
        cells = {self.o[k]: ("f64", self.p[k]) for k in self.p}
        self.v = {}
        for k, n in vecs:
            h, b, f = c.vector(k, n)
            self.v[k] = f
            for w in (0, 8, 16):
                cells[self.o[k] + w] = ("ptr", c.st.heap[h.obj].cells[w][2])
        if today is not None:
            cells[self.o["todayOnTimeLine"]] = ("i8", today)
        self.this = c.obj("model", cells, size(c, "model"))

    def at(self, k):
        return self.this.shift(self.o[k])


def times(c, n):
    """increasing event times, none before today"""
    h, b, f = c.vector("t", n)
    sorted_array(c, f, n, strict=True, decl=uf("t", 1, "f64"), name="event times increase")
    c.assume(rz(f(zero)) >= 0)
    return h, f


def defs(c, n):
    """which event dates ask for the numeraire"""
    es = size(c, "def")
    a = base_array("wants", 1, "i8")
    o = c.ex.arr_obj(c.st, "defs", n, es, {off(c, "numD"): ("i8", a)})
    c.st.schemas.append(Schema("flags", [uf("wants", 1, "i8")], lambda i: z3.And(Z(a.fn(P(i))) >= 0, Z(a.fn(P(i))) <= 1)))
    p = Ptr(o.id, 0)
    e = p.shift(P(n).scale(es))
    return c.obj("defs.hdr", {0: ("ptr", p), 8: ("ptr", e), 16: ("ptr", e)}, 24), lambda i: Z(a.fn(P(i))) != 0


@contract("m")
def time_line(c):
    """Allocate: the model's dates are today and every event date after it; room for one step per such date"""
    for first in (False, True):
        c.st = State()

        sh = 0 if first else 1

        def inv(ctx, first=first, sh=sh):
            out = []
            iv = ctx.ints()
            src = [v for v in iv if v.get("ptr") == ids["t"]]
            dst = [v for v in iv if v.get("ptr") not in (None, ids["t"])]
            for v in src:
                out.append(("within the dates", z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n))))
                for w in dst:
                    out.append(("%s = dates passed and today" % w["name"], Z(w["cur"]) == z3.If(Z(v["cur"]) > 0, Z(v["cur"]) + sh, 1)))
                for oid, k in ctx.arrays:
                    out.append(("today first", rz(ctx.cur(oid, k, zero)) == 0))
                    out.append(("dates so far", All(lambda q, v=v, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 1, Z(q) < Z(v["cur"]) + sh), rz(ctx.cur(oid, k, q)) == rz(t(q.add(Poly.const(sh), -1)))))))
            return out
        c.exec(LIB, [("Allocate", inv)])
        n = c.int("n", 1, NMAX)
        m = Model(c, [("timeLine", c.int("oldn", 1, NMAX)), ("stds", c.int("n1", 1, NMAX)), ("drifts", c.int("n2", 1, NMAX)), ("numeraires", c.int("n3", 1, NMAX))], zero)
        h, t = times(c, n)
        c.assume(rz(t(zero)) == 0 if first else rz(t(zero)) > 0)
        d, _ = defs(c, n)
        ids = {"t": c.st.heap[h.obj].cells[0][2].obj}
        j = c.int("j", 0, NMAX)
        steps = n.add(Poly.const(1 - sh), -1)

        def post(st, _):
            L = lambda k: c.vec_view(st, m.at(k))
            nt, ft = L("timeLine")
            out = [("one date per event after today, and today", Z(nt) == Z(steps) + 1), ("starts today", rz(ft(zero)) == 0),
                   ("then the event dates", z3.Implies(z3.And(Z(j) >= 1, Z(j) <= Z(steps)), rz(ft(j)) == rz(t(j.add(Poly.const(sh), -1))))),
                   ("knows whether today is an event date", Z(c.ex.load(st, m.at("todayOnTimeLine"), "i8")) == (1 if first else 0)),
                   ("one numeraire per event date", Z(L("numeraires")[0]) == Z(n)),
                   ("keeps the definitions", z3.BoolVal(c.ex.load(st, m.at("defLine"), "ptr") == d))]
            for k in ("stds", "drifts"):
                out.append(("one %s per step" % k, Z(L(k)[0]) == Z(steps)))
            return out
        c.ensure_all(c.call(r"BlackScholes_<double>::Allocate", [m.this, h, d]), "event today" if first else "no event today", post)


@contract("m")
def steps(c):
    """Init: each step has deviation vol sqrt(dt) and drift (rate - div - vol^2/2) dt; numeraires where asked for"""
    def inv(ctx):
        out = []
        for v in ctx.ints():
            out.append(("%s counts up" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n) + Z(ne))))
            for oid, k in ctx.arrays:
                for nm, f in (("stds", sd), ("drifts", dr)):
                    if oid == ids[nm]:
                        out.append(("%s: %s so far" % (v["name"], nm), All(lambda q, v=v, oid=oid, k=k, f=f: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), rz(ctx.cur(oid, k, q)) == f(q)))))
                if oid == ids["numeraires"]:
                    out.append(("%s: numeraires so far" % v["name"], All(lambda q, v=v, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"]), want(q)), rz(ctx.cur(oid, k, q)) == num(q)))))
        return out
    c.exec(LIB, [("BlackScholes", inv)])
    n = c.int("n", 0, NMAX)
    ne = c.int("ne", 1, NMAX)
    m = Model(c, [("timeLine", n.add(one)), ("stds", n), ("drifts", n), ("numeraires", ne)], zero)
    tl, p = m.v["timeLine"], m.p
    sorted_array(c, tl, n.add(one), strict=True, decl=uf("timeLine", 1, "f64"), name="dates increase")
    h, _, t = c.vector("t", ne)
    d, want = defs(c, ne)
    ids = {k: c.ex.load(c.st, m.at(k), "ptr").obj for k in ("stds", "drifts", "numeraires")}
    SQ, EX = UFS["sqrt"], UFS["exp"]
    dt = lambda i: rz(tl(P(i).add(one))) - rz(tl(P(i)))
    sd = lambda i: p["vol"] * SQ(dt(i))
    dr = lambda i: (p["rate"] - p["div"] - p["vol"] * p["vol"] / 2) * dt(i)
    num = lambda i: EX(p["rate"] * rz(t(P(i))))
    j = c.int("j", 0, NMAX)

    def post(st, _):
        L = lambda k: c.vec_view(st, m.at(k))
        inside = Z(j) < Z(n)
        return [("deviation of a step", z3.Implies(inside, rz(L("stds")[1](j)) == sd(j))), ("drift of a step", z3.Implies(inside, rz(L("drifts")[1](j)) == dr(j))),
                ("numeraire of an event date", z3.Implies(z3.And(Z(j) < Z(ne), want(j)), rz(L("numeraires")[1](j)) == num(j)))] + \
               [("%s untouched" % k, rz(c.ex.load(st, m.at(k), "f64")) == m.p[k]) for k in m.p]
    c.ensure_all(c.call(r"BlackScholes_<double>::Init", [m.this, h, d]), "Init", post)


@contract("m")
def path(c):
    """GeneratePath: log-spots follow the recursion; every event date gets its spot and, if asked for, numeraire"""
    for first in (False, True):
        c.st = State()
        sh = 1 if first else 0

        def inv(ctx, sh=sh):
            out = []
            iv = ctx.ints()
            for v in iv:
                out.append(("%s counts up" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n) + 1)))
                for x in ctx.reals():
                    out.append(("%s follows %s" % (x["name"], v["name"]), rz(x["cur"]) == X(Z(v["cur"]))))
                for w in iv:
                    if w is not v:
                        out.append(("%s = %s + %d" % (w["name"], v["name"], sh), Z(w["cur"]) == Z(v["cur"]) + sh))
                for oid, k in ctx.arrays:
                    if oid == pid and k[0] == so:
                        out.append(("%s: spots so far" % v["name"], All(lambda q, v=v, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), rz(ctx.cur(oid, k, q)) == spots(q)))))
                        if sh:
                            out.append(("spot today", rz(ctx.cur(oid, k, zero)) == p["spot"]))
                    if oid == pid and k[0] == no:
                        out.append(("%s: numeraires so far" % v["name"], All(lambda q, v=v, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(ne)), z3.If(z3.And(Z(q) < Z(v["cur"]), want(q)), rz(ctx.cur(oid, k, q)) == rz(nu(q)), rz(ctx.cur(oid, k, q)) == rz(oldn.fn(q)))))))
            return out
        c.exec(LIB, [("GeneratePath", inv)])
        n = c.int("n", 0, NMAX)
        ne = n.add(Poly.const(sh))
        c.assume(Z(ne) >= 1)
        m = Model(c, [("timeLine", n.add(one)), ("stds", n), ("drifts", n), ("numeraires", ne)], Poly.const(sh))
        p = m.p
        d, want = defs(c, ne)
        c.ex.store(c.st, m.at("defLine"), "ptr", d)
        es, so, no = size(c, "sample"), off(c, "spotS"), off(c, "numS")
        olds, oldn = base_array("old_spot", 1, "f64"), base_array("old_num", 1, "f64")
        ob = c.ex.arr_obj(c.st, "path", ne, es, {so: ("f64", olds), no: ("f64", oldn)})
        pid = ob.id
        b = Ptr(pid, 0)
        ph = c.obj("path.hdr", {0: ("ptr", b), 8: ("ptr", b.shift(ne.scale(es))), 16: ("ptr", b.shift(ne.scale(es)))}, 24)
        zh, _, z = c.vector("z", n)
        EX, LG = UFS["exp"], UFS["log"]
        nu = m.v["numeraires"]
        c.st.schemas.append(Schema("recursion", [X], lambda i: z3.And(X(0) == LG(p["spot"]), z3.Implies(i > 0, X(i) == X(i - 1) + rz(m.v["drifts"](P(i - 1))) + rz(m.v["stds"](P(i - 1))) * rz(z(P(i - 1)))))))
        X(0)
        spots = lambda q: z3.If(Z(q) == 0, p["spot"], EX(X(Z(q)))) if sh else EX(X(Z(q) + 1))
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(ne))

        def post(st, _, sh=sh):
            at = lambda o, q: rz(c.ex.load(st, b.shift(P(q).scale(es).add(Poly.const(o))), "f64"))
            return [("spot at an event date", at(so, j) == spots(j)), ("numeraire at an event date", z3.Implies(want(j), at(no, j) == rz(nu(j)))), ("numeraire left alone otherwise", z3.Implies(z3.Not(want(j)), at(no, j) == rz(oldn.fn(j))))]
        c.ensure_all(c.call(r"BlackScholes_<double>::GeneratePath", [m.this, zh, ph]), "event today" if first else "no event today", post)


@contract("m")
def lognormal(c):
    """the recursion is the exact solution: X(i) = log spot + (rate - div - vol^2/2) t_i + vol B(i), with t_i and B(i) the sums of
    the time steps and of the scaled draws; the spot is the initial one times the exponential of the rest"""
    c.exec()
    r, q, v, S = [z3.Real(k) for k in ("rate", "div", "vol", "spot")]
    T, B, dt, sq, z = [z3.Real(k) for k in ("t_i", "B_i", "dt", "sqrt_dt", "z_i")]
    mu = z3.Real("mu")
    lx = z3.Real("logspot")
    s = State()
    s.assume(mu == r - q - v * v / 2)
    c.ensure(s, lx == lx + mu * 0 + v * 0, "at the start nothing is added")
    c.ensure(s, (lx + mu * T + v * B) + (r - q - v * v / 2) * dt + (v * sq) * z == lx + mu * (T + dt) + v * (B + sq * z), "a step adds its drift and its scaled draw")
    EX, LG = UFS["exp"], UFS["log"]
    y = z3.Real("y")
    s = State()
    s.assume(z3.And(S > 0, EX(LG(S)) == S, EX(LG(S) + y) == EX(LG(S)) * EX(y)))
    c.ensure(s, EX(LG(S) + y) == S * EX(y), "spot times the exponential of the rest")


@contract("m")
def clones(c):
    """Clone: same parameters and vectors, and parameter pointers into the clone itself, in the published order"""
    c.exec(LIB + COPY)
    n = c.int("n", 0, NMAX)
    ne = c.int("ne", 1, NMAX)
    m = Model(c, [("timeLine", n.add(one)), ("stds", n), ("drifts", n), ("numeraires", ne)], c.int("today", 0, 1))
    po = m.o["parameters"]
    pa = c.obj("params", {8 * i: ("ptr", m.at(k)) for i, k in enumerate(("spot", "vol", "rate", "div"))}, 32)
    for w, x in ((0, 0), (8, 32), (16, 32)):
        c.ex.store(c.st, m.this.shift(po + w), "ptr", pa.shift(x))
    d, _ = defs(c, ne)
    c.ex.store(c.st, m.at("defLine"), "ptr", d)

    def post(st, v):
        out = []
        if not isinstance(v, Ptr) or v.obj is None or v.obj == m.this.obj:
            return [("a new model", False)]
        ld = lambda p, ty="f64": c.ex.load(st, p, ty)
        for k in m.p:
            out.append(("same %s" % k, rz(ld(v.shift(m.o[k]))) == m.p[k]))
        q = ld(v.shift(po), "ptr")
        out.append(("own parameter list", z3.BoolVal(isinstance(q, Ptr) and q.obj != pa.obj)))
        for i, k in enumerate(("spot", "vol", "rate", "div")):
            t = ld(q.shift(8 * i), "ptr")
            out.append(("parameter %d is the clone's own %s" % (i, k), z3.BoolVal(isinstance(t, Ptr) and t.obj == v.obj and t.off.c() == v.off.c() + m.o[k])))
        return out
    c.ensure_all(c.call(r"^CloneOf", [m.this]), "clone", post)


@contract("d")
def volatility_slope(c):
    """the row interpolation of the local volatility, instantiated with a value carrying its derivative: inside the
    grid the derivative is that of the interpolated line, through the point and through the values"""
    c.exec(BOUNDS)
    n = c.int("n", 1, NMAX)
    hx, _, fx, dx = dvec(c, "x", n)
    sorted_array(c, fx, n, strict=True, decl=dx)
    yv, yd = base_array("y_v", 1, "f64"), base_array("y_d", 1, "f64")
    o = c.ex.arr_obj(c.st, "y", n, 16, {0: ("f64", yv), 8: ("f64", yd)})
    p = Ptr(o.id, 0)
    hy = c.obj("y.hdr", {0: ("ptr", p), 8: ("ptr", p.shift(n.scale(16))), 16: ("ptr", p.shift(n.scale(16)))}, 24)
    qv, qd = c.real("x0"), c.real("dx0")
    q = c.obj("q", {0: ("f64", qv), 8: ("f64", qd)}, 16)
    out = c.obj("out", {0: ("f64", c.real("u1")), 8: ("f64", c.real("u2"))}, 16)
    j = c.int("j", 0, NMAX)
    j1 = j.add(one)

    def post(st, _):
        v, d = rz(c.ex.load(st, out, "f64")), rz(c.ex.load(st, out.shift(8), "f64"))
        x0, x1 = rz(fx(j)), rz(fx(j1))
        f0, f1, g0, g1 = rz(yv.fn(j)), rz(yv.fn(j1)), rz(yd.fn(j)), rz(yd.fn(j1))
        eps = z3.RealVal(str(Fraction(2e-14)))
        inside = z3.And(Z(j1) < Z(n), x0 < qv, qv < x1 - eps)
        return [("value", z3.Implies(inside, (v - f0) * (x1 - x0) == (qv - x0) * (f1 - f0))),
                ("derivative", z3.Implies(inside, (d - g0) * (x1 - x0) == qd * (f1 - f0) + (qv - x0) * (g1 - g0)))]
    c.ensure_all(c.call(r"^Dal::Row", [hx, hy, q, out, out.shift(8)]), "row", post)
