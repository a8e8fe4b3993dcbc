from stdc import *
ID = "C01"
META = dict(
    title="Piecewise curves integrate their own values and discount consistently",
    statement="For any increasing knot dates, a piecewise-constant curve is zero before its first knot and takes each knot's value from that knot to the next (the last one onwards); a piecewise-linear curve joins right and left knot values linearly and is flat outside; the reported integral to a date is exactly the area under those values. A discount factor is the exponential of minus the forward-rate area between its dates over 365, times that of the base curve, so factors over adjoining periods multiply.",
    quantifier=dict(over=["inputs"], text="every number of knots, knot dates, left and right values and every query date, before, at, between and after knots"),
    why_tests_cant="The area is assembled from precomputed sums and a partial segment chosen by a search over arbitrarily many knots; errors on a knot, next to it or beyond the ends need particular dates.",
    anchors=dict(files=["dal/curve/piecewiseconstant.cpp", "dal/curve/piecewiseconstant.hpp", "dal/curve/piecewiselinear.cpp", "dal/curve/piecewiselinear.hpp", "dal/curve/ycimp.cpp"],
                 mechanism=["running areas at the knots @ dal/curve/piecewise*.cpp Sofar", "area to a date @ dal/curve/piecewise*.cpp IntegralTo", "value at a date @ PWC::F, PiecewiseLinear_::ValueAt", "discount factor @ dal/curve/ycimp.cpp DiscountPWLF_"]),
    level_note="any number of knots, any dates; doubles as reals; std::vector growth trusted, binary search by the contracts proved in I01's family for the installed library")
DRIVERS = {"c": ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/curve/piecewiseconstant.cpp"\n#include "/repo/dal/curve/piecewiselinear.cpp"\n#include "/repo/dal/curve/ycimp.cpp"\n',
                 [r"PiecewiseConstant_::(Sofar|IntegralTo|Update|PiecewiseConstant_)", "PWC::", "PiecewiseLinear_::", r"DiscountPWLF_::operator", "ApplyDX", "NewDiscountPWLF"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random knot dates and values, queries on, next to, between and outside knots, areas recomputed day by day"
ASSUMPTIONS = ["doubles as real numbers", "knot dates strictly increasing", "std::vector growth (trusted library)", "exp as an uninterpreted positive function with exp(a)*exp(b)=exp(a+b)"]
SOURCES = ["curve/piecewiseconstant.cpp", "curve/piecewiselinear.cpp", "curve/ycimp.cpp", "curve/discount.cpp", "curve/yccomponent.cpp", "storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp", "time/daybasis.cpp"]
NMAX = 10 ** 6
I, RR = z3.IntSort(), z3.RealSort()
one = Poly.const(1)
SOF = z3.Function("area_to_knot", I, RR)
DB = [(re.compile(r"std::lower_bound<__gnu_cxx::__normal_iterator<Dal::Date_ const"), bound(False, "i16")), (re.compile(r"std::upper_bound<__gnu_cxx::__normal_iterator<Dal::Date_ const"), bound(True, "i16"))]


def ti(x):
    return z3.ToReal(Z(x)) if not isinstance(x, int) else z3.RealVal(x)


class Curve:
    def __init__(self, c, n, linear, sofar=True):
        self.n = n
        self.hk, _, self.k = c.vector("knot", n, "i16")
        self.hr, _, self.r = c.vector("right", n, "f64")
        if linear:
            self.hl, _, self.l = c.vector("left", n, "f64")
        K = uf("knot", 1, "i16")
        c.st.schemas.append(Schema("knots are dates", [K], lambda i: z3.And(Z(self.k(P(i))) >= 0, Z(self.k(P(i))) <= DMAX)))
        c.st.schemas.append(Schema("knots increase", [K], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < Z(n)), Z(self.k(P(i))) < Z(self.k(P(j)))), pairs=True))
        self.linear = linear
        vecs = [self.hk] + ([self.hl] if linear else []) + [self.hr]
        if sofar:
            self.hs, _, self.s = c.vector("area_to_knot", n, "f64")
            vecs.append(self.hs)
            self.recur(c.st)
        off = 0 if linear else self.base(c)
        cells = {}
        for j, h in enumerate(vecs):
            o = c.st.heap[h.obj]
            for w in (0, 8, 16):
                cells[off + 24 * j + w] = ("ptr", o.cells[w][2])
        self.this = c.obj("curve", cells, off + 96)

    @staticmethod
    def base(c):
        # Storable_ part comes first: vtable, type, name
        return 72

    def seg(self, j):
        """area of the segment from knot j to the next"""
        j1 = P(j).add(one)
        d = ti(self.k(j1)) - ti(self.k(P(j)))
        return d * (rz(self.l(j1)) + rz(self.r(P(j)))) / 2 if self.linear else d * rz(self.r(P(j)))

    def recur(self, st):
        st.schemas.append(Schema("area", [SOF], lambda i: z3.And(SOF(0) == 0, z3.Implies(z3.And(i > 0, i < Z(self.n)), SOF(i) == SOF(i - 1) + self.seg(P(i).add(one, -1))))))


def sofar(linear):
    def f(c):
        def inv(ctx):
            out = []
            for v in ctx.ints():
                for oid, k in ctx.arrays:
                    out.append(("%s: areas so far (%s)" % (v["name"], k), All(lambda q, v=v, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), rz(ctx.cur(oid, k, q)) == SOF(Z(q))))))
            iv = ctx.ints()
            for v in iv:
                for w in iv:
                    if v is not w:
                        out.append(("%s = %s" % (v["name"], w["name"]), Z(v["cur"]) == Z(w["cur"])))
            return out
        c.exec(growing() + STRINGS, [("Sofar", lambda ctx: inv(ctx))])
        n = c.int("n", 1, NMAX)
        cu = Curve(c, n, linear, False)
        cu.recur(c.st)
        out = c.obj("out", {}, 24)
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(n))
        for r in c.call(r"Piecewise%s_::Sofar" % ("Linear" if linear else "Constant"), [out, cu.this]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            b, e = c.ex.load(r.st, out, "ptr"), c.ex.load(r.st, out.shift(8), "ptr")
            c.ensure(r.st, z3.And(z3.BoolVal(b.obj == e.obj), Z(e.off) - Z(b.off) == 8 * Z(n)), "one running area per knot")
            c.ensure(r.st, rz(elem(c.ex, r.st, b, j)) == SOF(Z(j)), "running area is the sum of the segments before the knot")
    f.__name__ = "sofar_" + ("linear" if linear else "constant")
    return f


def integral(linear):
    def f(c):
        c.exec(DB + STRINGS)
        n = c.int("n", 1, NMAX)
        cu = Curve(c, n, linear)
        d = c.int("d", 0, DMAX)
        j = c.int("j", 0, NMAX)
        last = n.add(one, -1)
        j1 = j.add(one)
        kj, k1, k0, kl = ti(cu.k(j)), ti(cu.k(j1)), ti(cu.k(Poly.const(0))), ti(cu.k(last))
        x = ti(d)
        for q in (j, j1, last, Poly.const(0)):
            SOF(Z(q))
        rs = c.call(r"Piecewise%s_::IntegralTo" % ("Linear" if linear else "Constant"), [cu.this, date_arg(c, d)])

        def post(st, v):
            v = rz(v)
            left = v == (-(k0 - x) * rz(cu.l(Poly.const(0))) if linear else 0)
            right = v == SOF(Z(last)) + (x - kl) * rz(cu.r(last))

            def part(q):
                q1 = q.add(one)
                a, b, f0 = ti(cu.k(q)), ti(cu.k(q1)), rz(cu.r(q))
                if not linear:
                    return v == SOF(Z(q)) + (x - a) * f0
                # area of the trapezium from the knot to the date; height at the date on the line
                return (v - SOF(Z(q))) * 2 * (b - a) == (x - a) * (2 * f0 * (b - a) + (rz(cu.l(q1)) - f0) * (x - a))
            out = [("area up to the first knot", z3.Implies(x <= k0, left)), ("area after the last knot", z3.Implies(x >= kl, right)),
                   ("area at a knot", z3.Implies(z3.And(Z(j) < Z(n), kj == x), v == SOF(Z(j))))]
            inside = z3.And(Z(j1) < Z(n), kj < x, x < k1)
            pos = st.ghost.get("pos", ())
            if len(pos) == 1:
                q = pos[0].add(one, -1)
                out += [("the segment found is the one around the date", z3.Implies(inside, Z(q) == Z(j))),
                        ("area within a segment", z3.Implies(z3.And(Z(q) >= 0, Z(q) + 1 < Z(n), ti(cu.k(q)) < x, x < ti(cu.k(q.add(one)))), part(q)))]
            else:
                out.append(("area within a segment", z3.Implies(inside, part(j))))
            return out
        c.ensure_all(rs, "integral", post)
    f.__name__ = "integral_" + ("linear" if linear else "constant")
    return f


for _l in (False, True):
    contract("c")(sofar(_l))
    contract("c")(integral(_l))


@contract("c")
def value_constant(c):
    c.exec(DB + STRINGS)
    n = c.int("n", 1, NMAX)
    cu = Curve(c, n, False)
    d, j = c.int("d", 0, DMAX), c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    flag = c.obj("flag", {0: ("i8", Poly.const(2))}, 1)
    last = n.add(one, -1)
    x, kj = Z(d), Z(cu.k(j))
    k0, k1, kl = Z(cu.k(Poly.const(0))), Z(cu.k(j.add(one))), Z(cu.k(last))
    for want in (True, False):
        rs = c.call(r"^Dal::PWC::F\(", [cu.this, date_arg(c, d), flag if want else NULL])

        def post(st, v):
            v = rz(v)
            out = [("zero before the first knot", z3.Implies(x < k0, v == 0)), ("the knot's value up to the next", z3.Implies(z3.And(Z(j) + 1 < Z(n), kj <= x, x < k1), v == rz(cu.r(j)))),
                   ("the last value from the last knot on", z3.Implies(x >= kl, v == rz(cu.r(last))))]
            if want:
                fl = Z(c.ex.load(st, flag, "i8"))
                out += [("told when on a knot", z3.Implies(x == kj, fl == 1)), ("told when not on a knot", z3.Implies(z3.And(Z(j) + 1 < Z(n), kj < x, x < k1), fl == 0)),
                        ("told when outside the knots", z3.Implies(z3.Or(x < k0, x > kl), fl == 0))]
            return out
        c.ensure_all(rs, "value", post)


@contract("c")
def value_linear(c):
    c.exec(DB + STRINGS)
    n = c.int("n", 1, NMAX)
    cu = Curve(c, n, True)
    d, j = c.int("d", 0, DMAX), c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    last = n.add(one, -1)
    x, kj, k1 = ti(d), ti(cu.k(j)), ti(cu.k(j.add(one)))
    k0, kl = ti(cu.k(Poly.const(0))), ti(cu.k(last))
    for right in (1, 0):
        rs = c.call(r"PiecewiseLinear_::ValueAt", [cu.this, date_arg(c, d), bool(right)])

        def post(st, v):
            v = rz(v)
            f0, f1 = rz(cu.r(j)), rz(cu.l(j.add(one)))
            return [("flat to the left", z3.Implies(x < k0, v == rz(cu.l(Poly.const(0))))), ("flat to the right", z3.Implies(x > kl, v == rz(cu.r(last)))),
                    ("on the line between knots", z3.Implies(z3.And(Z(j) + 1 < Z(n), kj < x, x < k1), (v - f0) * (k1 - kj) == (f1 - f0) * (x - kj))),
                    ("the requested side's value at a knot", z3.Implies(x == kj, v == rz(cu.r(j) if right else cu.l(j))))]
        c.ensure_all(rs, "value", post)


AREA = z3.Function("area_to_date", I, RR)
BASE = z3.Function("base_factor", I, I, RR)
EXP = z3.Function("m_exp", RR, RR)


@contract("c")
def discount(c):
    """the discount factor, with and without a base curve; IntegralTo by the contract above"""
    def area(ex, st, a, i, dem):
        ex.oblige(st, z3.BoolVal(a[0].obj == this.obj), "area of the curve's own forwards", i, cls="post")
        return [Result(st, "ret", AREA(Z(ex.load(st, a[1], "i16", i))))]

    def base(ex, st, a, i, dem):
        ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj == bs.obj), "factor of the base curve", i, cls="post")
        return [Result(st, "ret", BASE(Z(ex.load(st, a[1], "i16", i)), Z(ex.load(st, a[2], "i16", i))))]
    c.exec([(re.compile("PiecewiseLinear_::IntegralTo"), area), (re.compile("^virtual:"), base)] + STRINGS)
    d1, d2, d3 = (c.int("d%d" % k, 0, DMAX) for k in (1, 2, 3))
    vt = c.obj("vtable", {8 * k: ("ptr", Ptr(("fn", "virtual:%d" % k), 0)) for k in range(16)}, 128)
    bs = c.obj("base", {0: ("ptr", vt)}, 200)
    for with_base in (False, True):
        bp = bs if with_base else NULL
        # layout: CurveWithBase_ = vtable, type, name, handle; the handle's first word is the object
        this = c.obj("this%d" % with_base, {off: ("ptr", bp) for off in (72,)} | {80: ("ptr", NULL)}, 400)
        val = {}
        for a, b in ((d1, d2), (d2, d3), (d1, d3)):
            rs = c.call(r"^Dal::DiscountPWLF_::operator\(\)", [this, date_arg(c, a, "from%d" % len(c.st.heap)), date_arg(c, b, "to%d" % len(c.st.heap))])
            want = EXP(-(AREA(Z(b)) - AREA(Z(a))) / 365) * (BASE(Z(a), Z(b)) if with_base else 1)
            c.ensure_all(rs, "discount factor", lambda st, v, want=want: [("exponential of minus the forward area over 365, times the base factor", rz(v) == want)])
    # factors over adjoining periods multiply: lemma over the contract above
    a12, a23 = (AREA(Z(d2)) - AREA(Z(d1))) / 365, (AREA(Z(d3)) - AREA(Z(d2))) / 365
    s = c.st.fork()
    s.assume(EXP(-a12) * EXP(-a23) == EXP(-a12 - a23))
    e13 = -((AREA(Z(d3)) - AREA(Z(d1))) / 365)
    s.assume(z3.Implies(e13 == -a12 - a23, EXP(e13) == EXP(-a12 - a23)))
    c.ensure(s, EXP(-a12) * EXP(-a23) == EXP(e13), "factors over adjoining periods multiply")


@contract("c")
def bump(c):
    """moving the forwards: each left and right value moves by its own component, then areas are renewed"""
    def inv(ctx):
        out = []
        iv = [v for v in ctx.ints()]
        for v in iv:
            for oid, k in ctx.arrays:
                for side, o in ((0, L), (1, R_)):
                    if oid == o[0].obj:
                        out.append(("%s: moved before it, not after (%d)" % (v["name"], side), All(lambda q, v=v, oid=oid, k=k, side=side, o=o: rz(ctx.cur(oid, k, q)) == rz(o[1](q)) + z3.If(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), lev * rz(dx(q.scale(2).add(Poly.const(side)))), z3.RealVal(0)))))
            for w in iv:
                if v is not w:
                    out.append(("%s = %s" % (v["name"], w["name"]), Z(v["cur"]) == Z(w["cur"])))
                    out.append(("%s = 2 %s" % (v["name"], w["name"]), Z(v["cur"]) == 2 * Z(w["cur"])))
        return out

    def upd(ex, st, a, i, dem):
        st.ghost["updated"] = st.ghost.get("updated", 0) + 1
        return [Result(st, "ret", None)]
    c.exec([(re.compile("PiecewiseLinear_::Update"), upd)], [("ApplyDX_PWLF", lambda ctx: inv(ctx))])
    n = c.int("n", 1, NMAX)
    lev = c.real("leverage")
    cu = Curve(c, n, True)
    L, R_ = (c.ex.load(c.st, cu.hl, "ptr"), cu.l), (c.ex.load(c.st, cu.hr, "ptr"), cu.r)
    hd, pd, dx = c.vector("dx", n.scale(2), "f64")
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))

    def post(st, _):
        return [("left values move by the even components", rz(elem(c.ex, st, L[0], j)) == rz(cu.l(j)) + lev * rz(dx(j.scale(2)))),
                ("right values move by the odd components", rz(elem(c.ex, st, R_[0], j)) == rz(cu.r(j)) + lev * rz(dx(j.scale(2).add(one)))),
                ("areas are renewed", z3.BoolVal(st.ghost.get("updated", 0) >= 1))]
    c.ensure_all(c.call(r"^Dal::ApplyDX_PWLF\(", [cu.this, pd, lev]), "moving the forwards", post)
