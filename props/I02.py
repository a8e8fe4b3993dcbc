from stdc import *
ID = "I02"
META = dict(
    title="Cubic splines interpolate, are twice smooth and honour their boundary data",
    statement="A cubic spline over increasing abscissae returns the knot value at every knot, is a cubic between neighbouring knots with continuous first and second derivatives at every interior knot, and continues the end cubics outside. At each end the requested derivative (first, second or third) takes the requested value, and at least three strictly increasing abscissae with matching values are required.",
    quantifier=dict(over=["inputs", "configurations"], text="every number of knots, every increasing grid, all knot values, every combination of boundary orders and values, every query point"),
    why_tests_cant="The spline coefficients come from a forward sweep and a back substitution over all knots; an error in one boundary order, one end row or one sweep step shows only in derivatives, which spot values do not pin down.",
    anchors=dict(files=["dal/math/interp/interpcubic.cpp", "dal/math/interp/interpcubic.hpp"],
                 mechanism=["spline evaluation @ dal/math/interp/interpcubic.cpp", "tridiagonal sweep and back substitution with boundary rows @ dal/math/interp/interpcubic.cpp"]),
    level_note="the defining equations of the spline are postconditions proved through loop invariants on the sweep and the back substitution, any number of knots, real-number arithmetic")
DRIVERS = {"c": ('#include "/repo/dal/math/interp/interp.cpp"\n#include "/repo/dal/math/interp/interpcubic.cpp"\n', [r"Interp::NewCubic", r"Cubic1_::", r"IsMonotonic<", r"std::lower_bound<"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random splines with every boundary combination; knot values, one-sided derivatives at knots and ends, and continuation outside compared by exact polynomial evaluation of the returned values"
ASSUMPTIONS = ["doubles as real numbers", "lower_bound meets its contract (proved for the installed library in check I01)"]
SOURCES = ["storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp"]
NMAX = 10 ** 6
one = Poly.const(1)


def vec_fields(c, st, this):
    """the three vectors of the spline object, in declaration order"""
    o = st.heap[this.obj]
    ptrs = sorted(off for off, (sz, ty, v) in o.cells.items() if isinstance(v, Ptr) and v.obj is not None and not isinstance(v.obj, tuple) and st.heap[v.obj].stride == 8)
    heads = [p for p in ptrs if p + 8 in ptrs and p + 16 in ptrs][::3] if len(ptrs) == 9 else []
    if len(heads) != 3:
        raise Unsupported("spline object layout")
    return [Ptr(this.obj, Poly.const(h)) for h in heads]


def spline(lo, ro):
    def f(c):
        def fwd_back(ctx):
            """candidates for the two sweeps; Houdini keeps the inductive ones"""
            out = []
            ks = [v for v in ctx.ints() if v["ptr"] is None]
            arrs = [a for a in ctx.arrays if a[1][1] == "f64"]
            known = [a for a in ST.get("arrs", [])]
            for v in ks:
                i = v["cur"]
                if len(arrs) == 2:
                    for A, B in ((arrs[0], arrs[1]), (arrs[1], arrs[0])):
                        U = lambda k, A=A: rz(ctx.cur(A[0], A[1], k))
                        Y = lambda k, B=B: rz(ctx.cur(B[0], B[1], k))
                        rg = lambda k: z3.And(Z(k) >= 1, Z(k) < Z(i), Z(k) < Z(n) - 1)
                        nm = "%s,%d,%d" % (v["name"], A[0], B[0])
                        out.append((nm + ": factors bounded", All(lambda k, U=U, i=i: z3.Implies(z3.And(Z(k) >= 0, Z(k) < Z(i)), z3.And(U(k) >= -0.5, U(k) <= 1)))))
                        out.append((nm + ": factor row", All(lambda k, U=U, i=i: z3.Implies(z3.And(Z(k) >= 1, Z(k) < Z(i), Z(k) < Z(n) - 1), U(k) == (SIG(k) - 1) / P_(U, k)))))
                        out.append((nm + ": value row", All(lambda k, U=U, Y=Y, i=i: z3.Implies(z3.And(Z(k) >= 1, Z(k) < Z(i), Z(k) < Z(n) - 1), Y(k) == (6 * RHS(k) - DX(k) * Y(k.add(one, -1))) / (P_(U, k) * D2(k))))))
                        for bn, bf in bounds(U, Y):
                            out.append((nm + ": " + bn, bf))
                        ST.setdefault("pairs", {})[(A[0], B[0])] = (A[1], B[1])
                if len(arrs) == 1:
                    B = arrs[0]
                    cur = lambda k, B=B: rz(ctx.cur(B[0], B[1], k))
                    old = lambda k, B=B: rz(ctx.old(B[0], B[1], k))
                    for (ua, yb), (uk, yk) in ST.get("pairs", {}).items():
                        if yb != B[0] or ua not in ctx.st.heap:
                            continue
                        U = lambda k, ua=ua, uk=uk: rz(ctx.sel(ctx.st, ua, uk, k))
                        nm = "%s,%d" % (v["name"], ua)
                        out.append((nm + ": untouched part", All(lambda k, i=i: z3.Implies(z3.And(Z(k) >= 0, Z(k) <= Z(i), Z(k) < Z(n)), cur(k) == old(k)))))
                        out.append((nm + ": last untouched", cur(n.add(one, -1)) == old(n.add(one, -1))))
                        out.append((nm + ": substituted part", All(lambda k, U=U, i=i: z3.Implies(z3.And(Z(k) > Z(i), Z(k) < Z(n) - 1, Z(k) >= 0), cur(k) == old(k) + U(k) * cur(k.add(one))))))
                        ST["back"] = (B, ua, uk, ctx.st0)
            return out

        def bounds(U, Y):
            return [("left row factor", U(Poly.const(0)) == {1: z3.Q(-1, 2), 2: z3.RealVal(0), 3: z3.RealVal(1)}[lo]),
                    ("left row value", Y(Poly.const(0)) == {1: ((fy(1) - fy(0)) / (fx(1) - fx(0)) - lv) * (3 / (fx(1) - fx(0))), 2: lv, 3: -(fx(1) - fx(0)) * lv}[lo])]
        ST = {}
        c.exec([(re.compile(r"IsMonotonic<"), mono)] + STRINGS, [("Cubic1_::Cubic1_", fwd_back)], fuel=60, check_div=True)
        n = c.int("n", 3, NMAX)
        hx, _, fx_, d = dvec(c, "x", n)
        hy, _, fy_, dy = dvec(c, "y", n)
        fx = lambda k: rz(fx_(P(k)))
        fy = lambda k: rz(fy_(P(k)))
        DX = lambda k: fx(k) - fx(k.add(one, -1))
        D2 = lambda k: fx(k.add(one)) - fx(k.add(one, -1))
        SIG = lambda k: DX(k) / D2(k)
        RHS = lambda k: (fy(k.add(one)) - fy(k)) / (fx(k.add(one)) - fx(k)) - (fy(k) - fy(k.add(one, -1))) / DX(k)
        P_ = lambda U, k: SIG(k) * U(k.add(one, -1)) + 2
        sorted_array(c, fx_, n, strict=True, decl=d)
        lv, rv = c.real("left_value"), c.real("right_value")
        lb = c.obj("lhs", {0: ("i32", Poly.const(lo)), 8: ("f64", lv)}, 16)
        rb = c.obj("rhs", {0: ("i32", Poly.const(ro)), 8: ("f64", rv)}, 16)
        j = c.int("j", 1, NMAX)
        c.assume(Z(j) < Z(n) - 1)
        rs = c.call(r"Interp::NewCubic", [c.obj("name", {}, 32), hx, hy, lb, rb])
        for r in rs:
            if r.kind != "ret":
                c.ensure(r.st, z3.Not(MONO), "valid input is accepted")
                continue
            st = r.st
            hs = vec_fields(c, st, r.val)
            (n1, X), (n2, Y), (n3, M_) = [c.vec_view(st, h) for h in hs]
            c.ensure(st, z3.And(Z(n1) == Z(n), Z(n2) == Z(n), Z(n3) == Z(n)), "one abscissa, value and second derivative per knot")
            k = atom(z3.Int("k"))
            s = st.fork()
            s.assume(z3.And(Z(k) >= 0, Z(k) < Z(n)))
            c.ensure(s, z3.And(rz(X(k)) == fx(k), rz(Y(k)) == fy(k)), "knots kept as given")
            M = lambda k: rz(M_(P(k)))
            g = (DX(j) * M(j.add(one, -1)) + 2 * D2(j) * M(j) + (D2(j) - DX(j)) * M(j.add(one)) == 6 * RHS(j))
            interior(c, st, ST, j, M, DX, D2, SIG, RHS, P_, n, g)
            h0 = fx(1) - fx(0)
            last, prev = n.add(one, -1), n.add(Poly.const(-2))
            h1 = fx(last) - fx(prev)
            s0, s1 = (fy(1) - fy(0)) / h0, (fy(last) - fy(prev)) / h1
            left = {1: s0 - h0 * (2 * M(0) + M(1)) / 6 == lv, 2: M(0) == lv, 3: M(1) - M(0) == h0 * lv}[lo]
            right = {1: s1 + h1 * (M(prev) + 2 * M(last)) / 6 == rv, 2: M(last) == rv, 3: M(last) - M(prev) == h1 * rv}[ro]
            c.ensure(st, left, "left boundary derivative of order %d" % lo)
            c.ensure(st, right, "right boundary derivative of order %d" % ro)
    f.__name__ = "spline_%d_%d" % (lo, ro)
    return f


def interior(c, st, ST, j, M, DX, D2, SIG, RHS, P_, n, g):
    """first-derivative continuity at knot j, from the sweep rows and the back substitution"""
    if "back" not in ST:
        return c.ensure(st, g, "first derivative continuous at every interior knot")
    B, ua, uk, st0 = ST["back"]
    U = lambda k: rz(st0.heap[ua].arrays[uk].select(c.ex, None, [P(k)]))
    Y = lambda k: rz(st0.heap[B[0]].arrays[B[1]].select(c.ex, None, [P(k)]))
    jm, jp = j.add(one, -1), j.add(one)
    dx, d2, u0, u1, y0, y1, z0, z1, z2, t = DX(j), D2(j), U(jm), U(j), Y(jm), Y(j), M(jm), M(j), M(jp), RHS(j)
    v = [z3.Real(fresh_name(q)) for q in ("dx", "d2", "u0", "u1", "y0", "y1", "z0", "z1", "z2", "t")]
    s = st.fork()
    for a, b in zip(v, (dx, d2, u0, u1, y0, y1, z0, z1, z2, t)):
        s.assume(a == b)               # ghost names
    dx, d2, u0, u1, y0, y1, z0, z1, z2, t = v
    p = dx / d2 * u0 + 2
    prem = [z3.And(dx > 0, d2 > dx), z3.And(u0 >= -0.5, u0 <= 1), z0 == y0 + u0 * z1, z1 == y1 + u1 * z2, u1 == (dx / d2 - 1) / p, y1 == (6 * t - dx * y0) / (p * d2)]
    goal = dx * z0 + 2 * d2 * z1 + (d2 - dx) * z2 == 6 * t
    c.ensure_by(s, prem, goal, v, "first derivative continuous at every interior knot")
    c.ensure(s, z3.Implies(goal, g), "spline equation in terms of the knots")


MONO = z3.Bool("abscissae_increasing")


def mono(ex, st, a, i, dem):
    return [Result(st, "ret", MONO)]


for _l in (1, 2, 3):
    for _r in (1, 2, 3):
        contract("c")(spline(_l, _r))


contract("c")(monotone(True, r"Dal::IsMonotonic<Dal::Vector_<double>>\(", two_args=False))


@contract("c")
def rejects(c):
    """too few knots, mismatched sizes, abscissae out of order and unknown boundary orders are refused"""
    c.exec([(re.compile(r"IsMonotonic<"), mono)] + STRINGS, [("Cubic1_::Cubic1_", lambda ctx: [])], fuel=60)
    n, m = c.int("n", 1, NMAX), c.int("m", 1, NMAX)
    hx, _, fx_, d = dvec(c, "x", n)
    hy, _, fy_, dy = dvec(c, "y", m)
    lo, ro = c.int("lo", -5, 10), c.int("ro", -5, 10)
    lb = c.obj("lhs", {0: ("i32", lo), 8: ("f64", c.real("left_value"))}, 16)
    rb = c.obj("rhs", {0: ("i32", ro), 8: ("f64", c.real("right_value"))}, 16)
    strictly = Schema("strictly increasing when checked", [d], lambda i, j: z3.Implies(z3.And(MONO, 0 <= i, i < j, j < Z(n)), rz(fx_(P(i))) < rz(fx_(P(j)))), pairs=True)
    c.st.schemas.append(strictly)
    okay = z3.And(Z(n) >= 3, MONO, Z(n) == Z(m), Z(lo) >= 1, Z(lo) <= 3, Z(ro) >= 1, Z(ro) <= 3)
    c.ex.o["deep_inv"] = False
    for r in c.call(r"Interp::NewCubic", [c.obj("name", {}, 32), hx, hy, lb, rb]):
        if r.kind == "ret":
            c.ensure(r.st, okay, "accepted only when well formed")
        else:
            c.ensure(r.st, z3.Not(okay), "refused only when malformed")


@contract("c")
def evaluate(c):
    c.exec(BOUNDS + STRINGS, check_div=True)
    n = c.int("n", 3, NMAX)
    hx, _, fx_, d = dvec(c, "x", n)
    hy, _, fy_, _ = dvec(c, "y", n)
    hm, _, fm_, _ = dvec(c, "second", n)
    sorted_array(c, fx_, n, strict=True, decl=d)
    x = c.real("x0")
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) + 1 < Z(n))
    this = c.obj("this", {}, 512)
    for r in c.call(r"Cubic1_::Cubic1_\(Dal::String_ const&, Dal::Vector_<double> const&, Dal::Vector_<double> const&, Dal::Vector_<double> const&\)", [this, c.obj("name", {}, 32), hx, hy, hm]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        j1 = j.add(one)
        x0, x1, y0, y1, m0, m1 = [rz(g(k)) for g in (fx_, fy_, fm_) for k in (j, j1)]
        v0 = rz(fx_(P(0)))
        last = n.add(one, -1)
        h = x1 - x0
        seg = z3.And(z3.Or(Z(j) == 0, x >= x0), z3.Or(Z(j1) == Z(last), x <= x1))
        b = (x - x0) / h
        a = 1 - b

        def post(st, v):
            v = rz(v)
            cub = a * y0 + b * y1 + ((a * a * a - a) * m0 + (b * b * b - b) * m1) * (h * h) / 6
            return [("knot value at every knot", z3.And(z3.Implies(x == x0, v == y0), z3.Implies(x == x1, v == y1))),
                    ("the cubic of its segment, the end cubics outside", z3.Implies(seg, v == cub))]
        c.ensure_all(c.ex.run_function(c.fname(r"Cubic1_::operator\(\)"), r.st.fork(), [this, x]), "spline value", post)
        c.ensure_all(c.ex.run_function(c.fname(r"Cubic1_::IsInBounds"), r.st.fork(), [this, x]), "range of the knots", lambda st, v: bz(v) == z3.And(x >= v0, x <= rz(fx_(last))))
