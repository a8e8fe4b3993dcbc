from stdc import *
ID = "I01"
META = dict(
    title="Linear interpolation hits its knots, follows the chord and is flat outside",
    statement="A one-dimensional linear interpolator over non-decreasing abscissae returns the knot value at every knot, the point on the chord between neighbouring knots (up to the documented 2e-14 snap to a knot), and the end values outside the range. The two-dimensional interpolator is the linear blend in x of the linear interpolations in y of the two neighbouring rows, flat outside the grid. Construction accepts exactly matching sizes with non-decreasing abscissae.",
    quantifier=dict(over=["inputs"], text="every number of knots, every non-decreasing grid, every value array and every query point"),
    why_tests_cant="Neighbour search and boundary branches depend on where the query falls among arbitrarily many knots, including exactly on knots, on duplicates and on the ends.",
    anchors=dict(files=["dal/math/interp/interp.hpp", "dal/math/interp/interp.cpp", "dal/math/interp/interp2d.hpp", "dal/math/interp/interp2d.cpp", "dal/utilities/algorithms.hpp"],
                 mechanism=["neighbour search @ dal/utilities/algorithms.hpp LowerBound/UpperBound", "chord formula @ dal/math/interp/interp.hpp", "row blend @ dal/math/interp/interp2d.hpp", "monotonicity validation @ dal/utilities/algorithms.hpp IsMonotonic"]),
    level_note="postconditions over arrays of any length, real-number arithmetic for doubles; the library bodies of std::lower_bound/upper_bound are proved too")
DRIVERS = {"i": ('#include "/repo/dal/math/interp/interp.cpp"\n#include "/repo/dal/math/interp/interp2d.cpp"\n',
                 [r"InterpLinearImplX", r"Interp1Linear_::", r"Interp2Linear_::", r"Interp2DLinear", "IsMonotonic"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random grids (duplicates, single knots, clustered knots) with queries on, next to, between and outside knots, in one and two dimensions, compared with the chord evaluated in long double"
ASSUMPTIONS = ["doubles as real numbers", "vectors hold fewer than 2^31 elements"]
SOURCES = ["storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp"]
EPS = z3.Q(1, 10 ** 13)
NMAX = 10 ** 6


def bsearch(name, upper):
    """the installed library's binary search meets the contract used at call sites"""
    def f(c):
        c.exec(invariants=[("bound", lambda ctx: inv(ctx))])
        n = c.int("n", 0, NMAX)
        h, p, fx, d = dvec(c, "x", n)
        x = c.real("x0")
        sorted_array(c, fx, n, decl=d)

        def inv(ctx):
            out = []
            iv = ctx.ints()
            for v in iv:
                for w in iv:
                    if v is w:
                        continue
                    a, ln = v["cur"], w["cur"]
                    for q, aa in (("", a),):
                        below = z3.Implies(Z(aa) > 0, (rz(fx(aa.add(Poly.const(-1)))) <= x) if upper else (rz(fx(aa.add(Poly.const(-1)))) < x))
                        end = aa.add(ln)
                        above = z3.Implies(Z(end) < Z(n), (rz(fx(end)) > x) if upper else (rz(fx(end)) >= x))
                        out.append(("%s: everything before is below" % v["name"], below))
                        out.append(("%s+%s: everything from there is at or above" % (v["name"], w["name"]), above))
                        out.append(("%s+%s: within the range" % (v["name"], w["name"]), z3.And(Z(aa) >= 0, Z(ln) >= 0, Z(end) <= Z(n))))
            return out
        xp = c.obj("key", {0: ("f64", x)}, 8)
        rs = c.call(r"std::%s<__gnu_cxx" % name, [p, p.shift(n.scale(8)), xp])

        def post(st, v):
            k = v.off.div_exact(8)
            return [("position in range", z3.And(Z(k) >= 0, Z(k) <= Z(n))),
                    ("elements before it", z3.Implies(Z(k) > 0, (rz(fx(k.add(Poly.const(-1)))) <= x) if upper else (rz(fx(k.add(Poly.const(-1)))) < x))),
                    ("elements from it", z3.Implies(Z(k) < Z(n), (rz(fx(k)) > x) if upper else (rz(fx(k)) >= x)))]
        c.ensure_all(rs, "binary search", post)
    f.__name__ = name
    return f


contract("i")(bsearch("lower_bound", False))
contract("i")(bsearch("upper_bound", True))


def member_posts(c, fx, fy, n, x, j):
    last = n.add(Poly.const(-1))
    j1 = j.add(Poly.const(1))
    x0, x1, y0, y1 = rz(fx(j)), rz(fx(j1)), rz(fy(j)), rz(fy(j1))
    inseg = z3.And(Z(j) + 1 < Z(n), x0 < x, x < x1)

    def post(st, v):
        v = rz(v)
        on = (v - y0) * (x1 - x0) == (y1 - y0) * (x - x0)
        return [("flat to the left", z3.Implies(x < rz(fx(Poly.const(0))), v == rz(fy(Poly.const(0))))),
                ("flat to the right", z3.Implies(x > rz(fx(last)), v == rz(fy(last)))),
                ("knot value at a knot", z3.Implies(z3.And(Z(j) < Z(n), x == rz(fx(j)), z3.Or(Z(j) == 0, rz(fx(j.add(Poly.const(-1)))) < x)), v == y0)),
                ("on the chord between knots", z3.Implies(z3.And(inseg, x1 - x >= EPS), on)),
                ("on the chord or the right knot next to it", z3.Implies(z3.And(inseg, x1 - x < EPS), z3.Or(v == y1, on)))]
    return post


@contract("i")
def linear(c):
    c.exec(BOUNDS)
    n = c.int("n", 1, NMAX)
    hx, _, fx, d = dvec(c, "x", n)
    hy, _, fy, _ = dvec(c, "y", n)
    sorted_array(c, fx, n, decl=d)
    x = c.real("x0")
    j = c.int("j", 0, NMAX)
    rs = c.call(r"Dal::InterpLinearImplX<double>", [hx, hy, c.obj("q", {0: ("f64", x)}, 8)])
    c.ensure_all(rs, "linear interpolation", member_posts(c, fx, fy, n, x, j))


MONO = z3.Bool("abscissae_non_decreasing")
MONO2 = z3.Bool("second_abscissae_non_decreasing")


def mono_contract(c):
    """IsMonotonic with <=, by the contract `monotone` below"""
    def h(ex, st, a, i, dem):
        n, f = c.vec_view(st, a[0])
        k = a[0].off.c() if isinstance(a[0], Ptr) else None
        m = {True: MONO}.get(len(st.ghost.get("mono", ())) == 0, MONO2)
        st.ghost["mono"] = st.ghost.get("mono", ()) + ((m, n, f),)
        return [Result(st, "ret", m)]
    return [(re.compile(r"IsMonotonic<"), h)]


@contract("i")
def linear_object(c):
    c.exec(BOUNDS + mono_contract(c) + STRINGS)
    n, m = c.int("n", 1, NMAX), c.int("m", 1, NMAX)
    hx, _, fx, d = dvec(c, "x", n)
    hy, _, fy, _ = dvec(c, "y", m)
    x = c.real("x0")
    j = c.int("j", 0, NMAX)
    this = c.obj("this", {}, 512)
    rs = c.call(r"Interp1Linear_::Interp1Linear_\(Dal::String_ const&, Dal::Vector_", [this, c.obj("name", {}, 32), hx, hy])
    for r in rs:
        if r.kind != "ret":
            c.ensure(r.st, z3.Or(Z(n) != Z(m), z3.Not(MONO)), "rejects only mismatched sizes or decreasing abscissae")
            continue
        st = r.st
        c.ensure(st, z3.And(Z(n) == Z(m), MONO), "accepts only matching sizes and non-decreasing abscissae")
        ms = st.ghost.get("mono", ())
        c.ensure(st, len(ms) == 1, "abscissae are checked")
        k = atom(z3.Int("k"))
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < Z(n)))
        c.ensure(s, z3.And(Z(ms[0][1]) == Z(n), rz(ms[0][2](k)) == rz(fx(k))), "the checked values are the given abscissae")
        c.st = st
        sorted_array(c, fx, n, decl=d)
        rs2 = c.ex.run_function(c.fname(r"Interp1Linear_::operator\(\)"), c.st.fork(), [this, x])
        c.ensure_all(rs2, "interpolator built from vectors", member_posts(c, fx, fy, n, x, j))


@contract("i")
def bilinear(c):
    c.exec(BOUNDS + [(re.compile(r"InterpLinearImplX"), row_interp)])
    n, m = c.int("n", 1, NMAX), c.int("m", 1, NMAX)
    hx, _, fx, d = dvec(c, "x", n)
    hy, py, fy, dy = dvec(c, "y", m)
    hf, data, ff = dmat(c, "f", n, m)
    sorted_array(c, fx, n, decl=d)
    sorted_array(c, fy, m, decl=dy, name="sorted y")
    x, y = c.real("x0"), c.real("y0")
    q, j = c.int("q", 0, NMAX), c.int("j", 0, NMAX)
    c.st.ghost["grid"] = (hy, m, ff, y, n)
    rs = c.call(r"Dal::Interp2DLinearImplX<double>", [hx, hy, hf, x, y])
    last = n.add(Poly.const(-1))
    j1 = j.add(Poly.const(1))
    x0, x1 = rz(fx(j)), rz(fx(j1))

    def post(st, v):
        v = rz(v)
        z = lambda i: ROWV(Z(i))
        return [("first row to the left", z3.Implies(x < rz(fx(Poly.const(0))), v == z(Poly.const(0)))),
                ("last row at or beyond the right end", z3.Implies(x >= rz(fx(last)), v == z(last))),
                ("blend of the neighbouring rows", z3.Implies(z3.And(Z(j) + 1 < Z(n), x0 <= x, x < x1), (v - z(j)) * (x1 - x0) == (z(j1) - z(j)) * (x - x0)))]
    c.ensure_all(rs, "two-dimensional interpolation", post)


ROWV = z3.Function("row_interpolation", z3.IntSort(), z3.RealSort())


def row_interp(ex, st, a, i, dem):
    """one-dimensional interpolation (contract `linear`) of row r at y0: ROWV(r)"""
    hy, m, ff, y, n = st.ghost["grid"]
    b, e = ex.load(st, a[0], "ptr"), ex.load(st, a[0].shift(8), "ptr")
    yb = ex.load(st, hy, "ptr")
    ex.oblige(st, z3.BoolVal(b.obj == yb.obj), "rows are interpolated over the second axis", i, cls="post")
    ex.oblige(st, z3.And(Z(b.off) == 0, Z(e.off) == 8 * Z(m)), "over the whole second axis", i, cls="post")
    ex.oblige(st, rz(ex.load(st, a[2], "f64", i)) == y, "at the given ordinate", i, cls="post")
    fb, fe = ex.load(st, a[1], "ptr"), ex.load(st, a[1].shift(8), "ptr")
    ex.oblige(st, z3.And(Z(fe.off) - Z(fb.off) == 8 * Z(m)), "row has one value per ordinate", i, cls="post")
    k = atom(z3.Int(fresh_name("col")))
    s = st.fork()
    s.assume(z3.And(Z(k) >= 0, Z(k) < Z(m)))
    v = elem(ex, s, fb, k)
    # which row is it?  read off the element expression
    e = rz(v)
    if z3.is_app(e) and e.decl().name() == "f" and e.num_args() == 2:
        row = e.arg(0)
        ex.oblige(s, z3.And(e == rz(ff(P(row), k)), row >= 0, row < Z(n)), "a row of the value grid", i, cls="post")
        return [Result(st, "ret", ROWV(row))]
    raise Unsupported("row argument is not a row of the grid")


contract("i")(monotone(False, r"Dal::IsMonotonic<Dal::Vector_<double>, std::less_equal"))


@contract("i")
def bilinear_object(c):
    """the constructor accepts exactly grids of matching shape with both axes non-decreasing"""
    c.exec(BOUNDS + mono_contract(c) + STRINGS + [(re.compile(r"Dal::Matrix_<double>::Matrix_\(Dal::Matrix_<double> const&"), copy_matrix), (re.compile(r"Interp2DLinearImplX"), grid_interp)])
    n, m, rows, cols = (c.int(k, 1, NMAX) for k in ("n", "m", "rows", "cols"))
    hx, _, fx, d = dvec(c, "x", n)
    hy, _, fy, dy = dvec(c, "y", m)
    hf, data, ff = dmat(c, "f", rows, cols)
    x, y = c.real("x0"), c.real("y0")
    this = c.obj("this", {}, 512)
    got = 0
    for r in c.call(r"Interp2Linear_::Interp2Linear_\(Dal::String_ const&, Dal::Vector_", [this, c.obj("name", {}, 32), hx, hy, hf]):
        st = r.st
        ms = st.ghost.get("mono", ())
        shape = z3.And(Z(n) == Z(rows), Z(m) == Z(cols))
        if r.kind != "ret":
            c.ensure(st, z3.Or(z3.Not(shape), z3.Not(z3.And([bz(q[0]) for q in ms]))), "rejects only a grid of another shape or decreasing abscissae")
            continue
        got += 1
        c.ensure(st, z3.And(shape, MONO, MONO2), "accepts only matching sizes and non-decreasing abscissae on both axes")
        c.ensure(st, len(ms) == 2, "both axes are checked")
        if len(ms) != 2:
            continue
        k = atom(z3.Int("k"))
        for q in ms:
            s = st.fork()
            s.assume(z3.And(Z(k) >= 0, Z(k) < Z(q[1])))
            v = rz(q[2](k))
            c.ensure(s, z3.Or(z3.And(Z(q[1]) == Z(n), v == rz(fx(k))), z3.And(Z(q[1]) == Z(m), v == rz(fy(k)))), "the checked values are an axis")
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < Z(n), Z(k) < Z(m)))
        a, b = (rz(q[2](k)) for q in ms)
        c.ensure(s, z3.Or(z3.And(a == rz(fx(k)), b == rz(fy(k))), z3.And(a == rz(fy(k)), b == rz(fx(k)))), "one check for each axis")
        s = st.fork()
        s.ghost["object"] = (n, m, fx, fy, data, x, y, c)
        c.ensure_all(c.ex.run_function(c.fname(r"Interp2Linear_::operator\(\)"), s, [this, x, y]), "the interpolator is the two-dimensional interpolation over what it was built from", lambda s2, v: rz(v) == GRIDV)
    c.ensure(c.st, got > 0, "some grid is accepted")


GRIDV = z3.Real("two_dimensional_interpolation")


def grid_interp(ex, st, a, i, dem):
    """two-dimensional interpolation (contract `bilinear`) over the given axes and grid"""
    n, m, fx, fy, data, x, y, c = st.ghost["object"]
    for p, ln, f, nm in ((a[0], n, fx, "first"), (a[1], m, fy, "second")):
        cnt, g = c.vec_view(st, p)
        k = atom(z3.Int(fresh_name("k")))
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < Z(ln)))
        ex.oblige(s, z3.And(Z(cnt) == Z(ln), rz(g(k)) == rz(f(k))), "the %s axis is the one given" % nm, i, cls="post")
    q = ex.load(st, a[2].shift(8), "ptr", i)
    ex.oblige(st, z3.And(z3.BoolVal(q.obj == data.obj), Z(q.off) == 0, Z(ex.load(st, a[2].shift(32), "i32", i)) == Z(m)), "the grid is the one given", i, cls="post")
    ex.oblige(st, z3.And(rz(a[3]) == x, rz(a[4]) == y), "at the given point", i, cls="post")
    return [Result(st, "ret", GRIDV)]


def copy_matrix(ex, st, a, i, dem):
    """copy of a matrix (member-wise, trusted library vectors): shares the element array of the source, which nothing changes here"""
    for t, ty in ((8, "ptr"), (16, "ptr"), (24, "ptr"), (32, "i32"), (40, "ptr"), (48, "ptr"), (56, "ptr")):
        ex.store(st, a[0].shift(t), ty, ex.load(st, a[1].shift(t), ty, i), i)
    return [Result(st, "ret", None)]
