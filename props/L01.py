from stdc import *
ID = "L01"
META = dict(
    title="Linear-algebra products and solves are exact inverses of each other",
    statement="For tridiagonal, band, diagonal, lower-triangular and dense symmetric positive-definite matrices of any size, the plain and transposed products equal the sums over the stored elements, elements outside the band read as zero and cannot be written, and a solve returns a vector whose product with the matrix is the right-hand side. Results are sized by the matrix whatever the result vector held before, and the result may be the argument itself. Solving with a zero pivot or a zero diagonal element, and factorising a band matrix that is not symmetric or has a negative pivot, is refused instead of silently answered (the dense factorisation regularises by design).",
    quantifier=dict(over=["inputs"], text="every size, every band width, every element value and every right-hand side"),
    why_tests_cant="Elimination and substitution sweeps depend on all elements at once; errors appear at the edges of the band, for particular widths against particular sizes, or only for the transposed direction.",
    anchors=dict(files=["dal/math/matrix/banded.cpp", "dal/math/matrix/banded.hpp", "dal/math/matrix/cholesky.cpp", "dal/math/matrix/decompositions.cpp", "dal/math/matrix/decompositionsmisc.cpp", "dal/math/matrix/sparse.hpp"],
                 mechanism=["tridiagonal product and elimination @ dal/math/matrix/banded.cpp TriMultiply/TridagBetaInverse/TriSolve", "band storage @ dal/math/matrix/banded.cpp BandElements_", "band products and triangular solves @ dal/math/matrix/banded.cpp BandedMultiply/BandedLSolve/BandedLTransposeSolve", "dense factor and solves @ dal/math/matrix/cholesky.cpp", "aliasing @ dal/math/matrix/decompositions.cpp"]),
    level_note="any size and band width; doubles as reals; dense and banded Cholesky factorisation by the bounded stand-in")
DRIVERS = {"l": ("".join('#include "/repo/dal/math/matrix/%s.cpp"\n' % f for f in ("banded", "cholesky", "decompositionsmisc", "decompositions")),
                 ["Tri", "Banded", "LowerTriangular_", "Diagonal_", "Cholesky", "BandElements_", "MatrixDecomposition_::(Solve|Multiply)"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random tridiagonal, band, diagonal, triangular and dense positive-definite matrices up to size 12, products, solves, aliasing, quadratic forms, correlated draws, refused inputs, against long-double dense arithmetic"
ASSUMPTIONS = ["doubles as real numbers", "std::vector construction and resize (trusted library)"]
SOURCES = ["math/matrix/%s.cpp" % f for f in ("banded", "cholesky", "decompositions", "decompositionsmisc", "sparse")] + ["math/specialfunctions.cpp", "math/interp/interp.cpp", "math/interp/interpcubic.cpp", "storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp", "time/dateutils.cpp", "time/datetimeutils.cpp"]
NMAX = 10 ** 6
I, RR = z3.IntSort(), z3.RealSort()
one = Poly.const(1)
AN = r"Dal::\(anonymous namespace\)::"
STD = growing() + resized() + STRINGS


def locked(ctx, extra=()):
    """relations between the loop's counters and iterators"""
    out = []
    iv = ctx.ints()
    for a in range(len(iv)):
        for b in range(a):
            for d in (-1, 0, 1):
                out.append(("%s = %s%+d" % (iv[a]["name"], iv[b]["name"], d), Z(iv[a]["cur"]) == Z(iv[b]["cur"]) + d))
    return out


def arrays(ctx):
    return [a for a in ctx.arrays if a[1][1] == "f64"]


@contract("l")
def tri_multiply(c):
    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            i = Z(v["cur"])
            for oid, k in arrays(ctx):
                cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                nm = "%s,%d: " % (v["name"], oid)
                out.append((nm + "diagonal part so far", All(lambda q, i=i, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < i), cur(q) == x(q) * d(q)))))
                out.append((nm + "upper part so far", All(lambda q, i=i, cur=cur, old=old: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == old(q) + z3.If(Z(q) < i, x(q.add(one)) * a(q), z3.RealVal(0))))))
                out.append((nm + "lower part so far", All(lambda q, i=i, cur=cur, old=old: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == old(q) + z3.If(z3.And(Z(q) > 0, Z(q) < i), x(q.add(one, -1)) * b(q.add(one, -1)), z3.RealVal(0))))))
        return out
    c.exec(STD, [("TriMultiply|transform", lambda ctx: inv(ctx))])
    n = c.int("n", 2, NMAX)
    m = n.add(one, -1)
    hx, _, x_, _ = dvec(c, "x", n)
    hd, _, d_, _ = dvec(c, "diag", n)
    ha, _, a_, _ = dvec(c, "above", m)
    hb, _, b_, _ = dvec(c, "below", m)
    x, d, a, b = [(lambda q, f=f: rz(f(P(q)))) for f in (x_, d_, a_, b_)]
    k = c.int("k", 1, NMAX)
    hr, _, _, _ = dvec(c, "r", k)
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    jm, jp = j.add(one, -1), j.add(one)

    def post(st, _):
        ln, r = c.vec_view(st, hr)
        want = x(j) * d(j) + z3.If(Z(j) + 1 < Z(n), x(jp) * a(j), z3.RealVal(0)) + z3.If(Z(j) > 0, x(jm) * b(jm), z3.RealVal(0))
        return [("result has the matrix's size", Z(ln) == Z(n)), ("each element is the row's sum", rz(r(j)) == want)]
    c.ensure_all(c.call(AN + "TriMultiply", [hx, hd, ha, hb, hr]), "tridiagonal product", post)


BETA = z3.Function("beta_inverse", I, RR)      # inverse pivots of the elimination


def beta_schema(d, a, b, n):
    return Schema("pivots", [BETA], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), BETA(i) * (d(P(i)) - z3.If(i > 0, a(P(i - 1)) * b(P(i - 1)) * BETA(i - 1), z3.RealVal(0))) == 1))


def tri_vectors(c, n, names=("diag", "above", "below")):
    hs, fs = [], []
    for k, nm in enumerate(names):
        h, _, f, _ = dvec(c, nm, n if k == 0 else n.add(one, -1))
        hs.append(h)
        fs.append(lambda q, f=f: rz(f(P(q))))
    return hs, fs


@contract("l")
def tri_pivots(c):
    """every pivot inverse satisfies the elimination recursion; a zero pivot is refused"""
    EPS_ = Fraction(2e-14)

    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            i = v["cur"]
            for oid, k in arrays(ctx):
                cur = lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))
                piv = lambda q: d(q) - z3.If(Z(q) > 0, a(q.add(one, -1)) * cur(q.add(one, -1)) * b(q.add(one, -1)), z3.RealVal(0))
                out.append(("%s,%d: pivots so far" % (v["name"], oid), All(lambda q, i=i, cur=cur, piv=piv: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(i)), cur(q) * piv(q) == 1))))
                for r in ctx.reals():
                    im = i.add(one, -1)
                    out.append(("%s,%d,%s: carried term" % (v["name"], oid, r["name"]), rz(r["cur"]) == z3.If(Z(i) > 0, a(im) * cur(im) * b(im), z3.RealVal(0))))
        return out
    c.exec(STD, [("TridagBetaInverse", lambda ctx: inv(ctx))], check_div=True)
    n = c.int("n", 2, NMAX)
    (hd, ha, hb), (d, a, b) = tri_vectors(c, n)
    out = c.obj("out", {}, 24)
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    jm = j.add(one, -1)
    for r in c.call(AN + "TridagBetaInverse", [out, hd, ha, hb]):
        if r.kind != "ret":
            continue
        ln, f = c.vec_view(r.st, out)
        c.ensure(r.st, Z(ln) == Z(n), "one pivot per row")
        c.ensure(r.st, rz(f(j)) * (d(j) - z3.If(Z(j) > 0, a(jm) * rz(f(jm)) * b(jm), z3.RealVal(0))) == 1, "inverse of the pivot of its row")


FW = z3.Function("forward_sweep", I, RR)


@contract("l")
def tri_solve(c):
    """the solution satisfies its equation in every row: below-the-diagonal multiplier first"""
    ST = {}

    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            i = v["cur"]
            for oid, k in arrays(ctx):
                cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                nm = "%s,%d: " % (v["name"], oid)
                out.append((nm + "forward sweep so far", All(lambda q, i=i, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(i), Z(q) < Z(n)), cur(q) == FW(Z(q))))))
                for off in (0, 1):
                    out.append((nm + "rows not yet substituted %d" % off, All(lambda q, i=i, cur=cur, off=off: z3.Implies(z3.And(Z(q) >= 0, Z(q) <= Z(i) - off), cur(q) == FW(Z(q))))))
                    out.append((nm + "rows substituted %d" % off, All(lambda q, i=i, cur=cur, off=off: z3.Implies(z3.And(Z(q) >= 0, Z(q) >= Z(i) - off, Z(q) < Z(n) - 1), cur(q) == FW(Z(q)) - up(q) * be(q) * cur(q.add(one))))))
                out.append((nm + "last row kept", cur(n.add(one, -1)) == FW(Z(n) - 1)))
        return out
    c.exec(STD, [("TriSolve", lambda ctx: inv(ctx))])
    n = c.int("n", 2, NMAX)
    # argument order (b, diag, low, up, beta, x): `low` multiplies the previous unknown, `up` the next one
    (hd, hl, hu), (d, low, up) = tri_vectors(c, n, ("diag", "low", "up"))
    hb, _, b_, _ = dvec(c, "b", n)
    b = lambda q: rz(b_(P(q)))
    hbe, _, be_, _ = dvec(c, "beta_inverse", n)
    be = lambda q: rz(be_(P(q)))
    c.st.schemas.append(beta_schema(d, low, up, n))
    c.st.schemas.append(Schema("forward", [FW], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), FW(i) == z3.If(i > 0, b(P(i)) - low(P(i - 1)) * FW(i - 1), b(P(i))) * be(P(i)))))
    k = c.int("k", 1, NMAX)
    hx, _, _, _ = dvec(c, "x", k)
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    jm, jp = j.add(one, -1), j.add(one)
    for r in c.call(AN + "TriSolve", [hb, hd, hl, hu, hbe, hx]):
        if r.kind != "ret":
            c.ensure(r.st, False, "accepted")
            continue
        ln, x_ = c.vec_view(r.st, hx)
        x = lambda q: rz(x_(q))
        c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
        s = r.st
        s.assume(z3.And(BETA(Z(j)) == be(j), BETA(Z(j) - 1) == be(jm)))      # ghost name of the given array
        # equation of row j from the two sweeps at j-1, j; first, middle and last row separately
        for nm, cond in (("first", Z(j) == 0), ("middle", z3.And(Z(j) > 0, Z(jp) < Z(n))), ("last", Z(jp) == Z(n))):
            s2 = s.fork()
            s2.assume(cond)
            v = {q: z3.Real(fresh_name(q)) for q in ("x0", "x1", "x2", "f0", "f1", "b0", "b1", "l0", "u0", "u1", "dd", "rhs")}
            terms = dict(x0=x(jm), x1=x(j), x2=x(jp), f0=FW(Z(j) - 1), f1=FW(Z(j)), b0=be(jm), b1=be(j), l0=low(jm), u0=up(jm), u1=up(j), dd=d(j), rhs=b(j))
            for q in v:
                s2.assume(v[q] == terms[q])
            V = lambda q: v[q]
            x0, x1, x2, f0, f1, b0, b1, l0, u0, u1, dd, rhs = [v[q] for q in v]
            prem, goal = [], None
            if nm == "first":
                prem = [b1 * dd == 1, f1 == rhs * b1, x1 == f1 - u1 * b1 * x2]
                goal = dd * x1 + u1 * x2 == rhs
            elif nm == "middle":
                prem = [b1 * (dd - l0 * u0 * b0) == 1, f1 == (rhs - l0 * f0) * b1, x1 == f1 - u1 * b1 * x2, x0 == f0 - u0 * b0 * x1]
                goal = l0 * x0 + dd * x1 + u1 * x2 == rhs
            else:
                prem = [b1 * (dd - l0 * u0 * b0) == 1, f1 == (rhs - l0 * f0) * b1, x1 == f1, x0 == f0 - u0 * b0 * x1]
                goal = l0 * x0 + dd * x1 == rhs
            c.ensure_by(s2, prem, goal, list(v.values()), "the equation of every %s row holds" % nm)


def elements_at(c, n, hs, size_this=200):
    """TriDiagonal_ object: diag, above, below in declaration order behind the vtable pointer"""
    cells = {}
    for k, h in enumerate(hs):
        o = c.st.heap[h.obj]
        for w in (0, 8, 16):
            cells[8 + 24 * k + w] = ("ptr", o.cells[w][2])
    return c.obj("tri", cells, size_this)


@contract("l")
def tri_elements(c):
    c.exec(STD)
    n = c.int("n", 2, NMAX)
    hs, (d, a, b) = tri_vectors(c, n)
    this = elements_at(c, n, hs)
    i, j = c.int("i", 0, NMAX), c.int("j", 0, NMAX)
    c.assume(z3.And(Z(i) < Z(n), Z(j) < Z(n)))
    E = lambda i, j, st: z3.If(Z(i) == Z(j), d(i), z3.If(Z(j) == Z(i) + 1, a(i), z3.If(Z(i) == Z(j) + 1, b(j), z3.RealVal(0))))
    rs = c.call(r"TriDiagonal_::operator\(\)", [this, i, j])
    c.ensure_all(rs, "element", lambda st, v: rz(c.ex.load(st, v, "f64")) == E(i, j, st))
    val = c.real("v")
    p, q = c.int("p", 0, NMAX), c.int("q", 0, NMAX)
    c.assume(z3.And(Z(p) < Z(n), Z(q) < Z(n)))
    near = z3.And(Z(i) - Z(j) <= 1, Z(j) - Z(i) <= 1)
    for op, want in (("Set", lambda old: val), ("Add", lambda old: old + val)):
        for r in c.call(r"TriDiagonal_::%s\(" % op, [this, i, j, val]):
            if r.kind != "ret":
                c.ensure(r.st, z3.Not(near), "%s is refused only outside the band" % op)
                continue
            c.ensure(r.st, near, "%s outside the band is refused" % op)
            for r2 in c.ex.run_function(c.fname(r"TriDiagonal_::operator\(\)"), r.st.fork(), [this, p, q]):
                new = rz(c.ex.load(r2.st, r2.val, "f64"))
                c.ensure(r2.st, new == z3.If(z3.And(Z(p) == Z(i), Z(q) == Z(j)), want(E(i, j, r.st)), E(p, q, r.st)), "%s changes exactly that element" % op)


def bandmat(c, rows, cols, nb):
    """BandElements_ viewing a rows x cols matrix; its element function"""
    h, data, f = dmat(c, "band", rows, cols)
    this = c.obj("elements", {64: ("ptr", h), 72: ("i32", nb)}, 80)
    A = lambda i, j: z3.If(z3.And(Z(j) - Z(i) + Z(nb) >= 0, Z(j) - Z(i) + Z(nb) < Z(cols)), rz(f(P(i), P(j).add(P(i), -1).add(nb))), z3.RealVal(0))
    return this, A, f


@contract("l")
def band_element(c):
    c.exec(STD)
    n, w, nb = c.int("n", 1, NMAX), c.int("w", 1, NMAX), c.int("nbelow", 0, NMAX)
    c.assume(Z(nb) < Z(w))
    this, A, f = bandmat(c, n, w, nb)
    i, j = c.int("i", 0, NMAX), c.int("j", 0, NMAX)
    c.assume(z3.And(Z(i) < Z(n), Z(j) < Z(n)))
    c.ensure_all(c.call(r"BandElements_::operator\(\)", [this, i, j]), "band element", lambda st, v: rz(c.ex.load(st, v, "f64")) == A(i, j))


@contract("l")
def band_write(c):
    """writing reaches exactly the addressed element and is refused outside the band"""
    c.exec(STD)
    n, w, nb = c.int("n", 1, NMAX), c.int("w", 1, NMAX), c.int("nbelow", 0, NMAX)
    c.assume(Z(nb) < Z(w))
    h, data, f = dmat(c, "band", n, w)
    o = c.st.heap[h.obj]
    cells = {k: (t, v) for k, (_, t, v) in o.cells.items()}
    this = c.obj("elements", {**cells, 64: ("ptr", NULL), 72: ("i32", nb)}, 80)
    c.ex.store(c.st, this.shift(64), "ptr", this)
    i, j = c.int("i", 0, NMAX), c.int("j", 0, NMAX)
    c.assume(z3.And(Z(i) < Z(n), Z(j) < Z(n)))
    col = Z(j) - Z(i) + Z(nb)
    inside = z3.And(col >= 0, col < Z(w))
    for r in c.call(r"BandElements_::At", [this, i, j]):
        if r.kind != "ret":
            c.ensure(r.st, z3.Not(inside), "refused only outside the band")
            continue
        c.ensure(r.st, inside, "outside the band is refused")
        v = r.val
        c.ensure(r.st, z3.And(z3.BoolVal(v.obj == data.obj), Z(v.off) == 8 * (Z(i) * Z(w) + col)), "the element's own storage")


def element(this, A, n):
    """contract of BandElements_::operator() (proved by band_element)"""
    def h(ex, st, a, i, dem):
        ex.oblige(st, z3.And(Z(a[1]) >= 0, Z(a[1]) < Z(n()), Z(a[2]) >= 0, Z(a[2]) < Z(n())), "element inside the matrix", i)
        ex.oblige(st, z3.BoolVal(a[0].obj == this().obj), "element of the given matrix", i)
        o = ex.new_obj(st, fresh_name("element"), 8, True)
        o.cells[0] = (8, "f64", A()(P(a[1]), P(a[2])))
        return [Result(st, "ret", Ptr(o.id, 0))]
    return [(re.compile(r"BandElements_::operator\(\)"), h)]


def outer_atoms(ctx):
    """counters of enclosing loops"""
    out = []
    for x in ctx.env.values():
        if isinstance(x, Poly) and len(x.m) == 1 and () not in x.m and all(c_ == 1 for c_ in x.m.values()) and not any(x.z().eq(y.z()) for y in out):
            out.append(x)
    return out


S = z3.Function("row_sum", I, I, RR)           # S(i,k): sum over j<k of x(j) A(i,j)
TS = z3.Function("column_sum", I, I, RR)       # T(j,k): sum over i<k of x(i) A(i,j)


def band_multiply(transpose):
    def f(c):
        env = {}

        def inv(ctx):
            out = locked(ctx)
            for v in ctx.ints():
                i = v["cur"]
                out.append((v["name"] + " at most n", Z(i) <= Z(n)))
                for oid, k in arrays(ctx):
                    cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                    nm = "%s,%d: " % (v["name"], oid)
                    out.append((nm + "filled", All(lambda q, i=i, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(i)), cur(q) == 0))))
                    if not transpose:
                        out.append((nm + "rows done", All(lambda q, i=i, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == z3.If(Z(q) < Z(i), S(Z(q), hi(q)) - S(Z(q), lo(q)), z3.RealVal(0))))))
                        for r in outer_atoms(ctx):
                            out.append((nm + "row %s in progress" % r.z(), All(lambda q, i=i, cur=cur, old=old, r=r: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == old(q) + z3.If(Z(q) == Z(r), S(Z(q), Z(i)) - S(Z(q), lo(q)), z3.RealVal(0))))))
                    else:
                        out.append((nm + "rows done", All(lambda q, i=i, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == TS(Z(q), Z(i))))))
                        for r in outer_atoms(ctx):
                            out.append((nm + "row %s in progress" % r.z(), All(lambda q, i=i, cur=cur, old=old, r=r: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == old(q) + z3.If(z3.And(Z(q) >= lo(r), Z(q) < Z(i)), x(r) * A(r, q), z3.RealVal(0))))))
                for r in outer_atoms(ctx):
                    out.append(("%s: within the band of %s" % (v["name"], r.z()), z3.And(Z(i) >= lo(r), Z(i) <= z3.If(hi(r) > lo(r), hi(r), lo(r)))))
            return out
        c.exec(element(lambda: env["this"], lambda: env["A"], lambda: env["n"]) + STD, [("BandedMultiply|fill", lambda ctx: inv(ctx))])
        n, w, nb = c.int("n", 1, NMAX), c.int("w", 1, NMAX), c.int("nbelow", 0, NMAX)
        c.assume(Z(nb) < Z(w))
        this, A, _ = bandmat(c, n, w, nb)
        env.update(this=this, A=A, n=n)
        lo = lambda i: z3.If(Z(i) - Z(nb) > 0, Z(i) - Z(nb), z3.IntVal(0))
        hi = lambda i: z3.If(Z(i) + Z(w) - Z(nb) < Z(n), Z(i) + Z(w) - Z(nb), Z(n))
        hx, _, x_, _ = dvec(c, "x", n)
        x = lambda q: rz(x_(P(q)))
        m = c.int("m", 1, NMAX)
        hb, _, _, _ = dvec(c, "b", m)
        G, arg = (TS, (lambda i, k: x(P(k)) * A(P(k), P(i)))) if transpose else (S, (lambda i, k: x(P(k)) * A(P(i), P(k))))
        c.st.schemas.append(Schema("sum", [G], lambda i, k: z3.And(G(i, 0) == 0, z3.Implies(k > 0, G(i, k) == G(i, k - 1) + arg(i, k - 1)))))
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(n))
        for r in c.call(AN + "BandedMultiply<%s>" % ("true" if transpose else "false"), [this, hx, hb]):
            if r.kind != "ret":
                c.ensure(r.st, False, "accepted")
                continue
            ln, b = c.vec_view(r.st, hb)
            c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
            if transpose:
                c.ensure(r.st, rz(b(j)) == TS(Z(j), Z(n)), "each element is the column's sum")
                continue
            # elements left of lo and right of hi are zero: prefix sums are constant there (induction on k)
            s = r.st
            k = c.int("k", 0, NMAX)
            for nm, pred, base in (("before the band", lambda q: z3.Implies(z3.And(q >= 0, q <= lo(j)), S(Z(j), q) == 0), z3.IntVal(0)),
                                   ("after the band", lambda q: z3.Implies(z3.And(q >= hi(j), q <= Z(n), hi(j) >= 0), S(Z(j), q) == S(Z(j), hi(j))), hi(j))):
                c.ensure(s, pred(base), "nothing %s (base)" % nm)
                s2 = s.fork()
                s2.assume(z3.And(pred(Z(k)), Z(k) >= base))
                c.ensure(s2, pred(Z(k) + 1), "nothing %s (step)" % nm)
            s.assume(z3.And(z3.Implies(lo(j) >= 0, S(Z(j), lo(j)) == 0), z3.Implies(hi(j) <= Z(n), S(Z(j), Z(n)) == S(Z(j), hi(j)))))
            c.ensure(s, rz(b(j)) == S(Z(j), Z(n)), "each element is the row's sum")
    f.__name__ = "band_multiply_" + ("transposed" if transpose else "plain")
    return f


contract("l")(band_multiply(False))
contract("l")(band_multiply(True))


XF = z3.Function("solution", I, RR)


def band_lsolve(transpose):
    """triangular band solve: x(i) = (b(i) - sum of the other elements of row (column) i times x) / A(i,i),
    with result and right-hand side distinct or the same vector"""
    def f(c):
        for alias in (False, True):
            run(c, alias)

    def run(c, alias):
        env = {}

        def inv(ctx):
            out = locked(ctx)
            for v in ctx.ints():
                i = v["cur"]
                out.append((v["name"] + " in range", z3.And(Z(i) <= Z(n), Z(i) >= -1)))
                for oid, k in arrays(ctx):
                    cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                    nm = "%s,%d: " % (v["name"], oid)
                    done = (lambda q: Z(q) > Z(i)) if transpose else (lambda q: Z(q) < Z(i))
                    out.append((nm + "solved so far", All(lambda q, done=done, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n), done(q)), z3.And(cur(q) == XF(Z(q)), A(q, q) != 0)))))
                    out.append((nm + "not yet touched", All(lambda q, done=done, cur=cur, old=old: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n), z3.Not(done(q))), cur(q) == old(q)))))
                for r in outer_atoms(ctx):
                    for y in ctx.reals():
                        out.append(("%s,%s,%s: residual" % (v["name"], r.z(), y["name"]), rz(y["cur"]) == b(r) - ((G(Z(r), Z(n)) - G(Z(r), Z(i) + 1)) if transpose else (G(Z(r), Z(i)) - G(Z(r), lo(r))))))
                    out.append(("%s: between band and %s" % (v["name"], r.z()), z3.And(Z(i) >= Z(r), Z(i) < Z(n), Z(i) <= Z(r) + Z(nb)) if transpose else z3.And(Z(i) >= lo(r), Z(i) <= Z(r))))
            return out
        c.exec(element(lambda: env["this"], lambda: env["A"], lambda: env["n"]) + STD, [("Banded", lambda ctx: inv(ctx))], check_div=True)
        c.st = State()
        n, nb = c.int("n", 1, NMAX), c.int("nbelow", 0, NMAX)
        w = c.int("w", 1, NMAX)
        c.assume(Z(w) == Z(nb) + 1)
        this, A, _ = bandmat(c, n, w, nb)
        env.update(this=this, A=A, n=n)
        lo = lambda i: z3.If(Z(i) - Z(nb) > 0, Z(i) - Z(nb), z3.IntVal(0))
        hb, _, b_, _ = dvec(c, "b", n)
        b = lambda q: rz(b_(P(q)))
        if alias:
            hx = hb
        else:
            hx, _, _, _ = dvec(c, "x", c.int("m", 1, NMAX))
        G = TS if transpose else S
        El = (lambda i, k: A(P(k), P(i))) if transpose else (lambda i, k: A(P(i), P(k)))
        # prefix sums over the off-diagonal elements of row (column) i
        c.st.schemas.append(Schema("sum", [G], lambda i, k: z3.And(G(i, 0) == 0, z3.Implies(k > 0, G(i, k) == G(i, k - 1) + XF(k - 1) * El(i, k - 1)))))
        # the band's zeros add nothing (induction on the index), then available
        k, ii = c.int("k", 0, NMAX), c.int("ii", 0, NMAX)
        out = (lambda i, k: z3.Implies(z3.And(k <= Z(n), k > i + Z(nb)), G(i, k) == G(i, Z(n)))) if transpose else (lambda i, k: z3.Implies(z3.And(k >= 0, k <= lo(P(i))), G(i, k) == 0))
        c.ensure(c.st, out(Z(ii), Z(n) if transpose else z3.IntVal(0)), "elements outside the triangle add nothing (base)")
        s0 = c.st.fork()
        s0.assume(out(Z(ii), Z(k) + 1 if transpose else Z(k)))
        s0.assume(z3.And(Z(k) < Z(n), Z(ii) < Z(n)))
        c.ensure(s0, out(Z(ii), Z(k) if transpose else Z(k) + 1), "elements outside the triangle add nothing (step)")
        c.st.schemas.append(Schema("nothing outside the triangle", [G], lambda i, k: z3.Implies(z3.And(i >= 0, i < Z(n)), out(i, k))))
        c.st.schemas.append(Schema("solution", [XF], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n), A(P(i), P(i)) != 0), XF(i) * A(P(i), P(i)) == b(P(i)) - ((G(i, Z(n)) - G(i, i + 1)) if transpose else G(i, i)))))
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(n))
        for r in c.call(AN + ("BandedLTransposeSolve" if transpose else "BandedLSolve"), [this, hb, hx]):
            if r.kind != "ret":
                continue
            ln, x = c.vec_view(r.st, hx)
            c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
            eq = (rz(x(j)) * A(j, j) + G(Z(j), Z(n)) - G(Z(j), Z(j) + 1)) if transpose else (G(Z(j), Z(j)) + rz(x(j)) * A(j, j))
            c.ensure(r.st, eq == b(j), "the equation of every row holds")
            c.ensure(r.st, rz(x(j)) == XF(Z(j)), "the sums are over the returned solution")
    f.__name__ = "band_solve_" + ("transposed" if transpose else "plain")
    return f


contract("l")(band_lsolve(False))
contract("l")(band_lsolve(True))


def square(c, n, name="tri"):
    h, data, f = dmat(c, name, n, n)
    return h, data, (lambda i, j: rz(f(P(i), P(j))))


def vtable(c):
    return c.obj("vtable", {8 * k: ("ptr", Ptr(("fn", "virtual:%d" % k), 0)) for k in range(24)}, 192)


def size(n):
    """the virtual call to Size(), the only one these bodies make (bodies proved by `sizes`)"""
    def h(ex, st, a, i, dem):
        if i["t"] != "i32" or len(a) != 1:
            raise Unsupported("virtual call")
        return [Result(st, "ret", n())]
    return [(re.compile("^virtual:"), h)]


def embed(c, off, h, size_, name):
    """object holding the given matrix as a member at offset off"""
    o = c.st.heap[h.obj]
    return c.obj(name, {**{off + k: (t, v) for k, (_, t, v) in o.cells.items()}, 0: ("ptr", vtable(c))}, size_)


def inner_product(col):
    """the library's inner_product over a vector and a contiguous (strided) sequence: the initial value
    plus the difference of the prefix sums of the products"""
    def f(c):
        def inv(ctx):
            out = locked(ctx)
            for v in ctx.ints():
                i = v["cur"]
                for y in ctx.reals():
                    out.append(("%s,%s: sum so far" % (v["name"], y["name"]), rz(y["cur"]) == init + S(0, Z(i)) - S(0, Z(lo))))
                for w in ctx.ints():
                    if w is not v:
                        out.append(("%s against %s" % (w["name"], v["name"]), Z(w["cur"]) == Z(start) + (Z(i) - Z(lo)) * (Z(n) if col else 1)))
            return out
        c.exec(STD, [("inner_product", lambda ctx: inv(ctx))])
        m, n, N = c.int("m", 1, NMAX), c.int("stride", 1, NMAX), c.int("N", 1, NMAX * NMAX)
        px, x_ = c.array("x", m)
        py, y_ = c.array("y", N)
        start, lo, hi = c.int("start", 0, NMAX), c.int("lo", 0, NMAX), c.int("hi", 0, NMAX)
        step = n if col else one
        at = lambda k: start.add(P(k).add(lo, -1).mul(step))
        c.assume(z3.And(Z(lo) <= Z(hi), Z(hi) <= Z(m)))
        # every element of the second sequence exists
        c.st.schemas.append(Schema("sequence inside", [S], lambda i, k: z3.Implies(z3.And(k >= Z(lo), k < Z(hi)), z3.And(Z(at(k)) >= 0, Z(at(k)) < Z(N)))))
        init = c.real("init")
        c.st.schemas.append(Schema("sum", [S], lambda i, k: z3.Implies(k > Z(lo), S(i, k) == S(i, k - 1) + rz(x_(P(k - 1))) * rz(y_(at(P(k - 1)))))))
        args = [px.shift(lo.scale(8)), px.shift(hi.scale(8)), py.shift(start.scale(8))] + ([n] if col else []) + [init]
        it = r"__gnu_cxx::__normal_iterator<double const\*, std::vector<double, std::allocator<double>>>"
        name = r"double std::inner_product<%s, %s%s" % (it, "Dal::Matrix_<double>::ConstCol_" if col else it, "" if col else ", double>")
        c.ensure_all(c.call(name, args), "inner product", lambda st, v: rz(v) == init + S(0, Z(hi)) - S(0, Z(lo)))
    f.__name__ = "inner_product_" + ("column" if col else "row")
    return f


contract("l")(inner_product(False))
contract("l")(inner_product(True))


def lower(kind):
    """lower-triangular matrix as a decomposition: products and solves, plain and transposed"""
    solve_, tr = kind.startswith("solve"), kind.endswith("transposed")

    def f(c):
        env = {}

        def sums(ex, st, obj, line, col):
            ex.oblige(st, z3.BoolVal(col == tr), "rows for the plain, columns for the transposed direction", None, cls="post")
            return S, (lambda k: U(k)), (lambda k: El(line, k))

        def inv(ctx):
            out = locked(ctx)
            for v in ctx.ints():
                i = v["cur"]
                out.append((v["name"] + " in range", z3.And(Z(i) <= Z(n), Z(i) >= -1)))
                done = (lambda q: Z(q) > Z(i)) if solve_ and tr else (lambda q: Z(q) < Z(i))
                for oid, k in arrays(ctx):
                    cur = lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))
                    out.append(("%s,%d: done so far" % (v["name"], oid), All(lambda q, done=done, cur=cur: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n), done(q)), z3.And(cur(q) == want(q), L(q, q) != 0 if solve_ else z3.BoolVal(True))))))
            return out
        c.exec(dot(sums) + size(lambda: env["n"]) + STD, [("LowerTriangular_", lambda ctx: inv(ctx))], check_div=True)
        n = env["n"] = c.int("n", 1, NMAX)
        h, data, L = square(c, n)
        this = embed(c, 8, h, 80, "this")
        hx, _, x_, _ = dvec(c, "x", n)
        x = lambda q: rz(x_(P(q)))
        U = (lambda k: XF(Z(k))) if solve_ else x
        El = (lambda line, k: L(k, line)) if tr else (lambda line, k: L(line, k))
        c.st.schemas.append(Schema("sum", [S], lambda i, k: z3.And(S(i, 0) == 0, z3.Implies(k > 0, S(i, k) == S(i, k - 1) + U(P(k - 1)) * El(P(i), P(k - 1))))))
        rest = (lambda q: S(Z(q), Z(n)) - S(Z(q), Z(q) + 1)) if tr else (lambda q: S(Z(q), Z(q)))
        if solve_:
            c.st.schemas.append(Schema("solution", [XF], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n), L(P(i), P(i)) != 0), XF(i) * L(P(i), P(i)) == x(P(i)) - rest(P(i)))))
            want = lambda q: XF(Z(q))
        else:
            want = lambda q: x(q) * L(q, q) + rest(q)
        m = c.int("m", 1, NMAX)
        hb, _, _, _ = dvec(c, "b", m)
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(n))
        for r in c.call("LowerTriangular_::X%s%s_af" % ("Solve" if solve_ else "Multiply", "Right" if tr else "Left"), [this, hx, hb]):
            if r.kind != "ret":
                if not solve_:
                    c.ensure(r.st, False, "accepted")
                continue
            ln, b = c.vec_view(r.st, hb)
            c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
            if solve_:
                c.ensure(r.st, rz(b(j)) == XF(Z(j)), "the sums are over the returned solution")
                c.ensure(r.st, rz(b(j)) * L(j, j) + rest(j) == x(j), "the equation of every row holds")
            else:
                c.ensure(r.st, rz(b(j)) == want(j), "each element is the row's sum")
    f.__name__ = "lower_" + kind
    return f


for _k in ("multiply_plain", "multiply_transposed", "solve_plain", "solve_transposed"):
    contract("l")(lower(_k))


@contract("l")
def diagonal(c):
    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            for oid, k in arrays(ctx):
                for nm, w in (("products", lambda q: x(q) * d(q)), ("quotients", None)):
                    cur = lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))
                    out.append(("%s,%d: %s so far" % (v["name"], oid, nm), All(lambda q, cur=cur, w=w, v=v: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"]), Z(q) < Z(n)), cur(q) == w(q) if w else z3.And(cur(q) * d(q) == x(q), d(q) != 0)))))
        return out
    env = {}
    c.exec(size(lambda: env["n"]) + STD, [("transform", lambda ctx: inv(ctx))], check_div=True)
    n = env["n"] = c.int("n", 1, NMAX)
    hd, _, d_, _ = dvec(c, "diag", n)
    hx, _, x_, _ = dvec(c, "x", n)
    x, d = (lambda q: rz(x_(P(q)))), (lambda q: rz(d_(P(q))))
    o = c.st.heap[hd.obj]
    this = c.obj("this", {0: ("ptr", vtable(c)), **{8 + w: ("ptr", o.cells[w][2]) for w in (0, 8, 16)}}, 40)
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    for k, (f, post) in enumerate((("XMultiply", lambda v: v == x(j) * d(j)), ("XSolve", lambda v: v * d(j) == x(j)))):
        hb, _, _, _ = dvec(c, "b%d" % k, c.int("m", 1, NMAX))
        for r in c.call("Diagonal_::%s_af" % f, [this, hx, hb]):
            if r.kind != "ret":
                if k == 0:
                    c.ensure(r.st, False, "accepted")
                continue
            ln, b = c.vec_view(r.st, hb)
            c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
            c.ensure(r.st, post(rz(b(j))), f)


YF = z3.Function("forward_solution", I, RR)


def dense(c, env):
    """Cholesky_ object: pointer to the lower factor whose diagonal holds inverses"""
    n = env["n"] = c.int("n", 1, NMAX)
    h, data, L = square(c, n, "factor")
    this = c.obj("this", {0: ("ptr", vtable(c)), 8: ("ptr", h), 16: ("i8", Poly.const(0))}, 24)
    c.st.schemas.append(Schema("inverse diagonal", [uf("factor", 2, "f64")], lambda i, j: z3.Implies(z3.And(i == j, i >= 0, i < Z(n)), L(P(i), P(j)) != 0)))
    return n, this, L


@contract("l")
def cholesky_solve(c):
    env = {}

    def sums(ex, st, obj, line, col):
        ex.oblige(st, z3.BoolVal(not col), "rows of the factor", None, cls="post")
        return S, (lambda k: YF(Z(k))), (lambda k: L(line, k))

    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            i = v["cur"]
            out.append((v["name"] + " in range", z3.And(Z(i) <= Z(n), Z(i) >= -1)))
            for oid, k in arrays(ctx):
                cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                nm = "%s,%d: " % (v["name"], oid)
                out.append((nm + "forward part", All(lambda q, cur=cur, i=i: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n), Z(q) < Z(i)), cur(q) == YF(Z(q))))))
                out.append((nm + "backward part", All(lambda q, cur=cur, i=i: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n)), cur(q) == z3.If(Z(q) > Z(i), XF(Z(q)), YF(Z(q)) - (TS(Z(q), Z(n)) - TS(Z(q), Z(i) + 1)))))))
        return out

    def increment(ex, st, a, i, dem):
        """std::transform(x, x+r, row r, x, LinearIncrement(s)) (body proved by `increment`): adds s times the row"""
        m = rng(ex, st, a[0], a[1])
        row, start = split2(st.heap[a[2].obj], a[2].off.div_exact(8))
        sc = rz(a[4])
        ok = a[0].obj == a[3].obj and a[0].off.add(a[3].off, -1).m == {} and a[0].off.m == {}
        ex.oblige(st, z3.And(z3.BoolVal(ok), Z(start) == 0, Z(m) <= Z(n)), "the start of the vector, in place, with the start of a row", i)
        o = st.own(a[0].obj)
        key = (0, "f64")
        old = o.arrays[key]
        rowf = L
        o.arrays[key] = ABase(lambda k, old=old: z3.If(z3.And(Z(k) >= 0, Z(k) < Z(m)), rz(old.select(ex, None, [P(k)])) + sc * rowf(row, P(k)), rz(old.select(ex, None, [P(k)]))))
        if ex.writes is not None:
            ex.writes.add((a[0].obj, "arr", key, "f64"))
        return [Result(st, "ret", a[3].shift(P(m).scale(8)))]
    c.exec(dot(sums) + [(re.compile("std::transform<.*LinearIncrement"), increment)] + size(lambda: env["n"]) + STD, [("Cholesky_", lambda ctx: inv(ctx))])
    n, this, L = dense(c, env)
    hb, _, b_, _ = dvec(c, "b", n)
    b = lambda q: rz(b_(P(q)))
    hx, _, _, _ = dvec(c, "x", c.int("m", 1, NMAX))
    c.st.schemas.append(Schema("row sum", [S], lambda i, k: z3.And(S(i, 0) == 0, z3.Implies(k > 0, S(i, k) == S(i, k - 1) + YF(k - 1) * L(P(i), P(k - 1))))))
    c.st.schemas.append(Schema("column sum", [TS], lambda j, k: z3.And(TS(j, 0) == 0, z3.Implies(k > 0, TS(j, k) == TS(j, k - 1) + XF(k - 1) * L(P(k - 1), P(j))))))
    c.st.schemas.append(Schema("forward", [YF], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), YF(i) == (b(P(i)) - S(i, i)) * L(P(i), P(i)))))
    c.st.schemas.append(Schema("backward", [XF], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), XF(i) == (YF(i) - (TS(i, Z(n)) - TS(i, i + 1))) * L(P(i), P(i)))))
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(n))
    for r in c.call(r"namespace\)::Cholesky_::XSolve_af", [this, hb, hx]):
        if r.kind != "ret":
            c.ensure(r.st, False, "accepted")
            continue
        ln, x = c.vec_view(r.st, hx)
        c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
        c.ensure(r.st, rz(x(j)) == XF(Z(j)), "the sums are over the returned solution")
        # with d = 1/stored diagonal: d y + (row sum) = b and d x + (column sum) = y
        dj = 1 / L(j, j)
        c.ensure(r.st, dj * YF(Z(j)) + S(Z(j), Z(j)) == b(j), "lower factor times the intermediate vector is the right-hand side")
        c.ensure(r.st, dj * XF(Z(j)) + TS(Z(j), Z(n)) - TS(Z(j), Z(j) + 1) == YF(Z(j)), "transposed factor times the solution is the intermediate vector")


@contract("l")
def increment(c):
    """std::transform with the library's linear increment: adds the scale times the second sequence, in place"""
    def inv(ctx):
        out = locked(ctx)
        for v in ctx.ints():
            i = v["cur"]
            for w in ctx.ints():
                if w is not v:
                    out.append(("%s against %s" % (w["name"], v["name"]), Z(w["cur"]) == Z(i) + Z(start)))
            for oid, k in arrays(ctx):
                cur, old = (lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))), (lambda q, oid=oid, k=k: rz(ctx.old(oid, k, q)))
                out.append(("%s,%d: added so far" % (v["name"], oid), All(lambda q, cur=cur, old=old, i=i: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(m)), cur(q) == old(q) + z3.If(Z(q) < Z(i), sc * rz(y_(start.add(q))), z3.RealVal(0))))))
        return out
    c.exec(STD, [("transform", lambda ctx: inv(ctx))])
    m, N, start, k = c.int("m", 1, NMAX), c.int("N", 1, NMAX), c.int("start", 0, NMAX), c.int("k", 0, NMAX)
    c.assume(z3.And(Z(k) <= Z(m), Z(start) + Z(k) <= Z(N)))
    px, x_ = c.array("x", m)
    py, y_ = c.array("y", N)
    sc = c.real("scale")
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(m))
    rs = c.call(r"std::transform<.*LinearIncrement", [px, px.shift(k.scale(8)), py.shift(start.scale(8)), px, sc])
    c.ensure_all(rs, "in place", lambda st, v: rz(elem(c.ex, st, px, j)) == rz(x_(j)) + z3.If(Z(j) < Z(k), sc * rz(y_(start.add(j))), z3.RealVal(0)))


ZF = z3.Function("intermediate", I, RR)


def dense_product(correlated):
    """factor times (its transpose times) a vector"""
    def f(c):
        env = {}

        def sums(ex, st, obj, line, col):
            if correlated:
                ex.oblige(st, z3.BoolVal(not col), "rows of the factor", None, cls="post")
                return S, x, (lambda k: L(line, k))
            return (TS, x, (lambda k: L(k, line))) if col else (S, (lambda k: ZF(Z(k))), (lambda k: L(line, k)))

        def inv(ctx):
            out = locked(ctx)
            for v in ctx.ints():
                i = v["cur"]
                out.append((v["name"] + " in range", z3.And(Z(i) <= Z(n), Z(i) >= 0)))
                for oid, k in arrays(ctx):
                    cur = lambda q, oid=oid, k=k: rz(ctx.cur(oid, k, q))
                    for nm, w in (("first product", lambda q: ZF(Z(q))), ("second product", want)):
                        out.append(("%s,%d: %s" % (v["name"], oid, nm), All(lambda q, cur=cur, i=i, w=w: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(n), Z(q) < Z(i)), cur(q) == w(q)))))
            return out
        c.exec(dot(sums) + size(lambda: env["n"]) + STD, [("Cholesky_", lambda ctx: inv(ctx))])
        n, this, L = dense(c, env)
        hx, px, x_, _ = dvec(c, "x", n)
        x = lambda q: rz(x_(P(q)))
        u = x if correlated else (lambda q: ZF(Z(q)))
        want = lambda q: S(Z(q), Z(q)) + u(q) / L(q, q)
        c.st.schemas.append(Schema("row sum", [S], lambda i, k: z3.And(S(i, 0) == 0, z3.Implies(k > 0, S(i, k) == S(i, k - 1) + u(P(k - 1)) * L(P(i), P(k - 1))))))
        c.st.schemas.append(Schema("column sum", [TS], lambda j, k: z3.And(TS(j, 0) == 0, z3.Implies(k > 0, TS(j, k) == TS(j, k - 1) + x(P(k - 1)) * L(P(k - 1), P(j))))))
        c.st.schemas.append(Schema("transposed product", [ZF], lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), ZF(i) == TS(i, Z(n)) - TS(i, i + 1) + x(P(i)) / L(P(i), P(i)))))
        hb, _, _, _ = dvec(c, "b", c.int("m", 1, NMAX))
        j = c.int("j", 0, NMAX)
        c.assume(Z(j) < Z(n))
        for r in c.call(r"namespace\)::Cholesky_::%s" % ("MakeCorrelated" if correlated else "XMultiply_af"), [this, px if correlated else hx, hb]):
            if r.kind != "ret":
                c.ensure(r.st, False, "accepted")
                continue
            ln, b = c.vec_view(r.st, hb)
            c.ensure(r.st, Z(ln) == Z(n), "result has the matrix's size")
            c.ensure(r.st, rz(b(j)) == want(j), "factor times " + ("the draws" if correlated else "(its transpose times the vector)"))
    f.__name__ = "cholesky_" + ("correlated" if correlated else "multiply")
    return f


contract("l")(dense_product(False))
contract("l")(dense_product(True))


@contract("l")
def aliasing(c):
    """a result that is the argument itself: the implementation is given a copy of the argument"""
    log = []

    def impl(ex, st, a, i, dem):
        n, f = c.vec_view(st, a[1])
        s = st
        ex.oblige(s, z3.BoolVal(a[1].obj != a[2].obj), "the implementation never sees the same vector twice", i, cls="post")
        ex.oblige(s, z3.And(Z(n) == Z(N), rz(f(j)) == rz(x_(j))), "the implementation sees the caller's values", i, cls="post")
        ex.oblige(s, z3.BoolVal(a[2].obj == env["b"].obj), "the implementation writes the caller's result", i, cls="post")
        st.ghost["slot"] = dem
        return [Result(st, "ret", None)]
    env = {}

    def copy(ex, st, a, i, dem):
        n, f = c.vec_view(st, a[1])
        b = base_array(fresh_name("copy"), 1, "f64")
        o = ex.arr_obj(st, fresh_name("copy"), n, 8, {0: ("f64", ABase(lambda k, f=f: f(k)))})
        for k, q in ((0, 0), (8, P(n).scale(8)), (16, P(n).scale(8))):
            ex.store(st, a[0].shift(k), "ptr", Ptr(o.id, 0).shift(q), i)
        return [Result(st, "ret", None)]
    c.exec([(re.compile("^virtual:"), impl), (re.compile(r"Dal::Vector_<double>::Vector_\(Dal::Vector_<double> const&\)"), copy)] + STD)
    N = c.int("n", 1, NMAX)
    hx, _, x_, _ = dvec(c, "x", N)
    hb, _, _, _ = dvec(c, "b", c.int("m", 1, NMAX))
    j = c.int("j", 0, NMAX)
    c.assume(Z(j) < Z(N))
    this = c.obj("this", {0: ("ptr", vtable(c))}, 8)
    for cls, fns in (("SquareMatrixDecomposition_", ("SolveLeft", "SolveRight", "MultiplyLeft", "MultiplyRight")), ("SymmetricMatrixDecomposition_", ("Solve", "Multiply"))):
        slots = set()
        for fn in fns:
            for b in (hb, hx):
                env["b"] = b
                for r in c.call(r"^Dal::%s::%s\(" % (cls, fn), [this, hx, b]):
                    c.ensure(r.st, z3.BoolVal(r.kind == "ret" and r.st.ghost.get("slot") is not None), "%s forwards to its implementation" % fn)
                    slots.add((fn, r.st.ghost.get("slot")))
        c.ensure(c.st, z3.BoolVal(len(slots) == len(fns) and len({b for _, b in slots}) == len(fns)), "every operation of %s has its own implementation" % cls)


@contract("l")
def tri_wiring(c):
    """which diagonal multiplies the previous and which the next unknown, plain and transposed"""
    def rec(ex, st, a, i, dem):
        st.ghost["args"] = tuple((p.obj, p.off.c()) if isinstance(p, Ptr) and p.obj is not None and p.off.is_const() else None for p in a)
        st.ghost["fn"] = dem
        return [Result(st, "ret", None)]
    env = {}
    c.exec([(re.compile(AN + "(TriMultiply|TriSolve)"), rec)] + size(lambda: env["n"]) + STD)
    n = env["n"] = c.int("n", 2, NMAX)
    hs = [dvec(c, nm, n if k in (0, 3) else n.add(one, -1))[0] for k, nm in enumerate(("diag", "above", "below", "beta"))]
    hx, _, _, _ = dvec(c, "x", n)
    hb, _, _, _ = dvec(c, "b", n)

    def at(names):
        cells = {0: ("ptr", vtable(c))}
        for k, nm in enumerate(names):
            o = c.st.heap[hs[("diag", "above", "below", "beta").index(nm)].obj]
            for w in (0, 8, 16):
                cells[8 + 24 * k + w] = ("ptr", o.cells[w][2])
        p = c.obj("this", cells, 8 + 24 * len(names))
        return p, {nm: (p.obj, 8 + 24 * k) for k, nm in enumerate(names)}
    x, b = (hx.obj, 0), (hb.obj, 0)
    full, f = at(("diag", "above", "below", "beta"))
    symm, s = at(("diag", "above", "beta"))
    mat, m = at(("diag", "above", "below"))
    # TriMultiply(x, diag, multiplies the next, multiplies the previous, out); TriSolve(b, diag, previous, next, beta, x)
    cases = [(r"TriDecomp_::XMultiplyLeft_af", full, "TriMultiply", (x, f["diag"], f["above"], f["below"], b)), (r"TriDecomp_::XMultiplyRight_af", full, "TriMultiply", (x, f["diag"], f["below"], f["above"], b)),
             (r"TriDecomp_::XSolveLeft_af", full, "TriSolve", (x, f["diag"], f["below"], f["above"], f["beta"], b)), (r"TriDecomp_::XSolveRight_af", full, "TriSolve", (x, f["diag"], f["above"], f["below"], f["beta"], b)),
             (r"TriDecompSymm_::XMultiply_af", symm, "TriMultiply", (x, s["diag"], s["above"], s["above"], b)), (r"TriDecompSymm_::XSolve_af", symm, "TriSolve", (x, s["diag"], s["above"], s["above"], s["beta"], b)),
             (r"TriDiagonal_::MultiplyLeft", mat, "TriMultiply", (x, m["diag"], m["above"], m["below"], b)), (r"TriDiagonal_::MultiplyRight", mat, "TriMultiply", (x, m["diag"], m["below"], m["above"], b))]
    for fn, this, callee, want in cases:
        for r in c.call(fn, [this, hx, hb]):
            c.ensure(r.st, z3.BoolVal(r.kind == "ret" and callee in r.st.ghost.get("fn", "") and r.st.ghost.get("args") == want), "%s applies the right diagonals" % fn)
