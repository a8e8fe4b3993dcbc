from stdc import *
ID = "R01"
META = dict(
    title="Random streams are reproducible and skipping ahead equals drawing",
    statement="A random number generator yields a sequence fixed by its type, seed and dimension, with every uniform strictly between 0 and 1; uniform paths come in antithetic pairs u, 1-u, and normal paths are the inverse normal transform of fresh uniforms. Jumping to path n, from any earlier state, leaves exactly the paths that drawing n paths from the start would leave, so that batches simulated separately never share draws. A clone restarts the same stream.",
    quantifier=dict(over=["inputs", "histories"], text="every seed, dimension, path number (odd or even), and every history of draws and jumps before it"),
    why_tests_cant="Tests sample one or two jump lengths and statistics of the draws; the jump is a modular matrix power whose correctness depends on every bit of the length, on the antithetic state left behind and on which kind of draw follows.",
    anchors=dict(files=["dal/math/random/pseudorandom.cpp", "dal/math/random/pseudorandom.hpp"],
                 mechanism=["linear recurrences and jump-ahead by modular matrix powers @ dal/math/random/pseudorandom.cpp MRG32k32a_", "antithetic pairing and draw counting @ dal/math/random/pseudorandom.cpp PseudoRandom_", "shuffled lagged generator @ dal/math/random/pseudorandom.cpp ShuffledIRN_"]),
    level_note="recurrence step, modular products, jump-ahead loop and antithetic bookkeeping by contract, with lemmas on integer matrix powers; the shuffled generator's jump is counted steps after a reset")
OFFS = ["xn", "xn1", "xn2", "yn", "yn1", "yn2", "a", "b"]
DRIVERS = {"r": ('#include "/repo/dal/math/random/pseudorandom.cpp"\nusing namespace Dal;\nPseudoRandom_* Mrg(unsigned a, unsigned b, size_t n, bool p) { return new MRG32k32a_(a, b, n, p); }\n'
                 'PseudoRandom_* Irn(int s, size_t n, bool p) { return new ShuffledIRN_<55, 31, 128>(s, n, p); }\n'
                 + "".join("void* O_%s(void* p) { return (void*)&((MRG32k32a_*)p)->%s_; }\n" % (k, k) for k in OFFS)
                 + "".join("void* P_%s(PseudoRandom_* p) { return (void*)&p->%s_; }\n" % (k, k) for k in ("anti", "skipped", "cache", "precise"))
                 + "".join("void* I_%s(void* p) { return (void*)&((ShuffledIRN_<55, 31, 128>*)p)->%s_; }\n" % (k, k) for k in ("irn", "shuffle", "irl", "seed"))
                 + "unsigned long M_size() { return sizeof(MRG32k32a_); }\nunsigned long I_size() { return sizeof(ShuffledIRN_<55, 31, 128>); }\n",
                 [r"MRG32", r"ShuffledIRN", r"PseudoRandom_", r"^[OPIM]_", "^Mrg", "^Irn"], ["-Xclang", "-fno-access-control"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: both generator types, random seeds, dimensions 1 to 7, random histories of uniform and normal draws and jumps, against a recurrence evaluated independently in 128-bit integers; antithetic pairing, range of the uniforms, clones and disjointness of separately simulated batches"
ASSUMPTIONS = ["doubles as real numbers (the recurrences' intermediate values are integers below 2^53, where doubles are exact)", "path number times dimension below 2^62"]
SOURCES = ["storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp", "math/specialfunctions.cpp", "math/interp/interp.cpp", "math/interp/interpcubic.cpp", "time/dateutils.cpp", "time/datetimeutils.cpp", "platform/host.cpp"]
M1, M2 = 4294967087, 4294944443
A12, A13, A21, A23 = 1403580, 810728, 527612, 1370589
ACO = {1: [[0, A12, -A13], [1, 0, 0], [0, 1, 0]], 2: [[A21, 0, -A23], [1, 0, 0], [0, 1, 0]]}
MOD = {1: M1, 2: M2}
I_ = z3.IntSort()
PW = {f: [[z3.Function("power%d_%d%d" % (f, j, k), I_, I_) for k in range(3)] for j in range(3)] for f in (1, 2)}
PV = {f: [z3.Function("state%d_%d" % (f, j), I_, I_, I_, I_, I_) for j in range(3)] for f in (1, 2)}
R3 = range(3)


def probe(c, rx, *a):
    q = c.ex.quiet
    c.ex.quiet = 1
    try:
        rs = c.ex.run_function(c.fname(rx), c.st.fork(), list(a))
    finally:
        c.ex.quiet = q
    return rs[0].val


def off(c, rx):
    p = Ptr(c.ex.new_obj(c.st, "probe", 4096, True).id, 0)
    return probe(c, rx, p).off.c()


def offsets(c):
    return {k: off(c, r"^O_%s\(" % k) for k in OFFS}


def power(f, j, k, e):
    return PW[f][j][k](e)


def step_def(f, e):
    """P(e+1) = A P(e)"""
    return z3.And([power(f, j, k, e + 1) == sum(ACO[f][j][l] * power(f, l, k, e) for l in R3) for j in R3 for k in R3])


def ident(f):
    return z3.And([power(f, j, k, z3.IntVal(0)) == (1 if j == k else 0) for j in R3 for k in R3])


@contract("r")
def power_lemma(c):
    """integer matrix powers add exponents; residues of the states they produce follow the recurrence"""
    c.exec()
    for f in (1, 2):
        e, g = z3.Int("e"), z3.Int("g")
        prod = lambda x, y, j, k: sum(z3.Product(power(f, j, l, x), power(f, l, k, y)) for l in R3)
        s = State()
        s.assume(ident(f))
        c.ensure(s, z3.And([power(f, j, k, g) == prod(z3.IntVal(0), g, j, k) for j in R3 for k in R3]), "P(0+g) = P(0) P(g) [%d]" % f)
        s = State()
        # hypothesis at e, definitions at e and e+g; products named
        s.assume(e >= 0)
        s.assume(step_def(f, e))
        s.assume(step_def(f, e + g))
        s.assume(z3.And([power(f, j, k, e + g) == prod(e, g, j, k) for j in R3 for k in R3]))
        for j in R3:
            for k in R3:
                lhs = sum(ACO[f][j][l] * power(f, l, k, e + g) for l in R3)
                # (A P(e)) P(g), entry by entry, with each factor expanded
                rhs = sum(sum(ACO[f][j][l] * power(f, l, q, e) for l in R3) * power(f, q, k, g) for q in R3)
                c.ensure_by(s, [power(f, l, k, e + g) == prod(e, g, l, k) for l in R3], lhs == rhs,
                            [power(f, j2, k2, x) for j2 in R3 for k2 in R3 for x in (e, g, e + g)], "A P(e+g) = (A P(e)) P(g) [%d,%d%d]" % (f, j, k))
        s2 = State()
        s2.assume(step_def(f, e))
        s2.assume(step_def(f, e + g))
        for j in R3:
            for k in R3:
                lhs = sum(ACO[f][j][l] * power(f, l, k, e + g) for l in R3)
                rhs = sum(sum(ACO[f][j][l] * power(f, l, q, e) for l in R3) * power(f, q, k, g) for q in R3)
                s3 = s2.fork()
                s3.assume(lhs == rhs)
                c.ensure(s3, power(f, j, k, (e + g) + 1) == sum(power(f, j, q, e + 1) * power(f, q, k, g) for q in R3), "P(e+1+g) = P(e+1) P(g) [%d,%d%d]" % (f, j, k))
        # residues
        m = MOD[f]
        s = State()
        L, K, R, H = [[[z3.Int("%s%d%d" % (n, j, k)) for k in R3] for j in R3] for n in "LKRH"]
        for j in R3:
            for k in R3:
                w = sum(K[j][l] * R[l][k] + (L[j][l] - m * K[j][l]) * H[l][k] for l in R3)
                c.ensure(s, sum(L[j][l] * R[l][k] for l in R3) == sum((L[j][l] - m * K[j][l]) * (R[l][k] - m * H[l][k]) for l in R3) + m * w, "a product of residues is the residue of the product [%d,%d%d]" % (f, j, k))
        # state P(e) r, reduced: one more step of the recurrence
        r = [z3.Int("r%d" % l) for l in R3]
        t = [[z3.Int("t%d%d" % (j, l)) for l in R3] for j in R3]       # t_jl = P(e)_jl r_l
        S = [sum(t[j]) for j in R3]
        for j in R3:
            # distributivity: (A P(e)) r = A (P(e) r), a polynomial identity
            p = [[z3.Int("p%d%d" % (a, b)) for b in R3] for a in R3]
            c.ensure(State(), sum(sum(ACO[f][j][l] * p[l][q] for l in R3) * r[q] for q in R3) == sum(ACO[f][j][l] * sum(p[l][q] * r[q] for q in R3) for l in R3), "(A P) r = A (P r) [%d,%d]" % (f, j))
            u = [z3.Int("u%d" % l) for l in R3]
            c.ensure(State(), sum(ACO[f][j][l] * u[l] for l in R3) % m == sum(ACO[f][j][l] * (u[l] % m) for l in R3) % m, "reducing before a step changes nothing [%d,%d]" % (f, j))


@contract("r")
def step(c):
    """one draw: both recurrences advance, the state stays reduced, the uniform lies strictly inside (0, 1)"""
    c.exec()
    o = offsets(c)
    v = {k: c.int(k, 0, 2 ** 32 - 1) for k in ("xn", "xn1", "xn2", "yn", "yn1", "yn2")}
    this = c.obj("this", {o[k]: ("f64", z3.ToReal(Z(v[k]))) for k in v}, 256)
    x = (A12 * Z(v["xn1"]) - A13 * Z(v["xn2"])) % M1
    y = (A21 * Z(v["yn"]) - A23 * Z(v["yn2"])) % M2

    def post(st, u):
        g = lambda k: rz(c.ex.load(st, this.shift(o[k]), "f64"))
        u = rz(u)
        den = z3.RealVal(M1 + 1)
        return [("first recurrence", g("xn") == z3.ToReal(x)), ("second recurrence", g("yn") == z3.ToReal(y)),
                ("history moves on", z3.And(g("xn1") == z3.ToReal(Z(v["xn"])), g("xn2") == z3.ToReal(Z(v["xn1"])), g("yn1") == z3.ToReal(Z(v["yn"])), g("yn2") == z3.ToReal(Z(v["yn1"])))),
                ("uniform of the two components", u * den == z3.If(g("xn") > g("yn"), g("xn") - g("yn"), g("xn") - g("yn") + M1)),
                ("strictly between 0 and 1", z3.And(u > 0, u < 1)),
                ("intermediate values are exact doubles", z3.And(A12 * Z(v["xn1"]) < 2 ** 53, A13 * Z(v["xn2"]) < 2 ** 53, A21 * Z(v["yn"]) < 2 ** 53, A23 * Z(v["yn2"]) < 2 ** 53))]
    c.ensure_all(c.call(r"MRG32k32a_::NextUniform", [this]), "draw", post)


def product(rx, cols):
    def f(c):
        for fam in (1, 2):
            m = MOD[fam]
            c.st = State()
            c.exec()
            L = [[c.int("l%d%d" % (j, k), 0, m - 1) for k in R3] for j in R3]
            R = [[c.int("r%d%d" % (j, k), 0, 2 ** 32 - 1 if cols == 1 else m - 1) for k in range(cols)] for j in R3]
            pl = c.obj("lhs", {8 * (3 * j + k): ("i64", L[j][k]) for j in R3 for k in R3}, 72)
            pr = c.obj("rhs", {8 * (cols * j + k): ("i64", R[j][k]) for j in R3 for k in range(cols)}, 24 * cols)
            mod = c.obj("mod", {0: ("i64", Poly.const(m))}, 8)
            for alias in ((None, "lhs", "rhs", "both") if cols == 3 else (None,)):
                if alias == "both":
                    pl2, pr2, out, RR = pl, pl, pl, L
                else:
                    pl2, pr2, RR = pl, pr, R
                    out = {None: c.obj("out%s" % alias, {}, 24 * cols), "lhs": pl, "rhs": pr}[alias]
                rs = c.call(rx, [pl2, pr2, mod, out])

                def post(st, _, RR=RR, out=out):
                    g = []
                    for j in R3:
                        for k in range(cols):
                            t = [z3.Int("t%d" % l) for l in R3]
                            got = Z(c.ex.load(st, out.shift(8 * (cols * j + k)), "i64"))
                            pr_ = [Z(L[j][l].mul(RR[l][k])) for l in R3]
                            g.append(("entry %d%d is the reduced sum of products" % (j, k), got == (pr_[0] + pr_[1] + pr_[2]) % m))
                    return g
                c.ensure_all(rs, "modular product%s" % ("" if alias is None else " written over " + alias), post)
    f.__name__ = "matrix_product" if cols == 3 else "vector_product"
    return f


contract("r")(product(r"MRG32k32a_::MPrd", 3))
contract("r")(product(r"MRG32k32a_::VPrd", 1))


class Ghost:
    """exponents: which power of its recurrence matrix each 3x3 object holds, modulo the recurrence's modulus"""

    def __init__(self, c):
        self.c, self.fam = c, {}
        self.o = None

    def make(self, st):
        g = self.c.ex.new_obj(st, "exponents", 1 << 20, True)
        g.lazy = lambda s_, o_, ty: atom(z3.Int("exponent_at_start_%s" % Z(o_)))
        self.o = g.id

    def at(self, ex, st, p):
        return ex.load(st, Ptr(self.o, 8 * p.obj), "i64")

    def mat(self, ex, st, p):
        ex.quiet += 1
        try:
            return [[ex.load(st, p.shift(8 * (3 * j + k)), "i64") for k in R3] for j in R3]
        finally:
            ex.quiet -= 1

    def start(self, ex, st, oid):
        """0 for an identity matrix, (1, family) for a recurrence matrix, None otherwise"""
        ob = st.heap.get(oid)
        if ob is None or ob.size is None or not ob.size.is_const() or ob.size.c() != 72:
            return None
        try:
            m = self.mat(ex, st, Ptr(oid, 0))
        except Exception:
            return None
        if not all(isinstance(x, Poly) and x.is_const() for r in m for x in r):
            return None
        m = [[x.c() for x in r] for r in m]
        if m == [[1, 0, 0], [0, 1, 0], [0, 0, 1]]:
            return (0, None)
        for f in (1, 2):
            if m == [[x % MOD[f] for x in r] for r in ACO[f]]:
                return (1, f)
        return None

    def family(self, ex, st, p, f, i):
        g = self.fam.setdefault(p.obj, f)
        ex.oblige(st, z3.BoolVal(g == f), "matrices of the two recurrences are not mixed", i, cls="post")

    def init(self, ex, sts, st0):
        """ghost code: exponents of the matrices in st0 whose contents are known"""
        out = []
        for oid in sorted(st0.heap):
            k = self.start(ex, st0, oid)
            if k is None:
                continue
            if k[1] is not None:
                self.fam.setdefault(oid, k[1])
            for s in sts:
                f = z3.Int("exponent_at_start_%s" % (8 * oid)) == k[0]
                if not any(f.eq(p) for p in s.pc if z3.is_expr(p)):
                    s.assume(f)
            out.append((oid, k[0]))
        return out


def mod_of(ex, st, p, i):
    v = ex.load(st, p, "i64", i)
    if isinstance(v, Poly) and v.is_const() and v.c() in (M1, M2):
        return 1 if v.c() == M1 else 2
    raise Unsupported("modulus of a product is not one of the recurrences'")


def mprd(g):
    def h(ex, st, a, i, dem):
        f = mod_of(ex, st, a[2], i)
        for p in a[:2]:
            g.family(ex, st, p, f, i)
            for r in g.mat(ex, st, p):
                for x in r:
                    ex.oblige(st, z3.And(Z(x) >= 0, Z(x) < MOD[f]), "precondition of the modular product: reduced entries", i)
        e = g.at(ex, st, a[0]).add(g.at(ex, st, a[1]))
        g.family(ex, st, a[3], f, i)
        for j in R3:
            for k in R3:
                x = z3.Int(fresh_name("prd"))
                st.assume(z3.And(x >= 0, x < MOD[f]))
                ex.store(st, a[3].shift(8 * (3 * j + k)), "i64", P(x), i)
        ex.store(st, Ptr(g.o, 8 * a[3].obj), "i64", e, i)
        return [Result(st, "ret", None)]
    return h


def vprd(g):
    def h(ex, st, a, i, dem):
        f = mod_of(ex, st, a[2], i)
        g.family(ex, st, a[0], f, i)
        for r in g.mat(ex, st, a[0]):
            for x in r:
                ex.oblige(st, z3.And(Z(x) >= 0, Z(x) < MOD[f]), "precondition of the modular product: reduced entries", i)
        r = [ex.load(st, a[1].shift(8 * l), "i64", i) for l in R3]
        for x in r:
            ex.oblige(st, z3.And(Z(x) >= 0, Z(x) < 2 ** 32), "precondition of the modular product: state below 2^32", i)
        e = g.at(ex, st, a[0])
        for j in R3:
            t = PV[f][j](Z(e), *[Z(x) for x in r])
            st.assume(z3.And(t >= 0, t < MOD[f]))
            ex.store(st, a[3].shift(8 * j), "i64", P(t), i)
        return [Result(st, "ret", None)]
    return h


@contract("r")
def jump(c):
    """after jumping over N points the state is the N-th power of each recurrence applied to the seed"""
    g = Ghost(c)
    N = z3.Int("N")

    def inv(ctx):
        ms = g.init(ctx.ex, [ctx.st, ctx.st0], ctx.st0)
        out = []
        for b, _ in ms:
            for r in g.mat(ctx.ex, ctx.st, Ptr(b, 0)):
                for k, x in enumerate(r):
                    for m in (M1, M2):
                        out.append(("matrix %d reduced modulo %d [%d]" % (b, m, len(out)), z3.And(Z(x) >= 0, Z(x) < m)))
        for v in ctx.ints():
            if not z3.simplify(Z(v["entry"])).eq(N):
                continue
            out.append(("%s: points still to pass" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= N)))
            for b, e0 in ms:
                for q, e1 in ms:
                    if e0 == 0 and e1 == 1:
                        eb, eq = g.at(ctx.ex, ctx.st, Ptr(b, 0)), g.at(ctx.ex, ctx.st, Ptr(q, 0))
                        out.append(("%s: exponents %d %d add up" % (v["name"], b, q), Z(eb.add(eq.mul(v["cur"]))) == N))
        return out
    c.exec([(re.compile(r"MRG32k32a_::MPrd"), mprd(g)), (re.compile(r"MRG32k32a_::VPrd"), vprd(g))], [("SkipPoints", inv)])
    o = offsets(c)
    g.make(c.st)
    n = c.int("N", 0, 2 ** 62)
    a, b = c.int("a", 0, 2 ** 32 - 1), c.int("b", 0, 2 ** 32 - 1)
    this = c.obj("this", {**{o[k]: ("f64", c.real("any_" + k)) for k in o if k not in "ab"}, o["a"]: ("f64", z3.ToReal(Z(a))), o["b"]: ("f64", z3.ToReal(Z(b)))}, 256)

    def post(st, _):
        r = []
        for f, nm, s in ((1, "x", a), (2, "y", b)):
            for j, k in enumerate(("n", "n1", "n2")):
                r.append(("component %s%s" % (nm, k), rz(c.ex.load(st, this.shift(o[nm + k]), "f64")) == z3.ToReal(PV[f][j](N, Z(s), Z(s), Z(s)))))
        return r
    c.ensure_all(c.call(r"MRG32k32a_::SkipPoints", [this, n]), "jump", post)


@contract("r")
def reset(c):
    """the constructor and a reset put the seed in every component"""
    c.exec()
    o = offsets(c)
    a, b = c.real("a"), c.real("b")
    this = c.obj("this", {**{o[k]: ("f64", c.real("any_" + k)) for k in o if k not in "ab"}, o["a"]: ("f64", a), o["b"]: ("f64", b)}, 256)
    c.ensure_all(c.call(r"MRG32k32a_::Reset", [this]), "reset", lambda st, _: [(k, rz(c.ex.load(st, this.shift(o[k]), "f64")) == (a if k[0] == "x" else b)) for k in o if k not in "ab"])


# ---------------------------------------------------------------- counting draws
UNI = z3.Function("uniform", I_, z3.RealSort())
INV = z3.Function("inverse_normal", z3.RealSort(), z3.RealSort())


class World:
    """a generator built by the real constructor; its next value is uniform(pos) with pos in a ghost cell
    (contracts `step` and `jump`: drawing advances the position, jumping over n points sets it to n)"""

    def __init__(self, c, invariants=(), make="^Mrg"):
        self.c = c

        def nxt(ex, st, a, i, dem):
            p = self.pos(st)
            ex.store(st, self.g, "i64", p.add(Poly.const(1)), i)
            u = UNI(Z(p))
            st.assume(z3.And(u > 0, u < 1))
            return [Result(st, "ret", u)]

        def skip(ex, st, a, i, dem):
            ex.store(st, self.g, "i64", P(a[1]), i)
            return [Result(st, "ret", None)]

        def inv(ex, st, a, i, dem):
            for k in (1, 2):
                b = a[k] if isinstance(a[k], bool) else as_bool(a[k])
                ex.oblige(st, b == self.precise if z3.is_expr(b) else self.precise == z3.BoolVal(b), "the normals have the precision asked for", i, cls="post")
            return [Result(st, "ret", INV(rz(a[0])))]
        c.exec([(re.compile(r"::NextUniform\("), nxt), (re.compile(r"::SkipPoints\("), skip), (re.compile(r"Dal::InverseNCDF"), inv)], invariants)
        d = self.d = c.int("dim", 1, 10 ** 6)
        self.precise = c.bool("precise")
        args = [c.int("a", 0, 2 ** 32 - 1), c.int("b", 0, 2 ** 32 - 1), d, self.precise] if make == "^Mrg" else [c.int("seed", -2 ** 31, 2 ** 31 - 1), d, self.precise]
        rs = c.call(make, args)
        c.st = rs[0].st
        for r in rs:
            c.ensure(r.st, r.kind == "ret", "construction does not fail")
        self.this = rs[0].val
        st = c.st = State()
        st.heap, st.globals = rs[0].st.heap, rs[0].st.globals
        st.assume(z3.And(Z(d) >= 1, Z(d) <= 10 ** 6))
        self.o = {k: off(c, r"^P_%s\(" % k) for k in ("anti", "skipped", "cache", "precise")}
        self.g = c.obj("position", {0: ("i64", atom(z3.Int("pos0")))}, 8)
        self.cd, self.cache = c.array("cache", d)
        for k in (0, 8, 16):
            c.ex.store(st, self.this.shift(self.o["cache"] + k), "ptr", self.cd if k == 0 else self.cd.shift(d.scale(8)))
        self.dh, self.dd, self.df = c.vector("devs", d)

    def pos(self, st):
        return self.c.ex.load(st, self.g, "i64")

    def setpos(self, p):
        self.c.ex.store(self.c.st, self.g, "i64", p)

    def set(self, k, ty, v):
        self.c.ex.store(self.c.st, self.this.shift(self.o[k]), ty, v)

    def get(self, st, k, ty):
        return self.c.ex.load(st, self.this.shift(self.o[k]), ty)

    def elems(self, st, p, what, f):
        """goal: element k of the array at p is f(k), for every k below the dimension"""
        k = atom(z3.Int(fresh_name("k")))
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < Z(self.d)))
        self.c.ensure(s, rz(elem(self.c.ex, s, p, k)) == f(k), what)


def fills(w):
    """loop invariant: every element before the index is what the draw at that index produced"""
    def inv(ctx):
        out = []
        p0 = Z(ctx.ex.load(ctx.st0, w.g, "i64"))
        for v in ctx.ints():
            i = v["cur"]
            if v.get("ptr") is not None:
                pass
            out.append(("%s: one draw each" % v["name"], Z(w.pos(ctx.st)) == p0 + Z(i)))
            for oid, key in ctx.arrays:
                if key != (0, "f64"):
                    continue
                for nm, f in (("drawn", lambda k: UNI(p0 + Z(k))), ("mirrored", lambda k: 1 - rz(w.cache(k))), ("normal", lambda k: INV(UNI(p0 + Z(k))))):
                    out.append(("%s: elements of %s before are %s" % (v["name"], oid, nm), All(lambda k, i=i, f=f, oid=oid, key=key: z3.Implies(z3.And(Z(k) >= 0, Z(k) < Z(i)), rz(ctx.cur(oid, key, k)) == f(k)))))
        return out
    return inv


@contract("r")
def uniform_paths(c):
    """path 2h draws fresh points from position h*dim, path 2h+1 mirrors them; a draw moves to the next path"""
    for odd in (False, True):
        box = []
        c.st = State()
        w = World(c, [("FillUniform", lambda ctx: fills(box[0])(ctx))])
        box.append(w)
        h = c.int("h", 0, 2 ** 40)
        base = h.mul(w.d)
        w.setpos(base.add(w.d) if odd else base)
        w.set("anti", "i8", Poly.const(int(odd)))
        w.set("skipped", "i64", c.int("skipped", 0, 2 ** 62))
        if odd:
            c.st.schemas.append(Schema("cache", [uf("cache", 1, "f64")], lambda k: z3.Implies(z3.And(k >= 0, k < Z(w.d)), uf("cache", 1, "f64")(k) == UNI(Z(base) + k))))
        for r in c.call(r"PseudoRandom_::FillUniform", [w.this, w.dh]):
            if r.kind != "ret":
                c.ensure(r.st, False, "drawing uniforms does not fail")
                continue
            st = r.st
            c.ensure(st, Z(w.pos(st)) == Z(base.add(w.d)), "position after path %s" % ("2h+1" if odd else "2h"))
            c.ensure(st, Z(w.get(st, "anti", "i8")) == int(not odd), "next path is the other one of the pair")
            c.ensure(st, Z(w.get(st, "skipped", "i64")) == 0, "no jump is pending after a draw")
            if odd:
                w.elems(st, w.dd, "path 2h+1 mirrors path 2h", lambda k: 1 - UNI(Z(base) + Z(k)))
            else:
                w.elems(st, w.dd, "path 2h is drawn", lambda k: UNI(Z(base) + Z(k)))
                w.elems(st, w.cd, "path 2h is remembered", lambda k: UNI(Z(base) + Z(k)))


@contract("r")
def normal_paths(c):
    """normal path q transforms the points from position q*dim, also right after a jump to path q"""
    for jump_ in (False, True):
        box = []
        c.st = State()
        w = World(c, [("FillNormal|Fill<", lambda ctx: fills(box[0])(ctx))])
        box.append(w)
        q = c.int("q", 1 if jump_ else 0, 2 ** 40)
        base = q.mul(w.d)
        c.assume(Z(base) <= 2 ** 62)
        if jump_:
            w.set("skipped", "i64", q)
        else:
            w.setpos(base)
            w.set("skipped", "i64", Poly.const(0))
        for r in c.call(r"PseudoRandom_::FillNormal", [w.this, w.dh]):
            if r.kind != "ret":
                c.ensure(r.st, False, "drawing normals does not fail")
                continue
            st = r.st
            c.ensure(st, Z(w.pos(st)) == Z(base.add(w.d)), "position after path q")
            c.ensure(st, Z(w.get(st, "skipped", "i64")) == 0, "no jump is pending after a draw")
            w.elems(st, w.dd, "path q is the transform of its own points", lambda k: INV(UNI(Z(base) + Z(k))))


@contract("r")
def jump_to_path(c):
    """a jump to path p, from any state, puts the uniforms at path p and marks p paths as passed for the normals"""
    for odd in (False, True):
        for was in (0, 1):
            box = []
            c.st = State()
            w = World(c, [("SkipTo", lambda ctx: fills(box[0])(ctx))])
            box.append(w)
            h = c.int("h", 0, 2 ** 40)
            base = h.mul(w.d)
            c.assume(Z(base) <= 2 ** 61)
            p = h.scale(2).add(Poly.const(int(odd)))
            w.set("anti", "i8", Poly.const(was))
            w.set("skipped", "i64", c.int("skipped", 0, 2 ** 62))
            for r in c.call(r"PseudoRandom_::SkipTo", [w.this, p]):
                if r.kind != "ret":
                    c.ensure(r.st, False, "jumping does not fail")
                    continue
                st = r.st
                c.ensure(st, Z(w.pos(st)) == Z(base.add(w.d) if odd else base), "position of uniform path %s" % ("2h+1" if odd else "2h"))
                c.ensure(st, Z(w.get(st, "anti", "i8")) == int(odd), "which one of the pair is next")
                c.ensure(st, Z(w.get(st, "skipped", "i64")) == Z(p), "paths passed for the normals")
                if odd:
                    w.elems(st, w.cd, "path 2h is remembered", lambda k: UNI(Z(base) + Z(k)))


@contract("r")
def fresh(c):
    """a new generator stands at path 0 with nothing drawn or passed"""
    w = World(c)
    rs = c.call("^Mrg", [c.int("a", 0, 2 ** 32 - 1), c.int("b", 0, 2 ** 32 - 1), w.d, w.precise])

    def post(st, v):
        g = lambda k, ty: c.ex.load(st, v.shift(w.o[k]), ty)
        n, _ = c.vec_view(st, v.shift(w.o["cache"]))
        return [("path 0", z3.And(Z(g("anti", "i8")) == 0, Z(g("skipped", "i64")) == 0)), ("dimension", Z(n) == Z(w.d)), ("precision", (Z(g("precise", "i8")) == 1) == w.precise)]
    c.ensure_all(rs, "new generator", post)


@contract("r")
def clones(c):
    """a clone is a new generator with the same seeds, dimension and precision"""
    w = World(c)
    o = offsets(c)
    a, b = c.int("a2", 0, 2 ** 32 - 1), c.int("b2", 0, 2 ** 32 - 1)
    for k, x in (("a", a), ("b", b)):
        c.ex.store(c.st, w.this.shift(o[k]), "f64", z3.ToReal(Z(x)))
    pr = c.int("precise_flag", 0, 1)
    c.assume((Z(pr) == 1) == w.precise)
    w.set("precise", "i8", pr)
    w.set("anti", "i8", Poly.const(1))
    w.set("skipped", "i64", c.int("skipped", 0, 2 ** 62))

    def post(st, v):
        g = lambda k, ty: c.ex.load(st, v.shift(w.o[k]), ty)
        f = lambda k: rz(c.ex.load(st, v.shift(o[k]), "f64"))
        n, _ = c.vec_view(st, v.shift(w.o["cache"]))
        ra, rb = z3.ToReal(Z(a)), z3.ToReal(Z(b))
        return [("another object", v.obj != w.this.obj), ("path 0", z3.And(Z(g("anti", "i8")) == 0, Z(g("skipped", "i64")) == 0)), ("dimension", Z(n) == Z(w.d)), ("precision", (Z(g("precise", "i8")) == 1) == w.precise),
                ("seeds", z3.And(f("a") == ra, f("b") == rb)), ("state is the seed", z3.And([f(k) == (ra if k[0] == "x" else rb) for k in o if k not in "ab"]))]
    c.ensure_all(c.call(r"MRG32k32a_::Clone", [w.this]), "clone", post)


def irn_object(c, irl=None):
    o = {k: off(c, r"^I_%s\(" % k) for k in ("irn", "shuffle", "irl", "seed")}
    this = c.obj("this", {}, 1024)
    fs = {}
    for k, n, top in (("irn", 55, 2 ** 32), ("shuffle", 128, 2 ** 30)):
        p, f = c.array(k, Poly.const(n), "i32")
        d = uf(k, 1, "i32")
        c.st.schemas.append(Schema(k + " entries", [d], lambda j, d=d, n=n, top=top: z3.Implies(z3.And(j >= 0, j < n), z3.And(d(j) >= 0, d(j) < top))))
        for q in (0, 8, 16):
            c.ex.store(c.st, this.shift(o[k] + q), "ptr", p if q == 0 else p.shift(4 * n))
        fs[k] = (p, f)
    i = c.int("irl", 0, 54)
    c.ex.store(c.st, this.shift(o["irl"]), "i32", i)
    return this, o, fs, i


@contract("r")
def irn_step(c):
    """one draw of the shuffled lagged generator: the lagged sum replaces its oldest term, the uniform is taken
    from the shuffle table and lies strictly inside (0, 1)"""
    c.exec()
    this, o, fs, i = irn_object(c)
    pi, fi = fs["irn"]
    ps, fsh = fs["shuffle"]
    j = z3.If(Z(i) == 0, z3.IntVal(54), Z(i) - 1)
    new = (Z(fi(P(j))) + Z(fi(P((j + 31) % 55)))) % 2 ** 30
    k = c.int("k", 0, 54)
    t = c.int("t", 0, 127)

    def post(st, u):
        u = rz(u)
        g = lambda p, q: Z(elem(c.ex, st, p, q, "i32"))
        return [("index moves back one place", Z(c.ex.load(st, this.shift(o["irl"]), "i32")) == j),
                ("the lagged sum replaces the oldest term", g(pi, k) == z3.If(Z(k) == j, new, Z(fi(k)))),
                ("the drawn term goes into the shuffle table", g(ps, t) == z3.If(Z(t) == new % 128, new, Z(fsh(t)))),
                ("the uniform comes from the shuffle table", u * 2 ** 31 == z3.ToReal(2 * Z(fsh(P(new % 128))) + 1)),
                ("strictly between 0 and 1", z3.And(u > 0, u < 1))]
    c.ensure_all(c.call(r"ShuffledIRN_<55, 31, 128>::NextUniform", [this]), "draw", post)


@contract("r")
def irn_jump(c):
    """jumping over N points: the generator is reset, then N points are drawn"""
    pos = []

    def nxt(ex, st, a, i, dem):
        p = ex.load(st, pos[0], "i64")
        ex.oblige(st, Z(p) >= 0, "points are passed only after a reset", i, cls="post")
        ex.store(st, pos[0], "i64", p.add(Poly.const(1)), i)
        return [Result(st, "ret", UNI(Z(p)))]

    def rst(ex, st, a, i, dem):
        ex.store(st, pos[0], "i64", Poly.const(0), i)
        return [Result(st, "ret", None)]
    N = z3.Int("N")

    def inv(ctx):
        p = Z(ctx.ex.load(ctx.st, pos[0], "i64"))
        return [("%s: %s" % (v["name"], nm), f) for v in ctx.ints() for nm, f in (("counts down", z3.And(p + Z(v["cur"]) == N, Z(v["cur"]) >= 0)), ("counts up", z3.And(p == Z(v["cur"]), Z(v["cur"]) <= N)))] + [("reset done", p >= 0)]
    c.exec([(re.compile(r"::NextUniform\("), nxt), (re.compile(r"::Reset\("), rst)], [("SkipPoints", inv)])
    n = c.int("N", 0, 2 ** 62)
    this, o, fs, i = irn_object(c)
    vt = c.obj("vtable", {8 * k: ("ptr", Ptr(("fn", "virtual::NextUniform("), 0)) for k in range(16)}, 128)
    c.ex.store(c.st, this, "ptr", vt)
    pos.append(c.obj("position", {0: ("i64", Poly.const(-1))}, 8))
    c.ensure_all(c.call(r"ShuffledIRN_<55, 31, 128>::SkipPoints", [this, n]), "jump", lambda st, _: Z(c.ex.load(st, pos[0], "i64")) == N)


SEQ = z3.Function("seed_sequence", I_, I_)         # spec: k-th term built from the seed
DRAW = z3.Function("first_draws", I_, I_)          # spec: k-th draw of the lagged generator


def xor_mask(x):
    v = z3.Function("xor32_%d" % 0x1F2E3D4C, I_, I_)(x)
    return z3.If(v >= 2 ** 31, v - 2 ** 32, v)


@contract("r")
def irn_reset(c):
    """a reset rebuilds every term and the whole shuffle table from the seed alone: after it nothing of the
    earlier state is left (terms: each from the one before, first the seed; table: the generator's own draws)"""
    box = []

    def irn(ex, st, a, i, dem):
        p = ex.load(st, box[0], "i64")
        k = atom(z3.Int(fresh_name("k")))
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < 55))
        ex.oblige(s, z3.Implies(Z(p) == 0, Z(elem(ex, s, box[2], k, "i32")) == SEQ(Z(k))), "every term comes from the seed at the first draw", i, cls="post")
        ex.oblige(st, z3.Implies(Z(p) == 0, Z(ex.load(st, a[0].shift(box[1]["irl"]), "i32")) == 0), "index at the start at the first draw", i, cls="post")
        ob = st.own(box[2].obj)
        ob.arrays[(0, tykey("i32"))] = base_array(fresh_name("irn_after"), 1, "i32")
        if ex.writes is not None:
            ex.writes.add((box[2].obj, "arr", (0, tykey("i32")), "i32"))
        j = z3.Int(fresh_name("irl_after"))
        st.assume(z3.And(j >= 0, j < 55))
        ex.store(st, a[0].shift(box[1]["irl"]), "i32", P(j), i)
        ex.store(st, box[0], "i64", p.add(Poly.const(1)), i)
        return [Result(st, "ret", P(DRAW(Z(p))))]

    def inv(ctx):
        out = []
        p = Z(ctx.ex.load(ctx.st, box[0], "i64"))
        out.append(("index until the first draw", z3.Implies(p == 0, Z(ctx.ex.load(ctx.st, box[3].shift(box[1]["irl"]), "i32")) == 0)))
        for oid, key in ctx.arrays:
            if key == (0, tykey("i32")):
                out.append(("terms until the first draw %d" % oid, All(lambda k, oid=oid, key=key: z3.Implies(z3.And(Z(k) >= 0, Z(k) < 55, p == 0), Z(ctx.cur(oid, key, k)) == SEQ(Z(k))), triggers=[SEQ])))
        for v in ctx.ints():
            i = v["cur"]
            out.append(("%s: draws so far" % v["name"], p == Z(i)))
            out.append(("%s: positive" % v["name"], z3.And(Z(i) >= 1, Z(i) <= 55)))
            for oid, key in ctx.arrays:
                if key == (0, tykey("i32")):
                    out.append(("%s: terms of %d" % (v["name"], oid), All(lambda k, i=i, oid=oid, key=key: z3.Implies(z3.And(Z(k) >= 0, Z(k) < Z(i)), Z(ctx.cur(oid, key, k)) == SEQ(Z(k))), triggers=[SEQ])))
                    out.append(("%s: table %d" % (v["name"], oid), All(lambda k, i=i, oid=oid, key=key: z3.Implies(z3.And(Z(k) >= 0, Z(k) < Z(i)), Z(ctx.cur(oid, key, k)) == DRAW(Z(k))))))
        return out
    c.exec([(re.compile(r"ShuffledIRN_<55, 31, 128>::IRN\("), irn)], [("Reset|ShuffledIRN_", inv)], opaque_xor=True)
    this, o, fs, i = irn_object(c)
    seed = c.int("seed", -2 ** 31, 2 ** 31 - 1)
    c.ex.store(c.st, this.shift(o["seed"]), "i32", seed)
    box += [c.obj("draws", {0: ("i64", Poly.const(0))}, 8), o, fs["irn"][0], this]
    mix = lambda x: xor_mask((17 * x) % 2 ** 30)      # 2^30 divides 2^32: wrap-around does not matter
    c.st.schemas.append(Schema("seed sequence", [SEQ], lambda k: z3.And(z3.Implies(k == 0, SEQ(k) == Z(seed)), z3.Implies(k >= 1, SEQ(k) == mix(SEQ(k - 1))))))
    k, t = c.int("k", 0, 54), c.int("t", 0, 127)

    def post(st, _):
        g = lambda p, q: Z(elem(c.ex, st, p, q, "i32"))
        return [("as many draws as the table has places", Z(c.ex.load(st, box[0], "i64")) == 128), ("the table holds the first draws", g(fs["shuffle"][0], t) == DRAW(Z(t)))]
    c.ensure_all(c.call(r"ShuffledIRN_<55, 31, 128>::Reset", [this]), "reset", post)
