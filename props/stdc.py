"""Contracts of the standard algorithms the library's numerical code calls, and helpers for vectors."""
from common import *


def rng(ex, st, b, e, esz=8):
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is not None and b.obj == e.obj):
        raise Unsupported("range over different objects")
    n = e.off.add(b.off, -1).div_exact(esz)
    if n is None:
        raise Unsupported("range length")
    return n


def elem(ex, st, b, k, ty="f64", guard=None):
    """element k of the range starting at b, read in a copy of the state where `guard` holds"""
    s = st.fork()
    if guard is not None:
        try:
            s.assume(guard)
        except Infeasible:
            return None
    ex.quiet += 1
    try:
        return ex.load(s, b.shift(P(k).scale(TYSZ[ty])), ty)
    finally:
        ex.quiet -= 1


def bound(upper, ty="f64"):
    """std::lower_bound / std::upper_bound over a sorted range (proved for the installed library's
    body by the contracts `lower_bound` and `upper_bound` of check I01)"""
    def h(ex, st, a, i, dem):
        b, e = a[0], a[1]
        n = rng(ex, st, b, e, TYSZ[ty])
        x = a[2] if not isinstance(a[2], Ptr) else ex.load(st, a[2], ty, i)
        x = Z(x)
        j = z3.Int(fresh_name("srt"))
        s = st.fork()
        s.assume(z3.And(j >= 0, j + 1 < Z(n)))
        u, v = elem(ex, s, b, atom(j), ty), elem(ex, s, b, atom(j).add(Poly.const(1)), ty)
        ex.oblige(s, Z(u) <= Z(v), "the searched range is sorted", i)
        k = atom(z3.Int(fresh_name("pos")))
        st.assume(z3.And(k.z() >= 0, k.z() <= Z(n)))
        lo = elem(ex, st, b, k.add(Poly.const(-1)), ty, k.z() > 0)
        hi = elem(ex, st, b, k, ty, k.z() < Z(n))
        if lo is not None:
            st.assume(z3.Implies(k.z() > 0, Z(lo) <= x if upper else Z(lo) < x))
        if hi is not None:
            st.assume(z3.Implies(k.z() < Z(n), Z(hi) > x if upper else Z(hi) >= x))
        st.ghost["pos"] = st.ghost.get("pos", ()) + (k,)
        return [Result(st, "ret", b.shift(k.scale(TYSZ[ty])))]
    return h


BOUNDS = [(re.compile(r"std::lower_bound<__gnu_cxx::__normal_iterator<double"), bound(False)), (re.compile(r"std::upper_bound<__gnu_cxx::__normal_iterator<double"), bound(True))]


def sorted_array(c, f, n, strict=False, decl=None, name="sorted"):
    """hypothesis: f is non-decreasing (increasing) on 0..n-1, available pairwise at the indices in play"""
    def rel(a, b):
        return rz(f(P(a))) < rz(f(P(b))) if strict else rz(f(P(a))) <= rz(f(P(b)))
    c.st.schemas.append(Schema(name, [decl], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < Z(n)), rel(i, j)), pairs=True))


def dvec(c, name, n, st=None):
    """Vector_<double> of n elements: header, data pointer, element function, its symbol"""
    h, p, f = c.vector(name, n, "f64", st=st)
    return h, p, f, uf(name, 1, "f64")


def dmat(c, name, rows, cols, st=None, pad=True):
    """Matrix_<double> with `rows` rows of `cols` columns (one padding row, as the class allocates)"""
    st = st or c.st
    ex = c.ex
    a = base_array(name, 2, "f64")
    o = ex.arr_obj(st, name, P(rows).add(Poly.const(1)).mul(P(cols)), 8, {0: ("f64", a)}, rowlen=P(cols))
    data = Ptr(o.id, 0)
    hk = ex.arr_obj(st, name + ".hooks", P(rows), 8, {0: ("ptr", ABase(lambda i: Ptr(o.id, P(i).mul(P(cols)).scale(8))))})
    hp = Ptr(hk.id, 0)
    end = data.shift(P(rows).add(Poly.const(1)).mul(P(cols)).scale(8))
    he = hp.shift(P(rows).scale(8))
    h = c.obj(name + ".mat", {0: ("ptr", NULL), 8: ("ptr", data), 16: ("ptr", end), 24: ("ptr", end), 32: ("i32", P(cols)), 40: ("ptr", hp), 48: ("ptr", he), 56: ("ptr", he)}, 64, st)
    return h, data, (lambda i, j: a.fn(P(i), P(j)))


STRINGS = [(re.compile(r"^(?!.*(Apply|Transform)).*(Dal::String_::|basic_string<|Dal::Storable_::|allocator<char>|char_traits)"), lambda ex, st, a, i, dem: [Result(st, "ret", a[0] if i["t"] == "ptr" and a else (Poly.const(0) if i["t"] != "void" else None))])]


def monotone(strict, rx, two_args=True):
    """IsMonotonic answers exactly whether every neighbouring pair is in order"""
    def f(c):
        c.exec(invariants=[("IsMonotonic", lambda ctx: inv(ctx))])
        n = c.int("n", 0, 10 ** 6)
        h, _, fx, d = dvec(c, "x", n)
        j = c.int("j", 0, 10 ** 6)
        j1 = j.add(Poly.const(1))
        le = (lambda a, b: rz(a) < rz(b)) if strict else (lambda a, b: rz(a) <= rz(b))

        def inv(ctx):
            return [("%s: pairs before are in order" % v["name"], All(lambda k, v=v: z3.Implies(z3.And(Z(k) >= 0, Z(k) + 1 <= Z(v["cur"]), Z(k) + 1 < Z(n)), le(fx(k), fx(k.add(Poly.const(1))))), triggers=[d])) for v in ctx.ints()]
        rs = c.call(rx, [h] + ([c.obj("pred", {}, 1)] if two_args else []))
        allp = z3.Implies(Z(j1) < Z(n), le(fx(j), fx(j1)))
        for r in rs:
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            b = as_bool(r.val)
            if b is not False:
                s = r.st.fork()
                s.assume(b)
                c.ensure(s, allp, "accepted only when every pair is in order")
            if b is not True:
                s = r.st.fork()
                s.assume(bnot(b))
                s.schemas = s.schemas + [Schema("all pairs in order", [d], lambda i: z3.Implies(z3.And(i >= 0, i + 1 < Z(n)), le(fx(P(i)), fx(P(i + 1)))))]
                c.ensure(s, False, "rejected only when some pair is out of order")
    f.__name__ = "monotone"
    return f


def growing(ty="f64", cpp="double", cap=10 ** 9):
    """std::vector growth (trusted library): storage with room for everything appended; appending writes
    the element behind the last one and moves the end"""
    esz = TYSZ[ty]
    V = r"std::vector<%s, std::allocator<%s>>::" % (cpp, cpp)

    def alloc(ex, st, this, n, val, i):
        b = ABase(lambda k: val)
        o = ex.arr_obj(st, fresh_name("grown"), Poly.const(cap), esz, {0: (ty, b)})
        p = Ptr(o.id, 0)
        ex.store(st, this, "ptr", p, i)
        ex.store(st, this.shift(8), "ptr", p.shift(P(n).scale(esz)), i)
        ex.store(st, this.shift(16), "ptr", p.shift(cap * esz), i)

    def fill(ex, st, a, i, dem):
        alloc(ex, st, a[0], a[1], ex.load(st, a[2], ty, i), i)
        return [Result(st, "ret", None)]

    def empty(ex, st, a, i, dem):
        alloc(ex, st, a[0], Poly.const(0), Fraction(0) if ty == "f64" else Poly.const(0), i)
        return [Result(st, "ret", None)]

    def push(ex, st, a, i, dem):
        e = ex.load(st, a[0].shift(8), "ptr", i)
        ex.store(st, e, ty, ex.load(st, a[1], ty, i), i)
        ex.store(st, a[0].shift(8), "ptr", e.shift(esz), i)
        return [Result(st, "ret", e)]
    return [(re.compile(V + r"vector\(unsigned long, %s const&, " % cpp), fill), (re.compile(V + r"vector\(\)"), empty), (re.compile(V + r"(push_back|emplace_back(<.*>)?)\("), push),
            (re.compile(V + r"~vector\(\)"), lambda ex, st, a, i, dem: [Result(st, "ret", None)])]


def resized(ty="f64", cpp="double"):
    """std::vector::resize (trusted library): the requested length; contents kept when the length is
    already right, otherwise unspecified here"""
    esz = TYSZ[ty]

    def h(ex, st, a, i, dem):
        b, e = ex.load(st, a[0], "ptr", i), ex.load(st, a[0].shift(8), "ptr", i)
        n = P(a[1])
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is not None and b.obj == e.obj:
            if ex.entails(st, Z(e.off) - Z(b.off) == esz * Z(n)):
                return [Result(st, "ret", None)]
        nm = fresh_name("resized")
        o = ex.arr_obj(st, nm, n, esz, {0: (ty, base_array(nm, 1, ty))})
        p = Ptr(o.id, 0)
        ex.store(st, a[0], "ptr", p, i)
        for w in (8, 16):
            ex.store(st, a[0].shift(w), "ptr", p.shift(n.scale(esz)), i)
        return [Result(st, "ret", None)]
    return [(re.compile(r"std::vector<%s, std::allocator<%s>>::resize\(unsigned long\)" % (cpp, cpp)), h)]


def split2(o, p):
    """row and column polynomials of an element index of a two-dimensional object (product form)"""
    (mono,) = o.rowlen.m.keys()
    a = mono[0]
    q, r = {}, {}
    for mm, cc in p.m.items():
        if a in mm:
            l = list(mm)
            l.remove(a)
            q[tuple(l)] = cc
        else:
            r[mm] = cc
    return Poly(q), Poly(r)


def dot(sums):
    """std::inner_product (body proved by `inner_product_*`): the initial value plus the sum of products,
    expressed as a difference of the prefix sums S(line, k) that the caller names.
    sums(ex, st, first index, line, col?) -> [(S, u(k), v(k))]; the element sequences must equal u and v"""
    def h(ex, st, a, i, dem):
        n = rng(ex, st, a[0], a[1])
        lo = a[0].off.div_exact(8)
        col = len(a) > 4
        init = a[-1]
        b2 = a[2]
        o = st.heap[b2.obj]
        if o.rowlen is None:
            raise Unsupported("inner product over other than a matrix line")
        r, q = split2(o, b2.off.div_exact(8))
        line, start = (q, r) if col else (r, q)
        step = P(a[3]) if col else one_
        S, u, v = sums(ex, st, a[0].obj, line, col)
        k = atom(z3.Int(fresh_name("dot")))
        s = st.fork()
        try:
            s.assume(z3.And(Z(k) >= 0, Z(k) < Z(n)))
        except Infeasible:
            return [Result(st, "ret", init)]
        ex.oblige(st, z3.Implies(Z(n) > 0, Z(start) == Z(lo)), "the two sequences of an inner product start at the same index", i)
        e1 = ex.load(s, a[0].shift(k.scale(8)), "f64", i)
        e2 = ex.load(s, b2.shift(k.mul(step).scale(8)), "f64", i)
        x = lo.add(k)
        ex.oblige(s, z3.And(rz(e1) == u(x), rz(e2) == v(x)), "the sequences of an inner product are the ones specified", i)
        return [Result(st, "ret", rz(init) + z3.If(Z(n) > 0, S(Z(line), Z(lo.add(n))) - S(Z(line), Z(lo)), z3.RealVal(0)))]
    return [(re.compile(r"std::inner_product<"), h)]


one_ = Poly.const(1)
