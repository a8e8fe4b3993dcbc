from stdc import *
from builtins_ import UF1 as UFS
ID = "B01"
META = dict(
    title="Closed-form option prices, Greeks and implied volatilities agree",
    statement="Lognormal and normal-model option prices satisfy put-call parity, a straddle costs a call plus a put, and at zero volatility every option is worth its payout. The reported delta and vega are the derivatives of the price, whether asked for directly or through a distribution object. An implied volatility, when one is returned, reprices the option to within 1e-10 of max(1, price) or is pinned to a bracket of relative width 1e-10, and a price below the payout is refused.",
    quantifier=dict(over=["inputs"], text="every forward, strike, deviation, option type, price and starting guess"),
    why_tests_cant="Tests compare one forward, strike and volatility of order one; a wrong sign in one option type's branch, a tolerance scaled by the wrong quantity or a mishandled forward or strike needs other regions.",
    anchors=dict(files=["dal/math/distribution/black.hpp", "dal/math/distribution/black.cpp", "dal/math/analytics/vanilla.hpp", "dal/math/analytics/vanilla.cpp", "dal/math/specialfunctions.cpp", "dal/protocol/optiontype.hpp"],
                 mechanism=["prices @ dal/math/distribution/black.hpp BlackOpt, BachelierOpt", "sensitivities @ dal/math/distribution/black.cpp BlackGreeks, BachelierGreeks", "implied volatility @ dal/math/distribution/black.cpp BlackIV, BachelierIV", "payout @ dal/protocol/optiontype.hpp Payout"]),
    level_note="prices, parity, Greeks (against the price template instantiated with derivative-carrying values) and the acceptance rule of implied volatilities by contract; that the search succeeds on attainable prices only by the bounded stand-in")
DRIVERS = {"b": ("""#include <dal/platform/platform.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/rootfind.cpp>
#include <dal/math/distribution/black.cpp>
#include <dal/math/analytics/vanilla.cpp>
namespace Dal {
struct Dual_ { double v, d; Dual_(double x) : v(x), d(0) {} Dual_(double x, double y) : v(x), d(y) {} };
inline Dual_ operator+(const Dual_& a, const Dual_& b) { return Dual_(a.v + b.v, a.d + b.d); }
inline Dual_ operator-(const Dual_& a, const Dual_& b) { return Dual_(a.v - b.v, a.d - b.d); }
inline Dual_ operator-(const Dual_& a) { return Dual_(-a.v, -a.d); }
inline Dual_ operator*(const Dual_& a, const Dual_& b) { return Dual_(a.v * b.v, a.d * b.v + a.v * b.d); }
inline Dual_ operator/(const Dual_& a, const Dual_& b) { return Dual_(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline bool operator<(const Dual_& a, const Dual_& b) { return a.v < b.v; }
inline bool operator>(const Dual_& a, const Dual_& b) { return a.v > b.v; }
inline Dual_ max(const Dual_& a, const Dual_& b) { return a.v < b.v ? b : a; }
inline Dual_ max(double a, const Dual_& b) { return a < b.v ? b : Dual_(a); }
inline Dual_ fabs(const Dual_& a) { return a.v < 0 ? -a : a; }
inline Dual_ log(const Dual_& a) { return Dual_(std::log(a.v), a.d / a.v); }
inline Dual_ exp(const Dual_& a) { const double e = std::exp(a.v); return Dual_(e, e * a.d); }
inline Dual_ NCDF(const Dual_& a) { return Dual_(NCDF(a.v), NPDF(a.v) * a.d); }
inline Dual_ NPDF(const Dual_& a) { const double n = NPDF(a.v); return Dual_(n, -a.v * n * a.d); }
inline bool IsZero(const Dual_& a) { return IsZero(a.v); }
inline bool IsPositive(const Dual_& a) { return IsPositive(a.v); }
double Black(double f, double v, double k, const OptionType_& t) { return Distribution::BlackOpt<double>(f, v, k, t); }
double Normal(double f, double v, double k, const OptionType_& t) { return Distribution::BachelierOpt<double>(f, v, k, t); }
void BlackD(double f, double df, double v, double dv, double k, const OptionType_& t, double* o) { const Dual_ r = Distribution::BlackOpt<Dual_>(Dual_(f, df), Dual_(v, dv), Dual_(k), t); o[0] = r.v; o[1] = r.d; }
void NormalD(double f, double df, double v, double dv, double k, const OptionType_& t, double* o) { const Dual_ r = Distribution::BachelierOpt<Dual_>(Dual_(f, df), Dual_(v, dv), Dual_(k), t); o[0] = r.v; o[1] = r.d; }
double Pay(double s, double k, const OptionType_& t) { return t.Payout(s, k); }
double Density(double z) { return NPDF(z); }
double DistPrice(const DistributionBlack_& m, double k, const OptionType_& t) { return m.DistributionBlack_::OptionPrice(k, t); }
double DistPriceN(const DistributionBachelier_& m, double k, const OptionType_& t) { return m.DistributionBachelier_::OptionPrice(k, t); }
double DistVega(const DistributionBlack_& m, double k, const OptionType_& t) { return m.DistributionBlack_::VolVega(k, t); }
double DistVegaN(const DistributionBachelier_& m, double k, const OptionType_& t) { return m.DistributionBachelier_::VolVega(k, t); }
void MakeB(DistributionBlack_* p, double f, double v) { new (p) DistributionBlack_(f, v); }
void MakeN(DistributionBachelier_* p, double f, double v) { new (p) DistributionBachelier_(f, v); }
double BS(double s, double k, double v, double t) { return AAD::BlackScholes<double>(s, k, v, t); }
double BN(double s, double k, double v, double t) { return AAD::Bachelier<double>(s, k, v, t); }
int T_call() { return (int)OptionType_::Value_::CALL; }
int T_put() { return (int)OptionType_::Value_::PUT; }
int T_straddle() { return (int)OptionType_::Value_::STRADDLE; }
}
""", [r"^Dal::(Black|Normal|BlackD|NormalD|Pay|Density|Dist\w+|Make[BN]|BS|BN|T_\w+)\(", r"^Dal::Distribution::(BlackIV|BachelierIV|BlackGreeks|BachelierGreeks)", r"^Dal::AAD::(BlackScholes|Bachelier)IVol"]),
           "n": ("#include <dal/platform/platform.hpp>\n#include <dal/math/specialfunctions.cpp>\n", [r"^Dal::NCDF"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random forwards, strikes, deviations and types over ten orders of magnitude: formulas from erfc, parity, straddles, zero volatility, Greeks against an independent derivative, implied volatilities of attainable prices with and without guesses"
ASSUMPTIONS = ["doubles as real numbers", "erfc(x) + erfc(-x) = 2; exp(a + b) = exp(a) exp(b); exp(log x) = x", "the derivative of the normal distribution function is its density (whose cut at 10 deviations and 12-digit constant are not modelled)", "Greeks: forward, strike and deviation positive (lognormal), deviation positive (normal)", "the root search returns arbitrary trials (P01 says which)"]
SOURCES = None
NATIVE_FLAGS = ["-Wl,--defsym=_ZN3Dal8NewSobolEimb=0", "-pthread"]
RR = z3.RealSort()
NC, NP = z3.Function("ncdf", RR, RR), z3.Function("npdf", RR, RR)
RET = lambda st, v=None: [Result(st, "ret", v)]
R = lambda rx, h: (re.compile(rx), h)
TYPES = ("call", "put", "straddle")


def ncdf(ex, st, a, i, dem):
    ex.oblige(st, as_bool(a[1]), "the exact distribution function is used", i)
    x = rz(a[0])
    st.assume(NC(x) + NC(-x) == 1)
    return RET(st, NC(x))


def npdf(ex, st, a, i, dem):
    x = rz(a[0])
    st.assume(NP(x) == NP(-x))
    return RET(st, NP(x))


N = [R(r"^Dal::NCDF\(double", ncdf), R(r"^Dal::NPDF\(double", npdf)] + STRINGS


def probe(c, rx, *a):
    q = c.ex.quiet
    c.ex.quiet = 1
    try:
        return c.ex.run_function(c.fname(rx), c.st.fork(), list(a))[0].val
    finally:
        c.ex.quiet = q


def otype(c, k):
    return c.obj("type", {0: ("i8", Poly.const(P(probe(c, r"^Dal::T_%s" % k)).c()))}, 1)


def payout(k, f, s):
    d = f - s
    return {"call": z3.If(d > 0, d, 0), "put": z3.If(d < 0, -d, 0), "straddle": z3.If(d < 0, -d, d)}[k]


@contract("b")
def payouts(c):
    """Payout of each type"""
    for k in TYPES:
        c.st = State()
        c.exec(N)
        s, x = c.real("spot"), c.real("strike")
        c.ensure_all(c.call("^Dal::Pay", [s, x, otype(c, k)]), k, lambda st, v, k=k: rz(v) == payout(k, s, x))


def prices(c, rx):
    out = {}
    base = State()
    for k in TYPES:
        c.st = State()
        c.exec(N)
        f, v, s = c.real("fwd"), c.real("vol"), c.real("strike")
        out[k] = c.call(rx, [f, v, s, otype(c, k)])
    return f, v, s, out


EPS2 = Fraction(2e-14)


@contract("b")
def lognormal_prices(c):
    """BlackOpt: the formula for each type; payout at zero deviation or without a logarithm"""
    f, v, s, out = prices(c, "^Dal::Black")
    L = UFS["log"]
    dm = L(f / s) / v - v / 2
    dp = dm + v
    want = {"call": f * NC(dp) - s * NC(dm), "put": s * NC(-dm) - f * NC(-dp), "straddle": f * (NC(dp) - NC(-dp)) + s * (NC(-dm) - NC(dm))}
    e = z3.RealVal(str(EPS2))
    for k in TYPES:
        c.ensure_all(out[k], k, lambda st, r, k=k: [("payout at zero deviation", z3.Implies(v == 0, rz(r) == payout(k, f, s))), ("payout when forward or strike is not positive", z3.Implies(z3.Or(f * s <= 0), rz(r) == payout(k, f, s))),
                                                    ("formula", z3.Implies(z3.And(v > e, f * s > e), rz(r) == want[k]))])


@contract("b")
def normal_prices(c):
    """BachelierOpt: the formula for each type, for any sign of forward and strike"""
    f, v, s, out = prices(c, "^Dal::Normal")
    d = (f - s) / v
    want = {"call": (f - s) * NC(d) + v * NP(d), "put": (s - f) * NC(-d) + v * NP(d), "straddle": (f - s) * (NC(d) - NC(-d)) + 2 * v * NP(d)}
    e = z3.RealVal(str(EPS2))
    for k in TYPES:
        c.ensure_all(out[k], k, lambda st, r, k=k: [("payout at zero deviation", z3.Implies(v == 0, rz(r) == payout(k, f, s))), ("formula", z3.Implies(v > e, rz(r) == want[k]))])


@contract("b")
def parity(c):
    """from the formulas: call - put = forward - strike, straddle = call + put (also for the payouts)"""
    c.exec()
    f, s, v, P1, M1, Q1, Q2, n, d = z3.Reals("fwd strike vol ncdf_dp ncdf_dm ncdf_mdp ncdf_mdm npdf diff")
    st = State()
    st.assume(z3.And(P1 + Q1 == 1, M1 + Q2 == 1))
    C, Pu, S = f * P1 - s * M1, s * Q2 - f * Q1, f * (P1 - Q1) + s * (Q2 - M1)
    sub = [(Q1, 1 - P1), (Q2, 1 - M1)]
    c.ensure(st, z3.substitute(C - Pu == f - s, *sub), "lognormal parity")
    c.ensure(st, S == C + Pu, "lognormal straddle")
    C, Pu, S = (f - s) * P1 + v * n, (s - f) * Q1 + v * n, (f - s) * (P1 - Q1) + 2 * v * n
    c.ensure(st, z3.substitute(C - Pu == f - s, *sub), "normal parity")
    c.ensure(st, S == C + Pu, "normal straddle")
    c.ensure(State(), z3.And(payout("call", f, s) - payout("put", f, s) == f - s, payout("straddle", f, s) == payout("call", f, s) + payout("put", f, s)), "payouts")


@contract("n")
def distribution_function(c):
    """NCDF: symmetric, from the symmetry of erfc"""
    E = UFS["erfc"] if "erfc" in UFS else z3.Function("erfc", RR, RR)
    c.exec([R(r"^erfc$|^std::erfc", lambda ex, st, a, i, dem: RET(st, E(rz(a[0]))))] + STRINGS)
    z = c.real("z")
    a = c.call(r"^Dal::NCDF", [z, True])
    b = c.call(r"^Dal::NCDF", [-z, True])
    for r in a:
        for q in b:
            s = r.st.fork()
            for p in q.st.pc:
                s.assume(p)
            x = z3.Real("x")
            y = z / z3.RealVal(str(Fraction(1.4142135623730951)))
            s.assume(E(y) + E(-y) == 2)
            c.ensure(s, z3.Implies(z3.BoolVal(True), rz(r.val) + rz(q.val) == 1), "symmetric")
            c.ensure(s, z3.Implies(z == 0, rz(r.val) == z3.RealVal("1/2")), "one half at zero")


@contract("b")
def density(c):
    """NPDF: exp(-z^2/2) over the root of two pi within ten deviations; the ratio of the densities at the two points of
    the lognormal formula is strike over forward"""
    c.exec(STRINGS)
    E, L = UFS["exp"], UFS["log"]
    z = c.real("z")
    k = z3.RealVal(str(Fraction(2.506628274631)))
    c.ensure_all(c.call("^Dal::Density", [z]), "density", lambda st, v: z3.If(z3.And(z >= -10, z <= 10), rz(v) * k == E(-z * z / 2), rz(v) == 0))
    f, s, v, q, dm, dp, l = z3.Reals("fwd strike vol q dm dp l")
    st = State()
    st.assume(z3.And(f > 0, s > 0, v > 0, l == L(f / s), q * v == l, dm == q - v / 2, dp == dm + v))
    c.lemma(st, -dm * dm / 2 == -dp * dp / 2 + l, "exponents differ by the logarithm")
    x = z3.Real("x")
    g = State()
    g.assume(z3.And(f > 0, s > 0, l == L(f / s), E(L(f / s)) == f / s, E(-dp * dp / 2 + l) == E(-dp * dp / 2) * E(l), -dm * dm / 2 == -dp * dp / 2 + l))
    c.ensure(g, s * E(-dm * dm / 2) == f * E(-dp * dp / 2), "forward times one density is strike times the other")


def greeks(c, rx, rxd, lognormal):
    """delta and vega against the price template run with derivatives"""
    e = z3.RealVal(str(EPS2))
    for k in TYPES:
        c.st = State()
        G = growing()
        c.exec(N + G)
        f, v, s = c.real("fwd"), c.real("vol"), c.real("strike")
        c.assume(z3.And(v > e, f > 0, s > 0, f * s > e) if lognormal else v > e)
        out = c.obj("out", {0: ("ptr", Ptr(None, 0)), 8: ("ptr", Ptr(None, 0)), 16: ("ptr", Ptr(None, 0))}, 24)
        gs = c.call(rx, [out, f, v, s, otype(c, k)])
        res = []
        for df, dv in ((1, 0), (0, 1)):
            o = c.obj("dual", {0: ("f64", c.real("u1")), 8: ("f64", c.real("u2"))}, 16)
            res.append((o, c.call(rxd, [f, Fraction(df), v, Fraction(dv), s, otype(c, k), o])))
        L = UFS["log"]
        dm = L(f / s) / v - v / 2
        dp = dm + v
        d = (f - s) / v
        for g in gs:
            if g.kind != "ret":
                c.ensure(g.st, False, "no throw")
                continue
            n, val = c.vec_view(g.st, out)
            c.ensure(g.st, Z(n) == 2, "%s: two numbers" % k)
            for w, (o, rs) in enumerate(res):
                for r in rs:
                    if r.kind != "ret":
                        c.ensure(r.st, False, "no throw")
                        continue
                    st = g.st.fork()
                    for p in r.st.pc:
                        st.assume(p)
                    have, want = rz(val(Poly.const(w))), rz(c.ex.load(r.st, o.shift(8), "f64"))
                    pv = rz(c.ex.load(r.st, o, "f64"))
                    A, B = (NP(dp), NP(dm)) if lognormal else (NP(d), NP(d))
                    if lognormal:
                        st.assume(z3.And(f * NP(dp) == s * NP(dm), NP(dp) == NP(-dp), NP(dm) == NP(-dm), NC(dp) + NC(-dp) == 1, NC(dm) + NC(-dm) == 1))
                    else:
                        st.assume(z3.And(NP(d) == NP(-d), NC(d) + NC(-d) == 1))
                    c.ensure(st, have == want, "%s: %s is the derivative of the price" % (k, ("delta", "vega")[w]))
    return


@contract("b")
def lognormal_greeks(c):
    greeks(c, r"^Dal::Distribution::BlackGreeks", r"^Dal::BlackD", True)


@contract("b")
def normal_greeks(c):
    greeks(c, r"^Dal::Distribution::BachelierGreeks", r"^Dal::NormalD", False)


I_ = z3.IntSort()
BO = {"Black": z3.Function("black_price", RR, RR, RR, I_, RR), "Bachelier": z3.Function("normal_price", RR, RR, RR, I_, RR)}
IV = {"Black": z3.Function("black_iv", RR, RR, RR, I_, RR), "Bachelier": z3.Function("normal_iv", RR, RR, RR, I_, RR)}


def priced(ex, st, a, i, dem):
    f, v, s = [rz(ex.load(st, x, "f64", i)) for x in a[:3]]
    k = ex.load(st, a[3], "i8", i)
    return RET(st, BO["Black" if "BlackOpt" in dem else "Bachelier"](f, v, s, Z(k)))


PRICED = [R(r"Distribution::(BlackOpt|BachelierOpt)<double>", priced)]


def implied(c, which):
    for k in TYPES:
        c.st = State()
        log = {}

        def nextx(ex, st, a, i, dem):
            x = z3.Real(fresh_name("trial"))
            ex.store(st, g, "f64", x, i)
            return RET(st, x)

        def put(ex, st, a, i, dem):
            ex.store(st, g.shift(8), "f64", rz(a[1]), i)
            return RET(st)

        def width(ex, st, a, i, dem):
            w = z3.Real(fresh_name("width"))
            ex.store(st, g.shift(16), "f64", w, i)
            return RET(st, w)

        def made(ex, st, a, i, dem):
            ex.store(st, g.shift(24), "f64", rz(a[1]), i)
            return None
        c.exec([R(r"Dal::Brent_::NextX", nextx), R(r"Dal::Brent_::PutY", put), R(r"Dal::Brent_::BracketWidth", width)] + PRICED + N, [("IV", lambda ctx: [("%s counts up" % v["name"], Z(v["cur"]) >= 0) for v in ctx.ints()])])
        g = c.obj("ghost", {0: ("f64", c.real("x_last")), 8: ("f64", c.real("y_last")), 16: ("f64", c.real("w_last")), 24: ("f64", c.real("x_start"))}, 32)
        f, s, p, gu = c.real("fwd"), c.real("strike"), c.real("price"), c.real("guess")
        t = otype(c, k)
        code = Z(c.ex.load(c.st, t, "i8"))
        tol = z3.RealVal(str(Fraction(1e-10)))
        E = UFS["exp"]

        def post(st, v, k=k, code=code):
            v = rz(v)
            x, y, w = [rz(c.ex.load(st, g.shift(o), "f64")) for o in (0, 8, 16)]
            err = BO[which](f, v, s, code) - p
            return [("the volatility tried", v == E(x)), ("its residual was reported", y == err),
                    ("reprices, or pinned down", z3.Or(z3.And(err < tol * z3.If(p > 1, p, 1), -err < tol * z3.If(p > 1, p, 1)), w < tol)), ("not for a price below the payout", p >= payout(k, f, s))]
        c.ensure_all(c.call(r"^Dal::Distribution::%sIV" % which, [f, s, t, p, gu]), "%s %s" % (which, k), post, throws=lambda st: z3.BoolVal(True))


@contract("b")
def lognormal_implied(c):
    implied(c, "Black")


@contract("b")
def normal_implied(c):
    implied(c, "Bachelier")


@contract("b")
def wrappers(c):
    """distribution objects and the spot formulas pass the right arguments on"""
    def gk(ex, st, a, i, dem):
        which = "Black" if "BlackGreeks" in dem else "Bachelier"
        o = ex.arr_obj(st, fresh_name("greeks"), 2, 8, {0: ("f64", ABase(lambda q: GK[which](rz(a[1]), rz(a[2]), rz(a[3]), Z(P(q)))))})
        for w, n in ((0, 0), (8, 16), (16, 16)):
            ex.store(st, a[0].shift(w), "ptr", Ptr(o.id, n), i)
        return RET(st)
    GK = {"Black": z3.Function("bg", RR, RR, RR, I_, RR), "Bachelier": z3.Function("ng", RR, RR, RR, I_, RR)}

    def iv(ex, st, a, i, dem):
        which = "Black" if "BlackIV" in dem else "Bachelier"
        return RET(st, IV[which](rz(a[0]), rz(a[1]), rz(a[3]), Z(ex.load(st, a[2], "i8", i))))

    def named(ex, st, a, i, dem):
        ex.store(st, a[0], "i8", Poly.const(P(probe(c, "^Dal::T_call")).c()), i)
        return RET(st)
    H = PRICED + [R(r"Distribution::(BlackGreeks|BachelierGreeks)", gk), R(r"Distribution::(BlackIV|BachelierIV)\(double", iv), R(r"OptionType_::OptionType_\(Dal::String_ const&", named),
                  R(r"__cxa_guard_acquire", lambda ex, st, a, i, dem: RET(st, one)), R(r"__cxa_guard_release", lambda ex, st, a, i, dem: RET(st)), R(r"std::vector<double, std::allocator<double>>::~vector", lambda ex, st, a, i, dem: RET(st))] + STRINGS
    one = Poly.const(1)
    SQ = UFS["sqrt"]
    for which, mk, pr, vg in (("Black", "MakeB", "DistPrice", "DistVega"), ("Bachelier", "MakeN", "DistPriceN", "DistVegaN")):
        for k in TYPES:
            c.st = State()
            c.exec(H)
            f, v, s = c.real("fwd"), c.real("vol"), c.real("strike")
            m = c.obj("dist", {0: ("i64", Poly.const(0))}, 64)
            r = c.ex.run_function(c.fname(r"^Dal::%s\(" % mk), c.st, [m, f, v])
            c.st = r[0].st
            t = otype(c, k)
            code = Z(c.ex.load(c.st, t, "i8"))
            c.ensure_all(c.call(r"^Dal::%s\(" % pr, [m, s, t]), "%s object price" % which, lambda st, x: rz(x) == BO[which](f, v, s, code))
            c.ensure_all(c.call(r"^Dal::%s\(" % vg, [m, s, t]), "%s object vega" % which, lambda st, x: rz(x) == v * GK[which](f, v, s, 1))
        c.st = State()
        c.exec(H)
        f, v, s, T = c.real("spot"), c.real("vol"), c.real("strike"), c.real("mat")
        c.assume(T > 0)
        code = Z(Poly.const(P(probe(c, "^Dal::T_call")).c()))
        c.ensure_all(c.call(r"^Dal::%s\(" % ("BS" if which == "Black" else "BN"), [f, s, v, T]), "%s spot price" % which, lambda st, x: rz(x) == BO[which](f, v * SQ(T), s, code))
        p = c.real("premium")
        c.st.assume(SQ(T) > 0)
        c.ensure_all(c.call(r"^Dal::AAD::%sIVol" % ("BlackScholes" if which == "Black" else "Bachelier"), [f, s, p, T]), "%s spot volatility" % which, lambda st, x: rz(x) * SQ(T) == IV[which](f, s, p, code))
