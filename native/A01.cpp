#include "base.inc"
#include <dal/math/aad/aad.hpp>
#include "h.hpp"
#include "dual.hpp"
using namespace Dal;
using AAD::Number_;
// arguments x, y, z in (0.2, 3), k a plain number in (0.2, 3)
#define SHAPES \
    S(x + y) S(x - y) S(x * y) S(x / y) S(pow(x, y)) S(max(x, y)) S(min(x, y)) \
    S(exp(x)) S(log(x)) S(sqrt(x)) S(fabs(x - 1.5)) S(NPDF(x)) S(NCDF(x - 1.0)) S(erfc(x - 1.0)) \
    S(x + k) S(k + x) S(x - k) S(k - x) S(x * k) S(k * x) S(x / k) S(k / x) S(pow(x, k)) S(pow(k, x)) \
    S(max(x, k)) S(max(k, x)) S(min(x, k)) S(min(k, x)) S(-x) S(+x) S(x * x) S(x * x * x) S(x + y + z) S(x * y * z) \
    S((x + y) * (y + z)) S((x - y) * z) S(z * (x - y)) S(x * (y * z)) S((x / y) / z) S(x / (y / z)) S(pow(x, y) * pow(y, x)) \
    S(exp(x * y) - log(z / x)) S(sqrt(x * x + y * y)) S(NCDF((log(x / y) + 0.5 * z * z) / z)) S(x * NCDF(y) - k * NCDF(y - z)) \
    S(max(x * y, z) - min(x, y * z)) S(fabs(x - y) * z) S(k / (x + y) - x / (k + z)) S(pow(x + y, z)) S(pow(x, y + z)) S(pow(k, x * y)) \
    S(max(max(x, y), z)) S(min(x, min(y, z))) S(erfc(x * y) / (1.0 + z)) S(NPDF(x - y) * exp(-z)) S(1.0 - (x - (y - (z - k)))) \
    S((x * y + y * z + z * x) / (x + y + z)) S(-(-x) * -(y)) S(+(x - y) + (+z)) S(max(k, x * y) * min(z, k)) S(sqrt(exp(log(x) + log(y))))
#define S(E) template <class T> static T F_(const T& x, const T& y, const T& z, double k, std::integral_constant<int, __COUNTER__ - BASE>) { using std::max; using std::min; return E; }
enum { BASE = __COUNTER__ + 1 };
SHAPES
#undef S
enum { COUNT = __COUNTER__ - BASE };
#define S(E) #E,
static const char* const NAMES[] = {SHAPES};
#undef S
static double Arg() { static const double g[] = {0.5, 1.0, 1.5, 2.0}; return H::R(0, 5) == 0 ? g[H::R(0, 3)] : H::U(0.2, 3); }
// any sign and zero, exact in binary: only where the expression is finite and differentiable
static double Wild() { return H::B() ? (double)H::R(-3, 3) : H::R(-20, 20) / 4.0; }
static bool wild = false;
static bool Big(const Dual& w) { bool b = !(std::fabs((double)w.v) < 1e100); for (int i = 0; i < 3; ++i) b = b || !(std::fabs((double)w.D(i)) < 1e100); return wild && b; }
static void Cmp(const char* what, double got, long double want, const double* a) {
    ++H::evaluations;
    if (!(std::fabs(got - (double)want) <= 1e-9 * std::max(1.0, std::fabs((double)want)))) H::Fail("%s at x=%.17g y=%.17g z=%.17g k=%.17g is %.17g, expected %.17Lg", what, a[0], a[1], a[2], a[3], got, want);
}
static bool Kink(const double* a) {   // stay away from points where an operation has no derivative
    const double x = a[0], y = a[1], z = a[2], k = a[3];
    for (double d : {x - y, y - z, x - z, x - k, y - k, z - k, x * y - z, y * z - x, x * y - k, x - 1.5}) if (std::fabs(d) < 1e-9) return true;
    return false;
}
template <int I> static void Shape(const double* a) {
    AAD::Tape_* t = Number_::Tape();
    t->Clear();
    Number_ x(a[0]), y(a[1]), z(a[2]);
    Number_ r = F_<Number_>(x, y, z, a[3], std::integral_constant<int, I>());
    Dual dx(a[0]), dy(a[1]), dz(a[2]);
    dx.d = {1, 0, 0}; dy.d = {0, 1, 0}; dz.d = {0, 0, 1};
    const Dual w = F_<Dual>(dx, dy, dz, a[3], std::integral_constant<int, I>());
    char b[256];
    snprintf(b, 256, "value of %s", NAMES[I]);
    if (Big(w)) return;
    Cmp(b, r.value(), w.v, a);
    if (Kink(a)) return;
    r.PropagateToStart();
    const double g[3] = {x.Adjoint(), y.Adjoint(), z.Adjoint()};
    for (int i = 0; i < 3; ++i) { snprintf(b, 256, "derivative of %s by %c", NAMES[I], "xyz"[i]); Cmp(b, g[i], w.D(i), a); }
}
template <int... I> static void Shapes(const double* a, std::integer_sequence<int, I...>) { (Shape<I>(a), ...); }
template <class T> static T Prog(T x, const T& y, const T& z, double k, int code) {
    for (int s = 0; s < 4; ++s, code /= 8) switch (code % 8) {
        case 0: x += y; break;
        case 1: x -= y * z; break;
        case 2: x *= y; break;
        case 3: x /= z + y; break;
        case 4: x += k; break;
        case 5: x -= k; break;
        case 6: x *= k; break;
        case 7: x /= k; break;
    }
    return x;
}
static void Compound(const double* a, int code) {
    Number_::Tape()->Clear();
    Number_ x(a[0]), y(a[1]), z(a[2]);
    Number_ r = Prog<Number_>(x, y, z, a[3], code);
    Dual dx(a[0]), dy(a[1]), dz(a[2]);
    dx.d = {1, 0, 0}; dy.d = {0, 1, 0}; dz.d = {0, 0, 1};
    const Dual w = Prog<Dual>(dx, dy, dz, a[3], code);
    if (Big(w)) return;
    Cmp("value after compound assignments", r.value(), w.v, a);
    r.PropagateToStart();
    const double g[3] = {x.Adjoint(), y.Adjoint(), z.Adjoint()};
    for (int i = 0; i < 3; ++i) Cmp("derivative after compound assignments", g[i], w.D(i), a);
    const bool c[18] = {x == y, x != y, x < y, x > y, x <= y, x >= y, x == a[3], x != a[3], x < a[3], x > a[3], x <= a[3], x >= a[3], a[3] == x, a[3] != x, a[3] < x, a[3] > x, a[3] <= x, a[3] >= x};
    const double X = a[0], Y = a[1], K = a[3];
    const bool d[18] = {X == Y, X != Y, X < Y, X > Y, X <= Y, X >= Y, X == K, X != K, X < K, X > K, X <= K, X >= K, K == X, K != X, K < X, K > X, K <= X, K >= X};
    for (int i = 0; i < 18; ++i) if (c[i] != d[i]) H::Fail("comparison %d of %.17g, %.17g, %.17g", i, X, Y, K);
    if (static_cast<double>(x * y) != X * Y) H::Fail("conversion of a product to a plain number");
    Number_ q; q = a[3];
    if (q.value() != K) H::Fail("assignment of a plain number");
}
static void Point(double x, double y, double z, double k) {
    const double a[4] = {x, y, z, k};
    Shapes(a, std::make_integer_sequence<int, COUNT>());
    Compound(a, (int)H::R(0, 4095));
}
void Replay() { Search(); }
void Search() {
    static AAD::Tape_ tape;
    Number_::SetTape(tape);
    while (H::Time()) for (int i = 0; i < 200; ++i) { wild = H::R(0, 3) == 0; if (wild) Point(Wild(), Wild(), Wild(), Wild()); else Point(Arg(), Arg(), Arg(), Arg()); }
}
