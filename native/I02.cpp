#include "base.inc"
#include "/repo/dal/math/interp/interp.cpp"
#include "/repo/dal/math/interp/interpcubic.cpp"
#include "h.hpp"
using namespace Dal;
typedef std::vector<double> V;
typedef long double L;
static Vector_<> W(const V& v) { return Vector_<>(v.begin(), v.end()); }
static std::string Show(const V& v) { std::string s; for (double d : v) { char b[32]; snprintf(b, 32, " %.17g", d); s += b; } return s; }
// reference: full linear system for the second derivatives, solved by dense elimination
static std::vector<L> Solve(const V& x, const V& y, int lo, double lv, int ro, double rv) {
    const int n = (int)x.size();
    std::vector<std::vector<L>> a(n, std::vector<L>(n + 1, 0.0L));
    auto h = [&](int i) { return (L)x[i + 1] - x[i]; };
    auto s = [&](int i) { return ((L)y[i + 1] - y[i]) / h(i); };
    for (int i = 1; i + 1 < n; ++i) { a[i][i - 1] = h(i - 1); a[i][i] = 2 * (h(i - 1) + h(i)); a[i][i + 1] = h(i); a[i][n] = 6 * (s(i) - s(i - 1)); }
    if (lo == 1) { a[0][0] = 2 * h(0); a[0][1] = h(0); a[0][n] = 6 * (s(0) - lv); }
    if (lo == 2) { a[0][0] = 1; a[0][n] = lv; }
    if (lo == 3) { a[0][0] = -1; a[0][1] = 1; a[0][n] = h(0) * lv; }
    const int m = n - 1;
    if (ro == 1) { a[m][m - 1] = h(m - 1); a[m][m] = 2 * h(m - 1); a[m][n] = 6 * (rv - s(m - 1)); }
    if (ro == 2) { a[m][m] = 1; a[m][n] = rv; }
    if (ro == 3) { a[m][m] = 1; a[m][m - 1] = -1; a[m][n] = h(m - 1) * rv; }
    for (int i = 0; i < n; ++i) {
        int p = i;
        for (int k = i; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k;
        std::swap(a[i], a[p]);
        for (int k = 0; k < n; ++k) if (k != i && a[k][i] != 0) { const L f = a[k][i] / a[i][i]; for (int q = i; q <= n; ++q) a[k][q] -= f * a[i][q]; }
    }
    std::vector<L> r(n);
    for (int i = 0; i < n; ++i) r[i] = a[i][n] / a[i][i];
    return r;
}
static void One(const V& x, const V& y, int lo, double lv, int ro, double rv) {
    const int n = (int)x.size();
    std::unique_ptr<Interp1_> f;
    bool threw = false, mono = true;
    try { f.reset(Interp::NewCubic("f", W(x), W(y), Interp::Boundary_(lo, lv), Interp::Boundary_(ro, rv))); } catch (std::exception&) { threw = true; }
    for (int i = 1; i < n; ++i) mono = mono && x[i - 1] < x[i];
    ++H::evaluations;
    const bool good = mono && n >= 3 && x.size() == y.size() && lo >= 1 && lo <= 3 && ro >= 1 && ro <= 3;
    if (threw == good) H::Fail("spline construction %s for x =%s, %d values, boundary orders %d, %d", threw ? "rejected" : "accepted", Show(x).c_str(), (int)y.size(), lo, ro);
    if (threw) return;
    for (int i = 0; i < n; ++i) if ((*f)(x[i]) != y[i]) H::Fail("spline misses knot %d (%.17g): %.17g instead of %.17g", i, x[i], (*f)(x[i]), y[i]);
    const std::vector<L> M = Solve(x, y, lo, lv, ro, rv);
    L sc = 1;
    for (int i = 0; i < n; ++i) sc = std::max({sc, std::fabs((L)y[i]), std::fabs(M[i]) * (i ? ((L)x[i] - x[i - 1]) * ((L)x[i] - x[i - 1]) : 1.0L)});
    for (int i = 0; i + 1 < n; ++i) {
        const L h = (L)x[i + 1] - x[i];
        for (double t : {0.25, 0.5, H::U(0, 1), 0.999, -1.0, -0.1, 1.1, 2.5}) {
            if (t < 0 && i > 0 || t > 1 && i + 2 < n) continue;
            const double q = (double)(x[i] + t * h);
            if (!(t < 0 ? q < x[0] : t > 1 ? q > x[n - 1] : q > x[i] && q < x[i + 1])) continue;
            const L b = ((L)q - x[i]) / h, a = 1 - b;
            const L want = a * y[i] + b * y[i + 1] + ((a * a * a - a) * M[i] + (b * b * b - b) * M[i + 1]) * h * h / 6;
            const double got = (*f)(q);
            ++H::evaluations;
            if (std::fabs((double)(got - want)) > 1e-8 * (double)sc * (t < 0 || t > 1 ? 30 : 1)) H::Fail("spline through x =%s, y =%s with boundary %d: %.17g and %d: %.17g gives %.17g at %.17g, the smooth spline is %.17Lg", Show(x).c_str(), Show(y).c_str(), lo, lv, ro, rv, got, q, want);
            if (f->IsInBounds(q) != (q >= x[0] && q <= x[n - 1])) H::Fail("IsInBounds(%.17g)", q);
        }
    }
    if (!f->IsInBounds(x[0]) || !f->IsInBounds(x[n - 1])) H::Fail("end knots reported out of bounds");
}
static V Grid(int n) {
    V x;
    double c = H::Val(5);
    const int st = (int)H::R(0, 2);
    for (int i = 0; i < n; ++i) { x.push_back(c); c += st == 0 ? 1.0 : st == 1 ? H::U(0.05, 2) : (H::R(0, 2) ? H::U(0.5, 1) : H::U(0.01, 5)); }
    return x;
}
void Replay() {
    const V x = H::V("x"), y = H::V("y");
    int lo = (int)H::I("lo", 2), ro = (int)H::I("ro", 2);
    if (H::contract.rfind("spline_", 0) == 0) { lo = H::contract[7] - '0'; ro = H::contract[9] - '0'; }
    if (x.size() >= 3 && x.size() == y.size()) One(x, y, lo, H::D("left_value"), ro, H::D("right_value"));
    Search();
}
void Search() {
    while (H::Time()) for (int k = 0; k < 20; ++k) {
        V x = Grid((int)H::R(2, H::R(0, 20) ? 7 : 60)), y;
        for (double d : x) y.push_back(H::Val(10));
        One(x, y, (int)H::R(1, 3), H::Val(5), (int)H::R(1, 3), H::Val(5));
        const int lo = (int)H::R(1, 3), ro = (int)H::R(1, 3);
        if (k == 0) { One(x, y, (int)H::R(-1, 5), 1, ro, 0); One(x, y, lo, 1, (int)H::R(-1, 5), 0); }
        if (k == 1) { V z = x; std::swap(z[0], z[1]); One(z, y, lo, 0, ro, 0); z = x; z[1] = z[0]; One(z, y, lo, 0, ro, 0); z = x; z[z.size() - 2] = z.back(); One(z, y, lo, 0, ro, 0); }
        if (k == 2) { V z = y; z.push_back(1); One(x, z, lo, 0, ro, 0); z.pop_back(); z.pop_back(); One(x, z, lo, 0, ro, 0); }
    }
    One({}, {}, 2, 0, 2, 0); One({1}, {1}, 2, 0, 2, 0); One({1, 2}, {1, 2}, 2, 0, 2, 0);
}
