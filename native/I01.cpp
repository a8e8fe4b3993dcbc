#include "base.inc"
#include "/repo/dal/math/interp/interp.cpp"
#include "/repo/dal/math/interp/interp2d.cpp"
#include "h.hpp"
#include <algorithm>
using namespace Dal;
typedef std::vector<double> V;
static Vector_<> W(const V& v) { return Vector_<>(v.begin(), v.end()); }
static std::string Show(const V& v) { std::string s; for (double d : v) { char b[32]; snprintf(b, 32, " %.17g", d); s += b; } return s; }
// all acceptable values at q: the chord, or the knot value within the snap distance
static bool Ok1(const V& x, const V& y, double q, double got) {
    const size_t n = x.size();
    double sc = 0;
    for (double d : y) sc = std::max(sc, std::fabs(d));
    if (q < x[0]) return got == y[0];
    if (q > x[n - 1]) return got == y[n - 1];
    size_t k = 0;
    while (x[k] < q) ++k;
    if (x[k] == q) return got == y[k];
    const long double c = y[k - 1] + (y[k] - (long double)y[k - 1]) * ((q - (long double)x[k - 1]) / (x[k] - (long double)x[k - 1]));
    if (x[k] - q < 1e-13 && got == y[k]) return true;
    return std::fabs((double)(c - got)) <= 1e-9 * std::max(1.0, sc);
}
static void One(const V& x, const V& y, const V& qs) {
    std::unique_ptr<Interp1_> f;
    bool threw = false;
    try { f.reset(Interp::NewLinear("f", W(x), W(y))); } catch (std::exception&) { threw = true; }
    bool mono = true;
    for (size_t i = 1; i < x.size(); ++i) mono = mono && x[i - 1] <= x[i];
    ++H::evaluations;
    if (threw != !(mono && x.size() == y.size())) H::Fail("construction %s for x =%s, %d values", threw ? "rejected" : "accepted", Show(x).c_str(), (int)y.size());
    if (threw) return;
    for (double q : qs) {
        ++H::evaluations;
        const double v = (*f)(q);
        if (!Ok1(x, y, q, v)) H::Fail("linear interpolation of x =%s, f =%s at %.17g gives %.17g", Show(x).c_str(), Show(y).c_str(), q, v);
    }
}
static V Grid(int n) {
    V x;
    const int st = (int)H::R(0, 3);
    double c = H::Val(5);
    for (int i = 0; i < n; ++i) { x.push_back(c); c += st == 0 ? 1.0 : st == 1 ? H::U(0, 2) : st == 2 ? (H::R(0, 3) ? H::U(0, 1e-3) : 0.0) : (double)H::R(0, 2); }
    return x;
}
static V Queries(const V& x) {
    V q = {x.front() - 1, x.front() - 1e-9, x.back() + 1e-9, x.back() + 3, x.front() - 1e6, x.back() + 1e6};
    for (size_t i = 0; i < x.size(); ++i) {
        q.push_back(x[i]); q.push_back(std::nextafter(x[i], 1e300)); q.push_back(std::nextafter(x[i], -1e300)); q.push_back(x[i] + 1e-10); q.push_back(x[i] - 1e-10);
        if (i) { q.push_back(0.5 * (x[i] + x[i - 1])); q.push_back(x[i - 1] + H::U(0, 1) * (x[i] - x[i - 1])); }
    }
    return q;
}
static void Two(const V& x, const V& y) {
    const int n = (int)x.size(), m = (int)y.size();
    Matrix_<> f(n, m);
    std::vector<V> g(n, V(m));
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) f(i, j) = g[i][j] = H::Val(10);
    std::unique_ptr<Interp2_> p(Interp::NewLinear2("g", W(x), W(y), f));
    const V qx = Queries(x), qy = Queries(y);
    for (int k = 0; k < 300; ++k) {
        const double a = qx[H::R(0, qx.size() - 1)], b = qy[H::R(0, qy.size() - 1)];
        const double v = (*p)(a, b);
        ++H::evaluations;
        auto row = [&](int i) { return InterpLinearImplX<double>(W(y), W(g[i]), b); };
        for (int i = 0; i < n; ++i) if (!Ok1(y, g[i], b, row(i))) H::Fail("row interpolation");
        double want, sc = 1;
        for (auto& r : g) for (double d : r) sc = std::max(sc, std::fabs(d));
        if (a < x[0]) want = row(0);
        else if (a >= x[n - 1]) want = row(n - 1);
        else { int i = 0; while (!(x[i] <= a && a < x[i + 1])) ++i; const long double t = (a - (long double)x[i]) / (x[i + 1] - (long double)x[i]); want = (double)(row(i) + (row(i + 1) - (long double)row(i)) * t); }
        if (std::fabs(want - v) > 1e-9 * sc) H::Fail("2-d interpolation at (%.17g, %.17g) on x =%s, y =%s gives %.17g, expected %.17g", a, b, Show(x).c_str(), Show(y).c_str(), v, want);
    }
    for (int k = 0; k < 5; ++k) {      // a grid of another shape, or any axis with two values exchanged
        const int r = n + (k == 1) - (k == 2 && n > 1), c = m + (k == 3) - (k == 4 && m > 1);
        Matrix_<> h(r, c);
        V u = x, z = y;
        if (k == 0) { V& w = H::B() ? u : z; std::swap(w[H::R(0, w.size() - 1)], w[H::R(0, w.size() - 1)]); }
        const bool ok = r == n && c == m && std::is_sorted(u.begin(), u.end()) && std::is_sorted(z.begin(), z.end());
        bool threw = false;
        try { std::unique_ptr<Interp2_> t(Interp::NewLinear2("g", W(u), W(z), h)); } catch (std::exception&) { threw = true; }
        ++H::evaluations;
        if (threw == ok) H::Fail("2-d interpolator %s x =%s, y =%s with a grid of %d x %d", threw ? "refused" : "accepted", Show(u).c_str(), Show(z).c_str(), r, c);
    }
}
void Replay() {
    const V x = H::V("x"), y = H::V("y");
    if (!x.empty() && x.size() == y.size()) { V q = Queries(x); q.push_back(H::D("x0")); One(x, y, q); }
    const V f = H::V("f");
    for (int k = 0; k < 200; ++k) { const V a = Grid((int)H::R(1, 6)); Two(a, Grid((int)H::R(1, 6))); }
}
void Search() {
    while (H::Time()) for (int k = 0; k < 50; ++k) {
        V x = Grid((int)H::R(1, H::R(0, 20) ? 7 : 200));
        V y;
        for (double d : x) y.push_back(H::Val(10));
        One(x, y, Queries(x));
        if (x.size() > 1 && H::R(0, 4) == 0) { const size_t i = H::R(0, x.size() - 1), j = H::R(0, x.size() - 1); std::swap(x[i], x[j]); One(x, y, Queries(x)); }
        if (H::R(0, 4) == 0) { y.push_back(1); One(x, y, {}); y.pop_back(); y.pop_back(); One(x, y, {}); }
        const V a = Grid((int)H::R(1, 6));
        Two(a, Grid((int)H::R(1, 6)));
    }
}
