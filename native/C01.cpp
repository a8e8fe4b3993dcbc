#include "base.inc"
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/ycimp.hpp>
#include "h.hpp"
using namespace Dal;
static Date_ Dt(long serial) { static const Date_ z(1990, 1, 1); return z.AddDays((int)serial); }
static std::vector<long> Knots() {
    std::vector<long> k;
    const long n = H::R(1, H::B() ? 4 : 12);
    long d = H::R(0, 40);
    for (long i = 0; i < n; ++i) { k.push_back(d); d += H::R(0, 3) == 0 ? 1 : H::R(1, 40); }
    return k;
}
static std::vector<long> Queries(const std::vector<long>& k) {
    std::vector<long> q = {-1, 0, k.back() + 50};
    for (long x : k) for (long e = -1; e <= 1; ++e) q.push_back(x + e);
    for (int i = 0; i < 6; ++i) q.push_back(H::R(-3, k.back() + 30));
    return q;
}
static void Eq(const char* what, double got, long double want, const std::vector<long>& k, long q) {
    ++H::evaluations;
    if (!(std::fabs(got - (double)want) <= 1e-9 * std::max(1.0, std::fabs((double)want)))) {
        std::string s;
        for (long x : k) s += std::to_string(x) + " ";
        H::Fail("%s at day %ld is %.17g, expected %.17Lg (knots at days %s)", what, q, got, want, s.c_str());
    }
}
// reference areas: sums over the parts of [a, b] between consecutive knots
static long double AreaC(const std::vector<long>& k, const std::vector<double>& f, long to) {
    long double a = 0;
    for (size_t i = 0; i < k.size(); ++i) { const long e = i + 1 < k.size() ? std::min(to, k[i + 1]) : to; if (e > k[i]) a += (long double)(e - k[i]) * f[i]; }
    return a;
}
static long double ValL(const std::vector<long>& k, const std::vector<double>& l, const std::vector<double>& r, long d, bool right) {
    for (size_t i = 0; i < k.size(); ++i) if (k[i] == d) return right ? r[i] : l[i];
    if (d < k.front()) return l.front();
    if (d > k.back()) return r.back();
    size_t i = 0;
    while (k[i + 1] < d) ++i;
    return r[i] + ((long double)l[i + 1] - r[i]) * (d - k[i]) / (k[i + 1] - k[i]);
}
static long double AreaL(const std::vector<long>& k, const std::vector<double>& l, const std::vector<double>& r, long to) {
    if (to <= k.front()) return -(long double)(k.front() - to) * l.front();
    long double a = 0;
    for (size_t i = 0; i < k.size(); ++i) {
        const long e = i + 1 < k.size() ? std::min(to, k[i + 1]) : to;
        if (e > k[i]) a += (long double)(e - k[i]) * (r[i] + ValL(k, l, r, e, false)) / 2;
    }
    return a;
}
static std::vector<double> Vals(size_t n) { std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(H::Val(1) * (H::B() ? 1 : 0.05)); return v; }
static Vector_<> V(const std::vector<double>& v) { return Vector_<>(v.begin(), v.end()); }
static Vector_<Date_> DV(const std::vector<long>& k) { Vector_<Date_> r; for (long x : k) r.push_back(Dt(x)); return r; }
static void Constant() {
    const auto k = Knots();
    auto f = Vals(k.size());
    PiecewiseConstant_ c(DV(k), V(f));
    for (int round = 0; round < 2; ++round) {
        for (long q : Queries(k)) {
            bool on = false, is = std::find(k.begin(), k.end(), q) != k.end();
            Eq("piecewise constant area", c.IntegralTo(Dt(q)), AreaC(k, f, q), k, q);
            long double w = 0;
            for (size_t i = 0; i < k.size(); ++i) if (k[i] <= q) w = f[i];
            Eq("piecewise constant value", PWC::F(c, Dt(q), &on), w, k, q);
            Eq("piecewise constant value", PWC::F(c, Dt(q)), w, k, q);
            if (on != is) H::Fail("day %ld %s reported as a knot", q, on ? "wrongly" : "not");
            const long p = H::R(-3, q + 5);
            Eq("piecewise constant area between dates", PWC::Integral(c, Dt(p), Dt(q)), AreaC(k, f, q) - AreaC(k, f, p), k, q);
        }
        f = Vals(k.size());
        c.fRight_ = V(f);
        c.Update();
    }
}
static double Bnd(double x) { return std::max(-2.0, std::min(2.0, x)); }
static void Linear() {
    const auto k = Knots(), kb = Knots();
    auto l = Vals(k.size()), r = Vals(k.size());
    for (auto& x : l) x = Bnd(x);
    for (auto& x : r) x = Bnd(x);
    auto lb = Vals(kb.size()), rb = Vals(kb.size());
    for (auto& x : lb) x = Bnd(x);
    for (auto& x : rb) x = Bnd(x);
    PiecewiseLinear_ c(DV(k), V(l), V(r));
    Handle_<DiscountCurve_> base(NewDiscountPWLF("b", PiecewiseLinear_(DV(kb), V(lb), V(rb))));
    Handle_<DiscountCurve_> dc(NewDiscountPWLF("d", c)), db(NewDiscountPWLF("e", c, base));
    const auto qs = Queries(k);
    for (long q : qs) {
        Eq("piecewise linear area", c.IntegralTo(Dt(q)), AreaL(k, l, r, q), k, q);
        Eq("piecewise linear value", c.ValueAt(Dt(q)), ValL(k, l, r, q, true), k, q);
        Eq("piecewise linear value from the left", c.ValueAt(Dt(q), false), ValL(k, l, r, q, false), k, q);
        const long p = qs[H::R(0, (long)qs.size() - 1)], m = H::R(-3, k.back() + 20);
        const long double own = expl(-(AreaL(k, l, r, q) - AreaL(k, l, r, p)) / 365), bs = expl(-(AreaL(kb, lb, rb, q) - AreaL(kb, lb, rb, p)) / 365);
        Eq("discount factor", (*dc)(Dt(p), Dt(q)), own, k, q);
        Eq("discount factor over a base", (*db)(Dt(p), Dt(q)), own * bs, k, q);
        Eq("product of adjoining discount factors", (*db)(Dt(p), Dt(m)) * (*db)(Dt(m), Dt(q)), own * bs, k, q);
    }
    for (size_t i = 0; i < l.size(); ++i) { l[i] = H::U(-1, 1); r[i] = H::U(-1, 1); }
    c.fLeft_ = V(l); c.fRight_ = V(r); c.Update();
    for (long q : qs) Eq("piecewise linear area after an update", c.IntegralTo(Dt(q)), AreaL(k, l, r, q), k, q);
}
void Replay() { Search(); }
void Search() {
    while (H::Time()) for (int i = 0; i < 50; ++i) { Constant(); Linear(); }
}
