// forward-mode numbers: the independent reference for derivatives
#pragma once
#include <cmath>
#include <vector>
struct Dual {
    long double v;
    std::vector<long double> d;
    Dual(double x = 0) : v(x) {}
    long double D(size_t i) const { return i < d.size() ? d[i] : 0.0L; }
};
static Dual Mk(long double v, const Dual& a, long double da, const Dual& b = Dual(), long double db = 0) {
    Dual r;
    r.v = v;
    r.d.resize(std::max(a.d.size(), b.d.size()));
    for (size_t i = 0; i < r.d.size(); ++i) r.d[i] = (a.D(i) == 0 ? 0 : a.D(i) * da) + (b.D(i) == 0 ? 0 : b.D(i) * db);
    return r;
}
static Dual operator+(const Dual& a, const Dual& b) { return Mk(a.v + b.v, a, 1, b, 1); }
static Dual operator-(const Dual& a, const Dual& b) { return Mk(a.v - b.v, a, 1, b, -1); }
static Dual operator*(const Dual& a, const Dual& b) { return Mk(a.v * b.v, a, b.v, b, a.v); }
static Dual operator/(const Dual& a, const Dual& b) { return Mk(a.v / b.v, a, 1 / b.v, b, -a.v / b.v / b.v); }
static Dual operator-(const Dual& a) { return Mk(-a.v, a, -1); }
static Dual operator+(const Dual& a) { return a; }
static Dual& operator+=(Dual& a, const Dual& b) { return a = a + b; }
static Dual& operator-=(Dual& a, const Dual& b) { return a = a - b; }
static Dual& operator*=(Dual& a, const Dual& b) { return a = a * b; }
static Dual& operator/=(Dual& a, const Dual& b) { return a = a / b; }
static Dual exp(const Dual& a) { const long double e = expl(a.v); return Mk(e, a, e); }
static Dual log(const Dual& a) { return Mk(logl(a.v), a, 1 / a.v); }
static Dual sqrt(const Dual& a) { const long double e = sqrtl(a.v); return Mk(e, a, 0.5L / e); }
static Dual fabs(const Dual& a) { return a.v > 0 ? a : -a; }
static Dual max(const Dual& a, const Dual& b) { return a.v > b.v ? a : b; }
static Dual min(const Dual& a, const Dual& b) { return a.v < b.v ? a : b; }
static Dual pow(const Dual& a, const Dual& b) { const long double p = powl(a.v, b.v); return Mk(p, a, b.v * powl(a.v, b.v - 1), b, b.d.empty() ? 0 : p * logl(a.v)); }
static Dual erfc(const Dual& a) { return Mk(erfcl(a.v), a, -2 / sqrtl(acosl(-1.0L)) * expl(-a.v * a.v)); }
static Dual NPDF(const Dual& a) { const long double p = expl(-0.5L * a.v * a.v) / sqrtl(2 * acosl(-1.0L)); return Mk(p, a, -a.v * p); }
static Dual NCDF(const Dual& a) { return Mk(0.5L * erfcl(-a.v / sqrtl(2.0L)), a, NPDF(Dual((double)a.v)).v); }
