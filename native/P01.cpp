#include <dal/platform/platform.hpp>
#include <dal/math/rootfind.hpp>
#include <algorithm>
#include <memory>
#include "base.inc"
#include "h.hpp"
using namespace Dal;
typedef std::pair<double, double> Pt;
static std::string log_;
static void Note(const char* w, double a, double b) { char t[120]; snprintf(t, sizeof t, " %s(%.17g, %.17g)", w, a, b); log_ += t; if (log_.size() > 1500) log_.erase(0, log_.size() - 1500); }
#define FAIL(fmt, ...) H::Fail(fmt " after:%s", __VA_ARGS__, log_.c_str())
static bool Opp(double a, double b) { return (a <= 0 && b >= 0) || (a >= 0 && b <= 0); }
// what an observer of trials and answers knows about the bracket
struct Watch {
    Pt lo, hi;
    bool sharp = true;                                     // which end an answer replaces is determined
    void Trial(double x) const {
        const double a = std::min(lo.first, hi.first), b = std::max(lo.first, hi.first), e = 1e-12 * (std::fabs(a) + std::fabs(b));
        if (sharp && !(x >= a - e && x <= b + e)) FAIL("trial %.17g outside the bracket [%.17g, %.17g]", x, a, b);
    }
    void Answer(double x, double y, double width) {
        if (!sharp) return;
        const bool keepLo = Opp(y, lo.second), keepHi = Opp(y, hi.second);
        if (keepLo && keepHi) { sharp = false; if (!(width <= std::fabs(lo.first - hi.first) * (1 + 1e-12))) FAIL("bracket grew to %.17g", width); return; }
        (keepLo ? hi : lo) = Pt(x, y);
        const double w = std::fabs(lo.first - hi.first);
        if (!H::Close(w, width, 1e-12, 1e-300)) FAIL("bracket width reported as %.17g where the ends are %.17g and %.17g apart", width, lo.first, hi.first);
    }
};
struct Fn {
    int kind; double r, s, k;
    Fn() : kind((int)H::R(0, 6)), r(H::U(-3, 3)), s(H::B() ? 1 : -1), k(std::exp(H::U(-2, 3))) {}
    double operator()(double x) const {
        const double u = x - r;
        switch (kind) {
        case 0: return s * k * u;
        case 1: return s * (std::exp(std::min(k * u, 300.0)) - 1);
        case 2: return s * std::tanh(k * u);
        case 3: return s * u * u * u * k;
        case 4: return s * (u < 0 ? -k : 1.0);
        case 5: return s * (std::cbrt(u) * k);
        default: return s * (std::atan(k * u) + 0.1 * u);
        }
    }
};
static void Bracketed() {
    Fn f;
    const bool wild = H::R(0, 3) == 0;                     // answers that come from no function
    double x1 = f.r - std::exp(H::U(-4, 2)), x2 = f.r + std::exp(H::U(-4, 2));
    if (H::B()) std::swap(x1, x2);
    double y1 = f(x1), y2 = f(x2);
    if (H::R(0, 5) == 0) y2 = std::fabs(y2) * (H::B() ? 1 : -1);
    if (H::R(0, 9) == 0) y1 = 0;
    log_.clear();
    Note("low", x1, y1); Note("high", x2, y2);
    const double tol = H::B() ? 1e-15 : std::exp(H::U(-20, -3));
    std::unique_ptr<BracketedBrent_> b;
    try { b.reset(new BracketedBrent_(Pt(x1, y1), Pt(x2, y2), tol)); }
    catch (std::exception&) { if (Opp(y1, y2)) FAIL("bracketed interval refused%s", ""); ++H::evaluations; return; }
    if (!Opp(y1, y2)) FAIL("interval without a sign change accepted%s", "");
    if (!H::Close(b->BracketWidth(), std::fabs(x1 - x2), 1e-12)) FAIL("starting width %.17g", b->BracketWidth());
    Watch w; w.lo = Pt(x1, y1); w.hi = Pt(x2, y2);
    double width = b->BracketWidth();
    bool zero = y1 == 0 || y2 == 0;
    int k = 0;
    if (zero && y1 == y2) return;
    for (; k < 300; ++k) {
        const double x = b->NextX();
        w.Trial(x);
        const double y = zero ? (y1 == 0 ? y2 : y1) * std::exp(H::U(-3, 1)) : wild ? H::U(-1, 1) * std::exp(H::U(-3, 3)) : f(x);
        Note("put", x, y);
        b->PutY(y);
        w.Answer(x, y, b->BracketWidth());
        if (!(b->BracketWidth() <= width * (1 + 1e-12))) FAIL("bracket grew from %.17g to %.17g", width, b->BracketWidth());
        width = b->BracketWidth();
        ++H::evaluations;
        if (y == 0 || width < 1e-9 * zero || width < 1e-12 * (1 + std::fabs(f.r)) || std::fabs(y) < 1e-13) break;
        if (zero && k > 20) break;
    }
    if (k == 300 && !wild && !zero) FAIL("no convergence in 300 steps: width %.17g", width);
}
static void Hunting() {
    Fn f;
    const bool wild = H::R(0, 3) == 0;
    const double guess = f.r + (H::B() ? 1 : -1) * std::exp(H::U(-3, 3));
    const bool step = H::B();
    const double sz = std::exp(H::U(-4, 1));
    log_.clear();
    Note("guess", guess, step ? sz : 0);
    Brent_ b(guess, 1e-15, step ? sz : 0.0);
    double x = b.NextX();
    if (x != guess) FAIL("first trial %.17g instead of the guess", x);
    auto val = [&](double q) { return wild ? (H::R(0, 12) ? 1 : -1) * std::exp(H::U(-3, 3)) : f(q); };
    double y = val(x);
    if (!(b.BracketWidth() > 1e20)) FAIL("width %.17g before any answer", b.BracketWidth());
    b.PutY(y);
    Note("put", x, y);
    Pt known(x, y);
    double last = 0;
    bool inc = true;
    for (int k = 0; k < 60; ++k) {
        if (y == 0) return;
        if (!(b.BracketWidth() > 1e20)) FAIL("width %.17g before a sign change", b.BracketWidth());
        x = b.NextX();
        const double d = x - known.first, want = (inc ? 1 : -1) * (known.second < 0 ? 1 : -1);
        if (!(d * want > 0)) FAIL("hunts towards %.17g from %.17g (residual %.17g)", x, known.first, known.second);
        if (k == 0 && step && !H::Close(std::fabs(d), sz, 1e-9)) FAIL("first step %.17g instead of %.17g", d, sz);
        if (!(std::fabs(d) > last)) FAIL("step %.17g does not grow from %.17g", d, last);
        last = std::fabs(d);
        y = val(x);
        Note("put", x, y);
        b.PutY(y);
        ++H::evaluations;
        if (Opp(y, known.second)) break;
        if (!std::isfinite(y) || std::fabs(x) > 1e12) return;
        if (std::fabs(y) > std::fabs(known.second)) inc = !inc;
        else known = Pt(x, y);
    }
    if (!Opp(y, known.second)) return;
    if (!H::Close(b.BracketWidth(), std::fabs(x - known.first), 1e-12)) FAIL("width %.17g where the bracket is [%.17g, %.17g]", b.BracketWidth(), x, known.first);
    Watch w; w.lo = known; w.hi = Pt(x, y);
    int k = 0;
    for (; k < 300 && y != 0 && !wild; ++k) {
        x = b.NextX();
        w.Trial(x);
        y = f(x);
        Note("put", x, y);
        if (Converged_(1e-12 * (1 + std::fabs(f.r)), 1e-13)(b, y) != (std::fabs(y) < 1e-13 || b.BracketWidth() < 1e-12 * (1 + std::fabs(f.r)))) FAIL("stopping rule disagrees at residual %.17g, width %.17g", y, b.BracketWidth());
        w.Answer(x, y, b.BracketWidth());
        if (std::fabs(y) < 1e-13 || b.BracketWidth() < 1e-12 * (1 + std::fabs(f.r))) break;
    }
    if (k == 300) FAIL("no convergence: width %.17g", b.BracketWidth());
}
void Search() { while (H::Time()) for (int k = 0; k < 100; ++k) { Bracketed(); Hunting(); } }
void Replay() { H::secs = 5; Search(); }
