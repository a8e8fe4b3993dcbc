#include "base.inc"
#include <dal/math/operators.hpp>
#include <dal/model/factory.hpp>
#include "/repo/dal/model/blackscholes.cpp"
#include "/repo/dal/model/dupire.cpp"
#include "h.hpp"
using namespace Dal;
using namespace Dal::AAD;
static std::vector<double> Times(bool days) {
    std::vector<double> t;
    double x = 0;
    const int n = (int)H::R(1, 9);
    if (H::B()) t.push_back(0.0);
    while ((int)t.size() < n) {
        x += days ? H::R(1, H::R(0, 3) ? 300 : 1500) / 365.0 : H::R(0, 2) ? H::U(1e-3, 1.5) : H::R(1, 4) * 0.25;
        t.push_back(x);
    }
    return t;
}
static Vector_<> VV(const std::vector<double>& s) { Vector_<> r(s.size()); for (size_t i = 0; i < s.size(); ++i) r[i] = s[i]; return r; }
static Vector_<SampleDef_> Defs(const std::vector<double>& t, bool all) {
    Vector_<SampleDef_> d(t.size());
    for (size_t i = 0; i < t.size(); ++i) {
        d[i].numeraire_ = all || H::R(0, 3) != 0;
        d[i].forwardMats_.push_back({t[i]});
        d[i].discountMats_.push_back(t[i] + (all ? 0.0 : H::R(0, 2)));
    }
    return d;
}
static std::string Show(const std::vector<double>& v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%.17g ", x); s += b; } return s; }
static std::vector<double> Draws(size_t n) { std::vector<double> z; std::normal_distribution<double> g; while (z.size() < n) z.push_back(g(H::rng)); return z; }
struct Par { double s, v, r, q; };
static Par Params() { return {H::B() ? 100.0 : std::exp(H::U(-4, 6)), H::R(0, 5) ? H::U(0.01, 0.9) : 0.0, H::U(-0.05, 0.12), H::R(0, 2) ? H::U(-0.03, 0.1) : 0.0}; }
template <class T> static double Val_(const T& x) { return static_cast<double>(x); }
// path of a model already allocated and initialised, against the closed formula
template <class M> static void Path(const M& m, const Par& p, const std::vector<double>& t, const Vector_<SampleDef_>& d, const char* what) {
    const bool today = t[0] == 0.0;
    const size_t n = t.size() - today;
    if (m.SimDim() != n) H::Fail("%s: %zu draws asked for %zu event dates after today", what, m.SimDim(), n);
    const auto z = Draws(n);
    Scenario_<double> path;
    AllocatePath(d, path);
    InitializePath(path);
    m.GeneratePath(VV(z), &path);
    double b = 0, last = 0;
    for (size_t i = 0, k = 0; i < t.size(); ++i) {
        if (t[i] > 0) { b += std::sqrt(t[i] - last) * z[k++]; last = t[i]; }
        const double want = p.s * std::exp((p.r - p.q - 0.5 * p.v * p.v) * t[i] + p.v * b), num = d[i].numeraire_ ? std::exp(p.r * t[i]) : 1.0;
        if (!H::Close(path[i].spot_, want, 1e-10)) H::Fail("%s: spot %.17g at t=%.17g, should be %.17g (spot %.17g vol %.17g rate %.17g div %.17g, dates %s, draws %s)", what, path[i].spot_, t[i], want, p.s, p.v, p.r, p.q, Show(t).c_str(), Show(z).c_str());
        if (!H::Close(path[i].numeraire_, num, 1e-12)) H::Fail("%s: numeraire %.17g at t=%.17g, should be %.17g (rate %.17g, dates %s)", what, path[i].numeraire_, t[i], num, p.r, Show(t).c_str());
    }
    H::evaluations += t.size();
}
static void BS() {
    Par p = Params();
    BlackScholes_<double> m(p.s, p.v, p.r, p.q);
    for (int k = 0; k < 3; ++k) {                                  // the same model for several products
        const auto t = Times(false);
        const auto d = Defs(t, false);
        m.Allocate(VV(t), d);
        m.Init(VV(t), d);
        Path(m, p, t, d, "lognormal model");
        Path(m, p, t, d, "lognormal model, second path");
        auto c = m.Clone();
        static const char* names[] = {"spot", "vol", "rate", "div"};
        double* fields[] = {&p.s, &p.v, &p.r, &p.q};
        const Par keep = p;
        for (int i = 0; i < 4; ++i) {
            if (!(c->ParameterLabels()[i] == names[i])) H::Fail("parameter %d is not called %s", i, names[i]);
            if (*c->Parameters()[i] != *fields[i]) H::Fail("clone's parameter %s is %.17g, not %.17g", names[i], *c->Parameters()[i], *fields[i]);
            *c->Parameters()[i] = *fields[i] = *fields[i] * 1.25 + 0.01;
        }
        c->Init(VV(t), d);
        Path(*c, p, t, d, "clone with changed parameters");
        p = keep;
        m.Init(VV(t), d);
        Path(m, p, t, d, "model after its clone was changed");
        Handle_<ModelData_> data(new BSModelData_("m", p.s, p.v, p.r, p.q));
        auto f = CreateModel<double>(data);
        f->Allocate(VV(t), d);
        f->Init(VV(t), d);
        Path(*f, p, t, d, "model made from data");
    }
}
static Tape_& TheTape() { static Tape_ t; return t; }
static void Sens() {                                                   // exact sensitivities of a lognormal path
    const Par p = Params();
    Number_::SetTape(TheTape());
    Number_::Tape()->Rewind();
    BlackScholes_<Number_> m(p.s, p.v, p.r, p.q);
    const auto t = Times(false);
    const auto d = Defs(t, true);
    m.Allocate(VV(t), d);
    for (auto* x : m.Parameters()) x->PutOnTape();
    m.Init(VV(t), d);
    Scenario_<Number_> path;
    AllocatePath(d, path);
    InitializePath(path);
    const auto z = Draws(m.SimDim());
    m.GeneratePath(VV(z), &path);
    const size_t i = H::R(0, t.size() - 1);
    double b = 0, last = 0;
    for (size_t j = 0, k = 0; j <= i; ++j) if (t[j] > 0) { b += std::sqrt(t[j] - last) * z[k++]; last = t[j]; }
    Number_ out = path[i].spot_ / path[i].numeraire_;
    out.PropagateToStart();
    const double s = p.s * std::exp((p.r - p.q - 0.5 * p.v * p.v) * t[i] + p.v * b) * std::exp(-p.r * t[i]);
    const double want[] = {s / p.s, s * (b - p.v * t[i]), 0.0, -t[i] * s};
    for (int k = 0; k < 4; ++k)
        if (!H::Close(m.Parameters()[k]->Adjoint(), want[k], 1e-8, s)) H::Fail("sensitivity %d of the discounted spot at t=%.17g is %.17g, should be %.17g (spot %.17g vol %.17g rate %.17g div %.17g, dates %s, draws %s)", k, t[i], m.Parameters()[k]->Adjoint(), want[k], p.s, p.v, p.r, p.q, Show(t).c_str(), Show(z).c_str());
    H::evaluations += 4;
}
struct LV {
    double s, r, q;
    std::vector<double> spots, times;
    std::vector<std::vector<double>> v;
    static double In(const std::vector<double>& x, const std::vector<double>& y, double a) {
        if (a <= x[0]) return y[0];
        if (a >= x.back()) return y.back();
        size_t k = 1;
        while (x[k] < a) ++k;
        return y[k - 1] + (y[k] - y[k - 1]) * (a - x[k - 1]) / (x[k] - x[k - 1]);
    }
    // dates: today, event dates, and equal steps of at most one year in between
    static std::vector<double> Dates(const std::vector<double>& t) {
        std::vector<double> r{0.0};
        for (double x : t) {
            const double a = r.back(), g = x - a;
            if (g <= 0) continue;
            const int n = std::max(1, (int)std::ceil(g - 1e-12));
            for (int i = 1; i < n; ++i) r.push_back(a + g * i / n);
            r.push_back(x);
        }
        return r;
    }
    std::vector<double> Path(const std::vector<double>& t, const std::vector<double>& z, double* kink = nullptr) const {
        const auto l = Dates(t);
        std::vector<double> ls, out;
        for (double x : spots) ls.push_back(std::log(x));
        double x = std::log(s);
        if (t[0] == 0) out.push_back(s);
        size_t e = t[0] == 0;
        for (size_t i = 0; i + 1 < l.size(); ++i) {
            const double dt = l[i + 1] - l[i];
            std::vector<double> row;
            for (auto& c : v) row.push_back(In(times, c, l[i]));
            const double vol = In(ls, row, x) * std::sqrt(dt);
            if (kink) for (double y : ls) *kink = std::min(*kink, std::fabs(y - x));
            x += (r - q) * dt - 0.5 * vol * vol + vol * z[i];
            if (e < t.size() && l[i + 1] == t[e]) { out.push_back(std::exp(x)); ++e; }
        }
        return out;
    }
    Matrix_<> Mat() const { Matrix_<> m((int)spots.size(), (int)times.size()); for (size_t i = 0; i < spots.size(); ++i) for (size_t j = 0; j < times.size(); ++j) m((int)i, (int)j) = v[i][j]; return m; }
};
static LV MakeLV() {
    LV m;
    m.s = H::U(80, 120); m.r = H::U(-0.02, 0.1); m.q = H::U(-0.02, 0.08);
    double x = H::U(20, 60);
    for (int n = (int)H::R(1, 8); n-- > 0; x += H::U(5, 60)) m.spots.push_back(x);
    x = H::U(0, 0.5);
    for (int n = (int)H::R(1, 5); n-- > 0; x += H::U(0.1, 2)) m.times.push_back(x);
    m.v.resize(m.spots.size());
    for (auto& c : m.v) for (size_t j = 0; j < m.times.size(); ++j) c.push_back(H::U(0.02, 0.6));
    return m;
}
static void Local() {
    const LV m = MakeLV();
    Handle_<ModelData_> data(new DupireModelData_("m", m.s, m.r, m.q, VV(m.spots), VV(m.times), m.Mat()));
    auto f = CreateModel<double>(data);
    for (int k = 0; k < 2; ++k) {
        const auto t = Times(true);
        const auto d = Defs(t, false);
        f->Allocate(VV(t), d);
        f->Init(VV(t), d);
        if (f->SimDim() + 1 != LV::Dates(t).size()) H::Fail("local volatility: %zu draws asked for, %zu steps (dates %s)", f->SimDim(), LV::Dates(t).size() - 1, Show(t).c_str());
        auto c = f->Clone();
        for (auto* g : {f.get(), c.get()}) {
            const auto z = Draws(f->SimDim());
            Scenario_<double> path;
            AllocatePath(d, path);
            InitializePath(path);
            g->GeneratePath(VV(z), &path);
            const auto want = m.Path(t, z);
            for (size_t i = 0; i < t.size(); ++i) {
                if (!H::Close(path[i].spot_, want[i], 1e-9)) H::Fail("local volatility: spot %.17g at t=%.17g, should be %.17g (dates %s, draws %s)", path[i].spot_, t[i], want[i], Show(t).c_str(), Show(z).c_str());
                const double num = d[i].numeraire_ ? std::exp(m.r * t[i]) : 1.0, df = std::exp(-m.r * (d[i].discountMats_[0] - t[i]));
                if (!H::Close(path[i].numeraire_, num, 1e-12)) H::Fail("local volatility: numeraire %.17g at t=%.17g, should be %.17g", path[i].numeraire_, t[i], num);
                if (!H::Close(path[i].discounts_[0], df, 1e-12)) H::Fail("local volatility: discount %.17g at t=%.17g, should be %.17g", path[i].discounts_[0], t[i], df);
                if (path[i].forwards_[0][0] != path[i].spot_) H::Fail("local volatility: forward differs from the spot at t=%.17g", t[i]);
            }
            H::evaluations += t.size();
        }
        // parameters: spot, rate, repo, then volatilities spot by spot
        size_t q = 0;
        if (*c->Parameters()[q++] != m.s || *c->Parameters()[q++] != m.r || *c->Parameters()[q++] != m.q) H::Fail("local volatility: clone's spot, rate or repo differ");
        for (auto& row : m.v) for (double x : row) if (*c->Parameters()[q++] != x) H::Fail("local volatility: clone's parameter %zu differs", q - 1);
        if (q != c->Parameters().size() || q != c->ParameterLabels().size()) H::Fail("local volatility: %zu parameters, %zu labels, %zu expected", c->Parameters().size(), c->ParameterLabels().size(), q);
    }
    // sensitivities of the same recursion
    Number_::SetTape(TheTape());
    Number_::Tape()->Rewind();
    auto a = CreateModel<Number_>(data);
    const auto t = Times(true);
    const auto d = Defs(t, true);
    a->Allocate(VV(t), d);
    for (auto* x : a->Parameters()) x->PutOnTape();
    a->Init(VV(t), d);
    Scenario_<Number_> path;
    AllocatePath(d, path);
    InitializePath(path);
    const auto z = Draws(a->SimDim());
    a->GeneratePath(VV(z), &path);
    const size_t e = H::R(0, t.size() - 1);
    Number_ out = path[e].spot_ * 1.0;
    out.PropagateToStart();
    double kink = 1;
    m.Path(t, z, &kink);
    if (kink < 1e-3) return;                                       // too close to a knot for differences
    const size_t np = a->Parameters().size();
    for (int rep = 0; rep < 4; ++rep) {
        const size_t k = rep < 3 ? rep : (size_t)H::R(3, np - 1);
        auto bump = [&](double h) { LV b = m; if (k == 0) b.s += h * 100; else if (k == 1) b.r += h; else if (k == 2) b.q += h; else b.v[(k - 3) / m.times.size()][(k - 3) % m.times.size()] += h; return b.Path(t, z)[e]; };
        const double h = 1e-6, fd = (bump(h) - bump(-h)) / (2 * h * (k == 0 ? 100 : 1)), ad = a->Parameters()[k]->Adjoint();
        if (!H::Close(ad, fd, 2e-5, 10.0)) H::Fail("local volatility: sensitivity %zu of the spot at t=%.17g is %.17g, differences give %.17g (dates %s, draws %s)", k, t[e], ad, fd, Show(t).c_str(), Show(z).c_str());
        ++H::evaluations;
    }
}
void Search() {
    while (H::Time()) { BS(); Sens(); Local(); }
}
void Replay() {
    const double s = H::D("spot", 100), v = H::D("vol", 0.2), r = H::D("rate", 0.03), q = H::D("div", 0.01);
    auto t = H::V("t");
    if (t.empty()) t = {0.5, 1.5};
    if (s > 0 && v >= 0 && t[0] >= 0) {
        bool ok = true;
        for (size_t i = 1; i < t.size(); ++i) ok = ok && t[i] > t[i - 1];
        if (ok && t.size() < 100 && std::fabs(v) < 5 && std::fabs(r) < 5 && std::fabs(q) < 5) {
            BlackScholes_<double> m(s, v, r, q);
            const auto d = Defs(t, true);
            m.Allocate(VV(t), d);
            m.Init(VV(t), d);
            Path(m, {s, v, r, q}, t, d, "lognormal model");
        }
    }
    H::secs = 4;
    Search();
}
