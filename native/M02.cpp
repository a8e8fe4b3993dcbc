#include "base.inc"
#include <dal/math/operators.hpp>
#include <dal/model/dupire.hpp>
#include <memory>
#include "/repo/dal/model/dupire.cpp"
#include "h.hpp"
using namespace Dal;
using namespace Dal::AAD;
static std::vector<double> Times(bool days) {
    std::vector<double> t;
    double x = 0;
    const int n = (int)H::R(1, 9);
    if (H::B()) t.push_back(0.0);
    while ((int)t.size() < n) {
        x += days ? H::R(1, H::R(0, 3) ? 300 : 1500) / 365.0 : H::R(0, 2) ? H::U(1e-3, 1.5) : H::R(1, 4) * 0.25;
        t.push_back(x);
    }
    return t;
}
static Vector_<> VV(const std::vector<double>& s) { Vector_<> r(s.size()); for (size_t i = 0; i < s.size(); ++i) r[i] = s[i]; return r; }
static Vector_<SampleDef_> Defs(const std::vector<double>& t, bool all) {
    Vector_<SampleDef_> d(t.size());
    for (size_t i = 0; i < t.size(); ++i) {
        d[i].numeraire_ = all || H::R(0, 3) != 0;
        d[i].forwardMats_.push_back({t[i]});
        for (int n = all ? 1 : (int)H::R(1, 3); n-- > 0;) d[i].discountMats_.push_back(t[i] + (all ? 0.0 : H::R(0, 4) * 0.5));
        if (!all && H::B()) d[i].forwardMats_[0].push_back(t[i] + 1);
    }
    return d;
}
static std::string Show(const std::vector<double>& v) { std::string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%.17g ", x); s += b; } return s; }
static std::vector<double> Draws(size_t n) { std::vector<double> z; std::normal_distribution<double> g; while (z.size() < n) z.push_back(g(H::rng)); return z; }
static Tape_& TheTape() { static Tape_ t; return t; }
struct LV {
    double s, r, q, step = 1;
    std::vector<double> spots, times;
    std::vector<std::vector<double>> v;
    static double In(const std::vector<double>& x, const std::vector<double>& y, double a) {
        if (a <= x[0]) return y[0];
        if (a >= x.back()) return y.back();
        size_t k = 1;
        while (x[k] < a) ++k;
        return y[k - 1] + (y[k] - y[k - 1]) * (a - x[k - 1]) / (x[k] - x[k - 1]);
    }
    // dates: today, event dates, and equal steps of at most the longest in between
    std::vector<double> Dates(const std::vector<double>& t) const {
        std::vector<double> r{0.0};
        for (double x : t) {
            const double a = r.back(), g = x - a;
            if (g <= 0) continue;
            const int n = std::max(1, (int)std::ceil(g / step - 1e-10));
            for (int i = 1; i < n; ++i) r.push_back(a + g * i / n);
            r.push_back(x);
        }
        return r;
    }
    std::vector<double> Path(const std::vector<double>& t, const std::vector<double>& z, double* kink = nullptr) const {
        const auto l = Dates(t);
        std::vector<double> ls, out;
        for (double x : spots) ls.push_back(std::log(x));
        double x = std::log(s);
        if (t[0] == 0) out.push_back(s);
        size_t e = t[0] == 0;
        for (size_t i = 0; i + 1 < l.size(); ++i) {
            const double dt = l[i + 1] - l[i];
            std::vector<double> row;
            for (auto& c : v) row.push_back(In(times, c, l[i]));
            const double vol = In(ls, row, x) * std::sqrt(dt);
            if (kink) for (double y : ls) *kink = std::min(*kink, std::fabs(y - x));
            x += (r - q) * dt - 0.5 * vol * vol + vol * z[i];
            if (e < t.size() && l[i + 1] == t[e]) { out.push_back(std::exp(x)); ++e; }
        }
        return out;
    }
    Matrix_<> Mat() const { Matrix_<> m((int)spots.size(), (int)times.size()); for (size_t i = 0; i < spots.size(); ++i) for (size_t j = 0; j < times.size(); ++j) m((int)i, (int)j) = v[i][j]; return m; }
};
static LV MakeLV() {
    LV m;
    m.step = H::R(0, 2) ? H::U(0.05, 1.3) : H::R(1, 8) * 0.25;
    m.s = H::U(80, 120); m.r = H::U(-0.02, 0.1); m.q = H::U(-0.02, 0.08);
    double x = H::U(20, 60);
    for (int n = (int)H::R(1, 8); n-- > 0; x += H::U(5, 60)) m.spots.push_back(x);
    x = H::U(0, 0.5);
    for (int n = (int)H::R(1, 5); n-- > 0; x += H::U(0.1, 2)) m.times.push_back(x);
    m.v.resize(m.spots.size());
    for (auto& c : m.v) for (size_t j = 0; j < m.times.size(); ++j) c.push_back(H::U(0.02, 0.6));
    return m;
}
static void Local() {
    LV m = MakeLV();
    std::unique_ptr<Model_<double>> f(new Dupire_<double>(m.s, m.r, m.q, VV(m.spots), VV(m.times), m.Mat(), m.step));
    for (int k = 0; k < 3; ++k) {
        const auto t = Times(true);
        const auto d = Defs(t, false);
        f->Allocate(VV(t), d);
        f->Init(VV(t), d);
        if (f->SimDim() + 1 != m.Dates(t).size()) H::Fail("local volatility: %zu draws asked for, %zu steps (dates %s)", f->SimDim(), m.Dates(t).size() - 1, Show(t).c_str());
        auto c = f->Clone();
        for (auto* g : {f.get(), c.get()}) {
            const auto z = Draws(f->SimDim());
            Scenario_<double> path;
            AllocatePath(d, path);
            InitializePath(path);
            g->GeneratePath(VV(z), &path);
            const auto want = m.Path(t, z);
            for (size_t i = 0; i < t.size(); ++i) {
                if (!H::Close(path[i].spot_, want[i], 1e-9)) H::Fail("local volatility: spot %.17g at t=%.17g, should be %.17g (dates %s, draws %s)", path[i].spot_, t[i], want[i], Show(t).c_str(), Show(z).c_str());
                const double num = d[i].numeraire_ ? std::exp(m.r * t[i]) : 1.0;
                if (!H::Close(path[i].numeraire_, num, 1e-12)) H::Fail("local volatility: numeraire %.17g at t=%.17g, should be %.17g", path[i].numeraire_, t[i], num);
                for (size_t j = 0; j < d[i].discountMats_.size(); ++j) {
                    const double df = std::exp(-m.r * (d[i].discountMats_[j] - t[i]));
                    if (!H::Close(path[i].discounts_[j], df, 1e-12)) H::Fail("local volatility: discount %.17g at t=%.17g, should be %.17g", path[i].discounts_[j], t[i], df);
                }
                for (double w : path[i].forwards_[0]) if (w != path[i].spot_) H::Fail("local volatility: forward differs from the spot at t=%.17g", t[i]);
            }
            H::evaluations += t.size();
        }
        // parameters: spot, rate, repo, then volatilities spot by spot
        size_t q = 0;
        if (*c->Parameters()[q++] != m.s || *c->Parameters()[q++] != m.r || *c->Parameters()[q++] != m.q) H::Fail("local volatility: clone's spot, rate or repo differ");
        for (auto& row : m.v) for (double x : row) if (*c->Parameters()[q++] != x) H::Fail("local volatility: clone's parameter %zu differs", q - 1);
        if (q != c->Parameters().size() || q != c->ParameterLabels().size()) H::Fail("local volatility: %zu parameters, %zu labels, %zu expected", c->Parameters().size(), c->ParameterLabels().size(), q);
        // a changed clone steps by its own parameters, the model by its own
        LV b = m;
        const size_t w = H::R(0, q - 1);
        const double h = 0.07;
        *c->Parameters()[w] += h;
        (w == 0 ? b.s : w == 1 ? b.r : w == 2 ? b.q : b.v[(w - 3) / m.times.size()][(w - 3) % m.times.size()]) += h;
        c->Init(VV(t), d);
        f->Init(VV(t), d);
        const auto z = Draws(f->SimDim());
        for (auto* g : {f.get(), c.get()}) {
            Scenario_<double> path;
            AllocatePath(d, path);
            InitializePath(path);
            g->GeneratePath(VV(z), &path);
            const auto want = (g == f.get() ? m : b).Path(t, z);
            for (size_t i = 0; i < t.size(); ++i)
                if (!H::Close(path[i].spot_, want[i], 1e-9)) H::Fail("local volatility: %s has spot %.17g at t=%.17g, should be %.17g (parameter %zu of the clone changed, dates %s)", g == f.get() ? "model" : "clone", path[i].spot_, t[i], want[i], w, Show(t).c_str());
        }
    }
    // sensitivities of the same recursion
    Number_::SetTape(TheTape());
    Number_::Tape()->Rewind();
    Matrix_<Number_> mv((int)m.spots.size(), (int)m.times.size());
    for (size_t i = 0; i < m.spots.size(); ++i) for (size_t j = 0; j < m.times.size(); ++j) mv((int)i, (int)j) = Number_(m.v[i][j]);
    std::unique_ptr<Model_<Number_>> a(new Dupire_<Number_>(Number_(m.s), Number_(m.r), Number_(m.q), VV(m.spots), VV(m.times), mv, m.step));
    const auto t = Times(true);
    const auto d = Defs(t, true);
    a->Allocate(VV(t), d);
    for (auto* x : a->Parameters()) x->PutOnTape();
    a->Init(VV(t), d);
    Scenario_<Number_> path;
    AllocatePath(d, path);
    InitializePath(path);
    const auto z = Draws(a->SimDim());
    a->GeneratePath(VV(z), &path);
    const size_t e = H::R(0, t.size() - 1);
    Number_ out = path[e].spot_ * 1.0;
    out.PropagateToStart();
    double kink = 1;
    m.Path(t, z, &kink);
    if (kink < 1e-3) return;                                       // too close to a knot for differences
    const size_t np = a->Parameters().size();
    for (int rep = 0; rep < 4; ++rep) {
        const size_t k = rep < 3 ? rep : (size_t)H::R(3, np - 1);
        auto bump = [&](double h) { LV b = m; if (k == 0) b.s += h * 100; else if (k == 1) b.r += h; else if (k == 2) b.q += h; else b.v[(k - 3) / m.times.size()][(k - 3) % m.times.size()] += h; return b.Path(t, z)[e]; };
        const double h = 1e-6, fd = (bump(h) - bump(-h)) / (2 * h * (k == 0 ? 100 : 1)), ad = a->Parameters()[k]->Adjoint();
        if (!H::Close(ad, fd, 2e-5, 10.0)) H::Fail("local volatility: sensitivity %zu of the spot at t=%.17g is %.17g, differences give %.17g (dates %s, draws %s)", k, t[e], ad, fd, Show(t).c_str(), Show(z).c_str());
        ++H::evaluations;
    }
}
void Search() {
    while (H::Time()) Local();
}
void Replay() {
    H::secs = 5;
    Search();
}
