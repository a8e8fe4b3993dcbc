#include "script.inc"
// ---- smoothed meaning: conditions have a degree of truth, blocks are averaged
static double defEps;
static double Truth(const G::C& c, const G::V& x, double spot) {
    if (c.k == '&') { const double a = Truth(c.c[0], x, spot), b = Truth(c.c[1], x, spot); return a * b; }
    if (c.k == '|') { const double a = Truth(c.c[0], x, spot), b = Truth(c.c[1], x, spot); return a + b - a * b; }
    const double a = G::Ev1(c.e[0], x, spot), b = G::Ev1(c.e[1], x, spot), d = c.k == '<' || c.k == 'l' ? b - a : a - b, e = c.eps >= 0 ? c.eps : defEps;
    if (!std::isfinite(d)) G::finite = false;
    if (c.k == '=' || c.k == '!') { const double f = std::max(0.0, 1 - std::fabs(d) / (e / 2)); return c.k == '=' ? f : 1 - f; }
    return std::min(1.0, std::max(0.0, (d + e / 2) / e));
}
static void Fuzzy(const std::vector<G::S>& b, G::V& x, double spot, double num) {
    for (auto& s : b) {
        if (s.k == '=') x[s.var] = G::Ev1(s.e, x, spot);
        else if (s.k == 'p') x[s.var] += G::Ev1(s.e, x, spot) / num;
        else {
            const double t = Truth(s.c, x, spot);
            if (t < -1e-12 || t > 1 + 1e-12) H::Fail("the oracle's degree of truth is %g", t);
            if ((t > 1e-11 && t < 1e-13) || (t > 1 - 1e-11 && t < 1 - 1e-13)) G::tie = true;
            if (t > 1 - 1e-12) Fuzzy(s.t, x, spot, num);
            else if (t < 1e-12) Fuzzy(s.f, x, spot, num);
            else {
                G::V y = x;
                Fuzzy(s.t, y, spot, num);
                Fuzzy(s.f, x, spot, num);
                for (size_t i = 0; i < x.size(); ++i) x[i] = x[i] == y[i] ? x[i] : t * y[i] + (1 - t) * x[i];
            }
        }
        for (double v : x) if (!std::isfinite(v)) G::finite = false;
    }
}
// conditions compare the spot with something, so that their domain is the real line
static void OnSpot(std::vector<G::S>& b);
static void OnSpot(G::C& c) {
    for (auto& q : c.c) OnSpot(q);
    if (!c.e.empty()) { c.e[0] = G::E{'s'}; G::E m{'-'}, h{'+'}; if (H::B()) { c.e[1] = G::Const(80 + 5 * H::R(0, 8)); } else { h.a = {G::Const(100), G::E{'v'}}; h.a[1].i = (int)H::R(0, G::opt.vars - 1); c.e[1] = h; } }
}
static void OnSpot(std::vector<G::S>& b) { for (auto& s : b) if (s.k == 'i') { OnSpot(s.c); OnSpot(s.t); OnSpot(s.f); } }

static void One(int k) {
    G::opt = G::Opt();
    G::opt.vars = (int)H::R(1, 5);
    G::opt.depth = (int)H::R(1, 3);
    G::opt.nest = (int)H::R(1, 3);
    G::opt.div = false;
    G::opt.eps = H::B();
    defEps = H::B() ? 0.01 : H::U(0.001, 20);
    const bool general = H::B();
    G::Prog p = G::Make();
    if (!general) {
        std::vector<std::vector<G::S>> f = p.future;
        p.past.clear(); p.rows.clear(); p.text.clear();
        for (size_t i = 0; i < G::named.size(); ++i) p.rows.push_back({Cell_(String_("K" + std::to_string(i))), String_(G::T(G::named[i]))});
        for (size_t k = 0; k < f.size(); ++k) { OnSpot(f[k]); const auto t = G::T(f[k], ""); p.rows.push_back({Cell_(Date_(2023, 1, 10).AddDays(30 * (int)k)), String_(t)}); p.text += "event\n" + t; }
        p.future = f;
    }
    ScriptProduct_ prod = G::Product(p);
    size_t nested;
    try { nested = prod.PreProcess(true, false); } catch (const Exception_&) { return; }
    auto ev = prod.BuildFuzzyEvaluator<double>((int)nested, defEps);
    for (int j = 0; j < 6; ++j) {
        const auto s = G::Scenario(p);
        const auto path = G::Real<double>(s);
        if (general) {
            std::fill(G::contVar.begin(), G::contVar.end(), 0);
            for (bool more = true; more;) { more = false; for (auto& b : p.past) more |= G::Spread(b); for (auto& b : p.future) more |= G::Spread(b); }
            // every comparison met is on the boundary of an equality or further from it than any smoothing
            const auto want = G::Meaning(p, s);
            std::fill(G::contVar.begin(), G::contVar.end(), 1);
            if (!G::finite || G::tie || G::minOff < 0.5 * std::max(defEps, 3.0) * 1.0001 || G::onBoundary) continue;
            prod.Evaluate(path, ev);
            G::Same("smoothed evaluation away from every boundary", p, s, G::Named(prod, ev.VarVals()), want, 1e-10);
        } else {
            G::V x(G::opt.vars, 0.0);
            G::finite = true; G::tie = false;
            for (size_t i = 0; i < p.future.size(); ++i) Fuzzy(p.future[i], x, s.spot[i], s.num[i]);
            if (!G::finite || G::tie) continue;
            prod.Evaluate(path, ev);
            G::Same("smoothed evaluation", p, s, G::Named(prod, ev.VarVals()), x, 1e-8);
        }
    }
}
void Search() { for (int k = 0; H::Time(); ++k) One(k); }
void Replay() { Search(); }
