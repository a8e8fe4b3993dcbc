#include "base.inc"
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include "h.hpp"
using namespace Dal;
using namespace Dal::Distribution;
typedef OptionType_::Value_ T;
static OptionType_ Type(int k) { static const char* n[3] = {"CALL", "PUT", "STRADDLE"}; return OptionType_(String_(n[k])); }
static double Cdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static double Pdf(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2.0 * M_PI); }
static double Pay(int k, double f, double s) { return k == 0 ? std::max(f - s, 0.0) : k == 1 ? std::max(s - f, 0.0) : std::fabs(f - s); }
static double Want(int m, int k, double f, double v, double s) {
    if (v == 0 || (m == 0 && (f <= 0 || s <= 0))) return Pay(k, f, s);
    if (m == 0) {
        const double dm = std::log(f / s) / v - 0.5 * v, dp = dm + v, c = f * Cdf(dp) - s * Cdf(dm), p = s * Cdf(-dm) - f * Cdf(-dp);
        return k == 0 ? c : k == 1 ? p : c + p;
    }
    const double d = (f - s) / v, c = (f - s) * Cdf(d) + v * Pdf(d), p = (s - f) * Cdf(-d) + v * Pdf(d);
    return k == 0 ? c : k == 1 ? p : c + p;
}
static double Price(int m, int k, double f, double v, double s) { return m ? BachelierOpt(f, v, s, Type(k)) : BlackOpt(f, v, s, Type(k)); }
static void Prices(int m, double f, double v, double s) {
    double p[3];
    const double scale = std::fabs(f) + std::fabs(s) + (m ? v : 0.0);
    for (int k = 0; k < 3; ++k) {
        p[k] = Price(m, k, f, v, s);
        const double w = Want(m, k, f, v, s);
        if (!(std::fabs(p[k] - w) <= 1e-11 * scale + 1e-300)) H::Fail("model %d type %d forward %.17g deviation %.17g strike %.17g: price %.17g, should be %.17g", m, k, f, v, s, p[k], w);
        if (v == 0 && p[k] != Pay(k, f, s)) H::Fail("model %d type %d forward %.17g strike %.17g: price %.17g without volatility, payout %.17g", m, k, f, s, p[k], Pay(k, f, s));
        if (Type(k).Payout(f, s) != Pay(k, f, s)) H::Fail("payout of type %d at %.17g, strike %.17g: %.17g", k, f, s, Type(k).Payout(f, s));
        if (m == 0 ? DistributionBlack_(f, v).OptionPrice(s, Type(k)) != p[k] || DistributionBlack_(f, v).Forward() != f : DistributionBachelier_(f, v).OptionPrice(s, Type(k)) != p[k] || DistributionBachelier_(f, v).Forward() != f)
            H::Fail("model %d: distribution object with forward %.17g deviation %.17g prices type %d strike %.17g differently", m, f, v, k, s);
        ++H::evaluations;
    }
    if (std::fabs(p[0] - p[1] - (f - s)) > 1e-11 * scale) H::Fail("model %d forward %.17g deviation %.17g strike %.17g: call %.17g minus put %.17g", m, f, v, s, p[0], p[1]);
    if (std::fabs(p[0] + p[1] - p[2]) > 1e-11 * scale) H::Fail("model %d forward %.17g deviation %.17g strike %.17g: call %.17g put %.17g straddle %.17g", m, f, v, s, p[0], p[1], p[2]);
}
static void Greeks(int m, double f, double v, double s) {
    for (int k = 0; k < 3; ++k) {
        const Vector_<> g = m ? BachelierGreeks(f, v, s, Type(k)) : BlackGreeks(f, v, s, Type(k));
        const double dm = m ? (f - s) / v : std::log(f / s) / v - 0.5 * v, dp = m ? dm : dm + v;
        const double delta = k == 0 ? Cdf(dp) : k == 1 ? -Cdf(-dp) : Cdf(dp) - Cdf(-dp), vega = (m ? 1.0 : f) * Pdf(dp) * (k == 2 ? 2 : 1);
        if (g.size() != 2) H::Fail("model %d: %zu sensitivities", m, g.size());
        if (std::fabs(g[0] - delta) > 1e-10) H::Fail("model %d type %d forward %.17g deviation %.17g strike %.17g: delta %.17g, should be %.17g", m, k, f, v, s, g[0], delta);
        if (std::fabs(g[1] - vega) > 1e-10 * (1 + std::fabs(m ? 0 : f))) H::Fail("model %d type %d forward %.17g deviation %.17g strike %.17g: vega %.17g, should be %.17g", m, k, f, v, s, g[1], vega);
        DistributionBlack_ db(f, v);
        DistributionBachelier_ dn(f, v);
        const Distribution_& d = m ? static_cast<const Distribution_&>(dn) : db;
        const double vv = d.VolVega(s, Type(k));
        if (!H::Close(vv, v * g[1], 1e-13)) H::Fail("model %d type %d forward %.17g deviation %.17g strike %.17g: object's volatility-weighted vega %.17g, vega %.17g", m, k, f, v, s, vv, g[1]);
        Vector_<String_> names;
        static const char* all[3] = {"delta", "vega", "volvega"};
        for (int n = (int)H::R(0, 4); n > 0; --n) names.push_back(String_(all[H::R(0, 2)]));
        const auto rep = d.ParameterDerivatives(s, Type(k), names);
        for (int q = 0; q < 3; ++q) {
            bool asked = false;
            for (const auto& n : names) asked = asked || n == all[q];
            const auto it = rep.find(String_(all[q]));
            if (asked != (it != rep.end())) H::Fail("model %d: report of %s: asked %d", m, all[q], (int)asked);
            if (asked && !H::Close(it->second, q == 0 ? g[0] : q == 1 ? g[1] : v * g[1], 1e-13)) H::Fail("model %d type %d forward %.17g deviation %.17g strike %.17g: reported %s %.17g", m, k, f, v, s, all[q], it->second);
        }
        ++H::evaluations;
    }
}
static bool Ask(int m, int k, double f, double s, double p, double guess, double* iv) {
    try { *iv = m ? BachelierIV(f, s, Type(k), p, guess) : BlackIV(f, s, Type(k), p, guess); return true; }
    catch (std::exception&) { return false; }
}
static void Implied(int m) {
    const int k = (int)H::R(0, 2);
    const double F = std::exp(H::U(std::log(0.01), std::log(1e8))), vol = std::exp(H::U(-3, 0.3)), v = m ? vol * F : vol;
    const double f = F, s = m ? f + H::U(-1, 1) * v : f * std::exp(H::U(-1, 1) * vol);
    const double p = Want(m, k, f, v, s);
    for (int w = 0; w < 2; ++w) {
        const double guess = w ? v * std::exp(H::U(-0.7, 0.7)) : 0.0;
        double iv;
        ++H::evaluations;
        if (!Ask(m, k, f, s, p, guess, &iv)) { H::Fail("model %d type %d forward %.17g strike %.17g price %.17g (deviation %.17g) guess %.17g: no implied volatility found", m, k, f, s, p, v, guess); }
        const double err = std::fabs(Want(m, k, f, iv, s) - p);
        if (err > 2e-10 * std::max(1.0, p) + 1e-13 * (f + std::fabs(s)) && !(std::fabs(iv / v - 1) < 1e-9)) H::Fail("model %d type %d forward %.17g strike %.17g price %.17g guess %.17g: implied deviation %.17g misprices by %.17g", m, k, f, s, p, guess, iv, err);
    }
    // below the payout
    const double pay = Pay(k, f, s);
    double iv;
    if (pay > 1e-6 && Ask(m, k, f, s, pay * (1 - std::exp(H::U(-12, -1))), H::B() ? v : 0.0, &iv)) H::Fail("model %d type %d forward %.17g strike %.17g: implied deviation %.17g for a price below the payout", m, k, f, s, iv);
}
static void Arbitrary(int m) {       // any question at all: an answer must reprice
    const int k = (int)H::R(0, 2);
    const double f = std::exp(H::U(-4, 10)), s = f * std::exp(H::U(-3, 3)), p = Pay(k, f, s) + f * std::exp(H::U(-12, 0.5)), guess = H::B() ? 0.0 : std::exp(H::U(-8, 4));
    double iv;
    ++H::evaluations;
    if (!Ask(m, k, f, s, p, guess, &iv)) return;
    const double up = Want(m, k, f, iv * (1 + 1e-9), s), dn = Want(m, k, f, iv * (1 - 1e-9), s), err = std::fabs(Want(m, k, f, iv, s) - p);
    if (err > 2e-10 * std::max(1.0, p) + 1e-13 * (f + s) && !(dn <= p && p <= up)) H::Fail("model %d type %d forward %.17g strike %.17g price %.17g guess %.17g: implied deviation %.17g misprices by %.17g", m, k, f, s, p, guess, iv, err);
}
static void Spot() {
    const double s = std::exp(H::U(-3, 7)), k = s * std::exp(H::U(-0.5, 0.5)), v = H::U(0.1, 0.6), t = H::U(0.05, 5), r = std::sqrt(t);
    if (!H::Close(AAD::BlackScholes<double>(s, k, v, t), Want(0, 0, s, v * r, k), 1e-10 * s)) H::Fail("Black-Scholes call %.17g for spot %.17g strike %.17g vol %.17g maturity %.17g", AAD::BlackScholes<double>(s, k, v, t), s, k, v, t);
    if (!H::Close(AAD::Bachelier<double>(s, k, v * s, t), Want(1, 0, s, v * s * r, k), 1e-10 * s)) H::Fail("Bachelier call %.17g for spot %.17g strike %.17g vol %.17g maturity %.17g", AAD::Bachelier<double>(s, k, v * s, t), s, k, v * s, t);
    H::evaluations += 2;
    try {
        const double iv = AAD::BlackScholesIVol(s, k, Want(0, 0, s, v * r, k), t);
        if (std::fabs(iv - v) > 1e-5 && std::fabs(Want(0, 0, s, iv * r, k) - Want(0, 0, s, v * r, k)) > 1e-8 * std::max(1.0, s)) H::Fail("Black-Scholes implied volatility %.17g instead of %.17g for spot %.17g strike %.17g maturity %.17g", iv, v, s, k, t);
    } catch (std::exception&) {}
    try {
        const double iv = AAD::BachelierIVol(s, k, Want(1, 0, s, v * s * r, k), t);
        if (std::fabs(iv / s - v) > 1e-5 && std::fabs(Want(1, 0, s, iv * r, k) - Want(1, 0, s, v * s * r, k)) > 1e-8 * std::max(1.0, s)) H::Fail("Bachelier implied volatility %.17g instead of %.17g for spot %.17g strike %.17g maturity %.17g", iv, v * s, s, k, t);
    } catch (std::exception&) {}
}
static double Any() { static const double v[] = {0.0, 1.0, -1.0, 0.02, -0.01, 100.0, 1e-3}; return H::R(0, 3) ? (H::B() ? 1 : -1) * std::exp(H::U(-6, 12)) : v[H::R(0, 6)]; }
static void Run() {
    const double f = std::exp(H::U(-6, 14)), vol = std::exp(H::U(-4, 1)), s = f * std::exp(H::U(-2, 2) * vol);
    Prices(0, f, H::R(0, 5) ? vol : 0.0, H::R(0, 9) ? s : f);
    Prices(0, H::B() ? f : std::fabs(Any()), H::R(0, 2) ? 0.0 : vol, -std::fabs(Any()));
    Prices(0, -std::fabs(Any()), H::R(0, 2) ? 0.0 : vol, std::fabs(Any()));
    const double a = Any(), b = Any(), v = H::R(0, 5) ? std::exp(H::U(-5, 10)) : 0.0;
    Prices(1, a, v, b);
    Prices(1, f, f * vol, f * (1 + H::U(-2, 2) * vol));
    Greeks(0, f, vol, s);
    Greeks(1, f, f * vol, f * (1 + H::U(-2, 2) * vol));
    if (v > 0 && std::fabs(a - b) < 8 * v) Greeks(1, a, v, b);
    for (int m = 0; m < 2; ++m) { Implied(m); Arbitrary(m); }
    Spot();
}
void Search() { while (H::Time()) Run(); }
void Replay() {
    for (int m = 0; m < 2; ++m)
        if (H::Has("vol") && H::Has("fwd") && H::Has("strike")) {
            const double f = H::D("fwd"), v = H::D("vol"), s = H::D("strike");
            if (v >= 0 && (m || f > 0 || s > 0) && std::fabs(f) < 1e9 && std::fabs(s) < 1e9 && v < 1e9) {
                Prices(m, f, v, s);
                if (v > 1e-8 && (m || (f > 0 && s > 0))) Greeks(m, f, v, s);
            }
        }
    H::secs = 4;
    Search();
}
