// Random scripts with an interpreter of their own: the text goes to the real parser, the tree is evaluated here.
#include <dal/platform/platform.hpp>
#include <dal/script/event.hpp>
#include <dal/script/parser.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/cell.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/time/dateutils.hpp>
#include "h.hpp"
#include <memory>
#include <algorithm>
using namespace Dal;
using namespace Dal::Script;

namespace G {
    struct E { char k; double v = 0; int i = 0; std::vector<E> a; };   // c const, v var, k named constant, s spot, + - * / ^ M m (max/min) L Q X (log sqrt exp) u (unary minus) p (unary plus)
    struct C { char k; std::vector<E> e; std::vector<C> c; double eps = -1; };                // < > l(<=) g(>=) = ! & |
    struct S { char k; int var = 0; E e; C c; std::vector<S> t, f; bool hasElse = false; };   // = pays if
    typedef std::vector<double> V;
    struct Opt { int vars = 4, depth = 3, nest = 2; bool func = true, eq = true, div = true, consts = true, eps = false; bool cont = false, tiny = false; };
    static Opt opt;
    static std::vector<double> named;            // values of the named constants K0..
    static const char* VN[] = {"x", "Alive", "pay_off", "Y2", "prev", "w"};

    static E Const(double v) { E e{'c'}; e.v = v; return e; }
    static double Num() {
        if (opt.tiny && H::R(0, 5) == 0) { char b[40]; snprintf(b, 40, "%ldE-%d", H::R(1, 9), H::B() ? 14 : 9); return atof(b); }
        switch (H::R(0, 4)) {
        case 0: return 0;
        case 1: return (double)H::R(0, 5);
        case 2: return 0.25 * H::R(0, 40);
        case 3: return 80 + 5 * H::R(0, 8);
        default: return H::R(1, 999) / 100.0;
        }
    }
    static E Expr(int d) {
        if (d <= 0 || H::R(0, 3) == 0) {
            switch (H::R(0, 4)) {
            case 0: return Const(Num());
            case 1: { E e{'s'}; return e; }
            case 2: if (opt.consts && !named.empty()) { E e{'k'}; e.i = (int)H::R(0, (long)named.size() - 1); return e; }
            default: { E e{'v'}; e.i = (int)H::R(0, opt.vars - 1); return e; }
            }
        }
        const char* ops = "+-*+-*/^MmuLQXp";
        const char k = ops[H::R(0, 14)];
        E e{k};
        if (k == '^') { e.a = {Expr(d - 1), Const((double)H::R(0, 3))}; return e; }
        if (k == '/') { e.a = {Expr(d - 1), opt.div && H::B() ? Expr(d - 1) : Const(H::R(1, 9) / 2.0)}; return e; }
        if (strchr("LQX", k)) {
            if (!opt.func) { e.k = '+'; e.a = {Expr(d - 1), Expr(d - 1)}; return e; }
            e.a = {Expr(d - 1)};
            if (k == 'X') { E q{'/'}; q.a = {e.a[0], Const(50)}; e.a = {q}; }
            if (k != 'X' && H::R(0, 4)) { E sq{'*'}; sq.a = {e.a[0], e.a[0]}; E pl{'+'}; pl.a = {sq, Const(1)}; e.a = {pl}; }
            return e;
        }
        if (k == 'u' || k == 'p') { e.a = {Expr(d - 1)}; return e; }
        const int n = (k == 'M' || k == 'm') ? (H::R(0, 3) ? 2 : (int)H::R(3, 4)) : 2;
        for (int i = 0; i < n; ++i) e.a.push_back(Expr(d - 1));
        return e;
    }
    static C Cond(int d) {
        if (d > 0 && H::R(0, 2) == 0) { C c{H::B() ? '&' : '|'}; c.c = {Cond(d - 1), Cond(d - 1)}; return c; }
        const char* ks = opt.eq ? "<>lg=!" : "<>lg";
        C c{ks[H::R(0, opt.eq ? 5 : 3)]};
        c.e = {Expr(opt.depth - 1), H::B() ? Const(Num()) : Expr(opt.depth - 1)};
        if (H::R(0, 2) == 0) c.e[1] = Const(Num());
        if (opt.eps && H::B()) c.eps = H::R(1, 300) / 100.0;
        return c;
    }
    static S Stat(int nest);
    static std::vector<S> Block(int nest, int lo, int hi) { std::vector<S> r; for (long n = H::R(lo, hi); n > 0; --n) r.push_back(Stat(nest)); return r; }
    static S Stat(int nest) {
        S s{'='};
        s.var = (int)H::R(0, opt.vars - 1);
        const long r = H::R(0, 9);
        if (r < 3 && nest > 0) {
            s.k = 'i'; s.c = Cond(2); s.t = Block(nest - 1, 0, 3); s.hasElse = H::B();
            if (s.hasElse) s.f = Block(nest - 1, 0, 3);
        } else if (r < 5) { s.k = 'p'; s.e = Expr(opt.depth); }
        else s.e = H::R(0, 3) ? Expr(opt.depth) : Const(Num());
        return s;
    }

    // ---- text
    static std::string Case(const char* w) { std::string s = w; for (auto& c : s) c = (char)(H::B() ? toupper(c) : tolower(c)); return s; }
    static std::string T(double v) { char b[40]; snprintf(b, 40, v != 0 && v < 1e-4 ? "%.25f" : "%g", v); return b; }
    static int Prec(const E& e) { switch (e.k) { case '+': case '-': return 1; case '*': case '/': return 2; case '^': return 3; case 'u': case 'p': return 4; default: return 5; } }
    static std::string T(const E& e);
    static std::string P_(const E& e, int min) { const bool par = Prec(e) < min || H::R(0, 19) == 0; return par ? "(" + T(e) + ")" : T(e); }
    static std::string T(const E& e) {
        switch (e.k) {
        case 'c': return T(e.v);
        case 'v': return H::R(0, 3) ? VN[e.i] : Case(VN[e.i]);
        case 'k': return "K" + std::to_string(e.i);
        case 's': return Case("spot") + "()";
        case '+': case '-': return P_(e.a[0], 1) + " " + e.k + " " + P_(e.a[1], 2);
        case '*': case '/': return P_(e.a[0], 2) + e.k + P_(e.a[1], 3);
        case '^': return P_(e.a[0], 3) + "^" + P_(e.a[1], 4);
        case 'u': return "-" + P_(e.a[0], 4);
        case 'p': return "+" + P_(e.a[0], 4);
        case 'L': return Case("log") + "(" + T(e.a[0]) + ")";
        case 'Q': return Case("sqrt") + "(" + T(e.a[0]) + ")";
        case 'X': return Case("exp") + "(" + T(e.a[0]) + ")";
        default: {
            std::string s = Case(e.k == 'M' ? "max" : "min") + "(";
            for (size_t i = 0; i < e.a.size(); ++i) s += (i ? ", " : "") + T(e.a[i]);
            return s + ")";
        }
        }
    }
    static std::string T(const C& c) {
        if (c.k == '|') return T(c.c[0]) + " " + Case("or") + " " + (c.c[1].k == '|' ? "(" + T(c.c[1]) + ")" : T(c.c[1]));
        if (c.k == '&') {
            std::string l = T(c.c[0]), r = T(c.c[1]);
            if (c.c[0].k == '|') l = "(" + l + ")";
            if (c.c[1].k == '|' || c.c[1].k == '&') r = "(" + r + ")";
            return l + " " + Case("and") + " " + r;
        }
        const char* o = c.k == '<' ? "<" : c.k == '>' ? ">" : c.k == 'l' ? "<=" : c.k == 'g' ? ">=" : c.k == '=' ? "=" : "!=";
        std::string l = T(c.e[0]);
        if (l[0] == '(') l = "0 + " + l;               // a leading parenthesis would open a condition
        std::string s = l + " " + o + " " + T(c.e[1]);
        if (c.eps >= 0) s += std::string(H::B() ? ";" : ":") + T(c.eps);
        return H::R(0, 5) ? s : "(" + s + ")";
    }
    static std::string T(const std::vector<S>& b, const std::string& ind);
    static std::string T(const S& s, const std::string& ind) {
        if (s.k == '=') return ind + VN[s.var] + " = " + T(s.e) + "\n";
        if (s.k == 'p') return ind + VN[s.var] + " " + Case("pays") + " " + T(s.e) + "\n";
        return ind + Case("if") + " " + T(s.c) + " " + Case("then") + "\n" + T(s.t, ind + "  ") + (s.hasElse ? ind + Case("else") + "\n" + T(s.f, ind + "  ") : "") + ind + Case("end") + "\n";
    }
    static std::string T(const std::vector<S>& b, const std::string& ind) { std::string r; for (auto& s : b) r += T(s, ind); return r; }

    // ---- meaning
    static double Ev(const E& e, const V& x, double spot) {
        auto A = [&](int i) { return Ev(e.a[i], x, spot); };
        switch (e.k) {
        case 'c': return e.v;
        case 'v': return x[e.i];
        case 'k': return named[e.i];
        case 's': return spot;
        case '+': return A(0) + A(1);
        case '-': return A(0) - A(1);
        case '*': return A(0) * A(1);
        case '/': return A(0) / A(1);
        case '^': return std::pow(A(0), A(1));
        case 'u': return -A(0);
        case 'p': return A(0);
        case 'L': return std::log(A(0));
        case 'Q': return std::sqrt(A(0));
        case 'X': return std::exp(A(0));
        default: {
            double r = A(0);
            for (size_t i = 1; i < e.a.size(); ++i) { const double y = A((int)i); if (e.k == 'M' ? y > r : y < r) r = y; }
            return r;
        }
        }
    }
    static bool finite = true;          // every value met so far is finite (beyond that nothing is compared)
    static bool tie = false;            // some comparison was within rounding of its boundary without being on it
    static bool onBoundary = false;     // an inequality was exactly on its boundary
    static double minOff = 1e300;       // smallest non-zero distance
    static double minGap = 1e300;       // smallest distance of a comparison from its boundary
    static std::vector<char> contVar(8, 1);   // variables that may take a continuum of values (set by Discrete)
    static bool Cont(const E& e) { if (e.k == 's' || (e.k == 'v' && contVar[e.i])) return true; for (auto& a : e.a) if (Cont(a)) return true; return false; }
    static bool Spread(const std::vector<S>& b) {
        bool r = false;
        for (auto& s : b) {
            if (s.k == 'i') { r |= Spread(s.t); r |= Spread(s.f); }
            else if (!contVar[s.var] && (s.k == 'p' || Cont(s.e))) { contVar[s.var] = 1; r = true; }
        }
        return r;
    }
    static double Ev1(const E& e, const V& x, double spot) { for (auto& a : e.a) Ev1(a, x, spot); const double v = Ev(e, x, spot); if (!std::isfinite(v) || std::fabs(v) > 1e12) finite = false; return v; }
    static bool Cv(const C& c, const V& x, double spot) {
        if (c.k == '&') { const bool a = Cv(c.c[0], x, spot), b = Cv(c.c[1], x, spot); return a && b; }
        if (c.k == '|') { const bool a = Cv(c.c[0], x, spot), b = Cv(c.c[1], x, spot); return a || b; }
        const double a = Ev1(c.e[0], x, spot), b = Ev1(c.e[1], x, spot), d = c.k == '<' || c.k == 'l' ? b - a : a - b;
        if (!std::isfinite(d)) finite = false;
        minGap = std::min(minGap, std::fabs(d));
        if (!Cont(c.e[0]) && !Cont(c.e[1])) {} else if (d == 0) { if (c.k != '=' && c.k != '!') onBoundary = true; } else minOff = std::min(minOff, std::fabs(d));
        if (d != 0 && std::fabs(d) < 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)})) tie = true;
        switch (c.k) { case '<': case '>': return d > 0; case 'l': case 'g': return d >= 0; case '=': return d == 0; default: return d != 0; }
    }
    static void Run(const std::vector<S>& b, V& x, double spot, double num, bool past = false) {
        for (auto& s : b) {
            if (s.k == '=') x[s.var] = Ev1(s.e, x, spot);
            else if (s.k == 'p') { const double v = Ev1(s.e, x, spot); if (!past) x[s.var] += v / num; }
            else { const bool t = Cv(s.c, x, spot); Run(t ? s.t : s.f, x, spot, num, past); }
            for (double v : x) if (!std::isfinite(v)) finite = false;
        }
    }
    struct Prog {
        std::vector<std::vector<S>> past, future;
        std::vector<std::pair<Cell_, String_>> rows;
        std::string text;
    };
    static Prog Make() {
        Prog p;
        named.clear();
        p.text.clear();
        Global::Dates_::SetEvaluationDate(Date_(2023, 1, 10));
        if (opt.consts && H::B()) {
            for (long n = H::R(1, 2); n > 0; --n) {
                const double v = Num();
                p.rows.push_back({Cell_(String_("K" + std::to_string(named.size()))), String_(T(v))});
                p.text += "K" + std::to_string(named.size()) + ": " + T(v) + "\n";
                named.push_back(v);
            }
        }
        const long np = H::R(0, 4) ? 0 : H::R(1, 2), nf = H::R(1, 3);
        for (long k = 0; k < np + nf; ++k) {
            auto b = Block(opt.nest, 1, 5);
            if (k == 0) for (int v = 0; v < opt.vars; ++v) if (H::B()) { S s{'='}; s.var = v; s.e = Const(Num()); b.insert(b.begin(), s); }
            const std::string t = T(b, "");
            const Date_ d = Date_(2023, 1, 10).AddDays((int)(k < np ? -20 * (np - k) : 30 * (k - np)));
            p.text += std::string(k < np ? "past" : "future") + " event:\n" + t;
            p.rows.push_back({Cell_(d), String_(t)});
            (k < np ? p.past : p.future).push_back(b);
        }
        return p;
    }
    static ScriptProduct_ Product(const Prog& p) {
        Vector_<Cell_> d; Vector_<String_> e;
        for (auto& r : p.rows) { d.push_back(r.first); e.push_back(r.second); }
        return ScriptProduct_(d, e);
    }
    struct Scen { V spot, num; };
    static Scen Scenario(const Prog& p) {
        Scen s;
        for (size_t i = 0; i < p.future.size(); ++i) { s.spot.push_back(H::R(0, 3) ? H::U(50, 150) : 100.0 + 5 * H::R(-3, 3)); s.num.push_back(H::B() ? 1.0 : H::U(0.5, 2)); }
        return s;
    }
    static V Meaning(const Prog& p, const Scen& s) {
        V x(opt.vars, 0.0);
        finite = true; tie = false; onBoundary = false; minOff = minGap = 1e300;
        for (auto& b : p.past) Run(b, x, 30.0, 1.0, true);
        minGap = 1e300;
        for (size_t i = 0; i < p.future.size(); ++i) Run(p.future[i], x, s.spot[i], s.num[i]);
        return x;
    }
    template <class T_> static AAD::Scenario_<T_> Real(const Scen& s) {
        AAD::Scenario_<T_> r(s.spot.size());
        for (size_t i = 0; i < s.spot.size(); ++i) { r[i].spot_ = T_(s.spot[i]); r[i].numeraire_ = T_(s.num[i]); }
        return r;
    }
    // values of the generator's variables in the product (0 where the product does not know the name)
    template <class W> static V Named(const ScriptProduct_& p, const W& vals) {
        V x(opt.vars, 0.0);
        for (size_t i = 0; i < p.VarNames().size(); ++i) for (int v = 0; v < opt.vars; ++v) if (p.VarNames()[i] == String_(VN[v])) x[v] = (double)vals[i];
        return x;
    }
    static std::string Show(const V& x) { std::string s; for (size_t i = 0; i < x.size(); ++i) { char b[64]; snprintf(b, 64, "%s%s=%.17g", i ? " " : "", VN[i], x[i]); s += b; } return s; }
    static void Same(const char* what, const Prog& p, const Scen& s, const V& got, const V& want, double tol = 0) {
        ++H::evaluations;
        for (size_t i = 0; i < want.size(); ++i)
            if (!(got[i] == want[i] || std::fabs(got[i] - want[i]) <= tol * std::max(1.0, std::fabs(want[i])))) {
                std::string sc;
                for (size_t k = 0; k < s.spot.size(); ++k) { char b[80]; snprintf(b, 80, " (spot %.17g numeraire %.17g)", s.spot[k], s.num[k]); sc += b; }
                H::Fail("%s: got %s, expected %s\nscenario%s\nscript\n%s", what, Show(got).c_str(), Show(want).c_str(), sc.c_str(), p.text.c_str());
            }
    }
}
