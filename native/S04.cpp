#include <dal/script/parser.cpp>
#include "script.inc"
#include <set>
// every text is parsed or refused with an exception; what is accepted can be evaluated
static const char* TOK[] = {"x", "y", "Alive", "K0", "if", "then", "else", "end", "and", "or", "pays", "spot", "(", ")", "max", "min", "log", "sqrt", "exp", "DCF", "+", "-", "*", "/", "^", "=", "!=", "<", ">", "<=", ">=", ",", ";", ":", "1", "2.5", ".", "0.1", "2023", "ACT365F", "ACT", "_z", "7a", "spot()", "\n"};
static std::vector<std::string> Tokens(const std::string& s) {
    std::vector<std::string> r;
    for (const auto& t : Tokenize(String_(s))) r.push_back(std::string(t.c_str()));
    return r;
}
static bool Name(const std::string& s) {
    if (!(isalpha((unsigned char)s[0]) || s[0] == '_')) return false;
    std::string u;
    for (char c : s) u += (char)toupper(c);
    static const std::set<std::string> res = {"IF", "END", "THEN", "ELSE", "DCF", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN", "LOG", "SQRT", "EXP"};
    return !res.count(u) && u != "K0";
}
// a recogniser of the documented grammar, independent of the parser under test
struct Rec {
    std::vector<std::string> t; size_t p = 0, e = 0;
    static std::string Up(const std::string& s) { std::string u; for (char c : s) u += (char)toupper(c); return u; }
    std::string Cur() const { return p < e ? Up(t[p]) : ""; }
    bool Is(const char* s) const { return p < e && Cur() == s; }
    bool Match(size_t& close) const { int o = 1; for (size_t q = p + 1; q < t.size() && q < lim; ++q) { o += (t[q][0] == '(') - (t[q][0] == ')'); if (!o) { close = q; return true; } } return false; }
    size_t lim = (size_t)-1;
    bool Expr() { if (!Term()) return false; while (p < e && (t[p] == "+" || t[p] == "-")) { ++p; if (!Term()) return false; } return true; }
    bool Term() { if (!Pow()) return false; while (p < e && (t[p] == "*" || t[p] == "/")) { ++p; if (!Pow()) return false; } return true; }
    bool Pow() { if (!Un()) return false; while (p < e && t[p] == "^") { ++p; if (!Un()) return false; } return true; }
    bool Un() { if (p < e && (t[p] == "+" || t[p] == "-")) { ++p; return Un(); } return Atom(); }
    bool Num(const std::string& s) const { char* q; strtod(s.c_str(), &q); return q != s.c_str() && !*q; }
    bool Atom() {
        if (p >= e) return false;
        if (t[p] == "(") { size_t c; if (!Match(c) || c >= e) return false; const size_t e0 = e; ++p; e = c; const bool ok = Expr() && p == c; e = e0; p = c + 1; return ok; }
        const std::string u = Cur();
        if (isdigit((unsigned char)u[0]) || u[0] == '.') { const bool ok = Num(t[p]); ++p; return ok; }
        int lo = -1, hi = 0;
        if (u == "SPOT") lo = hi = 0; else if (u == "LOG" || u == "SQRT" || u == "EXP") lo = hi = 1; else if (u == "MAX" || u == "MIN") { lo = 2; hi = 1000; }
        if (lo >= 0) {
            ++p;
            if (p >= e || t[p] != "(") return false;
            size_t c; if (!Match(c) || c >= e) return false;
            ++p;
            int n = 0;
            while (p != c) { if (!Expr()) return false; ++n; if (p < e && t[p] == ",") ++p; else if (p != c) return false; if (p > c) return false; }
            p = c + 1;
            return n >= lo && n <= hi;
        }
        if (Name(t[p]) || u == "K0") { ++p; return true; }
        return false;
    }
};
static void Text(const std::string& s, bool wellFormed) {
    ++H::evaluations;
    const std::map<String_, double> k = {{String_("K0"), 3.0}};
    Event_ e;
    bool ok = true;
    std::string why;
    try { Parser_ p(k); e = p.Parse(String_(s)); } catch (const std::exception& x) { ok = false; why = x.what(); }
    if (wellFormed && !ok) H::Fail("a well-formed script is refused (%s):\n%s", why.c_str(), s.c_str());
    if (!ok) return;
    // accepted: indexing, compiling and evaluating it stays within its own variables
    VarIndexer_ ix;
    for (auto& st : e) st->Accept(ix);
    const Vector_<> init(ix.VarNames().size(), 0.0);
    Evaluator_<double> ev(init, Vector_<>(1, 3.0));
    AAD::Scenario_<double> sc(1);
    sc[0].spot_ = 100; sc[0].numeraire_ = 1;
    ev.SetScenario(&sc); ev.SetCurEvt(0); ev.Init();
    for (auto& st : e) st->Accept(ev);
    if (ev.VarVals().size() != init.size()) H::Fail("the variables changed in number");
    if (ev.ConstVarVals()[0] != 3.0) H::Fail("a named constant was changed by\n%s", s.c_str());
    for (const auto& nm : ix.VarNames()) if (!Name(std::string(nm.c_str()))) H::Fail("'%s' became a variable in\n%s", nm.c_str(), s.c_str());
    // a right-hand side accepted by the parser is an expression of the grammar
    const auto t = Tokens(s);
    if (t.size() > 2 && t[1] == "=" && Name(t[0]) && std::find_if(t.begin() + 2, t.end(), [](const std::string& q) { return q == "=" || Rec::Up(q) == "PAYS" || Rec::Up(q) == "IF" || Rec::Up(q) == "DCF"; }) == t.end()) {
        Rec r; r.t = t; r.p = 2; r.e = t.size();
        if (!r.Expr() || r.p != t.size()) H::Fail("accepted, but the right-hand side is not an expression:\n%s", s.c_str());
    }
}
static void One(int k) {
    std::string s;
    const int m = (int)H::R(0, 5);
    if (m <= 1) {                                     // token soup, mostly behind a proper beginning
        if (m == 0) s = H::B() ? "x = " : H::B() ? "if x > 1 " : "if x > 1 then x = 1 ";
        for (long n = H::R(1, 12); n > 0; --n) s += std::string(TOK[H::R(0, (long)(sizeof TOK / sizeof *TOK) - 1)]) + " ";
        Text(s, false);
        return;
    }
    G::opt = G::Opt();
    G::opt.vars = (int)H::R(1, 4); G::opt.depth = (int)H::R(1, 3); G::opt.nest = (int)H::R(0, 2); G::opt.eps = H::B();
    G::named.clear();
    if (H::B()) G::named.push_back(3.0);
    s = G::T(G::Block(G::opt.nest, 1, 3), "");
    if (m == 2) { Text(s, true); return; }
    auto t = Tokens(s);                               // a well-formed script, damaged
    if (m == 3) t.resize((size_t)H::R(1, (long)t.size()));
    else for (long n = H::R(1, 2); n > 0 && !t.empty(); --n) {
        const size_t q = (size_t)H::R(0, (long)t.size() - 1);
        switch (H::R(0, 3)) {
        case 0: t.erase(t.begin() + q); break;
        case 1: t.insert(t.begin() + q, t[(size_t)H::R(0, (long)t.size() - 1)]); break;
        case 2: t[q] = TOK[H::R(0, (long)(sizeof TOK / sizeof *TOK) - 1)]; break;
        default: std::swap(t[q], t[(size_t)H::R(0, (long)t.size() - 1)]);
        }
    }
    s.clear();
    for (auto& q : t) s += q + " ";
    Text(s, false);
}
static void Dcf() {
    static const char* part[] = {"ACT365F", "ACT_365F", ",", ",", "2023-01-10", "2023-07-10", "(", ")", "x"};
    std::string s = "x = DCF";
    for (long n = H::R(0, 8); n > 0; --n) s += std::string(part[H::R(0, 8)]);
    if (H::B()) s = std::string("x = DCF(ACT365F") + (H::B() ? ", 2023-01-10" : "") + (H::B() ? ", 2023-07-10" : "") + (H::B() ? ")" : "");
    if (H::B()) s += " y = 1";
    Text(s, false);
    // three arguments are a constant; more or fewer are refused
    const int d = (int)H::R(1, 28), n = (int)H::R(0, 6);
    static const char* arg[] = {"ACT365F", "2023-01-%02d", "2023-07-10", "7", "2024-01-01", "y"};
    std::string u = "x = DCF(";
    for (int q = 0; q < n; ++q) { char b[32]; snprintf(b, sizeof b, arg[q], d); u += (q ? ", " : "") + std::string(b); }
    u += ")";
    bool ok = true;
    Event_ e;
    try { Parser_ p({}); e = p.Parse(String_(u)); } catch (const std::exception&) { ok = false; }
    if (ok != (n == 3)) H::Fail("a day count fraction of %d arguments is %s: %s", n, ok ? "accepted" : "refused", u.c_str());
    if (!ok) return;
    VarIndexer_ ix;
    for (auto& st : e) st->Accept(ix);
    Evaluator_<double> ev(Vector_<>(1, 0.0), Vector_<>());
    AAD::Scenario_<double> sc(1);
    ev.SetScenario(&sc); ev.SetCurEvt(0); ev.Init();
    for (auto& st : e) st->Accept(ev);
    if (fabs(ev.VarVals()[0] - (190 - (d - 1) - 0) / 365.0 + 0.0) > 1e-12) H::Fail("%s is %.17g", u.c_str(), ev.VarVals()[0]);
}
void Search() { for (int k = 0; H::Time(); ++k) { One(k); if (k % 16 == 0) Dcf(); } }
void Replay() { Search(); }
