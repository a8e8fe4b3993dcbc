#include "time.inc"
#include "h.hpp"
#include "cal.hpp"
using namespace Dal;
static const long LAST = 12L * 2149 + 4;
static int Dow(long n) { return (int)((n - 25569 + 4) % 7); }
static std::map<std::string, Handle_<Date::Increment_>> incs;
static const Date::Increment_& Inc(const std::string& s) {
    auto& p = incs[s];
    if (p.IsEmpty()) p = Date::ParseIncrement(String_(s.c_str()));
    return *p;
}
static long Fwd(const std::string& s, long n, bool f) {
    const Date_ d = Date::FromExcel((int)n);
    return Date::ToExcel(f ? Inc(s).FwdFrom(d) : Inc(s).BackFrom(d));
}
static void Req(const std::string& s, long n, bool f, long want) {
    ++H::evaluations;
    const long got = Fwd(s, n, f);
    long y; int m, d, gm, gd, wm, wd; long gy, wy;
    if (got == want) return;
    FromDayNum(n, &y, &m, &d); FromDayNum(got, &gy, &gm, &gd); FromDayNum(want, &wy, &wm, &wd);
    H::Fail("'%s' %s from %ld-%d-%d: %ld-%d-%d, expected %ld-%d-%d", s.c_str(), f ? "forward" : "backward", y, m, d, gy, gm, gd, wy, wm, wd);
}
static bool Member(const std::string& k, long n) {
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    if (k == "CDS") return d == 20 && m % 3 == 0;
    return d >= 15 && d <= 21 && Dow(n) == 3 && (k == "IMM1" || m % 3 == 0);
}
static long AddM(long n, long k) {
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    const long t = 12 * y + m - 1 + k;
    const long ty = t / 12; const int tm = (int)(t % 12) + 1;
    return DayNum(ty, tm, std::min(d, Dim(ty, tm)));
}
static bool AddOk(long n, long k) {
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    const long t = 12 * y + m - 1;
    return t <= LAST && t + k >= 12 * 1970 && t + k <= LAST;
}
static const long LO = 25569, HI = 25568 + 65535;
static void Tenor(long n, int k, const char* u, bool f) {
    const std::string s = std::to_string(k) + u;
    const int sg = f ? 1 : -1;
    if (*u == 'Y' || *u == 'M') { const long mm = sg * k * (*u == 'Y' ? 12 : 1); if (AddOk(n, mm)) Req(s, n, f, AddM(n, mm)); }
    else { const long w = n + sg * k * (*u == 'W' ? 7 : 1); if (w >= LO && w <= HI) Req(s, n, f, w); }
}
static void Compound(long n, bool f) {
    static const char* parts[] = {"1M", "IMM", "2W", "3CD", "EOM", "1Y", "CDS", "IMM1"};
    const std::string a = parts[H::R(0, 7)], b = parts[H::R(0, 7)], c = parts[H::R(0, 7)];
    if (n < LO + 2000 || n > HI - 2000) return;
    Req(a + "&" + b, n, f, Fwd(b, Fwd(a, n, f), f));
    Req(a + "&" + b + "&" + c, n, f, Fwd(c, Fwd(b, Fwd(a, n, f), f), f));
}
static void One(long n) {
    for (const char* u : {"Y", "M", "W", "CD"}) for (bool f : {true, false}) Tenor(n, (int)H::R(0, 40), u, f);
}
void Replay() {
    const long n = H::I("serial", 15000) + 25568;
    for (int k : {(int)H::I("n", 1)}) for (const char* u : {"Y", "M", "W", "CD"}) for (bool f : {true, false}) Tenor(n, k, u, f);
}
static void Special() {
    for (std::string k : {"IMM", "IMM1", "CDS"}) {
        long last = 0;
        for (long n = LO + 1; n <= HI - 400; ++n) {          // backward: last member strictly before n
            if (Member(k, n - 1)) last = n - 1;
            if (n >= LO + 200 && last) Req(k, n, false, last);
        }
        last = 0;
        for (long n = HI - 1; n >= LO + 200; --n) {
            if (Member(k, n + 1)) last = n + 1;
            if (n <= HI - 400 && last) Req(k, n, true, last);
        }
    }
    for (long n = LO; n <= HI - 40; ++n) {
        long y; int m, d;
        FromDayNum(n, &y, &m, &d);
        if (12 * y + m - 1 <= LAST) Req("EOM", n, true, DayNum(y, m, Dim(y, m)));
        if (n >= LO + 31) Req("EOM", n, false, DayNum(y, m, 1) - 1);
    }
}
void Search() {
    Special();
    for (long n = LO; n <= HI; n += 1) One(n);
    while (H::Time()) for (int k = 0; k < 100; ++k) { const long n = H::R(LO, HI); One(n); Compound(n, H::B()); }
}
