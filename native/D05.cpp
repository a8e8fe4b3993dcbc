#include "time.inc"
#include "h.hpp"
#include "cal.hpp"
#include <set>
using namespace Dal;
static int Dow(long n) { return (int)((n - 25569 + 4) % 7); }
static bool Wk(long n) { return Dow(n) == 0 || Dow(n) == 6; }
static long LO = 25569, HI = 25568 + 65535;
struct Ctr { std::string name; std::set<long> h, w; };
static int serial = 0;
static Ctr Make(long base, long span) {
    Ctr c;
    c.name = "C" + std::to_string(1000 + serial++);
    const int style = (int)H::R(0, 4);
    const int nh = style == 0 ? 0 : (int)H::R(0, span / 3), nw = style == 1 ? 0 : (int)H::R(0, span / 8);
    for (int i = 0; i < nh; ++i) { long d = base + H::R(0, span); if (!Wk(d)) c.h.insert(d); }
    for (int i = 0; i < nw; ++i) { long d = base + H::R(0, span); if (Wk(d)) c.w.insert(d); }
    if (style == 2) for (long d = base + 20; d < base + 45; ++d) if (!Wk(d)) c.h.insert(d);      // long closure
    Vector_<Date_> hs, ws;
    for (long d : c.h) hs.push_back(Date::FromExcel((int)d));
    for (long d : c.w) ws.push_back(Date::FromExcel((int)d));
    Holidays::AddCenter(String_(c.name.c_str()), hs, ws);
    return c;
}
static std::string Show(long n) { long y; int m, d; FromDayNum(n, &y, &m, &d); char b[40]; snprintf(b, 40, "%ld-%02d-%02d", y, m, d); return b; }
static void Batch() {
    const long base = H::R(LO + 500, HI - 1500);
    const long kind = H::R(0, 7);
    const long span = kind < 5 ? 90 : kind < 7 ? 300 : 1400;
    std::vector<Ctr> cs;
    const int nc = (int)H::R(0, 3);
    for (int i = 0; i < nc; ++i) cs.push_back(Make(base, span));
    std::string nm;
    std::vector<int> ord;
    for (int i = 0; i < nc; ++i) ord.push_back(i);
    std::shuffle(ord.begin(), ord.end(), H::rng);
    for (int i : ord) nm += (nm.empty() ? "" : " ") + cs[i].name;
    const Holidays_ hol((String_(nm.c_str())));
    auto isw = [&](long d) { for (auto& c : cs) if (c.w.count(d)) return true; return false; };
    auto ish = [&](long d) { for (auto& c : cs) if (c.h.count(d)) return true; return false; };
    auto biz = [&](long d) { return isw(d) || (!Wk(d) && !ish(d)); };
    std::vector<CountBusDays_> counters;
    counters.emplace_back(hol);
    const Holidays_ hol2((String_(nm.c_str())));          // after the combination was built
    counters.emplace_back(hol2);
    auto D = [](long n) { return Date::FromExcel((int)n); };
    const long a0 = base - 20, b0 = base + span + 20;
    for (const Holidays_* h : {&hol, &hol2})
        for (long d = a0; d <= b0; ++d) {
            ++H::evaluations;
            if (h->IsHoliday(D(d)) != ish(d)) H::Fail("IsHoliday(%s) in '%s' (%d centres)", Show(d).c_str(), nm.c_str(), nc);
            if (h->IsWorkWeekends(D(d)) != isw(d)) H::Fail("IsWorkWeekends(%s) in '%s'", Show(d).c_str(), nm.c_str());
            long f = d, p = d;
            while (!biz(f)) ++f;
            while (!biz(p)) --p;
            if (Date::ToExcel(Holidays::NextBus(*h, D(d))) != f) H::Fail("roll forward from %s gives %s, expected %s", Show(d).c_str(), Show(Date::ToExcel(Holidays::NextBus(*h, D(d)))).c_str(), Show(f).c_str());
            if (Date::ToExcel(Holidays::PrevBus(*h, D(d))) != p) H::Fail("roll backward from %s gives %s, expected %s", Show(d).c_str(), Show(Date::ToExcel(Holidays::PrevBus(*h, D(d)))).c_str(), Show(p).c_str());
        }
    std::vector<long> pre(b0 - a0 + 1, 0);
    for (long d = a0; d < b0; ++d) pre[d - a0 + 1] = pre[d - a0] + (biz(d) ? 1 : 0);
    for (int k = 0; k < 400; ++k) {
        const long a = H::R(a0, b0), k7 = H::R(0, 3), b = k7 < 2 ? H::R(a0, b0) : k7 == 2 ? a + 7 * H::R(0, (b0 - a) / 7) : std::min(b0, a + H::R(0, 15));
        const long want = b <= a ? 0 : pre[b - a0] - pre[a - a0];
        for (auto& c : counters) {
            ++H::evaluations;
            const int got = c(D(a), D(b));
            if (got != want) H::Fail("business days from %s to %s with %d centres: %d, expected %ld", Show(a).c_str(), Show(b).c_str(), nc, got, want);
        }
    }
    for (int k = 0; k < 60; ++k) {
        const long a = H::R(a0 + 0, b0);
        const int n = (int)H::R(0, 12);
        for (bool f : {true, false}) {
            long x = a;
            for (int j = 0; j < n; ++j) { x += f ? 1 : -1; while (!biz(x)) x += f ? 1 : -1; }
            if (nc > 0) while (!biz(x)) x += f ? 1 : -1;
            const auto inc = Date::NBusDays(n, hol);
            const long got = Date::ToExcel(f ? inc->FwdFrom(D(a)) : inc->BackFrom(D(a)));
            ++H::evaluations;
            if (got != x && (n > 0 || nc > 0)) H::Fail("%d business days %s from %s: %s, expected %s", n, f ? "later" : "earlier", Show(a).c_str(), Show(got).c_str(), Show(x).c_str());
            if (nc > 0) {
                static const char* us[] = {"W", "CD", "M", "Y", "BD"};
                for (const char* u : us) {
                    const std::string plain = std::to_string(n % 4) + u, adj = plain + ";" + nm;
                    long want;
                    if (std::string(u) == "BD") { want = a; for (int j = 0; j < n % 4; ++j) { want += f ? 1 : -1; while (!biz(want)) want += f ? 1 : -1; } }
                    else { const auto i0 = Date::ParseIncrement(String_(plain.c_str())); want = Date::ToExcel(f ? i0->FwdFrom(D(a)) : i0->BackFrom(D(a))); }
                    while (!biz(want)) want += f ? 1 : -1;
                    const auto i1 = Date::ParseIncrement(String_(adj.c_str()));
                    const long g = Date::ToExcel(f ? i1->FwdFrom(D(a)) : i1->BackFrom(D(a)));
                    ++H::evaluations;
                    if (g != want) H::Fail("'%s' %s from %s: %s, expected %s", adj.c_str(), f ? "forward" : "backward", Show(a).c_str(), Show(g).c_str(), Show(want).c_str());
                }
            }
        }
    }
}
void Replay() { for (int k = 0; k < 200 && H::Time(); ++k) Batch(); }
void Search() { while (H::Time() && serial < 3000) Batch(); }
