#include "base.inc"
#include "/repo/dal/time/periodlength.cpp"
#include "/repo/dal/currency/currency.cpp"
#include "h.hpp"
#include "cal.hpp"
using namespace Dal;
static const long LAST = 12L * 2149 + 4;
static void Add(long n, int k) {
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    const long t = 12 * y + m - 1 + k;
    if (t < 12 * 1970 || t > LAST || 12 * y + m - 1 > LAST) return;
    const long ty = t / 12; const int tm = (int)(t % 12) + 1;
    const Date_ dt = Date::FromExcel((int)n);
    for (int eom = 0; eom < 2; ++eom) {
        ++H::evaluations;
        int td = std::min(d, Dim(ty, tm));
        if (eom && d == Dim(y, m)) td = Dim(ty, tm);
        const Date_ r = Date::AddMonths(dt, k, eom);
        if (Date::ToExcel(r) != DayNum(ty, tm, td)) H::Fail("AddMonths(%ld-%d-%d, %d, %d) = %s, expected %ld-%d-%d", y, m, d, k, eom, Date::ToString(r).c_str(), ty, tm, td);
    }
}
static void One(long n) {
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    if (12 * y + m - 1 > LAST) return;
    ++H::evaluations;
    const Date_ dt = Date::FromExcel((int)n);
    if (Date::DaysInMonth((int)y, m) != Dim(y, m)) H::Fail("DaysInMonth(%ld,%d) = %d", y, m, Date::DaysInMonth((int)y, m));
    if (Date::ToExcel(Date::EndOfMonth(dt)) != DayNum(y, m, Dim(y, m))) H::Fail("EndOfMonth(%ld-%d-%d) = %s", y, m, d, Date::ToString(Date::EndOfMonth(dt)).c_str());
}
static void Nominal(long n) {
    static const PeriodLength_ P[] = {PeriodLength_("ANNUAL"), PeriodLength_("SEMIANNUAL"), PeriodLength_("QUARTERLY"), PeriodLength_("MONTHLY")};
    static const int K[] = {12, 6, 3, 1};
    static const Ccy_ ccy("USD");
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    for (int i = 0; i < 4; ++i) {
        const long t = 12 * y + m - 1 + K[i];
        if (t > LAST) continue;
        const long ty = t / 12; const int tm = (int)(t % 12) + 1;
        const long want = DayNum(ty, tm, std::min(d, Dim(ty, tm))), got = Date::ToExcel(Date::NominalMaturity(Date::FromExcel((int)n), P[i], ccy));
        ++H::evaluations;
        if (got != want) H::Fail("nominal maturity of %ld-%d-%d plus %d months: serial %ld, expected %ld", y, m, d, K[i], got, want);
    }
}
void Replay() {
    if (H::Has("serial")) Nominal(H::I("serial") + 25568);
    if (H::Has("serial")) { One(H::I("serial") + 25568); for (int k = -30; k <= 30; ++k) Add(H::I("serial") + 25568, k); if (H::Has("n")) Add(H::I("serial") + 25568, (int)H::I("n")); }
    if (H::Has("y")) One(DayNum(H::I("y"), (int)H::I("m"), 1));
}
void Search() {
    for (long n = 25569; n <= 91103; ++n) { One(n); Nominal(n); }
    for (long n = 25569; n <= 91103 && H::Time(0.6); ++n) {
        long y; int m, d;
        FromDayNum(n, &y, &m, &d);
        if (d > 27 || d == 1) for (int k = -40; k <= 40; ++k) Add(n, k);
        else for (int k = -13; k <= 13; ++k) Add(n, k);
    }
    while (H::Time()) for (int k = 0; k < 1000; ++k) Add(H::R(25569, 91103), (int)H::R(-2160, 2160));
}
