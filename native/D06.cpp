#include "base.inc"
#include "/repo/dal/time/dateutils.cpp"
#include "/repo/dal/time/datetimeutils.cpp"
#include "/repo/dal/platform/host.cpp"
#include "h.hpp"
#include "cal.hpp"
using namespace Dal;
static void Hms(int serial, int h, int m, int s, bool text) {
    ++H::evaluations;
    const Date_ d = Date::FromExcel(25568 + serial);
    const DateTime_ t(d, h, m, s);
    char want[16];
    snprintf(want, 16, "%02d:%02d:%02d", h, m, s);
    if (!(t.Date() == d) || DateTime::Hour(t) != h || DateTime::Minute(t) != m) H::Fail("date %d %s: hour %d minute %d", serial, want, DateTime::Hour(t), DateTime::Minute(t));
    if (text) {
        if (std::string(DateTime::TimeString(t).c_str()) != want) H::Fail("time text of %s is %s", want, DateTime::TimeString(t).c_str());
        const String_ full = DateTime::ToString(t);
        if (!DateTime::IsDateTimeString(full)) H::Fail("'%s' is not recognised as a date-time", full.c_str());
        const DateTime_ u = DateTime::FromString(full);
        if (!(u == t)) H::Fail("parsing '%s' does not restore the date-time", full.c_str());
    }
    const long long ms = 86400000LL * (serial - 1) + 1000LL * (3600 * h + 60 * m + s);
    if (DateTime::MSec(t) != ms) H::Fail("stamp of day %d %s: %lld, expected %lld", serial, want, DateTime::MSec(t), ms);
}
static void Stamp(long long n) {
    ++H::evaluations;
    const DateTime_ t(n);
    if (DateTime::MSec(t) != n) H::Fail("stamp %lld reads back as %lld", n, DateTime::MSec(t));
    if ((t.Date() - Date::Minimum()) != (int)(n / 86400000)) H::Fail("stamp %lld falls on day %d", n, t.Date() - Date::Minimum());
}
static void Pair(int a, double f, int b, double g, double x) {
    ++H::evaluations;
    const DateTime_ s(Date::FromExcel(25568 + a), f), t(Date::FromExcel(25568 + b), g);
    const bool lt = a < b || (a == b && f < g), eq = a == b && f == g;
    if ((s < t) != lt || (s > t) != (!lt && !eq) || (s <= t) != (lt || eq) || (s >= t) != !lt || (s == t) != eq || (s != t) == eq) H::Fail("comparison of (%d,%.17g) and (%d,%.17g)", a, f, b, g);
    if (!H::Close(s - t, (a - b) + (f - g), 1e-12, 1.0)) H::Fail("difference of (%d,%.17g) and (%d,%.17g) is %.17g", a, f, b, g, s - t);
    if (!(s - s == 0)) H::Fail("difference of equal instants");
    if (x > 0 && a + x < 60000) {
        DateTime_ u = s, v = s;
        const DateTime_ w = v + x;
        u += x;
        if (!(w == u) || !(v == s)) H::Fail("+ and += disagree for (%d,%.17g)+%.17g", a, f, x);
        if (!(u.Frac() < 1 && u.Frac() >= 0) || !H::Close((u.Date() - Date::FromExcel(25568 + a)) + u.Frac(), f + x, 1e-12)) H::Fail("(%d,%.17g)+%.17g gives day offset %d, fraction %.17g", a, f, x, u.Date() - Date::FromExcel(25568 + a), u.Frac());
    }
}
void Replay() {
    if (H::Has("h")) Hms((int)std::max(1L, H::I("date", 1)), (int)H::I("h"), (int)H::I("m"), (int)H::I("s"), true);
    if (H::Has("msec")) Stamp(atoll(H::hints["msec"].c_str()));
    if (H::Has("frac1")) Pair((int)H::I("date1", 1), H::D("frac1"), (int)H::I("date2", 1), H::D("frac2"), H::D("step", 1));
    if (H::Has("frac")) Pair((int)H::I("date", 1), H::D("frac"), 1, 0.25, H::D("step", 1));
}
void Search() {
    for (int s = 0; s < 86400; ++s) { Hms(1 + s % 60000, s / 3600, s / 60 % 60, s % 60, s % 7 == 0); Hms(12345, s / 3600, s / 60 % 60, s % 60, false); }
    for (long long k = 0; k < 86400000; k += 37) Stamp(k);
    for (int i = 0; i < 1000000; ++i) Stamp((long long)H::R(0, 86400000LL * 65530));
    auto fr = [] { const long k = H::R(0, 4); return k == 0 ? 0.0 : k == 1 ? H::R(0, 7) / 8.0 : k == 2 ? H::R(0, 86399) / 86400.0 : H::U(0, 1); };
    while (H::Time()) for (int i = 0; i < 1000; ++i) {
        const int a = (int)H::R(1, 30000); const int b = H::B() ? a : (int)H::R(1, 30000);
        const double f = fr();
        Pair(a, f, b, H::B() ? f : fr(), H::B() ? 1 - f : H::R(0, 3) ? H::U(0, 400) : (double)H::R(1, 100));
        Hms((int)H::R(1, 65534), (int)H::R(0, 23), (int)H::R(0, 59), (int)H::R(0, 59), i % 20 == 0);
    }
}
