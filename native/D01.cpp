#include "/repo/dal/time/date.cpp"
#include "h.hpp"
#include "cal.hpp"
using namespace Dal;

static void CheckYmd(long y, int m, int d) {
    ++H::evaluations;
    const long n = DayNum(y, m, d);
    const Date_ dt((int)y, m, d);
    const bool in = n > 25568 && n <= 25568 + 65535;
    if (dt.IsValid() != in) H::Fail("Date_(%ld,%d,%d): IsValid is %d, representable is %d", y, m, d, dt.IsValid(), in);
    if (in && Date::ToExcel(dt) != n) H::Fail("Date_(%ld,%d,%d) has day number %d, calendar says %ld", y, m, d, Date::ToExcel(dt), n);
}
static void CheckSerial(long n) {
    ++H::evaluations;
    const Date_ dt = Date::FromExcel((int)n);
    const bool in = n > 25568 && n <= 25568 + 65535;
    if (dt.IsValid() != in) H::Fail("FromExcel(%ld).IsValid() is %d", n, dt.IsValid());
    if (!in) return;
    if (Date::ToExcel(dt) != n) H::Fail("ToExcel(FromExcel(%ld)) is %d", n, Date::ToExcel(dt));
    long y; int m, d;
    FromDayNum(n, &y, &m, &d);
    if (Date::Year(dt) != y || Date::Month(dt) != m || Date::Day(dt) != d)
        H::Fail("day number %ld is %ld-%d-%d, library says %d-%d-%d", n, y, m, d, Date::Year(dt), Date::Month(dt), Date::Day(dt));
    const int wd = (int)((n - 25569 + 4) % 7);
    if (Date::DayOfWeek(dt) != wd || Date::IsWeekEnd(dt) != (wd == 0 || wd == 6)) H::Fail("weekday of day number %ld is %d, library says %d", n, wd, Date::DayOfWeek(dt));
    char b[32];
    sprintf(b, "%04ld-%02d-%02d", y, m, d);
    if (std::string(Date::ToString(dt).c_str()) != b) H::Fail("day number %ld prints as %s, expected %s", n, Date::ToString(dt).c_str(), b);
}
static void CheckPair(long a, long b) {
    ++H::evaluations;
    const Date_ x = Date::FromExcel((int)a), y = Date::FromExcel((int)b);
    if ((x - y) != a - b) H::Fail("difference of day numbers %ld and %ld is %d", a, b, x - y);
    if ((x < y) != (a < b) || (x == y) != (a == b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x != y) != (a != b)) H::Fail("ordering of day numbers %ld and %ld", a, b);
    if (Date::ToExcel(x.AddDays((int)(b - a))) != b) H::Fail("day number %ld plus %ld days gives %d", a, b - a, Date::ToExcel(x.AddDays((int)(b - a))));
    if (a < 91103) { Date_ z = x; ++z; if (Date::ToExcel(z) != a + 1) H::Fail("++ at %ld", a); --z; if (Date::ToExcel(z) != a) H::Fail("-- at %ld", a); }
}
void Replay() {
    if (H::Has("serial")) CheckSerial(H::I("serial") + 25568);
    if (H::Has("excel")) CheckSerial(H::I("excel"));
    if (H::Has("y")) CheckYmd(H::I("y"), (int)H::I("m"), (int)H::I("d"));
    if (H::Has("a") && H::Has("b")) CheckPair(H::I("a") + 25568, H::I("b") + 25568);
    if (H::Has("a") && H::Has("n")) CheckPair(H::I("a") + 25568, H::I("a") + H::I("n") + 25568);
}
void Search() {
    for (long n = 25000; n <= 92000; ++n) CheckSerial(n);
    for (long y = 1960; y <= 2160; ++y)
        for (int m = 1; m <= 12; ++m)
            for (int d = 1; d <= Dim(y, m); ++d) CheckYmd(y, m, d);
    for (long y = 1; y <= 9999; y += y < 1960 || y > 2160 ? 1 : 201)
        for (int m = 1; m <= 12; ++m) { CheckYmd(y, m, 1); CheckYmd(y, m, Dim(y, m)); }
    for (int k = 0; k < 200000; ++k) CheckPair(H::R(25569, 91103), H::R(25569, 91103));
    for (long a = 25569; a < 91103; ++a) { CheckPair(a, a + 1); CheckPair(a, a); }
    for (int k = 0; k < 100000; ++k) CheckSerial(H::R(-2147483648L, 2147483647L));
}
