#include "base.inc"
#include "/repo/dal/time/daybasis.cpp"
#include "h.hpp"
#include "cal.hpp"
using namespace Dal;
static const long LAST = 12L * 2149 + 4;

static double ActAct(long a, long b) {     // day by day
    double r = 0;
    long y; int m, d;
    FromDayNum(a, &y, &m, &d);
    long cur = a;
    while (cur < b) {
        const long ny = DayNum(y + 1, 1, 1);
        const long e = std::min(ny, b);
        r += double(e - cur) / (Leap(y) ? 366 : 365);
        cur = e; ++y;
    }
    return r;
}
static void Check(long a, long b, long e, int months) {
    ++H::evaluations;
    static const DayBasis_ B360("ACT_360"), B365("ACT_365F"), BAA("ACT_ACT"), BB("BOND"), BL("ACT_365L");
    const Date_ f = Date::FromExcel((int)a), t = Date::FromExcel((int)b);
    long y1, y2, ye; int m1, d1, m2, d2, me, de;
    FromDayNum(a, &y1, &m1, &d1); FromDayNum(b, &y2, &m2, &d2); FromDayNum(e, &ye, &me, &de);
    auto req = [&](const char* n, double got, double want) {
        if (!H::Close(got, want, 1e-12)) H::Fail("%s from %ld-%d-%d to %ld-%d-%d (nominal end %ld-%d-%d, %d months): %.15g, expected %.15g", n, y1, m1, d1, y2, m2, d2, ye, me, de, months, got, want);
    };
    req("ACT/360", B360(f, t, nullptr), (b - a) / 360.0);
    req("ACT/365F", B365(f, t, nullptr), (b - a) / 365.0);
    if (a <= b && y2 <= 2148) req("ACT/ACT", BAA(f, t, nullptr), ActAct(a, b));
    if (12 * y1 + m1 - 1 <= LAST && 12 * y2 + m2 - 1 <= LAST) {
        const bool f1 = m1 == 2 && d1 == Dim(y1, 2), f2 = m2 == 2 && d2 == Dim(y2, 2);
        int e1 = d1, e2 = d2;
        if (f1 && f2) e2 = 30;
        if (f1) e1 = 30;
        if (e2 == 31 && e1 >= 30) e2 = 30;
        if (e1 == 31) e1 = 30;
        req("30/360", BB(f, t, nullptr), (360 * (y2 - y1) + 30 * (m2 - m1) + (e2 - e1)) / 360.0);
    }
    if (ye <= 2147 && a <= e) {
        DayBasis::Context_ ctx(false, f, Date::FromExcel((int)e), months);
        const double got = BL(f, t, &ctx);
        if (months != 12) { req("ACT/365L", got, (b - a) / (Leap(ye) ? 366.0 : 365.0)); }
        else {
            bool strict = false, edge = false;
            for (long y = y1; y <= ye; ++y) if (Leap(y)) { const long l = DayNum(y, 2, 29); if (l > a && l < e) strict = true; if (l > a && l == e) edge = true; }
            if (strict || !edge) req("ACT/365L annual", got, (b - a) / (strict ? 366.0 : 365.0));
            else if (!H::Close(got, (b - a) / 366.0, 1e-12)) req("ACT/365L annual", got, (b - a) / 365.0);
        }
    }
}
static long Pick() {
    static const int md[][2] = {{1,1},{1,30},{1,31},{2,1},{2,27},{2,28},{2,29},{3,1},{3,30},{3,31},{4,30},{6,30},{8,31},{12,30},{12,31}};
    if (H::R(0, 2) == 0) return H::R(25569, 90500);
    const long y = H::R(1970, 2146);
    const auto& x = md[H::R(0, 14)];
    return DayNum(y, x[0], std::min(x[1], Dim(y, x[0])));
}
void Replay() {
    const long a = H::I("from", 10000) + 25568, b = H::I("to", 12000) + 25568, e = H::I("end", 12000) + 25568;
    for (int m : {12, 6, (int)H::I("months", 3)}) Check(a, b, e, m);
}
void Search() {
    // systematic: all pairs of interesting days over a leap / non-leap / century span
    std::vector<long> ds;
    for (long y : {1999L, 2000L, 2001L, 2003L, 2004L, 2099L, 2100L, 2101L, 2104L})
        for (int m = 1; m <= 12; ++m) for (int d : {1, 15, 28, 29, 30, 31}) if (d <= Dim(y, m)) ds.push_back(DayNum(y, m, d));
    for (long a : ds) { for (long b : ds) Check(a, b, b, 12); if (!H::Time(0.5)) break; }
    while (H::Time()) for (int k = 0; k < 500; ++k) { long a = Pick(), b = Pick(); if (H::B() && b < a) std::swap(a, b); Check(a, b, H::B() ? b : Pick(), H::B() ? 12 : (int)H::R(1, 24)); }
}
