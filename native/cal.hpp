#pragma once
// independent calendar oracle: days counted one by one
static bool Leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int Dim(long y, int m) {
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && Leap(y) ? 29 : d[m - 1];
}
static long DayNum(long y, int m, int d) {   // 25569 = 1 Jan 1970
    long n = 25569;
    if (y >= 1970) for (long k = 1970; k < y; ++k) n += Leap(k) ? 366 : 365;
    else for (long k = y; k < 1970; ++k) n -= Leap(k) ? 366 : 365;
    for (int k = 1; k < m; ++k) n += Dim(y, k);
    return n + d - 1;
}
static void FromDayNum(long n, long* y, int* m, int* d) {
    long yy = 1970; long r = n - 25569;
    while (r < 0) { --yy; r += Leap(yy) ? 366 : 365; }
    while (r >= (Leap(yy) ? 366 : 365)) { r -= Leap(yy) ? 366 : 365; ++yy; }
    int mm = 1;
    while (r >= Dim(yy, mm)) { r -= Dim(yy, mm); ++mm; }
    *y = yy; *m = mm; *d = (int)r + 1;
}
