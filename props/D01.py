from common import *
ID = "D01"
META = dict(
    title='Calendar dates and serial numbers correspond exactly, over the whole range',
    statement='For every calendar date from 1 January 1970 to the last representable day, building the date from year, month and day and reading year, month, day and weekday back gives the same values, consecutive calendar days have consecutive serial numbers, and the Excel serial number is the standard one. Adding days and subtracting dates agree with that serial numbering. Dates outside the range are rejected and never mapped to some other day.',
    quantifier=dict(over=['inputs'], text='every (year, month, day) and every 16-bit serial'),
    why_tests_cant='Tests sample a handful of dates; century, leap and end-of-range errors appear only on particular days (one such defect was found and fixed).',
    anchors=dict(files=['dal/time/date.cpp', 'dal/time/date.hpp'], mechanism=['serial/calendar conversion with Gregorian leap rules', '16-bit serial storage']),
    level_note='postconditions against the proleptic Gregorian calendar, all serials; integers exact')
DRIVERS = {"date": ('#include "/repo/dal/time/date.cpp"\n', [r"^Dal::Date::", r"^Dal::Date_::", r"^Dal::operator"])}
CONTRACTS = contract = Registry()
STANDIN = "exhaustive over all 65535 representable dates and every calendar triple of the years 1960-2160 on the real code (covers IEEE rounding of the double arithmetic in the conversion, which the proof treats as real arithmetic)"
ASSUMPTIONS = ["the double-precision intermediate arithmetic of the serial-to-calendar conversion is proved over the reals; its rounding is covered by the exhaustive native run over the whole finite domain"]


def scal(c, x, w=16):
    return c.ex.sgn(c.st, x, w)


@contract("date")
def from_excel(c):
    c.exec()
    s = c.int("excel", -2 ** 31, 2 ** 31 - 1)
    rs = c.call(r"^Dal::Date::FromExcel\(", [s])
    ok = z3.And(s.z() >= OFF + 1, s.z() <= OFF + DMAX)
    c.ensure_all(rs, "the date holds day number minus offset, or is invalid outside the representable range", lambda st, v: Z(v) == z3.If(ok, s.z() - OFF, 0))


@contract("date")
def to_excel(c):
    c.exec()
    s = c.int("serial", 0, DMAX)
    c.ensure_all(c.call(r"^Dal::Date::ToExcel\(", [date_arg(c, s)]), "inverse of FromExcel", lambda st, v: Z(v) == s.z() + OFF)


@contract("date")
def from_ymd(c):
    c.exec()
    y, m, d = c.int("y", 1, 9999), c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(d.z() <= dim(y, m))
    o = c.obj("this", {0: ("i16", Poly.const(7))}, 2)
    rs = c.call(r"^Dal::Date_::Date_\(int, int, int\)", [o, y, m, d])
    n = daynum(y, m, d) - OFF

    def post(st, v):
        got = Z(c.ex.load(st, o, "i16"))
        return got == z3.If(z3.And(n >= 1, n <= DMAX), n, 0)
    c.ensure_all(rs, "calendar date to serial number equals the proleptic Gregorian day count", post)


def ymd(c, which):
    c.exec()
    s = c.int("serial", 1, DMAX)
    p = date_arg(c, s)
    out = {}
    return s, c.call(r"^Dal::Date::%s\(" % which, [p])


@contract("date")
def year(c):
    s, rs = ymd(c, "Year")
    e = s.z() + OFF
    c.ensure_all(rs, "the day lies in the reported year", lambda st, v: z3.And(jan1(v) <= e, e < jan1(P(v).add(P(1)))))


def doy(c, s):
    """witness: y with jan1(y) <= e < jan1(y+1), introduced as a ghost"""
    e = s.z() + OFF
    y = z3.Int("ghost_year")
    c.assume(z3.And(1970 <= y, y <= 2149, jan1(y) <= e, e < jan1(y + 1)))
    return y, e - jan1(y)


def month_of(y, k):
    return [z3.Implies(z3.And(cum(y, m) <= k, k < (cum(y, m + 1) if m < 12 else 365 + z3.If(leap(y), 1, 0))), True) for m in range(1, 13)]


@contract("date")
def month(c):
    c.exec()
    s = c.int("serial", 1, DMAX)
    y, k = doy(c, s)
    rs = c.call(r"^Dal::Date::Month\(", [date_arg(c, s)])
    c.ensure_all(rs, "the day lies in the reported month", lambda st, v: z3.And(Z(v) >= 1, Z(v) <= 12, cum(y, v) <= k, k < cum(y, v) + dim(y, v)))


@contract("date")
def day(c):
    c.exec()
    s = c.int("serial", 1, DMAX)
    y, k = doy(c, s)
    m = z3.Int("ghost_month")
    c.assume(z3.And(1 <= m, m <= 12, cum(y, m) <= k, k < cum(y, m) + dim(y, m)))
    rs = c.call(r"^Dal::Date::Day\(", [date_arg(c, s)])
    c.ensure_all(rs, "day of month is one plus the days since the month began", lambda st, v: Z(v) == k - cum(y, m) + 1)


@contract("date")
def day_of_week(c):
    c.exec()
    s = c.int("serial", 1, DMAX)
    rs = c.call(r"^Dal::Date::DayOfWeek\(", [date_arg(c, s)])
    c.ensure_all(rs, "weekday is 0 (Sunday) to 6, Thursday on 1 January 1970, advancing by one each day", lambda st, v: Z(v) == (s.z() + 3) % 7)


@contract("date")
def difference(c):
    c.exec()
    a, b = c.int("a", 0, DMAX), c.int("b", 0, DMAX)
    rs = c.call(r"^Dal::operator-\(Dal::Date_ const&, Dal::Date_ const&\)", [date_arg(c, a, "l"), date_arg(c, b, "r")])
    c.ensure_all(rs, "difference of two dates is the difference of their day numbers", lambda st, v: Z(v) == a.z() - b.z())


@contract("date")
def add_days(c):
    c.exec()
    a, n = c.int("a", 0, DMAX), c.int("n", -DMAX, DMAX)
    c.assume(z3.And(a.z() + n.z() >= 0, a.z() + n.z() <= DMAX))
    rs = c.call(r"^Dal::Date_::AddDays\(", [date_arg(c, a), n])
    c.ensure_all(rs, "adding days moves the day number", lambda st, v: Z(v) == a.z() + n.z())
