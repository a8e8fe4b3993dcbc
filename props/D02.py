from common import *
ID = "D02"
META = dict(
    title='Month arithmetic lands on the right day with month-end clipping',
    statement="Adding any number of months to a date gives the same day of the target month, clipped to that month's last day; with the end-of-month rule a month-end start always gives a month end. The month length and end-of-month functions agree with the Gregorian calendar, and a period's nominal maturity is the start plus its 1, 3, 6 or 12 months.",
    quantifier=dict(over=['inputs'], text='every date, every signed month count whose target is representable'),
    why_tests_cant='Month-end and leap-year combinations are far more than the few dates tested.',
    anchors=dict(files=['dal/time/date.cpp', 'dal/time/periodlength.cpp'], mechanism=['AddMonths', 'EndOfMonth', 'DaysInMonth', 'NominalMaturity @ dal/time/periodlength.cpp']),
    level_note='postconditions over all dates and month counts, calendar conversions through the contracts proved by D01')
DRIVERS = {"date": ('#include "/repo/dal/time/date.cpp"\n', [r"^Dal::Date::", r"^Dal::Date_::", r"^Dal::operator"])}
DRIVERS["per"] = ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/time/periodlength.cpp"\n', [r"NominalMaturity"])
CONTRACTS = contract = Registry()
STANDIN = "real code against a day-by-day calendar: every date x months -40..40 and boundary shifts, both end-of-month modes"
ASSUMPTIONS = ["the calendar conversions of D01 are used through their contracts (proved by check D01)"]
@contract("date")
def days_in_month(c):
    c.exec(CAL)
    y, m = c.int("y", 1970, 2149), c.int("m", 1, 12)
    c.assume(12 * y.z() + m.z() - 1 <= LAST)
    rs = c.call(r"^Dal::Date::DaysInMonth\(", [y, m])
    c.ensure_all(rs, "length of the month", lambda st, v: Z(c.ex.sgn(st, v, 16)) == dim(y, m))


@contract("date")
def end_of_month(c):
    c.exec(CAL2)
    s = c.int("serial", 1, DMAX)
    y, m, d = cal(c.st, s)
    c.assume(12 * y + m - 1 <= LAST)
    rs = c.call(r"^Dal::Date::EndOfMonth\(", [date_arg(c, s)])
    c.ensure_all(rs, "last day of the same month", lambda st, v: Z(v) + OFF == daynum(y, m, dim(y, m)))


def add_months(c, eom):
    c.exec(CAL2)
    s, n = c.int("serial", 1, DMAX), c.int("n", -3000, 3000)
    y, m, d = cal(c.st, s)
    c.assume(12 * y + m - 1 <= LAST)
    k = 12 * y + m - 1 + n.z()
    c.assume(z3.And(k >= 12 * 1970, k <= LAST))
    ty, tm = z3.Ints("target_y target_m")
    c.assume(z3.And(12 * ty + tm - 1 == k, 1 <= tm, tm <= 12))
    rs = c.call(r"^Dal::Date::AddMonths\(", [date_arg(c, s), n, eom])
    td = z3.If(d > dim(ty, tm), dim(ty, tm), d)
    if eom:
        td = z3.If(d == dim(y, m), dim(ty, tm), td)
    c.ensure_all(rs, "same day n months later, cut to the month's length" + (", end of month preserved" if eom else ""), lambda st, v: Z(v) + OFF == daynum(ty, tm, td))


@contract("date")
def add_months_plain(c):
    add_months(c, False)


@contract("date")
def add_months_eom(c):
    add_months(c, True)


def nominal(k, months):
    def f(c):
        c.exec(CAL2)
        s = c.int("serial", 1, DMAX)
        y, m, d = cal(c.st, s)
        t = 12 * y + m - 1 + months
        c.assume(t <= LAST)
        ty, tm = z3.Ints("target_y target_m")
        c.assume(z3.And(12 * ty + tm - 1 == t, 1 <= tm, tm <= 12))
        step = c.obj("step", {0: ("i8", Poly.const(k))}, 1)
        rs = c.call(r"NominalMaturity", [date_arg(c, s), step, c.obj("ccy", {0: ("i8", Poly.const(1))}, 1)])
        c.ensure_all(rs, "start plus %d months" % months, lambda st, v: Z(v) + OFF == daynum(ty, tm, z3.If(d > dim(ty, tm), dim(ty, tm), d)))
    f.__name__ = "nominal_maturity_%dm" % months
    return f


for _k, _m in ((0, 12), (1, 6), (2, 3), (3, 1)):
    contract("per")(nominal(_k, _m))
