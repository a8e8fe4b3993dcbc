"""Specification functions shared by the contracts."""
from vf import *


class Registry(list):
    def __call__(self, spec, thorough=False):
        def d(f):
            f.thorough_only = thorough
            self.append((f.__name__, spec, f))
            return f
        return d


# ---- proleptic Gregorian calendar (z3 integer terms) ----------------------
def zi(x):
    return Z(P(x)) if isinstance(x, (int, Poly)) and not isinstance(x, bool) else x


def leap(y):
    y = zi(y)
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim(y, m):
    m = zi(m)
    return z3.If(m == 2, z3.If(leap(y), z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def cum(y, m):
    """days of year y before month m (1..12)"""
    m = zi(m)
    e = z3.IntVal(CUM[11])
    for k in range(11, 0, -1):
        e = z3.If(m == k, z3.IntVal(CUM[k - 1]), e)
    return e + z3.If(z3.And(m > 2, leap(y)), z3.IntVal(1), z3.IntVal(0))


def jan1(y):
    """day number of 1 January y; day 25569 is 1 January 1970"""
    y = zi(y)
    return 365 * (y - 1970) + ((y - 1) / 4 - 492) - ((y - 1) / 100 - 19) + ((y - 1) / 400 - 4) + 25569


def daynum(y, m, d):
    return jan1(y) + cum(y, m) + zi(d) - 1


def valid_ymd(y, m, d):
    y, m, d = zi(y), zi(m), zi(d)
    return z3.And(m >= 1, m <= 12, d >= 1, d <= dim(y, m))


OFF = 25568
DMAX = 65535


def date_arg(c, v, name="dt", st=None):
    return c.obj(name, {0: ("i16", P(v))}, 2, st)


LAST = 12 * 2149 + 4          # May 2149: last month whose successor is representable

# contracts of D01, assumed at call sites here and proved by check D01
GY = z3.Function("cal_year", z3.IntSort(), z3.IntSort())
GM = z3.Function("cal_month", z3.IntSort(), z3.IntSort())
GD = z3.Function("cal_day", z3.IntSort(), z3.IntSort())


def cal(st, s):
    """year, month, day of serial s (ghost functions constrained by the calendar)"""
    s = Z(s)
    y, m, d = GY(s), GM(s), GD(s)
    st.assume(z3.And(y >= 1970, y <= 2149, m >= 1, m <= 12, d >= 1, d <= dim(y, m), daynum(y, m, d) == s + OFF))
    return y, m, d


def part(k):
    def h(ex, st, a, i, dem):
        s = ex.load(st, a[0], "i16", i)
        ex.oblige(st, icmp("ge", s, 1), "calendar parts are taken of a valid date", i)
        return [Result(st, "ret", P(cal(st, s)[k]))]
    return h


def ctor(ex, st, a, i, dem):
    y, m, d = a[1], a[2], a[3]
    ex.oblige(st, z3.And(Z(y) >= 1, Z(y) <= 9999, Z(m) >= 1, Z(m) <= 12, Z(d) >= 1, Z(d) <= dim(y, m)), "precondition of Date_(y,m,d): a calendar date", i)
    n = daynum(y, m, d) - OFF
    v = z3.Int(fresh_name("serial"))
    st.assume(v == z3.If(z3.And(n >= 1, n <= DMAX), n, 0))
    ex.store(st, a[0], "i16", P(v), i)
    return [Result(st, "ret", None)]


CAL = [(re.compile(r"^Dal::Date::Year\("), part(0)), (re.compile(r"^Dal::Date::Month\("), part(1)), (re.compile(r"^Dal::Date::Day\("), part(2)),
       (re.compile(r"^Dal::Date_::Date_\(int, int, int\)"), ctor)]


def dim_contract(ex, st, a, i, dem):
    y, m = a
    ex.oblige(st, z3.And(Z(y) >= 1970, 1 <= Z(m), Z(m) <= 12, 12 * Z(y) + Z(m) - 1 <= LAST), "precondition of DaysInMonth", i)
    v = z3.Int(fresh_name("dim"))
    st.assume(v == dim(y, m))
    return [Result(st, "ret", P(v))]


CAL2 = CAL + [(re.compile(r"^Dal::Date::DaysInMonth\("), dim_contract)]


# ---- abstract calendar: month index -> first day, used where month lengths do not matter ---
MS = z3.Function("month_start", z3.IntSort(), z3.IntSort())
ML = z3.Function("month_len", z3.IntSort(), z3.IntSort())
GK = z3.Function("month_index", z3.IntSort(), z3.IntSort())


def month_facts(st, k):
    """first-day facts of month k against every month mentioned so far (month_start is the day
    number of the first day, month_len the length; proved from the calendar by `month_lemma`)"""
    ks = st.ghost.get("months", ())
    if any(k.eq(x) for x in ks):
        return
    st.assume(z3.And(ML(k) >= 28, ML(k) <= 31))
    for x in ks:
        for a, b in ((k, x), (x, k)):
            st.assume(z3.Implies(a < b, z3.And(MS(a) + ML(a) + 28 * (b - a - 1) <= MS(b), MS(b) <= MS(a) + ML(a) + 31 * (b - a - 1))))
    st.ghost["months"] = ks + (k,)


def calk(st, s):
    s = Z(s)
    k, d = GK(s), GD(s)
    y, m = GY(s), GM(s)
    month_facts(st, k)
    st.assume(z3.And(y >= 1970, y <= 2149, m >= 1, m <= 12, k == 12 * y + m - 1, d >= 1, d <= ML(k), MS(k) + d - 1 == s + OFF))
    return y, m, d, k


def partk(j):
    def h(ex, st, a, i, dem):
        s = ex.load(st, a[0], "i16", i)
        ex.oblige(st, icmp("ge", s, 1), "calendar parts are taken of a valid date", i)
        return [Result(st, "ret", P(calk(st, s)[j]))]
    return h


def ctork(ex, st, a, i, dem):
    y, m, d = Z(a[1]), Z(a[2]), Z(a[3])
    k = z3.simplify(12 * y + m - 1)
    ex.oblige(st, z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 28), "precondition of Date_(y,m,d): a day every month has", i)
    month_facts(st, k)
    n = MS(k) + d - 1 - OFF
    v = z3.Int(fresh_name("serial"))
    st.assume(v == z3.If(z3.And(n >= 1, n <= DMAX), n, 0))
    ex.store(st, a[0], "i16", P(v), i)
    return [Result(st, "ret", None)]


CALK = [(re.compile(r"^Dal::Date::Year\("), partk(0)), (re.compile(r"^Dal::Date::Month\("), partk(1)), (re.compile(r"^Dal::Date::Day\("), partk(2)),
        (re.compile(r"^Dal::Date_::Date_\(int, int, int\)"), ctork)]


def month_lemma(c):
    """the abstract month axis is the calendar's: consecutive months abut and have 28 to 31 days"""
    c.exec()
    y, m = c.int("y", 1, 9999), c.int("m", 1, 12)
    c.cover("calendar month", c.st)
    ny, nm = z3.If(m.z() == 12, y.z() + 1, y.z()), z3.If(m.z() == 12, 1, m.z() + 1)
    c.ensure(c.st, z3.And(dim(y, m) >= 28, dim(y, m) <= 31), "month length between 28 and 31")
    c.ensure(c.st, daynum(ny, nm, 1) == daynum(y, m, 1) + dim(y, m), "the next month starts the day after this one ends")
