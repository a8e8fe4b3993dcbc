from common import *
ID = "D04"
META = dict(
    title='Date increments reach the next or previous member of their family',
    statement='Stepping a date to the next (previous) quarterly or monthly IMM date or standard CDS date gives a member of that family strictly after (before) the start with no member in between; end-of-month steps give the end of the current month forward and of the previous month backward. Stepping n years, months, weeks or calendar days forward or backward gives exactly that calendar date, and compound increments apply their parts in the order written.',
    quantifier=dict(over=['inputs', 'programs'], text='every date, direction, count and family'),
    why_tests_cant='The answer depends on weekday patterns and month lengths of every month in the range; tests sample single dates (a defect in quarterly steps was found and fixed).',
    anchors=dict(files=['dal/time/dateincrement.cpp'], mechanism=['special-day families (IMM, CDS, end of month)', 'repeatable tenor steps', 'compound increments']),
    level_note='postconditions incl. minimality via an abstract month axis (lemma proved from the calendar); compound parsing is covered by the bounded stand-in')
DRIVERS = {"inc": ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/time/dateincrement.cpp"\n', [r"SpecialDay_::Step", r"DateStepSize_::operator\(\)"])}
CONTRACTS = contract = Registry()
STANDIN = "real code through the public increment parser: every date 1970-2149 for the special-day families in both directions, tenor steps on month ends and random dates, combined increments"
ASSUMPTIONS = ["calendar conversions are used through the contracts proved by checks D01 and D02", "increments without a holiday calendar (calendar-adjusted steps are property D05)"]
KIND = {"IMM": 0, "IMM1": 1, "CDS": 2, "EOM": 3}
STEP = {"Y": 0, "M": 1, "W": 2, "BD": 3, "CD": 4}


def dow(e):
    """weekday (0 Sunday) of day number e; 25569 (1 January 1970) is a Thursday"""
    return (e - 25569 + 4) % 7


def dow_contract(ex, st, a, i, dem):
    s = ex.load(st, a[0], "i16", i)
    v = z3.Int(fresh_name("dow"))
    st.assume(v == dow(Z(s) + OFF))
    return [Result(st, "ret", P(v))]


def ret_bool(b):
    return lambda ex, st, a, i, dem: [Result(st, "ret", b)]


def none_hols(ex, st, a, i, dem):
    o = ex.new_obj(st, "no holidays", 24)
    return [Result(st, "ret", Ptr(o.id, 0))]


CON = CAL2 + [(re.compile(r"^Dal::Date::DayOfWeek\("), dow_contract)]


def imm(y, m, d, e):
    """third Wednesday of the month"""
    return z3.And(d >= 15, d <= 21, dow(e) == 3)


def cds(y, m, d, e):
    return d == 20


def special(kind, fwd, member, q):
    def f(c):
        c.exec(CALK + CON, unroll=8)
        s = c.int("serial", 200, DMAX - 400)
        y, m, d, si = calk(c.st, s)
        c.assume(z3.And(y <= 2148))
        this = c.obj("this", {0: ("i8", Poly.const(KIND[kind]))}, 1)
        rs = c.call(r"SpecialDay_::Step\(", [this, date_arg(c, s), fwd])
        # an arbitrary other member of the family beyond the given date
        x = c.int("other", 1, DMAX)

        def post(st, v):
            r = P(v)
            ry, rm, rd, ri = calk(st, r)
            s2 = st.fork()
            xy, xm, xd, xi = calk(s2, x)
            s2.assume(z3.And(member(xy, xm, xd, x.z() + OFF), xm % q == 0, x.z() > s.z() if fwd else x.z() < s.z()))
            nm = "next %s date %s [no member in between]" % (kind, "forward" if fwd else "backward")
            g = r.z() <= x.z() if fwd else r.z() >= x.z()
            s2.assume(z3.And(member(ry, rm, rd, r.z() + OFF), rm % q == 0))      # proved as "belongs to the family"
            c.ensure_cases(s2, [("same month", xi == ri), ("later month", xi > ri), ("earlier month", xi < ri)], g, nm)
            return [("belongs to the family", z3.And(member(ry, rm, rd, r.z() + OFF), rm % q == 0)),
                    ("strictly %s the given date" % ("after" if fwd else "before"), r.z() > s.z() if fwd else r.z() < s.z())]
        c.ensure_all(rs, "next %s date %s" % (kind, "forward" if fwd else "backward"), post)
    f.__name__ = "%s_%s" % (kind.lower(), "fwd" if fwd else "back")
    return f


for _k, _d, _q in (("IMM", imm, 3), ("IMM1", imm, 1), ("CDS", cds, 3)):
    for _f in (True, False):
        contract("inc")(special(_k, _f, _d, _q))


@contract("inc")
def eom_fwd(c):
    c.exec(CON)
    s = c.int("serial", 1, DMAX)
    y, m, d = cal(c.st, s)
    c.assume(12 * y + m - 1 <= LAST)
    this = c.obj("this", {0: ("i8", Poly.const(KIND["EOM"]))}, 1)
    rs = c.call(r"SpecialDay_::Step\(", [this, date_arg(c, s), True])
    c.ensure_all(rs, "end of the same month", lambda st, v: Z(v) + OFF == daynum(y, m, dim(y, m)))


@contract("inc")
def eom_back(c):
    c.exec(CON)
    s = c.int("serial", 32, DMAX)
    y, m, d = cal(c.st, s)
    this = c.obj("this", {0: ("i8", Poly.const(KIND["EOM"]))}, 1)
    rs = c.call(r"SpecialDay_::Step\(", [this, date_arg(c, s), False])
    c.ensure_all(rs, "end of the previous month", lambda st, v: Z(v) + OFF == daynum(y, m, 1) - 1)


def am(ex, st, a, i, dem):
    """contract of AddMonths (proved by D02)"""
    s = ex.load(st, a[0], "i16", i)
    n, eom = a[1], a[2]
    y, m, d = cal(st, s)
    ty, tm = z3.Int(fresh_name("ty")), z3.Int(fresh_name("tm"))
    k = 12 * y + m - 1 + Z(n)
    ex.oblige(st, z3.And(k >= 12 * 1970, k <= LAST, 12 * y + m - 1 <= LAST), "precondition of AddMonths: target month representable", i)
    st.assume(z3.And(12 * ty + tm - 1 == k, 1 <= tm, tm <= 12))
    td = z3.If(d > dim(ty, tm), dim(ty, tm), d)
    td = z3.If(z3.And(bz(as_bool(eom)) if not isinstance(eom, Poly) else Z(eom) != 0, d == dim(y, m)), dim(ty, tm), td)
    v = z3.Int(fresh_name("am"))
    st.assume(v + OFF == daynum(ty, tm, td))
    st.assume(z3.And(v >= 1, v <= DMAX))
    return [Result(st, "ret", P(v))]


CON2 = [(re.compile(r"^Dal::Date::AddMonths\("), am), (re.compile(r"^Dal::Holidays::None\("), none_hols), (re.compile(r"^Dal::operator!=\(Dal::Holidays_ const&"), ret_bool(False)),
        (re.compile(r"^Dal::operator==\(Dal::Holidays_ const&"), ret_bool(True))] + CON


def tenor(kind, fwd):
    def f(c):
        c.exec(CON2)
        s, n = c.int("serial", 1, DMAX), c.int("n", 0, 2000)
        y, m, d = cal(c.st, s)
        sg = 1 if fwd else -1
        this = c.obj("this", {0: ("i8", Poly.const(STEP[kind]))}, 1)
        h = c.obj("hols", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
        if kind in "YM":
            k = 12 * y + m - 1 + sg * n.z() * (12 if kind == "Y" else 1)
            c.assume(z3.And(12 * y + m - 1 <= LAST, k >= 12 * 1970, k <= LAST))
            ty, tm = z3.Ints("target_y target_m")
            c.assume(z3.And(12 * ty + tm - 1 == k, 1 <= tm, tm <= 12))
            want = daynum(ty, tm, z3.If(d > dim(ty, tm), dim(ty, tm), d)) - OFF
        else:
            want = s.z() + sg * n.z() * (7 if kind == "W" else 1)
            c.assume(z3.And(want >= 0, want <= DMAX))
        rs = c.call(r"DateStepSize_::operator\(\)\(Dal::Date_", [this, date_arg(c, s), fwd, n, h])
        c.ensure_all(rs, "n %s %s" % ({"Y": "years", "M": "months", "W": "weeks", "CD": "days"}[kind], "later" if fwd else "earlier"), lambda st, v: Z(v) == want)
    f.__name__ = "tenor_%s_%s" % (kind, "fwd" if fwd else "back")
    return f


for _k in ("Y", "M", "W", "CD"):
    for _f in (True, False):
        contract("inc")(tenor(_k, _f))


contract("inc")(month_lemma)
