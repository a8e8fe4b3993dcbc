from common import *
ID = "D05"
META = dict(
    title='Business-day adjustment and counting agree with the holiday calendars',
    statement="A day is a business day when it is a special working weekend or is neither a weekend nor a holiday of any centre in the calendar. Rolling forward or backward gives the nearest business day at or beyond the given date, business-day tenors move past exactly that many business days, holiday-adjusted tenors land on business days, and counting business days between two dates gives exactly the number of business days from the first date up to but excluding the second, for every calendar combination.",
    quantifier=dict(over=["inputs", "configurations"], text="every date (pair) and every set of holiday centres with any holidays and working weekends"),
    why_tests_cant="Counting uses whole weeks plus a remainder against sorted holiday lists; errors show only for particular remainders, weekdays and holidays on boundaries.",
    anchors=dict(files=["dal/time/holidays.cpp", "dal/time/holidaydata.cpp", "dal/time/dateincrement.cpp", "dal/utilities/algorithms.hpp"],
                 mechanism=["holiday lookup over combined centres", "roll forward/backward search", "business-day counting from sorted lists", "business-day steps @ dal/time/dateincrement.cpp"]),
    level_note="loop invariants over an arbitrary holiday predicate; counting proved as the difference of a ghost prefix count; std::lower_bound and std::binary_search are assumed to meet the C++ standard; lookup is proved for one and for three centres; merging of several centres into one list is covered by the bounded stand-in")
DRIVERS = {"hol": ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/time/holidays.cpp"\n#include "/repo/dal/time/dateincrement.cpp"\n',
                   [r"Holidays::NextBus", r"Holidays::PrevBus", r"CountBusDays_::operator", r"Holidays_::Is", r"DateStepSize_::operator\(\)"])}
CONTRACTS = contract = Registry()
STANDIN = "real code through the public interface: random centres (holidays, working weekends, combinations of up to three), every roll and count compared with day-by-day enumeration"
ASSUMPTIONS = ["std::lower_bound and std::binary_search meet the C++ standard", "weekday is used through the contract proved by check D01",
               "holiday lists are sorted, on weekdays (working weekends on weekends), as enforced when a centre is registered"]
STEP = {"Y": 0, "M": 1, "W": 2, "BD": 3, "CD": 4}
HOL = z3.Function("is_holiday", z3.IntSort(), z3.BoolSort())
WW = z3.Function("is_working_weekend", z3.IntSort(), z3.BoolSort())
CB = z3.Function("business_days_before", z3.IntSort(), z3.IntSort())


def dow(s):
    return (s + OFF - 25569 + 4) % 7


def wkend(s):
    return z3.Or(dow(s) == 0, dow(s) == 6)


def biz(s):
    s = zi(s)
    return z3.Or(WW(s), z3.And(z3.Not(wkend(s)), z3.Not(HOL(s))))


def dow_contract(ex, st, a, i, dem):
    s = ex.load(st, a[0], "i16", i)
    k = z3.simplify(dow(Z(s)), som=True)
    if z3.is_int_value(k):
        return [Result(st, "ret", P(k))]
    v = z3.Int(fresh_name("dow"))
    st.assume(v == dow(Z(s)))
    return [Result(st, "ret", P(v))]


def pred(f):
    def h(ex, st, a, i, dem):
        return [Result(st, "ret", f(Z(ex.load(st, a[1], "i16", i))))]
    return h


LOOK = [(re.compile(r"^Dal::Holidays_::IsHoliday"), pred(HOL)), (re.compile(r"^Dal::Holidays_::IsWorkWeekends"), pred(WW)), (re.compile(r"^Dal::Date::DayOfWeek\("), dow_contract)]


def roll(fwd):
    def f(c):
        s, x, b = c.int("serial", 1, DMAX), c.int("other", 1, DMAX), c.int("business_day", 2, DMAX - 1)
        c.assume(biz(b))
        c.assume(s.z() <= b.z() if fwd else s.z() >= b.z())

        def inv(ctx):
            out = []
            for v in ctx.ints():
                cur, e = Z(v["cur"]), Z(v["entry"])
                out.append(("%s: no business day passed" % v["name"], z3.Implies(z3.And(e <= x.z(), x.z() < cur) if fwd else z3.And(cur < x.z(), x.z() <= e), z3.Not(biz(x)))))
                out.append(("%s: not past the business day" % v["name"], z3.And(e <= cur, cur <= b.z()) if fwd else z3.And(b.z() <= cur, cur <= e)))
            return out
        c.exec(LOOK, [("NextBus|PrevBus", inv)])
        h = c.obj("hols", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
        rs = c.call(r"^Dal::Holidays::%sBus\(" % ("Next" if fwd else "Prev"), [h, date_arg(c, s)])
        c.ensure_all(rs, "roll %s" % ("forward" if fwd else "backward"), lambda st, v: [
            ("business day", biz(v)), ("at or beyond the given date", z3.And(s.z() <= Z(v), Z(v) <= b.z()) if fwd else z3.And(b.z() <= Z(v), Z(v) <= s.z())),
            ("no business day skipped", z3.Implies(z3.And(s.z() <= x.z(), x.z() < Z(v)) if fwd else z3.And(Z(v) < x.z(), x.z() <= s.z()), z3.Not(biz(x))))])
    f.__name__ = "roll_forward" if fwd else "roll_backward"
    return f


contract("hol")(roll(True))
contract("hol")(roll(False))


def lookup(what, nparts):
    """the calendar's lookup is the union over its centres"""
    def f(c):
        calls = []
        mem = z3.Function("listed", z3.IntSort(), z3.BoolSort())

        def bs(ex, st, a, i, dem):
            b, e = a[0], a[1]
            k = [j for j, (p, q) in enumerate(arrs) if isinstance(b, Ptr) and b.obj == p.obj]
            if len(k) != 1:
                raise Unsupported("binary search over an unknown range")
            p, q = arrs[k[0]]
            ex.oblige(st, z3.And(Z(b.off) == Z(p.off), Z(e.off) == Z(q.off)), "the whole list is searched", i)
            ex.oblige(st, Z(ex.load(st, a[2], "i16", i)) == s.z(), "the given date is searched for", i)
            return [Result(st, "ret", mem(k[0]))]
        c.exec([(re.compile(r"std::binary_search<"), bs)], unroll=nparts + 2)
        s = c.int("serial", 1, DMAX)
        arrs, cells = [], {}
        for j in range(nparts):
            hs = {}
            lay = {}
            for nm, off in (("holidays", 32), ("workweekends", 56)):
                n = c.int("n_%s%d" % (nm, j), 0, 10 ** 6)
                p, _ = c.array("%s%d" % (nm, j), n, "i16")
                e = p.shift(n.scale(2))
                lay.update({off: ("ptr", p), off + 8: ("ptr", e), off + 16: ("ptr", e)})
                hs[nm] = (p, e)
            d = c.obj("centre%d" % j, lay, 80)
            cells.update({16 * j: ("ptr", d), 16 * j + 8: ("ptr", NULL)})
            arrs.append(hs["holidays" if what == "IsHoliday" else "workweekends"])
        pa = c.obj("parts", cells, 16 * nparts)
        this = c.obj("this", {0: ("ptr", pa), 8: ("ptr", pa.shift(16 * nparts)), 16: ("ptr", pa.shift(16 * nparts))}, 24)
        rs = c.call(r"^Dal::Holidays_::%s\(" % what, [this, date_arg(c, s)])
        c.ensure_all(rs, "listed in some centre", lambda st, v: bz(as_bool(v)) == z3.Or(*[mem(j) for j in range(nparts)]))
    f.__name__ = "%s_%d" % ({"IsHoliday": "lookup_holiday", "IsWorkWeekends": "lookup_working_weekend"}[what], nparts)
    return f


for _w in ("IsHoliday", "IsWorkWeekends"):
    for _n in (1, 3):
        contract("hol")(lookup(_w, _n))


# ---- counting: NH(x) = listed holidays before x, NW(x) = listed working weekends before x
NH = z3.Function("holidays_before", z3.IntSort(), z3.IntSort())
NW = z3.Function("working_weekends_before", z3.IntSort(), z3.IntSort())


def wd(x):
    """weekdays before serial x, up to a constant"""
    q = x + OFF - 25569 + 4          # 0 = a Sunday
    r = q % 7
    return 5 * ((q - r) / 7) + z3.If(r == 0, 0, z3.If(r > 6, 5, r - 1 + z3.If(r == 6, 0, 0)))


def count_before(x):
    x = zi(x)
    return wd(x) - NH(x) + NW(x)


@contract("hol")
def prefix_lemma(c):
    """the ghost prefix count increases by one exactly on business days"""
    c.exec()
    x = c.int("x", 0, DMAX)
    for F, L in ((NH, HOL), (NW, WW)):
        c.assume(F(x.z() + 1) == F(x.z()) + z3.If(L(x.z()), 1, 0))
    c.assume(z3.Implies(HOL(x.z()), z3.Not(wkend(x.z()))))
    c.assume(z3.Implies(WW(x.z()), wkend(x.z())))
    c.cover("prefix", c.st)
    c.ensure(c.st, count_before(x.z() + 1) - count_before(x.z()) == z3.If(biz(x), 1, 0), "prefix count steps on business days only")


def count(c, rem, wday=None):
    lists = {}

    def lb(ex, st, a, i, dem):
        k = [nm for nm, (p, e, n, fn) in lists.items() if isinstance(a[0], Ptr) and a[0].obj == p.obj]
        if len(k) != 1:
            raise Unsupported("lower_bound over an unknown range")
        p, e, n, fn = lists[k[0]]
        F, L = {"hol": (NH, HOL), "ww": (NW, WW)}[k[0]]
        ex.oblige(st, z3.And(Z(a[0].off) == Z(p.off), Z(a[1].off) == Z(e.off)), "the whole list is searched", i)
        x = Z(ex.load(st, a[2], "i16", i))
        for j in range(8):           # standard facts about the first position not before x+j
            y = x + j
            st.assume(z3.And(F(y) >= 0, F(y) <= Z(n), F(y + 1) == F(y) + z3.If(L(y), 1, 0), z3.Implies(F(y) < Z(n), z3.And(Z(fn(P(F(y)))) >= y, (Z(fn(P(F(y)))) == y) == L(y))), z3.Implies(F(y) == Z(n), z3.Not(L(y)))))
            st.assume(z3.And(Z(fn(P(F(y)))) >= 0, Z(fn(P(F(y)))) <= DMAX))
            st.assume(z3.Implies(L(y), wkend(y) if k[0] == "ww" else z3.Not(wkend(y))))
        return [Result(st, "ret", p.shift(P(F(x)).scale(2)))]
    c.exec([(re.compile(r" std::lower_bound<"), lb)] + LOOK, unroll=8)
    if wday is None:
        s = c.int("begin", 1, DMAX)
    else:                          # by cases on the weekday of the first date
        q = c.int("q", 0, DMAX)
        s = q.scale(7).add(Poly.const(wday))
        c.inputs["begin"] = s
        c.assume(z3.And(s.z() >= 1, s.z() <= DMAX))
    if rem is None:
        t = c.int("end", 1, DMAX)
        c.assume(t.z() <= s.z())
    else:                          # by cases on the number of days left over after whole weeks
        w = c.int("weeks", 0, DMAX)
        t = s.add(w.scale(7)).add(Poly.const(rem))
        c.inputs["end"] = t
        c.assume(z3.And(t.z() <= DMAX, (t.z() - s.z()) / 7 == w.z(), (t.z() - s.z()) % 7 == rem))
        if rem == 0:
            c.assume(w.z() >= 1)
    lay = {}
    for nm, off in (("hol", 32), ("ww", 56)):
        n = c.int("n_" + nm, 0, 10 ** 6)
        p, fn = c.array(nm, n, "i16")
        e = p.shift(n.scale(2))
        lay.update({off: ("ptr", p), off + 8: ("ptr", e), off + 16: ("ptr", e)})
        lists[nm] = (p, e, n, fn)
    d = c.obj("centre", lay, 80)
    pa = c.obj("parts", {0: ("ptr", d), 8: ("ptr", NULL)}, 16)
    this = c.obj("this", {0: ("ptr", pa), 8: ("ptr", pa.shift(16)), 16: ("ptr", pa.shift(16))}, 24)
    rs = c.call(r"^Dal::CountBusDays_::operator\(\)", [this, date_arg(c, s, "b"), date_arg(c, t, "e")])
    c.ensure_all(rs, "number of business days from the first date up to the second", lambda st, v: Z(v) == (z3.IntVal(0) if rem is None else count_before(t) - count_before(s)))


def _add(r, wds, nm):
    def f(c):
        for wday in wds:
            c.st = State()
            count(c, r, wday)
    f.__name__ = nm
    contract("hol")(f)


_add(None, [None], "count_empty")
for _r in range(6, -1, -1):
    if _r >= 4:
        for _w in range(7):
            _add(_r, [_w], "count_%d_left_weekday_%d" % (_r, _w))
    else:
        _add(_r, range(7), "count_%d_left" % _r)


# ---- business-day tenors: CB(x) = business days before serial x (ghost)
def cb(st, x):
    x = zi(x)
    for y in (x, x + 1):
        st.assume(CB(y + 1) == CB(y) + z3.If(biz(y), 1, 0))
    return CB(x)


def bus(fwd):
    def h(ex, st, a, i, dem):
        s = Z(ex.load(st, a[1], "i16", i))
        v = z3.Int(fresh_name("rolled"))
        # contract of the roll (proved above) in terms of the prefix count: no business day skipped
        st.assume(biz(v))
        st.assume(z3.Implies(biz(s), v == s))
        st.assume(z3.And(v >= s, v <= DMAX - 30, CB(v) == cb(st, s)) if fwd else z3.And(v <= s, v >= 30, CB(v + 1) == cb(st, s + 1)))
        cb(st, v)
        cb(st, s)
        return [Result(st, "ret", P(v))]
    return h


NONE = [(re.compile(r"^Dal::Holidays::None\("), lambda ex, st, a, i, dem: [Result(st, "ret", Ptr(ex.new_obj(st, "none", 24).id, 0))]),
        (re.compile(r"^Dal::operator!=\(Dal::Holidays_ const&"), lambda ex, st, a, i, dem: [Result(st, "ret", True)]),
        (re.compile(r"^Dal::operator==\(Dal::Holidays_ const&"), lambda ex, st, a, i, dem: [Result(st, "ret", False)])]
ROLL = [(re.compile(r"^Dal::Holidays::NextBus"), bus(True)), (re.compile(r"^Dal::Holidays::PrevBus"), bus(False))]


def steps(fwd):
    def f(c):
        s, n = c.int("serial", 400, DMAX - 400), c.int("n", 0, 5000)

        def inv(ctx):
            out = []
            for v in ctx.ints():
                for w in ctx.ints():
                    if v is w:
                        continue
                    cur, k, k0 = Z(v["cur"]), Z(w["cur"]), Z(w["entry"])
                    out.append(("moved past as many business days as steps taken (%s,%s)" % (v["name"], w["name"]), CB(cur + 1) - CB(s.z() + 1) == k0 - k if fwd else CB(s.z()) - CB(cur) == k0 - k))
                    out.append(("on a business day after the first step (%s,%s)" % (v["name"], w["name"]), z3.Or(k == k0, biz(cur))))
                    out.append(("date range", z3.And(cur >= 30, cur <= DMAX - 30)))
                    out.append(("steps left (%s)" % w["name"], k >= 0))
                    out.append(("unmoved %s" % v["name"], z3.Implies(k == k0, cur == s.z())))
            return out
        c.exec(NONE + ROLL + LOOK, [(r"DateStepSize_::operator", inv)])
        cb(c.st, s)
        this = c.obj("this", {0: ("i8", Poly.const(STEP["BD"]))}, 1)
        h = c.obj("hols", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
        rs = c.call(r"DateStepSize_::operator\(\)\(Dal::Date_", [this, date_arg(c, s), fwd, n, h])

        def post(st, v):
            v = Z(v)
            cb(st, v)
            cb(st, s.z() - 1)
            return [("passes exactly n business days", z3.Implies(z3.Or(n.z() > 0, biz(s)), CB(v + 1) - CB(s.z() + 1) == n.z() if fwd else CB(s.z()) - CB(v) == n.z())), ("lands on a business day", biz(v))]
        c.ensure_all(rs, "n business days %s" % ("later" if fwd else "earlier"), post)
    f.__name__ = "business_days_" + ("later" if fwd else "earlier")
    return f


contract("hol")(steps(True))
contract("hol")(steps(False))


def adjusted(fwd):
    """calendar tenors with a holiday calendar end on the rolled date"""
    def f(c):
        c.exec(NONE + ROLL + LOOK)
        s, n = c.int("serial", 800, DMAX - 800), c.int("n", 0, 100)
        this = c.obj("this", {0: ("i8", Poly.const(STEP["W"]))}, 1)
        h = c.obj("hols", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
        raw = s.z() + (7 if fwd else -7) * n.z()
        cb(c.st, raw)
        rs = c.call(r"DateStepSize_::operator\(\)\(Dal::Date_", [this, date_arg(c, s), fwd, n, h])
        c.ensure_all(rs, "nearest business day at or beyond the unadjusted date", lambda st, v: [("business day", biz(v)), ("direction", Z(v) >= raw if fwd else Z(v) <= raw),
                     ("no business day skipped", CB(Z(v)) == CB(raw) if fwd else CB(Z(v) + 1) == CB(raw + 1))])
    f.__name__ = "adjusted_" + ("forward" if fwd else "backward")
    return f


contract("hol")(adjusted(True))
contract("hol")(adjusted(False))
