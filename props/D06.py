from common import *
ID = "D06"
META = dict(
    title="Date-times keep every time of day and millisecond stamp exactly",
    statement="A date-time built from a date and hours, minutes and seconds gives back the same date, hour, minute and second, in accessors and in text, and parsing its text restores it; building from a millisecond stamp and reading the stamp back is the identity. Adding a positive fraction of days moves the instant by exactly that much with the time of day kept below one day, and differences and comparisons agree with the instant in days.",
    quantifier=dict(over=["inputs"], text="every date, every second of the day, every millisecond stamp of the range, every positive increment"),
    why_tests_cant="Seconds and milliseconds are stored as binary fractions of a day, so truncation errors hit only some of the 86400 (86400000) values (such a defect was found and fixed).",
    anchors=dict(files=["dal/time/datetime.cpp", "dal/time/datetime.hpp", "dal/time/datetimeutils.cpp", "dal/time/dateutils.cpp"],
                 mechanism=["fraction-of-day storage and its accessors", "millisecond stamps", "addition with carry into the date", "text form and parser @ dal/time/datetimeutils.cpp"]),
    level_note="accessors and stamps proved with IEEE rounding modelled (each operation within 2^-53 relative); addition, difference and order over the reals; text parsing (regular expressions) is covered by the bounded stand-in over all seconds of the day")
DRIVERS = {"dt": ('#include "/repo/dal/time/date.cpp"\n#include "/repo/dal/time/datetime.cpp"\nnamespace { bool verif_order(const Dal::DateTime_& a, const Dal::DateTime_& b, int k) { return k == 0 ? a < b : k == 1 ? a > b : k == 2 ? a <= b : k == 3 ? a >= b : k == 4 ? a == b : a != b; } }\nbool VerifOrder(const Dal::DateTime_& a, const Dal::DateTime_& b, int k) { return verif_order(a, b, k); }\n',
                  [r"^Dal::DateTime_::", r"^Dal::DateTime::", r"^Dal::operator-\(Dal::DateTime_", r"VerifOrder"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: every second of the day for several dates (accessors, text, parsing), 3 million millisecond stamps, random sums, differences and comparisons"
ASSUMPTIONS = ["date arithmetic (adding days, subtracting dates) is inlined from the real code", "sprintf formats integers as the C standard says"]


def dt_obj(c, name, d=None, f=None):
    cells = {}
    if d is not None:
        cells = {0: ("i16", P(d)), 8: ("f64", f)}
    return c.obj(name, cells, 16)


def day(ex, st, p):
    return Z(ex.load(st, p, "i16"))


def frac(ex, st, p):
    return rz(ex.load(st, p.shift(8), "f64"))


def hms(c):
    d = c.int("date", 0, DMAX)
    h, m, s = c.int("h", 0, 23), c.int("m", 0, 59), c.int("s", 0, 59)
    o = dt_obj(c, "dt")
    rs = c.call(r"^Dal::DateTime_::DateTime_\(Dal::Date_ const&, int, int, int\)", [o, date_arg(c, d, "d"), h, m, s])
    out = []
    for r in rs:
        if r.kind == "ret":
            out.append(r.st)
        else:
            c.ensure(r.st, False, "a valid time of day is accepted")
    return d, h, m, s, o, out


def accessor(name, k):
    def f(c):
        c.exec(fp_round=True, check_fptoint=True)
        d, h, m, s, o, sts = hms(c)
        for st in sts:
            c.ensure(st, day(c.ex, st, o) == d.z(), "date kept")
            rs = c.ex.run_function(c.fname(r"^Dal::DateTime::%s\(" % name), st.fork(), [o])
            c.ensure_all(rs, "%s read back" % name, lambda st2, v: Z(v) == (h, m)[k].z())
    f.__name__ = name.lower()
    return f


contract("dt")(accessor("Hour", 0))
contract("dt")(accessor("Minute", 1))


@contract("dt")
def time_text(c):
    got = []

    def spr(ex, st, a, i, dem):
        if len(a) != 5:
            raise Unsupported("time text is not formatted from three values")
        for nm, x, y in (("hour", a[2], h), ("minute", a[3], m), ("second", a[4], s)):
            ex.oblige(st, Z(x) == y.z(), "time text shows the " + nm, i, cls="post")
            st.assume(Z(x) == y.z())
        got.append(1)
        return [Result(st, "ret", Poly.const(8))]

    def noop(ex, st, a, i, dem):
        return [Result(st, "ret", a[0] if i["t"] == "ptr" else None)]
    c.exec([(re.compile(r"^sprintf$|^snprintf$"), spr), (re.compile(r"String_|basic_string|ci_traits|allocator<char>"), noop)], fp_round=True, check_fptoint=True)
    d, h, m, s, o, sts = hms(c)
    for st in sts:
        ret = c.obj("text", {}, 32, st)
        rs = c.ex.run_function(c.fname(r"^Dal::DateTime::TimeString\("), st.fork(), [ret, o])
        c.ensure_all(rs, "time text is written", lambda st2, v: True if got else False)


@contract("dt")
def msec_round_trip(c):
    c.exec(fp_round=True, check_fptoint=True)
    day_, rem = c.int("day", 0, DMAX - 1), c.int("msec_of_day", 0, 86399999)
    n = day_.scale(86400000).add(rem)
    c.inputs["msec"] = n
    o = dt_obj(c, "dt")
    # quotient and remainder of the stamp
    c.assume(z3.And(n.z() / 86400000 == day_.z(), n.z() % 86400000 == rem.z()))
    rs = c.call(r"^Dal::DateTime_::DateTime_\(long long\)", [o, n])
    for r in rs:
        if r.kind != "ret":
            c.ensure(r.st, False, "every stamp of the range is accepted")
            continue
        rs2 = c.ex.run_function(c.fname(r"^Dal::DateTime::MSec\("), r.st.fork(), [o])
        c.ensure_all(rs2, "millisecond stamp read back", lambda st, v: Z(v) == n.z())


@contract("dt")
def add_fraction(c):
    c.exec(check_fptoint=True)
    d, f, x = c.int("date", 0, 30000), c.real("frac"), c.real("step")
    c.assume(z3.And(f >= 0, f < 1, x <= 30000))
    o = dt_obj(c, "dt", d, f)
    rs = c.call(r"^Dal::DateTime_::operator\+=\(double\)", [o, x])
    c.ensure_all(rs, "addition", lambda st, v: [("the instant moves by the step", z3.ToReal(day(c.ex, st, o)) + frac(c.ex, st, o) == z3.ToReal(d.z()) + f + x),
                 ("time of day below one day", z3.And(frac(c.ex, st, o) >= 0, frac(c.ex, st, o) < 1))], throws=lambda st: x <= 0)


@contract("dt")
def plus_fraction(c):
    c.exec(check_fptoint=True)
    d, f, x = c.int("date", 0, 30000), c.real("frac"), c.real("step")
    c.assume(z3.And(f >= 0, f < 1, x <= 30000, x > 0))
    o = dt_obj(c, "dt", d, f)
    rs = c.call(r"^Dal::DateTime_::operator\+\(double\)", [o, x])
    c.ensure_all(rs, "sum", lambda st, v: [("the instant moves by the step", z3.ToReal(Z(v.v[0])) + rz(v.v[1]) == z3.ToReal(d.z()) + f + x),
                 ("the operand is unchanged", z3.And(day(c.ex, st, o) == d.z(), frac(c.ex, st, o) == f))])


def two(c):
    a, b = c.int("date1", 0, DMAX), c.int("date2", 0, DMAX)
    f, g = c.real("frac1"), c.real("frac2")
    c.assume(z3.And(f >= 0, f < 1, g >= 0, g < 1))
    return a, b, f, g, dt_obj(c, "x", a, f), dt_obj(c, "y", b, g)


@contract("dt")
def difference(c):
    c.exec()
    a, b, f, g, x, y = two(c)
    rs = c.call(r"^Dal::operator-\(Dal::DateTime_", [x, y])
    c.ensure_all(rs, "difference in days", lambda st, v: rz(v) == z3.ToReal(a.z() - b.z()) + f - g)


@contract("dt")
def order(c):
    c.exec()
    a, b, f, g, x, y = two(c)
    u, v_ = z3.ToReal(a.z()) + f, z3.ToReal(b.z()) + g
    for k, want in enumerate((u < v_, u > v_, u <= v_, u >= v_, u == v_, u != v_)):
        rs = c.call(r"VerifOrder", [x, y, Poly.const(k)])
        c.ensure_all(rs, "comparison %d agrees with the instants" % k, lambda st, v: bz(as_bool(v)) == want)
