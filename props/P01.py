from stdc import *
ID = "P01"
META = dict(
    title="The one-dimensional root search never loses the root it has bracketed",
    statement="Once two trial points with function values of opposite sign (or zero) are known, the search keeps a pair of points with that property: every later trial lies between them, each answer replaces one end, so the interval never grows and the end with the smaller residual is the one refined. Before that it moves away from its best point in steps that grow, keeps the point with the smaller residual, and reports an unbounded interval. A starting interval without a sign change is refused.",
    quantifier=dict(over=["inputs", "histories"], text="every starting point, interval and sequence of function values fed to the search"),
    why_tests_cant="Tests find the roots of two or three smooth functions; losing the bracket needs a particular sequence of values (ties, zeros, an interpolation that leaves the interval).",
    anchors=dict(files=["dal/math/rootfind.cpp", "dal/math/rootfind.hpp"],
                 mechanism=["bracket @ dal/math/rootfind.cpp BracketedBrent_::Initialize, PutY", "next trial @ dal/math/rootfind.cpp BracketedBrent_::NextX", "hunt @ dal/math/rootfind.cpp Brent_::PutY", "stopping rule @ dal/math/rootfind.hpp Converged_"]),
    level_note="every step of the search by contract; that the steps converge quickly only by the bounded stand-in")
BO = ["a", "b", "c", "tol", "bisect", "d"]
HO = ["phase", "increasing", "stepSize", "trialX", "knownPoint", "engine"]
DRIVERS = {"r": ('#include <dal/platform/platform.hpp>\n#include <dal/math/rootfind.hpp>\n#include <dal/math/rootfind.cpp>\nusing namespace Dal;\n'
                 + "".join("void* O_%s(void* p) { return (void*)&((BracketedBrent_*)p)->%s_; }\n" % (k, k) for k in BO)
                 + "".join("void* H_%s(void* p) { return (void*)&((Brent_*)p)->%s_; }\n" % (k, k) for k in HO)
                 + "unsigned long S_b() { return sizeof(BracketedBrent_); }\nunsigned long S_h() { return sizeof(Brent_); }\n"
                 + "int C_init() { return (int)Brent_::Phase_::INITIALIZE; }\nint C_hunt() { return (int)Brent_::Phase_::HUNT; }\nint C_brk() { return (int)Brent_::Phase_::BRACKETED; }\n"
                 + "double BNext(BracketedBrent_* p) { return p->BracketedBrent_::NextX(); }\nvoid BPut(BracketedBrent_* p, double y) { p->BracketedBrent_::PutY(y); }\ndouble BWidth(BracketedBrent_* p) { return p->BracketedBrent_::BracketWidth(); }\n"
                 + "void BInit(BracketedBrent_* p, double x1, double y1, double x2, double y2) { p->Initialize(std::make_pair(x1, y1), std::make_pair(x2, y2)); }\n"
                 + "void BMake(BracketedBrent_* p, double x1, double y1, double x2, double y2, double t) { new (p) BracketedBrent_(std::make_pair(x1, y1), std::make_pair(x2, y2), t); }\n"
                 + "double HNext(Brent_* p) { return p->Brent_::NextX(); }\nvoid HPut(Brent_* p, double y) { p->Brent_::PutY(y); }\ndouble HWidth(Brent_* p) { return p->Brent_::BracketWidth(); }\n"
                 + "void HMake(Brent_* p, double g, double t, double s) { new (p) Brent_(g, t, s); }\n"
                 + "struct Stub_ : RootFinder_ { double NextX() override; void PutY(double) override; double BracketWidth() const override; };\ndouble Stub_::NextX() { return 0; }\nRootFinder_* NewStub() { return new Stub_; }\n"
                 + "bool Stop(RootFinder_* t, double xt, double ft, double e) { return Converged_(xt, ft)(*t, e); }\n",
                 ["^[OHSC]_", "^B(Next|Put|Width|Init|Make)", "^H(Next|Put|Width|Make)", "^NewStub", "^Stop"], ["-Xclang", "-fno-access-control", "-fno-inline"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random functions with a sign change (smooth, steep, flat, with a jump), random starts; trials between the ends, shrinking interval, residuals, convergence within 200 steps"
ASSUMPTIONS = ["doubles as real numbers (no underflow of the product of two residuals)", "the next trial is asked for only while some end's residual is not zero"]
SOURCES = ["math/rootfind.cpp"]


def probe(c, rx, *a):
    q = c.ex.quiet
    c.ex.quiet = 1
    try:
        return c.ex.run_function(c.fname(rx), c.st.fork(), list(a))[0].val
    finally:
        c.ex.quiet = q


def off(c, k, pre="O"):
    p = Ptr(c.ex.new_obj(c.st, "probe", 4096, True).id, 0)
    return probe(c, r"^%s_%s\(" % (pre, k), p).off.c()


def con(c, k):
    return P(probe(c, r"^C_%s\(" % k)).c()


def ab(x):
    return z3.If(x >= 0, x, -x)


LIB = STRINGS


class Bracket:
    """a bracketing search in an arbitrary state"""

    def __init__(self, c, fresh=False):
        self.c = c
        self.o = {k: off(c, k) for k in BO}
        self.v = {}
        cells = {}
        for k in ("a", "b", "c"):
            for w, n in ((0, "x"), (8, "y")):
                self.v[k + n] = c.real("%s.%s" % (k, n))
                cells[self.o[k] + w] = ("f64", self.v[k + n])
        self.v["tol"], self.v["d"] = c.real("tol"), c.real("d")
        cells[self.o["tol"]] = ("f64", self.v["tol"])
        cells[self.o["d"]] = ("f64", self.v["d"])
        self.bis = c.int("bisect", 0, 1)
        cells[self.o["bisect"]] = ("i8", self.bis)
        self.cells = cells

    def make(self):
        c = self.c
        self.this = c.obj("search", self.cells, P(probe(c, "^S_b")).c())
        return self

    def at(self, st, k, y=False):
        return rz(self.c.ex.load(st, self.this.shift(self.o[k] + (8 if y else 0)), "f64"))

    def bracketed(self):
        v = self.v
        self.c.assume(z3.And(v["ay"] * v["by"] <= 0, ab(v["by"]) <= ab(v["ay"])))


def between(x, p, q):
    return z3.Or(z3.And(p <= x, x <= q), z3.And(q <= x, x <= p))


def sign(st, y1, y2):
    return z3.Or(y1 == 0, y2 == 0, z3.And(y1 < 0, y2 > 0), z3.And(y1 > 0, y2 < 0))


@contract("r")
def start(c):
    """Initialize and the constructor: a sign change or a refusal; the ends are the two points, the better one second"""
    for rx in ("^BInit", "^BMake"):
        c.st = State()
        c.exec(LIB)
        s = Bracket(c).make()
        x1, y1, x2, y2 = [c.real(k) for k in ("x1", "y1", "x2", "y2")]

        def post(st, _, s=s):
            A = (s.at(st, "a"), s.at(st, "a", True))
            B = (s.at(st, "b"), s.at(st, "b", True))
            same = lambda p, q: z3.And(p[0] == q[0], p[1] == q[1])
            return [("only with a sign change", sign(st, y1, y2)), ("the ends are the two points", z3.Or(z3.And(same(A, (x1, y1)), same(B, (x2, y2))), z3.And(same(A, (x2, y2)), same(B, (x1, y1))))),
                    ("the better end is the one refined", ab(B[1]) <= ab(A[1])), ("starts by halving", Z(c.ex.load(st, s.this.shift(s.o["bisect"]), "i8")) == 1)]
        c.ensure_all(c.call(rx, [s.this, x1, y1, x2, y2] + ([s.v["tol"]] if rx == "^BMake" else [])), rx, post, throws=lambda st: z3.Not(sign(st, y1, y2)))


@contract("r")
def trial(c):
    """NextX: between the ends; remembered as the point the next answer belongs to; ends untouched"""
    c.exec(LIB, check_div=True)
    s = Bracket(c).make()
    s.bracketed()
    c.assume(s.v["ay"] != 0)

    def post(st, x):
        x = rz(x)
        return [("between the ends", between(x, s.v["ax"], s.v["bx"])), ("remembered", s.at(st, "d") == x)] + \
               [("%s kept" % k, z3.And(s.at(st, k) == s.v[k + "x"], s.at(st, k, True) == s.v[k + "y"])) for k in ("a", "b", "c")]
    c.ensure_all(c.call("^BNext", [s.this]), "NextX", post)


@contract("r")
def answer(c):
    """PutY: the answer replaces the end on its side; sign change, ordering and interval are kept"""
    c.exec(LIB)
    s = Bracket(c).make()
    s.bracketed()
    v = s.v
    c.assume(between(v["d"], v["ax"], v["bx"]))
    y = c.real("y")

    def post(st, _):
        A, B = (s.at(st, "a"), s.at(st, "a", True)), (s.at(st, "b"), s.at(st, "b", True))
        isn = lambda p: z3.And(p[0] == v["d"], p[1] == y)
        old = lambda p, k: z3.And(p[0] == v[k + "x"], p[1] == v[k + "y"])
        return [("sign change kept", sign(st, A[1], B[1])), ("better end second", ab(B[1]) <= ab(A[1])),
                ("the interval only shrinks", z3.And(between(A[0], v["ax"], v["bx"]), between(B[0], v["ax"], v["bx"]))),
                ("one end is the new point, the other an old one", z3.Or(z3.And(isn(A), z3.Or(old(B, "a"), old(B, "b"))), z3.And(isn(B), z3.Or(old(A, "a"), old(A, "b"))))),
                ("the last best point is remembered", z3.And(s.at(st, "c") == v["bx"], s.at(st, "c", True) == v["by"])),
                ("and the one before it", s.at(st, "d") == v["cx"])]
    c.ensure_all(c.call("^BPut", [s.this, y]), "PutY", post)


@contract("r")
def width(c):
    """BracketWidth: the distance between the ends; the stopping rule compares it and the residual just reported"""
    c.exec(LIB)
    s = Bracket(c).make()
    c.ensure_all(c.call("^BWidth", [s.this]), "width", lambda st, x: rz(x) == ab(s.v["ax"] - s.v["bx"]))
    c.st = State()
    W = c.real("w")

    def put(ex, st, a, i, dem):
        ex.store(st, log, "f64", a[1], i)
        return [Result(st, "ret", None)]
    c.exec([(re.compile(r"Stub_::PutY"), put), (re.compile(r"Stub_::BracketWidth"), lambda ex, st, a, i, dem: [Result(st, "ret", W)])] + LIB)
    r = c.ex.run_function(c.fname("^NewStub"), c.st, [])
    t, c.st = r[0].val, r[0].st
    log = c.obj("log", {0: ("f64", c.real("unset"))}, 8)
    xt, ft, e = c.real("x_tol"), c.real("f_tol"), c.real("e")
    c.ensure_all(c.call("^Stop", [t, xt, ft, e]), "stopping rule", lambda st, x: [("residual or interval small enough", bz(as_bool(x)) == z3.Or(ab(e) < ft, W < xt)), ("the residual is reported", rz(c.ex.load(st, log, "f64")) == e)])


class Hunt:
    def __init__(self, c, phase):
        self.c = c
        self.o = {k: off(c, k, "H") for k in HO}
        self.b = Bracket(c)
        eo = self.o["engine"]
        cells = {eo + k: v for k, v in self.b.cells.items()}
        self.v = {k: c.real(k) for k in ("stepSize", "trialX", "kx", "ky")}
        for k in ("stepSize", "trialX"):
            cells[self.o[k]] = ("f64", self.v[k])
        cells[self.o["knownPoint"]] = ("f64", self.v["kx"])
        cells[self.o["knownPoint"] + 8] = ("f64", self.v["ky"])
        self.inc = c.int("increasing", 0, 1)
        cells[self.o["increasing"]] = ("i8", self.inc)
        cells[self.o["phase"]] = ("i32", Poly.const(phase))
        self.this = c.obj("hunt", cells, P(probe(c, "^S_h")).c())
        self.b.this = self.this.shift(eo)

    def f(self, st, k, d=0):
        return rz(self.c.ex.load(st, self.this.shift(self.o[k] + d), "f64"))

    def phase(self, st):
        return Z(self.c.ex.load(st, self.this.shift(self.o["phase"]), "i32"))


@contract("r")
def hunt(c):
    """Brent_: from its first point outwards until two residuals of opposite sign are known"""
    c.exec(LIB)
    ini, hnt, brk = [con(c, k) for k in ("init", "hunt", "brk")]
    h = Hunt(c, hnt)
    g, t, sz = c.real("guess"), c.real("tol0"), c.real("step0")
    c.ensure_all(c.call("^HMake", [h.this, g, t, sz]), "new search", lambda st, _: [("first trial is the guess", h.f(st, "trialX") == g), ("no answers yet", h.phase(st) == ini),
                 ("positive first step", z3.And(h.f(st, "stepSize") > 0, z3.Implies(sz > 0, h.f(st, "stepSize") == sz)))])
    y = c.real("y")
    for ph in (ini, hnt, brk):
        for fn in ("^HNext", "^HWidth", "^HPut"):
            c.st = State()
            seen = []

            def eng(kind, seen=seen):
                def f(ex, st, a, i, dem):
                    seen.append(kind)
                    ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj == h.b.this.obj and a[0].off.c() == h.b.this.off.c()), "the search's own bracket is used", i)
                    if kind == "put":
                        ex.oblige(st, rz(a[1]) == y, "the answer is passed on", i)
                    return [Result(st, "ret", None if kind == "put" else rv[kind])]
                return f
            rv = {"next": z3.Real("engine_next"), "width": z3.Real("engine_width")}
            c.exec(([(re.compile(r"BracketedBrent_::NextX"), eng("next")), (re.compile(r"BracketedBrent_::PutY"), eng("put")), (re.compile(r"BracketedBrent_::BracketWidth"), eng("width"))] if ph == brk else []) + LIB)
            h = Hunt(c, ph)
            v = h.v
            c.assume(v["stepSize"] > 0)
            if fn == "^HNext":
                c.ensure_all(c.call(fn, [h.this]), "next trial in phase %d" % ph, lambda st, x: [("trial", rz(x) == (rv["next"] if ph == brk else v["trialX"]))])
            elif fn == "^HWidth":
                c.ensure_all(c.call(fn, [h.this]), "width in phase %d" % ph, lambda st, x: [("unbounded until bracketed", rz(x) == rv["width"] if ph == brk else rz(x) >= 10 ** 20)])
            elif ph == ini:
                c.ensure_all(c.call(fn, [h.this, y]), "first answer", lambda st, _: [("kept as the known point", z3.And(h.f(st, "knownPoint") == v["trialX"], h.f(st, "knownPoint", 8) == y)), ("then hunts", h.phase(st) == hnt),
                             ("one step away, up when the residual is negative and rising is assumed", h.f(st, "trialX") == v["trialX"] + v["stepSize"] * z3.If((y < 0) == (Z(h.inc) == 1), 1, -1))])
            elif ph == brk:
                c.ensure_all(c.call(fn, [h.this, y]), "answer once bracketed", lambda st, _: [("goes to the bracket", z3.BoolVal("put" in seen)), ("stays bracketed", h.phase(st) == brk)])
            else:
                def post(st, _):
                    B = h.b
                    A_, B_ = (B.at(st, "a"), B.at(st, "a", True)), (B.at(st, "b"), B.at(st, "b", True))
                    same = lambda p, x, z_: z3.And(p[0] == x, p[1] == z_)
                    opp = sign(st, y, v["ky"])
                    k1 = (h.f(st, "knownPoint"), h.f(st, "knownPoint", 8))
                    worse = ab(y) > ab(v["ky"])
                    return [("bracketed exactly on a sign change", (h.phase(st) == brk) == opp), ("otherwise still hunting", z3.Implies(z3.Not(opp), h.phase(st) == hnt)),
                            ("the bracket is the known point and the new one", z3.Implies(opp, z3.And(sign(st, A_[1], B_[1]), ab(B_[1]) <= ab(A_[1]), z3.Or(z3.And(same(A_, v["kx"], v["ky"]), same(B_, v["trialX"], y)), z3.And(same(B_, v["kx"], v["ky"]), same(A_, v["trialX"], y)))))),
                            ("keeps the better point", z3.Implies(z3.Not(opp), z3.If(worse, same(k1, v["kx"], v["ky"]), same(k1, v["trialX"], y)))),
                            ("steps grow", z3.Implies(z3.Not(opp), h.f(st, "stepSize") > v["stepSize"])),
                            ("the next trial is a step away from the better point, on the side where the root is expected", z3.Implies(z3.Not(opp), h.f(st, "trialX") == k1[0] + h.f(st, "stepSize") * z3.If((k1[1] < 0) == (Z(c.ex.load(st, h.this.shift(h.o["increasing"]), "i8")) == 1), 1, -1))),
                            ("turns round after a worse point, and only then", z3.Implies(z3.Not(opp), (Z(c.ex.load(st, h.this.shift(h.o["increasing"]), "i8")) == Z(h.inc)) == z3.Not(worse)))]
                c.ensure_all(c.call(fn, [h.this, y]), "answer while hunting", post)
