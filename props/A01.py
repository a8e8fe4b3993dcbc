from stdc import *
from builtins_ import UF1, POW
ID = "A01"
META = dict(
    title="Recorded expressions carry the value and every partial derivative",
    statement="Every arithmetic operation and function of the differentiable number type has the value of the plain operation, and assigning an expression of any shape to a number records, for each number occurring in it, that number's adjoint slot and the partial derivative of the whole expression with respect to it (chain rule through the operation's exact derivative, wherever it is differentiable). Compound assignments and comparisons behave as on plain numbers.",
    quantifier=dict(over=["inputs", "programs"], text="every operation, every expression tree shape built from them (by induction over the tree), all operand values"),
    why_tests_cant="Tests check a few derivatives of a few expressions; a wrong slot offset or a swapped derivative appears only for particular operand shapes, such as two numbers on the left of an operation or a constant on one side.",
    anchors=dict(files=["dal/math/aad/expr.hpp", "dal/math/aad/tape.hpp"],
                 mechanism=["expression templates and their derivative propagation @ dal/math/aad/expr.hpp", "number construction and assignment from expressions @ dal/math/aad/expr.hpp"]),
    level_note="operands are opaque expressions with a contract of their own, so the proof is by induction over expression shape; doubles as reals; derivative table of the elementary functions as specification")


def pow_facts(b, e):
    """power function: sign, x^e = x^(e-1) x, and its values at a zero base"""
    return z3.And(z3.Implies(b > 0, POW(b, e) > 0), z3.Implies(z3.And(b < 0, z3.IsInt(e)), POW(b, e) != 0),
                  z3.Implies(z3.Or(b > 0, z3.And(b < 0, z3.IsInt(e))), POW(b, e - 1) * b == POW(b, e)),
                  *[z3.Implies(b == 0, z3.And(z3.Implies(x > 0, POW(b, x) == 0), z3.Implies(x == 0, POW(b, x) == 1))) for x in (e, e - 1)])


def d_base(b, e, v):
    """derivative of b^e by b: e b^(e-1)"""
    return z3.If(b != 0, e * v / b, z3.If(e == 1, z3.RealVal(1), z3.RealVal(0)))


OPS2 = {  # name: (C++ expression, value, d/dl, d/dr, where differentiable)
    "mul": ("l * r", lambda l, r: l * r, lambda l, r, v: r, lambda l, r, v: l, None),
    "add": ("l + r", lambda l, r: l + r, lambda l, r, v: 1, lambda l, r, v: 1, None),
    "sub": ("l - r", lambda l, r: l - r, lambda l, r, v: 1, lambda l, r, v: -1, None),
    "div": ("l / r", lambda l, r: l / r, lambda l, r, v: 1 / r, lambda l, r, v: -l / (r * r), lambda l, r: r != 0),
    "pow": ("pow(l, r)", lambda l, r: POW(l, r), lambda l, r, v: d_base(l, r, v), lambda l, r, v: z3.If(l == 0, z3.RealVal(0), UF1["log"](l) * v), lambda l, r: z3.And(pow_facts(l, r), z3.Or(l > 0, z3.And(l == 0, r >= 1)))),
    "max": ("max(l, r)", lambda l, r: z3.If(l >= r, l, r), lambda l, r, v: z3.If(l > r, 1.0, 0.0), lambda l, r, v: z3.If(r > l, 1.0, 0.0), lambda l, r: l != r),
    "min": ("min(l, r)", lambda l, r: z3.If(l <= r, l, r), lambda l, r, v: z3.If(l < r, 1.0, 0.0), lambda l, r, v: z3.If(r < l, 1.0, 0.0), lambda l, r: l != r),
}
NPDF, NCDF = z3.Function("normal_density", z3.RealSort(), z3.RealSort()), z3.Function("normal_cdf", z3.RealSort(), z3.RealSort())
OPS1 = {  # name: (C++ expression, value, derivative, where)
    "exp": ("exp(l)", lambda l, d: UF1["exp"](l), lambda l, v, d: v, None),
    "log": ("log(l)", lambda l, d: UF1["log"](l), lambda l, v, d: 1 / l, lambda l, d: l > 0),
    "sqrt": ("sqrt(l)", lambda l, d: UF1["sqrt"](l), lambda l, v, d: 1 / (2 * v), lambda l, d: l > 0),
    "fabs": ("fabs(l)", lambda l, d: z3.If(l >= 0, l, -l), lambda l, v, d: z3.If(l > 0, z3.RealVal(1), z3.RealVal(-1)), lambda l, d: l != 0),
    "npdf": ("NPDF(l)", lambda l, d: NPDF(l), lambda l, v, d: -l * v, None),
    "ncdf": ("NCDF(l)", lambda l, d: NCDF(l), lambda l, v, d: NPDF(l), None),
    "erfc": ("erfc(l)", lambda l, d: UF1["erfc"](l), lambda l, v, d: ("near", -UF1["exp"](-(l * l)), "1.1283791670955125738961589031215451716881012586580"), None),
    "muld": ("l * d", lambda l, d: l * d, lambda l, v, d: d, None),
    "dmul": ("d * l", lambda l, d: l * d, lambda l, v, d: d, None),
    "addd": ("l + d", lambda l, d: l + d, lambda l, v, d: 1, None),
    "dadd": ("d + l", lambda l, d: l + d, lambda l, v, d: 1, None),
    "subd": ("l - d", lambda l, d: l - d, lambda l, v, d: 1, None),
    "dsub": ("d - l", lambda l, d: d - l, lambda l, v, d: -1, None),
    "divd": ("l / d", lambda l, d: l / d, lambda l, v, d: 1 / d, lambda l, d: d != 0),
    "ddiv": ("d / l", lambda l, d: d / l, lambda l, v, d: -d / (l * l), lambda l, d: l != 0),
    "powd": ("pow(l, d)", lambda l, d: POW(l, d), lambda l, v, d: d_base(l, d, v), lambda l, d: z3.And(pow_facts(l, d), z3.Or(l > 0, z3.And(l < 0, z3.IsInt(d)), z3.And(l == 0, z3.Or(d == 0, d >= 1))))),
    "dpow": ("pow(d, l)", lambda l, d: POW(d, l), lambda l, v, d: z3.If(d == 0, z3.RealVal(0), UF1["log"](d) * v), lambda l, d: z3.And(pow_facts(d, l), z3.Or(d > 0, z3.And(d == 0, l > 0)))),
    "maxd": ("max(l, d)", lambda l, d: z3.If(l >= d, l, d), lambda l, v, d: z3.If(l > d, 1.0, 0.0), lambda l, d: l != d),
    "dmax": ("max(d, l)", lambda l, d: z3.If(l >= d, l, d), lambda l, v, d: z3.If(l > d, 1.0, 0.0), lambda l, d: l != d),
    "mind": ("min(l, d)", lambda l, d: z3.If(l <= d, l, d), lambda l, v, d: z3.If(l < d, 1.0, 0.0), lambda l, d: l != d),
    "dmin": ("min(d, l)", lambda l, d: z3.If(l <= d, l, d), lambda l, v, d: z3.If(l < d, 1.0, 0.0), lambda l, d: l != d),
    "neg": ("-l", lambda l, d: -l, lambda l, v, d: -1, None),
    "pos": ("+l", lambda l, d: l, lambda l, v, d: 1, None),
}
CMP = {"eq": ("==", lambda a, b: a == b), "ne": ("!=", lambda a, b: a != b), "lt": ("<", lambda a, b: a < b), "gt": (">", lambda a, b: a > b), "le": ("<=", lambda a, b: a <= b), "ge": (">=", lambda a, b: a >= b)}
DRV = '''#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
using namespace Dal; using namespace Dal::AAD;
// an expression of any shape: only its contract is known
template <int N, int ID> struct Opaque_ : Expression_<Opaque_<N, ID>> {
    enum { numNumbers_ = N };
    double tag_;
    double value() const;
    template <size_t N_, size_t n_> void PushAdjoint(TapNode_& node, double adjoint) const;
};
typedef Opaque_<2, 0> L_;
typedef Opaque_<3, 1> R_;
'''
for _n, _t in OPS2.items():
    DRV += "double V2_%s(const L_& l, const R_& r) { auto e = %s; return e.value(); }\nvoid P2_%s(const L_& l, const R_& r, TapNode_& n, double a) { auto e = %s; e.template PushAdjoint<9, 1>(n, a); }\n" % (_n, _t[0], _n, _t[0])
for _n, _t in OPS1.items():
    DRV += "double V1_%s(const L_& l, double d) { auto e = %s; return e.value(); }\nvoid P1_%s(const L_& l, double d, TapNode_& n, double a) { auto e = %s; e.template PushAdjoint<9, 4>(n, a); }\n" % (_n, _t[0], _n, _t[0])
for _n, _t in CMP.items():
    DRV += "bool C0_%s(const L_& l, const R_& r, double d) { return l %s r; }\nbool C1_%s(const L_& l, const R_& r, double d) { return l %s d; }\nbool C2_%s(const L_& l, const R_& r, double d) { return d %s r; }\n" % (_n, _t[0], _n, _t[0], _n, _t[0])
DRV += '''int Arity2() { const L_* l = nullptr; const R_* r = nullptr; return decltype(*l * *r)::numNumbers_ * 100 + decltype(exp(*r))::numNumbers_; }
void New(Number_* self, const R_& e) { new (self) Number_(e); }
void NewD(Number_* self, double d) { new (self) Number_(d); }
void Set(Number_& self, const R_& e) { self = e; }
void SetD(Number_& self, double d) { self = d; }
void Leaf(const Number_& x, TapNode_& n, double a) { x.template PushAdjoint<9, 5>(n, a); }
double Val(const Number_& x) { return x.value(); }
void Put(Number_& x) { x.PutOnTape(); }
double Cast(const R_& e) { return static_cast<double>(e); }
'''
COMPOUND = {"add": "+", "mul": "*", "sub": "-", "div": "/"}
for _n, _o in COMPOUND.items():
    DRV += "void Cmp_%s(Number_& x, const R_& e) { x %s= e; }\nvoid CmpD_%s(Number_& x, const double& d) { x %s= d; }\n" % (_n, _o, _n, _o)
DRIVERS = {"a": (DRV, [r"^V[12]_", r"^P[12]_", r"^C[012]_", r"^Arity2", r"^New", r"^Set", r"^Leaf", r"^Val", r"^Put", r"^Cast", r"^Cmp"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random expression trees and straight-line programs; values against plain evaluation and derivatives against forward-mode dual numbers"
ASSUMPTIONS = ["doubles as real numbers", "derivative table of exp, log, sqrt, pow, erfc, the normal density and the normal distribution function",
               "expression templates are checked at operands with 2 and 3 numbers and fixed slot positions; the template code does not inspect the operand type"]
SOURCES = ["math/aad/aad.cpp", "math/aad/expr.cpp", "math/aad/tape.cpp", "math/specialfunctions.cpp", "math/interp/interpcubic.cpp", "math/interp/interp.cpp", "storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp"]

VAL = z3.Function("value_of", z3.RealSort(), z3.RealSort())


def op_value(ex, st, a, i, dem):
    t = ex.load(st, a[0], "f64", i)
    return [Result(st, "ret", VAL(rz(t)))]


def op_push(ex, st, a, i, dem):
    m = re.search(r"PushAdjoint<(\d+)ul, (\d+)ul>", dem)
    t = ex.load(st, a[0], "f64", i)
    node = a[1]
    st.ghost["push"] = st.ghost.get("push", ()) + ((int(m.group(1)), int(m.group(2)), rz(t), node, rz(a[2])),)
    return [Result(st, "ret", None)]


def fn1(f):
    return lambda ex, st, a, i, dem: [Result(st, "ret", f(rz(a[0])))]


BASE = [(re.compile(r"^Opaque_<.*::value\(\)"), op_value), (re.compile(r"Opaque_<\d+, \d+>::PushAdjoint<"), op_push),
        (re.compile(r"^Dal::NPDF\("), fn1(NPDF)), (re.compile(r"^Dal::NCDF\("), fn1(NCDF))]


def setup(c, extra=()):
    c.exec(list(extra) + BASE)
    lt, rt = c.real("lt"), c.real("rt")
    c.assume(lt != rt)
    l, r = c.obj("l", {0: ("f64", lt)}, 8), c.obj("r", {0: ("f64", rt)}, 8)
    vl, vr = z3.Real("l"), z3.Real("r")
    c.inputs["l"], c.inputs["r"] = vl, vr
    c.assume(z3.And(VAL(lt) == vl, VAL(rt) == vr))
    return l, r, lt, rt, VAL(lt), VAL(rt)


def matches(got, adj, want, c, st, name):
    """got == adj * want, or within the printed precision of a literal constant"""
    if isinstance(want, tuple):
        f = want[1] * z3.RealVal(want[2])
        k = z3.Real(fresh_name("factor"))
        c.ensure(st, z3.Exists([k], z3.And(got == adj * (k * want[1]), k - z3.RealVal(want[2]) <= z3.RealVal("0.00000000000001"), z3.RealVal(want[2]) - k <= z3.RealVal("0.00000000000001"))), name)
    else:
        c.ensure(st, got == adj * rz(want), name)


def pushed(c, st, want, node):
    ps = st.ghost.get("push", ())
    c.ensure(st, len(ps) == len(want), "every operand is visited once")
    if len(ps) != len(want):
        return []
    out = []
    for total, slot, tag in want:
        hit = [p for p in ps if p[1] == slot]
        c.ensure(st, len(hit) == 1, "operand uses slots from %d" % slot)
        if len(hit) != 1:
            return []
        p = hit[0]
        c.ensure(st, z3.And(z3.BoolVal(p[0] == total), p[2] == tag, z3.BoolVal(p[3].obj == node.obj), Z(p[3].off) == Z(node.off)), "operand's own slots of the same record")
        out.append(p[4])
    return out


def binary(name):
    def f(c):
        _, val, dl, dr, where = OPS2[name]
        l, r, lt, rt, vl, vr = setup(c)
        for q in c.call(r"^V2_%s\(" % name, [l, r]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            c.ensure(q.st, rz(q.val) == val(vl, vr), "value of the operation")
        adj = c.real("adjoint")
        node = c.obj("node", {}, 64)
        for q in c.call(r"^P2_%s\(" % name, [l, r, node, adj]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            st = q.st
            if where is not None:
                st.assume(where(vl, vr))
            got = pushed(c, st, [(9, 1, lt), (9, 3, rt)], node)
            if got:
                v = val(vl, vr)
                matches(got[0], adj, dl(vl, vr, v), c, st, "derivative with respect to the left operand")
                matches(got[1], adj, dr(vl, vr, v), c, st, "derivative with respect to the right operand")
    f.__name__ = "op_" + name
    return f


def unary(name):
    def f(c):
        _, val, d1, where = OPS1[name]
        l, r, lt, rt, vl, vr = setup(c)
        d = c.real("d")
        for q in c.call(r"^V1_%s\(" % name, [l, d]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            c.ensure(q.st, rz(q.val) == val(vl, d), "value of the operation")
        adj = c.real("adjoint")
        node = c.obj("node", {}, 64)
        for q in c.call(r"^P1_%s\(" % name, [l, d, node, adj]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            st = q.st
            if where is not None:
                st.assume(where(vl, d))
            got = pushed(c, st, [(9, 4, lt)], node)
            if got:
                matches(got[0], adj, d1(vl, val(vl, d), d), c, st, "derivative")
    f.__name__ = "fn_" + name
    return f


for _n in OPS2:
    contract("a")(binary(_n))
for _n in OPS1:
    contract("a")(unary(_n))


@contract("a")
def comparisons(c):
    l, r, lt, rt, vl, vr = setup(c)
    d = c.real("d")
    for n, (_, f) in CMP.items():
        for k, (a, b) in enumerate(((vl, vr), (vl, d), (d, vr))):
            c.ensure_all(c.call(r"^C%d_%s\(" % (k, n), [l, r, d]), "comparison %s" % n, lambda st, v, a=a, b=b, f=f: bz(v) == f(a, b))
    c.ensure_all(c.call(r"^Cast\(", [r]), "conversion to a plain number", lambda st, v: rz(v) == vr)
    c.ensure_all(c.call(r"^Arity2\(", []), "numbers in an expression", lambda st, v: Z(v) == 503)


def tape(c, multi):
    """recording: RecordNode<N> hands out a fresh record with N slots (contract proved in A02)"""
    TP = c.obj("tape", {}, 64)
    tls = c.obj("tls", {0: ("ptr", TP)}, 8)

    def rec(ex, st, a, i, dem):
        n = int(re.search(r"RecordNode<(\d+)ul>", dem).group(1))
        ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj == TP.obj), "recorded on the current tape", i, cls="post")
        node = ex.new_obj(st, "record", 48, True)
        ders, ptrs, adjs = ex.new_obj(st, "ders", 8 * max(n, 1), True), ex.new_obj(st, "ptrs", 8 * max(n, 1), True), ex.new_obj(st, "adjs", 8, True)
        for off, ty, v in ((0, "i64", Poly.const(n)), (8, "f64", Fraction(0)), (16, "ptr", Ptr(ders.id, 0)), (24, "ptr", Ptr(adjs.id, 0)), (32, "ptr", Ptr(ptrs.id, 0))):
            node.cells[off] = (8, ty, v)
        st.ghost["rec"] = st.ghost.get("rec", ()) + ((n, node.id, ders.id, ptrs.id, adjs.id),)
        return [Result(st, "ret", Ptr(node.id, 0))]
    return [(re.compile(r"RecordNode<"), rec), (re.compile(r"Number_::tape_|^_ZTWN3Dal3AAD7Number_5tape_"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)]),
            (re.compile(r"^llvm\.threadlocal"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)])]


def with_tape(c):
    L = setup(c)
    c.ex.contracts[:0] = tape(c, False)
    return L


def number(c, name, v, n=1):
    node = c.obj(name + ".node", {0: ("i64", Poly.const(n)), 8: ("f64", Fraction(0)), 16: ("ptr", NULL), 24: ("ptr", c.obj(name + ".adjs", {0: ("f64", Fraction(0))}, 8)), 32: ("ptr", NULL)}, 40)
    return c.obj(name, {0: ("f64", v), 8: ("ptr", node)}, 16), node


def cell(c, st, obj, off, ty):
    return c.ex.load(st, Ptr(obj, P(off)), ty)


def recorded(c, st, self, n, val):
    rs = st.ghost.get("rec", ())
    c.ensure(st, len(rs) == 1 and rs[0][0] == n, "one record with one slot per number")
    if len(rs) != 1:
        return None
    c.ensure(st, rz(cell(c, st, self.obj, 0, "f64")) == val, "value")
    nd = cell(c, st, self.obj, 8, "ptr")
    c.ensure(st, isinstance(nd, Ptr) and nd.obj == rs[0][1], "the number refers to its record")
    return rs[0]


@contract("a")
def construct(c):
    l, r, lt, rt, vl, vr = with_tape(c)
    v0 = c.real("v0")
    for fn in ("New", "Set"):
        x, _ = number(c, "x" + fn, v0)
        for q in c.call(r"^%s\(" % fn, [x, r]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            rec = recorded(c, q.st, x, 3, vr)
            if rec:
                got = pushed(c, q.st, [(3, 0, rt)], Ptr(rec[1], 0))
                if got:
                    c.ensure(q.st, got[0] == 1, "seeded with one")
    d = c.real("d")
    for fn in ("NewD", "SetD"):
        x, _ = number(c, "x" + fn, v0)
        for q in c.call(r"^%s\(" % fn, [x, d]):
            recorded(c, q.st, x, 0, d) if q.kind == "ret" else c.ensure(q.st, False, "never throws")
    x, _ = number(c, "xp", v0)
    for q in c.call(r"^Put\(", [x]):
        recorded(c, q.st, x, 0, v0) if q.kind == "ret" else c.ensure(q.st, False, "never throws")
    c.ensure_all(c.call(r"^Val\(", [x]), "value", lambda st, v: rz(v) == v0)


def leaf_contract(multi):
    def f(c):
        l, r, lt, rt, vl, vr = with_tape(c)
        v0, adj = c.real("v0"), c.real("adjoint")
        set_multi(c, multi)
        x, node = number(c, "x", v0)
        ders, _ = c.array("ders", 9)
        ptrs = c.obj("ptrs", {}, 72)
        tgt = c.obj("target", {0: ("i64", Poly.const(9)), 8: ("f64", Fraction(0)), 16: ("ptr", ders), 24: ("ptr", NULL), 32: ("ptr", ptrs)}, 40)
        for q in c.call(r"^Leaf\(", [x, tgt, adj]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            st = q.st
            p = c.ex.load(st, ptrs.shift(40), "ptr")
            want = c.ex.load(st, node.shift(24), "ptr") if multi else node.shift(8)
            c.ensure(st, isinstance(p, Ptr) and p.obj == want.obj and p.off.same(want.off), "slot refers to the number's adjoint")
            c.ensure(st, rz(c.ex.load(st, ders.shift(40), "f64")) == adj, "slot holds the derivative")
            for k in (0, 1, 4, 6, 8):
                c.ensure(st, rz(c.ex.load(st, ders.shift(8 * k), "f64")) == z3.Function("ders", z3.IntSort(), z3.RealSort())(k), "other slots untouched")
    f.__name__ = "leaf_multi" if multi else "leaf"
    return f


def set_multi(c, multi):
    c.ex.o.setdefault("global_values", {})["_ZN3Dal3AAD5Tape_6multi_E"] = {0: ("i8", Poly.const(1 if multi else 0))}


contract("a")(leaf_contract(False))
contract("a")(leaf_contract(True))


def compound(name):
    """x op= e records the old record of x and the expression's numbers"""
    def f(c):
        l, r, lt, rt, vl, vr = with_tape(c)
        set_multi(c, False)
        _, val, dl, dr, where = OPS2[name]
        v0 = c.real("v0")
        if name == "div":
            c.assume(vr != 0)
        x, node = number(c, "x", v0)
        for q in c.call(r"^Cmp_%s\(" % name, [x, r]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            st = q.st
            rec = recorded(c, st, x, 4, val(v0, vr))
            if not rec:
                continue
            p = cell(c, st, rec[3], 0, "ptr")
            c.ensure(st, isinstance(p, Ptr) and p.obj == node.obj and p.off.same(P(8)), "first slot: the previous record of the number")
            c.ensure(st, rz(cell(c, st, rec[2], 0, "f64")) == rz(dl(v0, vr, val(v0, vr))), "derivative with respect to the previous value")
            got = pushed(c, st, [(4, 1, rt)], Ptr(rec[1], 0))
            if got:
                c.ensure(st, got[0] == rz(dr(v0, vr, val(v0, vr))), "derivative with respect to the operand")
        d = c.real("d")
        c.assume(d != 0)
        dp = c.obj("dp", {0: ("f64", d)}, 8)
        for q in c.call(r"^CmpD_%s\(" % name, [x, dp]):
            if q.kind != "ret":
                c.ensure(q.st, False, "never throws")
                continue
            st = q.st
            rec = recorded(c, st, x, 1, val(v0, d))
            if not rec:
                continue
            p = cell(c, st, rec[3], 0, "ptr")
            c.ensure(st, isinstance(p, Ptr) and p.obj == node.obj and p.off.same(P(8)), "slot: the previous record of the number")
            c.ensure(st, rz(cell(c, st, rec[2], 0, "f64")) == rz(dl(v0, d, val(v0, d))), "derivative with respect to the previous value")
    f.__name__ = "assign_" + name
    return f


for _n in COMPOUND:
    contract("a")(compound(_n))
