"""Shared by the script properties: contracts of the evaluation stacks, nodes and their children."""
from stdc import *

NODES = dict(Add=2, Sub=2, Multi=2, Div=2, Pow=2, Max=2, Min=2, UPlus=1, UMinus=1, Log=1, Sqrt=1, Exp=1, Equal=1, Sup=1, SupEqual=1, And=2, Or=2, Not=1,
             Spot=0, Const=0, True_=0, False_=0, Var=0, ConstVar=0, Assign=2, Pays=2, If=9)
HEAD = '''#include <dal/platform/platform.hpp>
#include <dal/math/aad/sample.hpp>
#include <dal/script/visitor/all.hpp>
using namespace Dal; using namespace Dal::Script;
const void* F_args(const Node_& n) { return &n.arguments_; }
const void* F_isconst(const ExprNode_& n) { return &n.isConst_; }
const void* F_constval(const ExprNode_& n) { return &n.constVal_; }
const void* F_index(const NodeVar_& n) { return &n.index_; }
const void* F_cindex(const NodeConstVar_& n) { return &n.index_; }
const void* F_first(const NodeIf_& n) { return &n.firstElse_; }
const void* F_affected(const NodeIf_& n) { return &n.affectedVars_; }
const void* F_iftrue(const NodeIf_& n) { return &n.alwaysTrue_; }
const void* F_iffalse(const NodeIf_& n) { return &n.alwaysFalse_; }
const void* F_true(const BoolNode_& n) { return &n.alwaysTrue_; }
const void* F_false(const BoolNode_& n) { return &n.alwaysFalse_; }
const void* F_discrete(const CompNode_& n) { return &n.isDiscrete_; }
const void* F_eps(const CompNode_& n) { return &n.eps_; }
const void* F_lb(const CompNode_& n) { return &n.lb_; }
const void* F_rb(const CompNode_& n) { return &n.rb_; }
'''
NSZ = 1024          # room of a node object; child k sits at offset k * NSZ of the children object


def off(c, name):
    """offset of a node field, from the accessor compiled with the code"""
    o = c.ex.new_obj(c.st, "probe", 4096, True)
    (r,) = c.ex.run_function(c.fname(r"^F_%s\(" % name), c.st.fork(), [Ptr(o.id, 0)])
    return r.val.off.c()


# ---- evaluation stacks: each slot is an object of its own; what lies below the slots known here is out of reach
def key(ex, st, p):
    p = ex.prune(st, p)
    if not isinstance(p, Ptr) or not p.off.is_const():
        raise Unsupported("stack address")
    return ("stack", p.obj, p.off.c())


def slot(ex, st, dem, val):
    o = ex.new_obj(st, "slot", 8)
    if dem == "bool":
        o.cells[0] = (1, "i8", val)
    else:
        o.cells[0] = (8, "f64", val)
    return o.id


ELEM = re.compile(r"StaticStack_<(double|bool)")


def s_push(ex, st, a, i, dem):
    k = key(ex, st, a[0])
    ty = ELEM.search(dem).group(1)
    m = re.search(r"::Push<(.*?)>\(", dem)
    src = re.sub(r"const|&|\s", "", m.group(1)) if m else ty
    if not isinstance(a[1], (Ptr, PtrIte)):
        raise Unsupported("stack push argument")
    v = ex.load(st, a[1], {"double": "f64", "bool": "i8", "int": "i32"}.get(src) or (_ for _ in ()).throw(Unsupported("push of " + src)), i)
    if ty == "double" and src == "int":
        v = z3.ToReal(Z(v)) if not v.is_const() else Fraction(v.c())
    if src == "bool" and ty == "double" or (src != "bool" and ty == "bool"):
        raise Unsupported("push with conversion")
    st.ghost[k] = st.ghost.get(k, ()) + (slot(ex, st, ty, v),)
    return [Result(st, "ret", None)]


def need(ex, st, k, n, i):
    s = st.ghost.get(k, ())
    if n > len(s):
        ex.oblige(st, False, "the stack is never read or popped below the operands", i)
        raise Infeasible()
    return s


def s_top(ex, st, a, i, dem):
    return [Result(st, "ret", Ptr(need(ex, st, key(ex, st, a[0]), 1, i)[-1], 0))]


def s_at(ex, st, a, i, dem):
    if not a[1].is_const():
        raise Unsupported("stack index")
    n = a[1].c()
    return [Result(st, "ret", Ptr(need(ex, st, key(ex, st, a[0]), n + 1, i)[-1 - n], 0))]


def s_take(ex, st, a, i, dem):
    k = key(ex, st, a[0])
    s = need(ex, st, k, 1, i)
    ty = ELEM.search(dem).group(1)
    v = ex.load(st, Ptr(s[-1], 0), "f64" if ty == "double" else "i8", i)
    st.ghost[k] = s[:-1]
    return [Result(st, "ret", v if ty == "double" else as_bool(icmp("ne", v, 0)))]


def s_pop(ex, st, a, i, dem):
    k = key(ex, st, a[0])
    n = 1 if len(a) == 1 else (a[1].c() if a[1].is_const() else (_ for _ in ()).throw(Unsupported("pop count")))
    s = need(ex, st, k, n, i)
    st.ghost[k] = s[:len(s) - n]
    return [Result(st, "ret", None)]


def s_reset(ex, st, a, i, dem):
    k = key(ex, st, a[0])
    st.ghost[k] = ()
    st.ghost[("kind",) + k] = ELEM.search(dem).group(1)
    return [Result(st, "ret", None)]


SS = r"Dal::StaticStack_<(double|bool), 128ul>::"
STACKS = [(re.compile("^(void )?" + SS + "Push"), s_push), (re.compile("^" + SS + r"Top\("), s_top), (re.compile("^" + SS + r"operator\[\]"), s_at), (re.compile("^" + SS + "TopAndPop"), s_take),
          (re.compile("^" + SS + r"Pop\("), s_pop), (re.compile("^" + SS + "Reset"), s_reset), (re.compile("^" + SS + r"StaticStack_\("), lambda ex, st, a, i, dem: [Result(st, "ret", None)])]


def stacks(st):
    return {k: v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "stack"}


def values(c, st, ids):
    out = []
    for o in ids:
        (_, ty, v), = st.heap[o].cells.values()
        out.append(as_bool(icmp("ne", v, 0)) if ty in ("i8", "i1") and not isinstance(v, (bool, z3.BoolRef)) else v)
    return out


# ---- nodes ----------------------------------------------------------------
CCONST = z3.Function("child_const", z3.IntSort(), z3.IntSort())        # flag byte 0/1
CVAL = z3.Function("child_constval", z3.IntSort(), z3.RealSort())
CINDEX = z3.Function("child_index", z3.IntSort(), z3.IntSort())
VAL = z3.Function("value_of_child", z3.IntSort(), z3.RealSort())
TRUTH = z3.Function("truth_of_child", z3.IntSort(), z3.BoolSort())


def node(c, nargs, extra=(), child_extra=()):
    """a node with nargs children (Poly or int); extra {field: (ty, value)}; children's fields are functions of their number"""
    nargs = P(nargs)
    vt = c.obj("vtable", {8 * k: ("ptr", Ptr(("fn", "virtual:%d" % k), 0)) for k in range(40)}, 320)
    ch = c.ex.new_obj(c.st, "children", nargs.scale(NSZ), True)
    ch.stride = NSZ
    a_off = off(c, "args")
    for f in range(0, a_off, 8):
        ch.arrays[(f, "i64p")] = ABase(lambda k, vt=vt: vt)
    ch.arrays[(off(c, "isconst"), "i8")] = ABase(lambda k: P(CCONST(Z(k))))
    ch.arrays[(off(c, "constval"), "f64")] = ABase(lambda k: CVAL(Z(k)))
    ch.arrays[(off(c, "index"), "i32")] = ABase(lambda k: P(CINDEX(Z(k))))
    for f, ty, fn in child_extra:
        ch.arrays[(off(c, f), tykey(ty))] = ABase(fn)
    arr = c.ex.arr_obj(c.st, "args", nargs, 8, {0: ("ptr", ABase(lambda k: Ptr(ch.id, P(k).scale(NSZ))))})
    p = Ptr(arr.id, 0)
    cells = {f: ("ptr", vt) for f in range(0, a_off, 8)}
    cells.update({a_off: ("ptr", p), a_off + 8: ("ptr", p.shift(nargs.scale(8))), a_off + 16: ("ptr", p.shift(nargs.scale(8)))})
    for f, (ty, v) in dict(extra).items():
        cells[off(c, f)] = (ty, v)
    return c.obj("node", cells, NSZ), ch.id


def child_index(ex, st, p, ch):
    p = ex.prune(st, p)
    if not isinstance(p, Ptr) or p.obj != ch:
        raise Unsupported("virtual call on something that is not a child")
    f = p.off.c() % NSZ
    return p.off.add(Poly.const(-f)).div_exact(NSZ)


def same(v, w):
    """equality of two evaluated values"""
    if isinstance(v, (bool, z3.BoolRef)) or isinstance(w, (bool, z3.BoolRef)):
        return bz(v) == bz(w)
    return rz(v) == rz(w)
