from scriptc import *
from builtins_ import UF1, POW
ID = "S01"
META = dict(
    title="A script means the same whether its tree is walked or it is compiled",
    statement="For every script, evaluating its statements by walking the tree or by running the compiled instruction stream gives every variable the value the script's text states: arithmetic, functions, comparisons, boolean connectives, assignments, payments (amounts deflated at the event's numeraire) and IF/THEN/ELSE with nested statements and several-argument MAX/MIN. No evaluation step reads or leaves anything on the evaluation stacks beyond its own operands and result.",
    quantifier=dict(over=["programs", "inputs"], text="every expression, condition and statement tree, every compiled instruction at every position of every stream, all operand values"),
    why_tests_cant="Tests run a few products; the compiled form chooses a different instruction depending on which operands are constant and on the nesting of IF blocks, so a wrong variant or a wrong jump shows only for particular shapes.",
    anchors=dict(files=["dal/script/visitor/evaluator.hpp", "dal/script/visitor/compiler.hpp", "dal/math/stacks.hpp", "dal/script/visitor/pastevaluator.hpp", "dal/script/parser.cpp"],
                 mechanism=["tree evaluation, one visit per node kind @ dal/script/visitor/evaluator.hpp", "compilation of each node kind @ dal/script/visitor/compiler.hpp",
                            "the instruction interpreter @ EvalCompiled in dal/script/visitor/compiler.hpp", "evaluation stacks @ dal/math/stacks.hpp"]),
    level_note="per node kind and per instruction, children by contract (structural induction); doubles as reals; parsing of the text into trees is covered by the bounded stand-in only")

OPS = ["Add", "AddConst", "Sub", "SubConst", "ConstSub", "Multi", "MultiConst", "Div", "DivConst", "ConstDiv", "Pow", "PowConst", "ConstPow", "Max2", "Max2Const", "Min2", "Min2Const", "Spot", "Var", "Const",
       "Assign", "AssignConst", "Pays", "PaysConst", "If", "IfElse", "Equal", "Sup", "SupEqual", "And", "Or", "Sqrt", "Log", "Exp", "Not", "UMinus", "True", "False", "ConstVar"]
DRV = HEAD
for _n in NODES:
    _c = "Node%s_" % _n.rstrip("_")
    DRV += "void T_%s(Evaluator_<double>& e, const %s& n) { e.Visit(n); }\nvoid K_%s(Compiler_& e, const %s& n) { e.Visit(n); }\n" % (_n, _c, _n, _c)
DRV += "void P_Pays(PastEvaluator_<double>& e, const NodePays_& n) { e.Visit(n); }\nvoid P_Assign(PastEvaluator_<double>& e, const NodeAssign_& n) { e.Visit(n); }\n"
for _n in OPS:
    DRV += "int Op_%s() { return Dal::Script::%s; }\n" % (_n, _n)
DRV += '''const void* A_vars(const Evaluator_<double>& e) { return &e.VarVals(); }
const void* A_pvars(const PastEvaluator_<double>& e) { return &e.VarVals(); }
const void* A_consts(const Evaluator_<double>& e) { return &e.ConstVarVals(); }
void A_scen(Evaluator_<double>& e, const AAD::Scenario_<double>* s) { e.SetScenario(s); }
void A_evt(Evaluator_<double>& e, size_t k) { e.SetCurEvt(k); }
const void* A_nodes(const Compiler_& k) { return &k.NodeStream(); }
const void* A_numbers(const Compiler_& k) { return &k.ConstStream(); }
const void* A_svars(const EvalState_<double>& s) { return &s.variables_; }
const void* A_sconsts(const EvalState_<double>& s) { return &s.constVariables_; }
const void* A_spot(const AAD::Sample_<double>& s) { return &s.spot_; }
const void* A_num(const AAD::Sample_<double>& s) { return &s.numeraire_; }
int A_samplesize() { return (int)sizeof(AAD::Sample_<double>); }
void Run(const Vector_<int>& ns, const Vector_<>& cs, const Vector_<const void*>& ds, const AAD::Sample_<double>& smp, EvalState_<double>& st, size_t first, size_t last) { EvalCompiled<double>(ns, cs, ds, smp, st, first, last); }
const void* A_sinit(const EvalState_<double>& s) { return &s.variablesInit_; }
struct Peek_ : Evaluator_<double> { static const void* init(const Peek_& e) { return &e.variablesInit_; } };
const void* A_init(const Peek_& e) { return Peek_::init(e); }
void I_tree(Evaluator_<double>& e) { e.Init(); }
void I_state(EvalState_<double>& s) { s.Init(); }
typedef StaticStack_<double> SD; typedef StaticStack_<bool> SB;
#define OPS_(X, T) void X##_push(X& s, const T& v) { s.Push(v); } void X##_pushr(X& s, T v) { s.Push(std::move(v)); } T X##_top(X& s) { return s.Top(); } void X##_set(X& s, T v) { s.Top() = v; } \\
    T X##_at(X& s, int k) { return s[k]; } void X##_setat(X& s, int k, T v) { s[k] = v; } T X##_take(X& s) { return s.TopAndPop(); } void X##_pop(X& s) { s.Pop(); } void X##_reset(X& s) { s.Reset(); } void X##_new(X* s) { new (s) X; }
OPS_(SD, double)
OPS_(SB, bool)
'''
DRIVERS = {"s": (DRV, [r"^T_", r"^K_", r"^P_", r"^Op_", r"^A_", r"^F_", r"^Run\(", r"^I_", r"^S[DB]_"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random scripts through the real parser, evaluated by tree walk and compiled, against an interpreter of the generated tree; AAD runs against plain ones"
ASSUMPTIONS = ["doubles as real numbers; exp, log, sqrt, pow as uninterpreted functions", "an expression nests less than 128 deep (capacity of the evaluation stacks)",
               "a node's arguments are of the kind its role requires (guaranteed by the parser)", "constant flags are right: a flagged node has the recorded value (that is S02)",
               "sequencing of instructions: the interpreter's loop has no state besides position, stacks and variables"]
SOURCES = None

real1 = {"Log": "log", "Sqrt": "sqrt", "Exp": "exp"}
BIN = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Multi": lambda x, y: x * y, "Div": lambda x, y: x / y, "Pow": lambda x, y: POW(x, y),
       "Max": lambda x, y: z3.If(x < y, y, x), "Min": lambda x, y: z3.If(x > y, y, x)}
UN = {"UPlus": lambda x: x, "UMinus": lambda x: -x, **{k: (lambda x, f=f: UF1[f](x)) for k, f in real1.items()}}
CMPS = {"Equal": lambda x: x == 0, "Sup": lambda x: x > 0, "SupEqual": lambda x: x >= 0}


def probe(c, rx, *args):
    (r,) = c.ex.run_function(c.fname(rx), c.st.fork(), list(args))
    return r.val


def put_vec(c, obj, o, name, n, fn=None):
    """a Vector_<double> member at offset o of the object"""
    p, f = c.array(name, n, "f64", fn)
    x = c.st.own(obj)
    for w, v in ((0, p), (8, p.shift(P(n).scale(8))), (16, p.shift(P(n).scale(8)))):
        x.cells[o + w] = (8, "ptr", v)
    return p, f


def scenario(c, cur=None):
    """a scenario of m samples (spot and numeraire per event)"""
    sz = probe(c, r"^A_samplesize").c()
    b = Ptr(c.ex.new_obj(c.st, "b", 64, True).id, 0)
    so, no = probe(c, r"^A_spot\(", b).off.c(), probe(c, r"^A_num\(", b).off.c()
    m = c.int("samples", 1, 10 ** 6)
    o = c.ex.new_obj(c.st, "scenario", m.scale(sz), True)
    o.stride = sz
    SP, NU = z3.Function("spot", z3.IntSort(), z3.RealSort()), z3.Function("numeraire", z3.IntSort(), z3.RealSort())
    o.arrays[(so, "f64")] = ABase(lambda k: SP(Z(k)))
    o.arrays[(no, "f64")] = ABase(lambda k: NU(Z(k)))
    p = Ptr(o.id, 0)
    h = c.obj("scen", {0: ("ptr", p), 8: ("ptr", p.shift(m.scale(sz))), 16: ("ptr", p.shift(m.scale(sz)))}, 24)
    return h, p, m, sz, SP, NU


def evaluator(c, past=False):
    ev = c.obj("evaluator", {}, 8192)
    nv, nc = c.int("nvars", 1, 10 ** 6), c.int("nconsts", 1, 10 ** 6)
    vo, co = probe(c, r"^A_vars", ev).off.c(), probe(c, r"^A_consts", ev).off.c()
    pv, V = put_vec(c, ev.obj, vo, "variables", nv)
    pc, K = put_vec(c, ev.obj, co, "constants", nc)
    h, p, m, sz, SP, NU = scenario(c)
    e = c.int("event", 0, 10 ** 6)
    c.assume(icmp("lt", e, m))
    st = c.st
    for rx, x in ((r"^A_scen", h), (r"^A_evt", e)):
        (r,) = c.ex.run_function(c.fname(rx), st, [ev, x])
        st = r.st
    c.st = st
    return dict(ev=ev, nv=nv, nc=nc, vo=vo, V=V, K=K, spot=SP(Z(e)), num=NU(Z(e)), pv=pv)


def pusher(ch, w, log, kinds):
    """contract of visiting child k: its value is pushed on the stack of its kind, nothing else changes"""
    def h(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        if not k.is_const():
            raise Unsupported("which child")
        q = k.c()
        kind = kinds[q]
        ks = key(ex, st, Ptr(w["ev"].obj, w["d" if kind == "num" else "b"]))
        v = VAL(z3.IntVal(q)) if kind == "num" else ite(TRUTH(z3.IntVal(q)), Poly.const(1), Poly.const(0))
        st.ghost[ks] = st.ghost.get(ks, ()) + (slot(ex, st, "double" if kind == "num" else "bool", v),)
        st.ghost["visited"] = st.ghost.get("visited", ()) + (q,)
        return [Result(st, "ret", None)]
    return [(re.compile("^virtual:"), h)]


def where_stacks(c, w):
    """addresses of the two stacks, from what the code itself does with a number and a condition"""
    m = c.ex
    for nm, kk in (("Const", "d"), ("True_", "b")):
        n = c.obj("probe_" + nm, {off(c, "constval"): ("f64", Fraction(0))}, NSZ)
        (r,) = m.run_function(c.fname(r"^T_%s\(" % nm), c.st.fork(), [w["ev"], n])
        (k,) = [x for x in r.st.ghost if isinstance(x, tuple) and x[0] == "stack"]
        w[kk] = k[2]


def kinds_of(name):
    if name in BIN or name in UN or name in CMPS:
        return ["num"] * NODES[name]
    return ["bool"] * NODES[name]


def unchanged(c, st, w, name="the variables are not touched"):
    j = c.int("j", 0, 10 ** 6)
    s = st.fork()
    s.assume(icmp("lt", j, w["nv"]))
    c.ensure(s, rz(c.vec_view(s, Ptr(w["ev"].obj, w["vo"]))[1](j)) == rz(w["V"](j)), name)


def tree_post(c, r, w, num, boo):
    """exactly these values were pushed"""
    if r.kind != "ret":
        c.ensure(r.st, False, "never throws")
        return
    for kk, want in (("d", num), ("b", boo)):
        ids = r.st.ghost.get(("stack", w["ev"].obj, w[kk]), ())
        c.ensure(r.st, len(ids) == len(want), "exactly the result is left on the %s stack" % ("number" if kk == "d" else "condition"))
        if len(ids) == len(want):
            for v, x in zip(values(c, r.st, ids), want):
                c.ensure(r.st, same(v, x), "the value the node states")
    unchanged(c, r.st, w)


def meaning(name, x, t):
    """value of a node from the values x and truths t of its children"""
    if name in BIN:
        return BIN[name](x[0], x[1])
    if name in UN:
        return UN[name](x[0])
    if name in CMPS:
        return CMPS[name](x[0])
    return {"And": lambda: z3.And(t[0], t[1]), "Or": lambda: z3.Or(t[0], t[1]), "Not": lambda: z3.Not(t[0])}[name]()


X = [VAL(z3.IntVal(k)) for k in range(3)]
T = [TRUTH(z3.IntVal(k)) for k in range(3)]


def tree(name):
    def f(c):
        w, ch = {}, [None]
        c.exec(STACKS + pusher(ch, w, None, kinds_of(name)), merge=False)
        w.update(evaluator(c))
        where_stacks(c, w)
        n, ch[0] = node(c, NODES[name])
        v = meaning(name, X, T)
        for r in c.call(r"^T_%s\(" % name, [w["ev"], n]):
            tree_post(c, r, w, [v] if z3.is_arith(v) else [], [] if z3.is_arith(v) else [v])
    f.__name__ = "tree_" + name
    return f


for _n in NODES:
    if _n in BIN or _n in UN or _n in CMPS or _n in ("And", "Or", "Not"):
        contract("s")(tree(_n))


@contract("s")
def tree_leaves(c):
    w = {}
    c.exec(STACKS, merge=False)
    w.update(evaluator(c))
    where_stacks(c, w)
    x, i, j = c.real("constant"), c.int("index", 0, 10 ** 6), c.int("cindex", 0, 10 ** 6)
    c.assume(band(icmp("lt", i, w["nv"]), icmp("lt", j, w["nc"])))
    for nm, ex_, want in (("Const", {"constval": ("f64", x)}, x), ("Var", {"index": ("i32", i)}, w["V"](i)), ("ConstVar", {"cindex": ("i32", j)}, w["K"](j)), ("Spot", {}, w["spot"])):
        n, _ = node(c, 1, ex_)
        for r in c.call(r"^T_%s\(" % nm, [w["ev"], n]):
            tree_post(c, r, w, [want], [])
    for nm, want in (("True_", True), ("False_", False)):
        n, _ = node(c, 1)
        for r in c.call(r"^T_%s\(" % nm, [w["ev"], n]):
            tree_post(c, r, w, [], [z3.BoolVal(want)])


def tree_act(name, past=False):
    def f(c):
        w, ch = {}, [None]
        c.exec(STACKS + pusher(ch, w, None, ["num", "num"]), merge=False)
        w.update(evaluator(c))
        where_stacks(c, w)
        n, ch[0] = node(c, 2)
        i = CINDEX(z3.IntVal(0))
        c.assume(z3.And(i >= 0, i < Z(w["nv"])))
        if not past:
            c.assume(w["num"] > 0)
        for r in c.call(r"^%s_%s\(" % ("P" if past else "T", name), [w["ev"], n]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            for k, ids in stacks(r.st).items():
                c.ensure(r.st, len(ids) == 0, "a statement leaves the stacks as they were")
            j = c.int("j", 0, 10 ** 6)
            s = r.st.fork()
            s.assume(icmp("lt", j, w["nv"]))
            got = rz(c.vec_view(s, Ptr(w["ev"].obj, w["vo"]))[1](j))
            old = rz(w["V"](j))
            new = X[1] if name == "Assign" else (rz(w["V"](P(i))) if past else rz(w["V"](P(i))) + X[1] / w["num"])
            c.ensure(s, got == z3.If(Z(j) == i, new, old), "the named variable gets the stated value, every other keeps its own")
    f.__name__ = ("past_" if past else "tree_") + name
    return f


for _n in ("Assign", "Pays"):
    contract("s")(tree_act(_n))
    contract("s")(tree_act(_n, True))


def block(c, w, ch, ghost, cond):
    """children of an IF: child 0 is the condition, the others are statements executed in order;
    ghost cells: 0 next statement expected, 8 statements executed so far are the right ones"""
    def h(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        if k.is_const() and k.c() == 0:
            return cond(ex, st, i)
        nx = ex.load(st, ghost[0], "i64", i)
        ex.oblige(st, icmp("eq", k, nx), "statements run in order, each once", i)
        ex.store(st, ghost[0], "i64", nx.add(Poly.const(1)), i)
        return [Result(st, "ret", None)]
    return [(re.compile("^virtual:"), h)]


def step_inv(ctx):
    """loop over statements: counter and expected statement agree"""
    out = []
    for v in ctx.ints():
        for x in ctx.ints():
            if x is not v:
                out.append(("%s = %s" % (v["name"], x["name"]), icmp("eq", v["cur"], x["cur"])))
    return out


@contract("s")
def tree_If(c):
    """the condition is evaluated once; then exactly the statements of its branch, in order"""
    w, ch, ghost = {}, [None], [None]

    def cond(ex, st, i):
        ks = key(ex, st, Ptr(w["ev"].obj, w["b"]))
        st.ghost[ks] = st.ghost.get(ks, ()) + (slot(ex, st, "bool", ite(T[0], Poly.const(1), Poly.const(0))),)
        ex.oblige(st, icmp("eq", ex.load(st, ghost[0].shift(8), "i64", i), 0), "the condition is evaluated once", i)
        ex.store(st, ghost[0].shift(8), "i64", Poly.const(1), i)
        return [Result(st, "ret", None)]
    c.exec(STACKS + block(c, w, ch, ghost, cond), [(r"EvaluatorBase_<.*::Visit\(Dal::Script::NodeIf_", step_inv)], merge=False)
    w.update(evaluator(c))
    where_stacks(c, w)
    n, fe = c.int("nargs", 1, 10 ** 6), c.int("firstElse", -1, 10 ** 6)
    c.assume(z3.Or(Z(fe) == -1, z3.And(Z(fe) >= 1, Z(fe) <= Z(n))))
    start = P(z3.If(T[0], z3.IntVal(1), Z(fe)))
    ghost[0] = c.obj("ghost", {0: ("i64", start), 8: ("i64", Poly.const(0))}, 16)
    nd, ch[0] = node(c, n, {"first": ("i32", fe)})
    for r in c.call(r"^T_If\(", [w["ev"], nd]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        nx = Z(c.ex.load(r.st, ghost[0], "i64"))
        c.ensure(r.st, icmp("eq", c.ex.load(r.st, ghost[0].shift(8), "i64"), 1), "the condition is evaluated")
        c.ensure(r.st, z3.If(T[0], nx == z3.If(Z(fe) == -1, Z(n), Z(fe)), z3.If(Z(fe) == -1, nx == Z(fe), nx == Z(n))), "exactly the statements of the chosen branch were run")
        for k, ids in stacks(r.st).items():
            c.ensure(r.st, len(ids) == 0, "a statement leaves the stacks as they were")


# ---- compilation ----------------------------------------------------------
LEN = z3.Function("code_length_of_child", z3.IntSort(), z3.IntSort())
NUMS = z3.Function("numbers_of_child", z3.IntSort(), z3.IntSort())
CODE, NUM = "std::vector<int, std::allocator<int>>::", "std::vector<double, std::allocator<double>>::"


class Streams:
    """the compiler's two streams as ghost sequences: what was appended where, sizes in ghost cells (so that loops see them)"""

    def __init__(self, c):
        self.c = c
        self.k = c.obj("compiler", {}, 512)
        self.code, self.num = probe(c, r"^A_nodes\(", self.k), probe(c, r"^A_numbers\(", self.k)
        self.n0, self.m0 = c.int("code_size", 0, 10 ** 6), c.int("number_size", 0, 10 ** 6)
        self.g = c.obj("sizes", {0: ("i64", self.n0), 8: ("i64", self.m0)}, 16)

    def which(self, ex, st, p):
        p = ex.prune(st, p)
        for k, q in enumerate((self.code, self.num)):
            if isinstance(p, Ptr) and p.obj == q.obj and p.off.same(q.off):
                return k
        return None

    def append(self, ex, st, a, i, dem):
        k = self.which(ex, st, a[0])
        if k is None:
            return None
        v = ex.load(st, a[1], "i32" if k == 0 else "f64", i)
        n = ex.load(st, self.g.shift(8 * k), "i64", i)
        kk = ("code", "numbers")[k]
        st.ghost[kk] = st.ghost.get(kk, ()) + ((n, v),)
        ex.store(st, self.g.shift(8 * k), "i64", n.add(Poly.const(1)), i)
        return [Result(st, "ret", UNDEF)]

    def size(self, ex, st, a, i, dem):
        k = self.which(ex, st, a[0])
        if k is None:
            return None
        return [Result(st, "ret", ex.load(st, self.g.shift(8 * k), "i64", i))]

    def at(self, ex, st, a, i, dem):
        """a place already appended: an object whose value replaces the entry when the sequence is read"""
        if self.which(ex, st, a[0]) != 0:
            return None
        for j, (p, v) in enumerate(st.ghost.get("code", ())):
            if isinstance(v, Poly) and ex.entails(st, icmp("eq", p, a[1])):
                o = ex.new_obj(st, "entry", 4)
                o.cells[0] = (4, "i32", v)
                st.ghost["code"] = st.ghost["code"][:j] + ((p, Ptr(o.id, 0)),) + st.ghost["code"][j + 1:]
                return [Result(st, "ret", Ptr(o.id, 0))]
            if isinstance(v, Ptr) and ex.entails(st, icmp("eq", p, a[1])):
                return [Result(st, "ret", v)]
        ex.oblige(st, False, "only entries appended here are changed", i)
        raise Infeasible()

    def child(self, ex, st, q):
        """a child's code: its own instructions, contiguous"""
        st.ghost["code"] = st.ghost.get("code", ()) + ((ex.load(st, self.g, "i64"), ("child", q)),)
        self.grow(ex, st, P(q))

    def grow(self, ex, st, q):
        st.assume(z3.And(LEN(Z(q)) >= 0, NUMS(Z(q)) >= 0, LEN(Z(q)) <= 10 ** 6, NUMS(Z(q)) <= 10 ** 6))
        n, m = ex.load(st, self.g, "i64"), ex.load(st, self.g.shift(8), "i64")
        ex.store(st, self.g, "i64", n.add(P(LEN(Z(q)))))
        ex.store(st, self.g.shift(8), "i64", m.add(P(NUMS(Z(q)))))

    def contracts(self):
        A = r"(push_back|emplace_back)\b"
        return [(re.compile(r"(^|[ :])" + re.escape(v) + m), h) for v in (CODE, NUM) for m, h in ((A, self.append), (r"size\(", self.size), (r"operator\[\]", self.at))]

    def final(self, st):
        ex = self.c.ex
        return [(p, ex.load(st, v, "i32") if isinstance(v, Ptr) else v) for p, v in st.ghost.get("code", ())], list(st.ghost.get("numbers", ()))


def opcodes(c):
    return {n: probe(c, r"^Op_%s\(" % n).c() for n in OPS}


def machine(op, x, d, b, env):
    """one instruction of the specification machine: operands x (read from the stream), stacks d and b (tuples),
    env: numbers(i), var(i), constvar(i), spot, numeraire, setvar(i, v).  Stack entries below the operands are not in d, b."""
    up = {"Log": "log", "Sqrt": "sqrt", "Exp": "exp"}
    two = {"Add": "Add", "Sub": "Sub", "Multi": "Multi", "Div": "Div", "Pow": "Pow", "Max2": "Max", "Min2": "Min"}
    if op in two:
        return d[:-2] + (BIN[two[op]](rz(d[-2]), rz(d[-1])),), b
    if op.endswith("Const") and op[:-5] in two:
        return d[:-1] + (BIN[two[op[:-5]]](rz(d[-1]), rz(env.number(x[0]))),), b
    if op.startswith("Const") and op[5:] in ("Sub", "Div", "Pow"):
        return d[:-1] + (BIN[op[5:]](rz(env.number(x[0])), rz(d[-1])),), b
    if op in up or op == "UMinus":
        return d[:-1] + (UN[op](rz(d[-1])),), b
    if op in CMPS:
        return d[:-1], b + (CMPS[op](rz(d[-1])),)
    if op == "And":
        return d, b[:-2] + (z3.And(bz(b[-2]), bz(b[-1])),)
    if op == "Or":
        return d, b[:-2] + (z3.Or(bz(b[-2]), bz(b[-1])),)
    if op == "Not":
        return d, b[:-1] + (z3.Not(bz(b[-1])),)
    if op in ("True", "False"):
        return d, b + (z3.BoolVal(op == "True"),)
    if op == "Spot":
        return d + (env.spot,), b
    if op == "Var":
        return d + (env.var(x[0]),), b
    if op == "ConstVar":
        return d + (env.constvar(x[0]),), b
    if op == "Const":
        return d + (env.number(x[0]),), b
    if op == "Assign":
        env.setvar(x[0], d[-1])
        return d[:-1], b
    if op == "AssignConst":
        env.setvar(x[1], env.number(x[0]))
        return d, b
    if op == "Pays":
        env.setvar(x[0], rz(env.var(x[0])) + rz(d[-1]) / env.numeraire)
        return d[:-1], b
    if op == "PaysConst":
        env.setvar(x[1], rz(env.var(x[1])) + rz(env.number(x[0])) / env.numeraire)
        return d, b
    raise KeyError(op)


NOPER = {"AssignConst": 2, "PaysConst": 2, **{k: 1 for k in ("AddConst", "SubConst", "ConstSub", "MultiConst", "DivConst", "ConstDiv", "PowConst", "ConstPow", "Max2Const", "Min2Const", "Var", "Const", "ConstVar", "Assign", "Pays")}}
NEEDS = {**{k: (2, 0) for k in ("Add", "Sub", "Multi", "Div", "Pow", "Max2", "Min2")}, **{k: (1, 0) for k in ("AddConst", "SubConst", "ConstSub", "MultiConst", "DivConst", "ConstDiv", "PowConst", "ConstPow", "Max2Const",
         "Min2Const", "Assign", "Pays", "Equal", "Sup", "SupEqual", "Sqrt", "Log", "Exp", "UMinus")}, "And": (0, 2), "Or": (0, 2), "Not": (0, 1), "If": (0, 1), "IfElse": (0, 1)}


class CodeEnv:
    def __init__(self, c, st, numbers):
        self.c, self.st, self.nums = c, st, numbers
        self.sets = []
        self.spot, self.numeraire = z3.Real("spot"), z3.Real("numeraire")

    def number(self, i):
        for p, v in self.nums:
            if p.same(i) or self.c.ex.entails(self.st, icmp("eq", p, i)):
                return v
        raise LookupError("number operand points at %s, which this node did not record" % (i.z() if isinstance(i, Poly) else i))

    def var(self, i):
        return z3.Function("var", z3.IntSort(), z3.RealSort())(Z(i))

    def constvar(self, i):
        return z3.Function("named", z3.IntSort(), z3.RealSort())(Z(i))

    def setvar(self, i, v):
        self.sets.append((i, v))


def run_code(c, st, code, numbers, kinds):
    """specification machine over the code of one node -> (d, b, sets) or an error text"""
    ops = {v: k for k, v in opcodes(c).items()}
    env = CodeEnv(c, st, numbers)
    d, b = (), ()
    j = 0
    while j < len(code):
        p, v = code[j]
        if isinstance(v, tuple):
            q = v[1]
            if kinds[q] == "num":
                d += (VAL(z3.IntVal(q)),)
            else:
                b += (TRUTH(z3.IntVal(q)),)
            j += 1
            continue
        if not v.is_const() or v.c() not in ops:
            return "no such instruction: %s" % v.z()
        op = ops[v.c()]
        k = NOPER.get(op, 0)
        x = [code[j + 1 + t][1] if j + 1 + t < len(code) else None for t in range(k)]
        if any(t is None or isinstance(t, tuple) for t in x):
            return "operands of %s missing" % op
        if len(d) < NEEDS.get(op, (0, 0))[0] or len(b) < NEEDS.get(op, (0, 0))[1] or op in ("If", "IfElse"):
            return "%s without its operands on the stack" % op
        try:
            d, b = machine(op, x, d, b, env)
        except LookupError as e:
            return str(e)
        j += 1 + k
    return d, b, env.sets


def split_code(c, st, code):
    """entries chosen by a condition: one case each"""
    for j, (p, v) in enumerate(code):
        z = v.z() if isinstance(v, Poly) and not v.is_const() else None
        if z is not None and z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
            q, x, y = z.children()
            out = []
            for g, t in ((q, x), (z3.Not(q), y)):
                s = st.fork()
                s.assume(g)
                t = z3.simplify(t)
                out += split_code(c, s, code[:j] + [(p, Poly.const(t.as_long()) if z3.is_int_value(t) else P(t))] + code[j + 1:])
            return out
    return [(st, code)]


def compiled(name):
    """the instructions appended for a node compute its meaning from its children's values"""
    def f(c):
        ch, s = [None], [None]
        kinds = kinds_of(name) if name not in ("Assign", "Pays") else ["num", "num"]

        def visit(ex, st, a, i, dem):
            k = child_index(ex, st, a[0], ch[0])
            if not k.is_const():
                raise Unsupported("which child")
            s[0].child(ex, st, k.c())
            return [Result(st, "ret", None)]
        lazy = [(re.compile(r"(^|[ :])" + re.escape(v) + m), (lambda ex, st, a, i, dem, h=h: getattr(s[0], h)(ex, st, a, i, dem))) for v in (CODE, NUM)
                for m, h in ((r"(push_back|emplace_back)\b", "append"), (r"size\(", "size"), (r"operator\[\]", "at"))]
        c.exec(lazy + [(re.compile("^virtual:"), visit)], merge=False)
        s[0] = Streams(c)
        v = None
        isc, cv = c.int("isConst", 0, 1), c.real("constVal")
        extra = {}
        if name in BIN or name in UN or name in ("Const", "Var", "ConstVar", "Spot"):
            extra = {"isconst": ("i8", isc), "constval": ("f64", cv)}
        idx = c.int("index", 0, 10 ** 6)
        if name in ("Var", "ConstVar"):
            extra["index" if name == "Var" else "cindex"] = ("i32", idx)
        n, ch[0] = node(c, max(1, NODES[name]), extra)
        # a flagged child has the recorded value, and so has a flagged node
        for k in range(NODES[name]):
            if kinds[k] == "num":
                c.assume(z3.Implies(CCONST(z3.IntVal(k)) != 0, CVAL(z3.IntVal(k)) == X[k]))
            c.assume(z3.And(CCONST(z3.IntVal(k)) >= 0, CCONST(z3.IntVal(k)) <= 1, CINDEX(z3.IntVal(k)) >= 0, CINDEX(z3.IntVal(k)) < 10 ** 6))
        if name in BIN or name in UN:
            c.assume(z3.Implies(Z(isc) != 0, cv == meaning(name, X, T)))
        def judge(c, st, code, nums):
            out = run_code(c, st, code, nums, kinds)
            if isinstance(out, str):
                c.ensure(st, False, "the code is well formed: " + out)
                return
            d, b, sets = out
            env = CodeEnv(c, st, nums)
            want_d, want_b, want_s = (), (), []
            if name in BIN or name in UN:
                want_d = (meaning(name, X, T),)
            elif name in CMPS or name in ("And", "Or", "Not"):
                want_b = (meaning(name, X, T),)
            elif name in ("True_", "False_"):
                want_b = (z3.BoolVal(name == "True_"),)
            elif name in ("Assign", "Pays"):
                i = P(CINDEX(z3.IntVal(0)))
                want_s = [(i, X[1] if name == "Assign" else env.var(i) + X[1] / env.numeraire)]
            else:
                want_d = ({"Const": cv, "Spot": env.spot, "Var": env.var(idx), "ConstVar": env.constvar(idx)}[name],)
            c.ensure(st, len(d) == len(want_d) and len(b) == len(want_b) and len(sets) == len(want_s), "the code pushes exactly its result")
            if name in ("Assign", "Pays"):
                st.assume(env.numeraire > 0)
            for v, x in list(zip(d, want_d)) + list(zip(b, want_b)):
                c.ensure(st, same(v, x), "the code computes the value the node states")
            for (p, v), (q, x) in zip(sets, want_s):
                c.ensure(st, z3.And(Z(p) == Z(q), rz(v) == rz(x)), "the code sets the named variable to the stated value")
        for r in c.call(r"^K_%s\(" % name, [s[0].k, n]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            code, nums = s[0].final(r.st)
            for cs, code in split_code(c, r.st, code):
                judge(c, cs, code, nums)
    f.__name__ = "compile_" + name
    return f


for _n in NODES:
    if _n != "If":
        contract("s")(compiled(_n))


@contract("s")
def compile_If(c):
    """layout of an IF: condition, instruction with its jump targets, statements of the branches in order; the targets are
    where the ELSE branch and the code after the IF begin"""
    ch, s, g = [None], [None], [None]
    START = z3.Function("start_of_statement", z3.IntSort(), z3.IntSort())

    def visit(ex, st, a, i, dem):
        k = child_index(ex, st, a[0], ch[0])
        if k.is_const() and k.c() == 0:
            ex.oblige(st, icmp("eq", ex.load(st, g[0].shift(8), "i64", i), 0), "the condition is compiled once", i)
            ex.store(st, g[0].shift(8), "i64", Poly.const(1), i)
            s[0].child(ex, st, 0)
            return [Result(st, "ret", None)]
        nx = ex.load(st, g[0], "i64", i)
        ex.oblige(st, icmp("eq", k, nx), "statements are compiled in order, each once", i)
        n = ex.load(st, s[0].g, "i64", i)
        ex.oblige(st, icmp("eq", n, P(START(Z(nx)))), "a statement's code follows the code before it directly", i)
        # START(k + 1) is by definition where the code of statement k ends
        st.assume(START(Z(nx) + 1) == START(Z(nx)) + LEN(Z(nx)))
        s[0].grow(ex, st, nx)
        st.assume(Z(ex.load(st, s[0].g, "i64", i)) <= 10 ** 8)
        ex.store(st, g[0], "i64", nx.add(Poly.const(1)), i)
        return [Result(st, "ret", None)]

    def inv(ctx):
        out = step_inv(ctx)
        for v in ctx.ints():
            for x in ctx.ints():
                if x is not v:
                    out.append(("%s = start of %s" % (v["name"], x["name"]), Z(v["cur"]) == START(Z(x["cur"]))))
            out.append(("%s bounded" % v["name"], icmp("le", v["cur"], 10 ** 8)))
        return out
    lazy = [(re.compile(r"(^|[ :])" + re.escape(v) + m), (lambda ex, st, a, i, dem, h=h: getattr(s[0], h)(ex, st, a, i, dem))) for v in (CODE, NUM)
            for m, h in ((r"(push_back|emplace_back)\b", "append"), (r"size\(", "size"), (r"operator\[\]", "at"))]
    c.exec(lazy + [(re.compile("^virtual:"), visit)], [(r"Compiler_::Visit\(Dal::Script::NodeIf_", inv)], merge=False)
    s[0] = Streams(c)
    n, fe = c.int("nargs", 1, 10 ** 6), c.int("firstElse", -1, 10 ** 6)
    c.assume(z3.Or(Z(fe) == -1, z3.And(Z(fe) >= 1, Z(fe) <= Z(n))))
    slots = z3.If(Z(fe) == -1, 2, 3)
    p0 = Z(s[0].n0) + LEN(z3.IntVal(0))
    c.assume(START(z3.IntVal(1)) == p0 + slots)
    g[0] = c.obj("ghost", {0: ("i64", Poly.const(1)), 8: ("i64", Poly.const(0))}, 16)
    nd, ch[0] = node(c, n, {"first": ("i32", fe)})
    op = opcodes(c)
    for r in c.call(r"^K_If\(", [s[0].k, nd]):
        st = r.st
        if r.kind != "ret":
            c.ensure(st, False, "never throws")
            continue
        code, nums = s[0].final(st)
        for cs, code in split_code(c, st, code):
            c.ensure(cs, len(code) >= 2 and isinstance(code[0][1], tuple), "the condition's code comes first")
            c.ensure(cs, band(icmp("eq", c.ex.load(cs, g[0], "i64"), n), icmp("eq", c.ex.load(cs, s[0].g, "i64"), P(START(Z(n))))), "every statement is compiled, nothing follows the last")
            ints = code[1:]
            c.ensure(cs, bor(band(icmp("eq", fe, -1), len(ints) == 2), band(icmp("ne", fe, -1), len(ints) == 3)), "one jump target without ELSE, two with")
            for k, (p, v) in enumerate(ints):
                c.ensure(cs, Z(p) == p0 + k, "the instruction and its targets follow the condition")
                if k == 0:
                    c.ensure(cs, z3.If(Z(fe) == -1, Z(v) == op["If"], Z(v) == op["IfElse"]), "instruction for the presence of ELSE")
                elif k == 1:
                    c.ensure(cs, Z(v) == z3.If(Z(fe) == -1, START(Z(n)), START(Z(fe))), "first target: behind the statements of the true branch")
                else:
                    c.ensure(cs, Z(v) == START(Z(n)), "second target: behind the whole IF")


# ---- the instruction interpreter -------------------------------------------
class StepEnv:
    def __init__(self, st, w):
        self.st, self.w = st, w
        self.sets = []
        self.spot, self.numeraire = w["spot"], w["numeraire"]

    def number(self, i):
        return self.w["NS"](P(i))

    def var(self, i):
        return self.w["V"](P(i))

    def constvar(self, i):
        return self.w["K"](P(i))

    def setvar(self, i, v):
        self.sets.append((i, v))


def interpreter(op):
    """one iteration of the interpreter at an instruction `op` at any position does what the specification machine says"""
    def f(c):
        w = {}

        def nested(ex, st, a, i, dem):
            if not any("EvalCompiled" in x for x in ex.fnstack):
                return None
            for k, ids in stacks(st).items():
                ex.oblige(st, len(ids) == 0, "the stacks are empty when statements are run, which resets them", i)
            same_ = all(isinstance(x, Ptr) and x.obj == y.obj and x.off.same(y.off) for x, y in zip(a[:5], w["args"]))
            ex.oblige(st, same_, "the same streams, scenario and state", i)
            st.ghost["nested"] = st.ghost.get("nested", ()) + ((a[5], a[6]),)
            o = st.own(w["pv"].obj)
            NEWV = uf(fresh_name("vars_after"), 1, "f64")
            o.arrays[(0, "f64")] = ABase(lambda k: NEWV(Z(k)))
            st.ghost["after"] = NEWV
            return [Result(st, "ret", None)]

        def head(ex, f, lp, it):
            st = it.st.fork()
            env = dict(it.env)
            seen = False
            for ins in f["B"][lp["header"]]["ins"]:
                if ins["op"] != "phi":
                    break
                cur = env.get(ins["id"])
                if isinstance(cur, Poly) and cur.same(w["first"]):
                    env[ins["id"]] = w["I"]
                    w["phi"] = ins["id"]
                    seen = True
                else:
                    env[ins["id"]] = ex.fresh_val(ins["t"], "local", st)
            if not seen:
                raise Unsupported("instruction position not found")
            for k in stacks(st):
                ty = st.ghost[("kind",) + k]
                w[ty] = k
                st.ghost[k] = tuple(slot(ex, st, ty, v if ty == "double" else ite(v, Poly.const(1), Poly.const(0))) for v in (w["d"] if ty == "double" else w["b"]))
            return [("step", Item(st, env, it.bb, dict(it.counts)))]
        c.exec([(re.compile(r"EvalCompiled<double>"), nested)] + STACKS, merge=False, step=(re.compile(r"EvalCompiled<double>"), head))
        code = opcodes(c)[op]
        I, first = c.int("position", 0, 10 ** 8), c.int("first", 0, 10 ** 8)
        n = c.int("stream", 1, 10 ** 9)
        k = NOPER.get(op, {"If": 1, "IfElse": 2}.get(op, 0))
        c.assume(z3.And(Z(first) <= Z(I), Z(I) + k < Z(n)))
        last = c.int("last", 0, 10 ** 9)
        c.assume(z3.And(Z(last) <= Z(n), z3.Or(Z(last) == 0, Z(last) > Z(I) + k)))
        nv, nc, nn = c.int("nvars", 1, 10 ** 6), c.int("nconsts", 1, 10 ** 6), c.int("nnumbers", 1, 10 ** 6)
        x = [c.int("operand%d" % t, 0, 10 ** 9) for t in range(k)]
        if op in ("If", "IfElse"):
            c.assume(z3.And(*[Z(v) > Z(I) for v in x]))
        else:
            isnum = {"Var": [nv], "ConstVar": [nc], "Assign": [nv], "Pays": [nv], "AssignConst": [nn, nv], "PaysConst": [nn, nv]}.get(op, [nn])
            for v, hi in zip(x, isnum):
                c.assume(icmp("lt", v, hi))
        base = base_array("stream", 1, "i32")
        arr = AStore(base, (I,), Poly.const(code))
        for t in range(k):
            arr = AStore(arr, (I.add(Poly.const(1 + t)),), x[t])
        ns, _, _ = c.vector("instructions", n, "i32", fn=lambda q: arr.select(c.ex, None, (q,)))
        o = c.st.heap[c.ex.load(c.st, ns, "ptr").obj]
        o.arrays[(0, "i32")] = arr
        cs, _, NS = c.vector("numbers", nn, "f64")
        ds = c.obj("data", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
        bb = Ptr(c.ex.new_obj(c.st, "b", 64, True).id, 0)
        so, no = probe(c, r"^A_spot\(", bb).off.c(), probe(c, r"^A_num\(", bb).off.c()
        spot, num = c.real("spot"), c.real("numeraire")
        c.assume(num > 0)
        smp = c.obj("sample", {so: ("f64", spot), no: ("f64", num)}, 64)
        stt = c.obj("state", {}, 256)
        vo, co = probe(c, r"^A_svars\(", stt).off.c(), probe(c, r"^A_sconsts\(", stt).off.c()
        pv, V = put_vec(c, stt.obj, vo, "variables", nv)
        pc, K = put_vec(c, stt.obj, co, "constants", nc)
        nd, nb = NEEDS.get(op, (0, 0))
        w.update(I=I, first=first, pv=pv, V=V, K=K, NS=NS, spot=spot, numeraire=num, d=tuple(c.real("d%d" % t) for t in range(nd)), b=tuple(c.bool("b%d" % t) for t in range(nb)))
        w["args"] = [ns, cs, ds, smp, stt]
        c.call(r"^Run\(", [ns, cs, ds, smp, stt, first, last])
        backs, exits = [b for x_ in c.ex.stepped for b in x_[2]], [b for x_ in c.ex.stepped for b in x_[3]]
        for q in exits:
            c.ensure(q.st, False, "the loop goes on while instructions are left")
        ok = 0
        for q in backs:
            st = q.st
            ok += 1
            c.cover("step of " + op, st)
            d, b = (values(c, st, st.ghost[w[t]]) if t in w else () for t in ("double", "bool"))
            nxt = q.env[w["phi"]]
            env = StepEnv(st, w)
            j = c.int("j", 0, 10 ** 6)
            s = st.fork()
            s.assume(icmp("lt", j, nv))
            got = rz(c.vec_view(s, stt.shift(vo))[1](j))
            if op in ("If", "IfElse"):
                t = w["b"][0]
                c.ensure(st, len(d) == 0 and len(b) == 0, "the condition is consumed")
                calls = st.ghost.get("nested", ())
                if op == "If":
                    c.ensure(st, len(calls) == 0, "no statements are run here")
                    c.ensure(st, Z(nxt) == z3.If(t, Z(I) + 2, Z(x[0])), "continues in the true branch or behind the IF")
                    c.ensure(s, got == rz(V(j)), "the variables are not touched")
                else:
                    c.ensure(st, z3.And(t == z3.BoolVal(len(calls) == 1), z3.BoolVal(len(calls) <= 1)), "the true branch is run exactly when the condition holds")
                    c.ensure(st, Z(nxt) == z3.If(t, Z(x[1]), Z(x[0])), "continues behind the IF, or in the ELSE branch")
                    if len(calls) == 1:
                        c.ensure(st, z3.And(Z(calls[0][0]) == Z(I) + 3, Z(calls[0][1]) == Z(x[0])), "exactly the statements of the true branch")
                        c.ensure(s, got == st.ghost["after"](Z(j)), "the variables are what the branch left")
                    else:
                        c.ensure(s, got == rz(V(j)), "the variables are not touched")
                continue
            wd, wb = machine(op, x, w["d"], w["b"], env)
            c.ensure(st, len(d) == len(wd) and len(b) == len(wb), "exactly the operands are consumed and the result pushed")
            if len(d) == len(wd) and len(b) == len(wb):
                for v, y in list(zip(d, wd)) + list(zip(b, wb)):
                    c.ensure(st, same(v, y), "the result of the instruction")
            want = rz(V(j))
            for i_, v in env.sets:
                want = z3.If(Z(j) == Z(i_), rz(v), want)
            c.ensure(s, got == want, "the variables are set as stated, all others keep their value")
            c.ensure(st, Z(nxt) == Z(I) + 1 + k, "continues with the next instruction")
        c.ensure(c.st, ok > 0, "the instruction is implemented")
    f.__name__ = "run_" + op
    return f


for _n in OPS:
    contract("s")(interpreter(_n))


@contract("s")
def run_end(c):
    """a run over no instructions returns at once and changes nothing; `last` = 0 stands for the whole stream"""
    c.exec(STACKS, merge=False)
    first, n, last = c.int("first", 0, 10 ** 8), c.int("stream", 1, 10 ** 8), c.int("last", 0, 10 ** 8)
    c.assume(z3.And(Z(last) <= Z(n), Z(first) >= z3.If(Z(last) == 0, Z(n), Z(last))))
    nv = c.int("nvars", 1, 10 ** 6)
    ns, _, _ = c.vector("instructions", n, "i32")
    cs, _, _ = c.vector("numbers", 1, "f64")
    ds = c.obj("data", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
    smp, stt = c.obj("sample", {}, 64), c.obj("state", {}, 256)
    vo = probe(c, r"^A_svars\(", stt).off.c()
    pv, V = put_vec(c, stt.obj, vo, "variables", nv)
    j = c.int("j", 0, 10 ** 6)
    c.assume(icmp("lt", j, nv))
    for r in c.call(r"^Run\(", [ns, cs, ds, smp, stt, first, last]):
        c.ensure(r.st, r.kind == "ret", "never throws")
        c.ensure(r.st, rz(c.vec_view(r.st, stt.shift(vo))[1](j)) == rz(V(j)), "nothing changes")


def stack_ops(X, ty, esz):
    """the stack is a sequence: checked at every depth the fixed capacity allows (each depth symbolically in its contents)"""
    def f(c):
        c.exec(merge=False)
        SPO = 128 * esz
        c.cover("a stack", c.st)
        elt = "f64" if ty == "f64" else "i8"
        def fresh(n):
            return z3.Real(n) if ty == "f64" else z3.Bool(n)
        def raw(v):
            return v if ty == "f64" else ite(v, Poly.const(1), Poly.const(0))
        def val(v):
            return v if ty == "f64" or isinstance(v, (bool, z3.BoolRef)) else as_bool(icmp("ne", v, 0))
        v = fresh("pushed")
        for depth in range(0, 129):
            xs = [fresh("e%d" % k) for k in range(depth)]
            def mk():
                s = State()
                cells = {esz * k: (elt, raw(x)) for k, x in enumerate(xs)}
                cells[SPO] = ("i32", Poly.const(depth - 1))
                return s, c.obj("stack", cells, (SPO + 11) // 8 * 8, s)
            def contents(st, p):
                n = c.ex.load(st, p.shift(SPO), "i32").c() + 1
                return [val(c.ex.load(st, p.shift(esz * k), elt)) for k in range(n)]
            def run(fn, *a):
                s, p = mk()
                (r,) = c.ex.run_function(c.fname(r"^%s_%s\(" % (X, fn)), s, [p] + list(a))
                return r, contents(r.st, p)
            bad = []
            def expect(r, got, want, what):
                if not (r.kind == "ret" and len(got) == len(want) and all(same_term(x, y) for x, y in zip(got, want))):
                    bad.append(what)
            if depth < 128:
                s0, p0 = mk()
                ref = c.obj("ref", {0: (elt, raw(v))}, 8, s0)
                (r,) = c.ex.run_function(c.fname(r"^%s_push\(" % X), s0, [p0, ref])
                expect(r, contents(r.st, p0), xs + [v], "push of an object appends it")
                r, got = run("pushr", v if ty == "f64" else v)
                expect(r, got, xs + [v], "push of a value appends it")
            if depth:
                r, got = run("top")
                expect(r, got + [val(r.val)], xs + [xs[-1]], "top is the last value")
                r, got = run("set", v)
                expect(r, got, xs[:-1] + [v], "writing the top replaces it")
                r, got = run("take")
                expect(r, got + [val(r.val)], xs, "taking the top removes and returns it")
                r, got = run("pop")
                expect(r, got, xs[:-1], "popping removes the last value")
            for k in sorted({0, 1, 2, 3, depth - 1}):
                if 0 <= k < depth:
                    r, got = run("at", Poly.const(k))
                    expect(r, got + [val(r.val)], xs + [xs[-1 - k]], "entry %d from the top" % k)
                    r, got = run("setat", Poly.const(k), v)
                    expect(r, got, xs[:-1 - k] + [v] + xs[depth - k:], "writing entry %d from the top" % k)
            r, got = run("reset")
            expect(r, got, [], "reset empties the stack")
            c.ensure(r.st, not bad, "push, top, take, pop, entries and reset at depth %d%s" % (depth, "".join(": " + x for x in bad[:1])))
        s, p = mk()
        (r,) = c.ex.run_function(c.fname(r"^%s_new\(" % X), s, [p])
        c.ensure(r.st, contents(r.st, p) == [], "a new stack is empty")
    f.__name__ = "stack_" + X
    return f


def same_term(x, y):
    x, y = (z3.simplify(bz(t) if isinstance(t, (bool, z3.BoolRef)) else rz(t)) for t in (x, y))
    return x.eq(y)


contract("s")(stack_ops("SD", "f64", 8))
contract("s")(stack_ops("SB", "i1", 1))


@contract("s")
def initialisation(c):
    """before each scenario every variable is set back to its initial value"""
    def inv(ctx):
        out = []
        for v in ctx.ints():
            for oid, key_ in ctx.arrays:
                if key_[1] == "f64":
                    out.append(("%s: set so far" % v["name"], All(lambda k, v=v, oid=oid, key_=key_: z3.Implies(z3.And(0 <= Z(k), Z(k) < Z(v["cur"])), rz(ctx.cur(oid, key_, k)) == rz(INIT(P(k)))))))
        return out
    INIT = None
    for fn, ao, ai in (("tree", r"^A_vars\(", r"^A_init\("), ("state", r"^A_svars\(", r"^A_sinit\(")):
        c.exec(STACKS, [(r"::Init\(", inv)])
        c.st = State()
        n, j = c.int("n", 1, 10 ** 6), c.int("j", 0, 10 ** 6)
        c.assume(icmp("lt", j, n))
        e = c.obj("object", {}, 8192)
        vo, io = probe(c, ao, e).off.c(), probe(c, ai, e).off.c()
        put_vec(c, e.obj, vo, "variables_" + fn, n)
        _, INIT = put_vec(c, e.obj, io, "initial_" + fn, n)
        for r in c.call(r"^I_%s\(" % fn, [e]):
            c.ensure(r.st, r.kind == "ret", "never throws")
            c.ensure(r.st, rz(c.vec_view(r.st, e.shift(vo))[1](j)) == rz(INIT(j)), "every variable has its initial value")
            if fn == "tree":
                c.ensure(r.st, all(len(v) == 0 for v in stacks(r.st).values()) and len(stacks(r.st)) == 2, "both stacks are emptied")
