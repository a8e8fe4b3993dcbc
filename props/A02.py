from stdc import *
ID = "A02"
META = dict(
    title="The reverse sweep visits every record once and accumulates the chain rule",
    statement="Propagating adjoints from a number visits each record from that number's back to the requested starting point exactly once, newest first, and each visit adds to every operand's adjoint the record's adjoint times the recorded derivative (adjoints of magnitude at most 2e-14 count as zero), for one or for several results at once; resetting clears every adjoint. Storage handed out for records never overlaps earlier storage and stays at its place, and rewinding to a mark or to the start reuses exactly the storage taken after it.",
    quantifier=dict(over=["inputs", "histories"], text="any number of records and operands, repeated operands, every position relative to the storage blocks, any sequence of mark, rewind and record operations (step by step from any consistent state)"),
    why_tests_cant="Tapes in tests are small and stop in the middle of a storage block; errors at a block boundary, with a record used twice, or after a rewind that crosses blocks need particular record counts.",
    anchors=dict(files=["dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/node.hpp", "dal/math/aad/blocklist.hpp", "dal/math/aad/expr.hpp"],
                 mechanism=["adjoint accumulation of one record @ dal/math/aad/node.hpp", "reverse sweeps @ dal/math/aad/expr.hpp", "block storage, iterators, marks @ dal/math/aad/blocklist.hpp", "recording and rewinding @ dal/math/aad/tape.cpp"]),
    level_note="per-record accumulation for any operand count, sweep order for any tape length, block storage steps from any state; doubles as reals; the step from local accumulation to total derivatives is the textbook reverse-mode theorem")
DRV = '''#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include "/repo/dal/math/aad/tape.cpp"
using namespace Dal; using namespace Dal::AAD;
typedef BlockList_<double, DATA_SIZE> Ders_;
typedef BlockList_<TapNode_, BLOCK_SIZE> Nodes_;
double* Multi2(Ders_& b) { return b.EmplaceBackMulti<2>(); }
double* MultiN(Ders_& b, const size_t& n) { return b.EmplaceBackMulti(n); }
double* One(Ders_& b) { return b.EmplaceBack(); }
TapNode_* Node(Nodes_& b, size_t n) { return b.EmplaceBack(n); }
void Mark(Ders_& b) { b.SetMark(); }
void Back(Ders_& b) { b.RewindToMark(); }
void Rew(Ders_& b) { b.Rewind(); }
void Inc(Nodes_::Iterator_& i) { ++i; }
void Dec(Nodes_::Iterator_& i) { --i; }
bool Eq(Nodes_::Iterator_& i, const Nodes_::Iterator_& j) { return i == j; }
bool Ne(Nodes_::Iterator_& i, const Nodes_::Iterator_& j) { return i != j; }
TapNode_* At(Nodes_::Iterator_& i) { return i.operator->(); }
TapNode_& Star(Nodes_::Iterator_& i) { return *i; }
void Beg(Nodes_& b, Nodes_::Iterator_* r) { *r = b.Begin(); }
void End(Nodes_& b, Nodes_::Iterator_* r) { *r = b.End(); }
void Mrk(Nodes_& b, Nodes_::Iterator_* r) { *r = b.Mark(); }
void Fnd(Nodes_& b, TapNode_* n, Nodes_::Iterator_* r) { *r = b.Find(n); }
TapNode_* Rec0(Tape_& t) { return t.RecordNode<0>(); }
TapNode_* Rec3(Tape_& t) { return t.RecordNode<3>(); }
void Sweep(Tape_::Iterator_& a, Tape_::Iterator_& b) { Number_::PropagateAdjoints(a, b); }
void SweepAll(Tape_::Iterator_& a, Tape_::Iterator_& b) { Number_::PropagateAdjointsMulti(a, b); }
void To(Number_& x, Tape_::Iterator_& b) { x.PropagateAdjoints(b); }
void ToStart(Number_& x) { x.PropagateToStart(); }
void ToMark(Number_& x) { x.PropagateToMark(); }
void MarkToStart() { Number_::PropagateMarkToStart(); }
void P1(TapNode_& n) { n.PropagateOne(); }
void PA(TapNode_& n) { n.PropagateAll(); }
'''
DRIVERS = {"t": (DRV, [r"^(Multi|One|Node|Mark|Back|Rew|Inc|Dec|Eq|Ne|At|Star|Beg|End|Mrk|Fnd|Rec|Sweep|To|MarkTo|P1|PA)\w*\(", r"^Dal::AAD::Tape_::"])}
CONTRACTS = contract = Registry()
STANDIN = "real code: random programs on the tape with marks, rewinds, several results and record counts around the block sizes, against forward-mode dual numbers"
ASSUMPTIONS = ["doubles as real numbers", "std::list::emplace_back appends a node (trusted library)", "std::all_of (trusted library)", "textbook theorem: local accumulation in reverse recording order yields total derivatives"]
SOURCES = ["math/aad/aad.cpp", "math/aad/expr.cpp", "math/aad/tape.cpp", "math/specialfunctions.cpp", "math/interp/interpcubic.cpp", "math/interp/interp.cpp", "storage/archive.cpp", "utilities/dictionary.cpp", "math/cell.cpp", "math/cellutils.cpp"]
NSZ = 40                       # sizeof(TapNode_)
BIG = 10 ** 7
_e = Fraction(2e-14)
EPS = z3.RealVal("%d/%d" % (_e.numerator, _e.denominator))
I, RR = z3.IntSort(), z3.RealSort()
one = Poly.const(1)


# ------------------------------------------------------------ one record
@contract("t")
def propagate_one(c):
    IDX, DER = z3.Function("operand", I, I), z3.Function("der", I, RR)
    S = z3.Function("contribution", I, I, RR)

    def inv(ctx):
        out = []
        for v in ctx.ints():
            for oid, k in ctx.arrays:
                if oid == pool.obj:
                    out.append(("%s: operands before it have received their share" % v["name"],
                                All(lambda t, v=v, k=k: rz(ctx.cur(pool.obj, k, t)) == rz(ctx.old(pool.obj, k, t)) + S(Z(v["cur"]), Z(t)))))
        return out
    c.exec(invariants=[("PropagateOne", lambda ctx: inv(ctx))])
    n, m = c.int("n", 0, BIG), c.int("m", 1, BIG)
    adj = c.real("adjoint")
    pool, old = c.array("pool", m)
    ders, _ = c.array("der", n)
    ptrs, _ = c.array("ptrs", n, "ptr", fn=lambda i: Ptr(pool.obj, P(IDX(Z(i))).scale(8)))
    c.inputs.pop("ptrs", None)
    node = c.obj("node", {0: ("i64", n), 8: ("f64", adj), 16: ("ptr", ders), 24: ("ptr", NULL), 32: ("ptr", ptrs)}, NSZ)
    c.st.schemas.append(Schema("operands are records", [IDX], lambda i: z3.And(IDX(i) >= 0, IDX(i) < Z(m))))
    c.st.schemas.append(Schema("sum", [S], lambda i, t: z3.And(S(0, t) == 0, z3.Implies(i > 0, S(i, t) == S(i - 1, t) + z3.If(IDX(i - 1) == t, adj * DER(i - 1), z3.RealVal(0))))))
    t = c.int("t", 0, BIG)
    c.assume(Z(t) < Z(m))
    small = z3.And(adj <= EPS, -adj <= EPS)
    tot = S(Z(n), Z(t))

    def post(st, _):
        v = rz(elem(c.ex, st, pool, t))
        return [("each operand receives adjoint times derivative", z3.Or(v == rz(old(t)) + tot, z3.And(small, v == rz(old(t)))))]
    c.ensure_all(c.call(r"^P1\(", [node]), "one record", post)


@contract("t")
def propagate_all(c):
    IDX, DER, A = z3.Function("operand", I, I), z3.Function("der", I, RR), z3.Function("own", I, RR)
    S = z3.Function("contribution", I, I, I, RR)
    SMALL = z3.Bool("all_adjoints_small")

    def inv(ctx):
        out = []
        iv = ctx.ints()
        for v in iv:
            for oid, k in ctx.arrays:
                if oid == pool.obj:
                    cur, old = (lambda r, j, k=k: rz(ctx.cur(pool.obj, k, r, j))), (lambda r, j, k=k: rz(ctx.old(pool.obj, k, r, j)))
                    out.append(("%s: operands before it have received their share" % v["name"], All(lambda r, j, v=v, cur=cur, old=old: z3.Implies(z3.And(Z(j) >= 0, Z(j) < Z(w)), cur(r, j) == rz(base(r, j)) + S(Z(v["cur"]), Z(r), Z(j))), arity=2)))
                    for row in ROWS(ctx):
                        out.append(("%s: operand %s updated up to it" % (v["name"], row), All(lambda r, j, v=v, cur=cur, old=old, row=row: cur(r, j) == old(r, j) + z3.If(z3.And(Z(r) == IDX(row), Z(j) >= 0, Z(j) < Z(v["cur"])), DER(row) * A(Z(j)), z3.RealVal(0)), arity=2)))
        return out

    def ROWS(ctx):
        # index of the operand being processed: any integer value in the environment
        out = []
        for x in ctx.env.values():
            if isinstance(x, Poly) and not x.is_const() and not any(Z(x).eq(y) for y in out):
                out.append(Z(x))
        return out[:8]

    def all_of(ex, st, a, i, dem):
        ln = rng(ex, st, a[0], a[1])
        ex.oblige(st, z3.And(z3.BoolVal(a[0].obj == own.obj), Z(a[0].off) == 0, Z(ln) == Z(w)), "all of the record's own adjoints are tested", i, cls="post")
        f = [q for q in c.m.fn.values() if "lambda" in q["dem"] and q["dem"].endswith("operator()(double) const")]
        if len(f) != 1:
            raise Unsupported("predicate of all_of")
        x = z3.Real("probe")
        rs = ex.run_function(f[0]["name"], st.fork(), [NULL, x])
        if len(rs) != 1 or rs[0].kind != "ret":
            raise Unsupported("predicate of all_of")
        ex.oblige(State(), bz(rs[0].val) == z3.And(x <= EPS, -x <= EPS), "tested against the threshold", i, cls="post")
        return [Result(st, "ret", SMALL)]
    c.exec([(re.compile(r"std::all_of<double\*"), all_of)], [("PropagateAll", lambda ctx: inv(ctx))])
    n, m, w = c.int("n", 0, BIG), c.int("m", 1, BIG), c.int("w", 1, 1000)
    c.ex.o["global_values"] = {"_ZN3Dal3AAD8TapNode_7numAdj_E": {0: ("i64", w)}}
    ab = base_array("pool", 2, "f64")
    base = lambda r, j: ab.fn(P(r), P(j))
    po = c.ex.arr_obj(c.st, "pool", m.mul(w), 8, {0: ("f64", ab)}, rowlen=w)
    pool = Ptr(po.id, 0)
    ders, _ = c.array("der", n)
    own, _ = c.array("own", w)
    ptrs, _ = c.array("ptrs", n, "ptr", fn=lambda i: Ptr(pool.obj, P(IDX(Z(i))).mul(w).scale(8)))
    c.inputs.pop("ptrs", None)
    node = c.obj("node", {0: ("i64", n), 8: ("f64", Fraction(0)), 16: ("ptr", ders), 24: ("ptr", own), 32: ("ptr", ptrs)}, NSZ)
    c.st.schemas.append(Schema("operands are records", [IDX], lambda i: z3.And(IDX(i) >= 0, IDX(i) < Z(m))))
    c.st.schemas.append(Schema("sum", [S], lambda i, r, j: z3.And(S(0, r, j) == 0, z3.Implies(i > 0, S(i, r, j) == S(i - 1, r, j) + z3.If(IDX(i - 1) == r, DER(i - 1) * A(j), z3.RealVal(0))))))
    r, j = c.int("r", 0, BIG), c.int("j", 0, 1000)
    c.assume(z3.And(Z(r) < Z(m), Z(j) < Z(w)))
    tot = S(Z(n), Z(r), Z(j))

    def post(st, _):
        v = rz(elem(c.ex, st, pool, r.mul(w).add(j)))
        return [("each operand receives, result by result, adjoint times derivative", z3.Or(v == rz(base(r, j)) + tot, z3.And(SMALL, v == rz(base(r, j)))))]
    c.ensure_all(c.call(r"^PA\(", [node]), "one record, several results", post)


# ------------------------------------------------------------ sweeps, over the flattened tape
def flat(c, n):
    """the tape as one sequence of n records; the iterator operations act as in the contracts `step_*`"""
    nodes = Ptr(c.ex.arr_obj(c.st, "records", n, NSZ, {0: ("i64", None), 8: ("f64", base_array("adjoint", 1, "f64"))}).id, 0)
    return nodes


def it_at(c, nodes, k, st=None):
    blk = c.obj("blk%d" % len(c.st.heap), {}, 16)
    return c.obj("it%d" % len(c.st.heap), {0: ("ptr", blk), 8: ("ptr", nodes.shift(P(k).scale(NSZ))), 16: ("ptr", blk), 24: ("ptr", blk)}, 32)


def flat_contracts(c, ctx):
    IT = r"BlockList_<Dal::AAD::TapNode_, \d+ul>::Iterator_::operator"

    def pos(ex, st, p, i):
        v = ex.load(st, p.shift(8), "ptr", i)
        return v

    def dec(ex, st, a, i, dem):
        v = pos(ex, st, a[0], i)
        ex.oblige(st, Z(v.off) >= NSZ, "the sweep does not step before the first record", i, cls="post")
        ex.store(st, a[0].shift(8), "ptr", v.shift(-NSZ), i)
        return [Result(st, "ret", a[0])]

    def inc(ex, st, a, i, dem):
        v = pos(ex, st, a[0], i)
        ex.oblige(st, Z(v.off) < NSZ * Z(ctx["end"]), "no step beyond the last record", i, cls="post")
        ex.store(st, a[0].shift(8), "ptr", v.shift(NSZ), i)
        return [Result(st, "ret", a[0])]

    def cmp(neq):
        def h(ex, st, a, i, dem):
            u, v = pos(ex, st, a[0], i), pos(ex, st, a[1], i)
            return [Result(st, "ret", as_bool(icmp("ne" if neq else "eq", u.off, v.off)))]
        return h

    def at(ex, st, a, i, dem):
        return [Result(st, "ret", pos(ex, st, a[0], i))]

    def place(key):
        def h(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1].obj == ctx["list"].obj), "of the tape's own records", i, cls="post")
            k = ctx[key]
            for off, v in ((0, ctx["blk"]), (8, ctx["nodes"].shift(P(k).scale(NSZ))), (16, ctx["blk"]), (24, ctx["blk"])):
                ex.store(st, a[0].shift(off), "ptr", v, i)
            return [Result(st, "ret", None)]
        return h

    def find(ex, st, a, i, dem):
        ex.oblige(st, z3.BoolVal(a[1].obj == ctx["list"].obj), "of the tape's own records", i, cls="post")
        for off, v in ((0, ctx["blk"]), (8, a[2]), (16, ctx["blk"]), (24, ctx["blk"])):
            ex.store(st, a[0].shift(off), "ptr", v, i)
        return [Result(st, "ret", None)]
    L = r"BlockList_<Dal::AAD::TapNode_, \d+ul>::"
    out = [(re.compile(IT + r"--\(\)"), dec), (re.compile(IT + r"\+\+\(\)"), inc), (re.compile(IT + "!="), cmp(True)), (re.compile(IT + "=="), cmp(False)), (re.compile(IT + r"(->|\*)\(\)"), at),
           (re.compile(L + r"Begin\(\)"), place("begin")), (re.compile(L + r"End\(\)"), place("end")), (re.compile(L + r"Mark\(\)"), place("mark"))]
    if not ctx.get("real_find"):
        out.append((re.compile(L + r"Find\("), find))
    return out


def sweep_setup(c, which="PropagateOne"):
    n = atom(z3.Int("n"))
    F, T = atom(z3.Int("F")), atom(z3.Int("T"))
    ctx = {}

    def visit(ex, st, a, i, dem):
        k = a[0].off.div_exact(NSZ)
        if a[0].obj != ctx["nodes"].obj or k is None:
            raise Unsupported("propagation of something that is not a record")
        seq = ex.load(st, ctx["seq"], "i64", i)
        ex.store(st, ctx["stamp"].shift(k.scale(8)), "i64", seq, i)
        ex.store(st, ctx["seq"], "i64", seq.add(one), i)
        return [Result(st, "ret", None)]

    def inv(lc):
        out = []
        for v in lc.ints():
            if v["ptr"] != ctx["nodes"].obj:
                continue
            i = v["cur"]
            seq = lc.st.heap[ctx["seq"].obj].cells.get(0)
            if seq is None:
                continue
            out.append(("%s: visits so far" % v["name"], Z(seq[2]) == Z(F) - Z(i)))
            for oid, k in lc.arrays:
                if oid == ctx["stamp"].obj:
                    out.append(("%s: everything newer visited once in order, nothing else" % v["name"],
                                All(lambda q, i=i, k=k: Z(lc.cur(ctx["stamp"].obj, k, q)) == z3.If(z3.And(Z(q) > Z(i), Z(q) <= Z(F)), Z(F) - Z(q), -1))))
            out.append(("%s: not past the target" % v["name"], z3.And(Z(i) >= Z(T), Z(i) <= Z(F))))
        return out
    c.exec([(re.compile(r"TapNode_::%s\(" % which), visit)], [("Propagate", lambda lc: inv(lc))])
    c.inputs.update({"n": n, "F": F, "T": T})
    c.assume(z3.And(Z(n) >= 1, Z(n) <= BIG, Z(T) >= 0, Z(T) <= Z(F), Z(F) < Z(n)))
    ctx["nodes"] = flat(c, n)
    ctx["stamp"] = c.array("stamp", n, "i64", fn=lambda i: Poly.const(-1))[0]
    c.inputs.pop("stamp")
    ctx["seq"] = c.obj("seq", {0: ("i64", Poly.const(0))}, 8)
    ctx["blk"] = c.obj("blk", {}, 16)
    ctx["end"] = n
    c.ex.contracts[:0] = flat_contracts(c, ctx)
    return ctx, n, F, T


def visited(c, ctx, F, T, rs, extra=None):
    q = c.int("q", 0, BIG)
    for r in rs:
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        s = r.st.fork()
        s.assume(z3.And(Z(q) >= 0, Z(q) < Z(ctx["end"])))
        v = Z(elem(c.ex, s, ctx["stamp"], q, "i64"))
        c.ensure(s, v == z3.If(z3.And(Z(q) >= Z(T), Z(q) <= Z(F)), Z(F) - Z(q), -1), "every record in range is visited exactly once, newest first, and no other")
        c.ensure(s, Z(c.ex.load(s, ctx["seq"], "i64")) == Z(F) - Z(T) + 1, "number of visits")
        if extra:
            extra(s)
        c.cover("sweep returns", s)


@contract("t")
def sweep(c):
    ctx, n, F, T = sweep_setup(c)
    visited(c, ctx, F, T, c.call(r"^Sweep\(", [it_at(c, ctx["nodes"], F), it_at(c, ctx["nodes"], T)]))


@contract("t")
def sweep_multi(c):
    ctx, n, F, T = sweep_setup(c, "PropagateAll")
    visited(c, ctx, F, T, c.call(r"^SweepAll\(", [it_at(c, ctx["nodes"], F), it_at(c, ctx["nodes"], T)]))


def number_sweep(fn):
    """from a number: its adjoint is seeded with one and the sweep starts at its record"""
    def f(c):
        ctx, n, F, T = sweep_setup(c)
        tapeobj = c.obj("tape", {}, 400)
        tls = c.obj("tls", {0: ("ptr", tapeobj)}, 8)
        ctx["list"] = tapeobj
        ctx["begin"], ctx["mark"] = Poly.const(0), T if fn == "ToMark" else T.add(one)
        c.ex.contracts[:0] = [(re.compile(r"thread-local wrapper routine|^_ZTW"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)]), (re.compile(r"^llvm\.threadlocal"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)])]
        x = c.obj("x", {0: ("f64", c.real("v")), 8: ("ptr", ctx["nodes"].shift(F.scale(NSZ)))}, 16)
        if fn == "ToStart":
            c.assume(Z(T) == 0)
        args = {"To": [x, it_at(c, ctx["nodes"], T)], "ToStart": [x], "ToMark": [x]}[fn]
        u = c.int("u", 0, BIG)
        c.assume(Z(u) < Z(n))
        old = z3.Function("adjoint", I, RR)

        def extra(s):
            v = rz(elem(c.ex, s, ctx["nodes"].shift(8), u.scale(5)))
            c.ensure(s, v == z3.If(Z(u) == Z(F), z3.RealVal(1), old(Z(u))), "the number's own adjoint is one, before the sweep")
        visited(c, ctx, F, T, c.call(r"^%s\(" % fn, args), extra)
    f.__name__ = "from_number_" + fn
    return f


for _f in ("To", "ToStart", "ToMark"):
    contract("t")(number_sweep(_f))


@contract("t")
def mark_to_start(c):
    ctx, n, F, T = sweep_setup(c)
    tapeobj = c.obj("tape", {}, 400)
    tls = c.obj("tls", {0: ("ptr", tapeobj)}, 8)
    ctx["list"] = tapeobj
    c.assume(Z(T) == 0)
    ctx["begin"], ctx["mark"] = Poly.const(0), F.add(one)
    c.ex.contracts[:0] = [(re.compile(r"thread-local wrapper routine|^_ZTW"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)]), (re.compile(r"^llvm\.threadlocal"), lambda ex, st, a, i, dem: [Result(st, "ret", tls)])]
    visited(c, ctx, F, T, c.call(r"^MarkToStart\(", []))


@contract("t")
def find(c):
    """searching from the end returns the record's own position, or the end"""
    n = atom(z3.Int("n"))
    e = atom(z3.Int("e"))
    ctx = {"real_find": True}

    def inv(lc):
        out = []
        for v in lc.ints():
            if v["ptr"] == ctx["nodes"].obj:
                out.append(("%s: not found above it" % v["name"], z3.Or(Z(e) < Z(v["cur"]), Z(e) >= Z(n))))
                out.append(("%s: in the tape" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n))))
        return out
    c.exec([], [("Find", lambda lc: inv(lc))])
    c.inputs.update({"n": n, "e": e})
    c.assume(z3.And(Z(n) >= 0, Z(n) < BIG, Z(e) >= 0, Z(e) <= BIG))
    ctx["nodes"], ctx["blk"], ctx["begin"], ctx["end"] = flat(c, Poly.const(BIG)), c.obj("blk", {}, 16), Poly.const(0), n
    lst = c.obj("list", {}, 72)
    ctx["list"] = lst
    c.ex.contracts[:0] = flat_contracts(c, ctx)
    out = c.obj("out", {}, 32)
    for r in c.call(r"^Fnd\(", [lst, ctx["nodes"].shift(e.scale(NSZ)), out]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        v = c.ex.load(r.st, out.shift(8), "ptr")
        c.ensure(r.st, z3.And(z3.BoolVal(v.obj == ctx["nodes"].obj), Z(v.off) == NSZ * z3.If(Z(e) < Z(n), Z(e), z3.If(z3.And(Z(n) == 0, Z(e) == 0), 0, Z(n)))), "position of the record")


@contract("t")
def reset(c):
    n = atom(z3.Int("n"))
    ctx = {}

    def inv(lc):
        out = []
        for v in lc.ints():
            if v["ptr"] == ctx["nodes"].obj:
                for oid, k in lc.arrays:
                    if oid == ctx["nodes"].obj:
                        out.append(("%s: cleared before it" % v["name"], All(lambda q, v=v, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), rz(lc.cur(ctx["nodes"].obj, k, q)) == 0))))
                out.append(("%s: in the tape" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n))))
        return out
    c.exec([], [("ResetAdjoints", lambda lc: inv(lc))], global_values={"_ZN3Dal3AAD5Tape_6multi_E": {0: ("i8", Poly.const(0))}})
    c.inputs["n"] = n
    c.assume(z3.And(Z(n) >= 0, Z(n) < BIG))
    ctx["nodes"], ctx["blk"], ctx["begin"], ctx["end"] = flat(c, Poly.const(BIG)), c.obj("blk", {}, 16), Poly.const(0), n
    tp = c.obj("tape", {}, 400)
    ctx["list"] = tp
    c.ex.contracts[:0] = flat_contracts(c, ctx)
    q = c.int("q", 0, BIG)
    c.assume(Z(q) < Z(n))
    for r in c.call(r"Tape_::ResetAdjoints", [tp]):
        if r.kind != "ret":
            c.ensure(r.st, False, "never throws")
            continue
        c.ensure(r.st, rz(elem(c.ex, r.st, ctx["nodes"].shift(8), q.scale(5))) == 0, "every adjoint on the tape is zero")


# ------------------------------------------------------------ block storage
class Blocks:
    """a block list in any consistent state: current block `cur` of `count` with `off` elements taken,
    marked position in block `mk` at `moff`; blocks before, at and after the current one"""

    def __init__(self, c, esz, bsz, count, cur, mk=None):
        self.c, self.esz, self.bsz = c, esz, bsz
        self.off = c.int("off", 0, bsz)
        self.moff = c.int("moff", 0, bsz)
        self.h = c.obj("list", {}, 72)
        self.b = [c.obj("block%d" % k, {}, 16 + bsz * esz) for k in range(count)]
        ring = [self.h] + self.b
        for k, p in enumerate(ring):
            o = c.st.heap[p.obj]
            o.cells[0] = (8, "ptr", ring[(k + 1) % len(ring)])
            o.cells[8] = (8, "ptr", ring[k - 1])
        o = c.st.heap[self.h.obj]
        self.cur = cur
        o.cells[16] = (8, "i64", Poly.const(count))
        o.cells[24] = (8, "ptr", self.b[cur])
        o.cells[32] = (8, "ptr", self.b[-1])
        o.cells[40] = (8, "ptr", self.at(cur, self.off))
        o.cells[48] = (8, "ptr", self.at(cur, bsz))
        o.cells[56] = (8, "ptr", self.b[mk or 0])
        o.cells[64] = (8, "ptr", self.at(mk or 0, self.moff))
        c.ex.contracts[:0] = [(re.compile(r"list<.*::emplace_back<>\(\)"), self.append)]

    def at(self, k, off):
        return self.b[k].shift(P(off).scale(self.esz).add(Poly.const(16)))

    def append(self, ex, st, a, i, dem):
        h = self.h
        last = ex.load(st, h.shift(8), "ptr", i)
        n = ex.new_obj(st, "newblock", 16 + self.bsz * self.esz, True)
        p = Ptr(n.id, 0)
        n.cells[0] = (8, "ptr", h)
        n.cells[8] = (8, "ptr", last)
        ex.store(st, last, "ptr", p, i)
        ex.store(st, h.shift(8), "ptr", p, i)
        self.new = p
        return [Result(st, "ret", p.shift(16))]

    def get(self, st, off):
        return self.c.ex.load(st, self.h.shift(off), "ptr")


def same(p, q):
    if isinstance(p, PtrIte):
        return z3.If(bz(p.c), same(p.a, q), same(p.b, q))
    if isinstance(q, PtrIte):
        return z3.If(bz(q.c), same(p, q.a), same(p, q.b))
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)) or p.obj != q.obj:
        return z3.BoolVal(False)
    return Z(p.off) == Z(q.off)


def take(fn, need, esz, bsz, count, cur, extra=()):
    def f(c):
        c.exec([(re.compile(r"TapNode_::TapNode_\("), lambda ex, st, a, i, dem: [Result(st, "ret", None)])] if esz == NSZ else [])
        B = Blocks(c, esz, bsz, count, cur)
        n = need
        args = [B.h]
        if need is None:
            n = c.int("n", 1, bsz)
            args.append(c.obj("np", {0: ("i64", n)}, 8))
        if fn == "Node":
            args.append(c.int("arity", 0, 10))
        for r in c.call(r"^%s\(" % fn, args):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            st = r.st
            fits = Z(B.off) + Z(P(n)) <= bsz
            for cond, lab in ((fits, "in the current block"), (z3.Not(fits), "in the next block")):
                s = st.fork()
                s.assume(cond)
                if c.cover("storage " + lab, s) == z3.unsat:
                    c.covers.pop()
                    continue
                if lab == "in the current block":
                    blk, off = B.b[cur], B.off
                else:
                    blk, off = (B.b[cur + 1] if cur + 1 < count else getattr(B, "new", NULL)), Poly.const(0)
                if blk.obj is None:
                    c.ensure(s, False, "a further block is taken")
                    continue
                start = blk.shift(P(off).scale(esz).add(Poly.const(16)))
                c.ensure(s, same(r.val, start), "storage starts where the last piece ended, or at the start of a further block")
                c.ensure(s, same(B.get(s, 24), blk), "current block")
                c.ensure(s, same(B.get(s, 40), start.shift(P(n).scale(esz))), "the next piece will start behind it")
                c.ensure(s, same(B.get(s, 48), blk.shift(16 + bsz * esz)), "end of the current block")
                lastb = B.b[-1] if lab == "in the current block" or cur + 1 < count else blk
                c.ensure(s, same(B.get(s, 32), lastb), "last block")
                c.ensure(s, z3.And(same(B.get(s, 56), B.b[0]), same(B.get(s, 64), B.at(0, B.moff))), "mark untouched")
    f.__name__ = "take_%s_%d_%d" % (fn, count, cur)
    return f


for _fn, _need, _esz, _bsz in (("Multi2", 2, 8, 65536), ("MultiN", None, 8, 65536), ("One", 1, 8, 65536), ("Node", 1, NSZ, 16384)):
    for _count, _cur in ((1, 0), (3, 1), (3, 2)):
        contract("t")(take(_fn, _need, _esz, _bsz, _count, _cur))


def marks(count, cur, mk):
    def f(c):
        c.exec()
        bsz, esz = 65536, 8
        B = Blocks(c, esz, bsz, count, cur, mk)
        for r in c.call(r"^Mark\(", [B.h]):
            st = r.st
            c.ensure(st, z3.And(same(B.get(st, 56), B.get(st, 24)), same(B.get(st, 64), B.get(st, 40))), "mark is the current position")
            full = Z(B.off) == bsz
            s = st.fork()
            s.assume(z3.Not(full))
            c.ensure(s, z3.And(same(B.get(s, 24), B.b[cur]), same(B.get(s, 40), B.at(cur, B.off))), "marking does not move the position")
            s = st.fork()
            s.assume(full)
            if c.ex.sat_state(s):
                nb = B.b[cur + 1] if cur + 1 < count else getattr(B, "new", NULL)
                c.ensure(s, z3.And(z3.BoolVal(nb.obj is not None), same(B.get(s, 40), nb.shift(16))), "from a full block marking moves to the start of the next")
        for r in c.call(r"^Back\(", [B.h]):
            st = r.st
            c.ensure(st, z3.And(same(B.get(st, 24), B.b[mk]), same(B.get(st, 40), B.at(mk, B.moff)), same(B.get(st, 48), B.at(mk, bsz)), same(B.get(st, 32), B.b[-1])), "back at the marked position, all blocks kept")
        for r in c.call(r"^Rew\(", [B.h]):
            st = r.st
            c.ensure(st, z3.And(same(B.get(st, 24), B.b[0]), same(B.get(st, 40), B.at(0, 0)), same(B.get(st, 48), B.at(0, bsz)), same(B.get(st, 32), B.b[-1])), "back at the start, all blocks kept")
    f.__name__ = "marks_%d_%d_%d" % (count, cur, mk)
    return f


for _a in ((1, 0, 0), (3, 1, 0), (3, 2, 1), (3, 2, 2)):
    contract("t")(marks(*_a))


@contract("t")
def step(c):
    """one iterator step from any position: the next or previous record, across block boundaries too"""
    c.exec()
    bsz, esz = 16384, NSZ
    B = Blocks(c, esz, bsz, 3, 1)
    c.assume(Z(B.off) < bsz)
    mkit = lambda k, off: c.obj("it%d" % len(c.st.heap), {0: ("ptr", B.b[k]), 8: ("ptr", B.at(k, off)), 16: ("ptr", B.at(k, 0)), 24: ("ptr", B.at(k, bsz))}, 32)

    def check(fn, k, off, want):
        it = mkit(k, off)
        for r in c.call(r"^%s\(" % fn, [it]):
            st = r.st
            for cond, kk, oo in want:
                s = st.fork()
                s.assume(cond)
                if not c.ex.sat_state(s):
                    continue
                g = [c.ex.load(s, it.shift(8 * j), "ptr") for j in range(4)]
                c.ensure(s, z3.And(same(g[0], B.b[kk]), same(g[1], B.at(kk, oo)), same(g[2], B.at(kk, 0)), same(g[3], B.at(kk, bsz))), "%s reaches the neighbouring record" % fn)
    last = Z(B.off) == bsz - 1
    check("Inc", 1, B.off, [(z3.Not(last), 1, B.off.add(one)), (last, 2, Poly.const(0))])
    first = Z(B.off) == 0
    check("Dec", 1, B.off, [(z3.Not(first), 1, B.off.add(one, -1)), (first, 0, Poly.const(bsz - 1))])
    o2 = B.moff
    c.assume(Z(o2) < bsz)
    for k2 in (0, 1):
        i, j = mkit(1, B.off), mkit(k2, o2)
        eq = Z(B.off) == Z(o2) if k2 == 1 else z3.BoolVal(False)
        c.ensure_all(c.call(r"^Eq\(", [i, j]), "equal positions", lambda st, v: bz(v) == eq)
        c.ensure_all(c.call(r"^Ne\(", [i, j]), "different positions", lambda st, v: bz(v) == z3.Not(eq))
    i = mkit(1, B.off)
    c.ensure_all(c.call(r"^At\(", [i]), "record at a position", lambda st, v: same(v, B.at(1, B.off)))
    c.ensure_all(c.call(r"^Star\(", [i]), "record at a position", lambda st, v: same(v, B.at(1, B.off)))


def ends(count, cur, mk):
    def f(c):
        c.exec()
        bsz = 16384
        B = Blocks(c, NSZ, bsz, count, cur, mk)
        out = c.obj("out", {}, 32)

        def pos(st, k, off):
            g = [c.ex.load(st, out.shift(8 * j), "ptr") for j in range(4)]
            blk = B.b[k] if isinstance(k, int) else k
            sh = lambda o: blk.shift(P(o).scale(NSZ).add(Poly.const(16)))
            return z3.And(same(g[0], blk), same(g[1], sh(off)), same(g[2], sh(0)), same(g[3], sh(bsz)))
        for r in c.call(r"^Beg\(", [B.h, out]):
            c.ensure(r.st, pos(r.st, 0, 0), "begin is the first slot")
        for r in c.call(r"^Mrk\(", [B.h, out]):
            c.ensure(r.st, pos(r.st, mk, B.moff), "mark iterator is at the mark")
        for r in c.call(r"^End\(", [B.h, out]):
            s = r.st.fork()
            s.assume(Z(B.off) < bsz)
            if c.ex.sat_state(s):
                c.ensure(s, pos(s, cur, B.off), "end is behind the last record")
            s = r.st.fork()
            s.assume(Z(B.off) == bsz)
            if c.ex.sat_state(s):
                nxt = cur + 1 if cur + 1 < count else getattr(B, "new", None)
                c.ensure(s, pos(s, nxt, 0) if nxt is not None else False, "behind a full block the end is where iteration arrives: the next block's first slot")
    f.__name__ = "ends_%d_%d" % (count, cur)
    return f


for _a in ((1, 0, 0), (3, 1, 0), (3, 2, 1)):
    contract("t")(ends(*_a))


# ------------------------------------------------------------ recording
def record(n, multi):
    def f(c):
        c.exec(global_values={"_ZN3Dal3AAD5Tape_6multi_E": {0: ("i8", Poly.const(int(multi)))}, "_ZN3Dal3AAD8TapNode_7numAdj_E": {0: ("i64", Poly.const(4))}})
        tp = c.obj("tape", {}, 400)
        node = c.obj("slot", {}, NSZ)
        ders, ptrs = c.array("ders", 3)[0], c.obj("ptrs", {}, 24)
        adjs = c.array("adjs", 4)[0]
        LOG = "log"

        def emp(ex, st, a, i, dem):
            st.ghost[LOG] = st.ghost.get(LOG, ()) + ("node",)
            k = a[1] if not isinstance(a[1], Ptr) else ex.load(st, a[1], "i64", i)
            rs = ex.run_function(c.fname(r"TapNode_::TapNode_\(unsigned long\)"), st, [node, k])
            return [Result(r.st, "ret", node) for r in rs]

        def multi_take(what, ptr, size):
            def h(ex, st, a, i, dem):
                m = re.search(r"EmplaceBackMulti<(\d+)ul>", dem)
                k = int(m.group(1)) if m else ex.load(st, a[1], "i64", i)
                ex.oblige(st, icmp("eq", k, size), "%s: one slot per operand or result" % what, i, cls="post")
                st.ghost[LOG] = st.ghost.get(LOG, ()) + (what,)
                return [Result(st, "ret", ptr)]
            return h
        c.ex.contracts[:0] = [(re.compile(r"BlockList_<Dal::AAD::TapNode_.*::EmplaceBack<"), emp), (re.compile(r"BlockList_<double, 65536ul>::EmplaceBackMulti"), multi_take("derivatives", ders, n)),
                              (re.compile(r"BlockList_<double\*, \d+ul>::EmplaceBackMulti"), multi_take("operands", ptrs, n)), (re.compile(r"BlockList_<double, 32768ul>::EmplaceBackMulti"), multi_take("adjoints", adjs, 4))]
        for r in c.call(r"^Rec%d\(" % n, [tp]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            st = r.st
            want = ["node"] + (["adjoints"] if multi else []) + (["derivatives", "operands"] if n else [])
            c.ensure(st, sorted(st.ghost.get(LOG, ())) == sorted(want), "storage taken once for each part")
            g = lambda off, ty: c.ex.load(st, node.shift(off), ty)
            c.ensure(st, same(r.val, node), "the new record")
            c.ensure(st, z3.And(Z(g(0, "i64")) == n, rz(g(8, "f64")) == 0), "operand count set, adjoint zero")
            if n:
                c.ensure(st, z3.And(same(g(16, "ptr"), ders), same(g(32, "ptr"), ptrs)), "slots attached")
            if multi:
                c.ensure(st, same(g(24, "ptr"), adjs), "result adjoints attached")
                for k in range(4):
                    c.ensure(st, rz(elem(c.ex, st, adjs, k)) == 0, "result adjoints zero")
    f.__name__ = "record_%d%s" % (n, "_multi" if multi else "")
    return f


for _n in (0, 3):
    for _m in (False, True):
        contract("t")(record(_n, _m))


def tape_all(fn, op):
    """mark, rewind and clear act on every part of the tape together"""
    def f(c):
        multi = c.bool("multi")
        mv = P(z3.If(multi, z3.IntVal(1), z3.IntVal(0)))
        c.exec([(re.compile(r"BlockList_<.*>::%s\(\)" % op), lambda ex, st, a, i, dem: log(ex, st, a, i))], global_values={"_ZN3Dal3AAD5Tape_6multi_E": {0: ("i8", mv)}})
        tp = c.obj("tape", {}, 400)
        seen = c.array("seen", 4, "i64", fn=lambda i: Poly.const(0))[0]
        c.inputs.pop("seen")

        def log(ex, st, a, i):
            k = a[0].off.div_exact(72)
            if a[0].obj != tp.obj or k is None:
                raise Unsupported("tape layout")
            p = seen.shift(k.scale(8))
            ex.store(st, p, "i64", ex.load(st, p, "i64", i).add(one), i)
            return [Result(st, "ret", None)]
        for r in c.call(r"Tape_::%s\(" % fn, [tp]):
            if r.kind != "ret":
                c.ensure(r.st, False, "never throws")
                continue
            v = [Z(elem(c.ex, r.st, seen, k, "i64")) for k in range(4)]
            always = fn == "Clear"
            c.ensure(r.st, z3.And(v[1] == 1, v[2] == 1, v[3] == 1, v[0] == (1 if always else z3.If(multi, 1, v[0])), v[0] <= 1), "derivatives, operands and records (and result adjoints when in use) together")
    f.__name__ = "tape_" + fn
    return f


for _f, _o in (("Mark", "SetMark"), ("Rewind", "Rewind"), ("RewindToMark", "RewindToMark"), ("Clear", "Clear")):
    contract("t")(tape_all(_f, _o))
