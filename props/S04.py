from scriptc import *
ID = "S04"
META = dict(
    title="Every script text is parsed as the grammar states or refused",
    statement="For every text, parsing ends, never reads outside the text, and either refuses it with an exception or gives a tree that is exactly the derivation of the text in the documented grammar: precedence and left-to-right order of operators, parentheses, function arguments, comparisons, IF blocks with their statements in order, every word of the text used exactly once. What is accepted can be evaluated without touching anything but the script's own variables.",
    quantifier=dict(over=["programs", "inputs"], text="every sequence of words, every nesting depth and length, every set of named constants"),
    why_tests_cant="The texts are unbounded strings and most of them are malformed; tests parse a few dozen well-formed products.",
    anchors=dict(files=["dal/script/parser.hpp", "dal/script/parser.cpp"],
                 mechanism=["levels of the grammar @ ParseExpr, ParseExprL2, ParseExprL3, ParseExprL4, ParseCond, ParseCondL2, ParseCondElem in dal/script/parser.cpp", "matching of parentheses @ FindMatch and ParseParentheses in dal/script/parser.hpp",
                            "function arguments @ ParseFuncArg and ParseVarConstFunc in dal/script/parser.cpp", "statements @ ParseStatement, ParseIf, Parse in dal/script/parser.cpp"]),
    level_note="each parser function against the grammar rule it implements, callees by contract, recursion by a decreasing measure; splitting into words is by regular expression and trusted; the arguments of DCF by the bounded stand-in")
FLAGS = ["-Xclang", "-fno-access-control"]
DRV = '''#include <dal/script/parser.cpp>
using namespace Dal; using namespace Dal::Script;
typedef Vector_<String_>::const_iterator T;
const void* F_args(const Node_& n) { return &n.arguments_; }
const void* F_first(const NodeIf_& n) { return &n.firstElse_; }
const void* F_eps(const CompNode_& n) { return &n.eps_; }
const void* F_constval(const NodeConst_& n) { return &n.constVal_; }
T Q_match(T cur, const T& end) { return Parser_::FindMatch<'(', ')'>(cur, end); }
'''
for _f, _g in (("Expr", "ParseExpr"), ("L2", "ParseExprL2"), ("L3", "ParseExprL3"), ("L4", "ParseExprL4"), ("Cond", "ParseCond"), ("CondL2", "ParseCondL2"), ("CondElem", "ParseCondElem"), ("Atom", "ParseVarConstFunc"), ("If", "ParseIf"), ("Stat", "ParseStatement")):
    DRV += "void Q_%s(Parser_& p, Expression_* r, T& cur, const T& end) { new (r) Expression_(p.%s(cur, end)); }\n" % (_f, _g)
for _f, _g in (("ParenE", "ParseParentheses<&Parser_::ParseExpr, &Parser_::ParseVarConstFunc>"), ("ParenC", "ParseParentheses<&Parser_::ParseCond, &Parser_::ParseCondElem>")):
    DRV += "void Q_%s(Parser_& p, Expression_* r, T& cur, const T& end) { new (r) Expression_(p.%s(cur, end)); }\n" % (_f, _g)
DRV += '''void Q_Const(Parser_& p, Expression_* r, T& cur, const T&) { new (r) Expression_(p.ParseConst(cur)); }
void Q_Var(Parser_& p, Expression_* r, T& cur, const T&) { new (r) Expression_(p.ParseVar(cur)); }
void Q_Assign(Parser_& p, Expression_* r, T& cur, const T& end, Expression_& l) { new (r) Expression_(p.ParseAssign(cur, end, l)); }
void Q_Pays(Parser_& p, Expression_* r, T& cur, const T& end, Expression_& l) { new (r) Expression_(p.ParsePays(cur, end, l)); }
void Q_Args(Parser_& p, Vector_<Expression_>* r, T& cur, const T& end) { new (r) Vector_<Expression_>(p.ParseFuncArg(cur, end)); }
void Q_Parse(Parser_& p, Event_* r, const String_& s) { new (r) Event_(p.Parse(s)); }
void Q_Opt(Parser_& p, T& cur, const T& end, double& eps) { p.ParseCondOptionals(cur, end, eps); }
double Q_Dcf(Parser_& p, T& cur, const T& end) { return p.ParseDCF(cur, end); }
void Q_Equal(Parser_& p, Expression_* r, Expression_& l, Expression_& h, double e) { new (r) Expression_(p.BuildEqual(l, h, e)); }
void Q_Different(Parser_& p, Expression_* r, Expression_& l, Expression_& h, double e) { new (r) Expression_(p.BuildDifferent(l, h, e)); }
void Q_Superior(Parser_& p, Expression_* r, Expression_& l, Expression_& h, double e) { new (r) Expression_(p.BuildSuperior(l, h, e)); }
void Q_SupEqual(Parser_& p, Expression_* r, Expression_& l, Expression_& h, double e) { new (r) Expression_(p.BuildSupEqual(l, h, e)); }
void Q_Bin(Expression_* r, Expression_& l, Expression_& h) { new (r) Expression_(MakeBaseBinary<NodeAdd_>(l, h)); }
void Q_NestMax(Expression_* r, Vector_<Expression_>& a) { new (r) Expression_(NestBinary<NodeMax_>(a)); }
void Q_NestMin(Expression_* r, Vector_<Expression_>& a) { new (r) Expression_(NestBinary<NodeMin_>(a)); }
'''
DRIVERS = {"p": (DRV, [r"^Q_", r"^F_"], FLAGS)}
CONTRACTS = contract = Registry()
STANDIN = "real code under address and undefined-behaviour sanitizers: random texts, damaged scripts and well-formed scripts through the real parser, against a recogniser of the grammar; accepted scripts are indexed and evaluated"
ASSUMPTIONS = ["the regular expression splits the text into words: names and numbers, and the operator, comparison and punctuation words", "nodes are created by the standard library's smart pointers; conversion of words to numbers either gives a number or throws",
               "the recursion depth is not limited (a text nested thousands deep can exhaust the stack)"]
SOURCES = None
NATIVE_FLAGS = ["-fsanitize=address,undefined", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
NATIVE_SECS = 20

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TOKSZ = 32
TID = z3.Function("word", I_, I_)            # which word stands at position k
FIRST = z3.Function("first_char", I_, I_)
NUM = z3.Function("number_at", I_, R_)
ISCONST = z3.Function("is_named_constant", I_, B_)
RESERVED = z3.Function("is_reserved", I_, B_)
DEP = z3.Function("depth", I_, I_)           # open parentheses before position k
WORDS = ["(", ")", ",", ";", ":", "+", "-", "*", "/", "^", "=", "!=", "<", ">", "<=", ">=", "IF", "THEN", "ELSE", "END", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN", "LOG", "SQRT", "EXP", "DCF"]
WID = {w: k + 1 for k, w in enumerate(WORDS)}
SINGLE = [w for w in WORDS if len(w) == 1 and w not in "<>=!"]
NODE = {}
NT = ["Expr", "L2", "L3", "L4", "Atom", "Cond", "CondL2", "CondL3", "CondElem", "Stat", "Stats"]
D = {n: z3.Function("derives_" + n, I_, I_, I_, B_) for n in NT}     # D[n](i, j, tree): tree is the derivation of words i..j-1 from n
BIN = z3.Function("binary", I_, I_, I_, I_)
UN = z3.Function("unary", I_, I_, I_)
CMP = z3.Function("comparison", I_, I_, R_, I_)
LEAF = z3.Function("leaf", I_, I_, I_)
RANK = dict(Text=13, Stat=12, If=11, Assign=10, Pays=10, Cond=9, CondL2=8, ParenC=7, CondElem=6, Expr=5, L2=4, L3=3, L4=2, ParenE=1, Atom=0, Args=-1, Const=-1, Var=-1, Opt=-1, Dcf=-1)


def kind(n):
    n = n.replace("Node", "").rstrip("_")
    return NODE.setdefault(n, len(NODE) + 1)


for _n in ("Add", "Sub", "Multi", "Div", "Pow", "UPlus", "UMinus", "Or", "And", "Not", "Equal", "Sup", "SupEqual", "Assign", "Pays", "If", "Max", "Min", "Log", "Sqrt", "Exp", "Spot", "Const", "Var", "ConstVar"):
    kind(_n)


_WK = z3.Int("word_position")


def word(k):
    """facts about the word at position k: its kind fixes its first character"""
    return z3.substitute(WORD, (_WK, Z(k)))


def _word(k):
    fs = []
    for w in WORDS:
        c0 = z3.Or([FIRST(k) == ord(x) for x in {w[0].lower(), w[0].upper()}])
        fs.append(z3.Implies(TID(k) == WID[w], c0))
        if w in SINGLE:
            fs.append(z3.Implies(FIRST(k) == ord(w[0]), TID(k) == WID[w]))
    fs.append(z3.And(FIRST(k) >= -128, FIRST(k) <= 127))
    fs.append(DEP(k + 1) == DEP(k) + z3.If(TID(k) == WID["("], 1, z3.If(TID(k) == WID[")"], -1, 0)))
    return z3.And(fs)


WORD = _word(_WK)


def reserved(k):
    return z3.Or([TID(k) == WID[x] for x in WORDS if x.isalpha()])


def letter(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)


def digit(c):
    return z3.Or(c == 46, z3.And(c >= 48, c <= 57))


class P4:
    """one run of a parser function on words [0, n), starting at cur0 with the end at `end`"""

    def __init__(self, c, me, extra=(), invariants=(), pre=True, drop=(), **opts):
        self.c, self.me, self.w = c, me, {}
        hs = [(a, self.once(b) if t == me else b, t) for a, b, t in self.handlers() if t not in drop]
        c.exec(list(extra) + [(re.compile(a), b) for a, b, _ in hs], invariants, merge=False, ptr_arrays=lambda o: (self.trees, 16), **opts)
        n = self.n = c.int("words", 1, 10 ** 9)
        o = c.ex.new_obj(c.st, "tokens", P(n).scale(TOKSZ), True)
        o.stride = TOKSZ
        self.tok = o.id
        ch = c.ex.new_obj(c.st, "chars", P(n), True)
        ch.stride = 1
        ch.arrays[(0, "i8")] = ABase(lambda k: P(FIRST(Z(k))))
        self.chars = ch.id
        t = c.ex.new_obj(c.st, "trees", None, False)
        t.stride = 16
        self.trees = t.id
        self.cur0, self.end = c.int("cur", 0, 10 ** 9), c.int("end", 0, 10 ** 9)
        c.assume(z3.And(Z(self.cur0) <= Z(self.end), Z(self.end) <= Z(n)))
        if pre:
            c.assume(self.pre(Z(self.cur0), Z(self.end)))
        c.st.schemas.append(Schema("words", [TID, FIRST, DEP], lambda k: z3.Implies(z3.And(k >= 0, k < Z(n)), word(k))))
        self.p = c.obj("parser", {}, 64)
        self.pc = c.obj("cur", {0: ("ptr", self.at(self.cur0))}, 8)
        self.pe = c.obj("end", {0: ("ptr", self.at(self.end))}, 8)
        self.r = c.obj("result", {0: ("ptr", NULL)}, 8)

    def once(self, h):
        """the function under contract itself: its body at the first call, its contract when it calls itself"""
        def g(ex, st, a, i, dem):
            if "entered" not in st.ghost:
                st.ghost["entered"] = True
                return None
            return h(ex, st, a, i, dem)
        return g

    def pre(self, cur, end):
        """there is a word to look at: one before the end, or the closing parenthesis at the end"""
        return z3.And(cur >= 0, cur <= end, end <= Z(self.n), z3.Or(cur < end, z3.And(end < Z(self.n), TID(cur) == WID[")"])))

    def at(self, k):
        return Ptr(self.tok, P(k).scale(TOKSZ))

    def pos(self, ex, st, p):
        p = ex.prune(st, p)
        if not isinstance(p, Ptr) or p.obj != self.tok:
            raise Unsupported("not a position in the text")
        return p.off.div_exact(TOKSZ)

    def text(self, ex, st, p, i):
        """position of the word a string object holds"""
        p = ex.prune(st, p)
        if isinstance(p, Ptr) and p.obj == self.tok:
            k = p.off.div_exact(TOKSZ)
            ex.oblige(st, z3.And(Z(k) >= 0, Z(k) < Z(self.n)), "never reads outside the text", i)
            return k
        return self.pos(ex, st, ex.load(st, p, "ptr", i))

    def tree(self, id_):
        return Ptr(self.trees, P(id_).scale(16))

    def tid(self, ex, st, p, deep=0):
        """the tree a node pointer stands for"""
        if not deep:
            p = ex.prune(st, p)
        if isinstance(p, Ptr) and p.obj == self.trees:
            return Z(p.off.div_exact(16))
        if isinstance(p, PtrIte):
            return z3.If(bz(p.c), self.tid(ex, st, p.a, 1), self.tid(ex, st, p.b, 1))
        if isinstance(p, Ptr) and p.obj is None and deep:
            return z3.IntVal(-1)
        if not isinstance(p, Ptr) or p.obj is None or ("node", p.obj) not in st.ghost:
            raise Unsupported("not a tree")
        k, val = st.ghost[("node", p.obj)]
        ao = off(self.c, "args")
        b = ex.load(st, p.shift(ao), "ptr")
        e = ex.load(st, p.shift(ao + 8), "ptr")
        m = 0 if b.obj is None else e.off.add(b.off, -1).div_exact(8).c()
        args = [self.tid(ex, st, ex.load(st, b.shift(8 * t), "ptr")) for t in range(m)]
        if k in ("Equal", "Sup", "SupEqual") and m == 1:
            return CMP(NODE[k], args[0], rz(ex.load(st, p.shift(off(self.c, "eps")), "f64")))
        if m == 2:
            return BIN(NODE[k], *args)
        if m == 1:
            return UN(NODE[k], args[0])
        if m == 0 and val is not None:
            return LEAF(NODE[k], Z(val))
        if m == 0 and k == "Spot":
            return LEAF(NODE[k], z3.IntVal(0))
        raise Unsupported("shape of " + k)

    # ---- contracts of the callees
    def handlers(self):
        S = r"std::__cxx11::basic_string<char, Dal::ci_traits, std::allocator<char>>"
        hs = [(r"^" + S + r"::operator\[\]\(unsigned long\)( const)?$", self.h_char, "char"),
              (r"^Dal::operator(==|!=)\(Dal::String_ const&, char const\*\)", self.h_eq, "eq"), (r"^bool std::operator(==|!=)<char, Dal::ci_traits, .*char const\*\)$", self.h_eq, "eq"),
              (r"^Dal::String::ToDouble\(", self.h_num, "num"), (r"^(Dal::String_::String_|" + S + r"::basic_string)\((Dal::String_|" + S + r") (const&|&&)\)", self.h_copy, "copy"),
              (r"MakeBaseNode<Dal::Script::(\w+)", self.h_make, "make"), (r"MakeNode<Dal::Script::(\w+)", self.h_make, "make"), (r"std::make_unique<Dal::Script::(\w+)", self.h_make, "make"),
              (r"^Dal::Vector_<std::unique_ptr<Dal::Script::Node_.*>>::Resize\(", self.h_resize, "resize"),
              (r"MakeBaseBinary<Dal::Script::(\w+)>", self.h_bin, "Bin"),
              (r"std::default_delete<Dal::Script::\w+>::operator\(\)", lambda ex, st, a, i, dem: [Result(st, "ret", None)], "delete"),
              (r"Parser_::FindMatch<", self.h_match, "Match"), (r"Parser_::ParseCondOptionals\(", self.h_opt, "Opt"), (r"Parser_::Build(Equal|Different|Superior|SupEqual)\(", self.h_build, "Build")]
        for nm, rx in (("ParenE", r"Parser_::ParseParentheses<.*ParseExpr\("), ("ParenC", r"Parser_::ParseParentheses<.*ParseCond\("), ("Expr", r"Parser_::ParseExpr\("), ("L2", r"Parser_::ParseExprL2\("), ("L3", r"Parser_::ParseExprL3\("), ("L4", r"Parser_::ParseExprL4\("),
                       ("Atom", r"Parser_::ParseVarConstFunc\("), ("Cond", r"Parser_::ParseCond\("), ("CondL2", r"Parser_::ParseCondL2\("), ("CondElem", r"Parser_::ParseCondElem\("), ("Stat", r"Parser_::ParseStatement\("),
                       ("Const", r"Parser_::ParseConst\("), ("Var", r"Parser_::ParseVar\(")):
            hs.append((r"^(std::unique_ptr<Dal::Script::Node_, std::default_delete<Dal::Script::Node_>> )?Dal::Script::" + rx, self.h_sub(nm), nm))
        hs += [(r"Parser_::ParseFuncArg\(", self.h_args, "Args"), (r"Parser_::ParseDCF\(", self.h_dcf, "Dcf"), (r"NestBinary<", self.h_nest, "Nest"), (r"^__dynamic_cast$", self.h_cast, "cast")]
        hs += [(r"Parser_::Parse%s\(" % x, self.h_stat(x), x) for x in ("If", "Assign", "Pays")]
        hs += [(a.pattern, b, "strings") for a, b in STRINGS]
        return hs

    def h_char(self, ex, st, a, i, dem):
        if not (a[1].is_const() and a[1].c() == 0):
            raise Unsupported("character other than the first")
        k = self.text(ex, st, a[0], i)
        return [Result(st, "ret", Ptr(self.chars, k))]

    def literal(self, ex, st, p):
        s = ""
        while len(s) < 40:
            ex.quiet += 1
            try:
                b = ex.load(st, p.shift(len(s)), "i8")
            finally:
                ex.quiet -= 1
            if not b.is_const():
                raise Unsupported("text to compare with")
            if b.c() == 0:
                return s.upper()
            s += chr(b.c())
        raise Unsupported("long literal")

    def h_eq(self, ex, st, a, i, dem):
        w = self.literal(ex, st, a[1])
        k = self.text(ex, st, a[0], i)
        if w not in WID:
            raise Unsupported("unknown word " + w)
        f = TID(Z(k)) == WID[w]
        return [Result(st, "ret", as_bool(f if "operator==" in dem else z3.Not(f)))]

    def h_num(self, ex, st, a, i, dem):
        k = self.text(ex, st, a[0], i)
        s2 = st.fork()
        st.assume(z3.And([TID(Z(k)) != v for v in WID.values()]))
        st.ghost["numpos"] = k
        return [Result(st, "ret", NUM(Z(k))), Result(s2, "throw", None)]

    def h_copy(self, ex, st, a, i, dem):
        p = ex.prune(st, a[1])
        if isinstance(p, Ptr) and p.obj == self.tok:
            k = self.text(ex, st, p, i)
            ex.store(st, a[0], "ptr", self.at(k), i)
        else:
            try:
                ex.quiet += 1
                q = ex.load(st, p, "ptr", i)
            except Unsupported:
                q = None
            finally:
                ex.quiet -= 1
            if isinstance(q, Ptr) and q.obj == self.tok:
                ex.store(st, a[0], "ptr", q, i)
        return [Result(st, "ret", None)]

    def h_make(self, ex, st, a, i, dem):
        k = re.search(r"Make(?:Base)?Node<Dal::Script::(\w+)|make_unique<Dal::Script::(\w+)", dem)
        k = (k.group(1) or k.group(2)).replace("Node", "").rstrip("_")
        o = ex.new_obj(st, "node", 1024, True)
        ao = off(self.c, "args")
        for t in (0, 8, 16):
            o.cells[ao + t] = (8, "ptr", NULL)
        val = None
        if k in ("Var", "ConstVar"):
            val = self.text(ex, st, a[1], i)
        elif k == "Const":
            o.cells[off(self.c, "constval")] = (8, "f64", ex.load(st, a[1], "f64", i))
            val = st.ghost.get("numpos")
        st.ghost[("node", o.id)] = (k, val)
        st.ghost["made"] = st.ghost.get("made", ()) + (o.id,)
        ex.store(st, a[0], "ptr", Ptr(o.id, 0), i)
        return [Result(st, "ret", None)]

    def h_resize(self, ex, st, a, i, dem):
        for q, ob in st.heap.items():   # note how long the lists are when they are handed over
            for f, (sz, ty, p) in list(ob.cells.items()):
                if f == 8 and ty == "ptr" and isinstance(p, Ptr) and p.obj in getattr(self, "grown", {}):
                    st.ghost[("len", p.obj)] = p.off.div_exact(8)
        b = ex.load(st, a[0], "ptr", i)
        if b.obj is not None:
            raise Unsupported("resize of a vector that is not empty")
        o = ex.arr_obj(st, fresh_name("children"), P(a[1]), 8, {0: ("ptr", ABase(lambda k: NULL))})
        p = Ptr(o.id, 0)
        ex.store(st, a[0], "ptr", p, i)
        for t in (8, 16):
            ex.store(st, a[0].shift(t), "ptr", p.shift(P(a[1]).scale(8)), i)
        return [Result(st, "ret", None)]

    def take(self, ex, st, p, i):
        t = self.tid(ex, st, ex.load(st, p, "ptr", i))
        ex.store(st, p, "ptr", NULL, i)
        return t

    def h_bin(self, ex, st, a, i, dem):
        k = NODE[re.search(r"MakeBaseBinary<Dal::Script::Node(\w+?)_>", dem).group(1)]
        l = self.take(ex, st, a[1], i)
        r = self.take(ex, st, a[2], i)
        t = BIN(k, l, r)
        self.rule(st, k, l, r, t)
        ex.store(st, a[0], "ptr", self.tree(t), i)
        return [Result(st, "ret", None)]

    # binary rules: nonterminal, right operand's nonterminal, words
    RULES = {"Add": ("Expr", "L2", "+"), "Sub": ("Expr", "L2", "-"), "Multi": ("L2", "L3", "*"), "Div": ("L2", "L3", "/"), "Pow": ("L3", "L4", "^"), "Or": ("Cond", "CondL2", "OR"), "And": ("CondL2", "CondL3", "AND")}

    def rule(self, st, k, l, r, t):
        """an instance of the grammar's rule  N -> N op M, at the position where the right operand was just read"""
        nm = [x for x, y in NODE.items() if y == k][0]
        if nm in self.RULES and "last" in st.ghost:
            N, M, op = self.RULES[nm]
            f, to = (Z(x) for x in st.ghost["last"])
            i0 = Z(self.cur0)
            st.assume(z3.Implies(z3.And(D[N](i0, f - 1, l), TID(f - 1) == WID[op], D[M](f, to, r)), D[N](i0, to, t)))

    def advance(self, ex, st, pc, i, lo, end, strict=True):
        to = atom(z3.Int(fresh_name("to")))
        st.assume(z3.And(Z(to) > Z(lo) if strict else Z(to) >= Z(lo), Z(to) <= Z(end)))
        ex.store(st, pc, "ptr", self.at(to), i)
        return to

    def balanced(self, st, lo, to):
        """the words lo..to-1 are balanced"""
        st.assume(DEP(Z(to)) == DEP(Z(lo)))
        st.schemas.append(Schema(fresh_name("balanced"), [DEP], lambda k, lo=lo, to=to: z3.Implies(z3.And(Z(lo) <= k, k <= Z(to)), DEP(k) >= DEP(Z(lo)))))

    def calls(self, ex, st, nm, lo, i):
        ex.oblige(st, z3.Or(Z(lo) > Z(self.cur0), z3.BoolVal(RANK[nm] < RANK[self.me])), "the recursion ends: words were read, or the rule is a simpler one", i)

    def h_sub(self, nm):
        def h(ex, st, a, i, dem):
            if nm in ("Const", "Var"):
                sret, pc = a[0], a[2]
                lo = self.pos(ex, st, ex.load(st, pc, "ptr", i))
                ex.oblige(st, z3.And(Z(lo) >= 0, Z(lo) < Z(self.n)), "there is a word to read", i)
                end = lo.add(Poly.const(1))
            else:
                sret, pc, pe = a[0], a[2], a[3]
                lo, end = self.pos(ex, st, ex.load(st, pc, "ptr", i)), self.pos(ex, st, ex.load(st, pe, "ptr", i))
                ex.oblige(st, self.pre(Z(lo), Z(end)), "there is a word to read", i)
            self.calls(ex, st, nm, lo, i)
            thrown = st.fork()
            to = self.advance(ex, st, pc, i, lo, end)
            t = atom(z3.Int(fresh_name("tree")))
            N = {"ParenE": "L4", "ParenC": "CondL3", "Const": "Atom", "Var": "Atom"}.get(nm, nm)
            self.post(ex, st, nm, N, lo, to, end, Z(t))
            if nm in ("Const", "Var"):
                st.assume(z3.And(TID(Z(lo)) != WID["("], TID(Z(lo)) != WID[")"]))
            self.balanced(st, lo, to)
            st.ghost["last"] = (lo, to)
            st.ghost["subs"] = st.ghost.get("subs", ()) + ((nm, lo, to, end, t),)
            ex.store(st, sret, "ptr", self.tree(t), i)
            return [Result(st, "ret", None), Result(thrown, "throw", None)]
        return h

    STOP = {"Expr": "+-*/^", "L2": "*/^", "L3": "^", "L4": "", "Atom": ""}

    def post(self, ex, st, nm, N, lo, to, end, t):
        for f in self.posts(nm, N, lo, to, end, t):
            st.assume(f)

    def posts(self, nm, N, lo, to, end, t):
        lo, to, end = Z(lo), Z(to), Z(end)
        out = [D[N](lo, to, t)]
        if nm in self.STOP:
            for w in self.STOP[nm]:
                out.append(z3.Or(to == end, TID(to) != WID[w]))
        if nm in ("Cond", "CondL2"):
            out.append(z3.Or(to == end, TID(to) != WID["AND"]))
        if nm == "Cond":
            out.append(z3.Or(to == end, TID(to) != WID["OR"]))
        if nm == "Const":
            out.append(t == LEAF(NODE["Const"], lo))
        if nm == "Var":
            out += [z3.Not(reserved(lo)), letter(FIRST(lo)), t == LEAF(z3.If(ISCONST(lo), NODE["ConstVar"], NODE["Var"]), lo)]
        return out

    def h_match(self, ex, st, a, i, dem):
        lo, end = self.pos(ex, st, a[0]), self.pos(ex, st, ex.load(st, a[1], "ptr", i))
        ex.oblige(st, z3.And(Z(lo) >= 0, Z(lo) < Z(end), Z(end) <= Z(self.n)), "there is a word to match", i)
        thrown = st.fork()
        k = atom(z3.Int(fresh_name("close")))
        for f in self.match_post(Z(lo), Z(k), Z(end)):
            st.assume(f)
        st.schemas.append(Schema(fresh_name("inside"), [DEP], lambda q, lo=lo, k=k: z3.Implies(z3.And(Z(lo) < q, q <= Z(k)), DEP(q) > DEP(Z(lo) + 1) - 1)))
        st.ghost["close"] = k
        return [Result(st, "ret", self.at(k)), Result(thrown, "throw", None)]

    def match_post(self, lo, k, end):
        return [lo < k, k < end, TID(k) == WID[")"], DEP(k + 1) == DEP(lo + 1) - 1]

    def h_opt(self, ex, st, a, i, dem):
        lo, end = self.pos(ex, st, ex.load(st, a[1], "ptr", i)), self.pos(ex, st, ex.load(st, a[2], "ptr", i))
        ex.oblige(st, z3.And(Z(lo) <= Z(end), Z(end) <= Z(self.n), Z(lo) >= 0), "the optional part starts before the end", i)
        thrown = st.fork()
        to = self.advance(ex, st, a[1], i, lo, end, strict=False)
        self.balanced(st, lo, to)
        e = z3.Real(fresh_name("eps"))
        st.assume(z3.Implies(Z(to) == Z(lo), e == -1))
        st.assume(z3.Implies(Z(to) != Z(lo), z3.And(Z(to) >= Z(lo) + 2, e == NUM(Z(to) - 1))))
        st.ghost["opt"] = (lo, to, e)
        ex.store(st, a[3], "f64", e, i)
        return [Result(st, "ret", None), Result(thrown, "throw", None)]

    def h_build(self, ex, st, a, i, dem):
        b = re.search(r"Build(\w+)\(", dem).group(1)
        l, r = self.take(ex, st, a[2], i), self.take(ex, st, a[3], i)
        d = BIN(NODE["Sub"], l, r)
        k = {"Equal": "Equal", "Different": "Equal", "Superior": "Sup", "SupEqual": "SupEqual"}[b]
        t = CMP(NODE[k], d, rz(a[4]))
        if b == "Different":
            t = UN(NODE["Not"], t)
        ex.store(st, a[0], "ptr", self.tree(t), i)
        return [Result(st, "ret", None)]

    def h_args(self, ex, st, a, i, dem):
        """the argument list: m trees A(0..m-1); ends behind the closing parenthesis"""
        lo, end = self.pos(ex, st, ex.load(st, a[2], "ptr", i)), self.pos(ex, st, ex.load(st, a[3], "ptr", i))
        ex.oblige(st, z3.And(Z(lo) >= 0, Z(lo) <= Z(end), Z(end) <= Z(self.n)), "the argument list starts before the end", i)
        self.calls(ex, st, "Args", lo, i)
        thrown = st.fork()
        to = self.advance(ex, st, a[2], i, lo, end)
        self.balanced(st, lo, to)
        m = atom(z3.Int(fresh_name("nargs")))
        A = z3.Function(fresh_name("argument"), I_, I_)
        st.assume(z3.And(Z(m) >= 0, Z(m) < 10 ** 9, TID(Z(lo)) == WID["("], TID(Z(to) - 1) == WID[")"]))
        st.ghost["args"] = (lo, to, m, A)
        out = [Result(thrown, "throw", None)]
        for mm, cond in ((0, Z(m) == 0), (1, Z(m) == 1), (None, Z(m) >= 2)):
            s = st.fork()
            try:
                s.assume(cond)
            except Infeasible:
                continue
            n = P(mm) if mm is not None else m
            s.ghost["args"] = (lo, to, n, A)
            if mm == 0:
                for t in (0, 8, 16):
                    ex.store(s, a[0].shift(t), "ptr", NULL, i)
            else:
                o = ex.arr_obj(s, fresh_name("arguments"), n, 8, {0: ("ptr", ABase(lambda k, A=A: self.tree(P(A(Z(k))))))})
                p = Ptr(o.id, 0)
                ex.store(s, a[0], "ptr", p, i)
                for t in (8, 16):
                    ex.store(s, a[0].shift(t), "ptr", p.shift(n.scale(8)), i)
            out.append(Result(s, "ret", None))
        return out

    def h_nest(self, ex, st, a, i, dem):
        k = re.search(r"NestBinary<Dal::Script::Node(\w+?)_>", dem).group(1)
        if "args" not in st.ghost:
            raise Unsupported("nesting of other than an argument list")
        m = st.ghost["args"][2]
        b = ex.prune(st, ex.load(st, a[1], "ptr", i))
        ex.oblige(st, Z(m) >= 1, "there is an argument to start from", i)
        e = ex.load(st, b, "ptr", i)
        ex.oblige(st, self.tid(ex, st, e) == st.ghost["args"][3](0), "the arguments are nested in their order", i)
        t = atom(z3.Int(fresh_name("nested")))
        st.ghost["nest"] = (k, t, m)
        ex.store(st, a[0], "ptr", self.tree(t), i)
        return [Result(st, "ret", None)]

    def h_dcf(self, ex, st, a, i, dem):
        lo, end = self.pos(ex, st, ex.load(st, a[1], "ptr", i)), self.pos(ex, st, ex.load(st, a[2], "ptr", i))
        ex.oblige(st, z3.And(Z(lo) >= 0, Z(lo) <= Z(end), Z(end) <= Z(self.n)), "the argument list starts before the end", i)
        thrown = st.fork()
        to = self.advance(ex, st, a[1], i, lo, end)
        self.balanced(st, lo, to)
        v = z3.Real(fresh_name("dcf"))
        st.ghost["dcf"] = (lo, to, v)
        return [Result(st, "ret", v), Result(thrown, "throw", None)]

    def h_stat(self, nm):
        """IF, assignment, payment"""
        def h(ex, st, a, i, dem):
            sret, pc, pe = a[0], a[2], a[3]
            lo, end = self.pos(ex, st, ex.load(st, pc, "ptr", i)), self.pos(ex, st, ex.load(st, pe, "ptr", i))
            ex.oblige(st, z3.And(Z(lo) >= 0, Z(lo) < Z(end), Z(end) <= Z(self.n)), "there is a word to read", i)
            ex.oblige(st, TID(Z(lo)) == WID[{"If": "IF", "Assign": "=", "Pays": "PAYS"}[nm]], "the statement is of this kind", i)
            self.calls(ex, st, nm, lo, i)
            thrown = st.fork()
            l = self.take(ex, st, a[4], i) if nm != "If" else None
            to = self.advance(ex, st, pc, i, lo, end)
            self.balanced(st, lo, to)
            t = atom(z3.Int(fresh_name("tree")))
            if nm == "If":
                st.assume(D["Stat"](Z(lo), Z(to), Z(t)))
            else:
                e = z3.Int(fresh_name("rhs"))
                st.assume(z3.And(D["Expr"](Z(lo) + 1, Z(to), e), Z(t) == BIN(NODE[nm], l, e)))
            st.ghost["did"] = (nm, lo, to, l, t)
            ex.store(st, sret, "ptr", self.tree(t), i)
            return [Result(st, "ret", None), Result(thrown, "throw", None)]
        return h

    def h_cast(self, ex, st, a, i, dem):
        """dynamic_cast of what stands at a name to a variable"""
        p = ex.prune(st, a[0])
        if isinstance(p, Ptr) and p.obj != self.trees:
            return [Result(st, "ret", p)]
        if "subs" not in st.ghost or st.ghost["subs"][-1][0] != "Var":
            raise Unsupported("dynamic_cast")
        lo = st.ghost["subs"][-1][1]
        s2 = st.fork()
        out = []
        for s, f, v in ((st, z3.Not(ISCONST(Z(lo))), p), (s2, ISCONST(Z(lo)), NULL)):
            try:
                s.assume(f)
                out.append(Result(s, "ret", v))
            except Infeasible:
                pass
        return out

    # ---- running and judging
    def run(self, fn, *more):
        return self.c.call(r"^Q_%s\(" % fn, [self.p, self.r, self.pc, self.pe] + list(more))

    def out(self, st):
        return self.pos(self.c.ex, st, self.c.ex.load(st, self.pc, "ptr"))

    def result(self, st, r=None):
        return self.tid(self.c.ex, st, self.c.ex.load(st, r or self.r, "ptr"))

    def judge(self, r, nm, N, name=""):
        """postconditions of a parser function, as its callers assume them"""
        c, st = self.c, r.st
        if r.kind != "ret":
            return False
        to, t = self.out(st), self.result(st)
        c.ensure(st, z3.And(Z(to) > Z(self.cur0), Z(to) <= Z(self.end)), "words are read, and none behind the end")
        if nm not in ("Const", "Var"):
            q = c.int("q", 0, 10 ** 9)
            s = st.fork()
            c.ensure(s, DEP(Z(to)) == DEP(Z(self.cur0)), "the words read are balanced")
            s.assume(z3.And(Z(q) >= Z(self.cur0), Z(q) <= Z(to)))
            c.ensure(s, DEP(Z(q)) >= DEP(Z(self.cur0)), "the words read are balanced inside")
        return to, t


def scan(me, N, child, child_nt, ops):
    """N -> M | N op M, by a loop"""
    def f(c):
        def inv(ctx):
            st = ctx.st
            out = []
            ex = ctx.ex
            try:
                cur = w.pos(ex, st, ex.load(st, w.pc, "ptr"))
                tr = [w.tid(ex, st, ex.load(st, w.r, "ptr"))]
            except (Unsupported, Infeasible):
                return []
            out.append(("position in range", z3.And(Z(cur) > Z(w.cur0), Z(cur) <= Z(w.end))))
            out.append(("balanced", DEP(Z(cur)) == DEP(Z(w.cur0))))
            out.append(("balanced inside", All(lambda k: z3.Implies(z3.And(Z(w.cur0) <= Z(k), Z(k) <= Z(cur)), DEP(Z(k)) >= DEP(Z(w.cur0))), triggers=[DEP])))
            out.append(("derivation so far", D[N](Z(w.cur0), Z(cur), tr[0])))
            for x in CHILDSTOP.get(me, ""):
                out.append(("stops at " + x, z3.Or(Z(cur) == Z(w.end), TID(Z(cur)) != WID[x])))
            return out
        w = P4(c, me, invariants=[("Parse", inv)])
        # N -> M
        i0 = Z(w.cur0)
        old = w.h_sub

        c.st.schemas.append(Schema("a single operand", [D[child_nt]], lambda i, j, t: z3.Implies(D[child_nt](i, j, t), D[N](i, j, t))))
        got = 0
        for r in w.run(me):
            x = w.judge(r, me, N)
            if x:
                got += 1
                c.cover("accepted", r.st)
                to, t = x
                for k, g in enumerate(w.posts(me, N, w.cur0, to, w.end, t)):
                    c.ensure(r.st, g, ["the tree is the derivation of the words read", "everything that can be read is read (%d)" % k][k > 0])
        c.ensure(c.st, got > 0, "some text is accepted")
    f.__name__ = "rule_" + me
    return f


CHILDSTOP = {"Expr": "*/^", "L2": "^", "Cond": ["AND"]}
for _a in (("Expr", "Expr", "L2", "L2", "+-"), ("L2", "L2", "L3", "L3", "*/"), ("L3", "L3", "L4", "L4", "^"), ("Cond", "Cond", "CondL2", "CondL2", ["OR"]), ("CondL2", "CondL2", "ParenC", "CondL3", ["AND"])):
    contract("p")(scan(*_a))


@contract("p")
def rule_L4(c):
    w = P4(c, "L4")
    seen = set()
    for r in w.run("L4"):
        x = w.judge(r, "L4", "L4")
        if not x:
            continue
        to, t = x
        subs = r.st.ghost.get("subs", ())
        i0 = Z(w.cur0)
        if len(subs) == 1 and subs[0][0] == "L4":
            _, f, u, _, q = subs[0]
            c.cover("sign", r.st)
            seen.add("sign")
            for op, k in (("+", "UPlus"), ("-", "UMinus")):
                r.st.assume(z3.Implies(z3.And(TID(i0) == WID[op], D["L4"](i0 + 1, Z(u), Z(q))), D["L4"](i0, Z(u), UN(NODE[k], Z(q)))))
        else:
            seen.add("operand")
        c.ensure(r.st, D["L4"](i0, Z(to), t), "the tree is the derivation of the words read")
    c.ensure(c.st, seen == {"sign", "operand"}, "both forms are accepted")


def paren(me, inner, other, N):
    def f(c):
        w = P4(c, me)
        seen = set()
        for r in w.run(me):
            x = w.judge(r, me, N)
            if not x:
                continue
            to, t = x
            i0 = Z(w.cur0)
            for nm, f_, u, e, q in r.st.ghost.get("subs", ()):
                seen.add(nm)
                if nm == inner:
                    r.st.assume(z3.Implies(z3.And(TID(i0) == WID["("], D[inner](i0 + 1, Z(u), Z(q)), TID(Z(u)) == WID[")"]), D[N](i0, Z(u) + 1, Z(q))))
                    c.ensure(r.st, TID(i0) == WID["("], "parentheses are opened by a parenthesis")
                else:
                    r.st.assume(z3.Implies(D[other](i0, Z(u), Z(q)), D[N](i0, Z(u), Z(q))))
            c.ensure(r.st, D[N](i0, Z(to), t), "the tree is the derivation of the words read")
        c.ensure(c.st, seen == {inner, other}, "both forms are accepted")
    f.__name__ = "rule_" + me
    return f


contract("p")(paren("ParenE", "Expr", "Atom", "L4"))
contract("p")(paren("ParenC", "Cond", "CondElem", "CondL3"))


@contract("p")
def matching(c):
    """the closing parenthesis found is the one that matches"""
    w = P4(c, "Match", invariants=[("FindMatch", lambda ctx: match_inv(w, ctx))], pre=False)
    c.assume(icmp("lt", w.cur0, w.end))
    c.assume(TID(Z(w.cur0)) == WID["("])
    got = 0
    for r in c.call(r"^Q_match\(", [w.at(w.cur0), w.pe]):
        if r.kind != "ret":
            continue
        got += 1
        c.cover("found", r.st)
        k = w.pos(c.ex, r.st, r.val)
        lo = Z(w.cur0)
        for q, g in enumerate(w.match_post(lo, Z(k), Z(w.end))):
            c.ensure(r.st, g, "it closes this parenthesis (%d)" % q)
        q = c.int("q", 0, 10 ** 9)
        s = r.st.fork()
        s.assume(z3.And(Z(q) > lo, Z(q) <= Z(k)))
        c.ensure(s, DEP(Z(q)) > DEP(lo + 1) - 1, "no earlier one closes it")
    c.ensure(c.st, got > 0, "some parenthesis is matched")


def match_inv(w, ctx):
    out = []
    lo = Z(w.cur0)
    for v in ctx.ints():
        if v["ptr"] != w.tok:
            continue
        cur = Z(v["cur"])
        out.append(("%s in range" % v["name"], z3.And(cur > lo, cur <= Z(w.end))))
        out.append(("%s: open so far" % v["name"], All(lambda k, cur=cur: z3.Implies(z3.And(lo < Z(k), Z(k) < cur), DEP(Z(k)) >= DEP(lo + 1)), triggers=[DEP])))
        out.append(("%s: closed by the last" % v["name"], z3.Implies(DEP(cur) < DEP(lo + 1), z3.And(cur > lo + 1, TID(cur - 1) == WID[")"]))))
        for o in ctx.ints():
            if o["ptr"] is None:
                out.append(("%s counts, %s" % (o["name"], v["name"]), z3.And(Z(o["cur"]) >= 0, Z(o["cur"]) <= cur - lo, DEP(cur) == DEP(lo + 1) + Z(o["cur"]) - 1)))
    return out


@contract("p")
def rule_Const(c):
    w = P4(c, "Const", pre=False)
    c.assume(z3.And(Z(w.cur0) < Z(w.n), Z(w.end) == Z(w.cur0) + 1))
    got = 0
    for r in w.run("Const"):
        x = w.judge(r, "Const", "Atom")
        if x:
            got += 1
            to, t = x
            c.ensure(r.st, Z(to) == Z(w.cur0) + 1, "exactly one word is read")
            c.ensure(r.st, t == LEAF(NODE["Const"], Z(w.cur0)), "the constant stands for this word")
            p = c.ex.load(r.st, w.r, "ptr")
            c.ensure(r.st, rz(c.ex.load(r.st, p.shift(off(c, "constval")), "f64")) == NUM(Z(w.cur0)), "its value is the number written")
    c.ensure(c.st, got > 0, "some text is accepted")


def in_set(w, found):
    """std::set / std::map lookup: an iterator to the entry, or the end, by the answer for the word looked up"""
    def get(ex, st, who, what):
        k = ("lookup", who, what)
        if k not in st.ghost:
            st.ghost[k] = ex.new_obj(st, what, 64, True).id
        return Ptr(st.ghost[k], 0)

    def h_find(ex, st, a, i, dem):
        k = w.text(ex, st, a[1], i)
        e, q = get(ex, st, "set" if "std::set" in dem else "map", "end"), get(ex, st, "set" if "std::set" in dem else "map", "found")
        f = reserved(Z(k)) if "std::set" in dem else ISCONST(Z(k))
        s2 = st.fork()
        out = []
        for s, g, v in ((st, f, q), (s2, z3.Not(f), e)):
            try:
                s.assume(g)
                out.append(Result(s, "ret", v))
            except Infeasible:
                pass
        return out

    def h_end(ex, st, a, i, dem):
        return [Result(st, "ret", get(ex, st, "set" if "std::set" in dem else "map", "end"))]

    def h_at(ex, st, a, i, dem):
        k = w.text(ex, st, a[1], i)
        ex.oblige(st, ISCONST(Z(k)), "only the value of a named constant is read", i)
        o = ex.new_obj(st, "named value", 8, True)
        o.cells[0] = (8, "f64", NUM(Z(k)))
        return [Result(st, "ret", Ptr(o.id, 0))]
    return [(re.compile(r"^std::(set|map)<Dal::String_.*>::find\("), h_find), (re.compile(r"^std::(set|map)<Dal::String_.*>::end\("), h_end), (re.compile(r"^std::map<Dal::String_.*>::operator\[\]"), h_at)]


@contract("p")
def rule_Var(c):
    hook = [None]
    fwd = lambda k: (lambda ex, st, a, i, dem: hook[0][k][1](ex, st, a, i, dem))
    pats = [x[0] for x in in_set(None, None)]
    w = P4(c, "Var", extra=[(pats[k], fwd(k)) for k in range(3)], pre=False)
    hook[0] = in_set(w, None)
    c.assume(z3.And(Z(w.cur0) < Z(w.n), Z(w.end) == Z(w.cur0) + 1))
    got = 0
    for r in w.run("Var"):
        x = w.judge(r, "Var", "Atom")
        if x:
            got += 1
            c.cover("accepted", r.st)
            to, t = x
            c.ensure(r.st, Z(to) == Z(w.cur0) + 1, "exactly one word is read")
            for k, g in enumerate(w.posts("Var", "Atom", w.cur0, to, w.end, t)[1:]):
                c.ensure(r.st, g, ["no reserved word is a variable", "a name starts with a letter or underscore", "a named constant or a variable of this name"][k])
    c.ensure(c.st, got >= 2, "variables and named constants are accepted")


@contract("p")
def rule_Optional(c):
    def inv(ctx):
        out = []
        for v in ctx.ints():
            if v["ptr"] == w.tok:
                cur = Z(v["cur"])
                out.append(("position in range", z3.And(cur >= Z(w.cur0), cur <= Z(w.end))))
                out.append(("balanced", DEP(cur) == DEP(Z(w.cur0))))
                out.append(("balanced inside", All(lambda k, cur=cur: z3.Implies(z3.And(Z(w.cur0) <= Z(k), Z(k) <= cur), DEP(Z(k)) >= DEP(Z(w.cur0))), triggers=[DEP])))
                for e in ctx.reals():
                    out.append(("%s is the last number" % e["name"], z3.If(cur == Z(w.cur0), e["cur"] == -1, z3.And(cur >= Z(w.cur0) + 2, e["cur"] == NUM(cur - 1)))))
        return out
    w = P4(c, "Opt", invariants=[("ParseCondOptionals", inv)], pre=False)
    pe = c.obj("eps", {0: ("f64", c.real("before"))}, 8)
    got = 0
    for r in c.call(r"^Q_Opt\(", [w.p, w.pc, w.pe, pe]):
        if r.kind != "ret":
            continue
        got += 1
        to, e = w.out(r.st), rz(c.ex.load(r.st, pe, "f64"))
        lo = Z(w.cur0)
        c.ensure(r.st, z3.And(Z(to) >= lo, Z(to) <= Z(w.end)), "nothing behind the end is read")
        c.ensure(r.st, z3.If(Z(to) == lo, e == -1, z3.And(Z(to) >= lo + 2, e == NUM(Z(to) - 1))), "the smoothing width is the last one given, or none")
        c.ensure(r.st, z3.Or(Z(to) == Z(w.end), z3.And(TID(Z(to)) != WID[";"], TID(Z(to)) != WID[":"])), "all of it is read")
        c.ensure(r.st, DEP(Z(to)) == DEP(lo), "the words read are balanced")
        q = c.int("q", 0, 10 ** 9)
        s = r.st.fork()
        s.assume(z3.And(Z(q) >= lo, Z(q) <= Z(to)))
        c.ensure(s, DEP(Z(q)) >= DEP(lo), "the words read are balanced inside")
    c.ensure(c.st, got > 0, "some text is accepted")


def operands(c, w, *names):
    return [c.obj(n, {0: ("ptr", w.tree(c.int("tree_" + n, 0, 10 ** 9)))}, 8) for n in names]


def build(nm):
    def f(c):
        w = P4(c, "Build", drop=("Build",), pre=False)
        l, h = operands(c, w, "left", "right")
        tl, th = (w.tid(c.ex, c.st, c.ex.load(c.st, x, "ptr")) for x in (l, h))
        e = c.real("eps")
        for r in c.call(r"^Q_%s\(" % nm, [w.p, w.r, l, h, e]):
            c.ensure(r.st, r.kind == "ret", "never throws")
            t = w.result(r.st)
            k = {"Equal": "Equal", "Different": "Equal", "Superior": "Sup", "SupEqual": "SupEqual"}[nm]
            want = CMP(NODE[k], BIN(NODE["Sub"], tl, th), e)
            c.ensure(r.st, t == (UN(NODE["Not"], want) if nm == "Different" else want), "the comparison of left minus right with zero, with the width given")
    f.__name__ = "build_" + nm
    return f


for _n in ("Equal", "Different", "Superior", "SupEqual"):
    contract("p")(build(_n))


@contract("p")
def build_binary(c):
    w = P4(c, "Bin", drop=("Bin",), pre=False)
    l, h = operands(c, w, "left", "right")
    tl, th = (w.tid(c.ex, c.st, c.ex.load(c.st, x, "ptr")) for x in (l, h))
    for r in c.call(r"^Q_Bin\(", [w.r, l, h]):
        c.ensure(r.st, r.kind == "ret", "never throws")
        c.ensure(r.st, w.result(r.st) == BIN(NODE["Add"], tl, th), "a node of this kind with the left and the right operand")


def nest(kind_):
    def f(c):
        def inv(ctx):
            out = []
            for v in ctx.ints():
                if v["ptr"] is None:
                    try:
                        t = w.tid(ctx.ex, ctx.st, ctx.ex.load(ctx.st, w.r, "ptr"))
                    except Unsupported:
                        continue
                    i = Z(v["cur"])
                    out.append(("%s: nested so far" % v["name"], t == N(i)))
                    for oid, key in ctx.arrays:
                        out.append(("%s: the rest is untouched" % v["name"], All(lambda k, i=i, oid=oid, key=key: z3.Implies(z3.And(i <= Z(k), Z(k) < Z(m)), w.tid(ctx.ex, ctx.st, ctx.cur(oid, key, k)) == A(Z(k))))))
            return out
        w = P4(c, "Nest", drop=("Nest",), invariants=[("NestBinary", inv)], pre=False)
        A = z3.Function("argument", I_, I_)
        N = z3.Function("nest", I_, I_)
        m = c.int("arguments", 1, 10 ** 6)
        h, _, _ = c.vector("args", m, "ptr", fn=lambda k: w.tree(P(A(Z(k)))))
        c.st.schemas.append(Schema("trees", [A], lambda k: A(k) >= 0))
        c.assume(N(1) == A(0))
        c.st.schemas.append(Schema("nest", [N], lambda k: N(k + 1) == BIN(NODE[kind_], N(k), A(k))))
        for r in c.call(r"^Q_Nest%s\(" % kind_, [w.r, h]):
            c.ensure(r.st, r.kind == "ret", "never throws")
            c.ensure(r.st, w.result(r.st) == N(Z(m)), "all arguments, nested from the left")
    f.__name__ = "nest_" + kind_
    return f


contract("p")(nest("Max"))
contract("p")(nest("Min"))


def instruction(nm):
    def f(c):
        w = P4(c, nm)
        (l,) = operands(c, w, "target")
        tl = w.tid(c.ex, c.st, c.ex.load(c.st, l, "ptr"))
        c.assume(TID(Z(w.cur0)) == WID[{"Assign": "=", "Pays": "PAYS"}[nm]])
        got = 0
        for r in w.run(nm, l):
            x = w.judge(r, nm, "Stat")
            if x:
                got += 1
                to, t = x
                (s,) = r.st.ghost["subs"]
                c.ensure(r.st, z3.And(z3.BoolVal(s[0] == "Expr"), Z(s[1]) == Z(w.cur0) + 1, Z(s[2]) == Z(to), t == BIN(NODE[nm], tl, Z(s[4]))), "the target and the expression behind the word")
        c.ensure(c.st, got > 0, "some text is accepted")
    f.__name__ = "rule_" + nm
    return f


contract("p")(instruction("Assign"))
contract("p")(instruction("Pays"))


@contract("p")
def rule_Statement(c):
    w = P4(c, "Stat", pre=False)
    c.assume(icmp("lt", w.cur0, w.end))
    seen = set()
    i0 = Z(w.cur0)
    for r in w.run("Stat"):
        x = w.judge(r, "Stat", "Stat")
        if x:
            to, t = x
            nm, lo, to2, l, t2 = r.st.ghost["did"]
            seen.add(nm)
            c.cover(nm, r.st)
            c.ensure(r.st, z3.And(Z(to) == Z(to2), t == Z(t2)), "the statement read")
            if nm == "If":
                c.ensure(r.st, z3.And(Z(lo) == i0, TID(i0) == WID["IF"]), "an IF statement starts with IF")
            else:
                c.ensure(r.st, z3.And(Z(lo) == i0 + 1, l == LEAF(NODE["Var"], i0), z3.Not(reserved(i0)), z3.Not(ISCONST(i0))), "the target is the variable named, never a constant or reserved word")
    c.ensure(c.st, seen == {"If", "Assign", "Pays"}, "all kinds of statements are accepted")


@contract("p")
def rule_Comparison(c):
    w = P4(c, "CondElem")
    seen = set()
    i0 = Z(w.cur0)
    for r in w.run("CondElem"):
        x = w.judge(r, "CondElem", "CondElem")
        if not x:
            continue
        to, t = x
        c.cover("comparison", r.st)
        a, b = r.st.ghost["subs"]
        lo, o2, e = r.st.ghost["opt"]
        c.ensure(r.st, z3.And(z3.BoolVal(a[0] == b[0] == "Expr"), Z(a[1]) == i0, Z(b[1]) == Z(a[2]) + 1, Z(lo) == Z(b[2]), Z(o2) == Z(to)), "expression, comparison, expression, width")
        p, q = Z(a[4]), Z(b[4])
        op = TID(Z(a[2]))
        S = lambda k, x, y: CMP(NODE[k], BIN(NODE["Sub"], x, y), e)
        tab = [("=", S("Equal", p, q)), ("!=", UN(NODE["Not"], S("Equal", p, q))), ("<", S("Sup", q, p)), (">", S("Sup", p, q)), ("<=", S("SupEqual", q, p)), (">=", S("SupEqual", p, q))]
        c.ensure(r.st, z3.Or([z3.And(op == WID[k], t == v) for k, v in tab]), "the comparison written, between the left and the right expression")
        seen |= {k for k, v in tab if c.ex.entails(r.st, op == WID[k])}
    c.ensure(c.st, len(seen) == 6, "all six comparisons are accepted")


@contract("p")
def rule_Atom(c):
    w = P4(c, "Atom", extra=[])
    i0 = Z(w.cur0)
    seen = set()
    FN = {"LOG": "Log", "SQRT": "Sqrt", "EXP": "Exp"}
    for r in w.run("Atom"):
        x = None
        if r.kind != "ret":
            continue
        st = r.st
        to = w.out(st)
        c.ensure(st, z3.And(Z(to) > i0, Z(to) <= Z(w.end)), "words are read, and none behind the end")
        q = c.int("q", 0, 10 ** 9)
        c.ensure(st, DEP(Z(to)) == DEP(i0), "the words read are balanced")
        s = st.fork()
        s.assume(z3.And(Z(q) >= i0, Z(q) <= Z(to)))
        c.ensure(s, DEP(Z(q)) >= DEP(i0), "the words read are balanced inside")
        subs, args, nest_, dcf = (st.ghost.get(k) for k in ("subs", "args", "nest", "dcf"))
        if nest_:
            k, t, m = nest_
            seen.add(k)
            c.ensure(st, z3.And(TID(i0) == WID[k.upper()], Z(m) >= 2, Z(m) <= 1000, Z(args[0]) == i0 + 1, Z(args[1]) == Z(to), w.result(st) == Z(t)), "MIN and MAX of all their arguments")
        elif dcf:
            seen.add("DCF")
            p = c.ex.load(st, w.r, "ptr")
            c.ensure(st, z3.And(TID(i0) == WID["DCF"], Z(dcf[0]) == i0 + 1, Z(dcf[1]) == Z(to), z3.BoolVal(st.ghost[("node", p.obj)][0] == "Const"), rz(c.ex.load(st, p.shift(off(c, "constval")), "f64")) == dcf[2]), "a day count fraction is a constant")
        elif args:
            lo, u, m, A = args
            t = w.result(st)
            alts = [z3.And(TID(i0) == WID[f], Z(m) == 1, t == UN(NODE[k], A(0))) for f, k in FN.items()]
            alts.append(z3.And(TID(i0) == WID["SPOT"], Z(m) == 0, t == LEAF(NODE["Spot"], 0)))
            c.ensure(st, z3.And(Z(lo) == i0 + 1, Z(u) == Z(to), z3.Or(alts)), "a function of exactly its arguments")
            seen |= {f for f in list(FN) + ["SPOT"] if c.ex.entails(st, TID(i0) == WID[f])}
        else:
            ((nm, lo, u, e, t),) = subs
            seen.add(nm)
            c.ensure(st, z3.And(Z(lo) == i0, Z(u) == Z(to), w.result(st) == Z(t)), "one number or name")
            c.ensure(st, digit(FIRST(i0)) if nm == "Const" else z3.Not(digit(FIRST(i0))), "numbers start with a digit or point")
    c.ensure(c.st, seen == {"Max", "Min", "DCF", "LOG", "SQRT", "EXP", "SPOT", "Const", "Var"}, "all operands are accepted")


UP = r"std::unique_ptr<Dal::Script::Node_, std::default_delete<Dal::Script::Node_>>"


def lists(w):
    """std::vector of nodes (trusted library): appending moves the node behind the last one; ghost arrays note the words each was read from"""
    V = r"^std::vector<%s, std::allocator<%s>>::" % (UP, UP)

    def new(ex, st, a, i, dem):
        o = ex.arr_obj(st, fresh_name("grown"), Poly.const(10 ** 9), 8, {0: ("ptr", ABase(lambda k: NULL))})
        g = ex.arr_obj(st, fresh_name("read_from"), Poly.const(10 ** 9), 8, {0: ("i64", ABase(lambda k: Poly.const(0)))})
        h = ex.arr_obj(st, fresh_name("read_to"), Poly.const(10 ** 9), 8, {0: ("i64", ABase(lambda k: Poly.const(0)))})
        w().grown[o.id] = (g.id, h.id)
        st.ghost["lists"] = st.ghost.get("lists", ()) + (o.id,)
        for t in (0, 8, 16):
            ex.store(st, a[0].shift(t), "ptr", Ptr(o.id, 0) if t < 16 else Ptr(o.id, 8 * 10 ** 9), i)
        return [Result(st, "ret", None)]

    def push(ex, st, a, i, dem):
        e = ex.load(st, a[0].shift(8), "ptr", i)
        g, h = w().grown[e.obj]
        t = w().take(ex, st, a[1], i)
        lo, to = st.ghost["last"]
        ex.store(st, Ptr(g, e.off), "i64", lo, i)
        ex.store(st, Ptr(h, e.off), "i64", to, i)
        ex.store(st, e, "ptr", w().tree(t), i)
        ex.store(st, a[0].shift(8), "ptr", e.shift(8), i)
        return [Result(st, "ret", e)]
    return [(re.compile(V + r"vector\(\)"), new), (re.compile(V + r"(push_back|emplace_back(<.*>)?)\("), push), (re.compile(V + r"~vector\(\)"), lambda ex, st, a, i, dem: [Result(st, "ret", None)])]


@contract("p")
def rule_Arguments(c):
    def inv(ctx):
        out = []
        st, ex = ctx.st, ctx.ex
        try:
            cur = Z(w.pos(ex, st, ex.load(st, w.pc, "ptr")))
        except Unsupported:
            return out
        lo = Z(w.cur0)
        close = Z(st.ghost["close"])
        out.append(("position in range", z3.And(cur > lo, cur <= close)))
        out.append(("balanced", DEP(cur) == DEP(lo + 1)))
        for v in ctx.ints():
            if v["ptr"] in w.grown:
                g, h = w.grown[v["ptr"]]
                m = Z(v["cur"])
                F = lambda k, g=g: Z(ctx.cur(g, (0, "i64p"), P(k)))
                T = lambda k, h=h: Z(ctx.cur(h, (0, "i64p"), P(k)))
                A = lambda k, o=v["ptr"]: w.tid(ex, st, ctx.cur(o, (0, "i64p"), P(k)), 1)
                out.append(("%s counts" % v["name"], z3.And(m >= 0, m < cur - lo + 1)))
                out.append(("%s: start" % v["name"], z3.Implies(m == 0, cur == lo + 1)))
                out.append(("%s: the last read" % v["name"], z3.Implies(m > 0, z3.And(lo < T(m - 1), z3.Or(z3.And(cur == T(m - 1), cur == close), z3.And(cur == T(m - 1) + 1, TID(cur - 1) == WID[","]))))))
                out.append(("%s: the first read" % v["name"], z3.Implies(m > 0, F(0) == lo + 1)))
                out.append(("%s: each is an expression" % v["name"], All(lambda k, m=m, F=F, T=T, A=A: z3.Implies(z3.And(0 <= Z(k), Z(k) < m), D["Expr"](F(Z(k)), T(Z(k)), A(Z(k)))))))
                out.append(("%s: separated by commas" % v["name"], All(lambda k, m=m, F=F, T=T: z3.Implies(z3.And(0 <= Z(k), Z(k) < m - 1), z3.And(TID(T(Z(k))) == WID[","], F(Z(k) + 1) == T(Z(k)) + 1)))))
        return out
    w = None
    extra = lists(lambda: w)
    w = P4(c, "Args", extra=extra, invariants=[("ParseFuncArg", inv)], pre=False)
    w.grown = {}
    h = c.obj("args", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
    got = 0
    for r in c.call(r"^Q_Args\(", [w.p, h, w.pc, w.pe]):
        if r.kind != "ret":
            continue
        got += 1
        st, lo = r.st, Z(w.cur0)
        to = Z(w.out(st))
        c.ensure(st, z3.And(to > lo, to <= Z(w.end), TID(lo) == WID["("], TID(to - 1) == WID[")"]), "from the opening parenthesis to the one that closes it")
        c.ensure(st, DEP(to) == DEP(lo), "the words read are balanced")
        q = c.int("q", 0, 10 ** 9)
        s = st.fork()
        s.assume(z3.And(Z(q) >= lo, Z(q) <= to))
        c.ensure(s, DEP(Z(q)) >= DEP(lo), "the words read are balanced inside")
        b, e = (c.ex.load(st, h.shift(t), "ptr") for t in (0, 8))
        g, hh = w.grown[b.obj]
        m = Z(e.off.div_exact(8))
        ld = lambda o, k, ty: c.ex.load(st, Ptr(o, P(k).scale(8)), ty)
        k = c.int("k", 0, 10 ** 9)
        c.ex.quiet += 1
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < m))
        F, T = Z(ld(g, k, "i64")), Z(ld(hh, k, "i64"))
        c.ensure(s, D["Expr"](F, T, w.tid(c.ex, s, ld(b.obj, k, "ptr"))), "every argument is the derivation of its words")
        F0 = Z(ld(g, P(0), "i64"))
        c.ensure(s, F0 == lo + 1, "the first one starts behind the parenthesis")
        Tm = Z(ld(hh, P(m - 1), "i64"))
        c.ensure(s, z3.Or(Tm == to - 1, z3.And(Tm == to - 2, TID(Tm) == WID[","])), "the last one ends at the parenthesis")
        s.assume(Z(k) < m - 1)
        F1 = Z(ld(g, P(Z(k) + 1), "i64"))
        c.ensure(s, z3.And(TID(T) == WID[","], F1 == T + 1), "a comma stands between two arguments and nothing else")
        c.ex.quiet -= 1
    c.ensure(c.st, got > 0, "some text is accepted")


@contract("p")
def rule_If(c):
    def facts(ex, st, cur, sel, n):
        """what the two lists of statements hold; n(j): length of list j"""
        out = []
        ls = st.ghost.get("lists", ())
        lo = Z(w.cur0)
        start = Z(st.ghost["subs"][0][2]) + 1
        pos = start
        for j, o in enumerate(ls):
            m = n(o)
            if m is None:
                return out, None, None
            g, h = w.grown[o]
            F, T, A = (lambda k, g=g: Z(sel(g, k))), (lambda k, h=h: Z(sel(h, k))), (lambda k, o=o: w.tid(ex, st, sel(o, k), 1))
            nm = "list %d" % j
            out.append((nm + ": each is a statement", All(lambda k, m=m, F=F, T=T, A=A: z3.Implies(z3.And(0 <= Z(k), Z(k) < m), D["Stat"](F(Z(k)), T(Z(k)), A(Z(k)))))))
            out.append((nm + ": one behind the other", All(lambda k, m=m, F=F, T=T: z3.Implies(z3.And(0 <= Z(k), Z(k) < m - 1), F(Z(k) + 1) == T(Z(k))))))
            out.append((nm + ": from its first word", z3.Implies(m > 0, F(0) == (start if j == 0 else pos + 1))))
            pos2 = z3.If(m > 0, T(m - 1), start if j == 0 else pos + 1)
            out.append((nm + ": size", z3.And(m >= 0, m <= cur)))
            out.append((nm + ": ends in range", z3.And(pos2 > lo, pos2 <= Z(w.end))))
            pos = pos2 if j == 0 else pos
        return out, start, (pos, pos2 if ls else None)

    def inv(ctx):
        st, ex = ctx.st, ctx.ex
        try:
            cur = Z(w.pos(ex, st, ex.load(st, w.pc, "ptr")))
        except Unsupported:
            return []
        lo = Z(w.cur0)
        sel = lambda o, k: ctx.cur(o, (0, "i64p"), P(k))
        lens = {v["ptr"]: Z(v["cur"]) for v in ctx.ints() if v["ptr"] in w.grown}

        def n(o):
            if o in lens:
                return lens[o]
            for q, b in st.heap.items():
                if b.cells and not b.stride:
                    for f, (sz, ty, p) in b.cells.items():
                        if f == 8 and ty == "ptr" and isinstance(p, Ptr) and p.obj == o:
                            return Z(p.off.div_exact(8))
            return None
        out, start, ps = facts(ex, st, cur, sel, n)
        if start is None:
            return []
        out = [x for x in out if any(x[0].startswith("list %d:" % j) and o in lens for j, o in enumerate(st.ghost.get("lists", ())))]
        ls = st.ghost.get("lists", ())
        moves = any(v["ptr"] == w.tok for v in ctx.ints())
        if moves:
            out = [("position in range", z3.And(cur > lo, cur <= Z(w.end))), ("balanced", DEP(cur) == DEP(lo)),
               ("balanced inside", All(lambda k: z3.Implies(z3.And(lo <= Z(k), Z(k) <= cur), DEP(Z(k)) >= DEP(lo)), triggers=[DEP]))] + out
        if moves:
            out.append(("a word of the IF follows", z3.And(cur < Z(w.end), z3.Or(TID(cur) == WID["ELSE"], TID(cur) == WID["END"]))))
        if len(ls) == 1 and moves:
            out.append(("reads the statements", cur == ps[0]))
        if len(ls) == 2:
            if moves:
                out.append(("reads the other statements", z3.And(cur == ps[1], TID(ps[0]) == WID["ELSE"])))
            m1, m2 = n(ls[0]), n(ls[1])
            for v in ctx.ints():
                if v["ptr"] is None:
                    e = Z(v["cur"])
                    if moves:
                        out.append(("%s: where the other statements start" % v["name"], z3.Or(z3.And(e == -1, m2 == 0, cur == ps[0]), z3.And(e == m1 + 1, TID(ps[0]) == WID["ELSE"], cur == ps[1], TID(cur) == WID["END"]))))
                    i = e
                    for oid, key in ctx.arrays:
                        T = lambda k, oid=oid, key=key: w.tid(ex, st, ctx.cur(oid, key, P(k)), 1)
                        T0 = lambda k, oid=oid, key=key: w.tid(ex, ctx.st0, ctx.old(oid, key, P(k)), 1)
                        if oid in ls:
                            out.append(("%s: the rest is untouched" % v["name"], All(lambda k, T=T, T0=T0, i=i: z3.Implies(Z(k) >= i, T(Z(k)) == T0(Z(k))))))
                        elif oid not in [x for q in w.grown.values() for x in q]:
                            for j, q in enumerate(ls):
                                M = n(q)
                                base = 1 if j == 0 else m1 + 1
                                S0 = lambda k, q=q: w.tid(ex, ctx.st0, ctx.old(q, (0, "i64p"), P(k)), 1)
                                out.append(("%s: moved so far, list %d" % (v["name"], j), z3.And(i >= 0, i <= M)))
                                out.append(("%s: the moved ones, list %d" % (v["name"], j), All(lambda k, T=T, S0=S0, base=base, i=i: z3.Implies(z3.And(base <= Z(k), Z(k) < base + i), T(Z(k)) == S0(Z(k) - base)))))
                                out.append(("%s: what stands before, list %d" % (v["name"], j), All(lambda k, T=T, T0=T0, base=base: z3.Implies(z3.And(0 <= Z(k), Z(k) < base), T(Z(k)) == T0(Z(k))))))
        return out
    w = None
    w = P4(c, "If", extra=lists(lambda: w), invariants=[("ParseIf", inv)], pre=False)
    w.grown = {}
    c.assume(z3.And(Z(w.cur0) < Z(w.end), TID(Z(w.cur0)) == WID["IF"]))
    seen = set()
    for r in w.run("If"):
        if r.kind != "ret":
            continue
        st, lo = r.st, Z(w.cur0)
        to = Z(w.out(st))
        c.ensure(st, z3.And(to > lo, to <= Z(w.end), TID(to - 1) == WID["END"]), "from IF to its END")
        c.ensure(st, DEP(to) == DEP(lo), "the words read are balanced")
        q = c.int("q", 0, 10 ** 9)
        s = st.fork()
        s.assume(z3.And(Z(q) >= lo, Z(q) <= to))
        c.ensure(s, DEP(Z(q)) >= DEP(lo), "the words read are balanced inside")
        ex = c.ex
        p = ex.load(st, w.r, "ptr")
        c.ensure(st, ("node", p.obj) in st.ghost and st.ghost[("node", p.obj)][0] == "If", "an IF node")
        ao = off(c, "args")
        b, e = (ex.load(st, p.shift(ao + t), "ptr") for t in (0, 8))
        fe = Z(ex.load(st, p.shift(off(c, "first")), "i32"))
        nm, f, u, _, t = st.ghost["subs"][0]
        start = Z(u) + 1
        c.ensure(st, z3.And(z3.BoolVal(nm == "Cond"), Z(f) == lo + 1, TID(Z(u)) == WID["THEN"]), "IF, a condition, THEN")
        child = lambda k: w.tid(ex, st, ex.load(st, b.shift(P(k).scale(8)), "ptr"), 1)
        ex.quiet += 1
        c.ensure(st, child(P(0)) == Z(t), "the condition is the first child")
        l1, l2 = st.ghost["lists"]
        ld = lambda o, k: Z(ex.load(st, Ptr(o, P(k).scale(8)), "i64"))
        m1, m2 = (st.ghost[("len", x)] for x in (l1, l2))
        m1, m2 = (Z(x) for x in (m1, m2))
        c.ensure(st, Z(e.off.add(b.off, -1)) == 8 * (1 + m1 + m2), "one child for the condition and one for each statement")
        F1, T1, F2, T2 = ((lambda k, g=g: ld(g, k)) for g in w.grown[l1] + w.grown[l2])
        p1 = z3.If(m1 > 0, T1(P(m1 - 1)), start)
        p2 = z3.If(m2 > 0, T2(P(m2 - 1)), p1 + 1)
        c.ensure(st, z3.Or(z3.And(fe == -1, m2 == 0, to - 1 == p1), z3.And(fe == m1 + 1, TID(p1) == WID["ELSE"], to - 1 == p2)), "the other statements start where ELSE stands, or there are none")
        k = c.int("k", 0, 10 ** 9)
        for m, F, T, base, name in ((m1, F1, T1, z3.IntVal(1), "statement"), (m2, F2, T2, m1 + 1, "other statement")):
            s = st.fork()
            s.assume(z3.And(Z(k) >= 0, Z(k) < m))
            c.ensure(s, D["Stat"](F(k), T(k), child(P(base + Z(k)))), "every %s is a child, in order, with its words" % name)
            c.ensure(s, F(P(0)) == (start if m is m1 else p1 + 1), "the first %s starts the block" % name)
            s.assume(Z(k) < m - 1)
            c.ensure(s, F(P(Z(k) + 1)) == T(k), "no word stands between one %s and the next" % name)
        ex.quiet -= 1
        seen.add("if")
    c.ensure(c.st, len(seen) > 0, "some text is accepted")


@contract("p")
def rule_Text(c):
    """the whole text: statements, one behind the other, from the first word to the last"""
    def h_words(ex, st, a, i, dem):
        for t, k in ((0, Poly.const(0)), (8, w.n), (16, w.n)):
            ex.store(st, a[0].shift(t), "ptr", w.at(k), i)
        return [Result(st, "ret", None)]

    def inv(ctx):
        st, ex, out = ctx.st, ctx.ex, []
        for v in ctx.ints():
            if v["ptr"] == w.tok:
                cur = Z(v["cur"])
                out.append(("position in range", z3.And(cur >= 0, cur <= Z(w.n))))
                for u in ctx.ints():
                    if u["ptr"] in w.grown:
                        g, h = w.grown[u["ptr"]]
                        m = Z(u["cur"])
                        F = lambda k, g=g: Z(ctx.cur(g, (0, "i64p"), P(k)))
                        T = lambda k, h=h: Z(ctx.cur(h, (0, "i64p"), P(k)))
                        A = lambda k, o=u["ptr"]: w.tid(ex, st, ctx.cur(o, (0, "i64p"), P(k)), 1)
                        out.append(("counts", z3.And(m >= 0, m <= cur)))
                        out.append(("start", z3.Implies(m == 0, cur == 0)))
                        out.append(("first", z3.Implies(m > 0, z3.And(F(0) == 0, cur == T(m - 1)))))
                        out.append(("each", All(lambda k, m=m, F=F, T=T, A=A: z3.Implies(z3.And(0 <= Z(k), Z(k) < m), D["Stat"](F(Z(k)), T(Z(k)), A(Z(k)))))))
                        out.append(("contiguous", All(lambda k, m=m, F=F, T=T: z3.Implies(z3.And(0 <= Z(k), Z(k) < m - 1), F(Z(k) + 1) == T(Z(k))))))
        return out
    w = None
    w = P4(c, "Text", extra=lists(lambda: w) + [(re.compile(r"^Dal::Script::Tokenize\("), h_words), (re.compile(r"^std::vector<Dal::String_, std::allocator<Dal::String_>>::~vector\("), lambda ex, st, a, i, dem: [Result(st, "ret", None)])], invariants=[("Parse", inv)], pre=False)
    w.grown = {}
    w.cur0 = P(-1)
    h = c.obj("event", {0: ("ptr", NULL), 8: ("ptr", NULL), 16: ("ptr", NULL)}, 24)
    txt = c.obj("text", {}, 32)
    got = 0
    for r in c.call(r"^Q_Parse\(", [w.p, h, txt]):
        if r.kind != "ret":
            continue
        got += 1
        st, ex = r.st, c.ex
        b, e = (ex.load(st, h.shift(t), "ptr") for t in (0, 8))
        g, hh = w.grown[b.obj]
        m = Z(e.off.div_exact(8))
        ld = lambda o, k, ty: ex.load(st, Ptr(o, P(k).scale(8)), ty)
        ex.quiet += 1
        k = c.int("k", 0, 10 ** 9)
        c.ensure(st, m > 0, "a text with words has statements")
        c.ensure(st, Z(ld(g, P(0), "i64")) == 0, "the first statement starts at the first word")
        c.ensure(st, Z(ld(hh, P(m - 1), "i64")) == Z(w.n), "the last statement ends at the last word")
        s = st.fork()
        s.assume(z3.And(Z(k) >= 0, Z(k) < m))
        T = Z(ld(hh, k, "i64"))
        c.ensure(s, D["Stat"](Z(ld(g, k, "i64")), T, w.tid(ex, s, ld(b.obj, k, "ptr"), 1)), "every entry is the derivation of its words")
        s.assume(Z(k) < m - 1)
        c.ensure(s, Z(ld(g, P(Z(k) + 1), "i64")) == T, "no word stands between two statements")
        ex.quiet -= 1
    c.ensure(c.st, got > 0, "some text is accepted")
