from stdc import *
ID = "V01"
META = dict(
    title="A simulation is the sum over its paths, whatever the threads and batches",
    statement="The simulated aggregate equals the sum, over path numbers 0 to n-1 of one random stream, of the script's payoff on the path generated from the draws with that number: each path once, none missing, whichever thread runs which batch, and the same for the interpreted and the compiled script. With sensitivities requested, the value is the same sum and each sensitivity is the average over the same paths of the payoff's derivative, listed under the model's parameter names followed by the script's constants. A simulation never lets one path's or one batch's state leak into another.",
    quantifier=dict(over=["inputs", "schedules", "configurations"], text="every number of paths, every number of threads, every assignment of batches to threads and order of execution, interpreted or compiled"),
    why_tests_cant="Tests run one machine's thread count with path numbers that happen to fit the batches and compare with loose Monte Carlo tolerances; a path dropped or repeated at a batch boundary changes the estimate by less than the tolerance.",
    anchors=dict(files=["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/concurrency/threadpool.hpp", "dal/script/event.hpp"],
                 mechanism=["splitting into batches @ dal/script/simulation.hpp MCSimulation", "work of a batch @ dal/script/simulation.hpp task lambda", "aggregation @ dal/script/simulation.hpp Accumulate", "sensitivities @ dal/script/simulation.hpp InitModel4ParallelAAD"]),
    level_note="both simulations by contract for every path and thread number, every batch on any thread after anything that thread did before; the thread pool itself is trusted")
STUBS = '''#include <dal/platform/platform.hpp>
#include <dal/script/simulation.hpp>
using namespace Dal; using namespace Dal::Script; using namespace Dal::AAD;
struct StubModel_ : Model_<double> {
    void Allocate(const Vector_<>&, const Vector_<SampleDef_>&) override; void Init(const Vector_<>&, const Vector_<SampleDef_>&) override;
    size_t SimDim() const override; void GeneratePath(const Vector_<>&, Scenario_<double>*) const override; std::unique_ptr<Model_<double>> Clone() const override;
    const Vector_<double*>& Parameters() const override; const Vector_<String_>& ParameterLabels() const override; };
struct StubRandom_ : Random_ { void FillUniform(Vector_<>*) override; void FillNormal(Vector_<>*) override; Random_* Clone() const override; size_t NDim() const override; void SkipTo(size_t) override; };
void StubModel_::Allocate(const Vector_<>&, const Vector_<SampleDef_>&) {}
void StubRandom_::FillUniform(Vector_<>*) {}
Model_<double>* NewModel() { return new StubModel_; }
Random_* NewRandom() { return new StubRandom_; }
void Go(SimResults_* r, const ScriptProduct_& p, const Handle_<ModelData_>& m, size_t n, const String_& s, bool b, bool c) { new (r) SimResults_(MCSimulation<double>(p, m, n, s, b, c, -1, 0.01)); }
unsigned long S_eval() { return sizeof(Evaluator_<double>); }
unsigned long S_state() { return sizeof(EvalState_<double>); }
unsigned long S_product() { return sizeof(ScriptProduct_); }
void* O_agg(void* p) { return (void*)&((SimResults_*)p)->aggregated_; }
void* O_pay(void* p) { return (void*)&((ScriptProduct_*)p)->payoffIdx_; }
'''
STUBS_AAD = STUBS.replace("Model_<double>", "Model_<Number_>").replace("Scenario_<double>", "Scenario_<Number_>").replace("Vector_<double*>", "Vector_<Number_*>").replace("MCSimulation<double>", "MCSimulation<Number_>") + '''
unsigned long S_results() { return sizeof(SimResults_); }
unsigned long S_number() { return sizeof(Number_); }
unsigned long S_tape() { return sizeof(Tape_); }
void* O_risks(void* p) { return (void*)&((SimResults_*)p)->risks_; }
void* O_value(void* p) { return (void*)&((Number_*)p)->value_; }
void* O_ders(void* p) { return (void*)&((TapNode_*)p)->pDerivatives_; }
void* O_args(void* p) { return (void*)&((TapNode_*)p)->pAdjPtrs_; }
void* O_adj(void* p) { return (void*)&((TapNode_*)p)->adjoint_; }
unsigned long S_tapnode() { return sizeof(TapNode_); }
void* O_node(void* p) { return (void*)&((Number_*)p)->node_; }
void Prepare(const ScriptProduct_& p, Model_<Number_>& m, Scenario_<Number_>& s, EvalState_<Number_>& e) { InitModel4ParallelAAD(p, m, s, e); }
void PrepareFuzzy(const ScriptProduct_& p, Model_<Number_>& m, Scenario_<Number_>& s, FuzzyEvaluator_<Number_>& e) { InitModel4ParallelAAD(p, m, s, e); }
'''
FLAGS = ["-Xclang", "-fno-access-control"]
DRIVERS = {"v": (STUBS, [r"^Go\(", "^New", "^[SO]_", r"MCSimulation<double>"], FLAGS),
           "a": (STUBS_AAD, [r"^Go\(", "^New", "^[SO]_", "^Prepare", r"MCSimulation<Dal::AAD::Number_>"], FLAGS)}
CONTRACTS = contract = Registry()
STANDIN = "real code: random products, models, numbers of paths around the batch size, thread counts, generators, interpreted and compiled, against a path-by-path evaluation with one generator; sensitivities against the average of per-path tape derivatives"
ASSUMPTIONS = ["doubles as real numbers (the sum's rounding is not modelled)", "a task runs once, at some point between its creation and the return of the wait on its future (thread pool and queue trusted)",
               "the value of the script on a path is a function of the path (S01, S03) and draws and paths are functions of the path number (R01, M01)", "std::vector, std::future, unique_ptr (trusted library)", "path numbers below 2^31 - 1",
               "sensitivities: propagation adds the derivative of the payoff on the path, and carrying to the start brings the sum to the parameters (A01, A02); one result at a time; fewer than 2^20 sensitivities; the labels' table of the result object by the stand-in"]
SOURCES = None
NATIVE_FLAGS = ["-Wl,--defsym=_ZN3Dal8NewSobolEimb=0", "-pthread"]
I_, RR = z3.IntSort(), z3.RealSort()
one, zero = Poly.const(1), Poly.const(0)
PV = z3.Function("payoff_on_path", I_, I_, RR)      # value of variable j after evaluating path p
SF = z3.Function("payoff_sum", I_, RR)              # sum over the paths below p
START = z3.Function("batch_start", I_, I_)
V = lambda t: r"std::vector<%s, std::allocator<%s>>::" % (t, t)
RET = lambda st, v=None: [Result(st, "ret", v)]
UP = r"std::unique_ptr<Dal::Random_, std::default_delete<Dal::Random_>>"
TASK = 512


def probe(c, rx, *a):
    q = c.ex.quiet
    c.ex.quiet = 1
    try:
        return c.ex.run_function(c.fname(rx), c.st.fork(), list(a))[0].val
    finally:
        c.ex.quiet = q


class World:
    """the surroundings of the simulation: model, generators, script and thread pool, with ghost state per thread slot"""

    def __init__(self, c):
        self.c = c
        self.layout = {}      # captured field -> (type, value) of a task

    def setup(self, nmax):
        c = self.c
        st = c.st
        self.n = c.int("n_paths", 0, nmax)
        self.nt = c.int("threads", 1, 4096)
        self.dim = c.int("dim", 0, 10 ** 6)
        self.pay = c.int("payoff_index", 0, 10 ** 6)
        self.nvar = c.int("variables", 1, 10 ** 6)
        c.assume(Z(self.pay) < Z(self.nvar))
        self.sizes = {k: P(probe(c, "^S_%s" % k)).c() for k in ("eval", "state", "product")}
        i64 = lambda nm: ("i64", base_array(nm, 1, "i64"))
        self.G = c.ex.arr_obj(st, "ghost", self.nt, 64, {8 * k: i64("ghost_%s" % nm) for k, nm in enumerate(("pos", "draws", "path", "value"))})
        self.T = c.ex.arr_obj(st, "tasks", Poly.const(10 ** 12), TASK, {8 * k: i64("task_%d" % k) for k in range(TASK // 8)})
        self.N = c.obj("ntasks", {0: ("i64", zero), 8: ("i64", zero), 16: ("i64", zero)}, 24)
        self.bufs = {}
        r = c.ex.run_function(c.fname("^NewModel"), st, [])
        self.mdl, c.st = r[0].val, r[0].st
        r = c.ex.run_function(c.fname("^NewRandom"), c.st, [])
        rp, c.st = r[0].val, r[0].st
        vt = c.ex.load(c.st, rp, "ptr")
        self.R = c.ex.arr_obj(c.st, "generators", self.nt, 8, {0: ("ptr", ABase(lambda k: vt))})
        po = probe(c, "^O_pay", Ptr(c.ex.new_obj(c.st, "probe", 65536, True).id, 0)).off.c()
        self.product = c.obj("product", {po: ("i64", self.pay)}, self.sizes["product"])
        self.data, self.rsg = c.obj("data", {0: ("i64", zero)}, 64), c.obj("rsg", {0: ("i64", zero)}, 64)
        self.labels = c.obj("labels", {0: ("i64", zero)}, 24)
        self.bb, self.compiled = c.bool("bridge"), c.bool("compiled")

    def lemma(self, q, K, b):
        if not getattr(self, "lemma_done", None):
            self.lemma_done = True
            a, b, d = z3.Ints("q k d")
            s = State()
            s.assume(z3.And(d >= 1, b >= a + 1))
            self.c.ensure(s, b * d >= a * d + d, "a larger quotient has a larger multiple")

    def used(self):
        return {(2 * f, "i64p") for f in self.layout}

    def ints(self):
        return [(2 * f, "i64p") for f, (ty, v) in self.layout.items() if ty in ("i32", "i64")]

    # --- ghost cells per slot
    def slot(self, p, what):
        for k, (oid, sz) in self.bufs.items():
            if isinstance(p, Ptr) and p.obj == oid and k == what:
                return p.off.div_exact(sz)
        raise Unsupported("%s is not a per-thread slot" % what)

    def g(self, ex, st, s, k, i):
        return P(ex.load(st, Ptr(self.G.id, 0).shift(s.scale(64).add(Poly.const(8 * k))), "i64", i))

    def put(self, ex, st, s, k, v, i):
        ex.store(st, Ptr(self.G.id, 0).shift(s.scale(64).add(Poly.const(8 * k))), "i64", P(v), i)

    def own(self, ex, st, p, what, i):
        s = self.slot(p, what)
        tn = st.ghost.get("thread")
        ex.oblige(st, z3.BoolVal(False) if tn is None else Z(s) == Z(tn), "a task only touches its own thread's %s" % what, i)
        return s

    def fresh_thread(self, ex, st):
        g = st.own(self.G.id)
        for key in list(g.arrays):
            g.arrays[key] = base_array(fresh_name("any"), 1, "i64")
            if ex.writes is not None:
                ex.writes.add((self.G.id, "arr", key, "i64"))

    def handlers(self):
        w = self

        def create_model(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1] == w.data), "the model of the given data is simulated", i)
            ex.store(st, a[0], "ptr", w.mdl, i)
            return RET(st)

        def flag(k):
            def h(ex, st, a, i, dem):
                if k == 16:
                    ex.oblige(st, Z(P(ex.load(st, w.N.shift(8), "i64", i))) == 1, "the model is allocated before it is initialised", i)
                ex.oblige(st, z3.BoolVal(isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].obj == w.product.obj == a[2].obj and a[1] != a[2]), "the model gets the product's dates", i)
                ex.store(st, w.N.shift(k), "i64", one, i)
                return RET(st)
            return h

        def vec(k, field, val=0):
            def h(ex, st, a, i, dem):
                sz = {"rng": 8, "gauss": 24, "path": 24, "eval": w.sizes["eval"], "state": w.sizes["state"]}[k]
                o = ex.arr_obj(st, k, P(a[1]), sz, {f: ("i64", ABase(lambda q: Poly.const(val))) for f in field})
                w.bufs[k] = (o.id, sz)
                ex.store(st, a[0], "ptr", Ptr(o.id, 0), i)
                for x in (8, 16):
                    ex.store(st, a[0].shift(x), "ptr", Ptr(o.id, 0).shift(P(a[1]).scale(sz)), i)
                return RET(st)
            return h

        def create_rng(ex, st, a, i, dem):
            ex.oblige(st, z3.And(z3.BoolVal(a[1] == w.rsg), Z(P(a[2])) == Z(w.dim), bz(as_bool(a[3])) == w.bb), "every thread's generator is the one asked for, with one draw per dimension", i)
            ex.store(st, a[0], "i64", one, i)
            return RET(st)

        def assign(ex, st, a, i, dem):
            w.slot(a[0], "rng")
            ex.store(st, a[0], "i64", ex.load(st, a[1], "i64", i), i)
            return RET(st, a[0])

        def deref(ex, st, a, i, dem):
            s = w.slot(a[0], "rng")
            ex.oblige(st, Z(P(ex.load(st, a[0], "i64", i))) == 1, "the generator used exists", i)
            return RET(st, Ptr(w.R.id, 0).shift(s.scale(8)))

        def rng(ex, st, p, i):
            if not (isinstance(p, Ptr) and p.obj == w.R.id):
                raise Unsupported("unknown generator")
            s = p.off.div_exact(8)
            tn = st.ghost.get("thread")
            ex.oblige(st, z3.BoolVal(False) if tn is None else Z(s) == Z(tn), "a task only touches its own thread's generator", i)
            return s

        def skip(ex, st, a, i, dem):
            w.put(ex, st, rng(ex, st, a[0], i), 0, a[1], i)
            return RET(st)

        def fill(ex, st, a, i, dem):
            s, q = rng(ex, st, a[0], i), w.own(ex, st, a[1], "gauss", i)
            ex.oblige(st, Z(P(ex.load(st, a[1], "i64", i))) == Z(w.dim), "the draws have the model's dimension", i)
            pos = w.g(ex, st, s, 0, i)
            w.put(ex, st, q, 1, pos, i)
            w.put(ex, st, s, 0, pos.add(one), i)
            return RET(st)

        def gen(ex, st, a, i, dem):
            ex.oblige(st, z3.And(z3.BoolVal(a[0] == w.mdl), Z(P(ex.load(st, w.N.shift(16), "i64", i))) == 1), "paths come from the initialised model", i)
            s, q = w.own(ex, st, a[1], "gauss", i), w.own(ex, st, a[2], "path", i)
            ex.oblige(st, z3.And(Z(P(ex.load(st, a[2], "i64", i))) == 1, Z(P(ex.load(st, a[2].shift(8), "i64", i))) == 1), "the path has been allocated and initialised", i)
            w.put(ex, st, q, 2, w.g(ex, st, s, 1, i), i)
            return RET(st)

        def evaluate(kind):
            def h(ex, st, a, i, dem):
                ex.oblige(st, z3.BoolVal(a[0] == w.product), "the given product is evaluated", i)
                s = w.own(ex, st, a[1], "path", i)
                q = w.own(ex, st, a[2], kind, i)
                w.put(ex, st, q, 3, w.g(ex, st, s, 2, i), i)
                return RET(st)
            return h

        def vals(kind):
            def h(ex, st, a, i, dem):
                s = w.own(ex, st, a[0], kind, i)
                p = w.g(ex, st, s, 3, i)
                o = ex.arr_obj(st, fresh_name("vars"), w.nvar, 8, {0: ("f64", ABase(lambda k, p=p: PV(Z(p), Z(k))))})
                e = Ptr(o.id, 0)
                h_ = ex.new_obj(st, fresh_name("vars.hdr"), 24, True)
                for x, v in ((0, e), (8, e.shift(w.nvar.scale(8))), (16, e.shift(w.nvar.scale(8)))):
                    h_.cells[x] = (8, "ptr", v)
                return RET(st, Ptr(h_.id, 0))
            return h

        def alloc_path(k):
            def h(ex, st, a, i, dem):
                w.slot(a[-1], "path")
                ex.store(st, a[-1].shift(k), "i64", one, i)
                return RET(st)
            return h

        def resize(ex, st, a, i, dem):
            w.slot(a[0], "gauss")
            ex.store(st, a[0], "i64", P(a[1]), i)
            return RET(st)

        def results(ex, st, a, i, dem):
            ex.store(st, a[0].shift(w.agg), "f64", Fraction(0), i)
            return RET(st)

        def move_results(ex, st, a, i, dem):
            ex.store(st, a[0].shift(w.agg), "f64", ex.load(st, a[1].shift(w.agg), "f64", i), i)
            return RET(st)

        def spawn(ex, st, a, i, dem):
            k = P(ex.load(st, w.N, "i64", i))
            cl = a[-1]
            o = st.heap[cl.obj]
            base = cl.off.c()
            lay = {}
            for off, (sz, ty, v) in o.cells.items():
                if off < base:
                    continue
                f = off - base
                lay[f] = (ty, v)
                if ty == "ptr":
                    if isinstance(v, Ptr) and v.obj is not None and not v.off.is_const():
                        ex.store(st, Ptr(w.T.id, 0).shift(k.scale(TASK).add(Poly.const(2 * f))), "i64", v.off.div_exact(st.heap[v.obj].stride), i)
                else:
                    ex.store(st, Ptr(w.T.id, 0).shift(k.scale(TASK).add(Poly.const(2 * f))), "i64", P(v) if not z3.is_bool(v) else P(z3.If(v, 1, 0)), i)
            w.layout = lay
            ex.store(st, w.N, "i64", k.add(one), i)
            ex.store(st, a[0], "i64", k, i)
            return RET(st)

        def wait(ex, st, a, i, dem):
            k = P(ex.load(st, a[1], "i64", i))
            ex.oblige(st, z3.And(Z(k) >= 0, Z(k) < Z(P(ex.load(st, w.N, "i64", i)))), "a created task is waited for", i)
            cl = ex.new_obj(st, fresh_name("closure"), 256, True)
            for f, (ty, v) in w.layout.items():
                x = None if ty == "ptr" and not (isinstance(v, Ptr) and v.obj is not None and not v.off.is_const()) else P(ex.load(st, Ptr(w.T.id, 0).shift(k.scale(TASK).add(Poly.const(2 * f))), "i64", i))
                if ty == "ptr":
                    v = Ptr(v.obj, x.scale(st.heap[v.obj].stride)) if isinstance(v, Ptr) and v.obj is not None and not v.off.is_const() else v
                else:
                    v = x
                cl.cells[f] = (TYSZ[ty], ty, v)
            # any thread may run it, after anything else that thread has done
            t = z3.Int(fresh_name("thread"))
            st.assume(z3.And(t >= 0, t < Z(w.nt)))
            st.ghost["thread"] = P(t)
            st.ghost["task"] = k
            w.fresh_thread(ex, st)
            (fn,) = w.lambdas
            out = []
            for r in ex.run_function(fn, st, [Ptr(cl.id, 0)]):
                r.st.ghost["ran on"] = r.st.ghost.pop("thread", None)
                r.st.ghost.pop("task", None)
                out.append(Result(r.st, r.kind, True if r.kind == "ret" else r.val))
            return out

        def fresize(ex, st, a, i, dem):
            return RET(st)

        def fempty(ex, st, a, i, dem):
            o = ex.arr_obj(st, "futures", Poly.const(10 ** 12), 16, {0: ("i64", base_array(fresh_name("future"), 1, "i64"))})
            w.F = o.id
            for x in (0, 8):
                ex.store(st, a[0].shift(x), "ptr", Ptr(o.id, 0), i)
            ex.store(st, a[0].shift(16), "ptr", Ptr(o.id, 0).shift(16 * 10 ** 12), i)
            return RET(st)

        def fpush(ex, st, a, i, dem):
            e = ex.load(st, a[0].shift(8), "ptr", i)
            ex.store(st, e, "i64", ex.load(st, a[1], "i64", i), i)
            ex.store(st, a[0].shift(8), "ptr", e.shift(16), i)
            return RET(st)

        def sempty(ex, st, a, i, dem):
            o = ex.arr_obj(st, "partial sums", Poly.const(10 ** 12), 8, {0: ("f64", ABase(lambda k: Fraction(0)))})
            w.S = o.id
            p = Ptr(o.id, 0)
            for x in (0, 8, 16):
                ex.store(st, a[0].shift(x), "ptr", p, i)
            return RET(st)

        def sreserve(ex, st, a, i, dem):
            b = ex.load(st, a[0], "ptr", i)
            ex.oblige(st, z3.BoolVal(True), "room is reserved before tasks hold references", i)
            ex.store(st, a[0].shift(16), "ptr", b.shift(P(a[1]).scale(8)), i)
            return RET(st)

        def spush(ex, st, a, i, dem):
            e, z_ = ex.load(st, a[0].shift(8), "ptr", i), ex.load(st, a[0].shift(16), "ptr", i)
            K = P(ex.load(st, w.N, "i64", i))
            for q, _, b in ex.quotients:
                w.lemma(q, K, b)
                st.assume(z3.Or(Z(K) <= Z(q), Z(K.mul(b)) >= Z(q.mul(b)) + Z(b)))
            ex.oblige(st, Z(e.off) + 8 <= Z(z_.off), "appending a partial sum never moves those that tasks refer to", i)
            ex.store(st, e, "f64", ex.load(st, a[1], "f64", i), i)
            ex.store(st, a[0].shift(8), "ptr", e.shift(8), i)
            return RET(st, e)

        nop = lambda ex, st, a, i, dem: RET(st)
        R = lambda rx, h: (re.compile(rx), h)
        return [R(r"Dal::CreateModel<double>", create_model),
                R(r"unique_ptr<Dal::AAD::Model_<double>, .*>::operator(->|\*)\(\) const", lambda ex, st, a, i, dem: RET(st, ex.load(st, a[0], "ptr", i))),
                R(r"StubModel_::Allocate", flag(8)), R(r"StubModel_::Init", flag(16)), R(r"StubModel_::SimDim", lambda ex, st, a, i, dem: RET(st, w.dim)),
                R(r"StubModel_::ParameterLabels", lambda ex, st, a, i, dem: RET(st, w.labels)), R(r"StubModel_::GeneratePath", gen),
                R(r"StubRandom_::SkipTo", skip), R(r"StubRandom_::FillNormal", fill),
                R(r"ThreadPool_::NumThreads", lambda ex, st, a, i, dem: RET(st, w.nt)), R(r"ThreadPool_::ThreadNum", lambda ex, st, a, i, dem: RET(st, st.ghost["thread"])),
                R(r"Dal::Vector_<%s>::Vector_\(unsigned long\)" % UP, vec("rng", [0])), R(r"Dal::Vector_<Dal::Vector_<double>>::Vector_\(unsigned long\)", vec("gauss", [0])),
                R(r"Dal::Vector_<Dal::Vector_<Dal::AAD::Sample_<double>>>::Vector_\(unsigned long\)", vec("path", [0, 8])),
                R(r"Dal::Vector_<Dal::Script::Evaluator_<double>>::Vector_\(unsigned long", vec("eval", [0])), R(r"Dal::Vector_<Dal::Script::EvalState_<double>>::Vector_\(unsigned long", vec("state", [0])),
                R(r"Dal::Script::CreateRNG", create_rng), R(UP + r"::operator=\(", assign), R(UP + r"::operator->\(\)", deref), R(UP + r"::(operator\*|get)\(\)", deref),
                R(r"Dal::AAD::AllocatePath<double>", alloc_path(0)), R(r"Dal::AAD::InitializePath<double>", alloc_path(8)), R(r"Dal::Vector_<double>::Resize\(", resize),
                R(r"ScriptProduct_::Build(Evaluator|EvalState)<double>", nop), R(r"Dal::Vector::Join<", nop), R(r"SimResults_::SimResults_\(Dal::Vector_", results), R(r"SimResults_::SimResults_\(Dal::Script::SimResults_", move_results),
                R(r"ThreadPool_::SpawnTask<", spawn), R(r"ThreadPool_::ActiveWait", wait),
                R(r"Dal::Vector_<std::future<bool>>::Vector_\(\)", fempty), R(V("std::future<bool>") + "reserve", nop), R(V("std::future<bool>") + "(push_back|emplace_back)", fpush),
                R(r"Dal::Vector_<double>::Vector_\(\)", sempty), R(V("double") + "reserve", sreserve), R(r"Dal::Vector_<double>::emplace_back<|" + V("double") + "(push_back|emplace_back)", spush),
                R(r"ScriptProduct_::Evaluate<", evaluate("eval")), R(r"ScriptProduct_::EvaluateCompiled<", evaluate("state")),
                R(r"EvaluatorBase_<double, Dal::Script::Evaluator_>::VarVals\(\)", vals("eval")), R(r"EvalState_<double>::VarVals\(\)", vals("state")),
                R(r"::~\w+\(\)$", nop)]


@contract("v")
def whole(c):
    """MCSimulation<double>: the aggregate is the sum of the payoff over the paths 0..n-1"""
    w = World(c)

    def tasks(ctx):
        return [k for k in ctx.st.heap[w.T.id].arrays if k in w.used()]

    def inv(ctx):
        out = []
        iv = ctx.ints()
        st = ctx.st
        c.ex.quiet += 1
        K = P(c.ex.load(st, w.N, "i64"))
        c.ex.quiet -= 1
        sel = lambda k, q: Z(ctx.sel(st, w.T.id, k, q))
        chg = {oid for oid, k in ctx.arrays}
        lo = lambda q, f, g: z3.If(Z(q) == 0, 0, sel(f, P(q).add(one, -1)) + sel(g, P(q).add(one, -1)))
        F, S = getattr(w, "F", -1), getattr(w, "S", -1)
        counted = any(P(v["cur"]) == K and not K.is_const() for v in iv) or w.T.id in chg
        ib = [k for k in w.ints() if k in st.heap[w.T.id].arrays]
        pairs = [(f, g) for f in ib for g in ib if f != g]
        for v in iv:
            cur = Z(v["cur"])
            t = v.get("ptr")
            if t is not None:
                out.append(("%s within" % v["name"], cur >= Z(v["entry"])))
                for nm in w.bufs:
                    if t == w.bufs[nm][0]:
                        out.append(("%s below the threads" % v["name"], cur <= Z(w.nt)))
                if t in (F, S):
                    out.append(("%s one per task" % v["name"], cur == Z(K)))
                    out.append(("%s up to the tasks" % v["name"], cur <= Z(K)))
            else:
                out.append(("%s not negative" % v["name"], cur >= 0))
                out.append(("%s up to the paths" % v["name"], cur <= Z(w.n)))
                out.append(("%s is the number of tasks" % v["name"], cur == Z(K)))
                for f, g in pairs:
                    out.append(("%s continues task_%d + task_%d" % (v["name"], f[0], g[0]), cur == lo(K, f, g)))
                    out.append(("%s is what is left after task_%d + task_%d" % (v["name"], f[0], g[0]), cur == Z(w.n) - lo(K, f, g)))
                for q_, a, b in c.ex.quotients:
                    out.append(("%s at full batches of %s" % (v["name"], q_), cur == z3.If(Z(K.mul(b)) <= Z(w.n), Z(K.mul(b)), Z(w.n))))
                if w.G.id in chg and "thread" in st.ghost:
                    tn = st.ghost["thread"]
                    out.append(("%s: stream position" % v["name"], Z(ctx.cur(w.G.id, (0, "i64p"), tn)) == Z(ctx.old(w.G.id, (0, "i64p"), tn)) + cur))
        for oid, k in ctx.arrays:
            for nm, val in (("rng", one), ("path", one), ("gauss", w.dim)):
                if nm in w.bufs and oid == w.bufs[nm][0]:
                    for v in iv:
                        if v.get("ptr") == oid:
                            out.append(("%s: %s[%d] ready so far" % (v["name"], nm, k[0]), All(lambda q, v=v, oid=oid, k=k, val=val: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), Z(ctx.cur(oid, k, q)) == Z(val)))))
            if oid == F:
                out.append(("futures of the tasks in order", All(lambda q, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), Z(ctx.cur(oid, k, q)) == Z(q)))))
            if oid == w.T.id and k in w.used():
                for nm, f in (("8q", lambda q: 8 * Z(q)), ("q", lambda q: Z(q)), ("0", lambda q: z3.IntVal(0))):
                    out.append(("task_%d is %s" % (k[0], nm), All(lambda q, k=k, f=f: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), sel(k, q) == f(q)))))
                for f, g in pairs:
                    if k == f:
                        out.append(("task_%d follows on with task_%d" % (f[0], g[0]), All(lambda q, f=f, g=g: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), z3.And(sel(f, q) == lo(q, f, g), sel(g, q) >= 0, sel(f, q) >= 0, sel(f, q) + sel(g, q) <= Z(w.n))))))
            if oid == S:
                out.append(("partial sums start at zero", All(lambda q, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), rz(ctx.cur(oid, k, q)) == 0))))
                for v in iv:
                    if v.get("ptr") == F:
                        for f, g in pairs:
                            out.append(("%s: finished tasks hold their sums (%d, %d)" % (v["name"], f[0], g[0]), All(lambda q, v=v, f=f, g=g, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), rz(ctx.cur(oid, k, q)) == z3.If(Z(q) < Z(v["cur"]), SF(sel(f, q) + sel(g, q)) - SF(sel(f, q)), 0)))))
                if "task" in st.ghost:
                    tk, tn = st.ghost["task"], st.ghost["thread"]
                    pos = lambda h: Z(h(w.G.id, (0, "i64p"), tn))
                    out.append(("other partial sums untouched", All(lambda q, oid=oid, k=k: z3.Implies(Z(q) != Z(tk), rz(ctx.cur(oid, k, q)) == rz(ctx.old(oid, k, q))))))
                    out.append(("this one grows by the payoffs", rz(ctx.cur(oid, k, tk)) == rz(ctx.old(oid, k, tk)) + SF(pos(ctx.cur)) - SF(pos(ctx.old))))
        for x in ctx.reals():
            for v in iv:
                if v.get("ptr") == S:
                    for f, g in pairs:
                        out.append(("%s sums up to %s (%d, %d)" % (x["name"], v["name"], f[0], g[0]), rz(x["cur"]) == SF(lo(v["cur"], f, g)) - SF(0)))
        return out
    c.exec(w.handlers(), [("MCSimulation<double>|accumulate", inv)])
    w.lambdas = [f["name"] for f in c.m.find(r"^Dal::Script::SimResults_ Dal::Script::MCSimulation<double>.*'lambda'\(\)::operator\(\)\(\)( const)?$")]
    w.setup(2 ** 31 - 2)
    c.st.schemas.append(Schema("sum of payoffs", [SF], lambda i: z3.Implies(i > 0, SF(i) == SF(i - 1) + PV(i - 1, Z(w.pay)))))
    w.agg = probe(c, "^O_agg", Ptr(c.ex.new_obj(c.st, "probe", 65536, True).id, 0)).off.c()
    res = c.obj("results", {w.agg: ("f64", c.real("old"))}, 256)
    r = c.call(r"^Go\(", [res, w.product, w.data, w.n, w.rsg, w.bb, w.compiled])
    c.ensure_all(r, "aggregate", lambda st, _: [("sum over the paths", rz(c.ex.load(st, res.shift(w.agg), "f64")) == SF(Z(w.n)) - SF(0))])


NUM = "Dal::AAD::Number_"
ES = z3.Function("derivative_sum", I_, RR)          # sum over the paths below p of the payoff's derivative over the number of paths
DV = z3.Function("derivative_on_path", I_, RR)
SLOT = z3.Function("slot_sum", I_, I_, RR)          # sum over the slots below q of array k
BLOCK = 2 ** 20                                     # most sensitivities
UPM = r"std::unique_ptr<Dal::AAD::Model_<Dal::AAD::Number_>, std::default_delete<Dal::AAD::Model_<Dal::AAD::Number_>>>"
POS, POS0, DRAWS, PATH, VALUE, TAPE, PHASE, REC, EVAL, ALLOC, PALLOC, DSUM, THREAD_PATH = [8 * k for k in range(13)]


class WorldA(World):
    """surroundings of the simulation with sensitivities: everything a task uses is its own, except its thread's tape and result slot"""

    def setup(self, nmax):
        c = self.c
        st = c.st
        self.n = c.int("n_paths", 0, nmax)
        self.nt = c.int("threads", 1, 4096)
        self.dim = c.int("dim", 0, 10 ** 6)
        self.pay = c.int("payoff_index", 0, 10 ** 6)
        self.nvar = c.int("variables", 1, 10 ** 6)
        self.np, self.nc = c.int("parameters", 0, 10 ** 5), c.int("constants", 0, 10 ** 5)
        self.j0 = c.int("sensitivity", 0, 2 * 10 ** 5)
        c.assume(z3.And(Z(self.pay) < Z(self.nvar), Z(self.j0) < Z(self.np) + Z(self.nc)))
        self.sizes = {k: P(probe(c, "^S_%s" % k)).c() for k in ("eval", "state", "product", "results", "number", "tape", "tapnode")}
        off = lambda rx: probe(c, rx, Ptr(c.ex.new_obj(c.st, "probe", 65536, True).id, 0)).off.c()
        self.agg, self.orisk, self.oval, self.onode = off("^O_agg"), off("^O_risks"), off("^O_value"), off("^O_node")
        self.oders, self.oargs, self.oadj = off("^O_ders"), off("^O_args"), off("^O_adj")
        self.T = c.ex.arr_obj(st, "tasks", Poly.const(10 ** 12), TASK, {8 * k: ("i64", base_array("task_%d" % k, 1, "i64")) for k in range(TASK // 8)})
        self.N = c.obj("ntasks", {0: ("i64", zero)}, 8)
        g = {k: ("i64", c.int("ghost_%d" % k)) for k in range(0, 104, 8)}
        g[TAPE] = ("i64", Poly.const(-1))
        g[DSUM] = ("f64", c.real("dsum"))
        self.L = c.obj("ghost", g, 104)
        r = c.ex.run_function(c.fname("^NewModel"), st, [])
        self.mdl, c.st = r[0].val, r[0].st
        r = c.ex.run_function(c.fname("^NewModel"), c.st, [])
        self.clone, c.st = r[0].val, r[0].st
        r = c.ex.run_function(c.fname("^NewRandom"), c.st, [])
        self.R, c.st = r[0].val, r[0].st
        po = off("^O_pay")
        self.product = c.obj("product", {po: ("i64", self.pay)}, self.sizes["product"])
        self.data, self.rsg = c.obj("data", {0: ("i64", zero)}, 64), c.obj("rsg", {0: ("i64", zero)}, 64)
        self.bb, self.compiled = c.bool("bridge"), c.bool("compiled")
        self.main = c.obj("main tape", {0: ("i64", zero)}, 64)
        st = c.st
        sz = self.sizes["number"]
        num = lambda nm, n: c.ex.arr_obj(st, nm, n, sz, {self.oval: ("f64", base_array(nm + "_v", 1, "f64"))})
        self.PAR, self.CON = num("parameter", self.np), num("constant", self.nc)
        self.NODE = c.ex.arr_obj(st, "records", self.nvar, self.sizes["tapnode"], {self.oadj: ("f64", base_array("record", 1, "f64"))})
        pp = c.ex.arr_obj(st, "parameter pointers", self.np, 8, {0: ("ptr", ABase(lambda k: Ptr(self.PAR.id, P(k).scale(sz))))})
        self.params = self.hdr(st, "parameters", Ptr(pp.id, 0), self.np.scale(8))
        self.consts = self.hdr(st, "constants", Ptr(self.CON.id, 0), self.nc.scale(sz))
        nm = c.ex.new_obj(st, "names", 2 ** 40, True)
        self.labels, self.names = self.hdr(st, "labels", Ptr(nm.id, 0), self.np.scale(32)), self.hdr(st, "constant names", Ptr(nm.id, 0), self.nc.scale(32))
        self.ps = {}

    def hdr(self, st, nm, b, n):
        h = self.c.ex.new_obj(st, nm, 24, True)
        for x, v in ((0, b), (8, b.shift(n)), (16, b.shift(n))):
            h.cells[x] = (8, "ptr", v)
        return Ptr(h.id, 0)

    def get(self, st, k, ty="i64"):
        v = self.c.ex.load(st, self.L.shift(k), ty)
        return P(v) if ty == "i64" else v

    def set(self, st, k, v, ty="i64"):
        self.c.ex.store(st, self.L.shift(k), ty, P(v) if ty == "i64" else v)

    def fresh_thread(self, ex, st):
        for k in range(0, 104, 8):
            if k == DSUM:
                self.set(st, k, z3.Real(fresh_name("any")), "f64")
            else:
                self.set(st, k, P(z3.Int(fresh_name("any"))))

    # sums over the slots of what is in them now; one function per array, with the facts of point updates (contract `slots`)
    def sums(self, st, oid, key, j=None):
        a = st.heap[oid].arrays[key]
        if (id(a), key) not in self.ps:
            at = (lambda q: rz(a.select(self.c.ex, None, [P(q)]))) if j is None else (lambda q: rz(a.select(self.c.ex, None, [P(q).scale(BLOCK).add(j)])))
            self.ps[id(a), key] = (len(self.ps), a, at)
        k = self.ps[id(a), key][0]
        return lambda q: SLOT(z3.IntVal(k), q)

    def schema(self):
        def fact(k, q):
            at = list(self.ps.values())[k.as_long()][2]
            return z3.And(SLOT(k, 0) == 0, z3.Implies(q > 0, SLOT(k, q) == SLOT(k, q - 1) + at(q - 1)))
        return Schema("sums over the slots", [SLOT], fact)

    def handlers(self):
        w = self
        up = {h[0].pattern: h[1] for h in World.handlers(self)}
        base = [(re.compile(k), h) for k, h in up.items() if re.search("future|NumThreads|ThreadNum", k)]
        R = lambda rx, h: (re.compile(rx), h)
        nop = lambda ex, st, a, i, dem: RET(st)
        con = lambda v: (lambda ex, st, a, i, dem: RET(st, v()))

        def create_model(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1] == w.data), "the model of the given data is simulated", i)
            ex.store(st, a[0], "ptr", w.mdl, i)
            return RET(st)

        def clone(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1] == w.mdl), "the task's model is a copy of the simulated one", i)
            ex.store(st, a[0], "ptr", w.clone, i)
            w.set(st, ALLOC, 0)
            return RET(st)

        def mine(ex, st, p, i):
            ex.oblige(st, z3.BoolVal(p == w.clone), "a task uses its own model", i)

        def allocate(ex, st, a, i, dem):
            mine(ex, st, a[0], i)
            w.set(st, ALLOC, 1)
            return RET(st)

        def dim(ex, st, a, i, dem):
            mine(ex, st, a[0], i)
            ex.oblige(st, Z(w.get(st, ALLOC)) == 1, "the model's dimension is asked for after its allocation", i)
            return RET(st, w.dim)

        def create_rng(ex, st, a, i, dem):
            ex.oblige(st, z3.And(z3.BoolVal(a[1] == w.rsg), Z(P(a[2])) == Z(w.dim), bz(as_bool(a[3])) == w.bb), "the generator is the one asked for, with one draw per dimension", i)
            ex.store(st, a[0], "ptr", w.R, i)
            w.set(st, POS, 0)
            return RET(st)

        def skip(ex, st, a, i, dem):
            w.set(st, POS, a[1])
            w.set(st, POS0, a[1])
            return RET(st)

        def gvec(ex, st, a, i, dem):
            ex.oblige(st, Z(P(a[1])) == Z(w.dim), "the draws have the model's dimension", i)
            st.ghost["gauss"] = a[0]
            return RET(st)

        def fill(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(st.ghost.get("gauss") == a[1]), "the draws go to the task's own vector", i)
            p = w.get(st, POS)
            w.set(st, DRAWS, p)
            w.set(st, POS, p.add(one))
            return RET(st)

        def alloc_path(ex, st, a, i, dem):
            st.ghost["path"] = a[-1]
            w.set(st, PALLOC, 1)
            return RET(st)

        def init_path(ex, st, a, i, dem):
            ex.oblige(st, z3.And(z3.BoolVal(st.ghost.get("path") == a[0]), Z(w.get(st, PALLOC)) >= 1), "the path is allocated before it is initialised", i)
            w.set(st, PALLOC, 2)
            return RET(st)

        def tape_now(ex, st, i):
            if "thread" not in st.ghost:
                ex.oblige(st, Z(w.get(st, TAPE)) == -1, "the caller's tape is in place", i)
                return w.main
            return Ptr(w.TP.id, w.get(st, TAPE).scale(w.sizes["tape"]))

        def set_tape(ex, st, a, i, dem):
            if a[0] == w.main:
                w.set(st, TAPE, -1)
                return RET(st)
            if not (isinstance(a[0], Ptr) and a[0].obj == w.TP.id):
                raise Unsupported("unknown tape")
            w.set(st, TAPE, a[0].off.div_exact(w.sizes["tape"]))
            return RET(st)

        def own_tape(ex, st, i):
            tn = st.ghost.get("thread")
            ex.oblige(st, z3.BoolVal(False) if tn is None else Z(w.get(st, TAPE)) == Z(tn), "a task records on its own thread's tape", i)

        def rewind(ex, st, a, i, dem):
            own_tape(ex, st, i)
            w.set(st, PHASE, 0)
            return RET(st)

        def to_mark(ex, st, a, i, dem):
            own_tape(ex, st, i)
            ex.oblige(st, Z(w.get(st, PHASE)) == 1, "the tape is marked", i)
            w.set(st, REC, 0)
            w.set(st, EVAL, 0)
            return RET(st)

        def build(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1] == w.product), "the evaluator is the product's", i)
            st.ghost["eval"] = a[0]
            return RET(st)

        def prepare(ex, st, a, i, dem):
            own_tape(ex, st, i)
            ex.oblige(st, z3.And(z3.BoolVal(a[0] == w.product and a[1] == w.clone and a[2] == st.ghost.get("path") and a[3] == st.ghost.get("eval")), Z(w.get(st, ALLOC)) == 1, Z(w.get(st, PALLOC)) >= 1),
                      "preparation gets the product, the task's model, path and evaluator", i)
            for k, v in ((PHASE, 1), (REC, 0), (EVAL, 0), (PALLOC, 2)):
                w.set(st, k, v)
            w.set(st, DSUM, Fraction(0), "f64")
            return RET(st)

        def gen(ex, st, a, i, dem):
            mine(ex, st, a[0], i)
            own_tape(ex, st, i)
            ex.oblige(st, z3.And(z3.BoolVal(a[1] == st.ghost.get("gauss") and a[2] == st.ghost.get("path")), Z(w.get(st, PHASE)) == 1, Z(w.get(st, PALLOC)) == 2), "the path is generated after preparation from the task's draws", i)
            w.set(st, PATH, w.get(st, DRAWS))
            w.set(st, REC, w.get(st, REC).add(one))
            return RET(st)

        def evaluate(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[0] == w.product and a[1] == st.ghost.get("path") and a[2] == st.ghost.get("eval")), "the given product is evaluated on the task's path", i)
            w.set(st, VALUE, w.get(st, PATH))
            w.set(st, EVAL, w.get(st, EVAL).add(one))
            return RET(st)

        def vals(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[0] == st.ghost.get("eval")), "the values read are the task's", i)
            p = w.get(st, VALUE)
            sz = w.sizes["number"]
            o = ex.arr_obj(st, fresh_name("vars"), w.nvar, sz, {w.oval: ("f64", ABase(lambda k, p=p: PV(Z(p), Z(k)))), w.onode: ("ptr", ABase(lambda k: Ptr(w.NODE.id, P(k).scale(w.sizes["tapnode"]))))})
            return RET(st, w.hdr(st, fresh_name("vars.hdr"), Ptr(o.id, 0), w.nvar.scale(sz)))

        def record(ex, st, a, i, dem):
            # a number made from an expression gets a record of its own (A01, A02)
            n = int(re.search(r"CreateMultiNode<(\d+)", dem).group(1))
            own_tape(ex, st, i)
            ptrs, ders = ex.new_obj(st, fresh_name("operands"), 8 * n + 8, True), ex.new_obj(st, fresh_name("derivatives"), 8 * n + 8, True)
            o = ex.new_obj(st, fresh_name("record"), w.sizes["tapnode"], True)
            o.cells[w.oders], o.cells[w.oargs] = (8, "ptr", Ptr(ders.id, 0)), (8, "ptr", Ptr(ptrs.id, 0))
            st.ghost["record"] = (o.id, n)
            return RET(st, Ptr(o.id, 0))

        def propagate(ex, st, a, i, dem):
            own_tape(ex, st, i)
            nd = ex.load(st, a[0].shift(w.onode), "ptr", i)
            ex.oblige(st, z3.And(Z(w.get(st, PHASE)) == 1, Z(w.get(st, REC)) == 1, Z(w.get(st, EVAL)) == 1), "one path is on the tape when its sensitivities are propagated", i)
            rec = st.ghost.get("record")
            ok = isinstance(nd, Ptr) and rec is not None and nd.obj == rec[0]
            ex.oblige(st, z3.BoolVal(ok), "what is propagated has been recorded after the mark", i)
            one_ = False
            if ok and rec[1] == 1:
                q = ex.load(st, ex.load(st, nd.shift(w.oargs), "ptr", i), "ptr", i)
                d = ex.load(st, ex.load(st, nd.shift(w.oders), "ptr", i), "f64", i)
                if isinstance(q, Ptr) and q.obj == w.NODE.id:
                    one_ = z3.And(rz(d) == 1, Z(q.off) == Z(w.pay.scale(w.sizes["tapnode"])) + w.oadj)
            ex.oblige(st, one_ if not isinstance(one_, bool) else z3.BoolVal(one_), "the payoff's sensitivities are propagated", i)
            w.set(st, DSUM, rz(w.get(st, DSUM, "f64")) + DV(Z(w.get(st, VALUE))), "f64")
            w.set(st, REC, 2)
            return RET(st)

        def to_start(ex, st, a, i, dem):
            own_tape(ex, st, i)
            ex.oblige(st, Z(w.get(st, PHASE)) == 1, "sensitivities are carried to the parameters once, after the paths", i)
            w.set(st, PHASE, 2)
            A = z3.Real(fresh_name("adjoint"))
            st.ghost["adjoint"] = A
            st.assume(A / z3.ToReal(Z(w.n)) == rz(w.get(st, DSUM, "f64")))      # A is n times the sum, n > 0
            return RET(st)

        def adjoint(ex, st, a, i, dem):
            ex.oblige(st, Z(w.get(st, PHASE)) == 2, "sensitivities are read after they are complete", i)
            p = a[0]
            if not (isinstance(p, Ptr) and p.obj in (w.PAR.id, w.CON.id)):
                raise Unsupported("adjoint of an unknown number")
            j = p.off.div_exact(w.sizes["number"])
            if p.obj == w.CON.id:
                j = j.add(w.np)
            o = ex.new_obj(st, fresh_name("adjoint"), 8, True)
            o.cells[0] = (8, "f64", z3.If(Z(j) == Z(w.j0), st.ghost.get("adjoint", z3.Real(fresh_name("none"))), z3.Real(fresh_name("other"))))
            return RET(st, Ptr(o.id, 0))

        def model_params(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal("thread" not in st.ghost or a[0] == w.clone), "sensitivities are read from the task's model", i)
            return RET(st, w.params)

        def constants(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[0] == st.ghost.get("eval")), "constants are the task's evaluator's", i)
            return RET(st, w.consts)

        def join(ex, st, a, i, dem):
            ex.oblige(st, z3.BoolVal(a[1] == w.labels and a[2] == w.names), "results are labelled by the parameters, then the constants", i)
            ex.store(st, a[0], "i64", one, i)
            return RET(st)

        def results(ex, st, a, i, dem):
            ex.oblige(st, Z(P(ex.load(st, a[1], "i64", i))) == 1, "results carry the labels", i)
            ex.store(st, a[0].shift(w.agg), "f64", Fraction(0), i)
            nr = w.np.add(w.nc)
            o = ex.arr_obj(st, fresh_name("risks"), nr, 8, {0: ("f64", ABase(lambda q: Fraction(0)))})
            w.RT = o.id
            for x, v in ((0, zero), (8, nr.scale(8)), (16, nr.scale(8))):
                ex.store(st, a[0].shift(w.orisk + x), "ptr", Ptr(o.id, v), i)
            return RET(st)

        def slots(ex, st, a, i, dem):
            src = a[2]
            rp = ex.load(st, src.shift(w.orisk), "ptr", i)
            ex.oblige(st, z3.And(rz(ex.load(st, src.shift(w.agg), "f64", i)) == 0, rz(ex.load(st, rp.shift(w.j0.scale(8)), "f64", i)) == 0, Z(P(a[1])) == Z(w.nt)), "every thread has a result slot, empty at first", i)
            nr = w.np.add(w.nc)
            RK = ex.arr_obj(st, "slot risks", w.nt.scale(BLOCK), 8, {0: ("f64", base_array("slot_risk", 1, "f64"))})
            S = ex.arr_obj(st, "slots", P(a[1]), w.sizes["results"], {w.agg: ("f64", base_array("slot_value", 1, "f64")), w.orisk: ("ptr", ABase(lambda k: Ptr(RK.id, P(k).scale(8 * BLOCK)))),
                                                                        w.orisk + 8: ("ptr", ABase(lambda k: Ptr(RK.id, P(k).scale(8 * BLOCK).add(nr.scale(8)))))})
            w.RK, w.S = RK.id, S.id
            for k in (w.sums(st, w.S, (w.agg, "f64")), w.sums(st, w.RK, (0, "f64"), w.j0)):
                st.assume(k(Z(w.nt)) == 0)      # sum of zeros (contract `slots`)
            for x, v in ((0, zero), (8, P(a[1])), (16, P(a[1]))):
                ex.store(st, a[0].shift(x), "ptr", Ptr(S.id, v.scale(w.sizes["results"])), i)
            return RET(st)

        def tapes(ex, st, a, i, dem):
            ex.oblige(st, Z(P(a[1])) == Z(w.nt), "every thread has a tape", i)
            w.TP = ex.arr_obj(st, "tapes", P(a[1]), w.sizes["tape"], {0: ("i64", base_array("tape", 1, "i64"))})
            for x, v in ((0, zero), (8, P(a[1])), (16, P(a[1]))):
                ex.store(st, a[0].shift(x), "ptr", Ptr(w.TP.id, v.scale(w.sizes["tape"])), i)
            return RET(st)

        keys = lambda: [(w.S, (w.agg, "f64"), None, SF, "value"), (w.RK, (0, "f64"), w.j0, ES, "sensitivity")]
        remember = up[r"ThreadPool_::SpawnTask<"]

        def verify_task(ex, st, cl):
            """the task's contract, once, for any first path and number of paths, on any thread with anything in its slot"""
            ex.quiet, q, wr, ex.writes = 0, ex.quiet, ex.writes, None
            try:
                s = st.fork()
                s.pc = list(w.base_pc)
                s.assume(Z(w.n) > 0)
                o = s.own(cl.obj)
                fld = {}
                for f, (ty, v) in w.layout.items():
                    if ty != "ptr":
                        x = z3.Int(fresh_name("captured"))
                        o.cells[f + cl.off.c()] = (TYSZ[ty], ty, P(x))
                        s.assume(z3.And(x >= 0, x <= Z(w.n)))
                        fld[f] = x
                if len(fld) != 2:
                    raise Unsupported("a task knows its first path and its number of paths")
                s.assume(sum(fld.values()) <= Z(w.n))
                t = z3.Int(fresh_name("thread"))
                s.assume(z3.And(t >= 0, t < Z(w.nt)))
                s.ghost["thread"] = P(t)
                w.fresh_thread(ex, s)
                for oid, k, j, fn, what in keys():
                    s.own(oid).arrays[k] = base_array(fresh_name("slots_before"), 1, "f64")
                old = {oid: s.heap[oid].arrays[k] for oid, k, j, fn, what in keys()}
                (fn_,) = w.lambdas
                rs = ex.run_function(fn_, s, [cl])
                ex.oblige(s, z3.BoolVal(any(r.kind == "ret" for r in rs)), "a task ends")
                for r in rs:
                    if r.kind != "ret":
                        ex.oblige(r.st, z3.BoolVal(False), "a task does not throw")
                        continue
                    s = r.st
                    p0, p1 = Z(w.get(s, POS0)), Z(w.get(s, POS))
                    if not hasattr(w, "first"):
                        a, b = fld
                        w.first, w.count = (a, b) if ex.entails(s, p0 == fld[a]) else (b, a)
                    ex.oblige(s, z3.And(p0 == fld[w.first], p1 == fld[w.first] + fld[w.count]), "a task draws its paths and no others")
                    for oid, k, j, fn, what in keys():
                        at = (lambda q: P(q)) if j is None else (lambda q: P(q).scale(BLOCK).add(j))
                        sel = lambda ar, q: rz(ar.select(ex, None, [at(q)]))
                        q_ = z3.Int(fresh_name("slot"))
                        na = s.heap[oid].arrays[k]
                        ex.oblige(s, z3.Implies(z3.And(q_ >= 0, q_ < Z(w.nt), q_ != t), sel(na, q_) == sel(old[oid], q_)), "a task only touches its own thread's result (%s)" % what)
                        ex.oblige(s, sel(na, t) == sel(old[oid], t) + fn(p1) - fn(p0), "a task adds the %s of its paths to its thread's result" % what)
            finally:
                ex.quiet, ex.writes = q, wr

        def spawn(ex, st, a, i, dem):
            out = remember(ex, st, a, i, dem)
            if not getattr(w, "verified", None):
                w.verified = True
                verify_task(ex, st, a[-1])
            return out

        def wait(ex, st, a, i, dem):
            k = P(ex.load(st, a[1], "i64", i))
            ex.oblige(st, z3.And(Z(k) >= 0, Z(k) < Z(P(ex.load(st, w.N, "i64", i)))), "a created task is waited for", i)
            if not hasattr(w, "first"):
                raise Unsupported("no task was created")
            f, g = [Z(P(ex.load(st, Ptr(w.T.id, 0).shift(k.scale(TASK).add(Poly.const(2 * x))), "i64", i))) for x in (w.first, w.count)]
            ex.oblige(st, z3.And(f >= 0, g >= 0, f + g <= Z(w.n)), "a task gets paths that were asked for", i)
            w.fresh_thread(ex, st)
            for oid, key, j, fn, what in keys():
                od = w.sums(st, oid, key, j)
                st.own(oid).arrays[key] = base_array(fresh_name("slots_after"), 1, "f64")
                if ex.writes is not None:
                    ex.writes.add((oid, "arr", key, "f64"))
                st.assume(w.sums(st, oid, key, j)(Z(w.nt)) == od(Z(w.nt)) + fn(f + g) - fn(f))       # a point update of one slot (contract `slots`)
            return RET(st, True)

        return base + [R(r"Dal::CreateModel<Dal::AAD::Number_>", create_model), R(UPM + r"::operator(->|\*)\(\) const", lambda ex, st, a, i, dem: RET(st, ex.load(st, a[0], "ptr", i))), R(UPM + "::get", lambda ex, st, a, i, dem: RET(st, ex.load(st, a[0], "ptr", i))),
                       R(r"StubModel_::Allocate", allocate), R(r"StubModel_::SimDim", dim), R(r"StubModel_::Clone", clone), R(r"StubModel_::ParameterLabels", con(lambda: w.labels)), R(r"StubModel_::Parameters", model_params), R(r"StubModel_::GeneratePath", gen),
                       R(r"StubRandom_::SkipTo", skip), R(r"StubRandom_::FillNormal", fill), R(r"Dal::Script::CreateRNG", create_rng), R(UP + r"::operator(->|\*)\(\)", lambda ex, st, a, i, dem: RET(st, ex.load(st, a[0], "ptr", i))),
                       R(r"ScriptProduct_::ConstVarNames", con(lambda: w.names)), R(r"Dal::Vector_<double>::Vector_\(unsigned long\)", gvec), R(r"Vector_<Dal::AAD::Sample_<Dal::AAD::Number_>>::Vector_\(\)", nop),
                       R(r"Dal::AAD::AllocatePath<Dal::AAD::Number_>", alloc_path), R(r"Dal::AAD::InitializePath<Dal::AAD::Number_>", init_path),
                       R(r"Dal::AAD::Number_::Tape\(\)", lambda ex, st, a, i, dem: RET(st, tape_now(ex, st, i))), R(r"Dal::AAD::Number_::SetTape", set_tape), R(r"Dal::AAD::Tape_::RewindToMark", to_mark), R(r"Dal::AAD::Tape_::Rewind\(", rewind),
                       R(r"ScriptProduct_::Build(FuzzyEvaluator|EvalState)<Dal::AAD::Number_>", build), R(r"InitModel4ParallelAAD<", prepare), R(r"ScriptProduct_::Evaluate(Compiled)?<", evaluate),
                       R(r"(EvaluatorBase_<Dal::AAD::Number_, Dal::Script::FuzzyEvaluator_>|EvalState_<Dal::AAD::Number_>)::VarVals\(\)", vals), R(r"(EvaluatorBase_<Dal::AAD::Number_, Dal::Script::FuzzyEvaluator_>|EvalState_<Dal::AAD::Number_>)::ConstVarVals\(\)", constants),
                       R(r"Dal::AAD::Number_::PropagateToMark", propagate), R(r"Dal::AAD::Number_::PropagateMarkToStart", to_start), R(r"Dal::AAD::Number_::Adjoint\(\)", adjoint),
                       R(r"Dal::AAD::Number_::CreateMultiNode<", record), R(r"Dal::Vector::Join<", join), R(r"SimResults_::SimResults_\(Dal::Vector_", results), R(r"Dal::Vector_<Dal::Script::SimResults_>::Vector_\(unsigned long, Dal::Script::SimResults_ const&", slots),
                       R(r"Dal::Vector_<Dal::AAD::Tape_>::Vector_\(unsigned long", tapes), R(r"ThreadPool_::ActiveWait", wait), R(r"ThreadPool_::SpawnTask<", spawn), R(r"::~\w+\(\)$", nop)]


@contract("a")
def sensitivities(c):
    """MCSimulation<Number_>: the value is the sum of the payoff over the paths 0..n-1, each sensitivity the sum of the payoff's derivative over them, divided by n"""
    w = WorldA(c)

    def inv(ctx):
        out = []
        iv = ctx.ints()
        st = ctx.st
        c.ex.quiet += 1
        try:
            K = P(c.ex.load(st, w.N, "i64"))
            pos, pos0, phase, rec = [Z(w.get(st, k)) for k in (POS, POS0, PHASE, REC)]
            tape = w.get(st, TAPE)
            dsum = rz(w.get(st, DSUM, "f64"))
        finally:
            c.ex.quiet -= 1
        sel = lambda k, q: Z(ctx.sel(st, w.T.id, k, q))
        chg = {oid for oid, k in ctx.arrays}
        lo = lambda q, f, g: z3.If(Z(q) == 0, 0, sel(f, P(q).add(one, -1)) + sel(g, P(q).add(one, -1)))
        F, S, RK, RT = [getattr(w, x, -1) for x in ("F", "S", "RK", "RT")]
        ib = [k for k in w.ints() if k in st.heap[w.T.id].arrays]
        pairs = [(f, g) for f in ib for g in ib if f != g]
        tn = st.ghost.get("thread")
        if tn is not None:
            out.append(("stream", pos >= pos0))
            out.append(("derivatives so far", dsum == ES(pos) - ES(pos0)))
            out.append(("phase paths", phase == 1))
            out.append(("phase done", phase == 2))
            out.append(("own tape", Z(tape) == Z(tn)))
        if tn is None:
            out.append(("caller's tape", Z(tape) == -1))
        slot_ptrs = [v for v in ctx.env.values() if isinstance(v, Ptr) and v.obj == S and v.off.div_exact(w.sizes["results"]) is not None]
        for v in iv:
            cur = Z(v["cur"])
            t = v.get("ptr")
            if t is not None:
                out.append(("%s within" % v["name"], cur >= Z(v["entry"])))
                if t == F:
                    out.append(("%s up to the tasks" % v["name"], cur <= Z(K)))
                    out.append(("%s one per task" % v["name"], cur == Z(K)))
                if t == S:
                    out.append(("%s up to the threads" % v["name"], cur <= Z(w.nt)))
                    c.ex.quiet += 1
                    a = rz(c.ex.load(st, w.res.shift(w.agg), "f64"))
                    c.ex.quiet -= 1
                    out.append(("%s: value of the slots so far" % v["name"], a == w.sums(st, S, (w.agg, "f64"))(cur)))
                    if RT in chg:
                        out.append(("%s: sensitivity of the slots so far" % v["name"], rz(ctx.cur(RT, (0, "f64"), w.j0)) == w.sums(st, RK, (0, "f64"), w.j0)(cur)))
            else:
                out.append(("%s not negative" % v["name"], cur >= 0))
                out.append(("%s up to the paths" % v["name"], cur <= Z(w.n)))
                for m, nm in ((w.np, "parameters"), (w.nc, "constants"), (w.np.add(w.nc), "sensitivities")):
                    out.append(("%s up to the %s" % (v["name"], nm), cur <= Z(m)))
                out.append(("%s is the number of tasks" % v["name"], cur == Z(K)))
                if tn is None:
                    out.append(("%s: no more tasks" % v["name"], z3.And(cur >= Z(K), Z(K) >= 0)))
                for f, g in pairs:
                    out.append(("%s continues task_%d + task_%d" % (v["name"], f[0], g[0]), cur == lo(K, f, g)))
                    out.append(("%s is what is left after task_%d + task_%d" % (v["name"], f[0], g[0]), cur == Z(w.n) - lo(K, f, g)))
                for q_, a, b in c.ex.quotients:
                    out.append(("%s at full batches of %s" % (v["name"], q_), cur == z3.If(Z(K.mul(b)) <= Z(w.n), Z(K.mul(b)), Z(w.n))))
                if tn is not None:
                    out.append(("%s: stream position" % v["name"], pos == pos0 + cur))
                    if RK in chg and "adjoint" in st.ghost:
                        at = P(tn).scale(BLOCK).add(w.j0)
                        for b, nm in ((zero, "parameters"), (w.np, "constants")):
                            out.append(("%s: %s added" % (v["name"], nm), rz(ctx.cur(RK, (0, "f64"), at)) == rz(ctx.old(RK, (0, "f64"), at)) + z3.If(z3.And(Z(w.j0) >= Z(b), Z(w.j0) < Z(b) + cur), dsum, 0)))
                elif RT in chg:
                    for sp in slot_ptrs:
                        q = sp.off.div_exact(w.sizes["results"])
                        out.append(("%s: slot %s added" % (v["name"], sp.off), rz(ctx.cur(RT, (0, "f64"), w.j0)) == rz(ctx.old(RT, (0, "f64"), w.j0)) + z3.If(cur > Z(w.j0), rz(ctx.sel(st, RK, (0, "f64"), q.scale(BLOCK).add(w.j0))), 0)))
        for oid, k in ctx.arrays:
            if oid == F:
                out.append(("futures of the tasks in order", All(lambda q, oid=oid, k=k: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), Z(ctx.cur(oid, k, q)) == Z(q)))))
            if oid == w.T.id and k in w.used():
                for f, g in pairs:
                    if k == f:
                        out.append(("task_%d follows on with task_%d" % (f[0], g[0]), All(lambda q, f=f, g=g: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(K)), z3.And(sel(f, q) == lo(q, f, g), sel(g, q) >= 0, sel(f, q) >= 0, sel(f, q) + sel(g, q) <= Z(w.n))))))
            if oid == RK and tn is not None:
                lo_ = Z(P(tn).scale(BLOCK))
                out.append(("other slots untouched", All(lambda q: z3.Implies(z3.Or(Z(q) < lo_, Z(q) >= lo_ + BLOCK), rz(ctx.cur(RK, (0, "f64"), q)) == rz(ctx.old(RK, (0, "f64"), q))))))
            if oid in (S, RK) and tn is None:
                j = None if oid == S else w.j0
                for v in iv:
                    if v.get("ptr") == F and k in ((w.agg, "f64"), (0, "f64")):
                        for f, g in pairs:
                            fn = SF if oid == S else ES
                            out.append(("%s: finished tasks in the slots of %d (%d, %d)" % (v["name"], oid, f[0], g[0]), w.sums(st, oid, k, j)(Z(w.nt)) == fn(lo(v["cur"], f, g)) - fn(0)))
        if tn is not None:
            for x in ctx.reals():
                out.append(("%s sums the payoffs" % x["name"], rz(x["cur"]) == SF(pos) - SF(pos0)))
        return out
    c.exec(w.handlers(), [("MCSimulation<Dal::AAD::Number_>", inv)], global_values={"_ZN3Dal3AAD5Tape_6multi_E": {0: ("i8", zero)}})
    w.lambdas = [f["name"] for f in c.m.find(r"^Dal::Script::SimResults_ Dal::Script::MCSimulation<Dal::AAD::Number_>.*'lambda'\(\)::operator\(\)\(\)( const)?$")]
    w.setup(2 ** 31 - 2)
    c.st.schemas.append(Schema("sum of payoffs", [SF], lambda i: z3.Implies(i > 0, SF(i) == SF(i - 1) + PV(i - 1, Z(w.pay)))))
    c.st.schemas.append(Schema("sum of derivatives", [ES], lambda i: z3.Implies(i > 0, ES(i) == ES(i - 1) + DV(i - 1))))
    c.st.schemas.append(w.schema())
    w.base_pc = list(c.st.pc)
    w.res = res = c.obj("results", {w.agg: ("f64", c.real("old"))}, 256)
    r = c.call(r"^Go\(", [res, w.product, w.data, w.n, w.rsg, w.bb, w.compiled])

    def post(st, _):
        rp = c.ex.load(st, res.shift(w.orisk), "ptr")
        return [("sum over the paths", rz(c.ex.load(st, res.shift(w.agg), "f64")) == SF(Z(w.n)) - SF(0)),
                ("sensitivity", rz(c.ex.load(st, rp.shift(w.j0.scale(8)), "f64")) == ES(Z(w.n)) - ES(0)), ("the caller's tape is put back", Z(w.get(st, TAPE)) == -1)]
    c.ensure_all(r, "result", post)


@contract("a")
def slots(c):
    """changing one slot by d changes the sum over the slots by d; empty slots sum to zero (induction over the slots)"""
    c.exec()
    a, b = z3.Function("before", I_, RR), z3.Function("after", I_, RR)
    A, B = z3.Function("sum_before", I_, RR), z3.Function("sum_after", I_, RR)
    q, t, d = z3.Int("q"), z3.Int("t"), z3.Real("d")
    st = State()
    st.assume(z3.And(q >= 0, t >= 0, A(0) == 0, B(0) == 0, A(q + 1) == A(q) + a(q), B(q + 1) == B(q) + b(q), b(q) == a(q) + z3.If(q == t, d, 0)))
    inv = lambda k: B(k) == A(k) + z3.If(t < k, d, 0)
    c.ensure(st, inv(z3.IntVal(0)), "no slots")
    c.ensure(st, z3.Implies(inv(q), inv(q + 1)), "one more slot")
    c.ensure(st, z3.Implies(z3.And(a(q) == 0, A(q) == 0), A(q + 1) == 0), "one more empty slot")


def prepared(c, rx, cls):
    """every parameter and constant is on the tape, then the model and the path are set up, then the tape is marked"""
    w = WorldA(c)
    GEN, INIT, PATHS, MARK = 0, 8, 16, 24
    g = lambda st, k: P(c.ex.load(st, w.E.shift(k), "i64"))
    on = lambda st, o, q: P(st.heap[o].arrays[(0, "i64p")].select(c.ex, None, [P(q)]))

    def rewind(ex, st, a, i, dem):
        ex.store(st, w.E.shift(GEN), "i64", g(st, GEN).add(one), i)
        for k in (INIT, PATHS, MARK):
            ex.store(st, w.E.shift(k), "i64", zero, i)
        return RET(st)

    def put(ex, st, a, i, dem):
        sz = w.sizes["number"]
        if not (isinstance(a[0], Ptr) and a[0].obj in (w.PAR.id, w.CON.id)):
            raise Unsupported("an unknown number is put on the tape")
        ex.store(st, Ptr(w.ON[a[0].obj], 0).shift(a[0].off.div_exact(sz).scale(8)), "i64", g(st, GEN), i)
        return RET(st)

    def ready(ex, st, i, what):
        for o, n in ((w.PAR.id, w.np), (w.CON.id, w.nc)):
            q = z3.Int(fresh_name("any"))
            ex.oblige(st, z3.Implies(z3.And(q >= 0, q < Z(n)), Z(on(st, w.ON[o], q)) == Z(g(st, GEN))), "%s after parameters and constants are on the tape" % what, i)

    def init(ex, st, a, i, dem):
        ready(ex, st, i, "the model is initialised")
        ex.oblige(st, z3.BoolVal(a[0] == w.clone and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].obj == a[2].obj == w.product.obj and a[1] != a[2]), "the model gets the product's dates", i)
        ex.store(st, w.E.shift(INIT), "i64", one, i)
        return RET(st)

    def path(ex, st, a, i, dem):
        ex.oblige(st, z3.BoolVal(a[0] == w.path), "the given path is initialised", i)
        ex.store(st, w.E.shift(PATHS), "i64", one, i)
        return RET(st)

    def mark(ex, st, a, i, dem):
        ready(ex, st, i, "the tape is marked")
        ex.oblige(st, z3.And(Z(g(st, INIT)) == 1, Z(g(st, PATHS)) == 1), "the tape is marked once all is set up", i)
        ex.store(st, w.E.shift(MARK), "i64", one, i)
        return RET(st)

    def inv(ctx):
        out = []
        for v in ctx.ints():
            t = v.get("ptr")
            n, o = (w.np, w.PAR.id) if t == w.pp else (w.nc, w.CON.id) if t == w.CON.id else (None, None)
            if n is None:
                continue
            out.append(("%s within" % v["name"], z3.And(Z(v["cur"]) >= 0, Z(v["cur"]) <= Z(n))))
            out.append(("%s: on the tape so far" % v["name"], All(lambda q, v=v, o=o: z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(v["cur"])), Z(on(ctx.st, w.ON[o], q)) == Z(g(ctx.st, GEN))))))
        return out
    R = lambda rx, h: (re.compile(rx), h)
    c.exec([R(r"Tape_::Rewind\(", rewind), R(r"Number_::PutOnTape", put), R(r"StubModel_::Init", init), R(r"StubModel_::Parameters", lambda ex, st, a, i, dem: RET(st, w.params)), R(r"InitializePath<", path), R(r"Tape_::Mark\(", mark),
            R(r"Number_::Tape\(\)", lambda ex, st, a, i, dem: RET(st, w.main)), R(r"::ConstVarVals\(\)", lambda ex, st, a, i, dem: RET(st, w.consts))], [("InitModel4ParallelAAD", inv)])
    w.setup(2 ** 31 - 2)
    w.pp = c.ex.load(c.st, w.params, "ptr").obj
    w.ON = {o: c.ex.arr_obj(c.st, "on tape %d" % o, n, 8, {0: ("i64", base_array("on_tape_%d" % o, 1, "i64"))}).id for o, n in ((w.PAR.id, w.np), (w.CON.id, w.nc))}
    gen = c.int("tape generation", 0, 1000)
    for o in w.ON.values():
        c.st.schemas.append(Schema("nothing of the next generation %d" % o, [c.st.heap[o].arrays[(0, "i64p")].decl], lambda q, o=o, a=c.st.heap[o].arrays[(0, "i64p")]: Z(a.select(c.ex, None, [P(q)])) <= Z(gen)))
    w.E = c.obj("events", {GEN: ("i64", gen), INIT: ("i64", c.int("e1")), PATHS: ("i64", c.int("e2")), MARK: ("i64", c.int("e3"))}, 32)
    w.path, ev = c.obj("path", {0: ("i64", zero)}, 24), c.obj("evaluator", {0: ("i64", zero)}, 8192)
    c.ensure_all(c.call(rx, [w.product, w.clone, w.path, ev]), cls, lambda st, _: [("the tape was started afresh", Z(g(st, GEN)) > Z(gen)), ("the tape is marked", Z(g(st, MARK)) == 1)])


@contract("a")
def prepared_compiled(c):
    prepared(c, r"^Prepare\(", "compiled")


@contract("a")
def prepared_fuzzy(c):
    prepared(c, r"^PrepareFuzzy\(", "interpreted")
