#include <dal/platform/platform.hpp>
#include <dal/script/simulation.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/operators.hpp>
#include "h.hpp"
using namespace Dal;
using namespace Dal::Script;
using namespace Dal::AAD;
static std::string log_;
static Date_ Base() { return Date_(2022, 6, 22); }
static ScriptProduct_ Product(int kind, bool future) {
    Vector_<Cell_> d;
    Vector_<String_> e;
    auto ev = [&](int days, const char* s) { d.push_back(Cell_(Base().AddDays(days))); e.push_back(String_(s)); };
    auto cst = [&](const char* n, double v) { d.push_back(Cell_(String_(n))); e.push_back(String_(std::to_string(v))); };
    char b[80];
    switch (kind) {
    case 0:
        cst("STRIKE", H::U(80, 120));
        ev((int)H::R(1, 900), "call pays MAX(spot() - STRIKE, 0.0)");
        break;
    case 1:                                                            // running average and a barrier, state carried between dates
        cst("STRIKE", H::U(80, 120));
        if (!future) ev(0, "avg = spot()"); else ev(7, "avg = 0.5 * spot()");
        for (int i = 1, t = 30; i < 4; ++i, t += (int)H::R(20, 200)) ev(t, "avg = avg + spot() IF spot() > 110 THEN alive = 1 END");
        ev(800, "res pays MAX(avg / 4 - STRIKE, 0) * alive");
        break;
    case 2:                                                            // accumulates: a state that leaked from path to path would show
        ev(30, "x = x + spot()");
        ev(90, "x = x + 2 * spot() y pays x / 3");
        break;
    case 4:                                                            // the payoff is a constant or a parameter itself
        cst("K", H::U(90, 110));
        ev((int)H::R(1, 300), H::B() ? "p = K" : "IF spot() > 100 THEN p = K END");
        break;
    case 5:
        ev(0, "p = spot()");
        if (H::B()) ev(90, "q = spot() IF q > 120 THEN p = q END");
        break;
    default:
        cst("K", H::U(90, 110)); cst("REBATE", H::U(0, 5));
        ev(50, "IF spot() > K THEN hit = 1 END");
        ev((int)H::R(60, 400), "IF hit >= 1 THEN p pays REBATE ELSE p pays MAX(K - spot(), 0) END");
    }
    (void)b;
    return ScriptProduct_(d, e, kind == 0 ? "call" : kind == 1 ? "res" : kind == 2 ? "y" : "p");
}
struct Setup { Handle_<ModelData_> data; double s, v, r, q; };
static Setup Model() {
    Setup m;
    m.s = H::U(80, 120); m.v = H::U(0.05, 0.5); m.r = H::U(-0.01, 0.08); m.q = H::U(-0.01, 0.05);
    m.data = Handle_<ModelData_>(new BSModelData_("m", m.s, m.v, m.r, m.q));
    return m;
}
// the definition: path after path from one generator
static double Value(const ScriptProduct_& p, const Setup& m, size_t n, const String_& rsg, bool bb, bool compiled) {
    auto mdl = CreateModel<double>(m.data);
    mdl->Allocate(p.TimeLine(), p.DefLine());
    mdl->Init(p.TimeLine(), p.DefLine());
    auto rng = CreateRNG(rsg, mdl->SimDim(), bb);
    Vector_<> g(mdl->SimDim());
    Scenario_<> path;
    AllocatePath(p.DefLine(), path);
    double sum = 0;
    for (size_t i = 0; i < n; ++i) {
        InitializePath(path);
        rng->FillNormal(&g);
        mdl->GeneratePath(g, &path);
        if (compiled) { auto e = p.BuildEvalState<double>(); p.EvaluateCompiled(path, e); sum += e.VarVals()[p.PayOffIdx()]; }
        else { auto e = p.BuildEvaluator<double>(); p.Evaluate(path, e); sum += e.VarVals()[p.PayOffIdx()]; }
    }
    return sum;
}
static double Risks(const ScriptProduct_& p, const Setup& m, size_t n, const String_& rsg, bool bb, bool compiled, int nested, double eps, std::vector<double>* out) {
    static Tape_ tape;
    Number_::SetTape(tape);
    std::unique_ptr<Random_> rng;
    double sum = 0;
    for (size_t i = 0; i < n; ++i) {                                   // everything afresh for every path
        Number_::Tape()->Rewind();
        auto mdl = CreateModel<Number_>(m.data);
        mdl->Allocate(p.TimeLine(), p.DefLine());
        if (!rng) rng = CreateRNG(rsg, mdl->SimDim(), bb);
        Scenario_<Number_> path;
        AllocatePath(p.DefLine(), path);
        Vector_<> g(mdl->SimDim());
        auto go = [&](auto& e, auto eval) {
            for (auto* x : mdl->Parameters()) x->PutOnTape();
            for (auto& x : e.ConstVarVals()) x.PutOnTape();
            mdl->Init(p.TimeLine(), p.DefLine());
            InitializePath(path);
            rng->FillNormal(&g);
            mdl->GeneratePath(g, &path);
            eval(e);
            Number_ res = e.VarVals()[p.PayOffIdx()];
            res.PropagateToStart();
            sum += res.value();
            size_t k = 0;
            out->resize(mdl->Parameters().size() + e.ConstVarVals().size(), 0.0);
            for (auto* x : mdl->Parameters()) (*out)[k++] += x->Adjoint() / (double)n;
            for (auto& x : e.ConstVarVals()) (*out)[k++] += x.Adjoint() / (double)n;
        };
        if (compiled) { auto e = p.BuildEvalState<Number_>(); go(e, [&](auto& x) { p.EvaluateCompiled(path, x); }); }
        else { auto e = p.BuildFuzzyEvaluator<Number_>(nested, eps); go(e, [&](auto& x) { p.Evaluate(path, x); }); }
    }
    return sum;
}
static size_t Paths(bool big) {
    static const long edge[] = {1, 2, 3, 511, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3073, 8191, 8192, 8193, 9000, 9217};
    if (!big) return (size_t)(H::B() ? H::R(1, 40) : edge[H::R(0, 8)]);
    return (size_t)(H::R(0, 2) ? edge[H::R(0, 16)] : H::R(1, 12000));
}
static void One(bool aad) {
    const int kind = (int)H::R(0, 6);
    auto p = Product(kind, H::B());
    const bool compiled = H::B(), bb = H::R(0, 2) == 0;
    const String_ rsg(H::R(0, 2) ? "mrg32" : "irn");
    const int nested = (int)p.PreProcess(aad && !compiled, false);
    if (compiled) p.Compile();
    const Setup m = Model();
    const size_t n = Paths(!aad);
    if (aad) {
        const double eps = 0.01;
        std::vector<double> want;
        const double v = Risks(p, m, n, rsg, bb, compiled, nested, eps, &want);
        static Tape_ main;
        Number_::SetTape(main);
        SimResults_ r = MCSimulation<Number_>(p, m.data, n, rsg, bb, compiled, nested, eps);
        if (!H::Close(r.aggregated_, v, 1e-9)) H::Fail("product %d, %zu paths, %s%s%s: simulated with sensitivities %.17g, path by path %.17g", kind, n, rsg.c_str(), bb ? " bridged" : "", compiled ? " compiled" : "", r.aggregated_, v);
        if (r.risks_.size() != want.size()) H::Fail("%zu sensitivities, %zu expected", r.risks_.size(), want.size());
        for (size_t k = 0; k < want.size(); ++k) {
            if (!H::Close(r.risks_[k], want[k], 1e-8)) H::Fail("product %d, %zu paths, %s%s%s: sensitivity %zu is %.17g, path by path %.17g", kind, n, rsg.c_str(), bb ? " bridged" : "", compiled ? " compiled" : "", k, r.risks_[k], want[k]);
            if (r[r.names_[k]] != r.risks_[k]) H::Fail("sensitivity %s by name differs from its position", r.names_[k].c_str());
        }
        static const char* names[] = {"spot", "vol", "rate", "div"};
        for (int k = 0; k < 4; ++k) if (!(r.names_[k] == names[k])) H::Fail("sensitivity %d is not named %s", k, names[k]);
        for (size_t k = 0; k < p.ConstVarNames().size(); ++k) if (!(r.names_[4 + k] == p.ConstVarNames()[k])) H::Fail("sensitivity %zu is not named after its constant", 4 + k);
    } else {
        const double v = Value(p, m, n, rsg, bb, compiled);
        SimResults_ r = MCSimulation<double>(p, m.data, n, rsg, bb, compiled);
        if (!H::Close(r.aggregated_, v, 1e-9)) H::Fail("product %d, %zu paths, %s%s%s: simulated %.17g, path by path %.17g", kind, n, rsg.c_str(), bb ? " bridged" : "", compiled ? " compiled" : "", r.aggregated_, v);
    }
    H::evaluations += n;
}
void Search() {
    Global::Dates_::SetEvaluationDate(Base());
    while (H::Time()) { One(false); One(true); }
}
void Replay() {
    H::secs = 6;
    Search();
}
