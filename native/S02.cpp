#include "script.inc"
#include <sys/resource.h>
#include <new>
static void One(int k) {
    G::opt = G::Opt();
    G::opt.vars = (int)H::R(1, 5);
    G::opt.depth = (int)H::R(1, 3);
    G::opt.nest = (int)H::R(1, 3);
    G::opt.div = H::R(0, 3) == 0;
    const G::Prog p = G::Make();
    ScriptProduct_ tree = G::Product(p), comp = G::Product(p);
    try { tree.PreProcess(false, false); comp.PreProcess(false, false); } catch (const Exception_&) { return; } catch (const std::bad_alloc&) { return; }   // sets of millions of values: given up
    comp.Compile();
    auto ev = tree.BuildEvaluator<double>();
    auto st = comp.BuildEvalState<double>();
    for (int j = 0; j < 6; ++j) {
        const auto s = G::Scenario(p);
        const auto want = G::Meaning(p, s);
        if (!G::finite || G::tie) continue;
        const auto path = G::Real<double>(s);
        tree.Evaluate(path, ev);
        G::Same("tree evaluation after preprocessing", p, s, G::Named(tree, ev.VarVals()), want);
        comp.EvaluateCompiled(path, st);
        G::Same("compiled evaluation after preprocessing", p, s, G::Named(comp, st.VarVals()), want);
    }
}
void Search() { rlimit m = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &m);  for (int k = 0; H::Time(); ++k) One(k); }
void Replay() { Search(); }
