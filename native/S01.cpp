#include "script.inc"
static void One(int k) {
    G::opt = G::Opt();
    G::opt.vars = (int)H::R(1, 6);
    G::opt.depth = (int)H::R(1, 4);
    G::opt.nest = (int)H::R(0, 3);
    G::opt.tiny = H::B();
    const G::Prog p = G::Make();
    ScriptProduct_ tree = G::Product(p), comp = G::Product(p);
    tree.PreProcess(false, true);
    comp.PreProcess(false, true);
    comp.Compile();
    auto ev = tree.BuildEvaluator<double>();
    auto st = comp.BuildEvalState<double>();
    for (int j = 0; j < 4; ++j) {
        const auto s = G::Scenario(p);
        const auto want = G::Meaning(p, s);
        if (!G::finite) continue;
        const auto path = G::Real<double>(s);
        tree.Evaluate(path, ev);
        G::Same("tree evaluation", p, s, G::Named(tree, ev.VarVals()), want);
        comp.EvaluateCompiled(path, st);
        G::Same("compiled evaluation", p, s, G::Named(comp, st.VarVals()), want);
    }
}
void Search() { for (int k = 0; H::Time(); ++k) One(k); }
void Replay() { Search(); }
