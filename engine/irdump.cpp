// irdump: reads LLVM bitcode produced by clang from /repo's sources, runs a light
// scalar clean-up (SROA/mem2reg, CFG simplification, dead code) on every function and
// prints, as JSON, every function reachable from the requested roots together with the
// globals they use.  Nothing is dropped: instructions the reader does not know are
// printed with their opcode and the verifier refuses to interpret them.
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <regex>
#include <deque>
using namespace llvm;

static const DataLayout *DL;
static std::deque<const GlobalValue *> work;
static std::set<const GlobalValue *> seen;
static void need(const GlobalValue *g) { if (seen.insert(g).second) work.push_back(g); }

static json::Value ty(Type *t) {
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatTy()) return "f32";
    if (t->isX86_FP80Ty()) return "f80";
    if (t->isPointerTy()) return "ptr";
    if (auto *s = dyn_cast<StructType>(t)) {
        json::Array a;
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            json::Array e; e.push_back((int64_t)DL->getStructLayout(s)->getElementOffset(i).getFixedValue()); e.push_back(ty(s->getElementType(i)));
            a.push_back(std::move(e));
        }
        return json::Object{{"struct", std::move(a)}, {"size", (int64_t)DL->getTypeAllocSize(t).getFixedValue()}};
    }
    if (auto *s = dyn_cast<ArrayType>(t))
        return json::Object{{"array", ty(s->getElementType())}, {"n", (int64_t)s->getNumElements()}, {"esz", (int64_t)DL->getTypeAllocSize(s->getElementType()).getFixedValue()}};
    if (auto *s = dyn_cast<FixedVectorType>(t))
        return json::Object{{"vector", ty(s->getElementType())}, {"n", (int64_t)s->getNumElements()}};
    std::string str; raw_string_ostream os(str); t->print(os);
    return "?" + str;
}
static std::string fphex(const APFloat &f0) {
    APFloat f = f0; bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
    if (f.isNaN()) return "nan";
    char buf[64]; snprintf(buf, sizeof buf, "%a", f.convertToDouble()); return buf;
}
static std::map<const Value *, int> *ids;
static json::Value val(const Value *v);
static json::Value cst(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { SmallString<32> s; i->getValue().toStringSigned(s); return json::Object{{"c", std::string(s.str())}, {"t", ty(c->getType())}}; }
    if (auto *f = dyn_cast<ConstantFP>(c)) return json::Object{{"f", fphex(f->getValueAPF())}, {"t", ty(c->getType())}};
    if (isa<ConstantPointerNull>(c)) return json::Object{{"null", true}, {"t", "ptr"}};
    if (isa<PoisonValue>(c)) return json::Object{{"undef", true}, {"t", ty(c->getType())}};
    if (isa<UndefValue>(c)) return json::Object{{"undef", true}, {"t", ty(c->getType())}};
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", true}, {"t", ty(c->getType())}};
    if (auto *g = dyn_cast<GlobalValue>(c)) { need(g); return json::Object{{"g", g->getName().str()}, {"t", "ptr"}}; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (e->getOpcode() == Instruction::GetElementPtr) {
            auto *gep = cast<GEPOperator>(e); APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off))
                return json::Object{{"gep", cst(cast<Constant>(gep->getPointerOperand()))}, {"off", off.getSExtValue()}, {"t", "ptr"}};
        }
        json::Array a; for (auto &o : e->operands()) a.push_back(cst(cast<Constant>(o)));
        return json::Object{{"ce", e->getOpcodeName()}, {"ops", std::move(a)}, {"t", ty(c->getType())}};
    }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        json::Array a; for (unsigned i = 0; i < d->getNumElements(); ++i) a.push_back(cst(d->getElementAsConstant(i)));
        return json::Object{{"agg", std::move(a)}, {"t", ty(c->getType())}};
    }
    if (auto *d = dyn_cast<ConstantAggregate>(c)) {
        json::Array a; for (auto &o : d->operands()) a.push_back(cst(cast<Constant>(o)));
        return json::Object{{"agg", std::move(a)}, {"t", ty(c->getType())}};
    }
    return json::Object{{"other", true}, {"t", ty(c->getType())}};
}
static json::Value val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    auto it = ids->find(v);
    if (it != ids->end()) return json::Object{{"v", it->second}, {"t", ty(v->getType())}};
    if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Object{{"bb", (*ids)[bb]}};
    return json::Object{{"other", true}, {"t", "?"}};
}
static json::Value dumpFunction(Function &F) {
    std::map<const Value *, int> m; ids = &m; int n = 0;
    json::Array args;
    for (auto &a : F.args()) {
        m[&a] = n;
        json::Object o{{"id", n++}, {"t", ty(a.getType())}, {"name", a.getName().str()}};
        if (a.hasByValAttr()) o["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
        if (a.hasStructRetAttr()) o["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
        args.push_back(std::move(o));
    }
    int nb = 0; for (auto &b : F) m[&b] = nb++;
    for (auto &i : instructions(F)) m[&i] = n++;
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array blocks;
    for (auto &b : F) {
        json::Array ins;
        for (auto &i : b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue;
            }
            json::Object o{{"op", i.getOpcodeName()}, {"id", m[&i]}, {"t", ty(i.getType())}};
            if (i.hasName()) o["name"] = i.getName().str();
            if (auto &dl = i.getDebugLoc()) {
                o["line"] = (int64_t)dl.getLine();
                if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) o["file"] = sc->getFilename().str();
            }
            if (auto *p = dyn_cast<PHINode>(&i)) {
                json::Array in;
                for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) in.push_back(json::Array{val(p->getIncomingValue(k)), m[p->getIncomingBlock(k)]});
                o["in"] = std::move(in);
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                MapVector<Value *, APInt> vo; APInt co(64, 0);
                if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) {
                    o["base"] = val(g->getPointerOperand()); o["off"] = co.getSExtValue();
                    json::Array va; for (auto &kv : vo) va.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
                    o["var"] = std::move(va);
                } else o["op"] = "gep?";
            } else if (auto *c = dyn_cast<CallBase>(&i)) {
                o["callee"] = val(c->getCalledOperand());
                json::Array a; json::Array bv;
                for (unsigned k = 0; k < c->arg_size(); ++k) { a.push_back(val(c->getArgOperand(k))); bv.push_back(c->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(c->getParamByValType(k)).getFixedValue() : (int64_t)0); }
                o["args"] = std::move(a); o["byval"] = std::move(bv);
                o["noreturn"] = c->doesNotReturn();
                if (auto *iv = dyn_cast<InvokeInst>(c)) { o["normal"] = m[iv->getNormalDest()]; o["unwind"] = m[iv->getUnwindDest()]; }
            } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                json::Array s; for (unsigned q = 0; q < br->getNumSuccessors(); ++q) s.push_back(m[br->getSuccessor(q)]);
                o["succ"] = std::move(s);
                if (br->isConditional()) o["cond"] = val(br->getCondition());
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                o["cond"] = val(sw->getCondition()); o["default"] = m[sw->getDefaultDest()];
                json::Array cs; for (auto &k : sw->cases()) cs.push_back(json::Array{cst(k.getCaseValue()), m[k.getCaseSuccessor()]});
                o["cases"] = std::move(cs);
            } else {
                json::Array a; for (auto &op : i.operands()) a.push_back(val(op));
                o["ops"] = std::move(a);
                if (auto *c = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                if (auto *al = dyn_cast<AllocaInst>(&i)) { o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); o["at"] = ty(al->getAllocatedType()); }
                if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                if (auto *ev = dyn_cast<InsertValueInst>(&i)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&i)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
                if (auto *lp = dyn_cast<LandingPadInst>(&i)) o["catches"] = (int64_t)lp->getNumClauses();
                if (auto *st = dyn_cast<StoreInst>(&i)) o["ssz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
                if (auto *ld = dyn_cast<LoadInst>(&i)) o["ssz"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
                if (auto *cx = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(cx->getOperation()).str();
            }
            ins.push_back(std::move(o));
        }
        json::Object bo{{"id", m[&b]}, {"ins", std::move(ins)}};
        if (Loop *L = LI.getLoopFor(&b)) bo["loop"] = m[L->getHeader()];
        blocks.push_back(std::move(bo));
    }
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
        json::Array bl; for (auto *b : L->blocks()) bl.push_back(m[b]);
        json::Array lt; SmallVector<BasicBlock *, 4> latches; L->getLoopLatches(latches); for (auto *b : latches) lt.push_back(m[b]);
        json::Object lo{{"header", m[L->getHeader()]}, {"blocks", std::move(bl)}, {"latches", std::move(lt)}, {"depth", (int64_t)L->getLoopDepth()}};
        lo["parent"] = L->getParentLoop() ? m[L->getParentLoop()->getHeader()] : -1;
        loops.push_back(std::move(lo));
    }
    json::Object fo{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"args", std::move(args)}, {"ret", ty(F.getReturnType())}, {"blocks", std::move(blocks)}, {"loops", std::move(loops)}};
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
    return fo;
}
int main(int argc, char **argv) {
    if (argc < 3) { errs() << "usage: irdump in.bc root-regex...\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify,adce)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
    std::vector<std::regex> rx; for (int i = 2; i < argc; ++i) rx.emplace_back(argv[i]);
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = demangle(F.getName().str());
        for (auto &r : rx) if (std::regex_search(d, r) || std::regex_search(F.getName().str(), r)) { need(&F); break; }
    }
    json::Array fns; json::Object globals; json::Object decls;
    while (!work.empty()) {
        auto *g = work.front(); work.pop_front();
        if (auto *f = dyn_cast<Function>(g)) {
            if (f->isDeclaration()) decls[f->getName().str()] = demangle(f->getName().str());
            else fns.push_back(dumpFunction(*const_cast<Function *>(f)));
        } else if (auto *v = dyn_cast<GlobalVariable>(g)) {
            std::map<const Value *, int> m; ids = &m;
            json::Object o{{"size", (int64_t)DL->getTypeAllocSize(v->getValueType()).getFixedValue()}, {"const", v->isConstant()}, {"t", ty(v->getValueType())}, {"dem", demangle(v->getName().str())}};
            if (v->hasInitializer()) o["init"] = cst(v->getInitializer());
            globals[v->getName().str()] = std::move(o);
        } else if (auto *a = dyn_cast<GlobalAlias>(g)) {
            auto *t = a->getAliaseeObject(); need(t);
            globals[a->getName().str()] = json::Object{{"alias", t->getName().str()}};
        }
    }
    json::Object out{{"functions", std::move(fns)}, {"globals", std::move(globals)}, {"decls", std::move(decls)}};
    outs() << json::Value(std::move(out)) << "\n";
    return 0;
}
