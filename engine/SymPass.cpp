// LLVM pass: turns every floating-point operation of the module into a call of the symbolic
// runtime.  Symbolic doubles are NaN-boxed term ids, so loads, stores, memcpy, calls and
// returns need no instrumentation.  Boolean values derived from floating-point comparisons
// are carried as 64-bit term handles next to the i1 values ("shadow") and are only made
// concrete (forking the process) where control flow or integer data depends on them.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
namespace {
struct Sym {
  Module& M; LLVMContext& C; Type *I64, *I32, *D, *F, *I1;
  Sym(Module& m) : M(m), C(m.getContext()) {
    I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I1 = Type::getInt1Ty(C);
    D = Type::getDoubleTy(C); F = Type::getFloatTy(C);
  }
  bool isfp(Type* t) { return t == D || t == F; }
  FunctionCallee fn(const std::string& n, Type* r, ArrayRef<Type*> a) {
    return M.getOrInsertFunction("__sym_" + n, FunctionType::get(r, a, false));
  }
  std::string sfx(Type* t) { return t == D ? "_d" : "_f"; }
  static const std::set<std::string>& un() {
    static std::set<std::string> s{"sqrt","sin","cos","tan","asin","acos","atan","exp","log","fabs","floor","ceil","round",
      "trunc","rint","nearbyint","sinh","cosh","tanh","asinh","acosh","atanh","exp2","log2","log10","cbrt","expm1","log1p","erf"};
    return s; }
  static const std::set<std::string>& bi() {
    static std::set<std::string> s{"pow","atan2","fmin","fmax","fmod","hypot","copysign"}; return s; }
  void unsupported(Instruction& I, const char* why) {
    errs() << "SYMPASS-UNSUPPORTED " << why << " in " << I.getFunction()->getName() << ": " << I << "\n";
  }
  void run(Function& Fn) {
    std::vector<Instruction*> work;
    for (auto& BB : Fn) for (auto& I : BB) work.push_back(&I);
    // shadows of i1 values
    std::map<Value*, Value*> sh;
    std::vector<PHINode*> phis;
    // 1. which i1 values are shadowed (forward closure)
    std::set<Value*> S; bool ch = true;
    for (auto* I : work) if (auto* c = dyn_cast<FCmpInst>(I)) {
      if (!isfp(c->getOperand(0)->getType())) { if (!c->getOperand(0)->getType()->isX86_FP80Ty()) unsupported(*I, "vector fcmp"); continue; }
      if (c->getPredicate() == CmpInst::FCMP_TRUE || c->getPredicate() == CmpInst::FCMP_FALSE) continue;
      S.insert(c); }
    while (ch) { ch = false;
      for (auto* I : work) { if (I->getType() != I1 || S.count(I)) continue;
        bool ok = false;
        if (auto* b = dyn_cast<BinaryOperator>(I)) {
          auto o = b->getOpcode();
          ok = (o == Instruction::And || o == Instruction::Or || o == Instruction::Xor) && (S.count(b->getOperand(0)) || S.count(b->getOperand(1)));
        } else if (auto* s = dyn_cast<SelectInst>(I)) {
          ok = S.count(s->getCondition()) || S.count(s->getTrueValue()) || S.count(s->getFalseValue());
        } else if (auto* p = dyn_cast<PHINode>(I)) {
          for (auto& v : p->incoming_values()) ok |= S.count(v) != 0;
        } else if (auto* f = dyn_cast<FreezeInst>(I)) ok = S.count(f->getOperand(0));
        if (ok) { S.insert(I); ch = true; } } }
    // 2. create shadows
    for (auto* I : work) if (S.count(I)) if (auto* p = dyn_cast<PHINode>(I)) {
      IRBuilder<> B(p); sh[p] = B.CreatePHI(I64, p->getNumIncomingValues()); phis.push_back(p); }
    // placeholders first so that order does not matter
    std::map<Value*, Instruction*> ph;
    auto hnd = [&](Value* v, IRBuilder<>& B) -> Value* {
      auto it = sh.find(v); if (it != sh.end()) return it->second;
      if (S.count(v)) { // defined later in list order (dominance guarantees it will exist): use a placeholder
        auto& q = ph[v]; if (!q) { q = new FreezeInst(UndefValue::get(I64), "ph", &*Fn.getEntryBlock().getFirstInsertionPt()); }
        return q; }
      return B.CreateZExt(v, I64); };
    for (auto* I : work) {
      if (!S.count(I) || isa<PHINode>(I)) continue;
      IRBuilder<> B(I->getNextNode());
      if (auto* c = dyn_cast<FCmpInst>(I)) {
        Type* t = c->getOperand(0)->getType();
        sh[I] = B.CreateCall(fn("fcmp" + sfx(t), I64, {t, t, I32}), {c->getOperand(0), c->getOperand(1), B.getInt32(c->getPredicate())});
      } else if (auto* b = dyn_cast<BinaryOperator>(I)) {
        const char* n = b->getOpcode() == Instruction::And ? "band" : b->getOpcode() == Instruction::Or ? "bor" : "bxor";
        Value* x = hnd(b->getOperand(0), B); Value* y = hnd(b->getOperand(1), B);
        sh[I] = B.CreateCall(fn(n, I64, {I64, I64}), {x, y});
      } else if (auto* s = dyn_cast<SelectInst>(I)) {
        Value* c0 = hnd(s->getCondition(), B); Value* x = hnd(s->getTrueValue(), B); Value* y = hnd(s->getFalseValue(), B);
        sh[I] = B.CreateCall(fn("bite", I64, {I64, I64, I64}), {c0, x, y});
      } else if (auto* f = dyn_cast<FreezeInst>(I)) { sh[I] = hnd(f->getOperand(0), B); }
    }
    for (auto* p : phis) { auto* q = cast<PHINode>(sh[p]);
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
        IRBuilder<> B(p->getIncomingBlock(i)->getTerminator());
        q->addIncoming(hnd(p->getIncomingValue(i), B), p->getIncomingBlock(i)); } }
    for (auto& kv : ph) { Value* r = sh[kv.first]; kv.second->replaceAllUsesWith(r); kv.second->eraseFromParent(); }
    // 3. rewrite FP instructions and uses of shadowed i1
    std::vector<Instruction*> dead;
    auto decide = [&](Value* v, IRBuilder<>& B) -> Value* {
      Value* r = B.CreateCall(fn("decide", I64, {I64}), {sh[v]});
      return B.CreateTrunc(r, I1); };
    for (auto* I : work) {
      if (S.count(I)) { dead.push_back(I); continue; }
      IRBuilder<> B(I);
      Type* t = I->getType();
      if (auto* s = dyn_cast<SelectInst>(I)) {
        if (S.count(s->getCondition())) {
          if (isfp(t)) {
            Value* r = B.CreateCall(fn("select" + sfx(t), t, {I64, t, t}), {sh[s->getCondition()], s->getTrueValue(), s->getFalseValue()});
            I->replaceAllUsesWith(r); dead.push_back(I);
          } else s->setCondition(decide(s->getCondition(), B));
        }
        // data operands that are shadowed i1 cannot occur here (then I would be shadowed)
        continue; }
      if (auto* c = dyn_cast<CastInst>(I)) if (isfp(t) && S.count(c->getOperand(0)) && (isa<UIToFPInst>(c) || isa<SIToFPInst>(c))) {
        Value* r = B.CreateCall(fn("select" + sfx(t), t, {I64, t, t}), {sh[c->getOperand(0)], ConstantFP::get(t, isa<UIToFPInst>(c) ? 1.0 : -1.0), ConstantFP::get(t, 0.0)});
        I->replaceAllUsesWith(r); dead.push_back(I); continue; }
      // any other use of a shadowed i1
      if (!isa<PHINode>(I)) for (unsigned k = 0; k < I->getNumOperands(); k++)
        if (S.count(I->getOperand(k))) I->setOperand(k, decide(I->getOperand(k), B));
      if (I->isBinaryOp() && I->getOpcode() >= Instruction::Add) {
        const char* n = nullptr;
        switch (I->getOpcode()) { case Instruction::FAdd: n = "add"; break; case Instruction::FSub: n = "sub"; break;
          case Instruction::FMul: n = "mul"; break; case Instruction::FDiv: n = "div"; break; case Instruction::FRem: n = "fmod"; break; default: break; }
        if (n) { if (!isfp(t)) { if (!t->isX86_FP80Ty()) unsupported(*I, "fp type"); continue; }
          Value* r = B.CreateCall(fn(n + sfx(t), t, {t, t}), {I->getOperand(0), I->getOperand(1)});
          I->replaceAllUsesWith(r); dead.push_back(I); continue; } }
      if (I->getOpcode() == Instruction::FNeg) { if (!isfp(t)) { unsupported(*I, "fp type"); continue; }
        Value* r = B.CreateCall(fn("neg" + sfx(t), t, {t}), {I->getOperand(0)}); I->replaceAllUsesWith(r); dead.push_back(I); continue; }
      if (auto* c = dyn_cast<CastInst>(I)) {
        Type* s = c->getSrcTy();
        switch (c->getOpcode()) {
          case Instruction::FPToSI: case Instruction::FPToUI: {
            if (!isfp(s)) { if (!s->isX86_FP80Ty()) unsupported(*I, "fptoi"); break; }
            Value* r = B.CreateCall(fn("toint" + sfx(s), I64, {s}), {c->getOperand(0)});
            r = B.CreateIntCast(r, t, true); I->replaceAllUsesWith(r); dead.push_back(I); break; }
          case Instruction::FPTrunc: if (s == D && t == F) { Value* r = B.CreateCall(fn("d2f", F, {D}), {c->getOperand(0)}); I->replaceAllUsesWith(r); dead.push_back(I); } else if (!s->isX86_FP80Ty()) unsupported(*I, "fptrunc"); break;
          case Instruction::FPExt: if (s == F && t == D) { Value* r = B.CreateCall(fn("f2d", D, {F}), {c->getOperand(0)}); I->replaceAllUsesWith(r); dead.push_back(I); }
            else if (isfp(s)) { Value* r = B.CreateCall(fn("concrete" + sfx(s), s, {s}), {c->getOperand(0)}); c->setOperand(0, r); } break;
          case Instruction::BitCast: if (isfp(s) && t->isIntegerTy()) {
              bool bad = false;
              for (auto* u : I->users()) if (!isa<StoreInst>(u) && !isa<BitCastInst>(u) && !isa<PHINode>(u) && !isa<InsertValueInst>(u) && !isa<ReturnInst>(u) && !isa<CallInst>(u)) bad = true;
              if (bad) { Value* r = B.CreateCall(fn("concrete" + sfx(s), s, {s}), {c->getOperand(0)}); c->setOperand(0, r); } } break;
          default: break; }
        continue; }
      if (auto* ci = dyn_cast<CallInst>(I)) {
        Function* cf = ci->getCalledFunction(); if (!cf) continue;
        std::string n = cf->getName().str();
        if (cf->isIntrinsic()) {
          StringRef r = cf->getName(); if (!r.consume_front("llvm.")) continue;
          std::string base;
          if (r.consume_back(".f64") || r.consume_back(".f32")) base = r.str();
          else if (r.starts_with("powi.")) base = "powi"; else if (r.starts_with("is.fpclass")) base = "is.fpclass"; else base = "";
          if (base.empty()) { for (auto& a : ci->args()) if (isfp(a->getType()) && !r.starts_with("dbg") ) unsupported(*I, "intrinsic"); continue; }
          if (base == "minnum" || base == "minimum") base = "fmin";
          if (base == "maxnum" || base == "maximum") base = "fmax";
          if (base == "roundeven" ) base = "rint";
          Value* a0 = ci->getArgOperand(0);
          Type* at = a0->getType();
          if (!isfp(at)) { if (!at->isX86_FP80Ty()) unsupported(*I, "intrinsic type"); continue; }
          Value* res = nullptr;
          if (un().count(base)) res = B.CreateCall(fn(base + sfx(at), at, {at}), {a0});
          else if (bi().count(base)) res = B.CreateCall(fn(base + sfx(at), at, {at, at}), {a0, ci->getArgOperand(1)});
          else if (base == "fma" || base == "fmuladd") { Value* m = B.CreateCall(fn("mul" + sfx(at), at, {at, at}), {a0, ci->getArgOperand(1)});
            res = B.CreateCall(fn("add" + sfx(at), at, {at, at}), {m, ci->getArgOperand(2)}); }
          else if (base == "powi") res = B.CreateCall(fn("powi" + sfx(at), at, {at, I32}), {a0, ci->getArgOperand(1)});
          else if (base == "is.fpclass") { Value* x = B.CreateCall(fn("fpclass" + sfx(at), I32, {at, I32}), {a0, ci->getArgOperand(1)}); res = B.CreateTrunc(x, I1); }
          else { unsupported(*I, "intrinsic"); continue; }
          I->replaceAllUsesWith(res); dead.push_back(I); continue; }
        if (!cf->isDeclaration()) continue;
        std::string b = n; Type* at = D; bool hit = false;
        if (un().count(b) || bi().count(b)) hit = true;
        else if (!b.empty() && b.back() == 'f' && (un().count(b.substr(0, b.size() - 1)) || bi().count(b.substr(0, b.size() - 1)))) { b.pop_back(); at = F; hit = true; }
        if (hit && ci->getType() == at) {
          Value* res = un().count(b) ? B.CreateCall(fn(b + sfx(at), at, {at}), {ci->getArgOperand(0)})
                                     : B.CreateCall(fn(b + sfx(at), at, {at, at}), {ci->getArgOperand(0), ci->getArgOperand(1)});
          I->replaceAllUsesWith(res); dead.push_back(I); continue; }
        if (n.rfind("__sym_", 0) == 0 || n.rfind("sym_", 0) == 0) continue;
        bool any = isfp(ci->getType());
        for (auto& a : ci->args()) any |= isfp(a->getType());
        if (any && n.find("_M_insertIdEE") == std::string::npos) unsupported(*I, "external fp call");
      }
    }
    // dead shadowed i1 instructions: break cycles, then erase
    for (auto* I : dead) I->dropAllReferences();
    for (auto* I : dead) { if (!I->use_empty()) I->replaceAllUsesWith(PoisonValue::get(I->getType())); I->eraseFromParent(); }
  }
};
// Joins the two sides of a short branch on floating-point data whose only effect is stores of floating-point values to places the
// code has just accessed ("if (x(i) < l(i)) x(i) = l(i);"): load, select, store.  Keeps such rewrites of min/max from multiplying paths.
struct Joiner {
  static bool fpCond(Value* v, int d = 0) { if (d > 6) return false; if (auto* c = dyn_cast<FCmpInst>(v)) { auto* t = c->getOperand(0)->getType(); return t->isDoubleTy() || t->isFloatTy(); }
    if (auto* b = dyn_cast<BinaryOperator>(v)) return fpCond(b->getOperand(0), d + 1) && (isa<ConstantInt>(b->getOperand(1)) || fpCond(b->getOperand(1), d + 1));
    if (auto* s = dyn_cast<SelectInst>(v)) return fpCond(s->getCondition(), d + 1); return false; }
  static bool harmless(Instruction& I) { if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { switch (ii->getIntrinsicID()) { case Intrinsic::fabs: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: return true; default: return false; } }
    return !isa<CallBase>(I); }
  static bool accessed(Value* p, Type* t, BasicBlock* B) { // same pointer read or written earlier on the only way here, nothing in between that could release it
    for (int k = 0; B && k < 8; k++, B = B->getSinglePredecessor()) for (auto it = B->rbegin(); it != B->rend(); ++it) {
      if (auto* l = dyn_cast<LoadInst>(&*it)) { if (l->getPointerOperand() == p && l->getType() == t && l->isSimple()) return true; } else if (auto* st = dyn_cast<StoreInst>(&*it)) { if (st->getPointerOperand() == p && st->getValueOperand()->getType() == t && st->isSimple()) return true; } else if (!harmless(*it)) return false; }
    return false; }
  static bool arm(BasicBlock* A, BasicBlock* B, int& stores) { if (A->getSinglePredecessor() != B || A->hasAddressTaken()) return false; int n = 0;
    for (auto& I : *A) { if (I.isTerminator()) { auto* br = dyn_cast<BranchInst>(&I); return br && br->isUnconditional(); } if (++n > 24) return false;
      if (auto* st = dyn_cast<StoreInst>(&I)) { auto* t = st->getValueOperand()->getType(); if (!(t->isDoubleTy() || t->isFloatTy()) || !st->isSimple() || !accessed(st->getPointerOperand(), t, B)) return false; stores++; continue; }
      if (auto* l = dyn_cast<LoadInst>(&I)) { if (!l->isSimple() || !accessed(l->getPointerOperand(), l->getType(), B)) return false; continue; }
      if (isa<PHINode>(I) || I.mayHaveSideEffects() || I.mayReadOrWriteMemory()) return false;
      if (isa<CallBase>(I)) { auto* ii = dyn_cast<IntrinsicInst>(&I); if (!ii || !(ii->getIntrinsicID() == Intrinsic::fabs || ii->getIntrinsicID() == Intrinsic::minnum || ii->getIntrinsicID() == Intrinsic::maxnum)) return false; continue; }
      switch (I.getOpcode()) { case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: case Instruction::FDiv: case Instruction::FRem: case Instruction::FPToSI: case Instruction::FPToUI: return false; default: break; } }
    return false; }
  static bool join(BasicBlock& B) { auto* br = dyn_cast<BranchInst>(B.getTerminator()); if (!br || !br->isConditional() || !fpCond(br->getCondition())) return false;
    BasicBlock *T = br->getSuccessor(0), *E = br->getSuccessor(1), *J = nullptr; if (T == E || T == &B || E == &B) return false; int stores = 0; bool hasT = false, hasE = false;
    if (T->getSingleSuccessor() == E && E != T) { J = E; hasT = arm(T, &B, stores); if (!hasT) return false; } else if (E->getSingleSuccessor() == T) { J = T; hasE = arm(E, &B, stores); if (!hasE) return false; }
    else if (T->getSingleSuccessor() && T->getSingleSuccessor() == E->getSingleSuccessor()) { J = T->getSingleSuccessor(); hasT = arm(T, &B, stores); hasE = arm(E, &B, stores); if (!hasT || !hasE) return false; } else return false;
    if (!stores || J == &B) return false; BasicBlock *bT = hasT ? T : &B, *bE = hasE ? E : &B;
    for (auto& p : J->phis()) { Value *a = p.getIncomingValueForBlock(bT), *b = p.getIncomingValueForBlock(bE); auto* t = p.getType(); if (a != b && !t->isDoubleTy() && !t->isFloatTy()) return false; }
    Value* c = br->getCondition();
    for (int side = 0; side < 2; side++) { if (!(side ? hasE : hasT)) continue; BasicBlock* A = side ? E : T;
      while (!A->front().isTerminator()) { Instruction& I = A->front(); I.moveBefore(br); if (auto* st = dyn_cast<StoreInst>(&I)) { IRBuilder<> b(st); Value* old = b.CreateLoad(st->getValueOperand()->getType(), st->getPointerOperand()); Value* v = side ? b.CreateSelect(c, old, st->getValueOperand()) : b.CreateSelect(c, st->getValueOperand(), old); st->setOperand(0, v); } } }
    for (auto& p : J->phis()) { Value *a = p.getIncomingValueForBlock(bT), *b = p.getIncomingValueForBlock(bE); IRBuilder<> q(br); Value* v = a == b ? a : q.CreateSelect(c, a, b);
      for (BasicBlock* x : {T, E}) if (x != J && p.getBasicBlockIndex(x) >= 0) p.removeIncomingValue(x, false); int k = p.getBasicBlockIndex(&B); if (k >= 0) p.setIncomingValue(k, v); else p.addIncoming(v, &B); }
    BranchInst::Create(J, br); br->eraseFromParent(); if (hasT) { T->getTerminator()->eraseFromParent(); T->eraseFromParent(); } if (hasE) { E->getTerminator()->eraseFromParent(); E->eraseFromParent(); }
    if (getenv("SYMPASS_JOIN")) errs() << "SYMPASS-JOINED " << B.getParent()->getName() << "\n";
    MergeBlockIntoPredecessor(J); return true; }
  static void run(Function& F) { bool ch = true; int n = 0; while (ch && n++ < 20000) { ch = false; for (auto& B : F) if (join(B)) { ch = true; break; } } }
};
struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    Sym s(M);
    std::vector<Function*> fs; for (auto& f : M) if (!f.isDeclaration()) fs.push_back(&f);
    for (auto* f : fs) { Joiner::run(*f); s.run(*f); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
      ScalarizerPassOptions o; o.ScalarizeVariableInsertExtract = true; o.ScalarizeLoadStore = false;
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
      MPM.addPass(SymPass()); }); }};
}
