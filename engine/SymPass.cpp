// SymPass: LLVM 18 pass that instruments a translation unit for symbolic
// execution.  Every integer/double SSA value gets a shadow pointer (an Expr of
// the runtime, null = concrete).  All control decisions on symbolic values go
// through the runtime, which records the path condition and asks the solver.
#include "llvm/ADT/StringSwitch.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
const unsigned kMaxArgs = 48;

struct Inst {
  Module &M;
  LLVMContext &C;
  const DataLayout &DL;
  PointerType *PtrTy;
  IntegerType *I1, *I32, *I64;
  Type *DblTy, *VoidTy;
  Constant *Null;
  GlobalVariable *GArgs, *GRet, *GCallee;
  FunctionCallee fBin, fFop, fFneg, fFcmp, fIcmp, fBranch, fConc, fSwitch, fCast, fFpToInt, fLoad, fStore, fMemcpy, fMemset, fClear, fExt, fMinMax, fNoFlt, fConcD, fConcF, fConcMem, fFabs;

  Inst(Module &m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    PtrTy = PointerType::getUnqual(C);
    I1 = Type::getInt1Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    DblTy = Type::getDoubleTy(C); VoidTy = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(PtrTy);
    GArgs = getG("_sym_args", ArrayType::get(PtrTy, kMaxArgs));
    GRet = getG("_sym_ret", ArrayType::get(PtrTy, 8));
    GCallee = getG("_sym_callee", PtrTy);
    fBin = fn("_sym_bin", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fFop = fn("_sym_fop", PtrTy, {I32, PtrTy, DblTy, PtrTy, DblTy, DblTy});
    fFneg = fn("_sym_fneg", PtrTy, {PtrTy, DblTy});
    fFabs = fn("_sym_fabs", PtrTy, {PtrTy, DblTy});
    fFcmp = fn("_sym_fcmp", I32, {I32, PtrTy, DblTy, PtrTy, DblTy, I32});
    fIcmp = fn("_sym_icmp", PtrTy, {I32, I32, PtrTy, I64, PtrTy, I64});
    fBranch = fn("_sym_branch", I32, {PtrTy, I32});
    fSwitch = fn("_sym_switch", I64, {I32, PtrTy, I64, I32, PtrTy});
    fConc = fn("_sym_conc", I64, {I32, PtrTy, I64});
    fConcD = fn("_sym_concd", DblTy, {PtrTy, DblTy}); fConcF = fn("_sym_concf", DblTy, {PtrTy, DblTy});
    fCast = fn("_sym_cast", PtrTy, {I32, I32, I32, PtrTy});
    fFpToInt = fn("_sym_fptoint", I64, {I32, I32, PtrTy, DblTy, I64});
    fLoad = fn("_sym_load", PtrTy, {PtrTy, I64});
    fStore = fn("_sym_store", VoidTy, {PtrTy, I64, PtrTy});
    fMemcpy = fn("_sym_memcpy", VoidTy, {PtrTy, PtrTy, I64});
    fMemset = fn("_sym_memset", VoidTy, {PtrTy, I64});
    fClear = fn("_sym_clear", VoidTy, {PtrTy, I64});
    fConcMem = fn("_sym_concmem", VoidTy, {PtrTy, I64});
    fExt = fn("_sym_extcheck", VoidTy, {PtrTy, I32});
    fMinMax = fn("_sym_minmax", I32, {I32, I32, PtrTy, I64, PtrTy, I64});
  }
  GlobalVariable *getG(StringRef n, Type *t) {
    auto *g = M.getGlobalVariable(n);
    if (!g) g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
    return g;
  }
  FunctionCallee fn(StringRef n, Type *r, ArrayRef<Type *> a) {
    FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
    return f;
  }

  // ---- per function state
  Function *F;
  DenseMap<Value *, Value *> Sh;                 // scalar shadows
  std::map<std::pair<Value *, unsigned>, Value *> ShF; // struct field shadows
  std::vector<std::pair<PHINode *, PHINode *>> Phis;
  std::vector<Instruction *> Dead;

  static bool scal(Type *t) {
    return (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) || t->isDoubleTy();
  }
  static bool flat(Type *t) {
    auto *st = dyn_cast<StructType>(t);
    if (!st || st->getNumElements() > 8) return false;
    return true;
  }
  Value *sh(Value *v) {
    if (!scal(v->getType())) return Null;
    auto it = Sh.find(v);
    return it == Sh.end() ? Null : it->second;
  }
  Value *shf(Value *v, unsigned i) {
    auto it = ShF.find({v, i});
    return it == ShF.end() ? (Value *)Null : it->second;
  }
  bool isN(Value *s) { return s == Null; }
  Value *as64(IRBuilder<> &B, Value *v) {
    if (v->getType()->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (v->getType() == I64) return v;
    return B.CreateZExt(v, I64);
  }
  Value *from64(IRBuilder<> &B, Value *v, Type *t) {
    if (t == I64) return v;
    return B.CreateTrunc(v, t);
  }
  // concretise operand i of instruction I (integers)
  void concOp(Instruction &I, unsigned i) {
    Value *v = I.getOperand(i);
    Value *s = sh(v);
    if (isN(s)) return;
    IRBuilder<> B(&I);
    if (v->getType()->isDoubleTy()) { I.setOperand(i, B.CreateCall(fConcD, {s, v})); return; }
    Value *c = B.CreateCall(fConc, {ConstantInt::get(I32, v->getType()->getIntegerBitWidth()), s, as64(B, v)});
    I.setOperand(i, from64(B, c, v->getType()));
  }
  Value *argSlot(IRBuilder<> &B, unsigned i) {
    return B.CreateConstInBoundsGEP2_32(GArgs->getValueType(), GArgs, 0, i);
  }
  Value *retSlot(IRBuilder<> &B, unsigned i) {
    return B.CreateConstInBoundsGEP2_32(GRet->getValueType(), GRet, 0, i);
  }

  void run(Function &f) {
    F = &f; Sh.clear(); ShF.clear(); Phis.clear(); Dead.clear();
    { // give every invoke a normal destination of its own without phis
      std::vector<InvokeInst *> invs;
      for (auto &b : f) if (auto *iv = dyn_cast<InvokeInst>(b.getTerminator())) invs.push_back(iv);
      for (auto *iv : invs) {
        BasicBlock *nd = iv->getNormalDest();
        if (!nd->getSinglePredecessor()) SplitEdge(iv->getParent(), nd);
        else if (isa<PHINode>(nd->front())) FoldSingleEntryPHINodes(nd);
      }
    }
    { // address computations go next to their uses, so that a speculated one does not fork
      std::vector<GetElementPtrInst *> gs;
      for (auto &b : f) for (auto &i : b) if (auto *g = dyn_cast<GetElementPtrInst>(&i)) { bool v = false; for (unsigned k = 1; k < g->getNumOperands(); k++) if (!isa<Constant>(g->getOperand(k))) v = true; if (v) gs.push_back(g); }
      for (auto it = gs.rbegin(); it != gs.rend(); ++it) {
        auto *g = *it; if (g->getType()->isVectorTy()) continue;
        std::vector<Use *> us; std::map<BasicBlock *, Instruction *> cl; bool same = false;
        for (auto &u : g->uses()) { auto *ui = cast<Instruction>(u.getUser()); if (ui->getParent() == g->getParent() || isa<PHINode>(ui)) same = true; else us.push_back(&u); }
        if (same) continue;
        for (auto *u : us) { auto *ui = cast<Instruction>(u->getUser()); auto *&c = cl[ui->getParent()]; if (!c) { c = g->clone(); c->insertBefore(&*ui->getParent()->getFirstInsertionPt()); } u->set(c); }
        if (g->use_empty()) g->eraseFromParent();
      }
    }
    std::vector<BasicBlock *> order;
    { // reverse post order so that defs come before uses (except phis)
      std::set<BasicBlock *> seen; std::vector<BasicBlock *> post;
      std::vector<std::pair<BasicBlock *, unsigned>> st;
      st.push_back({&f.getEntryBlock(), 0}); seen.insert(&f.getEntryBlock());
      while (!st.empty()) {
        BasicBlock *b = st.back().first; unsigned &k = st.back().second;
        Instruction *t = b->getTerminator();
        if (k < t->getNumSuccessors()) {
          BasicBlock *n = t->getSuccessor(k++);
          if (seen.insert(n).second) st.push_back({n, 0});
        } else { post.push_back(b); st.pop_back(); }
      }
      order.assign(post.rbegin(), post.rend());
    }
    std::vector<Instruction *> work;
    for (auto *b : order) for (auto &i : *b) work.push_back(&i);

    // ---- entry: argument shadows
    {
      BasicBlock &E = f.getEntryBlock();
      BasicBlock::iterator ip = E.getFirstInsertionPt();
      while (isa<AllocaInst>(&*ip)) ++ip;
      IRBuilder<> B(&E, ip);
      Value *cal = B.CreateLoad(PtrTy, GCallee);
      Value *ok = B.CreateICmpEQ(cal, &f);
      unsigned i = 0;
      for (auto &a : f.args()) {
        if (i >= kMaxArgs) break;
        if (scal(a.getType())) {
          Value *l = B.CreateLoad(PtrTy, argSlot(B, i));
          Sh[&a] = B.CreateSelect(ok, l, Null);
        } else if (a.hasByValAttr()) {
          Value *l = B.CreateSelect(ok, B.CreateLoad(PtrTy, argSlot(B, i)), Null);
          uint64_t sz = DL.getTypeAllocSize(a.getParamByValType());
          B.CreateCall(fMemcpy, {&a, l, ConstantInt::get(I64, sz)});
        }
        i++;
      }
      B.CreateStore(Null, GCallee);
      for (auto &I : E) if (auto *al = dyn_cast<AllocaInst>(&I)) {
        if (al->isStaticAlloca())
          B.CreateCall(fClear, {al, ConstantInt::get(I64, DL.getTypeAllocSize(al->getAllocatedType()) * cast<ConstantInt>(al->getArraySize())->getZExtValue())});
      }
    }
    // ---- phis first (shadow phis are created before everything else)
    for (auto *i : work) if (auto *p = dyn_cast<PHINode>(i)) {
      if (scal(p->getType())) {
        IRBuilder<> B(p);
        PHINode *sp = B.CreatePHI(PtrTy, p->getNumIncomingValues());
        Sh[p] = sp; Phis.push_back({p, sp});
      } else if (flat(p->getType())) {
        // rare: struct phi, shadows dropped
      }
    }
    for (auto *i : work) visit(*i);
    for (auto &pp : Phis)
      for (unsigned k = 0; k < pp.first->getNumIncomingValues(); k++)
        pp.second->addIncoming(sh(pp.first->getIncomingValue(k)), pp.first->getIncomingBlock(k));
    for (auto *d : Dead) d->eraseFromParent();
  }

  Instruction *next(Instruction &I) { return I.getNextNode(); }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    Type *T = I.getType();
    switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      if (!scal(T)) return;
      Value *sa = sh(a), *sb = sh(b);
      if (isN(sa) && isN(sb)) return;
      Sh[&I] = B.CreateCall(fBin, {ConstantInt::get(I32, I.getOpcode()), ConstantInt::get(I32, T->getIntegerBitWidth()), sa, as64(B, a), sb, as64(B, b)});
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      if (!T->isDoubleTy()) return;
      Value *sa = sh(a), *sb = sh(b);
      if (isN(sa) && isN(sb)) return;
      IRBuilder<> A(next(I));
      Sh[&I] = A.CreateCall(fFop, {ConstantInt::get(I32, I.getOpcode()), sa, a, sb, b, &I});
      return;
    }
    case Instruction::FNeg: {
      Value *a = I.getOperand(0);
      if (!T->isDoubleTy() || isN(sh(a))) return;
      Sh[&I] = B.CreateCall(fFneg, {sh(a), a});
      return;
    }
    case Instruction::FCmp: {
      auto &c = cast<FCmpInst>(I);
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      if (!a->getType()->isDoubleTy()) return;
      Value *sa = sh(a), *sb = sh(b);
      if (isN(sa) && isN(sb)) return;
      IRBuilder<> A(next(I));
      Value *z = A.CreateZExt(&I, I32);
      Value *r = A.CreateCall(fFcmp, {ConstantInt::get(I32, (int)c.getPredicate()), sa, a, sb, b, z});
      Value *t = A.CreateTrunc(r, I1);
      I.replaceUsesWithIf(t, [&](Use &u) { return u.getUser() != z; });
      return;
    }
    case Instruction::ICmp: {
      auto &c = cast<ICmpInst>(I);
      Value *a = I.getOperand(0), *b = I.getOperand(1);
      if (!scal(a->getType())) return;
      Value *sa = sh(a), *sb = sh(b);
      if (isN(sa) && isN(sb)) return;
      Sh[&I] = B.CreateCall(fIcmp, {ConstantInt::get(I32, (int)c.getPredicate()), ConstantInt::get(I32, a->getType()->getIntegerBitWidth()), sa, as64(B, a), sb, as64(B, b)});
      return;
    }
    case Instruction::Select: {
      auto &s = cast<SelectInst>(I);
      Value *c = s.getCondition();
      if (c->getType() != I1) return;
      if (!isN(sh(c))) {
        Value *r = B.CreateCall(fBranch, {sh(c), B.CreateZExt(c, I32)});
        c = B.CreateTrunc(r, I1);
        s.setCondition(c);
      }
      if (scal(T)) {
        Value *st = sh(s.getTrueValue()), *sf = sh(s.getFalseValue());
        if (isN(st) && isN(sf)) return;
        Sh[&I] = B.CreateSelect(c, st, sf);
      }
      return;
    }
    case Instruction::Br: {
      auto &br = cast<BranchInst>(I);
      if (!br.isConditional()) return;
      Value *c = br.getCondition();
      if (isN(sh(c))) return;
      Value *r = B.CreateCall(fBranch, {sh(c), B.CreateZExt(c, I32)});
      br.setCondition(B.CreateTrunc(r, I1));
      return;
    }
    case Instruction::Switch: {
      auto &sw = cast<SwitchInst>(I);
      Value *c = sw.getCondition();
      if (isN(sh(c))) return;
      if (sw.getNumCases() > 40 || c->getType()->getIntegerBitWidth() > 64) { concOp(I, 0); return; }
      std::vector<Constant *> cs;
      for (auto &k : sw.cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getZExtValue()));
      if (cs.empty()) return;
      auto *arr = ConstantArray::get(ArrayType::get(I64, cs.size()), cs);
      auto *g = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "sx.cases");
      Value *r = B.CreateCall(fSwitch, {ConstantInt::get(I32, c->getType()->getIntegerBitWidth()), sh(c), as64(B, c), ConstantInt::get(I32, (int)cs.size()), g});
      sw.setCondition(from64(B, r, c->getType()));
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      Value *a = I.getOperand(0);
      if (!scal(T)) { if (scal(a->getType())) concOp(I, 0); return; }
      if (!scal(a->getType()) || isN(sh(a))) return;
      Sh[&I] = B.CreateCall(fCast, {ConstantInt::get(I32, I.getOpcode()), ConstantInt::get(I32, a->getType()->getIntegerBitWidth()), ConstantInt::get(I32, T->getIntegerBitWidth()), sh(a)});
      return;
    }
    case Instruction::BitCast: case Instruction::Freeze: {
      Value *a = I.getOperand(0);
      if (scal(T) && scal(a->getType()) && !isN(sh(a))) Sh[&I] = sh(a);
      if (isa<FreezeInst>(I) && flat(T))
        for (unsigned k = 0; k < 8; k++) if (!isN(shf(a, k))) ShF[{&I, k}] = shf(a, k);
      return;
    }
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::IntToPtr: concOp(I, 0); return;
    case Instruction::FPTrunc: { Value *v = I.getOperand(0), *s = sh(v); if (isN(s)) return; if (!v->getType()->isDoubleTy()) { concOp(I, 0); return; } IRBuilder<> B(&I); I.setOperand(0, B.CreateCall(fConcF, {s, v})); return; }
    case Instruction::FPToUI: case Instruction::FPToSI: {
      Value *a = I.getOperand(0);
      if (!a->getType()->isDoubleTy() || isN(sh(a)) || !scal(T)) return;
      IRBuilder<> A(next(I));
      Value *z = T == I64 ? (Value *)&I : (I.getOpcode() == Instruction::FPToUI ? A.CreateZExt(&I, I64) : A.CreateSExt(&I, I64));
      Value *r = A.CreateCall(fFpToInt, {ConstantInt::get(I32, I.getOpcode()), ConstantInt::get(I32, T->getIntegerBitWidth()), sh(a), a, z});
      Value *t = from64(A, r, T);
      I.replaceUsesWithIf(t, [&](Use &u) { return u.getUser() != z && u.getUser() != r; });
      return;
    }
    case Instruction::GetElementPtr: {
      for (unsigned k = 1; k < I.getNumOperands(); k++) if (scal(I.getOperand(k)->getType())) concOp(I, k);
      return;
    }
    case Instruction::Load: {
      auto &l = cast<LoadInst>(I);
      if (scal(T)) {
        Sh[&I] = B.CreateCall(fLoad, {l.getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(T))});
      } else if (!T->isPointerTy()) {
        B.CreateCall(fConcMem, {l.getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(T))});
      }
      return;
    }
    case Instruction::Store: {
      auto &s = cast<StoreInst>(I);
      Value *v = s.getValueOperand();
      Type *t = v->getType();
      if (flat(t)) {
        const StructLayout *SL = DL.getStructLayout(cast<StructType>(t));
        B.CreateCall(fClear, {s.getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t))});
        for (unsigned k = 0; k < cast<StructType>(t)->getNumElements(); k++)
          if (!isN(shf(v, k)))
            B.CreateCall(fStore, {B.CreateConstGEP1_64(Type::getInt8Ty(C), s.getPointerOperand(), SL->getElementOffset(k)), ConstantInt::get(I64, DL.getTypeStoreSize(cast<StructType>(t)->getElementType(k))), shf(v, k)});
        return;
      }
      B.CreateCall(fStore, {s.getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t)), sh(v)});
      return;
    }
    case Instruction::AtomicRMW: concOp(I, 1); return;
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I);
      if (e.getNumIndices() == 1 && scal(T)) { Value *s = shf(e.getAggregateOperand(), e.getIndices()[0]); if (!isN(s)) Sh[&I] = s; }
      return;
    }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I);
      if (!flat(T)) return;
      for (unsigned k = 0; k < 8; k++) if (!isN(shf(e.getAggregateOperand(), k))) ShF[{&I, k}] = shf(e.getAggregateOperand(), k);
      if (e.getNumIndices() == 1) {
        unsigned k = e.getIndices()[0];
        Value *v = e.getInsertedValueOperand();
        if (scal(v->getType()) && !isN(sh(v))) ShF[{&I, k}] = sh(v); else ShF.erase({&I, k});
      }
      return;
    }
    case Instruction::Ret: {
      auto &r = cast<ReturnInst>(I);
      if (auto *p = I.getPrevNode()) if (auto *ci = dyn_cast<CallInst>(p)) if (ci->isMustTailCall()) return;
      Value *v = r.getReturnValue();
      if (!v) return;
      if (scal(v->getType())) B.CreateStore(sh(v), retSlot(B, 0));
      else if (flat(v->getType()))
        for (unsigned k = 0; k < cast<StructType>(v->getType())->getNumElements(); k++) B.CreateStore(shf(v, k), retSlot(B, k));
      return;
    }
    case Instruction::Call: case Instruction::Invoke: visitCall(cast<CallBase>(I)); return;
    default: return;
    }
  }

  bool intrinsic(CallBase &I) {
    auto *ii = dyn_cast<IntrinsicInst>(&I);
    if (!ii) return false;
    IRBuilder<> B(&I);
    Type *T = I.getType();
    switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
      concOp(I, 2);
      B.CreateCall(fMemcpy, {I.getArgOperand(0), I.getArgOperand(1), as64(B, I.getArgOperand(2))});
      return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline:
      concOp(I, 1); concOp(I, 2);
      B.CreateCall(fMemset, {I.getArgOperand(0), as64(B, I.getArgOperand(2))});
      return true;
    case Intrinsic::lifetime_start: {
      auto *sz = cast<ConstantInt>(I.getArgOperand(0));
      if (!sz->isMinusOne()) B.CreateCall(fClear, {I.getArgOperand(1), sz});
      return true;
    }
    case Intrinsic::fabs: {
      Value *a = I.getArgOperand(0);
      if (!T->isDoubleTy() || isN(sh(a))) return true;
      Sh[&I] = B.CreateCall(fFabs, {sh(a), a});
      return true;
    }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      if (!scal(T)) return true;
      Value *a = I.getArgOperand(0), *b = I.getArgOperand(1);
      if (isN(sh(a)) && isN(sh(b))) return true;
      ICmpInst::Predicate p = ii->getIntrinsicID() == Intrinsic::umin ? ICmpInst::ICMP_ULT : ii->getIntrinsicID() == Intrinsic::umax ? ICmpInst::ICMP_UGT : ii->getIntrinsicID() == Intrinsic::smin ? ICmpInst::ICMP_SLT : ICmpInst::ICMP_SGT;
      Value *r = B.CreateCall(fMinMax, {ConstantInt::get(I32, (int)p), ConstantInt::get(I32, T->getIntegerBitWidth()), sh(a), as64(B, a), sh(b), as64(B, b)});
      Value *c = B.CreateTrunc(r, I1);
      Value *v = B.CreateSelect(c, a, b);
      Sh[v] = B.CreateSelect(c, sh(a), sh(b));
      Sh[&I] = Sh[v];
      I.replaceAllUsesWith(v);
      Dead.push_back(&I);
      // uses visited later look the shadow up through v
      return true;
    }
    case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow:
    case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: {
      if (!T->isDoubleTy()) return true;
      const char *nm = nullptr;
      switch (ii->getIntrinsicID()) {
      case Intrinsic::sqrt: nm = "sqrt"; break; case Intrinsic::floor: nm = "floor"; break; case Intrinsic::ceil: nm = "ceil"; break;
      case Intrinsic::exp: nm = "exp"; break; case Intrinsic::log: nm = "log"; break; case Intrinsic::pow: nm = "pow"; break;
      case Intrinsic::round: nm = "round"; break; case Intrinsic::trunc: nm = "trunc"; break; case Intrinsic::copysign: nm = "copysign"; break;
      case Intrinsic::minnum: nm = "fmin"; break; case Intrinsic::maxnum: nm = "fmax"; break; default: break;
      }
      SmallVector<Type *, 2> at(I.arg_size(), DblTy);
      FunctionCallee w = M.getOrInsertFunction((Twine("_symw_") + nm).str(), FunctionType::get(DblTy, at, false));
      I.setCalledFunction(w);
      return false; // continue as a normal call
    }
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::lifetime_end:
    case Intrinsic::eh_typeid_for: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy:
    case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::objectsize: case Intrinsic::expect:
      return true;
    default: // concretise everything
      for (unsigned k = 0; k < I.arg_size(); k++) if (scal(I.getArgOperand(k)->getType()) && !isa<Constant>(I.getArgOperand(k))) concOp(I, k);
      return true;
    }
  }

  static const char *wrapper(StringRef n) {
    return StringSwitch<const char *>(n)
        .Cases("sqrt", "log", "exp", "pow", "floor", "ceil", "fmin", "fmax", "erf", "erfc", "yes")
        .Cases("fabs", "round", "trunc", "copysign", "fmod", "sin", "cos", "tanh", "log1p", "yes")
        .Cases("expm1", "log10", "atan", "lgamma", "tgamma", "modf", "hypot", "gsl_cdf_gaussian_P", "gsl_cdf_ugaussian_P", "yes")
        .Cases("log2", "exp2", "cosh", "sinh", "tan", "rint", "nearbyint", "lround", "fma", "yes")
        .Cases("memcpy", "memmove", "memset", "yes")
        .Default(nullptr);
  }

  static const char *textual(StringRef n) { // C string functions, replaced by instrumented ones (symlibc.cpp)
    return StringSwitch<const char *>(n).Case("memcmp", "sxl_memcmp").Case("bcmp", "sxl_memcmp").Case("memchr", "sxl_memchr").Case("strlen", "sxl_strlen").Case("strchr", "sxl_strchr").Default(nullptr);
  }
  void visitCall(CallBase &I) {
    if (isa<InlineAsm>(I.getCalledOperand())) return;
    if (I.getCalledFunction() && I.getCalledFunction()->isIntrinsic()) { if (intrinsic(I)) return; }
    Function *cf = I.getCalledFunction();
    if (cf && cf->isDeclaration()) {
      StringRef n = cf->getName();
      if (n.starts_with("_sym_") ) return;
      if (const char *t = textual(n)) {
        FunctionCallee w = M.getOrInsertFunction(t, cf->getFunctionType());
        I.setCalledFunction(w);
        cf = cast<Function>(w.getCallee());
      } else if (wrapper(n)) {
        FunctionCallee w = M.getOrInsertFunction(("_symw_" + n).str(), cf->getFunctionType());
        I.setCalledFunction(w);
        cf = cast<Function>(w.getCallee());
      } else if (n.starts_with("__cxa_") || n == "__dynamic_cast" || n.starts_with("_ZSt") && n.contains("throw") || n == "_Unwind_Resume" || n == "__clang_call_terminate") return;
      else if (n.contains("_Rb_tree_insert_and_rebalance")) concOp(I, 0); // the side to insert on is decided here
      else if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n=="calloc" || n=="realloc") { if (scal(I.getArgOperand(0)->getType())) concOp(I, 0); return; }
    }
    IRBuilder<> B(&I);
    bool any = false; unsigned amask = 0;
    for (unsigned k = 0; k < I.arg_size() && k < kMaxArgs; k++) {
      Value *a = I.getArgOperand(k);
      if (scal(a->getType())) {
        B.CreateStore(sh(a), argSlot(B, k));
        if (!isN(sh(a))) { any = true; if (k < 31) amask |= 1u << k; }
      } else if (I.isByValArgument(k)) {
        B.CreateStore(a, argSlot(B, k));
      }
    }
    B.CreateStore(I.getCalledOperand(), GCallee);
    Type *T = I.getType();
    bool sc = scal(T), fl = flat(T);
    if (sc) B.CreateStore(Null, retSlot(B, 0));
    if (fl) for (unsigned k = 0; k < cast<StructType>(T)->getNumElements(); k++) B.CreateStore(Null, retSlot(B, k));
    if (auto *ci = dyn_cast<CallInst>(&I)) if (ci->isMustTailCall()) return;
    if (!sc && !fl && !any) return;
    Instruction *ip;
    if (auto *inv = dyn_cast<InvokeInst>(&I)) {
      BasicBlock *nd = inv->getNormalDest();
      ip = &*nd->getFirstInsertionPt();
    } else {
      ip = I.getNextNode();
      if (auto *ci = dyn_cast<CallInst>(&I)) if (ci->isTailCall()) ci->setTailCallKind(CallInst::TCK_None);
    }
    IRBuilder<> A(ip);
    if (any) A.CreateCall(fExt, {I.getCalledOperand(), ConstantInt::get(I32, amask)});
    if (sc) Sh[&I] = A.CreateLoad(PtrTy, retSlot(A, 0));
    if (fl) for (unsigned k = 0; k < cast<StructType>(T)->getNumElements(); k++)
      if (scal(cast<StructType>(T)->getElementType(k))) ShF[{&I, k}] = A.CreateLoad(PtrTy, retSlot(A, k));
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    if (M.getNamedGlobal("sx_private_std")) // this unit's copies of the library templates stay its own
      for (auto &F : M) if (!F.isDeclaration() && (F.hasLinkOnceODRLinkage() || F.hasWeakODRLinkage()) && (F.getName().starts_with("_ZNSt") || F.getName().starts_with("_ZNKSt") || F.getName().starts_with("_ZSt"))) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    Inst X(M);
    for (auto &F : M) {
      if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
      StringRef n = F.getName();
      if (n.starts_with("_sym") || n == "__clang_call_terminate") continue;
      X.run(F);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
