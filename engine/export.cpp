// Bitcode -> flattened SSA in JSON.  See ../DESIGN.md ("Front end").
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/LowerConstantIntrinsics.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static LLVMContext C;
static std::unique_ptr<Module> M;
static std::map<std::string, DICompositeType *> DITypes;      // tag name -> type
static std::vector<std::pair<std::string, unsigned>> FieldIds; // id -> (struct llvm name, idx)
static std::map<std::pair<std::string, unsigned>, unsigned> FieldIdx;
static Function *FldFn;
static std::set<std::string> Stop;

static std::string stripNum(StringRef N) {
  // "struct.foo.12" -> "struct.foo"
  size_t p = N.rfind('.');
  if (p != StringRef::npos && p + 1 < N.size()) {
    bool d = true;
    for (char c : N.substr(p + 1)) d &= isdigit((unsigned char)c) != 0;
    if (N.starts_with("struct.anon") || N.starts_with("union.anon")) d = false;
    if (d && N.substr(0, p).contains('.')) return N.substr(0, p).str();
  }
  return N.str();
}

// ---------------------------------------------------------------- json
static raw_ostream *O;
static void js(StringRef S) {
  *O << '"';
  for (unsigned char c : S) {
    if (c == '"' || c == '\\') *O << '\\' << c;
    else if (c < 32 || c > 126) { static const char *h = "0123456789abcdef"; *O << "\\u00" << h[c >> 4] << h[c & 15]; }
    else *O << c;
  }
  *O << '"';
}

// ---------------------------------------------------------------- field attribution
static bool basedOnAlloca(Value *V) {
  for (int i = 0; i < 64; i++) {
    if (isa<AllocaInst>(V)) return true;
    if (auto *G = dyn_cast<GetElementPtrInst>(V)) { V = G->getPointerOperand(); continue; }
    if (auto *CI = dyn_cast<CallInst>(V))
      if (CI->getCalledFunction() == FldFn) { V = CI->getArgOperand(0); continue; }
    return false;
  }
  return false;
}

static unsigned fieldId(StructType *ST, unsigned Idx) {
  std::string N = ST->hasName() ? stripNum(ST->getName()) : "anon";
  auto K = std::make_pair(N, Idx);
  auto It = FieldIdx.find(K);
  if (It != FieldIdx.end()) return It->second;
  unsigned Id = FieldIds.size();
  FieldIds.push_back(K);
  FieldIdx[K] = Id;
  return Id;
}
static std::map<unsigned, StructType *> FieldST;

static void convertGEPs(Function &F) {
  std::vector<GetElementPtrInst *> W;
  for (Instruction &I : instructions(F))
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) W.push_back(G);
  for (auto *G : W) {
    if (basedOnAlloca(G->getPointerOperand())) continue;
    // any struct step?
    Type *T = G->getSourceElementType();
    bool has = false;
    { Type *X = T; unsigned n = 0;
      for (auto I = G->idx_begin(); I != G->idx_end(); ++I, ++n) {
        if (n == 0) continue;
        if (auto *S = dyn_cast<StructType>(X)) { has = true; X = S->getElementType(cast<ConstantInt>(*I)->getZExtValue()); }
        else if (auto *A = dyn_cast<ArrayType>(X)) X = A->getElementType();
      } }
    if (!has) continue;
    IRBuilder<> B(G);
    Value *P = G->getPointerOperand();
    unsigned n = 0;
    Type *X = T;
    for (auto I = G->idx_begin(); I != G->idx_end(); ++I, ++n) {
      if (n == 0) {
        auto *CI = dyn_cast<ConstantInt>(*I);
        if (!CI || !CI->isZero()) P = B.CreateGEP(X, P, {*I});
        continue;
      }
      if (auto *S = dyn_cast<StructType>(X)) {
        unsigned k = cast<ConstantInt>(*I)->getZExtValue();
        unsigned id = fieldId(S, k);
        FieldST[id] = S;
        P = B.CreateCall(FldFn, {P, B.getInt32(id)});
        X = S->getElementType(k);
      } else if (auto *A = dyn_cast<ArrayType>(X)) {
        P = B.CreateGEP(A, P, {B.getInt64(0), *I});
        X = A->getElementType();
      }
    }
    G->replaceAllUsesWith(P);
    G->eraseFromParent();
  }
}

static bool relowerFld(Function &F) {
  bool ch = false;
  std::vector<CallInst *> W;
  for (Instruction &I : instructions(F))
    if (auto *CI = dyn_cast<CallInst>(&I))
      if (CI->getCalledFunction() == FldFn && basedOnAlloca(CI->getArgOperand(0))) W.push_back(CI);
  for (auto *CI : W) {
    unsigned id = cast<ConstantInt>(CI->getArgOperand(1))->getZExtValue();
    IRBuilder<> B(CI);
    Value *G = B.CreateStructGEP(FieldST[id], CI->getArgOperand(0), FieldIds[id].second);
    if (auto *GI = dyn_cast<Instruction>(G)) GI->setMetadata("vty", MDNode::get(C, {MDString::get(C, "\"" + FieldIds[id].first + "\"")}));
    CI->replaceAllUsesWith(G);
    CI->eraseFromParent();
    ch = true;
  }
  return ch;
}

// ---------------------------------------------------------------- simplification
struct PM {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PM() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); }
};
static PM *Passes;

static void cleanCFG(Function &F) {
  bool ch = true;
  while (ch) {
    ch = false;
    for (BasicBlock &B : F) ch |= ConstantFoldTerminator(&B, true);
    ch |= removeUnreachableBlocks(F);
    for (auto It = F.begin(); It != F.end();) {
      BasicBlock *B = &*It++;
      if (MergeBlockIntoPredecessor(B)) ch = true;
    }
  }
}

static void simplify(Function &F) {
  FunctionPassManager FPM;
  FPM.addPass(LowerConstantIntrinsicsPass());
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(InstSimplifyPass());
  Passes->FAM.clear();
  FPM.run(F, Passes->FAM);
  Passes->FAM.clear();
  cleanCFG(F);
}

// calls that never return: cut the flow after them
static bool isNoReturnCall(CallBase *CB) {
  Function *F = CB->getCalledFunction();
  if (!F) return false;
  if (F->doesNotReturn() || CB->doesNotReturn()) return true;
  if ((F->getName() == "g_log" || F->getName() == "g_logv") && CB->arg_size() > 1)
    if (auto *CI = dyn_cast<ConstantInt>(CB->getArgOperand(1)))
      return (CI->getZExtValue() & 4) != 0; // G_LOG_LEVEL_ERROR
  return false;
}
static void cutNoReturn(Function &F) {
  std::vector<Instruction *> W;
  for (Instruction &I : instructions(F))
    if (auto *CB = dyn_cast<CallInst>(&I))
      if (isNoReturnCall(CB) && !isa<UnreachableInst>(CB->getNextNode())) W.push_back(CB->getNextNode());
  std::set<BasicBlock *> done;
  for (auto *I : W) {
    if (!done.insert(I->getParent()).second) continue;
    changeToUnreachable(I);
  }
  removeUnreachableBlocks(F);
}

// ---------------------------------------------------------------- inlining
struct Hist { std::string fn; int parent; };
static std::vector<Hist> Hists;
static void setHist(CallBase *CB, int h) {
  CB->setMetadata("hist", MDNode::get(C, ConstantAsMetadata::get(ConstantInt::get(Type::getInt32Ty(C), h))));
}
static int getHist(CallBase *CB) {
  if (MDNode *N = CB->getMetadata("hist"))
    return cast<ConstantInt>(cast<ConstantAsMetadata>(N->getOperand(0))->getValue())->getZExtValue();
  return 0;
}
static bool inHist(int h, StringRef fn) {
  for (; h >= 0; h = Hists[h].parent) if (Hists[h].fn == fn) return true;
  return false;
}

// make an indirect/mismatched call to a known function direct and well typed
static bool fixCall(CallInst *CI) {
  Value *Cal = CI->getCalledOperand()->stripPointerCasts();
  Function *F = dyn_cast<Function>(Cal);
  if (!F) return false;
  if (CI->getCalledFunction() == F && CI->getFunctionType() == F->getFunctionType()) return false;
  if (F->isVarArg() || F->isDeclaration()) {
    return false;
  }
  IRBuilder<> B(CI);
  std::vector<Value *> A;
  auto conv = [&](Value *V, Type *T) -> Value * {
    if (V->getType() == T) return V;
    if (V->getType()->isIntegerTy() && T->isIntegerTy()) return B.CreateSExtOrTrunc(V, T);
    if (V->getType()->isPointerTy() && T->isIntegerTy()) return B.CreatePtrToInt(V, T);
    if (V->getType()->isIntegerTy() && T->isPointerTy()) return B.CreateIntToPtr(V, T);
    return UndefValue::get(T);
  };
  for (unsigned i = 0; i < F->arg_size(); i++) {
    Type *T = F->getFunctionType()->getParamType(i);
    if (i < CI->arg_size()) A.push_back(conv(CI->getArgOperand(i), T)); else A.push_back(UndefValue::get(T));
  }
  CallInst *N = B.CreateCall(F, A);
  N->setDebugLoc(CI->getDebugLoc());
  setHist(N, getHist(CI));
  if (!CI->getType()->isVoidTy()) {
    Value *R = N->getType()->isVoidTy() ? (Value *)UndefValue::get(CI->getType()) : conv(N, CI->getType());
    CI->replaceAllUsesWith(R);
  }
  CI->eraseFromParent();
  return true;
}

static bool inlineAll(Function &F, const std::string &Root) {
  bool any = false, ch = true;
  while (ch) {
    ch = false;
    std::vector<CallInst *> W;
    for (Instruction &I : instructions(F))
      if (auto *CI = dyn_cast<CallInst>(&I)) W.push_back(CI);
    for (auto *CI : W) {
      if (fixCall(CI)) { ch = true; break; }
      Function *G = CI->getCalledFunction();
      if (!G || G->isDeclaration() || G->isVarArg() || G == &F) continue;
      if (Stop.count(G->getName().str())) continue;
      int h = getHist(CI);
      if (G->getName() == Root || inHist(h, G->getName())) continue;
      Hists.push_back({G->getName().str(), h});
      int nh = Hists.size() - 1;
      InlineFunctionInfo IFI;
      // stamp calls of the inlined body
      auto R = InlineFunction(*CI, IFI);
      if (!R.isSuccess()) { errs() << "inline failed: " << G->getName() << ": " << R.getFailureReason() << "\n"; exit(3); }
      for (CallBase *CB : IFI.InlinedCallSites) setHist(CB, nh);
      ch = any = true;
      break;
    }
    if (Hists.size() > 20000) { errs() << "inlining does not terminate in " << Root << "\n"; exit(3); }
  }
  return any;
}

static void unrollConst(Function &F) {
  for (int round = 0; round < 20; round++) {
    Passes->FAM.clear();
    auto &LI = Passes->FAM.getResult<LoopAnalysis>(F);
    auto &DT = Passes->FAM.getResult<DominatorTreeAnalysis>(F);
    auto &AC = Passes->FAM.getResult<AssumptionAnalysis>(F);
    auto &SE = Passes->FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &TTI = Passes->FAM.getResult<TargetIRAnalysis>(F);
    OptimizationRemarkEmitter ORE(&F);
    for (Loop *L : LI) simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
    bool done = false;
    for (Loop *L : LI.getLoopsInPreorder()) {
      if (!L->getSubLoops().empty()) continue;
      unsigned TC = 0;
      SmallVector<BasicBlock *, 4> Ex;
      L->getExitingBlocks(Ex);
      for (auto *E : Ex) { unsigned t = SE.getSmallConstantTripCount(L, E); if (t && (!TC || t < TC)) TC = t; }
      if (!TC || TC > 17) continue;
      formLCSSARecursively(*L, DT, &LI, &SE);
      UnrollLoopOptions U;
      U.Count = TC; U.Force = true; U.Runtime = false; U.AllowExpensiveTripCount = false; U.UnrollRemainder = false; U.ForgetAllSCEV = true;
      auto R = UnrollLoop(L, U, &LI, &SE, &DT, &AC, &TTI, &ORE, false);
      if (R != LoopUnrollResult::Unmodified) { done = true; break; }
    }
    Passes->FAM.clear();
    if (!done) break;
    simplify(F);
  }
}

// ---------------------------------------------------------------- export
static DenseMap<const Value *, unsigned> Ids;
static DenseMap<const BasicBlock *, unsigned> BIds;

static void typ(Type *T) {
  if (T->isPointerTy()) *O << "\"p\"";
  else if (T->isIntegerTy()) *O << "\"i" << T->getIntegerBitWidth() << "\"";
  else if (T->isVoidTy()) *O << "\"v\"";
  else if (T->isDoubleTy()) *O << "\"f64\"";
  else if (T->isFloatTy()) *O << "\"f32\"";
  else if (auto *S = dyn_cast<StructType>(T)) js(S->hasName() ? stripNum(S->getName()) : "anon");
  else if (auto *A = dyn_cast<ArrayType>(T)) { *O << "[\"arr\"," << A->getNumElements() << ","; typ(A->getElementType()); *O << "]"; }
  else { std::string s; raw_string_ostream os(s); T->print(os); js(s); }
}

static std::string typStr(Type *T) {
  std::string r;
  raw_string_ostream os(r);
  raw_ostream *o = O;
  O = &os; typ(T); O = o;
  os.flush();
  return r;
}
// types are named before linking: the linker merges structures of equal layout and forgets all but one name
template <class X> static void tagTy(X &I, Type *T) { I.setMetadata("vty", MDNode::get(C, {MDString::get(C, typStr(T))})); }
template <class X> static void typTagged(X &I, Type *T) {
  if (auto *N = I.getMetadata("vty")) *O << cast<MDString>(N->getOperand(0))->getString();
  else typ(T);
}

static bool constStr(const Value *V, std::string &out) {
  auto *G = dyn_cast<GlobalVariable>(V);
  if (!G || !G->isConstant() || !G->hasInitializer()) return false;
  if (auto *A = dyn_cast<ConstantDataArray>(G->getInitializer()))
    if (A->isString()) { out = A->getAsString().str(); size_t z = out.find('\0'); if (z != std::string::npos) out.resize(z); return true; }
  if (isa<ConstantAggregateZero>(G->getInitializer()) && G->hasPrivateLinkage()) { out = ""; return true; }
  return false;
}

static void cst(const Value *V);
static void opnd(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) { *O << "[\"a\"," << A->getArgNo() << "]"; return; }
  if (isa<Instruction>(V)) { *O << "[\"v\"," << Ids[V] << "]"; return; }
  if (auto *B = dyn_cast<BasicBlock>(V)) { *O << "[\"b\"," << BIds[B] << "]"; return; }
  cst(V);
}
static void cst(const Value *V) {
  std::string s;
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    *O << "[\"i\","; if (CI->getBitWidth() == 1) *O << (CI->isOne() ? 1 : 0); else CI->getValue().print(*O, true);
    *O << "," << CI->getBitWidth() << "]"; return; }
  if (isa<ConstantPointerNull>(V)) { *O << "[\"n\"]"; return; }
  if (auto *CF = dyn_cast<ConstantFP>(V)) { SmallString<32> b; CF->getValueAPF().toString(b, 17, 0); 
    bool inf = CF->getValueAPF().isInfinity() || CF->getValueAPF().isNaN(); *O << "[\"f\","; js(inf ? StringRef("inf") : StringRef(b)); *O << "]"; return; }
  if (isa<UndefValue>(V)) { *O << "[\"u\"]"; return; }
  if (constStr(V, s)) { *O << "[\"s\","; js(s); *O << "]"; return; }
  if (auto *F = dyn_cast<Function>(V)) { *O << "[\"fn\","; js(F->getName()); *O << "]"; return; }
  if (auto *G = dyn_cast<GlobalVariable>(V)) { *O << "[\"g\","; js(G->getName()); *O << "]"; return; }
  if (auto *E = dyn_cast<ConstantExpr>(V)) {
    if (E->isCast()) { *O << "[\"cc\","; js(E->getOpcodeName()); *O << ","; cst(E->getOperand(0)); *O << "]"; return; }
    if (E->getOpcode() == Instruction::GetElementPtr) {
      auto *GO = cast<GEPOperator>(E);
      *O << "[\"cg\","; typ(GO->getSourceElementType()); *O << ","; cst(GO->getPointerOperand());
      for (auto I = GO->idx_begin(); I != GO->idx_end(); ++I) { *O << ","; cst(*I); }
      *O << "]"; return; }
  }
  if (auto *S = dyn_cast<ConstantAggregate>(V)) {
    *O << "[\"agg\""; for (auto &Op : S->operands()) { *O << ","; cst(Op); } *O << "]"; return; }
  if (auto *S = dyn_cast<ConstantDataSequential>(V)) {
    if (S->isString()) { *O << "[\"str\","; js(S->getAsString()); *O << "]"; return; }
    *O << "[\"agg\""; for (unsigned i = 0; i < S->getNumElements(); i++) { *O << ","; cst(S->getElementAsConstant(i)); } *O << "]"; return; }
  if (isa<ConstantAggregateZero>(V)) { *O << "[\"zero\"]"; return; }
  if (isa<MetadataAsValue>(V)) { *O << "[\"md\"]"; return; }
  std::string t; raw_string_ostream os(t); V->print(os); *O << "[\"x\","; js(t); *O << "]";
}

static void loc(const Instruction &I) {
  const DebugLoc &D = I.getDebugLoc();
  if (!D) { *O << "null"; return; }
  *O << "[";
  bool first = true;
  for (const DILocation *L = D.get(); L; L = L->getInlinedAt()) {
    if (!first) *O << ",";
    first = false;
    auto *SP = L->getScope()->getSubprogram();
    *O << "["; js(SP ? SP->getName() : ""); *O << ","; js(L->getFilename()); *O << "," << L->getLine() << "]";
  }
  *O << "]";
}

static void expFn(Function &F, StringRef Name) {
  Ids.clear(); BIds.clear();
  unsigned n = 0, b = 0;
  for (BasicBlock &B : F) { BIds[&B] = b++; for (Instruction &I : B) Ids[&I] = n++; }
  *O << "{\"name\":"; js(Name);
  *O << ",\"file\":"; js(F.getSubprogram() ? F.getSubprogram()->getFilename() : "");
  *O << ",\"line\":" << (F.getSubprogram() ? F.getSubprogram()->getLine() : 0);
  *O << ",\"internal\":" << (F.hasLocalLinkage() ? "true" : "false");
  *O << ",\"ret\":"; typ(F.getReturnType());
  *O << ",\"args\":[";
  for (auto &A : F.args()) { if (A.getArgNo()) *O << ","; *O << "["; js(A.getName()); *O << ","; typ(A.getType()); *O << "]"; }
  *O << "],\"blocks\":[";
  bool fb = true;
  for (BasicBlock &B : F) {
    if (!fb) *O << ",\n";
    fb = false;
    *O << "[";
    bool fi = true;
    for (Instruction &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I))
        if (II->isAssumeLikeIntrinsic()) continue;
      if (!fi) *O << ",";
      fi = false;
      *O << "[" << Ids[&I] << ",";
      if (auto *CB = dyn_cast<CallInst>(&I)) {
        if (CB->getCalledFunction() == FldFn) {
          unsigned id = cast<ConstantInt>(CB->getArgOperand(1))->getZExtValue();
          *O << "\"fld\",\"p\",["; opnd(CB->getArgOperand(0)); *O << "],[" ; js(FieldIds[id].first); *O << "," << FieldIds[id].second << "]";
        } else {
          *O << "\"call\","; typ(I.getType()); *O << ",[";
          for (unsigned i = 0; i < CB->arg_size(); i++) { if (i) *O << ","; opnd(CB->getArgOperand(i)); }
          *O << "],"; opnd(CB->getCalledOperand()->stripPointerCasts());
        }
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        *O << "\"gep\",\"p\",[";
        for (unsigned i = 0; i < G->getNumOperands(); i++) { if (i) *O << ","; opnd(G->getOperand(i)); }
        *O << "],"; typTagged(*G, G->getSourceElementType());
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        *O << "\"alloca\",\"p\",["; opnd(A->getArraySize()); *O << "],["; typTagged(*A, A->getAllocatedType()); *O << ",";
        js(A->getName()); *O << "," << M->getDataLayout().getTypeAllocSize(A->getAllocatedType()).getFixedValue() << "]";
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        *O << "\"phi\","; typ(I.getType()); *O << ",[";
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) *O << ","; opnd(P->getIncomingValue(i)); }
        *O << "],[";
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) *O << ","; *O << BIds[P->getIncomingBlock(i)]; }
        *O << "]";
      } else if (auto *Cm = dyn_cast<CmpInst>(&I)) {
        *O << "\"" << I.getOpcodeName() << "\","; typ(I.getType()); *O << ",["; opnd(Cm->getOperand(0)); *O << ","; opnd(Cm->getOperand(1));
        *O << "],"; js(CmpInst::getPredicateName(Cm->getPredicate()));
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        *O << "\"switch\",\"v\",["; opnd(S->getCondition()); *O << "],[" << BIds[S->getDefaultDest()] << ",[";
        bool fc = true;
        for (auto &Cs : S->cases()) { if (!fc) *O << ","; fc = false; *O << "[" << Cs.getCaseValue()->getSExtValue() << "," << BIds[Cs.getCaseSuccessor()] << "]"; }
        *O << "]]";
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        *O << "\"br\",\"v\",["; if (Br->isConditional()) opnd(Br->getCondition());
        *O << "],["; for (unsigned i = 0; i < Br->getNumSuccessors(); i++) { if (i) *O << ","; *O << BIds[Br->getSuccessor(i)]; } *O << "]";
      } else if (isa<LoadInst>(I)) {
        *O << "\"load\","; typ(I.getType()); *O << ",["; opnd(I.getOperand(0)); *O << "]," << (cast<LoadInst>(I).isVolatile() ? 1 : 0);
      } else {
        *O << "\"" << I.getOpcodeName() << "\","; typ(I.getType()); *O << ",[";
        for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) *O << ","; opnd(I.getOperand(i)); }
        *O << "],null";
      }
      *O << ","; loc(I); *O << "]";
    }
    *O << "]";
  }
  *O << "]}";
}

static DIType *stripDI(DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type) T = D->getBaseType();
    else break;
  }
  return T;
}
static void diType(DIType *T, int depth) {
  DIType *S = stripDI(T);
  if (!S) { *O << "\"void\""; return; }
  if (auto *B = dyn_cast<DIBasicType>(S)) { js(B->getName()); return; }
  if (auto *D = dyn_cast<DIDerivedType>(S)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) { *O << "[\"ptr\","; if (depth < 3) diType(D->getBaseType(), depth + 1); else *O << "\"...\""; *O << "]"; return; }
    js("derived"); return;
  }
  if (auto *K = dyn_cast<DICompositeType>(S)) {
    if (K->getTag() == dwarf::DW_TAG_array_type) {
      *O << "[\"arr\",[";
      bool f = true;
      for (auto *E : K->getElements()) if (auto *SR = dyn_cast<DISubrange>(E)) { if (!f) *O << ","; f = false; auto *n = SR->getCount().dyn_cast<ConstantInt *>(); *O << (n ? n->getSExtValue() : -1); }
      *O << "],"; diType(K->getBaseType(), depth); *O << "]"; return; }
    if (K->getTag() == dwarf::DW_TAG_enumeration_type) {
      *O << "[\"enum\","; js(K->getName()); *O << ",[";
      bool f = true; for (auto *E : K->getElements()) if (auto *EN = dyn_cast<DIEnumerator>(E)) { if (!f) *O << ","; f = false; *O << "["; js(EN->getName()); *O << "," << EN->getValue().getSExtValue() << "]"; }
      *O << "]]"; return; }
    *O << "[\"struct\","; js(K->getName()); 
    if (K->getName().empty() && depth < 3) {
      *O << ",["; bool f = true;
      for (auto *E : K->getElements()) if (auto *Mb = dyn_cast<DIDerivedType>(E)) { if (!f) *O << ","; f = false; *O << "["; js(Mb->getName()); *O << "," << Mb->getOffsetInBits() / 8 << "," << Mb->getSizeInBits() / 8 << ","; diType(Mb->getBaseType(), depth + 1); *O << "]"; }
      *O << "]";
    }
    *O << "]"; return;
  }
  if (isa<DISubroutineType>(S)) { *O << "\"fn\""; return; }
  *O << "\"?\"";
}

// names of the members every access goes through, per module, before it is linked
static std::map<std::string, std::string> StructJson;
static void prepare(Module &m) {
  FldFn = Function::Create(FunctionType::get(PointerType::get(C, 0), {PointerType::get(C, 0), Type::getInt32Ty(C)}, false), GlobalValue::ExternalLinkage, "__fld", m);
  FldFn->setDoesNotAccessMemory(); FldFn->setDoesNotThrow(); FldFn->setWillReturn();
  for (auto *ST : m.getIdentifiedStructTypes()) {
    if (!ST->hasName() || ST->isOpaque()) continue;
    const StructLayout *SL = m.getDataLayout().getStructLayout(ST);
    std::string r = "{\"size\":" + std::to_string(SL->getSizeInBytes().getFixedValue()) + ",\"f\":[";
    for (unsigned i = 0; i < ST->getNumElements(); i++) {
      if (i) r += ",";
      r += "[" + std::to_string(SL->getElementOffset(i).getFixedValue()) + "," + typStr(ST->getElementType(i)) + "]";
    }
    StructJson.insert({stripNum(ST->getName()), r + "]}"});
  }
  for (GlobalVariable &G : m.globals()) if (!G.getName().starts_with("llvm.")) tagTy(G, G.getValueType());
  // constant GEPs on globals -> instructions
  for (Function &F : m) {
    if (F.isDeclaration()) continue;
    bool ch = true;
    int guard = 0;
    while (ch && guard++ < 50) {
      ch = false;
      std::vector<std::pair<Instruction *, unsigned>> W;
      for (Instruction &I : instructions(F)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        for (unsigned i = 0; i < I.getNumOperands(); i++)
          if (auto *E = dyn_cast<ConstantExpr>(I.getOperand(i))) W.push_back({&I, i});
      }
      for (auto &w : W) {
        auto *E = cast<ConstantExpr>(w.first->getOperand(w.second));
        Instruction *N = E->getAsInstruction();
        if (auto *P = dyn_cast<PHINode>(w.first)) {
          BasicBlock *Pb = P->getIncomingBlock(w.second);
          N->insertBefore(Pb->getTerminator());
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (P->getIncomingBlock(k) == Pb && P->getIncomingValue(k) == E) P->setIncomingValue(k, N);
          if (P->getIncomingValue(w.second) != N) P->setIncomingValue(w.second, N);
        } else { N->insertBefore(w.first); w.first->setOperand(w.second, N); }
        N->setDebugLoc(w.first->getDebugLoc());
        ch = true;
      }
    }
    convertGEPs(F);
  }
  for (Function &F : m)
    for (Instruction &I : instructions(F)) {
      if (auto *A = dyn_cast<AllocaInst>(&I)) tagTy(*A, A->getAllocatedType());
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) tagTy(*G, G->getSourceElementType());
    }
}

int main(int argc, char **argv) {
  // export OUT.json JOBS.txt file.bc...
  if (argc < 4) return 2;
  std::vector<std::string> bcs(argv + 3, argv + argc);
  M = std::make_unique<Module>("all", C);
  C.enableDebugTypeODRUniquing();
  {
    Linker L(*M);
    for (auto &f : bcs) {
      SMDiagnostic E;
      auto m = parseIRFile(f, E, C);
      if (!m) { E.print("export", errs()); return 2; }
      if (M->getDataLayoutStr().empty()) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); }
      prepare(*m);
      if (L.linkInModule(std::move(m))) return 2;
    }
  }
  Passes = new PM();
  FldFn = M->getFunction("__fld");


  DebugInfoFinder DF;
  DF.processModule(*M);
  for (auto *T : DF.types())
    if (auto *K = dyn_cast<DICompositeType>(T))
      if (!K->getName().empty() && !K->isForwardDecl()) DITypes[K->getName().str()] = K;
  for (auto *T : DF.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *K = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (K->getName().empty() && !K->isForwardDecl()) DITypes.insert({D->getName().str(), K});

  for (Function &F : *M) if (!F.isDeclaration()) { simplify(F); cutNoReturn(F); cleanCFG(F); }
  if (verifyModule(*M, &errs())) return 3;

  std::error_code EC;
  raw_fd_ostream OS(argv[1], EC);
  O = &OS;
  OS << "{\"functions\":[\n";
  bool first = true;
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    if (!first) OS << ",\n";
    first = false;
    expFn(F, F.getName());
  }
  OS << "],\n\"flat\":[\n";
  first = true;
  // jobs: name root [unroll] [stop=a,b,c]
  std::vector<std::string> lines;
  { auto MB = MemoryBuffer::getFile(argv[2]); SmallVector<StringRef, 64> L; (*MB)->getBuffer().split(L, '\n'); for (auto l : L) if (!l.trim().empty()) lines.push_back(l.trim().str()); }
  for (auto &l : lines) {
    SmallVector<StringRef, 8> P;
    StringRef(l).split(P, ' ', -1, false);
    std::string name = P[0].str(), root = P[1].str();
    bool unroll = false;
    Stop.clear();
    // walking a list to its end helps only where its nodes are followed ("lists")
    Stop.insert("g_slist_append"); Stop.insert("g_slist_reverse");
    for (size_t i = 2; i < P.size(); i++) {
      if (P[i] == "unroll") unroll = true;
      if (P[i] == "lists") { Stop.erase("g_slist_append"); Stop.erase("g_slist_reverse"); }
      if (P[i].starts_with("stop=")) { SmallVector<StringRef, 16> S; P[i].substr(5).split(S, ',', -1, false); for (auto s : S) Stop.insert(s.str()); }
    }
    Function *R = M->getFunction(root);
    if (!R || R->isDeclaration()) { continue; }
    ValueToValueMapTy VM;
    Function *N = CloneFunction(R, VM);
    N->setName(root + ".flat");
    Hists.clear(); Hists.push_back({root, -1});
    for (int round = 0; round < 40; round++) {
      bool ch = inlineAll(*N, root);
      ch |= relowerFld(*N);
      simplify(*N);
      cutNoReturn(*N);
      cleanCFG(*N);
      // newly constant callees?
      for (Instruction &I : instructions(*N))
        if (auto *CI = dyn_cast<CallInst>(&I))
          if (!CI->getCalledFunction() || CI->getFunctionType() != CI->getCalledFunction()->getFunctionType())
            if (auto *F = dyn_cast<Function>(CI->getCalledOperand()->stripPointerCasts())) if (!F->isDeclaration()) ch = true;
      if (!ch) break;
    }
    if (unroll) { unrollConst(*N); cleanCFG(*N); }
    if (verifyFunction(*N, &errs())) return 3;
    if (!first) OS << ",\n";
    first = false;
    expFn(*N, name);
    N->eraseFromParent();
  }
  OS << "],\n\"globals\":{\n";
  first = true;
  for (GlobalVariable &G : M->globals()) {
    std::string s;
    if (G.getName().starts_with("llvm.")) continue;
    if (!first) OS << ",\n";
    first = false;
    js(G.getName()); OS << ":{\"ty\":"; typTagged(G, G.getValueType()); OS << ",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"internal\":" << (G.hasLocalLinkage() ? "true" : "false")
       << ",\"decl\":" << (G.isDeclaration() ? "true" : "false") << ",\"size\":" << (G.getValueType()->isSized() ? M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue() : 0) << ",\"init\":";
    if (G.hasInitializer()) cst(G.getInitializer()); else OS << "null";
    OS << "}";
  }
  OS << "},\n\"decls\":[";
  first = true;
  for (Function &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) { if (!first) OS << ","; first = false; js(F.getName()); }
  OS << "],\n\"structs\":{\n";
  first = true;
  for (auto &kv : StructJson) {
    if (!first) OS << ",\n";
    first = false;
    js(kv.first); OS << ":" << kv.second;
  }
  OS << "},\n\"di\":{\n";
  first = true;
  for (auto &kv : DITypes) {
    auto *K = kv.second;
    if (K->getTag() != dwarf::DW_TAG_structure_type && K->getTag() != dwarf::DW_TAG_union_type) continue;
    if (!first) OS << ",\n";
    first = false;
    js(kv.first); OS << ":{\"size\":" << K->getSizeInBits() / 8 << ",\"m\":[";
    bool f = true;
    for (auto *E : K->getElements()) if (auto *Mb = dyn_cast<DIDerivedType>(E)) {
      if (!f) OS << ","; f = false;
      OS << "["; js(Mb->getName()); OS << "," << Mb->getOffsetInBits() / 8 << "," << Mb->getSizeInBits() / 8 << ","; diType(Mb->getBaseType(), 0); OS << "]"; }
    OS << "]}";
  }
  OS << "}}\n";
  OS.close();
  return 0;
}
