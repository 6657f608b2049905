// irx: reads one LLVM bitcode module, promotes allocas to SSA, and writes the
// module as one compact JSON object (functions, blocks, instructions, struct
// layouts with source field names, globals with initialisers).
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <cmath>
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}

struct Dumper {
  Module &M; json::OStream &J; const DataLayout &DL;
  DenseMap<const Value *, int> Id;
  Dumper(Module &m, json::OStream &j) : M(m), J(j), DL(m.getDataLayout()) {}

  void constant(const Constant *C, int depth) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      if (CI->getBitWidth() <= 64) J.array([&]{ J.value("i"); J.value((int64_t)CI->getSExtValue()); J.value((int)CI->getBitWidth()); });
      else J.array([&]{ J.value("x"); });
    } else if (isa<ConstantPointerNull>(C)) J.array([&]{ J.value("n"); });
    else if (isa<UndefValue>(C)) J.array([&]{ J.value("u"); });
    else if (auto *CF = dyn_cast<ConstantFP>(C)) {
      double d = 0; bool l; APFloat f = CF->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); d = f.convertToDouble();
      J.array([&]{ J.value("f"); if (std::isfinite(d)) J.value(d); else J.value(nullptr); });
    } else if (auto *G = dyn_cast<GlobalValue>(C)) J.array([&]{ J.value("g"); J.value(G->getName()); });
    else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0); bool ok = GEP->accumulateConstantOffset(DL, off);
        J.array([&]{ J.value("gep"); J.value(tyStr(GEP->getSourceElementType())); constant(cast<Constant>(GEP->getPointerOperand()), depth);
          J.arrayBegin(); for (auto &x : make_range(GEP->idx_begin(), GEP->idx_end())) constant(cast<Constant>(x), depth); J.arrayEnd();
          if (ok) J.value(off.getSExtValue()); else J.value(nullptr); });
      } else J.array([&]{ J.value("ce"); J.value(CE->getOpcodeName()); for (auto &o : CE->operands()) constant(cast<Constant>(o), depth); });
    } else if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
      if (S->isString()) J.array([&]{ J.value("s"); J.value(json::fixUTF8(S->isCString() ? S->getAsCString() : S->getAsString())); J.value((int64_t)S->getNumElements()); });
      else J.array([&]{ J.value("a"); for (unsigned i = 0; i < S->getNumElements() && i < 4096; i++) constant(S->getElementAsConstant(i), depth); });
    } else if (isa<ConstantAggregateZero>(C)) J.array([&]{ J.value("z"); });
    else if (isa<ConstantAggregate>(C)) J.array([&]{ J.value("a"); for (auto &o : C->operands()) constant(cast<Constant>(o), depth + 1); });
    else J.array([&]{ J.value("x"); });
  }
  void op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) constant(C, 0);
    else { auto it = Id.find(V); if (it == Id.end()) J.array([&]{ J.value("x"); }); else J.value(it->second); }
  }
  std::string diName(const DIType *T, int d = 0) {
    if (!T || d > 12) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType(), d + 1) + "*";
        case dwarf::DW_TAG_typedef: return D->getName().str();
        case dwarf::DW_TAG_const_type: return "const " + diName(D->getBaseType(), d + 1);
        default: return diName(D->getBaseType(), d + 1);
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) return diName(C->getBaseType(), d + 1) + "[]";
      std::string n = C->getName().str(); if (n.empty()) n = "anon";
      return (C->getTag() == dwarf::DW_TAG_union_type ? "union " : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ") + n;
    }
    if (isa<DISubroutineType>(T)) return "func";
    return T->getName().str();
  }
  const DIType *strip(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) { if (D->getTag() == dwarf::DW_TAG_pointer_type) return T; T = D->getBaseType(); }
    return T;
  }
  void nested(const DICompositeType *CB, int d) {
    J.array([&]{ for (auto *E : CB->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) J.array([&]{
      J.value(D->getName()); J.value((int64_t)D->getOffsetInBits() / 8); J.value((int64_t)D->getSizeInBits() / 8); J.value(diName(D->getBaseType()));
      auto *C = dyn_cast_or_null<DICompositeType>(strip(D->getBaseType()));
      if (C && d < 4 && C->getName().empty() && (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type)) nested(C, d + 1); }); });
  }
  void structs() {
    DebugInfoFinder F; F.processModule(M);
    J.attributeArray("di", [&]{
      std::set<std::string> seen;
      for (auto *T : F.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
        if (C->isForwardDecl()) continue;
        std::string n = C->getName().str(); if (n.empty()) continue;
        if (!seen.insert(n).second) continue;
        J.object([&]{ J.attribute("n", n); J.attribute("u", C->getTag() == dwarf::DW_TAG_union_type); J.attribute("sz", (int64_t)C->getSizeInBits() / 8);
          J.attributeArray("f", [&]{ for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) {
            const DIType *B = strip(D->getBaseType()); 
            J.array([&]{ J.value(D->getName()); J.value((int64_t)D->getOffsetInBits() / 8); J.value((int64_t)D->getSizeInBits() / 8); J.value(diName(D->getBaseType()));
              if (auto *CB = dyn_cast_or_null<DICompositeType>(B)) {
                if (CB->getTag() == dwarf::DW_TAG_array_type) J.value("array");
                else if (CB->getName().empty() && (CB->getTag() == dwarf::DW_TAG_structure_type || CB->getTag() == dwarf::DW_TAG_union_type)) {
                  nested(CB, 0);
                } else J.value(diName(CB));
              } else J.value(nullptr); });
          } });
        });
      }
    });
    J.attributeObject("structs", [&]{
      for (auto *S : M.getIdentifiedStructTypes()) if (!S->isOpaque()) {
        auto *L = DL.getStructLayout(S);
        J.attributeObject(S->getName(), [&]{ J.attribute("sz", (int64_t)L->getSizeInBytes());
          J.attributeArray("e", [&]{ for (unsigned i = 0; i < S->getNumElements(); i++) J.array([&]{ J.value((int64_t)L->getElementOffset(i)); J.value(tyStr(S->getElementType(i))); }); }); });
      }
    });
  }
  void loc(const Instruction &I) {
    if (const DebugLoc &L = I.getDebugLoc()) {
      J.value((int)L.getLine());
    } else J.value(0);
  }
  std::string scopeFile(const Instruction &I, StringRef dflt) {
    if (const DebugLoc &L = I.getDebugLoc()) { if (auto *S = dyn_cast_or_null<DIScope>(L.getScope())) { StringRef f = S->getFilename(); if (f != dflt) return f.str(); } }
    return "";
  }
  void function(Function &F) {
    J.object([&]{
      auto *SP = F.getSubprogram();
      J.attribute("name", F.getName()); J.attribute("internal", F.hasLocalLinkage());
      J.attribute("decl", F.isDeclaration()); J.attribute("va", F.isVarArg());
      J.attribute("ret", tyStr(F.getReturnType()));
      if (SP) { J.attribute("file", SP->getFilename()); J.attribute("line", (int)SP->getLine()); J.attribute("src", SP->getName());
        J.attributeArray("ditypes", [&]{ if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) J.value(diName(T)); }); }
      Id.clear(); int n = 0;
      for (auto &A : F.args()) Id[&A] = n++;
      J.attributeArray("args", [&]{ for (auto &A : F.args()) J.array([&]{ J.value(A.getName()); J.value(tyStr(A.getType())); }); });
      if (F.isDeclaration()) return;
      DenseMap<const BasicBlock *, int> B; int bn = 0;
      for (auto &BB : F) { B[&BB] = bn++; for (auto &I : BB) Id[&I] = n++; }
      StringRef ff = SP ? SP->getFilename() : "";
      // names of local variables
      J.attributeArray("vars", [&]{
        for (auto &BB : F) for (auto &I : BB) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (D->getNumVariableLocationOps() != 1) continue;
          Value *V = D->getVariableLocationOp(0); if (!V || isa<Constant>(V)) continue;
          auto it = Id.find(V); if (it == Id.end()) continue;
          J.array([&]{ J.value(it->second); J.value(D->getVariable()->getName()); J.value(diName(D->getVariable()->getType())); J.value(D->getVariable()->isParameter()); });
        } });
      J.attributeArray("bl", [&]{ for (auto &BB : F) J.array([&]{ for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue; }
        J.array([&]{
          J.value(Id[&I]); J.value(I.getOpcodeName()); J.value(tyStr(I.getType())); loc(I);
          if (auto *PN = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) J.array([&]{ op(PN->getIncomingValue(i)); J.value(B[PN->getIncomingBlock(i)]); }); }
          else if (auto *BI = dyn_cast<BranchInst>(&I)) { if (BI->isConditional()) { op(BI->getCondition()); J.value(B[BI->getSuccessor(0)]); J.value(B[BI->getSuccessor(1)]); } else J.value(B[BI->getSuccessor(0)]); }
          else if (auto *SI = dyn_cast<SwitchInst>(&I)) { op(SI->getCondition()); J.value(B[SI->getDefaultDest()]); for (auto &c : SI->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value(B[c.getCaseSuccessor()]); }); }
          else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { J.value(tyStr(G->getSourceElementType())); op(G->getPointerOperand()); for (auto &x : make_range(G->idx_begin(), G->idx_end())) op(x); }
          else if (auto *C = dyn_cast<CmpInst>(&I)) { J.value(CmpInst::getPredicateName(C->getPredicate())); op(C->getOperand(0)); op(C->getOperand(1)); }
          else if (auto *CB = dyn_cast<CallBase>(&I)) { op(CB->getCalledOperand()->stripPointerCasts()); for (auto &a : CB->args()) op(a); }
          else if (auto *A = dyn_cast<AllocaInst>(&I)) { J.value(tyStr(A->getAllocatedType())); op(A->getArraySize()); J.value(A->getName()); }
          else if (auto *L = dyn_cast<LoadInst>(&I)) { op(L->getPointerOperand()); J.value(L->isVolatile()); }
          else if (auto *S = dyn_cast<StoreInst>(&I)) { op(S->getValueOperand()); op(S->getPointerOperand()); J.value(S->isVolatile()); }
          else if (auto *CI = dyn_cast<CastInst>(&I)) { op(CI->getOperand(0)); J.value(tyStr(CI->getSrcTy())); }
          else for (auto &o : I.operands()) op(o);
          std::string sf = scopeFile(I, ff); auto *GI = dyn_cast<GetElementPtrInst>(&I);
          if (!sf.empty() || GI) J.object([&]{ if (!sf.empty()) J.attribute("sf", sf);
            if (GI) { MapVector<Value *, APInt> VO; APInt CO(64, 0);
              if (cast<GEPOperator>(GI)->collectOffset(DL, 64, VO, CO)) { J.attribute("off", CO.getSExtValue());
                J.attributeArray("vo", [&]{ for (auto &p : VO) J.array([&]{ op(p.first); J.value(p.second.getSExtValue()); }); }); } } });
        });
      } }); });
    });
  }
};

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, Ctx);
  if (!M) { E.print(argv[0], errs()); return 2; }
  for (auto &F : *M) if (!F.isDeclaration()) {
    DominatorTree DT(F); AssumptionCache AC(F);
    for (;;) {
      std::vector<AllocaInst *> A;
      for (auto &I : F.getEntryBlock()) if (auto *AI = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(AI)) A.push_back(AI);
      if (A.empty()) break;
      PromoteMemToReg(A, DT, &AC);
    }
  }
  json::OStream J(outs());
  Dumper D(*M, J);
  J.object([&]{
    J.attribute("file", M->getSourceFileName());
    D.structs();
    J.attributeArray("globals", [&]{ for (auto &G : M->globals()) J.object([&]{
      J.attribute("name", G.getName()); J.attribute("internal", G.hasLocalLinkage()); J.attribute("const", G.isConstant()); J.attribute("decl", G.isDeclaration()); J.attribute("type", tyStr(G.getValueType()));
      J.attribute("priv", G.hasPrivateLinkage()); J.attribute("tls", G.isThreadLocal());
      SmallVector<DIGlobalVariableExpression *, 1> GV; G.getDebugInfo(GV);
      if (!GV.empty()) { auto *V = GV[0]->getVariable(); J.attribute("line", (int)V->getLine()); J.attribute("src", V->getName()); J.attribute("dit", D.diName(V->getType())); J.attribute("file", V->getFilename()); }
      if (G.hasInitializer()) { J.attributeBegin("init"); D.constant(G.getInitializer(), 0); J.attributeEnd(); }
    }); });
    J.attributeArray("functions", [&]{ for (auto &F : *M) D.function(F); });
  });
  outs() << "\n";
  return 0;
}
