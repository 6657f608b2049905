// Exports the resolved syntax tree of one C unit as JSON: functions defined in
// it, global variables with their initialisers, record layouts and types.
// Nodes are arrays [kind, line, type, ...]; see sv/ast.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <map>
#include <string>
using namespace clang;

static std::string q(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct X {
  ASTContext &C;
  SourceManager &SM;
  std::map<std::string, int> tmap;
  std::vector<std::string> types;
  std::map<const RecordDecl *, std::string> recs;
  std::vector<std::string> files;
  std::map<std::string, int> fmap;
  X(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  int file(SourceLocation L) {
    auto f = SM.getFilename(SM.getExpansionLoc(L)).str();
    auto it = fmap.find(f);
    if (it != fmap.end()) return it->second;
    int n = files.size();
    files.push_back(f); fmap[f] = n;
    return n;
  }
  std::string line(SourceLocation L) {
    auto E = SM.getExpansionLoc(L);
    return std::to_string(SM.getExpansionLineNumber(E));
  }
  std::string recname(const RecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    if (R->getIdentifier()) return R->getName().str();
    if (auto *T = R->getTypedefNameForAnonDecl()) return T->getName().str();
    auto L = SM.getExpansionLoc(R->getLocation());
    return "anon@" + SM.getFilename(L).str().substr(SM.getFilename(L).rfind('/') + 1) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L));
  }
  void rec(const RecordDecl *R) {
    R = R->getDefinition();
    if (!R || recs.count(R) || R->isInvalidDecl()) return;
    recs[R] = "";
    auto &L = C.getASTRecordLayout(R);
    std::string o = "{\"size\":" + std::to_string(L.getSize().getQuantity()) + ",\"union\":" + (R->isUnion() ? "true" : "false") + ",\"fields\":[";
    bool first = true;
    for (auto *F : R->fields()) {
      if (!first) o += ",";
      first = false;
      o += "[" + q(F->getName()) + "," + std::to_string(type(F->getType())) + "," + std::to_string(L.getFieldOffset(F->getFieldIndex()) / 8) + "]";
    }
    recs[R] = o + "]}";
  }
  // type: [sugar, canonical, kind, size, element/pointee type, extra]
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string sug = T.getAsString();
    QualType K = T.getCanonicalType();
    std::string can = K.getAsString();
    std::string key = sug + "|" + can;
    auto it = tmap.find(key);
    if (it != tmap.end()) return it->second;
    int n = types.size();
    types.push_back(""); tmap[key] = n;
    std::string kind = "other", extra = "null";
    int elt = -1;
    long size = -1;
    if (!K->isIncompleteType() && !K->isFunctionType() && !K->isDependentType() && !K->isVariableArrayType() && !K->isPlaceholderType())
      size = C.getTypeSizeInChars(K).getQuantity();
    if (auto *P = T->getAs<PointerType>()) { kind = "ptr"; elt = type(P->getPointeeType()); }
    else if (auto *A = C.getAsArrayType(T)) {
      kind = "arr"; elt = type(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(A)) extra = std::to_string(CA->getSize().getZExtValue());
    }
    else if (auto *R = K->getAs<RecordType>()) { kind = R->getDecl()->isUnion() ? "union" : "struct"; rec(R->getDecl()); extra = q(recname(R->getDecl())); }
    else if (K->isEnumeralType()) kind = "enum";
    else if (K->isVoidType()) kind = "void";
    else if (K->isFloatingType()) kind = "float";
    else if (K->isIntegerType()) { kind = "int"; extra = K->isUnsignedIntegerType() ? "\"u\"" : "\"s\""; }
    else if (auto *F = K->getAs<FunctionProtoType>()) {
      kind = "func"; elt = type(F->getReturnType());
      extra = "[";
      bool first = true;
      for (auto P : F->param_types()) { extra += (first ? "" : ",") + std::to_string(type(P)); first = false; }
      extra += "]";
    }
    else if (auto *F = K->getAs<FunctionType>()) { kind = "func"; elt = type(F->getReturnType()); }
    std::string qual = K.isConstQualified() ? "c" : "";
    types[n] = "[" + q(sug) + "," + q(can) + "," + q(kind) + "," + std::to_string(size) + "," + std::to_string(elt) + "," + extra + "," + q(qual) + "]";
    return n;
  }
  std::string hd(const char *k, SourceLocation L, QualType T) { return std::string("[\"") + k + "\"," + line(L) + "," + std::to_string(type(T)); }
  std::string hds(const char *k, SourceLocation L) { return std::string("[\"") + k + "\"," + line(L) + ",-1"; }

  std::string declkind(const ValueDecl *D) {
    if (isa<FunctionDecl>(D)) return "f";
    if (isa<EnumConstantDecl>(D)) return "e";
    if (isa<ParmVarDecl>(D)) return "p";
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) return "s";
      return V->hasGlobalStorage() ? "g" : "l";
    }
    return "?";
  }
  std::map<const ValueDecl *, int> ids;
  int did(const ValueDecl *D) { D = cast<ValueDecl>(D->getCanonicalDecl()); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size(); ids[D] = n; return n; }

  std::string ex(const Expr *E) {
    if (!E) return "null";
    auto L = E->getExprLoc();
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return ex(P->getSubExpr());
    QualType T = E->getType();
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) return hd("int", L, T) + "," + std::to_string(EC->getInitVal().getExtValue()) + "," + q(V->getName()) + "]";
      return hd("ref", L, T) + "," + q(V->getName()) + ",\"" + declkind(V) + "\"," + std::to_string(did(V)) + "]";
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      std::string r = "null", off = "0";
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        rec(F->getParent()); r = q(recname(F->getParent()));
        off = std::to_string(C.getFieldOffset(F) / 8);
      }
      return hd("mem", L, T) + "," + ex(M->getBase()) + "," + q(M->getMemberDecl()->getName()) + "," + (M->isArrow() ? "1" : "0") + "," + r + "," + off + "]";
    }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; I->getValue().toString(s, 10, T->isSignedIntegerType()); return hd("int", L, T) + "," + s.str().str() + ",null]"; }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) return hd("int", L, T) + "," + std::to_string((int) I->getValue()) + ",null]";
    if (isa<FloatingLiteral>(E)) return hd("flt", L, T) + "," + std::to_string(cast<FloatingLiteral>(E)->getValueAsApproximateDouble()) + "]";
    if (auto *S = dyn_cast<StringLiteral>(E)) return hd("str", L, T) + "," + q(S->getBytes()) + "]";
    if (auto *Ca = dyn_cast<CastExpr>(E)) {
      std::string z = "0";
      if (Ca->getCastKind() == CK_NullToPointer) z = "1";
      if (Ca->getCastKind() == CK_LValueToRValue || Ca->getCastKind() == CK_NoOp) if (!isa<ExplicitCastExpr>(Ca)) return ex(Ca->getSubExpr());
      return hd("cast", L, T) + "," + q(Ca->getCastKindName()) + "," + (isa<ExplicitCastExpr>(Ca) ? "1" : "0") + "," + ex(Ca->getSubExpr()) + "]";
    }
    if (auto *Ca = dyn_cast<CallExpr>(E)) {
      std::string o = hd("call", L, T) + "," + ex(Ca->getCallee());
      for (auto *A : Ca->arguments()) o += "," + ex(A);
      return o + "]";
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      QualType AT = U->getTypeOfArgument();
      std::string v = "null";
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) v = std::to_string(R.Val.getInt().getExtValue());
      return hd("sizeof", L, T) + "," + std::to_string(type(AT)) + "," + (U->isArgumentType() ? std::string("null") : ex(U->getArgumentExpr())) + "," + v + "]";
    }
    if (auto *B = dyn_cast<BinaryOperator>(E))
      return hd("bin", L, T) + "," + q(B->getOpcodeStr()) + "," + ex(B->getLHS()) + "," + ex(B->getRHS()) + "]";
    if (auto *U = dyn_cast<UnaryOperator>(E))
      return hd("un", L, T) + "," + q((U->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str()) + "," + ex(U->getSubExpr()) + "]";
    if (auto *Q = dyn_cast<ConditionalOperator>(E))
      return hd("?:", L, T) + "," + ex(Q->getCond()) + "," + ex(Q->getTrueExpr()) + "," + ex(Q->getFalseExpr()) + "]";
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) return hd("sub", L, T) + "," + ex(S->getBase()) + "," + ex(S->getIdx()) + "]";
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (auto *S = I->getSemanticForm()) I = S;
      std::string o = hd("init", L, T);
      for (auto *A : I->inits()) o += "," + ex(A);
      return o + "]";
    }
    if (auto *S = dyn_cast<StmtExpr>(E)) return hd("sx", L, T) + "," + st(S->getSubStmt()) + "]";
    if (auto *S = dyn_cast<CompoundLiteralExpr>(E)) return hd("cl", L, T) + "," + ex(S->getInitializer()) + "]";
    if (isa<ImplicitValueInitExpr>(E)) return hd("zero", L, T) + "]";
    std::string o = hd("x", L, T) + "," + q(E->getStmtClassName());
    for (auto *c : E->children()) if (c) { if (auto *e = dyn_cast<Expr>(c)) o += "," + ex(e); else o += "," + st(c); }
    return o + "]";
  }
  std::string var(const VarDecl *V) {
    return "[" + q(V->getName()) + "," + std::to_string(type(V->getType())) + "," + std::to_string(did(V)) + ",\"" + declkind(V) + "\"," + (V->hasInit() ? ex(V->getInit()) : std::string("null")) + "," + line(V->getLocation()) + "]";
  }
  std::string st(const Stmt *S) {
    if (!S) return "null";
    auto L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) return ex(E);
    if (auto *K = dyn_cast<CompoundStmt>(S)) { std::string o = hds("{", L); for (auto *c : K->body()) o += "," + st(c); return o + "]"; }
    if (auto *I = dyn_cast<IfStmt>(S)) return hds("if", L) + "," + ex(I->getCond()) + "," + st(I->getThen()) + "," + st(I->getElse()) + "]";
    if (auto *F = dyn_cast<ForStmt>(S)) return hds("for", L) + "," + st(F->getInit()) + "," + ex(F->getCond()) + "," + ex(F->getInc()) + "," + st(F->getBody()) + "]";
    if (auto *W = dyn_cast<WhileStmt>(S)) return hds("while", L) + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *W = dyn_cast<DoStmt>(S)) return hds("do", L) + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *W = dyn_cast<SwitchStmt>(S)) return hds("switch", L) + "," + ex(W->getCond()) + "," + st(W->getBody()) + "]";
    if (auto *W = dyn_cast<CaseStmt>(S)) return hds("case", L) + "," + ex(W->getLHS()) + "," + st(W->getSubStmt()) + "]";
    if (auto *W = dyn_cast<DefaultStmt>(S)) return hds("default", L) + "," + st(W->getSubStmt()) + "]";
    if (auto *R = dyn_cast<ReturnStmt>(S)) return hds("ret", L) + "," + ex(R->getRetValue()) + "]";
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      std::string o = hds("decl", L);
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) o += "," + var(V);
      return o + "]";
    }
    if (isa<BreakStmt>(S)) return hds("break", L) + "]";
    if (isa<ContinueStmt>(S)) return hds("continue", L) + "]";
    if (auto *G = dyn_cast<GotoStmt>(S)) return hds("goto", L) + "," + q(G->getLabel()->getName()) + "]";
    if (auto *G = dyn_cast<LabelStmt>(S)) return hds("label", L) + "," + q(G->getDecl()->getName()) + "," + st(G->getSubStmt()) + "]";
    if (isa<NullStmt>(S)) return hds("nop", L) + "]";
    std::string o = hds("s", L) + "," + q(S->getStmtClassName());
    for (auto *c : S->children()) if (c) o += "," + st(c);
    return o + "]";
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    X x(C);
    std::string fs = "[", gs = "[", ps = "[";
    bool ff = true, gf = true, pf = true;
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        if (C.getSourceManager().isInSystemHeader(F->getLocation()) ) { if (!F->getName().starts_with("MPI_")) continue; }
        if (F->doesThisDeclarationHaveABody()) {
          fs += ff ? "" : ","; ff = false;
          fs += "{\"name\":" + q(F->getName()) + ",\"file\":" + std::to_string(x.file(F->getLocation())) + ",\"line\":" + x.line(F->getLocation()) +
                ",\"static\":" + (F->getStorageClass() == SC_Static ? "true" : "false") + ",\"type\":" + std::to_string(x.type(F->getType())) +
                ",\"ret\":" + std::to_string(x.type(F->getReturnType())) + ",\"params\":[";
          bool p1 = true;
          for (auto *P : F->parameters()) { fs += p1 ? "" : ","; p1 = false; fs += x.var(P); }
          fs += "],\"body\":" + x.st(F->getBody()) + "}\n";
        }
        else {
          ps += pf ? "" : ","; pf = false;
          ps += "[" + q(F->getName()) + "," + std::to_string(x.type(F->getType())) + "]";
        }
      }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (C.getSourceManager().isInSystemHeader(V->getLocation())) continue;
        gs += gf ? "" : ","; gf = false;
        gs += "{\"name\":" + q(V->getName()) + ",\"type\":" + std::to_string(x.type(V->getType())) + ",\"file\":" + std::to_string(x.file(V->getLocation())) + ",\"line\":" + x.line(V->getLocation()) +
              ",\"static\":" + (V->getStorageClass() == SC_Static ? "true" : "false") + ",\"def\":" + (V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly ? "true" : "false") +
              ",\"init\":" + (V->hasInit() ? x.ex(V->getInit()) : std::string("null")) + "}\n";
      }
      else if (auto *R = dyn_cast<RecordDecl>(D)) { if (!C.getSourceManager().isInSystemHeader(R->getLocation())) x.rec(R); }
      else if (auto *T = dyn_cast<TypedefDecl>(D)) { if (!C.getSourceManager().isInSystemHeader(T->getLocation())) x.type(C.getTypedefType(T)); }
    }
    std::string o = "{\"funcs\":" + fs + "],\n\"globals\":" + gs + "],\n\"protos\":" + ps + "],\n\"records\":{";
    bool f1 = true;
    for (auto &r : x.recs) { if (r.second.empty()) continue; o += f1 ? "" : ","; f1 = false; o += q(x.recname(r.first)) + ":" + r.second + "\n"; }
    o += "},\n\"types\":[";
    f1 = true;
    for (auto &t : x.types) { o += f1 ? "" : ","; f1 = false; o += t + "\n"; }
    o += "],\n\"files\":[";
    f1 = true;
    for (auto &t : x.files) { o += f1 ? "" : ","; f1 = false; o += q(t); }
    o += "]}\n";
    fputs(o.c_str(), stdout);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char **argv) {
  std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
  if (!db || argc < 2) { fprintf(stderr, "usage: astx FILE -- FLAGS\n"); return 2; }
  tooling::ClangTool T(*db, {argv[1]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
