// agx: exports resolved-program facts (functions, CFGs, typed expression nodes,
// classes, declarations) of one translation unit as JSON lines.  It judges nothing.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
using namespace clang;
using llvm::json::OStream;
static std::string Root, OutPath;

namespace {
struct Exporter {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
  llvm::raw_ostream &OS;
  Exporter(ASTContext &C, llvm::raw_ostream &OS)
      : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), MC(C.createMangleContext()), OS(OS) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef rp = FE->getFileEntry().tryGetRealPathName();
      return rp.empty() ? FE->getName().str() : rp.str();
    }
    return "";
  }
  std::string rel(SourceLocation L) {
    std::string f = file(L);
    if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
    return f;
  }
  bool inRepo(SourceLocation L) { return file(L).rfind(Root + "/", 0) == 0; }
  unsigned line(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isValid() ? SM.getSpellingLineNumber(L) : 0; }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getAsString(PP); }
  std::string cty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string fid(const FunctionDecl *F) {
    if (!F) return "";
    F = F->getCanonicalDecl();
    if (F->isInvalidDecl()) return "";
    std::string s;
    { llvm::raw_string_ostream o(s);
      GlobalDecl GD;
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(K, Ctor_Complete);
      else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(D, Dtor_Complete);
      else GD = GlobalDecl(F);
      if (F->isDependentContext() || F->isTemplated()) o << F->getQualifiedNameAsString() << "<dep>" << line(F->getLocation());
      else if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, o);
      else o << F->getQualifiedNameAsString();
    }
    if (!F->isExternallyVisible() && !isa<CXXMethodDecl>(F)) s = rel(F->getLocation()) + ":" + s;
    return s;
  }
  std::map<const Decl *, std::string> Local; // locals of current function
  std::string recName(const RecordDecl *R) {
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) return cty(C.getRecordType(S));
    std::string n = R->getQualifiedNameAsString();
    if (auto *TD = R->getTypedefNameForAnonDecl()) n = TD->getQualifiedNameAsString();
    return n;
  }
  std::string vid(const ValueDecl *D) {
    if (auto *F = dyn_cast<FieldDecl>(D)) return recName(F->getParent()) + "::" + F->getNameAsString();
    if (auto *F = dyn_cast<FunctionDecl>(D)) return fid(F);
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) return E->getQualifiedNameAsString();
    auto *V = dyn_cast<VarDecl>(D);
    if (V && V->hasGlobalStorage()) {
      std::string n = V->getQualifiedNameAsString();
      if (V->isStaticLocal()) {
        auto *P = dyn_cast<FunctionDecl>(V->getDeclContext());
        return (P ? fid(P) : "") + "::static::" + V->getNameAsString();
      }
      if (!V->isExternallyVisible() && !V->isStaticDataMember()) return rel(V->getLocation()) + ":" + n;
      return n;
    }
    auto it = Local.find(D->getCanonicalDecl());
    if (it != Local.end()) return it->second;
    std::string n = "%" + D->getNameAsString() + "#" + std::to_string(Local.size());
    Local[D->getCanonicalDecl()] = n;
    return n;
  }
  // ---- nodes
  std::map<const Stmt *, int> Ids; std::vector<const Stmt *> Queue;
  std::map<const VarDecl *, bool> VarsSeen; std::vector<const VarDecl *> Vars;
  int id(const Stmt *S) {
    if (!S) return -1;
    auto it = Ids.find(S); if (it != Ids.end()) return it->second;
    int n = Ids.size(); Ids[S] = n; Queue.push_back(S); return n;
  }
  static const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) S = P->getExpr();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(S)) { if (!P->getSourceExpr()) return S; S = P->getSourceExpr(); }
      else return S;
    }
    return S;
  }
  int sid(const Stmt *S) { return id(strip(S)); }
  void addVar(const VarDecl *V) { if (!VarsSeen[V]) { VarsSeen[V] = true; Vars.push_back(V); } }
  void node(OStream &J, const Stmt *S, int n) {
    J.object([&] {
      J.attribute("i", n); J.attribute("k", S->getStmtClassName()); J.attribute("l", line(S->getBeginLoc()));
      std::string f = rel(S->getBeginLoc()); J.attribute("f", f);
      if (S->getBeginLoc().isMacroID()) J.attribute("m", Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts()));
      std::vector<const Stmt *> kids; bool defKids = true;
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", ty(E->getType())); J.attribute("ct", cty(E->getType()));
        if (E->isLValue()) J.attribute("lv", true);
        if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.getInt().isRepresentableByInt64()) J.attribute("cv", R.Val.getInt().getExtValue());
        }
      }
      if (auto *D = dyn_cast<DeclRefExpr>(S)) {
        J.attribute("d", vid(D->getDecl())); J.attribute("n", D->getDecl()->getNameAsString());
        J.attribute("dk", D->getDecl()->getDeclKindName());
        if (auto *FD = dyn_cast<FunctionDecl>(D->getDecl())) J.attribute("qn", FD->getQualifiedNameAsString());
        if (auto *V = dyn_cast<VarDecl>(D->getDecl())) addVar(V);
      } else if (auto *M = dyn_cast<MemberExpr>(S)) {
        J.attribute("d", vid(M->getMemberDecl())); J.attribute("n", M->getMemberDecl()->getNameAsString());
        J.attribute("dk", M->getMemberDecl()->getDeclKindName()); if (M->isArrow()) J.attribute("arrow", true);
      } else if (auto *B = dyn_cast<BinaryOperator>(S)) J.attribute("op", B->getOpcodeStr());
      else if (auto *U = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode())); if (U->isPostfix()) J.attribute("post", true); }
      else if (auto *K = dyn_cast<CastExpr>(S)) { J.attribute("ck", K->getCastKindName()); if (isa<ExplicitCastExpr>(S)) J.attribute("expl", true); }
      else if (auto *L = dyn_cast<StringLiteral>(S)) { if (L->getCharByteWidth() == 1) J.attribute("v", llvm::json::fixUTF8(L->getString())); }
      else if (auto *L = dyn_cast<FloatingLiteral>(S)) J.attribute("v", L->getValueAsApproximateDouble());
      else if (auto *N = dyn_cast<CXXNewExpr>(S)) {
        J.attribute("arr", N->isArray()); J.attribute("at", ty(N->getAllocatedType())); J.attribute("cat", cty(N->getAllocatedType()));
        defKids = false;
        J.attribute("sz", N->isArray() && N->getArraySize() ? sid(*N->getArraySize()) : -1);
        J.attribute("init", N->getInitializer() ? sid(N->getInitializer()) : -1);
      } else if (auto *N = dyn_cast<CXXDeleteExpr>(S)) { J.attribute("arr", N->isArrayForm()); }
      else if (auto *T = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
        J.attribute("trait", T->getKind() == UETT_SizeOf ? "sizeof" : "other"); J.attribute("at", ty(T->getTypeOfArgument())); J.attribute("cat", cty(T->getTypeOfArgument()));
        if (!T->isArgumentType()) J.attribute("argx", sid(T->getArgumentExpr()));
        defKids = false;
      } else if (auto *D = dyn_cast<DeclStmt>(S)) {
        defKids = false;
        J.attributeArray("decls", [&] {
          for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) { addVar(V);
            J.object([&] { J.attribute("d", vid(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", ty(V->getType())); J.attribute("ct", cty(V->getType()));
              J.attribute("init", V->getInit() ? sid(V->getInit()) : -1); if (V->isStaticLocal()) J.attribute("static", true); }); }
        });
      } else if (auto *L = dyn_cast<LambdaExpr>(S)) { J.attribute("lam", fid(L->getCallOperator())); }
      else if (auto *K = dyn_cast<CXXConstructExpr>(S)) {
        J.attribute("fn", fid(K->getConstructor())); J.attribute("qn", K->getConstructor()->getQualifiedNameAsString());
        J.attribute("cls", recName(K->getConstructor()->getParent())); J.attribute("copy", K->getConstructor()->isCopyOrMoveConstructor());
      } else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) { kids.push_back(DA->getExpr()); defKids = false; }
      else if (auto *R = dyn_cast<ReturnStmt>(S)) { (void)R; }
      if (auto *K = dyn_cast<CallExpr>(S)) {
        if (auto *FD = K->getDirectCallee()) {
          J.attribute("fn", fid(FD)); J.attribute("qn", FD->getQualifiedNameAsString()); J.attribute("n", FD->getNameAsString());
          if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            if (!MD->isStatic()) J.attribute("meth", true);
            J.attribute("cls", recName(MD->getParent()));
            bool v = MD->isVirtual();
            if (auto *ME = dyn_cast_or_null<MemberExpr>(strip(K->getCallee()))) if (ME->hasQualifier()) v = false;
            if (v) J.attribute("virt", true);
          }
          if (FD->isNoReturn()) J.attribute("noret", true);
        }
        if (isa<CXXOperatorCallExpr>(S)) J.attribute("opcall", true);
      }
      if (defKids) for (auto *X : S->children()) kids.push_back(X);
      if (isa<LambdaExpr>(S)) kids.clear();
      J.attributeArray("c", [&] { for (auto *X : kids) J.value(X ? sid(X) : -1); });
    });
  }
  void function(const FunctionDecl *F) {
    const Stmt *Body = F->getBody(); if (!Body) return;
    Local.clear(); Ids.clear(); Queue.clear(); VarsSeen.clear(); Vars.clear();
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddImplicitDtors = true; BO.AddInitializers = true; BO.PruneTriviallyFalseEdges = false; BO.AddScopes = false;
    BO.AddLifetime = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &C, BO);
    if (!G) { OS << "{\"nocfg\":\"" << fid(F) << "\"}\n"; return; }
    std::string buf; llvm::raw_string_ostream BS(buf); 
    { OStream J(BS);
    J.object([&] {
      J.attribute("fn", fid(F)); J.attribute("qn", F->getQualifiedNameAsString()); J.attribute("n", F->getNameAsString());
      J.attribute("f", rel(F->getLocation())); J.attribute("l", line(F->getLocation())); J.attribute("le", line(F->getEndLoc()));
      J.attribute("ret", ty(F->getReturnType())); J.attribute("cret", cty(F->getReturnType())); J.attribute("ext", F->isExternallyVisible());
      if (F->isImplicit()||F->isDefaulted()) J.attribute("implicit", true);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("cls", recName(M->getParent())); J.attribute("static", M->isStatic()); J.attribute("const", M->isConst()); J.attribute("virt", M->isVirtual());
        J.attribute("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
        if (isa<CXXConstructorDecl>(M)) J.attribute("ctor", true);
        if (isa<CXXDestructorDecl>(M)) J.attribute("dtor", true);
        J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(fid(O)); });
      }
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) J.object([&] { J.attribute("d", vid(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", ty(P->getType())); J.attribute("ct", cty(P->getType())); }); });
      J.attributeArray("blocks", [&] {
        for (auto *B : *G) J.object([&] {
          J.attribute("b", B->getBlockID()); if (B->hasNoReturnElement()) J.attribute("noret", true);
          J.attributeArray("e", [&] {
            for (auto &E : *B) {
              if (auto S = E.getAs<CFGStmt>()) { const Stmt *X = S->getStmt(); if (strip(X) != X) continue; J.value(id(X)); }
              else if (auto I = E.getAs<CFGInitializer>()) { auto *CI = I->getInitializer(); J.object([&] { J.attribute("x", "init");
                    if (CI->isAnyMemberInitializer()) { J.attribute("d", vid(CI->getAnyMember())); J.attribute("n", CI->getAnyMember()->getNameAsString()); J.attribute("ct", cty(CI->getAnyMember()->getType())); }
                    else if (CI->isBaseInitializer()) J.attribute("base", cty(QualType(CI->getBaseClass(), 0)));
                    J.attribute("written", CI->isWritten());
                    J.attribute("v", CI->getInit() ? sid(CI->getInit()) : -1); J.attribute("l", line(CI->getSourceLocation())); }); }
              else if (auto D = E.getAs<CFGAutomaticObjDtor>()) { J.object([&] { J.attribute("x", "dtor"); J.attribute("d", vid(D->getVarDecl())); J.attribute("ct", cty(D->getVarDecl()->getType()));
                    J.attribute("fn", fid(D->getDestructorDecl(C))); }); }
              else if (auto D = E.getAs<CFGDeleteDtor>()) { J.object([&] { J.attribute("x", "deldtor"); J.attribute("v", id(D->getDeleteExpr())); J.attribute("fn", fid(D->getDestructorDecl(C))); }); }
              else if (auto D = E.getAs<CFGBaseDtor>()) { J.object([&] { J.attribute("x", "basedtor"); J.attribute("fn", fid(D->getDestructorDecl(C))); }); }
              else if (auto D = E.getAs<CFGMemberDtor>()) { J.object([&] { J.attribute("x", "memdtor"); J.attribute("d", vid(D->getFieldDecl())); J.attribute("fn", fid(D->getDestructorDecl(C))); }); }
            }
          });
          const Stmt *T = B->getTerminatorStmt(); if (T) { J.attribute("tk", T->getStmtClassName()); J.attribute("tl", line(T->getBeginLoc())); if (auto *BO = dyn_cast<BinaryOperator>(T)) J.attribute("top", BO->getOpcodeStr()); J.attribute("ti", sid(T)); }
          if (const Stmt *K = B->getTerminatorCondition()) J.attribute("cond", sid(K));
          if (const Stmt *LB = B->getLabel()) {
            J.attribute("lab", LB->getStmtClassName());
            if (auto *CS = dyn_cast<CaseStmt>(LB)) { Expr::EvalResult R; if (CS->getLHS() && CS->getLHS()->EvaluateAsInt(R, C) && R.Val.getInt().isRepresentableByInt64()) J.attribute("case", R.Val.getInt().getExtValue()); }
          }
          if (const Stmt *LT = B->getLoopTarget()) J.attribute("lt", line(LT->getBeginLoc()));
          J.attributeArray("s", [&] { for (auto I = B->succ_begin(); I != B->succ_end(); ++I) { const CFGBlock *X = I->getReachableBlock(); if (!X) X = I->getPossiblyUnreachableBlock(); J.value(X ? (int)X->getBlockID() : -1); } });
        });
      });
      J.attribute("entry", G->getEntry().getBlockID()); J.attribute("exit", G->getExit().getBlockID());
      J.attributeArray("nodes", [&] { for (size_t q = 0; q < Queue.size(); ++q) node(J, Queue[q], Ids[Queue[q]]); });
      J.attributeArray("vars", [&] { for (size_t q = 0; q < Vars.size(); ++q) { auto *V = Vars[q]; J.object([&] { J.attribute("d", vid(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", ty(V->getType())); J.attribute("ct", cty(V->getType()));
          J.attribute("glob", V->hasGlobalStorage()); J.attribute("l", line(V->getLocation()));
          if (auto *A = C.getAsConstantArrayType(V->getType())) { J.attribute("asz", (int64_t)A->getSize().getZExtValue()); J.attribute("aet", cty(A->getElementType())); } }); } });
    });
    }
    OS << BS.str() << "\n";
  }
};

struct V : RecursiveASTVisitor<V> {
  Exporter &X; V(Exporter &X) : X(X) {}
  std::set<std::string> Done;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!X.inRepo(F->getLocation()) || F->isTemplated()) return true;
    std::string id = X.fid(F);
    // declaration record
    std::string b; llvm::raw_string_ostream BS(b);
    { OStream J(BS); J.object([&] { J.attribute("decl", id); J.attribute("qn", F->getQualifiedNameAsString()); J.attribute("f", X.rel(F->getLocation())); J.attribute("l", X.line(F->getLocation()));
      J.attribute("extc", F->isExternC()); J.attribute("def", F->isThisDeclarationADefinition()); J.attribute("cret", X.cty(F->getReturnType())); J.attribute("ret", X.ty(F->getReturnType()));
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) { J.attribute("cls", X.recName(M->getParent())); J.attribute("const", M->isConst()); J.attribute("virt", M->isVirtual()); J.attribute("pure", M->isPureVirtual());J.attribute("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
        J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(X.fid(O)); }); }
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) J.object([&] { J.attribute("n", P->getNameAsString()); J.attribute("t", X.ty(P->getType())); J.attribute("ct", X.cty(P->getType())); J.attribute("def", P->hasDefaultArg()); }); });
    }); }
    X.OS << BS.str() << "\n";
    if (F->doesThisDeclarationHaveABody() && !F->isDefaulted() && Done.insert(id).second) X.function(F);
    else if (F->isDefaulted() && F->isThisDeclarationADefinition() && F->getBody() && Done.insert(id).second) X.function(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || !X.inRepo(D->getLocation()) || D->isStaticLocal()) return true;
    std::string b; llvm::raw_string_ostream BS(b);
    { OStream J(BS); J.object([&] { J.attribute("gvar", X.vid(D)); J.attribute("ct", X.cty(D->getType())); J.attribute("t", X.ty(D->getType())); J.attribute("f", X.rel(D->getLocation())); J.attribute("l", X.line(D->getLocation()));
      if (D->getInit() && D->getType()->isIntegralOrEnumerationType() && !D->getInit()->isValueDependent() && !D->getInit()->isTypeDependent()) {
        Expr::EvalResult V; if (D->getInit()->EvaluateAsInt(V, X.C, Expr::SE_NoSideEffects) && V.Val.getInt().isRepresentableByInt64()) J.attribute("iv", V.Val.getInt().getExtValue()); }
      if (auto *I = dyn_cast_or_null<InitListExpr>(D->getInit())) {
        if (auto *RT = D->getType()->getAs<RecordType>()) {
          J.attributeArray("initf", [&] { unsigned k = 0; for (auto *FD : RT->getDecl()->fields()) { if (k >= I->getNumInits()) break; const Expr *E = I->getInit(k++)->IgnoreParenImpCasts();
            if (auto *U = dyn_cast<UnaryOperator>(E)) E = U->getSubExpr()->IgnoreParenImpCasts();
            std::string v; if (auto *R = dyn_cast<DeclRefExpr>(E)) v = X.vid(R->getDecl());
            J.array([&] { J.value(FD->getNameAsString()); J.value(v); }); } });
        }
      } }); }
    X.OS << BS.str() << "\n";
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !X.inRepo(R->getLocation()) || R->isDependentType()) return true;
    std::string b; llvm::raw_string_ostream BS(b);
    { OStream J(BS); J.object([&] { J.attribute("rec", X.recName(R)); J.attribute("f", X.rel(R->getLocation())); J.attribute("l", X.line(R->getLocation()));
      J.attribute("union", R->isUnion());
      J.attributeArray("fields", [&] { for (auto *F : R->fields()) J.object([&] { J.attribute("n", F->getNameAsString()); J.attribute("t", X.ty(F->getType())); J.attribute("ct", X.cty(F->getType())); J.attribute("d", X.vid(F));
        J.attribute("dinit", F->hasInClassInitializer());J.attribute("l", X.line(F->getLocation()));
        if (auto *A = X.C.getAsConstantArrayType(F->getType())) { J.attribute("asz", (int64_t)A->getSize().getZExtValue()); J.attribute("aet", X.cty(A->getElementType())); } }); });
      if (auto *K = dyn_cast<CXXRecordDecl>(R)) {
        J.attributeArray("bases", [&] { for (auto &B : K->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) J.value(X.recName(BR)); });
        J.attribute("poly", K->isPolymorphic()); J.attribute("vdtor", K->getDestructor() && K->getDestructor()->isVirtual());
        J.attribute("udtor", K->hasUserDeclaredDestructor()); J.attribute("uctor", K->hasUserDeclaredConstructor()); J.attribute("ucopy", K->hasUserDeclaredCopyConstructor());
      }
    }); }
    X.OS << BS.str() << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!X.inRepo(E->getLocation())) return true;
    std::string b; llvm::raw_string_ostream BS(b);
    { OStream J(BS); J.object([&] { J.attribute("enum", E->getQualifiedNameAsString()); J.attribute("f", X.rel(E->getLocation())); J.attribute("l", X.line(E->getLocation()));
      J.attributeArray("vals", [&] { for (auto *K : E->enumerators()) J.array([&] { J.value(K->getQualifiedNameAsString()); J.value(K->getInitVal().getExtValue()); }); }); }); }
    X.OS << BS.str() << "\n"; return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    if (C.getDiagnostics().hasErrorOccurred()) { OS << "{\"error\":true}\n"; return; }
    Exporter X(C, OS); V v(X); v.TraverseDecl(C.getTranslationUnitDecl()); OS << "{\"done\":true}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace
int main(int argc, char **argv) {
  // agx ROOT OUT SRC -- flags
  if (argc < 5) return 2;
  Root = argv[1]; OutPath = argv[2]; std::string Src = argv[3];
  std::vector<std::string> A; for (int i = 5; i < argc; ++i) A.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", A);
  tooling::ClangTool T(DB, {Src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
