// b2facts: a libTooling front end that lowers the *resolved* AST of every function, class,
// enum and variable declared under a given root directory to a compact JSON form.  It takes no decisions: the
// rules in /verif/lib decide from these facts.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> LocalIds;
  int NextId = 1;
  std::map<std::string,int> StrIdx;
  json::Array Files;

  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true; PP.SuppressDefaultTemplateArgs = true;
    PP.SuppressTemplateArgsInCXXConstructors = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    llvm::SmallString<256> P(F);
    llvm::sys::path::remove_dots(P, true);
    for (auto &R : Roots) if (P.str().starts_with(R)) return true;
    return false;
  }
  std::string cleanFile(SourceLocation L) {
    llvm::SmallString<256> P(fileOf(L));
    llvm::sys::path::remove_dots(P, true);
    return P.str().str();
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  int lid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) return it->second;
    return LocalIds[D] = NextId++;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    std::string S = T.getCanonicalType().getAsString(PP);
    if (S.size() > 400) S.resize(400);
    return S;
  }
  // qualified name without template arguments and inline or anonymous namespaces
  std::string qn(const NamedDecl *D) {
    std::string S = D->getNameAsString();
    for (const DeclContext *X = D->getDeclContext(); X && !X->isTranslationUnit(); X = X->getParent()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(X)) { if (NS->isInline() || NS->isAnonymousNamespace()) continue; }
      if (auto *ED = dyn_cast<EnumDecl>(X)) if (!ED->isScoped()) continue;
      if (auto *ND = dyn_cast<NamedDecl>(X)) { if (isa<FunctionDecl>(X)) S = ND->getNameAsString() + "()::" + S; else S = ND->getNameAsString() + "::" + S; }
    }
    return S;
  }

  json::Value str(llvm::StringRef S) { 
    return json::Value(json::fixUTF8(S)); }

  // ---------------------------------------------------------------- expressions
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Object O;
    const Expr *Orig = E;
    // strip noise
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        // an implicit numeric narrowing is interesting for some rules; keep its shape out of the tree
        E = X->getSubExpr(); continue;
      }
      if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        auto *CD = X->getConstructor();
        if (CD->isCopyOrMoveConstructor() && X->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(X)) { E = X->getArg(0); continue; }
      }
      if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind()==CK_NoOp) { E = X->getSubExpr(); continue; }
      }
      break;
    }
    O["l"] = lineOf(E->getBeginLoc());
    (void)Orig;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = S.str().str(); return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float"; llvm::SmallString<32> S; X->getValue().toString(S, 0, 0);
      O["v"] = S.str().str(); return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = str(X->isOrdinary() ? X->getString() : "?"); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "char"; O["v"] = (int64_t)X->getValue(); return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; O["t"] = ty(E->getType()); return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declRef(X->getDecl(), E, O);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      O["k"] = "mem"; O["n"] = D->getNameAsString(); O["q"] = qn(D); O["b"] = expr(X->getBase()); O["t"] = ty(X->getType());
      O["arrow"] = X->isArrow();
      if (isa<FieldDecl>(D)) O["dk"] = "field"; else if (isa<VarDecl>(D)) O["dk"] = "global"; else O["dk"] = "func";
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "op"; O["op"] = getOperatorSpelling(X->getOperator());
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"] = std::move(A);
      if (auto *FD = X->getDirectCallee()) fillCallee(O, FD);
      else O["dep"] = expr(X->getCallee());
      O["t"] = ty(X->getType());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"] = std::move(A);
      const Expr *Cal = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
        O["o"] = expr(ME->getBase()); O["arrow"] = ME->isArrow();
        if (auto *MD = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
          fillCallee(O, MD);
          O["virt"] = MD->isVirtual() && !ME->hasQualifier();
        }
      } else O["callee"] = expr(Cal);
      O["t"] = ty(X->getType());
      // conversion operators
      if (auto *MD = X->getMethodDecl()) if (isa<CXXConversionDecl>(MD)) O["conv"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"] = std::move(A);
      if (auto *FD = X->getDirectCallee()) fillCallee(O, FD);
      else {
        const Expr *Cal = X->getCallee()->IgnoreParens();
        if (auto *U = dyn_cast<UnresolvedLookupExpr>(Cal)) { O["n"] = U->getName().getAsString(); O["dep"] = true; 
           if (U->getQualifier()) { std::string s; llvm::raw_string_ostream os(s); U->getQualifier()->print(os, PP); O["qual"] = os.str(); } }
        else if (auto *U = dyn_cast<UnresolvedMemberExpr>(Cal)) { O["n"] = U->getMemberName().getAsString(); O["dep"] = true; if (!U->isImplicitAccess()) O["o"] = expr(U->getBase()); else { O["o"] = json::Object{{"k","this"}}; } }
        else if (auto *U = dyn_cast<CXXDependentScopeMemberExpr>(Cal)) { O["n"] = U->getMember().getAsString(); O["dep"] = true; if (!U->isImplicitAccess()) O["o"] = expr(U->getBase()); else { O["o"] = json::Object{{"k","this"}}; } }
        else if (auto *U = dyn_cast<DependentScopeDeclRefExpr>(Cal)) { O["n"] = U->getDeclName().getAsString(); O["dep"] = true; 
           { std::string s; llvm::raw_string_ostream os(s); U->getQualifier()->print(os, PP); O["qual"] = os.str(); } }
        else O["callee"] = expr(Cal);
      }
      O["t"] = ty(X->getType());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor"; O["t"] = ty(X->getType()); fillCallee(O, X->getConstructor());
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
      O["k"] = "ctor"; O["t"] = X->getTypeAsWritten().getAsString(PP); O["dep"] = true;
      json::Array A; for (auto *a : X->arguments()) A.push_back(expr(a)); O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { O["k"] = "ctor"; O["t"] = ty(X->getType()); O["a"] = json::Array(); return O; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { O["k"] = "ctor"; O["t"] = ty(X->getType()); O["a"] = json::Array(); return O; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "bin"; O["op"] = X->getOpcodeStr().str(); O["a"] = json::Array{expr(X->getLHS()), expr(X->getRHS())}; O["t"] = ty(X->getType()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["k"] = "un"; O["op"] = op; O["post"] = X->isPostfix(); O["a"] = json::Array{expr(X->getSubExpr())}; O["t"] = ty(X->getType()); return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { O["k"] = "cond"; O["a"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())}; O["t"] = ty(X->getType()); return O; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "op"; O["op"] = "[]"; O["a"] = json::Array{expr(X->getBase()), expr(X->getIdx())}; O["t"] = ty(X->getType()); return O; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) { O["k"] = "cast"; O["t"] = ty(X->getTypeAsWritten()); O["a"] = json::Array{expr(X->getSubExpr())}; 
      if (isa<CXXDynamicCastExpr>(X)) O["dyn"] = true; return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; O["a"] = json::Array{expr(X->getSubExpr())}; return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      // generic lambda: the body of an instantiation where there is one, else the pattern
      const FunctionDecl *Op = X->getCallOperator(); const Stmt *Body = X->getBody();
      if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
        for (auto *Sp : FT->specializations()) if (Sp->hasBody() && !Sp->isDependentContext()) { Op = Sp; Body = Sp->getBody(); O["generic"] = true; break; }
      O["k"] = "lambda"; json::Array P; for (auto *p : Op->parameters()) P.push_back(param(p)); O["params"] = std::move(P);
      json::Array Cp; for (auto &c : X->captures()) if (c.capturesVariable()) Cp.push_back(json::Object{{"n", c.getCapturedVar()->getNameAsString()}, {"id", lid(c.getCapturedVar())}, {"ref", c.getCaptureKind()==LCK_ByRef}});
      O["caps"] = std::move(Cp);
      O["body"] = stmt(Body); return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) { O["k"] = "list"; json::Array A; for (auto *a : X->inits()) A.push_back(expr(a)); O["a"] = std::move(A); O["t"] = ty(X->getType()); return O; }
    if (auto *X = dyn_cast<ParenListExpr>(E)) { O["k"] = "list"; json::Array A; for (unsigned i=0;i<X->getNumExprs();++i) A.push_back(expr(X->getExpr(i))); O["a"] = std::move(A); return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; O["t"] = ty(X->getAllocatedType()); json::Array A; if (X->getInitializer()) A.push_back(expr(X->getInitializer())); O["a"] = std::move(A); return O; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["a"] = json::Array{expr(X->getArgument())}; return O; }
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) { O["k"] = "mem"; O["dep"] = true; O["n"] = X->getMember().getAsString(); if (!X->isImplicitAccess()) O["b"] = expr(X->getBase()); else O["b"] = json::Object{{"k","this"}}; return O; }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) { O["k"] = "mem"; O["dep"] = true; O["n"] = X->getMemberName().getAsString(); if (!X->isImplicitAccess()) O["b"] = expr(X->getBase()); else O["b"] = json::Object{{"k","this"}}; return O; }
    if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) { O["k"] = "ref"; O["dep"] = true; O["n"] = X->getDeclName().getAsString(); 
      { std::string s; llvm::raw_string_ostream os(s); X->getQualifier()->print(os, PP); O["qual"] = os.str(); } return O; }
    if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) { O["k"] = "ref"; O["dep"] = true; O["n"] = X->getName().getAsString(); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "sizeof"; O["t"] = ty(X->getTypeOfArgument()); return O; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { O["k"] = "bool"; O["v"] = X->isValueDependent() ? false : X->getValue(); return O; }
    if (auto *X = dyn_cast<PackExpansionExpr>(E)) { return expr(X->getPattern()); }
    if (auto *X = dyn_cast<PseudoObjectExpr>(E)) { return expr(X->getSyntacticForm()); }
    O["k"] = "opaque"; O["c"] = E->getStmtClassName();
    json::Array A; for (auto *c : E->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) A.push_back(expr(ce)); }
    O["a"] = std::move(A);
    return O;
  }
  json::Value declRef(const ValueDecl *D, const Expr *E, json::Object &O) {
    O["k"] = "ref"; O["n"] = D->getNameAsString();
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["dk"] = "enum"; O["q"] = qn(EC); llvm::SmallString<32> S; EC->getInitVal().toString(S,10); O["v"] = S.str().str(); }
    else if (isa<ParmVarDecl>(D)) { O["dk"] = "param"; O["id"] = lid(D); }
    else if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->isLocalVarDecl()) { O["dk"] = VD->isStaticLocal() ? "slocal" : "local"; O["id"] = lid(D); }
      else { O["dk"] = "global"; O["q"] = qn(D); }
    }
    else if (auto *FD = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["q"] = qn(D); O["fid"] = usr(FD); }
    else if (isa<BindingDecl>(D)) { O["dk"] = "local"; O["id"] = lid(D); }
    else if (isa<NonTypeTemplateParmDecl>(D)) { O["dk"] = "tparam"; }
    else { O["dk"] = "other"; O["q"] = qn(D); }
    O["t"] = ty(E->getType());
    return std::move(O);
  }
  void fillCallee(json::Object &O, const FunctionDecl *FD) {
    O["n"] = FD->getNameAsString(); O["f"] = qn(FD);
    O["fid"] = usr(FD);
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A; for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); A.push_back(os.str().substr(0,200)); }
      O["ta"] = std::move(A);
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) { O["cm"] = MD->isConst(); O["st"] = MD->isStatic(); O["cls"] = qn(MD->getParent()); }
    // by-non-const-reference parameters
    json::Array R; bool any=false;
    for (auto *p : FD->parameters()) {
      QualType T = p->getType(); bool mr = false;
      if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) mr = true;
      if (T->isPointerType() && !T->getPointeeType().isConstQualified()) mr = true;
      any |= mr; R.push_back(mr);
    }
    if (any) O["mr"] = std::move(R);
  }
  json::Value param(const ParmVarDecl *p) {
    json::Object O{{"n", p->getNameAsString()}, {"id", lid(p)}, {"t", ty(p->getType())}};
    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) O["def"] = expr(p->getDefaultArg());
    return O;
  }
  json::Value var(const VarDecl *V) {
    json::Object O{{"k", "var"}, {"n", V->getNameAsString()}, {"id", lid(V)}, {"t", ty(V->getType())}, {"l", lineOf(V->getLocation())}};
    if (V->isStaticLocal()) O["static"] = true;
    if (auto *I = V->getInit()) O["init"] = expr(I);
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) { json::Array A; for (auto *b : DD->bindings()) A.push_back(json::Object{{"n", b->getNameAsString()}, {"id", lid(b)}}); O["bind"] = std::move(A); }
    return O;
  }
  // ---------------------------------------------------------------- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    json::Object O; O["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"] = "block"; json::Array A; for (auto *c : X->body()) A.push_back(stmt(c)); O["s"] = std::move(A); return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { O["k"] = "decl"; json::Array A; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(var(V)); O["d"] = std::move(A); return O; }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; O["constexpr"] = X->isConstexpr(); 
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["t"] = stmt(X->getThen()); O["e"] = stmt(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "for"; O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"] = "rfor"; O["var"] = var(X->getLoopVariable()); O["r"] = expr(X->getRangeInit()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["s"] = stmt(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; O["e"] = expr(X->getRetValue()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array H; for (unsigned i=0;i<X->getNumHandlers();++i) { auto *h = X->getHandler(i); json::Object HO; if (h->getExceptionDecl()) HO["var"] = var(h->getExceptionDecl()); HO["t"] = ty(h->getCaughtType()); HO["b"] = stmt(h->getHandlerBlock()); H.push_back(std::move(HO)); } O["h"] = std::move(H); return O; }
    if (isa<NullStmt>(S)) { O["k"] = "nop"; return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    O["k"] = "opaque"; O["c"] = S->getStmtClassName();
    json::Array A; for (auto *c : S->children()) A.push_back(stmt(c)); O["a"] = std::move(A);
    return O;
  }
  // ---------------------------------------------------------------- declarations
  std::string clsT(const CXXRecordDecl *R) { QualType T = C.getRecordType(R); std::string s = T.getCanonicalType().getAsString(PP); return s; }
  static const char *acc(AccessSpecifier A) { return A==AS_public?"public":A==AS_protected?"protected":A==AS_private?"private":"none"; }

  json::Object funcHead(const FunctionDecl *FD) {
    json::Object O;
    O["id"] = usr(FD); O["n"] = FD->getNameAsString(); O["q"] = qn(FD); O["file"] = cleanFile(FD->getLocation());
    O["line"] = lineOf(FD->getLocation()); O["end"] = lineOf(FD->getEndLoc());
    O["ret"] = ty(FD->getReturnType());
    json::Array P; for (auto *p : FD->parameters()) P.push_back(param(p)); O["params"] = std::move(P);
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A; for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); A.push_back(os.str().substr(0,300)); }
      O["ta"] = std::move(A);
    }
    O["pattern"] = FD->isDependentContext();
    if (auto *Pt = FD->getTemplateInstantiationPattern()) { O["pat"] = usr(Pt); O["patline"] = lineOf(Pt->getLocation()); O["patfile"] = cleanFile(Pt->getLocation()); }
    O["kind"] = isa<CXXConstructorDecl>(FD) ? "ctor" : isa<CXXDestructorDecl>(FD) ? "dtor" : isa<CXXConversionDecl>(FD) ? "conv" : isa<CXXMethodDecl>(FD) ? "method" : "func";
    O["access"] = acc(FD->getAccess());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qn(MD->getParent()); O["clst"] = clsT(MD->getParent()); O["clsid"] = usr(MD->getParent());
      O["const"] = MD->isConst(); O["virtual"] = MD->isVirtual(); O["static"] = MD->isStatic(); O["pure"] = MD->isPureVirtual();
      json::Array Ov; for (auto *o : MD->overridden_methods()) Ov.push_back(usr(o)); O["over"] = std::move(Ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) { O["copy"] = CD->isCopyConstructor(); O["move"] = CD->isMoveConstructor(); O["default"] = CD->isDefaultConstructor(); }
      O["copyassign"] = MD->isCopyAssignmentOperator(); O["moveassign"] = MD->isMoveAssignmentOperator();
    }
    O["defaulted"] = FD->isDefaulted(); O["deleted"] = FD->isDeleted(); O["implicit"] = FD->isImplicit();
    return O;
  }
  json::Value func(const FunctionDecl *FD) {
    json::Object O = funcHead(FD);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      json::Array I;
      for (auto *i : CD->inits()) {
        json::Object IO; IO["written"] = i->isWritten();
        if (i->isAnyMemberInitializer()) IO["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) IO["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) IO["deleg"] = true;
        IO["e"] = expr(i->getInit()); IO["l"] = lineOf(i->getSourceLocation());
        // did the source initialise through the copy constructor with the whole object?
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(FD->getBody());
    return O;
  }
  json::Value cls(const CXXRecordDecl *R) {
    json::Object O; O["q"] = qn(R); O["qt"] = clsT(R); O["id"] = usr(R); O["file"] = cleanFile(R->getLocation()); O["line"] = lineOf(R->getLocation());
    O["pattern"] = R->isDependentContext(); O["abstract"] = !R->isDependentContext() && R->isAbstract();
    json::Array B; for (auto &b : R->bases()) { json::Object BO{{"t", b.getType().getCanonicalType().getAsString(PP)}, {"virtual", b.isVirtual()}}; if (auto *BR = b.getType()->getAsCXXRecordDecl()) { BO["q"] = qn(BR); BO["id"]=usr(BR);} else if (auto *TST = b.getType()->getAs<TemplateSpecializationType>()) { if (auto *TD = TST->getTemplateName().getAsTemplateDecl()) BO["q"] = qn(TD); } B.push_back(std::move(BO)); }
    O["bases"] = std::move(B);
    json::Array F; for (auto *f : R->fields()) { json::Object FO{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"access", acc(f->getAccess())}, {"mutable", f->isMutable()}, {"l", lineOf(f->getLocation())}}; if (f->hasInClassInitializer() && f->getInClassInitializer()) FO["init"] = expr(f->getInClassInitializer()); F.push_back(std::move(FO)); }
    O["fields"] = std::move(F);
    json::Array M; for (auto *m : R->methods()) { M.push_back(funcHead(m)); }
    for (auto *d : R->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(d)) M.push_back(funcHead(FT->getTemplatedDecl()));
    O["methods"] = std::move(M);
    return O;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Emitter &E; llvm::raw_ostream &OS; std::set<const Decl *> Seen; size_t nf=0,nc=0;
  Visitor(Emitter &E, llvm::raw_ostream &OS) : E(E), OS(OS) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void put(const char *kind, json::Value V) { V.getAsObject()->insert({"rec", kind}); OS << V << "\n"; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!E.inRoot(FD->getLocation())) {
      // explicit specialisations / instantiations of templates under the root are located there already
      return true;
    }
    if (!FD->isThisDeclarationADefinition() && !(FD->isDefaulted())) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->getParent()->isLambda()) return true;
    if (!FD->hasBody() && !FD->isDefaulted()) return true;
    if (!Seen.insert(FD).second) return true;
    put("fn", E.func(FD)); ++nf;
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || !E.inRoot(R->getLocation())) return true;
    if (!Seen.insert(R).second) return true;
    put("cls", E.cls(R)); ++nc;
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !E.inRoot(D->getLocation())) return true;
    json::Array A; for (auto *c : D->enumerators()) { llvm::SmallString<32> S; c->getInitVal().toString(S,10); A.push_back(json::Object{{"n", c->getNameAsString()}, {"v", S.str().str()}}); }
    put("enum", json::Object{{"q", E.qn(D)}, {"file", E.cleanFile(D->getLocation())}, {"line", E.lineOf(D->getLocation())}, {"consts", std::move(A)}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || !E.inRoot(V->getLocation()) || V->getParentFunctionOrMethod()) return true;
    if (!V->getInit()) return true;
    if (!Seen.insert(V).second) return true;
    std::string pat; 
    put("gvar", json::Object{{"q", E.qn(V)}, {"n", V->getNameAsString()}, {"t", E.ty(V->getType())}, {"file", E.cleanFile(V->getLocation())}, {"line", E.lineOf(V->getLocation())}, {"init", E.expr(V->getInit())}});
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "b2facts: parse errors\n"; return; }
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    Emitter E(C); Visitor V(E, OS); V.TraverseDecl(C.getTranslationUnitDecl());
    OS << json::Value(json::Object{{"rec","end"},{"functions",(int64_t)V.nf},{"classes",(int64_t)V.nc}}) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  // b2facts OUT ROOT[:ROOT...] SOURCE -- flags
  if (argc < 5) { llvm::errs() << "usage: b2facts OUT ROOTS SOURCE -- flags\n"; return 2; }
  OutPath = argv[1];
  { std::string R = argv[2]; size_t p; while ((p = R.find(':')) != std::string::npos) { Roots.push_back(R.substr(0,p)); R = R.substr(p+1);} Roots.push_back(R); }
  std::string Src = argv[3];
  std::vector<std::string> Flags; for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Flags);
  tooling::ClangTool T(DB, {Src});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
