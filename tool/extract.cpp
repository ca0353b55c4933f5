// uima static-analysis front end: parses one translation unit with clang and
// writes, as JSON, every function / class / enum / global DEFINED below ROOT
// (expression tables with resolved callees and types, and clang's CFG).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
static std::string ROOT;
static std::string OUT;

namespace {

static int64_t i64(const llvm::APSInt &V) {
  if (V.isRepresentableByInt64()) return V.getExtValue();
  return (int64_t)V.extOrTrunc(64).getZExtValue();
}

struct Ctx {
  ASTContext &AC;
  SourceManager &SM;
  PrintingPolicy PP;
  Ctx(ASTContext &A) : AC(A), SM(A.getSourceManager()), PP(A.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.AnonymousTagLocations = false;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    std::string S;
    if (auto E = SM.getFileEntryRefForID(SM.getFileID(L))) {
      S = std::string(E->getFileEntry().tryGetRealPathName());
      if (S.empty()) S = F.str();
    } else S = F.str();
    return S;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = file(L);
    return F.compare(0, ROOT.size(), ROOT) == 0 && F.find("/_build/") == std::string::npos;
  }
  std::string relfile(SourceLocation L) {
    std::string F = file(L);
    if (F.compare(0, ROOT.size(), ROOT) == 0) F = F.substr(ROOT.size());
    while (!F.empty() && F[0] == '/') F = F.substr(1);
    return F;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string tys(QualType T) {
    if (T.isNull()) return "";
    return T.getAsString(PP);
  }
  std::string qn(const NamedDecl *D) { return D->getQualifiedNameAsString(); }
  std::string fid(const FunctionDecl *F) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    F->getNameForDiagnostic(OS, PP, true);
    OS << "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) OS << ",";
      first = false;
      OS << ty(P->getType());
    }
    OS << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) OS << "const";
    if (!isa<CXXMethodDecl>(F) && F->getFormalLinkage() == Linkage::Internal)
      OS << "@" << relfile(F->getCanonicalDecl()->getLocation());
    return OS.str();
  }
};

static const Expr *strip1(const Expr *E) {
  if (auto *P = dyn_cast<ParenExpr>(E)) return P->getSubExpr();
  if (auto *P = dyn_cast<FullExpr>(E)) return P->getSubExpr();
  if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return P->getSubExpr();
  if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return P->getSubExpr();
  if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return P->getReplacement();
  if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return P->getExpr();
  if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return P->getExpr();
  if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return P->getSubExpr();
  if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
    switch (P->getCastKind()) {
    case CK_NoOp: case CK_LValueToRValue: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
    case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
    case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast:
    case CK_BaseToDerived:
      return P->getSubExpr();
    default: return nullptr;
    }
  }
  return nullptr;
}
static const Stmt *strip(const Stmt *S) {
  while (S) {
    auto *E = dyn_cast<Expr>(S);
    if (!E) return S;
    auto *N = strip1(E);
    if (!N) return S;
    S = N;
  }
  return S;
}

struct FnDump {
  Ctx &C;
  std::map<const Stmt *, int> ids;
  json::Array nodes;             // node objects, index = id
  std::map<const Decl *, int> decls;
  std::map<const Stmt *, int> tryOf; // call/stmt -> try id
  std::vector<const CXXTryStmt *> tries;
  std::vector<int> tryOuter;
  int curTryForDecl = -1;
  FnDump(Ctx &c) : C(c) {}

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = decls.find(D);
    if (it != decls.end()) return it->second;
    int n = (int)decls.size();
    decls[D] = n;
    return n;
  }

  void mapTry(const Stmt *S, int cur) {
    if (!S) return;
    if (cur >= 0) tryOf[S] = cur;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int id = (int)tries.size();
      tries.push_back(T);
      tryOuter.push_back(cur);
      mapTry(T->getTryBlock(), id);
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) mapTry(T->getHandler(i), cur);
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    for (const Stmt *Ch : S->children()) mapTry(Ch, cur);
  }

  int node(const Stmt *S0) {
    if (!S0) return -1;
    const Stmt *S = strip(S0);
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    int id = (int)nodes.size();
    ids[S] = id;
    nodes.push_back(nullptr);
    json::Object O;
    build(S, O);
    O["l"] = C.line(S->getBeginLoc());
    auto t = tryOf.find(S);
    if (t != tryOf.end()) O["try"] = t->second;
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = C.ty(E->getType());
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
          !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E) && !isa<CharacterLiteral>(E)) {
        Expr::EvalResult R;
        if (E->isPRValue() || isa<DeclRefExpr>(E))
          if (E->EvaluateAsInt(R, C.AC, Expr::SE_NoSideEffects))
            O["cv"] = i64(R.Val.getInt());
      }
    }
    nodes[id] = std::move(O);
    return id;
  }
  json::Array args(llvm::ArrayRef<const Expr *> A, unsigned from = 0) {
    json::Array R;
    for (unsigned i = from; i < A.size(); ++i) R.push_back(node(A[i]));
    return R;
  }
  void fnref(const FunctionDecl *F, json::Object &O) {
    O["fn"] = C.qn(F);
    O["u"] = C.fid(F);
    O["rt"] = C.tys(F->getReturnType());
    if (C.inRoot(F->getLocation())) O["r"] = 1;
  }
  std::string strval(const StringLiteral *L) {
    std::string S;
    if (L->getCharByteWidth() == 1) S = L->getString().str();
    else for (unsigned i = 0; i < L->getLength(); ++i) {
        unsigned c = L->getCodeUnit(i);
        if (c < 128) S.push_back((char)c); else S += "\\u" + std::to_string(c);
      }
    std::string R;
    for (unsigned char c : S) { if (c < 128) R.push_back(c); else R += "\\x" + std::to_string((int)c); }
    return R;
  }
  void build(const Stmt *S, json::Object &O) {
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { O["k"] = "int"; O["v"] = (int64_t)E->getValue().getLimitedValue(); return; }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { O["k"] = "bool"; O["v"] = E->getValue() ? 1 : 0; return; }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { O["k"] = "int"; O["v"] = (int64_t)E->getValue(); return; }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) { O["k"] = "flt"; O["v"] = E->getValueAsApproximateDouble(); return; }
    if (auto *E = dyn_cast<StringLiteral>(S)) { O["k"] = "str"; O["v"] = strval(E); return; }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { O["k"] = "null"; return; }
    if (isa<CXXThisExpr>(S)) { O["k"] = "this"; return; }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = E->getDecl();
      O["k"] = "ref"; O["n"] = C.qn(D);
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["d"] = "fn"; O["u"] = C.fid(F); }
      else if (isa<EnumConstantDecl>(D)) O["d"] = "enumc";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) { O["d"] = "param"; O["id"] = declId(V); }
        else if (V->isLocalVarDecl()) { O["d"] = V->isStaticLocal() ? "slocal" : "local"; O["id"] = declId(V); }
        else { O["d"] = "global"; if (C.inRoot(V->getLocation())) O["r"] = 1;}
      } else O["d"] = "other";
      return;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      O["k"] = "mem"; O["f"] = C.qn(E->getMemberDecl()); O["b"] = node(E->getBase());
      if (E->isArrow()) O["ar"] = 1;
      if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) { O["d"] = "fn"; O["u"] = C.fid(F); }
      return;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "ctor"; fnref(E->getConstructor(), O);
      O["cls"] = C.qn(E->getConstructor()->getParent());
      std::vector<const Expr *> A(E->arg_begin(), E->arg_end());
      O["a"] = args(A);
      if (E->getConstructor()->isCopyOrMoveConstructor()) O["cp"] = 1;
      return;
    }
    if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) { O["k"] = "ctor"; fnref(E->getConstructor(), O); O["a"] = json::Array(); return; }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(E->getOperator());
      const FunctionDecl *F = E->getDirectCallee();
      std::vector<const Expr *> A(E->arg_begin(), E->arg_end());
      if (F) {
        fnref(F, O);
        if (isa<CXXMethodDecl>(F)) { O["o"] = node(A[0]); O["a"] = args(A, 1);
          if (cast<CXXMethodDecl>(F)->isVirtual()) O["v"] = 1; }
        else O["a"] = args(A);
      } else { O["ind"] = node(E->getCallee()); O["a"] = args(A); }
      return;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      std::vector<const Expr *> A(E->arg_begin(), E->arg_end());
      const FunctionDecl *F = E->getDirectCallee();
      if (F) {
        fnref(F, O);
        if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
          O["o"] = node(M->getImplicitObjectArgument());
          auto *MD = M->getMethodDecl();
          auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParenImpCasts());
          if (MD && MD->isVirtual() && !(ME && ME->hasQualifier())) O["v"] = 1;
        }
      } else if (auto *M = dyn_cast<CXXPseudoDestructorExpr>(E->getCallee()->IgnoreParenImpCasts())) {
        O["fn"] = "~pseudo"; O["o"] = node(M->getBase());
      } else O["ind"] = node(E->getCallee());
      O["a"] = args(A);
      return;
    }
    if (auto *E = dyn_cast<UnaryOperator>(S)) { O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = 1; O["s"] = node(E->getSubExpr()); return; }
    if (auto *E = dyn_cast<CompoundAssignOperator>(S)) { O["k"] = "asg"; O["op"] = E->getOpcodeStr().str(); O["a"] = json::Array{node(E->getLHS()), node(E->getRHS())}; return; }
    if (auto *E = dyn_cast<BinaryOperator>(S)) {
      O["k"] = E->isAssignmentOp() ? "asg" : "bin"; O["op"] = E->getOpcodeStr().str();
      O["a"] = json::Array{node(E->getLHS()), node(E->getRHS())}; return; }
    if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) { O["k"] = "cond"; O["a"] = json::Array{node(E->getCond()), node(E->getTrueExpr()), node(E->getFalseExpr())}; return; }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) { O["k"] = "idx"; O["a"] = json::Array{node(E->getBase()), node(E->getIdx())}; return; }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new"; O["at"] = C.ty(E->getAllocatedType());
      if (E->isArray()) { O["arr"] = 1; if (E->getArraySize() && *E->getArraySize()) O["n"] = node(*E->getArraySize()); }
      if (E->getInitializer()) O["s"] = node(E->getInitializer());
      if (E->getNumPlacementArgs()) O["pl"] = node(E->getPlacementArg(0));
      return; }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { O["k"] = "del"; if (E->isArrayForm()) O["arr"] = 1; O["s"] = node(E->getArgument());
      QualType DT = E->getDestroyedType(); if (!DT.isNull()) O["dt"] = C.ty(DT); return; }
    if (auto *E = dyn_cast<CXXThrowExpr>(S)) { O["k"] = "throw"; if (E->getSubExpr()) { O["s"] = node(E->getSubExpr()); O["tt"] = C.ty(E->getSubExpr()->getType().getUnqualifiedType()); } return; }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { O["k"] = "sizeof"; if (E->isArgumentType()) O["st"] = C.ty(E->getArgumentType()); else { O["s"] = node(E->getArgumentExpr()); O["st"] = C.ty(E->getArgumentExpr()->getType()); } return; }
    if (auto *E = dyn_cast<CXXTypeidExpr>(S)) { O["k"] = "typeid"; (void)E; return; }
    if (auto *E = dyn_cast<InitListExpr>(S)) { O["k"] = "init"; json::Array A; for (auto *I : E->inits()) A.push_back(node(I)); O["a"] = std::move(A); return; }
    if (auto *E = dyn_cast<CastExpr>(S)) {
      O["k"] = "cast"; O["ck"] = E->getCastKindName(); if (isa<ImplicitCastExpr>(E)) O["imp"] = 1;
      if (isa<CXXDynamicCastExpr>(E)) O["dyn"] = 1;
      O["s"] = node(E->getSubExpr()); return; }
    if (auto *E = dyn_cast<CXXScalarValueInitExpr>(S)) { O["k"] = "zero"; (void)E; return; }
    if (isa<ImplicitValueInitExpr>(S)) { O["k"] = "zero"; return; }
    if (auto *E = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (E->getRetValue()) O["s"] = node(E->getRetValue()); return; }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; json::Array A;
      for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) {
          json::Object W; W["id"] = declId(V); W["n"] = V->getNameAsString(); W["t"] = C.ty(V->getType()); W["ts"] = C.tys(V->getType());
          if (V->isStaticLocal()) W["st"] = 1;
          if (V->getInit()) W["init"] = node(V->getInit());
          A.push_back(std::move(W)); }
      O["vars"] = std::move(A); return; }
    if (auto *E = dyn_cast<LambdaExpr>(S)) { O["k"] = "lambda"; (void)E; return; }
    if (auto *E = dyn_cast<CXXCatchStmt>(S)) { O["k"] = "catch"; if (E->getExceptionDecl()) O["id"] = declId(E->getExceptionDecl()); return; }
    O["k"] = "other"; O["cls"] = S->getStmtClassName();
    json::Array A; for (const Stmt *Ch : S->children()) if (Ch) A.push_back(node(Ch)); O["a"] = std::move(A);
  }

  json::Value caseVal(const Expr *E) {
    if (!E) return nullptr;
    Expr::EvalResult R;
    if (!E->isValueDependent() && E->EvaluateAsInt(R, C.AC)) return i64(R.Val.getInt());
    return nullptr;
  }

  json::Object dump(const FunctionDecl *F) {
    json::Object O;
    O["u"] = C.fid(F); O["q"] = C.qn(F); O["file"] = C.relfile(F->getLocation()); O["line"] = C.line(F->getLocation());
    O["endline"] = C.line(F->getEndLoc());
    O["ret"] = C.tys(F->getReturnType()); O["rett"] = C.ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = C.qn(M->getParent());
      O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isStatic()) O["static"] = 1;
      if (M->isConst()) O["const"] = 1;
      json::Array A; for (auto *B : M->overridden_methods()) A.push_back(C.fid(B)); O["over"] = std::move(A);
      if (isa<CXXConstructorDecl>(M)) { O["kind"] = "ctor"; if (cast<CXXConstructorDecl>(M)->isCopyConstructor()) O["copyctor"] = 1; }
      else if (isa<CXXDestructorDecl>(M)) O["kind"] = "dtor"; else O["kind"] = "method";
    } else O["kind"] = "func";
    if (F->isExternC()) O["externc"] = 1;
    if (F->getTemplateInstantiationPattern()) O["tmpl"] = 1;
    json::Array P;
    for (auto *V : F->parameters()) { json::Object W; W["id"] = declId(V); W["n"] = V->getNameAsString(); W["t"] = C.ty(V->getType()); W["ts"] = C.tys(V->getType()); P.push_back(std::move(W)); }
    O["params"] = std::move(P);
    mapTry(F->getBody(), -1);
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddInitializers = true;
    BO.AddEHEdges = false; BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C.AC, BO);
    std::map<const CXXCatchStmt *, int> catchBlk;
    if (G) {
      json::Array BL;
      for (const CFGBlock *B : *G) {
        json::Object BO2; BO2["id"] = (int)B->getBlockID();
        json::Array E;
        for (const CFGElement &El : *B) {
          if (auto CS = El.getAs<CFGStmt>()) {
            const Stmt *S = CS->getStmt();
            if (strip(S) != S) continue;
            E.push_back(node(S));
          } else if (auto CI = El.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *I = CI->getInitializer();
            json::Object N; N["k"] = "minit";
            N["l"] = C.line(I->getSourceLocation().isValid() ? I->getSourceLocation() : F->getLocation());
            if (I->isAnyMemberInitializer()) N["f"] = C.qn(I->getAnyMember());
            else if (I->isBaseInitializer()) N["base"] = C.ty(QualType(I->getBaseClass(), 0));
            else N["deleg"] = 1;
            N["s"] = node(I->getInit());
            int id = (int)nodes.size(); nodes.push_back(std::move(N)); E.push_back(id);
          } else if (auto CD = El.getAs<CFGImplicitDtor>()) {
            json::Object N; N["k"] = "adtor";
            if (auto *D = CD->getDestructorDecl(C.AC)) { N["fn"] = C.qn(D); N["u"] = C.fid(D); }
            if (auto A = El.getAs<CFGAutomaticObjDtor>()) { N["id"] = declId(A->getVarDecl()); N["n"] = A->getVarDecl()->getNameAsString(); N["w"] = "auto"; }
            else if (auto M = El.getAs<CFGMemberDtor>()) { N["f"] = C.qn(M->getFieldDecl()); N["w"] = "member"; }
            else if (El.getAs<CFGBaseDtor>()) N["w"] = "base";
            else if (auto DD = El.getAs<CFGDeleteDtor>()) { N["w"] = "delete"; N["s"] = node(DD->getDeleteExpr()); }
            else N["w"] = "other";
            int id = (int)nodes.size(); nodes.push_back(std::move(N)); E.push_back(id);
          }
        }
        BO2["e"] = std::move(E);
        if (const Stmt *T = B->getTerminatorStmt()) {
          BO2["tk"] = T->getStmtClassName(); BO2["tl"] = C.line(T->getBeginLoc());
          if (B->getTerminator().isTemporaryDtorsBranch()) BO2["tk"] = "TempDtor";
          if (auto *BOp = dyn_cast<BinaryOperator>(T)) BO2["tk"] = BOp->getOpcode() == BO_LAnd ? "&&" : BOp->getOpcode() == BO_LOr ? "||" : "bin";
          if (auto *Tr = dyn_cast<CXXTryStmt>(T)) { for (unsigned i = 0; i < tries.size(); ++i) if (tries[i] == Tr) BO2["tryid"] = (int)i; }
          if (const Stmt *Cn = B->getTerminatorCondition(false)) BO2["c"] = node(Cn);
          if (const Expr *LC = B->getLastCondition()) BO2["c2"] = node(LC);
        }
        if (const Stmt *L = B->getLabel()) {
          if (auto *CS = dyn_cast<CaseStmt>(L)) {
            json::Array V;
            V.push_back(caseVal(CS->getLHS()));
            BO2["case"] = std::move(V);
            if (CS->getRHS()) BO2["caseR"] = caseVal(CS->getRHS());
          } else if (isa<DefaultStmt>(L)) BO2["default"] = 1;
          else if (auto *Ct = dyn_cast<CXXCatchStmt>(L)) { catchBlk[Ct] = (int)B->getBlockID(); BO2["catch"] = 1; }
        }
        json::Array SU;
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          if (const CFGBlock *R = I->getReachableBlock()) SU.push_back((int)R->getBlockID());
          else if (const CFGBlock *U = I->getPossiblyUnreachableBlock()) { json::Object X; X["un"] = (int)U->getBlockID(); SU.push_back(std::move(X)); }
          else SU.push_back(nullptr);
        }
        BO2["s"] = std::move(SU);
        if (B->hasNoReturnElement()) BO2["nr"] = 1;
        BL.push_back(std::move(BO2));
      }
      O["entry"] = (int)G->getEntry().getBlockID(); O["exit"] = (int)G->getExit().getBlockID();
      O["blocks"] = std::move(BL);
    }
    json::Array TR;
    for (unsigned i = 0; i < tries.size(); ++i) {
      json::Object W; W["outer"] = tryOuter[i]; W["l"] = C.line(tries[i]->getBeginLoc());
      json::Array H;
      for (unsigned h = 0; h < tries[i]->getNumHandlers(); ++h) {
        const CXXCatchStmt *Ct = tries[i]->getHandler(h);
        json::Object X; X["t"] = Ct->getExceptionDecl() ? C.ty(Ct->getCaughtType().getNonReferenceType().getUnqualifiedType()) : std::string("...");
        if (Ct->getExceptionDecl()) X["id"] = declId(Ct->getExceptionDecl());
        auto it = catchBlk.find(Ct); if (it != catchBlk.end()) X["b"] = it->second;
        H.push_back(std::move(X));
      }
      W["h"] = std::move(H); TR.push_back(std::move(W));
    }
    O["tries"] = std::move(TR);
    O["nodes"] = std::move(nodes);
    return O;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx C;
  json::Array fns, classes, enums, vars, decls;
  std::set<const Decl *> seen;
  std::set<std::string> seenT;
  V(ASTContext &A) : C(A) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!C.inRoot(F->getLocation())) return true;
    if (F->isDefaulted() && !F->isExplicitlyDefaulted()) return true;
    if (!F->doesThisDeclarationHaveABody() || !F->getBody()) {
      return true;
    }
    if (!seen.insert(F).second) return true;
    FnDump D(C);
    fns.push_back(D.dump(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!C.inRoot(R->getLocation())) return true;
    if (!seen.insert(R).second) return true;
    json::Object O; O["q"] = C.qn(R); O["t"] = C.ty(C.AC.getRecordType(R)); O["file"] = C.relfile(R->getLocation()); O["line"] = C.line(R->getLocation());
    json::Array B; for (auto &X : R->bases()) { if (auto *D = X.getType()->getAsCXXRecordDecl()) B.push_back(C.qn(D)); } O["bases"] = std::move(B);
    json::Array F; for (auto *X : R->fields()) { json::Object W; W["n"] = X->getNameAsString(); W["q"] = C.qn(X); W["t"] = C.ty(X->getType()); W["ts"] = C.tys(X->getType()); W["l"] = C.line(X->getLocation());
        W["acc"] = X->getAccess() == AS_public ? "public" : X->getAccess() == AS_protected ? "protected" : "private"; F.push_back(std::move(W)); } O["fields"] = std::move(F);
    json::Array M; for (auto *X : R->methods()) { if (X->isImplicit()) continue; json::Object W; W["u"] = C.fid(X); W["q"] = C.qn(X); W["virt"] = X->isVirtual(); W["pure"] = X->isPureVirtual();
        W["acc"] = X->getAccess() == AS_public ? "public" : X->getAccess() == AS_protected ? "protected" : "private"; W["ret"] = C.tys(X->getReturnType());
        W["const"] = X->isConst(); W["static"] = X->isStatic();
        json::Array OV; for (auto *Y : X->overridden_methods()) OV.push_back(C.fid(Y)); W["over"] = std::move(OV); M.push_back(std::move(W)); } O["methods"] = std::move(M);
    classes.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !C.inRoot(E->getLocation()) || E->isDependentContext()) return true;
    json::Object O; O["q"] = C.qn(E); O["file"] = C.relfile(E->getLocation()); O["line"] = C.line(E->getLocation());
    json::Array A; for (auto *X : E->enumerators()) { json::Object W; W["n"] = C.qn(X); W["v"] = i64(X->getInitVal()); A.push_back(std::move(W)); }
    O["e"] = std::move(A); enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D)) return true;
    if (!C.inRoot(D->getLocation())) return true;
    if (D->getDeclContext()->isDependentContext()) return true;
    if (!D->hasGlobalStorage()) return true;
    json::Object O; O["q"] = C.qn(D); O["t"] = C.ty(D->getType()); O["file"] = C.relfile(D->getLocation()); O["line"] = C.line(D->getLocation());
    O["const"] = D->getType().isConstQualified() || (C.AC.getBaseElementType(D->getType()).isConstQualified());
    O["local"] = D->isStaticLocal(); O["tls"] = D->getTLSKind() != VarDecl::TLS_None; O["def"] = D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (D->getInit() && !D->isStaticLocal()) { FnDump FD(C); O["init"] = FD.node(D->getInit()); O["nodes"] = std::move(FD.nodes); }
    vars.push_back(std::move(O));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &A) override {
    V v(A);
    v.TraverseDecl(A.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OUT, EC);
    json::Object O;
    O["functions"] = std::move(v.fns); O["classes"] = std::move(v.classes); O["enums"] = std::move(v.enums); O["vars"] = std::move(v.vars);
    json::Array FI;
    SourceManager &SM = A.getSourceManager();
    for (auto I = SM.fileinfo_begin(); I != SM.fileinfo_end(); ++I) {
      std::string P = std::string(I->first.getFileEntry().tryGetRealPathName());
      FI.push_back(P);
    }
    O["deps"] = std::move(FI);
    O["errors"] = (int)A.getDiagnostics().getClient()->getNumErrors();
    OS << json::Value(std::move(O));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Cons>();
  }
};
} // namespace

// usage: extract ROOT OUT SOURCE -- flags...
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  ROOT = argv[1]; OUT = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  std::string cwd = ".";
  clang::tooling::FixedCompilationDatabase DB(cwd, Flags);
  clang::tooling::ClangTool T(DB, {Src});
  T.appendArgumentsAdjuster([](const clang::tooling::CommandLineArguments &A, StringRef) { return A; });
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
