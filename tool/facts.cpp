// facts: a libTooling extractor.  Parses one translation unit with the real
// front end and writes the *resolved* program (typed AST of every function
// body, clang CFG, globals with evaluated initialisers, records, enums) as
// JSON.  All rules are decided on this data by /verif/lib/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root = "/repo/";
static std::string OutPath;

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::map<const Decl *, int> declIds;
  std::vector<const Decl *> declOrder;
  std::map<void *, int> typeIds;
  std::vector<QualType> typeOrder;
  std::map<const Stmt *, int> stmtIds;
  int nextStmt = 1;
  Object out;
  Array typesOut;

  explicit Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()),
        MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {
    PP.SuppressTagKeyword = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) f = R.str();
    }
    if (StringRef(f).starts_with(Root)) f = f.substr(Root.size());
    return f;
  }
  std::string locStr(SourceLocation L) {
    if (L.isInvalid()) return "";
    SourceLocation E = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(E, false);
    if (P.isInvalid()) return "";
    return fileOf(L) + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return false;
    StringRef R = FE->getFileEntry().tryGetRealPathName();
    if (R.empty()) R = FE->getName();
    if (!R.starts_with(Root)) return false;
    if (R.ends_with("libdivide.h")) return false;
    return true;
  }

  int typeId(QualType T) {
    QualType CT = T.getCanonicalType();
    void *k = CT.getAsOpaquePtr();
    auto it = typeIds.find(k);
    if (it != typeIds.end()) return it->second;
    int id = (int)typesOut.size();
    typeIds[k] = id;
    typesOut.push_back(nullptr);
    Object o;
    o["s"] = CT.getAsString(PP);
    o["const"] = CT.isConstQualified();
    if (CT.isVolatileQualified()) o["volatile"] = true;
    if (CT->isReferenceType()) {
      o["k"] = CT->isRValueReferenceType() ? "rref" : "ref";
      o["to"] = typeId(CT->getPointeeType());
    } else if (CT->isPointerType()) {
      o["k"] = "ptr";
      o["to"] = typeId(CT->getPointeeType());
    } else if (CT->isBooleanType()) {
      o["k"] = "bool"; o["bits"] = 1; o["u"] = true;
    } else if (CT->isEnumeralType()) {
      o["k"] = "enum";
      o["rec"] = CT->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
      if (!CT->isDependentType() && !CT->isIncompleteType()) {
        o["bits"] = (int64_t)C.getTypeSize(CT);
        o["u"] = CT->isUnsignedIntegerOrEnumerationType();
      }
    } else if (CT->isIntegerType()) {
      o["k"] = "int";
      o["bits"] = (int64_t)C.getTypeSize(CT);
      o["u"] = CT->isUnsignedIntegerType();
    } else if (CT->isFloatingType()) {
      o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(CT);
    } else if (const auto *AT = C.getAsArrayType(CT)) {
      o["k"] = "array";
      o["to"] = typeId(AT->getElementType());
      if (auto *CAT = dyn_cast<ConstantArrayType>(AT)) o["n"] = (int64_t)CAT->getSize().getZExtValue();
    } else if (CT->isRecordType()) {
      o["k"] = "rec";
      auto *RD = CT->castAs<RecordType>()->getDecl();
      o["rec"] = RD->getQualifiedNameAsString();
      if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a;
        for (auto &A : CTS->getTemplateArgs().asArray())
          if (A.getKind() == TemplateArgument::Type) a.push_back(typeId(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Integral) a.push_back(llvm::toString(A.getAsIntegral(), 10));
        o["targs"] = std::move(a);
      }
    } else if (CT->isFunctionType()) {
      o["k"] = "fn";
    } else if (CT->isVoidType()) {
      o["k"] = "void";
    } else {
      o["k"] = "other";
    }
    typesOut[id] = std::move(o);
    return id;
  }

  int declId(const Decl *D) {
    if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (auto *OCE = dyn_cast<OMPCapturedExprDecl>(VD)) {
        (void)OCE;
      }
      if (VD->hasGlobalStorage() && !VD->isStaticLocal()) D = VD->getCanonicalDecl();
    } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      D = FD->getCanonicalDecl();
    }
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int id = (int)declOrder.size();
    declIds[D] = id;
    declOrder.push_back(D);
    return id;
  }

  std::string fnKey(const FunctionDecl *FD) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(FD)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(FD)) MC->mangleName(GlobalDecl(FD), os);
    else os << FD->getNameAsString();
    os.flush();
    if (!FD->isExternallyVisible()) s = "@" + fileOf(FD->getLocation()) + "@" + s;
    return s;
  }
  std::string varKey(const VarDecl *VD) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (VD->isLocalVarDecl()) {
      os << VD->getQualifiedNameAsString();
      if (auto *F = dyn_cast_or_null<FunctionDecl>(VD->getParentFunctionOrMethod())) os << "@" << fnKey(F);
    } else if (MC->shouldMangleDeclName(VD)) MC->mangleName(GlobalDecl(VD), os);
    else os << VD->getNameAsString();
    os.flush();
    if (!VD->isExternallyVisible()) s = "@" + fileOf(VD->getLocation()) + "@" + s;
    return s;
  }

  Value apv(const APValue &V, QualType T, int depth = 0) {
    switch (V.getKind()) {
    case APValue::Int: {
      llvm::SmallString<64> S; V.getInt().toString(S, 10);
      return std::string(S.str());
    }
    case APValue::Float: return V.getFloat().convertToDouble();
    case APValue::Array: {
      Array a;
      QualType ET;
      unsigned n = V.getArraySize(), ni = V.getArrayInitializedElts();
      for (unsigned i = 0; i < n; i++) {
        if (i < ni) a.push_back(apv(V.getArrayInitializedElt(i), ET, depth + 1));
        else if (V.hasArrayFiller()) a.push_back(apv(V.getArrayFiller(), ET, depth + 1));
      }
      return a;
    }
    case APValue::Struct: {
      Array a;
      for (unsigned i = 0; i < V.getStructNumBases(); i++) a.push_back(apv(V.getStructBase(i), ET0(), depth + 1));
      for (unsigned i = 0; i < V.getStructNumFields(); i++) a.push_back(apv(V.getStructField(i), ET0(), depth + 1));
      return a;
    }
    case APValue::LValue: return Object{{"lvalue", true}};
    default: return nullptr;
    }
  }
  QualType ET0() { return QualType(); }

  // ------------------------------------------------------------ statements
  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(S)) S = B->getSubExpr();
      else if (auto *K = dyn_cast<ConstantExpr>(S)) S = K->getSubExpr();
      else if (auto *N = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = N->getReplacement();
      else if (auto *AS = dyn_cast<AttributedStmt>(S)) S = AS->getSubStmt();
      else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) S = DA->getExpr();
      else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) S = DI->getExpr();
      else break;
    }
    return S;
  }

  Value stmt(const Stmt *S0) {
    if (!S0) return nullptr;
    const Stmt *S = strip(S0);
    if (!S) return nullptr;
    int id;
    {
      auto it = stmtIds.find(S);
      id = it != stmtIds.end() ? it->second : nextStmt++;
      stmtIds[S] = id;
      for (const Stmt *W = S0; W && W != S;) {   // wrappers map to the same id
        stmtIds[W] = id;
        const Stmt *N = nullptr;
        if (auto *P = dyn_cast<ParenExpr>(W)) N = P->getSubExpr();
        else if (auto *E = dyn_cast<ExprWithCleanups>(W)) N = E->getSubExpr();
        else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(W)) N = M->getSubExpr();
        else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(W)) N = B->getSubExpr();
        else if (auto *K = dyn_cast<ConstantExpr>(W)) N = K->getSubExpr();
        else if (auto *SN = dyn_cast<SubstNonTypeTemplateParmExpr>(W)) N = SN->getReplacement();
        else if (auto *AS = dyn_cast<AttributedStmt>(W)) N = AS->getSubStmt();
        W = N;
      }
    }
    Object o;
    o["i"] = id;
    o["k"] = S->getStmtClassName();
    o["l"] = locStr(S->getBeginLoc());
    Array c;
    auto kids = [&](std::initializer_list<const Stmt *> L) {
      for (auto *K : L) c.push_back(stmt(K));
    };
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = typeId(E->getType());
      if (E->isLValue()) o["lv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          (E->getType()->isIntegralOrEnumerationType() || E->getType()->isFloatingType()) &&
          !isa<InitListExpr>(E)) {
        Expr::EvalResult R;
        if (!E->isLValue() || true) {
          if (E->getType()->isIntegralOrEnumerationType() && !E->HasSideEffects(C) && E->EvaluateAsRValue(R, C, true) && R.Val.isInt()) {
            llvm::SmallString<64> SS; R.Val.getInt().toString(SS, 10);
            o["cv"] = std::string(SS.str());
          } else if (E->getType()->isFloatingType() && isa<FloatingLiteral>(E)) {
            o["fv"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
          }
        }
      }
    }
    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      o["d"] = declId(X->getDecl());
      if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      o["d"] = declId(X->getMemberDecl());
      o["arrow"] = X->isArrow();
      kids({X->getBase()});
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      o["d"] = declId(X->getConstructor());
      o["elide"] = X->isElidable();
      for (auto *A : X->arguments()) c.push_back(stmt(A));
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      if (auto *FD = X->getDirectCallee()) o["d"] = declId(FD);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (auto *M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) o["member"] = !M->isStatic();
        for (auto *A : X->arguments()) c.push_back(stmt(A));
      } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
        o["obj"] = stmt(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
        for (auto *A : X->arguments()) c.push_back(stmt(A));
      } else {
        if (!X->getDirectCallee()) o["fn"] = stmt(X->getCallee());
        for (auto *A : X->arguments()) c.push_back(stmt(A));
      }
    } else if (auto *X = dyn_cast<CastExpr>(S)) {
      o["ck"] = X->getCastKindName();
      o["impl"] = isa<ImplicitCastExpr>(X);
      if (auto *ICE = dyn_cast<ImplicitCastExpr>(X)) if (ICE->isPartOfExplicitCast()) o["impl"] = false;
      kids({X->getSubExpr()});
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      o["op"] = X->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = typeId(CA->getComputationResultType());
      kids({X->getLHS(), X->getRHS()});
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      kids({X->getSubExpr()});
    } else if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      (void)X;
    } else if (auto *X = dyn_cast<clang::StringLiteral>(S)) {
      if (X->getCharByteWidth() == 1) {
        std::string v = X->getString().str();
        o["s"] = llvm::json::fixUTF8(v);
      }
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) {
      kids({X->getBase(), X->getIdx()});
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      Array ds;
      for (auto *D : X->decls()) {
        if (auto *VD = dyn_cast<VarDecl>(D)) {
          Object v;
          v["d"] = declId(VD);
          v["init"] = stmt(VD->getInit());
          ds.push_back(std::move(v));
        }
      }
      o["decls"] = std::move(ds);
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["init"] = stmt(X->getInit()); o["cond"] = stmt(X->getCond());
      o["inc"] = stmt(X->getInc()); o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["cond"] = stmt(X->getCond()); o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["cond"] = stmt(X->getCond()); o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->isConstexpr()) o["constexpr"] = true;
      if (X->getConditionVariable()) o["condvar"] = stmt(X->getConditionVariableDeclStmt());
      o["cond"] = stmt(X->getCond());
      o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["cond"] = stmt(X->getCond()); o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["val"] = stmt(X->getLHS()); o["body"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["body"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["range"] = stmt(X->getRangeInit());
      o["d"] = declId(X->getLoopVariable());
      o["body"] = stmt(X->getBody());
      // register hidden statements so that CFG elements resolve
      Array h;
      h.push_back(stmt(X->getRangeStmt())); h.push_back(stmt(X->getBeginStmt()));
      h.push_back(stmt(X->getEndStmt())); h.push_back(stmt(X->getCond()));
      h.push_back(stmt(X->getInc())); h.push_back(stmt(X->getLoopVarStmt()));
      o["hidden"] = std::move(h);
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["body"] = stmt(X->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) hs.push_back(stmt(X->getHandler(i)));
      o["handlers"] = std::move(hs);
    } else if (auto *X = dyn_cast<CXXCatchStmt>(S)) {
      if (X->getExceptionDecl()) { o["d"] = declId(X->getExceptionDecl()); o["ct"] = typeId(X->getCaughtType()); }
      else o["all"] = true;
      o["body"] = stmt(X->getHandlerBlock());
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      Array caps;
      auto ci = X->capture_init_begin();
      for (auto &cap : X->captures()) {
        Object k;
        if (cap.capturesVariable()) { k["d"] = declId(cap.getCapturedVar()); k["ref"] = cap.getCaptureKind() == LCK_ByRef; }
        else if (cap.capturesThis()) { k["this"] = true; k["ref"] = cap.getCaptureKind() == LCK_This; }
        ++ci;
        caps.push_back(std::move(k));
      }
      o["caps"] = std::move(caps);
      o["d"] = declId(X->getCallOperator());
      Array ps;
      for (auto *P : X->getCallOperator()->parameters()) ps.push_back(declId(P));
      o["params"] = std::move(ps);
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      if (auto *CR = dyn_cast<OMPCriticalDirective>(X)) o["critname"] = CR->getDirectiveName().getAsString();
      Array cl;
      for (auto *Cl : X->clauses()) {
        if (!Cl || Cl->isImplicit()) { if (!Cl) continue; }
        Object k;
        k["kind"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
        k["implicit"] = Cl->isImplicit();
        Array vs;
        auto addv = [&](const Expr *E) {
          E = E->IgnoreParenImpCasts();
          if (auto *D = dyn_cast<DeclRefExpr>(E)) vs.push_back(declId(D->getDecl()));
          else if (auto *M = dyn_cast<MemberExpr>(E)) vs.push_back(declId(M->getMemberDecl()));
        };
        if (auto *P = dyn_cast<OMPPrivateClause>(Cl)) for (auto *E : P->varlists()) addv(E);
        if (auto *P = dyn_cast<OMPFirstprivateClause>(Cl)) for (auto *E : P->varlists()) addv(E);
        if (auto *P = dyn_cast<OMPLastprivateClause>(Cl)) for (auto *E : P->varlists()) addv(E);
        if (auto *P = dyn_cast<OMPSharedClause>(Cl)) for (auto *E : P->varlists()) addv(E);
        if (auto *P = dyn_cast<OMPReductionClause>(Cl)) {
          for (auto *E : P->varlists()) addv(E);
          k["op"] = P->getNameInfo().getAsString();
        }
        if (auto *P = dyn_cast<OMPScheduleClause>(Cl)) {
          k["sched"] = getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, P->getScheduleKind());
          if (P->getChunkSize()) k["chunk"] = stmt(P->getChunkSize());
        }
        if (auto *P = dyn_cast<OMPNumThreadsClause>(Cl)) k["expr"] = stmt(P->getNumThreads());
        if (auto *P = dyn_cast<OMPIfClause>(Cl)) k["expr"] = stmt(P->getCondition());
        k["vars"] = std::move(vs);
        cl.push_back(std::move(k));
      }
      o["clauses"] = std::move(cl);
      const Stmt *B = X->hasAssociatedStmt() ? X->getRawStmt() : nullptr;
      if (B) o["body"] = stmt(B);
    } else if (auto *X = dyn_cast<CapturedStmt>(S)) {
      return stmt(X->getCapturedStmt());
    } else if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) {
      return stmt(X->getLoopStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      o["label"] = X->getLabel()->getNameAsString();
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["label"] = X->getDecl()->getNameAsString();
      c.push_back(stmt(X->getSubStmt()));
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      (void)X;
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      o["array"] = X->isArray();
      for (const Stmt *K : X->children()) c.push_back(stmt(K));
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      o["array"] = X->isArrayForm();
      kids({X->getArgument()});
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *I : Sem->inits()) c.push_back(stmt(I));
    } else if (auto *X = dyn_cast<CXXThisExpr>(S)) {
      (void)X;
    } else {
      for (const Stmt *K : S->children()) c.push_back(stmt(K));
    }
    if (!c.empty()) o["c"] = std::move(c);
    return o;
  }

  Value cfgOf(const Decl *D, Stmt *Body) {
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.PruneTriviallyFalseEdges = false;
    BO.AddEHEdges = false;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(D, Body, &C, BO);
    if (!G) return nullptr;
    Array bs;
    for (const CFGBlock *B : *G) {
      Object b;
      b["id"] = (int64_t)B->getBlockID();
      Array es;
      for (const CFGElement &E : *B) {
        if (auto CS = E.getAs<CFGStmt>()) {
          auto it = stmtIds.find(CS->getStmt());
          if (it == stmtIds.end()) it = stmtIds.find(strip(CS->getStmt()));
          if (it != stmtIds.end()) es.push_back(it->second);
        } else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
          es.push_back(Object{{"dtor", declId(AD->getVarDecl())}});
        }
      }
      b["e"] = std::move(es);
      if (const Stmt *T = B->getTerminatorStmt()) {
        auto it = stmtIds.find(strip(T));
        b["t"] = it != stmtIds.end() ? it->second : -1;
        b["tk"] = T->getStmtClassName();
        if (const Stmt *TC = B->getTerminatorCondition()) {
          auto jt = stmtIds.find(strip(TC));
          if (jt != stmtIds.end()) b["tc"] = jt->second;
        }
      }
      if (const Stmt *L = B->getLabel()) {
        auto it = stmtIds.find(strip(L));
        if (it != stmtIds.end()) b["label"] = it->second;
      }
      if (B->hasNoReturnElement()) b["noret"] = true;
      Array ss;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
        const CFGBlock *T = I->getReachableBlock();
        if (!T) T = I->getPossiblyUnreachableBlock();
        ss.push_back(T ? (int64_t)T->getBlockID() : (int64_t)-1);
      }
      b["s"] = std::move(ss);
      bs.push_back(std::move(b));
    }
    return Object{{"entry", (int64_t)G->getEntry().getBlockID()}, {"exit", (int64_t)G->getExit().getBlockID()}, {"b", std::move(bs)}};
  }

  Array functions, globals, records, enums, throwsA;
  std::set<const Decl *> doneFn, doneVar, doneRec, doneEnum;

  void function(const FunctionDecl *FD) {
    if (FD->isDependentContext()) return;
    if (!FD->doesThisDeclarationHaveABody()) return;
    if (!inRepo(FD->getLocation())) return;
    if (!doneFn.insert(FD->getCanonicalDecl()).second) return;
    Object o;
    o["d"] = declId(FD);
    Array ps;
    for (auto *P : FD->parameters()) ps.push_back(declId(P));
    o["params"] = std::move(ps);
    o["ret"] = typeId(FD->getReturnType());
    o["end"] = locStr(FD->getEndLoc());
    if (FD->isImplicit() || FD->isDefaulted()) o["implicit"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      Array is;
      for (auto *I : CD->inits()) {
        Object k;
        if (I->isMemberInitializer()) k["field"] = declId(I->getMember());
        else if (I->isBaseInitializer()) k["base"] = typeId(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) k["deleg"] = true;
        k["written"] = I->isWritten();
        k["init"] = stmt(I->getInit());
        is.push_back(std::move(k));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(FD->getBody());
    o["cfg"] = cfgOf(FD, FD->getBody());
    functions.push_back(std::move(o));
  }
  void variable(const VarDecl *VD) {
    if (!VD->hasGlobalStorage()) return;
    if (VD->getDeclContext()->isDependentContext()) return;
    if (!inRepo(VD->getLocation())) return;
    const VarDecl *Def = VD->getDefinition() ? VD->getDefinition() : VD;
    if (!doneVar.insert(Def->getCanonicalDecl()).second) return;
    Object o;
    o["d"] = declId(VD);
    o["defined"] = Def->isThisDeclarationADefinition() == VarDecl::Definition || Def->getInit() != nullptr;
    o["l"] = locStr(Def->getLocation());
    if (Def->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    o["staticlocal"] = Def->isStaticLocal();
    if (Def->getInit() && !Def->getInit()->isValueDependent()) {
      o["init"] = stmt(Def->getInit());
      if (const APValue *V = Def->evaluateValue()) o["value"] = apv(*V, Def->getType());
    }
    globals.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isDependentContext() || !inRepo(RD->getLocation())) return;
    if (!doneRec.insert(RD).second) return;
    Object o;
    o["name"] = RD->getQualifiedNameAsString();
    o["t"] = typeId(C.getRecordType(RD));
    o["l"] = locStr(RD->getLocation());
    o["lambda"] = RD->isLambda();
    o["anon"] = RD->isAnonymousStructOrUnion();
    Array fs;
    for (auto *F : RD->fields()) {
      Object f{{"d", declId(F)}};
      if (F->isBitField()) f["bw"] = (int64_t)F->getBitWidthValue(C);
      if (F->hasInClassInitializer()) { f["hasinit"] = true; f["init"] = stmt(F->getInClassInitializer()); }
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : RD->methods()) {
      Object m{{"d", declId(M)}, {"deleted", M->isDeleted()}, {"implicit", M->isImplicit()}, {"defaulted", M->isDefaulted()}};
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { m["ctor"] = true; m["copy"] = CD->isCopyConstructor(); m["move"] = CD->isMoveConstructor(); }
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      if (M->isCopyAssignmentOperator()) m["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) m["moveassign"] = true;
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    Array bs;
    for (auto &B : RD->bases()) bs.push_back(typeId(B.getType()));
    o["bases"] = std::move(bs);
    records.push_back(std::move(o));
  }
  void enumd(const EnumDecl *ED) {
    ED = ED->getDefinition();
    if (!ED || ED->isDependentContext() || !inRepo(ED->getLocation())) return;
    if (!doneEnum.insert(ED).second) return;
    Array es;
    for (auto *E : ED->enumerators())
      es.push_back(Object{{"d", declId(E)}, {"name", E->getNameAsString()}, {"v", llvm::toString(E->getInitVal(), 10)}});
    enums.push_back(Object{{"name", ED->getQualifiedNameAsString()}, {"l", locStr(ED->getLocation())}, {"e", std::move(es)}});
  }

  Object declObj(const Decl *D) {
    Object o;
    o["k"] = D->getDeclKindName();
    o["l"] = locStr(D->getLocation());
    if (auto *ND = dyn_cast<NamedDecl>(D)) {
      o["n"] = ND->getNameAsString();
      o["q"] = ND->getQualifiedNameAsString();
    }
    if (auto *VD = dyn_cast<ValueDecl>(D)) o["t"] = typeId(VD->getType());
    o["repo"] = inRepo(D->getLocation());
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      o["key"] = FD->isDependentContext() ? FD->getQualifiedNameAsString() : fnKey(FD);
      o["ret"] = typeId(FD->getReturnType());
      Array pt; for (auto *P : FD->parameters()) pt.push_back(typeId(P->getType()));
      o["pt"] = std::move(pt);
      if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) o["noexcept"] = FPT->isNothrow();
      if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
        o["constm"] = M->isConst(); o["static"] = M->isStatic(); o["virtual"] = M->isVirtual();
        o["rec"] = M->getParent()->getQualifiedNameAsString();
        o["rect"] = typeId(C.getRecordType(M->getParent()));
        if (M->getParent()->isLambda()) o["lambda"] = true;
        Array ov; for (auto *O : M->overridden_methods()) ov.push_back(declId(O));
        if (!ov.empty()) o["over"] = std::move(ov);
      }
      if (auto *TA = FD->getTemplateSpecializationArgs()) {
        Array a;
        for (auto &A : TA->asArray()) if (A.getKind() == TemplateArgument::Type) a.push_back(typeId(A.getAsType()));
        o["targs"] = std::move(a);
      }
      o["externc"] = FD->isExternC();
      o["noret"] = FD->isNoReturn();
      o["internal"] = !FD->isExternallyVisible();
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      o["global"] = VD->hasGlobalStorage();
      o["staticlocal"] = VD->isStaticLocal();
      o["param"] = isa<ParmVarDecl>(VD);
      o["constexpr"] = VD->isConstexpr();
      if (VD->hasGlobalStorage()) o["key"] = varKey(VD);
      else if (VD->getType().isConstQualified() || VD->isConstexpr()) {
        if (!isa<ParmVarDecl>(VD) && VD->getInit() && !VD->getInit()->isValueDependent() && VD->getType()->isIntegralOrEnumerationType())
          if (VD->isUsableInConstantExpressions(C))
            if (const APValue *V = VD->evaluateValue()) if (V->isInt()) o["value"] = apv(*V, VD->getType());
      }
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      o["rec"] = cast<RecordDecl>(F->getDeclContext())->getQualifiedNameAsString();
      o["mutable"] = F->isMutable();
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      o["v"] = llvm::toString(E->getInitVal(), 10);
      o["enum"] = cast<EnumDecl>(E->getDeclContext())->getQualifiedNameAsString();
    }
    return o;
  }

  void finish() {
    Array ds;
    for (size_t i = 0; i < declOrder.size(); i++) ds.push_back(declObj(declOrder[i]));
    out["decls"] = std::move(ds);
    out["functions"] = std::move(functions);
    out["globals"] = std::move(globals);
    out["records"] = std::move(records);
    out["enums"] = std::move(enums);
    out["types"] = std::move(typesOut);
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  explicit V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitVarDecl(VarDecl *X) { D.variable(X); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
};

struct Consumer : ASTConsumer {
  std::string main;
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.finish();
    D.out["main"] = main;
    D.out["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << Value(std::move(D.out));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    auto c = std::make_unique<Consumer>();
    c->main = F.str();
    return c;
  }
};
} // namespace

// usage: facts ROOT/ OUT.json FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  Root = argv[1];
  OutPath = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
