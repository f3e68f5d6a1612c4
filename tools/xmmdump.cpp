// xmmdump: a libTooling front end. Parses one translation unit of /repo with the
// real build's flags and writes the type-resolved program (classes, enums, functions
// incl. template instantiations and compiler-generated special members) as JSON.
// It makes no judgement; the rules live in /verif/sa/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <map>
#include <fstream>
#include <iostream>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot;

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  Array funcs, classes, enums, globals;
  std::set<std::string> seenF, seenC, seenE;
  std::map<const Decl *, int> ids;
  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool inRoot(SourceLocation L, std::string *file = nullptr, int *line = nullptr, int *col = nullptr) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    std::string f = P.getFilename();
    llvm::SmallString<256> S(f);
    C.getSourceManager().getFileManager().makeAbsolutePath(S);
    llvm::sys::path::remove_dots(S, true);
    f = S.str().str();
    if (file) *file = f;
    if (line) *line = P.getLine();
    if (col) *col = P.getColumn();
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string qual(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    os.flush();
    return s;
  }
  std::string mangled(const FunctionDecl *F) {
    std::string n;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return "lambda" + std::to_string(id(F));
    if (F->isDependentContext()) return "dep:" + qual(F);
    n = NG.getName(F);
    return n;
  }
  std::string clsName(const CXXRecordDecl *R) {
    return ty(C.getRecordType(R));
  }
  Object loc(SourceLocation L) {
    std::string f; int l = 0, c = 0;
    inRoot(L, &f, &l, &c);
    Object o;
    o["f"] = f.compare(0, gRoot.size(), gRoot) == 0 ? f.substr(gRoot.size()) : f;
    o["l"] = l;
    return o;
  }
  int line(SourceLocation L) {
    int l = 0; inRoot(L, nullptr, &l); return l;
  }
  std::string shortName(const NamedDecl *D) {
    return D->getDeclName().getAsString();
  }
  Object callee(const FunctionDecl *F) {
    Object o;
    o["id"] = mangled(F);
    o["q"] = qual(F);
    o["n"] = shortName(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = clsName(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (auto *Ct = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (Ct->isCopyConstructor()) o["copy"] = true;
        if (Ct->isMoveConstructor()) o["move"] = true;
      }
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (F->isNoReturn()) o["noreturn"] = true;
    if (auto *FP = F->getType()->getAs<FunctionProtoType>())
      if (isNoexceptExceptionSpec(FP->getExceptionSpecType()) || FP->getExceptionSpecType() == EST_DynamicNone)
        if (FP->getExceptionSpecType() != EST_NoexceptFalse && FP->getExceptionSpecType() != EST_DependentNoexcept &&
            FP->getExceptionSpecType() != EST_Unevaluated && FP->getExceptionSpecType() != EST_Uninstantiated) o["nothrow"] = true;
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = ty(F->getReturnType());
    return o;
  }
  // ---------------------------------------------------------------- expressions
  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      return expr(X->getExpr());
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
      case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
      case CK_PointerToBoolean: case CK_BooleanToSignedIntegral: {
        Object o; o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["t"] = ty(X->getType());
        o["e"] = expr(X->getSubExpr()); o["imp"] = true; o["ft"] = ty(X->getSubExpr()->getType());
        return o;
      }
      case CK_UncheckedDerivedToBase: case CK_DerivedToBase: {
        Object o; o["k"] = "cast"; o["ck"] = "base"; o["t"] = ty(X->getType());
        o["e"] = expr(X->getSubExpr()); o["imp"] = true;
        return o;
      }
      case CK_ConstructorConversion: case CK_UserDefinedConversion:
      default:
        return expr(X->getSubExpr());
      }
    }
    Object o;
    o["l"] = line(E->getExprLoc());
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["t"] = ty(X->getType());
      o["ft"] = ty(X->getSubExpr()->getType());
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int"; llvm::SmallString<32> s; 
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = s.str().str(); return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float"; o["v"] = X->getValueAsApproximateDouble(); return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string(X->getValue()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str"; o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; o["t"] = ty(E->getType()); return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["c"] = callee(F); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = qual(EC); o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["t"] = ty(E->getType()); return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["t"] = ty(V->getType());
        if (V->isStaticDataMember() || V->hasGlobalStorage()) {
          o["k"] = "glob"; o["n"] = qual(V); 
          if (V->isStaticLocal()) o["id"] = id(V);
          return o;
        }
        o["k"] = "ref"; o["n"] = V->getNameAsString(); o["id"] = id(V); return o;
      }
      o["k"] = "ref"; o["n"] = shortName(D); o["id"] = id(D); o["t"] = ty(D->getType());
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        o["k"] = "mem"; o["b"] = expr(X->getBase()); o["n"] = F->getNameAsString();
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) o["cls"] = clsName(R);
        if (X->isArrow()) o["arrow"] = true;
        o["t"] = ty(F->getType());
        return o;
      }
      if (auto *M = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "memfn"; o["b"] = expr(X->getBase()); o["c"] = callee(M);
        if (X->isArrow()) o["arrow"] = true;
        return o;
      }
      o["k"] = "glob"; o["n"] = qual(cast<NamedDecl>(D)); o["t"] = ty(E->getType());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call"; o["t"] = ty(X->getType());
      if (auto *M = X->getMethodDecl()) {
        o["c"] = callee(M);
        o["o"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["qualified"] = true;
        }
      } else { // pointer to member call
        if (auto *BO = dyn_cast<BinaryOperator>(X->getCallee()->IgnoreParens())) {
          o["pm"] = expr(BO->getRHS()); o["o"] = expr(BO->getLHS());
        }
      }
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call"; o["t"] = ty(X->getType());
      o["op"] = getOperatorSpelling(X->getOperator());
      auto *F = X->getDirectCallee();
      Array a; unsigned st = 0;
      if (F) {
        o["c"] = callee(F);
        if (isa<CXXMethodDecl>(F)) { o["o"] = expr(X->getArg(0)); st = 1; }
      }
      for (unsigned i = st; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; o["t"] = ty(X->getType());
      if (auto *F = X->getDirectCallee()) o["c"] = callee(F);
      else o["fe"] = expr(X->getCallee());
      o["a"] = exprs(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      // elidable / trivial wrappers
      if (X->isElidable() && X->getNumArgs() == 1) return expr(X->getArg(0));
      o["k"] = "construct"; o["t"] = ty(X->getType()); o["c"] = callee(X->getConstructor());
      if (X->isListInitialization()) o["list"] = true;
      Array a; for (auto *e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["t"] = ty(X->getAllocatedType());
      if (X->isArray()) { o["arr"] = true; if (auto S = X->getArraySize()) o["n"] = expr(*S); }
      if (X->hasInitializer()) { o["init"] = expr(X->getInitializer()); }
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; if (X->isArrayForm()) o["arr"] = true;
      o["e"] = expr(X->getArgument()); o["t"] = ty(X->getArgument()->getType()); return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["t"] = ty(X->getSubExpr()->getType()); }
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["t"] = ty(X->getType());
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
      if (X->isComparisonOp() || X->isAssignmentOp() || X->isAdditiveOp()) o["xt"] = ty(X->getLHS()->getType());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["t"] = ty(X->getType());
      o["x"] = expr(X->getSubExpr());
      // pointer to member
      if (X->getOpcode() == UO_AddrOf)
        if (auto *DR = dyn_cast<DeclRefExpr>(X->getSubExpr()->IgnoreParens()))
          if (auto *M = dyn_cast<CXXMethodDecl>(DR->getDecl())) { o["k"] = "fn"; o["c"] = callee(M); }
      return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["x"] = expr(X->getTrueExpr()); o["y"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); o["t"] = ty(X->getType()); return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      auto *M = X->getCallOperator();
      Array ps; for (auto *P : M->parameters()) ps.push_back(param(P));
      o["params"] = std::move(ps);
      Array caps;
      for (auto &cap : X->captures()) {
        Object co;
        if (cap.capturesThis()) { co["this"] = true; }
        else if (cap.capturesVariable()) { co["id"] = id(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); }
        co["ref"] = cap.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["body"] = stmt(M->getBody());
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist"; o["t"] = ty(X->getType());
      Array a; for (auto *e : X->inits()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; o["t"] = ty(X->getType()); return o; }
    if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; o["t"] = ty(E->getType()); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      o["k"] = "sizeof"; o["t"] = ty(X->getTypeOfArgument());
      return o;
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["k"] = "arrcopy"; o["e"] = expr(X->getCommonExpr()->getSourceExpr()); return o;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { return X->getSourceExpr() ? expr(X->getSourceExpr()) : Value(nullptr); }
    if (isa<TypeTraitExpr>(E)) { o["k"] = "bool"; o["v"] = cast<TypeTraitExpr>(E)->getValue(); return o; }
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "typeid"; return o; }
    o["k"] = "unk"; o["what"] = E->getStmtClassName();
    Array a;
    for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
    o["a"] = std::move(a);
    return o;
  }
  Object param(const ParmVarDecl *P) {
    Object o; o["id"] = id(P); o["n"] = P->getNameAsString(); o["t"] = ty(P->getType());
    if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) o["def"] = expr(P->getDefaultArg());
    return o;
  }
  Value var(const VarDecl *V) {
    Object o; o["k"] = "var"; o["l"] = line(V->getLocation()); o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) { o["init"] = expr(V->getInit()); }
    return o;
  }
  // ---------------------------------------------------------------- statements
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object o; o["k"] = "expr"; o["l"] = line(S->getBeginLoc()); o["e"] = expr(E); return o; }
    Object o; o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block"; Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["s"] = std::move(a);
      o["el"] = line(X->getEndLoc());
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
      o["d"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["x"] = stmt(X->getThen()); o["y"] = stmt(X->getElse()); return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); 
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["v"] = var(X->getLoopVariable()); o["r"] = expr(X->getRangeInit()); o["b"] = stmt(X->getBody());
      o["rt"] = ty(X->getRangeInit()->getType()); return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "block"; o["s"] = Array(); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i); Object h; h["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["t"] = ty(H->getCaughtType()); h["id"] = id(H->getExceptionDecl()); }
        h["b"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h));
      }
      o["h"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      o["et"] = ty(X->getCond()->IgnoreImpCasts()->getType());
      return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["n"] = X->getName(); o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { o["k"] = "goto"; o["n"] = X->getLabel()->getName().str(); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    o["k"] = "unk"; o["what"] = S->getStmtClassName();
    return o;
  }
  // ---------------------------------------------------------------- declarations
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    bool pure = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) pure = M->isPureVirtual();
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      if (!pure) {
        return true;
      }
      D = F;
    }
    if (D != F && !pure) return true;
    SourceLocation L = F->getLocation();
    std::string f; int l = 0;
    if (!inRoot(L, &f, &l)) return true;
    std::string m = mangled(F);
    if (!seenF.insert(m).second) return true;
    Object o = callee(F);
    o["file"] = f.substr(gRoot.size()); o["line"] = l;
    o["endline"] = line(F->getEndLoc());
    Array ps; for (auto *P : F->parameters()) ps.push_back(param(P)); o["params"] = std::move(ps);
    if (pure) o["pure"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Array ov; for (auto *B : M->overridden_methods()) ov.push_back(mangled(B)); o["ov"] = std::move(ov);
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : Ct->inits()) {
        Object io;
        if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->isAnyMemberInitializer()) io["mem"] = I->getAnyMember()->getNameAsString();
        io["e"] = expr(I->getInit()); io["l"] = line(I->getSourceLocation());
        if (I->isWritten()) io["written"] = true;
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (!pure) o["body"] = stmt(F->getBody());
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string f; int l;
    SourceLocation RL = R->getLocation();
    if (auto *Pat = R->getTemplateInstantiationPattern()) RL = Pat->getLocation();
    if (!inRoot(RL, &f, &l)) return true;
    std::string n = clsName(R);
    if (!seenC.insert(n).second) return true;
    Object o; o["n"] = n; o["file"] = f.substr(gRoot.size()); o["line"] = l;
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["tmpl"] = qual(S->getSpecializedTemplate());
    o["short"] = R->getNameAsString();
    Array b; for (auto &x : R->bases()) b.push_back(ty(x.getType())); o["bases"] = std::move(b);
    Array fs;
    for (auto *F : R->fields()) {
      Object fo; fo["n"] = F->getNameAsString(); fo["t"] = ty(F->getType()); fo["l"] = line(F->getLocation());
      fo["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
      if (F->isMutable()) fo["mutable"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto *M : R->methods()) {
      Object mo = callee(M);
      mo["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isDeleted()) mo["deleted"] = true;
      if (M->isImplicit()) mo["implicit"] = true;
      if (M->isDefaulted()) mo["defaulted"] = true;
      if (M->isPureVirtual()) mo["pure"] = true;
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = true;
      Array ov; for (auto *B : M->overridden_methods()) ov.push_back(mangled(B)); mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (R->hasTrivialDestructor()) o["trivdtor"] = true;
    o["abstract"] = R->isAbstract();
    classes.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    std::string f; int l;
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    if (!inRoot(E->getLocation(), &f, &l)) return true;
    std::string n = ty(C.getEnumType(E));
    if (!seenE.insert(n).second) return true;
    Object o; o["n"] = n; o["file"] = f.substr(gRoot.size()); o["line"] = l;
    Array a; for (auto *c : E->enumerators()) { Object co; co["n"] = c->getNameAsString(); co["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(co)); }
    o["e"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage()) return true;
    std::string f; int l;
    if (!inRoot(V->getLocation(), &f, &l)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    Object o; o["n"] = qual(V); o["t"] = ty(V->getType()); o["const"] = V->getType().isConstQualified();
    o["file"] = f.substr(gRoot.size()); o["line"] = l; o["local"] = V->isStaticLocal();
    globals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string out;
public:
  Consumer(std::string o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["funcs"] = std::move(D.funcs); o["classes"] = std::move(D.classes); o["enums"] = std::move(D.enums); o["globals"] = std::move(D.globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(out, EC);
    os << Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::string out;
public:
  Action(std::string o) : out(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(out); }
};
class Factory : public tooling::FrontendActionFactory {
  std::string out;
public:
  Factory(std::string o) : out(o) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
};
// usage: xmmdump ROOT OUT FILE -- flags
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  gRoot = std::string(argv[1]); if (gRoot.back() != '/') gRoot += '/';
  std::string out = argv[2], file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  Factory F(out);
  return T.run(&F);
}
