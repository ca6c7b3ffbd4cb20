// polyx: dumps the resolved program (instantiated templates, overload-resolved
// calls, folded constants) of one translation unit as JSON lines, restricted to
// entities defined under the given root directories.  All rules live in Python.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using namespace clang::tooling;
namespace J = llvm::json;

static llvm::cl::OptionCategory Cat("polyx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OutFile("out", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const Decl *, int> LocalIds;
  std::vector<const Stmt*> WorkLambda;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NG(C) {
    PP.SuppressDefaultTemplateArgs = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return S;
  }
  // qualified name with template arguments of enclosing classes and itself
  std::string fullName(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true);
    return S;
  }
  std::string fkey(const FunctionDecl *F) {
    if (const FunctionDecl *D = F->getDefinition()) F = D;
    std::string M;
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      M = fullName(F) + "(";
      for (auto *P : F->parameters()) M += typeStr(P->getType()) + ",";
      M += ")";
    } else M = NG.getName(F);
    if (M.empty()) M = fullName(F);
    // anonymous namespaces / statics are per-file
    if (!F->isExternallyVisible()) M += "@" + fileOf(F->getLocation());
    return M;
  }
  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int N = LocalIds.size();
    LocalIds[D] = N;
    return N;
  }
  std::string macroOf(SourceLocation L) {
    std::string M;
    while (L.isMacroID()) {
      StringRef N = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
      M = N.str();
      if (SM.isMacroArgExpansion(L)) L = SM.getImmediateExpansionRange(L).getBegin();
      else L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return M;
  }
  J::Object base(const char *K, SourceLocation L) {
    J::Object O; O["k"] = K;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isValid()) O["l"] = (int64_t)P.getLine();
    if (L.isMacroID()) O["m"] = macroOf(L);
    return O;
  }
  static const char *passMode(QualType T) {
    T = T.getCanonicalType();
    if (T->isReferenceType()) {
      QualType P = T->getPointeeType();
      if (T->isRValueReferenceType()) return "r";
      return P.isConstQualified() ? "c" : "m";
    }
    if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? "cp" : "mp";
    return "v";
  }
  J::Value declRef(const ValueDecl *D, SourceLocation L) {
    J::Object O = base("ref", L);
    O["n"] = D->getNameAsString();
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "func"; O["f"] = fkey(F); O["n"] = qname(F);
    } else if (isa<EnumConstantDecl>(D)) {
      O["dk"] = "enum"; O["n"] = qname(D);
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl() && !V->isStaticLocal()) { O["dk"] = "local"; O["d"] = localId(V); }
      else if (isa<ParmVarDecl>(V)) { O["dk"] = "param"; O["d"] = localId(V); }
      else { O["dk"] = "global"; O["n"] = qname(V); O["gk"] = NG.getName(V); O["cst"] = V->getType().isConstQualified() || V->isConstexpr(); }
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["dk"] = "local"; O["d"] = localId(B);
    } else O["dk"] = "other";
    O["t"] = typeStr(D->getType());
    return O;
  }
  void addConst(J::Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType()) return;
    if (E->isLValue() && !isa<DeclRefExpr>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
      llvm::APSInt V = R.Val.getInt();
      if (V.isRepresentableByInt64()) O["v"] = (int64_t)V.getExtValue();
      else { llvm::SmallString<40> S; V.toString(S,10); O["v"] = S.str().str(); }
    }
  }
  void callInfo(J::Object &O, const FunctionDecl *F) {
    O["f"] = fkey(F); O["n"] = qname(F); 
    const FunctionDecl *D = F->getDefinition();
    O["in"] = (D && inRoots(D->getLocation())) || inRoots(F->getLocation());
    if (F->isNoReturn()) O["nr"] = true;
    J::Array P; for (auto *Q : F->parameters()) P.push_back(passMode(Q->getType()));
    O["pm"] = std::move(P);
    if (F->isVariadic()) O["va"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) O["cm"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["st"] = true;
      if (auto *R = M->getParent()) O["cls"] = fullName(R);
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array A;
      for (auto &X : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); A.push_back(S);} 
      O["ta"] = std::move(A);
    }
  }
  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    const Expr *E0 = E;
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_UserDefinedConversion || X->getCastKind() == CK_ConstructorConversion) { E = X->getSubExpr(); continue; }
        E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        if (X->isElidable() && X->getNumArgs() == 1) { E = X->getArg(0); continue; }
      }
      break;
    }
    J::Value R = expr1(E);
    if (auto *O = R.getAsObject()) {
      if (!O->get("t")) (*O)["t"] = typeStr(E->getType());
      if (!O->get("v")) addConst(*O, E0);
      // implicit numeric narrowing/sign conversions are occasionally of interest
      if (auto *IC = dyn_cast<ImplicitCastExpr>(E0)) {
        if (IC->getCastKind() == CK_IntegralCast || IC->getCastKind() == CK_FloatingToIntegral)
          (*O)["ct"] = typeStr(IC->getType());
        else if (IC->getCastKind() == CK_LValueToRValue) (*O)["rv"] = 1;
        if (auto *IC2 = dyn_cast<ImplicitCastExpr>(IC->getSubExpr()))
          if (IC2->getCastKind() == CK_LValueToRValue) (*O)["rv"] = 1;
      }
    }
    return R;
  }
  J::Array exprs(llvm::ArrayRef<const Expr *> A) { J::Array R; for (auto *E : A) R.push_back(expr(E)); return R; }
  J::Value expr1(const Expr *E) {
    SourceLocation L = E->getBeginLoc();
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declRef(X->getDecl(), L);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) return declRef(V, L);
      J::Object O = base("mem", X->getMemberLoc());
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["q"] = fullName(X->getMemberDecl());
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) { O["cls"] = fullName(FD->getParent()); if (FD->isMutable()) O["mut"] = true; }
      if (X->isArrow()) O["arrow"] = true;
      J::Array C; C.push_back(expr(X->getBase())); O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J::Object O = base("opcall", X->getOperatorLoc());
      O["o"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { callInfo(O, F); if (isa<CXXMethodDecl>(F)) O["meth"] = true; }
      J::Array C; for (auto *A : X->arguments()) C.push_back(expr(A)); O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J::Object O = base("mcall", X->getExprLoc());
      if (auto *F = X->getMethodDecl()) { callInfo(O, F); O["mn"] = F->getNameAsString(); }
      bool conv = X->getMethodDecl() && isa<CXXConversionDecl>(X->getMethodDecl());
      if (conv) O["conv"] = true;
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        if (ME->isArrow()) O["arrow"] = true;
        if (ME->hasQualifier()) O["qual"] = true;
      }
      J::Array C; C.push_back(expr(X->getImplicitObjectArgument()));
      for (auto *A : X->arguments()) C.push_back(expr(A));
      O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J::Object O = base("call", L);
      if (auto *F = X->getDirectCallee()) callInfo(O, F);
      else { J::Array C; C.push_back(expr(X->getCallee())); O["fn"] = std::move(C); }
      J::Array C; for (auto *A : X->arguments()) C.push_back(expr(A));
      O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J::Object O = base("ctor", L);
      callInfo(O, X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) O["copy"] = true;
      J::Array C; for (auto *A : X->arguments()) C.push_back(expr(A));
      O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J::Object O = base("new", L);
      O["at"] = typeStr(X->getAllocatedType());
      if (X->isArray()) O["arr"] = true;
      J::Array C;
      if (X->getArraySize() && *X->getArraySize()) O["sz"] = J::Array{expr(*X->getArraySize())};
      if (X->getInitializer()) C.push_back(expr(X->getInitializer()));
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) C.push_back(expr(X->getPlacementArg(i)));
      O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J::Object O = base("delete", L);
      if (X->isArrayForm()) O["arr"] = true;
      O["c"] = J::Array{expr(X->getArgument())};
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      J::Object O = base("asgn", X->getOperatorLoc());
      O["o"] = X->getOpcodeStr().str();
      O["c"] = J::Array{expr(X->getLHS()), expr(X->getRHS())};
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J::Object O = base(X->isAssignmentOp() ? "asgn" : "bin", X->getOperatorLoc());
      O["o"] = X->getOpcodeStr().str();
      O["c"] = J::Array{expr(X->getLHS()), expr(X->getRHS())};
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J::Object O = base("un", L);
      O["o"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["c"] = J::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      J::Object O = base("cond", L);
      O["c"] = J::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J::Object O = base("idx", L);
      O["c"] = J::Array{expr(X->getBase()), expr(X->getIdx())};
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { J::Object O = base("lit", L); O["lk"]="int"; if (X->getValue().getActiveBits() < 63) O["v"] = (int64_t)X->getValue().getZExtValue(); return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J::Object O = base("lit", L); O["lk"]="bool"; O["v"] = X->getValue() ? 1 : 0; return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { J::Object O = base("lit", L); O["lk"]="float"; O["fv"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { J::Object O = base("lit", L); O["lk"]="char"; return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { J::Object O = base("lit", L); O["lk"]="str"; if (X->getCharByteWidth()==1) { std::string S = X->getString().str(); O["s"] = J::isUTF8(S) ? S : J::fixUTF8(S);} return O; }
    if (isa<GNUNullExpr>(E) || isa<CXXNullPtrLiteralExpr>(E)) { J::Object O = base("lit", L); O["lk"]="null"; O["v"] = 0; return O; }
    if (isa<CXXThisExpr>(E)) return base("this", L);
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { J::Object O = base("lit", L); O["lk"]="zero"; return O; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { J::Object O = base("lit", L); O["lk"]="zero"; return O; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      J::Object O = base("cast", L);
      O["ck"] = X->getCastKindName();
      O["ct0"] = typeStr(X->getSubExpr()->getType());
      if (isa<CXXConstCastExpr>(E)) O["cs"] = "const_cast";
      else if (isa<CXXReinterpretCastExpr>(E)) O["cs"] = "reinterpret_cast";
      else if (isa<CXXStaticCastExpr>(E)) O["cs"] = "static_cast";
      else if (isa<CStyleCastExpr>(E)) O["cs"] = "c";
      else O["cs"] = "func";
      O["c"] = J::Array{expr(X->getSubExpr())};
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J::Object O = base("sizeof", L);
      if (X->getKind() != UETT_SizeOf) O["k"] = "typetrait";
      O["at"] = typeStr(X->getTypeOfArgument());
      if (!X->isArgumentType()) O["c"] = J::Array{expr(X->getArgumentExpr())};
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      J::Object O = base("init", L);
      J::Array C; for (auto *I : X->inits()) C.push_back(expr(I)); O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J::Object O = base("lambda", L);
      J::Array C; C.push_back(stmt(X->getBody())); O["c"] = std::move(C);
      J::Array P; for (auto *Q : X->getCallOperator()->parameters()) P.push_back(param(Q)); O["params"] = std::move(P);
      O["f"] = fkey(X->getCallOperator());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J::Object O = base("throw", L);
      J::Array C; if (X->getSubExpr()) C.push_back(expr(X->getSubExpr())); O["c"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { J::Object O = base("lit", L); O["lk"]="str"; O["s"]="__func__"; return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { J::Object O = base("stmtexpr", L); O["c"] = J::Array{stmt(X->getSubStmt())}; return O; }
    // Fallback
    J::Object O = base("x", L);
    O["xk"] = E->getStmtClassName();
    J::Array C;
    for (const Stmt *S : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(S)) C.push_back(expr(CE));
    O["c"] = std::move(C);
    return O;
  }
  J::Value param(const ParmVarDecl *P) {
    J::Object O; O["d"] = localId(P); O["n"] = P->getNameAsString(); O["t"] = typeStr(P->getType()); O["pm"] = passMode(P->getType());
    return O;
  }
  J::Value var(const VarDecl *V) {
    J::Object O = base("var", V->getLocation());
    O["n"] = V->getNameAsString(); O["t"] = typeStr(V->getType());
    if (V->isStaticLocal()) { O["static"] = true; O["gk"] = NG.getName(V); O["cst"] = V->getType().isConstQualified(); }
    else O["d"] = localId(V);
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *CA = dyn_cast<ConstantArrayType>(V->getType().getCanonicalType().getTypePtr())) O["asz"] = (int64_t)CA->getSize().getZExtValue();
    return O;
  }
  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    SourceLocation L = S->getBeginLoc();
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J::Object O = base("block", L); J::Array C; for (auto *T : X->body()) C.push_back(stmt(T)); O["c"] = std::move(C); return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      J::Object O = base("decl", L); J::Array C;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) C.push_back(var(V));
      O["c"] = std::move(C); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      J::Object O = base("if", L);
      if (X->getInit()) O["ini"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = J::Array{expr(X->getCond()), stmt(X->getThen()), stmt(X->getElse())}; return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      J::Object O = base("for", L);
      O["c"] = J::Array{stmt(X->getInit()), expr(X->getCond()), expr(X->getInc()), stmt(X->getBody())}; return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J::Object O = base("forrange", L);
      O["c"] = J::Array{var(X->getLoopVariable()), expr(X->getRangeInit()), stmt(X->getBody())}; return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { J::Object O = base("while", L); O["c"] = J::Array{expr(X->getCond()), stmt(X->getBody())}; return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { J::Object O = base("do", L); O["c"] = J::Array{stmt(X->getBody()), expr(X->getCond())}; return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { J::Object O = base("switch", L); O["c"] = J::Array{expr(X->getCond()), stmt(X->getBody())};
      if (X->isAllEnumCasesCovered()) O["allenum"] = true; return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { J::Object O = base("case", L); O["c"] = J::Array{expr(X->getLHS()), stmt(X->getSubStmt())}; return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { J::Object O = base("default", L); O["c"] = J::Array{stmt(X->getSubStmt())}; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { J::Object O = base("return", L); J::Array C; if (X->getRetValue()) C.push_back(expr(X->getRetValue())); O["c"] = std::move(C); return O; }
    if (isa<BreakStmt>(S)) return base("break", L);
    if (isa<ContinueStmt>(S)) return base("continue", L);
    if (isa<NullStmt>(S)) return base("null", L);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { J::Object O = base("try", L); J::Array C; C.push_back(stmt(X->getTryBlock()));
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) C.push_back(stmt(X->getHandler(i)->getHandlerBlock())); O["c"] = std::move(C); return O; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { J::Object O = base("label", L); O["n"] = X->getName(); O["c"] = J::Array{stmt(X->getSubStmt())}; return O; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { J::Object O = base("goto", L); O["n"] = X->getLabel()->getName().str(); return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    J::Object O = base("xs", L); O["xk"] = S->getStmtClassName();
    J::Array C; for (const Stmt *T : S->children()) if (T) C.push_back(stmt(T)); O["c"] = std::move(C);
    return O;
  }
  J::Value function(const FunctionDecl *F) {
    LocalIds.clear();
    J::Object O; O["rec"] = "func";
    O["f"] = fkey(F); O["n"] = qname(F); O["fn"] = fullName(F);
    O["file"] = fileOf(F->getLocation());
    O["line"] = (int64_t)SM.getExpansionLineNumber(F->getLocation());
    O["rt"] = typeStr(F->getReturnType());
    J::Array P; for (auto *Q : F->parameters()) P.push_back(param(Q)); O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = fullName(M->getParent()); O["clsq"] = qname(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      J::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(fkey(B)); O["over"] = std::move(Ov);
      if (isa<CXXConstructorDecl>(M)) O["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (M->isDefaulted() || M->isImplicit()) O["dflt"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array A;
      for (auto &X : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); A.push_back(S);} 
      O["ta"] = std::move(A);
    }
    if (F->isExternC()) O["externc"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array I;
      for (auto *In : C->inits()) {
        J::Object X;
        if (In->isMemberInitializer()) X["n"] = In->getMember()->getNameAsString();
        else if (In->isBaseInitializer()) X["base"] = typeStr(QualType(In->getBaseClass(),0));
        else if (In->isDelegatingInitializer()) X["deleg"] = true;
        X["written"] = In->isWritten();
        X["e"] = expr(In->getInit());
        I.push_back(std::move(X));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(F->getBody());
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  Dumper D; llvm::raw_ostream &OS; std::set<std::string> Seen;
public:
  Visitor(ASTContext &C, llvm::raw_ostream &O) : D(C), OS(O) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void emit(J::Value V) { OS << V << "\n"; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isImplicit()) return true;
    if (!D.inRoots(F->getLocation())) return true;
    std::string K = "F" + D.fkey(F);
    if (!Seen.insert(K).second) return true;
    emit(D.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoots(R->getLocation())) return true;
    J::Object O; O["rec"] = "record"; O["n"] = D.fullName(R); O["q"] = D.qname(R);
    if (!Seen.insert("R" + D.fullName(R)).second) return true;
    O["file"] = D.fileOf(R->getLocation()); O["line"] = (int64_t)D.SM.getExpansionLineNumber(R->getLocation());
    J::Array A;
    for (auto *F : R->fields()) { J::Object X; X["n"] = F->getNameAsString(); X["t"] = D.typeStr(F->getType()); X["mut"] = F->isMutable();
      X["line"] = (int64_t)D.SM.getExpansionLineNumber(F->getLocation());
      X["access"] = F->getAccess()==AS_public||F->getAccess()==AS_none?"public":F->getAccess()==AS_protected?"protected":"private"; A.push_back(std::move(X)); }
    O["fields"] = std::move(A);
    J::Array B; for (auto &X : R->bases()) B.push_back(D.typeStr(X.getType())); O["bases"] = std::move(B);
    J::Array M; for (auto *X : R->methods()) { if (X->isImplicit()) continue; J::Object Y; Y["n"] = X->getNameAsString(); Y["f"] = D.fkey(X); Y["virt"] = X->isVirtual(); Y["pure"] = X->isPureVirtual(); Y["const"] = X->isConst();
      Y["access"] = X->getAccess()==AS_public?"public":X->getAccess()==AS_protected?"protected":"private"; M.push_back(std::move(Y)); }
    O["methods"] = std::move(M);
    O["union"] = R->isUnion();
    emit(std::move(O));
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (isa<CXXRecordDecl>(R)) return true;
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !D.inRoots(E->getLocation())) return true;
    if (!Seen.insert("E" + D.fullName(E)).second) return true;
    J::Object O; O["rec"] = "enum"; O["n"] = D.fullName(E);
    J::Array A; for (auto *C : E->enumerators()) A.push_back(C->getNameAsString()); O["vals"] = std::move(A);
    emit(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) return true;
    if (!V->hasGlobalStorage()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->getType()->isDependentType()) return true;
    if (!D.inRoots(V->getLocation())) return true;
    if (!V->isThisDeclarationADefinition() && !V->isStaticDataMember()) return true;
    std::string N = D.fullName(V);
    if (V->isStaticLocal()) if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) N = D.fullName(F) + "::" + N;
    if (!Seen.insert("V" + N + D.fileOf(V->getLocation())).second) return true;
    D.LocalIds.clear();
    J::Object O; O["rec"] = "global"; O["n"] = N; O["t"] = D.typeStr(V->getType());
    O["cst"] = V->getType().isConstQualified() || V->isConstexpr();
    O["static_local"] = V->isStaticLocal();
    O["gk"] = D.NG.getName(V);
    O["file"] = D.fileOf(V->getLocation()); O["line"] = (int64_t)D.SM.getExpansionLineNumber(V->getLocation());
    if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = D.expr(V->getInit());
    emit(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) OS << "{\"rec\":\"error\"}\n";
    Visitor V(C, OS);
    V.TraverseDecl(C.getTranslationUnitDecl());
    J::Array Deps;
    auto &SM = C.getSourceManager();
    for (auto I = SM.fileinfo_begin(), E = SM.fileinfo_end(); I != E; ++I) Deps.push_back(I->first.getName().str());
    J::Object End; End["rec"] = "end"; End["deps"] = std::move(Deps);
    OS << J::Value(std::move(End)) << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  auto EP = CommonOptionsParser::create(argc, argv, Cat);
  if (!EP) { llvm::errs() << EP.takeError(); return 2; }
  ClangTool T(EP->getCompilations(), EP->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
