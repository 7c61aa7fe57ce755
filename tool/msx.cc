// msx: fact extractor.  Parses one translation unit with clang and writes, as JSON, every function
// body whose source lies under one of the given root directories: its expression tree (callees,
// members and types resolved; implicit code and template instantiations included), its control-flow
// graph (with implicit destructors and member initialisers), and the records, enums and variables.
// It takes no decision itself; the rules in /verif/msa read what it writes.
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
  }

  void Run() {
    Walk(C.getTranslationUnitDecl());
    while (!Pending.empty()) {
      auto P = Pending;
      Pending.clear();
      for (auto* F : P)
        Function(F);
    }
    std::error_code EC;
    llvm::raw_fd_ostream OS(gOut, EC);
    json::Object Top;
    Top["functions"] = std::move(Functions);
    Top["records"] = std::move(Records);
    Top["enums"] = std::move(Enums);
    Top["vars"] = std::move(Vars);
    Top["patterns"] = std::move(Patterns);
    json::Array Ty;
    for (auto& T : TypeNames)
      Ty.push_back(T);
    Top["types"] = std::move(Ty);
    json::Object De;
    for (auto& D : DeclInfo)
      De[std::to_string(D.first)] = std::move(D.second);
    Top["decls"] = std::move(De);
    OS << json::Value(std::move(Top));
  }

 private:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  json::Array Functions, Records, Enums, Vars, Patterns;
  std::vector<std::string> TypeNames;
  std::map<std::string, int> TypeIds;
  std::unordered_map<const Decl*, int> DeclIds;
  std::map<int, json::Object> DeclInfo;
  std::set<const Decl*> Seen;
  std::vector<const FunctionDecl*> Pending;

  // per function
  std::unordered_map<const Stmt*, int> NodeIds;
  json::Array* Nodes = nullptr;

  std::string FileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid())
      return "";
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  int LineOf(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
  int ColOf(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionColumnNumber(L) : 0; }
  bool InRepo(SourceLocation L) {
    auto F = FileOf(L);
    for (auto& R : gRoots)
      if (F.compare(0, R.size(), R) == 0)
        return true;
    return false;
  }

  int Type(QualType T) {
    if (T.isNull())
      return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    if (S.size() > 1500)
      S.resize(1500);
    auto I = TypeIds.find(S);
    if (I != TypeIds.end())
      return I->second;
    int N = (int)TypeNames.size();
    TypeIds[S] = N;
    TypeNames.push_back(S);
    return N;
  }

  static const Decl* Canon(const Decl* D) { return D->getCanonicalDecl(); }

  std::string QName(const NamedDecl* D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }

  int DeclId(const ValueDecl* D0) {
    const Decl* D = Canon(D0);
    auto I = DeclIds.find(D);
    if (I != DeclIds.end())
      return I->second;
    int N = (int)DeclIds.size();
    DeclIds[D] = N;
    json::Object O;
    const ValueDecl* V = cast<ValueDecl>(D);
    O["n"] = V->getNameAsString();
    O["q"] = QName(V);
    O["t"] = Type(V->getType());
    O["l"] = LineOf(V->getLocation());
    if (auto* F = dyn_cast<FunctionDecl>(V)) {
      O["k"] = "func";
      O["repo"] = InRepo(F->getLocation());
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
        O["cls"] = QName(M->getParent());
        if (M->isVirtual())
          O["virt"] = true;
        if (M->isConst())
          O["const"] = true;
        if (M->isStatic())
          O["static"] = true;
        if (M->getParent()->isLambda())
          O["lambda"] = true;
        O["rec"] = Type(C.getTypeDeclType(M->getParent()));
      }
      if (isa<CXXConstructorDecl>(F)) O["ctor"] = true;
      if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
      if (isa<CXXConversionDecl>(F)) O["conv"] = true;
      if (F->isDefaulted()) O["defaulted"] = true;
      if (F->isNoReturn()) O["noreturn"] = true;
      if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) &&
            FPT->getExceptionSpecType() != EST_DependentNoexcept && FPT->isNothrow())
          O["nothrow"] = true;
      if (F->getOverloadedOperator() != OO_None)
        O["op"] = getOperatorSpelling(F->getOverloadedOperator());
      O["ret"] = Type(F->getReturnType());
      json::Array P;
      for (auto* X : F->parameters())
        P.push_back(Type(X->getType()));
      O["params"] = std::move(P);
      if (!(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) {
        std::string M = NG.getName(F);
        if (!M.empty())
          O["m"] = M;
      }
      if (const TemplateArgumentList* A = F->getTemplateSpecializationArgs()) {
        json::Array TA;
        for (auto& X : A->asArray()) {
          std::string S;
          llvm::raw_string_ostream OS(S);
          X.print(PP, OS, true);
          TA.push_back(OS.str());
        }
        O["targs"] = std::move(TA);
      }
    } else if (auto* E = dyn_cast<EnumConstantDecl>(V)) {
      O["k"] = "enum";
      O["v"] = (int64_t)E->getInitVal().getExtValue();
    } else if (auto* P = dyn_cast<ParmVarDecl>(V)) {
      O["k"] = "parm";
      (void)P;
    } else if (auto* X = dyn_cast<VarDecl>(V)) {
      O["k"] = "var";
      if (X->isStaticLocal()) O["slocal"] = true;
      if (X->hasGlobalStorage() && !X->isStaticLocal()) O["global"] = true;
      if (X->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
      if (X->isConstexpr()) O["cexpr"] = true;
      if (X->hasGlobalStorage()) O["repo"] = InRepo(X->getLocation());
    } else if (isa<FieldDecl>(V)) {
      O["k"] = "field";
      auto* F = cast<FieldDecl>(V);
      O["cls"] = QName(F->getParent());
      O["idx"] = (int)F->getFieldIndex();
    } else {
      O["k"] = V->getDeclKindName();
    }
    DeclInfo[N] = std::move(O);
    if (auto* F = dyn_cast<FunctionDecl>(V)) {
      const FunctionDecl* Def = nullptr;
      if (F->isDefined(Def) && Def && !Seen.count(Def) && InRepo(Def->getLocation()) &&
          !Def->isDependentContext())
        Pending.push_back(Def);
    }
    return N;
  }

  const Stmt* Strip(const Stmt* S) {
    while (S) {
      if (auto* P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto* F = dyn_cast<FullExpr>(S)) S = F->getSubExpr();
      else if (auto* M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr();
      else if (auto* B = dyn_cast<CXXBindTemporaryExpr>(S)) S = B->getSubExpr();
      else if (auto* N = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = N->getReplacement();
      else if (auto* D = dyn_cast<CXXDefaultArgExpr>(S)) S = D->getExpr();
      else if (auto* D = dyn_cast<CXXDefaultInitExpr>(S)) S = D->getExpr();
      else if (auto* O = dyn_cast<OpaqueValueExpr>(S)) { if (!O->getSourceExpr()) break; S = O->getSourceExpr(); }
      else if (auto* I = dyn_cast<ImplicitCastExpr>(S)) {
        if (I->getCastKind() == CK_LValueToRValue || I->getCastKind() == CK_IntegralCast ||
            I->getCastKind() == CK_UserDefinedConversion || I->getCastKind() == CK_PointerToBoolean ||
            I->getCastKind() == CK_IntegralToBoolean || I->getCastKind() == CK_FloatingCast ||
            I->getCastKind() == CK_IntegralToFloating || I->getCastKind() == CK_FloatingToIntegral ||
            I->getCastKind() == CK_FloatingToBoolean)
          break;
        if (I->getCastKind() == CK_BitCast && I->getType()->isVoidPointerType() &&
            !I->getSubExpr()->getType()->isVoidPointerType())
          break;
        S = I->getSubExpr();
      } else break;
    }
    return S;
  }

  void VarAttrs(const VarDecl* V, json::Object& O) {
    O["v"] = DeclId(V);
    O["t"] = Type(V->getType());
  }

  int Node(const Stmt* S0) {
    const Stmt* S = Strip(S0);
    if (!S)
      return -1;
    auto I = NodeIds.find(S);
    if (I != NodeIds.end()) {
      NodeIds[S0] = I->second;
      return I->second;
    }
    int Id = (int)Nodes->size();
    NodeIds[S] = Id;
    NodeIds[S0] = Id;
    Nodes->push_back(nullptr);
    json::Object O;
    json::Array Kids;
    O["l"] = LineOf(S->getBeginLoc());
    auto kid = [&](const Stmt* X) { Kids.push_back(X ? Node(X) : -1); };
    if (auto* E = dyn_cast<Expr>(S)) {
      O["t"] = Type(E->getType());
      if (E->isGLValue())
        O["lv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() &&
          (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
          auto V = R.Val.getInt();
          if (V.getSignificantBits() <= 64)
            O["cv"] = V.isUnsigned() && V.getActiveBits() > 63
                          ? json::Value(std::to_string(V.getZExtValue()))
                          : json::Value((int64_t)V.getExtValue());
        }
      }
    }
    if (auto* R = dyn_cast<DeclRefExpr>(S)) {
      O["k"] = "ref";
      O["d"] = DeclId(R->getDecl());
    } else if (auto* M = dyn_cast<MemberExpr>(S)) {
      O["k"] = "mem";
      O["d"] = DeclId(M->getMemberDecl());
      O["arrow"] = M->isArrow();
      kid(M->getBase());
    } else if (isa<CXXThisExpr>(S)) {
      O["k"] = "this";
    } else if (auto* L = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "lambda";
      const CXXMethodDecl* Op = L->getCallOperator();
      if (L->isGenericLambda()) {
        O["generic"] = true;
        json::Array Insts;
        if (auto* FT = Op->getDescribedFunctionTemplate())
          for (auto* Sp : FT->specializations()) {
            if (Sp->hasBody()) {
              Insts.push_back(DeclId(Sp));
            }
          }
        O["insts"] = std::move(Insts);
      } else {
        O["f"] = DeclId(Op);
        if (!Seen.count(Op))
          Pending.push_back(Op);
      }
      json::Array Caps;
      auto Init = L->capture_init_begin();
      for (auto& Cap : L->captures()) {
        json::Object Co;
        if (Cap.capturesThis()) Co["this"] = true;
        else if (Cap.capturesVariable()) {
          Co["v"] = DeclId(Cap.getCapturedVar());
          if (auto* VD = dyn_cast<VarDecl>(Cap.getCapturedVar()))
            if (VD->isInitCapture()) Co["init"] = true;
        }
        Co["ref"] = Cap.getCaptureKind() == LCK_ByRef;
        Co["e"] = (*Init) ? Node(*Init) : -1;
        ++Init;
        Caps.push_back(std::move(Co));
      }
      O["caps"] = std::move(Caps);
    } else if (auto* X = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "construct";
      O["d"] = DeclId(X->getConstructor());
      if (X->isElidable()) O["elide"] = true;
      if (X->requiresZeroInitialization()) O["zeroing"] = true;
      if (isa<CXXTemporaryObjectExpr>(S)) O["temp"] = true;
      for (auto* A : X->arguments())
        kid(A);
    } else if (auto* X = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      const FunctionDecl* F = X->getDirectCallee();
      if (F)
        O["d"] = DeclId(F);
      if (isa<CXXOperatorCallExpr>(X)) {
        O["opc"] = true;
        // children: args (object first for members)
        for (auto* A : X->arguments())
          kid(A);
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
          O["obj"] = true;
      } else if (auto* MC = dyn_cast<CXXMemberCallExpr>(X)) {
        const Expr* Obj = MC->getImplicitObjectArgument();
        if (F || Obj) {
          O["obj"] = true;
          kid(Obj);
        }
        if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (ME->hasQualifier()) O["qual"] = true;
        }
        for (auto* A : X->arguments())
          kid(A);
        if (!F)
          O["fn"] = Node(X->getCallee());
      } else {
        for (auto* A : X->arguments())
          kid(A);
        if (!F)
          O["fn"] = Node(X->getCallee());
      }
    } else if (auto* X = dyn_cast<IntegerLiteral>(S)) {
      O["k"] = "int";
      (void)X;
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["k"] = "bool";
      O["cv"] = (int64_t)X->getValue();
    } else if (auto* X = dyn_cast<FloatingLiteral>(S)) {
      O["k"] = "FloatingLiteral";
      llvm::SmallString<32> Bits;
      X->getValue().bitcastToAPInt().toStringUnsigned(Bits, 16);
      if (C.getTypeSize(X->getType()) <= 64) O["bits"] = Bits.str().str();
    } else if (isa<CharacterLiteral>(S)) {
      O["k"] = "int";
    } else if (auto* X = dyn_cast<clang::StringLiteral>(S)) {
      O["k"] = "str";
      std::string Str = X->getCharByteWidth() == 1 ? X->getString().str() : "";
      if (!json::isUTF8(Str)) Str = json::fixUTF8(Str);
      O["s"] = Str;
      O["len"] = (int64_t)X->getLength();
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      O["k"] = "null";
    } else if (auto* X = dyn_cast<BinaryOperator>(S)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      kid(X->getLHS());
      kid(X->getRHS());
    } else if (auto* X = dyn_cast<clang::UnaryOperator>(S)) {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      kid(X->getSubExpr());
    } else if (auto* X = dyn_cast<AbstractConditionalOperator>(S)) {
      O["k"] = "cond";
      kid(X->getCond());
      kid(X->getTrueExpr());
      kid(X->getFalseExpr());
    } else if (auto* X = dyn_cast<CastExpr>(S)) {
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(X)) O["explicit"] = true;
      kid(X->getSubExpr());
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "index";
      kid(X->getBase());
      kid(X->getIdx());
    } else if (auto* X = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "new";
      O["at"] = Type(X->getAllocatedType());
      if (X->isArray()) O["array"] = true;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) kid(X->getPlacementArg(i));
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) kid(*X->getArraySize());
      if (X->getInitializer()) kid(X->getInitializer());
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(S)) {
      O["k"] = "delete";
      if (X->isArrayForm()) O["array"] = true;
      kid(X->getArgument());
    } else if (auto* X = dyn_cast<InitListExpr>(S)) {
      O["k"] = "init";
      const InitListExpr* Sem = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!Sem) Sem = X;
      for (auto* A : Sem->inits()) kid(A);
    } else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(S)) {
      O["k"] = "stdinit";
      kid(X->getSubExpr());
    } else if (auto* X = dyn_cast<CXXThrowExpr>(S)) {
      O["k"] = "throw";
      if (X->getSubExpr()) kid(X->getSubExpr());
    } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return";
      if (X->getRetValue()) kid(X->getRetValue());
    } else if (auto* X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array Ds;
      for (auto* D : X->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D)) {
          json::Object Vo;
          VarAttrs(V, Vo);
          if (V->hasInit()) {
            int N = Node(V->getInit());
            Vo["i"] = N;
            Kids.push_back(N);
          }
          Ds.push_back(std::move(Vo));
          if (auto* DD = dyn_cast<DecompositionDecl>(V)) { (void)DD; }
        } else if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
          WalkDecl(R);
        }
      }
      O["ds"] = std::move(Ds);
    } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["k"] = "sizeof";
      if (X->isArgumentType()) O["at"] = Type(X->getArgumentType());
      else kid(X->getArgumentExpr());
    } else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      kid(X->getTryBlock());
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) kid(X->getHandler(i));
    } else if (auto* X = dyn_cast<CXXCatchStmt>(S)) {
      O["k"] = "catch";
      if (X->getExceptionDecl()) {
        O["v"] = DeclId(X->getExceptionDecl());
        O["ct"] = Type(X->getCaughtType());
      }
      kid(X->getHandlerBlock());
    } else if (auto* X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      kid(X->getLHS());
      kid(X->getSubStmt());
    } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      kid(X->getSubStmt());
    } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "CXXForRangeStmt";
      kid(X->getRangeStmt());
      kid(X->getBeginStmt());
      kid(X->getEndStmt());
      kid(X->getCond());
      kid(X->getInc());
      kid(X->getLoopVarStmt());
      kid(X->getBody());
    } else {
      O["k"] = S->getStmtClassName();
      for (auto* K : S->children())
        kid(K);
    }
    if (!Kids.empty())
      O["c"] = std::move(Kids);
    (*Nodes)[Id] = std::move(O);
    return Id;
  }

  void Function(const FunctionDecl* F) {
    if (!Seen.insert(F).second)
      return;
    if (!F->doesThisDeclarationHaveABody() || !F->getBody())
      return;
    if (F->isDependentContext() || !InRepo(F->getLocation()))
      return;
    json::Array MyNodes;
    auto* SaveNodes = Nodes;
    auto SaveIds = NodeIds;
    NodeIds.clear();
    Nodes = &MyNodes;

    json::Object O;
    O["d"] = DeclId(F);
    O["q"] = QName(F);
    O["n"] = F->getNameAsString();
    O["file"] = FileOf(F->getLocation());
    O["l"] = LineOf(F->getLocation());
    O["col"] = ColOf(F->getLocation());
    O["el"] = LineOf(F->getBody()->getEndLoc());
    O["ret"] = Type(F->getReturnType());
    O["access"] = (int)F->getAccess();
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    json::Array Ps;
    for (auto* P : F->parameters())
      Ps.push_back(DeclId(P));
    O["params"] = std::move(Ps);
    if (auto* Ct = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array Ini;
      for (auto* I : Ct->inits()) {
        json::Object Io;
        if (I->isAnyMemberInitializer()) Io["f"] = DeclId(I->getAnyMember());
        else if (I->isBaseInitializer()) Io["base"] = Type(QualType(I->getBaseClass(), 0));
        else Io["deleg"] = true;
        Io["written"] = I->isWritten();
        Io["e"] = Node(I->getInit());
        Ini.push_back(std::move(Io));
      }
      O["inits"] = std::move(Ini);
      if (Ct->isCopyConstructor()) O["copyctor"] = true;
      if (Ct->isMoveConstructor()) O["movector"] = true;
      if (Ct->isDefaultConstructor()) O["defctor"] = true;
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
    }
    O["body"] = Node(F->getBody());

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = false;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (G) {
      json::Array Blocks;
      for (const CFGBlock* B : *G) {
        json::Object Bo;
        Bo["id"] = (int)B->getBlockID();
        json::Array El;
        for (auto& E : *B) {
          switch (E.getKind()) {
            case CFGElement::Statement: {
              const Stmt* S = E.castAs<CFGStmt>().getStmt();
              if (Strip(S) != S && NodeIds.count(S)) {
                // transparent wrapper: the inner node is an element itself
                continue;
              }
              int N = Node(S);
              El.push_back(N);
              break;
            }
            case CFGElement::Initializer: {
              auto* I = E.castAs<CFGInitializer>().getInitializer();
              json::Object X;
              X["e"] = "init";
              if (I->isAnyMemberInitializer()) X["f"] = DeclId(I->getAnyMember());
              X["x"] = Node(I->getInit());
              El.push_back(std::move(X));
              break;
            }
            case CFGElement::AutomaticObjectDtor: {
              auto D = E.castAs<CFGAutomaticObjDtor>();
              json::Object X;
              X["e"] = "dtor";
              X["v"] = DeclId(D.getVarDecl());
              if (auto* DD = D.getDestructorDecl(C)) X["d"] = DeclId(DD);
              El.push_back(std::move(X));
              break;
            }
            case CFGElement::MemberDtor: {
              auto D = E.castAs<CFGMemberDtor>();
              json::Object X;
              X["e"] = "mdtor";
              X["f"] = DeclId(D.getFieldDecl());
              El.push_back(std::move(X));
              break;
            }
            default:
              break;
          }
        }
        Bo["el"] = std::move(El);
        json::Array Su, Un;
        for (auto& A : B->succs()) {
          if (const CFGBlock* T = A.getReachableBlock()) Su.push_back((int)T->getBlockID());
          else if (const CFGBlock* T2 = A.getPossiblyUnreachableBlock()) {
            Su.push_back((int)T2->getBlockID());
          } else Su.push_back(-1);
        }
        Bo["s"] = std::move(Su);
        if (const Stmt* T = B->getTerminatorStmt()) {
          Bo["tk"] = T->getStmtClassName();
          Bo["tkind"] = (int)B->getTerminator().getKind();
          if (const Stmt* Cd = B->getTerminatorCondition()) Bo["tc"] = Node(Cd);
          auto It = NodeIds.find(T);
          if (It != NodeIds.end()) Bo["tn"] = It->second;
          else Bo["tn"] = Node(T);
        }
        if (const Stmt* L = B->getLabel()) {
          json::Object Lo;
          Lo["k"] = L->getStmtClassName();
          Lo["n"] = Node(L);
          if (auto* Cs = dyn_cast<CaseStmt>(L)) {
            Expr::EvalResult R;
            if (Cs->getLHS()->EvaluateAsInt(R, C)) Lo["v"] = (int64_t)R.Val.getInt().getExtValue();
          }
          Bo["label"] = std::move(Lo);
        }
        if (B->hasNoReturnElement()) Bo["noret"] = true;
        Blocks.push_back(std::move(Bo));
      }
      O["cfg"] = std::move(Blocks);
      O["entry"] = (int)G->getEntry().getBlockID();
      O["exit"] = (int)G->getExit().getBlockID();
    }
    O["nodes"] = std::move(MyNodes);
    Nodes = SaveNodes;
    NodeIds = SaveIds;
    Functions.push_back(std::move(O));
  }

  void Record(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !InRepo(R->getLocation()))
      return;
    if (R->isLambda() || !Seen.insert(R).second)
      return;
    json::Object O;
    O["q"] = QName(R);
    O["t"] = Type(C.getTypeDeclType(R));
    O["file"] = FileOf(R->getLocation());
    O["l"] = LineOf(R->getLocation());
    json::Array Fs, Ms, Bs;
    for (auto* F : R->fields()) {
      json::Object Fo;
      Fo["d"] = DeclId(F);
      Fo["n"] = F->getNameAsString();
      Fo["t"] = Type(F->getType());
      Fo["l"] = LineOf(F->getLocation());
      Fo["access"] = (int)F->getAccess();
      Fo["mutable"] = F->isMutable();
      Fo["hasinit"] = F->hasInClassInitializer();
      Fs.push_back(std::move(Fo));
    }
    for (auto& B : R->bases()) {
      json::Object Bo;
      Bo["t"] = Type(B.getType());
      Bo["access"] = (int)B.getAccessSpecifier();
      Bs.push_back(std::move(Bo));
    }
    for (auto* M : R->methods()) {
      json::Object Mo;
      Mo["d"] = DeclId(M);
      Mo["n"] = M->getNameAsString();
      Mo["access"] = (int)M->getAccess();
      Mo["l"] = LineOf(M->getLocation());
      if (M->isDeleted()) Mo["deleted"] = true;
      if (M->isDefaulted()) Mo["defaulted"] = true;
      if (M->isImplicit()) Mo["implicit"] = true;
      if (M->isCopyAssignmentOperator()) Mo["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) Mo["moveassign"] = true;
      if (auto* Ct = dyn_cast<CXXConstructorDecl>(M)) {
        if (Ct->isCopyConstructor()) Mo["copyctor"] = true;
        if (Ct->isMoveConstructor()) Mo["movector"] = true;
        if (Ct->isExplicit()) Mo["explicit"] = true;
      }
      Mo["defined"] = M->isDefined();
      Ms.push_back(std::move(Mo));
    }
    O["fields"] = std::move(Fs);
    O["methods"] = std::move(Ms);
    O["bases"] = std::move(Bs);
    if (auto* D = R->getDestructor()) {
      if (D->isVirtual()) O["virtdtor"] = true;
    }
    Records.push_back(std::move(O));
  }

  json::Value ApToJson(const APValue& V, int Depth = 0) {
    if (V.isInt()) {
      return V.getInt().isUnsigned() && V.getInt().getActiveBits() > 63
                 ? json::Value(std::to_string(V.getInt().getZExtValue()))
                 : json::Value((int64_t)V.getInt().getExtValue());
    }
    if (V.isArray() && Depth < 5) {
      json::Array A;
      unsigned N = V.getArraySize(), I = V.getArrayInitializedElts();
      if (N > 100000) return nullptr;
      for (unsigned i = 0; i < N; ++i)
        A.push_back(i < I ? ApToJson(V.getArrayInitializedElt(i), Depth + 1)
                          : (V.hasArrayFiller() ? ApToJson(V.getArrayFiller(), Depth + 1) : nullptr));
      return json::Value(std::move(A));
    }
    if (V.isStruct() && Depth < 5) {
      json::Array A;
      for (unsigned i = 0; i < V.getStructNumFields(); ++i)
        A.push_back(ApToJson(V.getStructField(i), Depth + 1));
      return json::Value(std::move(A));
    }
    return nullptr;
  }

  void Variable(const VarDecl* V) {
    if (!InRepo(V->getLocation()) || V->isInvalidDecl() || V->getDeclContext()->isDependentContext())
      return;
    if (!Seen.insert(V).second) return;
    json::Object O;
    O["d"] = DeclId(V);
    O["q"] = QName(V);
    O["t"] = Type(V->getType());
    O["file"] = FileOf(V->getLocation());
    O["l"] = LineOf(V->getLocation());
    O["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    const VarDecl* D = nullptr;
    const Expr* I = V->getAnyInitializer(D);
    if (I && !I->isValueDependent()) {
      json::Array MyNodes;
      auto* SaveNodes = Nodes;
      auto SaveIds = NodeIds;
      NodeIds.clear();
      Nodes = &MyNodes;
      O["init"] = Node(I);
      O["nodes"] = std::move(MyNodes);
      Nodes = SaveNodes;
      NodeIds = SaveIds;
      if (auto* S = dyn_cast<clang::StringLiteral>(I->IgnoreParenImpCasts())) O["str"] = json::fixUTF8(S->getString());
      if (D && D->getType().isConstQualified()) {
        Expr::EvalResult R;
        if (const APValue* A = D->evaluateValue())
          O["val"] = ApToJson(*A);
      }
    }
    Vars.push_back(std::move(O));
  }

  void Pattern(const FunctionDecl* F) {
    if (!InRepo(F->getLocation()) || !F->doesThisDeclarationHaveABody())
      return;
    json::Object O;
    O["q"] = QName(F);
    O["file"] = FileOf(F->getLocation());
    O["l"] = LineOf(F->getLocation());
    O["col"] = ColOf(F->getLocation());
    Patterns.push_back(std::move(O));
  }

  void WalkDecl(const Decl* D) {
    if (auto* F = dyn_cast<FunctionDecl>(D)) {
      if (F->isDependentContext()) Pattern(F);
      else if (F->doesThisDeclarationHaveABody()) Function(F);
      return;
    }
    if (auto* FT = dyn_cast<FunctionTemplateDecl>(D)) {
      if (!InRepo(FT->getLocation())) {
        return;
      }
      WalkDecl(FT->getTemplatedDecl());
      for (auto* S : FT->specializations()) {
        const FunctionDecl* Def = nullptr;
        if (S->isDefined(Def) && Def) Function(Def);
      }
      return;
    }
    if (auto* CT = dyn_cast<ClassTemplateDecl>(D)) {
      if (!InRepo(CT->getLocation())) return;
      WalkDecl(CT->getTemplatedDecl());
      for (auto* S : CT->specializations())
        WalkDecl(S);
      return;
    }
    if (auto* E = dyn_cast<EnumDecl>(D)) {
      if (InRepo(E->getLocation()) && E->isThisDeclarationADefinition() && Seen.insert(E).second) {
        json::Object O;
        O["q"] = QName(E);
        O["file"] = FileOf(E->getLocation());
        O["l"] = LineOf(E->getLocation());
        O["t"] = Type(C.getTypeDeclType(E));
        O["w"] = (int)C.getIntWidth(E->getIntegerType());
        O["s"] = E->getIntegerType()->isSignedIntegerType();
        json::Array Es;
        for (auto* X : E->enumerators()) {
          json::Array P;
          P.push_back(X->getNameAsString());
          P.push_back((int64_t)X->getInitVal().getExtValue());
          Es.push_back(std::move(P));
        }
        O["e"] = std::move(Es);
        Enums.push_back(std::move(O));
      }
      return;
    }
    if (auto* V = dyn_cast<VarDecl>(D)) {
      Variable(V);
      return;
    }
    if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
      if (!isa<ClassTemplateSpecializationDecl>(R) || InRepo(R->getLocation())) {
        Record(R);
        Walk(R);
      }
      return;
    }
    if (auto* N = dyn_cast<NamespaceDecl>(D)) {
      Walk(N);
      return;
    }
    if (auto* L = dyn_cast<LinkageSpecDecl>(D)) {
      Walk(L);
      return;
    }
  }

  void Walk(const DeclContext* DC) {
    for (auto* D : DC->decls()) {
      if (isa<TranslationUnitDecl>(DC) || isa<NamespaceDecl>(DC) || isa<LinkageSpecDecl>(DC)) {
        // skip system declarations quickly, but enter namespaces (they may be reopened in the repo)
        if (!isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && !InRepo(D->getLocation()))
          continue;
      }
      WalkDecl(D);
    }
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext& C) override {
    if (CI.getDiagnostics().hasErrorOccurred())
      return;
    Exporter(C).Run();
  }
  CompilerInstance& CI;
};

class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

}  // namespace

// usage: msx OUT.json ROOT[,ROOT...] FILE flags...
int main(int argc, char** argv) {
  if (argc < 4) {
    fprintf(stderr, "usage: msx OUT ROOTS FILE flags...\n");
    return 2;
  }
  gOut = argv[1];
  std::string R = argv[2];
  size_t P = 0;
  while (P <= R.size()) {
    size_t Q = R.find(',', P);
    if (Q == std::string::npos) Q = R.size();
    if (Q > P) gRoots.push_back(R.substr(P, Q - P));
    P = Q + 1;
  }
  std::vector<std::string> Args{"clang++", "-fsyntax-only"};
  for (int i = 4; i < argc; ++i)
    Args.push_back(argv[i]);
  Args.push_back("-resource-dir");
  Args.push_back("/usr/lib/llvm-18/lib/clang/18");
  Args.push_back(argv[3]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Args, std::make_unique<Action>(), FM.get());
  return Inv.run() ? 0 : 1;
}
