// vsa - fact extractor for the VISR static analyses.
//
// Parses one translation unit with clang and writes, as JSON, the resolved and
// type-checked program: records, enums, globals with initialisers, and every
// function definition that lies under the given source root (template
// instantiations included) as an expression tree plus its control-flow graph.
// Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;   // only functions spelled below this directory are dumped
static std::string gOut;
static bool gHadError = false;
// Functions and records already written for an earlier file of the same run.
static std::set<std::string> gDoneFuncs;
static std::map<std::string, size_t> gDoneRecs;
static llvm::json::Array gUnits;
static std::string gFile;

namespace {

class Dumper {
public:
  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = false;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;

  std::vector<std::string> Strings;
  std::unordered_map<std::string, int> StrIdx;
  int S(const std::string &s) {
    auto it = StrIdx.find(s);
    if (it != StrIdx.end()) return it->second;
    int i = (int)Strings.size();
    Strings.push_back(s);
    StrIdx.emplace(s, i);
    return i;
  }

  json::Array Funcs, Records, Enums, Globals;
  std::set<const Decl *> DoneF, DoneR;
  std::unordered_map<const Decl *, int> DeclIds;
  std::vector<const CXXRecordDecl *> RecQueue;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> abs(P.getFilename());
    Ctx.getSourceManager().getFileManager().makeAbsolutePath(abs);
    llvm::SmallString<256> real;
    // collapse ".."
    std::string r = abs.str().str();
    return r;
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? 0 : P.getLine();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }

  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    os.flush();
    // Add template arguments of class specialisations (printQualifiedName drops them in places).
    return s;
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) {
      return "lambda@" + fileOf(R->getLocation()) + ":" + std::to_string(lineOf(R->getLocation())) + ":" +
             std::to_string(SM.getPresumedColumnNumber(SM.getExpansionLoc(R->getLocation())));
    }
    return typeStr(Ctx.getRecordType(R));
  }
  std::string fid(const FunctionDecl *F) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(F->getCanonicalDecl(), b)) {
      return "anon:" + qname(F) + ":" + std::to_string(lineOf(F->getLocation()));
    }
    return b.str().str();
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int i = (int)DeclIds.size() + 1;
    DeclIds.emplace(D, i);
    return i;
  }

  // --- statement/expression trees ------------------------------------------------
  std::unordered_map<const Stmt *, int> Ids;
  int NextId = 0;

  const Stmt *strip(const Stmt *St) {
    while (St) {
      const Stmt *N = nullptr;
      if (auto *E = dyn_cast<ImplicitCastExpr>(St)) {
        N = E->getSubExpr();
      } else if (auto *E = dyn_cast<ParenExpr>(St)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<FullExpr>(St)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(St)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(St)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(St)) N = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(St)) N = E->getExpr();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(St)) N = E->getExpr();
      else if (auto *E = dyn_cast<CXXStdInitializerListExpr>(St)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<OpaqueValueExpr>(St)) { if (E->getSourceExpr()) N = E->getSourceExpr(); }
      if (!N) return St;
      St = N;
    }
    return St;
  }

  int idOf(const Stmt *St) {
    const Stmt *T = strip(St);
    auto it = Ids.find(T);
    return it == Ids.end() ? -1 : it->second;
  }

  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["cn"] = S(qname(F));
    O["cid"] = S(fid(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cc"] = S(recName(M->getParent()));
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isConst()) O["mconst"] = 1;
      if (M->isStatic()) O["mstatic"] = 1;
      if (isa<CXXConstructorDecl>(M)) O["ctor"] = 1;
    }
    if (F->isExternC()) O["extc"] = 1;
    if (F->isNoReturn()) O["noret"] = 1;
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) &&
        FPT->canThrow() == CT_Cannot) O["nothrow"] = 1;
    if (F->hasAttr<NoThrowAttr>()) O["nothrow"] = 1;
    json::Array P;
    for (auto *Q : F->parameters()) P.push_back(S(typeStr(Q->getType())));
    O["pt"] = std::move(P);
    if (auto *Args = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : Args->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        if (X.getKind() == TemplateArgument::Type) os << typeStr(X.getAsType()); else X.print(PP, os, true);
        os.flush();
        A.push_back(S(s));
      }
      O["targs"] = std::move(A);
    }
  }

  json::Value dump(const Stmt *St0) {
    if (!St0) return nullptr;
    const Stmt *St = strip(St0);
    auto known = Ids.find(St);
    if (known != Ids.end()) { // shared sub tree (opaque values, default args)
      return json::Object{{"ref", known->second}};
    }
    int id = NextId++;
    Ids[St] = id;
    // wrapped nodes map to the same id lazily through strip()
    json::Object O;
    O["i"] = id;
    O["k"] = S(St->getStmtClassName());
    O["l"] = lineOf(St->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(St)) {
      O["t"] = S(typeStr(E->getType()));
      if (!E->isValueDependent() && (E->getType()->isIntegralOrEnumerationType()) &&
          !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
        Expr::EvalResult R;
        if (!isa<CallExpr>(E) && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b; R.Val.getInt().toString(b);
          O["cv"] = b.str().str();
        }
      }
      if (!E->isValueDependent() && E->getType()->isRealFloatingType() && !isa<FloatingLiteral>(E) && !isa<CallExpr>(E)) {
        llvm::APFloat F(0.0);
        if (E->EvaluateAsFloat(F, Ctx, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b; F.toString(b);
          O["cv"] = b.str().str();
        }
      }
    }
    json::Array C;
    bool generic = true;
    if (auto *E = dyn_cast<DeclRefExpr>(St)) {
      const ValueDecl *D = E->getDecl();
      O["d"] = S(D->getNameAsString());
      O["q"] = S(qname(D));
      O["dk"] = S(D->getDeclKindName());
      O["did"] = declId(D);
      if (auto *F = dyn_cast<FunctionDecl>(D)) calleeInfo(O, F);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) O["glob"] = 1;
      }
      generic = false;
    } else if (auto *E = dyn_cast<MemberExpr>(St)) {
      const ValueDecl *D = E->getMemberDecl();
      O["m"] = S(D->getNameAsString());
      O["q"] = S(qname(D));
      if (isa<FieldDecl>(D)) {
        O["mk"] = S("field");
        if (auto *R = dyn_cast<CXXRecordDecl>(cast<FieldDecl>(D)->getParent())) O["mc"] = S(recName(R));
      } else if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        O["mk"] = S("method");
        O["cid"] = S(fid(M));
      } else O["mk"] = S("other");
      if (E->isArrow()) O["arrow"] = 1;
      C.push_back(dump(E->getBase()));
      generic = false;
    } else if (auto *E = dyn_cast<CXXConstructExpr>(St)) {
      calleeInfo(O, E->getConstructor());
      if (E->getConstructor()->isCopyConstructor()) O["copy"] = 1;
      if (E->getConstructor()->isMoveConstructor()) O["move"] = 1;
      if (E->isElidable()) O["elid"] = 1;
      if (isa<CXXTemporaryObjectExpr>(E)) O["tmp"] = 1;
      for (auto *A : E->arguments()) C.push_back(dump(A));
      generic = false;
    } else if (auto *E = dyn_cast<CallExpr>(St)) {
      if (auto *F = E->getDirectCallee()) calleeInfo(O, F);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E))
        O["op"] = S(getOperatorSpelling(OC->getOperator()));
      // children: callee expr first, then the arguments
      C.push_back(dump(E->getCallee()));
      for (auto *A : E->arguments()) {
        if (isa<CXXDefaultArgExpr>(A)) {
          json::Object DA; DA["i"] = NextId++; DA["k"] = S("DefaultArg"); DA["l"] = lineOf(St->getBeginLoc());
          const Expr *DE = cast<CXXDefaultArgExpr>(A)->getExpr();
          DA["t"] = S(typeStr(DE->getType()));
          Expr::EvalResult R;
          if (!DE->isValueDependent() && DE->getType()->isIntegralOrEnumerationType() &&
              DE->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> b; R.Val.getInt().toString(b); DA["cv"] = b.str().str();
          }
          C.push_back(std::move(DA));
        } else C.push_back(dump(A));
      }
      generic = false;
    } else if (auto *E = dyn_cast<IntegerLiteral>(St)) {
      llvm::SmallString<32> b; E->getValue().toStringUnsigned(b); O["v"] = b.str().str();
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(St)) {
      O["v"] = E->getValue() ? "1" : "0";
    } else if (auto *E = dyn_cast<FloatingLiteral>(St)) {
      llvm::SmallString<32> b; E->getValue().toString(b); O["v"] = b.str().str();
    } else if (auto *E = dyn_cast<StringLiteral>(St)) {
      if (E->getCharByteWidth() == 1) {
        std::string s = E->getString().str();
        if (json::isUTF8(s)) O["s"] = s; else O["s"] = json::fixUTF8(s);
      }
    } else if (auto *E = dyn_cast<CharacterLiteral>(St)) {
      O["v"] = std::to_string(E->getValue());
    } else if (auto *E = dyn_cast<BinaryOperator>(St)) {
      O["op"] = S(E->getOpcodeStr().str());
    } else if (auto *E = dyn_cast<UnaryOperator>(St)) {
      O["op"] = S((UnaryOperator::getOpcodeStr(E->getOpcode()).str()) + (E->isPostfix() ? "post" : ""));
    } else if (auto *E = dyn_cast<ExplicitCastExpr>(St)) {
      O["cast"] = S(E->getCastKindName());
    } else if (auto *E = dyn_cast<LambdaExpr>(St)) {
      const CXXMethodDecl *M = E->getCallOperator();
      if (E->isGenericLambda()) {
        json::Array Is;
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *Sp : FT->specializations()) Is.push_back(S(fid(Sp)));
        O["lambdas"] = std::move(Is);
      } else {
        O["lambda"] = S(fid(M));
        queueFunc(M);
      }
      json::Array Caps;
      auto ii = E->capture_init_begin();
      for (auto &Cp : E->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = 1;
        else if (Cp.capturesVariable()) {
          CO["did"] = declId(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (ii != E->capture_init_end()) { if (*ii) C.push_back(dump(*ii)); ++ii; }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      generic = false;
    } else if (auto *E = dyn_cast<DeclStmt>(St)) {
      json::Array Vs;
      for (auto *D : E->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) Vs.push_back(varInfo(V));
      }
      O["vars"] = std::move(Vs);
      generic = false;
    } else if (auto *E = dyn_cast<CXXCatchStmt>(St)) {
      O["ct"] = S(E->getExceptionDecl() ? typeStr(E->getCaughtType()) : "...");
      if (E->getExceptionDecl()) O["did"] = declId(E->getExceptionDecl());
    } else if (auto *E = dyn_cast<CXXForRangeStmt>(St)) {
      // children: range init, loop variable, body; begin/end/inc are visible in the CFG
      O["rangeVar"] = declId(E->getLoopVariable());
      for (const Stmt *Sub : E->children()) if (Sub) C.push_back(dump(Sub));
      generic = false;
    } else if (auto *E = dyn_cast<CXXNewExpr>(St)) {
      O["nt"] = S(typeStr(E->getAllocatedType()));
      if (E->isArray()) O["arr"] = 1;
      if (E->getNumPlacementArgs()) O["placement"] = 1;
      if (auto *F = E->getOperatorNew()) O["opnew"] = S(qname(F));
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(St)) {
      if (E->isArrayForm()) O["arr"] = 1;
    } else if (auto *E = dyn_cast<CXXThrowExpr>(St)) {
      if (E->getSubExpr()) O["tt"] = S(typeStr(E->getSubExpr()->getType()));
    } else if (auto *E = dyn_cast<CaseStmt>(St)) {
      (void)E;
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(St)) {
      if (E->isArgumentType()) O["at"] = S(typeStr(E->getArgumentType()));
      generic = !E->isArgumentType();
    } else if (auto *E = dyn_cast<InitListExpr>(St)) {
      const InitListExpr *Sem = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
      for (auto *X : Sem->inits()) C.push_back(dump(X));
      generic = false;
    } else if (isa<CXXThisExpr>(St)) {
      generic = false;
    }
    if (generic)
      for (const Stmt *Sub : St->children())
        if (Sub) C.push_back(dump(Sub));
    if (!C.empty()) O["c"] = std::move(C);
    return std::move(O);
  }

  json::Object varInfo(const VarDecl *V) {
    json::Object VO;
    VO["did"] = declId(V);
    VO["n"] = V->getNameAsString();
    VO["t"] = S(typeStr(V->getType()));
    if (V->isStaticLocal()) VO["static"] = 1;
    if (V->getInit()) VO["init"] = dump(V->getInit());
    VO["l"] = lineOf(V->getLocation());
    return VO;
  }

  // --- functions -----------------------------------------------------------------
  std::vector<const FunctionDecl *> FQueue;
  void queueFunc(const FunctionDecl *F) { FQueue.push_back(F); }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) {
      const FunctionDecl *Def = nullptr;
      if (!F->hasBody(Def)) return;
      F = Def;
    }
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isDeleted()) return;
    bool dflt = F->isDefaulted();
    if (!DoneF.insert(F->getCanonicalDecl()).second) return;
    if (!gDoneFuncs.insert(fid(F)).second) {
      // the body is already in the output, but local lambdas and the class still have to be visited once
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) noteRecord(M->getParent());
      return;
    }
    Ids.clear();
    NextId = 0;
    json::Object O;
    O["id"] = S(fid(F));
    O["n"] = S(qname(F));
    O["f"] = S(fileOf(F->getLocation()));
    O["l"] = lineOf(F->getLocation());
    O["ret"] = S(typeStr(F->getReturnType()));
    if (dflt) O["defaulted"] = 1;
    if (F->isImplicit()) O["implicit"] = 1;
    if (F->isTemplateInstantiation()) O["inst"] = 1;
    json::Array P;
    for (auto *Q : F->parameters()) {
      json::Object PO;
      PO["did"] = declId(Q);
      PO["n"] = Q->getNameAsString();
      PO["t"] = S(typeStr(Q->getType()));
      P.push_back(std::move(PO));
    }
    O["p"] = std::move(P);
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot) O["nothrow"] = 1;
    if (F->isExternC()) O["extc"] = 1;
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) O["internal"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = S(recName(M->getParent()));
      noteRecord(M->getParent());
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isConst()) O["const"] = 1;
      if (M->isStatic()) O["static"] = 1;
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(S(fid(B)));
      if (!Ov.empty()) O["ov"] = std::move(Ov);
      O["acc"] = (int)M->getAccess();
      if (M->isCopyAssignmentOperator()) O["sp"] = "copyassign";
      if (M->isMoveAssignmentOperator()) O["sp"] = "moveassign";
      if (isa<CXXDestructorDecl>(M)) O["sp"] = "dtor";
      if (M->getParent()->isLambda()) O["lambda"] = 1;
    }
    if (auto *Args = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : Args->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        if (X.getKind() == TemplateArgument::Type) os << typeStr(X.getAsType()); else X.print(PP, os, true);
        os.flush();
        A.push_back(S(s));
      }
      O["targs"] = std::move(A);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["sp"] = K->isCopyConstructor() ? "copyctor" : K->isMoveConstructor() ? "movector" : "ctor";
      json::Array In;
      for (auto *I : K->inits()) {
        json::Object IO;
        if (I->isMemberInitializer()) IO["m"] = S(I->getMember()->getNameAsString());
        else if (I->isBaseInitializer()) IO["b"] = S(typeStr(QualType(I->getBaseClass(), 0)));
        else if (I->isDelegatingInitializer()) IO["deleg"] = 1;
        IO["w"] = I->isWritten() ? 1 : 0;
        if (I->getInit()) {
          const Expr *IE = I->getInit();
          if (isa<CXXDefaultInitExpr>(IE)) IO["dmi"] = 1;
          IO["e"] = dump(IE);
        }
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    const Stmt *Body = F->getBody();
    O["body"] = dump(Body);
    // CFG
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = false;
    BO.setAlwaysAdd(Stmt::UnaryOperatorClass);
    BO.setAlwaysAdd(Stmt::CXXOperatorCallExprClass);
    BO.setAlwaysAdd(Stmt::CXXMemberCallExprClass);
    BO.setAlwaysAdd(Stmt::CompoundAssignOperatorClass);
    BO.setAlwaysAdd(Stmt::CXXNewExprClass);
    BO.setAlwaysAdd(Stmt::CXXDeleteExprClass);
    BO.setAlwaysAdd(Stmt::LambdaExprClass);
    std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &Ctx, BO);
    if (G) {
      json::Object CO;
      CO["entry"] = (int)G->getEntry().getBlockID();
      CO["exit"] = (int)G->getExit().getBlockID();
      json::Array Bs;
      for (const CFGBlock *B : *G) {
        json::Object X;
        X["id"] = (int)B->getBlockID();
        json::Array Es;
        for (const CFGElement &El : *B) {
          if (auto CS = El.getAs<CFGStmt>()) {
            int id = idOf(CS->getStmt());
            if (id < 0) {
              // synthesised statement (e.g. single-variable DeclStmt): dump it now
              json::Object SO;
              SO["s"] = dump(CS->getStmt());
              Es.push_back(std::move(SO));
            } else Es.push_back(id);
          } else if (auto CI = El.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *I = CI->getInitializer();
            json::Object IO;
            IO["init"] = I->isMemberInitializer() ? S(I->getMember()->getNameAsString()) : S(I->isBaseInitializer() ? typeStr(QualType(I->getBaseClass(), 0)) : "<delegating>");
            Es.push_back(std::move(IO));
          } else if (auto CD = El.getAs<CFGAutomaticObjDtor>()) {
            json::Object IO;
            IO["dtor"] = declId(CD->getVarDecl());
            IO["dt"] = S(typeStr(CD->getVarDecl()->getType()));
            Es.push_back(std::move(IO));
          }
        }
        X["e"] = std::move(Es);
        json::Array Su;
        for (auto &Sc : B->succs()) {
          const CFGBlock *R = Sc.getReachableBlock();
          Su.push_back(R ? (int)R->getBlockID() : -1);
        }
        X["s"] = std::move(Su);
        if (B->hasNoReturnElement()) X["noret"] = 1;
        if (const Stmt *T = B->getTerminatorStmt()) {
          json::Object TO;
          TO["k"] = S(T->getStmtClassName());
          if (B->getTerminator().isTemporaryDtorsBranch()) TO["td"] = 1;
          if (const Stmt *Cn = B->getTerminatorCondition(true)) {
            int id = idOf(Cn);
            if (id < 0) TO["cs"] = dump(Cn); else TO["c"] = id;
          }
          TO["i"] = idOf(T);
          X["t"] = std::move(TO);
        }
        if (const Stmt *L = B->getLabel()) {
          X["lab"] = idOf(L);
          X["labk"] = S(L->getStmtClassName());
        }
        if (const Stmt *LT = B->getLoopTarget()) X["lt"] = idOf(LT);
        Bs.push_back(std::move(X));
      }
      CO["b"] = std::move(Bs);
      O["cfg"] = std::move(CO);
    }
    Funcs.push_back(std::move(O));
    // local lambdas found during dump are in FQueue
  }

  void noteRecord(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R) return;
    if (R->isDependentContext()) return;
    RecQueue.push_back(R);
  }

  void record(const CXXRecordDecl *R) {
    if (!inRoot(R->getLocation())) return;
    if (!DoneR.insert(R->getCanonicalDecl()).second) return;
    size_t nm = std::distance(R->method_begin(), R->method_end());
    {
      auto it = gDoneRecs.find(recName(R));
      if (it != gDoneRecs.end() && it->second >= nm) {
        for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) noteRecord(BR);
        for (auto *F : R->fields())
          if (auto *RD = Ctx.getBaseElementType(F->getType().getCanonicalType())->getAsCXXRecordDecl()) noteRecord(RD);
        return;
      }
      gDoneRecs[recName(R)] = nm;
    }
    json::Object O;
    O["n"] = S(recName(R));
    O["f"] = S(fileOf(R->getLocation()));
    O["l"] = lineOf(R->getLocation());
    if (R->isUnion()) O["union"] = 1;
    if (R->isLambda()) O["lambda"] = 1;
    if (R->isAbstract()) O["abstract"] = 1;
    json::Array Bs;
    for (auto &B : R->bases()) {
      Bs.push_back(S(typeStr(B.getType())));
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) noteRecord(BR);
    }
    O["b"] = std::move(Bs);
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object FO;
      QualType T = F->getType().getCanonicalType();
      FO["n"] = F->getNameAsString();
      FO["t"] = S(typeStr(T));
      QualType E = Ctx.getBaseElementType(T);
      const char *k = "other";
      if (T->isReferenceType()) k = "ref";
      else if (E->isPointerType() || E->isMemberPointerType()) k = "ptr";
      else if (E->isScalarType()) k = "scalar";
      else if (auto *RD = E->getAsCXXRecordDecl()) {
        k = "class";
        FO["rec"] = S(recName(RD));
        if (RD->getDefinition()) {
          bool needs = false;
          needs = RD->hasDefaultConstructor() && RD->hasTrivialDefaultConstructor() && !RD->isEmpty();
          if (needs) FO["trivdef"] = 1;
        }
        noteRecord(RD);
      }
      FO["k"] = k;
      if (T.isConstQualified()) FO["const"] = 1;
      if (F->isMutable()) FO["mutable"] = 1;
      if (F->hasInClassInitializer()) {
        FO["dmi"] = 1;
        if (const Expr *IE = F->getInClassInitializer()) {
          Ids.clear(); NextId = 0;
          FO["init"] = dump(IE);
        }
      }
      FO["l"] = lineOf(F->getLocation());
      Fs.push_back(std::move(FO));
    }
    O["fl"] = std::move(Fs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object MO;
      MO["n"] = S(M->getNameAsString());
      MO["id"] = S(fid(M));
      MO["l"] = lineOf(M->getLocation());
      if (M->isImplicit()) MO["implicit"] = 1;
      if (M->isDefaulted()) MO["defaulted"] = 1;
      if (M->isDeleted()) MO["deleted"] = 1;
      if (M->isVirtual()) MO["virt"] = 1;
      if (M->isPureVirtual()) MO["pure"] = 1;
      if (M->isConst()) MO["const"] = 1;
      if (M->isStatic()) MO["static"] = 1;
      MO["acc"] = (int)M->getAccess();
      MO["ret"] = S(typeStr(M->getReturnType()));
      json::Array PT;
      for (auto *Q : M->parameters()) PT.push_back(S(typeStr(Q->getType())));
      MO["pt"] = std::move(PT);
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(S(fid(B)));
      if (!Ov.empty()) MO["ov"] = std::move(Ov);
      if (auto *K = dyn_cast<CXXConstructorDecl>(M))
        MO["sp"] = K->isCopyConstructor() ? "copyctor" : K->isMoveConstructor() ? "movector" : "ctor";
      else if (isa<CXXDestructorDecl>(M)) MO["sp"] = "dtor";
      else if (M->isCopyAssignmentOperator()) MO["sp"] = "copyassign";
      else if (M->isMoveAssignmentOperator()) MO["sp"] = "moveassign";
      Ms.push_back(std::move(MO));
    }
    O["m"] = std::move(Ms);
    Records.push_back(std::move(O));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  explicit Visitor(Dumper &D) : D(D) {}
  Dumper &D;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext()) D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda()) D.noteRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation()) || E->isDependentContext()) return true;
    json::Object O;
    O["n"] = D.S(D.qname(E));
    O["f"] = D.S(D.fileOf(E->getLocation()));
    O["l"] = D.lineOf(E->getLocation());
    json::Array Cs;
    for (auto *K : E->enumerators()) {
      llvm::SmallString<32> b; K->getInitVal().toString(b);
      Cs.push_back(json::Array{K->getNameAsString(), b.str().str()});
    }
    O["c"] = std::move(Cs);
    D.Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (!V->isThisDeclarationADefinition() && !V->getInit()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    D.Ids.clear(); D.NextId = 0;
    json::Object O = D.varInfo(V);
    O["q"] = D.S(D.qname(V));
    O["f"] = D.S(D.fileOf(V->getLocation()));
    if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) O["cls"] = D.S(D.recName(R));
    if (V->getType().isConstQualified()) O["const"] = 1;
    D.Globals.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) gHadError = true;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < D.FQueue.size(); ++i) D.function(D.FQueue[i]);
    for (size_t i = 0; i < D.RecQueue.size(); ++i) D.record(D.RecQueue[i]);
    json::Object Root;
    Root["funcs"] = std::move(D.Funcs);
    Root["records"] = std::move(D.Records);
    Root["enums"] = std::move(D.Enums);
    Root["globals"] = std::move(D.Globals);
    json::Array St;
    for (auto &s : D.Strings) St.push_back(json::isUTF8(s) ? s : json::fixUTF8(s));
    Root["str"] = std::move(St);
    Root["error"] = gHadError;
    Root["file"] = gFile;
    gUnits.push_back(std::move(Root));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

// usage: vsa ROOT OUT FILE... -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: vsa ROOT OUT FILE... -- flags\n"; return 2; }
  gRoot = argv[1];
  gOut = argv[2];
  std::vector<std::string> files;
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) files.push_back(argv[i]);
  std::vector<std::string> flags;
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions{}));
  int rc = 0;
  for (auto &f : files) {
    gFile = f;
    gHadError = false;
    std::vector<std::string> cmd{"clang++"};
    cmd.insert(cmd.end(), flags.begin(), flags.end());
    cmd.push_back("-fsyntax-only");
    cmd.push_back(f);
    tooling::ToolInvocation Inv(cmd, std::make_unique<Action>(), FM.get());
    bool ok = Inv.run();
    if (!ok || gHadError) { llvm::errs() << "vsa: failed: " << f << "\n"; rc = 3; }
  }
  std::error_code EC;
  llvm::raw_fd_ostream OS(gOut, EC);
  OS << json::Value(std::move(gUnits));
  return rc;
}
