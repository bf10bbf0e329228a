// Mechanical extraction of the functions of /repo into a JSON AST.
//
// Parses one translation unit with clang and writes every function that has a
// body and whose definition (or template pattern) lies below a given root
// directory: methods, constructors, template instantiations, and implicitly
// defined members.  Nothing is rewritten: the output is clang's own typed AST
// with purely syntactic wrappers (parentheses, temporaries, cleanups) removed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";
static std::string OutFile;

namespace {

class Dumper {
public:
  Dumper(ASTContext &C, Sema *S) : Ctx(C), PP(C.getLangOpts()), S(S) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace =
        true;
    PP.UsePreferredNames = false;
    PP.SuppressDefaultTemplateArgs = false;
  }

  ASTContext &Ctx;
  PrintingPolicy PP;
  Sema *S;
  json::Object Functions;
  json::Object Records;
  json::Object Enums;
  json::Object Types;
  json::Object Globals;
  std::map<const void *, int> TypeIds;
  std::set<std::string> SeenFn, SeenRec, SeenEnum, SeenGlob;
  std::map<const Decl *, int> LocalIds;
  std::vector<const FunctionDecl *> Pending;

  std::string usr(const Decl *D) {
    SmallString<256> Buf;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), Buf)) {
      return "nousr";
    }
    return Buf.str().str();
  }

  bool inRoot(const Decl *D) {
    // explicit instantiations carry the location of the instantiation
    if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
      if (S->getSpecializationKind() != TSK_ExplicitSpecialization &&
          S->getSpecializationKind() != TSK_Undeclared) {
        D = S->getSpecializedTemplate()->getTemplatedDecl();
      }
    }
    SourceLocation L = Ctx.getSourceManager().getExpansionLoc(D->getLocation());
    if (L.isInvalid()) {
      return false;
    }
    StringRef F = Ctx.getSourceManager().getFilename(L);
    // llvm::DGNode is the base class of the feature tree: its bodies are verified, too
    return F.startswith(Root) || F.endswith("llvm/ADT/DirectedGraph.h");
  }

  std::string qname(const NamedDecl *D) {
    std::string N;
    llvm::raw_string_ostream OS(N);
    D->printQualifiedName(OS, PP);
    OS.flush();
    return N;
  }

  int localId(const Decl *D) {
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) {
      return It->second;
    }
    int Id = (int)LocalIds.size() + 1;
    LocalIds[D] = Id;
    return Id;
  }

  int type(QualType T) {
    if (T.isNull()) {
      return 0;
    }
    T = T.getCanonicalType();
    const void *Key = T.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) {
      return It->second;
    }
    int Id = (int)TypeIds.size() + 1;
    TypeIds[Key] = Id;
    json::Object O;
    O["s"] = T.getAsString(PP);
    if (T.isConstQualified()) {
      O["const"] = true;
    }
    if (const auto *BT = T->getAs<BuiltinType>()) {
      O["k"] = "builtin";
      if (T->isBooleanType()) {
        O["b"] = "bool";
      } else if (T->isVoidType()) {
        O["b"] = "void";
      } else if (T->isNullPtrType()) {
        O["b"] = "nullptr";
      } else if (T->isIntegerType()) {
        O["b"] = T->isAnyCharacterType() ? "char" : "int";
        O["w"] = (int64_t)Ctx.getTypeSize(T);
        O["sgn"] = T->isSignedIntegerType();
      } else if (T->isFloatingType()) {
        O["b"] = "float";
        O["w"] = (int64_t)Ctx.getTypeSize(T);
      } else {
        O["b"] = "other";
        (void)BT;
      }
    } else if (T->isPointerType()) {
      O["k"] = "ptr";
      O["to"] = type(T->getPointeeType());
    } else if (T->isReferenceType()) {
      O["k"] = T->isRValueReferenceType() ? "rref" : "ref";
      O["to"] = type(T->getPointeeType());
    } else if (const auto *ET = T->getAs<EnumType>()) {
      O["k"] = "enum";
      O["qn"] = qname(ET->getDecl());
      dumpEnum(ET->getDecl());
    } else if (const auto *RT = T->getAs<RecordType>()) {
      O["k"] = "record";
      const auto *RD = RT->getDecl();
      O["qn"] = qname(RD);
      if (const auto *CRD = dyn_cast<CXXRecordDecl>(RD)) {
        if (CRD->isLambda()) {
          O["lambda"] = true;
          O["lid"] = localId(CRD->getCanonicalDecl());
        }
        if (const auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(CRD)) {
          json::Array A;
          dumpTArgs(TS->getTemplateArgs(), A);
          O["targs"] = std::move(A);
        }
        dumpRecord(CRD, T.getUnqualifiedType().getAsString(PP));
      }
    } else if (const auto *AT = Ctx.getAsConstantArrayType(T)) {
      O["k"] = "array";
      O["to"] = type(AT->getElementType());
      O["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (T->isFunctionType()) {
      O["k"] = "function";
      if (const auto *FT = T->getAs<FunctionProtoType>()) {
        O["ret"] = type(FT->getReturnType());
        json::Array A;
        for (QualType P : FT->param_types()) {
          A.push_back(type(P));
        }
        O["params"] = std::move(A);
      }
    } else {
      O["k"] = "other";
    }
    Types[std::to_string(Id)] = std::move(O);
    return Id;
  }

  void dumpTArgs(const TemplateArgumentList &L, json::Array &A) {
    for (const auto &TA : L.asArray()) {
      dumpTArg(TA, A);
    }
  }
  void dumpTArg(const TemplateArgument &TA, json::Array &A) {
    switch (TA.getKind()) {
    case TemplateArgument::Type:
      A.push_back(type(TA.getAsType()));
      break;
    case TemplateArgument::Integral:
      A.push_back(json::Object{{"int", (int64_t)TA.getAsIntegral().getExtValue()}});
      break;
    case TemplateArgument::Pack:
      for (const auto &P : TA.pack_elements()) {
        dumpTArg(P, A);
      }
      break;
    default: {
      std::string Str;
      llvm::raw_string_ostream OS(Str);
      TA.print(PP, OS, true);
      A.push_back(json::Object{{"other", OS.str()}});
    }
    }
  }

  void dumpEnum(const EnumDecl *E) {
    std::string N = qname(E);
    if (!SeenEnum.insert(N).second) {
      return;
    }
    json::Array A;
    for (const auto *C : E->enumerators()) {
      A.push_back(json::Array{C->getName().str(),
                              (int64_t)C->getInitVal().getExtValue()});
    }
    Enums[N] = std::move(A);
  }

  void dumpRecord(const CXXRecordDecl *RD, const std::string &Name) {
    RD = RD->getDefinition();
    if (!RD) {
      return;
    }
    bool Mine = inRoot(RD) && !RD->isLambda();
    if (!SeenRec.insert(Name).second) {
      return;
    }
    json::Object O;
    O["qn"] = qname(RD);
    O["mine"] = Mine;
    O["poly"] = RD->isPolymorphic();
    O["abstract"] = !RD->isDependentContext() && RD->isAbstract();
    json::Array B;
    for (const auto &Base : RD->bases()) {
      B.push_back(type(Base.getType()));
    }
    O["bases"] = std::move(B);
    if (Mine) {
      json::Array F;
      for (const auto *FD : RD->fields()) {
        json::Object FO{{"n", FD->getName().str()},
                        {"t", type(FD->getType())},
                        {"qn", qname(FD)}};
        if (const Expr *I = FD->getInClassInitializer()) {
          if (!I->isInstantiationDependent()) {
            FO["init"] = expr(I);
          }
        }
        F.push_back(std::move(FO));
      }
      O["fields"] = std::move(F);
      json::Array M;
      for (const auto *MD : RD->methods()) {
        if (MD->isVirtual()) {
          json::Object MO{{"n", MD->getNameAsString()},
                          {"usr", usr(MD)},
                          {"pure", MD->isPureVirtual()}};
          std::string Sig;
          for (const auto *Pm : MD->parameters()) {
            Sig += Pm->getType().getCanonicalType().getAsString() + ",";
          }
          MO["sig"] = Sig;
          json::Array Ov;
          for (const auto *OM : MD->overridden_methods()) {
            Ov.push_back(usr(OM));
          }
          MO["overrides"] = std::move(Ov);
          M.push_back(std::move(MO));
        }
      }
      O["virtuals"] = std::move(M);
    }
    Records[Name] = std::move(O);
  }

  json::Value src(SourceLocation L) {
    L = Ctx.getSourceManager().getExpansionLoc(L);
    if (L.isInvalid()) {
      return nullptr;
    }
    return (int64_t)Ctx.getSourceManager().getSpellingLineNumber(L);
  }

  //===------------------------------------------------------------------===//
  json::Object fnRef(const FunctionDecl *FD) {
    json::Object O;
    O["usr"] = usr(FD);
    O["qn"] = qname(FD);
    O["n"] = FD->getNameAsString();
    if (const auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = type(Ctx.getRecordType(MD->getParent()));
      if (MD->isVirtual()) {
        O["virt"] = true;
      }
      if (MD->isStatic()) {
        O["static"] = true;
      }
      if (MD->isConst()) {
        O["const"] = true;
      }
      if (isa<CXXConstructorDecl>(MD)) {
        const auto *CD = cast<CXXConstructorDecl>(MD);
        O["ctor"] = CD->isCopyConstructor()   ? "copy"
                    : CD->isMoveConstructor() ? "move"
                    : CD->isDefaultConstructor() ? "default"
                                                 : "other";
      }
      if (MD->isCopyAssignmentOperator()) {
        O["assign"] = "copy";
      }
      if (MD->isMoveAssignmentOperator()) {
        O["assign"] = "move";
      }
      if (MD->isDefaulted()) {
        O["defaulted"] = true;
      }
      if (MD->isTrivial()) {
        O["trivial"] = true;
      }
    }
    if (const auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A;
      dumpTArgs(*TA, A);
      O["targs"] = std::move(A);
    }
    json::Array PT;
    for (const auto *P : FD->parameters()) {
      PT.push_back(type(P->getType()));
    }
    O["pt"] = std::move(PT);
    O["ret"] = type(FD->getReturnType());
    const FunctionDecl *Def = nullptr;
    bool Has = FD->hasBody(Def);
    const Decl *Where = Has ? (const Decl *)Def : FD;
    const Decl *Pat = FD->getTemplateInstantiationPattern();
    if (inRoot(Where) || (Pat && inRoot(Pat))) {
      O["mine"] = true;
      if (Has && Def) {
        Pending.push_back(Def);
      }
    }
    return O;
  }

  json::Value varInfo(const ValueDecl *VD) {
    json::Object O;
    O["id"] = localId(VD);
    O["n"] = VD->getNameAsString();
    O["t"] = type(VD->getType());
    return std::move(O);
  }

  json::Value declRef(const ValueDecl *D, QualType T) {
    json::Object O;
    O["k"] = "ref";
    O["t"] = type(T);
    if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["d"] = "enumconst";
      O["v"] = (int64_t)EC->getInitVal().getExtValue();
      O["n"] = EC->getNameAsString();
    } else if (const auto *FD = dyn_cast<FunctionDecl>(D)) {
      O["d"] = "fn";
      O["f"] = fnRef(FD);
    } else if (const auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->isLocalVarDeclOrParm() && !VD->isStaticLocal()) {
        O["d"] = "var";
        O["id"] = localId(VD);
        O["n"] = VD->getNameAsString();
        O["vt"] = type(VD->getType());
      } else {
        O["d"] = "global";
        O["qn"] = qname(VD);
        O["vt"] = type(VD->getType());
        dumpGlobal(VD);
      }
    } else if (const auto *BD = dyn_cast<BindingDecl>(D)) {
      if (const VarDecl *HV = BD->getHoldingVar()) {
        O["d"] = "var";
        O["id"] = localId(HV);
        O["n"] = BD->getNameAsString();
        O["vt"] = type(HV->getType());
      } else {
        O["d"] = "binding";
        O["e"] = expr(BD->getBinding());
        O["n"] = BD->getNameAsString();
      }
    } else {
      O["d"] = "other";
      O["n"] = D->getNameAsString();
    }
    return std::move(O);
  }

  void dumpGlobal(const VarDecl *VD) {
    std::string N = qname(VD);
    if (!SeenGlob.insert(N).second) {
      return;
    }
    json::Object O;
    O["t"] = type(VD->getType());
    const VarDecl *Def = nullptr;
    const Expr *I = VD->getAnyInitializer(Def);
    if (I && !I->isInstantiationDependent() &&
        (inRoot(VD) || VD->getType()->isIntegralOrEnumerationType())) {
      O["init"] = expr(I);
    }
    Globals[N] = std::move(O);
  }

  json::Array exprs(ArrayRef<const Expr *> Es) {
    json::Array A;
    for (const Expr *E : Es) {
      A.push_back(expr(E));
    }
    return A;
  }
  template <class R> json::Array exprRange(R Rg) {
    json::Array A;
    for (const auto *E : Rg) {
      A.push_back(expr(cast<Expr>(E)));
    }
    return A;
  }

  json::Value expr(const Expr *E) {
    if (!E) {
      return nullptr;
    }
    json::Object O;
    auto Base = [&](const char *K) {
      O["k"] = K;
      O["t"] = type(E->getType());
      if (E->isLValue()) {
        O["lv"] = 1;
      } else if (E->isXValue()) {
        O["lv"] = 2;
      }
      O["ln"] = src(E->getBeginLoc());
    };
    if (const auto *P = dyn_cast<ParenExpr>(E)) {
      return expr(P->getSubExpr());
    }
    if (const auto *P = dyn_cast<FullExpr>(E)) {
      return expr(P->getSubExpr());
    }
    if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) {
      return expr(P->getSubExpr());
    }
    if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
      return expr(P->getReplacement());
    }
    if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) {
      return expr(P->getExpr());
    }
    if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) {
      return expr(P->getExpr());
    }
    if (const auto *P = dyn_cast<SourceLocExpr>(E)) {
      Base("srcloc");
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Base("initlist_std");
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Base("mat");
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<ChooseExpr>(E)) {
      return expr(P->getChosenSubExpr());
    }
    if (const auto *P = dyn_cast<GenericSelectionExpr>(E)) {
      return expr(P->getResultExpr());
    }
    if (const auto *P = dyn_cast<OpaqueValueExpr>(E)) {
      return expr(P->getSourceExpr());
    }
    if (const auto *P = dyn_cast<ImplicitCastExpr>(E)) {
      Base("icast");
      O["ck"] = P->getCastKindName();
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<ExplicitCastExpr>(E)) {
      Base("cast");
      O["ck"] = P->getCastKindName();
      O["style"] = P->getStmtClassName();
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<IntegerLiteral>(E)) {
      Base("int");
      llvm::SmallString<32> Str;
      P->getValue().toString(Str, 10, P->getType()->isSignedIntegerType());
      O["v"] = Str.str().str();
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CharacterLiteral>(E)) {
      Base("int");
      O["v"] = std::to_string(P->getValue());
      O["char"] = true;
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Base("bool");
      O["v"] = P->getValue();
      return std::move(O);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      Base("null");
      return std::move(O);
    }
    if (const auto *P = dyn_cast<FloatingLiteral>(E)) {
      Base("float");
      llvm::SmallString<32> Str;
      P->getValue().toString(Str);
      O["v"] = Str.str().str();
      return std::move(O);
    }
    if (const auto *P = dyn_cast<StringLiteral>(E)) {
      Base("str");
      if (P->getCharByteWidth() == 1) {
        json::Array A;
        std::string Bytes = P->getString().str();
        if (json::isUTF8(Bytes)) {
          O["v"] = Bytes;
        } else {
          for (unsigned char C : Bytes) {
            A.push_back((int)C);
          }
          O["bytes"] = std::move(A);
        }
      }
      return std::move(O);
    }
    if (isa<PredefinedExpr>(E)) {
      Base("str");
      O["v"] = "__func__";
      return std::move(O);
    }
    if (const auto *P = dyn_cast<DeclRefExpr>(E)) {
      json::Value V = declRef(P->getDecl(), P->getType());
      V.getAsObject()->insert({"ln", src(E->getBeginLoc())});
      if (E->isLValue())
        V.getAsObject()->insert({"lv", 1});
      return V;
    }
    if (isa<CXXThisExpr>(E)) {
      Base("this");
      return std::move(O);
    }
    if (const auto *P = dyn_cast<MemberExpr>(E)) {
      Base("member");
      O["arrow"] = P->isArrow();
      O["e"] = expr(P->getBase());
      if (const auto *FD = dyn_cast<FieldDecl>(P->getMemberDecl())) {
        O["field"] = FD->getName().str();
        O["qn"] = qname(FD);
        O["rec"] = type(Ctx.getRecordType(FD->getParent()));
      } else if (const auto *VD = dyn_cast<VarDecl>(P->getMemberDecl())) {
        return declRef(VD, E->getType());
      } else if (const auto *EC =
                     dyn_cast<EnumConstantDecl>(P->getMemberDecl())) {
        return declRef(EC, E->getType());
      } else if (const auto *M = dyn_cast<FunctionDecl>(P->getMemberDecl())) {
        O["method"] = fnRef(M);
      }
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      Base("mcall");
      const Expr *C = P->getCallee()->IgnoreParens();
      if (const auto *ME = dyn_cast<MemberExpr>(C)) {
        O["f"] = fnRef(cast<FunctionDecl>(ME->getMemberDecl()));
        O["arrow"] = ME->isArrow();
        O["obj"] = expr(ME->getBase());
        if (ME->hasQualifier()) {
          O["qual"] = true;
        }
        O["args"] = exprRange(P->arguments());
        return std::move(O);
      }
      O["k"] = "unsupported";
      O["what"] = "pointer-to-member call";
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      Base("opcall");
      O["op"] = getOperatorSpelling(P->getOperator());
      if (const FunctionDecl *FD = P->getDirectCallee()) {
        O["f"] = fnRef(FD);
        O["method"] = isa<CXXMethodDecl>(FD);
      }
      O["args"] = exprRange(P->arguments());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CallExpr>(E)) {
      Base("call");
      if (const FunctionDecl *FD = P->getDirectCallee()) {
        O["f"] = fnRef(FD);
      } else {
        O["callee"] = expr(P->getCallee());
      }
      O["args"] = exprRange(P->arguments());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Base("inhctor");
      O["f"] = fnRef(P->getConstructor());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXConstructExpr>(E)) {
      Base("ctor");
      O["f"] = fnRef(P->getConstructor());
      O["args"] = exprRange(P->arguments());
      if (P->isElidable()) {
        O["elide"] = true;
      }
      if (P->isListInitialization()) {
        O["list"] = true;
      }
      if (P->requiresZeroInitialization()) {
        O["zero"] = true;
      }
      return std::move(O);
    }
    if (const auto *P = dyn_cast<BinaryOperator>(E)) {
      Base(isa<CompoundAssignOperator>(E) ? "cassign" : "bin");
      O["op"] = P->getOpcodeStr().str();
      if (const auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
        O["ct"] = type(CA->getComputationResultType());
      }
      O["l"] = expr(P->getLHS());
      O["r"] = expr(P->getRHS());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      return expr(P->getSemanticForm());
    }
    if (const auto *P = dyn_cast<UnaryOperator>(E)) {
      Base("un");
      O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      O["post"] = P->isPostfix();
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<ConditionalOperator>(E)) {
      Base("cond");
      O["c"] = expr(P->getCond());
      O["l"] = expr(P->getTrueExpr());
      O["r"] = expr(P->getFalseExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<ArraySubscriptExpr>(E)) {
      Base("index");
      O["e"] = expr(P->getBase());
      O["i"] = expr(P->getIdx());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<LambdaExpr>(E)) {
      Base("lambda");
      json::Array Caps;
      auto InitIt = P->capture_init_begin();
      for (const auto &C : P->captures()) {
        json::Object CO;
        if (C.capturesThis()) {
          CO["this"] = true;
          CO["star"] = C.getCaptureKind() == LCK_StarThis;
        } else if (C.capturesVariable()) {
          const ValueDecl *VD = C.getCapturedVar();
          CO["id"] = localId(VD);
          CO["n"] = VD->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          CO["t"] = type(VD->getType());
          const auto *V = dyn_cast<VarDecl>(VD);
          if (V && V->isInitCapture()) {
            CO["initcap"] = true;
            CO["init"] = expr(V->getInit());
          }
        }
        ++InitIt;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      const CXXMethodDecl *Op = P->getCallOperator();
      if (P->isGenericLambda()) {
        O["generic"] = true;
        // instantiated call operators
        json::Array Insts;
        if (FunctionTemplateDecl *FT = Op->getDescribedFunctionTemplate()) {
          for (auto *Sp : FT->specializations()) {
            if (Sp->hasBody()) {
              Insts.push_back(lambdaBody(cast<CXXMethodDecl>(Sp)));
            }
          }
        }
        O["insts"] = std::move(Insts);
      } else {
        O["body"] = lambdaBody(Op);
      }
      O["lid"] = localId(P->getLambdaClass()->getCanonicalDecl());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *Sem =
          P->isSemanticForm() ? P : (P->getSemanticForm() ? P->getSemanticForm() : P);
      if (Sem->isTransparent() && Sem->getNumInits() == 1) {
        return expr(Sem->getInit(0));
      }
      Base("initlist");
      json::Array A;
      for (const Expr *I : Sem->inits()) {
        A.push_back(expr(I));
      }
      O["inits"] = std::move(A);
      return std::move(O);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      Base("valueinit");
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXNewExpr>(E)) {
      Base("new");
      O["at"] = type(P->getAllocatedType());
      O["init"] = expr(P->getInitializer());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXDeleteExpr>(E)) {
      Base("delete");
      O["e"] = expr(P->getArgument());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<ArrayInitLoopExpr>(E)) {
      Base("arraycopy");
      O["e"] = expr(P->getCommonExpr());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<StmtExpr>(E)) {
      Base("stmtexpr");
      O["body"] = stmt(P->getSubStmt());
      return std::move(O);
    }
    if (const auto *P = dyn_cast<CXXThrowExpr>(E)) {
      Base("throw");
      O["e"] = expr(P->getSubExpr());
      return std::move(O);
    }
    Expr::EvalResult R;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
        E->EvaluateAsInt(R, Ctx)) {
      Base("int");
      llvm::SmallString<32> Str;
      R.Val.getInt().toString(Str, 10);
      O["v"] = Str.str().str();
      return std::move(O);
    }
    Base("unsupported");
    O["what"] = E->getStmtClassName();
    return std::move(O);
  }

  json::Value lambdaBody(const CXXMethodDecl *Op) {
    json::Object O;
    json::Array Ps;
    for (const auto *P : Op->parameters()) {
      Ps.push_back(varInfo(P));
    }
    O["params"] = std::move(Ps);
    O["ret"] = type(Op->getReturnType());
    O["body"] = stmt(Op->getBody());
    O["usr"] = usr(Op);
    return std::move(O);
  }

  json::Value varDecl(const VarDecl *VD) {
    json::Object O;
    O["id"] = localId(VD);
    O["n"] = VD->getNameAsString();
    O["t"] = type(VD->getType());
    if (VD->isStaticLocal()) {
      O["static"] = true;
      O["qn"] = qname(VD);
      dumpGlobal(VD);
    }
    if (VD->hasInit()) {
      O["init"] = expr(VD->getInit());
    }
    if (const auto *DD = dyn_cast<DecompositionDecl>(VD)) {
      json::Array A;
      for (const auto *B : DD->bindings()) {
        json::Object BO;
        BO["n"] = B->getNameAsString();
        if (const VarDecl *HV = B->getHoldingVar()) {
          BO["hold"] = varDecl(HV);
        } else {
          BO["e"] = expr(B->getBinding());
        }
        A.push_back(std::move(BO));
      }
      O["bindings"] = std::move(A);
    }
    return std::move(O);
  }

  json::Value stmt(const Stmt *St) {
    if (!St) {
      return nullptr;
    }
    if (const auto *E = dyn_cast<Expr>(St)) {
      return json::Object{{"k", "expr"}, {"e", expr(E)}, {"ln", src(E->getBeginLoc())}};
    }
    json::Object O;
    O["ln"] = src(St->getBeginLoc());
    if (const auto *P = dyn_cast<CompoundStmt>(St)) {
      O["k"] = "block";
      json::Array A;
      for (const Stmt *C : P->body()) {
        A.push_back(stmt(C));
      }
      O["b"] = std::move(A);
    } else if (const auto *P = dyn_cast<DeclStmt>(St)) {
      O["k"] = "decl";
      json::Array A;
      for (const Decl *D : P->decls()) {
        if (const auto *VD = dyn_cast<VarDecl>(D)) {
          A.push_back(varDecl(VD));
        } else if (const auto *TD = dyn_cast<TypeDecl>(D)) {
          (void)TD;
        }
      }
      O["vars"] = std::move(A);
    } else if (const auto *P = dyn_cast<ReturnStmt>(St)) {
      O["k"] = "return";
      O["e"] = expr(P->getRetValue());
    } else if (const auto *P = dyn_cast<IfStmt>(St)) {
      O["k"] = "if";
      O["init"] = stmt(P->getInit());
      if (const auto *CV = P->getConditionVariable()) {
        O["cv"] = varDecl(CV);
      }
      O["c"] = expr(P->getCond());
      if (P->isConstexpr()) {
        O["constexpr"] = true;
        Expr::EvalResult R;
        if (!P->getCond()->isValueDependent() &&
            P->getCond()->EvaluateAsInt(R, Ctx)) {
          O["cval"] = R.Val.getInt().getBoolValue();
        }
      }
      O["then"] = stmt(P->getThen());
      O["else"] = stmt(P->getElse());
    } else if (const auto *P = dyn_cast<WhileStmt>(St)) {
      O["k"] = "while";
      if (const auto *CV = P->getConditionVariable()) {
        O["cv"] = varDecl(CV);
      }
      O["c"] = expr(P->getCond());
      O["body"] = stmt(P->getBody());
    } else if (const auto *P = dyn_cast<DoStmt>(St)) {
      O["k"] = "do";
      O["c"] = expr(P->getCond());
      O["body"] = stmt(P->getBody());
    } else if (const auto *P = dyn_cast<ForStmt>(St)) {
      O["k"] = "for";
      O["init"] = stmt(P->getInit());
      if (const auto *CV = P->getConditionVariable()) {
        O["cv"] = varDecl(CV);
      }
      O["c"] = expr(P->getCond());
      O["inc"] = expr(P->getInc());
      O["body"] = stmt(P->getBody());
    } else if (const auto *P = dyn_cast<CXXForRangeStmt>(St)) {
      O["k"] = "forrange";
      O["init"] = stmt(P->getInit());
      O["range"] = expr(P->getRangeInit());
      O["var"] = varDecl(P->getLoopVariable());
      if (P->getBeginStmt() && P->getEndStmt()) {
        O["begin"] = stmt(P->getBeginStmt());
        O["end"] = stmt(P->getEndStmt());
        O["rangevar"] = stmt(P->getRangeStmt());
        O["cond"] = expr(P->getCond());
        O["incr"] = expr(P->getInc());
      }
      O["body"] = stmt(P->getBody());
    } else if (isa<BreakStmt>(St)) {
      O["k"] = "break";
    } else if (isa<ContinueStmt>(St)) {
      O["k"] = "continue";
    } else if (isa<NullStmt>(St)) {
      O["k"] = "null";
    } else if (const auto *P = dyn_cast<SwitchStmt>(St)) {
      O["k"] = "switch";
      O["init"] = stmt(P->getInit());
      if (const auto *CV = P->getConditionVariable()) {
        O["cv"] = varDecl(CV);
      }
      O["c"] = expr(P->getCond());
      O["body"] = stmt(P->getBody());
    } else if (const auto *P = dyn_cast<CaseStmt>(St)) {
      O["k"] = "case";
      Expr::EvalResult R;
      if (P->getLHS()->EvaluateAsInt(R, Ctx)) {
        O["v"] = (int64_t)R.Val.getInt().getExtValue();
      }
      O["s"] = stmt(P->getSubStmt());
    } else if (const auto *P = dyn_cast<DefaultStmt>(St)) {
      O["k"] = "default";
      O["s"] = stmt(P->getSubStmt());
    } else if (const auto *P = dyn_cast<AttributedStmt>(St)) {
      return stmt(P->getSubStmt());
    } else if (const auto *P = dyn_cast<LabelStmt>(St)) {
      O["k"] = "unsupported";
      O["what"] = "label";
      (void)P;
    } else {
      O["k"] = "unsupported";
      O["what"] = St->getStmtClassName();
    }
    return std::move(O);
  }

  void function(const FunctionDecl *FD) {
    if (FD->isDependentContext()) {
      return;
    }
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def) || !Def) {
      return;
    }
    if (!Def->getBody()) {
      return;
    }
    std::string U = usr(Def);
    if (!SeenFn.insert(U).second) {
      return;
    }
    if (const auto *MD = dyn_cast<CXXMethodDecl>(Def)) {
      if (MD->getParent()->isLambda()) {
        return;
      }
    }
    json::Object O = fnRef(Def);
    json::Array Ps;
    for (const auto *P : Def->parameters()) {
      json::Value V = varInfo(P);
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() &&
          !P->hasUnparsedDefaultArg()) {
        (*V.getAsObject())["def"] = expr(P->getDefaultArg());
      } else if (P->hasUninstantiatedDefaultArg()) {
        (*V.getAsObject())["def"] = nullptr;
      }
      Ps.push_back(std::move(V));
    }
    O["params"] = std::move(Ps);
    O["line"] = src(Def->getBeginLoc());
    O["endline"] = src(Def->getEndLoc());
    O["file"] = Ctx.getSourceManager()
                    .getFilename(Ctx.getSourceManager().getExpansionLoc(
                        Def->getLocation()))
                    .str();
    if (const auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
      json::Array Is;
      for (const auto *I : CD->inits()) {
        json::Object IO;
        if (I->isBaseInitializer()) {
          IO["base"] = type(QualType(I->getBaseClass(), 0));
        } else if (I->isDelegatingInitializer()) {
          IO["deleg"] = true;
        } else if (I->isAnyMemberInitializer()) {
          IO["field"] = I->getAnyMember()->getName().str();
          IO["qn"] = qname(I->getAnyMember());
          IO["ft"] = type(I->getAnyMember()->getType());
        }
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = stmt(Def->getBody());
    Functions[U] = std::move(O);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *Dc) {
    if (!Dc) {
      return true;
    }
    // skip top-level namespaces that cannot contain code of ours
    if (auto *NS = dyn_cast<NamespaceDecl>(Dc)) {
      if (NS->getName() == "std" || NS->getName() == "__gnu_cxx" ||
          (NS->getName() == "llvm" && !D.inRoot(NS)) ||
          (NS->getName() == "z3" && !D.inRoot(NS))) {
        return true;
      }
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(Dc);
  }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    const Decl *Pat = FD->getTemplateInstantiationPattern();
    if (FD->isDependentContext()) {
      return true;
    }
    if (FD->isThisDeclarationADefinition() || FD->isImplicit() || FD->isDefaulted()) {
      if (D.inRoot(FD) || (Pat && D.inRoot(Pat))) {
        D.function(FD);
      }
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isDependentContext() || !RD->isThisDeclarationADefinition()) {
      return true;
    }
    if (D.inRoot(RD) && !RD->isLambda()) {
      D.type(D.Ctx.getRecordType(RD));
    }
    return true;
  }

private:
  Dumper &D;
};

class Consumer : public ASTConsumer {
public:
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "parse errors\n";
      return;
    }
    Dumper D(Ctx, nullptr);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!D.Pending.empty()) {
      auto P = std::move(D.Pending);
      D.Pending.clear();
      for (const auto *F : P) {
        D.function(F);
      }
    }
    json::Object Out;
    Out["functions"] = std::move(D.Functions);
    Out["records"] = std::move(D.Records);
    Out["enums"] = std::move(D.Enums);
    Out["globals"] = std::move(D.Globals);
    Out["types"] = std::move(D.Types);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(Out));
  }
  CompilerInstance &CI;
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

// usage: extract ROOT OUT FILE -- flags
int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: extract ROOT OUT FILE -- flags...\n";
    return 2;
  }
  Root = argv[1];
  OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int I = 5; I < argc; ++I) {
    Flags.push_back(argv[I]);
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
