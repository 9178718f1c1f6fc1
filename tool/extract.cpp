// cppvc-extract: prints, as JSON, the type-checked definition of every function whose
// body lies under one of the given roots (template instantiations included), exactly as
// clang's semantic analysis sees it after overload resolution and instantiation.
//
//   cppvc-extract ROOT[,ROOT...] file.cpp -- <clang args>
//
// Dropped on purpose: comments, attributes, no-op casts/parentheses, destructor calls,
// exception specifications.  Everything else that is not recognised is emitted as
// {"k":"Unsupported",...} so that the verifier refuses the function instead of guessing.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> g_roots;
static std::string              g_out;

class Emitter {
public:
  ASTContext&                        C;
  SourceManager&                     SM;
  PrintingPolicy                     PP;
  std::unique_ptr<ASTNameGenerator>  NG;
  Array                              types;
  std::map<std::string, int>         typeIds;
  Object                             records;
  std::set<std::string>              recordsSeen;
  Object                             functions;
  Object                             enums;

  explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword      = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.PrintCanonicalTypes     = true;
    PP.SuppressInlineNamespace = true;
    PP.FullyQualifiedName      = true;
    PP.TerseOutput             = true;
    NG = std::make_unique<ASTNameGenerator>(C);
  }

  bool inRoots(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string f = F.str();
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0)
        return true;
    return false;
  }

  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return (SM.getFilename(L) + ":" + llvm::Twine(SM.getExpansionLineNumber(L))).str();
  }

  std::string qname(const NamedDecl* D) {
    // qualified name without template arguments and inline namespaces
    std::vector<std::string> parts;
    std::string              n;
    if (auto* FD = dyn_cast<FunctionDecl>(D)) {
      if (isa<CXXConstructorDecl>(FD))
        n = "{ctor}";
      else if (isa<CXXDestructorDecl>(FD))
        n = "{dtor}";
      else if (isa<CXXConversionDecl>(FD))
        n = "{conv}";
      else
        n = D->getDeclName().getAsString();
    } else
      n = D->getDeclName().getAsString();
    if (n.empty())
      n = "(anon@" + loc(D->getLocation()) + ")";
    parts.push_back(n);
    const DeclContext* DC = D->getDeclContext();
    while (DC) {
      if (auto* NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace())
          parts.push_back(NS->getNameAsString());
      } else if (auto* RD = dyn_cast<RecordDecl>(DC)) {
        std::string rn = RD->getNameAsString();
        if (rn.empty())
          rn = "(anon)";
        parts.push_back(rn);
      } else if (auto* FD = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(isa<CXXConstructorDecl>(FD) ? "{ctor}" : FD->getDeclName().getAsString());
      }
      DC = DC->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!r.empty())
        r += "::";
      r += *it;
    }
    return r;
  }

  std::string tstr(QualType T) {
    return T.getCanonicalType().getAsString(PP);
  }

  int type(QualType T) {
    if (T.isNull())
      return -1;
    T                = T.getCanonicalType();
    std::string  key = T.getAsString(PP);
    auto         it  = typeIds.find(key);
    if (it != typeIds.end())
      return it->second;
    int id       = (int)types.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = key;
    if (T.isConstQualified())
      o["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (auto* BT = dyn_cast<BuiltinType>(U.getTypePtr())) {
      if (BT->getKind() == BuiltinType::Bool) {
        o["k"] = "bool";
      } else if (BT->isInteger()) {
        o["k"]      = "int";
        o["bits"]   = (int64_t)C.getTypeSize(U);
        o["signed"] = BT->isSignedInteger();
      } else if (BT->isFloatingPoint()) {
        o["k"]    = "float";
        o["bits"] = (int64_t)C.getTypeSize(U);
      } else if (BT->getKind() == BuiltinType::Void)
        o["k"] = "void";
      else if (BT->getKind() == BuiltinType::NullPtr)
        o["k"] = "nullptr";
      else
        o["k"] = "builtin";
    } else if (auto* PT = dyn_cast<PointerType>(U.getTypePtr())) {
      o["k"]  = "ptr";
      o["to"] = type(PT->getPointeeType());
    } else if (auto* RT = dyn_cast<ReferenceType>(U.getTypePtr())) {
      o["k"]  = "ref";
      o["rv"] = isa<RValueReferenceType>(RT);
      o["to"] = type(RT->getPointeeType());
    } else if (auto* AT = dyn_cast<ConstantArrayType>(U.getTypePtr())) {
      o["k"]  = "array";
      o["n"]  = (int64_t)AT->getSize().getZExtValue();
      o["el"] = type(AT->getElementType());
    } else if (auto* ET = dyn_cast<EnumType>(U.getTypePtr())) {
      o["k"]    = "enum";
      o["name"] = qname(ET->getDecl());
      auto it   = ET->getDecl()->getIntegerType();
      if (!it.isNull())
        o["bits"] = (int64_t)C.getTypeSize(it);
    } else if (auto* RT2 = dyn_cast<RecordType>(U.getTypePtr())) {
      o["k"]    = "rec";
      auto* RD  = RT2->getDecl();
      o["name"] = qname(RD);
      o["full"] = tstr(U);
      Array ta;
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD))
        targs(S->getTemplateArgs(), ta);
      o["targs"] = std::move(ta);
      if (auto* CRD = dyn_cast<CXXRecordDecl>(RD))
        if (CRD->isLambda())
          o["lambda"] = true;
      types[id] = std::move(o);
      record(RD, tstr(U));
      return id;
    } else if (isa<FunctionProtoType>(U.getTypePtr())) {
      o["k"] = "func";
    } else if (isa<MemberPointerType>(U.getTypePtr())) {
      o["k"] = "memptr";
    } else
      o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  void targs(const TemplateArgumentList& L, Array& out) {
    for (auto& A : L.asArray())
      targ(A, out);
  }
  void targ(const TemplateArgument& A, Array& out) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      out.push_back(Object{{"t", type(A.getAsType())}});
      break;
    case TemplateArgument::Integral:
      out.push_back(Object{{"i", llvm::toString(A.getAsIntegral(), 10)}});
      break;
    case TemplateArgument::Pack:
      for (auto& B : A.pack_elements())
        targ(B, out);
      break;
    case TemplateArgument::Template: {
      if (auto* TD = A.getAsTemplate().getAsTemplateDecl())
        out.push_back(Object{{"tmpl", qname(TD)}});
      break;
    }
    default:
      out.push_back(Object{{"other", true}});
    }
  }

  void record(RecordDecl* RD, const std::string& full) {
    if (!recordsSeen.insert(full).second)
      return;
    auto* D = RD->getDefinition();
    if (!D)
      return;
    bool  lam = isa<CXXRecordDecl>(D) && cast<CXXRecordDecl>(D)->isLambda();
    if (lam)
      return;
    bool user = inRoots(D->getLocation());
    Object o;
    o["name"] = qname(D);
    o["user"] = user;
    o["loc"]  = loc(D->getLocation());
    if (user) {
      Array fs, bs;
      for (auto* F : D->fields())
        fs.push_back(Object{{"name", F->getNameAsString()}, {"t", type(F->getType())}, {"idx", (int64_t)F->getFieldIndex()}});
      if (auto* CD = dyn_cast<CXXRecordDecl>(D)) {
        for (auto& B : CD->bases())
          bs.push_back(type(B.getType()));
        o["poly"]     = CD->isPolymorphic();
        o["abstract"] = CD->isAbstract();
      }
      o["fields"] = std::move(fs);
      o["bases"]  = std::move(bs);
    }
    records[full] = std::move(o);
  }

  // ---- expressions
  Value E(const Expr* X) {
    if (!X)
      return nullptr;
    X = X->IgnoreParens();
    if (auto* Y = dyn_cast<ExprWithCleanups>(X))
      return E(Y->getSubExpr());
    if (auto* Y = dyn_cast<MaterializeTemporaryExpr>(X))
      return E(Y->getSubExpr());
    if (auto* Y = dyn_cast<CXXBindTemporaryExpr>(X))
      return E(Y->getSubExpr());
    if (auto* Y = dyn_cast<ConstantExpr>(X))
      return E(Y->getSubExpr());
    if (auto* Y = dyn_cast<SubstNonTypeTemplateParmExpr>(X))
      return E(Y->getReplacement());
    if (auto* Y = dyn_cast<CXXDefaultArgExpr>(X))
      return E(Y->getExpr());
    if (auto* Y = dyn_cast<CXXDefaultInitExpr>(X))
      return E(Y->getExpr());
    if (auto* Y = dyn_cast<CXXStdInitializerListExpr>(X)) {
      Object o = node("StdInitList", X);
      o["c"]   = Array{E(Y->getSubExpr())};
      return o;
    }
    if (auto* Y = dyn_cast<OpaqueValueExpr>(X))
      return E(Y->getSourceExpr());
    if (auto* Y = dyn_cast<CXXFunctionalCastExpr>(X))
      return castE(Y);
    if (auto* Y = dyn_cast<CastExpr>(X))
      return castE(Y);
    if (auto* Y = dyn_cast<IntegerLiteral>(X)) {
      Object o = node("Int", X);
      o["v"]   = llvm::toString(Y->getValue(), 10, Y->getType()->isSignedIntegerType());
      return o;
    }
    if (auto* Y = dyn_cast<CharacterLiteral>(X)) {
      Object o = node("Int", X);
      o["v"]   = std::to_string((int)(signed char)Y->getValue());
      return o;
    }
    if (auto* Y = dyn_cast<FloatingLiteral>(X)) {
      Object                  o = node("Float", X);
      llvm::SmallVector<char, 64> s;
      Y->getValue().toString(s, 40, 0);
      o["v"] = std::string(s.begin(), s.end());
      return o;
    }
    if (auto* Y = dyn_cast<CXXBoolLiteralExpr>(X)) {
      Object o = node("Bool", X);
      o["v"]   = Y->getValue();
      return o;
    }
    if (auto* Y = dyn_cast<StringLiteral>(X)) {
      Object o = node("Str", X);
      std::string s = Y->isOrdinary() || Y->isUTF8() ? Y->getString().str() : "?";
      o["v"]   = json::isUTF8(s) ? s : json::fixUTF8(s);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X))
      return node("Null", X);
    if (isa<CXXThisExpr>(X))
      return node("This", X);
    if (auto* Y = dyn_cast<DeclRefExpr>(X)) {
      Object o = node("Ref", X);
      declref(o, Y->getDecl());
      return o;
    }
    if (auto* Y = dyn_cast<MemberExpr>(X)) {
      Object o  = node("Member", X);
      o["arrow"] = Y->isArrow();
      o["name"] = Y->getMemberDecl()->getNameAsString();
      o["q"]    = qname(Y->getMemberDecl());
      if (auto* VD = dyn_cast<VarDecl>(Y->getMemberDecl())) {
        Object r = node("Ref", X);
        declref(r, VD);
        return r;
      }
      o["c"] = Array{E(Y->getBase())};
      return o;
    }
    if (auto* Y = dyn_cast<UnaryOperator>(X)) {
      Object o = node("Un", X);
      o["op"]  = UnaryOperator::getOpcodeStr(Y->getOpcode()).str();
      o["post"] = Y->isPostfix();
      o["c"]   = Array{E(Y->getSubExpr())};
      return o;
    }
    if (auto* Y = dyn_cast<CompoundAssignOperator>(X)) {
      Object o = node("CompAssign", X);
      o["op"]  = BinaryOperator::getOpcodeStr(Y->getOpcode()).str();
      o["ct"]  = type(Y->getComputationResultType());
      o["clt"] = type(Y->getComputationLHSType());
      o["c"]   = Array{E(Y->getLHS()), E(Y->getRHS())};
      return o;
    }
    if (auto* Y = dyn_cast<BinaryOperator>(X)) {
      Object o = node("Bin", X);
      o["op"]  = Y->getOpcodeStr().str();
      o["c"]   = Array{E(Y->getLHS()), E(Y->getRHS())};
      return o;
    }
    if (auto* Y = dyn_cast<ConditionalOperator>(X)) {
      Object o = node("Cond", X);
      o["c"]   = Array{E(Y->getCond()), E(Y->getTrueExpr()), E(Y->getFalseExpr())};
      return o;
    }
    if (auto* Y = dyn_cast<ArraySubscriptExpr>(X)) {
      Object o = node("Index", X);
      o["c"]   = Array{E(Y->getBase()), E(Y->getIdx())};
      return o;
    }
    if (auto* Y = dyn_cast<CXXMemberCallExpr>(X)) {
      Object o = node("Call", X);
      callee(o, Y->getMethodDecl());
      const Expr* ce = Y->getCallee()->IgnoreParens();
      if (auto* ME = dyn_cast<MemberExpr>(ce)) {
        o["arrow"]   = ME->isArrow();
        o["obj"]     = E(ME->getBase());
        o["objt"]    = type(ME->getBase()->getType());
        o["virtual"] = Y->getMethodDecl() && Y->getMethodDecl()->isVirtual() && !ME->hasQualifier();
      } else
        return unsup("membercall", X);
      o["c"] = args(Y->getArgs(), Y->getNumArgs());
      return o;
    }
    if (auto* Y = dyn_cast<CXXOperatorCallExpr>(X)) {
      Object o = node("Call", X);
      auto*  FD = Y->getDirectCallee();
      if (!FD)
        return unsup("opcall", X);
      callee(o, FD);
      o["oper"] = getOperatorSpelling(Y->getOperator());
      if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        o["obj"]  = E(Y->getArg(0));
        o["objt"] = type(Y->getArg(0)->getType());
        o["arrow"] = false;
        o["virtual"] = cast<CXXMethodDecl>(FD)->isVirtual();
        o["c"]    = args(Y->getArgs() + 1, Y->getNumArgs() - 1);
      } else
        o["c"] = args(Y->getArgs(), Y->getNumArgs());
      return o;
    }
    if (auto* Y = dyn_cast<CallExpr>(X)) {
      Object o  = node("Call", X);
      auto*  FD = Y->getDirectCallee();
      if (FD) {
        callee(o, FD);
      } else {
        o["indirect"] = E(Y->getCallee());
      }
      o["c"] = args(Y->getArgs(), Y->getNumArgs());
      return o;
    }
    if (auto* Y = dyn_cast<CXXConstructExpr>(X)) {
      Object o = node("Construct", X);
      auto*  D = Y->getConstructor();
      callee(o, D);
      o["copy"]  = D->isCopyConstructor();
      o["move"]  = D->isMoveConstructor();
      o["default"] = D->isDefaultConstructor();
      o["trivial"] = D->isTrivial() || D->isDefaulted();
      o["list"]  = Y->isListInitialization();
      o["ilist"] = Y->isStdInitListInitialization();
      o["zero"]  = Y->requiresZeroInitialization();
      o["c"]     = args(Y->getArgs(), Y->getNumArgs());
      return o;
    }
    if (auto* Y = dyn_cast<CXXInheritedCtorInitExpr>(X))
      return unsup("inheritedctor", X);
    if (auto* Y = dyn_cast<InitListExpr>(X)) {
      Object o = node("InitList", X);
      auto*  S = Y->isSemanticForm() ? Y : (Y->getSemanticForm() ? Y->getSemanticForm() : Y);
      Array  a;
      for (unsigned i = 0; i < S->getNumInits(); ++i)
        a.push_back(E(S->getInit(i)));
      o["c"] = std::move(a);
      if (S->hasArrayFiller())
        o["filler"] = E(S->getArrayFiller());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X))
      return node("ZeroInit", X);
    if (auto* Y = dyn_cast<CXXNewExpr>(X)) {
      if (Y->isArray())
        return unsup("newarray", X);
      Object o = node("New", X);
      o["at"]  = type(Y->getAllocatedType());
      o["c"]   = Array{E(Y->getInitializer())};
      return o;
    }
    if (auto* Y = dyn_cast<CXXDeleteExpr>(X)) {
      Object o = node("Delete", X);
      o["c"]   = Array{E(Y->getArgument())};
      return o;
    }
    if (auto* Y = dyn_cast<CXXThrowExpr>(X)) {
      Object o = node("Throw", X);
      o["c"]   = Array{E(Y->getSubExpr())};
      if (Y->getSubExpr())
        o["et"] = type(Y->getSubExpr()->getType());
      return o;
    }
    if (auto* Y = dyn_cast<LambdaExpr>(X)) {
      Object o = node("Lambda", X);
      Array  caps;
      auto   ii = Y->capture_init_begin();
      for (auto& c : Y->captures()) {
        Object k;
        if (c.capturesThis()) {
          k["this"] = true;
          k["byref"] = c.getCaptureKind() != LCK_StarThis;
        } else if (c.capturesVariable()) {
          k["id"]    = declId(c.getCapturedVar());
          k["name"]  = c.getCapturedVar()->getNameAsString();
          k["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (*ii)
            k["init"] = E(*ii);
        }
        caps.push_back(std::move(k));
        ++ii;
      }
      o["caps"]   = std::move(caps);
      auto* M     = Y->getCallOperator();
      if (Y->isGenericLambda()) {
        // take the first instantiation, if any
        FunctionDecl* inst = nullptr;
        if (auto* FT = M->getDescribedFunctionTemplate())
          for (auto* S : FT->specializations()) { inst = S; break; }
        if (!inst)
          return unsup("genericlambda", X);
        M = cast<CXXMethodDecl>(inst);
      }
      o["params"] = params(M);
      o["ret"]    = type(M->getReturnType());
      o["body"]   = S(M->getBody());
      return o;
    }
    if (auto* Y = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Object o = node("Sizeof", X);
      Expr::EvalResult R;
      if (Y->EvaluateAsInt(R, C)) {
        o["k"] = "Int";
        o["v"] = llvm::toString(R.Val.getInt(), 10);
        return o;
      }
      return unsup("sizeof", X);
    }
    if (auto* Y = dyn_cast<SizeOfPackExpr>(X)) {
      Object o = node("Int", X);
      o["v"]   = std::to_string(Y->getPackLength());
      return o;
    }
    if (auto* Y = dyn_cast<TypeTraitExpr>(X)) {
      Object o = node("Bool", X);
      o["v"]   = Y->getValue();
      return o;
    }
    if (isa<CXXTypeidExpr>(X)) {
      auto*  Y = cast<CXXTypeidExpr>(X);
      Object o = node("Typeid", X);
      if (Y->isTypeOperand())
        o["of"] = type(Y->getTypeOperand(C));
      else
        o["c"] = Array{E(Y->getExprOperand())};
      return o;
    }
    if (auto* Y = dyn_cast<ArrayInitLoopExpr>(X)) {
      Object o = node("ArrayCopy", X);
      o["c"]   = Array{E(Y->getCommonExpr()->getSourceExpr())};
      return o;
    }
    if (auto* Y = dyn_cast<PredefinedExpr>(X)) {
      Object o = node("Str", X);
      o["v"]   = "?";
      return o;
    }
    return unsup(X->getStmtClassName(), X);
  }

  Value castE(const CastExpr* Y) {
    auto   k = Y->getCastKind();
    switch (k) {
    case CK_LValueToRValue:
    case CK_NoOp:
    case CK_FunctionToPointerDecay:
    case CK_ConstructorConversion:
    case CK_UserDefinedConversion:
    case CK_ArrayToPointerDecay: {
      if (k == CK_ArrayToPointerDecay || k == CK_LValueToRValue || k == CK_FunctionToPointerDecay || k == CK_NoOp ||
          k == CK_ConstructorConversion || k == CK_UserDefinedConversion)
        return E(Y->getSubExpr());
      break;
    }
    default:
      break;
    }
    Object o = node("Cast", Y);
    o["ck"]  = Y->getCastKindName();
    o["from"] = type(Y->getSubExpr()->getType());
    o["expl"] = !isa<ImplicitCastExpr>(Y);
    o["dyn"]  = isa<CXXDynamicCastExpr>(Y);
    o["c"]    = Array{E(Y->getSubExpr())};
    return o;
  }

  Array args(const Expr* const* a, unsigned n) {
    Array r;
    for (unsigned i = 0; i < n; ++i)
      r.push_back(E(a[i]));
    return r;
  }

  Object node(const char* k, const Expr* X) {
    Object o;
    o["k"]  = k;
    o["t"]  = type(X->getType());
    o["l"]  = loc(X->getBeginLoc());
    if (X->isGLValue())
      o["lv"] = true;
    return o;
  }
  Value unsup(const std::string& what, const Stmt* X) {
    Object o;
    o["k"]    = "Unsupported";
    o["what"] = what;
    o["l"]    = loc(X->getBeginLoc());
    return o;
  }

  std::map<const Decl*, int> ids;
  int                        declId(const Decl* D) {
    D       = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end())
      return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }

  void declref(Object& o, const ValueDecl* D) {
    o["name"] = D->getNameAsString();
    if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "Int";
      o["v"] = llvm::toString(EC->getInitVal(), 10);
      o["enumc"] = qname(EC);
      return;
    }
    if (auto* FD = dyn_cast<FunctionDecl>(D)) {
      o["k"] = "FuncRef";
      callee(o, FD);
      return;
    }
    if (isa<BindingDecl>(D)) {
      o["k"] = "Unsupported";
      o["what"] = "binding";
      return;
    }
    o["id"] = declId(D);
    if (auto* VD = dyn_cast<VarDecl>(D)) {
      if (!VD->isLocalVarDeclOrParm()) {
        o["global"] = true;
        o["q"]      = qname(VD);
        const VarDecl* DD = nullptr;
        if (auto* I = VD->getAnyInitializer(DD))
          if (VD->getType().isConstQualified() || VD->isConstexpr()) {
            Expr::EvalResult R;
            if (!I->isValueDependent() && VD->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) {
              o["k"] = "Int";
              o["v"] = llvm::toString(R.Val.getInt(), 10);
            } else if (!I->isValueDependent() && VD->getType()->isFloatingType()) {
              o["init"] = E(I);
            }
          }
      }
      if (VD->isStaticLocal())
        o["static"] = true;
    }
  }

  void callee(Object& o, const FunctionDecl* FD) {
    if (!FD) {
      o["q"] = "?";
      return;
    }
    o["q"]  = qname(FD);
    o["m"]  = NG->getName(FD);
    Array ta;
    if (auto* L = FD->getTemplateSpecializationArgs())
      targs(*L, ta);
    o["targs"] = std::move(ta);
    o["ret"]   = type(FD->getReturnType());
    Array pt;
    for (auto* P : FD->parameters())
      pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"]    = type(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["cm"]     = M->isConst();
      o["defaulted"] = M->isDefaulted();
    }
    o["user"] = inRoots(FD->getLocation());
  }

  Array params(const FunctionDecl* FD) {
    Array a;
    for (auto* P : FD->parameters())
      a.push_back(Object{{"id", declId(P)}, {"name", P->getNameAsString()}, {"t", type(P->getType())}});
    return a;
  }

  // ---- statements
  Value S(const Stmt* X) {
    if (!X)
      return nullptr;
    auto mk = [&](const char* k) {
      Object o;
      o["k"] = k;
      o["l"] = loc(X->getBeginLoc());
      return o;
    };
    if (auto* Y = dyn_cast<CompoundStmt>(X)) {
      Object o = mk("Block");
      Array  a;
      for (auto* c : Y->body())
        a.push_back(S(c));
      o["c"] = std::move(a);
      return o;
    }
    if (isa<NullStmt>(X))
      return mk("Nop");
    if (auto* Y = dyn_cast<DeclStmt>(X)) {
      Object o = mk("Decl");
      Array  a;
      for (auto* D : Y->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D))
          a.push_back(var(V));
        else if (isa<TypedefNameDecl>(D) || isa<UsingDecl>(D) || isa<StaticAssertDecl>(D) || isa<UsingDirectiveDecl>(D) ||
                 isa<TagDecl>(D) || isa<NamespaceAliasDecl>(D) || isa<UsingShadowDecl>(D))
          continue;
        else
          a.push_back(Object{{"unsupported", D->getDeclKindName()}});
      }
      o["vars"] = std::move(a);
      return o;
    }
    if (auto* Y = dyn_cast<IfStmt>(X)) {
      Object o = mk("If");
      o["init"] = S(Y->getInit());
      if (Y->getConditionVariableDeclStmt())
        o["cv"] = S(Y->getConditionVariableDeclStmt());
      o["cond"] = E(Y->getCond());
      o["then"] = S(Y->getThen());
      o["else"] = S(Y->getElse());
      return o;
    }
    if (auto* Y = dyn_cast<ForStmt>(X)) {
      Object o  = mk("For");
      o["init"] = S(Y->getInit());
      if (Y->getConditionVariable())
        return unsup("forcondvar", X);
      o["cond"] = E(Y->getCond());
      o["inc"]  = E(Y->getInc());
      o["body"] = S(Y->getBody());
      return o;
    }
    if (auto* Y = dyn_cast<WhileStmt>(X)) {
      Object o  = mk("While");
      if (Y->getConditionVariable())
        return unsup("whilecondvar", X);
      o["cond"] = E(Y->getCond());
      o["body"] = S(Y->getBody());
      return o;
    }
    if (auto* Y = dyn_cast<DoStmt>(X)) {
      Object o  = mk("Do");
      o["cond"] = E(Y->getCond());
      o["body"] = S(Y->getBody());
      return o;
    }
    if (auto* Y = dyn_cast<CXXForRangeStmt>(X)) {
      Object o   = mk("RangeFor");
      o["range"] = E(Y->getRangeInit());
      o["rt"]    = type(Y->getRangeInit()->getType());
      o["var"]   = var(Y->getLoopVariable());
      o["body"]  = S(Y->getBody());
      if (auto* B = Y->getBeginStmt())
        o["begin"] = S(B);
      if (auto* B = Y->getEndStmt())
        o["end"] = S(B);
      o["rangestmt"] = S(Y->getRangeStmt());
      o["cond"] = E(Y->getCond());
      o["inc"]  = E(Y->getInc());
      return o;
    }
    if (auto* Y = dyn_cast<ReturnStmt>(X)) {
      Object o = mk("Return");
      o["e"]   = E(Y->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(X))
      return mk("Break");
    if (isa<ContinueStmt>(X))
      return mk("Continue");
    if (auto* Y = dyn_cast<SwitchStmt>(X)) {
      Object o  = mk("Switch");
      o["cond"] = E(Y->getCond());
      o["body"] = S(Y->getBody());
      return o;
    }
    if (auto* Y = dyn_cast<CaseStmt>(X)) {
      Object o = mk("Case");
      o["v"]   = E(Y->getLHS());
      o["sub"] = S(Y->getSubStmt());
      return o;
    }
    if (auto* Y = dyn_cast<DefaultStmt>(X)) {
      Object o = mk("Default");
      o["sub"] = S(Y->getSubStmt());
      return o;
    }
    if (auto* Y = dyn_cast<CXXTryStmt>(X)) {
      Object o  = mk("Try");
      o["body"] = S(Y->getTryBlock());
      Array h;
      for (unsigned i = 0; i < Y->getNumHandlers(); ++i) {
        auto*  H = Y->getHandler(i);
        Object k;
        if (H->getExceptionDecl())
          k["var"] = var(H->getExceptionDecl());
        k["body"] = S(H->getHandlerBlock());
        h.push_back(std::move(k));
      }
      o["handlers"] = std::move(h);
      return o;
    }
    if (auto* Y = dyn_cast<AttributedStmt>(X))
      return S(Y->getSubStmt());
    if (auto* Y = dyn_cast<Expr>(X)) {
      Object o = mk("Expr");
      o["e"]   = E(Y);
      return o;
    }
    return unsup(X->getStmtClassName(), X);
  }

  Value var(const VarDecl* V) {
    Object o;
    o["id"]   = declId(V);
    o["name"] = V->getNameAsString();
    o["t"]    = type(V->getType());
    if (V->isStaticLocal())
      o["static"] = true;
    if (V->getInit()) {
      o["init"] = E(V->getInit());
      o["style"] = (int)V->getInitStyle();
    }
    return o;
  }

  void function(const FunctionDecl* FD) {
    if (FD->isDependentContext() || FD->isTemplated())
      return;
    if (!inRoots(FD->getLocation()))
      return;
    if (isa<CXXDeductionGuideDecl>(FD))
      return;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda())
        return;
    bool hasBody = FD->doesThisDeclarationHaveABody() && FD->getBody();
    std::string m = NG->getName(FD);
    if (!hasBody) {
      return;
    }
    if (functions.get(m))
      return;
    Object o;
    callee(o, FD);
    o["l"]      = loc(FD->getLocation());
    o["params"] = params(FD);
    o["ctor"]   = isa<CXXConstructorDecl>(FD);
    if (auto* K = dyn_cast<CXXConstructorDecl>(FD)) {
      Array in;
      for (auto* I : K->inits()) {
        Object k;
        if (I->isMemberInitializer())
          k["field"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer())
          k["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          k["deleg"] = true;
        k["written"] = I->isWritten();
        k["e"] = E(I->getInit());
        in.push_back(std::move(k));
      }
      o["inits"] = std::move(in);
      o["iscopy"] = K->isCopyOrMoveConstructor();
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      o["virtual"] = M->isVirtual();
      Array ov;
      for (auto* P : M->overridden_methods())
        ov.push_back(NG->getName(P));
      o["overrides"] = std::move(ov);
    }
    o["body"] = S(FD->getBody());
    std::string text;
    {
      auto R = FD->getSourceRange();
      text   = Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, C.getLangOpts()).str();
    }
    o["src"] = json::isUTF8(text) ? text : json::fixUTF8(text);
    functions[m] = std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emitter& Em;
  explicit Visitor(Emitter& e) : Em(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* FD) {
    Em.function(FD);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& C) override {
    Emitter Em(C);
    Visitor V(Em);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object top;
    top["types"]     = std::move(Em.types);
    top["records"]   = std::move(Em.records);
    top["functions"] = std::move(Em.functions);
    std::error_code      ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(top));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char** argv) {
  // cppvc-extract ROOTS OUT file.cpp -- args
  if (argc < 4)
    return 2;
  std::string r = argv[1];
  size_t      p = 0;
  while (p <= r.size()) {
    auto q = r.find(',', p);
    if (q == std::string::npos)
      q = r.size();
    g_roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  g_out = argv[2];
  std::vector<std::string> cargs;
  for (int i = 4; i < argc; ++i)
    if (std::string(argv[i]) != "--")
      cargs.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", cargs);
  tooling::ClangTool                tool(db, {std::string(argv[3])});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
