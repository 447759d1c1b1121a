// astexport: libTooling front end.  Emits the resolved (type-checked) AST of
// every project function/variable of one translation unit as compact JSON.
//   astexport OUT.json ROOT FILE [-- clang args]
// Only declarations whose file lies under one of the ROOT prefixes (':'-separated)
// are emitted.  Typing, overload resolution, template arguments, implicit
// conversions and macro expansion have already been done by clang.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutPath;
static std::vector<std::string> Roots;

struct Exp {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> ids;
  std::map<std::string, int> typeIdx;
  Array types;
  std::vector<const CXXMethodDecl *> lambdaOps;
  std::set<const FunctionDecl *> wantTpl;
  Exp(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  bool inRoot(const Decl *D) {
    // a specialisation belongs to where its template is declared (Eigen's
    // macros specialise std::vector from the project's headers)
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) D = S->getSpecializedTemplate();
    std::string f = fileOf(D->getLocation());
    for (auto &r : Roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getLine() : 0;
  }
  std::string id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    std::string s = "d" + std::to_string(ids.size());
    ids[D] = s;
    return s;
  }
  // ---- types
  // Project classes: local classes of different functions and different
  // specialisations of one template need different names.
  std::string recName(const CXXRecordDecl *RD) {
    std::string s = RD->getQualifiedNameAsString();
    if (!inRoot(RD)) return s;
    if (RD->isLocalClass()) s += "@" + fileOf(RD->getLocation()) + ":" + std::to_string(line(RD->getLocation()));
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
      s += "<";
      for (auto &x : S->getTemplateArgs().asArray()) {
        std::string t;
        llvm::raw_string_ostream os(t);
        x.print(PP, os, true);
        s += os.str() + ",";
      }
      s += ">";
    }
    return s;
  }
  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Integral: {
      auto v = A.getAsIntegral();
      if (v.isSigned()) return (int64_t)v.getSExtValue();
      return (int64_t)v.getZExtValue();
    }
    case TemplateArgument::Type: return Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Pack: {
      Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return Value(std::move(a));
    }
    default: return nullptr;
    }
  }
  int staticConst(const RecordDecl *RD, const char *name, int dflt) { return dflt; }
  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string key = CT.getAsString(PP);
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int idx = types.size();
    typeIdx[key] = idx;
    types.push_back(nullptr);
    Object o;
    if (CT.isConstQualified()) o["const"] = true;
    QualType U = CT.getUnqualifiedType();
    if (auto *R = U->getAs<ReferenceType>()) {
      o["c"] = isa<RValueReferenceType>(R) ? "rref" : "ref";
      o["e"] = type(R->getPointeeType());
    } else if (auto *P = U->getAs<PointerType>()) {
      o["c"] = "ptr";
      o["e"] = type(P->getPointeeType());
    } else if (auto *B = U->getAs<BuiltinType>()) {
      o["c"] = "b";
      o["n"] = B->getName(PP).str();
      o["k"] = B->isFloatingPoint() ? "f" : B->getKind() == BuiltinType::Bool ? "bool" : B->isInteger() ? "i" : "o";
    } else if (auto *ET = U->getAs<EnumType>()) {
      o["c"] = "enum";
      o["n"] = ET->getDecl()->getQualifiedNameAsString();
    } else if (auto *AT = C.getAsConstantArrayType(U)) {
      o["c"] = "arr";
      o["e"] = type(AT->getElementType());
      o["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (auto *RD = U->getAsCXXRecordDecl()) {
      o["c"] = RD->isLambda() ? "lambda" : "rec";
      if (RD->isLambda()) o["id"] = id(RD);
      o["n"] = recName(RD);
      if (inRoot(RD)) o["p"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a;
        std::string n = RD->getQualifiedNameAsString();
        bool small = true;
        // nested expression templates can be huge: only record args for the
        // types the analyser looks at
        for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x));
        (void)small;
        o["a"] = std::move(a);
      }
    } else {
      o["c"] = "other";
      std::string s = CT.getAsString(PP);
      o["n"] = s.size() > 200 ? s.substr(0, 200) : s;
    }
    types[idx] = std::move(o);
    return idx;
  }
  // ---- decl refs
  Object fref(const FunctionDecl *F) {
    Object o;
    o["id"] = id(F);
    o["n"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    if (inRoot(F)) {
      o["p"] = true;
      if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplateSpecialization ||
          F->getTemplatedKind() == FunctionDecl::TK_MemberSpecialization)
        wantTpl.insert(F);
      o["sig"] = sig(F);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["cm"] = true;
    if (M->isVirtual()) o["virt"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &x : TA->asArray()) a.push_back(targ(x));
      o["a"] = std::move(a);
    }
    return o;
  }
  std::string sig(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      s += "<";
      for (auto &x : TA->asArray()) {
        std::string t;
        llvm::raw_string_ostream os(t);
        x.print(PP, os, true);
        s += os.str() + ",";
      }
      s += ">";
    }
    s += "(";
    for (auto *P : F->parameters()) s += P->getType().getCanonicalType().getAsString(PP) + ";";
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += "const";
    // internal linkage or local: qualify by file
    if (!F->isExternallyVisible()) s = fileOf(F->getLocation()) + "::" + s;
    return s;
  }
  std::string gsig(const VarDecl *V) {
    std::string s = V->getQualifiedNameAsString();
    if (!V->isExternallyVisible()) s = fileOf(V->getLocation()) + "::" + s;
    return s;
  }
  // ---- expressions
  Value E(const Expr *X) {
    if (!X) return nullptr;
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(X)) X = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(X)) X = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) X = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) X = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(X)) X = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) X = P->getReplacement();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) X = P->getSubExpr();
      else break;
    }
    Object o;
    o["l"] = line(X->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    auto args = [&](auto range) {
      Array a;
      for (auto *e : range) a.push_back(E(e));
      return a;
    };
    if (auto *L = dyn_cast<IntegerLiteral>(X)) {
      K("int");
      o["v"] = (int64_t)L->getValue().getLimitedValue();
    } else if (auto *L = dyn_cast<FloatingLiteral>(X)) {
      K("flt");
      // exact source text when available (keeps decimal value)
      llvm::SmallString<40> S;
      L->getValue().toString(S, 25);
      o["v"] = std::string(S);
      if (!L->getBeginLoc().isMacroID()) {
        auto txt = Lexer_getText(L);
        if (!txt.empty()) o["s"] = txt;
      }
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) {
      K("bool");
      o["v"] = L->getValue();
    } else if (auto *L = dyn_cast<StringLiteral>(X)) {
      K("str");
      o["v"] = L->isOrdinary() ? L->getString().str() : "";
    } else if (auto *L = dyn_cast<CharacterLiteral>(X)) {
      K("int");
      o["v"] = (int64_t)L->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) {
      K("null");
    } else if (auto *R = dyn_cast<DeclRefExpr>(X)) {
      auto *D = R->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        K("fn");
        o["f"] = fref(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        K("int");
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        K("var");
        o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage() && !V->isLocalVarDecl()) {
          o["g"] = gsig(V);
          if (!inRoot(V)) o["q"] = V->getQualifiedNameAsString();
          Expr::EvalResult ER;
          if (V->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(ER, C))
            o["cv"] = (int64_t)ER.Val.getInt().getExtValue();
        } else
          o["id"] = id(V);
        o["t"] = type(V->getType());
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        K("binding");
        o["id"] = id(B);
        if (B->getBinding()) o["e"] = E(B->getBinding());
      } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
        K("field");
        o["n"] = FD->getNameAsString();
        o["cls"] = FD->getParent()->getQualifiedNameAsString();
      } else {
        K("unk");
        o["c"] = "DeclRef";
      }
    } else if (auto *M = dyn_cast<MemberExpr>(X)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        K("mem");
        o["n"] = F->getNameAsString();
        o["b"] = E(M->getBase());
        if (M->isArrow()) o["arrow"] = true;
        o["t"] = type(F->getType());
      } else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        K("var");
        o["n"] = V->getNameAsString();
        o["g"] = gsig(V);
        o["q"] = V->getQualifiedNameAsString();
        Expr::EvalResult ER;
        if (V->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(ER, C))
          o["cv"] = (int64_t)ER.Val.getInt().getExtValue();
        o["t"] = type(V->getType());
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) {
        K("int");
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
      } else {
        K("unk");
        o["c"] = "Member";
      }
    } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      auto *MD = MC->getMethodDecl();
      K("mcall");
      if (MD) o["f"] = fref(MD);
      o["b"] = E(MC->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts()))
        if (ME->isArrow()) o["arrow"] = true;
      o["a"] = args(MC->arguments());
      o["t"] = type(X->getType());
    } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      K("opcall");
      o["op"] = getOperatorSpelling(OC->getOperator());
      if (auto *F = OC->getDirectCallee()) o["f"] = fref(F);
      o["a"] = args(OC->arguments());
      o["t"] = type(X->getType());
    } else if (auto *CE = dyn_cast<CallExpr>(X)) {
      K("call");
      if (auto *F = CE->getDirectCallee()) o["f"] = fref(F);
      else o["callee"] = E(CE->getCallee());
      o["a"] = args(CE->arguments());
      o["t"] = type(X->getType());
    } else if (auto *CC = dyn_cast<CXXConstructExpr>(X)) {
      if (CC->isElidable() && CC->getNumArgs() == 1) return E(CC->getArg(0));
      K("ctor");
      o["f"] = fref(CC->getConstructor());
      o["a"] = args(CC->arguments());
      o["t"] = type(X->getType());
      if (CC->isListInitialization()) o["list"] = true;
      if (CC->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (CC->requiresZeroInitialization()) o["zero"] = true;
    } else if (auto *FC = dyn_cast<CXXFunctionalCastExpr>(X)) {
      return castE(FC, o);
    } else if (auto *CA = dyn_cast<CastExpr>(X)) {
      return castE(CA, o);
    } else if (auto *IL = dyn_cast<InitListExpr>(X)) {
      K("ilist");
      o["a"] = args(IL->inits());
      o["t"] = type(X->getType());
      if (IL->hasArrayFiller()) o["filler"] = true;
    } else if (isa<CXXScalarValueInitExpr>(X) || isa<ImplicitValueInitExpr>(X)) {
      K("zinit");
      o["t"] = type(X->getType());
    } else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(X)) {
      return E(DA->getExpr());
    } else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(X)) {
      return E(DI->getExpr());
    } else if (auto *U = dyn_cast<UnaryOperator>(X)) {
      K("un");
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["e"] = E(U->getSubExpr());
      o["t"] = type(X->getType());
    } else if (auto *B = dyn_cast<CompoundAssignOperator>(X)) {
      K("cas");
      o["op"] = B->getOpcodeStr().str();
      o["a"] = E(B->getLHS());
      o["b"] = E(B->getRHS());
      o["t"] = type(X->getType());
      o["ct"] = type(B->getComputationResultType());
    } else if (auto *B = dyn_cast<BinaryOperator>(X)) {
      K("bin");
      o["op"] = B->getOpcodeStr().str();
      o["a"] = E(B->getLHS());
      o["b"] = E(B->getRHS());
      o["t"] = type(X->getType());
    } else if (auto *CO = dyn_cast<ConditionalOperator>(X)) {
      K("cond");
      o["c"] = E(CO->getCond());
      o["a"] = E(CO->getTrueExpr());
      o["b"] = E(CO->getFalseExpr());
      o["t"] = type(X->getType());
    } else if (auto *AS = dyn_cast<ArraySubscriptExpr>(X)) {
      K("idx");
      o["a"] = E(AS->getBase());
      o["b"] = E(AS->getIdx());
      o["t"] = type(X->getType());
    } else if (isa<CXXThisExpr>(X)) {
      K("this");
    } else if (auto *T = dyn_cast<CXXThrowExpr>(X)) {
      K("throw");
      if (T->getSubExpr()) o["e"] = E(T->getSubExpr());
    } else if (auto *LE = dyn_cast<LambdaExpr>(X)) {
      K("lambda");
      auto *Op = LE->getCallOperator();
      Array caps;
      auto ci = LE->capture_init_begin();
      for (auto &c : LE->captures()) {
        Object co;
        if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          co["e"] = E(*ci);
        } else if (c.capturesThis())
          co["this"] = true;
        caps.push_back(std::move(co));
        ++ci;
      }
      o["caps"] = std::move(caps);
      if (auto *FT = LE->getLambdaClass()->getDependentLambdaCallOperator()) {
        // generic: one body per instantiation
        Array specs;
        for (auto *F : FT->specializations()) {
          if (!F->hasBody()) continue;
          Object so{{"id", id(F)}};
          Array ps;
          for (auto *P : F->parameters()) ps.push_back(param(P));
          so["params"] = std::move(ps);
          so["body"] = S(F->getBody());
          specs.push_back(std::move(so));
        }
        o["specs"] = std::move(specs);
      } else {
        Array ps;
        for (auto *P : Op->parameters()) ps.push_back(param(P));
        o["params"] = std::move(ps);
        o["ret"] = type(Op->getReturnType());
        o["body"] = S(Op->getBody());
      }
      o["t"] = type(X->getType());
    } else if (auto *NE = dyn_cast<CXXNewExpr>(X)) {
      K("new");
      o["t"] = type(NE->getAllocatedType());
      if (NE->isArray() && NE->getArraySize()) o["n"] = E(*NE->getArraySize());
      if (NE->getInitializer()) o["e"] = E(NE->getInitializer());
    } else if (auto *DE = dyn_cast<CXXDeleteExpr>(X)) {
      K("delete");
      o["e"] = E(DE->getArgument());
    } else if (auto *UT = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Expr::EvalResult ER;
      if (X->EvaluateAsInt(ER, C)) {
        K("int");
        o["v"] = (int64_t)ER.Val.getInt().getExtValue();
      } else
        K("unk");
    } else if (auto *IV = dyn_cast<ArrayInitLoopExpr>(X)) {
      return E(IV->getCommonExpr()->getSourceExpr());
    } else if (auto *OV = dyn_cast<OpaqueValueExpr>(X)) {
      return E(OV->getSourceExpr());
    } else {
      K("unk");
      o["c"] = X->getStmtClassName();
      Array a;
      for (auto *s : X->children())
        if (auto *e = dyn_cast_or_null<Expr>(s)) a.push_back(E(e));
      o["a"] = std::move(a);
    }
    return Value(std::move(o));
  }
  std::string Lexer_getText(const FloatingLiteral *L) {
    bool inv = false;
    const char *p = SM.getCharacterData(L->getBeginLoc(), &inv);
    if (inv) return "";
    std::string s;
    const char *q = p;
    while (*q && (isalnum(*q) || *q == '.' || ((*q == '+' || *q == '-') && q > p && (q[-1] == 'e' || q[-1] == 'E')))) s += *q++;
    while (!s.empty() && strchr("fFlL", s.back())) s.pop_back();
    return s;
  }
  Value castE(const CastExpr *CA, Object &o) {
    switch (CA->getCastKind()) {
    case CK_NoOp:
    case CK_LValueToRValue:
    case CK_ArrayToPointerDecay:
    case CK_FunctionToPointerDecay:
    case CK_DerivedToBase:
    case CK_UncheckedDerivedToBase:
    case CK_BaseToDerived:
    case CK_ConstructorConversion:
    case CK_UserDefinedConversion:
    case CK_LValueBitCast:
    case CK_BitCast:
    case CK_FloatingCast:
      return E(CA->getSubExpr());
    default: break;
    }
    o["k"] = "cast";
    o["c"] = CA->getCastKindName();
    o["e"] = E(CA->getSubExpr());
    o["t"] = type(CA->getType());
    return Value(std::move(o));
  }
  Value param(const ParmVarDecl *P) {
    return Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
  }
  Value vdecl(const VarDecl *V) {
    Object o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal() || V->getTLSKind() != VarDecl::TLS_None) o["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (V->getInit()) o["i"] = E(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *x : D->bindings()) {
        Object bo{{"id", id(x)}, {"n", x->getNameAsString()}};
        if (x->getHoldingVar()) { bo["hid"] = id(x->getHoldingVar()); if (x->getHoldingVar()->getInit()) bo["i"] = E(x->getHoldingVar()->getInit()); }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return Value(std::move(o));
  }
  Value S(const Stmt *X) {
    if (!X) return nullptr;
    if (auto *Ex = dyn_cast<Expr>(X)) {
      Object o{{"k", "expr"}, {"l", line(X->getBeginLoc())}};
      o["e"] = E(Ex);
      return Value(std::move(o));
    }
    Object o;
    o["l"] = line(X->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *CS = dyn_cast<CompoundStmt>(X)) {
      K("block");
      Array a;
      for (auto *s : CS->body()) a.push_back(S(s));
      o["a"] = std::move(a);
    } else if (auto *DS = dyn_cast<DeclStmt>(X)) {
      K("decl");
      Array a;
      for (auto *d : DS->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vdecl(v));
      o["a"] = std::move(a);
    } else if (auto *I = dyn_cast<IfStmt>(X)) {
      K("if");
      if (I->getInit()) o["init"] = S(I->getInit());
      if (I->getConditionVariable()) o["cvar"] = vdecl(I->getConditionVariable());
      o["c"] = E(I->getCond());
      o["a"] = S(I->getThen());
      if (I->getElse()) o["b"] = S(I->getElse());
      if (I->isConstexpr()) o["constexpr"] = true;
    } else if (auto *F = dyn_cast<ForStmt>(X)) {
      K("for");
      if (F->getInit()) o["i"] = S(F->getInit());
      if (F->getCond()) o["c"] = E(F->getCond());
      if (F->getInc()) o["s"] = E(F->getInc());
      o["b"] = S(F->getBody());
    } else if (auto *W = dyn_cast<WhileStmt>(X)) {
      K("while");
      o["c"] = E(W->getCond());
      o["b"] = S(W->getBody());
    } else if (auto *D = dyn_cast<DoStmt>(X)) {
      K("do");
      o["c"] = E(D->getCond());
      o["b"] = S(D->getBody());
    } else if (auto *R = dyn_cast<CXXForRangeStmt>(X)) {
      K("forr");
      o["v"] = vdecl(R->getLoopVariable());
      o["r"] = E(R->getRangeInit());
      o["b"] = S(R->getBody());
    } else if (auto *R = dyn_cast<ReturnStmt>(X)) {
      K("ret");
      if (R->getRetValue()) o["e"] = E(R->getRetValue());
    } else if (auto *SW = dyn_cast<SwitchStmt>(X)) {
      K("switch");
      if (SW->getInit()) o["init"] = S(SW->getInit());
      o["c"] = E(SW->getCond());
      o["b"] = S(SW->getBody());
    } else if (auto *CS = dyn_cast<CaseStmt>(X)) {
      K("case");
      Expr::EvalResult ER;
      if (CS->getLHS()->EvaluateAsInt(ER, C)) o["v"] = (int64_t)ER.Val.getInt().getExtValue();
      o["e"] = E(CS->getLHS());
      if (CS->getRHS()) { Expr::EvalResult E2; if (CS->getRHS()->EvaluateAsInt(E2, C)) o["v2"] = (int64_t)E2.Val.getInt().getExtValue(); }
      o["b"] = S(CS->getSubStmt());
    } else if (auto *CS = dyn_cast<DefaultStmt>(X)) {
      K("default");
      o["b"] = S(CS->getSubStmt());
    } else if (isa<BreakStmt>(X)) {
      K("break");
    } else if (isa<ContinueStmt>(X)) {
      K("continue");
    } else if (isa<NullStmt>(X)) {
      K("null");
    } else if (auto *T = dyn_cast<CXXTryStmt>(X)) {
      K("try");
      o["b"] = S(T->getTryBlock());
      Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) a.push_back(S(T->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
    } else if (auto *OD = dyn_cast<OMPExecutableDirective>(X)) {
      K("omp");
      o["d"] = llvm::omp::getOpenMPDirectiveName(OD->getDirectiveKind()).str();
      Array cl;
      for (auto *c : OD->clauses()) {
        Object co{{"n", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
        Array vs;
        for (auto *ch : c->children())
          if (auto *dr = dyn_cast_or_null<DeclRefExpr>(ch)) vs.push_back(Object{{"id", id(dr->getDecl())}, {"n", dr->getDecl()->getNameAsString()}});
          else if (auto *e = dyn_cast_or_null<Expr>(ch)) vs.push_back(E(e));
        co["v"] = std::move(vs);
        if (c->isImplicit()) co["impl"] = true;
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (OD->hasAssociatedStmt()) {
        const Stmt *B = OD->getInnermostCapturedStmt()->getCapturedStmt();
        o["b"] = S(B);
      }
    } else if (auto *AS = dyn_cast<AttributedStmt>(X)) {
      return S(AS->getSubStmt());
    } else if (auto *LS = dyn_cast<LabelStmt>(X)) {
      return S(LS->getSubStmt());
    } else {
      K("unk");
      o["c"] = X->getStmtClassName();
    }
    return Value(std::move(o));
  }
  Object func(const FunctionDecl *F) {
    Object o = fref(F);
    o["sig"] = sig(F);
    o["file"] = fileOf(F->getLocation());
    o["l"] = line(F->getLocation());
    o["le"] = line(F->getEndLoc());
    o["ret"] = type(F->getReturnType());
    if (F->isInlined() || F->isInlineSpecified()) o["inline"] = true;
    if (!F->isExternallyVisible()) o["internal"] = true;
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(param(P));
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["method"] = true;
      if (M->isVirtual()) o["virtual"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object io;
        if (I->getMember()) io["n"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = true;
        io["e"] = E(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (F->getBody()) o["body"] = S(F->getBody());
    return o;
  }
};

class Vis : public RecursiveASTVisitor<Vis> {
public:
  Exp &X;
  Array funcs, globals, records;
  std::set<const Decl *> done;
  Vis(Exp &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (!X.inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (F->isImplicit() || F->isDefaulted()) return true;
    if (!done.insert(F).second) return true;
    funcs.push_back(X.func(F));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isLocalVarDecl() || isa<ParmVarDecl>(V)) return true;
    if (!X.inRoot(V) || V->getDeclContext()->isDependentContext()) return true;
    Object o;
    o["g"] = X.gsig(V);
    o["n"] = V->getNameAsString();
    o["t"] = X.type(V->getType());
    o["file"] = X.fileOf(V->getLocation());
    o["l"] = X.line(V->getLocation());
    o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    o["internal"] = !V->isExternallyVisible();
    o["const"] = V->getType().isConstQualified();
    if (V->hasInit()) {
      o["i"] = X.E(V->getInit());
      o["constinit"] = V->hasConstantInitialization();
    }
    globals.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !X.inRoot(R) || R->isLambda() || R->isDependentContext()) return true;
    Object o;
    o["n"] = X.recName(R);
    o["file"] = X.fileOf(R->getLocation());
    o["l"] = X.line(R->getLocation());
    Array fs, bs;
    for (auto *f : R->fields()) {
      Object fo{{"n", f->getNameAsString()}, {"t", X.type(f->getType())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = X.E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto &b : R->bases()) bs.push_back(X.type(b.getType()));
    o["f"] = std::move(fs);
    o["b"] = std::move(bs);
    records.push_back(std::move(o));
    return true;
  }
};
class Con : public ASTConsumer {
  SourceManager *SM;
  std::map<unsigned, bool> proj;     // FileID hash -> project file?
public:
  Con(SourceManager *s) : SM(s) {}
  // Bodies of library functions are not needed: only their signatures are.
  bool shouldSkipFunctionBody(Decl *D) override {
    if (getenv("ASTEXPORT_NOSKIP")) return false;
    SourceLocation L = SM->getExpansionLoc(D->getLocation());
    unsigned k = SM->getFileID(L).getHashValue();
    auto it = proj.find(k);
    if (it == proj.end()) {
      auto P = SM->getPresumedLoc(L);
      std::string f = P.isValid() ? P.getFilename() : "";
      bool in = false;
      for (auto &r : Roots)
        if (f.rfind(r, 0) == 0) in = true;
      it = proj.emplace(k, in).first;
    }
    return !it->second;
  }
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Exp X(C);
    Vis V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    o["funcs"] = std::move(V.funcs);
    o["globals"] = std::move(V.globals);
    o["records"] = std::move(V.records);
    o["types"] = std::move(X.types);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Con>(&CI.getSourceManager());
  }
};
int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: astexport OUT ROOTS FILE -- args\n";
    return 2;
  }
  OutPath = argv[1];
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(':', p);
    if (q == std::string::npos) q = r.size();
    if (q > p) Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
