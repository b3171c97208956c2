// Fact extractor: lowers every function body defined under the analysed
// repository to a small resolved IR (JSON lines). One invocation per
// translation unit:   extract OUT ROOT -- <clang args> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <sstream>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;
using std::string;

static string gRoot, gOut;
static std::vector<string> gRoots;

namespace {
static int64_t i64(const llvm::APSInt &v) { if (v.isUnsigned() && v.getActiveBits() <= 64) return (int64_t)v.getZExtValue(); return v.getSignificantBits() <= 64 ? v.getSExtValue() : 0; }

struct Ctx {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  llvm::raw_ostream &OS;
  std::set<string> declDone, funcDone;
  std::unordered_map<const void *, string> keyCache;
  std::map<string, int> typeIdx;
  std::vector<string> types;
  Ctx(ASTContext &C, llvm::raw_ostream &OS)
      : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()),
        MC(C.createMangleContext()), OS(OS) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
  }

  string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    string f = F.str();
    llvm::SmallString<256> p(f);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto n = FE->getFileEntry().tryGetRealPathName();
      if (!n.empty()) return n.str();
    }
    return f;
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    string f = fileOf(L);
    for (auto &r : gRoots)
      if (f.size() > r.size() && f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  string rel(const string &f) {
    if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size());
    return f;
  }
  string tstr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  string sugar(QualType T) {
    PrintingPolicy P2 = C.getPrintingPolicy();
    P2.SuppressTagKeyword = true;
    P2.Bool = true;
    return T.isNull() ? string() : T.getAsString(P2);
  }
  string qname(const NamedDecl *D) {
    string s;
    llvm::raw_string_ostream o(s);
    // no template args, suppress versioned inline namespaces
    const DeclContext *DC = D->getDeclContext();
    std::vector<string> parts;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isAnonymousNamespace()) parts.push_back("(anon)");
        else parts.push_back(NS->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        if (R->getIdentifier()) parts.push_back(R->getNameAsString());
        else parts.push_back(cast<CXXRecordDecl>(R)->isLambda() ? "(lambda)" : "(anon)");
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        parts.push_back(F->getNameAsString());
      } else if (isa<EnumDecl>(DC)) {
      }
      DC = DC->getParent();
    }
    std::reverse(parts.begin(), parts.end());
    for (auto &p : parts) {
      // collapse Field3D version namespaces (v1_7 etc.)
      if (p.size() > 1 && p[0] == 'v' && isdigit(p[1])) continue;
      o << p << "::";
    }
    o << D->getNameAsString();
    return s;
  }
  // class display name with template args
  string rname(const CXXRecordDecl *R) {
    if (!R) return "";
    QualType T = C.getRecordType(R);
    return fixns(tstr(T));
  }
  string fixns(string s) {
    // drop "vN_M::" components
    string out;
    for (size_t i = 0; i < s.size();) {
      if (s[i] == 'v' && i + 1 < s.size() && isdigit(s[i + 1]) &&
          (i == 0 || s[i - 1] == ':')) {
        size_t j = i + 1;
        while (j < s.size() && (isdigit(s[j]) || s[j] == '_')) j++;
        if (s.compare(j, 2, "::") == 0) { i = j + 2; continue; }
      }
      out += s[i++];
    }
    return out;
  }
  string T(QualType t) { return fixns(tstr(t)); }

  string key(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = keyCache.find(F);
    if (it != keyCache.end()) return it->second;
    string s;
    llvm::raw_string_ostream o(s);
    if (F->isDependentContext()) {
      o << "dep:" << qname(F) << "@" << rel(fileOf(F->getLocation())) << ":" << lineOf(F->getLocation());
    } else {
      GlobalDecl GD;
      if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(Ct, Ctor_Complete);
      else if (auto *Dt = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(Dt, Dtor_Complete);
      else GD = GlobalDecl(F);
      if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, o);
      else o << F->getNameAsString();
      if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace())
        if (inRepo(F->getLocation())) o << "@" << rel(fileOf(F->getLocation()));
    }
    o.flush();
    keyCache[F] = s;
    return s;
  }

  void emit(json::Object O) {
    OS << json::Value(std::move(O)) << "\n";
  }

  void declRecord(const FunctionDecl *F) {
    string k = key(F);
    if (!declDone.insert(k).second) return;
    json::Object O;
    O["K"] = "decl";
    O["k"] = k;
    O["q"] = qname(F);
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(T(p->getType()));
    O["pt"] = std::move(ps);
    json::Array pn;
    for (auto *p : F->parameters()) pn.push_back(p->getNameAsString());
    O["pn"] = std::move(pn);
    O["rt"] = T(F->getReturnType());
    O["rs"] = sugar(F->getReturnType());
    O["repo"] = inRepo(F->getLocation());
    O["file"] = rel(fileOf(F->getLocation()));
    O["line"] = lineOf(F->getLocation());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) {
        string s; llvm::raw_string_ostream o(s);
        A.print(PP, o, true);
        ta.push_back(fixns(o.str()));
      }
      O["ta"] = std::move(ta);
    }
    if (F->isVariadic()) O["va"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      { auto es = FPT->getExceptionSpecType(); if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone || es == EST_NoThrow) O["nothrow"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = rname(M->getParent());
      O["clsq"] = qname(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isPureVirtual()) O["pure"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      O["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *B : M->overridden_methods()) { ov.push_back(key(B)); declRecord(B); }
      if (!ov.empty()) O["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        auto *Ct = cast<CXXConstructorDecl>(M);
        if (Ct->isCopyConstructor()) O["copy"] = true;
        if (Ct->isMoveConstructor()) O["move"] = true;
        if (Ct->isDefaultConstructor()) O["dflt"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (M->isCopyAssignmentOperator()) O["cassign"] = true;
      if (M->isImplicit()) O["implicit"] = true;
      if (M->isDefaulted()) O["defaulted"] = true;
      if (M->isDeleted()) O["deleted"] = true;
    }
    emit(std::move(O));
  }
};

// String constant from an initialiser, if it is (a std::string built from) a literal.
static const Expr *strip(const Expr *E) {
  while (E) {
    if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
    else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
    else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
    else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
    else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
    else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
      case CK_ConstructorConversion: case CK_UserDefinedConversion:
        E = X->getSubExpr(); break;
      default: return E;
      }
    } else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        E = X->getSubExpr(); break;
      default: return E;
      }
    } else return E;
  }
  return E;
}

static bool literalOf(const Expr *E, string &out) {
  E = strip(E);
  if (!E) return false;
  if (auto *S = dyn_cast<StringLiteral>(E)) { if (S->getCharByteWidth()==1) { out = S->getString().str(); return true; } return false; }
  if (auto *I = dyn_cast<ImplicitCastExpr>(E)) return literalOf(I->getSubExpr(), out);
  if (auto *Ct = dyn_cast<CXXConstructExpr>(E)) {
    if (Ct->getNumArgs() >= 1) {
      // only string classes
      string n = Ct->getType().getCanonicalType().getAsString();
      if (n.find("basic_string") != string::npos) return literalOf(Ct->getArg(0), out);
    }
  }
  if (auto *I = dyn_cast<InitListExpr>(E)) if (I->getNumInits() == 1) return literalOf(I->getInit(0), out);
  return false;
}

struct FnLower {
  Ctx &X;
  const FunctionDecl *F;
  json::Array nodes;
  int nnodes = 0;
  std::unordered_map<const Expr *, int> idx;
  std::map<const VarDecl *, int> vars;
  json::Array varArr;
  std::vector<const CXXTryStmt *> tries;
  std::unordered_map<const Stmt *, int> tryOf;   // innermost try *body* id
  std::unordered_map<const VarDecl *, int> varTry;
  std::unordered_map<const VarDecl *, std::pair<int,int>> varScope;
  json::Array tryArr;
  std::vector<const LambdaExpr *> lambdas;

  FnLower(Ctx &X, const FunctionDecl *F) : X(X), F(F) {}

  int var(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto it = vars.find(V);
    if (it != vars.end()) return it->second;
    int id = (int)vars.size();
    vars[V] = id;
    json::Object O;
    O["n"] = V->getNameAsString();
    O["t"] = X.T(V->getType());
    O["s"] = X.sugar(V->getType());
    O["p"] = isa<ParmVarDecl>(V) ? (int)cast<ParmVarDecl>(V)->getFunctionScopeIndex() : -1;
    if (isa<ParmVarDecl>(V) && V->getDeclContext() != F) O["p"] = -2;
    if (V->isStaticLocal()) O["st"] = true;
    if (V->getType()->isReferenceType()) O["ref"] = true;
    O["l"] = X.lineOf(V->getLocation());
    auto t = varTry.find(V);
    O["try"] = t == varTry.end() ? -1 : t->second;
    varArr.push_back(std::move(O));
    return id;
  }

  // Collect try nesting.
  void walkTry(const Stmt *S, int cur) {
    if (!S) return;
    tryOf[S] = cur;
    if (auto *DS = dyn_cast<DeclStmt>(S))
      for (auto *D : DS->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) varTry[V->getCanonicalDecl()] = cur;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int id = (int)tries.size();
      tries.push_back(T);
      json::Object O;
      O["parent"] = cur;
      O["l"] = X.lineOf(T->getBeginLoc());
      json::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        const CXXCatchStmt *Ct = T->getHandler(i);
        hs.push_back(Ct->getExceptionDecl() ? X.T(Ct->getCaughtType()) : string("..."));
      }
      O["h"] = std::move(hs);
      tryArr.push_back(std::move(O));
      walkTry(T->getTryBlock(), id);
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        tryOf[H] = cur;
        if (H->getExceptionDecl()) varTry[H->getExceptionDecl()->getCanonicalDecl()] = cur;
        walkTry(H->getHandlerBlock(), cur);
      }
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { walkTry(E->getExpr(), cur); return; }
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { walkTry(E->getExpr(), cur); return; }
    for (auto *Ch : S->children()) walkTry(Ch, cur);
  }

  int add(const Expr *E, json::Object O) {
    if (E) {
      O["t"] = X.T(E->getType());
      O["l"] = X.lineOf(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
      auto t = tryOf.find(E);
      if (t != tryOf.end() && t->second >= 0) O["y"] = t->second;
    }
    nodes.push_back(std::move(O));
    return nnodes++;
  }

  static string castName(CastKind K) { return CastExpr::getCastKindName(K); }

  int lower(const Expr *E0) {
    if (!E0) return -1;
    auto it = idx.find(E0);
    if (it != idx.end()) return it->second;
    const Expr *E = strip(E0);
    if (E != E0) {
      int r = lower(E);
      idx[E0] = r;
      return r;
    }
    int r = lower1(E);
    idx[E0] = r;
    return r;
  }

  void constOf(const Expr *E, json::Object &O) {
    QualType T = E->getType();
    if (E->isValueDependent() || T.isNull()) return;
    if (!(T->isIntegralOrEnumerationType())) return;
    if (E->isGLValue() && !isa<DeclRefExpr>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, X.C, Expr::SE_NoSideEffects)) {
      auto V = R.Val.getInt();
      O["v"] = i64(V);
    }
  }

  json::Array args(llvm::ArrayRef<const Expr *> A) {
    json::Array a;
    for (auto *e : A) a.push_back(lower(e));
    return a;
  }

  void callee(const FunctionDecl *FD, json::Object &O) {
    if (!FD) return;
    X.declRecord(FD);
    O["f"] = X.key(FD);
    O["q"] = X.qname(FD);
  }

  int lower1(const Expr *E) {
    json::Object O;
    constOf(E, O);
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { O["o"] = "lit"; return add(E, std::move(O)); }
    if (isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) { O["o"] = "lit"; return add(E, std::move(O)); }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      O["o"] = "flt"; O["fv"] = L->getValueAsApproximateDouble(); return add(E, std::move(O));
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      O["o"] = "str";
      if (L->getCharByteWidth() == 1) {
        string s = L->getString().str();
        O["s"] = json::isUTF8(s) ? s : json::fixUTF8(s);
        if (!json::isUTF8(s) || s.find('\0') != string::npos) {
          json::Array b; for (unsigned char c : s) b.push_back((int)c); O["bytes"] = std::move(b);
        }
      }
      return add(E, std::move(O));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["o"] = "null"; O["v"] = 0; return add(E, std::move(O)); }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      if (auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl())) {
        O["o"] = "enum"; O["q"] = X.qname(EC); return add(E, std::move(O));
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D->getDecl())) {
        O["o"] = "fn"; callee(FD, O); return add(E, std::move(O));
      }
      if (auto *V = dyn_cast<VarDecl>(D->getDecl())) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["o"] = "gvar"; O["q"] = X.qname(V);
          if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) O["cls"] = X.rname(R);
          string s;
          const VarDecl *Def = V;
          const Expr *Init = V->getAnyInitializer(Def);
          if (Init && V->getType().isConstQualified() && literalOf(Init, s)) O["s"] = json::fixUTF8(s);
          globalRecord(V);
        } else {
          O["o"] = "var"; O["d"] = var(V);
          if (D->refersToEnclosingVariableOrCapture()) O["cap"] = true;
        }
        return add(E, std::move(O));
      }
      O["o"] = "ref"; O["q"] = X.qname(D->getDecl()); return add(E, std::move(O));
    }
    if (isa<CXXThisExpr>(E)) { O["o"] = "this"; return add(E, std::move(O)); }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O["o"] = "mem"; O["m"] = X.qname(FD); O["n"] = FD->getNameAsString();
        O["a"] = json::Array{lower(M->getBase())};
        if (M->isArrow()) O["arrow"] = true;
        return add(E, std::move(O));
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        O["o"] = "gvar"; O["q"] = X.qname(V);
        if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) O["cls"] = X.rname(R);
        string s; const VarDecl *Def = V;
        const Expr *Init = V->getAnyInitializer(Def);
        if (Init && V->getType().isConstQualified() && literalOf(Init, s)) O["s"] = json::fixUTF8(s);
        globalRecord(V);
        return add(E, std::move(O));
      }
      if (auto *FD = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        O["o"] = "mfn"; callee(FD, O); O["a"] = json::Array{lower(M->getBase())};
        return add(E, std::move(O));
      }
      if (isa<EnumConstantDecl>(M->getMemberDecl())) {
        O["o"] = "enum"; O["q"] = X.qname(M->getMemberDecl()); return add(E, std::move(O));
      }
      O["o"] = "unk"; return add(E, std::move(O));
    }
    if (auto *CE = dyn_cast<CXXMemberCallExpr>(E)) {
      O["o"] = "call";
      const CXXMethodDecl *MD = CE->getMethodDecl();
      if (MD) callee(MD, O);
      const Expr *Callee = CE->getCallee()->IgnoreParens();
      bool qualified = false;
      if (auto *ME = dyn_cast<MemberExpr>(Callee)) {
        qualified = ME->hasQualifier();
        if (ME->isArrow()) O["arrow"] = true;
      }
      if (auto *Obj = CE->getImplicitObjectArgument()) O["obj"] = lower(Obj);
      if (MD && MD->isVirtual() && !qualified) O["virt"] = true;
      O["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)CE->getArgs(), CE->getNumArgs()));
      return add(E, std::move(O));
    }
    if (auto *CE = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["o"] = "call";
      O["op"] = getOperatorSpelling(CE->getOperator());
      const FunctionDecl *FD = CE->getDirectCallee();
      callee(FD, O);
      unsigned st = 0;
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        O["obj"] = lower(CE->getArg(0)); st = 1;
        if (cast<CXXMethodDecl>(FD)->isVirtual()) O["virt"] = true;
      }
      json::Array a;
      for (unsigned i = st; i < CE->getNumArgs(); i++) a.push_back(lower(CE->getArg(i)));
      O["a"] = std::move(a);
      return add(E, std::move(O));
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      O["o"] = "call";
      const FunctionDecl *FD = CE->getDirectCallee();
      if (FD) callee(FD, O);
      else O["fp"] = lower(CE->getCallee());
      O["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)CE->getArgs(), CE->getNumArgs()));
      return add(E, std::move(O));
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      O["o"] = "ctor";
      callee(CE->getConstructor(), O);
      O["cls"] = X.rname(CE->getConstructor()->getParent());
      O["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)CE->getArgs(), CE->getNumArgs()));
      string s; if (literalOf(CE, s)) O["s"] = json::fixUTF8(s);
      return add(E, std::move(O));
    }
    if (auto *CE = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["o"] = "ctor"; callee(CE->getConstructor(), O); O["a"] = json::Array{};
      return add(E, std::move(O));
    }
    if (auto *NE = dyn_cast<CXXNewExpr>(E)) {
      O["o"] = "new";
      O["at"] = X.T(NE->getAllocatedType());
      if (NE->isArray()) { O["arr"] = true; if (auto sz = NE->getArraySize()) O["sz"] = lower(*sz); }
      json::Array pl;
      for (unsigned i = 0; i < NE->getNumPlacementArgs(); i++) pl.push_back(lower(NE->getPlacementArg(i)));
      O["pl"] = std::move(pl);
      json::Array a; if (NE->getInitializer()) a.push_back(lower(NE->getInitializer()));
      O["a"] = std::move(a);
      return add(E, std::move(O));
    }
    if (auto *DE = dyn_cast<CXXDeleteExpr>(E)) {
      O["o"] = "delete"; if (DE->isArrayForm()) O["arr"] = true;
      O["a"] = json::Array{lower(DE->getArgument())};
      return add(E, std::move(O));
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      O["o"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = true;
      O["a"] = json::Array{lower(U->getSubExpr())};
      return add(E, std::move(O));
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      O["o"] = B->isAssignmentOp() ? "asn" : "bin";
      O["op"] = B->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) O["ct"] = X.T(CA->getComputationResultType());
      int a = lower(B->getLHS()), b = lower(B->getRHS());
      O["a"] = json::Array{a, b};
      return add(E, std::move(O));
    }
    if (auto *Cn = dyn_cast<ConditionalOperator>(E)) {
      O["o"] = "cond";
      int a = lower(Cn->getCond()), b = lower(Cn->getTrueExpr()), c = lower(Cn->getFalseExpr());
      O["a"] = json::Array{a, b, c};
      return add(E, std::move(O));
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      O["o"] = "idx";
      int a = lower(A->getBase()), b = lower(A->getIdx());
      O["a"] = json::Array{a, b};
      return add(E, std::move(O));
    }
    if (auto *Cs = dyn_cast<CastExpr>(E)) {
      if (Cs->getCastKind() == CK_LValueToRValue) {
        O["o"] = "load";
      } else {
        O["o"] = "cast"; O["ck"] = castName(Cs->getCastKind());
        if (isa<ExplicitCastExpr>(Cs)) O["ex"] = true;
      }
      O["a"] = json::Array{lower(Cs->getSubExpr())};
      return add(E, std::move(O));
    }
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["o"] = "sizeof"; O["st"] = X.T(S->getTypeOfArgument()); return add(E, std::move(O));
    }
    if (auto *Th = dyn_cast<CXXThrowExpr>(E)) {
      O["o"] = "throw"; json::Array a;
      if (Th->getSubExpr()) { a.push_back(lower(Th->getSubExpr())); O["tt"] = X.T(Th->getSubExpr()->getType()); }
      O["a"] = std::move(a);
      return add(E, std::move(O));
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      O["o"] = "ilist";
      json::Array a; for (auto *e : I->inits()) a.push_back(lower(e));
      O["a"] = std::move(a);
      return add(E, std::move(O));
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      O["o"] = "lambda"; 
      if (auto *CO = L->getCallOperator()) { callee(CO, O); }
      json::Array caps;
      for (auto &cp : L->captures()) if (cp.capturesVariable()) {
        json::Object c; c["d"] = var(cast<VarDecl>(cp.getCapturedVar())); c["ref"] = cp.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(c)); }
      O["caps"] = std::move(caps);
      lambdas.push_back(L);
      return add(E, std::move(O));
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["o"] = "zero"; return add(E, std::move(O));
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) { O["o"] = "typeid"; return add(E, std::move(O)); }
    if (auto *St = dyn_cast<StmtExpr>(E)) { O["o"] = "stmtexpr"; return add(E, std::move(O)); }
    O["o"] = "unk"; O["sc"] = E->getStmtClassName();
    json::Array a;
    for (auto *Ch : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(Ch)) a.push_back(lower(ce));
    O["a"] = std::move(a);
    return add(E, std::move(O));
  }

  std::set<const VarDecl *> *gdone;
  void globalRecord(const VarDecl *V);

  bool run(json::Object &R);
};

static std::set<string> gGlobals;
void FnLower::globalRecord(const VarDecl *V) {
  if (!X.inRepo(V->getLocation())) return;
  string q = X.qname(V);
  string cls;
  if (auto *RD = dyn_cast<CXXRecordDecl>(V->getDeclContext())) cls = X.rname(RD);
  if (!gGlobals.insert(cls + "|" + q).second) return;
  json::Object O;
  O["K"] = "global"; O["q"] = q; O["t"] = X.T(V->getType());
  if (!cls.empty()) O["cls"] = cls;
  O["file"] = X.rel(X.fileOf(V->getLocation())); O["line"] = X.lineOf(V->getLocation());
  const VarDecl *Def = nullptr;
  const Expr *Init = V->getAnyInitializer(Def);
  if (Init && !Init->isValueDependent()) {
    string s;
    if (literalOf(Init, s)) O["s"] = json::fixUTF8(s);
    if (V->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult Rr;
      if (Init->EvaluateAsInt(Rr, X.C)) { auto Vv = Rr.Val.getInt(); O["v"] = i64(Vv); }
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(strip(Init))) {
      json::Array a; bool all = true;
      for (auto *e : CE->arguments()) { Expr::EvalResult Rr;
        if (e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && e->EvaluateAsInt(Rr, X.C)) a.push_back(i64(Rr.Val.getInt()));
        else all = false; }
      if (all && CE->getNumArgs()) O["ctor"] = std::move(a);
    }
    if (auto *IL = dyn_cast<InitListExpr>(strip(Init))) {
      json::Array a; bool all = true;
      for (auto *e : IL->inits()) { Expr::EvalResult Rr;
        if (e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && e->EvaluateAsInt(Rr, X.C)) a.push_back(i64(Rr.Val.getInt()));
        else all = false; }
      if (all) O["ilist"] = std::move(a);
    }
  }
  X.emit(std::move(O));
}

bool FnLower::run(json::Object &R) {
  const Stmt *Body = F->getBody();
  if (!Body) return false;
  if (auto *Ct = dyn_cast<CXXConstructorDecl>(F))
    for (auto *I : Ct->inits()) if (I->getInit()) walkTry(I->getInit(), -1);
  walkTry(Body, -1);
  for (auto *P : F->parameters()) var(P);
  CFG::BuildOptions BO;
  BO.AddImplicitDtors = true;
  BO.AddInitializers = true;
  BO.AddTemporaryDtors = true;
  BO.AddCXXDefaultInitExprInCtors = true;
  BO.PruneTriviallyFalseEdges = false;
  BO.setAllAlwaysAdd();
  std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &X.C, BO);
  if (!G) return false;
  json::Array blocks;
  std::unordered_map<const CXXTryStmt *, int> tid;
  for (size_t i = 0; i < tries.size(); i++) tid[tries[i]] = (int)i;
  for (const CFGBlock *B : *G) {
    json::Object bo;
    bo["id"] = (int)B->getBlockID();
    json::Array el;
    for (auto &E : *B) {
      switch (E.getKind()) {
      case CFGElement::Statement:
      case CFGElement::Constructor:
      case CFGElement::CXXRecordTypedCall: {
        const Stmt *S = E.castAs<CFGStmt>().getStmt();
        if (auto *DS = dyn_cast<DeclStmt>(S)) {
          for (auto *D : DS->decls())
            if (auto *V = dyn_cast<VarDecl>(D)) {
              int n = V->getInit() ? lower(V->getInit()) : -1;
              json::Object o; o["e"] = "decl"; o["d"] = var(V); o["n"] = n; o["l"] = X.lineOf(V->getLocation());
              el.push_back(std::move(o));
            }
        } else if (auto *RS = dyn_cast<ReturnStmt>(S)) {
          json::Object o; o["e"] = "ret"; o["n"] = RS->getRetValue() ? lower(RS->getRetValue()) : -1;
          o["l"] = X.lineOf(RS->getBeginLoc());
          el.push_back(std::move(o));
        } else if (auto *Ex = dyn_cast<Expr>(S)) {
          const Expr *sx = strip(Ex);
          if (sx != Ex) { lower(Ex); break; }   // wrapper: the inner one is its own element
          int n = lower(Ex);
          el.push_back(n);
        } 
        break;
      }
      case CFGElement::Initializer: {
        const CXXCtorInitializer *I = E.castAs<CFGInitializer>().getInitializer();
        json::Object o; o["e"] = "init"; o["n"] = I->getInit() ? lower(I->getInit()) : -1;
        if (I->isAnyMemberInitializer()) o["m"] = X.qname(I->getAnyMember());
        else if (I->isBaseInitializer()) o["b"] = X.T(QualType(I->getBaseClass(), 0));
        else o["deleg"] = true;
        if (!I->isWritten()) o["implicit"] = true;
        el.push_back(std::move(o));
        break;
      }
      case CFGElement::AutomaticObjectDtor: {
        auto D = E.castAs<CFGAutomaticObjDtor>();
        json::Object o; o["e"] = "dtor"; o["d"] = var(D.getVarDecl());
        if (auto *DD = D.getDestructorDecl(X.C)) { X.declRecord(DD); o["f"] = X.key(DD); }
        o["l"] = X.lineOf(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : D.getVarDecl()->getLocation());
        el.push_back(std::move(o));
        break;
      }
      case CFGElement::TemporaryDtor: {
        auto D = E.castAs<CFGTemporaryDtor>();
        json::Object o; o["e"] = "tdtor"; o["n"] = lower(D.getBindTemporaryExpr()->getSubExpr());
        if (auto *DD = D.getDestructorDecl(X.C)) { X.declRecord(DD); o["f"] = X.key(DD); }
        el.push_back(std::move(o));
        break;
      }
      case CFGElement::MemberDtor: {
        auto D = E.castAs<CFGMemberDtor>();
        json::Object o; o["e"] = "mdtor"; o["m"] = X.qname(D.getFieldDecl());
        if (auto *DD = D.getDestructorDecl(X.C)) { X.declRecord(DD); o["f"] = X.key(DD); }
        el.push_back(std::move(o));
        break;
      }
      case CFGElement::BaseDtor: {
        auto D = E.castAs<CFGBaseDtor>();
        json::Object o; o["e"] = "bdtor";
        if (auto *DD = D.getDestructorDecl(X.C)) { X.declRecord(DD); o["f"] = X.key(DD); }
        el.push_back(std::move(o));
        break;
      }
      case CFGElement::DeleteDtor: {
        auto D = E.castAs<CFGDeleteDtor>();
        json::Object o; o["e"] = "ddtor";
        if (auto *DD = D.getDestructorDecl(X.C)) { X.declRecord(DD); o["f"] = X.key(DD); }
        el.push_back(std::move(o));
        break;
      }
      default: break;
      }
    }
    bo["el"] = std::move(el);
    json::Array su;
    for (auto &Sx : B->succs()) {
      const CFGBlock *T = Sx.getReachableBlock();
      if (!T) T = Sx.getPossiblyUnreachableBlock();
      su.push_back(T ? (int)T->getBlockID() : -1);
    }
    bo["su"] = std::move(su);
    if (const Stmt *T = B->getTerminatorStmt()) {
      json::Object to;
      to["k"] = T->getStmtClassName();
      to["l"] = X.lineOf(T->getBeginLoc());
      if (auto *Cnd = B->getLastCondition()) to["c"] = lower(Cnd);
      else if (auto *TC = B->getTerminatorCondition()) if (auto *ex = dyn_cast<Expr>(TC)) to["c"] = lower(ex);
      if (auto *TE = dyn_cast<Expr>(T)) to["n"] = lower(TE);
      if (auto *BO2 = dyn_cast<BinaryOperator>(T)) to["op"] = BO2->getOpcodeStr().str();
      if (B->getTerminator().isTemporaryDtorsBranch()) to["tdb"] = true;
      bo["tm"] = std::move(to);
    }
    if (const Stmt *L = B->getLabel()) {
      if (auto *Ct = dyn_cast<CXXCatchStmt>(L)) {
        json::Object lo; lo["k"] = "catch";
        // find try
        for (size_t i = 0; i < tries.size(); i++)
          for (unsigned h = 0; h < tries[i]->getNumHandlers(); h++)
            if (tries[i]->getHandler(h) == Ct) { lo["try"] = (int)i; lo["h"] = (int)h; }
        if (Ct->getExceptionDecl()) lo["d"] = var(Ct->getExceptionDecl());
        bo["lb"] = std::move(lo);
      } else if (auto *Cs = dyn_cast<CaseStmt>(L)) {
        json::Object lo; lo["k"] = "case";
        Expr::EvalResult Rr;
        if (!Cs->getLHS()->isValueDependent() && Cs->getLHS()->EvaluateAsInt(Rr, X.C)) lo["v"] = i64(Rr.Val.getInt());
        bo["lb"] = std::move(lo);
      } else if (isa<DefaultStmt>(L)) {
        json::Object lo; lo["k"] = "default"; bo["lb"] = std::move(lo);
      }
    }
    blocks.push_back(std::move(bo));
  }
  R["bl"] = std::move(blocks);
  R["en"] = (int)G->getEntry().getBlockID();
  R["ex"] = (int)G->getExit().getBlockID();
  R["no"] = std::move(nodes);
  R["va"] = std::move(varArr);
  R["tr"] = std::move(tryArr);
  return true;
}

struct V : RecursiveASTVisitor<V> {
  Ctx &X;
  std::set<string> enumDone, recDone;
  explicit V(Ctx &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted() && F->isThisDeclarationADefinition())) return true;
    if (F->isDependentContext() || F->isTemplated()) return true;
    if (!F->getBody()) return true;
    if (!X.inRepo(F->getLocation()) ) return true;
    string k = X.key(F);
    if (!X.funcDone.insert(k).second) return true;
    if (getenv("XDBG")) llvm::errs() << k << "\n";
    X.declRecord(F);
    FnLower L(X, F);
    json::Object R;
    R["K"] = "fn";
    R["k"] = k;
    R["file"] = X.rel(X.fileOf(F->getLocation()));
    R["line"] = X.lineOf(F->getLocation());
    R["end"] = X.lineOf(F->getBodyRBrace().isValid() ? F->getBodyRBrace() : F->getEndLoc());
    if (!L.run(R)) return true;
    X.OS << "F\t" << k << "\t" << json::Value(std::move(R)) << "\n";
    return true;
  }

  bool VisitVarDecl(VarDecl *Vd) {
    if (!Vd->hasGlobalStorage() || Vd->isStaticLocal()) return true;
    if (Vd->isTemplated() || Vd->getType()->isDependentType()) return true;
    if (!X.inRepo(Vd->getLocation())) return true;
    FnLower L(X, nullptr);
    L.globalRecord(Vd);
    return true;
  }

  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !X.inRepo(E->getLocation())) return true;
    if (E->isDependentContext()) return true;
    string q = X.qname(E);
    if (!enumDone.insert(q + X.rel(X.fileOf(E->getLocation()))).second) return true;
    json::Object O; O["K"] = "enum"; O["q"] = q;
    O["file"] = X.rel(X.fileOf(E->getLocation())); O["line"] = X.lineOf(E->getLocation());
    json::Array a;
    for (auto *C : E->enumerators()) a.push_back(json::Array{C->getNameAsString(), i64(C->getInitVal())});
    O["c"] = std::move(a);
    X.emit(std::move(O));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!X.inRepo(R->getLocation()) || R->isLambda()) return true;
    if (R->isInvalidDecl()) return true;
    string n = X.rname(R);
    if (!recDone.insert(n).second) return true;
    json::Object O; O["K"] = "rec"; O["n"] = n; O["q"] = X.qname(R);
    O["file"] = X.rel(X.fileOf(R->getLocation())); O["line"] = X.lineOf(R->getLocation());
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      json::Array ta;
      for (auto &A : S->getTemplateArgs().asArray()) { string s; llvm::raw_string_ostream o(s); A.print(X.PP, o, true); ta.push_back(X.fixns(o.str())); }
      O["ta"] = std::move(ta);
    }
    json::Array bs;
    for (auto &B : R->bases()) bs.push_back(X.T(B.getType()));
    O["b"] = std::move(bs);
    json::Array fs;
    for (auto *Fd : R->fields()) {
      json::Object f; f["q"] = X.qname(Fd); f["n"] = Fd->getNameAsString(); f["t"] = X.T(Fd->getType()); f["s"] = X.sugar(Fd->getType());
      QualType T = Fd->getType();
      QualType ET = X.C.getBaseElementType(T);
      f["k"] = ET->isReferenceType() ? "ref" : ET->isAnyPointerType() ? "ptr" : ET->isRecordType() ? "rec" : "scalar";
      if (T->isArrayType()) f["arr"] = true;
      if (auto *RT = ET->getAsCXXRecordDecl()) { f["rq"] = X.qname(RT); f["rn"] = X.rname(RT); }
      if (T.isConstQualified()) f["const"] = true;
      if (Fd->isMutable()) f["mut"] = true;
      if (Fd->hasInClassInitializer()) f["init"] = true;
      f["acc"] = (int)Fd->getAccess();
      f["l"] = X.lineOf(Fd->getLocation());
      fs.push_back(std::move(f));
    }
    O["f"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      if (M->isTemplated()) continue;
      X.declRecord(M);
      ms.push_back(X.key(M));
    }
    O["m"] = std::move(ms);
    if (R->isPolymorphic()) O["poly"] = true;
    if (R->isAbstract()) O["abs"] = true;
    if (R->hasUserDeclaredCopyConstructor()) O["ucc"] = true;
    if (R->hasUserDeclaredCopyAssignment()) O["uca"] = true;
    if (R->hasUserDeclaredDestructor()) O["ud"] = true;
    // implicitly deleted / usable copies
    bool cdel = false, adel = false;
    for (auto *Ct : R->ctors()) if (Ct->isCopyConstructor()) cdel |= Ct->isDeleted() || Ct->getAccess() == AS_private;
    for (auto *M : R->methods()) if (M->isCopyAssignmentOperator()) adel |= M->isDeleted() || M->getAccess() == AS_private;
    if (R->needsImplicitCopyConstructor() && R->defaultedCopyConstructorIsDeleted()) cdel = true;
    if (cdel) O["cdel"] = true;
    if (adel) O["adel"] = true;
    json::Array fr;
    X.emit(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(gOut, EC);
    if (EC) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
    Ctx X(C, OS);
    // define implicit copy members of repo classes so that they are visible as bodies
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O; O["K"] = "end"; O["errors"] = (int)C.getDiagnostics().hasErrorOccurred();
    X.emit(std::move(O));
    OS.flush();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getLangOpts().CommentOpts = CommentOptions();
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

int main(int argc, const char **argv) {
  // extract OUT ROOT[,ROOT2...] FILE -- args
  if (argc < 5) { llvm::errs() << "usage\n"; return 3; }
  gOut = argv[1];
  string roots = argv[2];
  gRoot = roots.substr(0, roots.find(','));
  { std::stringstream ss(roots); string r; bool first = true;
    while (std::getline(ss, r, ',')) { if (first) { for (auto d : {"export/", "include/", "src/", "apps/"}) gRoots.push_back(r + d); first = false; } else gRoots.push_back(r); } }
  string file = argv[3];
  std::vector<string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", args);
  tooling::ClangTool Tool(DB, {file});
  int r = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return r ? 4 : 0;
}
