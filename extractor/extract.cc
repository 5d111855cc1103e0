// libTooling extractor: one translation unit -> one JSON document holding a compact, fully resolved
// structured IR of every repository function reachable from (or defined in) the unit.
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;
using J = json::Value;
using A = json::Array;
static std::string kRoot = "/repo/src/";

struct X {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  // interned function refs
  std::map<const FunctionDecl*, int> fidx;
  A fns;
  std::map<std::string, int> tidx;
  A types;
  std::deque<const FunctionDecl*> work;
  std::set<const FunctionDecl*> seen;
  A out;
  std::map<const Decl*, int> vid;  // per function
  json::Object* vars = nullptr;
  int nextv = 0;
  explicit X(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto p = SM.getPresumedLoc(L, false);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    llvm::SmallString<256> s(f);
    if (!f.empty() && f[0] != '/') { std::string cwd = kRoot; s = cwd + f; }
    return std::string(s);
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRepo(const Decl* D) { auto f = file(D->getLocation()); return f.rfind(kRoot, 0) == 0; }
  std::string rel(const std::string& f) { return f.rfind(kRoot, 0) == 0 ? f.substr(kRoot.size()) : f; }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > 300) s.resize(300);
    auto it = tidx.find(s);
    if (it != tidx.end()) return it->second;
    int i = tidx.size(); tidx[s] = i; types.push_back(s); return i;
  }
  std::string qn(const NamedDecl* D) {
    std::string s; llvm::raw_string_ostream o(s);
    // qualified name without inline/anonymous noise and without template args
    std::vector<std::string> parts;
    for (const DeclContext* dc = D->getDeclContext(); dc && !dc->isTranslationUnit(); dc = dc->getParent()) {
      if (auto* n = dyn_cast<NamespaceDecl>(dc)) { if (!n->isAnonymousNamespace() && !n->isInline()) parts.push_back(n->getNameAsString()); else if (n->isAnonymousNamespace()) parts.push_back("(anon)"); }
      else if (auto* r = dyn_cast<RecordDecl>(dc)) { if (auto* cr = dyn_cast<CXXRecordDecl>(r); cr && cr->isLambda()) parts.push_back("(lambda)"); else parts.push_back(r->getNameAsString()); }
      else if (auto* f = dyn_cast<FunctionDecl>(dc)) parts.push_back(f->getNameAsString() + "()");
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) o << *it << "::";
    o << D->getNameAsString();
    return s;
  }
  A targs(const FunctionDecl* F) {
    A r;
    auto add = [&](auto&& self, const TemplateArgument& a) -> void {
      switch (a.getKind()) {
        case TemplateArgument::Type: r.push_back(a.getAsType().getCanonicalType().getAsString(PP)); break;
        case TemplateArgument::Integral: { llvm::SmallString<16> s; a.getAsIntegral().toString(s, 10); r.push_back(std::string(s)); break; }
        case TemplateArgument::Pack: for (auto& x : a.pack_elements()) self(self, x); break;
        case TemplateArgument::Declaration: r.push_back(a.getAsDecl()->getNameAsString()); break;
        default: r.push_back("?");
      }
    };
    if (auto* l = F->getTemplateSpecializationArgs()) for (auto& a : l->asArray()) add(add, a);
    return r;
  }
  int fn(const FunctionDecl* F0) {
    const FunctionDecl* F = F0->getCanonicalDecl();
    auto it = fidx.find(F);
    if (it != fidx.end()) return it->second;
    int id = fns.size();
    fidx[F] = id;
    json::Object o;
    o["q"] = qn(F);
    A ps; for (auto* p : F->parameters()) ps.push_back(ty(p->getType()));
    o["p"] = std::move(ps); o["r"] = ty(F->getReturnType());
    A ta = targs(F); if (!ta.empty()) o["t"] = std::move(ta);
    if (auto* m = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(m->getParent());
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) o["clst"] = C.getTypeDeclType(sp).getCanonicalType().getAsString(PP);
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
    }
    const FunctionDecl* D = nullptr;
    bool body = F->hasBody(D);
    // a defaulted argument list matters for callers
    o["f"] = rel(file(F->getLocation())); o["l"] = line(F->getLocation());
    bool repo = inRepo(F);
    o["repo"] = repo ? 1 : 0;
    fns.push_back(std::move(o));
    if (repo) {
      const FunctionDecl* def = D;
      if (!body) { if (auto* pat = F->getTemplateInstantiationPattern()) { const FunctionDecl* d2 = nullptr; if (pat->hasBody(d2)) def = d2; } }
      if (def && !(isa<CXXMethodDecl>(def) && cast<CXXMethodDecl>(def)->getParent()->isLambda())) enqueue(def, F);
    }
    return id;
  }
  std::map<const FunctionDecl*, const FunctionDecl*> as;  // body -> canonical id owner
  void enqueue(const FunctionDecl* def, const FunctionDecl* canon) {
    if (!seen.insert(canon->getCanonicalDecl()).second) return;
    as[canon->getCanonicalDecl()] = def;
    work.push_back(canon->getCanonicalDecl());
  }
  int var(const ValueDecl* D) {
    auto* K = D->getCanonicalDecl();
    auto it = vid.find(K);
    if (it != vid.end()) return it->second;
    int id = nextv++;
    vid[K] = id;
    if (vars) {
      A v; v.push_back(D->getNameAsString()); v.push_back(ty(D->getType()));
      std::string kind = isa<ParmVarDecl>(D) ? "p" : "l";
      if (auto* vd = dyn_cast<VarDecl>(D)) { if (vd->isStaticLocal()) kind = "s"; }
      v.push_back(kind);
      (*vars)[std::to_string(id)] = std::move(v);
    }
    return id;
  }
  A N(const char* k, SourceLocation L) { A a; a.push_back(k); a.push_back(static_cast<int64_t>(line(L))); return a; }

  const Stmt* strip(const Stmt* S) {
    while (S) {
      if (auto* e = dyn_cast<ImplicitCastExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<ParenExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<ExprWithCleanups>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<ConstantExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = e->getReplacement();
      else if (auto* e = dyn_cast<CXXDefaultArgExpr>(S)) S = e->getExpr();
      else if (auto* e = dyn_cast<CXXDefaultInitExpr>(S)) S = e->getExpr();
      else if (auto* e = dyn_cast<FullExpr>(S)) S = e->getSubExpr();
      else if (auto* e = dyn_cast<AttributedStmt>(S)) S = e->getSubStmt();
      else break;
    }
    return S;
  }
  J lambda(const LambdaExpr* L) {
    A a = N("lam", L->getBeginLoc());
    const CXXMethodDecl* op = L->getCallOperator();
    const Stmt* body = L->getBody();
    const FunctionDecl* use = op;
    if (auto* T = L->getDependentCallOperator()) {
      for (auto* s : T->specializations()) { const FunctionDecl* d = nullptr; if (s->hasBody(d)) { use = d; body = d->getBody(); break; } }
    }
    A ps; for (auto* p : use->parameters()) ps.push_back(var(p));
    a.push_back(std::move(ps));
    A caps;
    for (auto& c : L->captures()) {
      A k;
      if (c.capturesThis()) { k.push_back(-1); k.push_back("this"); k.push_back(nullptr); }
      else if (c.capturesVariable()) {
        auto* v = c.getCapturedVar();
        k.push_back(var(v)); k.push_back(c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        if (auto* vd = dyn_cast<VarDecl>(v); vd && L->isInitCapture(&c) && vd->getInit()) k.push_back(E(vd->getInit())); else k.push_back(nullptr);
      } else continue;
      caps.push_back(std::move(k));
    }
    a.push_back(std::move(caps));
    a.push_back(S(body));
    return a;
  }
  A args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { A x; for (auto* e : r) x.push_back(E(e)); return x; }
  J unresolvedName(const Expr* e) {
    if (auto* u = dyn_cast<OverloadExpr>(e)) return u->getName().getAsString();
    if (auto* u = dyn_cast<CXXDependentScopeMemberExpr>(e)) return u->getMember().getAsString();
    if (auto* u = dyn_cast<DependentScopeDeclRefExpr>(e)) return u->getDeclName().getAsString();
    return nullptr;
  }
  J E(const Stmt* S0) {
    const Stmt* S = strip(S0);
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto* e = dyn_cast<LambdaExpr>(S)) return lambda(e);
    if (auto* e = dyn_cast<CXXConstructExpr>(S)) {
      if (e->getNumArgs() == 1 && (e->getConstructor()->isCopyOrMoveConstructor() || e->isElidable())) {
        // copies are kept visible only as the operand, with a marker for real copies
        A a = N("copy", L); a.push_back(E(e->getArg(0))); a.push_back(ty(e->getType())); a.push_back(e->getConstructor()->isMoveConstructor() ? 1 : 0); return a;
      }
      A a = N("new", L); a.push_back(ty(e->getType())); a.push_back(fn(e->getConstructor()));
      A x; for (auto* p : e->arguments()) x.push_back(E(p)); a.push_back(std::move(x)); return a;
    }
    if (auto* e = dyn_cast<CXXFunctionalCastExpr>(S)) { auto* s = strip(e->getSubExpr()); if (isa<CXXConstructExpr>(s) || isa<InitListExpr>(s)) return E(s); A a = N("cast", L); a.push_back(ty(e->getType())); a.push_back(E(s)); return a; }
    if (auto* e = dyn_cast<ExplicitCastExpr>(S)) { A a = N("cast", L); a.push_back(ty(e->getType())); a.push_back(E(e->getSubExpr())); return a; }
    if (auto* e = dyn_cast<CXXMemberCallExpr>(S)) {
      A a = N("mcall", L);
      auto* m = e->getMethodDecl();
      if (m) a.push_back(fn(m)); else a.push_back(nullptr);
      a.push_back(E(e->getImplicitObjectArgument())); a.push_back(args(e->arguments())); a.push_back(ty(e->getType())); return a;
    }
    if (auto* e = dyn_cast<CXXOperatorCallExpr>(S)) {
      auto* d = dyn_cast_or_null<FunctionDecl>(e->getCalleeDecl());
      A a = N("op", L); a.push_back(getOperatorSpelling(e->getOperator())); if (d) a.push_back(fn(d)); else a.push_back(nullptr);
      a.push_back(args(e->arguments())); a.push_back(ty(e->getType())); return a;
    }
    if (auto* e = dyn_cast<CallExpr>(S)) {
      A a = N("call", L);
      const Decl* cd = e->getCalleeDecl();
      if (auto* d = dyn_cast_or_null<FunctionDecl>(cd)) { a.push_back(fn(d)); a.push_back(nullptr); }
      else {
        const Stmt* c = strip(e->getCallee()); J n = nullptr;
        if (auto* ce = dyn_cast_or_null<Expr>(c)) n = unresolvedName(ce);
        if (n != J(nullptr)) { a.push_back(std::move(n)); J obj = nullptr;
          if (auto* u = dyn_cast<CXXDependentScopeMemberExpr>(c)) { if (!u->isImplicitAccess()) obj = E(u->getBase()); }
          else if (auto* u = dyn_cast<UnresolvedMemberExpr>(c)) { if (!u->isImplicitAccess()) obj = E(u->getBase()); }
          a.push_back(std::move(obj)); }
        else { a.push_back(nullptr); a.push_back(E(c)); }
      }
      a.push_back(args(e->arguments())); a.push_back(ty(e->getType())); return a;
    }
    if (auto* e = dyn_cast<DeclRefExpr>(S)) {
      auto* d = e->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) { A a = N("fref", L); a.push_back(fn(f)); return a; }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { A a = N("enum", L); a.push_back(ec->getNameAsString()); a.push_back(static_cast<int64_t>(ec->getInitVal().getExtValue())); a.push_back(qn(cast<NamedDecl>(ec->getDeclContext()))); return a; }
      if (auto* b = dyn_cast<BindingDecl>(d)) { A a = N("bind", L); if (b->getDecomposedDecl()) a.push_back(var(cast<ValueDecl>(b->getDecomposedDecl()))); else a.push_back(-1); int i = 0, k = -1; if (auto* dd = dyn_cast_or_null<DecompositionDecl>(b->getDecomposedDecl())) for (auto* x : dd->bindings()) { if (x == b) k = i; ++i; } a.push_back(k); a.push_back(b->getNameAsString()); a.push_back(ty(b->getType())); return a; }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() || v->isInitCapture()) { A a = N("var", L); a.push_back(var(v)); return a; }
        A a = N("glob", L); a.push_back(qn(v)); a.push_back(ty(v->getType()));
        // constant value when known
        if (v->hasInit() && v->getType().isConstQualified() && !v->getInit()->isValueDependent()) {
          if (auto* sl = dyn_cast<StringLiteral>(strip(v->getAnyInitializer()))) { a.push_back(sl->getCharByteWidth() == 1 ? J(sl->getString().str()) : J(nullptr)); return a; }
          if (v->getType()->isIntegralOrEnumerationType()) if (auto* av = v->evaluateValue(); av && av->isInt()) { llvm::SmallString<32> s; av->getInt().toString(s, 10); a.push_back(std::string(s)); return a; }
        }
        a.push_back(nullptr); return a;
      }
      A a = N("glob", L); a.push_back(qn(d)); a.push_back(ty(d->getType())); a.push_back(nullptr); return a;
    }
    if (auto* e = dyn_cast<MemberExpr>(S)) {
      auto* d = e->getMemberDecl();
      if (isa<FunctionDecl>(d)) { A a = N("fref", L); a.push_back(fn(cast<FunctionDecl>(d))); a.push_back(E(e->getBase())); return a; }
      if (auto* v = dyn_cast<VarDecl>(d)) { A a = N("glob", L); a.push_back(qn(v)); a.push_back(ty(v->getType())); a.push_back(nullptr); return a; }
      A a = N("mem", L); a.push_back(E(e->getBase())); a.push_back(qn(d)); a.push_back(ty(d->getType())); return a;
    }
    if (auto* e = dyn_cast<CXXDependentScopeMemberExpr>(S)) { A a = N("mem", L); a.push_back(e->isImplicitAccess() ? J(nullptr) : E(e->getBase())); a.push_back(e->getMember().getAsString()); a.push_back(-1); return a; }
    if (isa<CXXThisExpr>(S)) return N("this", L);
    if (auto* e = dyn_cast<IntegerLiteral>(S)) { A a = N("int", L); llvm::SmallString<32> s; e->getValue().toString(s, 10, false); a.push_back(std::string(s)); return a; }
    if (auto* e = dyn_cast<CXXBoolLiteralExpr>(S)) { A a = N("int", L); a.push_back(e->getValue() ? "1" : "0"); return a; }
    if (auto* e = dyn_cast<CharacterLiteral>(S)) { A a = N("int", L); a.push_back(std::to_string(e->getValue())); return a; }
    if (auto* e = dyn_cast<FloatingLiteral>(S)) { A a = N("flt", L); llvm::SmallString<32> s; e->getValue().toString(s); a.push_back(std::string(s)); return a; }
    if (auto* e = dyn_cast<StringLiteral>(S)) { A a = N("str", L); a.push_back(e->getCharByteWidth() == 1 && json::isUTF8(e->getString()) ? e->getString().str() : "?"); return a; }
    if (auto* e = dyn_cast<PredefinedExpr>(S)) { A a = N("str", L); a.push_back(e->getFunctionName() ? e->getFunctionName()->getString().str() : "?"); return a; }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) return N("null", L);
    if (auto* e = dyn_cast<UnaryOperator>(S)) { A a = N("un", L); a.push_back(std::string(e->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(e->getOpcode()).str()); a.push_back(E(e->getSubExpr())); return a; }
    if (auto* e = dyn_cast<BinaryOperator>(S)) { A a = N(e->isAssignmentOp() ? "asg" : "bin", L); a.push_back(e->getOpcodeStr().str()); a.push_back(E(e->getLHS())); a.push_back(E(e->getRHS())); a.push_back(ty(e->getType())); return a; }
    if (auto* e = dyn_cast<AbstractConditionalOperator>(S)) { A a = N("cond", L); a.push_back(E(e->getCond())); a.push_back(E(e->getTrueExpr())); a.push_back(E(e->getFalseExpr())); return a; }
    if (auto* e = dyn_cast<OpaqueValueExpr>(S)) return E(e->getSourceExpr());
    if (auto* e = dyn_cast<ArraySubscriptExpr>(S)) { A a = N("idx", L); a.push_back(E(e->getBase())); a.push_back(E(e->getIdx())); a.push_back(ty(e->getType())); return a; }
    if (auto* e = dyn_cast<InitListExpr>(S)) { A a = N("list", L); A x; for (auto* i : e->inits()) x.push_back(E(i)); a.push_back(std::move(x)); a.push_back(ty(e->getType())); return a; }
    if (auto* e = dyn_cast<CXXStdInitializerListExpr>(S)) return E(e->getSubExpr());
    if (auto* e = dyn_cast<CXXScalarValueInitExpr>(S)) { A a = N("zero", L); a.push_back(ty(e->getType())); return a; }
    if (auto* e = dyn_cast<ImplicitValueInitExpr>(S)) { A a = N("zero", L); a.push_back(ty(e->getType())); return a; }
    if (auto* e = dyn_cast<CXXThrowExpr>(S)) { A a = N("throw", L); a.push_back(e->getSubExpr() ? E(e->getSubExpr()) : J(nullptr)); return a; }
    if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { A a = N("sizeof", L); a.push_back(e->isArgumentType() ? ty(e->getArgumentType()) : ty(e->getArgumentExpr()->getType())); return a; }
    if (auto* e = dyn_cast<CXXNewExpr>(S)) { A a = N("new", L); a.push_back(ty(e->getType())); a.push_back(nullptr); A x; if (e->getInitializer()) x.push_back(E(e->getInitializer())); for (auto* p : e->placement_arguments()) x.push_back(E(p)); a.push_back(std::move(x)); return a; }
    if (auto* e = dyn_cast<CXXDeleteExpr>(S)) { A a = N("del", L); a.push_back(E(e->getArgument())); return a; }
    if (auto* e = dyn_cast<CXXUnresolvedConstructExpr>(S)) { A a = N("new", L); a.push_back(ty(e->getTypeAsWritten())); a.push_back(nullptr); A x; for (auto* p : e->arguments()) x.push_back(E(p)); a.push_back(std::move(x)); return a; }
    if (auto* e = dyn_cast<StmtExpr>(S)) return this->S(e->getSubStmt());
    if (auto* e = dyn_cast<Expr>(S)) {
      J n = unresolvedName(e);
      A a = N("x", L); a.push_back(S->getStmtClassName()); A x; for (auto* c : S->children()) if (c) x.push_back(E(c)); a.push_back(std::move(x)); a.push_back(std::move(n)); return a;
    }
    return this->S(S);
  }
  J declStmt(const DeclStmt* d) {
    A a = N("decl", d->getBeginLoc()); A x;
    for (auto* D : d->decls()) {
      if (auto* v = dyn_cast<VarDecl>(D)) {
        A y; y.push_back(var(v)); y.push_back(v->hasInit() ? E(v->getInit()) : J(nullptr));
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) { A b; for (auto* k : dd->bindings()) b.push_back(k->getNameAsString()); y.push_back(std::move(b)); }
        x.push_back(std::move(y));
      }
    }
    a.push_back(std::move(x)); return a;
  }
  J S(const Stmt* S0) {
    if (!S0) return nullptr;
    const Stmt* S = S0;
    if (auto* e = dyn_cast<AttributedStmt>(S)) S = e->getSubStmt();
    SourceLocation L = S->getBeginLoc();
    if (isa<Expr>(S)) return E(S);
    if (auto* s = dyn_cast<CompoundStmt>(S)) { A a = N("block", L); A x; for (auto* c : s->body()) x.push_back(this->S(c)); a.push_back(std::move(x)); return a; }
    if (auto* s = dyn_cast<DeclStmt>(S)) return declStmt(s);
    if (auto* s = dyn_cast<IfStmt>(S)) {
      A a = N(s->isConstexpr() ? "ifc" : "if", L); a.push_back(s->getInit() ? this->S(s->getInit()) : J(nullptr));
      J c = s->getConditionVariableDeclStmt() ? declStmt(s->getConditionVariableDeclStmt()) : J(nullptr);
      if (c != J(nullptr)) { a.back() = std::move(c); }
      a.push_back(E(s->getCond()));
      if (s->isConstexpr() && !s->getCond()->isValueDependent()) {
        Expr::EvalResult r; bool v = false;
        if (s->getCond()->EvaluateAsInt(r, C)) { v = r.Val.getInt().getBoolValue(); a.push_back(v ? this->S(s->getThen()) : J(nullptr)); a.push_back(v || !s->getElse() ? J(nullptr) : this->S(s->getElse())); return a; }
      }
      a.push_back(this->S(s->getThen())); a.push_back(this->S(s->getElse())); return a;
    }
    if (auto* s = dyn_cast<ForStmt>(S)) { A a = N("for", L); a.push_back(this->S(s->getInit())); a.push_back(s->getCond() ? E(s->getCond()) : J(nullptr)); a.push_back(s->getInc() ? E(s->getInc()) : J(nullptr)); a.push_back(this->S(s->getBody())); return a; }
    if (auto* s = dyn_cast<CXXForRangeStmt>(S)) { A a = N("rfor", L); a.push_back(s->getLoopVariable() ? J(var(s->getLoopVariable())) : J(nullptr)); a.push_back(E(s->getRangeInit())); a.push_back(this->S(s->getBody())); a.push_back(s->getLoopVariable() ? ty(s->getLoopVariable()->getType()) : -1);
      if (auto* dd = dyn_cast_or_null<DecompositionDecl>(s->getLoopVariable())) { A b; for (auto* k : dd->bindings()) b.push_back(k->getNameAsString()); a.push_back(std::move(b)); } return a; }
    if (auto* s = dyn_cast<WhileStmt>(S)) { A a = N("while", L); a.push_back(E(s->getCond())); a.push_back(this->S(s->getBody())); return a; }
    if (auto* s = dyn_cast<DoStmt>(S)) { A a = N("do", L); a.push_back(this->S(s->getBody())); a.push_back(E(s->getCond())); return a; }
    if (auto* s = dyn_cast<SwitchStmt>(S)) { A a = N("switch", L); a.push_back(E(s->getCond())); a.push_back(this->S(s->getBody())); return a; }
    if (auto* s = dyn_cast<CaseStmt>(S)) { A a = N("case", L); a.push_back(E(s->getLHS())); a.push_back(this->S(s->getSubStmt())); return a; }
    if (auto* s = dyn_cast<DefaultStmt>(S)) { A a = N("default", L); a.push_back(this->S(s->getSubStmt())); return a; }
    if (auto* s = dyn_cast<ReturnStmt>(S)) { A a = N("ret", L); a.push_back(s->getRetValue() ? E(s->getRetValue()) : J(nullptr)); return a; }
    if (isa<BreakStmt>(S)) return N("break", L);
    if (isa<ContinueStmt>(S)) return N("cont", L);
    if (auto* s = dyn_cast<CXXTryStmt>(S)) { A a = N("try", L); a.push_back(this->S(s->getTryBlock())); A h; for (unsigned i = 0; i < s->getNumHandlers(); ++i) { auto* c = s->getHandler(i); A k; k.push_back(c->getExceptionDecl() ? J(ty(c->getExceptionDecl()->getType())) : J("...")); k.push_back(c->getExceptionDecl() ? J(var(c->getExceptionDecl())) : J(nullptr)); k.push_back(this->S(c->getHandlerBlock())); k.push_back(static_cast<int64_t>(line(c->getBeginLoc()))); h.push_back(std::move(k)); } a.push_back(std::move(h)); return a; }
    if (auto* s = dyn_cast<LabelStmt>(S)) return this->S(s->getSubStmt());
    if (auto* s = dyn_cast<CapturedStmt>(S)) return this->S(s->getCapturedStmt());
    if (auto* s = dyn_cast<OMPExecutableDirective>(S)) { A a = N("omp", L); a.push_back(s->hasAssociatedStmt() ? this->S(s->getAssociatedStmt()) : J(nullptr)); return a; }
    if (isa<NullStmt>(S)) return N("nop", L);
    A a = N("s", L); a.push_back(S->getStmtClassName()); A x; for (auto* c : S->children()) if (c) x.push_back(this->S(c)); a.push_back(std::move(x)); return a;
  }
  void emit(const FunctionDecl* canon) {
    const FunctionDecl* F = as[canon];
    json::Object o, vs;
    vid.clear(); nextv = 0; vars = &vs;
    o["id"] = fn(canon);
    o["q"] = qn(F); o["f"] = rel(file(F->getLocation())); o["l"] = line(F->getLocation()); o["e"] = line(F->getEndLoc());
    A ps; for (auto* p : F->parameters()) ps.push_back(var(p)); o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(F)) {
      A in; for (auto* i : c->inits()) { A k; if (i->isAnyMemberInitializer()) k.push_back(qn(i->getAnyMember())); else k.push_back(i->getBaseClass() ? QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(PP) : std::string("?")); k.push_back(i->getInit() ? E(i->getInit()) : J(nullptr)); k.push_back(i->isWritten() ? 1 : 0); in.push_back(std::move(k)); }
      o["inits"] = std::move(in);
    }
    o["body"] = S(F->getBody());
    o["vars"] = std::move(vs); vars = nullptr;
    if (F->isDependentContext()) o["dep"] = 1;
    out.push_back(std::move(o));
  }
  // ---- classes / enums
  A classes, enums, globals;
  std::set<const Decl*> cseen;
  void cls(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || !cseen.insert(R->getCanonicalDecl()).second) return;
    json::Object o; o["q"] = qn(R); o["f"] = rel(file(R->getLocation())); o["l"] = line(R->getLocation());
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["spec"] = C.getTypeDeclType(sp).getCanonicalType().getAsString(PP);
    A b; for (auto& x : R->bases()) b.push_back(x.getType().getCanonicalType().getAsString(PP)); o["bases"] = std::move(b);
    A f; for (auto* x : R->fields()) { A k; k.push_back(x->getNameAsString()); k.push_back(ty(x->getType())); k.push_back(static_cast<int64_t>(line(x->getLocation()))); k.push_back(x->hasInClassInitializer() && x->getInClassInitializer() ? J(1) : J(0)); k.push_back(x->isMutable() ? 1 : 0); f.push_back(std::move(k)); } o["fields"] = std::move(f);
    A m; for (auto* x : R->methods()) { if (x->isImplicit()) continue; A k; k.push_back(x->getNameAsString()); k.push_back(x->isVirtual() ? 1 : 0); k.push_back(x->isPureVirtual() ? 1 : 0); k.push_back(x->size_overridden_methods() > 0 ? 1 : 0); k.push_back(static_cast<int64_t>(line(x->getLocation()))); k.push_back(fn(x)); m.push_back(std::move(k)); } o["methods"] = std::move(m);
    A s; for (auto* d : R->decls()) if (auto* v = dyn_cast<VarDecl>(d)) { A k; k.push_back(v->getNameAsString()); J val = nullptr; if (v->hasInit() && !v->getInit()->isValueDependent()) { if (auto* sl = dyn_cast_or_null<StringLiteral>(strip(v->getAnyInitializer())); sl && sl->getCharByteWidth() == 1) val = sl->getString().str(); else if (v->getType()->isIntegralOrEnumerationType()) { if (auto* av = v->evaluateValue(); av && av->isInt()) { llvm::SmallString<32> t; av->getInt().toString(t, 10); val = std::string(t); } } else { vid.clear(); nextv = 0; vars = nullptr; val = E(v->getInit()); } } k.push_back(std::move(val)); k.push_back(ty(v->getType())); s.push_back(std::move(k)); } o["statics"] = std::move(s);
    if (R->isAbstract()) o["abs"] = 1;
    classes.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  X& x;
  explicit V(X& x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (!F->doesThisDeclarationHaveABody() || F->isImplicit() || F->isDefaulted()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(F)) if (m->getParent()->isLambda()) return true;
    if (!x.inRepo(F)) return true;
    bool tmpl = F->isDependentContext();
    bool main = x.SM.isInMainFile(x.SM.getExpansionLoc(F->getLocation()));
    if (tmpl && !main) return true;
    // header functions: everything non dependent too (kernels' evaluate() etc. may be defined inline)
    if (tmpl) { // keep the pattern only when nothing instantiates it
      if (auto* t = F->getDescribedFunctionTemplate()) { for (auto* s : t->specializations()) if (s->hasBody()) return true; }
    }
    x.enqueue(F, F->getCanonicalDecl());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { if (x.inRepo(R)) x.cls(R); return true; }
  bool VisitVarDecl(VarDecl* D) {
    if (D->isLocalVarDeclOrParm() || !D->hasInit() || isa<ParmVarDecl>(D) || !x.inRepo(D) || D->isStaticDataMember()) return true;
    if (D->getDeclContext()->isDependentContext() || D->getType()->isDependentType()) return true;
    x.vid.clear(); x.nextv = 0; json::Object vs; x.vars = &vs;
    json::Object o; o["q"] = x.qn(D); o["t"] = x.ty(D->getType()); o["f"] = x.rel(x.file(D->getLocation())); o["l"] = x.line(D->getLocation()); o["init"] = x.E(D->getInit());
    o["const"] = D->getType().isConstQualified() ? 1 : 0; o["tls"] = D->getTLSKind() != VarDecl::TLS_None ? 1 : 0;
    o["vars"] = std::move(vs); x.vars = nullptr;
    x.globals.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl* D) {
    auto f = x.file(D->getLocation());
    if (!D->isThisDeclarationADefinition()) return true;
    if (f.rfind(kRoot, 0) != 0 && f.find(".pb.h") == std::string::npos) return true;
    json::Object o; o["q"] = x.qn(D); o["f"] = x.rel(f); A v; for (auto* e : D->enumerators()) { A k; k.push_back(e->getNameAsString()); k.push_back(static_cast<int64_t>(e->getInitVal().getExtValue())); v.push_back(std::move(k)); } o["v"] = std::move(v); x.enums.push_back(std::move(o)); return true;
  }
};

static std::string g_out;
static int g_errors = 0;
static std::vector<std::string> g_errs;
struct Diag : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic& d) override {
    DiagnosticConsumer::HandleDiagnostic(l, d);
    if (l >= DiagnosticsEngine::Error) { ++g_errors; llvm::SmallString<200> s; d.FormatDiagnostic(s); std::string w; if (d.hasSourceManager() && d.getLocation().isValid()) { auto p = d.getSourceManager().getPresumedLoc(d.getLocation()); if (p.isValid()) w = std::string(p.getFilename()) + ":" + std::to_string(p.getLine()) + ": "; } if (g_errs.size() < 40) g_errs.push_back(w + std::string(s)); }
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    X x(C);
    V v(x);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!x.work.empty()) { auto* f = x.work.front(); x.work.pop_front(); x.emit(f); }
    json::Object o;
    o["fns"] = std::move(x.fns); o["types"] = std::move(x.types); o["funcs"] = std::move(x.out); o["classes"] = std::move(x.classes); o["enums"] = std::move(x.enums); o["globals"] = std::move(x.globals);
    A deps; std::set<std::string> ds;
    auto& SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { std::string n = it->first.getName().str(); if (n.empty()) continue; if (n[0] != '/') n = kRoot + n; if (n.rfind(kRoot, 0) == 0) ds.insert(n.substr(kRoot.size())); }
    for (auto& d : ds) deps.push_back(d);
    o["deps"] = std::move(deps);
    A es; for (auto& e : g_errs) es.push_back(json::isUTF8(e) ? e : "?");
    o["errors"] = g_errors; o["errlist"] = std::move(es);
    std::error_code ec; llvm::raw_fd_ostream os(g_out, ec); os << J(std::move(o));
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char** argv) {
  // extract OUT ROOT FILE -- flags
  if (argc < 5) return 2;
  g_out = argv[1]; kRoot = argv[2]; std::string f = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(kRoot, flags);
  tooling::ClangTool tool(db, {f});
  Diag d; tool.setDiagnosticConsumer(&d);
  struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } fac;
  tool.run(&fac);
  std::ifstream t(g_out); return t.good() ? 0 : 3;
}
