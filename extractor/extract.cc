// Type-resolved program extractor for the static analyses in /verif.
//
// A libTooling front end: parses one translation unit with the build's flags and
// writes the bodies of every function defined below the given roots (templates
// as instantiated, callees resolved) as JSON.  It decides nothing.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

namespace {

std::vector<std::string> g_roots;
std::string g_out;
std::string g_cwd;  // "<cwd>/", removed from absolute file names

class Dumper {
 public:
  explicit Dumper(ASTContext &c) : ctx_(c), sm_(c.getSourceManager()), pp_(c.getLangOpts()) {
    pp_.FullyQualifiedName = true;
    pp_.SuppressTagKeyword = true;
    pp_.SuppressUnwrittenScope = false;
    pp_.PrintCanonicalTypes = true;
    pp_.UsePreferredNames = false;
    pp_.SuppressDefaultTemplateArgs = false;
    pp_.Bool = true;
  }

  std::string file_of(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    return p.getFilename();
  }
  unsigned line_of(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    return p.isInvalid() ? 0 : p.getLine();
  }
  static std::string strip(std::string f) {
    if (!g_cwd.empty() && f.rfind(g_cwd, 0) == 0) f = f.substr(g_cwd.size());
    while (f.rfind("./", 0) == 0) f = f.substr(2);
    return f;
  }
  bool in_roots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = strip(file_of(l));
    for (auto &r : g_roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }

  // ---- types -------------------------------------------------------------
  int type(QualType t) {
    if (t.isNull()) return -1;
    t = t.getCanonicalType();
    auto it = type_ids_.find(t.getAsOpaquePtr());
    if (it != type_ids_.end()) return it->second;
    int id = (int)types_.size();
    type_ids_[t.getAsOpaquePtr()] = id;
    types_.push_back(Object{});
    Object o;
    o["const"] = t.isConstQualified();
    QualType u = t.getUnqualifiedType();
    o["s"] = u.getAsString(pp_);
    if (const auto *r = u->getAs<ReferenceType>()) {
      o["k"] = u->isLValueReferenceType() ? "lref" : "rref";
      o["p"] = type(r->getPointeeType());
    } else if (const auto *p = u->getAs<PointerType>()) {
      o["k"] = "ptr";
      o["p"] = type(p->getPointeeType());
    } else if (u->isBooleanType()) {
      o["k"] = "bool";
    } else if (u->isEnumeralType()) {
      o["k"] = "enum";
    } else if (u->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)ctx_.getTypeSize(u);
      o["sg"] = u->isSignedIntegerType();
    } else if (u->isFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)ctx_.getTypeSize(u);
    } else if (u->isVoidType()) {
      o["k"] = "void";
    } else if (u->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (const auto *at = ctx_.getAsConstantArrayType(u)) {
      o["k"] = "array";
      o["p"] = type(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (auto *rd = u->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["r"] = record(rd);
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        std::string q = sp->getSpecializedTemplate()->getQualifiedNameAsString();
        o["tpl"] = q;
        Array ta;
        targs(sp->getTemplateArgs().asArray(), ta);
        o["ta"] = std::move(ta);
      }
    } else if (u->isFunctionType()) {
      o["k"] = "fn";
    } else {
      o["k"] = "other";
    }
    types_[id] = std::move(o);
    return id;
  }
  void targs(llvm::ArrayRef<TemplateArgument> as, Array &ta) {
    for (auto &a : as) {
      switch (a.getKind()) {
        case TemplateArgument::Type: ta.push_back(Object{{"t", type(a.getAsType())}}); break;
        case TemplateArgument::Integral:
          ta.push_back(Object{{"i", llvm::toString(a.getAsIntegral(), 10)}});
          break;
        case TemplateArgument::Pack: targs(a.getPackAsArray(), ta); break;
        default: ta.push_back(nullptr);
      }
    }
  }

  std::string record_key(const CXXRecordDecl *rd) {
    if (rd->isLambda()) {
      return "lambda@" + strip(file_of(rd->getLocation())) + ":" + std::to_string(line_of(rd->getLocation())) + ":" +
             std::to_string(sm_.getExpansionColumnNumber(rd->getLocation())) + lambda_suffix(rd);
    }
    return ctx_.getRecordType(rd).getAsString(pp_);
  }
  std::string lambda_suffix(const CXXRecordDecl *rd) {
    // distinguish lambdas instantiated in different template instantiations
    const DeclContext *dc = rd->getDeclContext();
    while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
    if (auto *f = dyn_cast_or_null<FunctionDecl>(dc))
      return "#" + std::to_string(std::hash<std::string>{}(fkey(f)) % 1000000007ull);
    return "";
  }

  std::string record(const CXXRecordDecl *rd0) {
    const CXXRecordDecl *rd = rd0->getDefinition() ? rd0->getDefinition() : rd0;
    std::string key = record_key(rd);
    if (seen_rec_.count(key)) return key;
    if (!rd->getDefinition()) return key;
    bool repo = in_roots(rd->getLocation());
    seen_rec_.insert(key);
    Object o;
    o["key"] = key;
    o["q"] = rd->getQualifiedNameAsString();
    o["name"] = rd->getNameAsString();
    o["repo"] = repo;
    o["file"] = strip(file_of(rd->getLocation()));
    o["line"] = (int64_t)line_of(rd->getLocation());
    o["lambda"] = rd->isLambda();
    o["agg"] = rd->isAggregate();
    Array bases;
    for (auto &b : rd->bases())
      if (auto *br = b.getType()->getAsCXXRecordDecl())
        bases.push_back(Object{{"r", record(br)}, {"t", type(b.getType())}, {"acc", (int)b.getAccessSpecifier()}});
    o["bases"] = std::move(bases);
    if (repo) {
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        o["tpl"] = sp->getSpecializedTemplate()->getQualifiedNameAsString();
        Array ta;
        targs(sp->getTemplateArgs().asArray(), ta);
        o["ta"] = std::move(ta);
      }
      Array fields;
      std::map<const ValueDecl *, FieldDecl *> caps;
      if (rd->isLambda()) {
        llvm::DenseMap<const ValueDecl *, FieldDecl *> m;
        FieldDecl *thisCap = nullptr;
        rd->getCaptureFields(m, thisCap);
        for (auto &kv : m) caps[kv.first] = kv.second;
      }
      for (auto *f : rd->fields()) {
        Object fo;
        fo["name"] = f->getNameAsString();
        fo["t"] = type(f->getType());
        fo["mutable"] = f->isMutable();
        fo["acc"] = (int)f->getAccess();
        fo["line"] = (int64_t)line_of(f->getLocation());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fields.push_back(std::move(fo));
      }
      o["fields"] = std::move(fields);
      Array methods, friends;
      auto add_m = [&](const CXXMethodDecl *m) {
        Object mo;
        mo["name"] = m->getNameAsString();
        mo["key"] = fkey(m);
        mo["acc"] = (int)m->getAccess();
        mo["const"] = m->isConst();
        mo["static"] = m->isStatic();
        mo["virtual"] = m->isVirtual();
        mo["deleted"] = m->isDeleted();
        mo["defaulted"] = m->isDefaulted();
        mo["implicit"] = m->isImplicit();
        mo["ret"] = type(m->getReturnType());
        Array ov;
        for (auto *b : m->overridden_methods()) ov.push_back(fkey(b));
        mo["over"] = std::move(ov);
        if (auto *c = dyn_cast<CXXConstructorDecl>(m))
          mo["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move"
                       : c->isDefaultConstructor() ? "default" : "other";
        if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
        if (m->isCopyAssignmentOperator()) mo["asg"] = "copy";
        if (m->isMoveAssignmentOperator()) mo["asg"] = "move";
        methods.push_back(std::move(mo));
      };
      for (auto *m : rd->methods()) add_m(m);
      for (auto *d : rd->decls())
        if (auto *ft = dyn_cast<FunctionTemplateDecl>(d))
          for (auto *s : ft->specializations())
            if (auto *m = dyn_cast<CXXMethodDecl>(s)) add_m(m);
      o["methods"] = std::move(methods);
      for (auto *fd : rd->friends()) {
        Object fo;
        fo["line"] = (int64_t)line_of(fd->getLocation());
        if (auto *ti = fd->getFriendType()) fo["t"] = type(ti->getType());
        else if (auto *nd = fd->getFriendDecl()) {
          fo["q"] = nd->getQualifiedNameAsString();
          if (auto *ff = dyn_cast<FunctionDecl>(nd)) fo["body"] = ff->isThisDeclarationADefinition();
        }
        friends.push_back(std::move(fo));
      }
      o["friends"] = std::move(friends);
      Array statics;
      for (auto *d : rd->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) statics.push_back(Object{{"name", v->getNameAsString()}, {"t", type(v->getType())}});
      o["statics"] = std::move(statics);
      for (auto *m : rd->methods()) want(m);
    }
    records_[key] = std::move(o);
    return key;
  }

  // ---- functions -----------------------------------------------------------
  std::string fkey(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    auto it = fkeys_.find(f);
    if (it != fkeys_.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace())
      os << "[" << strip(file_of(f->getLocation())) << "]";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      os << record_key(m->getParent()) << "::" << f->getNameAsString();
    } else {
      os << f->getQualifiedNameAsString();
    }
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      os << "<";
      bool first = true;
      for (auto &a : ta->asArray()) {
        if (!first) os << ", ";
        first = false;
        a.print(pp_, os, true);
      }
      os << ">";
    }
    os << "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) os << ", ";
      QualType pt = f->getParamDecl(i)->getType().getCanonicalType().getUnqualifiedType();
      if (auto *rd = pt.getNonReferenceType()->getAsCXXRecordDecl(); rd && rd->isLambda()) {
        os << record_key(rd) << (pt->isReferenceType() ? "&" : "");
      } else {
        os << pt.getAsString(pp_);
      }
    }
    os << ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) os << " const";
      if (m->getRefQualifier() == RQ_LValue) os << " &";
      if (m->getRefQualifier() == RQ_RValue) os << " &&";
    }
    os.flush();
    fkeys_[f] = s;
    return s;
  }

  void want(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (!f->isDefined(def) || !def) {
      if (auto *p = f->getTemplateInstantiationPattern()) (void)p;
      return;
    }
    if (def->isDependentContext() || def->isTemplated() && !def->isTemplateInstantiation()) {
      if (def->isDependentContext()) return;
    }
    if (!in_roots(def->getLocation())) return;
    if (!seen_fn_.insert(def->getCanonicalDecl()).second) return;
    queue_.push_back(def);
  }
  std::vector<const FunctionDecl *> queue_;

  void drain() {
    while (!queue_.empty()) {
      const FunctionDecl *f = queue_.back();
      queue_.pop_back();
      function(f);
    }
  }

  void function(const FunctionDecl *f) {
    Object o;
    std::string key = fkey(f);
    o["key"] = key;
    o["q"] = f->getQualifiedNameAsString();
    o["name"] = f->getNameAsString();
    o["file"] = strip(file_of(f->getLocation()));
    o["line"] = (int64_t)line_of(f->getLocation());
    o["endline"] = (int64_t)line_of(f->getEndLoc());
    o["ret"] = type(f->getReturnType());
    o["defaulted"] = f->isDefaulted();
    o["constexpr"] = f->isConstexpr();
    o["inline"] = f->isInlined();
    o["external"] = f->getFormalLinkage() == Linkage::External;
    o["tinst"] = f->isTemplateInstantiation();
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      Array a;
      targs(ta->asArray(), a);
      o["ta"] = std::move(a);
    }
    if (f->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    if (auto *ft = f->getType()->getAs<FunctionProtoType>(); ft && !isUnresolvedExceptionSpec(ft->getExceptionSpecType())) o["noexcept"] = ft->isNothrow();
    Array ps;
    for (auto *p : f->parameters())
      ps.push_back(Object{{"id", did(p)}, {"name", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = record(m->getParent());
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      o["virtual"] = m->isVirtual();
      o["acc"] = (int)m->getAccess();
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
      Array inits;
      for (auto *i : c->inits()) {
        Object io;
        if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->getAnyMember()) io["field"] = i->getAnyMember()->getNameAsString();
        io["e"] = expr(i->getInit());
        io["written"] = i->isWritten();
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->getBody()) o["body"] = stmt(f->getBody());
    functions_[key] = std::move(o);
  }

  // ---- declarations ids -----------------------------------------------------
  int did(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = dids_.find(d);
    if (it != dids_.end()) return it->second;
    int id = (int)dids_.size() + 1;
    dids_[d] = id;
    return id;
  }

  void global(const VarDecl *v) {
    v = v->getCanonicalDecl();
    std::string key = gkey(v);
    if (!seen_g_.insert(key).second) return;
    const VarDecl *def = nullptr;
    const Expr *init = v->getAnyInitializer(def);
    Object o;
    const VarDecl *vd = def ? def : v;
    o["key"] = key;
    o["t"] = type(vd->getType());
    o["constexpr"] = vd->isConstexpr();
    o["file"] = strip(file_of(vd->getLocation()));
    o["line"] = (int64_t)line_of(vd->getLocation());
    o["static_local"] = vd->isStaticLocal();
    o["tls"] = vd->getTLSKind() != VarDecl::TLS_None;
    o["external"] = vd->getFormalLinkage() == Linkage::External;
    o["inline"] = vd->isInline();
    o["repo"] = in_roots(vd->getLocation());
    if (init && in_roots(vd->getLocation()) && !init->isValueDependent()) o["init"] = expr(init);
    globals_[key] = std::move(o);
  }
  std::string gkey(const VarDecl *v) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (v->getFormalLinkage() == Linkage::Internal || v->isInAnonymousNamespace() || v->isStaticLocal())
      os << "[" << strip(file_of(v->getLocation())) << ":" << (v->isStaticLocal() ? std::to_string(line_of(v->getLocation())) : std::string()) << "]";
    v->getNameForDiagnostic(os, pp_, true);
    if (v->isStaticLocal()) {
      if (auto *f = dyn_cast<FunctionDecl>(v->getDeclContext())) os << "@" << fkey(f);
    }
    os.flush();
    return s;
  }

  // ---- statements -------------------------------------------------------------
  Value var(const VarDecl *v) {
    Object o;
    o["id"] = did(v);
    o["name"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = (int64_t)line_of(v->getLocation());
    if (v->isStaticLocal()) {
      o["static"] = true;
      o["g"] = gkey(v);
      global(v);
    }
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto *b : d->bindings()) {
        Object bo{{"id", did(b)}, {"name", b->getNameAsString()}, {"t", type(b->getType())}};
        if (auto *hv = b->getHoldingVar()) {
          bo["hv"] = var(hv);
        } else if (b->getBinding()) {
          bo["e"] = expr(b->getBinding());
        }
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return expr(e);
    Object o;
    o["l"] = (int64_t)line_of(s->getBeginLoc());
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block";
      Array a;
      for (auto *x : c->body()) a.push_back(stmt(x));
      o["c"] = std::move(a);
    } else if (auto *d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl";
      Array a;
      for (auto *x : d->decls())
        if (auto *v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
      o["vars"] = std::move(a);
    } else if (auto *i = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
      if (i->isConstexpr() || i->isConsteval()) {
        o["constexpr"] = true;
        if (i->getCond() && !i->getCond()->isValueDependent()) {
          Expr::EvalResult r;
          if (i->getCond()->EvaluateAsInt(r, ctx_)) o["cv"] = r.Val.getInt().getBoolValue();
        }
      }
      if (i->getCond()) o["cond"] = expr(i->getCond());
      o["then"] = stmt(i->getThen());
      if (i->getElse()) o["else"] = stmt(i->getElse());
    } else if (auto *w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
      o["cond"] = expr(w->getCond());
      o["body"] = stmt(w->getBody());
    } else if (auto *w = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do";
      o["cond"] = expr(w->getCond());
      o["body"] = stmt(w->getBody());
    } else if (auto *f = dyn_cast<ForStmt>(s)) {
      o["k"] = "For";
      if (f->getInit()) o["init"] = stmt(f->getInit());
      if (f->getCond()) o["cond"] = expr(f->getCond());
      if (f->getInc()) o["inc"] = expr(f->getInc());
      o["body"] = stmt(f->getBody());
    } else if (auto *f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RangeFor";
      if (f->getInit()) o["init"] = stmt(f->getInit());
      o["var"] = var(f->getLoopVariable());
      o["range"] = expr(f->getRangeInit());
      o["body"] = stmt(f->getBody());
    } else if (auto *w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (w->getInit()) o["init"] = stmt(w->getInit());
      if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
      o["cond"] = expr(w->getCond());
      o["body"] = stmt(w->getBody());
    } else if (auto *c = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case";
      o["lhs"] = expr(c->getLHS());
      if (c->getRHS()) o["rhs"] = expr(c->getRHS());
      o["sub"] = stmt(c->getSubStmt());
    } else if (auto *c = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default";
      o["sub"] = stmt(c->getSubStmt());
    } else if (auto *r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return";
      if (r->getRetValue()) o["e"] = expr(r->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "Break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "Continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "Null";
    } else if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try";
      o["body"] = stmt(t->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto *h = t->getHandler(i);
        Object ho;
        if (h->getExceptionDecl()) {
          ho["var"] = var(h->getExceptionDecl());
          ho["t"] = type(h->getCaughtType());
        }
        ho["body"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["handlers"] = std::move(hs);
    } else if (auto *a = dyn_cast<AttributedStmt>(s)) {
      return stmt(a->getSubStmt());
    } else if (auto *l = dyn_cast<LabelStmt>(s)) {
      o["k"] = "Label";
      o["sub"] = stmt(l->getSubStmt());
    } else {
      o["k"] = "UnsupportedStmt";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }

  // ---- expressions -------------------------------------------------------------
  Value args(llvm::ArrayRef<const Expr *> as) {
    Array a;
    for (auto *x : as) a.push_back(expr(x));
    return a;
  }
  void callee(Object &o, const FunctionDecl *f) {
    if (!f) return;
    want(f);
    o["f"] = fkey(f);
    o["q"] = f->getQualifiedNameAsString();
    o["n"] = f->getNameAsString();
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = record(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["mconst"] = true;
      if (m->isStatic()) o["mstatic"] = true;
    }
    if (in_roots(f->getLocation())) o["repo"] = true;
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      Array a;
      targs(ta->asArray(), a);
      o["ta"] = std::move(a);
    }
    if (f->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
  }
  bool const_value(const Expr *e, Object &o) {
    if (e->isValueDependent() || e->isTypeDependent()) return false;
    QualType t = e->getType();
    if (t->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
        o["cv"] = llvm::toString(r.Val.getInt(), 10);
        return true;
      }
    } else if (t->isFloatingType()) {
      llvm::APFloat v(0.0);
      if (e->EvaluateAsFloat(v, ctx_, Expr::SE_NoSideEffects)) {
        llvm::SmallString<40> s;
        if (v.isFinite()) {
          char buf[64];
          v.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
          o["fv"] = std::string(buf);
        } else {
          o["fv"] = v.isNaN() ? "nan" : (v.isNegative() ? "-inf" : "inf");
        }
        return true;
      }
    }
    return false;
  }

  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
      if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) { break; }
      break;
    }
    Object o;
    o["l"] = (int64_t)line_of(e->getBeginLoc());
    o["t"] = type(e->getType());
    if (e->isGLValue()) o["lv"] = e->isLValue() ? 1 : 2;
    if (auto *m = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Temp";
      if (m->getStorageDuration() != SD_FullExpression) o["ext"] = true;
      o["e"] = expr(m->getSubExpr());
    } else if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "Int";
      o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      std::string txt = Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()), sm_, ctx_.getLangOpts()).str();
      o["src"] = txt;
      const_value(e, o);
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Bool";
      o["v"] = x->getValue();
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "Int";
      o["v"] = std::to_string(x->getValue());
    } else if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "Str";
      if (x->getCharByteWidth() == 1) {
        std::string b = x->getBytes().str();
        o["v"] = llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b);
      }
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "Str";
      if (x->getFunctionName()) o["v"] = x->getFunctionName()->getString().str();
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      ref(o, x->getDecl(), x);
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
        ref(o, vd, e);
      } else if (auto *ed = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) {
        ref(o, ed, e);
      } else {
        o["k"] = "Member";
        o["name"] = x->getMemberDecl()->getNameAsString();
        o["arrow"] = x->isArrow();
        o["e"] = expr(x->getBase());
        if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
          if (auto *rd = dyn_cast<CXXRecordDecl>(fd->getParent())) o["cls"] = record(rd);
          o["mut"] = fd->isMutable();
        } else if (auto *fn = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
          callee(o, fn);
        }
      }
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      callee(o, x->getMethodDecl());
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["obj"] = expr(me->getBase());
        o["arrow"] = me->isArrow();
        o["objt"] = type(me->getBase()->getType());
        if (me->hasQualifier()) o["nonvirt"] = true;
      } else {
        o["calleeE"] = expr(x->getCallee());
      }
      o["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getArgs(), x->getNumArgs()));
      if (!in_roots(x->getMethodDecl() ? x->getMethodDecl()->getLocation() : SourceLocation())) const_value(e, o);
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *m = dyn_cast_or_null<CXXMethodDecl>(f); m && !m->isStatic()) {
        o["k"] = "MCall";
        callee(o, f);
        o["obj"] = expr(x->getArg(0));
        o["objt"] = type(x->getArg(0)->getType());
        o["arrow"] = false;
        Array a;
        for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
        o["a"] = std::move(a);
      } else {
        o["k"] = "Call";
        callee(o, f);
        o["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getArgs(), x->getNumArgs()));
      }
    } else if (auto *x = dyn_cast<UserDefinedLiteral>(e)) {
      o["k"] = "Call";
      callee(o, x->getDirectCallee());
      o["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getArgs(), x->getNumArgs()));
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      const FunctionDecl *f = x->getDirectCallee();
      if (f) callee(o, f);
      else o["calleeE"] = expr(x->getCallee());
      o["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getArgs(), x->getNumArgs()));
      if (f && !in_roots(f->getLocation())) const_value(e, o);
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Construct";
      auto *c = x->getConstructor();
      callee(o, c);
      o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
      o["list"] = x->isListInitialization();
      o["silist"] = x->isStdInitListInitialization();
      o["a"] = args(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getArgs(), x->getNumArgs()));
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "InheritedCtor";
      callee(o, x->getConstructor());
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
      o["k"] = "InitList";
      Array a;
      for (unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(expr(x->getInit(i)));
      if (auto *af = x->getArrayFiller()) o["filler"] = expr(af);
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "InitList";
      Array a;
      for (auto *i : x->getInitExprs()) a.push_back(expr(i));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "StdInitList";
      o["e"] = expr(x->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "ValueInit";
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "Asg";
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      o["ct"] = type(x->getComputationResultType());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "Asg" : "Bin";
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      CastKind ck = x->getCastKind();
      o["k"] = "Cast";
      o["ck"] = x->getCastKindName();
      o["imp"] = isa<ImplicitCastExpr>(x);
      if (ck == CK_LValueToRValue) o["k"] = "L2R";
      if (auto *cf = x->getConversionFunction()) {
        if (auto *ff = dyn_cast<FunctionDecl>(cf)) callee(o, ff);
      }
      if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase) {
        Array path;
        for (auto *b : x->path()) path.push_back(type(b->getType()));
        o["path"] = std::move(path);
      }
      o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      o["cls"] = record(x->getLambdaClass());
      Array caps;
      auto ci = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        if (c.capturesThis()) co["this"] = true;
        if (c.capturesVariable()) {
          co["id"] = did(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        }
        if (*ci) co["init"] = expr(*ci);
        ++ci;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      auto *op = x->getLambdaClass()->getLambdaCallOperator();
      o["mutl"] = op && !op->isConst();
      Array ops;
      if (auto *ft = x->getLambdaClass()->getDependentLambdaCallOperator()) {
        for (auto *s : ft->specializations()) {
          ops.push_back(fkey(s));
          want(s);
        }
      } else if (op) {
        ops.push_back(fkey(op));
        want(op);
      }
      o["ops"] = std::move(ops);
    } else if (auto *x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "StmtExpr";
      o["body"] = stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
      return expr(x->getExpr());
    } else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) {
      return expr(x->getExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Index";
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New";
      o["pt"] = type(x->getAllocatedType());
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete";
      o["e"] = expr(x->getArgument());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw";
      if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return expr(x->getSourceExpr());
      o["k"] = "Unsupported";
      o["cls"] = "OpaqueValue";
    } else {
      if (!const_value(e, o)) {
        o["k"] = "Unsupported";
        o["cls"] = e->getStmtClassName();
      } else {
        o["k"] = "ConstV";
      }
    }
    return o;
  }
  void ref(Object &o, const ValueDecl *d, const Expr *e) {
    o["k"] = "Ref";
    o["name"] = d->getNameAsString();
    if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["v"] = llvm::toString(ec->getInitVal(), 10);
      o["q"] = ec->getQualifiedNameAsString();
    } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "fn";
      callee(o, f);
    } else if (auto *b = dyn_cast<BindingDecl>(d)) {
      o["dk"] = "bind";
      o["id"] = did(b);
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->isStaticDataMember() || v->isFileVarDecl() || v->isStaticLocal()) {
        o["dk"] = "gvar";
        o["g"] = gkey(v);
        o["q"] = v->getQualifiedNameAsString();
        global(v);
        if (v->isConstexpr() || v->getType().isConstQualified()) {
          if (!in_roots(v->getLocation())) const_value(e, o);
        }
      } else {
        o["dk"] = "var";
        o["id"] = did(v);
      }
    } else {
      o["dk"] = "other";
    }
  }

  Value finish() {
    Object root;
    Array ts;
    for (auto &t : types_) ts.push_back(std::move(t));
    root["types"] = std::move(ts);
    Object fs;
    for (auto &kv : functions_) fs[kv.first] = std::move(kv.second);
    root["functions"] = std::move(fs);
    Object rs;
    for (auto &kv : records_) rs[kv.first] = std::move(kv.second);
    root["records"] = std::move(rs);
    Object gs;
    for (auto &kv : globals_) gs[kv.first] = std::move(kv.second);
    root["globals"] = std::move(gs);
    Object es;
    for (auto &kv : enums_) es[kv.first] = std::move(kv.second);
    root["enums"] = std::move(es);
    return root;
  }
  void enumd(const EnumDecl *d) {
    Object o;
    Array cs;
    for (auto *c : d->enumerators())
      cs.push_back(Object{{"name", c->getNameAsString()}, {"v", llvm::toString(c->getInitVal(), 10)}});
    o["c"] = std::move(cs);
    o["file"] = strip(file_of(d->getLocation()));
    enums_[d->getQualifiedNameAsString()] = std::move(o);
  }

  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pp_;
  std::map<void *, int> type_ids_;
  std::vector<Object> types_;
  std::set<std::string> seen_rec_, seen_g_;
  std::set<const FunctionDecl *> seen_fn_;
  std::map<const FunctionDecl *, std::string> fkeys_;
  std::map<const Decl *, int> dids_;
  std::map<std::string, Object> functions_, records_, globals_, enums_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper &d) : d_(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext()) return true;
    if (d_.in_roots(f->getLocation())) d_.want(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isDependentContext() || !r->isThisDeclarationADefinition()) return true;
    if (d_.in_roots(r->getLocation())) d_.record(r);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->getDeclContext()->isDependentContext() || v->isTemplated()) return true;
    if ((v->isFileVarDecl() || v->isStaticDataMember() || v->isStaticLocal()) && d_.in_roots(v->getLocation()) &&
        !v->getType()->isDependentType())
      d_.global(v);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!e->isDependentContext() && d_.in_roots(e->getLocation())) d_.enumd(e);
    return true;
  }
  Dumper &d_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    d.drain();
    Value root = d.finish();
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << root;
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

// usage: extract OUT ROOT[,ROOT...] SRC -- FLAGS...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) g_roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::string src = argv[3];
  llvm::SmallString<256> cwd;
  if (!llvm::sys::fs::current_path(cwd)) g_cwd = cwd.str().str() + "/";
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
