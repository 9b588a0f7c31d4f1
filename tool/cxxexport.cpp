// Mechanical extractor: parses a translation unit with clang and writes, as JSON, the bodies of every non-dependent
// function (template instantiations included) whose definition lies under one of the given source roots, with
// resolved callees, types, implicit conversions and field layouts.  It does not interpret or simplify code, except that
// it drops the following purely syntactic wrappers: parentheses, ExprWithCleanups, MaterializeTemporaryExpr,
// CXXBindTemporaryExpr, ConstantExpr and NoOp casts.
//
//   cxxexport OUT.json ROOT[,ROOT...] file.cc -- <clang flags>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Exporter {
 public:
  explicit Exporter(CompilerInstance& ci, ASTContext& ctx)
      : ci_(ci), ctx_(ctx), mangle_(ItaniumMangleContext::create(ctx, ctx.getDiagnostics())), pp_(ctx.getPrintingPolicy()) {
    pp_.SuppressTagKeyword = true;
    pp_.Bool = true;
    pp_.AnonymousTagLocations = false;
    pp_.PrintCanonicalTypes = true;
    pp_.FullyQualifiedName = true;
    pp_.SuppressDefaultTemplateArgs = false;
  }

  bool InRoots(SourceLocation loc) {
    if (loc.isInvalid()) return false;
    const SourceManager& sm = ctx_.getSourceManager();
    loc = sm.getExpansionLoc(loc);
    llvm::StringRef f = sm.getFilename(loc);
    for (const auto& r : g_roots)
      if (f.starts_with(r)) return true;
    return false;
  }

  std::string File(SourceLocation loc) {
    const SourceManager& sm = ctx_.getSourceManager();
    return sm.getFilename(sm.getExpansionLoc(loc)).str();
  }
  int Line(SourceLocation loc) {
    const SourceManager& sm = ctx_.getSourceManager();
    return (int)sm.getExpansionLineNumber(loc);
  }

  // ---- Types ----
  int Type(QualType qt) {
    if (qt.isNull()) return -1;
    qt = qt.getCanonicalType();
    bool is_const = qt.isConstQualified();
    QualType uq = qt.getUnqualifiedType();
    auto key = std::make_pair(uq.getAsOpaquePtr(), is_const);
    auto it = types_.find(key);
    if (it != types_.end()) return it->second;
    int id = (int)type_objs_.size();
    types_[key] = id;
    type_objs_.push_back(json::Object{});
    json::Object o;
    if (is_const) o["const"] = true;
    o["s"] = uq.getAsString(pp_);
    const clang::Type* t = uq.getTypePtr();
    if (auto* bt = dyn_cast<BuiltinType>(t)) {
      if (bt->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (bt->getKind() == BuiltinType::Void) o["k"] = "void";
      else if (bt->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
      else if (bt->isFloatingPoint()) o["k"] = "real";
      else if (bt->isInteger()) {
        o["k"] = "int";
        o["signed"] = bt->isSignedInteger();
        o["bits"] = (int64_t)ctx_.getTypeSize(uq);
      } else o["k"] = "builtin";
    } else if (auto* p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = Type(p->getPointeeType());
    } else if (auto* p = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref";
      o["to"] = Type(p->getPointeeType());
    } else if (auto* p = dyn_cast<MemberPointerType>(t)) {
      o["k"] = "memptr";
      o["to"] = Type(p->getPointeeType());
    } else if (auto* e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["name"] = QName(e->getDecl());
      json::Array cs;
      for (auto* c : e->getDecl()->enumerators())
        cs.push_back(json::Array{c->getNameAsString(), c->getInitVal().getSExtValue()});
      o["enumerators"] = std::move(cs);
    } else if (auto* r = dyn_cast<RecordType>(t)) {
      auto* rd = dyn_cast<CXXRecordDecl>(r->getDecl());
      o["k"] = "rec";
      o["name"] = QName(r->getDecl());
      if (rd) {
        o["rec"] = Record(rd);
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
          o["args"] = TArgs(sp->getTemplateArgs().asArray());
        }
        if (rd->isLambda()) {
          o["k"] = "lambda";
        }
      }
    } else if (auto* f = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn";
      o["ret"] = Type(f->getReturnType());
      json::Array ps;
      for (auto q : f->param_types()) ps.push_back(Type(q));
      o["params"] = std::move(ps);
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["to"] = Type(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    } else {
      o["k"] = "other";
    }
    type_objs_[id] = std::move(o);
    return id;
  }

  json::Array TArgs(llvm::ArrayRef<TemplateArgument> args) {
    json::Array out;
    for (const auto& a : args) {
      switch (a.getKind()) {
        case TemplateArgument::Type: out.push_back(json::Object{{"t", Type(a.getAsType())}}); break;
        case TemplateArgument::Integral: out.push_back(json::Object{{"i", (int64_t)a.getAsIntegral().extOrTrunc(64).getZExtValue()}}); break;
        case TemplateArgument::Pack:
          for (auto& e : TArgs(a.pack_elements())) out.push_back(std::move(e));
          break;
        default: out.push_back(json::Object{{"x", (int)a.getKind()}}); break;
      }
    }
    return out;
  }

  std::string QName(const NamedDecl* d) {
    // Qualified name without template arguments of enclosing specializations; inline namespaces suppressed.
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p = pp_;
    p.SuppressUnwrittenScope = true;
    p.SuppressInlineNamespace = true;
    d->printQualifiedName(os, p);
    return os.str();
  }

  int Record(const CXXRecordDecl* rd) {
    rd = rd->getCanonicalDecl();
    auto it = records_.find(rd);
    if (it != records_.end()) return it->second;
    int id = (int)record_objs_.size();
    records_[rd] = id;
    record_objs_.push_back(json::Object{});
    json::Object o;
    o["name"] = QName(rd);
    o["s"] = ctx_.getRecordType(rd).getAsString(pp_);
    const CXXRecordDecl* def = rd->getDefinition();
    if (def && !def->isDependentContext() ) {
      o["def"] = true;
      bool inroots = InRoots(def->getLocation());
      o["inroots"] = inroots;
      o["poly"] = def->isPolymorphic();
      o["abstract"] = def->isAbstract();
      o["union"] = def->isUnion();
      bool nocopy = false;
      for (auto* c : def->ctors())
        if (c->isCopyConstructor() && c->isDeleted()) nocopy = true;
      o["nocopy"] = nocopy;
      if (inroots) {
        json::Array bases;
        for (const auto& b : def->bases()) bases.push_back(Type(b.getType()));
        o["bases"] = std::move(bases);
        json::Array fields;
        for (auto* f : def->fields()) {
          json::Object fo{{"name", f->getNameAsString()}, {"t", Type(f->getType())}};
          if (f->hasInClassInitializer()) {
            pending_inits_.push_back({id, (int)fields.size(), f});
          }
          if (f->isMutable()) fo["mutable"] = true;
          fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        if (!def->isLambda()) {
          for (auto* m : def->methods())
            if (!m->isDeleted() && !m->isDependentContext()) Fn(m);
        }
        if (def->isLambda()) {
          o["lambda"] = true;
          json::Array ops;
          if (auto* tmpl = def->getDependentLambdaCallOperator()) {
            for (auto* s : tmpl->specializations()) ops.push_back(Fn(s));
          } else if (auto* m = def->getLambdaCallOperator()) {
            ops.push_back(Fn(m));
          }
          o["ops"] = std::move(ops);
        }
      }
    }
    record_objs_[id] = std::move(o);
    return id;
  }

  void DrainInits() {
    while (!pending_inits_.empty()) {
      auto pi = pending_inits_.back();
      pending_inits_.pop_back();
      const Expr* e = pi.f->getInClassInitializer();
      if (!e) continue;
      json::Value v = E(e);
      (*record_objs_[pi.rec].getArray("fields"))[pi.idx].getAsObject()->insert({"init", std::move(v)});
    }
  }

  // ---- Functions ----
  std::string Key(const FunctionDecl* fd) {
    fd = fd->getCanonicalDecl();
    auto it = keys_.find(fd);
    if (it != keys_.end()) return it->second;
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* c = dyn_cast<CXXConstructorDecl>(fd)) mangle_->mangleName(GlobalDecl(c, Ctor_Complete), os);
    else if (auto* d = dyn_cast<CXXDestructorDecl>(fd)) mangle_->mangleName(GlobalDecl(d, Dtor_Complete), os);
    else if (mangle_->shouldMangleDeclName(fd)) mangle_->mangleName(GlobalDecl(fd), os);
    else os << fd->getNameAsString();
    os.flush();
    if (!fd->isExternallyVisible()) s = "#" + File(fd->getLocation()) + "#" + s;
    // Guard against accidental collisions.
    auto& owner = key_owner_[s];
    if (owner && owner != fd) { s += "@" + std::to_string(keys_.size()); }
    key_owner_[s] = fd;
    keys_[fd] = s;
    return s;
  }

  std::string Fn(const FunctionDecl* fd) {
    std::string key = Key(fd);
    const FunctionDecl* canon = fd->getCanonicalDecl();
    if (fn_seen_.insert(canon).second) fn_queue_.push_back(canon);
    return key;
  }

  void ExportFn(const FunctionDecl* fd) {
    json::Object o;
    o["q"] = QName(fd);
    o["name"] = fd->getNameAsString();
    const FunctionDecl* def = nullptr;
    fd->hasBody(def);
    const FunctionDecl* src = def ? def : fd;
    o["file"] = File(src->getLocation());
    o["line"] = Line(src->getLocation());
    o["end"] = Line(src->getEndLoc());
    o["ret"] = Type(fd->getReturnType());
    json::Array ps;
    unsigned pi = 0;
    for (auto* p : src->parameters()) {
      json::Object po{{"id", Id(p)}, {"name", p->getNameAsString()}, {"t", Type(p->getType())}};
      if (isa<CXXConstructorDecl>(fd) && !fd->isDependentContext()) {
        for (auto* rd : fd->redecls()) {
          if (pi >= rd->getNumParams()) continue;
          auto* rp = rd->getParamDecl(pi);
          if (rp->hasDefaultArg() && !rp->hasUninstantiatedDefaultArg() && !rp->hasUnparsedDefaultArg() && rp->getDefaultArg()) {
            po["def"] = E(rp->getDefaultArg());
            break;
          }
        }
      }
      ++pi;
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (fd->isVariadic()) o["variadic"] = true;
    if (fd->isDeleted()) o["deleted"] = true;
    if (fd->isDefaulted() || fd->isImplicit()) o["defaulted"] = true;
    if (fd->isOverloadedOperator()) o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
    if (auto* ta = fd->getTemplateSpecializationArgs()) o["targs"] = TArgs(ta->asArray());
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["method"] = true;
      o["record"] = Type(ctx_.getRecordType(md->getParent()));
      if (md->isStatic()) o["static"] = true;
      if (md->isConst()) o["constm"] = true;
      if (md->isVirtual()) o["virtual"] = true;
      if (md->isPureVirtual()) o["pure"] = true;
      json::Array ov;
      for (auto* x : md->overridden_methods()) ov.push_back(Fn(x));
      if (!ov.empty()) o["overrides"] = std::move(ov);
      if (auto* c = dyn_cast<CXXConstructorDecl>(fd)) {
        o["ctor"] = c->isDefaultConstructor() ? "default" : c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : "other";
      }
      if (isa<CXXDestructorDecl>(fd)) o["dtor"] = true;
      if (md->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (md->isMoveAssignmentOperator()) o["assign"] = "move";
      if (isa<CXXConversionDecl>(fd)) o["conv"] = true;
    }
    json::Array annot;
    for (auto* a : src->specific_attrs<AnnotateAttr>()) annot.push_back(a->getAnnotation().str());
    if (auto* md = dyn_cast<CXXMethodDecl>(src))
      for (auto* a : md->getParent()->specific_attrs<AnnotateAttr>()) annot.push_back("rec:" + a->getAnnotation().str());
    if (!annot.empty()) o["annot"] = std::move(annot);
    // Access.
    o["access"] = fd->getAccess() == AS_private ? "private" : fd->getAccess() == AS_protected ? "protected" : "public";
    if (def && InRoots(def->getLocation()) && !def->isDependentContext() && !fd->isDeleted()) {
      if (def->isImplicit() || def->isDefaulted()) {
        o["body"] = nullptr;
      } else if (def->getBody()) {
        if (auto* c = dyn_cast<CXXConstructorDecl>(def)) {
          json::Array inits;
          for (auto* i : c->inits()) {
            json::Object io;
            if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
            else if (i->isBaseInitializer()) io["base"] = Type(QualType(i->getBaseClass(), 0));
            else if (i->isDelegatingInitializer()) io["delegating"] = true;
            io["written"] = i->isWritten();
            io["e"] = E(i->getInit());
            inits.push_back(std::move(io));
          }
          o["inits"] = std::move(inits);
        }
        o["body"] = S(def->getBody());
      }
    }
    fns_[Key(fd)] = std::move(o);
  }

  int Id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int id = (int)ids_.size() + 1;
    ids_[d] = id;
    return id;
  }

  // ---- Statements ----
  json::Value Var(const VarDecl* v) {
    json::Object o{{"k", "var"}, {"id", Id(v)}, {"name", v->getNameAsString()}, {"t", Type(v->getType())}, {"L", Line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = E(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto* b : dd->bindings()) {
        json::Object bo{{"id", Id(b)}, {"name", b->getNameAsString()}};
        if (b->getBinding()) bo["e"] = E(b->getBinding());
        if (auto* hv = b->getHoldingVar()) bo["hold"] = Var(hv);
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"e", E(e)}, {"L", Line(s->getBeginLoc())}};
    json::Object o{{"L", Line(s->getBeginLoc())}};
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        json::Array a;
        for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(S(c));
        o["s"] = std::move(a);
        break;
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls())
          if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(Var(v));
        o["d"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        o["k"] = "if";
        if (i->isConstexpr()) {
          o["constexpr"] = true;
          Expr::EvalResult r;
          if (i->getCond()->EvaluateAsInt(r, ctx_)) o["val"] = r.Val.getInt().getBoolValue();
        }
        if (i->getInit()) o["init"] = S(i->getInit());
        if (i->getConditionVariable()) o["var"] = Var(i->getConditionVariable());
        o["c"] = E(i->getCond());
        o["then"] = S(i->getThen());
        if (i->getElse()) o["else"] = S(i->getElse());
        break;
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        o["k"] = "for";
        if (f->getInit()) o["init"] = S(f->getInit());
        if (f->getCond()) o["c"] = E(f->getCond());
        if (f->getInc()) o["inc"] = E(f->getInc());
        o["body"] = S(f->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        o["k"] = "forrange";
        if (f->getInit()) o["init"] = S(f->getInit());
        o["var"] = Var(f->getLoopVariable());
        o["range"] = E(f->getRangeInit());
        o["body"] = S(f->getBody());
        break;
      }
      case Stmt::WhileStmtClass: {
        auto* f = cast<WhileStmt>(s);
        o["k"] = "while";
        if (f->getConditionVariable()) o["var"] = Var(f->getConditionVariable());
        o["c"] = E(f->getCond());
        o["body"] = S(f->getBody());
        break;
      }
      case Stmt::DoStmtClass: {
        auto* f = cast<DoStmt>(s);
        o["k"] = "do";
        o["c"] = E(f->getCond());
        o["body"] = S(f->getBody());
        break;
      }
      case Stmt::SwitchStmtClass: {
        auto* f = cast<SwitchStmt>(s);
        o["k"] = "switch";
        if (f->getInit()) o["init"] = S(f->getInit());
        o["c"] = E(f->getCond());
        o["body"] = S(f->getBody());
        break;
      }
      case Stmt::CaseStmtClass: {
        auto* f = cast<CaseStmt>(s);
        o["k"] = "case";
        Expr::EvalResult r;
        if (f->getLHS()->EvaluateAsInt(r, ctx_)) o["v"] = r.Val.getInt().getSExtValue();
        o["s"] = S(f->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass:
        o["k"] = "default";
        o["s"] = S(cast<DefaultStmt>(s)->getSubStmt());
        break;
      case Stmt::ReturnStmtClass:
        o["k"] = "return";
        if (auto* v = cast<ReturnStmt>(s)->getRetValue()) o["e"] = E(v);
        break;
      case Stmt::BreakStmtClass: o["k"] = "break"; break;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
      case Stmt::NullStmtClass: o["k"] = "null"; break;
      case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["body"] = S(t->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          auto* h = t->getHandler(i);
          json::Object ho;
          if (h->getExceptionDecl()) ho["var"] = Var(h->getExceptionDecl());
          ho["body"] = S(h->getHandlerBlock());
          hs.push_back(std::move(ho));
        }
        o["handlers"] = std::move(hs);
        break;
      }
      default:
        o["k"] = "unsupported";
        o["what"] = s->getStmtClassName();
    }
    return o;
  }

  // ---- Expressions ----
  json::Array Args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto* e : r) a.push_back(E(e));
    return a;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) { if (x->getCastKind() == CK_NoOp) { e = x->getSubExpr(); continue; } }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
        return json::Object{{"k", "stdinitlist"}, {"t", Type(e->getType())}, {"L", Line(e->getBeginLoc())}, {"e", E(x->getSubExpr())}};
      }
      break;
    }
    json::Object o{{"L", Line(e->getBeginLoc())}, {"t", Type(e->getType())}};
    o["vk"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass:
        o["k"] = "int";
        o["v"] = llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, e->getType()->isSignedIntegerType());
        break;
      case Stmt::CharacterLiteralClass:
        o["k"] = "int";
        o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue());
        break;
      case Stmt::FloatingLiteralClass: {
        o["k"] = "float";
        llvm::SmallString<64> str;
        llvm::APFloat f = cast<FloatingLiteral>(e)->getValue();
        // Exact rational through hexadecimal text.
        char buf[128];
        f.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
        o["v"] = std::string(buf);
        break;
      }
      case Stmt::CXXBoolLiteralExprClass:
        o["k"] = "bool";
        o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue();
        break;
      case Stmt::StringLiteralClass: {
        o["k"] = "str";
        auto* sl = cast<StringLiteral>(e);
        o["v"] = sl->isOrdinary() || sl->isUTF8() ? json::fixUTF8(sl->getString()) : std::string("?");
        break;
      }
      case Stmt::PredefinedExprClass:
        o["k"] = "str";
        o["v"] = "__func__";
        break;
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: o["k"] = "null"; break;
      case Stmt::CXXThisExprClass: o["k"] = "this"; break;
      case Stmt::DeclRefExprClass: {
        auto* r = cast<DeclRefExpr>(e);
        auto* d = r->getDecl();
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
          o["k"] = "fnref";
          o["fn"] = Fn(f);
        } else if (auto* c = dyn_cast<EnumConstantDecl>(d)) {
          o["k"] = "int";
          o["v"] = llvm::toString(c->getInitVal(), 10);
          o["enum"] = c->getNameAsString();
        } else if (auto* b = dyn_cast<BindingDecl>(d)) {
          o["k"] = "ref";
          o["id"] = Id(b);
          o["name"] = b->getNameAsString();
          o["binding"] = true;
        } else if (auto* v = dyn_cast<VarDecl>(d)) {
          o["k"] = "ref";
          o["id"] = Id(v);
          o["name"] = v->getNameAsString();
          if (v->hasGlobalStorage()) {
            o["global"] = true;
            Global(v);
          }
        } else {
          o["k"] = "unsupported";
          o["what"] = "DeclRef";
        }
        break;
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        auto* d = m->getMemberDecl();
        if (auto* f = dyn_cast<FieldDecl>(d)) {
          o["k"] = "member";
          o["f"] = f->getNameAsString();
          o["rec"] = Type(ctx_.getRecordType(f->getParent()));
          o["arrow"] = m->isArrow();
          o["e"] = E(m->getBase());
        } else if (auto* md = dyn_cast<CXXMethodDecl>(d)) {
          o["k"] = "method";
          o["fn"] = Fn(md);
          o["arrow"] = m->isArrow();
          o["e"] = E(m->getBase());
        } else if (auto* v = dyn_cast<VarDecl>(d)) {
          o["k"] = "ref";
          o["id"] = Id(v);
          o["name"] = v->getNameAsString();
          o["global"] = true;
          Global(v);
        } else {
          o["k"] = "unsupported";
          o["what"] = "Member";
        }
        break;
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto* c = cast<CXXOperatorCallExpr>(e);
        o["k"] = "opcall";
        o["op"] = getOperatorSpelling(c->getOperator());
        if (auto* f = c->getDirectCallee()) o["fn"] = Fn(f);
        else o["callee"] = E(c->getCallee());
        o["args"] = Args(c->arguments());
        break;
      }
      case Stmt::CXXMemberCallExprClass: {
        auto* c = cast<CXXMemberCallExpr>(e);
        o["k"] = "mcall";
        if (auto* md = c->getMethodDecl()) {
          o["fn"] = Fn(md);
          if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
            o["arrow"] = me->isArrow();
            o["obj"] = E(me->getBase());
            // A qualified call (Base::method()) suppresses dynamic dispatch.
            if (me->hasQualifier()) o["qualified"] = true;
          }
        } else {
          o["callee"] = E(c->getCallee());
        }
        o["args"] = Args(c->arguments());
        break;
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c = cast<CallExpr>(e);
        o["k"] = "call";
        if (auto* f = c->getDirectCallee()) o["fn"] = Fn(f);
        else o["callee"] = E(c->getCallee());
        o["args"] = Args(c->arguments());
        break;
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        o["k"] = "construct";
        o["fn"] = Fn(c->getConstructor());
        if (c->isElidable()) o["elidable"] = true;
        if (c->isListInitialization()) o["list"] = true;
        if (c->isStdInitListInitialization()) o["stdlist"] = true;
        if (c->requiresZeroInitialization()) o["zero"] = true;
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(E(x));
        o["args"] = std::move(a);
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        o["k"] = "unsupported";
        o["what"] = "InheritedCtor";
        break;
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        o["k"] = "un";
        o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix()) o["post"] = true;
        o["e"] = E(u->getSubExpr());
        break;
      }
      case Stmt::BinaryOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        o["k"] = b->isAssignmentOp() ? "assign" : "bin";
        o["op"] = b->getOpcodeStr().str();
        o["l"] = E(b->getLHS());
        o["r"] = E(b->getRHS());
        break;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<CompoundAssignOperator>(e);
        o["k"] = "cassign";
        o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
        o["ct"] = Type(b->getComputationResultType());
        o["l"] = E(b->getLHS());
        o["r"] = E(b->getRHS());
        break;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        o["k"] = "cond";
        o["c"] = E(c->getCond());
        o["a"] = E(c->getTrueExpr());
        o["b"] = E(c->getFalseExpr());
        break;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* c = cast<ArraySubscriptExpr>(e);
        o["k"] = "index";
        o["a"] = E(c->getBase());
        o["i"] = E(c->getIdx());
        break;
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXFunctionalCastExprClass: {
        auto* c = cast<CastExpr>(e);
        o["k"] = "cast";
        o["ck"] = c->getCastKindName();
        if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
        o["e"] = E(c->getSubExpr());
        break;
      }
      case Stmt::InitListExprClass: {
        auto* l = cast<InitListExpr>(e);
        if (l->isSyntacticForm() && l->getSemanticForm()) l = l->getSemanticForm();
        if (l->isTransparent() && l->getNumInits() == 1) return E(l->getInit(0));
        o["k"] = "initlist";
        json::Array a;
        for (auto* x : l->inits()) a.push_back(E(x));
        o["e"] = std::move(a);
        if (l->hasArrayFiller()) o["filler"] = E(l->getArrayFiller());
        break;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; break;
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        o["k"] = "lambdaexpr";
        o["rec"] = Record(l->getLambdaClass());
        json::Array caps;
        auto init = l->capture_init_begin();
        auto field = l->getLambdaClass()->field_begin();
        for (auto it = l->capture_begin(); it != l->capture_end(); ++it, ++init, ++field) {
          json::Object co;
          if (it->capturesThis()) {
            co["this"] = true;
          } else if (it->capturesVariable()) {
            co["id"] = Id(it->getCapturedVar());
            co["name"] = it->getCapturedVar()->getNameAsString();
            co["initcap"] = cast<VarDecl>(it->getCapturedVar())->isInitCapture();
          }
          co["byref"] = it->getCaptureKind() == LCK_ByRef;
          co["t"] = Type(field->getType());
          if (*init) co["e"] = E(*init);
          caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        json::Array ops;
        auto* def = l->getLambdaClass();
        if (auto* tmpl = def->getDependentLambdaCallOperator()) {
          for (auto* s : tmpl->specializations()) ops.push_back(Fn(s));
        } else if (auto* m = def->getLambdaCallOperator()) {
          ops.push_back(Fn(m));
        }
        o["ops"] = std::move(ops);
        break;
      }
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        o["k"] = "new";
        if (n->getInitializer()) o["init"] = E(n->getInitializer());
        o["at"] = Type(n->getAllocatedType());
        if (n->isArray()) o["array"] = true;
        if (n->getNumPlacementArgs()) o["placement"] = true;
        break;
      }
      case Stmt::CXXDeleteExprClass: o["k"] = "delete"; o["e"] = E(cast<CXXDeleteExpr>(e)->getArgument()); break;
      case Stmt::CXXThrowExprClass: {
        o["k"] = "throw";
        if (auto* s = cast<CXXThrowExpr>(e)->getSubExpr()) o["e"] = E(s);
        break;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: {
        Expr::EvalResult r;
        o["k"] = "int";
        o["v"] = "0";
        if (e->EvaluateAsInt(r, ctx_)) o["v"] = llvm::toString(r.Val.getInt(), 10);
        break;
      }
      case Stmt::CXXRewrittenBinaryOperatorClass:
        return E(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
      case Stmt::OpaqueValueExprClass:
        return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
      default:
        o["k"] = "unsupported";
        o["what"] = e->getStmtClassName();
    }
    return o;
  }

  void Global(const VarDecl* v) {
    int id = Id(v);
    if (!globals_seen_.insert(id).second) return;
    json::Object o{{"name", QName(v)}, {"t", Type(v->getType())}};
    const VarDecl* d = nullptr;
    const Expr* init = v->getAnyInitializer(d);
    if (init && InRoots(d->getLocation()) && !init->isValueDependent()) o["init"] = E(init);
    globals_[std::to_string(id)] = std::move(o);
  }

  void Drain() {
    do {
      DrainInits();
      while (!fn_queue_.empty()) {
        auto* f = fn_queue_.back();
        fn_queue_.pop_back();
        ExportFn(f);
        DrainInits();
      }
    } while (!fn_queue_.empty() || !pending_inits_.empty());
  }

  void Write() {
    Drain();
    json::Array ts, rs;
    for (auto& t : type_objs_) ts.push_back(std::move(t));
    for (auto& r : record_objs_) rs.push_back(std::move(r));
    json::Object top{{"types", std::move(ts)}, {"records", std::move(rs)}, {"globals", std::move(globals_)}};
    json::Object fo;
    for (auto& kv : fns_) fo[kv.first] = std::move(kv.second);
    top["fns"] = std::move(fo);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(top));
  }

 private:
  struct PI { int rec; int idx; const FieldDecl* f; };
  CompilerInstance& ci_;
  ASTContext& ctx_;
  std::unique_ptr<ItaniumMangleContext> mangle_;
  PrintingPolicy pp_;
  std::map<std::pair<void*, bool>, int> types_;
  std::vector<json::Object> type_objs_;
  std::map<const CXXRecordDecl*, int> records_;
  std::vector<json::Object> record_objs_;
  std::vector<PI> pending_inits_;
  std::map<const FunctionDecl*, std::string> keys_;
  std::map<std::string, const FunctionDecl*> key_owner_;
  std::set<const FunctionDecl*> fn_seen_;
  std::vector<const FunctionDecl*> fn_queue_;
  std::map<std::string, json::Object> fns_;
  std::map<const Decl*, int> ids_;
  std::set<int> globals_seen_;
  json::Object globals_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& ex) : ex_(ex) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* fd) {
    if (fd->isDependentContext()) return true;
    if (!fd->isThisDeclarationADefinition()) return true;
    if (!ex_.InRoots(fd->getLocation())) return true;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda()) return true;  // Reached through their lambda expression.
    ex_.Fn(fd);
    return true;
  }

 private:
  Exporter& ex_;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter ex(ci_, ctx);
    Visitor v(ex);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    ex.Write();
  }
 private:
  CompilerInstance& ci_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  llvm::StringRef roots(argv[2]);
  llvm::SmallVector<llvm::StringRef, 8> parts;
  roots.split(parts, ',');
  for (auto p : parts) g_roots.push_back(p.str());
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
