// omx: fact extractor.  Parses one translation unit with clang and writes, as
// JSON, a simplified resolved syntax tree of every function defined under the
// given source root (template instantiations included), plus class, enum and
// global-variable tables.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  OStream& J;
  std::map<std::string, int> types, files;
  std::vector<std::string> type_list, file_list;
  std::map<const FunctionDecl*, int> fns;
  std::vector<const FunctionDecl*> fn_list;
  std::map<const Decl*, int> decls;
  int cur_file = -1;

  Dumper(ASTContext& c, OStream& j)
      : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), J(j) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
  }

  std::string usr(const Decl* d) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return std::string(buf);
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int i = int(type_list.size());
    types[s] = i;
    type_list.push_back(s);
    return i;
  }
  int file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    std::string s = SM.getFilename(l).str();
    auto it = files.find(s);
    if (it != files.end()) return it->second;
    int i = int(file_list.size());
    files[s] = i;
    file_list.push_back(s);
    return i;
  }
  int line(SourceLocation l) { return int(SM.getExpansionLineNumber(l)); }
  int decl(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = decls.find(d);
    if (it != decls.end()) return it->second;
    int i = int(decls.size());
    decls[d] = i;
    return i;
  }
  int fn(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = fns.find(f);
    if (it != fns.end()) return it->second;
    int i = int(fn_list.size());
    fns[f] = i;
    fn_list.push_back(f);
    return i;
  }
  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p = PP;
    p.SuppressUnwrittenScope = true;
    d->printQualifiedName(os, p);
    return os.str();
  }
  std::string macro(SourceLocation l) {
    if (!l.isMacroID()) return "";
    // outermost macro
    SourceLocation cur = l;
    std::string name;
    while (cur.isMacroID()) {
      name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
      cur = SM.getImmediateMacroCallerLoc(cur);
    }
    return name;
  }

  void head(const char* k, const Stmt* s) {
    J.attribute("k", k);
    SourceLocation b = s->getBeginLoc();
    J.attribute("l", line(b));
    int f = file(b);
    if (f != cur_file) J.attribute("fl", f);
    std::string m = macro(b);
    if (!m.empty()) J.attribute("m", m);
  }
  void child(const char* name, const Stmt* s) {
    J.attributeBegin(name);
    stmt(s);
    J.attributeEnd();
  }
  template <typename R>
  void children(const char* name, R r) {
    J.attributeBegin(name);
    J.arrayBegin();
    for (auto* s : r) stmt(s);
    J.arrayEnd();
    J.attributeEnd();
  }
  const Expr* strip(const Expr* e) {
    while (e) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else if (auto* x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast:
          case CK_IntegralToFloating:
          case CK_FloatingToIntegral:
          case CK_FloatingCast:
          case CK_IntegralToBoolean:
          case CK_PointerToBoolean:
          case CK_FloatingToBoolean:
            return e;
          default: e = x->getSubExpr();
        }
      } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
        if (x->isElidable() && x->getNumArgs() == 1) e = x->getArg(0);
        else return e;
      } else
        return e;
    }
    return e;
  }
  static int64_t toi(const llvm::APSInt& i) {
    return int64_t(i.extOrTrunc(64).getRawData()[0]);
  }
  bool evalInt(const Expr* e, int64_t& v) {
    if (e->isValueDependent() || e->isTypeDependent()) return false;
    QualType t = e->getType();
    if (t.isNull() || !t->isIntegralOrEnumerationType()) return false;
    if (!e->isPRValue() && !isa<DeclRefExpr>(e)) return false;
    Expr::EvalResult r;
    if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return false;
    if (r.Val.getInt().getBitWidth() > 64) return false;
    v = toi(r.Val.getInt());
    return true;
  }

  void vardecl(const VarDecl* v) {
    J.objectBegin();
    J.attribute("k", "var");
    J.attribute("l", line(v->getLocation()));
    J.attribute("d", decl(v));
    J.attribute("n", v->getNameAsString());
    J.attribute("t", type(v->getType()));
    if (v->isStaticLocal()) J.attribute("st", 1);
    if (v->getType().isConstQualified()) J.attribute("cq", 1);
    if (v->getInit()) child("i", v->getInit());
    J.objectEnd();
  }

  void stmt(const Stmt* s) {
    if (!s) {
      J.value(nullptr);
      return;
    }
    if (auto* e = dyn_cast<Expr>(s)) {
      expr(strip(e));
      return;
    }
    J.objectBegin();
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      head("block", s);
      children("c", x->body());
      J.attribute("el", line(x->getRBracLoc()));
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      head("decl", s);
      J.attributeBegin("c");
      J.arrayBegin();
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            vardecl(dd);
            continue;
          }
          vardecl(v);
        }
      }
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      head("if", s);
      if (x->isConstexpr()) J.attribute("ce", 1);
      if (x->getInit()) child("init", x->getInit());
      if (x->getConditionVariableDeclStmt())
        child("cv", x->getConditionVariableDeclStmt());
      child("cond", x->getCond());
      child("then", x->getThen());
      if (x->getElse()) child("else", x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      head("for", s);
      if (x->getInit()) child("init", x->getInit());
      if (x->getCond()) child("cond", x->getCond());
      if (x->getInc()) child("inc", x->getInc());
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      head("while", s);
      if (x->getConditionVariableDeclStmt())
        child("cv", x->getConditionVariableDeclStmt());
      child("cond", x->getCond());
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      head("do", s);
      child("cond", x->getCond());
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      head("rfor", s);
      J.attributeBegin("var");
      vardecl(x->getLoopVariable());
      J.attributeEnd();
      child("range", x->getRangeInit());
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      head("switch", s);
      child("cond", x->getCond());
      if (x->isAllEnumCasesCovered()) J.attribute("allenum", 1);
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      head("case", s);
      child("val", x->getLHS());
      child("body", x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      head("default", s);
      child("body", x->getSubStmt());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      head("ret", s);
      if (x->getRetValue()) child("e", x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      head("break", s);
    } else if (isa<ContinueStmt>(s)) {
      head("cont", s);
    } else if (isa<NullStmt>(s)) {
      head("null", s);
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      head("try", s);
      child("body", x->getTryBlock());
      J.attributeBegin("h");
      J.arrayBegin();
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        J.objectBegin();
        J.attribute("k", "catch");
        J.attribute("l", line(h->getBeginLoc()));
        if (h->getExceptionDecl()) {
          J.attribute("d", decl(h->getExceptionDecl()));
          J.attribute("t", type(h->getCaughtType()));
        }
        child("body", h->getHandlerBlock());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      head("attr", s);
      child("body", x->getSubStmt());
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      head("label", s);
      child("body", x->getSubStmt());
    } else if (auto* x = dyn_cast<GotoStmt>(s)) {
      head("goto", s);
      J.attribute("n", x->getLabel()->getNameAsString());
    } else {
      head("other", s);
      J.attribute("cls", s->getStmtClassName());
      children("c", s->children());
    }
    J.objectEnd();
  }

  void fnattr(const FunctionDecl* f) { J.attribute("f", fn(f)); }

  void expr(const Expr* e) {
    J.objectBegin();
    int64_t iv;
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      head("int", e);
      J.attribute("v", x->getValue().getBitWidth() <= 64 ? int64_t(x->getValue().getZExtValue()) : 0);
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      head("int", e);
      J.attribute("ch", 1);
      J.attribute("v", int64_t(x->getValue()));
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      head("int", e);
      J.attribute("b", 1);
      J.attribute("v", int64_t(x->getValue()));
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      head("flt", e);
      llvm::SmallString<32> str;
      x->getValue().toString(str);
      J.attribute("v", str.str());
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      head("str", e);
      std::string v = x->getCharByteWidth() == 1 ? x->getString().str() : "";
      if (!llvm::json::isUTF8(v)) v = llvm::json::fixUTF8(v);
      J.attribute("v", v);
      J.attribute("t", type(e->getType()));
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      head("null_ptr", e);
    } else if (isa<CXXThisExpr>(e)) {
      head("this", e);
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        head("int", e);
        J.attribute("v", toi(ec->getInitVal()));
        J.attribute("en", qname(ec));
        J.attribute("t", type(e->getType()));
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        head("fref", e);
        fnattr(f);
      } else {
        head("ref", e);
        J.attribute("d", decl(d));
        J.attribute("n", d->getNameAsString());
        J.attribute("t", type(d->getType()));
        if (isa<ParmVarDecl>(d)) J.attribute("p", 1);
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) {
            J.attribute("g", qname(v));
          } else if (v->isStaticLocal()) J.attribute("st", 1);
        }
        if (x->refersToEnclosingVariableOrCapture()) J.attribute("cap", 1);
        if (evalInt(e, iv)) J.attribute("v", iv);
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
        head("mfref", e);
        fnattr(m);
        child("b", x->getBase());
      } else {
        head("mem", e);
        J.attribute("n", x->getMemberDecl()->getNameAsString());
        if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl()))
          J.attribute("cls", qname(fd->getParent()));
        else if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl()))
          J.attribute("g", qname(v));
        J.attribute("t", type(x->getMemberDecl()->getType()));
        if (x->isArrow()) J.attribute("ar", 1);
        child("b", x->getBase());
        if (evalInt(e, iv)) J.attribute("v", iv);
      }
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      head("ctor", e);
      fnattr(x->getConstructor());
      J.attribute("t", type(e->getType()));
      if (isa<CXXTemporaryObjectExpr>(e)) J.attribute("tmp", 1);
      if (x->getConstructor()->isCopyConstructor()) J.attribute("cp", 1);
      if (x->getConstructor()->isMoveConstructor()) J.attribute("mv", 1);
      if (x->isListInitialization()) J.attribute("il", 1);
      children("a", x->arguments());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      head("call", e);
      const FunctionDecl* f = x->getDirectCallee();
      if (f) fnattr(f);
      J.attribute("t", type(e->getType()));
      if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
        if (!f) child("fe", x->getCallee());
        child("o", mc->getImplicitObjectArgument());
        auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens());
        if (me && me->hasQualifier()) J.attribute("nv", 1);
        children("a", x->arguments());
      } else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
        J.attribute("op", getOperatorSpelling(oc->getOperator()));
        if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
          child("o", x->getArg(0));
          J.attributeBegin("a");
          J.arrayBegin();
          for (unsigned i = 1; i < x->getNumArgs(); ++i) stmt(x->getArg(i));
          J.arrayEnd();
          J.attributeEnd();
        } else
          children("a", x->arguments());
      } else {
        if (!f) child("fe", x->getCallee());
        children("a", x->arguments());
      }
      if (evalInt(e, iv)) J.attribute("v", iv);
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      head("un", e);
      J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      if (x->isPostfix()) J.attribute("post", 1);
      child("e", x->getSubExpr());
      J.attribute("t", type(e->getType()));
      if (evalInt(e, iv)) J.attribute("v", iv);
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      head("bin", e);
      J.attribute("op", x->getOpcodeStr());
      child("L", x->getLHS());
      child("R", x->getRHS());
      J.attribute("t", type(e->getType()));
      if (!x->isAssignmentOp() && evalInt(e, iv)) J.attribute("v", iv);
    } else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      head("cond", e);
      child("cond", x->getCond());
      child("L", x->getTrueExpr());
      child("R", x->getFalseExpr());
      J.attribute("t", type(e->getType()));
      if (evalInt(e, iv)) J.attribute("v", iv);
    } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) {
        head("opaque", e);
        child("e", x->getSourceExpr());
      } else
        head("opaque", e);
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      head("cast", e);
      J.attribute("ck", x->getCastKindName());
      if (isa<ImplicitCastExpr>(e)) J.attribute("imp", 1);
      child("e", x->getSubExpr());
      J.attribute("t", type(e->getType()));
      if (evalInt(e, iv)) J.attribute("v", iv);
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      head("sub", e);
      child("b", x->getBase());
      child("i", x->getIdx());
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      head("init", e);
      J.attribute("t", type(e->getType()));
      if (x->isSemanticForm() || !x->getSemanticForm())
        children("c", x->inits());
      else
        children("c", x->getSemanticForm()->inits());
      if (x->hasArrayFiller()) J.attribute("fill", 1);
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      head("lambda", e);
      J.attribute("d", decl(x->getCallOperator()));
      J.attribute("lt", type(e->getType()));
      J.attribute("el", line(x->getEndLoc()));
      J.attributeBegin("caps");
      J.arrayBegin();
      auto init = x->capture_init_begin();
      for (auto& c : x->captures()) {
        J.objectBegin();
        J.attribute("l", line(c.getLocation()));
        if (c.capturesThis()) J.attribute("this", c.getCaptureKind() == LCK_This ? "ref" : "copy");
        else if (c.capturesVariable()) {
          J.attribute("d", decl(c.getCapturedVar()));
          J.attribute("n", c.getCapturedVar()->getNameAsString());
          J.attribute("t", type(c.getCapturedVar()->getType()));
          if (auto* cv = dyn_cast<VarDecl>(c.getCapturedVar())) {
            if (cv->isInitCapture()) {
              J.attribute("ic", 1);
              if (cv->getInit()) child("i", cv->getInit());
            }
          }
          if (c.getCaptureKind() == LCK_ByRef) J.attribute("ref", 1);
        }
        (void)init;
        J.objectEnd();
        ++init;
      }
      J.arrayEnd();
      J.attributeEnd();
      params(x->getCallOperator());
      J.attribute("rt", type(x->getCallOperator()->getReturnType()));
      if (x->isGenericLambda()) J.attribute("gen", 1);
      child("body", x->getBody());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      head("new", e);
      J.attribute("t", type(x->getAllocatedType()));
      J.attribute("arr", x->isArray() ? 1 : 0);
      if (x->isArray() && x->getArraySize()) child("n", *x->getArraySize());
      if (x->getInitializer()) child("i", x->getInitializer());
      children("a", x->placement_arguments());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      head("delete", e);
      J.attribute("arr", x->isArrayForm() ? 1 : 0);
      child("e", x->getArgument());
    } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      head("sizeof", e);
      if (evalInt(e, iv)) J.attribute("v", iv);
      J.attribute("at", type(x->getTypeOfArgument()));
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      head("throw", e);
      if (x->getSubExpr()) child("e", x->getSubExpr());
    } else if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      head("zero", e);
      J.attribute("t", type(x->getType()));
      if (evalInt(e, iv)) J.attribute("v", iv);
    } else if (isa<ImplicitValueInitExpr>(e)) {
      head("zero", e);
      J.attribute("t", type(e->getType()));
    } else if (auto* x = dyn_cast<StmtExpr>(e)) {
      head("stmtexpr", e);
      child("body", x->getSubStmt());
    } else {
      head("oexpr", e);
      J.attribute("cls", e->getStmtClassName());
      J.attribute("t", type(e->getType()));
      if (evalInt(e, iv)) J.attribute("v", iv);
      children("c", e->children());
    }
    J.objectEnd();
  }

  void params(const FunctionDecl* f) {
    J.attributeBegin("ps");
    J.arrayBegin();
    for (auto* p : f->parameters()) {
      J.objectBegin();
      J.attribute("d", decl(p));
      J.attribute("n", p->getNameAsString());
      J.attribute("t", type(p->getType()));
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
          !p->hasUnparsedDefaultArg() && p->getDefaultArg())
        child("da", p->getDefaultArg());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }

  bool in_root(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = SM.getFilename(SM.getExpansionLoc(l)).str();
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  void fnmeta(const FunctionDecl* f) {
    J.attribute("usr", usr(f));
    J.attribute("q", qname(f));
    J.attribute("n", f->getNameAsString());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      J.attribute("cls", qname(m->getParent()));
      J.attribute("clst", type(C.getRecordType(m->getParent())));
      if (m->isVirtual()) J.attribute("virt", 1);
      if (m->isStatic()) J.attribute("static", 1);
      if (m->isConst()) J.attribute("const", 1);
      if (isa<CXXConstructorDecl>(m)) J.attribute("kind", "ctor");
      if (isa<CXXDestructorDecl>(m)) J.attribute("kind", "dtor");
      if (m->getParent()->isLambda()) {
        J.attribute("lam", 1);
        J.attribute("ld", decl(m));
      }
      if (m->size_overridden_methods()) {
        J.attributeBegin("ov");
        J.arrayBegin();
        for (auto* o : m->overridden_methods()) J.value(usr(o));
        J.arrayEnd();
        J.attributeEnd();
      }
    }
    if (f->isNoReturn() || f->hasAttr<NoReturnAttr>()) J.attribute("nr", 1);
    J.attribute("rt", type(f->getReturnType()));
    if (f->isImplicit() || f->isDefaulted()) J.attribute("impl", 1);
    if (f->isExternC()) J.attribute("xc", 1);
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      J.attributeBegin("ta");
      J.arrayBegin();
      for (auto& a : ta->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        TemplateArgument ca = C.getCanonicalTemplateArgument(a);
        ca.print(PP, os, true);
        J.value(os.str());
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    const FunctionDecl* pat = f->getTemplateInstantiationPattern();
    const FunctionDecl* loc = pat ? pat : f;
    J.attribute("file", file(loc->getLocation()));
    J.attribute("line", line(loc->getLocation()));
    J.attribute("np", int(f->getNumParams()));
  }

  void function(const FunctionDecl* f) {
    cur_file = file(f->getBody()->getBeginLoc());
    J.objectBegin();
    fnmeta(f);
    J.attribute("fid", fn(f));
    J.attribute("bfile", cur_file);
    if (!f->isExternallyVisible()) J.attribute("local", 1);
    if (f->isVariadic()) J.attribute("va", 1);
    params(f);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      J.attributeBegin("inits");
      J.arrayBegin();
      for (auto* i : c->inits()) {
        J.objectBegin();
        J.attribute("l", line(i->getSourceLocation()));
        if (i->isWritten()) J.attribute("w", 1);
        if (i->isAnyMemberInitializer())
          J.attribute("n", i->getAnyMember()->getNameAsString());
        else if (i->isBaseInitializer())
          J.attribute("base", type(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) J.attribute("deleg", 1);
        child("e", i->getInit());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    child("body", f->getBody());
    J.attribute("el", line(f->getEndLoc()));
    J.objectEnd();
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper& D;
  std::vector<const FunctionDecl*> defs;
  std::vector<const CXXRecordDecl*> recs;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> vars;
  std::set<const void*> seen;
  explicit Collect(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || !f->getBody()) return true;
    if (f->isDependentContext()) return true;
    if (f->isImplicit()) return true;
    if (!D.in_root(f->getBody()->getBeginLoc()) && !D.in_root(f->getLocation()))
      return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) return true;
      if (m->getParent()->isDependentContext()) return true;
    }
    if (!seen.insert(f->getCanonicalDecl()).second) return true;
    defs.push_back(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
      return true;
    if (!D.in_root(r->getLocation())) return true;
    if (!seen.insert(r).second) return true;
    recs.push_back(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && !e->isDependentContext() && D.in_root(e->getLocation()))
      enums.push_back(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !isa<ParmVarDecl>(v) &&
        !v->isTemplated() && D.in_root(v->getLocation()) &&
        !v->getDeclContext()->isDependentContext())
      vars.push_back(v);
    return true;
  }
};

struct Consumer : ASTConsumer {
  bool ok = true;
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec;
    std::string tmp = g_out + ".tmp";
    {
      llvm::raw_fd_ostream os(tmp, ec);
      OStream J(os);
      Dumper D(ctx, J);
      Collect col(D);
      col.TraverseDecl(ctx.getTranslationUnitDecl());
      J.objectBegin();
      J.attribute("main", ctx.getSourceManager()
                              .getFileEntryRefForID(ctx.getSourceManager().getMainFileID())
                              ->getName());
      J.attributeBegin("defs");
      J.arrayBegin();
      for (auto* f : col.defs) D.function(f);
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("recs");
      J.arrayBegin();
      for (auto* r : col.recs) {
        J.objectBegin();
        J.attribute("q", D.qname(r));
        J.attribute("t", D.type(ctx.getRecordType(r)));
        J.attribute("usr", D.usr(r));
        J.attribute("file", D.file(r->getLocation()));
        J.attribute("line", D.line(r->getLocation()));
        J.attributeBegin("bases");
        J.arrayBegin();
        for (auto& b : r->bases()) J.value(D.type(b.getType()));
        J.arrayEnd();
        J.attributeEnd();
        J.attributeBegin("fields");
        J.arrayBegin();
        for (auto* f : r->fields()) {
          J.objectBegin();
          J.attribute("n", f->getNameAsString());
          J.attribute("t", D.type(f->getType()));
          J.attribute("acc", int(f->getAccess()));
          J.attribute("mut", int(f->isMutable()));
          J.attribute("l", D.line(f->getLocation()));
          if (f->hasInClassInitializer()) J.attribute("ici", 1);
          J.objectEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        J.attributeBegin("methods");
        J.arrayBegin();
        for (auto* m : r->methods()) {
          if (m->isImplicit()) continue;
          J.objectBegin();
          J.attribute("n", m->getNameAsString());
          J.attribute("usr", D.usr(m));
          J.attribute("acc", int(m->getAccess()));
          J.attribute("t", D.type(m->getType()));
          J.attribute("rt", D.type(m->getReturnType()));
          if (m->isConst()) J.attribute("const", 1);
          if (m->isDeleted()) J.attribute("del", 1);
          if (m->isVirtual()) J.attribute("virt", 1);
          if (m->isPureVirtual()) J.attribute("pure", 1);
          if (m->isStatic()) J.attribute("static", 1);
          J.objectEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("enums");
      J.arrayBegin();
      for (auto* e : col.enums) {
        J.objectBegin();
        J.attribute("q", D.qname(e));
        J.attribute("file", D.file(e->getLocation()));
        J.attribute("line", D.line(e->getLocation()));
        J.attributeBegin("c");
        J.arrayBegin();
        for (auto* c : e->enumerators()) {
          J.objectBegin();
          J.attribute("n", c->getNameAsString());
          J.attribute("v", Dumper::toi(c->getInitVal()));
          J.objectEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("vars");
      J.arrayBegin();
      for (auto* v : col.vars) {
        J.objectBegin();
        J.attribute("q", D.qname(v));
        J.attribute("d", D.decl(v));
        J.attribute("t", D.type(v->getType()));
        J.attribute("file", D.file(v->getLocation()));
        J.attribute("line", D.line(v->getLocation()));
        if (v->getType().isConstQualified()) J.attribute("cq", 1);
        if (v->isThisDeclarationADefinition() && v->getInit()) {
          D.cur_file = D.file(v->getLocation());
          D.child("i", v->getInit());
        }
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("fns");
      J.arrayBegin();
      for (size_t i = 0; i < D.fn_list.size(); ++i) {
        J.objectBegin();
        D.fnmeta(D.fn_list[i]);
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("types");
      J.arrayBegin();
      for (auto& s : D.type_list) J.value(s);
      J.arrayEnd();
      J.attributeEnd();
      J.attributeBegin("files");
      J.arrayBegin();
      for (auto& s : D.file_list) J.value(s);
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    rename(tmp.c_str(), g_out.c_str());
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

// usage: omx OUT ROOT[,ROOT..] FILE -- FLAGS...
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = roots.find(',', p);
    g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
