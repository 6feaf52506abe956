// astx: exports the type-checked program (functions, classes, enums, globals defined under a source root) as compact
// JSON, one document per translation unit.  It is the front end of the static analyses in /verif/lib: nothing is run,
// every name is resolved by clang, implicit conversions that carry no meaning are dropped.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace
{
struct Exporter
{
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  json::Array funcs, classes, enums, globals;
  std::set<std::string> seenFuncs, seenClasses, seenEnums, seenGlobals;
  std::unique_ptr<MangleContext> MC;
  std::string errors;

  explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    MC.reset(C.createMangleContext());
  }

  int id(const Decl* d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end())
      return it->second;
    int n = static_cast<int>(ids.size()) + 1;
    ids[d] = n;
    return n;
  }
  std::string fileOf(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l);
    return p.isValid() ? std::string(p.getFilename()) : std::string();
  }
  int lineOf(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l);
    return p.isValid() ? static_cast<int>(p.getLine()) : 0;
  }
  bool inRoot(SourceLocation l)
  {
    std::string f = fileOf(l);
    // normalise a/../b is not needed: include paths are absolute
    size_t b = 0;
    while (b < g_root.size())
    {
      size_t e = g_root.find(':', b);
      if (e == std::string::npos)
        e = g_root.size();
      if (f.compare(0, e - b, g_root, b, e - b) == 0)
        return true;
      b = e + 1;
    }
    return false;
  }
  std::string ty(QualType t)
  {
    if (t.isNull())
      return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  // short type class used by the analyses
  std::string qname(const NamedDecl* d)
  {
    std::string s;
    // classes local to a function are named after it
    if (const auto* r = dyn_cast<CXXRecordDecl>(d))
      if (const auto* pf = dyn_cast<FunctionDecl>(r->getDeclContext()))
        return qname(pf) + "::" + r->getNameAsString();
    if (const auto* md = dyn_cast<CXXMethodDecl>(d))
      if (md->getParent() && !md->getParent()->isLambda() && isa<FunctionDecl>(md->getParent()->getDeclContext()))
        return qname(md->getParent()) + "::" + md->getNameAsString();
    llvm::raw_string_ostream os(s);
    PrintingPolicy p2 = PP;
    d->printQualifiedName(os, p2);
    os.flush();
    // class template arguments: print the record with its arguments stripped
    return s;
  }
  std::string mangled(const FunctionDecl* f)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (f->isDependentContext())
      return qname(f);
    GlobalDecl gd;
    if (const auto* c = dyn_cast<CXXConstructorDecl>(f))
      gd = GlobalDecl(c, Ctor_Complete);
    else if (const auto* d = dyn_cast<CXXDestructorDecl>(f))
      gd = GlobalDecl(d, Dtor_Complete);
    else
      gd = GlobalDecl(f);
    if (MC->shouldMangleDeclName(f))
      MC->mangleName(gd, os);
    else
      os << qname(f);
    os.flush();
    return s;
  }

  // ---------------------------------------------------------------- expressions
  json::Object ob(const char* k, const Stmt* s)
  {
    json::Object o;
    o["k"] = k;
    if (s)
      o["ln"] = lineOf(s->getBeginLoc());
    return o;
  }
  json::Value exprs(llvm::ArrayRef<const Expr*> es)
  {
    json::Array a;
    for (const Expr* e : es)
      a.push_back(expr(e));
    return a;
  }
  template <class R>
  json::Value args(const R& range)
  {
    json::Array a;
    for (const Expr* e : range)
    {
      if (e && isa<CXXDefaultArgExpr>(e))
      {
        json::Object o = ob("defarg", e);
        o["e"] = expr(cast<CXXDefaultArgExpr>(e)->getExpr());
        a.push_back(std::move(o));
      }
      else
        a.push_back(expr(e));
    }
    return a;
  }
  void callee(json::Object& o, const FunctionDecl* f)
  {
    if (!f)
      return;
    o["f"] = qname(f);
    o["m"] = mangled(f);
    if (const auto* md = dyn_cast<CXXMethodDecl>(f))
    {
      if (md->isVirtual() && !md->hasAttr<FinalAttr>() && !md->getParent()->isEffectivelyFinal())
        o["virt"] = true;
      if (md->isConst())
        o["cst"] = true;
      if (md->isStatic())
        o["st"] = true;
      o["cls"] = qname(md->getParent());
    }
    if (f->getIdentifier() && (f->getName() == "make_shared" || f->getName() == "make_unique"))
      if (const auto* ta = f->getTemplateSpecializationArgs())
        if (ta->size() > 0 && ta->get(0).getKind() == TemplateArgument::Type)
          if (const auto* r = ta->get(0).getAsType()->getAsCXXRecordDecl())
            o["targ"] = qname(r);
    // which parameters are taken by mutable reference or pointer
    json::Array pk;
    for (const ParmVarDecl* p : f->parameters())
      pk.push_back(parmKind(p->getType()));
    o["pk"] = std::move(pk);
  }
  std::string parmKind(QualType t)
  {
    if (t->isRValueReferenceType())
      return "rr";
    if (t->isLValueReferenceType())
      return t->getPointeeType().isConstQualified() ? "cr" : "r";
    if (t->isPointerType())
      return t->getPointeeType().isConstQualified() ? "cp" : "p";
    // views of writable storage passed by value
    const std::string n = ty(t);
    for (const char* v : { "Eigen::Ref<Eigen::", "Eigen::Block<Eigen::", "Eigen::VectorBlock<Eigen::", "Eigen::ArrayWrapper<Eigen::" })
      if (n.rfind(v, 0) == 0)
        return "r";
    return "v";
  }
  json::Value expr(const Expr* e)
  {
    if (!e)
      return nullptr;
    // strip wrappers without meaning
    for (;;)
    {
      if (const auto* x = dyn_cast<ParenExpr>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<ExprWithCleanups>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<ConstantExpr>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
        e = x->getReplacement();
      else if (const auto* x = dyn_cast<CXXDefaultArgExpr>(e))
        e = x->getExpr();
      else if (const auto* x = dyn_cast<CXXDefaultInitExpr>(e))
        e = x->getExpr();
      else if (const auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
        e = x->getSubExpr();
      else if (const auto* x = dyn_cast<ImplicitCastExpr>(e))
      {
        switch (x->getCastKind())
        {
          case CK_IntegralToFloating:
          case CK_FloatingToIntegral:
          case CK_IntegralToBoolean:
          case CK_PointerToBoolean:
          case CK_FloatingToBoolean:
          {
            json::Object o = ob("cast", e);
            o["ck"] = x->getCastKindName();
            o["t"] = ty(e->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
          }
          case CK_IntegralCast:
          {
            json::Object o = ob("cast", e);
            o["ck"] = "IntegralCast";
            o["t"] = ty(e->getType());
            o["ft"] = ty(x->getSubExpr()->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
          }
          default:
            e = x->getSubExpr();
        }
      }
      else
        break;
      if (!e)
        return nullptr;
    }
    if (const auto* x = dyn_cast<IntegerLiteral>(e))
    {
      json::Object o = ob("int", nullptr);
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (const auto* x = dyn_cast<FloatingLiteral>(e))
    {
      json::Object o = ob("float", nullptr);
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (const auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      json::Object o = ob("bool", nullptr);
      o["v"] = x->getValue();
      return o;
    }
    if (const auto* x = dyn_cast<CharacterLiteral>(e))
    {
      json::Object o = ob("int", nullptr);
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (const auto* x = dyn_cast<StringLiteral>(e))
    {
      json::Object o = ob("str", nullptr);
      o["v"] = json::fixUTF8(x->getBytes());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return ob("null", e);
    if (isa<CXXThisExpr>(e))
      return ob("this", nullptr);
    if (const auto* x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl* d = x->getDecl();
      json::Object o = ob("ref", e);
      o["n"] = d->getNameAsString();
      if (const auto* ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["dk"] = "enum";
        o["q"] = qname(ec);
        llvm::SmallString<16> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
      if (const auto* f = dyn_cast<FunctionDecl>(d))
      {
        o["dk"] = "func";
        o["q"] = qname(f);
        o["m"] = mangled(f);
        return o;
      }
      if (const auto* b = dyn_cast<BindingDecl>(d))
      {
        o["dk"] = "bind";
        o["d"] = id(b);
        return o;
      }
      if (const auto* v = dyn_cast<VarDecl>(d))
      {
        o["d"] = id(v);
        o["t"] = ty(v->getType());
        if (isa<ParmVarDecl>(v))
          o["dk"] = "param";
        else if (v->isLocalVarDecl() && !v->isStaticLocal())
          o["dk"] = v->getTSCSpec() != TSCS_unspecified ? "slocal" : "local";
        else if (v->isStaticLocal())
          o["dk"] = "slocal";
        else
        {
          o["dk"] = "global";
          o["q"] = qname(v);
          if (v->getType().isConstQualified() || v->isConstexpr())
          {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C))
            {
              llvm::SmallString<16> s;
              r.Val.getInt().toString(s, 10);
              o["cv"] = s.str().str();
            }
          }
          noteGlobal(v);
        }
        return o;
      }
      o["dk"] = "other";
      o["q"] = qname(d);
      return o;
    }
    if (const auto* x = dyn_cast<MemberExpr>(e))
    {
      const ValueDecl* d = x->getMemberDecl();
      if (const auto* v = dyn_cast<VarDecl>(d))
      {  // static member
        json::Object o = ob("ref", e);
        o["n"] = d->getNameAsString();
        o["dk"] = "global";
        o["q"] = qname(v);
        o["d"] = id(v);
        o["t"] = ty(v->getType());
        noteGlobal(v);
        return o;
      }
      if (const auto* ec = dyn_cast<EnumConstantDecl>(d))
      {
        json::Object o = ob("ref", e);
        o["n"] = d->getNameAsString();
        o["dk"] = "enum";
        o["q"] = qname(ec);
        llvm::SmallString<16> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
      json::Object o = ob("mem", e);
      o["n"] = d->getNameAsString();
      o["q"] = qname(d);
      o["t"] = ty(d->getType());
      o["b"] = expr(x->getBase());
      if (x->isArrow())
        o["arrow"] = true;
      return o;
    }
    if (const auto* x = dyn_cast<UnaryOperator>(e))
    {
      json::Object o = ob("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix())
        o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<CompoundAssignOperator>(e))
    {
      json::Object o = ob("asg", e);
      std::string s = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      s.pop_back();
      o["op"] = s;
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<BinaryOperator>(e))
    {
      json::Object o = ob(x->getOpcode() == BO_Assign ? "asg" : "bin", e);
      if (x->getOpcode() != BO_Assign)
        o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["l"] = expr(x->getLHS());
      o["r"] = expr(x->getRHS());
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
      return expr(x->getSemanticForm());
    if (const auto* x = dyn_cast<ConditionalOperator>(e))
    {
      json::Object o = ob("cond", e);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<ArraySubscriptExpr>(e))
    {
      json::Object o = ob("sub", e);
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (const auto* x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      json::Object o = ob("call", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (x->getNumArgs() == 1 || (x->getNumArgs() == 2 && (x->getOperator() == OO_PlusPlus || x->getOperator() == OO_MinusMinus)))
        o["unary"] = true;
      if (x->getOperator() == OO_PlusPlus || x->getOperator() == OO_MinusMinus)
        o["post"] = x->getNumArgs() == 2;
      callee(o, x->getDirectCallee());
      o["a"] = args(x->arguments());
      o["t"] = ty(e->getType());
      if (const auto* f = x->getDirectCallee())
        if (isa<CXXMethodDecl>(f))
        {
          o["mop"] = true;
          if (x->getNumArgs() > 0)
            o["ot"] = ty(x->getArg(0)->getType());
        }
      return o;
    }
    if (const auto* x = dyn_cast<CXXMemberCallExpr>(e))
    {
      json::Object o = ob("call", e);
      const CXXMethodDecl* md = x->getMethodDecl();
      callee(o, md);
      const Expr* ce = x->getCallee()->IgnoreParens();
      if (const auto* me = dyn_cast<MemberExpr>(ce))
      {
        o["o"] = expr(me->getBase());
        if (me->isArrow())
          o["arrow"] = true;
        o["ot"] = ty(me->getBase()->getType());
        // qualified call X::f() is not virtual dispatch
        if (me->hasQualifier())
          o["virt"] = false;
        else if (md && md->isVirtual() && md->getParent()->isEffectivelyFinal())
          o["virt"] = false;
        else if (md && md->isVirtual() && !me->isArrow())
        {
          // a member or variable that is an object (no reference, no pointer) is of its declared class
          const Expr* b = me->getBase()->IgnoreParenImpCasts();
          const ValueDecl* vd = nullptr;
          if (const auto* bm = dyn_cast<MemberExpr>(b))
            vd = dyn_cast<FieldDecl>(bm->getMemberDecl());
          else if (const auto* br = dyn_cast<DeclRefExpr>(b))
            vd = dyn_cast<VarDecl>(br->getDecl());
          const CXXRecordDecl* rd = vd && !vd->getType()->isReferenceType() ? vd->getType()->getAsCXXRecordDecl() : nullptr;
          if (rd && rd->hasDefinition())
            if (const CXXMethodDecl* fm = const_cast<CXXMethodDecl*>(md)->getCorrespondingMethodInClass(rd))
            {
              callee(o, fm);
              o["virt"] = false;
            }
        }
      }
      else if (!md)
      {
        o["fp"] = expr(ce);
      }
      if (md && isa<CXXConversionDecl>(md))
        o["conv"] = true;
      o["a"] = args(x->arguments());
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<CallExpr>(e))
    {
      json::Object o = ob("call", e);
      if (const FunctionDecl* f = x->getDirectCallee())
        callee(o, f);
      else
        o["fp"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
    {
      json::Object o = ob("ctor", e);
      o["t"] = ty(e->getType());
      o["a"] = json::Array();
      return o;
    }
    if (const auto* x = dyn_cast<CXXConstructExpr>(e))
    {
      const CXXConstructorDecl* cd = x->getConstructor();
      if (cd->isCopyOrMoveConstructor() && x->getNumArgs() == 1)
      {
        json::Object o = ob("copy", e);
        o["mv"] = cd->isMoveConstructor();
        o["t"] = ty(e->getType());
        o["e"] = expr(x->getArg(0));
        return o;
      }
      json::Object o = ob("ctor", e);
      callee(o, cd);
      o["t"] = ty(e->getType());
      o["a"] = args(x->arguments());
      if (x->isListInitialization())
        o["list"] = true;
      if (x->isStdInitListInitialization())
        o["il"] = true;
      return o;
    }
    if (const auto* x = dyn_cast<ExplicitCastExpr>(e))
    {
      json::Object o = ob("cast", e);
      o["x"] = true;
      o["ck"] = x->getCastKindName();
      o["t"] = ty(e->getType());
      o["ft"] = ty(x->getSubExpr()->getType());
      if (isa<CXXDynamicCastExpr>(x))
        o["dyn"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (const auto* x = dyn_cast<InitListExpr>(e))
    {
      if (x->isSemanticForm() == false && x->getSemanticForm())
        x = x->getSemanticForm();
      json::Object o = ob("init", e);
      o["t"] = ty(e->getType());
      json::Array a;
      for (const Expr* i : x->inits())
        a.push_back(expr(i));
      o["a"] = std::move(a);
      return o;
    }
    if (const auto* x = dyn_cast<LambdaExpr>(e))
    {
      json::Object o = ob("lambda", e);
      const CXXMethodDecl* md = x->getCallOperator();
      // generic lambda: the instantiation that is used
      if (const FunctionTemplateDecl* ft = x->getLambdaClass()->getDependentLambdaCallOperator())
        for (const FunctionDecl* sp : ft->specializations())
          if (const auto* m = dyn_cast<CXXMethodDecl>(sp))
            if (m->hasBody() && m->getBody())
            {
              md = m;
              break;
            }
      o["m"] = mangled(md);
      json::Array ps;
      for (const ParmVarDecl* p : md->parameters())
        ps.push_back(parm(p));
      o["params"] = std::move(ps);
      json::Array cs;
      for (const auto& c : x->captures())
      {
        json::Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable())
        {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["d"] = id(c.getCapturedVar());
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (const auto* v = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (v->isInitCapture())
              co["init"] = expr(v->getInit());
        }
        cs.push_back(std::move(co));
      }
      o["caps"] = std::move(cs);
      if (md->isTemplateInstantiation() || !md->isDependentContext())
        o["body"] = stmt(md->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<CXXNewExpr>(e))
    {
      json::Object o = ob("new", e);
      o["t"] = ty(x->getAllocatedType());
      if (x->getInitializer())
        o["e"] = expr(x->getInitializer());
      if (x->isArray() && x->getArraySize())
        o["n"] = expr(*x->getArraySize());
      return o;
    }
    if (const auto* x = dyn_cast<CXXDeleteExpr>(e))
    {
      json::Object o = ob("delete", e);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (const auto* x = dyn_cast<CXXThrowExpr>(e))
    {
      json::Object o = ob("throw", e);
      o["e"] = expr(x->getSubExpr());
      if (x->getSubExpr())
        o["t"] = ty(x->getSubExpr()->getType());
      return o;
    }
    if (const auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
    {
      json::Object o = ob("sizeof", e);
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, C))
      {
        llvm::SmallString<16> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
      }
      o["t"] = ty(x->getTypeOfArgument());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
    {
      json::Object o = ob("zero", e);
      o["t"] = ty(e->getType());
      return o;
    }
    if (const auto* x = dyn_cast<CXXTypeidExpr>(e))
      return ob("typeid", e);
    if (const auto* x = dyn_cast<StmtExpr>(e))
    {
      json::Object o = ob("stmtexpr", e);
      o["body"] = stmt(x->getSubStmt());
      return o;
    }
    if (const auto* x = dyn_cast<OpaqueValueExpr>(e))
      return expr(x->getSourceExpr());
    if (isa<PredefinedExpr>(e) || isa<SourceLocExpr>(e))
      return ob("str", e);
    {
      // constant-foldable leftovers (type traits, noexcept, ...)
      json::Object o = ob("unk", e);
      o["c"] = e->getStmtClassName();
      json::Array a;
      for (const Stmt* c : e->children())
        if (const auto* ce = dyn_cast_or_null<Expr>(c))
          a.push_back(expr(ce));
      o["a"] = std::move(a);
      return o;
    }
  }

  json::Object parm(const VarDecl* p)
  {
    json::Object o;
    o["n"] = p->getNameAsString();
    o["d"] = id(p);
    o["t"] = ty(p->getType());
    o["pk"] = parmKind(p->getType());
    return o;
  }

  // ---------------------------------------------------------------- statements
  json::Value varDecl(const VarDecl* v, const Stmt* s)
  {
    json::Object o = ob("var", s);
    o["ln"] = lineOf(v->getLocation());
    o["n"] = v->getNameAsString();
    o["d"] = id(v);
    o["t"] = ty(v->getType());
    if (v->getType()->isReferenceType())
      o["ref"] = true;
    if (v->isStaticLocal())
      o["static"] = true;
    if (v->getTSCSpec() != TSCS_unspecified)
      o["tls"] = true;
    if (v->getInit())
      o["e"] = expr(v->getInit());
    if (const auto* dd = dyn_cast<DecompositionDecl>(v))
    {
      json::Array bs;
      for (const BindingDecl* b : dd->bindings())
      {
        json::Object bo;
        bo["n"] = b->getNameAsString();
        bo["d"] = id(b);
        if (const Expr* be = b->getBinding())
        {
          if (const auto* me = dyn_cast<MemberExpr>(be->IgnoreImplicit()))
            bo["f"] = me->getMemberDecl()->getNameAsString();
        }
        bs.push_back(std::move(bo));
      }
      o["binds"] = std::move(bs);
    }
    return o;
  }
  json::Value stmt(const Stmt* s)
  {
    if (!s)
      return nullptr;
    if (const auto* x = dyn_cast<CompoundStmt>(s))
    {
      json::Object o = ob("blk", s);
      json::Array a;
      for (const Stmt* c : x->body())
        a.push_back(stmt(c));
      o["b"] = std::move(a);
      o["eln"] = lineOf(x->getRBracLoc());
      return o;
    }
    if (const auto* x = dyn_cast<DeclStmt>(s))
    {
      json::Object o = ob("decl", s);
      json::Array a;
      for (const Decl* d : x->decls())
        if (const auto* v = dyn_cast<VarDecl>(d))
          a.push_back(varDecl(v, s));
      o["v"] = std::move(a);
      return o;
    }
    if (const auto* x = dyn_cast<IfStmt>(s))
    {
      if (x->isConstexpr())
      {
        auto nd = x->getNondiscardedCase(C);
        if (nd)
        {
          if (*nd)
            return stmt(*nd);
          return ob("nop", s);
        }
      }
      json::Object o = ob("if", s);
      if (x->getInit())
        o["init"] = stmt(x->getInit());
      if (x->getConditionVariable())
        o["cv"] = varDecl(x->getConditionVariable(), s);
      o["c"] = expr(x->getCond());
      o["t"] = stmt(x->getThen());
      if (x->getElse())
        o["e"] = stmt(x->getElse());
      return o;
    }
    if (const auto* x = dyn_cast<ForStmt>(s))
    {
      json::Object o = ob("for", s);
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<WhileStmt>(s))
    {
      json::Object o = ob("while", s);
      if (x->getConditionVariable())
        o["cv"] = varDecl(x->getConditionVariable(), s);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<DoStmt>(s))
    {
      json::Object o = ob("do", s);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<CXXForRangeStmt>(s))
    {
      json::Object o = ob("rfor", s);
      if (x->getInit())
        o["init"] = stmt(x->getInit());
      o["r"] = expr(x->getRangeInit());
      o["rt"] = ty(x->getRangeInit()->getType());
      o["v"] = varDecl(x->getLoopVariable(), s);
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<SwitchStmt>(s))
    {
      json::Object o = ob("switch", s);
      if (x->getInit())
        o["init"] = stmt(x->getInit());
      if (x->getConditionVariable())
        o["cv"] = varDecl(x->getConditionVariable(), s);
      o["c"] = expr(x->getCond());
      QualType ct = x->getCond()->IgnoreImpCasts()->getType();
      o["ct"] = ty(ct);
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (const auto* x = dyn_cast<CaseStmt>(s))
    {
      json::Object o = ob("case", s);
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (const auto* x = dyn_cast<DefaultStmt>(s))
    {
      json::Object o = ob("default", s);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (const auto* x = dyn_cast<ReturnStmt>(s))
    {
      json::Object o = ob("ret", s);
      if (x->getRetValue())
        o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s))
      return ob("break", s);
    if (isa<ContinueStmt>(s))
      return ob("continue", s);
    if (isa<NullStmt>(s))
      return ob("nop", s);
    if (const auto* x = dyn_cast<CXXTryStmt>(s))
    {
      json::Object o = ob("try", s);
      o["b"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      {
        const CXXCatchStmt* h = x->getHandler(i);
        json::Object ho;
        ho["ln"] = lineOf(h->getBeginLoc());
        if (h->getExceptionDecl())
        {
          ho["t"] = ty(h->getCaughtType());
          ho["n"] = h->getExceptionDecl()->getNameAsString();
          ho["d"] = id(h->getExceptionDecl());
        }
        else
          ho["t"] = "...";
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (const auto* x = dyn_cast<AttributedStmt>(s))
      return stmt(x->getSubStmt());
    if (const auto* x = dyn_cast<LabelStmt>(s))
      return stmt(x->getSubStmt());
    if (const auto* x = dyn_cast<CapturedStmt>(s))
      return stmt(x->getCapturedStmt());
    if (const auto* x = dyn_cast<Expr>(s))
    {
      json::Object o = ob("expr", s);
      o["e"] = expr(x);
      return o;
    }
    if (std::string(s->getStmtClassName()).rfind("OMP", 0) == 0)
    {
      json::Object o = ob("omp", s);
      o["c"] = s->getStmtClassName();
      for (const Stmt* c : s->children())
        if (c)
        {
          o["b"] = stmt(c);
          break;
        }
      return o;
    }
    json::Object o = ob("unkstmt", s);
    o["c"] = s->getStmtClassName();
    return o;
  }

  // ---------------------------------------------------------------- declarations
  void function(const FunctionDecl* f)
  {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext())
      return;
    if (f->isImplicit() || f->isDefaulted())
    {
      if (!isa<CXXConstructorDecl>(f) && !isa<CXXMethodDecl>(f))
        return;
      if (f->isImplicit())
        return;
    }
    const FunctionDecl* pat = f->getTemplateInstantiationPattern();
    SourceLocation l = (pat ? pat : f)->getLocation();
    if (!inRoot(l))
      return;
    std::string m = mangled(f);
    if (!seenFuncs.insert(m).second)
      return;
    json::Object o;
    o["q"] = qname(f);
    o["m"] = m;
    o["file"] = fileOf(l);
    o["ln"] = lineOf(l);
    o["rt"] = ty(f->getReturnType());
    json::Array ps;
    for (const ParmVarDecl* p : f->parameters())
      ps.push_back(parm(p));
    o["params"] = std::move(ps);
    if (const auto* md = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qname(md->getParent());
      o["clst"] = ty(C.getRecordType(md->getParent()));
      if (md->isVirtual() && !md->hasAttr<FinalAttr>() && !md->getParent()->isEffectivelyFinal())
        o["virt"] = true;
      if (md->isConst())
        o["cst"] = true;
      if (md->isStatic())
        o["st"] = true;
      o["acc"] = md->getAccess() == AS_public ? "pub" : (md->getAccess() == AS_private ? "priv" : "prot");
      json::Array ov;
      for (const CXXMethodDecl* b : md->overridden_methods())
        ov.push_back(mangled(b));
      if (!ov.empty())
        o["ov"] = std::move(ov);
      if (isa<CXXDestructorDecl>(md))
        o["dtor"] = true;
      if (const auto* cd = dyn_cast<CXXConstructorDecl>(md))
      {
        o["ctor"] = true;
        json::Array is;
        for (const CXXCtorInitializer* in : cd->inits())
        {
          json::Object io;
          if (in->isAnyMemberInitializer())
            io["f"] = in->getAnyMember()->getNameAsString();
          else if (in->isBaseInitializer())
            io["base"] = ty(QualType(in->getBaseClass(), 0));
          else
            io["deleg"] = true;
          io["w"] = in->isWritten();
          io["e"] = expr(in->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    o["body"] = stmt(f->getBody());
    funcs.push_back(std::move(o));
  }
  void record(const CXXRecordDecl* r)
  {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
      return;
    const CXXRecordDecl* pat = r->getTemplateInstantiationPattern();
    SourceLocation l = (pat ? pat : r)->getLocation();
    if (!inRoot(l))
      return;
    std::string t = ty(C.getRecordType(r));
    if (!seenClasses.insert(qname(r) + "|" + t).second)
      return;
    json::Object o;
    o["q"] = qname(r);
    o["t"] = t;
    o["file"] = fileOf(l);
    o["ln"] = lineOf(l);
    json::Array bs;
    for (const auto& b : r->bases())
    {
      std::string n = ty(b.getType());
      bs.push_back(n);
    }
    o["bases"] = std::move(bs);
    json::Array fs;
    for (const FieldDecl* f : r->fields())
    {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = ty(f->getType());
      fo["ln"] = lineOf(f->getLocation());
      fo["acc"] = f->getAccess() == AS_public ? "pub" : (f->getAccess() == AS_private ? "priv" : "prot");
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["e"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (const CXXMethodDecl* m : r->methods())
    {
      json::Object mo;
      mo["q"] = qname(m);
      mo["n"] = m->getNameAsString();
      mo["m"] = mangled(m);
      if (m->isVirtual())
        mo["virt"] = true;
      if (m->isPureVirtual())
        mo["pure"] = true;
      if (m->isImplicit())
        mo["impl"] = true;
      if (m->isDefaulted())
        mo["def"] = true;
      if (m->isDeleted())
        mo["del"] = true;
      if (m->isConst())
        mo["cst"] = true;
      mo["ln"] = lineOf(m->getLocation());
      mo["acc"] = m->getAccess() == AS_public ? "pub" : (m->getAccess() == AS_private ? "priv" : "prot");
      json::Array ov;
      for (const CXXMethodDecl* b : m->overridden_methods())
        ov.push_back(mangled(b));
      if (!ov.empty())
        mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    classes.push_back(std::move(o));
  }
  void enumd(const EnumDecl* d)
  {
    if (!d->isThisDeclarationADefinition() || !inRoot(d->getLocation()))
      return;
    std::string q = qname(d);
    if (!seenEnums.insert(q).second)
      return;
    json::Object o;
    o["q"] = q;
    o["file"] = fileOf(d->getLocation());
    o["ln"] = lineOf(d->getLocation());
    json::Array cs;
    for (const EnumConstantDecl* c : d->enumerators())
    {
      json::Object co;
      co["n"] = c->getNameAsString();
      llvm::SmallString<16> s;
      c->getInitVal().toString(s, 10);
      co["v"] = s.str().str();
      cs.push_back(std::move(co));
    }
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
  }
  void noteGlobal(const VarDecl* v)
  {
    const VarDecl* def = v->getDefinition();
    if (def)
      v = def;
    if (!inRoot(v->getLocation()) || v->getDeclContext()->isDependentContext())
      return;
    std::string q = qname(v);
    if (seenGlobals.count(q))
      return;
    if (!v->getAnyInitializer())
    {
      return;
    }
    seenGlobals.insert(q);
    json::Object o;
    o["q"] = q;
    o["t"] = ty(v->getType());
    o["file"] = fileOf(v->getLocation());
    o["ln"] = lineOf(v->getLocation());
    o["e"] = expr(v->getAnyInitializer());
    globals.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
  Exporter& X;
  explicit Visitor(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  // do not walk into bodies: the exporter does that itself; but local classes need a visit, so only skip headers
  // outside the root for speed
  bool TraverseDecl(Decl* d)
  {
    if (d && isa<TranslationUnitDecl>(d) == false && d->getDeclContext() && d->getDeclContext()->isTranslationUnit() &&
        !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && !X.inRoot(d->getLocation()))
      return true;
    if (d)
      if (const auto* n = dyn_cast<NamespaceDecl>(d))
        if (!X.inRoot(n->getLocation()))
          return true;
    return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl* f)
  {
    X.function(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r)
  {
    X.record(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e)
  {
    X.enumd(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v)
  {
    if (v->hasGlobalStorage() && !v->isStaticLocal())
      X.noteGlobal(v);
    return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext& C) override
  {
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["funcs"] = std::move(X.funcs);
    o["classes"] = std::move(X.classes);
    o["enums"] = std::move(X.enums);
    o["globals"] = std::move(X.globals);
    o["errors"] = C.getDiagnostics().hasUncompilableErrorOccurred();
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char** argv)
{
  // astx <root> <out.json> <source> <flags...>
  if (argc < 4)
  {
    llvm::errs() << "usage: astx root out source flags...\n";
    return 2;
  }
  g_root = argv[1];
  g_out = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i)
    flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, { src });
  tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18"));
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
