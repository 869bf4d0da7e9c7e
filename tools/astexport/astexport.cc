// Exports the resolved program (functions with bodies, records, enums, variables with static storage)
// of one translation unit as JSON.  Only declarations located below one of the given root directories
// are exported; everything they refer to is resolved to qualified names / USRs / canonical types.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;

static std::string usr(const Decl* d) {
  llvm::SmallString<256> buf;
  if (d && isa<FunctionDecl>(d)) d = d->getCanonicalDecl();  // by-value const parameters differ between declarations
  if (!d || index::generateUSRForDecl(d, buf)) return "";
  return std::string(buf.str());
}

class Exporter {
 public:
  explicit Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pol(c.getLangOpts()) {
    pol.SuppressTagKeyword = true;
    pol.FullyQualifiedName = true;
    pol.PrintCanonicalTypes = true;
    pol.Bool = true;
    pol.SuppressUnwrittenScope = false;
    pol.SuppressDefaultTemplateArgs = false;
    pol.AnonymousTagLocations = false;
  }

  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pol;
  Array types, files, functions, records, enums, globals, redecls;
  std::map<std::string, int> typeIdx, fileIdx;
  std::map<const Decl*, int> declIds;
  std::set<std::string> doneFn, doneRec, doneEnum, doneGlob;
  std::string mainTag;

  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    if (f.empty()) return false;
    llvm::SmallString<256> real;
    std::string s = f.str();
    for (auto& r : g_roots)
      if (s.rfind(r, 0) == 0) return true;
    return false;
  }

  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = declIds.size() + 1;
    declIds[d] = id;
    return id;
  }

  int file(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    std::string f = sm.getFilename(l).str();
    auto it = fileIdx.find(f);
    if (it != fileIdx.end()) return it->second;
    int id = files.size();
    files.push_back(f);
    fileIdx[f] = id;
    return id;
  }
  void loc(Object& o, SourceLocation l) {
    if (l.isInvalid()) return;
    l = sm.getExpansionLoc(l);
    o["l"] = (int64_t)sm.getExpansionLineNumber(l);
    o["f"] = file(l);
  }

  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol);
    return os.str();
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    Object o;
    std::string ref;
    QualType c = q.getCanonicalType();
    if (c->isLValueReferenceType()) ref = "&";
    if (c->isRValueReferenceType()) ref = "&&";
    QualType b = c.getNonReferenceType();
    bool cst = b.isConstQualified();
    QualType u = b.getUnqualifiedType();
    std::string s = u.getAsString(pol);
    std::string u_rec;
    if (auto* rd = u->getAsCXXRecordDecl()) u_rec = usr(rd);
    std::string key = s + "|" + ref + (cst ? "|c|" : "|n|") + u_rec;
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int id = types.size();
    typeIdx[key] = id;
    types.push_back(nullptr);
    o["s"] = s;
    if (!ref.empty()) o["r"] = ref;
    if (cst) o["c"] = true;
    if (auto* rd = u->getAsCXXRecordDecl()) {
      o["rec"] = u_rec;
      o["q"] = qn(rd);
      if (rd->isLambda()) o["lam"] = true;
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) o["ta"] = targs(sp->getTemplateArgs().asArray());
    } else if (auto* et = u->getAs<EnumType>()) {
      o["en"] = qn(et->getDecl());
    } else if (u->isPointerType()) {
      o["p"] = type(u->getPointeeType());
    } else if (u->isBooleanType()) {
      o["b"] = "bool";
    } else if (u->isIntegerType()) {
      o["b"] = u->isUnsignedIntegerType() ? "uint" : "int";
      o["w"] = (int64_t)ctx.getTypeSize(u);
    } else if (u->isFloatingType()) {
      o["b"] = "flt";
    } else if (u->isVoidType()) {
      o["b"] = "void";
    } else if (auto* at = ctx.getAsConstantArrayType(u)) {
      o["arr"] = type(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    }
    types[id] = std::move(o);
    return id;
  }

  Array targs(llvm::ArrayRef<TemplateArgument> as) {
    Array r;
    for (auto& a : as) {
      switch (a.getKind()) {
        case TemplateArgument::Type:
          r.push_back(Object{{"t", type(a.getAsType())}});
          break;
        case TemplateArgument::Integral: {
          llvm::SmallString<32> s;
          a.getAsIntegral().toString(s);
          r.push_back(Object{{"i", std::string(s.str())}});
          break;
        }
        case TemplateArgument::Pack:
          for (auto& x : targs(a.pack_elements())) r.push_back(x);
          break;
        default: {
          std::string s;
          llvm::raw_string_ostream os(s);
          a.print(pol, os, true);
          r.push_back(Object{{"o", os.str()}});
        }
      }
    }
    return r;
  }

  static bool isDependent(const FunctionProtoType* pt) { return pt->getExceptionSpecType() == EST_DependentNoexcept; }
  Object callee(const FunctionDecl* f) {
    Object o;
    o["q"] = qn(f);
    o["u"] = usr(f);
    o["n"] = f->getNameAsString();
    if (auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
    o["ret"] = type(f->getReturnType());
    Array ps;
    for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
    o["ps"] = std::move(ps);
    if (f->isVariadic()) o["va"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qn(m->getParent());
      o["clst"] = type(ctx.getRecordType(m->getParent()));
      if (m->isStatic()) o["st"] = true;
      if (m->isConst()) o["cm"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (m->isOverloadedOperator()) o["op"] = getOperatorSpelling(m->getOverloadedOperator());
      if (m->getParent()->isLambda()) o["lam"] = true;
    } else if (f->isOverloadedOperator()) {
      o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    }
    if (auto* pt = f->getType()->getAs<FunctionProtoType>()) {
      auto es = pt->getExceptionSpecType();
      if (es != EST_Unevaluated && es != EST_Uninstantiated && es != EST_Unparsed && !isDependent(pt)) {
        if (pt->canThrow() == CT_Cannot) o["nt"] = true;
      } else if (isa<CXXDestructorDecl>(f)) o["nt"] = true;
    }
    if (f->isNoReturn()) o["nr"] = true;
    if (inRoots(f->getLocation())) o["in"] = true;
    return o;
  }

  void constVal(Object& o, const Expr* e) {
    if (!e || e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (!t->isArithmeticType() && !t->isEnumeralType()) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, ctx) || r.HasSideEffects) return;
    putVal(o, r.Val);
  }
  void putVal(Object& o, const APValue& v) {
    if (v.isInt()) {
      llvm::SmallString<32> s;
      v.getInt().toString(s);
      o["cv"] = std::string(s.str());
    } else if (v.isFloat()) {
      o["cf"] = fstr(v.getFloat());
    }
  }
  static std::string fstr(llvm::APFloat f) {
    if (f.isNaN()) return "nan";
    if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
    bool li;
    f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
    return buf;
  }

  Value varDecl(const VarDecl* v) {
    Object o;
    o["id"] = declId(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    loc(o, v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTSCSpec() != TSCS_unspecified || v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->isConstexpr()) o["cx"] = true;
    if (v->hasInit()) {
      o["init"] = expr(v->getInit());
      if (v->getInitStyle() == VarDecl::ListInit) o["li"] = true;
      if (v->getType().isConstQualified() && !v->getInit()->isValueDependent()) {
        if (auto* val = v->evaluateValue()) putVal(o, *val);
      }
    }
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto* b : dd->bindings()) {
        Object bo;
        bo["id"] = declId(b);
        bo["n"] = b->getNameAsString();
        if (auto* hv = b->getHoldingVar())
          bo["e"] = hv->hasInit() ? expr(hv->getInit()) : Value(nullptr);
        else if (b->getBinding())
          bo["e"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  Value expr(const Expr* e) {
    if (!e) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto* x = dyn_cast<GenericSelectionExpr>(e)) { e = x->getResultExpr(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
          case CK_FloatingCast:
          case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
          case CK_NullToPointer:
            break;
          default:
            e = x->getSubExpr();
            continue;
        }
      }
      break;
    }
    Object o;
    loc(o, e->getExprLoc());
    o["t"] = type(e->getType());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
      o["k"] = "dinit";
      o["e"] = expr(x->getExpr());
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      if (isa<CXXConstCastExpr>(e)) o["x"] = "const";
      else if (isa<CXXReinterpretCastExpr>(e)) o["x"] = "reinterpret";
      else if (isa<CXXDynamicCastExpr>(e)) o["x"] = "dynamic";
      else if (isa<CStyleCastExpr>(e)) o["x"] = "c";
      else if (isa<ImplicitCastExpr>(e)) o["x"] = "implicit";
      else o["x"] = "static";
      if (!e->isValueDependent() && (e->getType()->isArithmeticType())) constVal(o, e);
      o["e"] = expr(x->getSubExpr());
      o["gl"] = x->isGLValue();
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["k"] = "int"; o["v"] = std::string(s.str());
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "flt"; o["v"] = fstr(x->getValue()); return o; }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      std::string b = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("<wide>");
      o["v"] = llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b);
      return o;
    }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str"; o["pre"] = true;
      o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : std::string("");
      return o;
    }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum"; o["q"] = qn(ec); o["n"] = ec->getNameAsString();
        llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s.str());
        return o;
      }
      o["k"] = "ref"; o["id"] = declId(d); o["n"] = d->getNameAsString();
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["fn"] = callee(f); return o; }
      if (auto* b = dyn_cast<BindingDecl>(d)) { (void)b; o["dk"] = "bind"; return o; }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : "var";
        if (v->hasGlobalStorage()) {
          o["g"] = true; o["q"] = qn(v);
          if (inRoots(v->getLocation())) o["in"] = true;
          if (v->isStaticLocal()) o["sl"] = true;
          if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        }
        if (v->getType().isConstQualified() && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent() &&
            (v->getType()->isArithmeticType() || v->getType()->isEnumeralType()))
          constVal(o, x);
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        return o;
      }
      o["dk"] = "other"; o["q"] = qn(d);
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {  // static data member
        o["k"] = "ref"; o["id"] = declId(v); o["n"] = v->getNameAsString(); o["dk"] = "var"; o["g"] = true; o["q"] = qn(v);
        constVal(o, x);
        return o;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum"; o["q"] = qn(ec); o["n"] = ec->getNameAsString();
        llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s.str());
        return o;
      }
      o["k"] = "mem"; o["n"] = d->getNameAsString(); o["b"] = expr(x->getBase());
      if (x->isArrow()) o["ar"] = true;
      if (auto* f = dyn_cast<CXXMethodDecl>(d)) { o["mk"] = "fn"; o["fn"] = callee(f); }
      else o["q"] = qn(d);
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      auto* cls = x->getLambdaClass();
      o["rec"] = usr(cls);
      o["op"] = usr(x->getCallOperator());
      Array caps;
      auto init = x->capture_init_begin();
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesThis()) { co["by"] = c.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
        else if (c.capturesVariable()) {
          co["by"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          co["id"] = declId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar())) if (v->isInitCapture()) { co["ic"] = true; co["by"] = v->getType()->isReferenceType() ? "ref" : "copy"; co["init"] = expr(v->getInit()); }
        }
        caps.push_back(std::move(co));
        ++init;
      }
      o["caps"] = std::move(caps);
      if (x->isGenericLambda()) {
        o["gen"] = true;
        lamOp = usr(x->getCallOperator());
        std::string op = lamOp;
        if (auto* ft = x->getCallOperator()->getDescribedFunctionTemplate())
          for (auto* sp : ft->specializations()) { lamOp = op; function(sp); }
        lamOp.clear();
      } else function(x->getCallOperator());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call"; o["ck"] = "op"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) o["fn"] = callee(f); else o["fe"] = expr(x->getCallee());
      Array as; for (auto* a : x->arguments()) as.push_back(expr(a));
      o["args"] = std::move(as);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call"; o["ck"] = "mem";
      if (auto* m = x->getMethodDecl()) o["fn"] = callee(m);
      if (auto* ob = x->getImplicitObjectArgument()) {
        o["obj"] = expr(ob);
        if (ob->getType()->isPointerType()) o["ar"] = true;
      }
      if (!x->getMethodDecl()) o["fe"] = expr(x->getCallee());
      Array as; for (auto* a : x->arguments()) as.push_back(expr(a));
      o["args"] = std::move(as);
      return o;
    }
    if (auto* x = dyn_cast<UserDefinedLiteral>(e)) { o["udl"] = true; }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call"; o["ck"] = "fn";
      if (auto* f = x->getDirectCallee()) o["fn"] = callee(f); else o["fe"] = expr(x->getCallee());
      Array as; for (auto* a : x->arguments()) as.push_back(expr(a));
      o["args"] = std::move(as);
      if (!e->isValueDependent() && e->getType()->isArithmeticType()) constVal(o, e);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* c = x->getConstructor();
      o["k"] = "ctor"; o["fn"] = callee(c);
      if (c->isCopyConstructor()) o["cp"] = true;
      if (c->isMoveConstructor()) o["mv"] = true;
      if (c->isDefaultConstructor()) o["df"] = true;
      if (x->isListInitialization()) o["li"] = true;
      if (c->isImplicit() || c->isDefaulted()) o["tr"] = true;
      if (x->requiresZeroInitialization()) o["zi"] = true;
      Array as; for (auto* a : x->arguments()) as.push_back(expr(a));
      o["args"] = std::move(as);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ictor"; o["fn"] = callee(x->getConstructor()); return o; }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "ilist";
      Array es; for (auto* a : x->inits()) es.push_back(expr(a));
      o["e"] = std::move(es);
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
      return o;
    }
    if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "ilist";
      Array es; for (auto* a : x->getInitExprs()) es.push_back(expr(a));
      o["e"] = std::move(es);
      return o;
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "stdil"; o["e"] = expr(x->getSubExpr()); return o; }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return o; }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
      o["gl"] = x->isGLValue();
      return o;
    }
    if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) { (void)x; }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = expr(x->getSubExpr()); return o; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "int"; Object tmp; constVal(tmp, x); o["v"] = tmp.get("cv") ? *tmp.getString("cv") : "0"; o["szof"] = true; return o; }
    if (auto* x = dyn_cast<SizeOfPackExpr>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getPackLength()); return o; }
    if (isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e)) { Object tmp; constVal(tmp, e); o["k"] = "int"; o["v"] = tmp.get("cv") ? *tmp.getString("cv") : "0"; return o; }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["at"] = type(x->getAllocatedType()); if (x->getInitializer()) o["e"] = expr(x->getInitializer()); return o; }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = expr(x->getArgument()); return o; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "arrcopy"; o["e"] = expr(x->getCommonExpr()->getSourceExpr()); return o; }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
    o["k"] = "?"; o["cls"] = e->getStmtClassName();
    Array cs; for (auto* c : e->children()) if (c) cs.push_back(stmt(c));
    o["c"] = std::move(cs);
    return o;
  }

  Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return expr(e);
    Object o;
    loc(o, s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "blk"; Array a; for (auto* c : x->body()) a.push_back(stmt(c)); o["s"] = std::move(a);
      o["el"] = (int64_t)sm.getExpansionLineNumber(x->getRBracLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; Array a;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      }
      o["d"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        if (auto nd = x->getNondiscardedCase(ctx)) {
          o["k"] = "blk"; Array a;
          if (x->getInit()) a.push_back(stmt(x->getInit()));
          if (*nd) a.push_back(stmt(*nd));
          o["s"] = std::move(a);
          return o;
        }
      }
      o["k"] = "if";
      if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for"; if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable());
      if (x->getCond()) o["c"] = expr(x->getCond()); if (x->getInc()) o["n"] = expr(x->getInc());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["i"] = stmt(x->getInit());
      o["r"] = expr(x->getRangeInit()); o["v"] = varDecl(x->getLoopVariable()); o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while"; if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody()); return o; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch"; if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["v"] = varDecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null_s"; return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["s"] = stmt(x->getTryBlock()); Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        Object h; auto* c = x->getHandler(i);
        if (c->getExceptionDecl()) h["v"] = varDecl(c->getExceptionDecl());
        if (!c->getCaughtType().isNull()) h["t"] = type(c->getCaughtType());
        h["s"] = stmt(c->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    o["k"] = "?"; o["cls"] = s->getStmtClassName();
    Array cs; for (auto* c : s->children()) if (c) cs.push_back(stmt(c));
    o["c"] = std::move(cs);
    return o;
  }

  std::string lamOp;   // set while exporting an instantiation of a generic lambda
  void function(const FunctionDecl* f) {
    if (f->isDependentContext() || f->isTemplated()) return;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def)) {
      if (f->isDefaulted() || f->isDeleted() || f->isPureVirtual()) def = f; else return;
    }
    if (!inRoots(def->getLocation())) return;
    std::string u = usr(def);
    // internal-linkage functions of different TUs can share a USR prefix: qualify by main file
    if (!doneFn.insert(u).second) return;
    std::string lamPrimary;
    std::swap(lamPrimary, lamOp);
    Object o = callee(def);
    if (!lamPrimary.empty()) o["lamop"] = lamPrimary;
    loc(o, def->getLocation());
    o["el"] = (int64_t)sm.getExpansionLineNumber(def->getEndLoc());
    o["tu"] = mainTag;
    if (def->isDefaulted()) o["defaulted"] = true;
    if (def->isDeleted()) o["deleted"] = true;
    if (def->isPureVirtual()) o["pure"] = true;
    if (def->isImplicit()) o["implicit"] = true;
    if (def->isConstexpr()) o["cx"] = true;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(def)) { o["kind"] = "ctor"; if (cd->isCopyConstructor()) o["cp"] = true; if (cd->isMoveConstructor()) o["mvc"] = true; if (cd->isExplicit()) o["explicit"] = true; }
    else if (isa<CXXDestructorDecl>(def)) o["kind"] = "dtor";
    else o["kind"] = isa<CXXMethodDecl>(def) ? "method" : "fn";
    if (auto* m = dyn_cast<CXXMethodDecl>(def)) {
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(usr(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
      o["acc"] = (int64_t)m->getAccess();
    }
    Array ps;
    for (auto* p : def->parameters()) {
      Object po{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* cd = dyn_cast<CXXConstructorDecl>(def)) {
      Array is;
      for (auto* i : cd->inits()) {
        Object io;
        if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (def->doesThisDeclarationHaveABody() && def->getBody()) {
      o["body"] = stmt(def->getBody());
    }
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl* r) {
    r = r->getDefinition();
    if (!r || r->isDependentContext() || !inRoots(r->getLocation())) return;
    std::string u = usr(r);
    if (!doneRec.insert(u).second) return;
    Object o;
    o["q"] = qn(r); o["u"] = u; loc(o, r->getLocation());
    o["t"] = type(ctx.getRecordType(r));
    if (r->isLambda()) o["lam"] = true;
    if (r->isAggregate()) o["agg"] = true;
    Array fs;
    for (auto* f : r->fields()) {
      Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"q", qn(f)}};
      loc(fo, f->getLocation());
      if (f->isMutable()) fo["mut"] = true;
      fo["acc"] = (int64_t)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto& b : r->bases()) bs.push_back(type(b.getType()));
    o["bases"] = std::move(bs);
    Array fr;
    for (auto* f : r->friends())
      if (auto* fd = f->getFriendDecl()) fr.push_back(qn(fd));
      else if (auto* ti = f->getFriendType()) fr.push_back(ti->getType().getAsString(pol));
    o["friends"] = std::move(fr);
    Array ms;
    for (auto* m : r->methods()) {
      Object mo = callee(m);
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }

  void enumd(const EnumDecl* e) {
    if (!inRoots(e->getLocation()) || !e->isComplete()) return;
    if (!doneEnum.insert(usr(e)).second) return;
    Object o;
    o["q"] = qn(e); loc(o, e->getLocation());
    Array es;
    for (auto* c : e->enumerators()) {
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      Object eo{{"n", c->getNameAsString()}, {"v", std::string(s.str())}};
      loc(eo, c->getLocation());
      es.push_back(std::move(eo));
    }
    o["e"] = std::move(es);
    enums.push_back(std::move(o));
  }

  void global(const VarDecl* v) {
    if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage() || !inRoots(v->getLocation())) return;
    if (v->isTemplated() || v->getDeclContext()->isDependentContext()) return;
    std::string u = usr(v) + "#" + std::to_string(sm.getExpansionLineNumber(v->getLocation()));
    if (!doneGlob.insert(u).second) return;
    Value val = varDecl(v);
    Object o = std::move(*val.getAsObject());
    o["q"] = qn(v);
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->isStaticLocal()) o["sl"] = true;
    if (auto* fd = dyn_cast_or_null<FunctionDecl>(v->getParentFunctionOrMethod())) o["infn"] = qn(fd);
    o["defn"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    globals.push_back(std::move(o));
  }

  void write() {
    Object root{{"types", std::move(types)}, {"files", std::move(files)}, {"functions", std::move(functions)},
                {"records", std::move(records)}, {"enums", std::move(enums)}, {"globals", std::move(globals)}, {"tu", mainTag}};
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(root));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& x) : ex(x) {}
  Exporter& ex;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) { ex.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { ex.record(r); return true; }
  bool VisitEnumDecl(EnumDecl* e) { ex.enumd(e); return true; }
  bool VisitVarDecl(VarDecl* v) { ex.global(v); return true; }
};

class Consumer : public ASTConsumer {
 public:
  Consumer(std::string f) : file(std::move(f)) {}
  std::string file;
  // namespaces are re-opened everywhere; only descend into declarations located below a root
  static void descend(Exporter& ex, Visitor& v, DeclContext* dc) {
    for (auto* d : dc->decls()) {
      if (auto* n = dyn_cast<NamespaceDecl>(d)) descend(ex, v, n);
      else if (auto* l = dyn_cast<LinkageSpecDecl>(d)) descend(ex, v, l);
      else if (ex.inRoots(d->getLocation())) v.TraverseDecl(d);
    }
  }
  void HandleTranslationUnit(ASTContext& c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Exporter ex(c);
    ex.mainTag = file;
    Visitor v(ex);
    descend(ex, v, c.getTranslationUnitDecl());
    ex.write();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef f) override {
    return std::make_unique<Consumer>(f.str());
  }
};

// astexport OUT.json SOURCE ROOT[,ROOT...] -- compiler flags
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string src = argv[2], roots = argv[3];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    g_roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
