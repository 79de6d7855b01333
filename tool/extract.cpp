// Fact extractor: parses translation units of the code under analysis with
// clang and writes, for every function with a body that lives below the given
// source root, its resolved syntax tree and control flow graph as JSON (one
// JSON object per line).  No rule lives here; the rules are in /verif/rules.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static llvm::raw_ostream *gOut;
static std::set<std::string> gSeen;
static int gErrors = 0;

static std::string fixUtf8(StringRef s) { return json::fixUTF8(s); }

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  std::string tstr(QualType q) {
    if (q.isNull()) return "";
    return q.getCanonicalType().getAsString(PP);
  }

  std::string usr(const Decl *d) {
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return std::string(buf);
  }

  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!fe) return "";
    StringRef rp = fe->getFileEntry().tryGetRealPathName();
    return rp.empty() ? std::string(fe->getName()) : std::string(rp);
  }
  int lineOf(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }

  // Qualified name without template arguments.
  std::string qname(const NamedDecl *d) {
    std::string r;
    llvm::raw_string_ostream os(r);
    std::vector<std::string> parts;
    if (d->getDeclName().isIdentifier() && d->getDeclName().isEmpty()) parts.push_back("(anonymous)");
    else parts.push_back(d->getNameAsString());
    const DeclContext *dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
      } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
        parts.push_back(rd->getNameAsString());
      } else if (auto *ed = dyn_cast<EnumDecl>(dc)) {
        if (!ed->getNameAsString().empty()) parts.push_back(ed->getNameAsString());
      } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(fd->getNameAsString());
      }
      dc = dc->getParent();
    }
    for (size_t i = parts.size(); i-- > 0;) { os << parts[i]; if (i) os << "::"; }
    return fixUtf8(os.str());
  }

  std::string targs(const FunctionDecl *f) {
    std::string r;
    llvm::raw_string_ostream os(r);
    if (auto *a = f->getTemplateSpecializationArgs()) {
      bool first = true;
      for (auto &x : a->asArray()) { if (!first) os << ", "; first = false; x.print(PP, os, true); }
    }
    return os.str();
  }
  std::string classT(const CXXRecordDecl *r) {
    return fixUtf8(C.getTypeDeclType(r).getCanonicalType().getAsString(PP));
  }

  bool inRoot(SourceLocation l) {
    std::string f = fileOf(l);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }

  // ---------------------------------------------------------------- nodes --
  struct Fn {
    json::Array nodes;
    std::map<const Stmt *, int> ids;
    std::map<const ValueDecl *, int> locals;
    std::vector<std::pair<const CXXMethodDecl *, std::string>> lambdas;
    std::string key;
  };

  std::string localName(Fn &F, const ValueDecl *v) {
    auto it = F.locals.find(v);
    int id;
    if (it == F.locals.end()) { id = (int)F.locals.size(); F.locals[v] = id; } else id = it->second;
    return v->getNameAsString() + "#" + std::to_string(id);
  }

  const Stmt *strip(const Stmt *s) {
    while (s) {
      if (auto *e = dyn_cast<ExprWithCleanups>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<ConstantExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
      if (auto *e = dyn_cast<ImplicitCastExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) { s = e->getExpr(); continue; }
      if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); continue; }
      if (auto *e = dyn_cast<FullExpr>(s)) { s = e->getSubExpr(); continue; }
      break;
    }
    return s;
  }

  void declAttrs(Fn &F, json::Object &o, const ValueDecl *d) {
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
        o["d"] = localName(F, v);
        o["dk"] = isa<ParmVarDecl>(v) ? "param" : "local";
        return;
      }
      o["d"] = qname(v);
      o["dk"] = "global";
      return;
    }
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      o["d"] = qname(f); o["dk"] = "func"; o["u"] = usr(f);
      return;
    }
    if (isa<EnumConstantDecl>(d)) {
      o["d"] = qname(d); o["dk"] = "enum";
      llvm::SmallString<16> s; cast<EnumConstantDecl>(d)->getInitVal().toString(s);
      o["v"] = std::string(s);
      return;
    }
    if (isa<FieldDecl>(d)) { o["d"] = qname(d); o["dk"] = "field"; return; }
    if (isa<BindingDecl>(d)) { o["d"] = localName(F, d); o["dk"] = "local"; return; }
    o["d"] = qname(d); o["dk"] = "other";
  }

  // Indices of the arguments bound to parameters of non-const reference type.
  template <class FD> void refParams(json::Object &o, const FD *fd, unsigned skip) {
    json::Array a;
    unsigned i = 0;
    for (auto *p : fd->parameters()) {
      QualType t = p->getType();
      if (t->isLValueReferenceType() && !t->getPointeeType().isConstQualified()) a.push_back((int)(i + skip));
      i++;
    }
    if (!a.empty()) o["rp"] = std::move(a);
  }

  int node(Fn &F, const Stmt *s0) {
    if (!s0) return -1;
    const Stmt *s = strip(s0);
    if (!s) return -1;
    auto it = F.ids.find(s);
    if (it != F.ids.end()) { F.ids[s0] = it->second; return it->second; }
    int id = (int)F.nodes.size();
    F.ids[s] = id; F.ids[s0] = id;
    // alias all intermediate wrappers
    for (const Stmt *w = s0; w && w != s;) {
      F.ids[w] = id;
      const Stmt *n = nullptr;
      for (const Stmt *c : w->children()) { n = c; break; }
      if (!n) break;
      w = n;
    }
    F.nodes.push_back(nullptr);
    json::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = lineOf(s->getBeginLoc());
    std::vector<int> ch;
    bool autoChildren = true;
    if (auto *e = dyn_cast<Expr>(s)) {
      o["t"] = tstr(e->getType());
    }
    if (auto *e = dyn_cast<DeclRefExpr>(s)) {
      declAttrs(F, o, e->getDecl());
      if (e->hasExplicitTemplateArgs() || isa<FunctionDecl>(e->getDecl()))
        if (auto *fd = dyn_cast<FunctionDecl>(e->getDecl())) { auto t = targs(fd); if (!t.empty()) o["ta"] = t; }
    } else if (auto *e = dyn_cast<MemberExpr>(s)) {
      declAttrs(F, o, e->getMemberDecl());
      o["n"] = e->getMemberDecl()->getNameAsString();
      if (e->isArrow()) o["arrow"] = true;
      if (auto *fd = dyn_cast<FunctionDecl>(e->getMemberDecl())) { auto t = targs(fd); if (!t.empty()) o["ta"] = t; }
    } else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "Construct";
      o["fn"] = qname(e->getConstructor());
      o["u"] = usr(e->getConstructor());
      o["cls"] = qname(e->getConstructor()->getParent());
      if (e->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      o["np"] = (int)e->getConstructor()->getNumParams();
      refParams(o, e->getConstructor(), 0);
    } else if (auto *e = dyn_cast<CallExpr>(s)) {
      autoChildren = false;
      const FunctionDecl *fd = e->getDirectCallee();
      if (fd) {
        o["fn"] = qname(fd);
        o["u"] = usr(fd);
        o["n"] = fd->getNameAsString();
        auto t = targs(fd);
        if (!t.empty()) o["ta"] = t;
        if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
          o["cls"] = qname(m->getParent());
          o["clsT"] = classT(m->getParent());
          if (m->isVirtual()) o["virt"] = true;
          if (m->isStatic()) o["static"] = true;
        }
        if (fd->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
        // Child 0 of member and member-operator calls is the object.
        bool objFirst = isa<CXXMemberCallExpr>(s) ||
                        (isa<CXXOperatorCallExpr>(s) && isa<CXXMethodDecl>(fd));
        refParams(o, fd, objFirst ? 1 : 0);
      }
      if (auto *oc = dyn_cast<CXXOperatorCallExpr>(s)) {
        o["k"] = "OpCall";
        o["op"] = getOperatorSpelling(oc->getOperator());
        for (auto *a : oc->arguments()) ch.push_back(node(F, a));
      } else if (auto *mc = dyn_cast<CXXMemberCallExpr>(s)) {
        o["k"] = "MCall";
        const Expr *callee = mc->getCallee()->IgnoreParens();
        if (auto *me = dyn_cast<MemberExpr>(callee)) {
          ch.push_back(node(F, me->getBase()));
          if (me->hasQualifier()) o["qualified"] = true;
        } else ch.push_back(node(F, callee));
        for (auto *a : mc->arguments()) ch.push_back(node(F, a));
      } else {
        o["k"] = fd ? "Call" : "ICall";
        if (!fd) ch.push_back(node(F, e->getCallee()));
        for (auto *a : e->arguments()) ch.push_back(node(F, a));
      }
    } else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
      o["ty"] = tstr(e->getAllocatedType());
      if (e->isArray()) o["arr"] = true;
    } else if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
      if (e->isArrayForm()) o["arr"] = true;
    } else if (auto *e = dyn_cast<BinaryOperator>(s)) {
      o["op"] = e->getOpcodeStr().str();
      o["k"] = isa<CompoundAssignOperator>(s) ? "CompoundAssign" : "BinaryOperator";
    } else if (auto *e = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) o["post"] = true;
    } else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
      llvm::SmallString<16> b; e->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
      o["v"] = std::string(b);
    } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["v"] = e->getValue() ? "true" : "false";
    } else if (auto *e = dyn_cast<CharacterLiteral>(s)) {
      o["v"] = std::to_string(e->getValue());
    } else if (auto *e = dyn_cast<FloatingLiteral>(s)) {
      o["v"] = std::to_string(e->getValueAsApproximateDouble());
    } else if (auto *e = dyn_cast<StringLiteral>(s)) {
      o["v"] = e->getCharByteWidth() == 1 ? fixUtf8(e->getString()) : fixUtf8(e->getBytes());
    } else if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
      o["ck"] = e->getCastKindName();
      o["k"] = "Cast";
      o["kw"] = s->getStmtClassName();
    } else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      if (e->isArgumentType()) o["at"] = tstr(e->getArgumentType());
      else o["at"] = tstr(e->getArgumentExpr()->getType());
      o["ue"] = (int)e->getKind();
      Expr::EvalResult R;
      if (!e->isValueDependent() && e->EvaluateAsInt(R, C)) { llvm::SmallString<16> b; R.Val.getInt().toString(b); o["v"] = std::string(b); }
      autoChildren = false;
    } else if (auto *e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
      o["n"] = e->getMember().getAsString();
      if (!e->isImplicitAccess()) ch.push_back(node(F, e->getBase()));
      autoChildren = false;
    } else if (auto *e = dyn_cast<UnresolvedMemberExpr>(s)) {
      o["n"] = e->getMemberName().getAsString();
      if (!e->isImplicitAccess()) ch.push_back(node(F, e->getBase()));
      autoChildren = false;
    } else if (auto *e = dyn_cast<OverloadExpr>(s)) {
      o["n"] = e->getName().getAsString();
    } else if (auto *e = dyn_cast<DependentScopeDeclRefExpr>(s)) {
      o["n"] = e->getDeclName().getAsString();
    } else if (auto *e = dyn_cast<LambdaExpr>(s)) {
      std::string lk = F.key + "$lambda" + std::to_string(id);
      o["lam"] = lk;
      F.lambdas.push_back({e->getCallOperator(), lk});
      json::Array caps;
      for (auto &cp : e->captures()) {
        if (cp.capturesVariable()) caps.push_back(localName(F, cast<VarDecl>(cp.getCapturedVar())) + (cp.getCaptureKind() == LCK_ByRef ? "&" : ""));
        else if (cp.capturesThis()) caps.push_back("this");
      }
      o["caps"] = std::move(caps);
      autoChildren = false;
    } else if (auto *d = dyn_cast<DeclStmt>(s)) {
      autoChildren = false;
      json::Array vars;
      for (auto *dd : d->decls()) {
        if (auto *v = dyn_cast<VarDecl>(dd)) {
          json::Object vo;
          vo["d"] = v->isStaticLocal() ? qname(v) : localName(F, v);
          vo["t"] = tstr(v->getType());
          if (v->isStaticLocal()) vo["static"] = true;
          int in = v->hasInit() ? node(F, v->getInit()) : -1;
          vo["i"] = in;
          if (in >= 0) ch.push_back(in);
          vars.push_back(std::move(vo));
          if (auto *dcd = dyn_cast<DecompositionDecl>(v)) for (auto *b : dcd->bindings()) localName(F, b);
        }
      }
      o["vars"] = std::move(vars);
    } else if (auto *i = dyn_cast<IfStmt>(s)) {
      autoChildren = false;
      if (i->getInit()) o["init"] = node(F, i->getInit());
      if (i->getConditionVariableDeclStmt()) o["cv"] = node(F, i->getConditionVariableDeclStmt());
      o["cond"] = node(F, i->getCond());
      o["then"] = node(F, i->getThen());
      o["else"] = node(F, i->getElse());
      for (auto k : {"init", "cv", "cond", "then", "else"}) if (auto v = o.getInteger(k)) if (*v >= 0) ch.push_back((int)*v);
    } else if (auto *i = dyn_cast<ForStmt>(s)) {
      autoChildren = false;
      o["init"] = node(F, i->getInit()); o["cond"] = node(F, i->getCond());
      o["inc"] = node(F, i->getInc()); o["body"] = node(F, i->getBody());
      for (auto k : {"init", "cond", "inc", "body"}) if (auto v = o.getInteger(k)) if (*v >= 0) ch.push_back((int)*v);
    } else if (auto *i = dyn_cast<CXXForRangeStmt>(s)) {
      autoChildren = false;
      o["range"] = node(F, i->getRangeInit()); o["var"] = node(F, i->getLoopVarStmt()); o["body"] = node(F, i->getBody());
      for (auto k : {"range", "var", "body"}) if (auto v = o.getInteger(k)) if (*v >= 0) ch.push_back((int)*v);
    } else if (auto *i = dyn_cast<WhileStmt>(s)) {
      autoChildren = false;
      if (i->getConditionVariableDeclStmt()) o["cv"] = node(F, i->getConditionVariableDeclStmt());
      o["cond"] = node(F, i->getCond()); o["body"] = node(F, i->getBody());
      for (auto k : {"cv", "cond", "body"}) if (auto v = o.getInteger(k)) if (*v >= 0) ch.push_back((int)*v);
    } else if (auto *c = dyn_cast<CaseStmt>(s)) {
      o["case"] = node(F, c->getLHS());
    } else if (auto *t = dyn_cast<CXXCatchStmt>(s)) {
      if (t->getExceptionDecl()) { o["ct"] = tstr(t->getCaughtType()); o["d"] = localName(F, t->getExceptionDecl()); }
    } else if (auto *p = dyn_cast<PseudoObjectExpr>(s)) {
      (void)p;
    }
    if (autoChildren) {
      if (auto *il = dyn_cast<InitListExpr>(s)) {
        if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
        for (auto *c : il->inits()) ch.push_back(node(F, c));
      } else
        for (const Stmt *c : s->children()) if (c) ch.push_back(node(F, c));
    }
    json::Array ca;
    for (int c : ch) ca.push_back(c);
    o["c"] = std::move(ca);
    F.nodes[id] = std::move(o);
    return id;
  }

  json::Object cfgOf(Fn &F, const FunctionDecl *fd, Stmt *body) {
    json::Object r;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = false;
    BO.AddInitializers = false;
    BO.PruneTriviallyFalseEdges = false;
    auto cfg = CFG::buildCFG(fd, body, &C, BO);
    if (!cfg) { r["fail"] = true; return r; }
    json::Array blocks;
    for (CFGBlock *b : *cfg) {
      json::Object bo;
      bo["id"] = (int)b->getBlockID();
      json::Array el;
      int prev = -2;
      for (auto &e : *b) {
        if (auto cs = e.getAs<CFGStmt>()) {
          int n = node(F, cs->getStmt());
          if (n != prev && n >= 0) el.push_back(n);
          prev = n;
        }
      }
      bo["e"] = std::move(el);
      if (const Stmt *t = b->getTerminatorStmt()) {
        bo["tk"] = t->getStmtClassName();
        bo["tn"] = node(F, t);
        if (auto *c = b->getTerminatorCondition()) bo["tc"] = node(F, c);
        if (auto *bin = dyn_cast<BinaryOperator>(t)) bo["top"] = bin->getOpcodeStr().str();
      }
      if (const Stmt *l = b->getLabel()) {
        bo["lk"] = l->getStmtClassName();
        bo["ln"] = node(F, l);
        if (auto *cs = dyn_cast<CaseStmt>(l)) bo["lc"] = node(F, cs->getLHS());
      }
      if (b->hasNoReturnElement()) bo["noret"] = true;
      json::Array su;
      for (auto &s : b->succs()) {
        const CFGBlock *x = s.getReachableBlock();
        if (!x) x = s.getPossiblyUnreachableBlock();
        su.push_back(x ? (int)x->getBlockID() : -1);
      }
      bo["s"] = std::move(su);
      blocks.push_back(std::move(bo));
    }
    r["entry"] = (int)cfg->getEntry().getBlockID();
    r["exit"] = (int)cfg->getExit().getBlockID();
    r["blocks"] = std::move(blocks);
    return r;
  }

  void dumpFunction(const FunctionDecl *fd, std::string keyOverride = "", std::string parent = "",
                    std::map<const ValueDecl *, int> *inheritLocals = nullptr) {
    if (!fd->doesThisDeclarationHaveABody() || !fd->getBody()) return;
    std::string u = keyOverride.empty() ? usr(fd) : keyOverride;
    if (u.empty()) u = qname(fd) + "@" + std::to_string(lineOf(fd->getLocation()));
    // One instantiation per template pattern is kept (besides the pattern itself).
    if (parent.empty())
      if (auto *pat = fd->getTemplateInstantiationPattern())
        if (!gSeen.insert("I" + usr(pat)).second) return;
    if (!gSeen.insert(u + (parent.empty() ? "" : "@" + parent)).second) return;
    Fn F;
    F.key = u;
    if (inheritLocals) F.locals = *inheritLocals;
    json::Object o;
    o["rec"] = "fn";
    o["u"] = u;
    o["q"] = parent.empty() ? qname(fd) : parent + "::lambda";
    o["n"] = fd->getNameAsString();
    if (!parent.empty()) o["parent"] = parent;
    o["f"] = fileOf(fd->getLocation());
    o["l"] = lineOf(fd->getLocation());
    o["le"] = lineOf(fd->getEndLoc());
    o["ret"] = tstr(fd->getReturnType());
    json::Array ps;
    for (auto *p : fd->parameters()) {
      json::Object po; po["d"] = localName(F, p); po["t"] = tstr(p->getType());
      if (p->hasDefaultArg()) po["def"] = true;
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = qname(m->getParent());
      o["clsT"] = classT(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
      o["acc"] = (int)m->getAccess();
      json::Array ov;
      for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
      o["ov"] = std::move(ov);
      if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
    }
    if (fd->isDependentContext()) o["dep"] = true;
    if (fd->getTemplateInstantiationPattern()) {
      o["inst"] = true;
      o["pat"] = usr(fd->getTemplateInstantiationPattern());
    }
    auto ta = targs(fd);
    if (!ta.empty()) o["ta"] = ta;
    if (auto *c = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array inits;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) io["m"] = qname(i->getMember());
        else if (i->isBaseInitializer()) io["b"] = tstr(QualType(i->getBaseClass(), 0));
        io["w"] = i->isWritten();
        if (i->getInit()) io["i"] = node(F, i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = node(F, fd->getBody());
    o["cfg"] = cfgOf(F, fd, fd->getBody());
    auto lams = F.lambdas;
    auto locals = F.locals;
    o["nodes"] = std::move(F.nodes);
    *gOut << json::Value(std::move(o)) << "\n";
    for (auto &l : lams) dumpFunction(l.first, l.second, u, &locals);
  }

  void dumpRecord(const CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition()) return;
    std::string u = usr(rd);
    if (!gSeen.insert("R" + u).second) return;
    if (auto *pat = rd->getTemplateInstantiationPattern())
      if (!gSeen.insert("RI" + usr(pat)).second) return;
    json::Object o;
    o["rec"] = "class";
    o["u"] = u;
    o["q"] = qname(rd);
    o["T"] = classT(rd);
    o["f"] = fileOf(rd->getLocation());
    o["l"] = lineOf(rd->getLocation());
    if (rd->isDependentContext()) o["dep"] = true;
    json::Array bases;
    for (auto &b : rd->bases()) {
      json::Object bo; bo["t"] = tstr(b.getType());
      if (auto *br = b.getType()->getAsCXXRecordDecl()) bo["q"] = qname(br);
      if (b.isVirtual()) bo["virt"] = true;
      bases.push_back(std::move(bo));
    }
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto *d : rd->decls()) {
      if (auto *f = dyn_cast<FieldDecl>(d)) {
        json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = tstr(f->getType());
        fo["st"] = f->getType().getAsString(PP);
        fo["l"] = lineOf(f->getLocation());
        if (f->getInClassInitializer()) {
          Fn F; F.key = u + "$" + f->getNameAsString();
          int r = node(F, f->getInClassInitializer());
          fo["init"] = r; fo["nodes"] = std::move(F.nodes);
        }
        fields.push_back(std::move(fo));
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        json::Object fo; fo["n"] = v->getNameAsString(); fo["t"] = tstr(v->getType()); fo["static"] = true;
        fields.push_back(std::move(fo));
      }
    }
    o["fields"] = std::move(fields);
    json::Array ms;
    for (auto *m : rd->methods()) {
      json::Object mo; mo["n"] = m->getNameAsString(); mo["u"] = usr(m); mo["ret"] = tstr(m->getReturnType());
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isStatic()) mo["static"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      mo["acc"] = (int)m->getAccess();
      json::Array ps; for (auto *p : m->parameters()) ps.push_back(tstr(p->getType()));
      mo["p"] = std::move(ps);
      json::Array ov; for (auto *x : m->overridden_methods()) ov.push_back(usr(x));
      mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (!rd->isDependentContext() && rd->isCompleteDefinition() && !rd->isInvalidDecl()) {
      auto &L = C.getASTRecordLayout(rd);
      o["size"] = (int64_t)L.getSize().getQuantity();
      json::Array offs;
      unsigned i = 0;
      for (auto *f : rd->fields()) { (void)f; offs.push_back((int64_t)(L.getFieldOffset(i++) / 8)); }
      o["offs"] = std::move(offs);
    }
    *gOut << json::Value(std::move(o)) << "\n";
  }

  void dumpEnum(const EnumDecl *ed) {
    if (!ed->isThisDeclarationADefinition()) return;
    std::string u = usr(ed);
    if (!gSeen.insert("E" + u).second) return;
    json::Object o; o["rec"] = "enum"; o["q"] = qname(ed); o["f"] = fileOf(ed->getLocation()); o["l"] = lineOf(ed->getLocation());
    json::Array cs;
    for (auto *c : ed->enumerators()) {
      llvm::SmallString<16> s; c->getInitVal().toString(s);
      json::Object co; co["n"] = c->getNameAsString(); co["v"] = std::string(s); cs.push_back(std::move(co));
    }
    o["consts"] = std::move(cs);
    *gOut << json::Value(std::move(o)) << "\n";
  }

  void dumpVar(const VarDecl *v) {
    if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return;
    if (!v->isThisDeclarationADefinition()) return;
    std::string u = usr(v);
    if (!gSeen.insert("V" + u).second) return;
    json::Object o; o["rec"] = "var"; o["q"] = qname(v); o["t"] = tstr(v->getType()); o["f"] = fileOf(v->getLocation()); o["l"] = lineOf(v->getLocation());
    Fn F; F.key = u;
    if (v->hasInit()) { o["init"] = node(F, v->getInit()); }
    o["nodes"] = std::move(F.nodes);
    *gOut << json::Value(std::move(o)) << "\n";
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->doesThisDeclarationHaveABody() && !f->isDefaulted() && D.inRoot(f->getLocation())) D.dumpFunction(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isLambda() && D.inRoot(r->getLocation())) D.dumpRecord(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) { if (D.inRoot(e->getLocation())) D.dumpEnum(e); return true; }
  bool VisitVarDecl(VarDecl *v) { if (D.inRoot(v->getLocation())) D.dumpVar(v); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { gErrors++; }
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Cons>();
  }
};

// usage: extract ROOT OUT FILE -- flags...
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 3; }
  gRoot = argv[1];
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[2], ec);
  if (ec) { llvm::errs() << "cannot write " << argv[2] << "\n"; return 3; }
  gOut = &out;
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {argv[3]});
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  out.flush();
  return (rc || gErrors) ? 4 : 0;
}
