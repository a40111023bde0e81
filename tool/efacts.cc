// efacts: dump, for one translation unit, the resolved program (functions with control-flow
// graphs over a flat expression IR, class layouts, variables with static storage, enums) as JSON lines.
//
//   efacts OUT ROOT OWNLIST FILE -- <clang args>
//
// ROOT: only declarations located below ROOT are dumped.
// OWNLIST: file with one absolute header path per line: headers whose non-template code this TU owns
//          (template instantiations are dumped from every TU; the loader removes duplicates by USR).
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string ROOT;
static std::unordered_set<std::string> OWN;
static std::unique_ptr<llvm::raw_fd_ostream> OUT;

namespace {

std::string usr(const Decl* d) {
    if (!d) {
        return "";
    }
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) {
        return "";
    }
    return std::string(b);
}

// USRs of local variables and of members of local classes may be empty or ambiguous; make them unique by position
std::string idOf(const Decl* d, const SourceManager& sm) {
    std::string u = usr(d);
    if (u.empty()) {
        auto l = sm.getExpansionLoc(d->getLocation());
        u      = "p:" + sm.getFilename(l).str() + ":" + std::to_string(sm.getFileOffset(l));
        if (auto* nd = dyn_cast<NamedDecl>(d)) {
            u += ":" + nd->getNameAsString();
        }
    }
    return u;
}

// 0: may throw, 1: does not throw, 2: not known (specification not evaluated)
int nothrowOf(const FunctionDecl* f) {
    auto* pt = f->getType()->getAs<FunctionProtoType>();
    if (!pt) {
        return 2;
    }
    if (isUnresolvedExceptionSpec(pt->getExceptionSpecType())) {
        return isa<CXXDestructorDecl>(f) ? 1 : 2;
    }
    if (pt->getExceptionSpecType() == EST_DependentNoexcept) {
        return 2;
    }
    return pt->canThrow() == CT_Cannot ? 1 : 0;
}

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unordered_set<std::string> seenFn, seenRec, seenVar, seenEnum;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword    = true;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName    = true;
        PP.PrintCanonicalTypes   = true;
        PP.Bool                  = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    std::string fileOf(SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        auto f = SM.getFilename(e).str();
        if (f.empty()) {
            return f;
        }
        llvm::SmallString<256> p(f);
        if (auto fe = SM.getFileEntryForID(SM.getFileID(e))) {
            auto rp = fe->tryGetRealPathName();
            if (!rp.empty()) {
                return rp.str();
            }
        }
        return f;
    }
    unsigned lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }

    bool inRoot(const std::string& f) { return f.compare(0, ROOT.size(), ROOT) == 0; }

    // should this declaration be dumped from this TU?
    // an explicit instantiation of a class is located where it is written; we want the class itself
    SourceLocation locOf(const Decl* d) {
        if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
            if (auto* p = r->getTemplateInstantiationPattern()) {
                return p->getLocation();
            }
        }
        return d->getLocation();
    }

    bool wanted(const Decl* d, bool isTemplateInst) {
        auto l = locOf(d);
        if (l.isInvalid()) {
            return false;
        }
        auto f = fileOf(l);
        if (!inRoot(f)) {
            return false;
        }
        if (SM.isInMainFile(SM.getExpansionLoc(l))) {
            return true;
        }
        if (isTemplateInst) {
            return true;
        }
        return OWN.count(f) > 0;
    }

    std::string ty(QualType t) {
        if (t.isNull()) {
            return "?";
        }
        return t.getCanonicalType().getAsString(PP);
    }

    std::string qn(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(PP);
        // no template arguments on enclosing scopes: print scope chain by hand
        std::vector<std::string> parts;
        const Decl* x = d;
        while (x) {
            if (auto* nd = dyn_cast<NamedDecl>(x)) {
                if (auto* ns = dyn_cast<NamespaceDecl>(nd)) {
                    if (ns->isAnonymousNamespace()) {
                        parts.push_back("(anon)");
                    }
                    else if (!ns->isInline()) {
                        parts.push_back(ns->getNameAsString());
                    }
                }
                else if (auto* cd = dyn_cast<CXXConstructorDecl>(nd)) {
                    parts.push_back(cd->getParent()->getNameAsString());
                }
                else if (auto* dd = dyn_cast<CXXDestructorDecl>(nd)) {
                    parts.push_back("~" + dd->getParent()->getNameAsString());
                }
                else if (auto* cv = dyn_cast<CXXConversionDecl>(nd)) {
                    parts.push_back("operator " + ty(cv->getConversionType()));
                }
                else if (auto* rd = dyn_cast<RecordDecl>(nd)) {
                    if (auto* cr = dyn_cast<CXXRecordDecl>(rd); cr && cr->isLambda()) {
                        parts.push_back("(lambda)");
                    }
                    else if (rd->getName().empty()) {
                        parts.push_back("(anon)");
                    }
                    else {
                        parts.push_back(rd->getNameAsString());
                    }
                }
                else {
                    parts.push_back(nd->getNameAsString());
                }
            }
            auto* dc = x->getDeclContext();
            if (!dc || dc->isTranslationUnit()) {
                break;
            }
            x = Decl::castFromDeclContext(dc);
            if (isa<LinkageSpecDecl>(x) || isa<ExportDecl>(x)) {
                auto* dc2 = x->getDeclContext();
                while (dc2 && !dc2->isTranslationUnit() && isa<LinkageSpecDecl>(Decl::castFromDeclContext(dc2))) {
                    dc2 = Decl::castFromDeclContext(dc2)->getDeclContext();
                }
                if (!dc2 || dc2->isTranslationUnit()) {
                    break;
                }
                x = Decl::castFromDeclContext(dc2);
            }
        }
        std::string r;
        for (auto i = parts.rbegin(); i != parts.rend(); ++i) {
            if (!r.empty()) {
                r += "::";
            }
            r += *i;
        }
        return r;
    }

    static bool isInst(const FunctionDecl* f) {
        if (f->isTemplateInstantiation()) {
            return true;
        }
        const DeclContext* dc = f->getDeclContext();
        while (dc) {
            if (auto* r = dyn_cast<CXXRecordDecl>(dc)) {
                if (isa<ClassTemplateSpecializationDecl>(r) || r->getTemplateInstantiationPattern()) {
                    return true;
                }
            }
            if (auto* ff = dyn_cast<FunctionDecl>(dc)) {
                if (ff->isTemplateInstantiation()) {
                    return true;
                }
            }
            dc = dc->getParent();
        }
        return false;
    }
    static bool isInstRec(const CXXRecordDecl* r) {
        const DeclContext* dc = r;
        while (dc) {
            if (auto* rr = dyn_cast<CXXRecordDecl>(dc)) {
                if (isa<ClassTemplateSpecializationDecl>(rr) || rr->getTemplateInstantiationPattern()) {
                    return true;
                }
            }
            if (auto* ff = dyn_cast<FunctionDecl>(dc)) {
                if (ff->isTemplateInstantiation()) {
                    return true;
                }
            }
            dc = dc->getParent();
        }
        return false;
    }

    // ---------------------------------------------------------------- function bodies

    struct Fn {
        json::Array nodes;
        std::unordered_map<const Stmt*, int> id;
        std::unordered_map<const Stmt*, int> tryOf;   // innermost try whose *try block* contains the stmt
        std::unordered_map<const Stmt*, int> catchOf; // innermost handler containing the stmt
        std::vector<int> tryParent;
    };
    Fn* F = nullptr;

    int add(json::Object o) {
        F->nodes.push_back(std::move(o));
        return int(F->nodes.size()) - 1;
    }

    static std::string varKind(const VarDecl* v) {
        if (isa<ParmVarDecl>(v)) {
            return "param";
        }
        if (v->isStaticLocal()) {
            return "slocal";
        }
        if (v->isLocalVarDecl()) {
            return "local";
        }
        if (v->isStaticDataMember()) {
            return "smember";
        }
        return "global";
    }

    void baseAttrs(json::Object& o, const Stmt* s) {
        o["l"] = lineOf(s->getBeginLoc());
        auto i = F->tryOf.find(s);
        if (i != F->tryOf.end() && i->second >= 0) {
            o["x"] = i->second;
        }
        auto c = F->catchOf.find(s);
        if (c != F->catchOf.end() && c->second >= 0) {
            o["h"] = c->second;
        }
    }

    void constAttr(json::Object& o, const Expr* e) {
        if (e->isValueDependent() || e->isTypeDependent()) {
            return;
        }
        if (!e->getType()->isIntegralOrEnumerationType()) {
            return;
        }
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
            o["c"] = llvm::toString(r.Val.getInt(), 10);
        }
    }

    std::string funcQ(const FunctionDecl* f) { return qn(f); }

    void calleeAttrs(json::Object& o, const FunctionDecl* f) {
        o["f"] = idOf(f->getCanonicalDecl(), SM);
        o["q"] = qn(f);
        if (nothrowOf(f) == 1) {
            o["ne"] = 1;
        }
        if (f->isNoReturn() || f->hasAttr<NoReturnAttr>()) {
            o["nr"] = 1;
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isConst()) {
                o["mc"] = 1;
            }
            if (m->isStatic()) {
                o["ms"] = 1;
            }
            o["cls"] = ty(C.getRecordType(m->getParent()));
        }
        // which parameters are taken by non-const reference / pointer
        json::Array pm;
        for (auto* p : f->parameters()) {
            auto t = p->getType();
            std::string k = "v";
            if (t->isReferenceType()) {
                k = t->getPointeeType().isConstQualified() ? "cr" : (t->isRValueReferenceType() ? "rr" : "r");
            }
            else if (t->isPointerType()) {
                k = t->getPointeeType().isConstQualified() ? "cp" : "p";
            }
            pm.push_back(k);
        }
        o["pm"] = std::move(pm);
    }

    json::Array emitArgs(llvm::iterator_range<const Expr* const*> r) {
        json::Array a;
        for (auto* e : r) {
            a.push_back(node(e));
        }
        return a;
    }

    int lambdaFn(const LambdaExpr* le, json::Object& o) {
        o["f"] = idOf(le->getCallOperator(), SM);
        json::Array caps;
        auto ci = le->capture_init_begin();
        for (auto& c : le->captures()) {
            json::Object co;
            if (c.capturesThis()) {
                co["this"] = 1;
            }
            else if (c.capturesVariable()) {
                co["v"]  = idOf(c.getCapturedVar(), SM);
                co["n"]  = c.getCapturedVar()->getNameAsString();
                co["br"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
            }
            if (*ci) {
                co["i"] = node(*ci);
            }
            caps.push_back(std::move(co));
            ++ci;
        }
        o["caps"] = std::move(caps);
        return 0;
    }

    const Stmt* strip(const Stmt* s) {
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(s)) {
                s = p->getSubExpr();
            }
            else if (auto* e = dyn_cast<FullExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto* m = dyn_cast<MaterializeTemporaryExpr>(s)) {
                s = m->getSubExpr();
            }
            else if (auto* b = dyn_cast<CXXBindTemporaryExpr>(s)) {
                s = b->getSubExpr();
            }
            else if (auto* st = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
                s = st->getReplacement();
            }
            else {
                return s;
            }
        }
    }

    int node(const Stmt* s0) {
        int r = node0(s0);
        // a temporary that is referred to: when it ends
        for (const Stmt* x = s0; x && r >= 0;) {
            if (auto* m = dyn_cast<MaterializeTemporaryExpr>(x)) {
                if (auto* o = F->nodes[r].getAsObject()) {
                    auto d     = m->getStorageDuration();
                    (*o)["mt"] = d == SD_FullExpression ? "full" : d == SD_Automatic ? "auto" : "static";
                }
                break;
            }
            else if (auto* p = dyn_cast<ParenExpr>(x)) {
                x = p->getSubExpr();
            }
            else if (auto* e = dyn_cast<FullExpr>(x)) {
                x = e->getSubExpr();
            }
            else {
                break;
            }
        }
        return r;
    }

    int node0(const Stmt* s0) {
        if (!s0) {
            return -1;
        }
        auto it0 = F->id.find(s0);
        if (it0 != F->id.end()) {
            return it0->second;
        }
        const Stmt* s = strip(s0);
        auto it       = F->id.find(s);
        if (it != F->id.end()) {
            F->id[s0] = it->second;
            return it->second;
        }
        int r;
        if (auto* ic = dyn_cast<ImplicitCastExpr>(s)) {
            int sub = node(ic->getSubExpr());
            r       = sub;
            if (ic->getCastKind() == CK_LValueToRValue) {
                if (auto* o = F->nodes[sub].getAsObject()) {
                    (*o)["r"] = 1;
                }
            }
            else if (ic->getCastKind() == CK_IntegralCast || ic->getCastKind() == CK_FloatingToIntegral) {
                auto from = ic->getSubExpr()->getType();
                auto to   = ic->getType();
                if (!from->isDependentType() && !to->isDependentType() && !from->isEnumeralType()) {
                    auto a = C.getTypeSize(from);
                    auto b = C.getTypeSize(to);
                    if (b < a || ic->getCastKind() == CK_FloatingToIntegral) {
                        json::Object o;
                        baseAttrs(o, s);
                        o["k"] = "narrow";
                        o["t"] = ty(to);
                        o["a"] = json::Array{sub};
                        o["ft"] = ty(from);
                        constAttr(o, ic);
                        r = add(std::move(o));
                    }
                }
            }
            F->id[s]  = r;
            F->id[s0] = r;
            return r;
        }
        r         = node1(s);
        F->id[s]  = r;
        F->id[s0] = r;
        return r;
    }

    int node1(const Stmt* s) {
        json::Object o;
        baseAttrs(o, s);
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = ty(e->getType());
            if (isa<CallExpr>(e) && e->isLValue()) {
                o["gl"] = 1;
            }
        }

        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            auto* d = e->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {
                o["k"]  = "ref";
                o["vk"] = varKind(v);
                o["v"]  = idOf(v->getCanonicalDecl(), SM);
                o["n"]  = v->isStaticDataMember() || !v->isLocalVarDeclOrParm() ? qn(v) : v->getNameAsString();
                if (v->getType()->isReferenceType()) {
                    o["isref"] = 1;
                }
                if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralType(C))) {
                    constAttr(o, e);
                }
            }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fref";
                calleeAttrs(o, f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "enum";
                o["n"] = qn(ec);
                o["c"] = llvm::toString(ec->getInitVal(), 10);
            }
            else if (auto* b = dyn_cast<BindingDecl>(d)) {
                o["k"] = "ref";
                o["vk"] = "local";
                o["v"] = idOf(b, SM);
                o["n"] = b->getNameAsString();
                if (auto* be = b->getBinding()) {
                    o["b"] = node(be);
                }
            }
            else {
                o["k"] = "other";
                o["n"] = d->getNameAsString();
            }
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<MemberExpr>(s)) {
            auto* d = e->getMemberDecl();
            int b   = node(e->getBase());
            if (auto* v = dyn_cast<VarDecl>(d)) {
                o["k"]  = "ref";
                o["vk"] = "smember";
                o["v"]  = idOf(v->getCanonicalDecl(), SM);
                o["n"]  = qn(v);
                return add(std::move(o));
            }
            o["k"] = "mem";
            o["b"] = b;
            if (e->isArrow()) {
                o["arrow"] = 1;
            }
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                o["v"] = idOf(fd, SM);
                o["n"] = fd->getNameAsString();
                o["q"] = qn(fd);
            }
            else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "mfref";
                calleeAttrs(o, f);
            }
            return add(std::move(o));
        }
        if (isa<CXXThisExpr>(s)) {
            o["k"] = "this";
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            o["k"] = "call";
            const FunctionDecl* f = e->getDirectCallee();
            bool member = false;
            if (f) {
                member = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                calleeAttrs(o, f);
            }
            json::Array a;
            for (unsigned i = 0; i < e->getNumArgs(); ++i) {
                int n = node(e->getArg(i));
                if (member && i == 0) {
                    o["o"] = n;
                    if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->isVirtual()) {
                        o["v"] = 1;
                    }
                }
                else {
                    a.push_back(n);
                }
            }
            o["a"]  = std::move(a);
            o["op"] = getOperatorSpelling(e->getOperator());
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
            o["k"] = "call";
            if (auto* m = e->getMethodDecl()) {
                calleeAttrs(o, m);
                bool virt = m->isVirtual();
                if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParenImpCasts())) {
                    if (me->hasQualifier()) {
                        virt = false;  // Base::method() is a direct call
                    }
                    if (me->isArrow()) {
                        o["arrow"] = 1;
                    }
                }
                if (virt) {
                    o["v"] = 1;
                }
            }
            else {
                o["fp"] = node(e->getCallee());
            }
            if (auto* oe = e->getImplicitObjectArgument()) {
                o["o"] = node(oe);
            }
            json::Array a;
            for (auto* x : e->arguments()) {
                a.push_back(node(x));
            }
            o["a"] = std::move(a);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CallExpr>(s)) {
            o["k"] = "call";
            if (auto* f = e->getDirectCallee()) {
                calleeAttrs(o, f);
            }
            else {
                o["fp"] = node(e->getCallee());
            }
            json::Array a;
            for (auto* x : e->arguments()) {
                a.push_back(node(x));
            }
            o["a"] = std::move(a);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            // elidable copy/move: look through
            if (e->isElidable() && e->getNumArgs() >= 1) {
                return node(e->getArg(0));
            }
            o["k"] = "ctor";
            calleeAttrs(o, e->getConstructor());
            if (e->getConstructor()->isCopyConstructor()) {
                o["copy"] = 1;
            }
            if (e->getConstructor()->isMoveConstructor()) {
                o["move"] = 1;
            }
            if (e->isListInitialization()) {
                o["list"] = 1;
            }
            if (isa<CXXTemporaryObjectExpr>(e)) {
                o["tmp"] = 1;
            }
            json::Array a;
            for (auto* x : e->arguments()) {
                a.push_back(node(x));
            }
            o["a"] = std::move(a);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            o["k"] = "ctor";
            calleeAttrs(o, e->getConstructor());
            o["a"] = json::Array{};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<BinaryOperator>(s)) {
            int a  = node(e->getLHS());
            int b  = node(e->getRHS());
            o["k"] = e->isAssignmentOp() ? "assign" : "bin";
            o["op"] = e->getOpcodeStr().str();
            o["a"] = json::Array{a, b};
            constAttr(o, e);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<UnaryOperator>(s)) {
            int a   = node(e->getSubExpr());
            o["k"]  = "un";
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) {
                o["post"] = 1;
            }
            o["a"] = json::Array{a};
            constAttr(o, e);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
            int a  = node(e->getBase());
            int b  = node(e->getIdx());
            o["k"] = "idx";
            o["a"] = json::Array{a, b};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<AbstractConditionalOperator>(s)) {
            int c  = node(e->getCond());
            int a  = node(e->getTrueExpr());
            int b  = node(e->getFalseExpr());
            o["k"] = "cond";
            o["a"] = json::Array{c, a, b};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<OpaqueValueExpr>(s)) {
            if (e->getSourceExpr()) {
                return node(e->getSourceExpr());
            }
        }
        if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            o["k"] = "int";
            constAttr(o, e);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CharacterLiteral>(s)) {
            o["k"] = "int";
            o["c"] = std::to_string(e->getValue());
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["k"] = "int";
            o["c"] = e->getValue() ? "1" : "0";
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<FloatingLiteral>(s)) {
            o["k"] = "float";
            llvm::SmallString<32> b;
            e->getValue().toString(b);
            o["s"] = b.str().str();
            return add(std::move(o));
        }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            o["k"] = "null";
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<StringLiteral>(s)) {
            o["k"] = "str";
            o["s"] = json::fixUTF8(e->getBytes());
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<PredefinedExpr>(s)) {
            o["k"] = "str";
            o["s"] = "__func__";
            (void)e;
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
            int a   = node(e->getSubExpr());
            o["k"]  = "cast";
            o["ck"] = e->getCastKindName();
            if (isa<CXXConstCastExpr>(e)) {
                o["st"] = "const";
            }
            else if (isa<CXXReinterpretCastExpr>(e)) {
                o["st"] = "reinterpret";
            }
            else if (isa<CXXDynamicCastExpr>(e)) {
                o["st"] = "dynamic";
            }
            else if (isa<CXXStaticCastExpr>(e)) {
                o["st"] = "static";
            }
            else {
                o["st"] = "c";
            }
            o["ft"] = ty(e->getSubExpr()->getType());
            o["a"]  = json::Array{a};
            constAttr(o, e);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<LambdaExpr>(s)) {
            o["k"] = "lambda";
            lambdaFn(e, o);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            json::Array a;
            json::Array pl;
            for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i) {
                pl.push_back(node(e->getPlacementArg(i)));
            }
            o["at"] = ty(e->getAllocatedType());
            if (e->isArray() && e->getArraySize() && *e->getArraySize()) {
                o["n"] = node(*e->getArraySize());
            }
            if (e->isArray()) {
                o["arr"] = 1;
            }
            if (e->getInitializer()) {
                a.push_back(node(e->getInitializer()));
            }
            o["k"] = "new";
            o["a"] = std::move(a);
            if (!pl.empty()) {
                o["pl"] = std::move(pl);
            }
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
            int a  = node(e->getArgument());
            o["k"] = "delete";
            if (e->isArrayForm()) {
                o["arr"] = 1;
            }
            o["a"]  = json::Array{a};
            if (!e->getDestroyedType().isNull()) {
                o["dt"] = ty(e->getDestroyedType());
            }
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
            o["k"] = "throw";
            o["a"] = e->getSubExpr() ? json::Array{node(e->getSubExpr())} : json::Array{};
            if (e->getSubExpr()) {
                o["tt"] = ty(e->getSubExpr()->getType());
            }
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            o["a"] = e->getRetValue() ? json::Array{node(e->getRetValue())} : json::Array{};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array ds;
            for (auto* d : e->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) {
                    json::Object vo;
                    vo["v"]  = idOf(v->getCanonicalDecl(), SM);
                    vo["n"]  = v->getNameAsString();
                    vo["t"]  = ty(v->getType());
                    vo["vk"] = varKind(v);
                    if (v->getTSCSpec() != TSCS_unspecified) {
                        vo["tls"] = 1;
                    }
                    if (v->getInit()) {
                        vo["i"] = node(v->getInit());
                    }
                    ds.push_back(std::move(vo));
                    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                        for (auto* b : dd->bindings()) {
                            json::Object bo;
                            bo["v"]  = idOf(b, SM);
                            bo["n"]  = b->getNameAsString();
                            bo["t"]  = ty(b->getType());
                            bo["vk"] = "local";
                            bo["bind"] = 1;
                            if (v->getInit()) {
                                bo["i"] = node(v->getInit());
                            }
                            ds.push_back(std::move(bo));
                        }
                    }
                }
            }
            o["d"] = std::move(ds);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
            int a  = node(e->getExpr());
            o["k"] = "defarg";
            o["a"] = json::Array{a};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) {
            int a  = node(e->getExpr());
            o["k"] = "definit";
            o["a"] = json::Array{a};
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["k"] = "sizeof";
            if (e->isArgumentType()) {
                o["st"] = ty(e->getArgumentType());
            }
            else {
                o["a"] = json::Array{node(e->getArgumentExpr())};
                o["st"] = ty(e->getArgumentExpr()->getType());
            }
            constAttr(o, e);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<InitListExpr>(s)) {
            json::Array a;
            for (auto* x : e->inits()) {
                a.push_back(node(x));
            }
            o["k"] = "initlist";
            o["a"] = std::move(a);
            return add(std::move(o));
        }
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
            return node(e->getSubExpr());
        }
        // generic
        json::Array a;
        for (auto* c : s->children()) {
            if (c) {
                if (isa<Expr>(c)) {
                    a.push_back(node(c));
                }
            }
        }
        o["k"]  = "other";
        o["sc"] = s->getStmtClassName();
        o["a"]  = std::move(a);
        return add(std::move(o));
    }

    // compute try / handler nesting
    std::vector<const CXXTryStmt*> tries;
    std::vector<const CXXCatchStmt*> handlers;
    void nest(const Stmt* s, int t, int h) {
        if (!s) {
            return;
        }
        F->tryOf[s]   = t;
        F->catchOf[s] = h;
        if (isa<LambdaExpr>(s)) {
            // captures only; the body is its own function
            for (auto* c : cast<LambdaExpr>(s)->capture_inits()) {
                nest(c, t, h);
            }
            return;
        }
        if (auto* ts = dyn_cast<CXXTryStmt>(s)) {
            int id = int(tries.size());
            tries.push_back(ts);
            F->tryParent.push_back(t);
            nest(ts->getTryBlock(), id, h);
            for (unsigned i = 0; i < ts->getNumHandlers(); ++i) {
                int hid = int(handlers.size());
                handlers.push_back(ts->getHandler(i));
                F->tryOf[ts->getHandler(i)]   = t;
                F->catchOf[ts->getHandler(i)] = h;
                nest(ts->getHandler(i)->getHandlerBlock(), t, hid);
            }
            return;
        }
        if (auto* da = dyn_cast<CXXDefaultArgExpr>(s)) {
            nest(da->getExpr(), t, h);
            return;
        }
        if (auto* di = dyn_cast<CXXDefaultInitExpr>(s)) {
            nest(di->getExpr(), t, h);
            return;
        }
        for (auto* c : s->children()) {
            nest(c, t, h);
        }
    }

    json::Object dtorNode(const char* w, const CXXDestructorDecl* d) {
        json::Object o;
        o["k"] = "dtor";
        o["w"] = w;
        if (d) {
            o["f"] = idOf(d->getCanonicalDecl(), SM);
            o["q"] = qn(d);
            if (nothrowOf(d) == 1) {
                o["ne"] = 1;
            }
        }
        return o;
    }

    json::Array cfgOf(const Decl* d, Stmt* body, json::Object& rec) {
        CFG::BuildOptions bo;
        bo.AddImplicitDtors            = true;
        bo.AddTemporaryDtors           = true;
        bo.AddInitializers             = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges    = true;
        bo.AddStaticInitBranches       = false;
        bo.setAllAlwaysAdd();
        auto cfg = CFG::buildCFG(d, body, &C, bo);
        json::Array blocks;
        if (!cfg) {
            rec["nocfg"] = 1;
            return blocks;
        }
        std::unordered_map<const Stmt*, int> tryIdx;
        for (size_t i = 0; i < tries.size(); ++i) {
            tryIdx[tries[i]] = int(i);
        }
        for (auto* b : *cfg) {
            json::Object bo2;
            bo2["i"] = int(b->getBlockID());
            json::Array el;
            int last = -1;
            for (auto& e : *b) {
                int n = -1;
                if (auto st = e.getAs<CFGStmt>()) {
                    const Stmt* s = st->getStmt();
                    n             = node(s);
                }
                else if (auto in = e.getAs<CFGInitializer>()) {
                    auto* ci = in->getInitializer();
                    json::Object o;
                    o["k"] = "init";
                    o["l"] = lineOf(ci->getSourceLocation());
                    if (ci->isAnyMemberInitializer()) {
                        auto* fd = ci->getAnyMember();
                        o["v"]   = idOf(fd, SM);
                        o["n"]   = fd->getNameAsString();
                        o["q"]   = qn(fd);
                        o["t"]   = ty(fd->getType());
                    }
                    else if (ci->isBaseInitializer()) {
                        o["base"] = ty(QualType(ci->getBaseClass(), 0));
                    }
                    else {
                        o["deleg"] = 1;
                    }
                    if (ci->isWritten()) {
                        o["w"] = 1;
                    }
                    o["a"] = json::Array{node(ci->getInit())};
                    n      = add(std::move(o));
                }
                else if (auto ad = e.getAs<CFGAutomaticObjDtor>()) {
                    auto o = dtorNode("auto", ad->getDestructorDecl(C));
                    o["v"] = idOf(ad->getVarDecl()->getCanonicalDecl(), SM);
                    o["n"] = ad->getVarDecl()->getNameAsString();
                    o["l"] = ad->getTriggerStmt() ? lineOf(ad->getTriggerStmt()->getEndLoc()) : 0;
                    n      = add(std::move(o));
                }
                else if (auto td = e.getAs<CFGTemporaryDtor>()) {
                    auto o = dtorNode("temp", td->getDestructorDecl(C));
                    o["a"] = json::Array{node(td->getBindTemporaryExpr())};
                    n      = add(std::move(o));
                }
                else if (auto md = e.getAs<CFGMemberDtor>()) {
                    auto o = dtorNode("member", md->getDestructorDecl(C));
                    o["v"] = idOf(md->getFieldDecl(), SM);
                    o["n"] = md->getFieldDecl()->getNameAsString();
                    n      = add(std::move(o));
                }
                else if (auto bd = e.getAs<CFGBaseDtor>()) {
                    auto o = dtorNode("base", bd->getDestructorDecl(C));
                    n      = add(std::move(o));
                }
                else if (auto dd = e.getAs<CFGDeleteDtor>()) {
                    continue;
                }
                else {
                    continue;
                }
                if (n != last && n >= 0) {
                    el.push_back(n);
                }
                last = n;
            }
            bo2["e"] = std::move(el);
            json::Array su;
            for (auto& x : b->succs()) {
                su.push_back(x.isReachable() && x.getReachableBlock() ? int(x.getReachableBlock()->getBlockID()) : -1);
            }
            bo2["s"] = std::move(su);
            if (b->hasNoReturnElement()) {
                bo2["nr"] = 1;
            }
            if (auto* t = b->getTerminatorStmt()) {
                json::Object to;
                to["k"] = t->getStmtClassName();
                to["l"] = lineOf(t->getBeginLoc());
                if (b->getTerminator().isTemporaryDtorsBranch()) {
                    to["tmp"] = 1;
                }
                if (auto* ts = dyn_cast<CXXTryStmt>(t)) {
                    auto f = tryIdx.find(ts);
                    if (f != tryIdx.end()) {
                        to["try"] = f->second;
                    }
                }
                if (auto* bop = dyn_cast<BinaryOperator>(t)) {
                    to["op"] = bop->getOpcodeStr().str();
                }
                if (auto* c = b->getTerminatorCondition(false)) {
                    if (isa<Expr>(c)) {
                        to["c"] = node(c);
                    }
                }
                bo2["t"] = std::move(to);
            }
            if (auto* lab = b->getLabel()) {
                if (auto* cs = dyn_cast<CaseStmt>(lab)) {
                    json::Array vals;
                    // several case labels may be stacked on nested CaseStmts: each gets its own block
                    Expr::EvalResult r;
                    if (cs->getLHS()->EvaluateAsInt(r, C)) {
                        vals.push_back(llvm::toString(r.Val.getInt(), 10));
                    }
                    if (cs->getRHS() && cs->getRHS()->EvaluateAsInt(r, C)) {
                        vals.push_back(llvm::toString(r.Val.getInt(), 10));
                    }
                    bo2["case"] = std::move(vals);
                }
                else if (isa<DefaultStmt>(lab)) {
                    bo2["default"] = 1;
                }
                else if (auto* ct = dyn_cast<CXXCatchStmt>(lab)) {
                    bo2["catch"] = ct->getExceptionDecl() ? ty(ct->getCaughtType()) : "...";
                    for (size_t i = 0; i < handlers.size(); ++i) {
                        if (handlers[i] == ct) {
                            bo2["hid"] = int(i);
                        }
                    }
                    if (ct->getExceptionDecl()) {
                        bo2["cv"] = idOf(ct->getExceptionDecl()->getCanonicalDecl(), SM);
                    }
                }
            }
            blocks.push_back(std::move(bo2));
        }
        rec["entry"] = int(cfg->getEntry().getBlockID());
        rec["exit"]  = int(cfg->getExit().getBlockID());
        json::Array tp;
        for (auto x : F->tryParent) {
            tp.push_back(x);
        }
        rec["tryp"] = std::move(tp);
        return blocks;
    }

    void emit(json::Object o) { *OUT << json::Value(std::move(o)) << "\n"; }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || f->isDependentContext()) {
            return true;
        }
        if (f->getDescribedFunctionTemplate()) {
            return true;
        }
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) {
            return true;
        }
        if (!f->getBody()) {
            return true;
        }
        bool inst = isInst(f);
        if (!wanted(f, inst)) {
            return true;
        }
        auto id = idOf(f->getCanonicalDecl(), SM);
        if (!seenFn.insert(id).second) {
            return true;
        }
        Fn fn;
        F = &fn;
        tries.clear();
        handlers.clear();
        json::Object r;
        r["K"] = "fn";
        r["u"] = id;
        r["q"] = qn(f);
        r["f"] = fileOf(f->getLocation());
        r["l"] = lineOf(f->getLocation());
        r["el"] = lineOf(f->getEndLoc());
        r["rt"] = ty(f->getReturnType());
        if (inst) {
            r["inst"] = 1;
        }
        if (f->isImplicit() || f->isDefaulted()) {
            r["implicit"] = 1;
        }
        if (f->isStatic() || f->getFormalLinkage() == Linkage::Internal) {
            r["internal"] = 1;
        }
        if (nothrowOf(f) == 1) {
            r["ne"] = 1;
        }
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object po;
            po["v"] = idOf(p->getCanonicalDecl(), SM);
            po["n"] = p->getNameAsString();
            po["t"] = ty(p->getType());
            ps.push_back(std::move(po));
        }
        r["p"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            r["cls"]  = ty(C.getRecordType(m->getParent()));
            r["clsu"] = idOf(m->getParent()->getCanonicalDecl(), SM);
            if (m->isConst()) {
                r["const"] = 1;
            }
            if (m->isStatic()) {
                r["static"] = 1;
            }
            if (m->isVirtual()) {
                r["virt"] = 1;
            }
            r["acc"] = int(m->getAccess());
            json::Array ov;
            for (auto* o : m->overridden_methods()) {
                ov.push_back(idOf(o->getCanonicalDecl(), SM));
            }
            if (!ov.empty()) {
                r["ov"] = std::move(ov);
            }
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) {
                r["kind"] = cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : "ctor";
                if (cd->isDelegatingConstructor()) {
                    r["deleg"] = 1;
                }
            }
            else if (isa<CXXDestructorDecl>(m)) {
                r["kind"] = "dtor";
            }
            else if (m->isCopyAssignmentOperator()) {
                r["kind"] = "copyassign";
            }
            else if (m->isMoveAssignmentOperator()) {
                r["kind"] = "moveassign";
            }
            else {
                r["kind"] = "method";
            }
            if (m->getParent()->isLambda()) {
                r["kind"] = "lambda";
            }
        }
        else {
            r["kind"] = "fn";
        }
        // enclosing function (lambda or local class)
        for (const DeclContext* dc = f->getParent(); dc; dc = dc->getParent()) {
            if (auto* pf = dyn_cast<FunctionDecl>(dc)) {
                r["in"] = idOf(pf->getCanonicalDecl(), SM);
                break;
            }
        }
        Stmt* body = f->getBody();
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            for (auto* i : cd->inits()) {
                nest(i->getInit(), -1, -1);
            }
        }
        nest(body, -1, -1);
        r["b"] = cfgOf(f, body, r);
        r["n"] = std::move(fn.nodes);
        F      = nullptr;
        emit(std::move(r));
        return true;
    }

    static std::string cat(QualType t, ASTContext& C) {
        t = t.getCanonicalType();
        if (t->isReferenceType()) {
            return "ref";
        }
        if (t->isPointerType() || t->isMemberPointerType()) {
            return "ptr";
        }
        if (t->isBooleanType()) {
            return "bool";
        }
        if (t->isEnumeralType()) {
            return "enum";
        }
        if (t->isIntegerType()) {
            return "int";
        }
        if (t->isFloatingType()) {
            return "float";
        }
        if (t->isArrayType()) {
            return "arr:" + cat(QualType(t->getPointeeOrArrayElementType(), 0), C);
        }
        if (auto* r = t->getAsCXXRecordDecl()) {
            r = r->getDefinition();
            if (r && r->isUnion()) {
                return "union";
            }
            if (r && !r->hasUserProvidedDefaultConstructor() && r->isTrivial()) {
                return "pod";
            }
            return "rec";
        }
        return "?";
    }

    // the arithmetic leaves of a record that consists of nothing else: [offset, bytes, kind, name]
    bool flatten(const RecordDecl* r, int64_t off, const std::string& pre, json::Array& out, int depth) {
        if (depth > 8 || out.size() > 200 || r->isUnion() || r->isInvalidDecl()) {
            return false;
        }
        auto& lay = C.getASTRecordLayout(r);
        if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
            if (cr->isPolymorphic() || cr->getNumVBases()) {
                return false;
            }
            for (auto& b : cr->bases()) {
                auto* br = b.getType()->getAsCXXRecordDecl();
                br       = br ? br->getDefinition() : nullptr;
                if (!br || !flatten(br, off + lay.getBaseClassOffset(br).getQuantity(), pre, out, depth + 1)) {
                    return false;
                }
            }
        }
        for (auto* d : r->fields()) {
            if (d->isBitField()) {
                return false;
            }
            int64_t at = off + C.toCharUnitsFromBits(lay.getFieldOffset(d->getFieldIndex())).getQuantity();
            if (!leaf(d->getType(), at, pre + d->getNameAsString(), out, depth)) {
                return false;
            }
        }
        return true;
    }

    bool leaf(QualType t, int64_t at, const std::string& name, json::Array& out, int depth) {
        t = t.getCanonicalType().getUnqualifiedType();
        if (t->isDependentType() || t->isIncompleteType()) {
            return false;
        }
        int64_t n = 1;
        while (auto* a = C.getAsConstantArrayType(t)) {
            n *= a->getSize().getZExtValue();
            t = a->getElementType().getCanonicalType().getUnqualifiedType();
        }
        if (t->isRecordType()) {
            return flatten(t->getAs<RecordType>()->getDecl(), at, name + (n == 1 ? "." : "[]."), out, depth + 1);
        }
        if (!t->isArithmeticType() && !t->isEnumeralType()) {
            return false;
        }
        std::string k = t->isRealFloatingType() ? "float" : t->isAnyCharacterType() ? "char" : t->isSignedIntegerOrEnumerationType() ? "int" : "uint";
        out.push_back(json::Array{at, int64_t(C.getTypeSizeInChars(t).getQuantity()) * n, k, name});
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) {
            return true;
        }
        if (r->isInvalidDecl()) {
            return true;
        }
        bool inst = isInstRec(r);
        if (!wanted(r, inst)) {
            return true;
        }
        auto id = idOf(r->getCanonicalDecl(), SM);
        if (!seenRec.insert(id).second) {
            return true;
        }
        json::Object o;
        o["K"] = "rec";
        o["u"] = id;
        o["q"] = qn(r);
        o["t"] = ty(C.getRecordType(r));
        o["f"] = fileOf(locOf(r));
        o["l"] = lineOf(locOf(r));
        if (inst) {
            o["inst"] = 1;
        }
        if (r->isUnion()) {
            o["union"] = 1;
        }
        if (r->isAbstract()) {
            o["abstract"] = 1;
        }
        if (r->isPolymorphic()) {
            o["poly"] = 1;
        }
        if (r->isAggregate()) {
            o["agg"] = 1;
        }
        json::Array bs;
        for (auto& b : r->bases()) {
            json::Object bo;
            bo["t"] = ty(b.getType());
            if (auto* br = b.getType()->getAsCXXRecordDecl()) {
                bo["u"] = idOf(br->getCanonicalDecl(), SM);
                bo["q"] = qn(br);
            }
            bo["acc"] = int(b.getAccessSpecifier());
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* d : r->fields()) {
            json::Object fo;
            fo["v"] = idOf(d, SM);
            fo["n"] = d->getNameAsString();
            fo["t"] = ty(d->getType());
            fo["l"] = lineOf(d->getLocation());
            fo["cat"] = cat(d->getType(), C);
            if (d->isMutable()) {
                fo["mut"] = 1;
            }
            if (d->getType().isConstQualified()) {
                fo["const"] = 1;
            }
            if (d->hasInClassInitializer()) {
                fo["ini"] = 1;
            }
            fo["acc"] = int(d->getAccess());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        if (!r->isUnion() && !r->field_empty()) {
            json::Array flat;
            if (flatten(r, 0, "", flat, 0) && !flat.empty()) {
                o["flat"] = std::move(flat);
                o["size"] = int64_t(C.getASTRecordLayout(r).getSize().getQuantity());
            }
        }
        json::Array ms;
        for (auto* m : r->methods()) {
            json::Object mo;
            mo["u"] = idOf(m->getCanonicalDecl(), SM);
            mo["n"] = m->getNameAsString();
            mo["t"] = ty(m->getType());
            mo["acc"] = int(m->getAccess());
            if (m->isVirtual()) {
                mo["virt"] = 1;
            }
            if (m->isPureVirtual()) {
                mo["pure"] = 1;
            }
            if (m->isConst()) {
                mo["const"] = 1;
            }
            if (m->isStatic()) {
                mo["static"] = 1;
            }
            if (m->isDeleted()) {
                mo["del"] = 1;
            }
            if (m->isImplicit()) {
                mo["implicit"] = 1;
            }
            if (m->isUserProvided()) {
                mo["up"] = 1;
            }
            if (isa<CXXConstructorDecl>(m)) {
                mo["ctor"] = cast<CXXConstructorDecl>(m)->isCopyConstructor()   ? "copy"
                             : cast<CXXConstructorDecl>(m)->isMoveConstructor() ? "move"
                                                                               : "ctor";
            }
            if (isa<CXXDestructorDecl>(m)) {
                mo["dtor"] = 1;
            }
            if (m->isCopyAssignmentOperator()) {
                mo["assign"] = "copy";
            }
            if (m->isMoveAssignmentOperator()) {
                mo["assign"] = "move";
            }
            json::Array ov;
            for (auto* x : m->overridden_methods()) {
                ov.push_back(idOf(x->getCanonicalDecl(), SM));
            }
            if (!ov.empty()) {
                mo["ov"] = std::move(ov);
            }
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        json::Object sp;
        sp["copyctor_user"]   = r->hasUserDeclaredCopyConstructor();
        sp["copyassign_user"] = r->hasUserDeclaredCopyAssignment();
        sp["movector_user"]   = r->hasUserDeclaredMoveConstructor();
        sp["moveassign_user"] = r->hasUserDeclaredMoveAssignment();
        sp["dtor_user"]       = r->hasUserDeclaredDestructor();
        // usable implicit copy? (implicit copy may be deleted because of a base or a member)
        bool ccDel = false, caDel = false, ccHas = false, caHas = false;
        for (auto* c : r->ctors()) {
            if (c->isCopyConstructor()) {
                ccHas = true;
                if (c->isDeleted()) {
                    ccDel = true;
                }
            }
        }
        for (auto* m : r->methods()) {
            if (m->isCopyAssignmentOperator()) {
                caHas = true;
                if (m->isDeleted()) {
                    caDel = true;
                }
            }
        }
        if (!ccHas) {
            // lazily declared implicit one
            ccDel = r->needsOverloadResolutionForCopyConstructor() ? true : r->defaultedCopyConstructorIsDeleted();
            sp["cc_lazy"] = 1;
        }
        sp["cc_del"] = ccDel;
        if (!caHas) {
            sp["ca_lazy"] = 1;
        }
        sp["ca_del"]       = caDel;
        sp["simple_cc"]    = r->hasSimpleCopyConstructor();
        sp["simple_ca"]    = r->hasSimpleCopyAssignment();
        if (auto* d = r->getDestructor()) {
            sp["dtor_virt"] = d->isVirtual();
            sp["dtor_acc"]  = int(d->getAccess());
            sp["dtor_nothrow"] = nothrowOf(d);
        }
        o["sp"] = std::move(sp);
        emit(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl* v) {
        if (!v->hasGlobalStorage() || v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) {
            return true;
        }
        if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->isStaticDataMember()) {
            return true;
        }
        if (v->getDescribedVarTemplate()) {
            return true;
        }
        bool inst = v->getTemplateSpecializationKind() != TSK_Undeclared;
        for (const DeclContext* dc = v->getDeclContext(); dc && !inst; dc = dc->getParent()) {
            if (auto* f = dyn_cast<FunctionDecl>(dc)) {
                inst = isInst(f);
            }
            else if (auto* r = dyn_cast<CXXRecordDecl>(dc)) {
                inst = isInstRec(r);
            }
        }
        if (!wanted(v, inst)) {
            return true;
        }
        auto id = idOf(v->getCanonicalDecl(), SM);
        bool def = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        if (!seenVar.insert(id + (def ? "D" : "d")).second) {
            return true;
        }
        json::Object o;
        o["K"]   = "var";
        o["u"]   = id;
        o["q"]   = qn(v);
        o["t"]   = ty(v->getType());
        o["f"]   = fileOf(v->getLocation());
        o["l"]   = lineOf(v->getLocation());
        o["vk"]  = varKind(v);
        o["def"] = def ? 1 : 0;
        if (v->getType().isConstQualified()) {
            o["const"] = 1;
        }
        if (v->isConstexpr()) {
            o["constexpr"] = 1;
        }
        if (v->getTSCSpec() != TSCS_unspecified) {
            o["tls"] = 1;
        }
        for (const DeclContext* dc = v->getDeclContext(); dc; dc = dc->getParent()) {
            if (auto* pf = dyn_cast<FunctionDecl>(dc)) {
                o["in"] = idOf(pf->getCanonicalDecl(), SM);
                break;
            }
        }
        if (def && v->getInit() && !v->getInit()->isValueDependent()) {
            Fn fn;
            auto* save = F;
            F          = &fn;
            nest(v->getInit(), -1, -1);
            o["i"] = node(v->getInit());
            o["n"] = std::move(fn.nodes);
            F      = save;
        }
        emit(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext()) {
            return true;
        }
        if (!wanted(e, false)) {
            return true;
        }
        auto id = idOf(e->getCanonicalDecl(), SM);
        if (!seenEnum.insert(id).second) {
            return true;
        }
        json::Object o;
        o["K"] = "enum";
        o["u"] = id;
        o["q"] = qn(e);
        o["f"] = fileOf(e->getLocation());
        o["l"] = lineOf(e->getLocation());
        json::Array vs;
        for (auto* c : e->enumerators()) {
            vs.push_back(json::Array{c->getNameAsString(), llvm::toString(c->getInitVal(), 10)});
        }
        o["vals"] = std::move(vs);
        emit(std::move(o));
        return true;
    }

    // function templates / class templates of the repository: to report those that were never instantiated
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl* t) {
        if (wanted(t, false) && t->getTemplatedDecl()->doesThisDeclarationHaveABody()) {
            json::Object o;
            o["K"] = "tpl";
            o["q"] = qn(t->getTemplatedDecl());
            o["f"] = fileOf(t->getLocation());
            o["l"] = lineOf(t->getLocation());
            emit(std::move(o));
        }
        return true;
    }
    bool VisitClassTemplateDecl(ClassTemplateDecl* t) {
        if (wanted(t, false) && t->isThisDeclarationADefinition()) {
            json::Object o;
            o["K"] = "ctpl";
            o["q"] = qn(t->getTemplatedDecl());
            o["f"] = fileOf(t->getLocation());
            o["l"] = lineOf(t->getLocation());
            emit(std::move(o));
        }
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override {
        Dumper d(c);
        d.TraverseDecl(c.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

}  // namespace

int main(int argc, const char** argv) {
    if (argc < 6) {
        llvm::errs() << "usage: efacts OUT ROOT OWNLIST FILE -- args\n";
        return 2;
    }
    std::error_code ec;
    OUT  = std::make_unique<llvm::raw_fd_ostream>(argv[1], ec);
    ROOT = argv[2];
    {
        std::ifstream in(argv[3]);
        std::string l;
        while (std::getline(in, l)) {
            if (!l.empty()) {
                OWN.insert(l);
            }
        }
    }
    std::string file = argv[4];
    std::vector<std::string> args;
    for (int i = 6; i < argc; ++i) {
        args.push_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    tool.setPrintErrorMessage(true);
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    OUT->flush();
    return rc;
}
