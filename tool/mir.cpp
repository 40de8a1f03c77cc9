// mir.cpp: libTooling fact extractor.
// Parses one translation unit with the build's flags and writes one line per declaration of interest found in
// the files under analysis: functions (resolved AST nodes + clang CFG), records, enums, globals.
// Line format:  <kind> \t <key> \t <json> \n       kind: F (function), R (record), E (enum), G (global variable)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>

using namespace clang;

static std::vector<std::string> g_roots;     // absolute path prefixes under analysis
static std::string g_main;                   // main file path

static void js(std::string& o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
                if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
                else if (c >= 0x80) { o += '?'; }
                else o += (char)c;
        }
    }
    o += '"';
}

struct Ctx {
    ASTContext& ast;
    SourceManager& sm;
    PrintingPolicy pp;
    ASTNameGenerator names;
    std::map<const Type*, std::string> tcache;

    explicit Ctx(ASTContext& a) : ast{a}, sm{a.getSourceManager()}, pp{a.getPrintingPolicy()}, names{a} {
        pp.SuppressTagKeyword = true;
        pp.SuppressUnwrittenScope = false;
        pp.Bool = true;
        pp.SuppressDefaultTemplateArgs = true;
        pp.AnonymousTagLocations = false;
    }

    std::string file(SourceLocation l) {
        auto e = sm.getExpansionLoc(l);
        auto f = sm.getFilename(e);
        return f.str();
    }
    unsigned line(SourceLocation l) { return l.isValid() ? sm.getExpansionLineNumber(l) : 0; }
    unsigned col(SourceLocation l) { return l.isValid() ? sm.getExpansionColumnNumber(l) : 0; }

    bool inRoots(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = file(l);
        for (auto& r : g_roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string type(QualType q) {
        if (q.isNull()) return "?";
        std::string s = q.getCanonicalType().getAsString(pp);
        return s;
    }
    // qualified name without template arguments
    std::string qname(const NamedDecl* d) {
        std::string out;
        llvm::SmallVector<std::string, 8> parts;
        const DeclContext* dc = d->getDeclContext();
        auto nameof = [&](const NamedDecl* n) -> std::string {
            if (auto* fd = dyn_cast<FunctionDecl>(n)) {
                if (isa<CXXConstructorDecl>(fd)) return "(ctor)";
                if (isa<CXXDestructorDecl>(fd)) return "(dtor)";
                if (isa<CXXConversionDecl>(fd)) return "operator " + type(fd->getReturnType());
            }
            if (auto* rd = dyn_cast<CXXRecordDecl>(n)) if (rd->isLambda()) return "(lambda)";
            auto s = n->getNameAsString();
            if (s.empty()) return "(anon)";
            return s;
        };
        parts.push_back(nameof(d));
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
                if (ns->isAnonymousNamespace()) parts.push_back("(anon)");
                else if (!ns->isInline()) parts.push_back(ns->getNameAsString());
            } else if (auto* nd = dyn_cast<NamedDecl>(dc)) {
                parts.push_back(nameof(nd));
            }
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!out.empty()) out += "::"; out += *it; }
        return out;
    }
    std::string baseMain() {
        auto p = g_main.rfind('/');
        return p == std::string::npos ? g_main : g_main.substr(p + 1);
    }
    std::unordered_map<const Decl*, std::string> kcache;
    std::string fkey(const FunctionDecl* fd) {
        fd = fd->getCanonicalDecl();
        auto it = kcache.find(fd);
        if (it != kcache.end()) return it->second;
        std::string k;
        bool lambda = false;
        if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
            if (md->getParent()->isLambda()) {
                lambda = true;
                const DeclContext* dc = md->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc) && !dc->isTranslationUnit()) dc = dc->getParent();
                std::string p;
                if (dc && isa<FunctionDecl>(dc)) p = fkey(cast<FunctionDecl>(dc));
                std::ostringstream ss;
                ss << p << "$L" << line(md->getParent()->getBeginLoc()) << ":" << col(md->getParent()->getBeginLoc())
                   << "$" << fd->getNameAsString();
                std::string tys;
                for (auto* pd : fd->parameters()) { tys += type(pd->getType()); tys += ","; }
                ss << "(" << tys << ")";
                k = ss.str();
            }
        }
        if (!lambda) {
            if (fd->isDependentContext()) {
                llvm::SmallString<128> usr;
                index::generateUSRForDecl(fd, usr);
                k = "T:" + usr.str().str();
            } else {
                k = names.getName(fd);
                if (k.empty()) {
                    llvm::SmallString<128> usr;
                    index::generateUSRForDecl(fd, usr);
                    k = "U:" + usr.str().str();
                }
                if (!fd->isExternallyVisible()) k += "@" + baseMain();
            }
        }
        kcache[fd] = k;
        return k;
    }
    std::string vkey(const ValueDecl* vd) {
        std::ostringstream ss;
        const Decl* c = vd->getCanonicalDecl();
        if (auto* v = dyn_cast<VarDecl>(vd); v && !v->isLocalVarDecl() && !isa<ParmVarDecl>(v)) {
            return qname(vd);
        }
        ss << vd->getNameAsString() << "#" << line(c->getLocation()) << ":" << col(c->getLocation());
        return ss.str();
    }
    std::string fieldkey(const ValueDecl* fd) { return qname(fd); }
};

struct FnWriter {
    Ctx& cx;
    std::string nodes;                // json array content
    int count = 0;
    std::unordered_map<const Stmt*, int> ids;
    std::map<std::string, int> tmap;
    std::vector<std::string> tlist;
    const FunctionDecl* fn;
    std::vector<std::string> nodeJson;

    FnWriter(Ctx& c, const FunctionDecl* f) : cx{c}, fn{f} {}

    int tid(QualType q) {
        auto s = cx.type(q);
        auto it = tmap.find(s);
        if (it != tmap.end()) return it->second;
        int i = (int)tlist.size();
        tmap[s] = i;
        tlist.push_back(s);
        return i;
    }

    static const Stmt* strip(const Stmt* s) {
        while (s) {
            if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
                // keep user-defined conversions visible through their sub-expression (a member call / construct)
                s = e->getSubExpr();
            } else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
            else if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) s = e->getSemanticForm();
            else if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) return s; s = e->getSourceExpr(); }
            else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
            else if (auto* e = dyn_cast<AttributedStmt>(s)) s = e->getSubStmt();
            else return s;
        }
        return s;
    }

    int add(const Stmt* raw) {
        if (!raw) return -1;
        const Stmt* s = strip(raw);
        if (!s) return -1;
        auto it = ids.find(s);
        if (it != ids.end()) { ids[raw] = it->second; return it->second; }
        int id = count++;
        ids[s] = id;
        ids[raw] = id;
        nodeJson.emplace_back();
        std::string j = build(s, id);
        nodeJson[id] = std::move(j);
        return id;
    }

    void kv(std::string& o, const char* k, llvm::StringRef v) { o += ",\""; o += k; o += "\":"; js(o, v); }
    void kn(std::string& o, const char* k, long long v) { o += ",\""; o += k; o += "\":"; o += std::to_string(v); }
    void kl(std::string& o, const char* k, const std::vector<int>& v) {
        o += ",\""; o += k; o += "\":[";
        bool f = true;
        for (int x : v) { if (!f) o += ','; f = false; o += std::to_string(x); }
        o += ']';
    }

    void callee(std::string& o, const FunctionDecl* fd) {
        kv(o, "f", cx.fkey(fd));
        kv(o, "fn", cx.qname(fd));
        if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
            if (md->isVirtual()) kn(o, "virt", 1);
            if (md->isConst()) kn(o, "mconst", 1);
            if (md->isStatic()) kn(o, "static", 1);
        }
        // parameter passing modes: v value, c const ref/ptr-to-const, m mutable ref/ptr, r rvalue ref
        std::string modes;
        for (auto* p : fd->parameters()) {
            QualType t = p->getType();
            if (t->isRValueReferenceType()) modes += 'r';
            else if (t->isLValueReferenceType()) modes += t->getPointeeType().isConstQualified() ? 'c' : 'm';
            else if (t->isPointerType()) modes += t->getPointeeType().isConstQualified() ? 'p' : 'P';
            else modes += 'v';
        }
        kv(o, "pm", modes);
    }

    std::string build(const Stmt* s, int id) {
        std::string o = "{\"k\":";
        std::string kind = s->getStmtClassName();
        std::string attrs;
        std::vector<int> ch;
        bool generic = true;

        if (auto* e = dyn_cast<Expr>(s)) kn(attrs, "t", tid(e->getType()));
        kn(attrs, "l", cx.line(s->getBeginLoc()));
        if (s->getBeginLoc().isMacroID()) kn(attrs, "mac", 1);

        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            kind = "Ref";
            const ValueDecl* d = e->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                kv(attrs, "dk", "fn");
                kv(attrs, "f", cx.fkey(f));
                kv(attrs, "fn", cx.qname(f));
                if (isa<CXXMethodDecl>(f)) kn(attrs, "meth", 1);
            } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                kv(attrs, "dk", "enum");
                kv(attrs, "n", cx.qname(ec));
                kv(attrs, "val", llvm::toString(ec->getInitVal(), 10));
            } else if (auto* v = dyn_cast<VarDecl>(d)) {
                kv(attrs, "dk", isa<ParmVarDecl>(v) ? "parm" : v->isLocalVarDecl() ? (v->isStaticLocal() ? "slocal" : "local") : "glob");
                kv(attrs, "v", cx.vkey(v));
                kv(attrs, "n", d->getNameAsString());
                if (v->getTLSKind() != VarDecl::TLS_None) kn(attrs, "tls", 1);
                if (v->isStaticDataMember()) kn(attrs, "sdm", 1);
                if (e->refersToEnclosingVariableOrCapture()) kn(attrs, "cap", 1);
                if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v)) kv(attrs, "qn", cx.qname(v));
            } else if (auto* b = dyn_cast<BindingDecl>(d)) {
                kv(attrs, "dk", "bind");
                kv(attrs, "v", cx.vkey(b));
                kv(attrs, "n", d->getNameAsString());
            } else {
                kv(attrs, "dk", "other");
                kv(attrs, "n", d->getNameAsString());
            }
            generic = false;
        } else if (auto* e = dyn_cast<MemberExpr>(s)) {
            kind = "Mem";
            auto* d = e->getMemberDecl();
            kv(attrs, "n", d->getNameAsString());
            kv(attrs, "fd", cx.qname(d));
            if (e->isArrow()) kn(attrs, "arrow", 1);
            if (auto* fd = dyn_cast<FieldDecl>(d)) { if (fd->isMutable()) kn(attrs, "mut", 1); }
            if (isa<CXXMethodDecl>(d)) kn(attrs, "meth", 1);
            ch.push_back(add(e->getBase()));
            generic = false;
        } else if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
            kind = "Call";
            if (auto* md = e->getMethodDecl()) {
                callee(attrs, md);
            }
            int obj = add(e->getImplicitObjectArgument());
            kn(attrs, "o", obj);
            if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) {
                if (me->hasQualifier()) kn(attrs, "qual", 1);
                if (me->isArrow()) kn(attrs, "arrow", 1);
            }
            std::vector<int> args;
            for (auto* a : e->arguments()) args.push_back(add(a));
            kl(attrs, "a", args);
            if (obj >= 0) ch.push_back(obj);
            ch.insert(ch.end(), args.begin(), args.end());
            generic = false;
        } else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            kind = "Call";
            kv(attrs, "op", getOperatorSpelling(e->getOperator()));
            std::vector<int> args;
            for (auto* a : e->arguments()) args.push_back(add(a));
            ch = args;
            if (auto* fd = dyn_cast_or_null<FunctionDecl>(e->getCalleeDecl())) {
                callee(attrs, fd);
                if (auto* md = dyn_cast<CXXMethodDecl>(fd); md && !md->isStatic() && !args.empty()) {
                    kn(attrs, "o", args[0]);
                    args.erase(args.begin());
                }
            }
            kl(attrs, "a", args);
            generic = false;
        } else if (auto* e = dyn_cast<CallExpr>(s)) {
            kind = "Call";
            std::vector<int> args;
            if (auto* fd = dyn_cast_or_null<FunctionDecl>(e->getCalleeDecl())) {
                callee(attrs, fd);
            } else {
                int c = add(e->getCallee());
                kn(attrs, "ce", c);
                ch.push_back(c);
            }
            for (auto* a : e->arguments()) args.push_back(add(a));
            kl(attrs, "a", args);
            ch.insert(ch.end(), args.begin(), args.end());
            generic = false;
        } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            kind = "Ctor";
            auto* cd = e->getConstructor();
            callee(attrs, cd);
            kv(attrs, "cls", cx.qname(cd->getParent()));
            if (cd->isCopyConstructor()) kv(attrs, "sp", "copy");
            else if (cd->isMoveConstructor()) kv(attrs, "sp", "move");
            else if (cd->isDefaultConstructor()) kv(attrs, "sp", "def");
            if (e->isElidable()) kn(attrs, "elide", 1);
            if (e->isListInitialization()) kn(attrs, "brace", 1);
            if (e->requiresZeroInitialization()) kn(attrs, "zi", 1);
            if (cd->isDefaultConstructor() && !cd->isUserProvided()) kn(attrs, "triv", 1);
            std::vector<int> args;
            for (auto* a : e->arguments()) args.push_back(add(a));
            kl(attrs, "a", args);
            ch = args;
            generic = false;
        } else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            kind = "Ctor";
            callee(attrs, e->getConstructor());
            kv(attrs, "cls", cx.qname(e->getConstructor()->getParent()));
            kl(attrs, "a", {});
        } else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
            kind = "DefArg";
            kv(attrs, "pn", e->getParam()->getNameAsString());
            if (auto* pf = dyn_cast<FunctionDecl>(e->getParam()->getDeclContext())) kv(attrs, "fn", cx.qname(pf));
            ch.push_back(add(e->getExpr()));
            generic = false;
        } else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) {
            kind = "DefInit";
            kv(attrs, "fd", cx.qname(e->getField()));
            ch.push_back(add(e->getExpr()));
            generic = false;
        } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
            kind = "Lambda";
            kv(attrs, "f", cx.fkey(e->getCallOperator()));
            attrs += ",\"caps\":[";
            bool first = true;
            auto initIt = e->capture_init_begin();
            for (auto& c : e->captures()) {
                if (!first) attrs += ',';
                first = false;
                attrs += "{\"m\":";
                switch (c.getCaptureKind()) {
                    case LCK_This: js(attrs, "this"); break;
                    case LCK_StarThis: js(attrs, "*this"); break;
                    case LCK_ByCopy: js(attrs, "copy"); break;
                    case LCK_ByRef: js(attrs, "ref"); break;
                    case LCK_VLAType: js(attrs, "vla"); break;
                }
                if (c.capturesVariable()) {
                    attrs += ",\"v\":"; js(attrs, cx.vkey(c.getCapturedVar()));
                    if (c.getCapturedVar()->isInitCapture()) {
                        auto* vd = dyn_cast<VarDecl>(c.getCapturedVar());
                        if (vd && vd->getInit()) { int i = add(vd->getInit()); attrs += ",\"init\":" + std::to_string(i); ch.push_back(i); }
                    }
                }
                attrs += '}';
                ++initIt;
            }
            attrs += ']';
            kn(attrs, "dep", e->getCallOperator()->isDependentContext() || e->isGenericLambda());
            generic = false;
        } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
            kind = isa<CompoundAssignOperator>(e) || e->isAssignmentOp() ? "Assign" : "Bin";
            kv(attrs, "op", e->getOpcodeStr());
            ch.push_back(add(e->getLHS()));
            ch.push_back(add(e->getRHS()));
            generic = false;
        } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
            kind = "Un";
            kv(attrs, "op", UnaryOperator::getOpcodeStr(e->getOpcode()));
            if (e->isPostfix()) kn(attrs, "post", 1);
            ch.push_back(add(e->getSubExpr()));
            generic = false;
        } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            kind = "Int";
            kv(attrs, "val", llvm::toString(e->getValue(), 10, false));
            generic = false;
        } else if (auto* e = dyn_cast<FloatingLiteral>(s)) {
            kind = "Flt";
            kv(attrs, "val", std::to_string(e->getValueAsApproximateDouble()));
            generic = false;
        } else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            kind = "Bool";
            kn(attrs, "val", e->getValue());
            generic = false;
        } else if (auto* e = dyn_cast<StringLiteral>(s)) {
            kind = "Str";
            if (e->isOrdinary()) kv(attrs, "val", e->getString().substr(0, 80));
            generic = false;
        } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
            kind = "Chr";
            kn(attrs, "val", e->getValue());
            generic = false;
        } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            kind = "Null";
            generic = false;
        } else if (isa<CXXThisExpr>(s)) {
            kind = "This";
            generic = false;
        } else if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
            kind = "Cast";
            kv(attrs, "ck", s->getStmtClassName());
            kv(attrs, "cast", e->getCastKindName());
            ch.push_back(add(e->getSubExpr()));
            generic = false;
        } else if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
            kind = "Sub";
            ch.push_back(add(e->getBase()));
            ch.push_back(add(e->getIdx()));
            generic = false;
        } else if (auto* e = dyn_cast<ConditionalOperator>(s)) {
            kind = "Cond";
            ch = {add(e->getCond()), add(e->getTrueExpr()), add(e->getFalseExpr())};
            generic = false;
        } else if (auto* e = dyn_cast<InitListExpr>(s)) {
            kind = "InitList";
            if (e->isSemanticForm() || !e->getSemanticForm()) {
                for (auto* i : e->inits()) ch.push_back(add(i));
            } else {
                for (auto* i : e->getSemanticForm()->inits()) ch.push_back(add(i));
            }
            if (auto* rt = e->getType()->getAsCXXRecordDecl()) {
                kv(attrs, "cls", cx.qname(rt));
                attrs += ",\"flds\":[";
                bool f1 = true;
                for (auto* fd : rt->fields()) { if (!f1) attrs += ','; f1 = false; js(attrs, fd->getNameAsString()); }
                attrs += ']';
            }
            generic = false;
        } else if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
            kind = "Throw";
            if (e->getSubExpr()) ch.push_back(add(e->getSubExpr())); else kn(attrs, "re", 1);
            generic = false;
        } else if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            kind = "New";
            for (auto* p : e->placement_arguments()) ch.push_back(add(p));
            kn(attrs, "npl", e->getNumPlacementArgs());
            if (e->getArraySize() && *e->getArraySize()) ch.push_back(add(*e->getArraySize()));
            if (e->getInitializer()) ch.push_back(add(e->getInitializer()));
            generic = false;
        } else if (auto* e = dyn_cast<DeclStmt>(s)) {
            kind = "Decl";
            attrs += ",\"vars\":[";
            bool first = true;
            for (auto* d : e->decls()) {
                auto* v = dyn_cast<VarDecl>(d);
                if (!v) continue;
                if (!first) attrs += ',';
                first = false;
                std::string va = "{\"v\":";
                js(va, cx.vkey(v));
                kv(va, "n", v->getNameAsString());
                kn(va, "t", tid(v->getType()));
                if (v->isStaticLocal()) kn(va, "static", 1);
                if (v->getTLSKind() != VarDecl::TLS_None) kn(va, "tls", 1);
                if (v->isConstexpr()) kn(va, "cexpr", 1);
                if (v->hasInit()) {
                    int i = add(v->getInit());
                    kn(va, "i", i);
                    ch.push_back(i);
                }
                if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                    va += ",\"binds\":[";
                    bool f2 = true;
                    for (auto* b : dd->bindings()) {
                        if (!f2) va += ',';
                        f2 = false;
                        va += "{\"v\":"; js(va, cx.vkey(b));
                        if (b->getBinding()) {
                            const Stmt* be = strip(b->getBinding());
                            if (auto* me = dyn_cast_or_null<MemberExpr>(be)) { va += ",\"fd\":"; js(va, cx.qname(me->getMemberDecl())); }
                        }
                        kn(va, "t", tid(b->getType()));
                        va += '}';
                    }
                    va += ']';
                }
                va += '}';
                attrs += va;
            }
            attrs += ']';
            generic = false;
        } else if (auto* e = dyn_cast<IfStmt>(s)) {
            kind = "If";
            if (e->getInit()) ch.push_back(add(e->getInit()));
            int c = -1;
            if (e->getConditionVariableDeclStmt()) { int cv = add(e->getConditionVariableDeclStmt()); ch.push_back(cv); }
            c = add(e->getCond());
            kn(attrs, "cond", c);
            int th = add(e->getThen()), el = e->getElse() ? add(e->getElse()) : -1;
            kn(attrs, "then", th);
            kn(attrs, "else", el);
            if (e->isConstexpr()) kn(attrs, "cexpr", 1);
            ch.push_back(c); ch.push_back(th); if (el >= 0) ch.push_back(el);
            generic = false;
        } else if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
            kind = "RangeFor";
            if (e->getInit()) ch.push_back(add(e->getInit()));
            int r = add(e->getRangeInit());
            kn(attrs, "range", r);
            if (auto* v = e->getLoopVariable()) { kv(attrs, "var", cx.vkey(v)); kn(attrs, "vt", tid(v->getType())); }
            ch.push_back(add(e->getRangeStmt()));
            ch.push_back(add(e->getBeginStmt()));
            ch.push_back(add(e->getEndStmt()));
            ch.push_back(add(e->getCond()));
            ch.push_back(add(e->getInc()));
            ch.push_back(add(e->getLoopVarStmt()));
            int b = add(e->getBody());
            kn(attrs, "body", b);
            ch.push_back(b);
            generic = false;
        } else if (auto* e = dyn_cast<ForStmt>(s)) {
            kind = "For";
            int i = add(e->getInit()), c = add(e->getCond()), n = add(e->getInc()), b = add(e->getBody());
            kn(attrs, "init", i); kn(attrs, "cond", c); kn(attrs, "inc", n); kn(attrs, "body", b);
            for (int x : {i, c, n, b}) if (x >= 0) ch.push_back(x);
            generic = false;
        } else if (auto* e = dyn_cast<WhileStmt>(s)) {
            kind = "While";
            int c = add(e->getCond()), b = add(e->getBody());
            kn(attrs, "cond", c); kn(attrs, "body", b);
            ch = {c, b};
            generic = false;
        } else if (auto* e = dyn_cast<DoStmt>(s)) {
            kind = "Do";
            int c = add(e->getCond()), b = add(e->getBody());
            kn(attrs, "cond", c); kn(attrs, "body", b);
            ch = {b, c};
            generic = false;
        } else if (auto* e = dyn_cast<SwitchStmt>(s)) {
            kind = "Switch";
            int c = add(e->getCond()), b = add(e->getBody());
            kn(attrs, "cond", c); kn(attrs, "body", b);
            if (e->isAllEnumCasesCovered()) kn(attrs, "allenum", 1);
            ch = {c, b};
            generic = false;
        } else if (auto* e = dyn_cast<CaseStmt>(s)) {
            kind = "Case";
            int c = add(e->getLHS());
            int b = e->getSubStmt() ? add(e->getSubStmt()) : -1;
            Expr::EvalResult r;
            if (!e->getLHS()->isValueDependent() && e->getLHS()->EvaluateAsInt(r, cx.ast)) kv(attrs, "val", llvm::toString(r.Val.getInt(), 10));
            kn(attrs, "sub", b);
            ch.push_back(c); if (b >= 0) ch.push_back(b);
            generic = false;
        } else if (auto* e = dyn_cast<DefaultStmt>(s)) {
            kind = "Default";
            ch.push_back(add(e->getSubStmt()));
            generic = false;
        } else if (auto* e = dyn_cast<CXXTryStmt>(s)) {
            kind = "Try";
            int b = add(e->getTryBlock());
            kn(attrs, "body", b);
            ch.push_back(b);
            std::vector<int> hs;
            for (unsigned i = 0; i < e->getNumHandlers(); ++i) hs.push_back(add(e->getHandler(i)));
            kl(attrs, "hs", hs);
            ch.insert(ch.end(), hs.begin(), hs.end());
            generic = false;
        } else if (auto* e = dyn_cast<CXXCatchStmt>(s)) {
            kind = "Catch";
            if (e->getExceptionDecl()) { kv(attrs, "v", cx.vkey(e->getExceptionDecl())); kn(attrs, "ct", tid(e->getCaughtType())); }
            else kn(attrs, "all", 1);
            ch.push_back(add(e->getHandlerBlock()));
            generic = false;
        } else if (auto* e = dyn_cast<ReturnStmt>(s)) {
            kind = "Return";
            if (e->getRetValue()) ch.push_back(add(e->getRetValue()));
            generic = false;
        } else if (isa<CompoundStmt>(s)) {
            kind = "Block";
        } else if (isa<NullStmt>(s)) {
            kind = "Nop";
            generic = false;
        } else if (isa<BreakStmt>(s)) { kind = "Break"; generic = false; }
        else if (isa<ContinueStmt>(s)) { kind = "Continue"; generic = false; }
        else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            kind = "Trait";
            if (e->isArgumentType()) kn(attrs, "at", tid(e->getArgumentType()));
            generic = false;
        } else if (auto* e = dyn_cast<CXXNoexceptExpr>(s)) {
            kind = "Noexcept";
            kn(attrs, "val", e->isValueDependent() ? -1 : (int)e->getValue());
            ch.push_back(add(e->getOperand()));
            generic = false;
        } else if (auto* e = dyn_cast<UnresolvedLookupExpr>(s)) {
            kind = "URef"; kv(attrs, "n", e->getName().getAsString());
        } else if (auto* e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
            kind = "UMem"; kv(attrs, "n", e->getMember().getAsString());
        } else if (auto* e = dyn_cast<UnresolvedMemberExpr>(s)) {
            kind = "UMem"; kv(attrs, "n", e->getMemberName().getAsString());
        }

        if (generic) {
            for (auto* c : s->children()) {
                if (c) ch.push_back(add(c));
            }
        }
        js(o, kind);
        o += attrs;
        if (!ch.empty()) kl(o, "c", ch);
        o += '}';
        return o;
    }

    int pseudo(const std::string& json) {
        int id = count++;
        nodeJson.push_back(json);
        return id;
    }

    std::string write() {
        std::string o = "{\"name\":";
        js(o, cx.qname(fn));
        kv(o, "file", cx.file(fn->getLocation()));
        kn(o, "line", cx.line(fn->getLocation()));
        kn(o, "eline", cx.line(fn->getEndLoc()));
        kv(o, "dn", fn->getNameAsString());
        kn(o, "rt", tid(fn->getReturnType()));
        if (fn->isDependentContext()) kn(o, "dep", 1);
        if (fn->isTemplateInstantiation()) kn(o, "inst", 1);
        if (fn->isDefaulted()) kn(o, "defaulted", 1);
        if (fn->isConstexpr()) kn(o, "cexpr", 1);
        if (!fn->isExternallyVisible()) kn(o, "internal", 1);
        if (fn->isOverloadedOperator()) kv(o, "oo", getOperatorSpelling(fn->getOverloadedOperator()));
        if (auto* fpt = fn->getType()->getAs<FunctionProtoType>()) {
            if (!fn->isDependentContext() && !isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow()) kn(o, "nothrow", 1);
        }
        if (fn->hasAttr<WarnUnusedResultAttr>()) kn(o, "nodiscard", 1);
        if (auto* md = dyn_cast<CXXMethodDecl>(fn)) {
            kv(o, "cls", cx.qname(md->getParent()));
            if (md->isConst()) kn(o, "const", 1);
            if (md->isStatic()) kn(o, "static", 1);
            if (md->isVirtual()) kn(o, "virtual", 1);
            if (md->getParent()->isLambda()) {
                kn(o, "lambda", 1);
                const DeclContext* dc = md->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc) && !dc->isTranslationUnit()) dc = dc->getParent();
                if (dc && isa<FunctionDecl>(dc)) kv(o, "parent", cx.fkey(cast<FunctionDecl>(dc)));
                if (auto* lco = dyn_cast<CXXMethodDecl>(fn)) { if (lco->isConst()) {} }
            }
            const char* acc = md->getAccess() == AS_public ? "public" : md->getAccess() == AS_protected ? "protected" : md->getAccess() == AS_private ? "private" : "none";
            kv(o, "acc", acc);
            o += ",\"ovr\":[";
            bool f = true;
            for (auto* ov : md->overridden_methods()) { if (!f) o += ','; f = false; js(o, cx.fkey(ov)); }
            o += ']';
            if (auto* cd = dyn_cast<CXXConstructorDecl>(fn)) {
                kv(o, "ctor", cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "def" : "other");
                if (cd->isDelegatingConstructor()) kn(o, "delegating", 1);
            }
            if (isa<CXXDestructorDecl>(fn)) kn(o, "dtor", 1);
            if (md->isCopyAssignmentOperator()) kv(o, "asg", "copy");
            if (md->isMoveAssignmentOperator()) kv(o, "asg", "move");
        }
        if (auto* pt = fn->getTemplateInstantiationPattern()) kv(o, "pat", cx.fkey(pt));
        o += ",\"params\":[";
        bool first = true;
        for (auto* p : fn->parameters()) {
            if (!first) o += ',';
            first = false;
            std::string pa = "{\"v\":";
            js(pa, cx.vkey(p));
            kv(pa, "n", p->getNameAsString());
            kn(pa, "t", tid(p->getType()));
            if (p->hasDefaultArg()) kn(pa, "def", 1);
            pa += '}';
            o += pa;
        }
        o += ']';
        // ctor initialisers
        if (auto* cd = dyn_cast<CXXConstructorDecl>(fn)) {
            o += ",\"inits\":[";
            bool f = true;
            for (auto* in : cd->inits()) {
                if (!in->getInit()) continue;
                int i = add(in->getInit());
                if (!f) o += ',';
                f = false;
                std::string s = "{\"i\":" + std::to_string(i);
                if (in->isAnyMemberInitializer()) kv(s, "fd", cx.qname(in->getAnyMember()));
                else if (in->isBaseInitializer()) kv(s, "base", cx.type(QualType(in->getBaseClass(), 0)));
                else kn(s, "deleg", 1);
                if (in->isWritten()) kn(s, "w", 1);
                s += '}';
                o += s;
            }
            o += ']';
        }
        int body = -1;
        if (auto* b = fn->getBody()) {
            body = add(b);
        }
        kn(o, "body", body);
        // CFG
        if (!fn->isDependentContext() && fn->getBody()) {
            CFG::BuildOptions bo;
            bo.setAllAlwaysAdd();
            bo.AddImplicitDtors = true;
            bo.AddTemporaryDtors = true;
            bo.AddInitializers = true;
            bo.AddCXXDefaultInitExprInCtors = true;
            bo.PruneTriviallyFalseEdges = true;
            auto cfg = CFG::buildCFG(fn, fn->getBody(), &cx.ast, bo);
            if (cfg) {
                o += ",\"cfg\":{\"entry\":" + std::to_string(cfg->getEntry().getBlockID()) +
                     ",\"exit\":" + std::to_string(cfg->getExit().getBlockID()) + ",\"b\":[";
                bool fb = true;
                for (auto* blk : *cfg) {
                    if (!fb) o += ',';
                    fb = false;
                    o += "{\"id\":" + std::to_string(blk->getBlockID()) + ",\"e\":[";
                    bool fe = true;
                    int last = -1;
                    for (auto& el : *blk) {
                        int id = -1;
                        if (auto st = el.getAs<CFGStmt>()) {
                            id = add(st->getStmt());
                        } else if (auto in = el.getAs<CFGInitializer>()) {
                            auto* I = in->getInitializer();
                            if (!I->getInit()) continue;
                            int i = add(I->getInit());
                            std::string s = "{\"k\":\"Init\"";
                            if (I->isAnyMemberInitializer()) kv(s, "fd", cx.qname(I->getAnyMember()));
                            else if (I->isBaseInitializer()) kv(s, "base", cx.type(QualType(I->getBaseClass(), 0)));
                            else kn(s, "deleg", 1);
                            kn(s, "l", cx.line(I->getSourceLocation()));
                            kl(s, "c", {i});
                            s += '}';
                            id = pseudo(s);
                        } else if (auto ad = el.getAs<CFGAutomaticObjDtor>()) {
                            std::string s = "{\"k\":\"AutoDtor\"";
                            kv(s, "v", cx.vkey(ad->getVarDecl()));
                            kn(s, "t", tid(ad->getVarDecl()->getType()));
                            kn(s, "l", cx.line(ad->getTriggerStmt() ? ad->getTriggerStmt()->getEndLoc() : fn->getEndLoc()));
                            s += '}';
                            id = pseudo(s);
                        } else if (auto td = el.getAs<CFGTemporaryDtor>()) {
                            std::string s = "{\"k\":\"TempDtor\"";
                            auto* bt = td->getBindTemporaryExpr();
                            kn(s, "t", tid(bt->getType()));
                            kn(s, "l", cx.line(bt->getBeginLoc()));
                            kl(s, "x", {add(bt)});
                            s += '}';
                            id = pseudo(s);
                        }
                        if (id < 0 || id == last) continue;
                        last = id;
                        if (!fe) o += ',';
                        fe = false;
                        o += std::to_string(id);
                    }
                    o += "],\"s\":[";
                    bool fs = true;
                    for (auto& sc : blk->succs()) {
                        if (!fs) o += ',';
                        fs = false;
                        const CFGBlock* r = sc.getReachableBlock();
                        o += r ? std::to_string(r->getBlockID()) : "null";
                    }
                    o += ']';
                    if (auto* t = blk->getTerminatorStmt()) kn(o, "t", add(t));
                    if (auto* c = blk->getTerminatorCondition()) kn(o, "tc", add(c));
                    if (auto* l = blk->getLabel()) kn(o, "lb", add(l));
                    if (blk->hasNoReturnElement()) kn(o, "nr", 1);
                    if (blk->getLoopTarget()) kn(o, "lt", 1);
                    o += '}';
                }
                o += "]}";
            }
        }
        o += ",\"nodes\":[";
        for (size_t i = 0; i < nodeJson.size(); ++i) {
            if (i) o += ',';
            o += nodeJson[i].empty() ? "{\"k\":\"?\"}" : nodeJson[i];
        }
        o += "],\"T\":[";
        for (size_t i = 0; i < tlist.size(); ++i) { if (i) o += ','; js(o, tlist[i]); }
        o += "]}";
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
    Ctx cx;
    std::set<std::string> done;
    std::ostream& out;
public:
    Visitor(ASTContext& a, std::ostream& o) : cx{a}, out{o} {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    void emit(char kind, const std::string& key, const std::string& json) {
        out << kind << '\t' << key << '\t' << json << '\n';
    }

    bool VisitFunctionDecl(FunctionDecl* fd) {
        if (!fd->isThisDeclarationADefinition() && !fd->isPureVirtual()) return true;
        if (!cx.inRoots(fd->getLocation())) return true;
        if (fd->isDeleted()) return true;
        if (fd->isPureVirtual() && !fd->getBody()) {
            auto k = cx.fkey(fd);
            if (!done.insert(k).second) return true;
            FnWriter w{cx, fd};
            auto j = w.write();
            emit('F', k, j);
            return true;
        }
        if (!fd->doesThisDeclarationHaveABody()) return true;
        if (fd->isDefaulted() && fd->isImplicit()) return true;
        auto k = cx.fkey(fd);
        if (!done.insert(k).second) return true;
        FnWriter w{cx, fd};
        emit('F', k, w.write());
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* le) {
        // Generic-lambda instantiations are visited via the closure type's template; plain call operators here.
        auto* op = le->getCallOperator();
        if (op && op->getBody()) VisitFunctionDecl(op);
        if (auto* ft = op ? op->getDescribedFunctionTemplate() : nullptr) {
            for (auto* sp : ft->specializations()) if (sp->getBody()) VisitFunctionDecl(sp);
        }
        return true;
    }
    bool VisitEnumDecl(EnumDecl* ed) {
        if (!ed->isThisDeclarationADefinition() || !cx.inRoots(ed->getLocation())) return true;
        std::string o = "{\"name\":";
        auto n = cx.qname(ed);
        js(o, n);
        o += ",\"e\":[";
        bool f = true;
        for (auto* e : ed->enumerators()) {
            if (!f) o += ',';
            f = false;
            o += "["; js(o, e->getNameAsString()); o += ","; js(o, llvm::toString(e->getInitVal(), 10)); o += "]";
        }
        o += "],\"file\":"; js(o, cx.file(ed->getLocation()));
        o += ",\"line\":" + std::to_string(cx.line(ed->getLocation())) + "}";
        emit('E', n, o);
        return true;
    }
    static bool apval(const APValue& v, std::string& o) {
        if (v.isInt()) { llvm::SmallString<40> t; v.getInt().toString(t, 10); o += t.str().str(); return true; }
        if (v.isArray()) {
            o += "[";
            unsigned n = v.getArraySize();
            if (n > 4096) return false;
            for (unsigned i = 0; i < n; ++i) {
                if (i) o += ",";
                const APValue& e = i < v.getArrayInitializedElts() ? v.getArrayInitializedElt(i) : v.getArrayFiller();
                if (!apval(e, o)) return false;
            }
            o += "]";
            return true;
        }
        if (v.isStruct() && v.getStructNumFields() == 1 && v.getStructNumBases() == 0) return apval(v.getStructField(0), o); // std::array
        return false;
    }
    bool VisitVarDecl(VarDecl* vd) {
        if (vd->isLocalVarDecl() || isa<ParmVarDecl>(vd)) return true;
        if (!cx.inRoots(vd->getLocation())) return true;
        if (!vd->isThisDeclarationADefinition()) return true;
        if (vd->getDeclContext()->isDependentContext()) return true;
        std::string o = "{\"name\":";
        auto n = cx.qname(vd);
        js(o, n);
        o += ",\"t\":"; js(o, cx.type(vd->getType()));
        o += ",\"const\":"; o += (vd->getType().isConstQualified() || vd->isConstexpr()) ? "1" : "0";
        if (vd->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
        if ((vd->getType().isConstQualified() || vd->isConstexpr()) && vd->hasInit() && !vd->getInit()->isValueDependent() &&
            !vd->getType()->isReferenceType()) {
            if (const APValue* v = vd->evaluateValue()) {
                std::string sv;
                if (apval(*v, sv)) o += ",\"val\":" + sv;
            }
        }
        o += ",\"file\":"; js(o, cx.file(vd->getLocation()));
        o += ",\"line\":" + std::to_string(cx.line(vd->getLocation())) + "}";
        emit('G', n, o);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isLambda()) return true;
        if (!cx.inRoots(rd->getLocation())) return true;
        std::string n = cx.qname(rd);
        std::string full = cx.type(QualType(rd->getTypeForDecl(), 0));
        std::string o = "{\"name\":";
        js(o, n);
        o += ",\"full\":"; js(o, full);
        o += ",\"dep\":"; o += rd->isDependentContext() ? "1" : "0";
        o += ",\"file\":"; js(o, cx.file(rd->getLocation()));
        o += ",\"line\":" + std::to_string(cx.line(rd->getLocation()));
        o += ",\"bases\":[";
        bool f = true;
        for (auto& b : rd->bases()) {
            if (!f) o += ',';
            f = false;
            if (auto* br = b.getType()->getAsCXXRecordDecl()) js(o, cx.qname(br)); else js(o, cx.type(b.getType()));
        }
        o += "],\"fields\":[";
        f = true;
        for (auto* fd : rd->fields()) {
            if (!f) o += ',';
            f = false;
            o += "{\"n\":"; js(o, fd->getNameAsString());
            o += ",\"t\":"; js(o, cx.type(fd->getType()));
            o += ",\"acc\":"; js(o, fd->getAccess() == AS_public ? "public" : fd->getAccess() == AS_protected ? "protected" : "private");
            if (fd->isMutable()) o += ",\"mut\":1";
            if (fd->hasInClassInitializer()) o += ",\"dinit\":1";
            if (fd->getType().isConstQualified()) o += ",\"const\":1";
            if (fd->getType()->isReferenceType()) o += ",\"ref\":1";
            if (fd->getType()->isScalarType()) o += ",\"scalar\":1";
            o += '}';
        }
        o += "],\"methods\":[";
        f = true;
        for (auto* md : rd->methods()) {
            if (md->isImplicit() && !md->isDefaulted()) continue;
            if (!f) o += ',';
            f = false;
            o += "{\"n\":"; js(o, md->getNameAsString());
            o += ",\"f\":"; js(o, cx.fkey(md));
            o += ",\"acc\":"; js(o, md->getAccess() == AS_public ? "public" : md->getAccess() == AS_protected ? "protected" : "private");
            if (md->isVirtual()) o += ",\"virt\":1";
            if (md->isPureVirtual()) o += ",\"pure\":1";
            if (md->isImplicit()) o += ",\"impl\":1";
            if (md->isDefaulted()) o += ",\"dflt\":1";
            if (md->isDeleted()) o += ",\"del\":1";
            if (md->isConst()) o += ",\"const\":1";
            if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) {
                o += ",\"ctor\":"; js(o, cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "def" : "other");
            }
            if (md->isCopyAssignmentOperator()) o += ",\"asg\":\"copy\"";
            if (md->isMoveAssignmentOperator()) o += ",\"asg\":\"move\"";
            o += '}';
        }
        o += "]}";
        emit('R', rd->isDependentContext() ? "T:" + full + "@" + n : full, o);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        Visitor v{ctx, std::cout};
        v.TraverseDecl(ctx.getTranslationUnitDecl());
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv) {
    std::ios::sync_with_stdio(false);
    // usage: mir <main.cpp> --root <prefix> [--root ...] -- <flags>
    std::vector<std::string> flags;
    int i = 1;
    g_main = argv[i++];
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--root") g_roots.push_back(argv[++i]);
        else if (a == "--") { ++i; break; }
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {g_main});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    std::cout.flush();
    return rc;
}
