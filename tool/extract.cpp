// Qrack static-analysis extractor: parses translation units with the real build's flags (clang libTooling) and
// writes, per function defined under the analysed root, a simplified resolved syntax tree plus its control-flow
// graph, and per class its fields/bases/methods, as JSON.  No judgement is made here; the rules are in ../lib.
//
// usage: qextract ROOT OUT.json FILE... -- compiler-flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;

static std::string gRoot;
static std::set<std::string> gSeenFn, gSeenCls;
static std::vector<std::string> gFns, gClss, gVars;
static std::unordered_map<std::string, int> gTypes;
static std::vector<std::string> gTypeList;
static int gDeclCounter = 0;
static std::vector<std::string> gDiags;

static std::string esc(llvm::StringRef s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += c;
        }
    }
    return o + "\"";
}

struct Ctx {
    ASTContext& A;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::unordered_map<const Decl*, int> declIds;
    Ctx(ASTContext& a)
        : A(a)
        , SM(a.getSourceManager())
        , PP(a.getLangOpts())
        , MC(a.createMangleContext())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }
    int did(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        return declIds[d] = ++gDeclCounter;
    }
    int ty(QualType q)
    {
        if (q.isNull())
            return -1;
        std::string s = q.getCanonicalType().getAsString(PP);
        auto it = gTypes.find(s);
        if (it != gTypes.end())
            return it->second;
        int n = gTypeList.size();
        gTypes[s] = n;
        gTypeList.push_back(s);
        return n;
    }
    std::string file(SourceLocation l)
    {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid())
            return "";
        llvm::SmallString<256> rp;
        std::string f = p.getFilename();
        auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)));
        if (fe) {
            llvm::StringRef r = fe->getFileEntry().tryGetRealPathName();
            if (!r.empty())
                f = r.str();
        }
        return f;
    }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inRoot(SourceLocation l)
    {
        std::string f = file(l);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }
    std::string rel(SourceLocation l)
    {
        std::string f = file(l);
        if (f.compare(0, gRoot.size(), gRoot) == 0)
            return f.substr(gRoot.size());
        return f;
    }
    std::string fid(const FunctionDecl* f)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (f->isTemplated() || isa<CXXDeductionGuideDecl>(f)) {
            os << f->getQualifiedNameAsString() << "<tmpl>";
            return os.str();
        }
        GlobalDecl gd;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            gd = GlobalDecl(c, Ctor_Complete);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f))
            gd = GlobalDecl(d, Dtor_Complete);
        else
            gd = GlobalDecl(f);
        if (MC->shouldMangleDeclName(f))
            MC->mangleName(gd, os);
        else
            os << f->getNameAsString();
        return os.str();
    }
    std::string qn(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }
};

struct FnEmitter {
    Ctx& C;
    std::string out; // function json
    std::unordered_map<const Stmt*, int> ids;
    int next = 0;
    std::string myId;
    int lambdaCount = 0;
    std::vector<std::pair<const LambdaExpr*, std::string>> lambdas;
    FnEmitter(Ctx& c)
        : C(c)
    {
    }

    static const Stmt* strip1(const Stmt* s)
    {
        if (!s)
            return s;
        if (auto* e = dyn_cast<ParenExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<ImplicitCastExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<FullExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
            return e->getReplacement();
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s))
            return e->getSubExpr();
        if (auto* e = dyn_cast<AttributedStmt>(s))
            return e->getSubStmt();
        return s;
    }
    static const Stmt* strip(const Stmt* s)
    {
        while (s) {
            const Stmt* n = strip1(s);
            if (n == s)
                return s;
            s = n;
        }
        return s;
    }
    int idOf(const Stmt* s)
    {
        s = strip(s);
        if (!s)
            return -1;
        auto it = ids.find(s);
        return it == ids.end() ? -1 : it->second;
    }
    std::string kids(std::initializer_list<const Stmt*> l)
    {
        std::string o = "[";
        bool f = true;
        for (auto* s : l) {
            if (!f)
                o += ",";
            f = false;
            o += node(s);
        }
        return o + "]";
    }
    std::string paramModes(const FunctionProtoType* t, unsigned nargs)
    {
        std::string o;
        for (unsigned i = 0; i < nargs; i++) {
            if (!t || i >= t->getNumParams()) {
                o += "v";
                continue;
            }
            QualType q = t->getParamType(i).getCanonicalType();
            if (q->isRValueReferenceType())
                o += "m";
            else if (q->isLValueReferenceType())
                o += q->getPointeeType().isConstQualified() ? "c" : "r";
            else if (q->isPointerType())
                o += q->getPointeeType().isConstQualified() ? "q" : "p";
            else
                o += "v";
        }
        return o;
    }
    std::string decl(const Decl* d)
    {
        if (auto* v = dyn_cast<VarDecl>(d)) {
            std::string o = "{\"k\":\"var\",\"i\":" + std::to_string(next++) + ",\"l\":" + std::to_string(C.line(v->getLocation())) +
                ",\"n\":" + esc(v->getNameAsString()) + ",\"d\":" + std::to_string(C.did(v)) + ",\"t\":" + std::to_string(C.ty(v->getType()));
            if (v->isStaticLocal())
                o += ",\"static\":1";
            if (v->getTLSKind() != VarDecl::TLS_None)
                o += ",\"tls\":1";
            if (v->hasInit())
                o += ",\"c\":[" + node(v->getInit()) + "]";
            return o + "}";
        }
        return "{\"k\":\"odecl\",\"i\":" + std::to_string(next++) + "}";
    }
    void constVal(const Expr* e, std::string& o)
    {
        if (e->isValueDependent() || e->isTypeDependent() || e->containsErrors())
            return;
        QualType q = e->getType();
        if (q.isNull())
            return;
        if (q->isIntegralOrEnumerationType()) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C.A)) {
                llvm::SmallString<40> s;
                r.Val.getInt().toString(s, 10);
                o += ",\"v\":" + esc(s);
            }
        } else if (q->isRealFloatingType()) {
            llvm::APFloat f(0.0);
            Expr::EvalResult r;
            if (e->EvaluateAsRValue(r, C.A) && r.Val.isFloat()) {
                llvm::SmallString<40> s;
                r.Val.getFloat().toString(s);
                o += ",\"v\":" + esc(s);
            }
        }
    }
    std::string node(const Stmt* s0)
    {
        const Stmt* s = strip(s0);
        if (!s)
            return "null";
        int id = next++;
        ids[s] = id;
        std::string h = ",\"i\":" + std::to_string(id) + ",\"l\":" + std::to_string(C.line(s->getBeginLoc()));
        if (auto* e = dyn_cast<Expr>(s))
            h += ",\"t\":" + std::to_string(C.ty(e->getType()));
        auto mk = [&](const char* k) { return std::string("{\"k\":\"") + k + "\"" + h; };
        // statements
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            std::string o = mk("block") + ",\"c\":[";
            bool f = true;
            for (auto* c : x->body()) {
                if (!f)
                    o += ",";
                f = false;
                o += node(c);
            }
            return o + "]}";
        }
        if (auto* x = dyn_cast<IfStmt>(s))
            return mk("if") + ",\"c\":[" + node(x->getInit()) + "," + (x->getConditionVariableDeclStmt() ? node(x->getConditionVariableDeclStmt()) : std::string("null")) + "," + node(x->getCond()) + "," + node(x->getThen()) + "," + node(x->getElse()) + "]}";
        if (auto* x = dyn_cast<WhileStmt>(s))
            return mk("while") + ",\"c\":" + kids({ x->getCond(), x->getBody() }) + "}";
        if (auto* x = dyn_cast<DoStmt>(s))
            return mk("do") + ",\"c\":" + kids({ x->getBody(), x->getCond() }) + "}";
        if (auto* x = dyn_cast<ForStmt>(s))
            return mk("for") + ",\"c\":" + kids({ x->getInit(), x->getCond(), x->getInc(), x->getBody() }) + "}";
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            std::string o = mk("forrange") + ",\"c\":[" + node(x->getRangeInit());
            o += "," + node(x->getLoopVarStmt());
            o += "," + node(x->getBody()) + "]}";
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s))
            return mk("switch") + ",\"c\":" + kids({ x->getCond(), x->getBody() }) + "}";
        if (auto* x = dyn_cast<CaseStmt>(s))
            return mk("case") + ",\"c\":" + kids({ x->getLHS(), x->getSubStmt() }) + "}";
        if (auto* x = dyn_cast<DefaultStmt>(s))
            return mk("default") + ",\"c\":" + kids({ x->getSubStmt() }) + "}";
        if (auto* x = dyn_cast<ReturnStmt>(s))
            return mk("return") + ",\"c\":" + kids({ x->getRetValue() }) + "}";
        if (isa<BreakStmt>(s))
            return mk("break") + "}";
        if (isa<ContinueStmt>(s))
            return mk("continue") + "}";
        if (isa<NullStmt>(s))
            return mk("null") + "}";
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            std::string o = mk("try") + ",\"c\":[" + node(x->getTryBlock());
            for (unsigned i = 0; i < x->getNumHandlers(); i++)
                o += "," + node(x->getHandler(i));
            return o + "]}";
        }
        if (auto* x = dyn_cast<CXXCatchStmt>(s)) {
            std::string o = mk("catch");
            if (x->getExceptionDecl()) {
                o += ",\"et\":" + std::to_string(C.ty(x->getCaughtType()));
                o += ",\"d\":" + std::to_string(C.did(x->getExceptionDecl()));
            }
            return o + ",\"c\":[" + node(x->getHandlerBlock()) + "]}";
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            std::string o = mk("decl") + ",\"c\":[";
            bool f = true;
            for (auto* d : x->decls()) {
                if (!f)
                    o += ",";
                f = false;
                o += decl(d);
            }
            return o + "]}";
        }
        // expressions
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(s))
            return mk("defarg") + ",\"c\":" + kids({ x->getExpr() }) + "}";
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(s))
            return mk("definit") + ",\"c\":" + kids({ x->getExpr() }) + "}";
        if (auto* x = dyn_cast<DeclRefExpr>(s)) {
            std::string o = mk("ref");
            const ValueDecl* d = x->getDecl();
            o += ",\"n\":" + esc(d->getNameAsString());
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v))
                    o += ",\"dk\":\"parm\",\"d\":" + std::to_string(C.did(v));
                else if (v->isLocalVarDecl() && !v->isStaticLocal())
                    o += ",\"dk\":\"local\",\"d\":" + std::to_string(C.did(v));
                else {
                    o += ",\"dk\":\"global\",\"q\":" + esc(C.qn(v)) + ",\"d\":" + std::to_string(C.did(v));
                    if (v->getTLSKind() != VarDecl::TLS_None)
                        o += ",\"tls\":1";
                }
                if (x->refersToEnclosingVariableOrCapture())
                    o += ",\"capt\":1";
                QualType vt = v->getType().getCanonicalType();
                if (vt->isReferenceType())
                    o += vt->getPointeeType().isConstQualified() ? ",\"rt\":\"c\"" : ",\"rt\":\"r\"";
                if (vt.isConstQualified() || v->isConstexpr())
                    constVal(x, o);
            } else if (auto* f = dyn_cast<FunctionDecl>(d))
                o += ",\"dk\":\"func\",\"q\":" + esc(C.qn(f)) + ",\"fid\":" + esc(C.fid(f));
            else if (isa<EnumConstantDecl>(d)) {
                o += ",\"dk\":\"enum\",\"q\":" + esc(C.qn(d));
                constVal(x, o);
            } else
                o += ",\"dk\":\"other\",\"d\":" + std::to_string(C.did(d));
            return o + "}";
        }
        if (auto* x = dyn_cast<MemberExpr>(s)) {
            std::string o = mk("mem");
            const ValueDecl* d = x->getMemberDecl();
            o += ",\"n\":" + esc(d->getNameAsString()) + ",\"q\":" + esc(C.qn(d));
            if (x->isArrow())
                o += ",\"arrow\":1";
            if (auto* f = dyn_cast<FunctionDecl>(d))
                o += ",\"fid\":" + esc(C.fid(f));
            return o + ",\"c\":" + kids({ x->getBase() }) + "}";
        }
        if (isa<CXXThisExpr>(s))
            return mk("this") + "}";
        if (auto* x = dyn_cast<CallExpr>(s)) {
            std::string o = mk("call");
            const FunctionDecl* f = x->getDirectCallee();
            const Expr* obj = nullptr;
            std::vector<const Expr*> args(x->arg_begin(), x->arg_end());
            const CXXMemberCallExpr* mc = dyn_cast<CXXMemberCallExpr>(x);
            const CXXOperatorCallExpr* oc = dyn_cast<CXXOperatorCallExpr>(x);
            bool virt = false;
            if (mc) {
                obj = mc->getImplicitObjectArgument();
                auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts());
                if (auto* md = mc->getMethodDecl()) {
                    virt = md->isVirtual() && !(me && me->hasQualifier());
                    if (md->isConst())
                        o += ",\"cm\":1";
                }
                if (me && me->hasQualifier())
                    o += ",\"qualcall\":1";
                if (obj) {
                    QualType ot = obj->getType();
                    if (ot->isPointerType())
                        ot = ot->getPointeeType();
                    o += ",\"ot\":" + std::to_string(C.ty(ot.getUnqualifiedType()));
                }
            }
            if (oc) {
                o += ",\"op\":" + esc(getOperatorSpelling(oc->getOperator()));
                if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                    obj = args[0];
                    args.erase(args.begin());
                    if (cast<CXXMethodDecl>(f)->isConst())
                        o += ",\"cm\":1";
                }
            }
            if (f) {
                o += ",\"q\":" + esc(C.qn(f)) + ",\"n\":" + esc(f->getNameAsString()) + ",\"fid\":" + esc(C.fid(f));
                if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
                    o += ",\"cls\":" + esc(C.qn(md->getParent()));
                    if (md->isStatic())
                        o += ",\"sm\":1";
                }
                if (virt)
                    o += ",\"virt\":1";
                const FunctionProtoType* pt = f->getType()->getAs<FunctionProtoType>();
                o += ",\"pm\":" + esc(paramModes(pt, args.size()));
                if (pt && pt->isNothrow())
                    o += ",\"nt\":1";
                QualType rt = f->getReturnType().getCanonicalType();
                if (rt->isLValueReferenceType())
                    o += rt->getPointeeType().isConstQualified() ? ",\"rr\":\"c\"" : ",\"rr\":\"r\"";
            } else {
                // call through a value: std::function handled above (operator()), function pointers here
                o += ",\"ind\":" + node(x->getCallee());
            }
            if (obj)
                o += ",\"o\":" + node(obj);
            o += ",\"c\":[";
            bool ff = true;
            for (auto* a : args) {
                if (!ff)
                    o += ",";
                ff = false;
                o += node(a);
            }
            o += "]";
            if (x->getType()->isIntegralOrEnumerationType() && f && f->isConstexpr())
                constVal(x, o);
            return o + "}";
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
            std::string o = mk("ctor");
            const CXXConstructorDecl* f = x->getConstructor();
            o += ",\"q\":" + esc(C.qn(f)) + ",\"cls\":" + esc(C.qn(f->getParent())) + ",\"fid\":" + esc(C.fid(f));
            if (f->isCopyConstructor())
                o += ",\"cp\":1";
            if (f->isMoveConstructor())
                o += ",\"mv\":1";
            const FunctionProtoType* pt = f->getType()->getAs<FunctionProtoType>();
            if (pt && pt->isNothrow())
                o += ",\"nt\":1";
            o += ",\"pm\":" + esc(paramModes(pt, x->getNumArgs()));
            o += ",\"c\":[";
            for (unsigned i = 0; i < x->getNumArgs(); i++) {
                if (i)
                    o += ",";
                o += node(x->getArg(i));
            }
            return o + "]}";
        }
        if (auto* x = dyn_cast<BinaryOperator>(s)) {
            std::string o = mk(x->isAssignmentOp() ? "asg" : "bin");
            o += ",\"op\":" + esc(x->getOpcodeStr());
            constVal(x, o);
            return o + ",\"c\":" + kids({ x->getLHS(), x->getRHS() }) + "}";
        }
        if (auto* x = dyn_cast<UnaryOperator>(s)) {
            std::string o = mk("un");
            o += ",\"op\":" + esc(UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix())
                o += ",\"post\":1";
            constVal(x, o);
            return o + ",\"c\":" + kids({ x->getSubExpr() }) + "}";
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(s)) {
            std::string o = mk("cond");
            constVal(x, o);
            return o + ",\"c\":" + kids({ x->getCond(), x->getTrueExpr(), x->getFalseExpr() }) + "}";
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(s))
            return mk("idx") + ",\"c\":" + kids({ x->getBase(), x->getIdx() }) + "}";
        if (auto* x = dyn_cast<ExplicitCastExpr>(s)) {
            std::string o = mk("cast");
            o += ",\"ck\":" + esc(x->getStmtClassName());
            constVal(x, o);
            return o + ",\"c\":" + kids({ x->getSubExpr() }) + "}";
        }
        if (auto* x = dyn_cast<LambdaExpr>(s)) {
            std::string lid = myId + "::$" + std::to_string(lambdaCount++);
            std::string o = mk("lambda");
            o += ",\"fid\":" + esc(lid) + ",\"cap\":[";
            bool f = true;
            auto ii = x->capture_init_begin();
            for (auto& c : x->captures()) {
                if (!f)
                    o += ",";
                f = false;
                o += "{\"by\":";
                if (c.capturesThis())
                    o += c.getCaptureKind() == LCK_StarThis ? "\"starthis\"" : "\"this\"";
                else
                    o += c.getCaptureKind() == LCK_ByRef ? "\"ref\"" : "\"copy\"";
                if (c.isImplicit())
                    o += ",\"impl\":1";
                if (c.capturesVariable()) {
                    auto* v = c.getCapturedVar();
                    o += ",\"n\":" + esc(v->getNameAsString()) + ",\"d\":" + std::to_string(C.did(v)) + ",\"t\":" + std::to_string(C.ty(v->getType()));
                    if (auto* vd = dyn_cast<VarDecl>(v))
                        if (vd->isInitCapture())
                            o += ",\"init\":" + node(vd->getInit());
                }
                o += "}";
                ++ii;
            }
            o += "]}";
            lambdas.push_back({ x, lid });
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(s)) {
            const InitListExpr* sx = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            std::string o = mk("initlist") + ",\"c\":[";
            for (unsigned i = 0; i < sx->getNumInits(); i++) {
                if (i)
                    o += ",";
                o += node(sx->getInit(i));
            }
            ids[sx] = id;
            return o + "]}";
        }
        if (auto* x = dyn_cast<CXXNewExpr>(s)) {
            std::string o = mk("new");
            o += ",\"at\":" + std::to_string(C.ty(x->getAllocatedType()));
            if (x->isArray())
                o += ",\"arr\":1";
            std::string o2 = ",\"c\":[";
            if (x->isArray() && x->getArraySize())
                o2 += node(*x->getArraySize());
            else
                o2 += "null";
            if (x->getInitializer())
                o2 += "," + node(x->getInitializer());
            return o + o2 + "]}";
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(s))
            return mk("delete") + (x->isArrayForm() ? ",\"arr\":1" : "") + ",\"c\":" + kids({ x->getArgument() }) + "}";
        if (auto* x = dyn_cast<CXXThrowExpr>(s))
            return mk("throw") + ",\"c\":" + kids({ x->getSubExpr() }) + "}";
        if (auto* x = dyn_cast<IntegerLiteral>(s)) {
            std::string o = mk("lit");
            constVal(x, o);
            return o + "}";
        }
        if (auto* x = dyn_cast<FloatingLiteral>(s)) {
            std::string o = mk("lit");
            constVal(x, o);
            return o + "}";
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s))
            return mk("lit") + ",\"v\":" + esc(x->getValue() ? "1" : "0") + ",\"b\":1}";
        if (auto* x = dyn_cast<CharacterLiteral>(s))
            return mk("lit") + ",\"v\":" + esc(std::to_string(x->getValue())) + "}";
        if (auto* x = dyn_cast<StringLiteral>(s))
            return mk("str") + ",\"s\":" + esc(x->getCharByteWidth() == 1 ? x->getString() : "") + "}";
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
            return mk("nullptr") + "}";
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            std::string o = mk("sizeof");
            constVal(x, o);
            return o + "}";
        }
        // generic
        std::string o = mk("other");
        o += ",\"sc\":" + esc(s->getStmtClassName()) + ",\"c\":[";
        bool f = true;
        for (auto* c : s->children()) {
            if (!f)
                o += ",";
            f = false;
            o += node(c);
        }
        return o + "]}";
    }

    std::string cfgJson(const Decl* d, Stmt* body)
    {
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = true;
        bo.PruneTriviallyFalseEdges = false;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(d, body, &C.A, bo);
        if (!cfg)
            return "null";
        std::string o = "{\"entry\":" + std::to_string(cfg->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(cfg->getExit().getBlockID()) + ",\"b\":[";
        bool fb = true;
        for (auto* b : *cfg) {
            if (!fb)
                o += ",";
            fb = false;
            o += "{\"id\":" + std::to_string(b->getBlockID()) + ",\"e\":[";
            bool fe = true;
            int last = -2;
            for (auto& el : *b) {
                if (auto st = el.getAs<CFGStmt>()) {
                    int id = idOf(st->getStmt());
                    // wrappers map to the same node: emit once, at its own position
                    if (id < 0 || strip(st->getStmt()) != st->getStmt())
                        continue;
                    if (id == last)
                        continue;
                    last = id;
                    if (!fe)
                        o += ",";
                    fe = false;
                    o += std::to_string(id);
                } else if (auto dt = el.getAs<CFGAutomaticObjDtor>()) {
                    if (!fe)
                        o += ",";
                    fe = false;
                    o += "[\"dtor\"," + std::to_string(C.did(dt->getVarDecl())) + "]";
                } else if (auto ini = el.getAs<CFGInitializer>()) {
                    int id = ini->getInitializer()->getInit() ? idOf(ini->getInitializer()->getInit()) : -1;
                    if (!fe)
                        o += ",";
                    fe = false;
                    o += "[\"init\"," + std::to_string(id) + "]";
                }
            }
            o += "],\"s\":[";
            bool fs = true;
            for (auto& su : b->succs()) {
                if (!fs)
                    o += ",";
                fs = false;
                const CFGBlock* t = su.getReachableBlock();
                if (!t)
                    t = su.getPossiblyUnreachableBlock();
                o += t ? std::to_string(t->getBlockID()) : "-1";
            }
            o += "]";
            if (auto* t = b->getTerminatorStmt()) {
                o += ",\"term\":" + std::to_string(idOf(t));
                const char* kn = t->getStmtClassName();
                o += ",\"tk\":" + esc(kn);
                if (auto* tc = b->getTerminatorCondition())
                    o += ",\"tc\":" + std::to_string(idOf(tc));
            }
            if (auto* lb = b->getLabel())
                o += ",\"lb\":" + std::to_string(idOf(lb));
            if (b->hasNoReturnElement())
                o += ",\"nr\":1";
            o += "}";
        }
        return o + "]}";
    }

    void params(const FunctionDecl* f, std::string& o)
    {
        o += ",\"params\":[";
        bool ff = true;
        for (auto* p : f->parameters()) {
            if (!ff)
                o += ",";
            ff = false;
            o += "{\"n\":" + esc(p->getNameAsString()) + ",\"d\":" + std::to_string(C.did(p)) + ",\"t\":" + std::to_string(C.ty(p->getType()));
            QualType q = p->getType().getCanonicalType();
            const char* m = "v";
            if (q->isRValueReferenceType())
                m = "m";
            else if (q->isLValueReferenceType())
                m = q->getPointeeType().isConstQualified() ? "c" : "r";
            else if (q->isPointerType())
                m = q->getPointeeType().isConstQualified() ? "q" : "p";
            o += std::string(",\"m\":\"") + m + "\"";
            if (p->hasDefaultArg())
                o += ",\"def\":1";
            o += "}";
        }
        o += "]";
    }

    // returns list of function jsons (the function and its lambdas)
    void run(const FunctionDecl* f, const std::string& id, const std::string& parent, const LambdaExpr* lam = nullptr)
    {
        myId = id;
        std::string o = "{\"id\":" + esc(id) + ",\"q\":" + esc(lam ? parent + "::$lambda" : C.qn(f)) + ",\"n\":" + esc(lam ? "$lambda" : f->getNameAsString());
        o += ",\"file\":" + esc(C.rel(f->getLocation())) + ",\"line\":" + std::to_string(C.line(f->getLocation())) + ",\"end\":" + std::to_string(C.line(f->getEndLoc()));
        o += ",\"ret\":" + std::to_string(C.ty(f->getReturnType()));
        if (lam)
            o += ",\"lam\":1,\"parent\":" + esc(parent);
        if (f->isExternC())
            o += ",\"extc\":1";
        if (!lam)
            for (auto* rd : f->redecls()) {
                std::string rf = C.rel(rd->getLocation());
                if (rf.size() > 4 && rf.substr(rf.size() - 4) == ".hpp") {
                    o += ",\"hdr\":" + esc(rf);
                    break;
                }
            }
        if (f->getStorageClass() == SC_Static || f->isInAnonymousNamespace())
            o += ",\"internal\":1";
        if (auto* pt = f->getType()->getAs<FunctionProtoType>())
            if (pt->isNothrow())
                o += ",\"nt\":1";
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (!lam) {
                o += ",\"cls\":" + esc(C.qn(m->getParent()));
                if (m->isVirtual())
                    o += ",\"virt\":1";
                if (m->isStatic())
                    o += ",\"sm\":1";
                if (m->isConst())
                    o += ",\"const\":1";
                o += std::string(",\"acc\":\"") + (m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private") + "\"";
                if (m->size_overridden_methods()) {
                    o += ",\"ovr\":[";
                    bool ff = true;
                    for (auto* om : m->overridden_methods()) {
                        if (!ff)
                            o += ",";
                        ff = false;
                        o += esc(C.fid(om));
                    }
                    o += "]";
                }
            }
        }
        if (isa<CXXConstructorDecl>(f))
            o += ",\"ctor\":1";
        if (isa<CXXDestructorDecl>(f))
            o += ",\"dtor\":1";
        if (f->isDefaulted())
            o += ",\"defaulted\":1";
        if (f->isTemplateInstantiation()) {
            o += ",\"inst\":1";
        }
        params(f, o);
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            o += ",\"inits\":[";
            bool ff = true;
            for (auto* in : cd->inits()) {
                if (!ff)
                    o += ",";
                ff = false;
                o += "{";
                if (in->isAnyMemberInitializer())
                    o += "\"field\":" + esc(in->getAnyMember()->getNameAsString());
                else if (in->isBaseInitializer())
                    o += "\"base\":" + std::to_string(C.ty(QualType(in->getBaseClass(), 0)));
                else if (in->isDelegatingInitializer())
                    o += "\"deleg\":1";
                if (in->isWritten())
                    o += ",\"w\":1";
                o += ",\"e\":" + node(in->getInit()) + "}";
            }
            o += "]";
        }
        Stmt* body = f->getBody();
        o += ",\"body\":" + node(body);
        o += ",\"cfg\":" + cfgJson(f, body);
        o += "}";
        gFns.push_back(o);
        auto ls = lambdas;
        for (auto& l : ls) {
            FnEmitter e(C);
            const CXXMethodDecl* op = l.first->getCallOperator();
            e.run(op, l.second, id, l.first);
        }
    }
};

struct V : RecursiveASTVisitor<V> {
    Ctx& C;
    V(Ctx& c)
        : C(c)
    {
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isTemplated() || f->isDeleted())
            return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return true;
        if (!C.inRoot(f->getLocation()))
            return true;
        if (f->isInvalidDecl())
            return true;
        std::string id = C.fid(f);
        if (f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(f))
            id += "@" + C.rel(f->getLocation());
        if (!gSeenFn.insert(id).second)
            return true;
        FnEmitter e(C);
        e.run(f, id, "");
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v) || !C.inRoot(v->getLocation()) || v->getDeclContext()->isDependentContext())
            return true;
        if (!v->isFileVarDecl())
            return true;
        std::string k = "var:" + C.qn(v);
        if (!v->isThisDeclarationADefinition() || !gSeenCls.insert(k).second)
            return true;
        FnEmitter e(C);
        e.myId = k;
        std::string o = "{\"q\":" + esc(C.qn(v)) + ",\"file\":" + esc(C.rel(v->getLocation())) + ",\"line\":" + std::to_string(C.line(v->getLocation())) + ",\"t\":" + std::to_string(C.ty(v->getType()));
        if (v->getTLSKind() != VarDecl::TLS_None)
            o += ",\"tls\":1";
        if (v->hasInit() && !v->getInit()->isValueDependent())
            o += ",\"init\":" + e.node(v->getInit());
        gVars.push_back(o + "}");
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isDependentContext() || !C.inRoot(r->getLocation()))
            return true;
        std::string q = C.qn(r);
        if (!gSeenCls.insert(q).second)
            return true;
        std::string o = "{\"q\":" + esc(q) + ",\"file\":" + esc(C.rel(r->getLocation())) + ",\"line\":" + std::to_string(C.line(r->getLocation())) + ",\"bases\":[";
        bool f = true;
        for (auto& b : r->bases()) {
            if (!f)
                o += ",";
            f = false;
            if (auto* br = b.getType()->getAsCXXRecordDecl())
                o += esc(C.qn(br));
            else
                o += "\"\"";
        }
        o += "],\"fields\":[";
        f = true;
        for (auto* fd : r->fields()) {
            if (!f)
                o += ",";
            f = false;
            o += "{\"n\":" + esc(fd->getNameAsString()) + ",\"t\":" + std::to_string(C.ty(fd->getType())) + ",\"l\":" + std::to_string(C.line(fd->getLocation())) + "}";
        }
        o += "],\"methods\":[";
        f = true;
        for (auto* m : r->methods()) {
            if (!f)
                o += ",";
            f = false;
            o += "{\"n\":" + esc(m->getNameAsString()) + ",\"id\":" + esc(C.fid(m));
            if (m->isVirtual())
                o += ",\"virt\":1";
            if (m->isPureVirtual())
                o += ",\"pure\":1";
            if (m->isImplicit())
                o += ",\"implicit\":1";
            if (m->isDefaulted())
                o += ",\"defaulted\":1";
            if (m->isDeleted())
                o += ",\"deleted\":1";
            if (m->isConst())
                o += ",\"const\":1";
            if (m->isStatic())
                o += ",\"sm\":1";
            if (isa<CXXConstructorDecl>(m))
                o += ",\"ctor\":1";
            o += std::string(",\"acc\":\"") + (m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private") + "\"";
            o += ",\"l\":" + std::to_string(C.line(m->getLocation()));
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) {
                if (cd->isCopyConstructor())
                    o += ",\"cp\":1";
            }
            FnEmitter e(C);
            e.params(m, o);
            o += ",\"ret\":" + std::to_string(C.ty(m->getReturnType()));
            if (m->size_overridden_methods()) {
                o += ",\"ovr\":[";
                bool g = true;
                for (auto* om : m->overridden_methods()) {
                    if (!g)
                        o += ",";
                    g = false;
                    o += esc(C.fid(om));
                }
                o += "]";
            }
            o += "}";
        }
        o += "]}";
        gClss.push_back(o);
        return true;
    }
};

struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& A) override
    {
        Ctx c(A);
        V v(c);
        v.TraverseDecl(A.getTranslationUnitDecl());
    }
};

struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Cons>();
    }
};

int main(int argc, const char** argv)
{
    if (argc < 5)
        return 2;
    gRoot = argv[1];
    if (gRoot.back() != '/')
        gRoot += '/';
    std::string outp = argv[2];
    std::vector<std::string> files, flags;
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; i++)
        files.push_back(argv[i]);
    for (i++; i < argc; i++)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
    std::error_code ec;
    llvm::raw_fd_ostream os(outp, ec);
    if (ec)
        return 3;
    os << "{\"types\":[";
    for (size_t k = 0; k < gTypeList.size(); k++)
        os << (k ? "," : "") << esc(gTypeList[k]);
    auto dump = [&](const char* n, std::vector<std::string>& l) {
        os << "],\n\"" << n << "\":[\n";
        for (size_t k = 0; k < l.size(); k++)
            os << (k ? ",\n" : "") << l[k];
    };
    dump("functions", gFns);
    dump("classes", gClss);
    dump("vars", gVars);
    os << "]}\n";
    return rc;
}
