// jomex: dumps the type-checked program of one translation unit as JSON.
// Every function whose definition lies below the given root directory is
// written with resolved callees, fields, variables and constants.
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;

class Dumper : public RecursiveASTVisitor<Dumper>
{
public:
    explicit Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
        pp.AnonymousTagLocations = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy pp;
    Array functions, records, globals, enums;
    std::map<const Decl *, int> ids;
    std::set<std::string> seen;
    std::set<const Decl *> seenDecl;

    int idOf(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end())
            return it->second;
        int n = int(ids.size()) + 1;
        ids[d] = n;
        return n;
    }
    std::string fileOf(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        if (l.isInvalid())
            return std::string();
        return sm.getFilename(l).str();
    }
    unsigned lineOf(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        return l.isInvalid() ? 0 : sm.getExpansionLineNumber(l);
    }
    bool inRoot(SourceLocation l)
    {
        std::string f = fileOf(l);
        return f.compare(0, g_root.size(), g_root) == 0;
    }
    std::string relFile(SourceLocation l)
    {
        std::string f = fileOf(l);
        if (f.compare(0, g_root.size(), g_root) == 0)
            return f.substr(g_root.size());
        return f;
    }
    std::string typeStr(QualType t)
    {
        if (t.isNull())
            return "?";
        return t.getCanonicalType().getAsString(pp);
    }
    // q: class of values: b bool, i integer, e enum, p pointer, r record, f floating, v void, o other
    std::string typeKind(QualType t)
    {
        if (t.isNull())
            return "o";
        t = t.getNonReferenceType().getCanonicalType();
        if (t->isBooleanType()) return "b";
        if (t->isEnumeralType()) return "e";
        if (t->isIntegerType()) return t->isUnsignedIntegerType() ? "u" : "i";
        if (t->isPointerType() || t->isNullPtrType()) return "p";
        if (t->isRecordType()) return "r";
        if (t->isFloatingType()) return "f";
        if (t->isVoidType()) return "v";
        return "o";
    }
    std::string recordName(QualType t)
    {
        if (t.isNull())
            return "";
        t = t.getNonReferenceType();
        if (t->isPointerType())
            t = t->getPointeeType();
        if (const CXXRecordDecl *r = t->getAsCXXRecordDecl())
            return qual(r);
        return "";
    }
    std::string qual(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        return s;
    }
    std::string funcName(const FunctionDecl *f)
    {
        return qual(f);
    }
    std::string funcKey(const FunctionDecl *f)
    {
        std::string s = qual(f);
        s += "(";
        for (unsigned i = 0; i < f->getNumParams(); ++i) {
            if (i) s += ",";
            s += typeStr(f->getParamDecl(i)->getType());
        }
        s += ")";
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isConst())
                s += "const";
            if (m->getParent()->isLambda())
                s += "@" + relFile(m->getParent()->getBeginLoc()) + ":" + std::to_string(lineOf(m->getParent()->getBeginLoc()))
                  + ":" + std::to_string(sm.getExpansionColumnNumber(sm.getExpansionLoc(m->getParent()->getBeginLoc())));
        }
        if (!f->hasExternalFormalLinkage() && !isa<CXXMethodDecl>(f)) {
            const FunctionDecl *def = nullptr;
            if (f->isDefined(def))
                s += "@" + relFile(def->getLocation());
        }
        return s;
    }
    std::string paramKind(QualType t)
    {
        if (t->isReferenceType()) {
            if (t->isRValueReferenceType())
                return "m"; // rvalue ref
            return t->getPointeeType().isConstQualified() ? "c" : "r";
        }
        if (t->isPointerType()) {
            if (t->getPointeeType()->isFunctionType())
                return "v";
            return t->getPointeeType().isConstQualified() ? "q" : "p";
        }
        return "v";
    }

    void put(Object &o, const char *k, Value v) { o[k] = std::move(v); }

    Object node(const char *kind, SourceLocation l)
    {
        Object o;
        o["k"] = kind;
        unsigned n = lineOf(l);
        o["l"] = n;
        if (!inRoot(l)) o["xf"] = 1;
        return o;
    }

    const Expr *strip(const Expr *e)
    {
        for (;;) {
            if (!e)
                return e;
            if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
                e = x->getSubExpr();
            }
            else if (auto *x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else return e;
        }
    }

    std::string escapeUtf(const StringLiteral *sl)
    {
        std::string r;
        if (sl->getCharByteWidth() == 1) {
            for (unsigned char c : sl->getBytes()) {
                if (c < 0x80) r += char(c);
                else { r += char(0xc0 | (c >> 6)); r += char(0x80 | (c & 0x3f)); }
            }
        } else {
            for (unsigned i = 0; i < sl->getLength(); ++i) {
                unsigned c = sl->getCodeUnit(i);
                if (c < 0x80) r += char(c);
                else if (c < 0x800) { r += char(0xc0 | (c >> 6)); r += char(0x80 | (c & 0x3f)); }
                else { r += char(0xe0 | ((c >> 12) & 0xf)); r += char(0x80 | ((c >> 6) & 0x3f)); r += char(0x80 | (c & 0x3f)); }
            }
        }
        return r;
    }

    bool tryConst(const Expr *e, Object &o)
    {
        QualType t = e->getType();
        if (e->isValueDependent() || e->isTypeDependent())
            return false;
        if (t->isNullPtrType()) {
            o["k"] = "int"; o["v"] = 0; o["t"] = "p";
            return true;
        }
        if (!(t->isIntegralOrEnumerationType()))
            return false;
        if (isa<CallExpr>(e) || isa<CXXConstructExpr>(e))
            return false;
        Expr::EvalResult r;
        if (!e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
            return false;
        if (r.HasSideEffects || !r.Val.isInt())
            return false;
        const llvm::APSInt &v = r.Val.getInt();
        o["k"] = "int";
        if (v.isUnsigned() && v.getActiveBits() <= 63)
            o["v"] = int64_t(v.getZExtValue());
        else if (v.isUnsigned())
            o["v"] = int64_t(v.getZExtValue());
        else
            o["v"] = v.getExtValue();
        o["t"] = typeKind(t);
        if (auto *dr = dyn_cast<DeclRefExpr>(e)) {
            o["n"] = qual(dr->getDecl());
        }
        return true;
    }

    Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) ;

    void addCallee(Object &o, const FunctionDecl *f)
    {
        if (!f)
            return;
        o["f"] = funcName(f);
        o["u"] = funcKey(f);
        std::string p;
        for (unsigned i = 0; i < f->getNumParams(); ++i)
            p += paramKind(f->getParamDecl(i)->getType());
        if (f->isVariadic()) p += "*";
        o["p"] = p;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qual(m->getParent());
            if (m->isConst()) o["const"] = 1;
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isStatic()) o["static"] = 1;
        }
        if (f->isNoReturn()) o["noret"] = 1;
        const FunctionDecl *def = nullptr;
        SourceLocation l = f->getLocation();
        if (f->isDefined(def) && def) l = def->getLocation();
        else if (const FunctionDecl *pat = f->getTemplateInstantiationPattern()) l = pat->getLocation();
        if (inRoot(l) || inRoot(f->getLocation()))
            o["own"] = 1;
    }

    Value exprs(const Expr *e)
    {
        return expr(e);
    }

    Value expr(const Expr *e0)
    {
        const Expr *e = strip(e0);
        if (!e)
            return nullptr;
        // pointer-null conversions
        if (auto *ic = dyn_cast_or_null<ImplicitCastExpr>(e0)) {
            if (ic->getCastKind() == CK_NullToPointer) {
                Object o = node("int", e->getBeginLoc());
                o["v"] = 0; o["t"] = "p";
                return std::move(o);
            }
        }
        {
            Object o = node("int", e->getBeginLoc());
            if (!isa<InitListExpr>(e) && tryConst(e, o))
                return std::move(o);
        }
        // conversions that may change the value
        const Expr *ie = e0;
        while (auto *x = dyn_cast_or_null<ParenExpr>(ie))
            ie = x->getSubExpr();
        if (auto *ic = dyn_cast_or_null<ImplicitCastExpr>(ie)) {
            if (ic->getCastKind() == CK_IntegralCast) {
                QualType dt = ic->getType(), st = ic->getSubExpr()->getType();
                uint64_t dw = ctx.getTypeSize(dt), sw = ctx.getTypeSize(st);
                bool narrow = dw <= 16 && sw > dw;
                bool sign = dt->isSignedIntegerType() && st->isUnsignedIntegerType() && sw >= 32 && isa<MemberExpr>(e);
                if ((narrow || sign) && !st->isEnumeralType() && !dt->isEnumeralType()) {
                    Object o = node("cast", e->getBeginLoc());
                    o["e"] = expr(ic->getSubExpr());
                    o["ty"] = typeStr(dt);
                    o["t"] = typeKind(dt);
                    if (narrow) o["nw"] = (int64_t)(dt->isSignedIntegerType() ? -(int64_t)dw : (int64_t)dw);
                    if (sign) o["sg"] = 1;
                    return std::move(o);
                }
            }
        }
        SourceLocation loc = e->getExprLoc();
        if (loc.isInvalid()) loc = e->getBeginLoc();

        if (auto *x = dyn_cast<StringLiteral>(e)) {
            Object o = node("str", loc);
            o["v"] = escapeUtf(x);
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
            Value v = expr(x->getExpr());
            if (Object *o = v.getAsObject())
                (*o)["def"] = 1;
            return v;
        }
        if (isa<CXXThisExpr>(e)) {
            Object o = node("this", loc);
            return std::move(o);
        }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl *d = x->getDecl();
            if (auto *f = dyn_cast<FunctionDecl>(d)) {
                Object o = node("fref", loc);
                addCallee(o, f);
                return std::move(o);
            }
            if (auto *b = dyn_cast<BindingDecl>(d)) {
                Object o = node("bind", loc);
                o["id"] = idOf(b);
                o["n"] = b->getNameAsString();
                if (b->getBinding()) o["e"] = expr(b->getBinding());
                return std::move(o);
            }
            Object o = node("var", loc);
            o["id"] = idOf(d);
            o["n"] = d->getNameAsString();
            o["t"] = typeKind(d->getType());
            o["ty"] = typeStr(d->getType());
            if (auto *v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v)) o["g"] = "param";
                else if (v->isStaticDataMember()) { o["g"] = "smember"; o["n"] = qual(v); }
                else if (v->isStaticLocal()) o["g"] = "static";
                else if (v->hasGlobalStorage()) { o["g"] = "global"; o["n"] = qual(v); }
                else o["g"] = "local";
                if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
            }
            return std::move(o);
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl *d = x->getMemberDecl();
            if (auto *f = dyn_cast<FunctionDecl>(d)) {
                Object o = node("fref", loc);
                addCallee(o, f);
                o["b"] = expr(x->getBase());
                return std::move(o);
            }
            if (auto *v = dyn_cast<VarDecl>(d)) {
                Object o = node("var", loc);
                o["id"] = idOf(v);
                o["n"] = qual(v);
                o["g"] = "smember";
                o["t"] = typeKind(v->getType());
                o["ty"] = typeStr(v->getType());
                return std::move(o);
            }
            Object o = node("mem", loc);
            o["b"] = expr(x->getBase());
            o["n"] = qual(d);
            o["t"] = typeKind(d->getType());
            o["ty"] = typeStr(d->getType());
            if (x->isArrow()) o["arrow"] = 1;
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            Object o = node("call", loc);
            const FunctionDecl *f = x->getDirectCallee();
            addCallee(o, f);
            Array a;
            unsigned i = 0;
            o["op"] = getOperatorSpelling(x->getOperator());
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
                o["o"] = expr(x->getArg(0));
                i = 1;
            }
            for (; i < x->getNumArgs(); ++i)
                a.push_back(expr(x->getArg(i)));
            o["a"] = std::move(a);
            o["t"] = typeKind(x->getCallReturnType(ctx));
            o["ty"] = typeStr(x->getCallReturnType(ctx));
            return std::move(o);
        }
        if (auto *x = dyn_cast<CallExpr>(e)) {
            Object o = node("call", loc);
            const FunctionDecl *f = x->getDirectCallee();
            if (f)
                addCallee(o, f);
            else
                o["fe"] = expr(x->getCallee());
            if (auto *m = dyn_cast<CXXMemberCallExpr>(e)) {
                if (m->getImplicitObjectArgument()) {
                    o["o"] = expr(m->getImplicitObjectArgument());
                    if (auto *me = dyn_cast<MemberExpr>(strip(m->getCallee()))) {
                        if (me->isArrow()) o["arrow"] = 1;
                        if (me->hasQualifier()) o["nonvirt"] = 1;
                    }
                    o["oty"] = typeStr(m->getObjectType());
                }
                if (isa_and_nonnull<CXXConversionDecl>(f)) o["conv"] = 1;
            }
            Array a;
            for (unsigned i = 0; i < x->getNumArgs(); ++i)
                a.push_back(expr(x->getArg(i)));
            o["a"] = std::move(a);
            o["t"] = typeKind(x->getCallReturnType(ctx));
            o["ty"] = typeStr(x->getCallReturnType(ctx));
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            Object o = node("ctor", loc);
            const CXXConstructorDecl *c = x->getConstructor();
            addCallee(o, c);
            o["c"] = qual(c->getParent());
            if (c->isCopyConstructor()) o["cp"] = 1;
            if (c->isMoveConstructor()) o["mv"] = 1;
            if (c->isDefaultConstructor()) o["dc"] = 1;
            Array a;
            for (unsigned i = 0; i < x->getNumArgs(); ++i)
                a.push_back(expr(x->getArg(i)));
            o["a"] = std::move(a);
            o["ty"] = typeStr(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            Object o = node("ctor", loc);
            addCallee(o, x->getConstructor());
            o["c"] = qual(x->getConstructor()->getParent());
            o["a"] = Array();
            return std::move(o);
        }
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            Object o = node("un", loc);
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = expr(x->getSubExpr());
            o["t"] = typeKind(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            Object o = node(x->isAssignmentOp() ? "asg" : "bin", loc);
            std::string op = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["op"] = op;
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["t"] = typeKind(x->getType());
            o["at"] = typeKind(x->getLHS()->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            Object o = node("cond", loc);
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            o["t"] = typeKind(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
            Value v = expr(x->getSubExpr());
            QualType t = x->getType();
            Object o = node("cast", loc);
            o["e"] = std::move(v);
            o["ty"] = typeStr(x->getTypeAsWritten());
            o["t"] = typeKind(t);
            o["ck"] = x->getCastKindName();
            o["st"] = typeKind(x->getSubExprAsWritten()->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            Object o = node("sub", loc);
            o["a"] = expr(x->getBase());
            o["b"] = expr(x->getIdx());
            o["t"] = typeKind(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            Object o = node("ilist", loc);
            Array a;
            const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            for (const Expr *i : s->inits())
                a.push_back(expr(i));
            o["a"] = std::move(a);
            o["ty"] = typeStr(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            Object o = node("new", loc);
            o["ty"] = typeStr(x->getAllocatedType());
            o["c"] = recordName(x->getAllocatedType());
            o["arr"] = x->isArray();
            if (x->getInitializer()) o["i"] = expr(x->getInitializer());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
            Object o = node("delete", loc);
            o["e"] = expr(x->getArgument());
            o["arr"] = x->isArrayForm();
            o["ty"] = typeStr(x->getDestroyedType());
            o["c"] = recordName(x->getDestroyedType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            Object o = node("throw", loc);
            if (x->getSubExpr()) {
                o["e"] = expr(x->getSubExpr());
                o["c"] = recordName(x->getSubExpr()->getType());
            }
            return std::move(o);
        }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            Object o = node("lambda", loc);
            const CXXMethodDecl *m = x->getCallOperator();
            o["u"] = funcKey(m);
            o["f"] = funcName(m);
            Array caps;
            for (const LambdaCapture &c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = 1;
                else if (c.capturesVariable()) {
                    co["id"] = idOf(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            Object o = node("int", loc);
            o["v"] = 0; o["t"] = typeKind(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) {
            Object o = node("int", loc);
            o["v"] = 0; o["t"] = typeKind(x->getType());
            return std::move(o);
        }
        if (auto *x = dyn_cast<StmtExpr>(e)) {
            Object o = node("stmtexpr", loc);
            o["b"] = stmt(x->getSubStmt());
            return std::move(o);
        }
        if (isa<PredefinedExpr>(e)) {
            Object o = node("str", loc);
            o["v"] = "__func__";
            return std::move(o);
        }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
            if (x->getSourceExpr()) return expr(x->getSourceExpr());
        }
        Object o = node("unk", loc);
        o["cls"] = e->getStmtClassName();
        Array a;
        for (const Stmt *c : e->children())
            if (c)
                if (auto *ce = dyn_cast<Expr>(c))
                    a.push_back(expr(ce));
        o["a"] = std::move(a);
        return std::move(o);
    }

    Value varDecl(const VarDecl *v)
    {
        Object o = node("decl", v->getLocation());
        o["id"] = idOf(v);
        o["n"] = v->getNameAsString();
        o["ty"] = typeStr(v->getType());
        o["t"] = typeKind(v->getType());
        o["rec"] = v->getType()->isRecordType() ? recordName(v->getType()) : "";
        if (v->getType()->isReferenceType()) o["ref"] = 1;
        if (v->getType().isConstQualified()) o["cst"] = 1;
        if (v->getType()->isReferenceType() && v->getType()->getPointeeType().isConstQualified()) o["cref"] = 1;
        if (v->isStaticLocal()) o["static"] = 1;
        if (v->hasInit()) o["i"] = expr(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array a;
            for (auto *b : dd->bindings()) {
                Object bo; bo["id"] = idOf(b); bo["n"] = b->getNameAsString();
                a.push_back(std::move(bo));
            }
            o["binds"] = std::move(a);
        }
        return std::move(o);
    }

    Value stmt(const Stmt *s)
    {
        if (!s)
            return nullptr;
        if (auto *e = dyn_cast<Expr>(s)) {
            Object o = node("expr", e->getBeginLoc());
            o["e"] = expr(e);
            return std::move(o);
        }
        SourceLocation loc = s->getBeginLoc();
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            Object o = node("block", loc);
            Array a;
            for (const Stmt *c : x->body())
                a.push_back(stmt(c));
            o["b"] = std::move(a);
            o["el"] = lineOf(x->getEndLoc());
            return std::move(o);
        }
        if (auto *x = dyn_cast<DeclStmt>(s)) {
            Object o = node("decls", loc);
            Array a;
            for (const Decl *d : x->decls())
                if (auto *v = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(v));
            o["d"] = std::move(a);
            return std::move(o);
        }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            Object o = node("if", loc);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            if (x->getElse()) o["b"] = stmt(x->getElse());
            return std::move(o);
        }
        if (auto *x = dyn_cast<WhileStmt>(s)) {
            Object o = node("while", loc);
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return std::move(o);
        }
        if (auto *x = dyn_cast<DoStmt>(s)) {
            Object o = node("do", loc);
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return std::move(o);
        }
        if (auto *x = dyn_cast<ForStmt>(s)) {
            Object o = node("for", loc);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            Object o = node("rfor", loc);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["v"] = varDecl(x->getLoopVariable());
            o["r"] = expr(x->getRangeInit());
            o["b"] = stmt(x->getBody());
            return std::move(o);
        }
        if (auto *x = dyn_cast<SwitchStmt>(s)) {
            Object o = node("switch", loc);
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CaseStmt>(s)) {
            Object o = node("case", loc);
            o["v"] = expr(x->getLHS());
            if (x->getRHS()) o["v2"] = expr(x->getRHS());
            o["b"] = stmt(x->getSubStmt());
            return std::move(o);
        }
        if (auto *x = dyn_cast<DefaultStmt>(s)) {
            Object o = node("default", loc);
            o["b"] = stmt(x->getSubStmt());
            return std::move(o);
        }
        if (isa<BreakStmt>(s)) return node("break", loc);
        if (isa<ContinueStmt>(s)) return node("continue", loc);
        if (isa<NullStmt>(s)) return node("null", loc);
        if (auto *x = dyn_cast<ReturnStmt>(s)) {
            Object o = node("return", loc);
            if (x->getRetValue()) o["e"] = expr(x->getRetValue());
            return std::move(o);
        }
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            Object o = node("try", loc);
            o["b"] = stmt(x->getTryBlock());
            Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                const CXXCatchStmt *c = x->getHandler(i);
                Object h = node("catch", c->getBeginLoc());
                if (c->getExceptionDecl()) {
                    h["v"] = varDecl(c->getExceptionDecl());
                    h["c"] = recordName(c->getCaughtType());
                    h["ty"] = typeStr(c->getCaughtType());
                }
                h["b"] = stmt(c->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return std::move(o);
        }
        if (auto *x = dyn_cast<GotoStmt>(s)) {
            Object o = node("goto", loc);
            o["n"] = x->getLabel()->getNameAsString();
            return std::move(o);
        }
        if (auto *x = dyn_cast<LabelStmt>(s)) {
            Object o = node("label", loc);
            o["n"] = x->getDecl()->getNameAsString();
            o["b"] = stmt(x->getSubStmt());
            return std::move(o);
        }
        if (auto *x = dyn_cast<AttributedStmt>(s))
            return stmt(x->getSubStmt());
        Object o = node("unkstmt", loc);
        o["cls"] = s->getStmtClassName();
        return std::move(o);
    }

    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext())
            return true;
        if (!inRoot(f->getLocation()))
            return true;
        if (f->isImplicit() && !(isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda()))
            return true;
        if (!seenDecl.insert(f->getCanonicalDecl()).second)
            return true;
        Object o;
        o["f"] = funcName(f);
        o["u"] = funcKey(f);
        o["file"] = relFile(f->getLocation());
        o["line"] = lineOf(f->getLocation());
        o["end"] = lineOf(f->getEndLoc());
        Array ps;
        for (const ParmVarDecl *p : f->parameters()) {
            Object po;
            po["id"] = idOf(p);
            po["n"] = p->getNameAsString();
            po["ty"] = typeStr(p->getType());
            po["t"] = typeKind(p->getType());
            po["pk"] = paramKind(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = typeStr(f->getReturnType());
        o["rt"] = typeKind(f->getReturnType());
        if (!f->hasExternalFormalLinkage()) o["internal"] = 1;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qual(m->getParent());
            if (m->isConst()) o["const"] = 1;
            if (m->isStatic()) o["static"] = 1;
            if (m->isVirtual()) {
                o["virt"] = 1;
                Array ov;
                for (auto *b : m->overridden_methods())
                    ov.push_back(funcKey(b));
                o["over"] = std::move(ov);
            }
            if (m->getParent()->isLambda()) o["lambda"] = 1;
            o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
        }
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            o["kind"] = "ctor";
            if (c->isCopyConstructor()) o["cp"] = 1;
            Array is;
            for (const CXXCtorInitializer *i : c->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) {
                    io["n"] = qual(i->getAnyMember());
                    io["t"] = typeKind(i->getAnyMember()->getType());
                }
                else if (i->isBaseInitializer())
                    io["base"] = typeStr(QualType(i->getBaseClass(), 0));
                else
                    io["deleg"] = 1;
                io["w"] = i->isWritten();
                io["l"] = lineOf(i->getSourceLocation());
                if (i->getInit()) io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        } else if (isa<CXXDestructorDecl>(f)) {
            o["kind"] = "dtor";
        } else {
            o["kind"] = "fn";
        }
        o["body"] = stmt(f->getBody());
        functions.push_back(std::move(o));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        if (!inRoot(r->getLocation()))
            return true;
        Object o;
        o["n"] = qual(r);
        o["file"] = relFile(r->getLocation());
        o["line"] = lineOf(r->getLocation());
        Array fs;
        for (const FieldDecl *f : r->fields()) {
            Object fo;
            fo["n"] = qual(f);
            fo["ty"] = typeStr(f->getType());
            fo["t"] = typeKind(f->getType());
            fo["init"] = f->hasInClassInitializer();
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["ie"] = expr(f->getInClassInitializer());
            fo["line"] = lineOf(f->getLocation());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (const CXXBaseSpecifier &b : r->bases())
            bs.push_back(typeStr(b.getType()));
        o["bases"] = std::move(bs);
        Array ms;
        std::string section;
        for (const Decl *d : r->decls()) {
            if (auto *a = dyn_cast<AccessSpecDecl>(d)) {
                section.clear();
                for (auto *at : a->specific_attrs<AnnotateAttr>())
                    section = at->getAnnotation().str();
                continue;
            }
            if (auto *m = dyn_cast<CXXMethodDecl>(d)) {
                if (m->isImplicit()) continue;
                Object mo;
                mo["f"] = funcName(m);
                mo["u"] = funcKey(m);
                mo["sec"] = section;
                mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
                if (m->isDeleted()) mo["del"] = 1;
                if (m->isDefaulted()) mo["dflt"] = 1;
                if (m->isCopyAssignmentOperator()) mo["casg"] = 1;
                if (auto *c = dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"] = 1; if (c->isCopyConstructor()) mo["cp"] = 1; }
                if (isa<CXXDestructorDecl>(m)) mo["dtor"] = 1;
                ms.push_back(std::move(mo));
            }
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl *v)
    {
        if (v->isStaticLocal() || !v->hasGlobalStorage() || isa<ParmVarDecl>(v))
            return true;
        if (!inRoot(v->getLocation()) || v->getType()->isDependentType())
            return true;
        if (v->isThisDeclarationADefinition() != VarDecl::Definition)
            return true;
        Object o;
        o["n"] = qual(v);
        o["id"] = idOf(v);
        o["file"] = relFile(v->getLocation());
        o["line"] = lineOf(v->getLocation());
        o["ty"] = typeStr(v->getType());
        if (v->getAnyInitializer()) {
            bool big = v->getType()->isArrayType();
            (void)big;
            o["i"] = expr(v->getAnyInitializer());
        }
        globals.push_back(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl *e)
    {
        if (!inRoot(e->getLocation()) || !e->isThisDeclarationADefinition())
            return true;
        Object o;
        o["n"] = qual(e);
        Array a;
        for (auto *c : e->enumerators()) {
            Object co;
            co["n"] = qual(c);
            co["v"] = c->getInitVal().getExtValue();
            a.push_back(std::move(co));
        }
        o["v"] = std::move(a);
        enums.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        Dumper d(ctx);
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["globals"] = std::move(d.globals);
        o["enums"] = std::move(d.enums);
        llvm::outs() << Value(std::move(o)) << "\n";
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char **argv)
{
    // jomex ROOT FILE -- flags...
    if (argc < 4) {
        llvm::errs() << "usage: jomex ROOT FILE -- FLAGS\n";
        return 2;
    }
    g_root = argv[1];
    std::string file = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    class F : public tooling::FrontendActionFactory {
    public:
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
    } factory;
    return tool.run(&factory);
}
