// cxx2ir: mechanical extraction of the functions of a translation unit into a JSON IR.
//
// Parses a real source file with clang 18 (same flags as the project's build) and writes, for every function with a
// body whose file lies under --root, its complete statement/expression tree with resolved callees and types, and for
// every record under --root its fields.  Dropped: comments, attributes, value-category/no-op casts, temporaries'
// cleanups.  Everything else is kept; constructs the exporter does not know are emitted as {"k":"unsupported",...}.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;

namespace {

class Emitter {
public:
    ASTContext& C;
    SourceManager& SM;
    std::map<const void*, int> ids;
    std::map<std::string, int> typeIdx;
    Array types;
    PrintingPolicy PP;

    explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressUnwrittenScope = true;
    }

    int idOf(const Decl* d) {
        const Decl* c = d->getCanonicalDecl();
        auto it       = ids.find(c);
        if (it != ids.end())
            return it->second;
        int n  = (int) ids.size() + 1;
        ids[c] = n;
        return n;
    }

    std::string fileOf(SourceLocation l) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid())
            return "";
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)))) {
            llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
            if (!rp.empty())
                return rp.str();
        }
        return p.getFilename();
    }
    int lineOf(SourceLocation l) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? (int) p.getLine() : 0;
    }
    bool underRoot(SourceLocation l) {
        if (l.isInvalid())
            return false;
        std::string f = fileOf(l);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }

    // ---------------------------------------------------------------- types
    Value typeObj(QualType qt, int depth) {
        QualType t = qt.getCanonicalType();
        if (t->isReferenceType())
            return Object{
                {"c", "ref"},
                {"const", t->getPointeeType().isConstQualified()},
                {"rv", t->isRValueReferenceType()},
                {"t", typeObj(t->getPointeeType(), depth)}
            };
        t = t.getUnqualifiedType();
        if (t->isVoidType())
            return Object{{"c", "void"}};
        if (t->isBooleanType())
            return Object{{"c", "bool"}};
        if (auto et = t->getAs<EnumType>())
            return Object{{"c", "enum"}, {"n", et->getDecl()->getQualifiedNameAsString()}};
        if (t->isAnyCharacterType())
            return Object{{"c", "int"}, {"char", true}, {"w", (int64_t) C.getTypeSize(t)}, {"s", t->isSignedIntegerType()}};
        if (t->isIntegerType())
            return Object{{"c", "int"}, {"w", (int64_t) C.getTypeSize(t)}, {"s", t->isSignedIntegerType()}};
        if (t->isFloatingType())
            return Object{{"c", "flt"}, {"w", (int64_t) C.getTypeSize(t)}};
        if (t->isNullPtrType())
            return Object{{"c", "null"}};
        if (t->isPointerType())
            return Object{{"c", "ptr"}, {"t", depth > 4 ? Value(Object{{"c", "deep"}}) : typeObj(t->getPointeeType(), depth + 1)}};
        if (t->isFunctionType())
            return Object{{"c", "fn"}};
        if (auto at = C.getAsConstantArrayType(t))
            return Object{{"c", "arr"}, {"t", typeObj(at->getElementType(), depth + 1)}, {"n", (int64_t) at->getSize().getZExtValue()}};
        if (auto rd = t->getAsCXXRecordDecl()) {
            Object o{{"c", "rec"}, {"n", rd->getQualifiedNameAsString()}};
            if (rd->isLambda())
                o["lambda"] = true;
            if (underRoot(rd->getLocation()))
                o["repo"] = true;
            if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                Array a;
                if (depth < 4)
                    for (auto& arg : sp->getTemplateArgs().asArray()) {
                        if (arg.getKind() == TemplateArgument::Type)
                            a.push_back(typeObj(arg.getAsType(), depth + 1));
                        else if (arg.getKind() == TemplateArgument::Integral)
                            a.push_back((int64_t) arg.getAsIntegral().getExtValue());
                        else if (arg.getKind() == TemplateArgument::Pack) {
                            Array pk;
                            for (auto& pa : arg.pack_elements())
                                if (pa.getKind() == TemplateArgument::Type)
                                    pk.push_back(typeObj(pa.getAsType(), depth + 1));
                            a.push_back(Value(std::move(pk)));
                        } else
                            a.push_back(nullptr);
                    }
                o["a"] = std::move(a);
            }
            return o;
        }
        return Object{{"c", "other"}, {"s", t.getAsString()}};
    }
    int ty(QualType qt) {
        std::string key = qt.getCanonicalType().getAsString();
        auto it         = typeIdx.find(key);
        if (it != typeIdx.end())
            return it->second;
        int n        = (int) types.size();
        typeIdx[key] = n;
        types.push_back(nullptr);
        Value v  = typeObj(qt, 0);
        types[n] = std::move(v);
        return n;
    }

    // ---------------------------------------------------------------- functions
    std::string fnKey(const FunctionDecl* fd) {
        std::string s;
        llvm::raw_string_ostream os(s);
        fd->printQualifiedName(os, PP);
        os << "(";
        bool first = true;
        for (auto p : fd->parameters()) {
            if (!first)
                os << ",";
            first = false;
            os << p->getType().getCanonicalType().getAsString(PP);
        }
        os << ")";
        if (auto m = dyn_cast<CXXMethodDecl>(fd))
            if (m->isConst())
                os << "const";
        if (!fd->isExternallyVisible())
            os << "@" << fileOf(fd->getLocation());
        return s;
    }
    std::string qn(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return s;
    }
    Object calleeInfo(const FunctionDecl* fd) {
        if (const FunctionDecl* pat = fd; pat) {
        }
        bool repo = underRoot(fd->getLocation());
        Object o{{"q", qn(fd)}, {"repo", repo}};
        if (repo)
            o["key"] = fnKey(fd);
        if (auto m = dyn_cast<CXXMethodDecl>(fd)) {
            if (m->isVirtual())
                o["virt"] = true;
            if (m->isStatic())
                o["static"] = true;
            if (m->isConst())
                o["const"] = true;
            o["cls"] = qn(m->getParent());
        }
        if (fd->isDefaulted())
            o["defaulted"] = true;
        return o;
    }

    // ---------------------------------------------------------------- expressions
    Value strip(const Expr* e);

    Array exprs(llvm::ArrayRef<const Expr*> es) {
        Array a;
        for (auto e : es)
            a.push_back(expr(e));
        return a;
    }
    template <class R> Array args(R range) {
        Array a;
        for (auto e : range)
            a.push_back(expr(e));
        return a;
    }

    Value expr(const Expr* e) {
        if (!e)
            return nullptr;
        Value v = expr0(e);
        if (auto o = v.getAsObject()) {
            if (!o->get("t"))
                (*o)["t"] = ty(e->getType());
            if (!o->get("l"))
                (*o)["l"] = lineOf(e->getExprLoc());
            if (e->isLValue() && !o->get("lv"))
                (*o)["lv"] = true;
        }
        return v;
    }

    Value unsupported(const char* what, SourceLocation l) {
        return Object{{"k", "unsupported"}, {"what", what}, {"l", lineOf(l)}};
    }

    Value expr0(const Expr* e) {
        // wrappers
        if (auto x = dyn_cast<ParenExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<ExprWithCleanups>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<MaterializeTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<CXXBindTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<ConstantExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(x->getReplacement());
        if (auto x = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(x->getExpr());
        if (auto x = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(x->getExpr());
        if (auto x = dyn_cast<FullExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<CXXStdInitializerListExpr>(e))
            return expr(x->getSubExpr());
        if (auto x = dyn_cast<OpaqueValueExpr>(e))
            return expr(x->getSourceExpr());
        if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(x->getSemanticForm());

        // literals
        if (auto x = dyn_cast<IntegerLiteral>(e))
            return Object{{"k", "int"}, {"v", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType())}};
        if (auto x = dyn_cast<CharacterLiteral>(e))
            return Object{{"k", "char"}, {"v", (int64_t) x->getValue()}};
        if (auto x = dyn_cast<FloatingLiteral>(e)) {
            // the shortest text that round-trips (machine value), plus the source spelling
            llvm::SmallString<32> s;
            x->getValue().toString(s);
            std::string spelling =
                Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getExpansionRange(x->getSourceRange()).getAsRange()), SM, C.getLangOpts()).str();
            return Object{{"k", "float"}, {"v", s.str().str()}, {"sp", spelling}, {"inf", x->getValue().isInfinity()}, {"nan", x->getValue().isNaN()}};
        }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e))
            return Object{{"k", "bool"}, {"v", x->getValue()}};
        if (auto x = dyn_cast<StringLiteral>(e))
            return Object{{"k", "str"}, {"v", llvm::json::isUTF8(x->getBytes()) ? x->getBytes().str() : llvm::json::fixUTF8(x->getBytes())}};
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return Object{{"k", "null"}};

        if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (!e->isValueDependent() && x->EvaluateAsInt(r, C))
                return Object{{"k", "int"}, {"v", llvm::toString(r.Val.getInt(), 10)}, {"sizeof", true}};
            return unsupported("sizeof", e->getExprLoc());
        }

        // references
        if (auto x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            if (auto ec = dyn_cast<EnumConstantDecl>(d))
                return Object{{"k", "enumc"}, {"n", qn(ec)}, {"v", llvm::toString(ec->getInitVal(), 10)}};
            if (auto fd = dyn_cast<FunctionDecl>(d)) {
                Object o = calleeInfo(fd);
                o["k"]   = "fnref";
                return o;
            }
            Object o{{"k", "ref"}, {"id", idOf(d)}, {"n", d->getNameAsString()}};
            if (auto vd = dyn_cast<VarDecl>(d)) {
                if (vd->hasGlobalStorage()) {
                    o["global"] = qn(vd);
                    if (vd->isStaticLocal())
                        o["staticlocal"] = true;
                    Expr::EvalResult r;
                    const VarDecl* def = nullptr;
                    const Expr* init   = vd->getAnyInitializer(def);
                    if (init && (vd->isConstexpr() || vd->getType().isConstQualified())) {
                        if (underRoot(vd->getLocation()) || vd->isConstexpr())
                            o["init"] = expr(init);
                    }
                }
            }
            return o;
        }
        if (auto x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto vd = dyn_cast<VarDecl>(d)) {
                Object o{{"k", "ref"}, {"id", idOf(vd)}, {"n", vd->getNameAsString()}, {"global", qn(vd)}};
                const VarDecl* def = nullptr;
                if (const Expr* init = vd->getAnyInitializer(def))
                    o["init"] = expr(init);
                return o;
            }
            Object o{{"k", "member"}, {"n", d->getNameAsString()}, {"arrow", x->isArrow()}, {"base", expr(x->getBase())}};
            if (auto fd = dyn_cast<FieldDecl>(d))
                o["rec"] = qn(fd->getParent());
            return o;
        }
        if (isa<CXXThisExpr>(e))
            return Object{{"k", "this"}};

        // operators
        if (auto x = dyn_cast<CompoundAssignOperator>(e))
            return Object{
                {"k", "casg"},
                {"op", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str()},
                {"a", expr(x->getLHS())},
                {"b", expr(x->getRHS())},
                {"ct", ty(x->getComputationResultType())}
            };
        if (auto x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign)
                return Object{{"k", "asg"}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
            if (x->isPtrMemOp())
                return Object{{"k", "ptrmem"}, {"arrow", x->getOpcode() == BO_PtrMemI}, {"base", expr(x->getLHS())}, {"f", expr(x->getRHS())}};
            return Object{{"k", "bin"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
        }
        if (auto x = dyn_cast<UnaryOperator>(e); x && x->getOpcode() == UO_AddrOf)
            if (auto dr = dyn_cast<DeclRefExpr>(x->getSubExpr()->IgnoreParens()))
                if (auto fd = dyn_cast<FieldDecl>(dr->getDecl()))
                    return Object{{"k", "memptr"}, {"n", fd->getNameAsString()}};
        if (auto x = dyn_cast<UnaryOperator>(e))
            return Object{
                {"k", "un"},
                {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()},
                {"post", x->isPostfix()},
                {"e", expr(x->getSubExpr())}
            };
        if (auto x = dyn_cast<ConditionalOperator>(e))
            return Object{{"k", "cond"}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
        if (auto x = dyn_cast<ArraySubscriptExpr>(e))
            return Object{{"k", "index"}, {"a", expr(x->getBase())}, {"i", expr(x->getIdx())}};

        // casts
        if (auto x = dyn_cast<CastExpr>(e)) {
            const char* ck = nullptr;
            switch (x->getCastKind()) {
            case CK_FloatingToIntegral: ck = "f2i"; break;
            case CK_IntegralToFloating: ck = "i2f"; break;
            case CK_IntegralCast: ck = "i2i"; break;
            case CK_IntegralToBoolean: ck = "i2b"; break;
            case CK_FloatingToBoolean: ck = "f2b"; break;
            case CK_PointerToBoolean: ck = "p2b"; break;
            case CK_FloatingCast: ck = "f2f"; break;
            case CK_BitCast:
            case CK_LValueBitCast: ck = "bitcast"; break;
            case CK_Dynamic: ck = "dyncast"; break;
            case CK_NullToPointer: ck = "null"; break;
            case CK_ToVoid: ck = "void"; break;
            case CK_UserDefinedConversion: return expr(x->getSubExpr());
            default: return expr(x->getSubExpr());
            }
            return Object{{"k", "cast"}, {"ck", ck}, {"e", expr(x->getSubExpr())}};
        }

        // calls
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            Object o{{"k", "opcall"}, {"op", getOperatorSpelling(x->getOperator())}, {"args", args(x->arguments())}};
            if (auto fd = x->getDirectCallee()) {
                o["f"] = calleeInfo(fd);
                if (auto md = dyn_cast<CXXMethodDecl>(fd); md && md->getParent()->isLambda())
                    o["inst"] = idOf(md->getCanonicalDecl());
            }
            return o;
        }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            Object o{{"k", "mcall"}, {"args", args(x->arguments())}};
            if (auto md = x->getMethodDecl()) {
                o["f"] = calleeInfo(md);
                o["n"] = md->getNameAsString();
                if (isa<CXXConversionDecl>(md))
                    o["conv"] = true;
            }
            if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
                o["obj"]   = expr(me->getBase());
                o["arrow"] = me->isArrow();
                if (me->hasQualifier())
                    o["nonvirt"] = true;
            } else
                o["obj"] = expr(x->getImplicitObjectArgument());
            return o;
        }
        if (auto x = dyn_cast<CallExpr>(e)) {
            Object o{{"k", "call"}, {"args", args(x->arguments())}};
            if (auto fd = x->getDirectCallee()) {
                o["f"] = calleeInfo(fd);
                if (auto ta = fd->getTemplateSpecializationArgs()) {
                    Array a;
                    for (auto& arg : ta->asArray())
                        if (arg.getKind() == TemplateArgument::Type)
                            a.push_back(ty(arg.getAsType()));
                    o["ta"] = std::move(a);
                }
            } else
                o["fe"] = expr(x->getCallee());
            return o;
        }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            const CXXConstructorDecl* cd = x->getConstructor();
            // copy/move construction is emitted explicitly; the semantics is a value copy
            Object o{{"k", "ctor"}, {"args", args(x->arguments())}, {"f", calleeInfo(cd)}};
            if (cd->isCopyOrMoveConstructor())
                o["copy"] = true;
            if (cd->isMoveConstructor())
                o["move"] = true;
            if (cd->isDefaultConstructor())
                o["dflt"] = true;
            if (x->isListInitialization())
                o["list"] = true;
            if (x->isStdInitListInitialization())
                o["initlist"] = true;
            return o;
        }
        if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e))
            return unsupported("inherited ctor", x->getExprLoc());
        if (auto x = dyn_cast<InitListExpr>(e)) {
            Array a;
            const InitListExpr* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            for (auto i : s->inits())
                a.push_back(expr(i));
            Object o{{"k", "initlist"}, {"es", std::move(a)}};
            if (auto rd = s->getType()->getAsCXXRecordDecl()) {
                Array fs;
                for (auto f : rd->fields())
                    fs.push_back(f->getNameAsString());
                o["fields"] = std::move(fs);
            }
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            return Object{{"k", "zero"}};
        if (auto x = dyn_cast<CXXNewExpr>(e))
            return Object{{"k", "new"}, {"at", ty(x->getAllocatedType())}, {"ctor", expr(x->getConstructExpr())}, {"array", x->isArray()}};
        if (auto x = dyn_cast<CXXDeleteExpr>(e))
            return Object{{"k", "delete"}, {"e", expr(x->getArgument())}};
        if (auto x = dyn_cast<CXXThrowExpr>(e))
            return Object{{"k", "throw"}, {"e", expr(x->getSubExpr())}};
        if (auto x = dyn_cast<LambdaExpr>(e)) {
            Array ps;
            const CXXMethodDecl* m = x->getCallOperator();
            Array insts; // a generic lambda: one body per instantiation
            if (auto ft = x->getDependentCallOperator()) {
                m = nullptr;
                for (auto s : ft->specializations())
                    if (auto inst = dyn_cast<CXXMethodDecl>(s); inst && inst->hasBody()) {
                        Array ips;
                        for (auto p : inst->parameters())
                            ips.push_back(param(p));
                        insts.push_back(Object{{"inst", idOf(inst->getCanonicalDecl())}, {"params", std::move(ips)}, {"body", stmt(inst->getBody())}});
                        m = inst;
                    }
                if (!m)
                    return unsupported("generic lambda without instantiation", e->getExprLoc());
            }
            for (auto p : m->parameters())
                ps.push_back(param(p));
            Array caps;
            auto ii = x->capture_init_begin();
            for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++ii) {
                Object c{{"ref", it->getCaptureKind() == LCK_ByRef}};
                if (it->capturesThis())
                    c["this"] = true;
                if (it->capturesVariable()) {
                    c["id"] = idOf(it->getCapturedVar());
                    if (*ii && it->getCapturedVar()->isInitCapture())
                        c["init"] = expr(*ii);
                }
                caps.push_back(std::move(c));
            }
            return Object{{"k", "lambda"}, {"params", std::move(ps)}, {"caps", std::move(caps)}, {"body", stmt(m->getBody())}, {"insts", std::move(insts)}};
        }
        if (auto x = dyn_cast<CXXTypeidExpr>(e))
            return unsupported("typeid", x->getExprLoc());
        if (auto x = dyn_cast<CXXNoexceptExpr>(e))
            return Object{{"k", "bool"}, {"v", x->getValue()}};
        if (auto x = dyn_cast<TypeTraitExpr>(e))
            if (!x->isValueDependent())
                return Object{{"k", "bool"}, {"v", x->getValue()}};
        if (auto x = dyn_cast<StmtExpr>(e))
            return unsupported("statement expression", x->getExprLoc());
        if (auto x = dyn_cast<PredefinedExpr>(e))
            return Object{{"k", "str"}, {"v", x->getFunctionName() ? x->getFunctionName()->getBytes().str() : ""}};
        return unsupported(e->getStmtClassName(), e->getExprLoc());
    }

    // ---------------------------------------------------------------- statements
    Value param(const ParmVarDecl* p) {
        return Object{{"id", idOf(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}};
    }
    // an initialiser that gives the same value whenever it is evaluated: no parameter, no local variable, no object
    static bool timeless(const Stmt* s) {
        if (!s)
            return true;
        if (isa<CXXThisExpr>(s) || isa<LambdaExpr>(s))
            return false;
        if (auto d = dyn_cast<DeclRefExpr>(s)) {
            if (auto v = dyn_cast<VarDecl>(d->getDecl()))
                if (!v->getType().isConstQualified() || (v->isLocalVarDeclOrParm() && !v->isStaticLocal() && !v->isConstexpr()))
                    return false;
        }
        for (auto c : s->children())
            if (!timeless(c))
                return false;
        return true;
    }
    Value varDecl(const VarDecl* vd) {
        Object o{{"id", idOf(vd)}, {"n", vd->getNameAsString()}, {"t", ty(vd->getType())}, {"l", lineOf(vd->getLocation())}};
        if (vd->getInit())
            o["init"] = expr(vd->getInit());
        if (vd->isStaticLocal() && !(vd->getType().isConstQualified() && vd->getInit() && timeless(vd->getInit())))
            o["static"] = true;
        if (auto dd = dyn_cast<DecompositionDecl>(vd)) {
            Array bs;
            for (auto b : dd->bindings())
                bs.push_back(Object{{"id", idOf(b)}, {"n", b->getNameAsString()}, {"t", ty(b->getType())}});
            o["bindings"] = std::move(bs);
        }
        return o;
    }
    Value stmt(const Stmt* s) {
        if (!s)
            return nullptr;
        Value v = stmt0(s);
        if (auto o = v.getAsObject())
            if (!o->get("l"))
                (*o)["l"] = lineOf(s->getBeginLoc());
        return v;
    }
    Value stmt0(const Stmt* s) {
        if (auto x = dyn_cast<CompoundStmt>(s)) {
            Array a;
            for (auto c : x->body())
                a.push_back(stmt(c));
            return Object{{"k", "compound"}, {"b", std::move(a)}};
        }
        if (auto x = dyn_cast<DeclStmt>(s)) {
            Array a;
            for (auto d : x->decls()) {
                if (auto vd = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(vd));
                // using-declarations, typedefs, static_asserts: no run-time effect
            }
            return Object{{"k", "decl"}, {"vars", std::move(a)}};
        }
        if (auto x = dyn_cast<IfStmt>(s)) {
            Object o{{"k", "if"}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt())
                o["var"] = stmt(x->getConditionVariableDeclStmt());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            if (x->getElse())
                o["b"] = stmt(x->getElse());
            return o;
        }
        if (auto x = dyn_cast<ForStmt>(s)) {
            Object o{{"k", "for"}};
            o["init"] = stmt(x->getInit());
            if (x->getConditionVariableDeclStmt())
                return unsupported("for condition variable", s->getBeginLoc());
            o["c"]    = expr(x->getCond());
            o["inc"]  = expr(x->getInc());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
            Object o{{"k", "rangefor"}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["var"]   = varDecl(x->getLoopVariable());
            if (auto vo = o["var"].getAsObject())
                vo->erase("init");
            o["range"] = expr(x->getRangeInit());
            // begin()/end() of a class range: the resolved callees
            auto calleeOf = [&](const DeclStmt* ds) -> Value {
                if (!ds)
                    return nullptr;
                if (auto vd = dyn_cast<VarDecl>(ds->getSingleDecl()))
                    if (vd->getInit())
                        if (auto mc = dyn_cast<CXXMemberCallExpr>(vd->getInit()->IgnoreImplicit()))
                            if (auto md = mc->getMethodDecl())
                                return calleeInfo(md);
                return nullptr;
            };
            o["beginf"] = calleeOf(x->getBeginStmt());
            o["endf"]   = calleeOf(x->getEndStmt());
            o["body"]   = stmt(x->getBody());
            return o;
        }
        if (auto x = dyn_cast<WhileStmt>(s)) {
            Object o{{"k", "while"}, {"c", expr(x->getCond())}, {"body", stmt(x->getBody())}};
            if (x->getConditionVariableDeclStmt())
                return unsupported("while condition variable", s->getBeginLoc());
            return o;
        }
        if (auto x = dyn_cast<DoStmt>(s))
            return Object{{"k", "do"}, {"c", expr(x->getCond())}, {"body", stmt(x->getBody())}};
        if (auto x = dyn_cast<ReturnStmt>(s))
            return Object{{"k", "return"}, {"e", expr(x->getRetValue())}};
        if (isa<BreakStmt>(s))
            return Object{{"k", "break"}};
        if (isa<ContinueStmt>(s))
            return Object{{"k", "continue"}};
        if (isa<NullStmt>(s))
            return Object{{"k", "null"}};
        if (auto x = dyn_cast<SwitchStmt>(s)) {
            if (x->getConditionVariableDeclStmt())
                return unsupported("switch condition variable", s->getBeginLoc());
            Object o{{"k", "switch"}, {"c", expr(x->getCond())}};
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto x = dyn_cast<CaseStmt>(s))
            return Object{{"k", "case"}, {"v", expr(x->getLHS())}, {"sub", stmt(x->getSubStmt())}};
        if (auto x = dyn_cast<DefaultStmt>(s))
            return Object{{"k", "default"}, {"sub", stmt(x->getSubStmt())}};
        if (auto x = dyn_cast<AttributedStmt>(s))
            return stmt(x->getSubStmt());
        if (auto x = dyn_cast<CXXTryStmt>(s)) {
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); i++)
                hs.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
            return Object{{"k", "try"}, {"body", stmt(x->getTryBlock())}, {"handlers", std::move(hs)}};
        }
        if (auto x = dyn_cast<OMPExecutableDirective>(s)) {
            Array cl;
            for (auto c : x->clauses()) {
                Object co{{"k", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
                Array vs;
                std::string extra;
                if (auto r = dyn_cast<OMPReductionClause>(c)) {
                    extra = r->getNameInfo().getAsString();
                    for (auto e : r->varlists())
                        vs.push_back(expr(e));
                } else if (auto p = dyn_cast<OMPPrivateClause>(c)) {
                    for (auto e : p->varlists())
                        vs.push_back(expr(e));
                } else if (auto p = dyn_cast<OMPFirstprivateClause>(c)) {
                    if (!c->isImplicit())
                        for (auto e : p->varlists())
                            vs.push_back(expr(e));
                } else if (auto p = dyn_cast<OMPLastprivateClause>(c)) {
                    for (auto e : p->varlists())
                        vs.push_back(expr(e));
                }
                co["vars"] = std::move(vs);
                if (!extra.empty())
                    co["op"] = extra;
                co["implicit"] = c->isImplicit();
                cl.push_back(std::move(co));
            }
            Object o{{"k", "omp"}, {"d", llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str()}, {"clauses", std::move(cl)}};
            if (x->hasAssociatedStmt()) {
                const Stmt* b = x->getRawStmt();
                while (b) {
                    if (auto cs = dyn_cast<CapturedStmt>(b))
                        b = cs->getCapturedStmt();
                    else if (auto cl2 = dyn_cast<OMPCanonicalLoop>(b))
                        b = cl2->getLoopStmt();
                    else
                        break;
                }
                o["body"] = stmt(b);
            }
            return o;
        }
        if (auto x = dyn_cast<Expr>(s)) {
            return Object{{"k", "expr"}, {"e", expr(x)}};
        }
        return unsupported(s->getStmtClassName(), s->getBeginLoc());
    }

    Value function(const FunctionDecl* fd) {
        Object o{{"q", qn(fd)}, {"key", fnKey(fd)}, {"file", fileOf(fd->getLocation())}, {"l", lineOf(fd->getLocation())}};
        o["endl"] = lineOf(fd->getEndLoc());
        o["ret"]  = ty(fd->getReturnType());
        Array ps;
        for (auto p : fd->parameters())
            ps.push_back(param(p));
        o["params"] = std::move(ps);
        if (auto m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"]    = qn(m->getParent());
            o["const"]  = m->isConst();
            o["static"] = m->isStatic();
            o["virt"]   = m->isVirtual();
            Array ov;
            for (auto om : m->overridden_methods())
                ov.push_back(fnKey(om));
            o["overrides"] = std::move(ov);
        }
        if (auto cd = dyn_cast<CXXConstructorDecl>(fd)) {
            Array is;
            for (auto i : cd->inits()) {
                Object io;
                if (i->isMemberInitializer() || i->isIndirectMemberInitializer())
                    io["m"] = i->getAnyMember()->getNameAsString();
                else if (i->isDelegatingInitializer())
                    io["delegating"] = true;
                else
                    io["base"] = ty(QualType(i->getBaseClass(), 0));
                io["written"] = i->isWritten();
                io["dmi"]     = i->isInClassMemberInitializer();
                io["e"]       = expr(i->getInit());
                if (i->isAnyMemberInitializer())
                    io["t"] = ty(i->getAnyMember()->getType());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
            o["ctor"]  = true;
        }
        o["body"] = stmt(fd->getBody());
        return o;
    }
    Value record(const CXXRecordDecl* rd) {
        Object o{{"q", qn(rd)}, {"file", fileOf(rd->getLocation())}, {"l", lineOf(rd->getLocation())}};
        Array fs;
        for (auto f : rd->fields()) {
            Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto& b : rd->bases())
            bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Emitter& E;
    Array fns, recs;
    std::set<const void*> seen;
    explicit Visitor(Emitter& e) : E(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl* d) {
        // skip whole subtrees outside the root
        if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && d->getLocation().isValid() && !E.underRoot(d->getLocation()))
            return true;
        return RecursiveASTVisitor::TraverseDecl(d);
    }
    bool TraverseStmt(Stmt*) { return true; } // bodies are emitted by the Emitter
    bool VisitFunctionDecl(FunctionDecl* fd) {
        if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext())
            return true;
        if (!E.underRoot(fd->getLocation()) || !seen.insert(fd).second)
            return true;
        fns.push_back(E.function(fd));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda())
            return true;
        if (!E.underRoot(rd->getLocation()) || !seen.insert(rd).second)
            return true;
        recs.push_back(E.record(rd));
        // implicit constructors with default member initialisers matter for value semantics
        for (auto c : rd->ctors())
            if (c->isDefaultConstructor() && c->isDefaulted() && c->hasBody() && seen.insert(c).second)
                fns.push_back(E.function(c));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        Emitter E(C);
        Visitor V(E);
        V.TraverseDecl(C.getTranslationUnitDecl());
        Object out{{"functions", std::move(V.fns)}, {"records", std::move(V.recs)}, {"types", std::move(E.types)},
                   {"errors", (int64_t) C.getDiagnostics().getClient()->getNumErrors()}};
        llvm::outs() << Value(std::move(out)) << "\n";
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};
class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, char** argv) {
    // usage: cxx2ir ROOT FILE -- flags...
    if (argc < 4) {
        llvm::errs() << "usage: cxx2ir ROOT FILE -- flags\n";
        return 2;
    }
    gRoot            = argv[1];
    std::string file = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; i++)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    Factory f;
    return tool.run(&f);
}
