// cxx2ir: mechanical extraction of instantiated C++ functions from a clang AST to JSON.
// usage: cxx2ir --out=F.json --prefix=/repo/src --root=REGEX [--root=REGEX ...] driver.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
using namespace llvm;
namespace J = llvm::json;

static cl::OptionCategory Cat("cxx2ir");
static cl::opt<std::string> Out("out", cl::Required, cl::cat(Cat));
static cl::list<std::string> Prefixes("prefix", cl::cat(Cat));
static cl::list<std::string> Roots("root", cl::cat(Cat));
static cl::list<std::string> Opaque("opaque", cl::cat(Cat));

namespace {

struct Ex {
    ASTContext &C;
    const SourceManager &SM;
    PrintingPolicy PP;
    std::map<const void *, int> typeIds;
    std::vector<J::Value> types;
    std::map<const Decl *, int> declIds;
    std::map<const FunctionDecl *, int> fnIds;
    std::vector<J::Value> fns;
    std::deque<std::pair<const FunctionDecl *, int>> work;
    std::vector<llvm::Regex> opaque;

    Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.PrintCanonicalTypes = true;
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        for (auto &o : Opaque) opaque.emplace_back(o);
    }

    bool inRepo(const Decl *D) {
        SourceLocation L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        std::string f = SM.getFilename(L).str();
        if (SM.isInMainFile(L)) return true;
        for (auto &p : Prefixes) if (StringRef(f).contains(p)) return true;
        return false;
    }

    std::string qual(const NamedDecl *D) {
        std::string s; raw_string_ostream os(s);
        // qualified name without template arguments
        SmallVector<const NamedDecl *, 8> ctxs;
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamedDecl>(DC)) {
                if (auto *NS = dyn_cast<NamespaceDecl>(N)) { if (!NS->isInline() && !NS->isAnonymousNamespace()) ctxs.push_back(N); }
                else if (isa<TagDecl>(N) || isa<FunctionDecl>(N)) ctxs.push_back(N);
            }
            DC = DC->getParent();
        }
        for (auto it = ctxs.rbegin(); it != ctxs.rend(); ++it) { os << (*it)->getDeclName().getAsString() << "::"; }
        if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) os << "ctor";
        else if (isa<CXXDestructorDecl>(D)) os << "dtor";
        else if (isa<CXXConversionDecl>(D)) os << "conv";
        else os << D->getDeclName().getAsString();
        return os.str();
    }

    J::Value targ(const TemplateArgument &A) {
        switch (A.getKind()) {
            case TemplateArgument::Type: return J::Object{{"t", type(A.getAsType())}};
            case TemplateArgument::Integral: { SmallString<32> s; A.getAsIntegral().toString(s, 10); return J::Object{{"i", s.str().str()}}; }
            case TemplateArgument::Pack: { J::Array a; for (auto &x : A.pack_elements()) a.push_back(targ(x)); return J::Object{{"pack", std::move(a)}}; }
            case TemplateArgument::Template: return J::Object{{"tpl", A.getAsTemplate().getAsTemplateDecl() ? qual(A.getAsTemplate().getAsTemplateDecl()) : ""}};
            default: return J::Object{{"other", 1}};
        }
    }

    int type(QualType Q) {
        if (Q.isNull()) return -1;
        Q = C.getCanonicalType(Q);
        bool isConst = Q.isConstQualified();
        Q = Q.getUnqualifiedType();
        (void) isConst;
        const void *key = Q.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        J::Object o;
        std::string str = Q.getAsString(PP);
        o["s"] = str;
        const clang::Type *T = Q.getTypePtr();
        if (auto *B = dyn_cast<BuiltinType>(T)) {
            o["k"] = "b"; o["n"] = B->getName(PP).str();
            if (B->isInteger()) { o["bits"] = (int64_t) C.getTypeSize(Q); o["sg"] = B->isSignedInteger(); }
            if (B->isFloatingPoint()) o["fl"] = (int64_t) C.getTypeSize(Q);
        } else if (auto *P = dyn_cast<clang::PointerType>(T)) { o["k"] = "ptr"; o["to"] = type(P->getPointeeType()); o["c"] = P->getPointeeType().isConstQualified(); }
        else if (auto *R = dyn_cast<LValueReferenceType>(T)) { o["k"] = "lref"; o["to"] = type(R->getPointeeType()); o["c"] = R->getPointeeType().isConstQualified(); }
        else if (auto *R = dyn_cast<RValueReferenceType>(T)) { o["k"] = "rref"; o["to"] = type(R->getPointeeType()); o["c"] = R->getPointeeType().isConstQualified(); }
        else if (auto *R = dyn_cast<RecordType>(T)) {
            auto *RD = dyn_cast<CXXRecordDecl>(R->getDecl());
            o["k"] = "rec"; o["n"] = RD ? qual(RD) : "";
            if (RD) {
                if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                    J::Array a; for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x));
                    o["a"] = std::move(a);
                }
                if (RD->isLambda()) o["lambda"] = true;
                if (auto *Def = RD->getDefinition()) {
                    if (inRepo(Def) || RD->isLambda()) {
                        o["def"] = true;
                        J::Array fs, bs;
                        for (auto &b : Def->bases()) bs.push_back(type(b.getType()));
                        for (auto *f : Def->fields()) fs.push_back(J::Object{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"i", (int64_t) f->getFieldIndex()}, {"id", declId(f)}});
                        o["f"] = std::move(fs); o["ba"] = std::move(bs);
                        if (RD->isLambda()) {
                            J::Array caps;
                            for (auto &cp : Def->captures()) {
                                J::Object co;
                                co["this"] = cp.capturesThis();
                                if (cp.capturesVariable()) co["v"] = declId(cp.getCapturedVar());
                                co["ref"] = cp.getCaptureKind() == LCK_ByRef;
                                caps.push_back(std::move(co));
                            }
                            o["caps"] = std::move(caps);
                            if (auto *op = Def->getLambdaCallOperator()) o["op"] = fn(op);
                        }
                    }
                }
            }
        } else if (auto *E = dyn_cast<EnumType>(T)) { o["k"] = "enum"; o["n"] = qual(E->getDecl()); o["u"] = type(E->getDecl()->getIntegerType()); }
        else if (auto *A = dyn_cast<ConstantArrayType>(T)) { o["k"] = "arr"; o["of"] = type(A->getElementType()); o["len"] = (int64_t) A->getSize().getZExtValue(); }
        else { o["k"] = "other"; }
        types[id] = std::move(o);
        return id;
    }

    int declId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = declIds.size();
        declIds[D] = id;
        return id;
    }

    int fn(const FunctionDecl *F) {
        const FunctionDecl *K = F->getCanonicalDecl();
        auto it = fnIds.find(K);
        if (it != fnIds.end()) return it->second;
        int id = fns.size();
        fnIds[K] = id;
        fns.push_back(nullptr);
        work.emplace_back(F, id);
        return id;
    }

    std::string loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        return (SM.getFilename(L) + ":" + Twine(SM.getSpellingLineNumber(L))).str();
    }

    void doFn(const FunctionDecl *F, int id) {
        J::Object o;
        o["id"] = id;
        std::string q = qual(F);
        o["q"] = q;
        o["ret"] = type(F->getReturnType());
        const FunctionDecl *Def = nullptr;
        F->hasBody(Def);
        const FunctionDecl *P = Def ? Def : F;
        J::Array ps;
        for (auto *p : P->parameters()) ps.push_back(J::Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["p"] = std::move(ps);
        if (auto *TA = F->getTemplateSpecializationArgs()) { J::Array a; for (auto &x : TA->asArray()) a.push_back(targ(x)); o["ta"] = std::move(a); }
        std::string kind = "fn";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["rec"] = type(C.getRecordType(M->getParent()));
            o["static"] = M->isStatic(); o["const"] = M->isConst(); o["virtual"] = M->isVirtual(); o["pure"] = M->isPureVirtual();
            o["rq"] = M->getRefQualifier() == RQ_LValue ? "&" : M->getRefQualifier() == RQ_RValue ? "&&" : "";
            kind = "method";
            if (M->isCopyAssignmentOperator()) o["special"] = "copyassign";
            if (M->isMoveAssignmentOperator()) o["special"] = "moveassign";
            if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
                kind = "ctor";
                if (K->isCopyConstructor()) o["special"] = "copyctor";
                else if (K->isMoveConstructor()) o["special"] = "movector";
                else if (K->isDefaultConstructor()) o["special"] = "defctor";
                o["delegating"] = K->isDelegatingConstructor();
                o["inhctor"] = K->isInheritingConstructor();
            }
            if (isa<CXXDestructorDecl>(F)) kind = "dtor";
        }
        o["kind"] = kind;
        o["defaulted"] = F->isDefaulted();
        o["implicit"] = F->isImplicit();
        o["loc"] = loc(P->getLocation());
        bool repo = inRepo(P);
        o["repo"] = repo;
        bool opq = false;
        for (auto &r : opaque) if (r.match(q)) opq = true;
        if (repo && Def && !opq && !(F->isDefaulted() && !Def->getBody())) {
            if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
                J::Array is;
                for (auto *I : K->inits()) {
                    J::Object io;
                    if (I->isAnyMemberInitializer()) { io["m"] = I->getAnyMember()->getNameAsString(); io["mt"] = type(I->getAnyMember()->getType()); if (I->isIndirectMemberInitializer()) io["ind"] = true; }
                    else if (I->isBaseInitializer()) io["b"] = type(QualType(I->getBaseClass(), 0));
                    else if (I->isDelegatingInitializer()) io["d"] = true;
                    io["e"] = expr(I->getInit());
                    io["w"] = I->isWritten();
                    is.push_back(std::move(io));
                }
                o["inits"] = std::move(is);
            }
            if (Def->getBody()) o["body"] = stmt(Def->getBody());
        }
        fns[id] = std::move(o);
    }

    J::Value vardecl(const VarDecl *V) {
        J::Object o{{"k", "var"}, {"id", declId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", loc(V->getLocation())}};
        if (V->isStaticLocal()) o["st"] = true;
        if (V->getInit()) { o["e"] = expr(V->getInit()); }
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            J::Array a;
            for (auto *b : D->bindings()) {
                J::Object bo{{"id", declId(b)}, {"n", b->getNameAsString()}, {"t", type(b->getType())}};
                if (auto *hv = b->getHoldingVar()) bo["hv"] = vardecl(hv);
                else if (b->getBinding()) bo["e"] = expr(b->getBinding());
                a.push_back(std::move(bo));
            }
            o["bind"] = std::move(a);
        }
        return std::move(o);
    }

    J::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return J::Object{{"k", "expr"}, {"e", expr(E)}, {"l", loc(E->getExprLoc())}};
        J::Object o;
        o["l"] = loc(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; J::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["b"] = std::move(a); }
        else if (auto *X = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl"; J::Array a;
            for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            o["d"] = std::move(a);
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            if (X->isConstexpr() && X->getNondiscardedCase(C)) {
                auto br = *X->getNondiscardedCase(C);
                if (br) return stmt(br);
                o["k"] = "null";
            } else {
                o["k"] = "if";
                if (X->getInit()) o["i"] = stmt(X->getInit());
                if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
                o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen()); o["e"] = stmt(X->getElse());
            }
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while"; if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
        else if (auto *X = dyn_cast<ForStmt>(S)) {
            o["k"] = "for"; o["i"] = stmt(X->getInit()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["n"] = expr(X->getInc()); o["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rfor";
            if (X->getInit()) o["i"] = stmt(X->getInit());
            o["r"] = stmt(X->getRangeStmt()); o["be"] = stmt(X->getBeginStmt()); o["en"] = stmt(X->getEndStmt());
            o["c"] = expr(X->getCond()); o["n"] = expr(X->getInc()); o["v"] = stmt(X->getLoopVarStmt()); o["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); }
        else if (isa<BreakStmt>(S)) o["k"] = "brk";
        else if (isa<ContinueStmt>(S)) o["k"] = "cont";
        else if (isa<NullStmt>(S)) o["k"] = "null";
        else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); J::Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto *h = X->getHandler(i);
                J::Object ho; if (h->getExceptionDecl()) ho["v"] = vardecl(h->getExceptionDecl());
                ho["b"] = stmt(h->getHandlerBlock()); a.push_back(std::move(ho));
            }
            o["h"] = std::move(a);
        } else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
        else if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); }
        else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = stmt(X->getSubStmt()); }
        else { o["k"] = "unsup"; o["what"] = S->getStmtClassName(); }
        return std::move(o);
    }

    bool constVal(const Expr *E, J::Object &o) {
        if (E->isValueDependent() || E->isTypeDependent() || E->isGLValue()) return false;
        QualType T = E->getType();
        if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return false;
        if (isa<CallExpr>(E) && cast<CallExpr>(E)->getDirectCallee() && cast<CallExpr>(E)->getDirectCallee()->getNameAsString().find("assert") != std::string::npos) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return false;
        return apv(R.Val, T, o);
    }
    bool apv(const APValue &V, QualType T, J::Object &o) {
        if (V.isInt()) { SmallString<32> s; V.getInt().toString(s, 10); o["k"] = "int"; o["v"] = s.str().str(); o["t"] = type(T); return true; }
        if (V.isFloat()) { SmallString<64> s; APFloat f = V.getFloat(); 
            bool li; APFloat d = f; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            char buf[128]; snprintf(buf, sizeof buf, "%a", d.convertToDouble()); o["k"] = "flt"; o["v"] = std::string(buf); o["t"] = type(T); return true; }
        return false;
    }

    J::Array exprs(ArrayRef<const Expr *> A) { J::Array a; for (auto *e : A) a.push_back(expr(e)); return a; }
    template<typename R> J::Array args(R r) { J::Array a; for (auto *e : r) a.push_back(expr(e)); return a; }

    J::Value expr(const Expr *E) {
        if (!E) return nullptr;
        J::Object o;
        if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<ConstantExpr>(E)) { if (constVal(E, o)) return std::move(o); return expr(X->getSubExpr()); }
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
        if (!isa<CXXThrowExpr>(E) && constVal(E, o)) return std::move(o);
        o["t"] = type(E->getType());
        if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["lv"] = 2;
        o["l"] = loc(E->getExprLoc());
        if (auto *X = dyn_cast<SourceLocExpr>(E)) { if (X->isIntType()) { o["k"] = "int"; o["v"] = "0"; } else { o["k"] = "str"; o["v"] = ""; } }
        else if (auto *X = dyn_cast<IntegerLiteral>(E)) { SmallString<32> s; X->getValue().toString(s, 10, false); o["k"] = "int"; o["v"] = s.str().str(); }
        else if (isa<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = ""; }
        else if (auto *X = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = X->getCharByteWidth() == 1 && llvm::json::isUTF8(X->getString()) ? X->getString().str() : ""; }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; }
        else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto *D = X->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fnref"; o["fn"] = fn(F); }
            else if (auto *V = dyn_cast<VarDecl>(D)) {
                o["k"] = "ref"; o["id"] = declId(V); o["n"] = V->getNameAsString();
                if (V->hasGlobalStorage()) {
                    o["g"] = qual(V);
                    const VarDecl *DV = nullptr; 
                    if (V->getAnyInitializer(DV) && DV && (DV->isConstexpr() || DV->getType().isConstQualified())) {
                        const Expr *IE = DV->getAnyInitializer();
                        if (IE && !IE->isValueDependent()) { if (auto *ev = DV->evaluateValue()) { J::Object co; if (apv(*ev, DV->getType(), co)) o["cv"] = std::move(co); } }
                    }
                }
                if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            } else if (auto *B = dyn_cast<BindingDecl>(D)) { o["k"] = "ref"; o["id"] = declId(B); o["n"] = B->getNameAsString(); }
            else { o["k"] = "unsup"; o["what"] = std::string("declref ") + D->getDeclKindName(); }
        } else if (auto *X = dyn_cast<MemberExpr>(E)) {
            if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
                o["k"] = "mem"; o["n"] = F->getNameAsString(); o["b"] = expr(X->getBase()); o["arrow"] = X->isArrow(); o["id"] = declId(F);
            } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
                o["k"] = "ref"; o["id"] = declId(V); o["n"] = V->getNameAsString(); o["g"] = qual(V);
                if (auto *ev = V->evaluateValue()) { J::Object co; if (apv(*ev, V->getType(), co)) o["cv"] = std::move(co); }
            } else if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { o["k"] = "fnref"; o["fn"] = fn(M); }
            else { o["k"] = "unsup"; o["what"] = "member"; }
        } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); }
        else if (auto *X = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["e"] = expr(X->getSubExpr()); }
        else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "cas"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); o["ct"] = type(X->getComputationResultType()); }
        else if (auto *X = dyn_cast<BinaryOperator>(E)) { o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); }
        else if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); }
        else if (auto *X = dyn_cast<CastExpr>(E)) {
            auto ck = X->getCastKind();
            if (isa<CXXFunctionalCastExpr>(E) || true) {
                o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
                if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase || ck == CK_BaseToDerived) {
                    J::Array a; for (auto *b : X->path()) a.push_back(type(b->getType())); o["path"] = std::move(a);
                }
            }
        } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "mcall";
            auto *M = X->getMethodDecl();
            if (M) o["fn"] = fn(M);
            const Expr *ob = X->getImplicitObjectArgument();
            o["o"] = expr(ob);
            if (auto *me = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
            o["a"] = args(X->arguments());
        } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "ocall"; o["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) { o["fn"] = fn(F); o["member"] = isa<CXXMethodDecl>(F); }
            o["a"] = args(X->arguments());
        } else if (auto *X = dyn_cast<CallExpr>(E)) {
            o["k"] = "call"; if (auto *F = X->getDirectCallee()) o["fn"] = fn(F); else o["ce"] = expr(X->getCallee());
            o["a"] = args(X->arguments());
        } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "ctor"; o["fn"] = fn(X->getConstructor()); o["a"] = args(X->arguments());
            if (X->isListInitialization()) o["list"] = true;
            if (X->isStdInitListInitialization()) o["ilist"] = true;
        } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "inhctor"; o["fn"] = fn(X->getConstructor()); }
        else if (auto *X = dyn_cast<InitListExpr>(E)) {
            o["k"] = "ilist"; const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm(); if (!S) S = X; J::Array a; for (auto *e : S->inits()) a.push_back(expr(e)); o["a"] = std::move(a);
        } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "stdil"; o["e"] = expr(X->getSubExpr()); }
        else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"] = "mat"; o["e"] = expr(X->getSubExpr()); }
        else if (isa<CXXThisExpr>(E)) o["k"] = "this";
        else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (X->getSubExpr()) o["e"] = expr(X->getSubExpr()); }
        else if (auto *X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda"; J::Array a; for (auto *e : X->capture_inits()) a.push_back(e ? expr(e) : J::Value(nullptr)); o["ci"] = std::move(a);
        } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) o["k"] = "zero";
        else if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; if (X->getInitializer()) o["e"] = expr(X->getInitializer()); }
        else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["e"] = expr(X->getArgument()); }
        else { o["k"] = "unsup"; o["what"] = E->getStmtClassName(); }
        return std::move(o);
    }

    void drain() {
        while (!work.empty()) { auto [f, id] = work.front(); work.pop_front(); doFn(f, id); }
    }
};

struct Vis : RecursiveASTVisitor<Vis> {
    Ex &X; std::vector<llvm::Regex> rs; std::set<std::string> matched; 
    J::Array roots;
    Vis(Ex &X) : X(X) { for (auto &r : Roots) rs.emplace_back("^(" + r + ")$"); }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext()) return true;
        if (F->getDescribedFunctionTemplate()) return true;
        if (!X.inRepo(F)) return true;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) ) return true;
        std::string q = X.qual(F);
        for (auto &r : rs) if (r.match(q)) { roots.push_back(X.fn(F)); break; }
        return true;
    }
};

struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { errs() << "cxx2ir: parse errors\n"; }
        Ex X(C);
        Vis V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        X.drain();
        J::Object o;
        o["roots"] = std::move(V.roots);
        o["types"] = J::Array(std::move(X.types));
        o["fns"] = J::Array(std::move(X.fns));
        o["errors"] = C.getDiagnostics().hasErrorOccurred();
        std::error_code ec; raw_fd_ostream os(Out, ec); os << J::Value(std::move(o)); 
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
}

int main(int argc, const char **argv) {
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { errs() << toString(P.takeError()); return 2; }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
