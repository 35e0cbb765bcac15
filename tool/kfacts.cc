// kfacts: resolved-AST fact extractor for Kuree/kratos (clang 18 libTooling).
// Prints one JSON object with the functions, classes, enums and variables a
// translation unit defines inside the repository's src/ (or python/) folder.
// It only *reads* the type-checked program; every rule lives in ../ka.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtVisitor.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace clang;
namespace J = llvm::json;

static llvm::cl::OptionCategory Cat("kfacts");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("repository root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

struct Ctx {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::string root;
    explicit Ctx(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = false;
        root = Root;
        if (!root.empty() && root.back() != '/') root += '/';
    }
    std::string file(SourceLocation L) const {
        L = SM.getExpansionLoc(L);
        auto p = SM.getPresumedLoc(L, false);
        if (p.isInvalid()) return "";
        std::string f = p.getFilename();
        llvm::SmallString<256> abs(f);
        SM.getFileManager().makeAbsolutePath(abs);
        llvm::sys::path::remove_dots(abs, true);
        return std::string(abs.str());
    }
    unsigned line(SourceLocation L) const { return SM.getExpansionLineNumber(L); }
    bool inRepo(SourceLocation L, std::string *rel = nullptr) const {
        if (L.isInvalid()) return false;
        auto f = file(L);
        if (f.rfind(root, 0) != 0) return false;
        f = f.substr(root.size());
        if (f.rfind("src/", 0) != 0 && f.rfind("python/", 0) != 0 && f.rfind("pos/", 0) != 0) return false;
        if (rel) *rel = f;
        return true;
    }
    std::string ty(QualType T) const {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qn(const NamedDecl *D) const {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        os.flush();
        // anonymous namespaces / inline namespaces are printed as is
        return s;
    }
};

static std::string fid(const FunctionDecl *F) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(F->getCanonicalDecl(), buf)) return "?";
    return std::string(buf.str());
}

class Dumper {
    Ctx &X;
    std::map<const Decl *, int> ids_;

public:
    std::vector<std::pair<const CXXRecordDecl *, int>> lambdas;
    std::string fnKey;
    explicit Dumper(Ctx &x) : X(x) {}
    int idOf(const Decl *D) {
        auto it = ids_.find(D->getCanonicalDecl());
        if (it != ids_.end()) return it->second;
        int n = (int)ids_.size() + 1;
        ids_[D->getCanonicalDecl()] = n;
        return n;
    }

    J::Object mk(const char *k, SourceLocation L) {
        J::Object o;
        o["k"] = k;
        o["l"] = (int64_t)X.line(L);
        return o;
    }
    J::Array exprs(llvm::ArrayRef<const Expr *> es) {
        J::Array a;
        for (auto *e : es) a.push_back(e ? expr(e) : J::Value(nullptr));
        return a;
    }
    template <class It> J::Array args(It b, It e) {
        J::Array a;
        for (; b != e; ++b) a.push_back(expr(*b));
        return a;
    }
    static bool trivialCast(CastKind k) {
        switch (k) {
            case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
            case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast:
            case CK_ToVoid: case CK_NullToPointer: case CK_NullToMemberPointer: return true;
            default: return false;
        }
    }
    void callee(J::Object &o, const FunctionDecl *F) {
        const FunctionDecl *P = F;
        if (auto *pat = F->getTemplateInstantiationPattern()) P = pat;
        o["f"] = X.qn(P);
        o["fid"] = fid(P);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
        }
        if (auto *tsi = F->getTemplateSpecializationArgs()) {
            J::Array ta;
            for (auto &A : tsi->asArray())
                if (A.getKind() == TemplateArgument::Type) ta.push_back(X.ty(A.getAsType()));
                else if (A.getKind() == TemplateArgument::Integral) ta.push_back("#" + std::to_string(A.getAsIntegral().getExtValue()));
            o["targs"] = std::move(ta);
        }
        // parameter types (reference-ness decides whether an argument may be mutated)
        J::Array pt;
        for (auto *p : F->parameters()) pt.push_back(X.ty(p->getType()));
        o["pt"] = std::move(pt);
    }

    J::Value expr(const Expr *E) {
        if (!E) return nullptr;
        if (auto *x = dyn_cast<FullExpr>(E)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<ParenExpr>(E)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(x->getReplacement());
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
        if (auto *x = dyn_cast<OpaqueValueExpr>(E)) return expr(x->getSourceExpr());
        if (auto *x = dyn_cast<ImplicitCastExpr>(E)) {
            auto ck = x->getCastKind();
            if (trivialCast(ck)) return expr(x->getSubExpr());
            auto o = mk("icast", E->getBeginLoc());
            o["ck"] = x->getCastKindName();
            o["t"] = X.ty(E->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<ExplicitCastExpr>(E)) {
            // functional casts of class type are plain constructions
            if (isa<CXXFunctionalCastExpr>(x) && x->getType()->isRecordType()) return expr(x->getSubExpr());
            auto o = mk("cast", E->getBeginLoc());
            o["s"] = isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : isa<CXXStaticCastExpr>(x) ? "static"
                   : isa<CXXDynamicCastExpr>(x) ? "dynamic" : isa<CXXConstCastExpr>(x) ? "const"
                   : isa<CXXFunctionalCastExpr>(x) ? "func" : "c";
            o["ck"] = x->getCastKindName();
            o["t"] = X.ty(x->getTypeAsWritten());
            o["st"] = X.ty(x->getSubExpr()->IgnoreImplicit()->getType());
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<DeclRefExpr>(E)) {
            auto o = mk("ref", E->getBeginLoc());
            const ValueDecl *D = x->getDecl();
            o["n"] = D->getNameAsString();
            o["t"] = X.ty(D->getType());
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; callee(o, F); }
            else if (isa<EnumConstantDecl>(D)) { o["dk"] = "enumc"; o["q"] = X.qn(D); o["v"] = (int64_t)cast<EnumConstantDecl>(D)->getInitVal().getExtValue(); }
            else if (isa<ParmVarDecl>(D)) { o["dk"] = "param"; o["d"] = idOf(D); }
            else if (auto *V = dyn_cast<VarDecl>(D)) {
                if (V->isStaticLocal()) { o["dk"] = "slocal"; o["d"] = idOf(D); o["q"] = X.qn(V); }
                else if (V->isLocalVarDecl()) { o["dk"] = "local"; o["d"] = idOf(D); }
                else if (V->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = X.qn(V); if (V->isThisDeclarationADefinition()==VarDecl::DeclarationOnly) {} }
                else { o["dk"] = "local"; o["d"] = idOf(D); }
                if (V->getType().isConstQualified()) o["cst"] = true;
            }
            else if (isa<BindingDecl>(D)) { o["dk"] = "bind"; o["d"] = idOf(D); }
            else if (isa<FieldDecl>(D)) { o["dk"] = "field"; o["q"] = X.qn(D); }
            else o["dk"] = "other";
            return o;
        }
        if (isa<CXXThisExpr>(E)) { auto o = mk("this", E->getBeginLoc()); o["t"] = X.ty(E->getType()); return o; }
        if (auto *x = dyn_cast<MemberExpr>(E)) {
            auto *D = x->getMemberDecl();
            auto o = mk("mem", x->getMemberLoc());
            o["n"] = D->getNameAsString();
            o["q"] = X.qn(D);
            o["t"] = X.ty(D->getType());
            if (isa<VarDecl>(D)) { // static data member
                o["k"] = "ref"; o["dk"] = "global";
                return o;
            }
            if (x->isArrow()) o["arrow"] = true;
            o["b"] = expr(x->getBase());
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "memfn"; callee(o, F); }
            return o;
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = mk("op", x->getOperatorLoc());
            o["o"] = getOperatorSpelling(x->getOperator());
            o["t"] = X.ty(E->getType());
            if (auto *F = x->getDirectCallee()) callee(o, F);
            o["a"] = args(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = mk("call", x->getExprLoc());
            o["t"] = X.ty(E->getType());
            const Expr *ce = x->getCallee()->IgnoreParenImpCasts();
            if (auto *F = x->getDirectCallee()) {
                callee(o, F);
                if (auto *me = dyn_cast<MemberExpr>(ce)) if (me->hasQualifier()) o.erase("virt");
                // implicit conversion operators are noise
                if (isa<CXXConversionDecl>(F)) o["conv"] = true;
            } else o["fe"] = expr(x->getCallee());
            if (auto *ob = x->getImplicitObjectArgument()) {
                o["obj"] = expr(ob);
                // static type of the receiver as written, before derived-to-base conversions
                const Expr *oi = ob->IgnoreParenImpCasts();
                o["ot"] = X.ty(oi->getType());
            }
            o["a"] = args(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto *x = dyn_cast<CallExpr>(E)) {
            auto o = mk("call", x->getExprLoc());
            o["t"] = X.ty(E->getType());
            if (auto *F = x->getDirectCallee()) callee(o, F);
            else o["fe"] = expr(x->getCallee());
            o["a"] = args(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
            auto *D = x->getConstructor();
            // copies and moves are transparent
            if (D->isCopyOrMoveConstructor() && x->getNumArgs() >= 1 && isa<CXXTemporaryObjectExpr>(x) == false) {
                auto v = expr(x->getArg(0));
                if (auto *vo = v.getAsObject()) (*vo)["cp"] = true;
                return v;
            }
            auto o = mk("ctor", E->getExprLoc());
            o["t"] = X.ty(E->getType());
            callee(o, D);
            o["a"] = args(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(E)) {
            auto o = mk("new", E->getExprLoc());
            o["t"] = X.ty(x->getAllocatedType());
            o["e"] = x->getInitializer() ? expr(x->getInitializer()) : J::Value(nullptr);
            return o;
        }
        if (auto *x = dyn_cast<BinaryOperator>(E)) {
            auto o = mk("op", x->getOperatorLoc());
            o["o"] = x->getOpcodeStr().str();
            o["t"] = X.ty(E->getType());
            o["bi"] = true;
            J::Array a; a.push_back(expr(x->getLHS())); a.push_back(expr(x->getRHS()));
            o["a"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<UnaryOperator>(E)) {
            auto o = mk("op", x->getOperatorLoc());
            std::string s = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) s = "post" + s;
            o["o"] = s;
            o["t"] = X.ty(E->getType());
            o["bi"] = true;
            J::Array a; a.push_back(expr(x->getSubExpr()));
            o["a"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<AbstractConditionalOperator>(E)) {
            auto o = mk("cond", x->getQuestionLoc());
            o["t"] = X.ty(E->getType());
            o["c"] = expr(x->getCond());
            o["x"] = expr(x->getTrueExpr());
            o["y"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto *x = dyn_cast<StringLiteral>(E)) {
            auto o = mk("str", E->getBeginLoc());
            std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "?";
            o["v"] = J::fixUTF8(s);
            return o;
        }
        if (auto *x = dyn_cast<IntegerLiteral>(E)) {
            auto o = mk("int", E->getBeginLoc());
            llvm::SmallString<40> s; x->getValue().toStringUnsigned(s);
            o["v"] = std::string(s.str()); o["t"] = X.ty(E->getType());
            return o;
        }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = mk("bool", E->getBeginLoc()); o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<CharacterLiteral>(E)) { auto o = mk("char", E->getBeginLoc()); o["v"] = (int64_t)x->getValue(); return o; }
        if (auto *x = dyn_cast<FloatingLiteral>(E)) { auto o = mk("float", E->getBeginLoc()); o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E->getBeginLoc());
        if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
            auto o = mk("op", E->getExprLoc());
            o["o"] = "[]"; o["bi"] = true; o["t"] = X.ty(E->getType());
            J::Array a; a.push_back(expr(x->getBase())); a.push_back(expr(x->getIdx()));
            o["a"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr>(E)) {
            auto *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            auto o = mk("init", E->getBeginLoc());
            o["t"] = X.ty(E->getType());
            J::Array a; for (auto *e : s->inits()) a.push_back(expr(e));
            o["a"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) {
            auto o = mk("defarg", E->getExprLoc());
            o["e"] = expr(x->getExpr());
            return o;
        }
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) {
            auto o = mk("definit", E->getExprLoc());
            o["e"] = expr(x->getExpr());
            return o;
        }
        if (auto *x = dyn_cast<CXXThrowExpr>(E)) {
            auto o = mk("throw", E->getExprLoc());
            o["t"] = x->getSubExpr() ? X.ty(x->getSubExpr()->getType()) : "";
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<LambdaExpr>(E)) {
            auto o = mk("lambda", E->getBeginLoc());
            J::Array caps;
            for (auto it = x->explicit_capture_begin(); it != x->explicit_capture_end(); ++it) {
                J::Object c;
                c["r"] = it->getCaptureKind() == LCK_ByRef;
                if (it->capturesVariable()) { c["n"] = it->getCapturedVar()->getNameAsString(); c["d"] = idOf(it->getCapturedVar()); }
                else if (it->capturesThis()) c["this"] = true;
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            o["def"] = x->getCaptureDefault() == LCD_ByRef ? "&" : x->getCaptureDefault() == LCD_ByCopy ? "=" : "";
            J::Array ps;
            // a generic lambda is described by the instantiation its caller uses
            const FunctionDecl *co = x->getCallOperator();
            const Stmt *cb = x->getBody();
            if (x->isGenericLambda())
                if (auto *td = x->getCallOperator()->getDescribedFunctionTemplate())
                    for (auto *sp : td->specializations())
                        if (sp->getBody()) { co = sp; cb = sp->getBody(); break; }
            for (auto *p : co->parameters()) {
                J::Object po; po["n"] = p->getNameAsString(); po["d"] = idOf(p); po["t"] = X.ty(p->getType()); ps.push_back(std::move(po));
            }
            o["params"] = std::move(ps);
            o["body"] = stmt(cb);
            return o;
        }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            auto o = mk("sizeof", E->getBeginLoc());
            o["t"] = X.ty(x->getTypeOfArgument());
            return o;
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { auto o = mk("delete", E->getBeginLoc()); o["e"] = expr(x->getArgument()); return o; }
        if (auto *x = dyn_cast<CXXScalarValueInitExpr>(E)) { auto o = mk("zinit", E->getExprLoc()); o["t"] = X.ty(E->getType()); return o; }
        if (isa<ImplicitValueInitExpr>(E)) { auto o = mk("zinit", E->getExprLoc()); o["t"] = X.ty(E->getType()); return o; }
        // dependent forms (templates)
        if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
            auto o = mk("depmem", E->getExprLoc()); o["n"] = x->getMember().getAsString();
            if (!x->isImplicitAccess()) o["b"] = expr(x->getBase());
            return o;
        }
        if (auto *x = dyn_cast<UnresolvedMemberExpr>(E)) {
            auto o = mk("depmem", E->getExprLoc()); o["n"] = x->getMemberName().getAsString();
            if (!x->isImplicitAccess()) o["b"] = expr(x->getBase());
            return o;
        }
        if (auto *x = dyn_cast<UnresolvedLookupExpr>(E)) { auto o = mk("depref", E->getExprLoc()); o["n"] = x->getName().getAsString(); return o; }
        if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
            auto o = mk("ctor", E->getExprLoc()); o["t"] = X.ty(x->getTypeAsWritten()); o["a"] = args(x->arg_begin(), x->arg_end()); return o;
        }
        if (auto *x = dyn_cast<ParenListExpr>(E)) {
            auto o = mk("init", E->getExprLoc()); J::Array a; for (unsigned i = 0; i < x->getNumExprs(); i++) a.push_back(expr(x->getExpr(i))); o["a"] = std::move(a); return o;
        }
        auto o = mk("other", E->getExprLoc());
        o["c"] = E->getStmtClassName();
        J::Array a;
        for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
        o["a"] = std::move(a);
        return o;
    }

    J::Object varDecl(const VarDecl *V) {
        J::Object o;
        o["n"] = V->getNameAsString();
        o["d"] = idOf(V);
        o["t"] = X.ty(V->getType());
        o["l"] = (int64_t)X.line(V->getLocation());
        if (V->isStaticLocal()) { o["static"] = true; o["q"] = X.qn(V); }
        if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (V->getType().isConstQualified() || V->isConstexpr()) o["cst"] = true;
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->getInit()) o["i"] = expr(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            J::Array b;
            for (auto *bd : D->bindings()) { J::Object bo; bo["n"] = bd->getNameAsString(); bo["d"] = idOf(bd); bo["t"] = X.ty(bd->getType()); b.push_back(std::move(bo)); }
            o["binds"] = std::move(b);
        }
        return o;
    }

    J::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *e = dyn_cast<Expr>(S)) { auto o = mk("expr", S->getBeginLoc()); o["e"] = expr(e); return o; }
        auto L = S->getBeginLoc();
        switch (S->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                auto o = mk("block", L);
                J::Array a;
                for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
                o["b"] = std::move(a);
                o["el"] = (int64_t)X.line(S->getEndLoc());
                return o;
            }
            case Stmt::IfStmtClass: {
                auto *s = cast<IfStmt>(S);
                auto o = mk("if", L);
                if (s->getInit()) o["init"] = stmt(s->getInit());
                if (auto *V = s->getConditionVariable()) o["cv"] = varDecl(V);
                if (s->isConstexpr()) o["cexpr"] = true;
                o["c"] = expr(s->getCond());
                o["x"] = stmt(s->getThen());
                o["y"] = stmt(s->getElse());
                return o;
            }
            case Stmt::ForStmtClass: {
                auto *s = cast<ForStmt>(S);
                auto o = mk("for", L);
                o["init"] = stmt(s->getInit());
                if (auto *V = s->getConditionVariable()) o["cv"] = varDecl(V);
                o["c"] = expr(s->getCond());
                o["inc"] = expr(s->getInc());
                o["b"] = stmt(s->getBody());
                return o;
            }
            case Stmt::WhileStmtClass: {
                auto *s = cast<WhileStmt>(S);
                auto o = mk("while", L);
                if (auto *V = s->getConditionVariable()) o["cv"] = varDecl(V);
                o["c"] = expr(s->getCond());
                o["b"] = stmt(s->getBody());
                return o;
            }
            case Stmt::DoStmtClass: {
                auto *s = cast<DoStmt>(S);
                auto o = mk("do", L);
                o["c"] = expr(s->getCond());
                o["b"] = stmt(s->getBody());
                return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *s = cast<CXXForRangeStmt>(S);
                auto o = mk("rfor", L);
                o["v"] = varDecl(s->getLoopVariable());
                o["r"] = expr(s->getRangeInit());
                o["rt"] = s->getRangeInit() ? X.ty(s->getRangeInit()->getType()) : "";
                o["b"] = stmt(s->getBody());
                return o;
            }
            case Stmt::SwitchStmtClass: {
                auto *s = cast<SwitchStmt>(S);
                auto o = mk("switch", L);
                if (s->getInit()) o["init"] = stmt(s->getInit());
                if (auto *V = s->getConditionVariable()) o["cv"] = varDecl(V);
                o["c"] = expr(s->getCond());
                o["ct"] = X.ty(s->getCond()->IgnoreParenImpCasts()->getType());
                o["b"] = stmt(s->getBody());
                return o;
            }
            case Stmt::CaseStmtClass: {
                auto *s = cast<CaseStmt>(S);
                auto o = mk("case", L);
                const Expr *e = s->getLHS();
                if (auto *ce = dyn_cast<ConstantExpr>(e)) e = ce->getSubExpr();
                o["v"] = expr(e);
                o["b"] = stmt(s->getSubStmt());
                return o;
            }
            case Stmt::DefaultStmtClass: { auto o = mk("default", L); o["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt()); return o; }
            case Stmt::BreakStmtClass: return mk("break", L);
            case Stmt::ContinueStmtClass: return mk("continue", L);
            case Stmt::NullStmtClass: return mk("nop", L);
            case Stmt::ReturnStmtClass: { auto o = mk("return", L); o["e"] = expr(cast<ReturnStmt>(S)->getRetValue()); return o; }
            case Stmt::DeclStmtClass: {
                auto o = mk("decl", L);
                J::Array a;
                for (auto *d : cast<DeclStmt>(S)->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
                o["v"] = std::move(a);
                return o;
            }
            case Stmt::CXXTryStmtClass: {
                auto *s = cast<CXXTryStmt>(S);
                auto o = mk("try", L);
                o["b"] = stmt(s->getTryBlock());
                J::Array h;
                for (unsigned i = 0; i < s->getNumHandlers(); i++) {
                    auto *c = s->getHandler(i);
                    J::Object ho;
                    ho["t"] = c->getExceptionDecl() ? X.ty(c->getExceptionDecl()->getType()) : "...";
                    if (c->getExceptionDecl()) ho["d"] = idOf(c->getExceptionDecl());
                    ho["b"] = stmt(c->getHandlerBlock());
                    h.push_back(std::move(ho));
                }
                o["h"] = std::move(h);
                return o;
            }
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
            case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
            default: {
                auto o = mk("ostmt", L);
                o["c"] = S->getStmtClassName();
                J::Array a;
                for (auto *c : S->children()) if (c) a.push_back(stmt(c));
                o["b"] = std::move(a);
                return o;
            }
        }
    }
};

class V : public RecursiveASTVisitor<V> {
    Ctx &X;
    std::set<std::string> seen;

public:
    J::Array funcs, classes, enums, vars;
    explicit V(Ctx &x) : X(x) {}
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitTemplateInstantiations() const { return false; }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() && !F->isDeletedAsWritten() && !F->isExplicitlyDefaulted()) return true;
        std::string rel;
        if (!X.inRepo(F->getLocation(), &rel)) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        J::Object o;
        o["q"] = X.qn(F);
        o["fid"] = fid(F);
        o["file"] = rel;
        o["l"] = (int64_t)X.line(F->getLocation());
        o["el"] = (int64_t)X.line(F->getEndLoc());
        o["rt"] = X.ty(F->getReturnType());
        if (F->isDefaulted() || F->isDeleted()) { if (F->isDeleted()) o["deleted"] = true; else o["defaulted"] = true; }
        if (F->getTemplatedKind() != FunctionDecl::TK_NonTemplate || F->isDependentContext()) o["tmpl"] = true;
        Dumper D(X);
        J::Array ps;
        for (auto *p : F->parameters()) {
            J::Object po;
            po["n"] = p->getNameAsString(); po["d"] = D.idOf(p); po["t"] = X.ty(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = D.expr(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = X.qn(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            J::Array ov;
            for (auto *b : M->overridden_methods()) ov.push_back(fid(b));
            o["ov"] = std::move(ov);
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            if (K->isCopyConstructor()) o["copyctor"] = true;
            J::Array in;
            for (auto *i : K->inits()) {
                J::Object io;
                io["w"] = i->isWritten();
                io["l"] = (int64_t)X.line(i->isWritten() ? i->getSourceLocation() : F->getLocation());
                if (i->isAnyMemberInitializer()) { io["m"] = X.qn(i->getAnyMember()); }
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                else if (i->isBaseInitializer()) io["base"] = X.ty(QualType(i->getBaseClass(), 0));
                io["e"] = D.expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (F->doesThisDeclarationHaveABody()) o["body"] = D.stmt(F->getBody());
        funcs.push_back(std::move(o));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
        std::string rel;
        if (!X.inRepo(R->getLocation(), &rel)) return true;
        J::Object o;
        o["q"] = X.qn(R);
        o["file"] = rel;
        o["l"] = (int64_t)X.line(R->getLocation());
        J::Array bs;
        for (auto &b : R->bases()) bs.push_back(X.ty(b.getType()));
        o["bases"] = std::move(bs);
        J::Array fs;
        Dumper D(X);
        for (auto *f : R->fields()) {
            J::Object fo;
            fo["n"] = f->getNameAsString(); fo["q"] = X.qn(f); fo["t"] = X.ty(f->getType());
            fo["l"] = (int64_t)X.line(f->getLocation());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = D.expr(f->getInClassInitializer());
            fo["acc"] = (int64_t)f->getAccess();
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        J::Array ms;
        for (auto *m : R->methods()) {
            if (m->isImplicit()) continue;
            J::Object mo;
            mo["n"] = m->getNameAsString(); mo["q"] = X.qn(m); mo["fid"] = fid(m);
            if (m->isVirtual()) mo["virt"] = true;
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isConst()) mo["const"] = true;
            if (m->isStatic()) mo["static"] = true;
            if (m->isDeleted()) mo["deleted"] = true;
            mo["acc"] = (int64_t)m->getAccess();
            mo["rt"] = X.ty(m->getReturnType());
            J::Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(fid(b));
            mo["ov"] = std::move(ov);
            J::Array pt;
            for (auto *p : m->parameters()) pt.push_back(X.ty(p->getType()));
            mo["pt"] = std::move(pt);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        if (R->isAbstract()) o["abstract"] = true;
        classes.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition()) return true;
        std::string rel;
        if (!X.inRepo(E->getLocation(), &rel)) return true;
        J::Object o;
        o["q"] = X.qn(E);
        o["file"] = rel;
        o["l"] = (int64_t)X.line(E->getLocation());
        J::Array cs;
        for (auto *c : E->enumerators()) { J::Object co; co["n"] = c->getNameAsString(); co["q"] = X.qn(c); co["v"] = (int64_t)c->getInitVal().getExtValue(); cs.push_back(std::move(co)); }
        o["c"] = std::move(cs);
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *D) {
        if (isa<ParmVarDecl>(D)) return true;
        if (!D->hasGlobalStorage()) return true;
        std::string rel;
        if (!X.inRepo(D->getLocation(), &rel)) return true;
        J::Object o;
        o["q"] = X.qn(D); o["n"] = D->getNameAsString(); o["file"] = rel; o["l"] = (int64_t)X.line(D->getLocation());
        o["t"] = X.ty(D->getType());
        if (D->getType().isConstQualified() || D->isConstexpr()) o["cst"] = true;
        if (D->isStaticLocal()) o["slocal"] = true;
        if (D->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (D->isThisDeclarationADefinition() == VarDecl::Definition) o["def"] = true;
        Dumper U(X);
        if (D->getInit()) o["i"] = U.expr(D->getInit());
        vars.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
    std::string main_;
public:
    explicit Consumer(std::string m) : main_(std::move(m)) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Ctx X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        J::Object o;
        o["main"] = main_;
        o["funcs"] = std::move(v.funcs);
        o["classes"] = std::move(v.classes);
        o["enums"] = std::move(v.enums);
        o["vars"] = std::move(v.vars);
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        os << J::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
        return std::make_unique<Consumer>(F.str());
    }
};
int main(int argc, const char **argv) {
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat, llvm::cl::OneOrMore);
    if (!P) { llvm::errs() << P.takeError(); return 2; }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
