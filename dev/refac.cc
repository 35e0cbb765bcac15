// refac: rewrites a source file with behaviour-preserving edits, to test that the checks stay quiet.
// modes: rfor (range-for -> iterator loop), inv (swap if/else), tmp (name the condition), ret (name the result),
//        eq (swap == operands), wrap (if-throw guards into an immediately called lambda), local (rename locals), dm (De Morgan)
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Rewrite/Core/Rewriter.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <fstream>
#include <set>
#include <sstream>
using namespace clang;
static llvm::cl::OptionCategory Cat("refac");
static llvm::cl::opt<std::string> Mode("mode", llvm::cl::cat(Cat));

struct V : RecursiveASTVisitor<V> {
    ASTContext &C;
    Rewriter &R;
    SourceManager &SM;
    int n = 0, cnt = 0;
    V(ASTContext &c, Rewriter &r) : C(c), R(r), SM(c.getSourceManager()) {}
    bool shouldTraversePostOrder() const { return true; }
    bool mine(SourceLocation l) { return l.isValid() && l.isFileID() && SM.isInMainFile(l); }
    bool mine(SourceRange r) { return mine(r.getBegin()) && mine(r.getEnd()); }
    std::string txt(SourceRange r) { return R.getRewrittenText(CharSourceRange::getTokenRange(r)); }
    bool inCompound(const Stmt *s) {
        auto ps = C.getParents(*s);
        return ps.size() == 1 && ps[0].get<CompoundStmt>();
    }
    std::string id() { return std::to_string(++n); }
    void after(SourceLocation l, const std::string &t) { R.InsertTextAfterToken(l, t); }
    bool VisitCXXForRangeStmt(CXXForRangeStmt *s) {
        if (Mode != "rfor" || !mine(s->getSourceRange())) return true;
        auto *ri = s->getRangeInit();
        if (isa<CXXStdInitializerListExpr>(ri->IgnoreImplicit()) || isa<InitListExpr>(ri) || ri->getType()->isArrayType()) return true;
        auto *b = dyn_cast<CompoundStmt>(s->getBody());
        auto *v = s->getLoopVariable();
        if (!v) return true;
        auto k = id();
        std::string range = txt(ri->getSourceRange());
        // declaration text up to ':'
        std::string full = Lexer::getSourceText(CharSourceRange::getCharRange(s->getForLoc(), s->getColonLoc()), SM, C.getLangOpts()).str();
        auto p = full.find('(');
        std::string decl = full.substr(p + 1);
        while (!decl.empty() && isspace(decl.back())) decl.pop_back();
        std::string body = txt(s->getBody()->getSourceRange());
        if (!b) {
            // semicolon
            body = "{ " + body + "; }";
        }
        std::string nb = "{ " + decl + " = *it_" + k + ";" + body.substr(1);
        bool lv = ri->IgnoreImplicit()->isLValue();
        std::string r = lv ? range : "rng_" + k;
        std::string t = "for (auto it_" + k + " = (" + r + ").begin(); it_" + k + " != (" + r + ").end(); ++it_" + k + ") " + nb;
        if (!lv) t = "{ auto &&rng_" + k + " = " + range + ";\n" + t + "}";
        SourceRange rr(s->getForLoc(), s->getBody()->getEndLoc());
        if (!b) t += "";
        R.ReplaceText(rr, t);
        cnt++;
        return true;
    }
    bool VisitIfStmt(IfStmt *s) {
        if (auto *c = C.getParents(*s).empty() ? nullptr : C.getParents(*s)[0].get<CompoundStmt>()) {
            if (!C.getParents(*c).empty() && C.getParents(*c)[0].get<SwitchStmt>()) return true;
        }
        if (!mine(s->getSourceRange()) || s->isConstexpr() || s->getInit() || s->getConditionVariable()) return true;
        if (Mode == "inv") {
            auto *t = dyn_cast<CompoundStmt>(s->getThen());
            auto *e = s->getElse() ? dyn_cast<CompoundStmt>(s->getElse()) : nullptr;
            if (!t || !e) return true;
            auto out = "if (!(" + txt(s->getCond()->getSourceRange()) + ")) " + txt(e->getSourceRange()) + " else " + txt(t->getSourceRange());
            R.ReplaceText(s->getSourceRange(), out);
            cnt++;
        } else if (Mode == "tmp") {
            if (!inCompound(s)) return true;
            auto k = id();
            auto c = txt(s->getCond()->getSourceRange());
            R.ReplaceText(s->getCond()->getSourceRange(), "cond_" + k);
            R.InsertTextBefore(s->getBeginLoc(), "const bool cond_" + k + " = static_cast<bool>(" + c + ");\n");
            cnt++;
        } else if (Mode == "wrap") {
            if (!inCompound(s) || s->getElse()) return true;
            auto *body = s->getThen();
            Stmt *th = body;
            if (auto *c = dyn_cast<CompoundStmt>(body)) {
                if (c->size() != 1) return true;
                th = *c->body_begin();
            }
            if (auto *w = dyn_cast<ExprWithCleanups>(th)) th = w->getSubExpr();
            if (!isa<CXXThrowExpr>(th)) return true;
            R.InsertTextBefore(s->getBeginLoc(), "[&]() { ");
            // token after the end: ';' when not compound
            if (isa<CompoundStmt>(body)) after(s->getEndLoc(), " }();");
            else {
                auto e = Lexer::findLocationAfterToken(s->getEndLoc(), tok::semi, SM, C.getLangOpts(), false);
                if (e.isInvalid()) return true;
                R.InsertTextBefore(e, " }();");
            }
            cnt++;
        }
        return true;
    }
    bool VisitReturnStmt(ReturnStmt *s) {
        if (Mode != "ret" || !mine(s->getSourceRange()) || !s->getRetValue() || !inCompound(s)) return true;
        auto *e = s->getRetValue();
        if (e->getType()->isVoidType() || isa<InitListExpr>(e->IgnoreImplicit())) return true;
        auto t = e->getType().getAsString();
        if (t.find("unique_ptr") != std::string::npos || t.find("<lambda") != std::string::npos || t.find("(lambda") != std::string::npos) return true;
        auto src = txt(e->getSourceRange());
        if (src.empty() || src[0] == '{' || src == "nullptr" || src == "this") return true;
        auto k = id();
        R.ReplaceText(e->getSourceRange(), "ret_" + k);
        R.InsertTextBefore(s->getBeginLoc(), "auto &&ret_" + k + " = " + src + ";\n");
        cnt++;
        return true;
    }
    bool VisitBinaryOperator(BinaryOperator *s) {
        if (!mine(s->getSourceRange())) return true;
        if (Mode == "eq" && (s->getOpcode() == BO_EQ || s->getOpcode() == BO_NE)) {
            auto a = txt(s->getLHS()->getSourceRange()), b = txt(s->getRHS()->getSourceRange());
            R.ReplaceText(s->getSourceRange(), "(" + b + ") " + s->getOpcodeStr().str() + " (" + a + ")");
            cnt++;
        }
        if (Mode == "rel" && s->isRelationalOp()) {
            auto a = txt(s->getLHS()->getSourceRange()), b = txt(s->getRHS()->getSourceRange());
            const char *o = s->getOpcode() == BO_LT ? ">" : s->getOpcode() == BO_GT ? "<" : s->getOpcode() == BO_LE ? ">=" : "<=";
            R.ReplaceText(s->getSourceRange(), "(" + b + ") " + o + " (" + a + ")");
            cnt++;
        }
        if (Mode == "dm" && (s->getOpcode() == BO_LAnd || s->getOpcode() == BO_LOr)) {
            auto a = txt(s->getLHS()->getSourceRange()), b = txt(s->getRHS()->getSourceRange());
            R.ReplaceText(s->getSourceRange(), "(!(!(" + a + ") " + (s->getOpcode() == BO_LAnd ? "||" : "&&") + " !(" + b + ")))");
            cnt++;
        }
        return true;
    }
    std::set<const VarDecl *> loc;
    static bool local(const VarDecl *v) { return v->isLocalVarDecl() && !v->isStaticLocal() && !v->getName().empty() && !isa<DecompositionDecl>(v); }
    bool VisitVarDecl(VarDecl *v) {
        if (Mode == "local" && mine(v->getLocation()) && (local(v) || (isa<ParmVarDecl>(v) && !v->getName().empty() && C.getSourceManager().isInMainFile(v->getLocation())))) {
            if (isa<ParmVarDecl>(v) || !done.insert(v->getLocation().getRawEncoding()).second) return true;
            R.ReplaceText(v->getLocation(), v->getName().size(), v->getName().str() + "_zz");
            cnt++;
        }
        return true;
    }
    bool VisitDeclRefExpr(DeclRefExpr *e) {
        if (Mode != "local" || !mine(e->getLocation())) return true;
        auto *v = dyn_cast<VarDecl>(e->getDecl());
        if (!v || isa<ParmVarDecl>(v) || !mine(v->getLocation()) || !local(v)) return true;
        if (done.insert(e->getLocation().getRawEncoding()).second) R.ReplaceText(e->getLocation(), v->getName().size(), v->getName().str() + "_zz");
        return true;
    }
    std::set<unsigned> done;
    bool TraverseLambdaExpr(LambdaExpr *e) {
        if (Mode == "local") {
            for (auto &c : e->captures())
                if (c.isExplicit() && c.capturesVariable()) {
                    auto *v = dyn_cast<VarDecl>(c.getCapturedVar());
                    if (v && local(v) && !e->isInitCapture(&c) && done.insert(c.getLocation().getRawEncoding()).second) R.ReplaceText(c.getLocation(), v->getName().size(), v->getName().str() + "_zz");
                }
        }
        return RecursiveASTVisitor<V>::TraverseLambdaExpr(e);
    }
};

struct Cons : ASTConsumer {
    Rewriter R;
    void HandleTranslationUnit(ASTContext &C) override {
        R.setSourceMgr(C.getSourceManager(), C.getLangOpts());
        V v(C, R);
        for (auto *d : C.getTranslationUnitDecl()->decls())
            if (C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(d->getLocation()))) v.TraverseDecl(d);
        llvm::errs() << v.cnt << " edits\n";
        R.overwriteChangedFiles();
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char **argv) {
    auto E = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!E) return 2;
    tooling::ClangTool T(E->getCompilations(), E->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
