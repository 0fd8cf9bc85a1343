// xtract: mechanical extraction of C++ function definitions from the real sources.
//
//   xtract [-r regex]... -o out.json file.cpp -- <compiler flags>
//
// Emits, as JSON, the (fully type-checked, template-instantiated) AST of every function definition whose
// key (qualified name + template args + parameter types) matches one of the regexes, and transitively of every function it refers to
// whose definition lies under /repo.  Nothing is rewritten: implicit casts, conversions and
// constructor calls appear exactly as clang's semantic analysis inserted them.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <deque>

using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> g_res, g_stop;
static std::string g_out;
static std::string g_root = "/repo/";

struct Ex {
    ASTContext &C;
    PrintingPolicy PP;
    js::Object functions, records, enums, globals;
    std::deque<const FunctionDecl *> todo;
    std::set<const FunctionDecl *> seen;
    std::map<const void *, int> ids;
    std::set<const FunctionDecl *> mentioned;

    Ex(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressDefaultTemplateArgs = false;
    }
    int id(const void *p) {
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[p] = n;
        return n;
    }
    bool inRoot(const Decl *D) {
        auto &SM = C.getSourceManager();
        auto L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        auto f = SM.getFilename(L);
        return f.starts_with(g_root);
    }
    std::string file(const Decl *D) {
        auto &SM = C.getSourceManager();
        return SM.getFilename(SM.getExpansionLoc(D->getLocation())).str();
    }
    int line(SourceLocation L) {
        auto &SM = C.getSourceManager();
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return 0;
        return (int)SM.getSpellingLineNumber(L);
    }
    std::string ty(QualType Q) {
        if (Q.isNull()) return "?";
        Q = Q.getCanonicalType();
        if (auto *R = Q->getAs<ReferenceType>()) {
            return std::string(Q->isRValueReferenceType() ? "&&" : "&") + ty(R->getPointeeType());
        }
        bool isconst = Q.isConstQualified();
        std::string pre = isconst ? "const " : "";
        QualType U = Q.getUnqualifiedType();
        if (auto *P = U->getAs<PointerType>()) return pre + "*" + ty(P->getPointeeType());
        if (auto *E = U->getAs<EnumType>()) {
            std::string n = E->getDecl()->getQualifiedNameAsString();
            noteEnum(E->getDecl(), n);
            return pre + "enum " + n;
        }
        if (auto *R = U->getAsCXXRecordDecl()) {
            return pre + rec(R);
        }
        if (auto *A = C.getAsConstantArrayType(U)) {
            return pre + "[" + std::to_string(A->getSize().getZExtValue()) + "]" + ty(A->getElementType());
        }
        return pre + U.getAsString(PP);
    }
    std::map<const CXXRecordDecl *, std::string> recnames;
    std::string rec(const CXXRecordDecl *R) {
        R = R->getCanonicalDecl();
        auto it = recnames.find(R);
        if (it != recnames.end()) return it->second;
        std::string n;
        if (R->isLambda()) {
            n = "lambda#" + std::to_string(id(R)) ;
        } else {
            n = C.getTypeDeclType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
        }
        recnames[R] = n;
        js::Object o;
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            o["tmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
            js::Array a;
            for (auto &A : S->getTemplateArgs().asArray()) addArg(a, A);
            o["args"] = std::move(a);
        }
        const CXXRecordDecl *D = R->getDefinition();
        if (D && (inRoot(D) || D->isLambda() || n == "DLTensor" || n.rfind("DL", 0) == 0)) {
            js::Array f, b;
            if (D->isLambda()) {
                // captures
                js::Array caps;
                auto fit = D->field_begin();
                for (auto &c : D->captures()) {
                    js::Object co;
                    if (c.capturesThis()) { co["this"] = true; }
                    else if (c.capturesVariable()) {
                        co["id"] = id(c.getCapturedVar()->getCanonicalDecl());
                        co["name"] = c.getCapturedVar()->getNameAsString();
                    }
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (fit != D->field_end()) { co["t"] = ty((*fit)->getType()); ++fit; }
                    caps.push_back(std::move(co));
                }
                o["captures"] = std::move(caps);
            } else {
                for (auto &B : D->bases()) b.push_back(ty(B.getType()));
                for (auto *F : D->fields()) {
                    js::Object fo{{"n", F->getNameAsString()}, {"t", ty(F->getType())}};
                    if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
                    f.push_back(std::move(fo));
                }
            }
            o["fields"] = std::move(f);
            o["bases"] = std::move(b);
        }
        records[n] = std::move(o);
        return n;
    }
    void addArg(js::Array &a, const TemplateArgument &A) {
        switch (A.getKind()) {
        case TemplateArgument::Type: a.push_back(ty(A.getAsType())); break;
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10); a.push_back(std::string(s.str())); break; }
        case TemplateArgument::Pack: for (auto &P : A.pack_elements()) addArg(a, P); break;
        case TemplateArgument::Template: a.push_back(A.getAsTemplate().getAsTemplateDecl()->getQualifiedNameAsString()); break;
        default: a.push_back("?");
        }
    }
    void noteEnum(const EnumDecl *E, const std::string &n) {
        if (enums.find(n) != enums.end()) return;
        js::Object o;
        enums[n] = true;
        if (auto *D = E->getDefinition()) {
            for (auto *c : D->enumerators()) o[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
            js::Object w; w["u"] = ty(D->getIntegerType()); w["vals"] = std::move(o);
            enums[n] = std::move(w);
        }
    }
    std::string fkey(const FunctionDecl *F) {
        std::string s;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) {
                s = rec(M->getParent()) + "::operator()";
                return s;
            }
            s = rec(M->getParent()) + "::";
            s += isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : isa<CXXConversionDecl>(M) ? "conv" : M->getNameAsString();
        } else s = F->getQualifiedNameAsString();
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            js::Array a;
            for (auto &A : TA->asArray()) addArg(a, A);
            s += "<";
            bool first = true;
            for (auto &v : a) { if (!first) s += ","; first = false; s += v.getAsString()->str(); }
            s += ">";
        }
        s += "(";
        bool first = true;
        for (auto *P : F->parameters()) { if (!first) s += ","; first = false; s += ty(P->getType()); }
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "const";
        return s;
    }
    std::string fname(const FunctionDecl *F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            std::string tn;
            const CXXRecordDecl *R = M->getParent();
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) tn = S->getSpecializedTemplate()->getQualifiedNameAsString();
            else if (R->isLambda()) tn = rec(R);
            else tn = R->getQualifiedNameAsString();
            std::string n = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : isa<CXXConversionDecl>(M) ? "conv" : M->getNameAsString();
            return tn + "::" + n;
        }
        return F->getQualifiedNameAsString();
    }
    std::vector<std::regex> stops_;
    std::vector<std::regex> &stops() { if (stops_.empty()) for (auto &r : g_stop) stops_.emplace_back(r); return stops_; }
    void want(const FunctionDecl *F, bool force = false) {
        if (!F) return;
        const FunctionDecl *D = nullptr;
        F->isDefined(D);
        if (!D) D = F->getDefinition();
        if (!D) return;
        bool r = inRoot(D);
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) r = true;
        if (!r) return;
        if (!g_stop.empty() && !force) { std::string k = fkey(D); for (auto &s : stops()) if (std::regex_search(k, s)) return; }
        if (seen.insert(D).second) todo.push_back(D);
    }
    // ---- function reference ----
    void fref(js::Object &o, const FunctionDecl *F) {
        o["fn"] = fkey(F);
        o["q"] = fname(F);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            js::Array a;
            for (auto &A : TA->asArray()) addArg(a, A);
            o["ta"] = std::move(a);
        }
        want(F);
    }
    js::Array exprs(llvm::ArrayRef<const Expr *> A) {
        js::Array a;
        for (auto *e : A) a.push_back(expr(e));
        return a;
    }
    template <class R> js::Array args(R r) {
        js::Array a;
        for (auto *e : r) a.push_back(expr(e));
        return a;
    }
    js::Value expr(const Expr *E) {
        if (!E) return nullptr;
        // transparent nodes
        for (;;) {
            if (auto *x = dyn_cast<ParenExpr>(E)) E = x->getSubExpr();
            else if (auto *x = dyn_cast<ExprWithCleanups>(E)) E = x->getSubExpr();
            else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) E = x->getSubExpr();
            else if (auto *x = dyn_cast<ConstantExpr>(E)) E = x->getSubExpr();
            else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
            else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
            else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
            else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) E = x->getSubExpr();
            else break;
        }
        js::Object o;
        o["t"] = ty(E->getType());
        o["ln"] = line(E->getBeginLoc());
        if (E->isLValue()) o["lv"] = true;
        else if (E->isXValue()) o["lv"] = true;
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) {
            o["k"] = "MatTemp"; o["e"] = expr(x->getSubExpr()); return o;
        }
        if (auto *x = dyn_cast<IntegerLiteral>(E)) {
            o["k"] = "Int";
            llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = std::string(s.str()); return o;
        }
        if (auto *x = dyn_cast<FloatingLiteral>(E)) {
            o["k"] = "Flt";
            llvm::APFloat f = x->getValue();
            llvm::SmallString<64> s; f.toString(s, 60, 0);
            o["v"] = std::string(s.str()); return o;
        }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<CharacterLiteral>(E)) { o["k"] = "Int"; o["v"] = std::to_string(x->getValue()); return o; }
        if (auto *x = dyn_cast<StringLiteral>(E)) { o["k"] = "Str"; o["v"] = x->isOrdinary() ? js::fixUTF8(x->getString()) : "?"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "Null"; return o; }
        if (isa<CXXThisExpr>(E)) { o["k"] = "This"; return o; }
        if (auto *x = dyn_cast<DeclRefExpr>(E)) {
            auto *D = x->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "Int"; o["v"] = std::to_string(ec->getInitVal().getExtValue()); o["en"] = ec->getNameAsString(); return o;
            }
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "FnRef"; fref(o, F); return o; }
            o["k"] = "Ref"; o["n"] = D->getNameAsString();
            if (auto *V = dyn_cast<VarDecl>(D)) {
                o["id"] = id(V->getCanonicalDecl());
                bool captured = x->refersToEnclosingVariableOrCapture();
                if (captured) o["cap"] = true;
                if (!V->isLocalVarDeclOrParm() || V->isStaticLocal()) {
                    o["glob"] = V->getQualifiedNameAsString();
                    noteGlobal(V);
                } 
            } else if (auto *B = dyn_cast<BindingDecl>(D)) {
                o["k"] = "Binding"; o["id"] = id(B); o["b"] = B->getBinding() ? expr(B->getBinding()) : js::Value(nullptr);
                if (auto *H = B->getHoldingVar()) { o["hold"] = id(H->getCanonicalDecl()); o["holdn"] = H->getNameAsString(); }
            }
            return o;
        }
        if (auto *x = dyn_cast<MemberExpr>(E)) {
            auto *D = x->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                o["k"] = "Mem"; o["b"] = expr(x->getBase()); o["f"] = F->getNameAsString(); o["arrow"] = x->isArrow();
                o["cls"] = rec(cast<CXXRecordDecl>(F->getParent()));
                return o;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "Ref"; o["n"] = V->getNameAsString(); o["glob"] = V->getQualifiedNameAsString(); o["id"] = id(V->getCanonicalDecl()); noteGlobal(V); return o; }
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "MethRef"; o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow(); fref(o, F); return o; }
        }
        if (auto *x = dyn_cast<CompoundAssignOperator>(E)) {
            o["k"] = "CAsg"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS());
            o["ct"] = ty(x->getComputationLHSType()); o["cr"] = ty(x->getComputationResultType()); return o;
        }
        if (auto *x = dyn_cast<BinaryOperator>(E)) {
            o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["l"] = expr(x->getLHS()); o["r"] = expr(x->getRHS()); return o;
        }
        if (auto *x = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); return o;
        }
        if (auto *x = dyn_cast<ConditionalOperator>(E)) {
            o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["l"] = expr(x->getTrueExpr()); o["r"] = expr(x->getFalseExpr()); return o;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "Idx"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o;
        }
        if (auto *x = dyn_cast<CastExpr>(E)) {
            o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
            if (auto *cf = x->getConversionFunction()) if (auto *fd = dyn_cast<FunctionDecl>(cf)) { (void)fd; }
            return o;
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
            if (auto *F = x->getDirectCallee()) { fref(o, F); o["meth"] = isa<CXXMethodDecl>(F); }
            o["a"] = args(x->arguments()); return o;
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "MCall";
            if (auto *F = x->getMethodDecl()) fref(o, F);
            o["o"] = expr(x->getImplicitObjectArgument());
            if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
            o["a"] = args(x->arguments()); return o;
        }
        if (auto *x = dyn_cast<CallExpr>(E)) {
            o["k"] = "Call";
            if (auto *F = x->getDirectCallee()) fref(o, F);
            else o["callee"] = expr(x->getCallee());
            o["a"] = args(x->arguments()); return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "Ctor"; fref(o, x->getConstructor()); o["a"] = args(x->arguments());
            o["copy"] = x->getConstructor()->isCopyConstructor() || x->getConstructor()->isMoveConstructor();
            o["triv"] = x->getConstructor()->isTrivial();
            o["dflt"] = x->getConstructor()->isDefaulted();
            o["list"] = x->isListInitialization();
            o["ncp"] = (int)x->getConstructor()->getNumParams();
            o["zero"] = x->requiresZeroInitialization();
            return o;
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "Unk"; o["w"] = "CXXInheritedCtorInitExpr"; return o; }
        if (auto *x = dyn_cast<InitListExpr>(E)) {
            if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "InitList"; js::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "Lambda"; o["cls"] = rec(x->getLambdaClass());
            want(x->getCallOperator());
            o["fn"] = fkey(x->getCallOperator());
            js::Array ci; for (auto *i : x->capture_inits()) ci.push_back(expr(i)); o["ci"] = std::move(ci);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "ZeroInit"; return o; }
        if (auto *x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "Throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<CXXNewExpr>(E)) { o["k"] = "New"; o["at"] = ty(x->getAllocatedType()); if (x->getInitializer()) o["e"] = expr(x->getInitializer()); if (x->isArray()) o["arr"] = true; return o; }
        if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument()); return o; }
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "ArrayCopy"; o["e"] = expr(x->getCommonExpr()); return o; }
        if (auto *x = dyn_cast<OpaqueValueExpr>(E)) { return expr(x->getSourceExpr()); }
        if (auto *x = dyn_cast<PredefinedExpr>(E)) { o["k"] = "Str"; o["v"] = "?"; return o; }
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
            llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["k"] = "Int"; o["v"] = std::string(s.str()); return o;
        }
        o["k"] = "Unk"; o["w"] = E->getStmtClassName();
        js::Array a; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); o["a"] = std::move(a);
        return o;
    }
    void noteGlobal(const VarDecl *V) {
        std::string n = V->getQualifiedNameAsString();
        if (globals.find(n) != globals.end()) return;
        globals[n] = true;
        js::Object o; o["t"] = ty(V->getType());
        const VarDecl *D = nullptr;
        const Expr *I = V->getAnyInitializer(D);
        if (I && !I->isValueDependent()) { o["init"] = expr(I); }
        o["const"] = V->getType().isConstQualified();
        globals[n] = std::move(o);
    }
    js::Value var(const VarDecl *V) {
        js::Object o{{"n", V->getNameAsString()}, {"id", id(V->getCanonicalDecl())}, {"t", ty(V->getType())}};
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = expr(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            js::Array a;
            for (auto *B : D->bindings()) {
                js::Object bo{{"n", B->getNameAsString()}, {"id", id(B)}};
                if (B->getBinding()) bo["b"] = expr(B->getBinding());
                a.push_back(std::move(bo));
            }
            o["bind"] = std::move(a);
        }
        return o;
    }
    js::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        js::Object o;
        o["ln"] = line(S->getBeginLoc());
        if (auto *x = dyn_cast<CompoundStmt>(S)) { o["k"] = "Block"; js::Array a; for (auto *c : x->body()) a.push_back(stmt(c)); o["a"] = std::move(a); return o; }
        if (auto *x = dyn_cast<DeclStmt>(S)) {
            o["k"] = "Decl"; js::Array a;
            for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            o["a"] = std::move(a); return o;
        }
        if (auto *x = dyn_cast<IfStmt>(S)) {
            if (x->isConstexpr()) {
                auto nd = x->getNondiscardedCase(C);
                if (nd) { if (*nd) return stmt(*nd); o["k"] = "Nop"; return o; }
            }
            o["k"] = "If"; if (x->getInit()) o["init"] = stmt(x->getInit());
            if (auto *v = x->getConditionVariable()) o["var"] = var(v);
            o["c"] = expr(x->getCond()); o["th"] = stmt(x->getThen()); o["el"] = stmt(x->getElse()); return o;
        }
        if (auto *x = dyn_cast<ForStmt>(S)) {
            o["k"] = "For"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); return o;
        }
        if (auto *x = dyn_cast<WhileStmt>(S)) { o["k"] = "While"; if (auto *v = x->getConditionVariable()) o["var"] = var(v); o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
        if (auto *x = dyn_cast<DoStmt>(S)) { o["k"] = "Do"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
        if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "Range"; o["r"] = expr(x->getRangeInit()); o["v"] = var(x->getLoopVariable()); o["body"] = stmt(x->getBody()); return o;
        }
        if (auto *x = dyn_cast<ReturnStmt>(S)) { o["k"] = "Ret"; o["e"] = expr(x->getRetValue()); return o; }
        if (isa<BreakStmt>(S)) { o["k"] = "Break"; return o; }
        if (isa<ContinueStmt>(S)) { o["k"] = "Cont"; return o; }
        if (isa<NullStmt>(S)) { o["k"] = "Nop"; return o; }
        if (auto *x = dyn_cast<SwitchStmt>(S)) { o["k"] = "Switch"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
        if (auto *x = dyn_cast<CaseStmt>(S)) {
            o["k"] = "Case"; o["v"] = expr(x->getLHS());
            Expr::EvalResult R; if (x->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["iv"] = std::string(s.str()); }
            o["s"] = stmt(x->getSubStmt()); return o;
        }
        if (auto *x = dyn_cast<DefaultStmt>(S)) { o["k"] = "Default"; o["s"] = stmt(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "Try"; o["body"] = stmt(x->getTryBlock()); js::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                js::Object h; auto *H = x->getHandler(i);
                h["t"] = H->getCaughtType().isNull() ? "..." : ty(H->getCaughtType());
                if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
                h["body"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h));
            }
            o["h"] = std::move(a); return o;
        }
        if (auto *x = dyn_cast<Expr>(S)) { o["k"] = "Expr"; o["e"] = expr(x); return o; }
        if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
        o["k"] = "UnkS"; o["w"] = S->getStmtClassName(); return o;
    }
    void emit(const FunctionDecl *F) {
        std::string key = fkey(F);
        js::Object o;
        o["q"] = fname(F);
        o["file"] = file(F); o["ln"] = line(F->getLocation());
        o["end"] = line(F->getSourceRange().getEnd());
        js::Array ps;
        for (auto *P : F->parameters()) ps.push_back(js::Object{{"n", P->getNameAsString()}, {"id", id(P->getCanonicalDecl())}, {"t", ty(P->getType())}});
        // params of definition share canonical decl ids? use definition's own
        o["params"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        if (auto *TA = F->getTemplateSpecializationArgs()) { js::Array a; for (auto &A : TA->asArray()) addArg(a, A); o["ta"] = std::move(a); }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (!M->isStatic()) o["this"] = rec(M->getParent());
            if (M->getParent()->isLambda()) o["lambda"] = rec(M->getParent());
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            js::Array a;
            for (auto *I : K->inits()) {
                js::Object io;
                if (I->isAnyMemberInitializer()) { io["f"] = I->getAnyMember()->getNameAsString(); io["ft"] = ty(I->getAnyMember()->getType()); }
                else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) io["deleg"] = true;
                io["e"] = expr(I->getInit());
                a.push_back(std::move(io));
            }
            o["inits"] = std::move(a);
        }
        o["body"] = stmt(F->getBody());
        functions[key] = std::move(o);
    }
    void run() {
        while (!todo.empty()) { auto *F = todo.front(); todo.pop_front(); emit(F); }
    }
};

struct V : RecursiveASTVisitor<V> {
    Ex &X; std::vector<std::regex> rs;
    V(Ex &x) : X(x) { for (auto &r : g_res) rs.emplace_back(r); }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() && !F->isTemplateInstantiation()) return true;
        if (F->isDependentContext()) return true;
        const FunctionDecl *D = nullptr;
        if (!F->isDefined(D)) return true;
        if (!D->hasBody()) return true;
        if (!X.inRoot(D)) return true;
        std::string k = X.fkey(D);
        for (auto &r : rs) if (std::regex_search(k, r)) { X.want(D, true); break; }
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "xtract: compile errors\n"; }
        Ex X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        X.run();
        js::Object top;
        top["functions"] = std::move(X.functions); top["records"] = std::move(X.records);
        top["enums"] = std::move(X.enums); top["globals"] = std::move(X.globals);
        std::error_code ec; llvm::raw_fd_ostream os(g_out, ec);
        os << js::Value(std::move(top));
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
    std::string src; std::vector<std::string> flags; int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-r") g_res.push_back(argv[++i]);
        else if (a == "-s") g_stop.push_back(argv[++i]);
        else if (a == "-o") g_out = argv[++i];
        else if (a == "--root") g_root = argv[++i];
        else if (a == "--") { ++i; break; }
        else src = a;
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool T(db, {src});
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
