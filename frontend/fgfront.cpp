// fgfront: parses one C++ translation unit with clang and writes the resolved program (every
// function defined under --root, template instantiations and lambdas included, records, globals,
// enums) as compact JSON.  It decides nothing: all rules live in /verif/sa/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::OStream;

static llvm::cl::opt<std::string> Src(llvm::cl::Positional, llvm::cl::desc("source"), llvm::cl::Required);
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("project source root"), llvm::cl::Required);
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::Required);
static llvm::cl::list<std::string> MapFile("map", llvm::cl::desc("virtual=real"));
static llvm::cl::list<std::string> Flags("flag", llvm::cl::desc("compiler flag"));

namespace {
class Exporter {
public:
    Exporter(ASTContext &C, raw_ostream &OS) : Ctx(C), SM(C.getSourceManager()), J(OS), PP(C.getPrintingPolicy())
        {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        TU = SM.getFilename(SM.getLocForStartOfFile(SM.getMainFileID())).str();
        }

    ASTContext &Ctx;
    SourceManager &SM;
    OStream J;
    PrintingPolicy PP;
    std::string TU;
    std::map<const Decl *, std::string> localId;
    std::map<std::string, int> typeId;
    std::vector<std::pair<std::string, QualType>> types;
    std::map<const FunctionDecl *, std::string> fnId;
    std::vector<const FunctionDecl *> fnQueue;   // every referenced function
    std::map<std::string, const FunctionDecl *> fnSeen;
    std::map<const CXXRecordDecl *, bool> recSeen;
    std::vector<const CXXRecordDecl *> recQueue;
    std::map<const VarDecl *, bool> varSeen;
    std::vector<const VarDecl *> varQueue;
    std::set<const EnumDecl *> enums;
    unsigned lambdaN = 0;

    std::string fileOf(SourceLocation L)
        {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        return SM.getFilename(L).str();
        }
    bool inRoot(SourceLocation L)
        {
        std::string f = fileOf(L);
        llvm::SmallString<256> a(f);
        llvm::sys::fs::make_absolute(a);
        llvm::sys::path::remove_dots(a, true);
        return llvm::StringRef(a).starts_with(Root + "/");
        }
    std::string absFile(SourceLocation L)
        {
        llvm::SmallString<256> a(fileOf(L));
        if (a.empty()) return "";
        llvm::sys::fs::make_absolute(a);
        llvm::sys::path::remove_dots(a, true);
        return std::string(a);
        }
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    void loc(SourceLocation L)
        {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return;
        std::string f = absFile(L);
        auto it = fileIds.find(f);
        int id;
        if (it == fileIds.end()) { id = files.size(); fileIds[f] = id; files.push_back(f); }
        else id = it->second;
        J.attributeArray("l", [&] { J.value(id); J.value((int64_t) SM.getExpansionLineNumber(L)); J.value((int64_t) SM.getExpansionColumnNumber(L)); });
        }
    std::string usr(const Decl *D)
        {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(D, b)) return "";
        return std::string(b);
        }
    std::string declId(const ValueDecl *D)
        {
        if (auto *F = dyn_cast<FunctionDecl>(D)) return functionId(F);
        if (auto *V = dyn_cast<VarDecl>(D))
            {
            if (V->isLocalVarDeclOrParm() && !V->isStaticLocal())
                {
                auto it = localId.find(V);
                if (it != localId.end()) return it->second;
                std::string s = "v" + std::to_string(localId.size()) + ":" + V->getNameAsString();
                localId[V] = s;
                return s;
                }
            if (!varSeen[V->getCanonicalDecl()]) { varSeen[V->getCanonicalDecl()] = true; varQueue.push_back(V); }
            std::string u = usr(V->getCanonicalDecl());
            if (V->isStaticLocal() && V->getTLSKind() == VarDecl::TLS_None) u = "static:" + V->getNameAsString() + "@" + u;
            return u.empty() ? "g:" + V->getQualifiedNameAsString() : u;
            }
        if (isa<BindingDecl>(D))
            {
            auto it = localId.find(D);
            if (it != localId.end()) return it->second;
            std::string s = "v" + std::to_string(localId.size()) + ":" + D->getNameAsString();
            localId[D] = s;
            return s;
            }
        if (auto *F = dyn_cast<FieldDecl>(D))
            {
            if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) noteRecord(R);
            return usr(F);
            }
        if (auto *E = dyn_cast<EnumConstantDecl>(D)) enums.insert(cast<EnumDecl>(E->getDeclContext()));
        return usr(D);
        }
    void noteRecord(const CXXRecordDecl *R)
        {
        R = R->getDefinition() ? R->getDefinition() : R;
        if (recSeen[R]) return;
        recSeen[R] = true;
        recQueue.push_back(R);
        }
    std::string functionId(const FunctionDecl *F)
        {
        auto it = fnId.find(F->getCanonicalDecl());
        if (it != fnId.end()) return it->second;
        std::string s;
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && M->getParent()->isLambda())
            {
            s = "lambda#" + std::to_string(lambdaN++);
            }
        else
            {
            s = usr(F->getCanonicalDecl());
            if (s.empty()) s = "f:" + F->getQualifiedNameAsString();
            // local classes / anonymous namespaces are already distinguished by USR
            }
        fnId[F->getCanonicalDecl()] = s;
        fnQueue.push_back(F);
        return s;
        }
    int type(QualType T)
        {
        T = T.getNonReferenceType().isNull() ? T : T;
        std::string s = T.getAsString(PP);
        if (s.size() > 400) s = s.substr(0, 400) + "...";
        std::string c = T.getCanonicalType().getAsString(PP);
        if (c.size() > 400) c = c.substr(0, 400) + "...";
        std::string k = s + "|" + c;
        auto it = typeId.find(k);
        if (it != typeId.end()) return it->second;
        int id = types.size();
        typeId[k] = id;
        types.push_back({s, T});
        return id;
        }

    // ---------------------------------------------------------------- expressions
    const Expr *strip(const Expr *E)
        {
        for (;;)
            {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(E))
                {
                switch (P->getCastKind())
                    {
                    case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralToBoolean:
                    case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_IntegralCast:
                    case CK_FloatingCast:
                        return E;
                    default: E = P->getSubExpr(); continue;
                    }
                }
            return E;
            }
        }
    void exprs(llvm::StringRef key, llvm::ArrayRef<const Expr *> es)
        { J.attributeArray(key, [&] { for (auto *e : es) expr(e); }); }

    void expr(const Expr *E0)
        {
        if (!E0) { J.value(nullptr); return; }
        const Expr *E = strip(E0);
        if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) { expr(D->getExpr()); return; }
        if (auto *D = dyn_cast<CXXDefaultInitExpr>(E)) { expr(D->getExpr()); return; }
        J.object([&] { exprBody(E); });
        }
    void cval(const Expr *E)
        {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        QualType T = E->getType();
        if (T->isIntegralOrEnumerationType() || T->isFloatingType())
            {
            Expr::EvalResult R;
            if (E->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects)
                {
                if (R.Val.isInt()) { if (R.Val.getInt().isRepresentableByInt64()) J.attribute("cv", (int64_t) R.Val.getInt().getExtValue()); }
                else if (R.Val.isFloat())
                    {
                    llvm::SmallString<64> s;
                    R.Val.getFloat().toString(s, 18);
                    J.attribute("cvf", s.str());
                    }
                }
            }
        }
    void callTarget(const FunctionDecl *F)
        {
        J.attribute("fn", functionId(F));
        }
    void exprBody(const Expr *E)
        {
        loc(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
        J.attribute("t", type(E->getType()));
        if (auto *L = dyn_cast<IntegerLiteral>(E))
            { J.attribute("k", "Lit"); J.attribute("lk", "int"); J.attribute("v", (int64_t) L->getValue().getZExtValue()); return; }
        if (auto *L = dyn_cast<FloatingLiteral>(E))
            {
            llvm::SmallString<64> s; L->getValue().toString(s, 18);
            J.attribute("k", "Lit"); J.attribute("lk", "float"); J.attribute("v", s.str()); return;
            }
        if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E))
            { J.attribute("k", "Lit"); J.attribute("lk", "bool"); J.attribute("v", L->getValue()); return; }
        if (auto *L = dyn_cast<CharacterLiteral>(E))
            { J.attribute("k", "Lit"); J.attribute("lk", "char"); J.attribute("v", (int64_t) L->getValue()); return; }
        if (auto *L = dyn_cast<StringLiteral>(E))
            {
            J.attribute("k", "Lit"); J.attribute("lk", "str");
            std::string s = L->isOrdinary() || L->isUTF8() ? L->getString().str() : "?";
            J.attribute("v", llvm::json::fixUTF8(s)); return;
            }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            { J.attribute("k", "Lit"); J.attribute("lk", "null"); J.attribute("v", 0); return; }
        if (isa<CXXThisExpr>(E)) { J.attribute("k", "This"); return; }
        if (auto *R = dyn_cast<DeclRefExpr>(E))
            {
            J.attribute("k", "Ref");
            J.attribute("d", declId(R->getDecl()));
            J.attribute("n", R->getDecl()->getNameAsString());
            if (auto *EC = dyn_cast<EnumConstantDecl>(R->getDecl()))
                { J.attribute("dk", "enum"); J.attribute("cv", (int64_t) EC->getInitVal().getExtValue()); }
            else if (isa<FunctionDecl>(R->getDecl())) J.attribute("dk", "fn");
            else if (auto *V = dyn_cast<VarDecl>(R->getDecl()))
                {
                J.attribute("dk", isa<ParmVarDecl>(V) ? "parm" : (V->isLocalVarDecl() && !V->isStaticLocal() ? "local" : "global"));
                cval(E);
                }
            else J.attribute("dk", "other");
            return;
            }
        if (auto *M = dyn_cast<MemberExpr>(E))
            {
            J.attribute("k", "Member");
            J.attribute("n", M->getMemberDecl()->getNameAsString());
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { J.attribute("d", declId(V)); J.attribute("dk", "static"); cval(E); }
            else J.attribute("d", declId(M->getMemberDecl()));
            J.attribute("arrow", M->isArrow());
            J.attributeBegin("b"); expr(M->getBase()); J.attributeEnd();
            return;
            }
        if (auto *L = dyn_cast<LambdaExpr>(E))
            {
            J.attribute("k", "Lambda");
            const FunctionDecl *op = L->getCallOperator();
            if (auto *FT = L->getDependentCallOperator())
                for (auto *sp : FT->specializations())
                    if (sp->hasBody()) { op = sp; break; }
            callTarget(op);
            J.attributeArray("caps", [&] {
                auto ie = L->capture_init_begin();
                for (auto &c : L->captures())
                    {
                    J.object([&] {
                        if (c.capturesThis()) { J.attribute("this", true); J.attribute("byref", c.getCaptureKind() == LCK_This); }
                        else if (c.capturesVariable())
                            {
                            J.attribute("d", declId(cast<ValueDecl>(c.getCapturedVar())));
                            J.attribute("byref", c.getCaptureKind() == LCK_ByRef);
                            if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar()))
                                if (VD->isInitCapture()) { J.attributeBegin("init"); expr(VD->getInit()); J.attributeEnd(); }
                            }
                        });
                    ++ie;
                    }
                });
            return;
            }
        if (auto *U = dyn_cast<UnaryOperator>(E))
            {
            J.attribute("k", "Un");
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "post" + op;
            J.attribute("op", op);
            J.attributeBegin("e"); expr(U->getSubExpr()); J.attributeEnd();
            cval(E);
            return;
            }
        if (auto *B = dyn_cast<BinaryOperator>(E))
            {
            J.attribute("k", B->isAssignmentOp() ? "Assign" : "Bin");
            J.attribute("op", B->getOpcodeStr());
            J.attributeBegin("a"); expr(B->getLHS()); J.attributeEnd();
            J.attributeBegin("b"); expr(B->getRHS()); J.attributeEnd();
            cval(E);
            return;
            }
        if (auto *C = dyn_cast<ConditionalOperator>(E))
            {
            J.attribute("k", "Cond");
            J.attributeBegin("c"); expr(C->getCond()); J.attributeEnd();
            J.attributeBegin("a"); expr(C->getTrueExpr()); J.attributeEnd();
            J.attributeBegin("b"); expr(C->getFalseExpr()); J.attributeEnd();
            return;
            }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E))
            {
            J.attribute("k", "Sub");
            J.attributeBegin("a"); expr(A->getBase()); J.attributeEnd();
            J.attributeBegin("b"); expr(A->getIdx()); J.attributeEnd();
            return;
            }
        if (auto *C = dyn_cast<CXXOperatorCallExpr>(E))
            {
            J.attribute("k", "Call");
            J.attribute("op", getOperatorSpelling(C->getOperator()));
            if (auto *F = C->getDirectCallee())
                {
                callTarget(F);
                auto *M = dyn_cast<CXXMethodDecl>(F);
                if (M && !M->isStatic())
                    {
                    J.attributeBegin("obj"); expr(C->getArg(0)); J.attributeEnd();
                    J.attributeArray("args", [&] { for (unsigned i = 1; i < C->getNumArgs(); i++) expr(C->getArg(i)); });
                    return;
                    }
                }
            J.attributeArray("args", [&] { for (auto *a : C->arguments()) expr(a); });
            return;
            }
        if (auto *C = dyn_cast<CallExpr>(E))
            {
            J.attribute("k", "Call");
            if (auto *F = C->getDirectCallee()) callTarget(F);
            else { J.attributeBegin("ce"); expr(C->getCallee()); J.attributeEnd(); }
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(C))
                {
                if (auto *o = MC->getImplicitObjectArgument()) { J.attributeBegin("obj"); expr(o); J.attributeEnd(); }
                }
            J.attributeArray("args", [&] { for (auto *a : C->arguments()) expr(a); });
            cval(E);
            return;
            }
        if (auto *C = dyn_cast<CXXConstructExpr>(E))
            {
            J.attribute("k", "Construct");
            auto *D = C->getConstructor();
            callTarget(D);
            noteRecord(D->getParent());
            J.attribute("cls", D->getParent()->getQualifiedNameAsString());
            if (D->isCopyOrMoveConstructor()) J.attribute("copy", true);
            if (isa<CXXTemporaryObjectExpr>(E)) J.attribute("temp", true);
            J.attributeArray("args", [&] { for (auto *a : C->arguments()) expr(a); });
            return;
            }
        if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) { J.attribute("k", "Construct"); callTarget(C->getConstructor()); J.attributeArray("args", [&] {}); return; }
        if (auto *C = dyn_cast<CastExpr>(E))
            {
            J.attribute("k", "Cast");
            J.attribute("ck", C->getCastKindName());
            if (!isa<ImplicitCastExpr>(E)) J.attribute("x", true);
            J.attributeBegin("e"); expr(C->getSubExpr()); J.attributeEnd();
            cval(E);
            return;
            }
        if (auto *I = dyn_cast<InitListExpr>(E))
            {
            if (auto *S = I->getSemanticForm()) I = S;
            J.attribute("k", "InitList");
            J.attributeArray("args", [&] { for (auto *e : I->inits()) expr(e); });
            return;
            }
        if (auto *N = dyn_cast<CXXNewExpr>(E))
            {
            J.attribute("k", "New");
            J.attribute("array", N->isArray());
            if (N->getInitializer()) { J.attributeBegin("e"); expr(N->getInitializer()); J.attributeEnd(); }
            if (N->isArray() && N->getArraySize() && *N->getArraySize()) { J.attributeBegin("n"); expr(*N->getArraySize()); J.attributeEnd(); }
            return;
            }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E))
            { J.attribute("k", "Delete"); J.attribute("array", D->isArrayForm()); J.attributeBegin("e"); expr(D->getArgument()); J.attributeEnd(); return; }
        if (auto *T = dyn_cast<CXXThrowExpr>(E))
            { J.attribute("k", "Throw"); J.attributeBegin("e"); expr(T->getSubExpr()); J.attributeEnd(); return; }
        if (auto *S = dyn_cast<CXXScalarValueInitExpr>(E)) { J.attribute("k", "Lit"); J.attribute("lk", "zero"); J.attribute("v", 0); (void) S; return; }
        if (isa<ImplicitValueInitExpr>(E)) { J.attribute("k", "Lit"); J.attribute("lk", "zero"); J.attribute("v", 0); return; }
        if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) { J.attribute("k", "ArrayCopy"); J.attributeBegin("e"); expr(A->getCommonExpr()->getSourceExpr()); J.attributeEnd(); return; }
        if (auto *O = dyn_cast<OpaqueValueExpr>(E)) { if (O->getSourceExpr()) { J.attribute("k", "Cast"); J.attribute("ck", "Opaque"); J.attributeBegin("e"); expr(O->getSourceExpr()); J.attributeEnd(); return; } }
        // anything else: generic, children only
        J.attribute("k", "Other");
        J.attribute("cls", E->getStmtClassName());
        cval(E);
        J.attributeArray("args", [&] {
            for (auto *c : E->children())
                if (auto *ce = dyn_cast_or_null<Expr>(c)) expr(ce);
            });
        }

    // ---------------------------------------------------------------- statements
    void varDecl(const VarDecl *V)
        {
        J.object([&] {
            J.attribute("d", declId(V));
            J.attribute("n", V->getNameAsString());
            J.attribute("t", type(V->getType()));
            J.attribute("ref", V->getType()->isReferenceType());
            if (V->isStaticLocal()) J.attribute("static", true);
            loc(V->getLocation());
            if (V->getInit()) { J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); }
            });
        }
    void stmt(const Stmt *S)
        {
        if (!S) { J.value(nullptr); return; }
        if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
        if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(A->getSubStmt()); return; }
        J.object([&] {
            loc(S->getBeginLoc());
            if (auto *C = dyn_cast<CompoundStmt>(S))
                { J.attribute("k", "Compound"); J.attributeArray("s", [&] { for (auto *x : C->body()) stmt(x); }); return; }
            if (auto *D = dyn_cast<DeclStmt>(S))
                {
                J.attribute("k", "Decl");
                J.attributeArray("d", [&] {
                    for (auto *x : D->decls())
                        {
                        if (auto *DD = dyn_cast<DecompositionDecl>(x))
                            {
                            J.object([&] {
                                J.attribute("decomp", true);
                                J.attribute("d", declId(DD));
                                J.attribute("n", "");
                                J.attribute("t", type(DD->getType()));
                                J.attribute("ref", DD->getType()->isReferenceType());
                                loc(DD->getLocation());
                                J.attributeArray("bind", [&] { for (auto *b : DD->bindings()) J.value(declId(b)); });
                                if (DD->getInit()) { J.attributeBegin("init"); expr(DD->getInit()); J.attributeEnd(); }
                                });
                            }
                        else if (auto *V = dyn_cast<VarDecl>(x)) varDecl(V);
                        }
                    });
                return;
                }
            if (auto *I = dyn_cast<IfStmt>(S))
                {
                J.attribute("k", "If");
                if (I->getInit()) { J.attributeBegin("init"); stmt(I->getInit()); J.attributeEnd(); }
                if (I->getConditionVariable()) { J.attributeBegin("var"); varDecl(I->getConditionVariable()); J.attributeEnd(); }
                if (I->isConstexpr()) J.attribute("constexpr", true);
                J.attributeBegin("c"); expr(I->getCond()); J.attributeEnd();
                J.attributeBegin("a"); stmt(I->getThen()); J.attributeEnd();
                J.attributeBegin("b"); stmt(I->getElse()); J.attributeEnd();
                return;
                }
            if (auto *F = dyn_cast<ForStmt>(S))
                {
                J.attribute("k", "For");
                J.attributeBegin("init"); stmt(F->getInit()); J.attributeEnd();
                J.attributeBegin("c"); expr(F->getCond()); J.attributeEnd();
                J.attributeBegin("inc"); expr(F->getInc()); J.attributeEnd();
                J.attributeBegin("b"); stmt(F->getBody()); J.attributeEnd();
                return;
                }
            if (auto *F = dyn_cast<CXXForRangeStmt>(S))
                {
                J.attribute("k", "RangeFor");
                if (auto *DD = dyn_cast<DecompositionDecl>(F->getLoopVariable()))
                    { J.attributeArray("bind", [&] { for (auto *b : DD->bindings()) J.value(declId(b)); }); }
                J.attributeBegin("v"); 
                J.object([&] {
                    const VarDecl *V = F->getLoopVariable();
                    J.attribute("d", declId(V)); J.attribute("n", V->getNameAsString());
                    J.attribute("t", type(V->getType())); J.attribute("ref", V->getType()->isReferenceType());
                    loc(V->getLocation());
                    });
                J.attributeEnd();
                J.attributeBegin("range"); expr(F->getRangeInit()); J.attributeEnd();
                J.attributeBegin("b"); stmt(F->getBody()); J.attributeEnd();
                return;
                }
            if (auto *W = dyn_cast<WhileStmt>(S))
                {
                J.attribute("k", "While");
                if (W->getConditionVariable()) { J.attributeBegin("var"); varDecl(W->getConditionVariable()); J.attributeEnd(); }
                J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
                J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
                return;
                }
            if (auto *W = dyn_cast<DoStmt>(S))
                {
                J.attribute("k", "Do");
                J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
                J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
                return;
                }
            if (auto *W = dyn_cast<SwitchStmt>(S))
                {
                J.attribute("k", "Switch");
                if (W->getInit()) { J.attributeBegin("init"); stmt(W->getInit()); J.attributeEnd(); }
                J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
                J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
                return;
                }
            if (auto *C = dyn_cast<CaseStmt>(S))
                {
                J.attribute("k", "Case");
                J.attributeBegin("c"); expr(C->getLHS()); J.attributeEnd();
                if (!C->getLHS()->isValueDependent()) J.attribute("cv", (int64_t) C->getLHS()->EvaluateKnownConstInt(Ctx).getExtValue());
                J.attributeBegin("b"); stmt(C->getSubStmt()); J.attributeEnd();
                return;
                }
            if (auto *C = dyn_cast<DefaultStmt>(S))
                { J.attribute("k", "Default"); J.attributeBegin("b"); stmt(C->getSubStmt()); J.attributeEnd(); return; }
            if (isa<BreakStmt>(S)) { J.attribute("k", "Break"); return; }
            if (isa<ContinueStmt>(S)) { J.attribute("k", "Continue"); return; }
            if (isa<NullStmt>(S)) { J.attribute("k", "Null"); return; }
            if (auto *R = dyn_cast<ReturnStmt>(S))
                { J.attribute("k", "Return"); J.attributeBegin("e"); expr(R->getRetValue()); J.attributeEnd(); return; }
            if (auto *T = dyn_cast<CXXTryStmt>(S))
                {
                J.attribute("k", "Try");
                J.attributeBegin("b"); stmt(T->getTryBlock()); J.attributeEnd();
                J.attributeArray("h", [&] {
                    for (unsigned i = 0; i < T->getNumHandlers(); i++)
                        J.object([&] {
                            auto *h = T->getHandler(i);
                            loc(h->getBeginLoc());
                            if (h->getExceptionDecl()) { J.attributeBegin("v"); varDecl(h->getExceptionDecl()); J.attributeEnd(); }
                            J.attributeBegin("b"); stmt(h->getHandlerBlock()); J.attributeEnd();
                            });
                    });
                return;
                }
            if (auto *G = dyn_cast<GotoStmt>(S)) { J.attribute("k", "Goto"); J.attribute("n", G->getLabel()->getNameAsString()); return; }
            if (auto *G = dyn_cast<LabelStmt>(S))
                { J.attribute("k", "Label"); J.attribute("n", G->getDecl()->getNameAsString()); J.attributeBegin("b"); stmt(G->getSubStmt()); J.attributeEnd(); return; }
            J.attribute("k", "OtherStmt");
            J.attribute("cls", S->getStmtClassName());
            J.attributeArray("s", [&] { for (auto *c : S->children()) stmt(c); });
            });
        }

    // ---------------------------------------------------------------- functions
    void function(const FunctionDecl *F, const std::string &id)
        {
        const FunctionDecl *Def = nullptr;
        bool has = F->hasBody(Def);
        if (!has) Def = F;
        J.object([&] {
            J.attribute("id", id);
            J.attribute("n", F->getQualifiedNameAsString());
            J.attribute("sn", F->getNameAsString());
            bool repo = inRoot(Def->getLocation());
            J.attribute("repo", repo);
            if (repo) J.attribute("implicit", F->isImplicit());
            loc(Def->getLocation());
            J.attribute("ret", type(F->getReturnType()));
            J.attribute("noreturn", F->isNoReturn());
            auto *M = dyn_cast<CXXMethodDecl>(F);
            if (M)
                {
                J.attribute("method", true);
                J.attribute("cls", usr(M->getParent()));
                J.attribute("clsn", M->getParent()->getQualifiedNameAsString());
                J.attribute("const", M->isConst());
                J.attribute("static", M->isStatic());
                J.attribute("lambda", M->getParent()->isLambda());
                if (isa<CXXConstructorDecl>(F)) J.attribute("ctor", true);
                if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
                if (M->isVirtual())
                    {
                    J.attribute("virtual", true);
                    J.attributeArray("overrides", [&] { for (auto *o : M->overridden_methods()) J.value(functionId(o)); });
                    }
                }
            if (F->isDefaulted()) J.attribute("defaulted", true);
            if (F->getBuiltinID()) J.attribute("builtin", true);
            if (F->isExternC()) J.attribute("externC", true);
            if (auto *TA = F->getTemplateSpecializationArgs())
                {
                J.attributeArray("targs", [&] {
                    for (auto &a : TA->asArray())
                        {
                        std::string s; llvm::raw_string_ostream o(s);
                        a.print(PP, o, true);
                        if (s.size() > 200) s = s.substr(0, 200);
                        J.value(s);
                        }
                    });
                }
            J.attributeArray("params", [&] {
                for (auto *p : Def->parameters())
                    J.object([&] {
                        J.attribute("d", declId(p));
                        J.attribute("n", p->getNameAsString());
                        J.attribute("t", type(p->getType()));
                        J.attribute("ref", p->getType()->isReferenceType());
                        });
                });
            if (repo && has && !F->isDependentContext())
                {
                if (auto *C = dyn_cast<CXXConstructorDecl>(Def))
                    {
                    J.attributeArray("inits", [&] {
                        for (auto *i : C->inits())
                            J.object([&] {
                                if (i->isAnyMemberInitializer()) { J.attribute("f", declId(i->getAnyMember())); J.attribute("n", i->getAnyMember()->getNameAsString()); }
                                else if (i->isBaseInitializer()) { J.attribute("base", true); }
                                else J.attribute("deleg", true);
                                J.attribute("written", i->isWritten());
                                J.attribute("dmi", isa<CXXDefaultInitExpr>(i->getInit()));
                                loc(i->getSourceLocation());
                                J.attributeBegin("e"); expr(i->getInit()); J.attributeEnd();
                                });
                        });
                    }
                J.attributeBegin("body"); stmt(Def->getBody()); J.attributeEnd();
                }
            });
        }
    void record(const CXXRecordDecl *R)
        {
        J.object([&] {
            J.attribute("id", usr(R));
            J.attribute("n", R->getQualifiedNameAsString());
            bool repo = inRoot(R->getLocation());
            J.attribute("repo", repo);
            if (!repo) return;
            loc(R->getLocation());
            J.attribute("aggregate", R->hasDefinition() && R->isAggregate());
            J.attributeArray("bases", [&] {
                if (R->hasDefinition())
                    for (auto &b : R->bases())
                        if (auto *br = b.getType()->getAsCXXRecordDecl()) { noteRecord(br); J.value(usr(br)); }
                });
            J.attributeArray("fields", [&] {
                if (R->hasDefinition())
                    for (auto *f : R->fields())
                        J.object([&] {
                            J.attribute("d", usr(f)); J.attribute("n", f->getNameAsString());
                            J.attribute("t", type(f->getType()));
                            loc(f->getLocation());
                            if (f->hasInClassInitializer() && f->getInClassInitializer()) { J.attributeBegin("init"); expr(f->getInClassInitializer()); J.attributeEnd(); }
                            if (auto *br = f->getType()->getAsCXXRecordDecl()) noteRecord(br);
                            });
                });
            });
        }
    void typeEntry(const std::string &s, QualType T)
        {
        J.object([&] {
            J.attribute("s", s);
            std::string c = T.getCanonicalType().getAsString(PP);
            if (c.size() > 400) c = c.substr(0, 400) + "...";
            if (c != s) J.attribute("c", c);
            QualType U = T.getNonReferenceType();
            if (T->isReferenceType()) J.attribute("ref", true);
            if (U->isPointerType()) J.attribute("ptr", true);
            if (U.isConstQualified()) J.attribute("const", true);
            if (U->isPointerType() && U->getPointeeType().isConstQualified()) J.attribute("pconst", true);
            if (U->isBooleanType()) J.attribute("b", "bool");
            else if (U->isEnumeralType()) J.attribute("b", "enum");
            else if (U->isAnyCharacterType()) J.attribute("b", "char");
            else if (U->isIntegerType()) { J.attribute("b", "int"); if (U->isUnsignedIntegerType()) J.attribute("u", true); J.attribute("w", (int64_t) Ctx.getTypeSize(U)); }
            else if (U->isFloatingType()) J.attribute("b", "float");
            else if (U->isVoidType()) J.attribute("b", "void");
            QualType P = U->isPointerType() ? U->getPointeeType() : U;
            if (auto *R = P->getAsCXXRecordDecl())
                {
                J.attribute("rec", R->getQualifiedNameAsString());
                J.attribute("recid", usr(R));
                if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(R))
                    {
                    J.attributeArray("targs", [&] {
                        for (auto &a : SD->getTemplateArgs().asArray())
                            {
                            std::string ss; llvm::raw_string_ostream o(ss);
                            a.print(PP, o, true);
                            if (ss.size() > 120) ss = ss.substr(0, 120) + "...";
                            J.value(ss);
                            }
                        });
                    }
                }
            else if (auto *ET = P->getAs<EnumType>()) J.attribute("enum", ET->getDecl()->getQualifiedNameAsString());
            if (auto *AT = Ctx.getAsConstantArrayType(U)) J.attribute("arr", (int64_t) AT->getSize().getZExtValue());
            });
        }

    struct Collect : RecursiveASTVisitor<Collect> {
        Exporter &X;
        Collect(Exporter &x) : X(x) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return true; }
        bool VisitFunctionDecl(FunctionDecl *F)
            {
            if (F->isDependentContext() || !X.inRoot(F->getLocation())) return true;
            if (!F->doesThisDeclarationHaveABody() ) return true;
            X.functionId(F);
            return true;
            }
        bool VisitCXXRecordDecl(CXXRecordDecl *R)
            {
            if (R->isDependentContext() || !R->isThisDeclarationADefinition() || R->isLambda() || !X.inRoot(R->getLocation())) return true;
            X.noteRecord(R);
            return true;
            }
        bool VisitVarDecl(VarDecl *V)
            {
            if (V->isLocalVarDeclOrParm() || !X.inRoot(V->getLocation())) return true;
            if (V->getDeclContext()->isDependentContext()) return true;
            X.declId(V);
            return true;
            }
        bool VisitEnumDecl(EnumDecl *E) { if (X.inRoot(E->getLocation())) X.enums.insert(E); return true; }
    };

    void run()
        {
        Collect C(*this);
        J.object([&] {
            J.attribute("tu", TU);
            C.TraverseDecl(Ctx.getTranslationUnitDecl());
            J.attributeArray("functions", [&] {
                for (size_t i = 0; i < fnQueue.size(); i++)
                    {
                    const FunctionDecl *F = fnQueue[i];
                    function(F, fnId[F->getCanonicalDecl()]);
                    }
                });
            J.attributeArray("globals", [&] {
                for (size_t i = 0; i < varQueue.size(); i++)
                    {
                    const VarDecl *V = varQueue[i];
                    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
                    J.object([&] {
                        std::string id = declId(V);
                        J.attribute("d", id);
                        J.attribute("n", V->getQualifiedNameAsString());
                        J.attribute("t", type(V->getType()));
                        J.attribute("repo", inRoot(D->getLocation()));
                        J.attribute("constexpr", D->isConstexpr());
                        loc(D->getLocation());
                        if (inRoot(D->getLocation()) && D->getInit() && !D->getInit()->isValueDependent()) { J.attributeBegin("init"); expr(D->getInit()); J.attributeEnd(); }
                        });
                    }
                });
            // functions first met inside a global initialiser
            static size_t done; (void) done;
            J.attributeArray("records", [&] { for (size_t i = 0; i < recQueue.size(); i++) record(recQueue[i]); });
            J.attributeArray("enums", [&] {
                for (auto *E : enums)
                    J.object([&] {
                        J.attribute("n", E->getQualifiedNameAsString());
                        J.attribute("repo", inRoot(E->getLocation()));
                        J.attributeArray("c", [&] { for (auto *c : E->enumerators()) J.array([&] { J.value(c->getNameAsString()); J.value((int64_t) c->getInitVal().getExtValue()); J.value(usr(c)); }); });
                        });
                });
            std::set<std::string> dummy;
            J.attributeArray("types", [&] { for (size_t i = 0; i < types.size(); i++) typeEntry(types[i].first, types[i].second); });
            J.attributeArray("files", [&] { for (auto &f : files) J.value(f); });
            });
        }
};

class Consumer : public ASTConsumer {
    CompilerInstance &CI;
public:
    Consumer(CompilerInstance &C) : CI(C) {}
    void HandleTranslationUnit(ASTContext &Ctx) override
        {
        if (Ctx.getDiagnostics().hasErrorOccurred()) return;
        std::error_code EC;
        llvm::raw_fd_ostream OS(Out, EC);
        if (EC) { llvm::errs() << "cannot write " << Out << "\n"; exit(3); }
        Exporter X(Ctx, OS);
        X.run();
        }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};
}  // namespace

int main(int argc, const char **argv)
    {
    llvm::cl::ParseCommandLineOptions(argc, argv);
    std::vector<std::string> fl(Flags.begin(), Flags.end());
    tooling::FixedCompilationDatabase DB(".", fl);
    tooling::ClangTool T(DB, {Src});
    std::vector<std::unique_ptr<llvm::MemoryBuffer>> keep;
    std::vector<std::string> names;
    for (auto &m : MapFile)
        {
        auto p = llvm::StringRef(m).split('=');
        auto b = llvm::MemoryBuffer::getFile(p.second);
        if (!b) { llvm::errs() << "cannot read " << p.second << "\n"; return 3; }
        keep.push_back(std::move(*b));
        names.push_back(p.first.str());
        }
    for (size_t i = 0; i < names.size(); i++) T.mapVirtualFile(names[i], keep[i]->getBuffer());
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
    }
