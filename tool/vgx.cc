// vgx: dumps the resolved program (functions, records) of one translation unit as JSON.
// Only declarations written under the roots given with -root= are dumped; everything they
// refer to is named by its qualified name.  The analyses are in ../vg/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("vgx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Skips("skip", llvm::cl::desc("file to leave out"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    json::Object Funcs, Recs, Globals;
    json::Array FnPtrs;
    std::set<std::string> Done;

    explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getFileLoc(L);
        auto P = SM.getPresumedLoc(L, false);
        if (P.isInvalid()) return "";
        std::string F = P.getFilename();
        if (auto FE = SM.getFileEntryForID(SM.getFileID(L))) {
            auto R = FE->tryGetRealPathName();
            if (!R.empty()) F = R.str();
        }
        return F;
    }

    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string F = fileOf(L);
        for (auto &S : Skips) if (F == S) return false;
        for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
        return false;
    }

    std::string loc(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getFileLoc(L);
        auto P = SM.getPresumedLoc(L, false);
        return fileOf(L) + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
    }

    std::string usr(const Decl *D) {
        llvm::SmallString<128> B;
        if (index::generateUSRForDecl(D->getCanonicalDecl(), B)) return "?" + std::to_string(D->getID());
        return B.str().str();
    }

    std::string qn(const NamedDecl *D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        // qualified name without inline namespaces and template arguments
        PrintingPolicy P2 = PP;
        P2.SuppressInlineNamespace = true;
        D->printQualifiedName(OS, P2);
        return S;
    }

    std::string recOf(QualType T) {
        T = T.getCanonicalType();
        while (true) {
            if (T->isReferenceType() || T->isPointerType()) { T = T->getPointeeType().getCanonicalType(); continue; }
            break;
        }
        if (auto *R = T->getAsCXXRecordDecl()) {
            std::string S;
            if (auto *D = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                const NamedDecl *N = D->getSpecializedTemplate();
                llvm::raw_string_ostream OS(S);
                PrintingPolicy P2 = PP; P2.SuppressInlineNamespace = true;
                N->printQualifiedName(OS, P2);
            } else S = qn(R);
            return S;
        }
        return "";
    }

    json::Value type(QualType T, int Depth = 2) {
        json::Object O;
        QualType Cn = T.getCanonicalType();
        O["s"] = Cn.getAsString(PP);
        QualType NR = Cn.getNonReferenceType();
        if (Cn->isLValueReferenceType()) O["ref"] = 1;
        if (Cn->isRValueReferenceType()) O["rref"] = 1;
        if (NR->isPointerType()) O["ptr"] = 1;
        QualType Base = NR;
        if (NR->isPointerType()) Base = NR->getPointeeType();
        if (Base.isConstQualified()) O["const"] = 1;
        if (!NR->isDependentType() && NR->isIntegerType()) {
            O["int"] = 1;
            if (NR->isUnsignedIntegerType()) O["uns"] = 1;
            O["w"] = (int64_t) C.getTypeSize(NR);
            if (NR->isBooleanType()) O["bool"] = 1;
        }
        if (!NR->isDependentType() && NR->isFloatingType()) O["flt"] = 1;
        std::string R = recOf(T);
        if (!R.empty()) O["rc"] = R;
        if (Depth > 0) {
            QualType BT = Base.getCanonicalType();
            if (auto *RD = dyn_cast_or_null<ClassTemplateSpecializationDecl>(BT->getAsCXXRecordDecl())) {
                json::Array TA;
                for (auto &Arg : RD->getTemplateArgs().asArray()) {
                    if (Arg.getKind() == TemplateArgument::Type) TA.push_back(type(Arg.getAsType(), Depth - 1));
                    if (TA.size() >= 2) break;
                }
                O["ta"] = std::move(TA);
            }
        }
        if (auto *CA = dyn_cast<ConstantArrayType>(Cn.getTypePtr())) O["arr"] = (int64_t) CA->getSize().getSExtValue();
        return O;
    }

    json::Value fnInfo(const FunctionDecl *F) {
        json::Object O;
        O["q"] = qn(F);
        O["n"] = F->getNameAsString();
        O["u"] = usr(F);
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && inRepo(Def->getLocation())) O["repo"] = 1;
        else if (inRepo(F->getLocation())) O["repo"] = 1;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["cls"] = recOf(C.getRecordType(M->getParent()));
            if (M->isConst()) O["const"] = 1;
            if (M->isStatic()) O["static"] = 1;
            if (M->isVirtual()) O["virt"] = 1;
            if (isa<CXXConstructorDecl>(F)) O["ctor"] = 1;
            if (isa<CXXDestructorDecl>(F)) O["dtor"] = 1;
            if (isa<CXXConversionDecl>(F)) O["conv"] = 1;
            if (M->getParent()->isLambda()) O["lambda"] = 1;
        }
        if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
        json::Array PT;
        for (auto *P : F->parameters()) PT.push_back(type(P->getType()));
        O["pt"] = std::move(PT);
        O["rt"] = type(F->getReturnType());
        if (F->getBuiltinID()) O["builtin"] = 1;
        return O;
    }

    std::string varId(const ValueDecl *D) {
        return D->getNameAsString() + "#" + std::to_string((uint64_t) D->getCanonicalDecl()->getID());
    }

    json::Value varRef(const ValueDecl *D) {
        json::Object O;
        O["n"] = D->getNameAsString();
        O["q"] = qn(D);
        O["t"] = type(D->getType());
        if (auto *V = dyn_cast<VarDecl>(D)) {
            if (isa<ParmVarDecl>(V)) O["vk"] = "param";
            else if (V->isStaticLocal()) { O["vk"] = "static"; }
            else if (V->hasGlobalStorage()) {
                O["vk"] = "global";
                if (inRepo(V->getLocation())) O["repo"] = 1;
            } else O["vk"] = "local";
            O["id"] = V->hasGlobalStorage() ? qn(V) : varId(V);
        } else if (isa<FunctionDecl>(D)) {
            O["vk"] = "func";
            O["fn"] = fnInfo(cast<FunctionDecl>(D));
        } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
            O["vk"] = "enum";
            O["v"] = E->getInitVal().getExtValue();
        } else O["vk"] = "other";
        return O;
    }

    json::Object base(const char *K, const Expr *E) {
        json::Object O;
        O["k"] = K;
        O["l"] = loc(E->getExprLoc());
        O["t"] = type(E->getType());
        if (E->isGLValue()) O["gl"] = E->isLValue() ? 1 : 2;
        return O;
    }

    json::Value expr(const Expr *E) {
        if (!E) return nullptr;
        switch (E->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
        case Stmt::MaterializeTemporaryExprClass: {
            auto O = base("mat", E);
            O["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
            return O;
        }
        case Stmt::CXXDefaultArgExprClass: {
            auto O = base("defarg", E);
            O["e"] = expr(cast<CXXDefaultArgExpr>(E)->getExpr());
            return O;
        }
        case Stmt::CXXDefaultInitExprClass: {
            auto O = base("definit", E);
            O["e"] = expr(cast<CXXDefaultInitExpr>(E)->getExpr());
            return O;
        }
        default: break;
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            auto CK = X->getCastKind();
            if (CK == CK_NoOp || CK == CK_FunctionToPointerDecay || CK == CK_ConstructorConversion ||
                CK == CK_UserDefinedConversion || CK == CK_BuiltinFnToFnPtr) {
                if (CK == CK_NoOp && isa<CXXConstCastExpr>(E)) {
                    auto O = base("cast", E); O["ck"] = "ConstCast"; O["e"] = expr(X->getSubExpr()); return O;
                }
                return expr(X->getSubExpr());
            }
            auto O = base("cast", E);
            O["ck"] = X->getCastKindName();
            if (isa<ExplicitCastExpr>(E)) O["ex"] = 1;
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) {
            auto O = base("lit", E); O["v"] = X->getValue().getSExtValue(); return O;
        }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) {
            auto O = base("lit", E); O["v"] = (int64_t) (int32_t) X->getValue(); return O;
        }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            auto O = base("lit", E); O["v"] = (int64_t) X->getValue(); return O;
        }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) {
            auto O = base("lit", E); O["v"] = X->getValueAsApproximateDouble(); return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            auto O = base("null", E); return O;
        }
        if (auto *X = dyn_cast<StringLiteral>(E)) {
            auto O = base("str", E);
            std::string S = X->getCharByteWidth() == 1 ? X->getBytes().str() : "?";
            if (!json::isUTF8(S)) S = json::fixUTF8(S);
            O["v"] = S; return O;
        }
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            auto O = base("ref", E); O["d"] = varRef(X->getDecl()); return O;
        }
        if (isa<CXXThisExpr>(E)) return base("this", E);
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            auto O = base("mem", E);
            O["b"] = expr(X->getBase());
            if (X->isArrow()) O["arrow"] = 1;
            O["f"] = X->getMemberDecl()->getNameAsString();
            if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
                O["cls"] = recOf(C.getRecordType(F->getParent()));
                if (F->isMutable()) O["mut"] = 1;
            } else O["d"] = varRef(X->getMemberDecl());
            return O;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            auto O = base("un", E);
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
            if (X->isPostfix()) O["post"] = 1;
            O["e"] = expr(X->getSubExpr());
            return O;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            auto O = base("bin", E);
            O["op"] = X->getOpcodeStr();
            if (X->isAssignmentOp()) O["asg"] = 1;
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            if (auto *Y = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = type(Y->getComputationResultType());
            return O;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            auto O = base("cond", E);
            O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
            return O;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            auto O = base("idx", E);
            O["a"] = expr(X->getBase()); O["i"] = expr(X->getIdx());
            return O;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            auto O = base("call", E);
            const FunctionDecl *F = X->getDirectCallee();
            if (F) O["fn"] = fnInfo(F);
            unsigned First = 0;
            if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
                if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
                    O["obj"] = expr(ME->getBase());
                    if (ME->isArrow()) O["arrow"] = 1;
                    if (ME->hasQualifier()) O["qual"] = 1;
                }
                (void) M;
            } else if (isa<CXXOperatorCallExpr>(E)) {
                O["oper"] = 1;
                if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    O["obj"] = expr(X->getArg(0));
                    First = 1;
                }
            }
            if (!F) O["fe"] = expr(X->getCallee());
            json::Array A;
            for (unsigned i = First; i < X->getNumArgs(); i++) A.push_back(expr(X->getArg(i)));
            O["args"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            auto O = base("ctor", E);
            auto *D = X->getConstructor();
            O["fn"] = fnInfo(D);
            if (D->isCopyConstructor()) O["copy"] = 1;
            if (D->isMoveConstructor()) O["move"] = 1;
            if (D->isDefaultConstructor()) O["def"] = 1;
            if (X->isElidable()) O["elid"] = 1;
            if (X->isListInitialization()) O["list"] = 1;
            json::Array A;
            for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
            O["args"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            auto O = base("ilist", E);
            json::Array A;
            for (auto *Ar : X->inits()) A.push_back(expr(Ar));
            O["args"] = std::move(A);
            return O;
        }
        if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            auto O = base("new", E);
            O["at"] = type(X->getAllocatedType());
            if (X->getInitializer()) O["e"] = expr(X->getInitializer());
            if (X->isArray()) O["arr"] = 1;
            return O;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
            auto O = base("delete", E); O["e"] = expr(X->getArgument()); return O;
        }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            auto O = base("throw", E); O["e"] = expr(X->getSubExpr()); return O;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            auto O = base("lambda", E);
            auto *Op = X->getCallOperator();
            O["fn"] = fnInfo(Op);
            json::Array A;
            auto CI = X->capture_init_begin();
            for (auto &Cp : X->captures()) {
                json::Object Q;
                if (Cp.capturesThis()) Q["this"] = 1;
                else if (Cp.capturesVariable()) {
                    Q["id"] = varId(Cp.getCapturedVar());
                    Q["byref"] = Cp.getCaptureKind() == LCK_ByRef;
                    if (*CI) Q["e"] = expr(*CI);
                }
                ++CI;
                A.push_back(std::move(Q));
            }
            O["caps"] = std::move(A);
            function(Op, true);
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            auto O = base("zero", E); return O;
        }
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
            auto O = base("lit", E); O["v"] = R.Val.getInt().getSExtValue(); return O;
        }
        auto O = base("other", E);
        O["sc"] = E->getStmtClassName();
        json::Array A;
        for (auto *Ch : E->children())
            if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE));
        O["args"] = std::move(A);
        return O;
    }

    json::Value var(const VarDecl *V) {
        json::Object O;
        O["id"] = V->hasGlobalStorage() ? qn(V) : varId(V);
        O["n"] = V->getNameAsString();
        O["t"] = type(V->getType());
        O["l"] = loc(V->getLocation());
        if (V->isStaticLocal()) O["static"] = 1;
        if (V->getInit()) O["init"] = expr(V->getInit());
        return O;
    }

    json::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            json::Object O; O["k"] = "expr"; O["e"] = expr(E); return O;
        }
        json::Object O;
        O["l"] = loc(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block";
            json::Array A;
            for (auto *Ch : X->body()) A.push_back(stmt(Ch));
            O["s"] = std::move(A);
        } else if (auto *X = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            json::Array A;
            for (auto *D : X->decls()) {
                if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
            }
            O["v"] = std::move(A);
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse());
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) {
            O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "rfor";
            O["v"] = var(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            O["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "ret"; O["e"] = expr(X->getRetValue());
        } else if (isa<BreakStmt>(S)) O["k"] = "break";
        else if (isa<ContinueStmt>(S)) O["k"] = "continue";
        else if (isa<NullStmt>(S)) O["k"] = "null";
        else if (auto *X = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            if (X->getInit()) O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
            O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
        } else if (auto *X = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case"; O["e"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default"; O["s"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try"; O["b"] = stmt(X->getTryBlock());
            json::Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                json::Object H;
                if (X->getHandler(i)->getExceptionDecl()) H["v"] = var(X->getHandler(i)->getExceptionDecl());
                H["b"] = stmt(X->getHandler(i)->getHandlerBlock());
                A.push_back(std::move(H));
            }
            O["h"] = std::move(A);
        } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
            return stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<LabelStmt>(S)) {
            O["k"] = "label"; O["n"] = X->getName(); O["s"] = stmt(X->getSubStmt());
        } else if (auto *X = dyn_cast<GotoStmt>(S)) {
            O["k"] = "goto"; O["n"] = X->getLabel()->getNameAsString();
        } else {
            O["k"] = "other"; O["sc"] = S->getStmtClassName();
        }
        return O;
    }

    void function(const FunctionDecl *F, bool Force = false) {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) {
            if (auto *M = dyn_cast<CXXMethodDecl>(F)) { (void) M; Def = F; }
            else return;
        }
        if (Def->isDependentContext()) return;
        if (!Force && !inRepo(Def->getLocation())) return;
        if (!inRepo(Def->getLocation())) return;
        std::string U = usr(Def);
        bool HasBody = Def->doesThisDeclarationHaveABody() || Def->isDefaulted();
        if (HasBody) { if (!Done.insert(U).second) return; }
        else if (Funcs.find(U) != Funcs.end()) return;
        json::Object O;
        auto FI = fnInfo(Def);
        O["fn"] = std::move(FI);
        O["l"] = loc(Def->getLocation());
        json::Array P;
        for (auto *V : Def->parameters()) {
            json::Object Q;
            Q["id"] = varId(V); Q["n"] = V->getNameAsString(); Q["t"] = type(V->getType());
            if (V->hasDefaultArg() && !V->hasUninstantiatedDefaultArg() && !V->hasUnparsedDefaultArg())
                Q["def"] = expr(V->getDefaultArg());
            P.push_back(std::move(Q));
        }
        O["params"] = std::move(P);
        if (Def->isDefaulted()) O["defaulted"] = 1;
        if (Def->isDeleted()) O["deleted"] = 1;
        if (Def->isImplicit()) O["implicit"] = 1;
        if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
            const char *Acc[] = {"public", "protected", "private", "none"};
            O["acc"] = Acc[M->getCanonicalDecl()->getAccess()];
            json::Array Ov;
            for (auto *B : M->overridden_methods()) Ov.push_back(usr(B));
            O["ov"] = std::move(Ov);
            if (M->isPureVirtual()) O["pure"] = 1;
            if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
                if (CD->isCopyConstructor()) O["copyctor"] = 1;
                if (CD->isMoveConstructor()) O["movector"] = 1;
                if (CD->isDelegatingConstructor()) O["delegating"] = 1;
                json::Array In;
                for (auto *I : CD->inits()) {
                    json::Object Q;
                    if (I->isAnyMemberInitializer()) {
                        Q["f"] = I->getAnyMember()->getNameAsString();
                        Q["ft"] = type(I->getAnyMember()->getType());
                    } else if (I->isBaseInitializer()) Q["base"] = recOf(QualType(I->getBaseClass(), 0));
                    else Q["deleg"] = 1;
                    if (I->isWritten()) Q["written"] = 1;
                    Q["l"] = loc(I->getSourceLocation());
                    Q["e"] = expr(I->getInit());
                    In.push_back(std::move(Q));
                }
                O["inits"] = std::move(In);
            }
        }
        if (Def->doesThisDeclarationHaveABody()) O["body"] = stmt(Def->getBody());
        Funcs[U] = std::move(O);
    }

    void record(const CXXRecordDecl *R) {
        if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRepo(R->getLocation())) return;
        json::Object O;
        O["q"] = recOf(C.getRecordType(R));
        O["l"] = loc(R->getLocation());
        json::Array B, F, M;
        for (auto &Bs : R->bases()) B.push_back(recOf(Bs.getType()));
        for (auto *Fd : R->fields()) {
            json::Object Q;
            Q["n"] = Fd->getNameAsString(); Q["t"] = type(Fd->getType());
            if (Fd->isMutable()) Q["mut"] = 1;
            Q["l"] = loc(Fd->getLocation());
            if (Fd->hasInClassInitializer()) Q["init"] = expr(Fd->getInClassInitializer());
            QualType T = Fd->getType();
            if (auto *RD = T->getAsCXXRecordDecl()) {
                if (RD->hasDefinition() && RD->isPOD()) Q["pod"] = 1;
            }
            F.push_back(std::move(Q));
        }
        for (auto *Md : R->methods()) {
            M.push_back(usr(Md));
            if (!Md->isImplicit() || Md->isDefaulted()) function(Md);
        }
        O["bases"] = std::move(B); O["fields"] = std::move(F); O["methods"] = std::move(M);
        if (R->isPolymorphic()) O["poly"] = 1;
        if (auto *D = R->getDestructor()) if (D->isVirtual()) O["vdtor"] = 1;
        Recs[recOf(C.getRecordType(R))] = std::move(O);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    explicit Visitor(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (D.inRepo(F->getLocation())) D.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && D.inRepo(V->getLocation()) && !V->getDeclContext()->isDependentContext()) {
            json::Object O;
            O["q"] = D.qn(V); O["t"] = D.type(V->getType()); O["l"] = D.loc(V->getLocation());
            if (V->isStaticLocal()) O["local"] = 1;
            if (V->isConstexpr()) O["constexpr"] = 1;
            if (V->getInit()) O["init"] = D.expr(V->getInit());
            O["const"] = V->getType().isConstQualified();
            auto It = D.Globals.find(D.qn(V));
            if (It == D.Globals.end() || V->getInit()) D.Globals[D.qn(V)] = std::move(O);
        }
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    explicit Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object O;
        O["functions"] = std::move(D.Funcs);
        O["records"] = std::move(D.Recs);
        O["globals"] = std::move(D.Globals);
        O["errors"] = (int64_t) CI.getDiagnostics().getClient()->getNumErrors();
        json::Array Fs;
        std::set<std::string> Seen;
        auto &SM = C.getSourceManager();
        for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
            std::string N = It->first.getName().str();
            auto R = It->first.getFileEntry().tryGetRealPathName();
            if (!R.empty()) N = R.str();
            for (auto &Rt : Roots) if (N.compare(0, Rt.size(), Rt) == 0 && Seen.insert(N).second) Fs.push_back(N);
        }
        O["files"] = std::move(Fs);
        std::error_code EC;
        llvm::raw_fd_ostream OS(Out, EC);
        OS << json::Value(std::move(O));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};
}  // namespace

int main(int argc, const char **argv) {
    auto P = CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
    ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(newFrontendActionFactory<Action>().get());
}
