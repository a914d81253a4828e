// Fact extractor: parses one translation unit with the flags given after "--"
// and writes, as JSON, every non-dependent function defined under the source
// root (template instantiations included) as a resolved expression graph plus
// its control flow graph.  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

struct Extractor {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<std::string, int> typeIds;
    json::Array types;
    std::map<const Decl *, int> varIds;
    std::set<std::string> doneFns;
    std::set<std::string> doneRecs;
    json::Array functions, records, globals, instantiations;

    Extractor(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.SuppressInlineNamespace = true;
    }

    std::string fileOf(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        return F.str();
    }
    unsigned lineOf(SourceLocation L) {
        if (L.isInvalid()) return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inRepo(SourceLocation L) {
        std::string f = fileOf(L);
        for (auto &r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }

    std::string recName(const RecordDecl *R) {
        if (auto *X = dyn_cast<CXXRecordDecl>(R))
            if (X->isLambda())
                return "lambda@" + fileOf(R->getLocation()) + ":" +
                       std::to_string(lineOf(R->getLocation())) + ":" +
                       std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
        std::string s;
        llvm::raw_string_ostream os(s);
        R->printQualifiedName(os, PP);
        return os.str();
    }

    // Shortened structural type name.
    std::string shortType(QualType T, int depth = 3) {
        T = T.getCanonicalType();
        std::string pre;
        if (T->isReferenceType()) {
            bool rr = T->isRValueReferenceType();
            return shortType(T->getPointeeType(), depth) + (rr ? "&&" : "&");
        }
        if (T.isConstQualified()) pre = "const ";
        if (T->isPointerType())
            return pre + shortType(T->getPointeeType(), depth) + "*";
        if (auto *R = T->getAsCXXRecordDecl()) {
            std::string n = recName(R);
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                std::string s;
                llvm::raw_string_ostream os(s);
                S->NamedDecl::printQualifiedName(os, PP);
                n = os.str();
                n += "<";
                if (depth <= 0) {
                    n += "~";
                } else {
                    bool first = true;
                    for (auto &A : S->getTemplateArgs().asArray()) {
                        if (!first) n += ",";
                        first = false;
                        n += targ(A, depth - 1);
                    }
                }
                n += ">";
            }
            return pre + n;
        }
        std::string s = T.getUnqualifiedType().getAsString(PP);
        if (s.size() > 120) s = s.substr(0, 120);
        return pre + s;
    }
    std::string targ(const TemplateArgument &A, int depth) {
        switch (A.getKind()) {
        case TemplateArgument::Type: return shortType(A.getAsType(), depth);
        case TemplateArgument::Integral: {
            llvm::SmallString<16> b;
            A.getAsIntegral().toString(b, 10);
            return std::string(b.str());
        }
        case TemplateArgument::Pack: {
            std::string r;
            for (auto &P : A.pack_elements()) {
                if (!r.empty()) r += ",";
                r += targ(P, depth);
            }
            return r;
        }
        default: return "?";
        }
    }
    int typeId(QualType T) {
        if (T.isNull()) return -1;
        std::string s = shortType(T);
        auto it = typeIds.find(s);
        if (it != typeIds.end()) return it->second;
        int n = typeIds.size();
        typeIds[s] = n;
        types.push_back(s);
        return n;
    }

    int varId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = varIds.find(D);
        if (it != varIds.end()) return it->second;
        int n = varIds.size();
        varIds[D] = n;
        return n;
    }

    std::string qname(const NamedDecl *D) {
        std::string s;
        PrintingPolicy P2(PP);
        llvm::raw_string_ostream os(s);
        // qualified name without template arguments
        const DeclContext *DC = D->getDeclContext();
        std::vector<std::string> parts;
        while (DC) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() && !N->isAnonymousNamespace())
                    parts.push_back(N->getNameAsString());
            } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
                auto *X = dyn_cast<CXXRecordDecl>(R);
                if (X && X->isLambda()) parts.push_back("(lambda)");
                else parts.push_back(R->getNameAsString());
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                parts.push_back(F->getNameAsString() + "()");
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        os << D->getNameAsString();
        return os.str();
    }

    std::string fnKey(const FunctionDecl *F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) {
                std::string s = recName(M->getParent());
                // distinguish instantiations by the enclosing function
                const DeclContext *DC = M->getParent()->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
                if (DC) s += " in " + fnKey(cast<FunctionDecl>(DC));
                return s + "::" + M->getNameAsString();
            }
        }
        std::string s;
        llvm::raw_string_ostream os(s);
        F->getNameForDiagnostic(os, PP, true);
        os << "(";
        bool first = true;
        for (auto *P : F->parameters()) {
            if (!first) os << ",";
            first = false;
            os << shortType(P->getType(), 4);
        }
        os << ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst()) os << " const";
        // enclosing class template arguments (getNameForDiagnostic prints them
        // for specialisations); nothing else needed
        return os.str();
    }

    const FunctionDecl *defOf(const FunctionDecl *F) {
        const FunctionDecl *D = nullptr;
        if (F->hasBody(D) && D) return D;
        return nullptr;
    }

    // -------------------------------------------------------------------
    struct FnCtx {
        std::map<const Stmt *, int> ids;
        json::Object nodes;
        int next = 0;
        json::Array ranges;
        std::set<const Stmt *> elems;
    };

    std::string paramKind(QualType T) {
        if (T->isLValueReferenceType())
            return T->getPointeeType().isConstQualified() ? "cr" : "r";
        if (T->isRValueReferenceType()) return "rr";
        if (T->isPointerType())
            return T->getPointeeType().isConstQualified() ? "cp" : "p";
        return "v";
    }

    void calleeInfo(json::Object &o, const FunctionDecl *F) {
        o["f"] = fnKey(F);
        o["n"] = qname(F);
        if (auto *A = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto &X : A->asArray()) {
                if (X.getKind() == TemplateArgument::Pack) {
                    for (auto &P : X.pack_elements()) ta.push_back(targ(P, 3));
                } else
                    ta.push_back(targ(X, 3));
            }
            o["fa"] = std::move(ta);
        }
        json::Array pk;
        for (auto *P : F->parameters()) pk.push_back(paramKind(P->getType()));
        o["pk"] = std::move(pk);
        o["rk"] = paramKind(F->getReturnType());
        o["rt"] = typeId(F->getReturnType());
        if (F->isVariadic()) o["va"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isConst()) o["mc"] = true;
            if (M->isStatic()) o["ms"] = true;
            if (M->isVirtual()) o["mv"] = true;
            o["cls"] = recName(M->getParent());
        }
        if (auto *FT = F->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow())
                o["nt"] = true;
    }

    // 0: not Eigen, 1: a matrix that owns its elements, 2: an expression or view
    int eigenKind(QualType t) {
        if (t.isNull()) return 0;
        auto *R = t.getNonReferenceType().getCanonicalType()->getAsCXXRecordDecl();
        if (!R || !R->getIdentifier()) return 0;
        std::string q = R->getQualifiedNameAsString();
        if (q.compare(0, 7, "Eigen::") != 0) return 0;
        std::string n = R->getNameAsString();
        return n == "Matrix" || n == "Array" ? 1 : 2;
    }

    // does the expression keep a reference to a matrix that dies with the full expression
    const Expr *keepsTemporary(const Expr *E) {
        if (!E) return nullptr;
        if (auto *X = dyn_cast<ParenExpr>(E)) return keepsTemporary(X->getSubExpr());
        if (auto *X = dyn_cast<ImplicitCastExpr>(E)) return keepsTemporary(X->getSubExpr());
        if (auto *X = dyn_cast<ExprWithCleanups>(E)) return keepsTemporary(X->getSubExpr());
        if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return keepsTemporary(X->getSubExpr());
        if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
            if (eigenKind(X->getType()) == 1) return X;
            return keepsTemporary(X->getSubExpr());
        }
        if (eigenKind(E->getType()) != 2) return nullptr;
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            if (auto *r = keepsTemporary(X->getImplicitObjectArgument())) return r;
            for (auto *a : X->arguments()) if (auto *r = keepsTemporary(a)) return r;
        } else if (auto *X = dyn_cast<CallExpr>(E)) {
            for (auto *a : X->arguments()) if (auto *r = keepsTemporary(a)) return r;
        } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            for (auto *a : X->arguments()) if (auto *r = keepsTemporary(a)) return r;
        }
        return nullptr;
    }

    json::Object varInfo(const VarDecl *V, FnCtx &fc, bool withInit) {
        json::Object o;
        o["id"] = varId(V);
        o["name"] = V->getNameAsString();
        o["t"] = typeId(V->getType());
        o["rk"] = paramKind(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (withInit && V->getInit()) o["init"] = node(V->getInit(), fc);
        if (withInit && V->getInit() && eigenKind(V->getType()) == 2) {
            o["lazy"] = true;
            if (keepsTemporary(V->getInit())) o["dangle"] = true;
        }
        return o;
    }

    void refDecl(json::Object &o, const ValueDecl *D) {
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
            o["f"] = fnKey(F);
            o["n"] = qname(F);
        } else if (auto *V = dyn_cast<VarDecl>(D)) {
            o["name"] = V->getNameAsString();
            if (V->hasGlobalStorage()) {
                o["g"] = qname(V);
                if (V->isStaticLocal()) o["sl"] = true;
                if (V->getType().isConstQualified() || V->isConstexpr()) o["gc"] = true;
                o["gt"] = typeId(V->getType());
            } else {
                o["v"] = varId(V);
            }
            o["rk"] = paramKind(V->getType());
        } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
            o["e"] = E->getNameAsString();
        } else {
            o["name"] = D->getNameAsString();
        }
    }

    int node(const Stmt *S, FnCtx &fc) {
        if (!S) return -1;
        // strip purely syntactic wrappers
        if (auto *P = dyn_cast<ParenExpr>(S)) {
            if (!fc.ids.count(S)) { int i = node(P->getSubExpr(), fc); fc.ids[S] = i; }
            return fc.ids[S];
        }
        auto it = fc.ids.find(S);
        if (it != fc.ids.end()) return it->second;
        int id = fc.next++;
        fc.ids[S] = id;
        json::Object o;
        o["k"] = S->getStmtClassName();
        o["l"] = (int64_t)lineOf(S->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(S)) {
            o["t"] = typeId(E->getType());
            if (E->isLValue()) o["lv"] = true;
            if (!E->isValueDependent() && !E->isTypeDependent() &&
                (E->getType()->isArithmeticType() || E->getType()->isEnumeralType()) &&
                E->isPRValue()) {
                Expr::EvalResult R;
                if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
                    if (R.Val.isInt()) {
                        llvm::SmallString<24> b;
                        R.Val.getInt().toString(b, 10);
                        o["cv"] = std::string(b.str());
                    } else if (R.Val.isFloat()) {
                        llvm::SmallString<40> b;
                        R.Val.getFloat().toString(b, 20);
                        o["cv"] = std::string(b.str());
                    }
                }
            }
        }
        json::Array kids;
        bool genericKids = true;

        if (auto *D = dyn_cast<DeclRefExpr>(S)) {
            refDecl(o, D->getDecl());
        } else if (auto *M = dyn_cast<MemberExpr>(S)) {
            auto *D = M->getMemberDecl();
            o["m"] = D->getNameAsString();
            if (M->isArrow()) o["ar"] = true;
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                o["mcls"] = recName(F->getParent());
                o["mrk"] = paramKind(F->getType());
                o["mt"] = typeId(F->getType());
                if (F->isMutable()) o["mut"] = true;
            } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
                o["f"] = fnKey(F);
                if (M->hasQualifier()) o["qual"] = true;
            } else if (auto *V = dyn_cast<VarDecl>(D)) {
                o["g"] = qname(V);
                if (V->getType().isConstQualified() || V->isConstexpr()) o["gc"] = true;
            }
        } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
            genericKids = false;
            if (auto *F = MC->getMethodDecl()) calleeInfo(o, F);
            else o["n"] = "?";
            o["o"] = node(MC->getImplicitObjectArgument(), fc);
            bool qual = false, arrow = false;
            if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                qual = ME->hasQualifier();
                arrow = ME->isArrow();
                fc.ids[ME] = -2;
            }
            if (arrow) o["ar"] = true;
            if (MC->getMethodDecl() && MC->getMethodDecl()->isVirtual() && !qual) o["virt"] = true;
            json::Array a;
            for (auto *A : MC->arguments()) a.push_back(node(A, fc));
            o["a"] = std::move(a);
        } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
            genericKids = false;
            o["op"] = getOperatorSpelling(OC->getOperator());
            unsigned start = 0;
            if (auto *F = dyn_cast_or_null<FunctionDecl>(OC->getCalleeDecl())) {
                calleeInfo(o, F);
                if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
                    o["o"] = node(OC->getArg(0), fc);
                    start = 1;
                    if (M->isVirtual()) o["virt"] = true;
                }
            }
            json::Array a;
            for (unsigned i = start; i < OC->getNumArgs(); i++) a.push_back(node(OC->getArg(i), fc));
            o["a"] = std::move(a);
        } else if (auto *CE = dyn_cast<CallExpr>(S)) {
            genericKids = false;
            if (auto *F = CE->getDirectCallee()) calleeInfo(o, F);
            else { o["n"] = "?"; o["ce"] = node(CE->getCallee(), fc); }
            json::Array a;
            for (auto *A : CE->arguments()) a.push_back(node(A, fc));
            o["a"] = std::move(a);
        } else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) {
            genericKids = false;
            calleeInfo(o, CC->getConstructor());
            auto *Ctor = CC->getConstructor();
            if (Ctor->isCopyOrMoveConstructor()) o["cm"] = Ctor->isMoveConstructor() ? "move" : "copy";
            json::Array a;
            for (auto *A : CC->arguments()) a.push_back(node(A, fc));
            o["a"] = std::move(a);
        } else if (auto *N = dyn_cast<CXXNewExpr>(S)) {
            o["nt_"] = typeId(N->getAllocatedType());
        } else if (auto *L = dyn_cast<IntegerLiteral>(S)) {
            llvm::SmallString<24> b;
            L->getValue().toString(b, 10, false);
            o["v"] = std::string(b.str());
        } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) {
            o["v"] = L->getValue() ? "1" : "0";
        } else if (auto *L = dyn_cast<StringLiteral>(S)) {
            std::string v = L->getCharByteWidth() == 1 ? L->getString().str() : "";
            if (!json::isUTF8(v)) v = json::fixUTF8(v);
            o["s"] = v;
        } else if (auto *L = dyn_cast<CharacterLiteral>(S)) {
            o["v"] = std::to_string(L->getValue());
        } else if (auto *U = dyn_cast<UnaryOperator>(S)) {
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = true;
        } else if (auto *B = dyn_cast<BinaryOperator>(S)) {
            o["op"] = B->getOpcodeStr().str();
        } else if (auto *K = dyn_cast<CastExpr>(S)) {
            o["ck"] = K->getCastKindName();
            if (isa<ExplicitCastExpr>(S)) o["ex"] = true;
            if (auto *F = K->getConversionFunction()) {
                if (auto *FD = dyn_cast<FunctionDecl>(F)) o["cf"] = qname(FD);
            }
        } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
            genericKids = false;
            json::Array vs;
            for (auto *D : DS->decls())
                if (auto *V = dyn_cast<VarDecl>(D)) vs.push_back(varInfo(V, fc, true));
            o["vars"] = std::move(vs);
        } else if (auto *LE = dyn_cast<LambdaExpr>(S)) {
            genericKids = false;
            o["lam"] = fnKey(LE->getCallOperator());
            json::Array caps;
            auto initIt = LE->capture_init_begin();
            for (auto &cap : LE->captures()) {
                json::Object c;
                if (cap.capturesThis()) c["this"] = true;
                else if (cap.capturesVariable()) {
                    c["v"] = varId(cap.getCapturedVar());
                    c["name"] = cap.getCapturedVar()->getNameAsString();
                    if (cap.getCaptureKind() == LCK_ByRef) c["ref"] = true;
                }
                if (*initIt) c["init"] = node(*initIt, fc);
                ++initIt;
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
        } else if (auto *SZ = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            genericKids = false;
            o["st"] = typeId(SZ->getTypeOfArgument());
        } else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) {
            genericKids = false;
            kids.push_back(node(DA->getExpr(), fc));
        } else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) {
            genericKids = false;
            kids.push_back(node(DI->getExpr(), fc));
        } else if (auto *MT = dyn_cast<MaterializeTemporaryExpr>(S)) {
            if (MT->getExtendingDecl()) o["ext"] = true;
        } else if (auto *FR = dyn_cast<CXXForRangeStmt>(S)) {
            json::Object r;
            r["lv"] = varId(FR->getLoopVariable());
            if (FR->getRangeStmt())
                if (auto *V = dyn_cast<VarDecl>(FR->getRangeStmt()->getSingleDecl())) {
                    r["rv"] = varId(V);
                    r["rinit"] = node(FR->getRangeInit(), fc);
                }
            if (FR->getBeginStmt())
                if (auto *V = dyn_cast<VarDecl>(FR->getBeginStmt()->getSingleDecl())) r["bv"] = varId(V);
            r["s"] = id;
            fc.ranges.push_back(std::move(r));
        } else if (auto *CS = dyn_cast<CXXCatchStmt>(S)) {
            o["ct"] = CS->getExceptionDecl() ? typeId(CS->getCaughtType()) : -1;
            if (CS->getExceptionDecl()) o["cvv"] = varId(CS->getExceptionDecl());
        } else if (auto *IL = dyn_cast<InitListExpr>(S)) {
            if (!IL->isSemanticForm() && IL->getSemanticForm()) {
                genericKids = false;
                kids.push_back(node(IL->getSemanticForm(), fc));
                o["k"] = "ParenLike";
            }
        }
        if (genericKids)
            for (const Stmt *K : S->children())
                if (K) kids.push_back(node(K, fc));
        o["c"] = std::move(kids);
        fc.nodes[std::to_string(id)] = std::move(o);
        return id;
    }

    void doFunction(const FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
        if (F->isDefaulted() && !F->isUserProvided()) return;
        if (!inRepo(F->getLocation())) return;
        std::string key = fnKey(F);
        if (!doneFns.insert(key).second) return;
        json::Object o;
        FnCtx fc;
        o["key"] = key;
        o["qname"] = qname(F);
        o["file"] = fileOf(F->getLocation());
        o["line"] = (int64_t)lineOf(F->getLocation());
        o["ret"] = typeId(F->getReturnType());
        o["rk"] = paramKind(F->getReturnType());
        if (auto *A = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto &X : A->asArray()) ta.push_back(targ(X, 3));
            o["fa"] = std::move(ta);
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virtual"] = true;
            o["access"] = (int)M->getAccess();
            json::Array ov;
            for (auto *X : M->overridden_methods()) ov.push_back(fnKey(X));
            o["overrides"] = std::move(ov);
            if (M->getParent()->isLambda()) o["lambda"] = true;
        }
        if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (F->isTemplateInstantiation()) o["inst"] = true;
        json::Array ps;
        for (auto *P : F->parameters()) {
            json::Object p;
            p["id"] = varId(P);
            p["name"] = P->getNameAsString();
            p["t"] = typeId(P->getType());
            p["rk"] = paramKind(P->getType());
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
                p["def"] = node(P->getDefaultArg(), fc);
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);

        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.AddTemporaryDtors = false;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.PruneTriviallyFalseEdges = false;
        BO.AddEHEdges = false;
        auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
        o["body"] = node(F->getBody(), fc);
        json::Array blocks;
        if (G) {
            for (auto *B : *G) {
                json::Object b;
                b["id"] = (int)B->getBlockID();
                json::Array els;
                for (auto &E : *B) {
                    if (auto S = E.getAs<CFGStmt>()) {
                        els.push_back(node(S->getStmt(), fc));
                    } else if (auto I = E.getAs<CFGInitializer>()) {
                        auto *Init = I->getInitializer();
                        json::Object io;
                        io["e"] = "init";
                        if (Init->isAnyMemberInitializer()) {
                            auto *FD = Init->getAnyMember();
                            io["field"] = FD->getNameAsString();
                            io["mcls"] = recName(FD->getParent());
                            io["mrk"] = paramKind(FD->getType());
                        } else if (Init->isBaseInitializer()) {
                            io["base"] = shortType(QualType(Init->getBaseClass(), 0));
                        } else if (Init->isDelegatingInitializer())
                            io["deleg"] = true;
                        io["l"] = (int64_t)lineOf(Init->getSourceLocation());
                        if (Init->isWritten()) io["written"] = true;
                        io["x"] = node(Init->getInit(), fc);
                        els.push_back(std::move(io));
                    } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
                        json::Object io;
                        io["e"] = "dtor";
                        io["v"] = varId(D->getVarDecl());
                        io["name"] = D->getVarDecl()->getNameAsString();
                        io["t"] = typeId(D->getVarDecl()->getType());
                        els.push_back(std::move(io));
                    }
                }
                b["els"] = std::move(els);
                if (auto *T = B->getTerminatorStmt()) {
                    b["term"] = T->getStmtClassName();
                    b["tl"] = (int64_t)lineOf(T->getBeginLoc());
                    b["tn"] = node(T, fc);
                    if (auto *BO2 = dyn_cast<BinaryOperator>(T)) b["top"] = BO2->getOpcodeStr().str();
                    const Expr *Cond = B->getLastCondition();
                    if (isa<SwitchStmt>(T)) Cond = cast<SwitchStmt>(T)->getCond();
                    if (Cond) b["cond"] = node(Cond, fc);
                }
                if (auto *Lb = B->getLabel()) {
                    b["label"] = node(Lb, fc);
                    if (auto *CS = dyn_cast<CaseStmt>(Lb)) {
                        json::Array cs;
                        const SwitchCase *q = CS;
                        while (q) {
                            if (auto *c2 = dyn_cast<CaseStmt>(q)) cs.push_back(node(c2->getLHS(), fc));
                            else cs.push_back(-1);
                            q = dyn_cast<SwitchCase>(q->getSubStmt());
                        }
                        b["cases"] = std::move(cs);
                    } else if (isa<DefaultStmt>(Lb)) {
                        json::Array cs;
                        const SwitchCase *q = cast<SwitchCase>(Lb);
                        while (q) {
                            if (auto *c2 = dyn_cast<CaseStmt>(q)) cs.push_back(node(c2->getLHS(), fc));
                            else cs.push_back(-1);
                            q = dyn_cast<SwitchCase>(q->getSubStmt());
                        }
                        b["cases"] = std::move(cs);
                    }
                }
                json::Array su;
                for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
                    const CFGBlock *X = it->getReachableBlock();
                    if (!X) X = it->getPossiblyUnreachableBlock();
                    if (X) su.push_back((int)X->getBlockID());
                    else su.push_back(nullptr);
                }
                b["succ"] = std::move(su);
                if (B->hasNoReturnElement()) b["noret"] = true;
                blocks.push_back(std::move(b));
            }
            o["entry"] = (int)G->getEntry().getBlockID();
            o["exit"] = (int)G->getExit().getBlockID();
        }
        o["blocks"] = std::move(blocks);
        o["ranges"] = std::move(fc.ranges);
        o["nodes"] = std::move(fc.nodes);
        functions.push_back(std::move(o));
    }

    void doRecord(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
        if (!inRepo(R->getLocation())) return;
        std::string n = recName(R);
        if (!doneRecs.insert(n).second) return;
        json::Object o;
        o["name"] = n;
        o["qname"] = qname(R);
        o["file"] = fileOf(R->getLocation());
        o["line"] = (int64_t)lineOf(R->getLocation());
        json::Array bs;
        for (auto &B : R->bases())
            if (auto *X = B.getType()->getAsCXXRecordDecl()) bs.push_back(recName(X));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto *F : R->fields()) {
            json::Object f;
            f["name"] = F->getNameAsString();
            f["t"] = typeId(F->getType());
            f["rk"] = paramKind(F->getType());
            if (F->isMutable()) f["mut"] = true;
            f["init"] = F->hasInClassInitializer();
            f["line"] = (int64_t)lineOf(F->getLocation());
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto *M : R->methods()) {
            if (M->isImplicit()) continue;
            json::Object m;
            m["key"] = fnKey(M);
            m["name"] = M->getNameAsString();
            m["virt"] = M->isVirtual();
            m["pure"] = M->isPureVirtual();
            m["access"] = (int)M->getAccess();
            json::Array ov;
            for (auto *X : M->overridden_methods()) ov.push_back(fnKey(X));
            m["ov"] = std::move(ov);
            m["deleted"] = M->isDeleted();
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            o["tsk"] = (int)S->getTemplateSpecializationKind();
            json::Array ta;
            for (auto &A : S->getTemplateArgs().asArray()) ta.push_back(targ(A, 3));
            o["targs"] = std::move(ta);
        }
        records.push_back(std::move(o));
    }

    void flattenInit(const Expr *E, json::Array &out) {
        if (!E) return;
        E = E->IgnoreParenImpCasts();
        if (auto *IL = dyn_cast<InitListExpr>(E)) {
            for (auto *I : IL->inits()) flattenInit(I, out);
            return;
        }
        if (auto *EC = dyn_cast<ExprWithCleanups>(E)) return flattenInit(EC->getSubExpr(), out);
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->EvaluateAsRValue(R, C)) {
            if (R.Val.isFloat()) {
                llvm::SmallString<40> b;
                R.Val.getFloat().toString(b, 20);
                out.push_back(std::string(b.str()));
                return;
            }
            if (R.Val.isInt()) {
                llvm::SmallString<24> b;
                R.Val.getInt().toString(b, 10);
                out.push_back(std::string(b.str()));
                return;
            }
        }
        out.push_back(nullptr);
    }

    void doGlobal(const VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
        if (V->getDeclContext()->isDependentContext()) return;
        if (!inRepo(V->getLocation())) return;
        json::Object o;
        o["name"] = qname(V);
        o["t"] = typeId(V->getType());
        o["const"] = V->getType().isConstQualified() || V->isConstexpr();
        o["static_local"] = V->isStaticLocal();
        o["file"] = fileOf(V->getLocation());
        o["line"] = (int64_t)lineOf(V->getLocation());
        if (V->getInit()) {
            const Expr *I = V->getInit()->IgnoreParenImpCasts();
            if (auto *SL = dyn_cast<StringLiteral>(I)) {
                std::string v = SL->getCharByteWidth() == 1 ? SL->getString().str() : "";
                if (!json::isUTF8(v)) v = json::fixUTF8(v);
                o["s"] = v;
            } else if (isa<InitListExpr>(I)) {
                json::Array out;
                flattenInit(I, out);
                o["vals"] = std::move(out);
            }
        }
        globals.push_back(std::move(o));
    }

    void doInst(const NamedDecl *D, const std::string &kind, const std::string &tn, json::Array targs,
                SourceLocation L) {
        json::Object o;
        o["kind"] = kind;
        o["name"] = tn;
        o["targs"] = std::move(targs);
        o["file"] = fileOf(L);
        o["line"] = (int64_t)lineOf(L);
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
            json::Array ps;
            for (auto *P : F->parameters()) ps.push_back(shortType(P->getType(), 4));
            o["ptypes"] = std::move(ps);
        }
        instantiations.push_back(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  public:
    Extractor &X;
    Visitor(Extractor &X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        X.doFunction(F);
        if (F->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition &&
            F->getPrimaryTemplate() && X.inRepo(F->getLocation())) {
            json::Array ta;
            if (auto *A = F->getTemplateSpecializationArgs())
                for (auto &P : A->asArray()) ta.push_back(X.targ(P, 3));
            X.doInst(F, "function", X.qname(F), std::move(ta), F->getPointOfInstantiation());
        }
        return true;
    }
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T) {
        auto *F = T->getTemplatedDecl();
        if (!X.inRepo(F->getLocation())) return true;
        json::Object o;
        o["kind"] = "ftemplate";
        o["name"] = X.qname(F);
        o["nparams"] = (int)F->getNumParams();
        bool hdr = false;
        const FunctionDecl *D = nullptr;
        if (F->hasBody(D) && D) hdr = true;
        o["hasbody"] = hdr;
        o["bodyfile"] = D ? X.fileOf(D->getLocation()) : "";
        o["file"] = X.fileOf(F->getLocation());
        o["line"] = (int64_t)X.lineOf(F->getLocation());
        o["member"] = F->isCXXClassMember();
        X.instantiations.push_back(std::move(o));
        return true;
    }
    bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
        auto *R = T->getTemplatedDecl();
        if (!X.inRepo(R->getLocation()) || !R->isThisDeclarationADefinition()) return true;
        json::Object o;
        o["kind"] = "ctemplate";
        o["name"] = X.qname(R);
        o["ntparams"] = (int)T->getTemplateParameters()->size();
        o["file"] = X.fileOf(R->getLocation());
        o["line"] = (int64_t)X.lineOf(R->getLocation());
        json::Array ms;
        for (auto *M : R->methods()) {
            if (M->isImplicit() || M->isPureVirtual() || M->isDeleted()) continue;
            const FunctionDecl *D = nullptr;
            bool b = M->hasBody(D) && D;
            json::Object m;
            m["name"] = M->getNameAsString();
            m["body"] = b;
            m["bodyfile"] = b ? X.fileOf(D->getLocation()) : "";
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        X.instantiations.push_back(std::move(o));
        return true;
    }
    bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *S) {
        if (S->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition &&
            X.inRepo(S->getLocation())) {
            json::Array ta;
            for (auto &P : S->getTemplateArgs().asArray()) ta.push_back(X.targ(P, 3));
            X.doInst(S, "class", X.qname(S), std::move(ta), S->getPointOfInstantiation());
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.doRecord(R); return true; }
    bool VisitVarDecl(VarDecl *V) { X.doGlobal(V); return true; }
    bool VisitLambdaExpr(LambdaExpr *L) {
        if (auto *M = L->getCallOperator())
            if (M->doesThisDeclarationHaveABody()) X.doFunction(M);
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override {
        Extractor X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["errors"] = (int)C.getDiagnostics().getNumErrors();
        o["types"] = std::move(X.types);
        o["functions"] = std::move(X.functions);
        o["records"] = std::move(X.records);
        o["globals"] = std::move(X.globals);
        o["inst"] = std::move(X.instantiations);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << json::Value(std::move(o));
        os.flush();
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// usage: extract OUT.json ROOT[:ROOT...] FILE -- flags...
int main(int argc, const char **argv) {
    if (argc < 5) return 64;
    OutPath = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p <= roots.size()) {
        size_t q = roots.find(':', p);
        if (q == std::string::npos) q = roots.size();
        if (q > p) Roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB("/", flags);
    tooling::ClangTool Tool(DB, {file});
    Tool.clearArgumentsAdjusters();
    Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
