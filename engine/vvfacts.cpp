// vvfacts: clang front-end fact extractor.
//
// For one translation unit it prints (as one JSON document) the resolved
// program: every function defined in the analysed source roots (template
// instantiations included) as a table of AST nodes with resolved callees,
// declarations, types and constants, plus clang's CFG with implicit
// destructors, initialisers and temporaries; record layouts; enums; globals.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

class Extractor : public RecursiveASTVisitor<Extractor> {
    ASTContext &C;
    SourceManager &SM;
    std::unique_ptr<ASTNameGenerator> NG;
    PrintingPolicy PP;
    std::map<const Decl*, std::string> dkeys;
    std::map<std::string, int> keycnt;
    std::map<std::string, int> files;
    json::Array fileList;
    std::set<std::string> seenFn, seenRec;

public:
    json::Array functions, records, enums, globals;
    json::Object decls; // decl key -> info

    // per function
    std::map<const Stmt*, int> ids;
    json::Array *nodes = nullptr;
    json::Object *locals = nullptr;
    std::vector<const LambdaExpr*> pendingLambdas;

    Extractor(ASTContext &C): C(C), SM(C.getSourceManager()), NG(new ASTNameGenerator(C)), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.TerseOutput = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    int fileIdx(SourceLocation L) {
        std::string fn;
        if (L.isValid()) {
            PresumedLoc P = SM.getPresumedLoc(SM.getFileLoc(L));
            if (P.isValid()) fn = P.getFilename();
        }
        auto it = files.find(fn);
        if (it != files.end()) return it->second;
        int n = files.size();
        files[fn] = n; fileList.push_back(fn);
        return n;
    }
    int line(SourceLocation L) {
        if (L.isInvalid()) return 0;
        PresumedLoc P = SM.getPresumedLoc(SM.getFileLoc(L));
        return P.isValid() ? P.getLine() : 0;
    }
    std::string fileName(SourceLocation L) {
        if (L.isInvalid()) return "";
        PresumedLoc P = SM.getPresumedLoc(SM.getFileLoc(L));
        return P.isValid() ? P.getFilename() : "";
    }
    bool inRoots(SourceLocation L) {
        std::string f = fileName(L);
        for (auto &r: Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string type(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    // Qualified name without template arguments.
    std::string qname(const NamedDecl *D) {
        std::string s;
        const DeclContext *DC = D->getDeclContext();
        std::vector<std::string> parts;
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamedDecl>(DC)) {
                if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
                    if (!NS->isAnonymousNamespace() && !NS->isInline()) parts.push_back(NS->getNameAsString());
                } else if (isa<FunctionDecl>(DC)) {
                    parts.push_back(N->getNameAsString() + "()");
                } else if (!isa<LinkageSpecDecl>(DC)) {
                    parts.push_back(N->getNameAsString());
                }
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) s += *it + "::";
        return s + D->getNameAsString();
    }
    std::string fkey(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        auto it = dkeys.find(F);
        if (it != dkeys.end()) return it->second;
        std::string m;
        if (F->isTemplated()) m = "T:" + qname(F);
        else if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
            auto all = NG->getAllManglings(F);
            m = all.empty() ? qname(F) : all.back();
            for (auto &s: all) { // C1/D1 preferred
                if (s.find("C1E") != std::string::npos || s.find("D1E") != std::string::npos) m = s;
            }
        }
        else m = NG->getName(F);
        if (m.empty()) m = qname(F);
        // internal-linkage functions: make unique per file
        if (!F->isTemplated() && F->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(F))
            m = m + "@" + fileName(F->getLocation());
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
            if (MD->getParent()->isLambda()) {
                // members other than the call operator have keys of their own
                std::string sfx = isa<CXXConstructorDecl>(MD) ? ":ctor" + std::to_string((int)cast<CXXConstructorDecl>(MD)->isCopyConstructor()) :
                    isa<CXXDestructorDecl>(MD) ? ":dtor" : isa<CXXConversionDecl>(MD) ? ":conv" : MD->isStatic() ? ":inv" :
                    MD->getOverloadedOperator() == OO_Call ? "" : ":assign";
                m = "lambda@" + fileName(MD->getParent()->getLocation()) + ":" + std::to_string(SM.getFileOffset(SM.getFileLoc(MD->getParent()->getLocation()))) + sfx;
            }
        }
        dkeys[F] = m;
        if (!decls.get(m)) {
            json::Object o;
            o["q"] = qname(F);
            o["k"] = "fn";
            o["ret"] = type(F->getReturnType());
            json::Array ps;
            for (auto *P: F->parameters()) ps.push_back(type(P->getType()));
            o["params"] = std::move(ps);
            if (F->isVariadic()) o["variadic"] = true;
            if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
                o["cls"] = qname(MD->getParent());
                o["clsT"] = type(C.getRecordType(MD->getParent()));
                if (MD->isConst()) o["const"] = true;
                if (MD->isStatic()) o["static"] = true;
                if (MD->isVirtual()) o["virtual"] = true;
                if (isa<CXXConstructorDecl>(MD)) {
                    o["ctor"] = true;
                    if (cast<CXXConstructorDecl>(MD)->isCopyConstructor()) o["copyctor"] = true;
                    if (cast<CXXConstructorDecl>(MD)->isMoveConstructor()) o["movector"] = true;
                }
                if (isa<CXXDestructorDecl>(MD)) o["dtor"] = true;
                if (MD->isCopyAssignmentOperator()) o["copyassign"] = true;
                if (MD->isMoveAssignmentOperator()) o["moveassign"] = true;
            }
            if (F->isImplicit()) o["implicit"] = true;
            if (F->isDefaulted()) o["defaulted"] = true;
            if (F->isDeleted()) o["deleted"] = true;
            if (F->isNoReturn()) o["noreturn"] = true;
            if (const auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
                auto est = FPT->getExceptionSpecType();
                if (est != EST_Unevaluated && est != EST_Uninstantiated && est != EST_Unparsed && FPT->isNothrow()) o["nothrow"] = true;
            }
            if (F->hasAttr<NoThrowAttr>()) o["nothrow"] = true;
            if (F->isExternC()) o["externc"] = true;
            o["file"] = fileName(F->getLocation());
            if (F->getTemplateSpecializationArgs()) {
                json::Array ta;
                for (auto &A: F->getTemplateSpecializationArgs()->asArray()) {
                    std::string s; llvm::raw_string_ostream os(s);
                    if (A.getKind() == TemplateArgument::Type) os << type(A.getAsType());
                    else A.print(PP, os, true);
                    ta.push_back(os.str());
                }
                o["targs"] = std::move(ta);
            }
            decls[m] = std::move(o);
        }
        return m;
    }
    std::string vkey(const ValueDecl *V) {
        V = cast<ValueDecl>(V->getCanonicalDecl());
        auto it = dkeys.find(V);
        if (it != dkeys.end()) return it->second;
        std::string q, key;
        auto *VD = dyn_cast<VarDecl>(V);
        bool local = VD && VD->isLocalVarDeclOrParm() ;
        if (local || isa<BindingDecl>(V)) {
            q = V->getNameAsString();
            key = "l:" + q + ":" + std::to_string(keycnt["l:" + q]++);
        } else {
            q = qname(V);
            key = "g:" + q;
            if (VD && isa<ClassTemplateSpecializationDecl>(VD->getDeclContext())) {
                std::string n; llvm::raw_string_ostream os(n);
                VD->printQualifiedName(os, PP);
                key = "g:" + os.str();
            }
            if (VD && VD->getFormalLinkage() == Linkage::Internal) key += "@" + fileName(V->getLocation());
        }
        dkeys[V] = key;
        json::Object o;
        o["q"] = q;
        o["k"] = isa<ParmVarDecl>(V) ? "param" : local ? (VD->isStaticLocal() ? "static" : "local") : "global";
        o["type"] = type(V->getType());
        o["line"] = line(V->getLocation());
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (VD && VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (VD && VD->isExceptionVariable()) o["exc"] = true;
        if (auto *FD = dyn_cast<FieldDecl>(V)) { (void)FD; o["k"] = "field"; }
        decls[key] = std::move(o);
        return key;
    }

    json::Value calleeInfo(const FunctionDecl *F) { return fkey(F); }

    int add(const Stmt *S) {
        if (!S) return -1;
        auto it = ids.find(S);
        if (it != ids.end()) return it->second;
        int id = nodes->size();
        ids[S] = id;
        nodes->push_back(json::Object());
        json::Object o;
        o["k"] = S->getStmtClassName();
        o["l"] = line(S->getBeginLoc());
        o["f"] = fileIdx(S->getBeginLoc());
        bool kids = true;
        json::Array ch;
        if (auto *E = dyn_cast<Expr>(S)) {
            o["t"] = type(E->getType());
            if (E->isLValue()) o["lv"] = true;
            if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = std::string(s.str()); }
            }
            if (!E->isValueDependent() && E->getType()->isRealFloatingType() && E->isPRValue()) {
                llvm::APFloat V(0.0);
                if (E->EvaluateAsFloat(V, C)) { llvm::SmallString<32> s; V.toString(s); o["fv"] = std::string(s.str()); }
            }
        }
        if (auto *E = dyn_cast<DeclRefExpr>(S)) {
            const ValueDecl *D = E->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = fkey(F); }
            else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["enum"] = qname(EC);
                llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["cv"] = std::string(s.str());
            } else o["d"] = vkey(D);
            o["name"] = D->getNameAsString();
        } else if (auto *E = dyn_cast<MemberExpr>(S)) {
            const ValueDecl *D = E->getMemberDecl();
            o["m"] = D->getNameAsString();
            if (auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = fkey(F);
            else if (auto *FD = dyn_cast<FieldDecl>(D)) o["mc"] = qname(FD->getParent());
            else if (isa<VarDecl>(D)) o["d"] = vkey(D);
            o["arrow"] = E->isArrow();
        } else if (auto *E = dyn_cast<CallExpr>(S)) {
            if (const FunctionDecl *F = E->getDirectCallee()) o["callee"] = fkey(F);
            json::Array args;
            if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
                o["obj"] = add(M->getImplicitObjectArgument());
                o["call"] = "member";
                if (!E->getDirectCallee()) o["calleeExpr"] = add(E->getCallee());
            } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
                o["call"] = "op";
                o["op"] = getOperatorSpelling(OC->getOperator());
            } else {
                o["call"] = "plain";
                if (!E->getDirectCallee()) o["calleeExpr"] = add(E->getCallee());
            }
            for (auto *A: E->arguments()) args.push_back(add(A));
            o["args"] = std::move(args);
            ch.push_back(add(E->getCallee()));
        } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
            o["callee"] = fkey(E->getConstructor());
            o["call"] = "ctor";
            json::Array args;
            for (auto *A: E->arguments()) args.push_back(add(A));
            o["args"] = std::move(args);
            if (E->isElidable()) o["elidable"] = true;
            if (E->isListInitialization()) o["listinit"] = true;
            if (E->requiresZeroInitialization()) o["zeroinit"] = true;
        } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
            o["op"] = E->getOpcodeStr().str();
            if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = type(CA->getComputationResultType());
        } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
            o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
            o["post"] = E->isPostfix();
        } else if (auto *E = dyn_cast<StringLiteral>(S)) {
            if (E->getCharByteWidth() == 1) o["s"] = json::fixUTF8(E->getString());
        } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
            llvm::SmallString<32> s; E->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); o["v"] = std::string(s.str());
        } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
            llvm::SmallString<32> s; E->getValue().toString(s); o["v"] = std::string(s.str());
        } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
            o["v"] = std::to_string(E->getValue());
        } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
            o["v"] = E->getValue() ? "1" : "0";
        } else if (auto *E = dyn_cast<CastExpr>(S)) {
            o["cast"] = E->getCastKindName();
            if (auto *CC = E->getConversionFunction()) if (auto *F = dyn_cast<FunctionDecl>(CC)) o["conv"] = fkey(F);
        } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            o["trait"] = (int)E->getKind() == UETT_SizeOf ? "sizeof" : "other";
            o["argt"] = type(E->getTypeOfArgument());
            kids = false;
            if (!E->isArgumentType()) o["unev"] = add(E->getArgumentExpr());
        } else if (auto *E = dyn_cast<OffsetOfExpr>(S)) {
            std::string path;
            for (unsigned i = 0; i < E->getNumComponents(); i++) {
                auto &N = E->getComponent(i);
                if (N.getKind() == OffsetOfNode::Field) path += "." + N.getField()->getNameAsString();
            }
            o["path"] = path;
            o["argt"] = type(E->getTypeSourceInfo()->getType());
        } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
            kids = false;
            json::Array vs;
            for (auto *D: DS->decls()) {
                if (auto *V = dyn_cast<VarDecl>(D)) {
                    json::Object v;
                    v["d"] = vkey(V);
                    v["name"] = V->getNameAsString();
                    v["t"] = type(V->getType());
                    v["init"] = V->getInit() ? add(V->getInit()) : -1;
                    v["static"] = V->isStaticLocal();
                    switch (V->getInitStyle()) { case VarDecl::CInit: v["style"]="c"; break; case VarDecl::CallInit: v["style"]="call"; break; default: v["style"]="list"; }
                    if (V->getInit()) ch.push_back(add(V->getInit()));
                    if (V->getType()->isVariableArrayType()) {
                        auto *VA = C.getAsVariableArrayType(V->getType());
                        if (VA && VA->getSizeExpr()) v["vla"] = add(VA->getSizeExpr());
                    }
                    if (auto *CA = C.getAsConstantArrayType(V->getType())) v["asize"] = (int64_t)CA->getSize().getZExtValue();
                    vs.push_back(std::move(v));
                }
            }
            o["vars"] = std::move(vs);
        } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
            o["fn"] = fkey(E->getCallOperator());
            pendingLambdas.push_back(E);
            kids = false;
            json::Array caps;
            auto ci = E->capture_init_begin();
            for (auto it2 = E->capture_begin(); it2 != E->capture_end(); ++it2, ++ci) {
                json::Object c;
                if (it2->capturesVariable()) { c["d"] = vkey(cast<ValueDecl>(it2->getCapturedVar())); c["ref"] = it2->getCaptureKind() == LCK_ByRef; }
                else if (it2->capturesThis()) c["this"] = true;
                if (*ci) { int x = add(*ci); c["init"] = x; ch.push_back(x); }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
        } else if (auto *E = dyn_cast<InitListExpr>(S)) {
            if (E->isSemanticForm() == false && E->getSemanticForm()) E = E->getSemanticForm();
            kids = false;
            json::Array is;
            for (auto *I: E->inits()) { int x = add(I); is.push_back(x); ch.push_back(x); }
            o["inits"] = std::move(is);
            if (E->hasArrayFiller()) o["filler"] = add(E->getArrayFiller());
        } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
            kids = false;
            ch.push_back(add(E->getExpr()));
        } else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
            kids = false;
            if (E->getExpr()) ch.push_back(add(E->getExpr()));
        } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
            o["nt"] = type(E->getAllocatedType());
            o["arr"] = E->isArray();
            o["pl"] = (int)E->getNumPlacementArgs();
            if (E->getConstructExpr()) o["ctor"] = add(E->getConstructExpr());
            if (E->isArray() && E->getArraySize()) o["size"] = add(*E->getArraySize());
        } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
            o["arr"] = E->isArrayForm();
            o["dt"] = type(E->getDestroyedType());
            if (auto *RD = E->getDestroyedType().isNull() ? nullptr : E->getDestroyedType()->getAsCXXRecordDecl())
                if (RD->hasDefinition() && RD->getDestructor()) o["dtor"] = fkey(RD->getDestructor());
        } else if (auto *E = dyn_cast<CXXCatchStmt>(S)) {
            o["ct"] = E->getCaughtType().isNull() ? "..." : type(E->getCaughtType());
            if (E->getExceptionDecl()) o["d"] = vkey(E->getExceptionDecl());
        } else if (auto *CS = dyn_cast<CaseStmt>(S)) {
            Expr::EvalResult R;
            if (!CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = std::string(s.str()); }
        } else if (auto *A = dyn_cast<AttributedStmt>(S)) {
            (void)A;
        } else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) {
            kids = false;
            if (E->getSourceExpr()) ch.push_back(add(E->getSourceExpr()));
        } else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) {
            if (E->getExtendingDecl()) o["ext"] = vkey(E->getExtendingDecl());
        } else if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
            json::Array cl;
            for (auto *CL: D->clauses()) {
                if (!CL || CL->isImplicit()) continue;
                std::string s; llvm::raw_string_ostream os(s);
                OMPClausePrinter pr(os, C.getPrintingPolicy());
                pr.Visit(const_cast<OMPClause*>(CL));
                cl.push_back(os.str());
            }
            o["clauses"] = std::move(cl);
            kids = false;
            if (D->hasAssociatedStmt()) { int x = add(D->getRawStmt()); o["body"] = x; ch.push_back(x); }
        } else if (auto *LS = dyn_cast<LabelStmt>(S)) {
            o["name"] = LS->getDecl()->getNameAsString();
        } else if (auto *GS = dyn_cast<GotoStmt>(S)) {
            o["name"] = GS->getLabel()->getNameAsString();
        }
        if (auto *IS = dyn_cast<IfStmt>(S)) {
            o["cond"] = add(IS->getCond()); o["then"] = add(IS->getThen()); if (IS->getElse()) o["else"] = add(IS->getElse());
        } else if (auto *FS = dyn_cast<ForStmt>(S)) {
            if (FS->getInit()) o["init"] = add(FS->getInit());
            if (FS->getCond()) o["cond"] = add(FS->getCond());
            if (FS->getInc()) o["inc"] = add(FS->getInc());
            o["body"] = add(FS->getBody());
        } else if (auto *WS = dyn_cast<WhileStmt>(S)) {
            o["cond"] = add(WS->getCond()); o["body"] = add(WS->getBody());
        } else if (auto *DoS = dyn_cast<DoStmt>(S)) {
            o["cond"] = add(DoS->getCond()); o["body"] = add(DoS->getBody());
        } else if (auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
            o["range"] = add(RF->getRangeInit());
            o["loopvar"] = vkey(RF->getLoopVariable());
            o["body"] = add(RF->getBody());
        } else if (auto *SS = dyn_cast<SwitchStmt>(S)) {
            o["cond"] = add(SS->getCond()); o["body"] = add(SS->getBody());
            o["allEnum"] = SS->isAllEnumCasesCovered();
        }
        if (kids) for (const Stmt *K: S->children()) if (K) ch.push_back(add(K));
        if (auto *CO = dyn_cast<ConditionalOperator>(S)) { (void)CO; }
        o["c"] = std::move(ch);
        (*nodes)[id] = std::move(o);
        return id;
    }

    void emitFunction(const FunctionDecl *F) {
        const Stmt *Body = F->getBody();
        if (!Body) return;
        std::string key = fkey(F);
        if (!seenFn.insert(key).second) return;
        auto saveIds = std::move(ids); ids.clear();
        auto *saveNodes = nodes;
        json::Array N; nodes = &N;
        json::Object o;
        o["key"] = key;
        o["q"] = qname(F);
        o["file"] = fileName(F->getLocation());
        o["line"] = line(F->getLocation());
        o["endline"] = line(F->getBodyRBrace().isValid() ? F->getBodyRBrace() : F->getEndLoc());
        o["ret"] = type(F->getReturnType());
        json::Array ps;
        for (auto *P: F->parameters()) {
            json::Object p; p["d"] = vkey(P); p["name"] = P->getNameAsString(); p["t"] = type(P->getType());
            if (P->getType()->isReferenceType()) p["ref"] = true;
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (F->isStatic()) o["isstatic"] = true;
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(MD->getParent());
            if (MD->isStatic()) o["static"] = true;
            if (MD->isConst()) o["const"] = true;
        }
        json::Array inits;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            for (auto *I: CD->inits()) {
                json::Object x;
                if (I->isAnyMemberInitializer()) x["field"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer()) x["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) x["delegating"] = true;
                x["written"] = I->isWritten();
                x["init"] = add(I->getInit());
                inits.push_back(std::move(x));
            }
        }
        o["ctorinits"] = std::move(inits);
        o["body"] = add(Body);
        // CFG
        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true;
        BO.AddTemporaryDtors = true;
        BO.AddInitializers = true;
        BO.AddEHEdges = false;
        BO.AddCXXNewAllocator = false;
        BO.PruneTriviallyFalseEdges = false;
        BO.setAllAlwaysAdd();
        std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt*>(Body), &C, BO);
        if (G) {
            json::Array blocks;
            for (const CFGBlock *B: *G) {
                json::Object b;
                b["id"] = (int)B->getBlockID();
                json::Array el;
                for (const CFGElement &E: *B) {
                    json::Array e;
                    if (auto S = E.getAs<CFGStmt>()) { e.push_back("s"); e.push_back(add(S->getStmt())); }
                    else if (auto I = E.getAs<CFGInitializer>()) {
                        auto *CI = I->getInitializer();
                        e.push_back("i");
                        e.push_back(add(CI->getInit()));
                        if (CI->isAnyMemberInitializer()) e.push_back(CI->getAnyMember()->getNameAsString());
                        else e.push_back("");
                    }
                    else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
                        e.push_back("ad"); e.push_back(vkey(D->getVarDecl())); e.push_back(type(D->getVarDecl()->getType()));
                        const CXXDestructorDecl *DD = D->getDestructorDecl(C);
                        e.push_back(DD ? fkey(DD) : ""); e.push_back(line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation()));
                    }
                    else if (auto D = E.getAs<CFGTemporaryDtor>()) {
                        e.push_back("td"); e.push_back(add(D->getBindTemporaryExpr())); e.push_back(type(D->getBindTemporaryExpr()->getType()));
                        const CXXDestructorDecl *DD = D->getDestructorDecl(C);
                        e.push_back(DD ? fkey(DD) : "");
                    }
                    else if (auto D = E.getAs<CFGDeleteDtor>()) { e.push_back("dd"); e.push_back(add(D->getDeleteExpr())); }
                    else if (auto D = E.getAs<CFGBaseDtor>()) { (void)D; e.push_back("bd"); }
                    else if (auto D = E.getAs<CFGMemberDtor>()) { e.push_back("md"); e.push_back(D->getFieldDecl()->getNameAsString()); }
                    else { e.push_back("x"); }
                    el.push_back(std::move(e));
                }
                b["e"] = std::move(el);
                if (const Stmt *T = B->getTerminatorStmt()) {
                    b["term"] = add(T);
                    if (const Stmt *TC = B->getTerminatorCondition()) b["cond"] = add(TC);
                    if (const Expr *LC = B->getLastCondition()) b["lastcond"] = add(LC);
                    if (B->getTerminator().isTemporaryDtorsBranch()) b["tdb"] = true;
                }
                if (const Stmt *L = B->getLabel()) b["label"] = add(L);
                if (B->hasNoReturnElement()) b["noret"] = true;
                json::Array su;
                for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
                    const CFGBlock *T = it->getReachableBlock();
                    if (!T) T = it->getPossiblyUnreachableBlock();
                    su.push_back(T ? (int)T->getBlockID() : -1);
                }
                b["s"] = std::move(su);
                blocks.push_back(std::move(b));
            }
            o["entry"] = (int)G->getEntry().getBlockID();
            o["exit"] = (int)G->getExit().getBlockID();
            o["blocks"] = std::move(blocks);
        }
        o["nodes"] = std::move(N);
        functions.push_back(std::move(o));
        nodes = saveNodes;
        ids = std::move(saveIds);
        auto pl = std::move(pendingLambdas); pendingLambdas.clear();
        for (auto *L: pl) emitFunction(L->getCallOperator());
    }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isDeleted()) return true;
        if (!inRoots(F->getLocation())) return true;
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (MD->getParent()->isLambda()) return true;
        emitFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!inRoots(R->getLocation())) return true;
        if (R->isInvalidDecl()) return true;
        std::string q = qname(R);
        if (!seenRec.insert(q).second) return true;
        json::Object o;
        o["q"] = q;
        o["file"] = fileName(R->getLocation()); o["line"] = line(R->getLocation());
        const ASTRecordLayout &L = C.getASTRecordLayout(R);
        o["size"] = (int64_t)L.getSize().getQuantity();
        json::Array bases, fields, methods;
        for (auto &B: R->bases()) { 
            json::Object b; b["t"] = type(B.getType());
            if (auto *BR = B.getType()->getAsCXXRecordDecl()) b["offset"] = (int64_t)L.getBaseClassOffset(BR).getQuantity();
            bases.push_back(std::move(b)); }
        unsigned i = 0;
        for (auto *F: R->fields()) {
            json::Object f;
            f["name"] = F->getNameAsString(); f["t"] = type(F->getType());
            f["offset"] = (int64_t)(L.getFieldOffset(i++) / 8);
            f["size"] = (int64_t)C.getTypeSizeInChars(F->getType()).getQuantity();
            f["hasinit"] = F->hasInClassInitializer();
            f["mutable"] = F->isMutable();
            f["const"] = F->getType().isConstQualified();
            f["access"] = (int)F->getAccess();
            f["line"] = line(F->getLocation());
            fields.push_back(std::move(f));
        }
        for (auto *M: R->methods()) {
            json::Object m;
            m["key"] = fkey(M); m["name"] = M->getNameAsString();
            m["implicit"] = M->isImplicit(); m["deleted"] = M->isDeleted(); m["defaulted"] = M->isDefaulted(); m["access"] = (int)M->getAccess();
            methods.push_back(std::move(m));
        }
        o["bases"] = std::move(bases); o["fields"] = std::move(fields); o["methods"] = std::move(methods);
        o["implicitCopyAssign"] = R->hasSimpleCopyAssignment() || R->needsImplicitCopyAssignment();
        o["userCopyAssign"] = R->hasUserDeclaredCopyAssignment();
        o["userCopyCtor"] = R->hasUserDeclaredCopyConstructor();
        o["trivialCopy"] = R->isTriviallyCopyable();
        records.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || !inRoots(E->getLocation())) return true;
        json::Object o; o["q"] = qname(E); json::Array cs;
        o["file"] = fileName(E->getLocation()); o["line"] = line(E->getLocation());
        for (auto *D: E->enumerators()) { json::Object c; c["name"] = D->getNameAsString(); llvm::SmallString<32> s; D->getInitVal().toString(s, 10); c["v"] = std::string(s.str()); cs.push_back(std::move(c)); }
        o["consts"] = std::move(cs);
        o["t"] = type(E->getIntegerType());
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->isLocalVarDeclOrParm() || !inRoots(V->getLocation())) return true;
        if (V->getDeclContext()->isDependentContext()) return true;
        if (!V->isThisDeclarationADefinition()) return true;
        json::Object o;
        o["key"] = vkey(V); o["q"] = qname(V); o["t"] = type(V->getType());
        o["file"] = fileName(V->getLocation()); o["line"] = line(V->getLocation());
        if (V->getType().isConstQualified()) o["const"] = true;
        auto saveIds = std::move(ids); ids.clear();
        auto *saveNodes = nodes; json::Array N; nodes = &N;
        o["init"] = V->getInit() ? add(V->getInit()) : -1;
        o["nodes"] = std::move(N);
        nodes = saveNodes; ids = std::move(saveIds);
        auto pl = std::move(pendingLambdas); pendingLambdas.clear();
        globals.push_back(std::move(o));
        for (auto *L: pl) emitFunction(L->getCallOperator());
        return true;
    }
    json::Array takeFiles() { return std::move(fileList); }
};

struct Consumer : ASTConsumer {
    std::string in;
    bool *ok;
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) { return; }
        Extractor X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(X.functions);
        o["records"] = std::move(X.records);
        o["enums"] = std::move(X.enums);
        o["globals"] = std::move(X.globals);
        o["decls"] = std::move(X.decls);
        o["files"] = X.takeFiles();
        llvm::outs() << json::Value(std::move(o)) << "\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
        return std::make_unique<Consumer>();
    }
};
struct Factory : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: vvfacts ROOT[,ROOT...] FILE -- flags...
int main(int argc, const char **argv) {
    if (argc < 4) return 2;
    std::string r = argv[1];
    size_t p = 0;
    while (p <= r.size()) { size_t q = r.find(',', p); if (q == std::string::npos) q = r.size(); Roots.push_back(r.substr(p, q-p)); p = q+1; }
    std::string file = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    // VVFACTS_ALT: file whose content stands for FILE (see prog.py: variable-length
    // array initialisers, a g++ extension that clang 18 rejects, are blanked there)
    std::string alt;
    if (const char *a = getenv("VVFACTS_ALT")) {
        auto B = llvm::MemoryBuffer::getFile(a);
        if (!B) return 2;
        alt = (*B)->getBuffer().str();
        T.mapVirtualFile(file, alt);
    }
    Factory F;
    return T.run(&F);
}
