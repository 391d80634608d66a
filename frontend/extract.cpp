// Mechanical extraction of the executable code of a translation unit (as clang's typed AST) into JSON lines.
// Every function defined in a file below the given root (and every instantiation of its templates) is written out;
// nothing is paraphrased: the verification-condition generator executes exactly the statements found here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string ROOT;
static std::string TUNAME;
static llvm::raw_fd_ostream* OUT;

class Emitter : public RecursiveASTVisitor<Emitter> {
public:
    ASTContext& C; const SourceManager& SM; PrintingPolicy PP; std::unique_ptr<ASTNameGenerator> NG;
    std::set<std::string> doneFn, doneTy, doneRec, doneGlob;
    std::map<const Decl*, int> locals;
    Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = false;
        PP.AnonymousTagLocations = true;
        NG.reset(new ASTNameGenerator(c));
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L) { L = SM.getExpansionLoc(L); auto f = SM.getFilename(L); return f.str(); }
    bool inRoot(const Decl* D) { auto f = fileOf(D->getLocation()); return f.compare(0, ROOT.size(), ROOT) == 0; }
    unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

    std::string qname(const NamedDecl* D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
    std::string fid(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        std::string n;
        if (auto* M = dyn_cast<CXXConstructorDecl>(F)) { (void)M; }
        n = NG->getName(F);
        if (n.empty()) n = qname(F);
        if (F->getFormalLinkage() == Linkage::Internal || !F->hasExternalFormalLinkage()) n = TUNAME + "|" + n;
        return n;
    }
    std::string ty(QualType T) {
        T = T.getCanonicalType().getUnqualifiedType();
        const Type* t = T.getTypePtr();
        std::string key;
        if (auto* P = dyn_cast<PointerType>(t)) {
            if (P->getPointeeType()->isFunctionType()) { key = T.getAsString(PP); reg(key, json::Object{{"k","fnptr"}}); return key; }
            std::string in = ty(P->getPointeeType()); key = in + " *"; reg(key, json::Object{{"k","p"},{"t",in}}); return key; }
        if (auto* P = dyn_cast<LValueReferenceType>(t)) { std::string in = ty(P->getPointeeType()); key = in + " &"; reg(key, json::Object{{"k","r"},{"t",in}}); return key; }
        if (auto* P = dyn_cast<RValueReferenceType>(t)) { std::string in = ty(P->getPointeeType()); key = in + " &&"; reg(key, json::Object{{"k","rr"},{"t",in}}); return key; }
        if (isa<ArrayType>(t)) { std::string in = ty(cast<ArrayType>(t)->getElementType()); key = in + " []"; int n=-1; if (auto* ca = dyn_cast<ConstantArrayType>(t)) n = ca->getSize().getZExtValue(); reg(key, json::Object{{"k","arr"},{"t",in}}); (void)n; return key; }
        if (auto* E = dyn_cast<EnumType>(t)) {
            key = T.getAsString(PP);
            if (doneTy.insert(key).second) {
                json::Array vals; auto* D = E->getDecl()->getDefinition();
                if (D) for (auto* c : D->enumerators()) vals.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()});
                put(json::Object{{"o","type"},{"key",key},{"k","enum"},{"vals",std::move(vals)},{"repo",D && inRoot(D)}});
            }
            return key;
        }
        if (auto* R = dyn_cast<RecordType>(t)) {
            auto* D = dyn_cast<CXXRecordDecl>(R->getDecl());
            key = T.getAsString(PP);
            if (D && D->isLambda()) { key = "lambda@" + std::to_string(lineOf(D->getLocation())) + "_" + std::to_string(SM.getExpansionColumnNumber(D->getLocation())) + "@" + fileOf(D->getLocation()); }
            if (!doneTy.insert(key).second) return key;
            json::Array args; std::string tn = D ? qname(D) : key;
            if (D) if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
                tn = qname(S->getSpecializedTemplate());
                auto add = [&](const TemplateArgument& A, auto& self) -> void {
                    if (A.getKind() == TemplateArgument::Type) args.push_back(ty(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Integral) args.push_back(A.getAsIntegral().getExtValue());
                    else if (A.getKind() == TemplateArgument::Pack) { for (auto& x : A.pack_elements()) self(x, self); }
                    else args.push_back("?");
                };
                for (auto& A : S->getTemplateArgs().asArray()) add(A, add);
            }
            bool repo = D && inRoot(D);
            put(json::Object{{"o","type"},{"key",key},{"k", D && D->isLambda() ? "lambda" : "rec"},{"n",tn},{"a",std::move(args)},{"repo",repo}});
            if (repo && D && !D->isLambda()) record(D, key);
            return key;
        }
        if (isa<BuiltinType>(t)) { key = T.getAsString(PP); reg(key, json::Object{{"k","b"}}); return key; }
        if (isa<FunctionProtoType>(t)) { key = T.getAsString(PP); reg(key, json::Object{{"k","fn"}}); return key; }
        if (auto* MP = dyn_cast<MemberPointerType>(t)) { (void)MP; key = T.getAsString(PP); reg(key, json::Object{{"k","memptr"}}); return key; }
        key = T.getAsString(PP); reg(key, json::Object{{"k","other"}}); return key;
    }
    void reg(const std::string& key, json::Object o) { if (doneTy.insert(key).second) { o["o"]="type"; o["key"]=key; put(std::move(o)); } }
    void put(json::Object o) {
        std::string kind = o.getString("o")->str(); std::string key;
        if (kind == "fn") { auto* f = o.getObject("f"); key = f->getString("id")->str() + "\t" + f->getString("q")->str(); }
        else if (kind == "glob") key = o.getString("n")->str() + "\t";
        else key = o.getString("key")->str() + "\t";
        *OUT << kind << "\t" << key << "\t" << json::Value(std::move(o)) << "\n"; }

    void record(const CXXRecordDecl* D0, const std::string& key) {
        auto* D = D0->getDefinition(); if (!D || D->isDependentType()) return;
        if (!doneRec.insert(key).second) return;
        json::Array fields, bases, methods;
        for (auto& b : D->bases()) bases.push_back(json::Array{ty(b.getType()), b.isVirtual()});
        for (auto* f : D->fields()) {
            json::Object fo{{"n",f->getNameAsString()},{"t",ty(f->getType())},{"mut",f->isMutable()}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) { fo["init"] = expr(f->getInClassInitializer()); }
            fields.push_back(std::move(fo));
        }
        for (auto* m : D->methods()) {
            if (m->isDependentContext()) continue;
            json::Array ov; for (auto* o : m->overridden_methods()) ov.push_back(fid(o));
            std::string acc = m->getAccess()==AS_public?"public":m->getAccess()==AS_protected?"protected":"private";
            json::Array ps; for (auto* p : m->parameters()) ps.push_back(json::Array{p->getNameAsString(), ty(p->getType())});
            methods.push_back(json::Object{{"id",fid(m)},{"n",m->getNameAsString()},{"virt",m->isVirtual()},{"pure",m->isPureVirtual()},{"const",m->isConst()},{"static",m->isStatic()},{"acc",acc},{"ps",std::move(ps)},{"ret",ty(m->getReturnType())},{"ov",std::move(ov)},{"implicit",m->isImplicit()},{"del",m->isDeleted()},{"dtor",isa<CXXDestructorDecl>(m)},{"ctor",isa<CXXConstructorDecl>(m)}});
        }
        put(json::Object{{"o","rec"},{"key",key},{"fields",std::move(fields)},{"bases",std::move(bases)},{"methods",std::move(methods)},{"poly",D->isPolymorphic()},{"abstract",D->isAbstract()},{"file",fileOf(D->getLocation())}});
    }
    int lid(const Decl* D) { auto it = locals.find(D); if (it != locals.end()) return it->second; int n = locals.size()+1; locals[D]=n; return n; }

    json::Value none() { return json::Value(nullptr); }
    json::Value varref(const ValueDecl* D) {
        if (auto* V = dyn_cast<VarDecl>(D)) {
            if (V->hasGlobalStorage()) { global(V); return json::Object{{"e","glob"},{"n",globName(V)},{"t",ty(V->getType())}}; }
            return json::Object{{"e","var"},{"id",lid(V)},{"n",V->getNameAsString()},{"t",ty(V->getType())}};
        }
        if (auto* E = dyn_cast<EnumConstantDecl>(D)) return json::Object{{"e","enumc"},{"n",qname(E)},{"v",E->getInitVal().getExtValue()},{"t",ty(E->getType())}};
        if (auto* F = dyn_cast<FunctionDecl>(D)) return json::Object{{"e","fn"},{"f",callee(F)}};
        if (auto* F = dyn_cast<FieldDecl>(D)) return json::Object{{"e","fieldref"},{"n",F->getNameAsString()}};
        return json::Object{{"e","unk"},{"k","declref"},{"n",D->getNameAsString()}};
    }
    std::string globName(const VarDecl* V) { std::string n = qname(V); if (V->isStaticLocal()) n = "static|" + std::to_string(lineOf(V->getLocation())) + "|" + n; if (V->getFormalLinkage() != Linkage::External || V->isStaticLocal()) n = TUNAME + "|" + n;
        if (isa<VarTemplateSpecializationDecl>(V) || (V->isStaticDataMember() && isa<ClassTemplateSpecializationDecl>(V->getDeclContext()))) n += "|" + ty(C.getTypeDeclType(cast<TypeDecl>(V->getDeclContext())));
        if (V->isStaticLocal()) if (auto* F = dyn_cast<FunctionDecl>(V->getDeclContext())) n += "|" + fid(F);
        return n; }
    void global(const VarDecl* V0) {
        const VarDecl* V = V0; const VarDecl* def = nullptr; const Expr* init = V->getAnyInitializer(def);
        std::string n = globName(V0);
        if (!inRoot(V0)) return;
        if (!doneGlob.insert(n).second) return;
        json::Object o{{"o","glob"},{"n",n},{"t",ty(V->getType())},{"const",V->getType().isConstQualified() || V->isConstexpr()}};
        if (init && !init->isTypeDependent() && !init->isValueDependent()) o["init"] = expr(init);
        put(std::move(o));
    }
    json::Value callee(const FunctionDecl* F) {
        json::Object o{{"id",fid(F)},{"n",F->getNameAsString()},{"q",qname(F)},{"ret",ty(F->getReturnType())}};
        const FunctionDecl* def = nullptr;
        bool repo = inRoot(F);
        o["repo"] = repo;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = ty(C.getTypeDeclType(M->getParent())); o["static"] = M->isStatic(); o["virt"] = M->isVirtual();
            if (isa<CXXConversionDecl>(M)) o["conv"] = true;
            if (auto* CC = dyn_cast<CXXConstructorDecl>(M)) { o["ctor"] = true; o["copy"] = CC->isCopyConstructor(); o["move"] = CC->isMoveConstructor(); o["def"] = CC->isDefaulted(); }
            else { o["copyasg"] = M->isCopyAssignmentOperator(); o["moveasg"] = M->isMoveAssignmentOperator(); o["def"] = M->isDefaulted(); }
        }
        (void)def;
        json::Array ps; for (auto* p : F->parameters()) ps.push_back(ty(p->getType())); o["ps"] = std::move(ps);
        if (auto* TA = F->getTemplateSpecializationArgs()) { json::Array ta; 
            auto add = [&](const TemplateArgument& A, auto& self) -> void {
                if (A.getKind() == TemplateArgument::Type) ta.push_back(ty(A.getAsType()));
                else if (A.getKind() == TemplateArgument::Integral) ta.push_back(A.getAsIntegral().getExtValue());
                else if (A.getKind() == TemplateArgument::Pack) { for (auto& x : A.pack_elements()) self(x, self); }
                else ta.push_back("?");
            };
            for (auto& A : TA->asArray()) add(A, add); o["ta"] = std::move(ta); }
        return o;
    }
    json::Array exprs(llvm::ArrayRef<const Expr*> v) { json::Array a; for (auto* e : v) a.push_back(expr(e)); return a; }

    json::Value expr(const Expr* E) {
        if (!E) return none();
        switch (E->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
        case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
        default: break;
        }
        json::Object o; o["t"] = ty(E->getType()); o["l"] = (int64_t)lineOf(E->getBeginLoc());
        if (E->isLValue()) o["lv"] = 1; else if (E->isXValue()) o["lv"] = 2;
        switch (E->getStmtClass()) {
        case Stmt::MaterializeTemporaryExprClass: o["e"]="mat"; o["x"]=expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); break;
        case Stmt::IntegerLiteralClass: { o["e"]="int"; llvm::SmallString<32> s; cast<IntegerLiteral>(E)->getValue().toString(s,10,E->getType()->isSignedIntegerType()); o["v"]=s.str().str(); break; }
        case Stmt::FloatingLiteralClass: { o["e"]="flt"; auto v = cast<FloatingLiteral>(E)->getValue(); llvm::SmallString<32> s; v.toString(s, 17); o["v"]=s.str().str(); break; }
        case Stmt::CharacterLiteralClass: o["e"]="int"; o["v"]=std::to_string(cast<CharacterLiteral>(E)->getValue()); break;
        case Stmt::CXXBoolLiteralExprClass: o["e"]="bool"; o["v"]=cast<CXXBoolLiteralExpr>(E)->getValue(); break;
        case Stmt::StringLiteralClass: { o["e"]="str"; std::string b = cast<StringLiteral>(E)->getBytes().str(); if (!json::isUTF8(b)) b = json::fixUTF8(b); o["v"]=b; break; }
        case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["e"]="null"; break;
        case Stmt::CXXThisExprClass: o["e"]="this"; break;
        case Stmt::DeclRefExprClass: { auto v = varref(cast<DeclRefExpr>(E)->getDecl()); auto* vo = v.getAsObject(); (*vo)["t"] = ty(E->getType()); (*vo)["l"] = (int64_t)lineOf(E->getBeginLoc()); (*vo)["dt"] = ty(cast<DeclRefExpr>(E)->getDecl()->getType()); return v; }
        case Stmt::MemberExprClass: {
            auto* M = cast<MemberExpr>(E);
            if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["e"]="mem"; o["n"]=F->getNameAsString(); o["cls"]=ty(C.getTypeDeclType(F->getParent())); o["arrow"]=M->isArrow(); o["x"]=expr(M->getBase()); o["ft"]=ty(F->getType()); }
            else if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) { return varref(V); }
            else if (auto* F = dyn_cast<FunctionDecl>(M->getMemberDecl())) { o["e"]="memfn"; o["f"]=callee(F); o["arrow"]=M->isArrow(); o["x"]=expr(M->getBase()); }
            else { return varref(M->getMemberDecl()); }
            break; }
        case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
            auto* X = cast<CastExpr>(E);
            o["e"]="cast"; o["ck"]=X->getCastKindName(); o["x"]=expr(X->getSubExpr()); if (isa<CXXDynamicCastExpr>(E)) o["dyn"]=1;
            break; }
        case Stmt::UnaryOperatorClass: { auto* U = cast<UnaryOperator>(E); o["e"]="un"; o["op"]=UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"]=U->isPostfix(); o["x"]=expr(U->getSubExpr()); break; }
        case Stmt::BinaryOperatorClass: { auto* B = cast<BinaryOperator>(E); o["e"]="bin"; o["op"]=B->getOpcodeStr().str(); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); break; }
        case Stmt::CompoundAssignOperatorClass: { auto* B = cast<CompoundAssignOperator>(E); o["e"]="casg"; o["op"]=B->getOpcodeStr().str(); o["a"]=expr(B->getLHS()); o["b"]=expr(B->getRHS()); o["ct"]=ty(B->getComputationResultType()); break; }
        case Stmt::ConditionalOperatorClass: { auto* Q = cast<ConditionalOperator>(E); o["e"]="cond"; o["c"]=expr(Q->getCond()); o["a"]=expr(Q->getTrueExpr()); o["b"]=expr(Q->getFalseExpr()); break; }
        case Stmt::ArraySubscriptExprClass: { auto* A = cast<ArraySubscriptExpr>(E); o["e"]="idx"; o["a"]=expr(A->getBase()); o["b"]=expr(A->getIdx()); break; }
        case Stmt::CXXOperatorCallExprClass: { auto* K = cast<CXXOperatorCallExpr>(E); o["e"]="call"; o["opcall"]=1;
            if (auto* F = K->getDirectCallee()) { o["f"]=callee(F); bool mem = isa<CXXMethodDecl>(F); json::Array a; for (unsigned i=0;i<K->getNumArgs();++i) a.push_back(expr(K->getArg(i))); 
                if (mem) { o["obj"]=std::move(a[0]); json::Array b; for (unsigned i=1;i<a.size();++i) b.push_back(std::move(a[i])); o["args"]=std::move(b); } else o["args"]=std::move(a); }
            else { o["fx"]=expr(K->getCallee()); }
            break; }
        case Stmt::CXXMemberCallExprClass: { auto* K = cast<CXXMemberCallExpr>(E); o["e"]="call";
            auto* F = K->getMethodDecl(); 
            if (F) { o["f"]=callee(F); if (auto* ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens())) { o["obj"]=expr(ME->getBase()); o["arrow"]=ME->isArrow(); o["qual"]=ME->hasQualifier(); } }
            else o["fx"]=expr(K->getCallee());
            json::Array a; for (unsigned i=0;i<K->getNumArgs();++i) a.push_back(expr(K->getArg(i))); o["args"]=std::move(a); break; }
        case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: { auto* K = cast<CallExpr>(E); o["e"]="call"; 
            if (auto* F = K->getDirectCallee()) o["f"]=callee(F); else o["fx"]=expr(K->getCallee());
            json::Array a; for (unsigned i=0;i<K->getNumArgs();++i) a.push_back(expr(K->getArg(i))); o["args"]=std::move(a); break; }
        case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto* K = cast<CXXConstructExpr>(E); o["e"]="ctor"; o["f"]=callee(K->getConstructor()); o["elid"]=K->isElidable(); o["list"]=K->isListInitialization(); o["stdinit"]=K->isStdInitListInitialization(); o["zero"]=K->requiresZeroInitialization(); json::Array a; for (unsigned i=0;i<K->getNumArgs();++i) a.push_back(expr(K->getArg(i))); o["args"]=std::move(a); break; }
        case Stmt::CXXInheritedCtorInitExprClass: { auto* K = cast<CXXInheritedCtorInitExpr>(E); o["e"]="inhctor"; o["f"]=callee(K->getConstructor()); break; }
        case Stmt::CXXNewExprClass: { auto* K = cast<CXXNewExpr>(E); o["e"]="new"; o["at"]=ty(K->getAllocatedType()); o["x"]=expr(K->getInitializer()); break; }
        case Stmt::CXXDeleteExprClass: o["e"]="delete"; o["x"]=expr(cast<CXXDeleteExpr>(E)->getArgument()); break;
        case Stmt::CXXThrowExprClass: o["e"]="throw"; o["x"]=expr(cast<CXXThrowExpr>(E)->getSubExpr()); break;
        case Stmt::InitListExprClass: { auto* I = cast<InitListExpr>(E); if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm(); o["e"]="ilist"; json::Array a; for (unsigned i=0;i<I->getNumInits();++i) a.push_back(expr(I->getInit(i))); o["args"]=std::move(a); break; }
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["e"]="zero"; break;
        case Stmt::CXXTypeidExprClass: { auto* K = cast<CXXTypeidExpr>(E); o["e"]="typeid"; if (K->isTypeOperand()) o["tt"]=ty(K->getTypeOperand(C)); else o["x"]=expr(K->getExprOperand()); break; }
        case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { o["e"]="int"; o["v"]=std::to_string(R.Val.getInt().getExtValue()); } else o["e"]="unk"; break; }
        case Stmt::SizeOfPackExprClass: o["e"]="int"; o["v"]=std::to_string(cast<SizeOfPackExpr>(E)->getPackLength()); break;
        case Stmt::CXXNoexceptExprClass: o["e"]="bool"; o["v"]=cast<CXXNoexceptExpr>(E)->getValue(); break;
        case Stmt::PredefinedExprClass: o["e"]="str"; o["v"]="__func__"; break;
        case Stmt::LambdaExprClass: {
            auto* L = cast<LambdaExpr>(E); o["e"]="lambda";
            json::Array caps; auto ci = L->capture_init_begin();
            for (auto& c : L->captures()) { json::Object co;
                if (c.capturesThis()) co["k"]="this"; else if (c.capturesVariable()) { co["k"]= c.getCaptureKind()==LCK_ByRef ? "ref":"copy"; co["id"]=lid(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["vt"]=ty(cast<VarDecl>(c.getCapturedVar())->getType()); } else co["k"]="?";
                ++ci; caps.push_back(std::move(co)); }
            auto* M = L->getCallOperator(); json::Array ps; for (auto* p : M->parameters()) ps.push_back(json::Object{{"id",lid(p)},{"n",p->getNameAsString()},{"t",ty(p->getType())}});
            o["caps"]=std::move(caps); o["ps"]=std::move(ps); o["ret"]=ty(M->getReturnType()); if (!M->isDependentContext()) o["body"]=stmt(L->getBody()); break; }
        default: o["e"]="unk"; o["k"]=E->getStmtClassName(); break;
        }
        return o;
    }
    json::Value vardecl(const VarDecl* V) {
        json::Object o{{"id",lid(V)},{"n",V->getNameAsString()},{"t",ty(V->getType())}};
        if (V->isStaticLocal()) { global(V); o["static"]=globName(V); }
        else if (V->hasInit()) o["init"]=expr(V->getInit());
        return o;
    }
    json::Value stmt(const Stmt* S) {
        if (!S) return none();
        if (auto* E = dyn_cast<Expr>(S)) { return json::Object{{"s","expr"},{"x",expr(E)},{"l",(int64_t)lineOf(E->getBeginLoc())}}; }
        json::Object o; o["l"]=(int64_t)lineOf(S->getBeginLoc());
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: { o["s"]="block"; json::Array a; for (auto* c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c)); o["b"]=std::move(a); break; }
        case Stmt::DeclStmtClass: { o["s"]="decl"; json::Array a; for (auto* d : cast<DeclStmt>(S)->decls()) if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V)); o["d"]=std::move(a); break; }
        case Stmt::IfStmtClass: { auto* I = cast<IfStmt>(S); o["s"]="if"; if (I->getConditionVariable()) o["cv"]=vardecl(I->getConditionVariable()); o["c"]=expr(I->getCond()); o["a"]=stmt(I->getThen()); o["b"]=stmt(I->getElse()); break; }
        case Stmt::WhileStmtClass: { auto* I = cast<WhileStmt>(S); o["s"]="while"; if (I->getConditionVariable()) o["cv"]=vardecl(I->getConditionVariable()); o["c"]=expr(I->getCond()); o["b"]=stmt(I->getBody()); break; }
        case Stmt::DoStmtClass: { auto* I = cast<DoStmt>(S); o["s"]="do"; o["c"]=expr(I->getCond()); o["b"]=stmt(I->getBody()); break; }
        case Stmt::ForStmtClass: { auto* I = cast<ForStmt>(S); o["s"]="for"; o["i"]=stmt(I->getInit()); o["c"]=expr(I->getCond()); o["n"]=expr(I->getInc()); o["b"]=stmt(I->getBody()); break; }
        case Stmt::CXXForRangeStmtClass: { auto* I = cast<CXXForRangeStmt>(S); o["s"]="rfor"; o["r"]=expr(I->getRangeInit()); 
            { auto* V = I->getLoopVariable(); json::Object vo{{"id",lid(V)},{"n",V->getNameAsString()},{"t",ty(V->getType())}}; o["v"]=std::move(vo); if (V->hasInit()) { o["vi"]=expr(V->getInit()); } }
            o["b"]=stmt(I->getBody()); break; }
        case Stmt::SwitchStmtClass: { auto* I = cast<SwitchStmt>(S); o["s"]="switch"; o["c"]=expr(I->getCond()); o["b"]=stmt(I->getBody()); break; }
        case Stmt::CaseStmtClass: { auto* I = cast<CaseStmt>(S); o["s"]="case"; o["v"]=expr(I->getLHS()); o["b"]=stmt(I->getSubStmt()); break; }
        case Stmt::DefaultStmtClass: o["s"]="default"; o["b"]=stmt(cast<DefaultStmt>(S)->getSubStmt()); break;
        case Stmt::BreakStmtClass: o["s"]="break"; break;
        case Stmt::ContinueStmtClass: o["s"]="continue"; break;
        case Stmt::NullStmtClass: o["s"]="nop"; break;
        case Stmt::ReturnStmtClass: o["s"]="ret"; o["x"]=expr(cast<ReturnStmt>(S)->getRetValue()); break;
        case Stmt::CXXTryStmtClass: { auto* T = cast<CXXTryStmt>(S); o["s"]="try"; o["b"]=stmt(T->getTryBlock()); json::Array hs; for (unsigned i=0;i<T->getNumHandlers();++i) { auto* h=T->getHandler(i); json::Object ho; if (h->getExceptionDecl()) { ho["v"]=vardecl(h->getExceptionDecl()); } ho["b"]=stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); } o["h"]=std::move(hs); break; }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
        default: o["s"]="unk"; o["k"]=S->getStmtClassName(); break;
        }
        return o;
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !inRoot(F)) return true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (F->isDeleted()) return true;
        if (F->isInvalidDecl()) return true;
        std::string id = fid(F);
        if (!doneFn.insert(id).second) return true;
        locals.clear();
        json::Object o{{"o","fn"}};
        o["f"] = callee(F);
        o["file"] = fileOf(F->getLocation()).substr(ROOT.size()); o["l"]=(int64_t)lineOf(F->getLocation()); o["l2"]=(int64_t)lineOf(F->getEndLoc());
        json::Array ps; for (auto* p : F->parameters()) ps.push_back(json::Object{{"id",lid(p)},{"n",p->getNameAsString()},{"t",ty(p->getType())}}); o["ps"]=std::move(ps);
        o["const"] = isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isConst();
        o["implicit"] = F->isImplicit() || F->isDefaulted();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) { json::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(fid(b)); o["ov"]=std::move(ov); o["acc"]= M->getAccess()==AS_public?"public":M->getAccess()==AS_protected?"protected":"private"; }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array in;
            for (auto* i : K->inits()) { json::Object io;
                if (i->isBaseInitializer()) { io["k"]="base"; io["t"]=ty(QualType(i->getBaseClass(),0)); io["virt"]=i->isBaseVirtual(); }
                else if (i->isDelegatingInitializer()) { io["k"]="deleg"; }
                else { io["k"]="mem"; io["n"]=i->getAnyMember()->getNameAsString(); io["t"]=ty(i->getAnyMember()->getType()); }
                io["x"]=expr(i->getInit()); in.push_back(std::move(io)); }
            o["inits"]=std::move(in);
        }
        o["body"]=stmt(F->getBody());
        put(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* D) {
        if (D->isThisDeclarationADefinition() && !D->isDependentType() && inRoot(D) && !D->isLambda()) ty(C.getTypeDeclType(D));
        return true;
    }
};
class Cons : public ASTConsumer { public: void HandleTranslationUnit(ASTContext& C) override {
    // only declarations written in this translation unit (not in the precompiled system headers) under ROOT
    Emitter E(C); std::vector<Decl*> ds(C.getTranslationUnitDecl()->noload_decls_begin(), C.getTranslationUnitDecl()->noload_decls_end());
    for (auto* D : ds) if (E.inRoot(D) || C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(D->getLocation())) || isa<ClassTemplateSpecializationDecl>(D)) E.TraverseDecl(D);
} };
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); } };
class Fact : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
int main(int argc, char** argv) {
    // extract ROOT TU OUT -- flags
    if (argc < 5) return 2;
    ROOT = argv[1]; TUNAME = argv[2]; if (TUNAME.compare(0, ROOT.size(), ROOT) == 0) TUNAME = TUNAME.substr(ROOT.size());
    std::error_code ec; llvm::raw_fd_ostream os(argv[3], ec); OUT = &os;
    std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(ROOT, flags);
    tooling::ClangTool tool(db, {argv[2]});
    Fact f; int r = tool.run(&f); os.flush(); return r;
}
