// hfacts: export the resolved AST of every project function of one
// translation unit as compact JSON.  Static analysis front end: the
// program is parsed and type-checked, template instantiations included,
// never run.
//
// usage: hfacts OUT.json ROOT -- <clang args> file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>

using namespace clang;

static std::string Root, OutName;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char) c;
    }
  }
  return o + "\"";
}

namespace {
class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C;
  SourceManager &SM;
  ASTNameGenerator NG;
  std::string out;
  std::map<std::string, int> typeIdx;
  std::vector<std::string> types;
  std::map<const void *, int> typeCache;
  std::map<const Decl *, int> declId;
  std::map<std::string, int> fileIdx;
  std::vector<std::string> files;
  std::set<const FunctionDecl *> doneF;
  std::vector<std::string> funcs, records, globals, enums;
  std::set<const Decl *> doneR, doneG;
  std::map<FileID, int> fidCache;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), NG(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  // -1 when outside the project
  int fileOf(SourceLocation L) {
    if (L.isInvalid()) return -1;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fidCache.find(F);
    if (it != fidCache.end()) return it->second;
    int r = -1;
    if (auto FE = SM.getFileEntryRefForID(F)) {
      llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
      std::string p = rp.empty() ? FE->getName().str() : rp.str();
      if (p.rfind(Root, 0) == 0) {
        std::string rel = p.substr(Root.size());
        if (!rel.empty() && rel[0] == '/') rel = rel.substr(1);
        auto i = fileIdx.find(rel);
        if (i == fileIdx.end()) { r = (int) files.size(); fileIdx[rel] = r; files.push_back(rel); }
        else r = i->second;
      } else if (p.size() > 9 && p.substr(p.size() - 9) == "/helfem.h") {
        std::string rel = "libhelfem/include/helfem.source.h";
        auto i = fileIdx.find(rel);
        if (i == fileIdx.end()) { r = (int) files.size(); fileIdx[rel] = r; files.push_back(rel); }
        else r = i->second;
      }
    }
    fidCache[F] = r;
    return r;
  }
  int lineOf(SourceLocation L) { return L.isInvalid() ? 0 : (int) SM.getExpansionLineNumber(L); }

  // ----- types -----
  const TypedefNameDecl *findScalar(const CXXRecordDecl *R, int depth = 0) {
    if (!R || depth > 8) return nullptr;
    R = R->getDefinition();
    if (!R) return nullptr;
    for (auto *D : R->lookup(DeclarationName(&C.Idents.get("Scalar"))))
      if (auto *T = dyn_cast<TypedefNameDecl>(D)) return T;
    for (auto &B : R->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl())
        if (auto *T = findScalar(BR, depth + 1)) return T;
    return nullptr;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string q;
    if (T.isConstQualified()) q = "const ";
    if (T->isReferenceType()) return typeStr(T->getPointeeType()) + (T->isRValueReferenceType() ? " &&" : " &");
    if (T->isPointerType()) return typeStr(T->getPointeeType()) + " *" + (T.isConstQualified() ? "const" : "");
    if (auto *R = T->getAsCXXRecordDecl()) {
      if (R->isLambda()) return q + "lambda@" + std::to_string(lineOf(R->getLocation()));
      std::string qn = R->getQualifiedNameAsString();
      if (qn.rfind("Eigen::", 0) == 0) {
        std::string nm = R->getNameAsString();
        std::string sc = "?";
        if (auto *TD = findScalar(R)) sc = typeStr(TD->getUnderlyingType().getCanonicalType().getUnqualifiedType());
        std::string ex;
        if (nm == "Matrix" || nm == "Array")
          if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            auto &A = S->getTemplateArgs();
            if (A.size() >= 3 && A[1].getKind() == TemplateArgument::Integral && A[2].getKind() == TemplateArgument::Integral)
              ex = "," + std::to_string(A[1].getAsIntegral().getExtValue()) + "," + std::to_string(A[2].getAsIntegral().getExtValue());
          }
        return q + "Eigen::" + nm + "<" + sc + ex + ">";
      }
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        std::string s = q + qn + "<";
        bool first = true;
        for (auto &A : S->getTemplateArgs().asArray()) {
          auto one = [&](const TemplateArgument &A) {
            if (!first) s += ",";
            first = false;
            if (A.getKind() == TemplateArgument::Type) {
              std::string t = typeStr(A.getAsType());
              if (t.rfind("std::allocator", 0) == 0 || t.rfind("Eigen::aligned_allocator", 0) == 0) { s += "A"; return; }
              s += t;
            } else if (A.getKind() == TemplateArgument::Integral) s += std::to_string(A.getAsIntegral().getExtValue());
            else s += "_";
          };
          if (A.getKind() == TemplateArgument::Pack) for (auto &B : A.pack_elements()) one(B);
          else one(A);
        }
        return s + ">";
      }
      return q + qn;
    }
    std::string s = T.getAsString(C.getPrintingPolicy());
    return s;
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    const void *key = T.getAsOpaquePtr();
    auto it = typeCache.find(key);
    if (it != typeCache.end()) return it->second;
    std::string s = typeStr(T);
    auto i = typeIdx.find(s);
    int r;
    if (i == typeIdx.end()) { r = (int) types.size(); types.push_back(s); typeIdx[s] = r; }
    else r = i->second;
    typeCache[key] = r;
    return r;
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declId.find(D);
    if (it != declId.end()) return it->second;
    int n = (int) declId.size() + 1;
    declId[D] = n;
    return n;
  }

  std::string fname(const FunctionDecl *F) {
    std::string n;
    if (F->isTemplated() || F->getType()->isDependentType()) return F->getQualifiedNameAsString();
    n = NG.getName(F);
    if (n.empty()) n = F->getQualifiedNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        n = "lambda@" + SM.getFilename(SM.getExpansionLoc(F->getLocation())).str() + ":" + std::to_string(lineOf(F->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(F->getLocation())) + n;
    if (F->getLinkageInternal() == Linkage::Internal || F->isInAnonymousNamespace()) {
      // internal linkage: distinguish by file
      n += "@" + std::to_string(fileOf(F->getLocation())) + "@" + (fileOf(F->getLocation()) >= 0 ? files[fileOf(F->getLocation())] : "");
    }
    return n;
  }

  // ----- expressions -----
  void key(const char *k) { out += ",\""; out += k; out += "\":"; }
  void kv(const char *k, const std::string &v) { key(k); out += esc(v); }
  void kv(const char *k, long v) { key(k); out += std::to_string(v); }

  void begin(const char *kind, const Stmt *S) {
    out += "{\"k\":\""; out += kind; out += "\"";
    if (S) {
      kv("l", lineOf(S->getBeginLoc()));
      if (auto *E = dyn_cast<Expr>(S)) kv("t", ty(E->getType()));
    }
  }
  void children(const Stmt *S) {
    key("c"); out += "[";
    bool first = true;
    for (const Stmt *ch : S->children()) {
      if (!first) out += ",";
      first = false;
      dump(ch);
    }
    out += "]";
  }
  template <class It> void list(const char *k, It r) {
    key(k); out += "[";
    bool first = true;
    for (auto *x : r) { if (!first) out += ","; first = false; dump(x); }
    out += "]";
  }
  void declref(const ValueDecl *D) {
    kv("n", D->getNameAsString());
    kv("d", did(D));
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (isa<ParmVarDecl>(V)) kv("vk", "param");
      else if (V->isStaticDataMember()) kv("vk", "smember");
      else if (V->isStaticLocal()) kv("vk", V->getTSCSpec() != TSCS_unspecified ? "tlocal" : "slocal");
      else if (V->hasGlobalStorage()) kv("vk", V->getTSCSpec() != TSCS_unspecified ? "tglobal" : "global");
      else kv("vk", "local");
      if (V->hasGlobalStorage()) {
        kv("q", V->getQualifiedNameAsString());
        kv("inproj", fileOf(V->getLocation()) >= 0);
        kv("dt", ty(V->getType()));
      } else kv("dt", ty(V->getType()));
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      kv("vk", "func"); kv("q", F->getQualifiedNameAsString()); kv("f", fname(F));
      kv("inproj", fileOf(F->getLocation()) >= 0);
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      kv("vk", "enum"); kv("q", E->getQualifiedNameAsString());
      kv("val", (long) E->getInitVal().getExtValue());
    } else if (isa<BindingDecl>(D)) { kv("vk", "local"); kv("dt", ty(D->getType())); }
    else kv("vk", "other");
  }
  void callee(const FunctionDecl *F) {
    if (!F) return;
    kv("q", F->getQualifiedNameAsString());
    kv("n", F->getNameAsString());
    int fi = fileOf(F->getLocation());
    kv("inproj", fi >= 0);
    if (fi >= 0) kv("f", fname(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) kv("virt", 1);
      if (M->isConst()) kv("cst", 1);
      if (M->isStatic()) kv("stat", 1);
    }
    if (F->isNoReturn()) kv("nr", 1);
    // parameter passing modes: v value, c const ref, r mutable ref, p pointer, q const pointer, m rvalue ref
    std::string pm;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isLValueReferenceType()) pm += T->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (T->isRValueReferenceType()) pm += 'm';
      else if (T->isPointerType()) pm += T->getPointeeType().isConstQualified() ? 'q' : 'p';
      else pm += 'v';
    }
    kv("pm", pm);
    kv("rt", ty(F->getReturnType()));
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      key("ta"); out += "[";
      bool first = true;
      for (auto &A : TA->asArray()) {
        if (!first) out += ","; first = false;
        if (A.getKind() == TemplateArgument::Type) out += esc(typeStr(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) out += std::to_string(A.getAsIntegral().getExtValue());
        else out += "\"?\"";
      }
      out += "]";
    }
  }
  void dumpVar(const VarDecl *V) {
    out += "{\"k\":\"Var\"";
    kv("l", lineOf(V->getLocation()));
    kv("n", V->getNameAsString()); kv("d", did(V)); kv("t", ty(V->getType()));
    if (V->isStaticLocal()) kv("st", V->getTSCSpec() != TSCS_unspecified ? "thread" : "static");
    if (V->hasInit()) {
      key("i"); dump(V->getInit());
      kv("is", V->getInitStyle() == VarDecl::CInit ? "c" : "call");
    }
    out += "}";
  }

  void dump(const Stmt *S) {
    if (!S) { out += "null"; return; }
    switch (S->getStmtClass()) {
    case Stmt::ParenExprClass: return dump(cast<ParenExpr>(S)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return dump(cast<ExprWithCleanups>(S)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return dump(cast<MaterializeTemporaryExpr>(S)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return dump(cast<CXXBindTemporaryExpr>(S)->getSubExpr());
    case Stmt::ConstantExprClass: return dump(cast<ConstantExpr>(S)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return dump(cast<SubstNonTypeTemplateParmExpr>(S)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: {
      begin("DefArg", S); key("c"); out += "["; dump(cast<CXXDefaultArgExpr>(S)->getExpr()); out += "]}"; return;
    }
    case Stmt::CXXDefaultInitExprClass: {
      begin("DefInit", S); key("c"); out += "["; dump(cast<CXXDefaultInitExpr>(S)->getExpr()); out += "]}"; return;
    }
    case Stmt::CompoundStmtClass: begin("Block", S); list("c", cast<CompoundStmt>(S)->body()); out += "}"; return;
    case Stmt::NullStmtClass: begin("Null", S); out += "}"; return;
    case Stmt::DeclStmtClass: {
      begin("Decl", S); key("c"); out += "["; bool first = true;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (!first) out += ","; first = false; dumpVar(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            // bindings listed as extra vars without init
            for (auto *B : DD->bindings()) {
              out += ",{\"k\":\"Bind\""; kv("n", B->getNameAsString()); kv("d", did(B)); kv("t", ty(B->getType()));
              kv("of", did(V)); out += "}";
            }
          }
        }
      out += "]}"; return;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      begin("If", S);
      if (I->isConstexpr()) kv("cx", 1);
      if (I->getInit()) { key("init"); dump(I->getInit()); }
      if (I->getConditionVariable()) { key("cv"); dumpVar(I->getConditionVariable()); }
      key("cond"); dump(I->getCond());
      key("then"); dump(I->getThen());
      if (I->getElse()) { key("else"); dump(I->getElse()); }
      out += "}"; return;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      begin("For", S);
      key("init"); dump(F->getInit());
      key("cond"); dump(F->getCond());
      key("inc"); dump(F->getInc());
      key("body"); dump(F->getBody());
      out += "}"; return;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      begin("ForRange", S);
      key("var"); dumpVar(F->getLoopVariable());
      key("range"); dump(F->getRangeInit());
      key("body"); dump(F->getBody());
      out += "}"; return;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      begin("While", S); key("cond"); dump(W->getCond()); key("body"); dump(W->getBody()); out += "}"; return;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      begin("Do", S); key("cond"); dump(W->getCond()); key("body"); dump(W->getBody()); out += "}"; return;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      begin("Switch", S); key("cond"); dump(W->getCond()); key("body"); dump(W->getBody()); out += "}"; return;
    }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(S);
      begin("Case", S); key("lhs"); dump(W->getLHS()); key("body"); dump(W->getSubStmt()); out += "}"; return;
    }
    case Stmt::DefaultStmtClass: {
      begin("Default", S); key("body"); dump(cast<DefaultStmt>(S)->getSubStmt()); out += "}"; return;
    }
    case Stmt::ReturnStmtClass: {
      begin("Return", S); if (auto *V = cast<ReturnStmt>(S)->getRetValue()) { key("v"); dump(V); } out += "}"; return;
    }
    case Stmt::BreakStmtClass: begin("Break", S); out += "}"; return;
    case Stmt::ContinueStmtClass: begin("Continue", S); out += "}"; return;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      begin("Try", S); key("body"); dump(T->getTryBlock());
      key("h"); out += "[";
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        if (i) out += ",";
        auto *H = T->getHandler(i);
        begin("Catch", H); kv("ct", H->getCaughtType().isNull() ? -1 : ty(H->getCaughtType()));
        key("body"); dump(H->getHandlerBlock()); out += "}";
      }
      out += "]}"; return;
    }
    case Stmt::CXXThrowExprClass: {
      begin("Throw", S); if (auto *V = cast<CXXThrowExpr>(S)->getSubExpr()) { key("v"); dump(V); } out += "}"; return;
    }
    case Stmt::DeclRefExprClass: {
      begin("Ref", S); declref(cast<DeclRefExpr>(S)->getDecl()); out += "}"; return;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(S);
      begin("Mem", S);
      kv("n", M->getMemberDecl()->getNameAsString());
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        kv("fp", F->getParent()->getQualifiedNameAsString());
        if (F->isMutable()) kv("mut", 1);
        kv("d", did(F));
        kv("dt", ty(F->getType()));
        kv("inproj", fileOf(F->getLocation()) >= 0);
      } else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        kv("sm", 1); kv("d", did(V)); kv("q", V->getQualifiedNameAsString());
      } else kv("meth", 1);
      if (M->isArrow()) kv("ar", 1);
      key("c"); out += "["; dump(M->getBase()); out += "]}"; return;
    }
    case Stmt::CXXThisExprClass: begin("This", S); if (cast<CXXThisExpr>(S)->isImplicit()) kv("im", 1); out += "}"; return;
    case Stmt::IntegerLiteralClass: {
      begin("Int", S); llvm::SmallString<32> b; cast<IntegerLiteral>(S)->getValue().toString(b, 10, true);
      kv("v", b.str().str()); out += "}"; return;
    }
    case Stmt::FloatingLiteralClass: {
      begin("Flt", S);
      auto *F = cast<FloatingLiteral>(S);
      llvm::SmallString<64> b; F->getValue().toString(b, 40, 3);
      kv("v", b.str().str()); kv("ex", F->isExact());
      SourceLocation L = SM.getSpellingLoc(F->getLocation());
      llvm::SmallString<64> buf; bool inv = false;
      std::string sp = Lexer::getSpelling(L, buf, SM, C.getLangOpts(), &inv).str();
      if (!inv) kv("sp", sp);
      if (F->getLocation().isMacroID()) {
        kv("mac", Lexer::getImmediateMacroName(F->getLocation(), SM, C.getLangOpts()).str());
      }
      out += "}"; return;
    }
    case Stmt::CXXBoolLiteralExprClass: begin("Bool", S); kv("v", (long) cast<CXXBoolLiteralExpr>(S)->getValue()); out += "}"; return;
    case Stmt::StringLiteralClass: {
      begin("Str", S); auto *L = cast<StringLiteral>(S);
      kv("v", L->getCharByteWidth() == 1 ? L->getString().str() : std::string("?")); out += "}"; return;
    }
    case Stmt::CharacterLiteralClass: begin("Char", S); kv("v", (long) cast<CharacterLiteral>(S)->getValue()); out += "}"; return;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: begin("Nullptr", S); out += "}"; return;
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(S);
      begin("Un", S); kv("op", UnaryOperator::getOpcodeStr(U->getOpcode()).str()); if (U->isPostfix()) kv("post", 1);
      key("c"); out += "["; dump(U->getSubExpr()); out += "]}"; return;
    }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(S);
      begin("Bin", S); kv("op", B->getOpcodeStr().str());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) kv("ct", ty(CA->getComputationResultType()));
      key("c"); out += "["; dump(B->getLHS()); out += ","; dump(B->getRHS()); out += "]}"; return;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *Q = cast<ConditionalOperator>(S);
      begin("Cond", S); key("c"); out += "["; dump(Q->getCond()); out += ","; dump(Q->getTrueExpr()); out += ","; dump(Q->getFalseExpr()); out += "]}"; return;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(S);
      begin("Sub", S); key("c"); out += "["; dump(A->getBase()); out += ","; dump(A->getIdx()); out += "]}"; return;
    }
    case Stmt::ImplicitCastExprClass: {
      auto *X = cast<ImplicitCastExpr>(S);
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
      case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
        begin("ICast", S); kv("ck", X->getCastKindName()); key("c"); out += "["; dump(X->getSubExpr()); out += "]}"; return;
      default: return dump(X->getSubExpr());
      }
    }
    case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *X = cast<ExplicitCastExpr>(S);
      begin("Cast", S); kv("ck", X->getCastKindName()); 
      kv("cs", S->getStmtClass() == Stmt::CStyleCastExprClass ? "c" : S->getStmtClass() == Stmt::CXXStaticCastExprClass ? "static" :
         S->getStmtClass() == Stmt::CXXFunctionalCastExprClass ? "func" : S->getStmtClass() == Stmt::CXXReinterpretCastExprClass ? "reinterpret" :
         S->getStmtClass() == Stmt::CXXConstCastExprClass ? "const" : "dynamic");
      kv("wt", X->getTypeAsWritten().getAsString());
      key("c"); out += "["; dump(X->getSubExpr()); out += "]}"; return;
    }
    case Stmt::CallExprClass: {
      auto *X = cast<CallExpr>(S);
      begin("Call", S);
      if (auto *F = X->getDirectCallee()) callee(F);
      else { key("fn"); dump(X->getCallee()); }
      list("a", X->arguments());
      out += "}"; return;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *X = cast<CXXMemberCallExpr>(S);
      begin("MCall", S);
      if (auto *F = X->getMethodDecl()) callee(F);
      key("o"); dump(X->getImplicitObjectArgument());
      list("a", X->arguments());
      out += "}"; return;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *X = cast<CXXOperatorCallExpr>(S);
      begin("OCall", S); kv("op", getOperatorSpelling(X->getOperator()));
      if (auto *F = X->getDirectCallee()) callee(F);
      list("a", X->arguments());
      out += "}"; return;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(S);
      auto *K = X->getConstructor();
      begin("Ctor", S); callee(K);
      if (K->isCopyConstructor()) kv("cp", "copy"); else if (K->isMoveConstructor()) kv("cp", "move");
      list("a", X->arguments());
      out += "}"; return;
    }
    case Stmt::CXXNewExprClass: {
      auto *X = cast<CXXNewExpr>(S);
      begin("New", S); if (X->isArray()) kv("arr", 1); kv("at", ty(X->getAllocatedType()));
      key("c"); out += "["; if (X->getInitializer()) dump(X->getInitializer()); out += "]}"; return;
    }
    case Stmt::CXXDeleteExprClass: {
      begin("Delete", S); key("c"); out += "["; dump(cast<CXXDeleteExpr>(S)->getArgument()); out += "]}"; return;
    }
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(S);
      begin("IList", S); list("c", X->inits()); out += "}"; return;
    }
    case Stmt::CXXStdInitializerListExprClass: return dump(cast<CXXStdInitializerListExpr>(S)->getSubExpr());
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(S);
      begin("Lambda", S);
      key("cap"); out += "["; bool first = true;
      for (auto &Cp : X->captures()) {
        if (!first) out += ","; first = false;
        out += "{\"k\":\"Cap\"";
        kv("by", Cp.getCaptureKind() == LCK_ByRef ? "ref" : Cp.getCaptureKind() == LCK_ByCopy ? "copy" : "this");
        if (Cp.capturesVariable()) { kv("n", Cp.getCapturedVar()->getNameAsString()); kv("d", did(Cp.getCapturedVar())); }
        out += "}";
      }
      out += "]";
      auto *M = X->getCallOperator();
      kv("f", fname(M));
      key("p"); params(M);
      kv("rt", ty(M->getReturnType()));
      key("body"); dump(X->getBody());
      out += "}"; return;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      begin("SizeOf", S);
      Expr::EvalResult R;
      if (!cast<Expr>(S)->isValueDependent() && cast<Expr>(S)->EvaluateAsInt(R, C)) kv("v", std::to_string(R.Val.getInt().getExtValue()));
      out += "}"; return;
    }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: begin("ZeroInit", S); out += "}"; return;
    default: break;
    }
    if (auto *O = dyn_cast<OMPExecutableDirective>(S)) {
      begin("Omp", S);
      kv("dk", llvm::omp::getOpenMPDirectiveName(O->getDirectiveKind()).str());
      key("cl"); out += "["; bool first = true;
      for (auto *Cl : O->clauses()) {
        if (!first) out += ","; first = false;
        out += "{\"k\":\"Clause\"";
        kv("n", llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str());
        auto vars = [&](auto range) { key("v"); out += "["; bool f2 = true; for (auto *E : range) { if (!f2) out += ","; f2 = false; dump(E); } out += "]"; };
        if (auto *P = dyn_cast<OMPPrivateClause>(Cl)) vars(P->varlists());
        else if (auto *P = dyn_cast<OMPFirstprivateClause>(Cl)) vars(P->varlists());
        else if (auto *P = dyn_cast<OMPLastprivateClause>(Cl)) vars(P->varlists());
        else if (auto *P = dyn_cast<OMPSharedClause>(Cl)) vars(P->varlists());
        else if (auto *P = dyn_cast<OMPCopyprivateClause>(Cl)) vars(P->varlists());
        else if (auto *P = dyn_cast<OMPReductionClause>(Cl)) { kv("op", P->getNameInfo().getAsString()); vars(P->varlists()); }
        else if (auto *P = dyn_cast<OMPCollapseClause>(Cl)) { Expr::EvalResult R; if (P->getNumForLoops()->EvaluateAsInt(R, C)) kv("num", (long) R.Val.getInt().getExtValue()); }
        else if (auto *P = dyn_cast<OMPScheduleClause>(Cl)) kv("sk", getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, P->getScheduleKind()));
        else if (auto *P = dyn_cast<OMPDefaultClause>(Cl)) kv("dk", (long) (int) P->getDefaultKind());
        out += "}";
      }
      out += "]";
      if (auto *CD = dyn_cast<OMPCriticalDirective>(O)) kv("name", CD->getDirectiveName().getAsString());
      if (O->hasAssociatedStmt() && O->getAssociatedStmt()) {
        const Stmt *B = O->getAssociatedStmt();
        while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
        key("body"); dump(B);
      }
      out += "}"; return;
    }
    if (auto *CS = dyn_cast<CapturedStmt>(S)) return dump(CS->getCapturedStmt());
    if (auto *OC = dyn_cast<OMPCanonicalLoop>(S)) return dump(OC->getLoopStmt());
    if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) return dump(E->getSourceExpr()); }
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) return dump(E->getSemanticForm());
    if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) { begin("Ctor", E); callee(E->getConstructor()); out += ",\"a\":[]}"; return; }
    begin("X", S); kv("sc", S->getStmtClassName()); children(S); out += "}";
  }

  void params(const FunctionDecl *F) {
    out += "["; bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) out += ","; first = false;
      out += "{\"k\":\"Param\""; kv("n", P->getNameAsString()); kv("d", did(P)); kv("t", ty(P->getType())); out += "}";
    }
    out += "]";
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isImplicit() || F->isDefaulted() || F->isDeleted()) return true;
    if (F->isDependentContext()) return true;
    if (F->getType()->isDependentType()) return true;
    int fi = fileOf(F->getLocation());
    if (fi < 0) return true;
    if (!doneF.insert(F).second) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!F->getBody()) return true;
    std::string save; save.swap(out);
    out += "{\"k\":\"Func\"";
    kv("f", fname(F)); kv("q", F->getQualifiedNameAsString()); kv("n", F->getNameAsString());
    kv("fi", fi); kv("l", lineOf(F->getLocation())); kv("le", lineOf(F->getBody()->getEndLoc()));
    kv("rt", ty(F->getReturnType()));
    if (F->getLinkageInternal() == Linkage::Internal) kv("int", 1);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      kv("cls", M->getParent()->getQualifiedNameAsString());
      kv("clst", ty(C.getRecordType(M->getParent())));
      if (M->isVirtual()) kv("virt", 1);
      if (M->isConst()) kv("cst", 1);
      if (M->isStatic()) kv("stat", 1);
      kv("acc", (long) M->getAccess());
      key("ov"); out += "["; bool first = true;
      for (auto *O : M->overridden_methods()) { if (!first) out += ","; first = false; out += esc(fname(O)); }
      out += "]";
    }
    if (isa<CXXConstructorDecl>(F)) kv("fk", "ctor");
    else if (isa<CXXDestructorDecl>(F)) kv("fk", "dtor");
    if (F->getTemplateInstantiationPattern()) kv("inst", 1);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      key("ta"); out += "["; bool first = true;
      for (auto &A : TA->asArray()) {
        if (!first) out += ","; first = false;
        if (A.getKind() == TemplateArgument::Type) out += esc(typeStr(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) out += std::to_string(A.getAsIntegral().getExtValue());
        else out += "\"?\"";
      }
      out += "]";
    }
    key("p"); params(F);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      key("ini"); out += "["; bool first = true;
      for (auto *I : K->inits()) {
        if (!first) out += ","; first = false;
        out += "{\"k\":\"MemInit\"";
        if (I->isAnyMemberInitializer()) { kv("n", I->getAnyMember()->getNameAsString()); kv("d", did(I->getAnyMember())); kv("t", ty(I->getAnyMember()->getType())); }
        else if (I->isBaseInitializer()) kv("base", ty(QualType(I->getBaseClass(), 0)));
        else kv("deleg", 1);
        if (I->isWritten()) kv("w", 1);
        key("v"); dump(I->getInit());
        out += "}";
      }
      out += "]";
    }
    key("body"); dump(F->getBody());
    out += "}";
    funcs.push_back(std::move(out));
    out.swap(save);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || R->isImplicit()) return true;
    int fi = fileOf(R->getLocation());
    if (fi < 0) return true;
    if (!doneR.insert(R).second) return true;
    std::string save; save.swap(out);
    out += "{\"k\":\"Rec\""; kv("q", R->getQualifiedNameAsString()); kv("t", ty(C.getRecordType(R))); kv("fi", fi); kv("l", lineOf(R->getLocation()));
    key("b"); out += "["; bool first = true;
    for (auto &B : R->bases()) { if (!first) out += ","; first = false; out += std::to_string(ty(B.getType())); }
    out += "]";
    key("fl"); out += "["; first = true;
    for (auto *F : R->fields()) {
      if (!first) out += ","; first = false;
      out += "{\"k\":\"Field\""; kv("n", F->getNameAsString()); kv("d", did(F)); kv("t", ty(F->getType()));
      if (F->isMutable()) kv("mut", 1);
      if (F->hasInClassInitializer() && F->getInClassInitializer()) { key("i"); dump(F->getInClassInitializer()); }
      out += "}";
    }
    out += "]";
    key("m"); out += "["; first = true;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      if (!first) out += ","; first = false;
      out += "{\"k\":\"Meth\""; kv("n", M->getNameAsString()); kv("f", fname(M)); if (M->isVirtual()) kv("virt", 1); if (M->isPureVirtual()) kv("pure", 1);
      if (M->isConst()) kv("cst", 1); kv("acc", (long) M->getAccess()); kv("l", lineOf(M->getLocation()));
      key("ov"); out += "["; bool f2 = true;
      for (auto *O : M->overridden_methods()) { if (!f2) out += ","; f2 = false; out += esc(fname(O)); }
      out += "]}";
    }
    out += "]}";
    records.push_back(std::move(out)); out.swap(save);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    int fi = fileOf(V->getLocation());
    if (fi < 0) return true;
    if (!doneG.insert(V).second) return true;
    std::string save; save.swap(out);
    out += "{\"k\":\"Global\""; kv("q", V->getQualifiedNameAsString()); kv("n", V->getNameAsString()); kv("d", did(V)); kv("t", ty(V->getType())); kv("fi", fi); kv("l", lineOf(V->getLocation()));
    if (V->getTSCSpec() != TSCS_unspecified) kv("tl", 1);
    if (V->hasInit() && !V->getInit()->isValueDependent()) { key("i"); dump(V->getInit()); }
    out += "}";
    globals.push_back(std::move(out)); out.swap(save);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    int fi = fileOf(E->getLocation());
    if (fi < 0 || E->isDependentContext()) return true;
    std::string save; save.swap(out);
    out += "{\"k\":\"Enum\""; kv("q", E->getQualifiedNameAsString()); key("e"); out += "["; bool first = true;
    for (auto *K : E->enumerators()) { if (!first) out += ","; first = false; out += "[" + esc(K->getNameAsString()) + "," + std::to_string(K->getInitVal().getExtValue()) + "]"; }
    out += "]}";
    enums.push_back(std::move(out)); out.swap(save);
    return true;
  }

  void write() {
    std::ofstream os(OutName);
    auto arr = [&](const char *k, std::vector<std::string> &v, bool raw) {
      os << "\"" << k << "\":[";
      for (size_t i = 0; i < v.size(); i++) { if (i) os << ",\n"; os << (raw ? v[i] : esc(v[i])); }
      os << "]";
    };
    os << "{"; arr("files", files, false); os << ",\n"; arr("types", types, false); os << ",\n"; arr("funcs", funcs, true); os << ",\n";
    arr("records", records, true); os << ",\n"; arr("globals", globals, true); os << ",\n"; arr("enums", enums, true); os << "}\n";
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { std::cerr << "hfacts: parse errors\n"; exit(3); }
    Exporter X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    X.write();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, char **argv) {
  if (argc < 5) { std::cerr << "usage: hfacts OUT ROOT -- args file\n"; return 2; }
  OutName = argv[1]; Root = argv[2];
  std::vector<std::string> args = {"clang++"};
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  args.insert(args.begin() + 1, "-fsyntax-only");
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation T(args, std::make_unique<Action>(), FM.get());
  return T.run() ? 0 : 3;
}
