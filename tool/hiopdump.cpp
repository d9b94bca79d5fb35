// hiopdump: parses translation units with the real build's flags and writes the
// type-checked program (functions, classes, globals, enums) defined under a root
// directory as JSON lines.  No code is executed; this is a front end for the
// Python dataflow analyses in /verif/analysis.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::raw_ostream;

static std::string Root;
static std::set<std::string> Emitted;
static raw_ostream *Out;

static void jstr(raw_ostream &o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o << "\\\""; break;
    case '\\': o << "\\\\"; break;
    case '\n': o << "\\n"; break;
    case '\t': o << "\\t"; break;
    case '\r': o << "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
      else o << (char)c;
    }
  }
  o << '"';
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> Ids;
  raw_ostream *O;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), O(nullptr) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    MC.reset(C.createMangleContext());
  }
  raw_ostream &o() { return *O; }

  int idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string mangled(const FunctionDecl *F) {
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      std::string s; llvm::raw_string_ostream os(s);
      MC->mangleName(GlobalDecl(Ct, Ctor_Complete), os); return os.str();
    }
    if (auto *Dt = dyn_cast<CXXDestructorDecl>(F)) {
      std::string s; llvm::raw_string_ostream os(s);
      MC->mangleName(GlobalDecl(Dt, Dtor_Complete), os); return os.str();
    }
    if (MC->shouldMangleDeclName(F)) {
      std::string s; llvm::raw_string_ostream os(s);
      MC->mangleName(GlobalDecl(F), os); return os.str();
    }
    std::string n = F->getNameAsString();
    if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace())
      n += "@" + fileOf(F->getLocation());
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    llvm::SmallString<256> p(f);
    return std::string(p.str());
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro
    SourceLocation Prev = L;
    std::string name;
    while (L.isMacroID()) {
      if (SM.isMacroArgExpansion(L)) { L = SM.getImmediateExpansionRange(L).getBegin(); continue; }
      name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      L = SM.getImmediateExpansionRange(L).getBegin();
      (void)Prev;
    }
    return name;
  }

  struct Obj {
    raw_ostream &o; bool first = true;
    Obj(raw_ostream &o, const char *k) : o(o) { o << "{\"k\":\"" << k << '"'; first = false; }
    Obj &key(const char *n) { o << ",\"" << n << "\":"; return *this; }
    Obj &s(const char *n, llvm::StringRef v) { key(n); jstr(o, v); return *this; }
    Obj &i(const char *n, long long v) { key(n); o << v; return *this; }
    ~Obj() { o << '}'; }
  };

  template <class R> void list(R &&r) {
    o() << '[';
    bool f = true;
    for (auto *x : r) { if (!f) o() << ','; f = false; stmt(x); }
    o() << ']';
  }

  void vardecl(const VarDecl *V) {
    Obj b(o(), "Var");
    b.s("n", V->getNameAsString()).i("id", idOf(V)).s("t", type(V->getType())).i("l", lineOf(V->getLocation()));
    if (V->isStaticLocal()) b.i("static", 1);
    if (V->hasInit()) { b.key("init"); stmt(V->getInit()); }
  }

  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
        case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
        case CK_NullToPointer: case CK_BitCast: case CK_ToVoid: case CK_LValueBitCast:
          if (P->getCastKind()==CK_BitCast) break;
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
        // elidable copies / moves
        if (P->isElidable() && P->getNumArgs() >= 1) { E = P->getArg(0); continue; }
      }
      return E;
    }
  }

  void callee(Obj &b, const FunctionDecl *F) {
    if (!F) return;
    b.s("f", mangled(F)).s("fq", F->getQualifiedNameAsString());
    if (F->getReturnType()->isReferenceType()) b.i("rr",1);
    if (F->isNoReturn()) b.i("nr", 1);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) b.i("cst", 1);
      if (M->isStatic()) b.i("sm", 1);
    }
    if (F->getNumParams()) {
      b.key("pt"); o() << '[';
      for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) o() << ','; jstr(o(), type(F->getParamDecl(i)->getType())); }
      o() << ']';
    }
  }

  void stmt(const Stmt *S) {
    if (!S) { o() << "null"; return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    unsigned l = lineOf(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Obj b(o(), "Block"); b.i("l", l); b.key("b"); list(cast<CompoundStmt>(S)->body()); 
      b.i("el", lineOf(S->getEndLoc())); return; }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S); Obj b(o(), "If"); b.i("l", l);
      if (I->getInit()) { b.key("i"); stmt(I->getInit()); }
      if (auto *cv = I->getConditionVariable()) { b.key("cv"); vardecl(cv); }
      b.key("c"); stmt(I->getCond()); b.key("t"); stmt(I->getThen());
      if (I->getElse()) { b.key("e"); stmt(I->getElse()); }
      return; }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S); Obj b(o(), "While"); b.i("l", l);
      if (auto *cv = W->getConditionVariable()) { b.key("cv"); vardecl(cv); }
      b.key("c"); stmt(W->getCond()); b.key("b"); stmt(W->getBody()); return; }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S); Obj b(o(), "Do"); b.i("l", l);
      std::string m = macroOf(W->getDoLoc()); if (!m.empty()) b.s("m", m);
      b.key("b"); stmt(W->getBody()); b.key("c"); stmt(W->getCond()); return; }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S); Obj b(o(), "For"); b.i("l", l);
      b.key("i"); stmt(F->getInit()); b.key("c"); stmt(F->getCond()); b.key("n"); stmt(F->getInc());
      b.key("b"); stmt(F->getBody()); return; }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S); Obj b(o(), "RangeFor"); b.i("l", l);
      b.key("v"); vardecl(F->getLoopVariable()); b.key("r"); stmt(F->getRangeInit()); b.key("b"); stmt(F->getBody()); return; }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S); Obj b(o(), "Switch"); b.i("l", l);
      b.key("c"); stmt(W->getCond()); b.key("b"); stmt(W->getBody()); return; }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(S); Obj b(o(), "Case"); b.i("l", l); b.key("v"); stmt(W->getLHS());
      Expr::EvalResult R;
      if (W->getLHS()->EvaluateAsInt(R, C)) b.i("iv", R.Val.getInt().getExtValue());
      b.key("b"); stmt(W->getSubStmt()); return; }
    case Stmt::DefaultStmtClass: {
      Obj b(o(), "Default"); b.i("l", l); b.key("b"); stmt(cast<DefaultStmt>(S)->getSubStmt()); return; }
    case Stmt::ReturnStmtClass: {
      Obj b(o(), "Return"); b.i("l", l);
      if (auto *e = cast<ReturnStmt>(S)->getRetValue()) { b.key("e"); stmt(e); }
      return; }
    case Stmt::BreakStmtClass: { Obj b(o(), "Break"); b.i("l", l); return; }
    case Stmt::ContinueStmtClass: { Obj b(o(), "Continue"); b.i("l", l); return; }
    case Stmt::NullStmtClass: { Obj b(o(), "Nop"); b.i("l", l); return; }
    case Stmt::DeclStmtClass: {
      Obj b(o(), "Decl"); b.i("l", l); b.key("d"); o() << '[';
      bool f = true;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) o() << ','; f = false; vardecl(V); }
      o() << ']'; return; }
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S); Obj b(o(), "Try"); b.i("l", l); b.key("b"); stmt(T->getTryBlock());
      b.key("h"); o() << '[';
      for (unsigned i = 0; i < T->getNumHandlers(); i++) { if (i) o() << ','; stmt(T->getHandler(i)->getHandlerBlock()); }
      o() << ']'; return; }
    case Stmt::LabelStmtClass: {
      auto *L = cast<LabelStmt>(S); Obj b(o(), "Label"); b.i("l", l); b.s("n", L->getName()); b.key("b"); stmt(L->getSubStmt()); return; }
    case Stmt::GotoStmtClass: {
      auto *G = cast<GotoStmt>(S); Obj b(o(), "Goto"); b.i("l", l); b.s("n", G->getLabel()->getName()); return; }
    case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(S)->getSubStmt()); return;
    default: {
      Obj b(o(), "OtherStmt"); b.i("l", l).s("sc", S->getStmtClassName()); b.key("a"); list(S->children()); return; }
    }
  }

  void expr(const Expr *E0) {
    const Expr *E = strip(E0);
    unsigned l = lineOf(E->getExprLoc());
    std::string t = type(E->getType());
    // assert()
    if (E->getBeginLoc().isMacroID()) {
      auto *Cd = dyn_cast<ConditionalOperator>(E);
      if (auto *Cs = dyn_cast<CStyleCastExpr>(E)) {
         std::string m = macroOf(E->getBeginLoc());
         if (m == "assert") { Obj b(o(), "Assert"); b.i("l", l); return; }
      }
      if (Cd) {
        std::string m = macroOf(Cd->getQuestionLoc());
        if (m == "assert") { Obj b(o(), "Assert"); b.i("l", l); b.key("e"); stmt(Cd->getCond()); return; }
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto *R = cast<DeclRefExpr>(E); const ValueDecl *D = R->getDecl();
      Obj b(o(), "Ref"); b.s("n", D->getNameAsString()).i("l", l).s("t", t);
      if (auto *P = dyn_cast<ParmVarDecl>(D)) b.s("dk", "parm").i("id", idOf(P));
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) b.s("dk", "global").s("q", V->getQualifiedNameAsString());
        else b.s("dk", "var").i("id", idOf(V));
        if (V->isStaticLocal()) b.i("static", 1);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { b.s("dk", "func").s("q", F->getQualifiedNameAsString()).s("f", mangled(F)); }
      else if (auto *En = dyn_cast<EnumConstantDecl>(D)) { b.s("dk", "enum").s("q", En->getQualifiedNameAsString()).i("v", En->getInitVal().getExtValue()); }
      else b.s("dk", "other").s("q", D->getQualifiedNameAsString());
      std::string m = macroOf(R->getLocation()); if (!m.empty()) b.s("m", m);
      return; }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E); Obj b(o(), "Mem");
      b.s("n", M->getMemberDecl()->getNameAsString()).i("l", l).s("t", t).s("q", M->getMemberDecl()->getQualifiedNameAsString());
      if (M->isArrow()) b.i("ar", 1);
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { (void)V; b.s("dk", "global"); }
      b.key("b"); stmt(M->getBase()); return; }
    case Stmt::CXXThisExprClass: { Obj b(o(), "This"); b.s("t", t); return; }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E); Obj b(o(), "Call"); b.i("l", l).s("t", t);
      const CXXMethodDecl *D = M->getMethodDecl(); callee(b, D);
      bool virt = D && D->isVirtual();
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) virt = false; if(ME->isArrow()) b.i("ar",1);}
      if (virt) b.i("v", 1);
      if (M->getImplicitObjectArgument()) {
        b.s("ot", type(M->getImplicitObjectArgument()->IgnoreImplicit()->getType()));
        b.key("o"); stmt(M->getImplicitObjectArgument()); }
      b.key("a"); list(M->arguments()); return; }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E); Obj b(o(), "Call"); b.i("l", l).s("t", t);
      callee(b, M->getDirectCallee()); b.s("op", getOperatorSpelling(M->getOperator()));
      b.key("a"); list(M->arguments()); return; }
    case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *M = cast<CallExpr>(E); Obj b(o(), "Call"); b.i("l", l).s("t", t);
      callee(b, M->getDirectCallee());
      if (!M->getDirectCallee()) { b.key("ce"); stmt(M->getCallee()); }
      b.key("a"); list(M->arguments()); return; }
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E); Obj b(o(), "New"); b.i("l", l).s("t", type(N->getAllocatedType()));
      if (N->isArray()) { b.i("arr", 1); if (auto sz = N->getArraySize()) { b.key("sz"); stmt(*sz); } }
      if (N->getInitializer()) { b.key("init"); stmt(N->getInitializer()); }
      if (N->getNumPlacementArgs()) b.i("placement", N->getNumPlacementArgs());
      return; }
    case Stmt::CXXDeleteExprClass: {
      auto *N = cast<CXXDeleteExpr>(E); Obj b(o(), "Delete"); b.i("l", l);
      if (N->isArrayForm()) b.i("arr", 1);
      b.s("et", type(N->getDestroyedType()));
      b.key("e"); stmt(N->getArgument()); return; }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E); Obj b(o(), "Un"); b.i("l", l).s("t", t);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "p" + op;
      b.s("op", op); b.key("e"); stmt(U->getSubExpr()); return; }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E); Obj b(o(), "Bin"); b.i("l", l).s("t", t).s("op", B->getOpcodeStr());
      b.key("x"); stmt(B->getLHS()); b.key("y"); stmt(B->getRHS()); return; }
    case Stmt::ConditionalOperatorClass: {
      auto *B = cast<ConditionalOperator>(E); Obj b(o(), "Cond"); b.i("l", l).s("t", t);
      b.key("c"); stmt(B->getCond()); b.key("x"); stmt(B->getTrueExpr()); b.key("y"); stmt(B->getFalseExpr()); return; }
    case Stmt::ArraySubscriptExprClass: {
      auto *B = cast<ArraySubscriptExpr>(E); Obj b(o(), "Idx"); b.i("l", l).s("t", t);
      b.key("b"); stmt(B->getBase()); b.key("i"); stmt(B->getIdx()); return; }
    case Stmt::IntegerLiteralClass: {
      Obj b(o(), "Int"); llvm::SmallString<32> s; cast<IntegerLiteral>(E)->getValue().toStringSigned(s); b.key("v"); o() << s; b.s("t", t); return; }
    case Stmt::CharacterLiteralClass: { Obj b(o(), "Int"); b.i("v", cast<CharacterLiteral>(E)->getValue()).s("t", t); return; }
    case Stmt::FloatingLiteralClass: {
      Obj b(o(), "Flt"); llvm::SmallString<40> s; cast<FloatingLiteral>(E)->getValue().toString(s); b.s("v", s).s("t", t); return; }
    case Stmt::StringLiteralClass: { Obj b(o(), "Str"); b.i("l",l); b.s("v", cast<StringLiteral>(E)->getBytes()); return; }
    case Stmt::CXXBoolLiteralExprClass: { Obj b(o(), "Bool"); b.i("v", cast<CXXBoolLiteralExpr>(E)->getValue()); return; }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { Obj b(o(), "Null"); return; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *X = cast<CXXConstructExpr>(E); Obj b(o(), "Ctor"); b.i("l", l).s("t", t).s("f", mangled(X->getConstructor())).s("q", X->getConstructor()->getParent()->getQualifiedNameAsString());
      if (X->getConstructor()->isCopyOrMoveConstructor()) b.i("copy", 1);
      b.key("a"); list(X->arguments()); return; }
    case Stmt::CXXStdInitializerListExprClass: stmt(cast<CXXStdInitializerListExpr>(E)->getSubExpr()); return;
    case Stmt::InitListExprClass: {
      auto *X = cast<InitListExpr>(E); Obj b(o(), "InitList"); b.i("l", l).s("t", t); b.key("a"); list(X->inits()); return; }
    case Stmt::LambdaExprClass: {
      auto *X = cast<LambdaExpr>(E); Obj b(o(), "Lambda"); b.i("l", l);
      b.key("p"); o() << '['; bool f = true;
      for (auto *p : X->getCallOperator()->parameters()) { if (!f) o() << ','; f = false; vardecl(p); }
      o() << ']';
      b.key("b"); stmt(X->getBody()); return; }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *X = cast<UnaryExprOrTypeTraitExpr>(E); Obj b(o(), "Sizeof"); b.i("l", l);
      b.s("at", type(X->getTypeOfArgument()));
      Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) b.i("v", R.Val.getInt().getExtValue());
      return; }
    case Stmt::ImplicitValueInitExprClass: { Obj b(o(), "ZeroInit"); b.s("t", t); return; }
    case Stmt::CXXScalarValueInitExprClass: { Obj b(o(), "ZeroInit"); b.s("t", t); return; }
    case Stmt::CXXThrowExprClass: { Obj b(o(), "Throw"); b.i("l", l); if (auto *s = cast<CXXThrowExpr>(E)->getSubExpr()) { b.key("e"); stmt(s); } return; }
    default: break;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      Obj b(o(), "Cast"); b.i("l", l).s("t", t).s("ck", X->getCastKindName());
      const char *ek = "implicit";
      if (isa<CXXStaticCastExpr>(X)) ek = "static"; else if (isa<CXXDynamicCastExpr>(X)) ek = "dynamic";
      else if (isa<CXXConstCastExpr>(X)) ek = "const"; else if (isa<CXXReinterpretCastExpr>(X)) ek = "reinterpret";
      else if (isa<CStyleCastExpr>(X)) ek = "c"; else if (isa<CXXFunctionalCastExpr>(X)) ek = "functional";
      b.s("ek", ek);
      b.s("ft", type(X->getSubExpr()->getType()));
      std::string m = macroOf(X->getExprLoc()); if (!m.empty()) b.s("m", m);
      b.key("e"); stmt(X->getSubExpr()); return;
    }
    Obj b(o(), "OtherExpr"); b.i("l", l).s("t", t).s("sc", E->getStmtClassName());
    b.key("a"); list(E->children());
  }

  void function(const FunctionDecl *F) {
    Obj b(o(), "Func");
    b.s("id", mangled(F)).s("q", F->getQualifiedNameAsString()).s("n", F->getNameAsString());
    b.s("file", fileOf(F->getLocation())).i("l", lineOf(F->getLocation()));
    b.i("el", lineOf(F->getBodyRBrace()));
    b.s("rt", type(F->getReturnType()));
    if (F->getStorageClass() == SC_Static) b.i("static", 1);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      b.s("cls", M->getParent()->getQualifiedNameAsString());
      if (M->isVirtual()) b.i("virt", 1);
      if (M->isConst()) b.i("const", 1);
      if (M->isStatic()) b.i("smeth", 1);
      if (M->isUserProvided()) b.i("up", 1);
      b.key("over"); o() << '['; bool f = true;
      for (auto *X : M->overridden_methods()) { if (!f) o() << ','; f = false; jstr(o(), mangled(X)); }
      o() << ']';
    }
    if (isa<CXXConstructorDecl>(F)) b.i("ctor", 1);
    if (isa<CXXDestructorDecl>(F)) b.i("dtor", 1);
    b.key("p"); o() << '[';
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      if (i) o() << ',';
      auto *P = F->getParamDecl(i); Obj p(o(), "Parm");
      p.s("n", P->getNameAsString()).i("id", idOf(P)).s("t", type(P->getType()));
    }
    o() << ']';
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      b.key("inits"); o() << '['; bool f = true;
      for (auto *I : Ct->inits()) {
        if (!f) o() << ','; f = false;
        Obj p(o(), "Init");
        if (I->isAnyMemberInitializer()) p.s("m", I->getAnyMember()->getNameAsString()).s("mt", type(I->getAnyMember()->getType()));
        else if (I->isBaseInitializer()) p.s("base", type(QualType(I->getBaseClass(), 0)));
        else p.i("deleg", 1);
        if (I->isWritten()) p.i("w", 1);
        p.key("e"); stmt(I->getInit());
      }
      o() << ']';
    }
    b.key("body"); stmt(F->getBody());
  }

  void record(const CXXRecordDecl *R) {
    Obj b(o(), "Class");
    b.s("q", R->getQualifiedNameAsString()).s("file", fileOf(R->getLocation())).i("l", lineOf(R->getLocation()));
    b.key("bases"); o() << '['; bool f = true;
    for (auto &B : R->bases()) { if (!f) o() << ','; f = false; jstr(o(), type(B.getType())); }
    o() << ']'; b.key("fields"); o() << '['; f = true;
    for (auto *F : R->fields()) {
      if (!f) o() << ','; f = false; Obj p(o(), "Field");
      p.s("n", F->getNameAsString()).s("t", type(F->getType())).i("l", lineOf(F->getLocation()));
      p.s("ts", F->getType().getAsString(PP));
      if (F->hasInClassInitializer()) { p.i("hasinit", 1); if (F->getInClassInitializer()) { p.key("init"); stmt(F->getInClassInitializer()); } }
      if (F->isMutable()) p.i("mut", 1);
      p.s("acc", F->getAccess()==AS_public?"public":F->getAccess()==AS_protected?"protected":"private");
    }
    o() << ']'; b.key("methods"); o() << '['; f = true;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      if (!f) o() << ','; f = false; Obj p(o(), "Meth");
      p.s("n", M->getNameAsString()).s("id", mangled(M)).s("rt", type(M->getReturnType()));
      if (M->isVirtual()) p.i("virt", 1);
      if (M->isPureVirtual()) p.i("pure", 1);
      if (M->isConst()) p.i("const", 1);
      if (M->isDeleted()) p.i("deleted", 1);
      if (isa<CXXConstructorDecl>(M)) p.i("ctor", 1);
      if (isa<CXXDestructorDecl>(M)) p.i("dtor", 1);
      p.s("acc", M->getAccess()==AS_public?"public":M->getAccess()==AS_protected?"protected":"private");
      p.key("pn"); o() << '[';
      for (unsigned i = 0; i < M->getNumParams(); i++) { if (i) o() << ','; jstr(o(), M->getParamDecl(i)->getNameAsString()); }
      o() << ']';
      p.key("pt"); o() << '[';
      for (unsigned i = 0; i < M->getNumParams(); i++) { if (i) o() << ','; jstr(o(), type(M->getParamDecl(i)->getType())); }
      o() << ']';
      p.key("over"); o() << '['; bool g = true;
      for (auto *X : M->overridden_methods()) { if (!g) o() << ','; g = false; jstr(o(), mangled(X)); }
      o() << ']';
    }
    o() << ']';
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper D;
  std::string buf;
public:
  V(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  template <class Fn> void emit(const std::string &key, Fn fn) {
    if (!Emitted.insert(key).second) return;
    std::string s; llvm::raw_string_ostream os(s);
    D.O = &os; fn(); os.flush();
    *Out << s << '\n';
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
    if (F->isDefaulted() || F->isDeleted()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string id = D.mangled(F);
    emit("F" + id, [&] { D.function(F); });
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    emit("R" + R->getQualifiedNameAsString(), [&] { D.record(R); });
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (isa<CXXRecordDecl>(R)) return true;
    if (!R->isThisDeclarationADefinition() || !D.inRoot(R->getLocation())) return true;
    std::string n = R->getNameAsString();
    if (n.empty()) if (auto *T = R->getTypedefNameForAnonDecl()) n = T->getNameAsString();
    std::string q = n + "@" + D.fileOf(R->getLocation());
    emit("CR" + q, [&] {
      Dumper::Obj b(*D.O, "CRecord"); b.s("q", n).s("file", D.fileOf(R->getLocation())).i("l", D.lineOf(R->getLocation()));
      b.key("fields"); *D.O << '['; bool f = true;
      for (auto *F : R->fields()) { if (!f) *D.O << ','; f = false; Dumper::Obj p(*D.O, "Field"); p.s("n", F->getNameAsString()).s("t", D.type(F->getType())); }
      *D.O << ']';
    });
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    std::string q = E->getQualifiedNameAsString();
    emit("E" + q + std::to_string(D.lineOf(E->getLocation())) + D.fileOf(E->getLocation()), [&] {
      Dumper::Obj b(*D.O, "Enum"); b.s("q", q).s("file", D.fileOf(E->getLocation())).i("l", D.lineOf(E->getLocation()));
      b.key("vals"); *D.O << '['; bool f = true;
      for (auto *X : E->enumerators()) { if (!f) *D.O << ','; f = false; *D.O << '['; jstr(*D.O, X->getNameAsString()); *D.O << ',' << X->getInitVal().getExtValue() << ']'; }
      *D.O << ']';
    });
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (isa<ParmVarDecl>(X)) return true;
    if (!X->hasGlobalStorage() || !D.inRoot(X->getLocation())) return true;
    if (X->getDeclContext()->isDependentContext()) return true;
    std::string q = X->getQualifiedNameAsString();
    bool def = X->isThisDeclarationADefinition() != VarDecl::DeclarationOnly || X->isStaticDataMember();
    if (!def) return true;
    emit("V" + q + D.fileOf(X->getLocation()) + std::to_string(D.lineOf(X->getLocation())), [&] {
      Dumper::Obj b(*D.O, "Global"); b.s("q", q).s("n", X->getNameAsString()).s("file", D.fileOf(X->getLocation())).i("l", D.lineOf(X->getLocation())).s("t", D.type(X->getType()));
      QualType T = X->getType();
      while (T->isArrayType()) T = QualType(T->getArrayElementTypeNoTypeQual(), 0).isNull() ? T : cast<ArrayType>(T.getCanonicalType())->getElementType();
      b.i("const", T.isConstQualified());
      if (X->isStaticLocal()) b.i("staticlocal", 1);
      if (X->isStaticDataMember()) b.i("member", 1);
      if (X->hasInit()) { b.key("init"); D.stmt(X->getInit()); }
    });
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  // hiopdump ROOT OUT file... -- flags
  std::string err;
  if (argc < 5) return 2;
  Root = argv[1];
  std::error_code ec;
  llvm::raw_fd_ostream out(argv[2], ec);
  Out = &out;
  std::vector<std::string> files, flags;
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", flags);
  tooling::ClangTool T(DB, files);
  T.setPrintErrorMessage(false);
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  out.flush();
  return rc;
}
