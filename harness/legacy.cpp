// L01: legacy text conversion, descriptions of errors and static trees.
#include "legacy.h"
#include <cwchar>
#include <limits>
namespace lg {
std::vector<Case> &cases() { static std::vector<Case> C; return C; }
std::vector<TreeType> &trees() { static std::vector<TreeType> T; return T; }
}
#define X(K) void legacyErrors##K();
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
using namespace lg;
using std::string;

void lg::compareError(const string &Name, const Expected &E, const char *Acronym, int Code, int Below, const string &Type, const string &Brief, const string &Text) {
  MC_CHECK(Code == E.Code, "code", "%s: code is %d instead of %d", Name.c_str(), Code, E.Code);
  MC_CHECK(Below == E.Below, "count", "%s: the error has %d suberrors instead of %d", Name.c_str(), Below, E.Below);
  MC_CHECK(Type == E.Type, "type", "%s: type is '%s' instead of '%s'", Name.c_str(), Type.c_str(), E.Type);
  MC_CHECK(Brief == E.Brief, "brief", "%s: description is '%s' instead of '%s'", Name.c_str(), Brief.c_str(), E.Brief);
  string T = string(Acronym) + ": " + E.Type + " " + std::to_string(E.Code) + ": " + E.Brief;
  MC_CHECK(Text == T, "text", "%s: text is '%s' instead of '%s'", Name.c_str(), Text.c_str(), T.c_str());
}
void lg::compareThrown(const string &Name, const Expected &E, const Base::IException &X, const std::vector<Thrown> &T, const Users &U) {
  MC_CHECK(X.RelativeCode() == E.Code, "relative-code", "%s: relative code is %d instead of %d", Name.c_str(), X.RelativeCode(), E.Code);
  MC_CHECK(X.Type() == E.Type, "type", "%s: type of the exception is '%s' instead of '%s'", Name.c_str(), X.Type().c_str(), E.Type);
  MC_CHECK(X.Brief() == E.Brief && X.Message() == E.Brief, "brief", "%s: exception has '%s' and '%s' instead of '%s'", Name.c_str(), X.Brief().c_str(), X.Message().c_str(), E.Brief);
  for (size_t I = 0; I < U.size(); ++I) {
    MC_CHECK(U[I].first(X) == T[I].Code, "absolute-code", "%s: code in %s is %d instead of %d", Name.c_str(), T[I].Acronym, U[I].first(X), T[I].Code);
    string S = string(T[I].Acronym) + ": " + E.Type + " " + std::to_string(T[I].Code) + ": " + E.Brief;
    MC_CHECK(U[I].second(X) == S, "text", "%s: text in %s is '%s' instead of '%s'", Name.c_str(), T[I].Acronym, U[I].second(X).c_str(), S.c_str());
  }
}

namespace {
string list(const Ints &V) { string R; for (int I : V) R += std::to_string(I) + " "; return R; }
void errors() {
  auto &C = cases()[mc::choose(cases().size())];
  mc::op("error %s", C.Name.c_str());
  C.Run();
  mc::NoCount NC; mc::state(C.Name); mc::validated();
}

//===--- Numbers --------------------------------------------------------===//
/// Decimal digits without library functions.
string decimal(int V) {
  string R; long long X = V; bool Neg = X < 0; if (Neg) X = -X;
  do R.insert(R.begin(), char('0' + X % 10)), X /= 10; while (X);
  return Neg ? "-" + R : R;
}
void number(int V) {
  string W = decimal(V);
  string A = Base::ToTextAnsi(V), B = Base::ToText(V);
  std::wstring U = Base::ToTextUnicode(V);
  MC_CHECK(A == W && B == W, "number", "%d is converted to '%s' and '%s'", V, A.c_str(), B.c_str());
  MC_CHECK(U == std::wstring(W.begin(), W.end()), "number", "%d is converted to another wide text", V);
  mc::step();
}
void numbers() {
  std::vector<std::pair<long long, long long>> R;
  const long long Min = std::numeric_limits<int>::min(), Max = std::numeric_limits<int>::max();
  if (mc::thorough())
    for (long long L = Min; L <= Max; L += 1 << 20) R.push_back({L, L + (1 << 20) - 1});
  else {
    for (long long L = -70000; L < 70000; L += 10000) R.push_back({L, L + 9999});
    for (long long P = 100000; P <= Max; P *= 10)
      for (int K = 1; K < 10 && P * K <= Max; ++K) for (int S : {-1, 1}) R.push_back({S * P * K - 60, S * P * K + 60});
    for (int J = 16; J < 32; ++J) for (int S : {-1, 1}) R.push_back({S * (1LL << J) - 150, S * (1LL << J) + 150});
  }
  auto P = R[mc::choose(R.size())];
  long long L = std::max(P.first, Min), H = std::min(P.second, Max);
  mc::op("numbers from %lld to %lld", L, H);
  for (long long V = L; V <= H; ++V) number(V);
  mc::NoCount NC; mc::state("numbers " + std::to_string(L)); mc::validated();
}

//===--- Copying --------------------------------------------------------===//
template <class C> std::basic_string<C> text(int Len, int Kind) {
  static const unsigned Chars[] = {'a', ' ', 0x80, 0xff, '%', '\n', 1};
  std::basic_string<C> R;
  for (int I = 0; I < Len; ++I) R += C(Kind < 7 && I == Len - 1 ? Chars[Kind] : Kind < 7 ? 'a' + I % 26 : Chars[(I + Kind) % 7]);
  return R;
}
template <class C> void copied(void (*F)(C *, size_t, const C *), int Len, int Size, int Kind, const char *Name) {
  auto From = text<C>(Len, Kind);
  std::unique_ptr<C[]> S(new C[Len + 1]), T(new C[Size]), Big(new C[Size + 1]);
  for (int I = 0; I <= Len; ++I) S[I] = From.c_str()[I];
  for (int I = 0; I < Size; ++I) T[I] = 'Z';
  int Code = 0; string Brief;
  try { F(T.get(), Size, S.get()); }
  catch (const Base::BCLException::Error<CELL_COLL_1(Base::ErrorList::CopyString)> &E) { Code = E.RelativeCode(); Brief = E.ToText<Base::BCL>(); }
  catch (const Base::IException &E) { Code = -1; }
  if (Len < Size) {
    MC_CHECK(!Code, "copy", "%s: text of %d characters is not copied to a buffer of %d", Name, Len, Size);
    for (int I = 0; I <= Len; ++I)
      MC_CHECK(T[I] == S[I], "copy", "%s: character %d of %d is different", Name, I, Len);
  } else {
    MC_CHECK(Code == 6, "copy-fails", "%s: text of %d characters is copied to a buffer of %d: code %d", Name, Len, Size, Code);
    MC_CHECK(Brief == "BCL: error 6: can't copy string", "copy-fails", "%s: error is '%s'", Name, Brief.c_str());
  }
  for (int I = 0; I <= Len; ++I) MC_CHECK(S[I] == From.c_str()[I], "copy-source", "%s: the source is changed", Name);
  mc::step();
}
void copies() {
  int Max = mc::bound(20, 70), Len = mc::choose(Max + 1), Kind = mc::choose(10);
  mc::op("copy %d characters, kind %d", Len, Kind);
  for (int Size = 0; Size <= Max + 3; ++Size) {
    copied<char>(Base::CopyAnsi, Len, Size, Kind, "CopyAnsi");
    copied<char>(Base::CopyString, Len, Size, Kind, "CopyString");
    copied<wchar_t>(Base::CopyUnicode, Len, Size, Kind, "CopyUnicode");
  }
  mc::NoCount NC; mc::state(mc::fmt("copy %d %d", Len, Kind)); mc::validated();
}

//===--- Trees ----------------------------------------------------------===//
void compareTree(const TreeType &T, ITree &P, const Ints &Val, const char *Which) {
  Ints V = P.get();
  MC_CHECK(V == Val, "tree", "%s: %s has values %s instead of %s", T.Name, Which, list(V).c_str(), list(Val).c_str());
  for (int K = 0; K < 2; ++K) {
    Ints W, Ids = P.visit(K, W), X;
    for (int I : T.Post) X.push_back(Val[I]);
    MC_CHECK(Ids == T.Post && W == X, "visit", "%s: %s is visited as %s with %s instead of %s with %s", T.Name, Which, list(Ids).c_str(), list(W).c_str(), list(T.Post).c_str(), list(X).c_str());
  }
}
void treeHistories(int Depth) {
  auto &T = trees()[mc::choose(trees().size())];
  string S = T.Static();
  mc::op("tree %s", T.Name);
  MC_CHECK(S.empty(), "static", "%s: wrong %s", T.Name, S.c_str());
  int N = T.Pre.size();
  std::unique_ptr<ITree> A = T.Make(), B = T.Make();
  Ints VA(N), VB(N);
  for (int I = 0; I < N; ++I) A->set(I, 0, VA[I] = 1 + I % 8), B->set(I, 0, VB[I] = 2);
  for (int D = 0;; ++D) {
    compareTree(T, *A, VA, "A"); compareTree(T, *B, VB, "B");
    { mc::NoCount NC; mc::state(string("tree ") + T.Name + "|" + list(VA) + "|" + list(VB)); }
    if (D == Depth) break;
    int C = mc::choose(1 + 6 + 6 * N);
    if (!C) break;
    if (--C < 6) {
      if (C < 3) { mc::op("B(A) in the way %d", C); B = A->copy(C); VB = VA; }
      else if (C == 3) { mc::op("B = A"); B->assign(*A); VB = VA; }
      else if (C == 4) { mc::op("A = A"); A->assign(*A); }
      else { mc::op("visit B and write"); Ints W; B->visit(2, W); for (int I = 0; I < N; ++I) VB[T.Post[I]] = 1 + I; }
    } else {
      C -= 6;
      int Id = C / 6, How = C % 3, Which = C / 3 % 2, V = 4 + D;
      mc::op("%c[%d] = %d in the way %d", "AB"[Which], Id, V, How);
      (Which ? B : A)->set(Id, How, V); (Which ? VB : VA)[Id] = V;
    }
  }
  mc::validated();
}
struct Ref { typedef int &ValueType; };
struct Leaf { typedef string ValueType; };
void references() {
  int X = 1, Kind = mc::choose(4);
  mc::op("a reference in a node, kind %d", Kind);
  typedef Base::Node<Ref> N; typedef Base::Node<Leaf, N> M;
  N R(X, Null(), Null());
  N Q(R);
  M T("leaf", R, Null());
  const M &C = T;
  int *P[] = {&R.Value<Ref>(), &Q[Ref()], &T.Value<Ref>(), &C.LeftNode().Value<Ref>()};
  for (int *Y : P) MC_CHECK(Y == &X, "reference", "a reference in a node denotes another object");
  *P[Kind] = 5;
  MC_CHECK(X == 5 && T[Leaf()] == "leaf", "reference", "a write to a reference is lost");
  static_assert(!std::is_copy_assignable<N>::value && !std::is_copy_assignable<M>::value, "nodes with references are assignable");
  mc::NoCount NC; mc::state(mc::fmt("reference %d", Kind)); mc::validated();
}
} // namespace
void mc_register() {
  legacyErrors0(); legacyErrors1(); legacyErrors2(); legacyErrors3(); legacyErrors4(); legacyErrors5(); legacyErrors6(); legacyErrors7();
  mc::scenario("errors", errors);
  mc::scenario("numbers", numbers);
  mc::scenario("copies", copies);
  mc::scenario("trees", [] { treeHistories(mc::bound(2, 4)); });
  mc::scenario("references", references);
}
