// J01: what is written is read back, by the parser and by the reference.
#include "json_ref.h"
#include <climits>

JSON_OBJECT_BEGIN(Inner)
JSON_OBJECT_PAIR_3(Inner, I, int, S, std::string, M, BCL_JOIN(std::map<std::string, int>))
JSON_OBJECT_END(Inner)
JSON_DEFAULT_TRAITS(::, Inner)

JSON_OBJECT_BEGIN(Outer)
JSON_OBJECT_ROOT_PAIR_4(Outer, Text, std::string, In, Inner, List, std::vector<Inner>, Opt, std::optional<std::string>)
Outer() : JSON_INIT_ROOT { (*this)[Outer::In][Inner::I] = 0; }
JSON_OBJECT_END(Outer)
JSON_DEFAULT_TRAITS(::, Outer)

JSON_OBJECT_BEGIN(None)
JSON_OBJECT_ROOT_PAIR(None, P, const char *)
None() : JSON_INIT_ROOT { (*this)[None::P] = nullptr; }
JSON_OBJECT_END(None)
JSON_DEFAULT_TRAITS(::, None)

JSON_OBJECT_BEGIN(Ptrs)
JSON_OBJECT_ROOT_PAIR_3(Ptrs, A, int *, B, const char *, C, bool)
Ptrs() : JSON_INIT_ROOT { (*this)[Ptrs::A] = nullptr; (*this)[Ptrs::B] = nullptr; (*this)[Ptrs::C] = false; }
JSON_OBJECT_END(Ptrs)
JSON_DEFAULT_TRAITS(::, Ptrs)

namespace ref {
template <> struct V<Inner> { static bool parse(Text &X, Inner &D) { return V<json_::InnerImpl::Base>::parse(X, D); } };
template <> struct V<Outer> { static bool parse(Text &X, Outer &D) { return V<json_::OuterImpl::Base>::parse(X, D); } };
} // namespace ref
static bool operator==(const Inner &A, const Inner &B) { return A[Inner::I] == B[Inner::I] && A[Inner::S] == B[Inner::S] && A[Inner::M] == B[Inner::M]; }
static bool operator==(const Outer &A, const Outer &B) {
  return A[Outer::Text] == B[Outer::Text] && A[Outer::Opt] == B[Outer::Opt] && A[Outer::In] == B[Outer::In] && A[Outer::List] == B[Outer::List]; }

namespace {
using namespace std;
using S = std::string;

const S &special(int N) {
  static const vector<S> *L = [] { mc::NoCount NC; return new vector<S>{
    "", "a", "\"", "\\", "/", "\n", "null", "\\\"", "a long text which ends with a backslash\\", "{\"a\":1}", S("\0", 1), "\"q\"",
    "12", " ", "true", ",", ":", "]", "\\n", "\xff\x80", "\\u0041", "//", "\t\v\f\r", "a\\", "'"}; }();
  return (*L)[N];
}
constexpr int NSpecial = 25;

template <class T> struct Gen;
template <> struct Gen<S> { static int Max; static S make() { return special(mc::choose(Max)); } };
int Gen<S>::Max = 10;
int NInts = 4, NSize = 3;
void limits(int Strings, int Ints, int Size) { Gen<S>::Max = Strings; NInts = Ints; NSize = Size; }
template <class T> struct Ints {
  static T make() {
    static const T L[] = {0, 1, 7, 10, numeric_limits<T>::max(), numeric_limits<T>::min(), (T)-1, (T)(numeric_limits<T>::max() - 1), (T)(numeric_limits<T>::min() + 1), (T)-10, 100};
    return L[mc::choose(sizeof L / sizeof *L)];
  }
};
template <> struct Gen<int> { static int make() { static const int L[] = {0, INT_MIN, INT_MAX, -1}; return L[mc::choose(NInts)]; } };
template <> struct Gen<bool> { static bool make() { return mc::choose(2); } };
template <> struct Gen<char> { static char make() { return (char)mc::choose(256); } };
template <class T> struct Gen<vector<T>> {
  static vector<T> make() { vector<T> R; for (int N = mc::choose(NSize); N; --N) R.push_back(Gen<T>::make()); return R; } };
template <class T> struct Gen<set<T>> {
  static set<T> make() { set<T> R; for (int N = mc::choose(NSize); N; --N) R.insert(Gen<T>::make()); return R; } };
template <class K, class T> struct Gen<map<K, T>> {
  static map<K, T> make() { map<K, T> R; for (int N = mc::choose(NSize); N; --N) { auto Ky = Gen<K>::make(); R[Ky] = Gen<T>::make(); } return R; } };
template <class K, class T> struct Gen<multimap<K, T>> {
  static multimap<K, T> make() { multimap<K, T> R; for (int N = mc::choose(NSize); N; --N) { auto Ky = Gen<K>::make(); R.emplace(Ky, Gen<T>::make()); } return R; } };
template <class T> struct Gen<optional<T>> {
  static optional<T> make() { if (!mc::choose(2)) return nullopt; return Gen<T>::make(); } };
template <> struct Gen<Inner> {
  static Inner make() { Inner R; R[Inner::I] = Gen<int>::make(); R[Inner::S] = Gen<S>::make(); R[Inner::M] = Gen<map<S, int>>::make(); return R; } };

template <class A, class B> bool eq(const A &X, const B &Y) { return X == Y; }

template <class T> void back(const T &V, const S &Txt, const char *What) {
  T Got{};
  json::Parser<> P(Txt);
  bool R = P.parse(Got);
  mc::step(2);
  MC_CHECK(R && !P.hasErrors(), "refused", "%s: the written text %s is refused: %s", What, mc::show(Txt).c_str(), P.errors().empty() ? "" : *P.errors().begin());
  MC_CHECK(eq(Got, V), "value", "%s: the written text %s is read as another value", What, mc::show(Txt).c_str());
  mc::NoCount NC;
  T Want{};
  ref::Text X(Txt);
  MC_CHECK(ref::whole(X, [&](ref::Text &Y) { return ref::V<T>::parse(Y, Want); }), "text", "%s: the written text %s is malformed", What, mc::show(Txt).c_str());
  MC_CHECK(eq(Want, V), "text-value", "%s: the written text %s stands for another value", What, mc::show(Txt).c_str());
  mc::state(What + Txt);
  mc::outcome(Txt);
  mc::validated();
}
template <class T> void round(const T &V, const char *What) {
  S Txt = json::Parser<>::unparse(V);
  mc::op("%s: %s", What, mc::verbose() ? mc::show(Txt).c_str() : "");
  back(V, Txt, What);
}

/// Every string up to a length, everywhere.
void strings(int Len) {
  static const S Abc("\"\\/\n\ta{},:n[ \0\xc3\v\x01", 18);
  S V;
  for (int I = 0; I < Len; ++I) { int C = mc::choose(Abc.size() + 1); if (!C) break; V += Abc[C - 1]; }
  if (mc::choose(2)) V = "0123456789abcdefghijklmnopqrstuvwxyz" + V;
  switch (mc::choose(9)) {
  case 0: round(V, "string"); break;
  case 1: round(vector<S>{V, "x", V}, "vector<string>"); break;
  case 2: round(set<S>{V, "x"}, "set<string>"); break;
  case 3: round(map<S, S>{{V, V}, {"x", "y"}}, "map<string,string>"); break;
  case 4: round(optional<S>(V), "optional<string>"); break;
  case 5: { Inner O{}; O[Inner::S] = V; O[Inner::M][V] = 1; round(O, "object"); break; }
  case 6: round(map<S, map<S, vector<S>>>{{V, {{V, {V}}}}}, "nested"); break;
  case 7: round(multimap<S, int>{{V, 1}, {V, 2}}, "multimap"); break;
  case 8: { // C strings end at a null character
    const char *C = V.c_str();
    S Txt = json::Parser<>::unparse(C);
    mc::op("C string: %s", mc::verbose() ? mc::show(Txt).c_str() : "");
    const char *G = nullptr; char *G2 = nullptr;
    json::Parser<> P(Txt), P2(Txt);
    bool R = P.parse(G), R2 = P2.parse(G2);
    unique_ptr<const char[]> H(G); unique_ptr<char[]> H2(G2);
    MC_CHECK(R && R2 && !P.hasErrors() && !P2.hasErrors() && !strcmp(G, C) && !strcmp(G2, C), "c-string", "the C string %s is read back as another one", mc::show(V).c_str());
    mc::validated();
    break; }
  }
}
void chars() {
  char C = (char)mc::choose(256);
  switch (mc::choose(4)) {
  case 0: round(C, "char"); break;
  case 1: round(vector<char>{C, 'x', C}, "vector<char>"); break;
  case 2: round(map<char, char>{{C, C}}, "map<char,char>"); break;
  case 3: round(optional<char>(C), "optional<char>"); break;
  }
}
template <class T> void intsOf(const char *What) {
  T V = Ints<T>::make(), W = Ints<T>::make();
  switch (mc::choose(6)) {
  case 0: round(V, What); break;
  case 1: round(vector<T>{V, W}, What); break;
  case 2: round(set<T>{V, W}, What); break;
  case 3: round(map<T, T>{{V, W}, {W, V}}, What); break;
  case 4: round(optional<T>(V), What); break;
  case 5: { // an array behind a pointer
    T A = V; T *P = &A, *G = nullptr;
    S Txt = json::Parser<>::unparse(P);
    json::Parser<> Pa(Txt);
    bool R = Pa.parse(G);
    unique_ptr<T> H(G);
    MC_CHECK(R && G && *G == V && !Pa.hasErrors(), "pointer", "%s: the value behind a pointer is read back as another one from %s", What, Txt.c_str());
    mc::validated();
    break; }
  }
}
void ints() {
  switch (mc::choose(6)) {
  case 0: intsOf<int>("int"); break;
  case 1: intsOf<unsigned>("unsigned"); break;
  case 2: intsOf<long>("long"); break;
  case 3: intsOf<unsigned long>("unsigned long"); break;
  case 4: intsOf<long long>("long long"); break;
  case 5: intsOf<unsigned long long>("unsigned long long"); break;
  }
}
/// Small numbers, all of them.
void numbers() {
  int V = mc::choose(mc::bound(3000, 40000)) - mc::bound(1500, 20000);
  round(V, "int"); round((long)V * 1000003, "long");
  round((unsigned)(V + 40000), "unsigned"); round(vector<int>{V, -V}, "vector<int>");
  round(map<int, int>{{V, V}, {V + 1, -V}}, "map<int,int>");
  // Six digits after the point are written.
  round(V / 1e6, "double"); round(V / 1e3 * (1 << 20), "double"); round((float)(V / 1e4), "float"); round((float)(V / 1e6), "float");
}
/// Floating point numbers which have up to six digits after the point.
template <class T> void floatsOf(const char *What) {
  static const T L[] = {0, T(0.1), T(-0.5), T(1e-6), T(-0.000003), T(1.25), T(1234.5), 16777216, -16777215, T(1e15), T(1e22), T(-1e30),
    numeric_limits<T>::max(), numeric_limits<T>::lowest(), T(9007199254740993.0), T(999999.9), T(0.999999)};
  T A = L[mc::choose(17)], B = L[mc::choose(17)];
  round(A, What); round(vector<T>{A, B}, "vector of floating point numbers"); round(map<S, T>{{"", A}, {"x", B}}, "map to floating point numbers");
  round(optional<T>(B), "optional floating point number");
}
void floats() { mc::choose(2) ? floatsOf<float>("float") : floatsOf<double>("double"); }


void nested() {
  bool Q = !mc::thorough();
  int C = mc::choose(18);
  switch (C) {
  case 0: limits(Q ? 5 : 9, 4, 3); round(Gen<vector<vector<S>>>::make(), "vector<vector<string>>"); break;
  case 1: limits(Q ? 8 : 14, 4, 3); round(Gen<map<S, vector<int>>>::make(), "map<string,vector<int>>"); break;
  case 2: limits(Q ? 3 : 4, Q ? 2 : 3, 3); round(Gen<map<int, map<S, S>>>::make(), "map<int,map<string,string>>"); break;
  case 3: limits(NSpecial, 4, 4); round(Gen<set<S>>::make(), "set<string>"); break;
  case 4: limits(1, 4, 5); round(Gen<vector<optional<int>>>::make(), "vector<optional<int>>"); break;
  case 5: limits(NSpecial, 4, Q ? 2 : 3); round(Gen<map<S, optional<S>>>::make(), "map<string,optional<string>>"); break;
  case 6: limits(Q ? 4 : 7, 4, 3); round(Gen<multimap<S, vector<S>>>::make(), "multimap<string,vector<string>>"); break;
  case 7: limits(1, Q ? 3 : 4, 3); round(Gen<vector<map<int, bool>>>::make(), "vector<map<int,bool>>"); break;
  case 8: limits(1, 4, 3); round(Gen<map<bool, set<int>>>::make(), "map<bool,set<int>>"); break;
  case 9: limits(Q ? 5 : 9, 4, 3); round(Gen<vector<set<S>>>::make(), "vector<set<string>>"); break;
  case 10: limits(5, 2, 2); round(Gen<vector<Inner>>::make(), "vector<object>"); break;
  case 11: limits(5, 2, 2); round(Gen<map<S, Inner>>::make(), "map<string,object>"); break;
  case 12: limits(1, 4, 5); round(Gen<optional<vector<int>>>::make(), "optional<vector<int>>"); break;
  case 13: limits(Q ? 10 : NSpecial, 4, 3); round(Gen<optional<map<S, S>>>::make(), "optional<map<string,string>>"); break;
  case 14: limits(Q ? 3 : 5, 1, 3); round(Gen<map<S, vector<vector<int>>>>::make(), "map<string,vector<vector<int>>>"); break;
  case 15: limits(5, 2, 2); round(Gen<vector<optional<Inner>>>::make(), "vector<optional<object>>"); break;
  case 16: limits(NSpecial, 4, 2); round(Gen<Inner>::make(), "object"); break;
  case 17: {
    limits(Q ? 2 : 3, 1, 2);
    vector<Inner> V; V.push_back(Gen<Inner>::make()); V.push_back(Gen<Inner>::make());
    round(V, "vector<object>"); break; }
  }
}

/// Root objects, with and without their name.
void roots() {
  limits(NSpecial, 2, 2);
  Outer O;
  O[Outer::Text] = Gen<S>::make();
  limits(mc::bound(2, 4), 2, 2);
  O[Outer::In][Inner::I] = Gen<int>::make();
  O[Outer::In][Inner::S] = Gen<S>::make();
  if (mc::choose(2)) O[Outer::In][Inner::M][special(mc::choose(mc::bound(6, NSpecial)))] = 3;
  for (int N = mc::choose(2); N; --N) O[Outer::List].push_back(Gen<Inner>::make());
  O[Outer::Opt] = Gen<optional<S>>::make();
  const char *NameKey = mc::choose(2) ? "name" : "type of this";
  const json::Object &Base = O;
  S Plain = json::Parser<Outer>::unparse(O);
  S Named = json::Parser<None, Outer, Ptrs>::unparse(Base, NameKey);
  S Named2 = json::Parser<Outer>::unparseAsObject(O, NameKey);
  mc::op("object: %s", mc::verbose() ? mc::show(Named).c_str() : "");
  back(O, Plain, "object");
  MC_CHECK(Named == Named2, "named", "the two ways to write a named object differ: %s %s", Named.c_str(), Named2.c_str());
  for (auto &Txt : {Named, Named2}) {
    json::Parser<None, Outer, Ptrs> P(Txt, NameKey);
    auto R = P.parse();
    MC_CHECK(R && !P.hasErrors() && R->is<Outer>() && !R->is<None>() && R->getName() == "Outer", "named", "the named object is refused: %s", mc::show(Txt).c_str());
    MC_CHECK((R->as<Outer>() == O), "value", "the named object is read as another one: %s", mc::show(Txt).c_str());
    Outer D;
    json::Parser<> Q(Txt);
    MC_CHECK(Q.parse(D) && (D == O), "value", "the named object is not read without its name: %s", mc::show(Txt).c_str());
    // The name is a member of a well-formed object.
    mc::NoCount NC;
    ref::Text X(Txt); Outer W; bool Found = false;
    MC_CHECK(ref::whole(X, [&](ref::Text &Y) { return ref::V<Outer>::parse(Y, W); }) && (W == O), "text", "the written text %s is malformed", mc::show(Txt).c_str());
    ref::Text Z(Txt); Z.next();
    MC_CHECK(ref::members(Z, false, true, [&](ref::Tok *K, size_t) {
      if (K->Raw == NameKey) { Found = Z.T.Kind == ref::Tok::Str && Z.T.Text == "Outer"; }
      return Z.compound() ? Z.skip() : true; }) && Found, "text", "the written text %s has no name", mc::show(Txt).c_str());
    mc::validated();
  }
  // An object which the parser does not know.
  MC_CHECK(json::Parser<None>::unparse(Base).empty(), "unknown", "an object of an unknown type is written");
}

/// Null pointers are absent.
void pointers() {
  Ptrs O;
  int I = 5; S T = special(mc::choose(NSpecial));
  T = T.c_str();
  bool A = mc::choose(2), B = mc::choose(2);
  if (A) O[Ptrs::A] = &I;
  if (B) O[Ptrs::B] = T.c_str();
  O[Ptrs::C] = mc::choose(2);
  for (int K = 0; K < 2; ++K) {
    S Txt = K ? json::Parser<Ptrs>::unparseAsObject(O) : json::Parser<Ptrs>::unparse(O);
    mc::op("pointers: %s", mc::verbose() ? mc::show(Txt).c_str() : "");
    Ptrs G;
    json::Parser<> P(Txt);
    bool R = P.parse(G);
    unique_ptr<int> HA(G[Ptrs::A]); unique_ptr<const char[]> HB(G[Ptrs::B]);
    MC_CHECK(R && !P.hasErrors(), "refused", "pointers: %s is refused", mc::show(Txt).c_str());
    MC_CHECK(!!HA == A && !!HB == B && G[Ptrs::C] == O[Ptrs::C] && (!A || *HA == 5) && (!B || T == HB.get()), "value", "pointers: %s is read as another value", mc::show(Txt).c_str());
    mc::state(Txt);
    mc::validated();
  }
  // An object without any member, with its name.
  None N, N2;
  S Txt = json::Parser<None>::unparseAsObject(N);
  json::Parser<None> P(Txt);
  auto R = P.parse();
  MC_CHECK(R && !P.hasErrors() && R->is<None>() && !R->as<None>()[None::P], "empty", "an empty object is refused: %s", Txt.c_str());
  // Containers of pointers: the null ones are left out.
  vector<const char *> L; map<int, S> Want;
  for (int K = 0; K < 3; ++K) {
    int C = mc::choose(3);
    L.push_back(C == 0 ? nullptr : C == 1 ? "x" : T.c_str());
    if (C) Want[K] = L.back();
  }
  S LT = json::Parser<>::unparse(L);
  map<int, S> Got;
  if (Want.size() == 3) {
    vector<S> GV; json::Parser<> PV(LT);
    MC_CHECK(PV.parse(GV) && GV.size() == 3 && GV[0] == L[0] && GV[1] == L[1] && GV[2] == L[2], "value", "vector of strings: %s", mc::show(LT).c_str());
  } else {
    json::Parser<> PM(LT);
    MC_CHECK(PM.parse(Got) && Got == Want, "value", "vector with null pointers: %s is read as another value", mc::show(LT).c_str());
  }
  map<S, const char *> M; map<S, S> WM, GM;
  for (int K = 0; K < 3; ++K) { M[special(K)] = L[K]; if (L[K]) WM[special(K)] = L[K]; }
  S MT = json::Parser<>::unparse(M);
  json::Parser<> PM(MT);
  MC_CHECK(PM.parse(GM) && GM == WM, "value", "map with null pointers: %s is read as another value", mc::show(MT).c_str());
  set<const char *> Se; set<S> WS, GS;
  for (auto *X : L) { Se.insert(X); if (X) WS.insert(X); }
  if (WS.size() + (Se.count(nullptr)) == Se.size()) {
    S ST = json::Parser<>::unparse(Se);
    json::Parser<> PS(ST);
    MC_CHECK(PS.parse(GS) && GS == WS, "value", "set with null pointers: %s is read as another value", mc::show(ST).c_str());
  }
  mc::validated();
}

/// Long strings and large containers.
const int Sizes[] = {127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
constexpr int NSizes = sizeof Sizes / sizeof *Sizes;
int someSize(int Small, int Max = 70000) {
  int N = 0; while (N < NSizes && Sizes[N] <= Max) ++N;
  int C = mc::choose(Small + N);
  return C < Small ? C : Sizes[C - Small];
}
template <class F> void longStrings(F Where) {
  int L = someSize(mc::bound(70, 126));
  static const char *Sp[] = {"", "\"", "\\", "\n", "\"]}", "\\\""};
  bool Big = L > 4097;
  int C = mc::choose(Big ? 2 : 6), P = C ? 3 - mc::choose(Big ? 2 : 4) : 0;
  S V(L, 'x');
  for (int I = 0; I < L; ++I) V[I] = char('a' + I % 23);
  if (P < 3) V.insert(P == 0 ? 0 : P == 1 ? L / 2 : L, Sp[C]);
  else { S R; for (char Ch : V) { R += Ch; R += Sp[C]; } V = R; } // every second character is special
  Where(V);
}
void large() {
  int K = mc::choose(10);
  switch (K) {
  case 0: longStrings([](const S &V) { round(V, "string"); }); break;
  case 1: longStrings([](const S &V) { round(vector<S>{V, "", V}, "vector<string>"); }); break;
  case 2: longStrings([](const S &V) { round(map<S, S>{{V, V}, {V + "2", "x"}}, "map<string,string>"); }); break;
  case 3: longStrings([](const S &V) { Inner O{}; O[Inner::I] = 1; O[Inner::S] = V; O[Inner::M][V] = 1; round(O, "object"); }); break;
  case 4: { int N = someSize(70); vector<int> V; for (int I = 0; I < N; ++I) V.push_back(I * 17 - 5); round(V, "vector<int>"); break; }
  case 5: { int N = someSize(70, 4097); vector<S> V; for (int I = 0; I < N; ++I) V.push_back(special(I % NSpecial)); round(V, "vector<string>"); break; }
  case 6: { int N = someSize(70, 33000); set<S> V; for (int I = 0; I < N; ++I) V.insert(to_string(I)); round(V, "set<string>"); break; }
  case 7: { int N = someSize(70, 33000); map<int, S> V; for (int I = 0; I < N; ++I) V[I - 9] = special(I % NSpecial); round(V, "map<int,string>"); break; }
  case 8: { int N = someSize(70, 4097); map<S, vector<int>> V; for (int I = 0; I < N; ++I) V[to_string(I) + "\""] = vector<int>(I % 3, I); round(V, "map<string,vector<int>>"); break; }
  case 9: { int N = someSize(70, 4097); vector<Inner> V(N); for (int I = 0; I < N; ++I) { V[I][Inner::I] = I; V[I][Inner::S] = special(I % NSpecial); V[I][Inner::M][to_string(I)] = -I; } round(V, "vector<object>"); break; }
  }
}

/// Diagnostics.
void diagnostics() {
  static const char *Kinds[] = {"error", "json error", "", "a kind: with C1(2): in it"};
  const char *K = Kinds[mc::choose(4)];
  bcl::Diagnostic D(K), G(K);
  for (int N = mc::choose(mc::bound(3, 4)); N; --N) {
    S T = special(mc::choose(NSpecial)); T = T.c_str();
    static const uintmax_t Pos[] = {0, 17, UINTMAX_MAX};
    D.insert(mc::choose(2) ? SIZE_MAX : 3, "%s", Pos[mc::choose(3)], T.c_str());
  }
  S Txt = json::Parser<>::unparse(D);
  mc::op("diagnostics: %s", mc::verbose() ? mc::show(Txt).c_str() : "");
  json::Parser<> P(Txt);
  MC_CHECK(P.parse(G) && !P.hasErrors(), "refused", "diagnostics %s are refused", mc::show(Txt).c_str());
  vector<S> A, B;
  for (auto *X : D) A.push_back(X);
  for (auto *X : G) B.push_back(X);
  MC_CHECK(A == B, "value", "diagnostics %s are read as other ones", mc::show(Txt).c_str());
  if (!A.empty()) { // Diagnostics of another kind are refused.
    bcl::Diagnostic O("other");
    json::Parser<> Q(Txt);
    MC_CHECK(!Q.parse(O) && Q.hasErrors() && O.empty(), "kind", "diagnostics of another kind are accepted");
  }
  mc::state(Txt);
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("strings", [] { strings(mc::bound(3, 4)); });
  mc::scenario("chars", chars);
  mc::scenario("ints", ints);
  mc::scenario("numbers", numbers);
  mc::scenario("floats", floats);
  mc::scenario("large", large);
  mc::scenario("nested", nested);
  mc::scenario("roots", roots);
  mc::scenario("pointers", pointers);
  mc::scenario("diagnostics", diagnostics);
}
