// F01: every allocation which an operation makes may fail.
#include "mc.h"
#include <cassert>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <bcl/Diagnostic.h>
#include <bcl/Json.h>
#include <bcl/marray.h>
#include <bcl/trait.h>
#include <bcl/transparent_queue.h>
#include <bcl/utility.h>

// The work is divided by choices which are made before the first allocation,
// since the explorer may end an execution there.
// An allocation made by an operation is a choice: it succeeds or fails.
namespace {
bool Armed = false;
int Budget = 0;      ///< failures which may still occur in this execution
int Failed = 0;      ///< failures of the current operation
void *allocate(std::size_t N) {
  if (Armed && Budget > 0) {
    Armed = false;
    bool Fails;
    { mc::NoCount NC; Fails = mc::choose(2); }
    Armed = true;
    if (Fails) { --Budget; ++Failed; return nullptr; }
  }
  return std::malloc(N ? N : 1);
}
} // namespace
void *operator new(std::size_t N) { if (void *P = allocate(N)) return P; throw std::bad_alloc(); }
void *operator new[](std::size_t N) { if (void *P = allocate(N)) return P; throw std::bad_alloc(); }
void *operator new(std::size_t N, const std::nothrow_t &) noexcept { return allocate(N); }
void *operator new[](std::size_t N, const std::nothrow_t &) noexcept { return allocate(N); }
void operator delete(void *P) noexcept { std::free(P); }
void operator delete[](void *P) noexcept { std::free(P); }
void operator delete(void *P, std::size_t) noexcept { std::free(P); }
void operator delete[](void *P, std::size_t) noexcept { std::free(P); }

namespace {
using std::string;
typedef unsigned long long TraitKeyTy;
/// Performs an operation, returns false if it ends with an exception.
template <class F> bool attempt(F &&Op) {
  struct Guard { Guard() { Failed = 0; Armed = true; } ~Guard() { Armed = false; } };
  mc::step();
  try { Guard G; Op(); }
  catch (const std::bad_alloc &) { return false; }
  return true;
}

//===- Queues --------------------------------------------------------------===//
int Items[200];
typedef bcl::TransparentQueue<int> Q;
typedef std::deque<int *> M;

void agree(Q &X, const M &R, const char *Name, const char *What, bool Ok) {
  const char *After = Ok ? "" : "a failed ";
  MC_CHECK(X.size() == R.size() && X.empty() == R.empty(), "queue", "%s has %zu elements instead of %zu after %s%s", Name, (size_t)X.size(), R.size(), After, What);
  if (!R.empty()) MC_CHECK(X.front() == R.front() && X.back() == R.back(), "queue", "an end of %s is wrong after %s%s", Name, After, What);
  Q C(X);
  for (int *I : R) MC_CHECK(C.pop() == I, "queue", "an element of %s is wrong after %s%s", Name, After, What);
}
void queues(int Depth, int Failures) {
  static const int Forms[][2] = {{0, 0}, {1, 0}, {1, 1}, {2, 0}, {3, 2}, {3, 3}, {63, 0}, {64, 0}, {65, 1}, {127, 0}, {128, 64}};
  constexpr int NForms = sizeof Forms / sizeof *Forms;
  Budget = Failures;
  Q X[2]; M R[2];
  string Key;
  int Next = 0;
  for (int I = 0; I < 2; ++I) {
    int F = mc::choose(I ? 5 : NForms);
    for (int K = 0; K < Forms[F][0]; ++K) { X[I].push(Items + Next % 200); R[I].push_back(Items + Next++ % 200); }
    for (int K = 0; K < Forms[F][1]; ++K) { X[I].pop(); R[I].pop_front(); }
    Key += char('a' + F);
  }
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(13);
    if (Op == 0) break;
    int W = Op & 1;
    Q &A = X[W], &B = X[!W]; M &RA = R[W], &RB = R[!W];
    const char *What = "";
    bool Ok = true;
    int *V = Items + Next++ % 200;
    switch ((Op - 1) / 2) {
    case 0: What = "push()"; mc::op("%d.push", W); if ((Ok = attempt([&] { A.push(V); }))) RA.push_back(V); break;
    case 1: What = "emplace()"; mc::op("%d.emplace", W); if ((Ok = attempt([&] { A.emplace(V); }))) RA.push_back(V); break;
    case 2: What = "copy assignment"; mc::op("%d = %d", W, !W); if ((Ok = attempt([&] { A = B; }))) RA = RB; break;
    case 3: What = "pop()"; mc::op("%d.pop", W); Ok = attempt([&] { A.pop(); }); if (Ok && !RA.empty()) RA.pop_front(); break;
    case 4: What = "move assignment"; mc::op("%d = move(%d)", W, !W); if ((Ok = attempt([&] { A = std::move(B); }))) { RA = RB; RB.clear(); } break;
    case 5: {
      What = "construction of a copy"; mc::op("copy of %d", W);
      std::unique_ptr<Q> C; Q *P = nullptr;
      bool Less = false, Eq = true;
      Ok = attempt([&] { P = new Q(A); });
      C.reset(P);
      if (Ok) { agree(*C, RA, "a copy", What, Ok); Ok = attempt([&] { Less = *C < B; Eq = *C == B; }); }
      if (Ok) MC_CHECK(Less == (RA < RB) && Eq == (RA == RB), "queue", "a comparison of a copy is wrong");
      break;
    }
    }
    if (!Failed) MC_CHECK(Ok, "throws", "%s has thrown an exception though no allocation has failed", What);
    agree(X[0], R[0], "the first queue", What, Ok);
    agree(X[1], R[1], "the second queue", What, Ok);
    { mc::NoCount NC; Key += char('0' + Op); Key += Ok ? '+' : '-'; mc::state(Key); mc::outcome(What + string(Ok ? "+" : "-") + std::to_string(Failed)); }
  }
  Armed = false;
  mc::validated();
}

//===- Diagnostics ---------------------------------------------------------===//
void diagnostics(int Depth, int Failures) {
  Budget = Failures;
  int First[2];
  for (int &Op : First) Op = mc::choose(6);
  if (First[0] == 0 && First[1]) mc::discard();
  std::unique_ptr<bcl::Diagnostic> D[2];
  std::vector<string> R[2];
  const char *Kind[2] = {"error", "a kind which does not fit into a small buffer"};
  for (int I = 0; I < 2; ++I) {
    bcl::Diagnostic *P = nullptr;
    bool Ok = attempt([&] { P = new bcl::Diagnostic(Kind[I]); });
    D[I].reset(P);
    if (!Ok) { MC_CHECK(Failed, "throws", "a constructor has thrown an exception though no allocation has failed"); D[I].reset(new bcl::Diagnostic(Kind[I])); }
  }
  string Key;
  for (int S = 0; S < Depth; ++S) {
    int Op = S < 2 ? First[S] : mc::choose(6);
    if (Op == 0) break;
    int W = Op & 1;
    bool Ok = true, Res = true;
    switch (Op) {
    case 1: case 2:
      mc::op("%d.insert", W);
      Ok = attempt([&] { Res = D[W]->insert(S, "a diagnostic which is long enough: %s", 7, "text"); });
      if (Ok) { MC_CHECK(Res, "diagnostic", "insert() returns false"); R[W].push_back(string(D[W]->getKind()) + " C" + std::to_string(S) + "(7): a diagnostic which is long enough: text"); }
      break;
    case 3: case 4: mc::op("%d.clear", W); Ok = attempt([&] { D[W]->clear(); }); R[W].clear(); break;
    case 5: mc::op("swap"); Ok = attempt([&] { D[0]->swap(*D[1]); }); std::swap(R[0], R[1]); std::swap(Kind[0], Kind[1]); break;
    }
    if (!Failed) MC_CHECK(Ok, "throws", "an operation has thrown an exception though no allocation has failed");
    for (int I = 0; I < 2; ++I) {
      MC_CHECK(string(Kind[I]) == D[I]->getKind(), "diagnostic", "the kind is %s", D[I]->getKind());
      MC_CHECK(D[I]->size() == R[I].size() && D[I]->internal_size() == 0, "diagnostic", "there are %zu diagnostics and %zu internal errors instead of %zu and 0 after %s", (size_t)D[I]->size(), (size_t)D[I]->internal_size(), R[I].size(), Ok ? "an operation" : "a failed operation");
      size_t K = 0;
      for (auto *T : *D[I]) MC_CHECK(R[I][K++] == T, "diagnostic", "a diagnostic is %s", T);
    }
    { mc::NoCount NC; Key += char('0' + Op); Key += Ok ? '+' : '-'; mc::state("d" + Key); mc::outcome(string("diagnostic") + (Ok ? "+" : "-")); }
  }
  mc::validated();
}

//===- Sets of traits ------------------------------------------------------===//
int Live;
struct Counted { int Alive = 0x5a5a; Counted() { ++Live; } ~Counted() { if (Alive != 0x5a5a) mc::fail_later("trait", "a description is deleted twice"); Alive = 0; --Live; } };
template <int N> struct T : bcl::TraitBase<N>, Counted { static string name() { return "t" + std::to_string(N); } };
using bcl::TraitAlternative; using bcl::TraitUnion;
typedef bcl::TraitDescriptor<T<0>, TraitAlternative<T<1>, T<2>, TraitUnion<T<3>, T<4>>>> TD;
bool conflict(int A, int B) { return A != B && A && B && !(A >= 3 && B >= 3); }

template <class Map> struct Sets {
  typedef bcl::TraitSet<TD, Map> S;
  struct C { bool Set = false; void *Desc = nullptr; };
  template <int I> static bool is(const S &X) { return X.template is<T<I>>(); }
  template <int I> static void *get(const S &X) { auto *P = X.template get<T<I>>(); if (P && P->Alive != 0x5a5a) mc::fail_later("trait", "get() returns a deleted description"); return const_cast<T<I> *>(P); }
  template <int I> static bool setNew(S &X, void *&D) {
    auto *P = new T<I>;
    D = P;
    bool Ok = attempt([&] { X.template set<T<I>>(P); });
    // It is not owned by the set if it has not been stored.
    if (!Ok) { delete P; D = nullptr; }
    return Ok;
  }
  template <int I> static bool setOnly(S &X) { return attempt([&] { X.template set<T<I>>(); }); }
  template <int I> static bool unset(S &X) { return attempt([&] { X.template unset<T<I>>(); }); }
  template <int I> static bool release(S &X, void *&D) { T<I> *P = nullptr; bool Ok = attempt([&] { P = X.template release<T<I>>(); }); D = P; delete P; return Ok; }
  static constexpr int Ops = 1 + 5 * 3 + 5 + 2 + 1;
  static void mset(C *M, int I) { for (int J = 0; J < 5; ++J) if (conflict(I, J)) M[J] = C(); M[I].Set = true; }
  static bool same(const S &X, const C *M) {
    static bool (*const Is[])(const S &) = {is<0>, is<1>, is<2>, is<3>, is<4>}; static void *(*const Get[])(const S &) = {get<0>, get<1>, get<2>, get<3>, get<4>};
    bool R = true;
    for (int J = 0; J < 5; ++J) R &= Is[J](X) == M[J].Set && Get[J](X) == M[J].Desc;
    return R;
  }
  static void run(int Depth, int Failures, const char *Name) {
    Live = 0;
    Budget = Failures;
    int First[2];
    for (int &Op : First) Op = mc::choose(Ops);
    if (First[0] == 0 && First[1]) mc::discard();
    {
      std::unique_ptr<S> X[2] = {std::unique_ptr<S>(new S), std::unique_ptr<S>(new S)};
      C M[2][5];
      string Key = Name;
      for (int St = 0; St < Depth; ++St) {
        int Op = St < 2 ? First[St] : mc::choose(Ops);
        if (Op == 0) break;
        bool Ok = true;
        C Old[5];
        for (int J = 0; J < 5; ++J) Old[J] = M[0][J];
        const char *What = "";
        if (Op <= 5) {
          static bool (*const F[])(S &, void *&) = {setNew<0>, setNew<1>, setNew<2>, setNew<3>, setNew<4>};
          int I = Op - 1; void *D;
          What = "set(description)"; mc::op("set<%d>(new)", I);
          Ok = F[I](*X[0], D);
          mset(M[0], I);
          if (Ok) M[0][I].Desc = D;
        } else if (Op <= 10) {
          static bool (*const F[])(S &) = {setOnly<0>, setOnly<1>, setOnly<2>, setOnly<3>, setOnly<4>};
          What = "set()"; mc::op("set<%d>", Op - 6); Ok = F[Op - 6](*X[0]); mset(M[0], Op - 6);
        } else if (Op <= 15) {
          static bool (*const F[])(S &) = {unset<0>, unset<1>, unset<2>, unset<3>, unset<4>};
          What = "unset()"; mc::op("unset<%d>", Op - 11); Ok = F[Op - 11](*X[0]); M[0][Op - 11] = C();
        } else if (Op <= 20) {
          static bool (*const F[])(S &, void *&) = {release<0>, release<1>, release<2>, release<3>, release<4>};
          void *D; int I = Op - 16;
          What = "release()"; mc::op("release<%d>", I); Ok = F[I](*X[0], D);
          if (Ok) { MC_CHECK(D == M[0][I].Desc, "trait", "release() returns another description"); M[0][I].Desc = nullptr; }
        } else if (Op == 21) {
          What = "unset_all()"; mc::op("unset_all"); Ok = attempt([&] { X[0]->unset_all(); }); for (auto &K : M[0]) K = C();
        } else if (Op == 22) {
          What = "exchange"; mc::op("exchange"); std::swap(X[0], X[1]); std::swap(M[0], M[1]);
        } else {
          What = "move assignment"; mc::op("move"); Ok = attempt([&] { *X[0] = std::move(*X[1]); });
          X[1].reset(new S);
          for (int J = 0; J < 5; ++J) { M[0][J] = M[1][J]; M[1][J] = C(); }
        }
        if (!Failed) MC_CHECK(Ok, "throws", "%s has thrown an exception though no allocation has failed", What);
        bool Now = same(*X[0], M[0]), Before = !Ok && same(*X[0], Old);
        if (Before) for (int J = 0; J < 5; ++J) M[0][J] = Old[J];
        MC_CHECK(Now || Before, "trait", "traits or descriptions are wrong after %s%s", Ok ? "" : "a failed ", What);
        MC_CHECK(same(*X[1], M[1]), "trait", "another set has changed after %s%s", Ok ? "" : "a failed ", What);
        int Own = 0;
        for (auto &A : M) for (auto &K : A) Own += K.Desc != nullptr;
        MC_CHECK(Live == Own, "trait", "%d descriptions are alive instead of %d after %s%s", Live, Own, Ok ? "" : "a failed ", What);
        { mc::NoCount NC; Key += char('a' + Op); Key += Ok ? '+' : '-'; mc::state(Key); mc::outcome(What + string(Ok ? "+" : "-")); }
      }
    }
    MC_CHECK(Live == 0, "trait", "%d descriptions are not deleted", Live);
    mc::validated();
  }
};

//===- Arrays and objects --------------------------------------------------===//
int Made;
struct Part { std::unique_ptr<int> P; int V; Part() : P(new int(4)), V(7) { ++Made; } ~Part() { --Made; } };
struct Pair { std::unique_ptr<int> P, R; Pair() : P(new int(1)), R(new int(2)) {} Pair(int A, const string &B) : P(new int(A)), R(new int((int)B.size())) {} };
template <size_t N> void array(const char *Name) {
  std::array<std::size_t, N> D;
  string Key = Name;
  for (auto &X : D) { X = 1 + mc::choose(3); Key += std::to_string(X); }
  mc::op("%s", Key.c_str());
  bcl::marray<Part, N> *A = nullptr, *B = nullptr;
  Made = 0;
  bool Ok = attempt([&] { A = new bcl::marray<Part, N>(D); });
  if (!Ok) MC_CHECK(Failed && Made == 0, "array", "%d elements of an array which is not created are left", Made);
  if (Ok) {
    size_t Count = 1;
    for (auto X : D) Count *= X;
    MC_CHECK((size_t)Made == Count, "array", "there are %d elements instead of %zu", Made, Count);
    bool Moved = attempt([&] { B = new bcl::marray<Part, N>(std::move(*A)); });
    if (Moved) { delete A; A = nullptr; }
    MC_CHECK((size_t)Made == Count, "array", "there are %d elements instead of %zu after a move", Made, Count);
    attempt([&] { delete A; delete B; });
    MC_CHECK(Made == 0, "array", "%d elements are left", Made);
  }
  mc::NoCount NC;
  mc::state(Key + (Ok ? "+" : "-"));
  mc::outcome(Name + string(Ok ? "+" : "-"));
}
void objects(int Failures) {
  Budget = Failures;
  int C = mc::choose(6);
  bool Ok = true;
  switch (C) {
  case 0: array<2>("array 2"); break;
  case 1: array<3>("array 3"); break;
  case 2: { mc::op("make_unique"); std::unique_ptr<Pair> P; Ok = attempt([&] { P = bcl::make_unique<Pair>(5, "text"); }); MC_CHECK(Ok ? *P->P == 5 && *P->R == 4 : !P, "object", "a wrong object is made"); break; }
  case 3: { mc::op("make_unique[]"); std::unique_ptr<Part[]> P; Made = 0; Ok = attempt([&] { P = bcl::make_unique<Part[]>(3); }); MC_CHECK(Ok ? Made == 3 && P[2].V == 7 : !P && Made == 0, "object", "a wrong array is made"); break; }
  case 4: { mc::op("make_unique_piecewise"); std::unique_ptr<Pair> P; Ok = attempt([&] { P = bcl::make_unique_piecewise<Pair>(std::tuple<int, string>(6, "a text which does not fit into a small buffer")); }); MC_CHECK(Ok ? *P->P == 6 && *P->R == 45 : !P, "object", "a wrong object is made"); break; }
  case 5: {
    mc::op("swapMemory");
    char A[100], B[100];
    for (int I = 0; I < 100; ++I) { A[I] = char(I); B[I] = char(-I); }
    struct Raw { char X[100]; };
    Ok = attempt([&] { bcl::swapMemory(reinterpret_cast<Raw &>(A), reinterpret_cast<Raw &>(B)); });
    for (int I = 0; I < 100; ++I) MC_CHECK((Ok ? B : A)[I] == char(I) && (Ok ? A : B)[I] == char(-I), "object", "objects are %s exchanged", Ok ? "not" : "partially");
    break;
  }
  }
  if (!Failed) MC_CHECK(Ok, "throws", "an operation has thrown an exception though no allocation has failed");
  mc::NoCount NC;
  mc::state(mc::fmt("object %d %d", C, Ok));
  mc::outcome(mc::fmt("object %d %d", C, Ok));
  mc::validated();
}
} // namespace

//===- JSON ----------------------------------------------------------------===//
#define LONG "a text which does not fit into a small buffer"
JSON_OBJECT_BEGIN(Inner)
JSON_OBJECT_PAIR_2(Inner, Text, std::string, Numbers, std::vector<long>)
  Inner() = default;
JSON_OBJECT_END(Inner)
JSON_OBJECT_BEGIN(Outer)
JSON_OBJECT_ROOT_PAIR_3(Outer, In, Inner, Map, BCL_JOIN(std::map<std::string, std::optional<std::string>>), Set, std::set<std::string>)
  Outer() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Outer)
JSON_OBJECT_BEGIN(Other)
JSON_OBJECT_ROOT_PAIR(Other, List, std::vector<std::string>)
  Other() : JSON_INIT_ROOT {}
JSON_OBJECT_END(Other)
JSON_DEFAULT_TRAITS(::, Inner)
JSON_DEFAULT_TRAITS(::, Outer)
JSON_DEFAULT_TRAITS(::, Other)

namespace {
/// Reads a document, then writes what has been read.
template <class Ty> void document(const char *Name, const string &Doc, const string &Written) {
  mc::op("%s", Name);
  std::unique_ptr<json::Parser<>> P;
  json::Parser<> *New = nullptr;
  bool Ok = attempt([&] { New = new json::Parser<>(Doc); });
  P.reset(New);
  string Key = Name;
  if (!Ok) {
    MC_CHECK(Failed, "throws", "%s: a parser is not constructed", Name);
  } else {
    Ty D{};
    bool Res = false;
    Ok = attempt([&] { Res = P->parse(D); });
    if (!Failed) MC_CHECK(Ok && Res, "throws", "%s: a document is not parsed though no allocation has failed", Name);
    if (Ok && !Res) MC_CHECK(P->hasErrors(), "json", "%s: parse() returns false and no error is recorded", Name);
    Key += Ok ? Res ? "+" : "!" : "-";
    if (Ok && Res) {
      string Out;
      Ok = attempt([&] { Out = json::Parser<>::unparse(D); });
      if (!Failed) MC_CHECK(Ok, "throws", "%s: a value is not written though no allocation has failed", Name);
      if (Ok) MC_CHECK(Out == Written, "json", "%s: %s is read and written as %s", Name, Doc.c_str(), Out.c_str());
      Key += Ok ? "+" : "-";
      Armed = false;
      MC_CHECK(json::Parser<>::unparse(D) == Written, "json", "%s: %s is read as another value", Name, Doc.c_str());
    }
  }
  mc::NoCount NC;
  mc::outcome(Key);
  mc::state(Key + std::to_string(mc::path()));
  mc::validated();
}
template <class Ty> void pointer(const char *Name, const string &Doc, const string &Want, bool Array) {
  mc::op("%s", Name);
  json::Parser<> P(Doc);
  Ty *D = nullptr;
  bool Res = false, Ok = attempt([&] { Res = P.parse(D); });
  if (!Failed) MC_CHECK(Ok && Res, "throws", "%s: a document is not parsed though no allocation has failed", Name);
  if (Ok && !Res) MC_CHECK(P.hasErrors(), "json", "%s: parse() returns false and no error is recorded", Name);
  if (!Ok || !Res) MC_CHECK(!D, "json", "%s: a pointer is assigned by a failed parse()", Name);
  if (D) {
    string Out = json::Parser<>::unparse(*D);
    if (Array) delete[] D; else delete D;
    MC_CHECK(Out == Want, "json", "%s: %s is read as %s", Name, Doc.c_str(), Out.c_str());
  }
  mc::NoCount NC;
  mc::outcome(Name + string(Ok ? Res ? "+" : "!" : "-"));
  mc::state(Name + std::to_string(mc::path()));
  mc::validated();
}
/// Texts with a storage which belongs to a caller.
void characters(const char *Name, const string &Doc, const string &Want) {
  mc::op("%s", Name);
  json::Parser<> P(Doc);
  char *D = nullptr;
  bool Res = false, Ok = attempt([&] { Res = P.parse(D); });
  if (!Failed) MC_CHECK(Ok && Res, "throws", "%s: a document is not parsed though no allocation has failed", Name);
  if (Ok && !Res) MC_CHECK(P.hasErrors(), "json", "%s: parse() returns false and no error is recorded", Name);
  if (!Ok || !Res) MC_CHECK(!D, "json", "%s: a pointer is assigned by a failed parse()", Name);
  if (D) {
    string Out(D, Want.size());
    delete[] D;
    MC_CHECK(Out == Want, "json", "%s: %s is read as %s", Name, Doc.c_str(), Out.c_str());
  }
  mc::NoCount NC;
  mc::outcome(Name + string(Ok ? Res ? "+" : "!" : "-"));
  mc::state(Name + std::to_string(mc::path()));
  mc::validated();
}
/// Documents of objects which are found by a name.
void named(const string &Doc, bool IsOuter) {
  mc::op("object");
  typedef json::Parser<Other, Outer> Parser;
  Parser P(Doc);
  std::unique_ptr<json::Object> O;
  bool Ok = attempt([&] { O = P.parse(); });
  if (!Failed) MC_CHECK(Ok && O, "throws", "an object is not parsed though no allocation has failed");
  if (Ok && !O) MC_CHECK(P.hasErrors(), "json", "parse() returns nothing and no error is recorded");
  string Key = Ok ? O ? "+" : "!" : "-";
  if (O) {
    MC_CHECK(O->is<Outer>() == IsOuter && O->is<Other>() != IsOuter, "json", "an object of another type is parsed");
    string Out, Again;
    Ok = attempt([&] { Out = Parser::unparse(*O); });
    Armed = false;
    Again = Parser::unparse(*O);
    MC_CHECK(Again == Doc && (!Ok || Out == Doc), "json", "%s is read and written as %s", Doc.c_str(), Again.c_str());
    Key += Ok ? "+" : "-";
  }
  mc::NoCount NC;
  mc::outcome("named" + Key);
  mc::state("named" + Key + std::to_string(mc::path()));
  mc::validated();
}
void documents(int Failures) {
  const string L = "\"" LONG "\"", I = "{\"Text\":" + L + ",\"Numbers\":[1,-2,3]}";
  const string O = "{\"name\":\"Outer\",\"In\":" + I + ",\"Map\":{" + L + ":null,\"b\":" + L + "},\"Set\":[" + L + ",\"x\"]}";
  int C = mc::choose(16);
  Budget = Failures;
  switch (C) {
  case 0: document<string>("string", L, L); break;
  case 1: document<std::vector<string>>("strings", "{\"1\":" + L + ",\"0\":\"a\"}", "[\"a\"," + L + "]"); break;
  case 2: document<std::map<string, std::vector<int>>>("map", "{" + L + ":[1,2],\"b\":[]}", "{" + L + ":[1,2],\"b\":[]}"); break;
  case 3: document<std::map<string, std::optional<string>>>("optional", "{\"a\":null,\"b\":" + L + "}", "{\"a\":null,\"b\":" + L + "}"); break;
  case 4: document<std::set<string>>("set", "[" + L + ",\"b\"]", "[" + L + ",\"b\"]"); break;
  case 5: document<std::multimap<string, string>>("multimap", "{\"k\":" + L + ",\"k\":\"v\"}", "{\"k\":" + L + ",\"k\":\"v\"}"); break;
  case 6: document<std::vector<double>>("numbers", "[1.5,-2]", "[1.500000,-2.000000]"); break;
  case 7: document<std::vector<std::optional<bool>>>("booleans", "[true,null,\"false\"]", "[true,null,false]"); break;
  case 8: pointer<string>("pointer", L, L, false); break;
  case 9: pointer<std::vector<string>>("pointer to vectors", "[[" + L + "],[]]", "[" + L + "]", true); break;
  case 10: { document<Inner>("object", I, I); break; }
  case 11: named(O, true); break;
  case 12: named("{\"name\":\"Other\",\"List\":[" + L + "]}", false); break;
  case 14: characters("text", L, LONG + string(1, '\0')); break;
  case 15: characters("characters", "[\"a\",\"b\",\"\\n\"]", "ab\n"); break;
  case 13: {
    mc::op("diagnostics");
    bcl::Diagnostic D("error");
    string Doc = "[\"error C1(2): " LONG "\",\"error C3(4): b\"]";
    ::json::Parser<> P(Doc);
    bool Res = false, Ok = attempt([&] { Res = P.parse(D); });
    if (!Failed) MC_CHECK(Ok && Res && D.size() == 2, "throws", "diagnostics are not parsed though no allocation has failed");
    if (Ok && !Res) MC_CHECK(P.hasErrors(), "json", "parse() returns false and no error is recorded");
    if (Ok && Res) { MC_CHECK(::json::Parser<>::unparse(D) == Doc, "json", "other diagnostics are read"); }
    MC_CHECK(D.internal_size() == 0, "json", "there are internal errors");
    mc::NoCount NC;
    mc::outcome("diagnostics" + string(Ok ? Res ? "+" : "!" : "-"));
    mc::state("diagnostics" + std::to_string(mc::path()));
    mc::validated();
    break;
  }
  }
}
} // namespace

static mc::Opt split(int N) { mc::Opt O; O.split = N; return O; }
void mc_register() {
  mc::scenario("queue", [] { queues(mc::bound(3, 4), mc::bound(2, 3)); }, split(2));
  mc::scenario("diagnostic", [] { diagnostics(mc::bound(6, 7), 2); }, split(2));
  mc::scenario("traits", [] {
    if (mc::choose(2)) Sets<std::map<TraitKeyTy, void *>>::run(mc::bound(4, 5), 2, "map ");
    else Sets<std::unordered_map<TraitKeyTy, void *>>::run(mc::bound(4, 5), 2, "unordered_map ");
  }, split(3));
  mc::scenario("objects", [] { objects(3); }, split(1));
  mc::scenario("json", [] { documents(mc::bound(4, 8)); }, split(1));
}
