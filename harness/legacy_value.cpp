// L03: values with an undefined state (legacy/value.h).
#include "mc.h"
#include <bcl/legacy/value.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
using std::string;

namespace {
using Utility::False;
using Utility::True;
template<class T> using Weak = Utility::Value<T, True>;
template<class T> using Strong = Utility::Value<T, False>;

/// A value which knows whether it is alive, with a default state.
struct Num {
  static int Alive;
  int V;
  std::unique_ptr<int> P;
  Num() : Num(0) {}
  Num(int V) : V(V), P(new int(V)) { ++Alive; }
  Num(const Num &O) : Num(*O.P) {}
  Num &operator=(const Num &O) { int X = *O.P; *P = X; V = X; return *this; }
  ~Num() { --Alive; }
  friend bool operator==(const Num &A, const Num &B) { return *A.P == *B.P; }
  friend bool operator!=(const Num &A, const Num &B) { return *A.P != *B.P; }
  friend bool operator<(const Num &A, const Num &B) { return *A.P < *B.P; }
  friend bool operator<=(const Num &A, const Num &B) { return *A.P <= *B.P; }
  friend bool operator>(const Num &A, const Num &B) { return *A.P > *B.P; }
  friend bool operator>=(const Num &A, const Num &B) { return *A.P >= *B.P; }
  friend std::ostream &operator<<(std::ostream &O, const Num &N) { return O << "N" << *N.P; }
};
int Num::Alive = 0;

enum Color { Red, Green = 7, Blue = 200 };

template<class T> struct Alphabet;
template<> struct Alphabet<int> { static std::vector<int> get() { return {0, -1, 2147483647}; } };
template<> struct Alphabet<bool> { static std::vector<bool> get() { return {false, true}; } };
template<> struct Alphabet<char> { static std::vector<char> get() { return {'\0', 'a', '\x80'}; } };
template<> struct Alphabet<long long> { static std::vector<long long> get() { return {0, 1LL << 40, -(1LL << 62)}; } };
template<> struct Alphabet<double> { static std::vector<double> get() { return {0.5, -1e300, NAN}; } };
template<> struct Alphabet<Color> { static std::vector<Color> get() { return {Red, Green, Blue}; } };
template<> struct Alphabet<Num> { static std::vector<Num> get() { return {0, 5, -5}; } };
template<> struct Alphabet<string> { static std::vector<string> get() { return {"", "b", string(40, 'a')}; } };
int Cells[3];
template<> struct Alphabet<int *> { static std::vector<int *> get() { return {nullptr, &Cells[0], &Cells[2]}; } };

template<class T> string show(const T &V) { std::ostringstream S; S << V; return S.str(); }

/// Storage with arbitrary contents: nothing may depend on them.
template<class T> struct Place {
  alignas(T) unsigned char Mem[sizeof(T)];
  T *P = nullptr;
  template<class... As> void make(As &&...A) {
    drop();
    std::memset(Mem, 0xCD, sizeof Mem);
    P = new (Mem) T(std::forward<As>(A)...);
  }
  void drop() { if (P) { P->~T(); P = nullptr; } }
  ~Place() { drop(); }
  T &operator*() { return *P; }
};

template<class A, class B> void compare(const char *What, const std::optional<A> &X, const std::optional<B> &Y, const bool (&Got)[6]) {
  bool D = X && Y;
  bool Eq = !X && !Y ? true : D && *X == *Y;
  bool Want[] = {Eq, !Eq, D && *X < *Y, D && *X <= *Y, D && *X > *Y, D && *X >= *Y};
  static const char *Op[] = {"==", "!=", "<", "<=", ">", ">="};
  for (int I = 0; I < 6; ++I)
    MC_CHECK(Got[I] == Want[I], "compare", "%s: %s %s %s is %d", What, X ? show(*X).c_str() : "undef", Op[I], Y ? show(*Y).c_str() : "undef", Got[I]);
  mc::step();
}
#define COMPARE(What, L, R, ML, MR) \
  do { const bool Got[6] = {bool((L) == (R)), bool((L) != (R)), bool((L) < (R)), bool((L) <= (R)), bool((L) > (R)), bool((L) >= (R))}; \
    compare(What, ML, MR, Got); } while (0)

template<class T> T &raw(Weak<T> &W) { return W; }
template<class T> const T &raw(const Weak<T> &W) { return W; }
template<class T> T &raw(Strong<T> &W) { return W; }
template<class T> const T &raw(const Strong<T> &W) { return W; }

template<class T> bool same(const T &A, const T &B) { return A == B || (A != A && B != B); }

/// What is seen of a value with an undefined state.
template<class T> void look(Weak<T> &W, const std::optional<T> &M) {
  const Weak<T> &C = W;
  MC_CHECK((W == undef) == !M && (C == undef) == !M, "undefined", "a value is %s, but == undef says otherwise", M ? "defined" : "undefined");
  MC_CHECK((W != undef) == bool(M) && (C != undef) == bool(M), "undefined", "a value is %s, but != undef says otherwise", M ? "defined" : "undefined");
  MC_CHECK((undef == C) == !M && (undef != C) == bool(M), "undefined", "a value is %s, but undef == says otherwise", M ? "defined" : "undefined");
  MC_CHECK(show(C) == (M ? show(*M) : "undef"), "output", "'%s' is written instead of '%s'", show(C).c_str(), M ? show(*M).c_str() : "undef");
  if (M) {
    MC_CHECK(same<T>(raw<T>(W), *M) && same<T>(raw<T>(C), *M), "value", "the value is %s instead of %s", show(raw<T>(C)).c_str(), show(*M).c_str());
    MC_CHECK(&raw<T>(W) == &raw<T>(C), "value", "conversions refer to different objects");
  }
}

template<class T> string key(const std::optional<T> &M) { return M ? "=" + show(*M) : "-"; }

/// Histories over two weak objects and a strong one.
template<class T> void history(int Depth) {
  const bool Pointer = std::is_pointer<T>::value;
  const int Alive = Num::Alive;
  {
  const auto Vals = Alphabet<T>::get();
  const int N = Vals.size();
  {
  std::unique_ptr<Place<Weak<T>>> W[2];
  std::optional<T> M[2];
  using StrongT = std::conditional_t<Pointer, int, Strong<T>>;
  Place<StrongT> S;
  std::optional<T> MS;
  auto value = [&] { return T(Vals[mc::choose(N)]); };
  auto opt = [&](T V) { return Pointer && V == T() ? std::optional<T>() : std::optional<T>(V); };
  for (auto &P : W) P = std::make_unique<Place<Weak<T>>>();
  // How the objects are made.
  for (int I = 0; I < 2; ++I)
    switch (mc::choose(I ? 2 : 3)) {
    case 0: W[I]->make(); mc::op("w%d()", I); break;
    case 1: { T V = value(); W[I]->make(V); M[I] = opt(V); mc::op("w%d(%s)", I, show(V).c_str()); break; }
    case 2: W[I]->make(undef); mc::op("w%d(undef)", I); break;
    }
  if constexpr (!Pointer) { T V = value(); S.make(V); MS = V; mc::op("s(%s)", show(V).c_str()); }
  auto check = [&] {
    for (int I = 0; I < 2; ++I) look<T>(**W[I], M[I]);
    const Weak<T> &A = **W[0], &B = **W[1];
    COMPARE("weak, weak", A, B, M[0], M[1]);
    COMPARE("weak, itself", A, A, M[0], M[0]);
    COMPARE("weak, mutable weak", **W[0], **W[1], M[0], M[1]);
    for (int V = 0; V < N; ++V) {
      const T X = Vals[V];
      const std::optional<T> MX = X;
      if (Pointer && (!M[0] || !M[1])) continue; // a null pointer is no value
      COMPARE("weak, value", A, X, M[0], MX);
      COMPARE("value, weak", X, B, MX, M[1]);
    }
    if constexpr (!Pointer) {
      Strong<T> &Q = *S;
      const Strong<T> &CQ = Q;
      MC_CHECK(same<T>(raw<T>(Q), *MS) && same<T>(raw<T>(CQ), *MS), "value", "the strong value is %s instead of %s", show(raw<T>(CQ)).c_str(), show(*MS).c_str());
      MC_CHECK(!(Q == undef) && !(CQ == undef) && (Q != undef) && (CQ != undef) && !(undef == CQ) && (undef != CQ), "undefined", "a strong value is undefined");
      COMPARE("weak, strong", A, CQ, M[0], MS);
      COMPARE("strong, weak", CQ, B, MS, M[1]);
    }
    mc::state(string(__PRETTY_FUNCTION__) + key(M[0]) + key(M[1]) + key(MS));
  };
  check();
  for (int D = mc::choose(Depth + 1); D > 0; --D) {
    int K = mc::choose(Pointer ? 6 : 13);
    int I = K < 10 ? mc::choose(2) : 0;
    Weak<T> *Res = nullptr;
    Strong<std::conditional_t<Pointer, char, T>> *SRes = nullptr;
    auto Throws = [&](auto F) {
      if constexpr (!Pointer) {
        bool Thrown = false;
        try { F(); } catch (const Base::IException &E) {
          Thrown = true;
          MC_CHECK(E.Brief() == "can't assign undefined value to a strong value object", "exception", "another error is thrown: %s", E.Brief().c_str());
        }
        MC_CHECK(Thrown == !M[I], "exception", "assignment of %s to a strong value %s", M[I] ? "a value" : "undef", Thrown ? "throws" : "does not throw");
        return Thrown;
      }
      return false;
    };
    switch (K) {
    case 0: Res = &(**W[I] = undef); M[I].reset(); mc::op("w%d = undef", I); break;
    case 1: { T V = value(); Res = &(**W[I] = V); M[I] = opt(V); mc::op("w%d = %s", I, show(V).c_str()); break; }
    case 2: { int J = mc::choose(2); Res = &(**W[I] = **W[J]); M[I] = M[J]; mc::op("w%d = w%d", I, J); break; }
    case 3: { auto P = std::make_unique<Place<Weak<T>>>(); P->make(static_cast<const Weak<T> &>(**W[I])); W[1 - I] = std::move(P); M[1 - I] = M[I]; mc::op("w%d(w%d)", 1 - I, I); break; }
    case 4: { auto P = std::make_unique<Place<Weak<T>>>(); P->make(std::move(**W[I])); W[I] = std::move(P); mc::op("w%d moved", I); break; }
    case 5: // through the reference to the value
      if (!M[I]) mc::discard();
      { T V = value(); if (Pointer && V == T()) mc::discard(); raw<T>(**W[I]) = V; M[I] = V; mc::op("value of w%d = %s", I, show(V).c_str()); }
      break;
    default:
      if constexpr (!Pointer) switch (K) {
      case 6: { Res = &(**W[I] = *S); M[I] = MS; mc::op("w%d = s", I); break; }
      case 7: { auto P = std::make_unique<Place<Weak<T>>>(); P->make(static_cast<const Strong<T> &>(*S)); W[I] = std::move(P); M[I] = MS; mc::op("w%d(s)", I); break; }
      case 8:
        mc::op("s = w%d", I);
        if (!Throws([&] { SRes = &(*S = static_cast<const Weak<T> &>(**W[I])); })) MS = M[I];
        break;
      case 9: {
        mc::op("s(w%d)", I);
        auto P = std::make_unique<Place<Strong<T>>>();
        if (!Throws([&] { P->make(static_cast<const Weak<T> &>(**W[I])); })) { MS = M[I]; *S = **P; }
        break;
      }
      case 10: { T V = value(); SRes = &(*S = V); MS = V; mc::op("s = %s", show(V).c_str()); break; }
      case 11: { const Strong<T> Copy(static_cast<const Strong<T> &>(*S)); SRes = &(*S = Copy); mc::op("s = copy of s"); break; }
      case 12: { T V = value(); raw<T>(*S) = V; MS = V; mc::op("value of s = %s", show(V).c_str()); break; }
      }
    }
    MC_CHECK(!Res || Res == W[I]->P, "result", "an assignment does not return its object");
    if constexpr (!Pointer) MC_CHECK(!SRes || SRes == S.P, "result", "an assignment does not return its object");
    check();
  }
  }
  }
  MC_CHECK(Num::Alive == Alive, "leak", "%d values are left", Num::Alive - Alive);
  mc::validated();
}

/// Comparisons of different types, and what is known about types.
template<class A, class B> void mixed() {
  const auto X = Alphabet<A>::get();
  const auto Y = Alphabet<B>::get();
  Weak<A> U;
  Weak<B> V;
  const std::optional<A> NA;
  const std::optional<B> NB;
  COMPARE("different types", U, V, NA, NB);
  for (const A &P : X) {
    Weak<A> W(P);
    const Strong<A> S(P);
    const std::optional<A> M = P;
    COMPARE("different types", W, V, M, NB);
    COMPARE("different types", S, V, M, NB);
    for (const B &Q : Y) {
      Weak<B> Z(Q);
      const Strong<B> T(Q);
      const std::optional<B> K = Q;
      COMPARE("different types", W, Z, M, K);
      COMPARE("different types", W, T, M, K);
      COMPARE("different types", S, Z, M, K);
      COMPARE("different types", U, T, NA, K);
      COMPARE("different types", P, Z, M, K);
      COMPARE("different types", W, Q, M, K);
    }
  }
}

/// Texts, and what only they can do.
void texts() {
  std::vector<string> Words = {"", "a", "b", "ab", string(300, 'x')};
  const string &A = Words[mc::choose(Words.size())];
  const string &B = Words[mc::choose(Words.size())];
  int From = mc::choose(4), How = mc::choose(4);
  mc::op("'%s' '%s' %d %d", A.c_str(), B.c_str(), From, How);
  Weak<string> W;
  if (From == 1) W = undef;
  else if (From == 2) W = A.c_str();
  else if (From == 3) W = Weak<string>(A.c_str());
  std::optional<string> M;
  if (From >= 2) M = A;
  look<string>(W, M);
  switch (How) {
  case 0: W = B.c_str(); M = B; break;
  case 1: W = 'q'; M = "q"; break;
  case 2: W = Strong<string>(B.c_str()); M = B; break;
  case 3: { Strong<string> S; S = B.c_str(); W = S; M = B; break; }
  }
  look<string>(W, M);
  const std::optional<string> MA = A;
  COMPARE("text, characters", static_cast<const Weak<string> &>(W), A.c_str(), M, MA);
  COMPARE("characters, text", A.c_str(), static_cast<const Weak<string> &>(W), MA, M);
  const Weak<string> C(W);
  MC_CHECK(C.size() == M->size() && string(C) == *M, "text", "a defined text is no text");
  mc::outcome(*M);
  mc::validated();
}

void types() {
  mixed<int, long long>(); mixed<char, int>(); mixed<long long, double>(); mixed<double, int>(); mixed<bool, int>(); mixed<Color, int>();
  const bool Scalar[] = {
    bool(Utility::IsScalar<Weak<int>>::Value()) == bool(Utility::IsScalar<int>::Value()),
    bool(Utility::IsScalar<Strong<int>>::Value()) == bool(Utility::IsScalar<int>::Value()),
    bool(Utility::IsScalar<Weak<string>>::Value()) == bool(Utility::IsScalar<string>::Value()),
    bool(Utility::IsScalar<Strong<Num>>::Value()) == bool(Utility::IsScalar<Num>::Value())};
  for (bool S : Scalar) MC_CHECK(S, "types", "a value and its wrapper differ in being scalar");
  MC_CHECK(bool(Utility::IsPointer<Weak<int *>>::Value()), "types", "a wrapped pointer is no pointer");
  MC_CHECK(!bool(Utility::IsPointer<Weak<int>>::Value()), "types", "a wrapped integer is a pointer");
  MC_CHECK((undef == undef) && !(undef != undef), "undefined", "undef is not equal to itself");
  mc::op("types");
  mc::validated();
}
} // namespace

void mc_register() {
  bool T = mc::thorough();
  mc::scenario("int", [=] { history<int>(T ? 4 : 3); });
  mc::scenario("bool", [=] { history<bool>(T ? 5 : 3); });
  mc::scenario("char", [=] { history<char>(T ? 4 : 2); });
  mc::scenario("wide", [=] { history<long long>(T ? 4 : 2); });
  mc::scenario("float", [=] { history<double>(T ? 4 : 2); });
  mc::scenario("enum", [=] { history<Color>(T ? 4 : 2); });
  mc::scenario("object", [=] { history<Num>(T ? 4 : 2); });
  mc::scenario("text", [=] { history<string>(T ? 4 : 2); });
  mc::scenario("pointer", [=] { history<int *>(T ? 6 : 4); });
  mc::scenario("texts", texts);
  mc::scenario("types", types);
}
