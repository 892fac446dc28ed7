// U01: the helpers of utility.h and the iterator adaptor, on complete domains.
#include "mc.h"
#include <algorithm>
#include <cassert>
#include <climits>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <bcl/utility.h>
#include <bcl/IteratorDataAdaptor.h>

void literalScenario();
void containers();

namespace {
typedef __int128 Big;

/// The digits of the magnitude of V, least significant first.
std::vector<int> digits(Big V, Big Base) {
  if (V < 0) V = -V;
  std::vector<int> D;
  do D.push_back(int(V % Base)); while ((V /= Base) != 0);
  return D;
}

template <class T> void digitsOf(T V, T Base, const char *Type) {
  auto D = digits(V, Base);
  size_t Zeros = 0;
  while (Zeros < D.size() && D[Zeros] == 0) ++Zeros;
  mc::step();
  size_t N = bcl::numberOfDigits<T>(V, Base), Z = bcl::numberOfLessZeros<T>(V, Base);
  MC_CHECK(N == D.size(), "digits", "numberOfDigits(%lld, %lld) of type %s is %zu", (long long)V, (long long)Base, Type, N);
  MC_CHECK(Z == Zeros, "zeros", "numberOfLessZeros(%lld, %lld) of type %s is %zu", (long long)V, (long long)Base, Type, Z);
}

template <class T> void allDigits(const char *Type, int Bases) {
  typedef std::numeric_limits<T> L;
  T Base = T(2 + mc::choose(Bases));
  mc::op("all values of type %s, base %d", Type, (int)Base);
  for (long V = L::min(); V <= (long)L::max(); ++V) digitsOf<T>(T(V), Base, Type);
  mc::state(mc::fmt("digits %s %d", Type, (int)Base));
  mc::validated();
}

/// Powers, their neighbours and limits of the wide types.
template <class T> void wideDigits(const char *Type) {
  typedef std::numeric_limits<T> L;
  static const T Bases[] = {2, 3, 7, 8, 10, 16, 36, 127, L::max()};
  T Base = Bases[mc::choose(9)];
  std::vector<T> Vs{0, L::min(), L::max(), T(L::min() + 1), T(L::max() - 1)};
  for (Big P = 1; P > 0; P = P > (Big)L::max() / Base ? 0 : P * Base)
    for (int F = 1; F < 12; ++F)
      for (int D = -2; D <= 2; ++D)
        for (int S = -1; S <= 1; S += 2) {
          Big V = S * (P * F + D);
          if (V >= (Big)L::min() && V <= (Big)L::max()) Vs.push_back(T(V));
        }
  mc::op("%zu values of type %s, base %lld", Vs.size(), Type, (long long)Base);
  for (T V : Vs) digitsOf<T>(V, Base, Type);
  mc::state(mc::fmt("wide digits %s %lld", Type, (long long)Base));
  mc::validated();
}

void digitsScenario() {
  switch (mc::choose(10)) {
  case 0: allDigits<signed char>("signed char", 126); break;
  case 1: allDigits<unsigned char>("unsigned char", 254); break;
  case 2: allDigits<short>("short", mc::bound(40, 2000)); break;
  case 3: allDigits<unsigned short>("unsigned short", mc::bound(40, 2000)); break;
  case 4: allDigits<char>("char", 126); break;
  case 5: wideDigits<int>("int"); break;
  case 6: wideDigits<unsigned>("unsigned"); break;
  case 7: wideDigits<long long>("long long"); break;
  case 8: wideDigits<unsigned long long>("unsigned long long"); break;
  case 9: wideDigits<long>("long"); break;
  }
}

template <class T> void masks(const char *Type) {
  typedef typename std::make_unsigned<T>::type U;
  for (size_t D = 0; D <= sizeof(T) * CHAR_BIT; ++D) {
    U E = D == sizeof(T) * CHAR_BIT ? U(-1) : U((U(1) << D) - 1);
    mc::step();
    MC_CHECK((U)bcl::unitMask<T>(D) == E, "mask", "unitMask<%s>(%zu) is %llx", Type, D, (unsigned long long)(U)bcl::unitMask<T>(D));
  }
}
template <class T> void bits(T V, const char *Type) {
  typedef typename std::make_unsigned<T>::type U;
  std::ostringstream OS;
  bcl::bitPrint(V, OS);
  std::string E;
  for (int B = sizeof(T) * CHAR_BIT - 1; B >= 0; --B) E += char('0' + ((U(V) >> B) & 1));
  mc::step();
  MC_CHECK(OS.str() == E, "bitPrint", "bitPrint(%lld) of type %s prints %s", (long long)V, Type, OS.str().c_str());
}
template <class T> void wideBits(const char *Type) {
  int W = sizeof(T) * CHAR_BIT;
  typedef typename std::make_unsigned<T>::type U;
  for (int I = 0; I <= W; ++I)
    for (int J = 0; J <= W; ++J) {
      U A = I == W ? 0 : U(U(1) << I), B = J == W ? 0 : U(U(1) << J);
      bits<T>(T(A | B), Type); bits<T>(T(~(A | B)), Type); bits<T>(T(A - B), Type);
    }
}
void bitsScenario() {
  int K = mc::choose(20);
  mc::op("part %d", K);
  switch (K) {
  case 0: masks<char>("char"); masks<signed char>("signed char"); masks<unsigned char>("unsigned char"); break;
  case 1: masks<short>("short"); masks<unsigned short>("unsigned short"); break;
  case 2: masks<int>("int"); masks<unsigned>("unsigned"); break;
  case 3: masks<long>("long"); masks<unsigned long>("unsigned long"); break;
  case 4: masks<long long>("long long"); masks<unsigned long long>("unsigned long long"); break;
  case 5: for (int V = -128; V < 128; ++V) { bits<signed char>(V, "signed char"); bits<char>(V, "char"); } break;
  case 6: for (int V = 0; V < 256; ++V) bits<unsigned char>(V, "unsigned char"); break;
  case 7: for (int V = -32768; V < 32768; ++V) bits<short>(V, "short"); break;
  case 8: for (int V = 0; V < 65536; ++V) bits<unsigned short>(V, "unsigned short"); break;
  case 9: wideBits<int>("int"); break;
  case 10: wideBits<unsigned>("unsigned"); break;
  case 11: wideBits<long>("long"); break;
  case 12: wideBits<unsigned long long>("unsigned long long"); break;
  case 13:
    for (int C = 0; C < 256; ++C) {
      bool E = C == ' ' || C == '\t' || C == '\f' || C == '\v' || C == '\r';
      mc::step();
      MC_CHECK(bcl::isWhitespace((unsigned char)C) == E, "whitespace", "isWhitespace(%d) is %d", C, !E);
    }
    break;
  default: mc::discard();
  }
  mc::state(mc::fmt("bits %d", K));
  mc::validated();
}

void quoteScenario(int Max) {
  std::string S;
  for (int I = 0; I < Max; ++I) {
    int C = mc::choose(5);
    if (!C) break;
    S += "\" a\\"[C - 1];
  }
  bool Has = S.size() > 1 && S.front() == '"' && S.back() == '"';
  std::string E = Has ? S : "\"" + S + "\"", Copy = S;
  mc::op("quote(%s)", mc::show(S).c_str());
  MC_CHECK(bcl::quote(S) == E && S == Copy, "quote", "quote(%s) is %s", mc::show(S).c_str(), mc::show(bcl::quote(S)).c_str());
  std::string Q = bcl::quote(std::move(Copy));
  MC_CHECK(Q == E, "quote", "quote(%s) of a temporary is %s", mc::show(S).c_str(), mc::show(Q).c_str());
  if (Has || S.size() != 1) MC_CHECK(bcl::quote(Q) == Q, "quote", "quote(%s) adds quotes", mc::show(Q).c_str());
  mc::state(S);
  mc::validated();
}

template <class A, class B, class T> void restore(const char *, A, B, T, std::true_type);
template <class A, class B, class T> void restore(const char *, A, B, T, std::false_type);
/// Packing of all pairs of the given values.
template <class A, class B, class T> void pack(const char *Types, const std::vector<A> &As, const std::vector<B> &Bs) {
  constexpr int Half = sizeof(T) / 2;
  auto Fits = [](auto V) {
    unsigned char R[sizeof(V)];
    std::memcpy(R, &V, sizeof V);
    for (size_t I = Half; I < sizeof(V); ++I) if (R[I]) return false;
    return true;
  };
  for (A X : As)
    for (B Y : Bs) {
      struct { T Before, V, After; } O; // the neighbours must not change
      std::memset(&O, 0xA5, sizeof O);
      T Mark = O.Before;
      bool Pair = (X ^ Y) & 1;
      mc::step();
      bool R = Pair ? bcl::shrinkPair(std::make_pair(X, Y), O.V) : bcl::shrinkPair(X, Y, O.V);
      bool E = Fits(X) && Fits(Y);
      MC_CHECK(R == E, "pack", "%s: shrinkPair(%lld, %lld) is %d", Types, (long long)X, (long long)Y, R);
      MC_CHECK(O.Before == Mark && O.After == Mark, "pack", "%s: shrinkPair(%lld, %lld) writes outside of its result", Types, (long long)X, (long long)Y);
      if (!R) continue;
      unsigned char Raw[sizeof(T)] = {}, Exp[sizeof(T)] = {};
      std::memcpy(Raw, &O.V, sizeof(T));
      std::memcpy(Exp, &X, std::min<size_t>(Half, sizeof X));
      std::memcpy(Exp + Half, &Y, std::min<size_t>(Half, sizeof Y));
      MC_CHECK(!std::memcmp(Raw, Exp, sizeof(T)), "pack", "%s: shrinkPair(%lld, %lld) is %llx", Types, (long long)X, (long long)Y, (unsigned long long)O.V);
      restore<A, B, T>(Types, X, Y, O.V, std::integral_constant<bool, (sizeof(A) >= Half && sizeof(B) >= Half)>());
    }
}
template <class A, class B, class T> void restore(const char *Types, A X, B Y, T V, std::true_type) {
  struct { A First; char Guard; } F; struct { B Second; char Guard; } S;
  std::memset(&F, 0x5A, sizeof F); std::memset(&S, 0x5A, sizeof S);
  bcl::restoreShrinkedPair(V, F.First, S.Second);
  MC_CHECK(F.First == X && S.Second == Y && F.Guard == 0x5A && S.Guard == 0x5A, "unpack", "%s: (%lld, %lld) becomes (%lld, %lld)", Types, (long long)X, (long long)Y, (long long)F.First, (long long)S.Second);
}
template <class A, class B, class T> void restore(const char *, A, B, T, std::false_type) {}

/// All values of a small type or the values around all byte limits.
template <class T> std::vector<T> values(int Every = 1) {
  std::vector<T> V;
  if (sizeof(T) == 1) { for (int I = 0; I < 256; I += Every) V.push_back(T(I)); return V; }
  std::set<unsigned long long> S;
  for (unsigned B = 0; B <= sizeof(T) * 8; ++B)
    for (int D = -2; D <= 2; ++D)
      for (int N = 0; N < 2; ++N) {
        unsigned long long X = (B == 64 ? 0 : 1ull << B) + D;
        S.insert((unsigned long long)T(N ? ~X : X));
      }
  for (auto X : S) V.push_back(T(X));
  return V;
}
template <class T> std::vector<T> slice(int K, int Of) {
  std::vector<T> V;
  for (long I = K; I < 65536; I += Of) V.push_back(T(I));
  return V;
}
void packScenario() {
  int K = mc::choose(16);
  mc::op("types %d", K);
  switch (K) {
  case 0: pack<uint8_t, uint8_t, uint16_t>("u8 u8 u16", values<uint8_t>(), values<uint8_t>()); break;
  case 1: pack<int8_t, uint8_t, int16_t>("i8 u8 i16", values<int8_t>(), values<uint8_t>()); break;
  case 2: pack<uint16_t, uint16_t, uint16_t>("u16 u16 u16", slice<uint16_t>(0, 1), values<uint16_t>()); break;
  case 3: pack<uint16_t, uint16_t, uint16_t>("u16 u16 u16", values<uint16_t>(), slice<uint16_t>(0, 1)); break;
  case 4: pack<uint32_t, uint32_t, uint64_t>("u32 u32 u64", values<uint32_t>(), values<uint32_t>()); break;
  case 5: pack<int, int, long>("int int long", values<int>(), values<int>()); break;
  case 6: pack<size_t, size_t, size_t>("size size size", values<size_t>(), values<size_t>()); break;
  case 7: pack<size_t, short, unsigned>("size short unsigned", values<size_t>(), values<short>()); break;
  case 8: pack<short, size_t, unsigned>("short size unsigned", values<short>(), values<size_t>()); break;
  case 9: pack<uint8_t, uint8_t, uint64_t>("u8 u8 u64", values<uint8_t>(), values<uint8_t>()); break;
  case 10: pack<uint8_t, uint32_t, uint32_t>("u8 u32 u32", values<uint8_t>(), values<uint32_t>()); break;
  case 11: pack<uint32_t, uint8_t, uint64_t>("u32 u8 u64", values<uint32_t>(), values<uint8_t>()); break;
  case 12: pack<int8_t, int8_t, int8_t>("i8 i8 i8", values<int8_t>(), values<int8_t>()); break;
  case 13: pack<long, char, int>("long char int", values<long>(), values<char>()); break;
  case 14: pack<uint16_t, uint64_t, uint64_t>("u16 u64 u64", values<uint16_t>(), values<uint64_t>()); break;
  case 15: pack<uint8_t, uint16_t, uint16_t>("u8 u16 u16", values<uint8_t>(), slice<uint16_t>(0, 1)); break;
  }
  mc::state(mc::fmt("pack %d", K));
  mc::validated();
}

template <int N> struct Blob {
  unsigned char B[N];
  Blob() {}
private:
  Blob(const Blob &); Blob &operator=(const Blob &);
};
template <int N> void swapBlob() {
  unsigned char Left[N], Right[N];
  for (int I = 0; I < N; ++I) { Left[I] = (unsigned char)(I * 3 + 1); Right[I] = (unsigned char)(200 - I); }
  struct { unsigned char P; Blob<N> A; unsigned char Q; Blob<N> B; unsigned char R; } S;
  S.P = S.Q = S.R = 99;
  std::memcpy(S.A.B, Left, N); std::memcpy(S.B.B, Right, N);
  bcl::swapMemory(S.A, S.B);
  MC_CHECK(!std::memcmp(S.A.B, Right, N) && !std::memcmp(S.B.B, Left, N) && S.P == 99 && S.Q == 99 && S.R == 99, "swap", "swapMemory() of objects of size %d is wrong", N);
  bcl::swapMemory(S.A, S.A);
  MC_CHECK(!std::memcmp(S.A.B, Right, N), "swap", "swapMemory() of one object of size %d changes it", N);
  mc::step(2);
}
template <int... N> void swaps(std::integer_sequence<int, N...>) { (void)std::initializer_list<int>{(swapBlob<N + 1>(), 0)...}; }
void swapScenario() {
  mc::op("sizes 1 to 40, 1000, 70000");
  swaps(std::make_integer_sequence<int, 40>()); swapBlob<1000>(); swapBlob<70000>();
  struct Named { std::unique_ptr<std::string> S; } A{std::make_unique<std::string>("a")}, B{std::make_unique<std::string>("b")};
  bcl::swapMemory(A, B);
  MC_CHECK(*A.S == "b" && *B.S == "a", "swap", "swapMemory() loses an owner");
  mc::state("swap"); mc::validated();
}

/// All walks of two adapted iterators over one collection.
template <class C> void adaptor(int Depth) {
  int N = mc::choose(4);
  C Coll;
  for (int I = 0; I < N; ++I) Coll.push_back(10 + I);
  typedef std::pair<int &, int> Item;
  typedef bcl::IteratorDataAdaptor<typename C::iterator, int, Item> It;
  int P[2] = {0, 0}, D[2];
  D[0] = mc::choose(2); D[1] = mc::choose(2);
  It A(Coll.begin(), D[0]), B(Coll.begin(), D[1]), *X[2] = {&A, &B};
  std::string H = mc::fmt("%d %d%d", N, D[0], D[1]);
  for (int S = 0; S <= Depth; ++S) {
    MC_CHECK((A == B) == (P[0] == P[1] && D[0] == D[1]) && (A != B) == !(A == B), "adaptor", "iterators at %d (%d) and %d (%d) compare wrongly", P[0], D[0], P[1], D[1]);
    for (int I = 0; I < 2; ++I) {
      MC_CHECK(X[I]->getIterator() == std::next(Coll.begin(), P[I]) && const_cast<const It *>(X[I])->getIterator() == std::next(Coll.begin(), P[I]) && X[I]->getData() == D[I] && const_cast<const It *>(X[I])->getData() == D[I], "adaptor", "an iterator denotes a wrong position or data");
      if (P[I] < N) { Item V = **X[I]; MC_CHECK(V.first == 10 + P[I] && &V.first == &*std::next(Coll.begin(), P[I]) && V.second == D[I], "adaptor", "an iterator denotes a wrong value"); }
    }
    if (S == Depth) break;
    int Op = mc::choose(9), I = (Op - 1) % 2;
    if (!Op) break;
    mc::op("operation %d", Op);
    H += char('a' + Op);
    switch ((Op - 1) / 2) {
    case 0: if (P[I] == N) mc::discard(); { It &R = ++*X[I]; MC_CHECK(&R == X[I], "adaptor", "an increment returns another iterator"); } ++P[I]; break;
    case 1: if (P[I] == N) mc::discard(); { It Old = *X[I], R = (*X[I])++; MC_CHECK(R == Old, "adaptor", "a postfix increment returns the new position"); } ++P[I]; break;
    case 2: X[I]->getData() = D[I] = D[I] + 1; break;
    case 3: *X[I] = *X[1 - I]; P[I] = P[1 - I]; D[I] = D[1 - I]; break;
    }
  }
  mc::state(H);
  mc::validated();
}
} // namespace

void mc_register() {
  mc::Opt O; O.split = 2;
  mc::scenario("digits", digitsScenario, O);
  mc::scenario("bits", bitsScenario, O);
  mc::scenario("literals", literalScenario, O);
  mc::scenario("quote", [] { quoteScenario(mc::bound(6, 9)); });
  mc::scenario("pack", packScenario, O);
  mc::scenario("swap", swapScenario, O);
  mc::scenario("containers", containers, O);
  mc::scenario("adaptor-vector", [] { adaptor<std::vector<int>>(mc::bound(4, 6)); });
  mc::scenario("adaptor-list", [] { adaptor<std::list<int>>(mc::bound(4, 6)); });
}
