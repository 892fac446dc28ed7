// M01: multidimensional arrays: all shapes and index tuples, all histories of
// moves.
#include "mc.h"
#include <cassert>
#include <array>
#include <bcl/marray.h>
#include <bcl/marray_f.h>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace {
struct Odd { char C[3]; short S; };
template <class T> struct Val;
template <> struct Val<int> { static int make(long I) { return (int)I * 7 + 1; } static bool is(const int &X, long I) { return X == make(I); } };
template <> struct Val<std::string> {
  static std::string make(long I) { return "a value which is stored in the heap " + std::to_string(I); }
  static bool is(const std::string &X, long I) { return X == make(I); } };
template <> struct Val<Odd> {
  static Odd make(long I) { Odd O; O.C[0] = O.C[1] = O.C[2] = (char)I; O.S = (short)(I * 3); return O; }
  static bool is(const Odd &X, long I) { auto O = make(I); return O.C[0] == X.C[0] && O.C[2] == X.C[2] && O.S == X.S; } };

template <std::size_t N> using Dims = std::array<std::size_t, N>;

// Uniform access to both classes.
template <class A, std::size_t N> struct At;
template <class T, std::size_t N> struct At<bcl::marray_f<T, N>, N> {
  template <std::size_t... I> static T &get(bcl::marray_f<T, N> &A, const Dims<N> &X, std::index_sequence<I...>) { return A(X[I]...); }
  template <class... Ty, std::size_t... I> static T &other(bcl::marray_f<T, N> &A, const Dims<N> &X, std::index_sequence<I...>) {
    typedef std::tuple<Ty...> Tu; return A((typename std::tuple_element<I % sizeof...(Ty), Tu>::type)X[I]...); }
  template <std::size_t... I> static const T &cget(const bcl::marray_f<T, N> &A, const Dims<N> &X, std::index_sequence<I...>) { return A(X[I]...); }
  static T &get(bcl::marray_f<T, N> &A, const Dims<N> &X) { return get(A, X, std::make_index_sequence<N>()); }
  static const T &cget(bcl::marray_f<T, N> &A, const Dims<N> &X) { return cget(A, X, std::make_index_sequence<N>()); }
};
template <class T> T &sub(bcl::marray<T, 2> &A, const Dims<2> &X) { return A[X[0]][X[1]]; }
template <class T> T &sub(bcl::marray<T, 3> &A, const Dims<3> &X) { return A[X[0]][X[1]][X[2]]; }
template <class T> T &sub(bcl::marray<T, 4> &A, const Dims<4> &X) { return A[X[0]][X[1]][X[2]][X[3]]; }
template <class T> T &sub(bcl::marray<T, 5> &A, const Dims<5> &X) { return A[X[0]][X[1]][X[2]][X[3]][X[4]]; }
template <class T> const T &csub(bcl::marray<T, 2> &A, const Dims<2> &X) { const auto S = A[X[0]]; return S[X[1]]; }
template <class T> const T &csub(bcl::marray<T, 3> &A, const Dims<3> &X) { const auto S = A[X[0]][X[1]]; return S[X[2]]; }
template <class T> const T &csub(bcl::marray<T, 4> &A, const Dims<4> &X) { auto Q = A[X[0]]; const auto S = Q[X[1]][X[2]]; return S[X[3]]; }
template <class T> const T &csub(bcl::marray<T, 5> &A, const Dims<5> &X) { auto Q = A[X[0]][X[1]]; const auto S = Q[X[2]][X[3]]; return S[X[4]]; }
template <class T, std::size_t N> struct At<bcl::marray<T, N>, N> {
  static T &get(bcl::marray<T, N> &A, const Dims<N> &X) { return sub(A, X); }
  static const T &cget(bcl::marray<T, N> &A, const Dims<N> &X) { return csub(A, X); }
};

template <std::size_t N, class F> void each(const Dims<N> &D, F Fn) {
  Dims<N> X{};
  for (long I = 0;; ++I) {
    Fn(X, I);
    int K = N - 1;
    while (K >= 0 && ++X[K] == D[K]) X[K--] = 0;
    if (K < 0) return;
  }
}

/// The same elements by indexes of other types.
template <class... Ty, class T, std::size_t N> void others(bcl::marray_f<T, N> &A, const Dims<N> &X, const T *E) {
  typedef At<bcl::marray_f<T, N>, N> G;
  MC_CHECK((&G::template other<Ty...>(A, X, std::make_index_sequence<N>()) == E), "index", "indexes of another type denote another element");
}
template <class... Ty, class A, std::size_t N, class T> void others(A &, const Dims<N> &, const T *) {}

template <std::size_t N> std::string show(const Dims<N> &D) {
  std::string S;
  for (auto X : D) S += (S.empty() ? "" : "x") + std::to_string(X);
  return S;
}

template <class A, class T, std::size_t N> void fill(A &Arr, const Dims<N> &D, long Seed) {
  each<N>(D, [&](const Dims<N> &X, long I) { At<A, N>::get(Arr, X) = Val<T>::make(I + Seed); mc::step(); });
}
template <class A, class T, std::size_t N> void verify(A &Arr, const Dims<N> &D, long Seed, const char *What) {
  T *Base = &At<A, N>::get(Arr, Dims<N>{});
  each<N>(D, [&](const Dims<N> &X, long I) {
    T &E = At<A, N>::get(Arr, X);
    MC_CHECK(&E == Base + I, "layout", "%s: shape %s: element %ld in row-major order is at offset %td", What, show<N>(D).c_str(), I, (ptrdiff_t)(&E - Base));
    MC_CHECK(Val<T>::is(E, I + Seed), "value", "%s: shape %s: element %ld has lost its value", What, show<N>(D).c_str(), I);
    others<int>(Arr, X, &E); others<unsigned char, short, long long>(Arr, X, &E); others<char, unsigned>(Arr, X, &E);
    MC_CHECK((&At<A, N>::cget(Arr, X) == &E), "const", "%s: shape %s: constant access denotes another element", What, show<N>(D).c_str());
    mc::step();
  });
}

template <class A, class T, std::size_t N> void shapes(int Max) {
  Dims<N> D;
  for (auto &X : D) X = 1 + mc::choose(Max);
  bool Rvalue = mc::choose(2);
  mc::op("array of %zu dimensions, shape %s", N, mc::verbose() ? show<N>(D).c_str() : "");
  mc::state(show<N>(D) + typeid(A).name());
  std::unique_ptr<A> P;
  if (Rvalue) P.reset(new A(Dims<N>(D))); else P.reset(new A(D));
  fill<A, T, N>(*P, D, 5);
  verify<A, T, N>(*P, D, 5, "filled");
  // Writing an element does not touch another one.
  Dims<N> Last = D;
  for (auto &X : Last) --X;
  At<A, N>::get(*P, Last) = Val<T>::make(1000);
  MC_CHECK(Val<T>::is(At<A, N>::get(*P, Last), 1000), "value", "the last element cannot be written");
  At<A, N>::get(*P, Last) = Val<T>::make(5 + (&At<A, N>::get(*P, Last) - &At<A, N>::get(*P, Dims<N>{})));
  verify<A, T, N>(*P, D, 5, "after a write");
  mc::validated();
}

/// Large extents, the number of elements is limited: every element.
template <class A, class T, std::size_t N> void large(std::size_t Elems) {
  static const std::size_t L[] = {1, 2, 3, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 32767, 32768, 32769, 65535, 65536, 65537, 100003};
  Dims<N> D; std::size_t Left = Elems;
  for (auto &X : D) {
    int K = 0;
    while (K < 20 && L[K] <= Left) ++K;
    X = L[mc::choose(K)];
    Left /= X;
  }
  mc::op("array of %zu dimensions, shape %s", N, mc::verbose() ? show<N>(D).c_str() : "");
  mc::state(show<N>(D) + typeid(A).name());
  A Arr(D);
  fill<A, T, N>(Arr, D, 3);
  T *Base = &At<A, N>::get(Arr, Dims<N>{});
  each<N>(D, [&](const Dims<N> &X, long I) {
    T &E = At<A, N>::get(Arr, X);
    MC_CHECK(&E == Base + I, "place", "element %s of an array %s is at place %ld", show<N>(X).c_str(), show<N>(D).c_str(), (long)(&E - Base));
    others<int, unsigned>(Arr, X, &E); others<long long, int>(Arr, X, &E);
    MC_CHECK(Val<T>::is(E, I + 3), "value", "element %s of an array %s has another value", show<N>(X).c_str(), show<N>(D).c_str());
  });
  mc::validated();
}
/// More bytes than 32 bits can count: the elements at all corners and in the middle.
template <class A, std::size_t N> void huge(std::vector<Dims<N>> L) {
  Dims<N> D = L[mc::choose(L.size())], X, Three;
  mc::op("array of %zu dimensions, shape %s", N, mc::verbose() ? show<N>(D).c_str() : "");
  mc::state(show<N>(D) + typeid(A).name());
  A Arr(D);
  char *Base = &At<A, N>::get(Arr, Dims<N>{});
  Three.fill(3);
  for (int Pass = 0; Pass < 2; ++Pass)
    each<N>(Three, [&](const Dims<N> &C, long I) {
      std::size_t P = 0;
      for (std::size_t K = 0; K < N; ++K) { X[K] = C[K] == 0 ? 0 : C[K] == 1 ? D[K] / 2 : D[K] - 1; P = P * D[K] + X[K]; }
      char &E = At<A, N>::get(Arr, X);
      const char *CE = &At<A, N>::cget(Arr, X);
      MC_CHECK(&E == Base + P && CE == Base + P, "place", "element %s of an array %s is at place %ld", show<N>(X).c_str(), show<N>(D).c_str(), (long)(&E - Base));
      others<int>(Arr, X, &E); others<unsigned, int>(Arr, X, &E); others<int, long long>(Arr, X, &E);
      if (Pass == 0) E = char(1 + I);
      else MC_CHECK(E == char(1 + I), "value", "element %s of an array %s has another value", show<N>(X).c_str(), show<N>(D).c_str());
      mc::step();
    });
  mc::validated();
}

/// All histories of moves between three arrays.
template <class A, class T, std::size_t N> void moves(int Depth) {
  std::unique_ptr<A> S[3]; Dims<N> D[3]; long Seed[3] = {}; bool Full[3] = {};
  for (int I = 0; I < 3; ++I) {
    for (std::size_t K = 0; K < N; ++K) D[I][K] = 1 + (I * 2 + K * 3 + 1) % 4;
    S[I].reset(new A(D[I])); Seed[I] = 100 * I + 1; Full[I] = true;
    fill<A, T, N>(*S[I], D[I], Seed[I]);
  }
  int Next = 10;
  std::string H;
  for (int Dp = 0; Dp < Depth; ++Dp) {
    int Op = mc::choose(4);
    if (Op == 0) break;
    int X = mc::choose(3), Y = 0;
    switch (Op) {
    case 1: {
      Y = mc::choose(3);
      mc::op("%d = move(%d)", X, Y);
      A &R = (*S[X] = std::move(*S[Y]));
      MC_CHECK(&R == S[X].get(), "result", "move assignment does not return its target");
      if (X != Y) { D[X] = D[Y]; Seed[X] = Seed[Y]; Full[X] = Full[Y]; Full[Y] = false; }
      break;
    }
    case 2:
      Y = mc::choose(2); if (Y >= X) ++Y;
      mc::op("%d := array(move(%d))", X, Y);
      S[X].reset(new A(std::move(*S[Y])));
      D[X] = D[Y]; Seed[X] = Seed[Y]; Full[X] = Full[Y]; Full[Y] = false;
      break;
    case 3:
      for (std::size_t K = 0; K < N; ++K) D[X][K] = 1 + (Next + K * 5) % 4;
      mc::op("%d = array(%s)", X, mc::verbose() ? show<N>(D[X]).c_str() : "");
      *S[X] = A(D[X]);
      Seed[X] = 1000 + Next++; Full[X] = true;
      fill<A, T, N>(*S[X], D[X], Seed[X]);
      break;
    }
    for (int I = 0; I < 3; ++I) if (Full[I]) verify<A, T, N>(*S[I], D[I], Seed[I], "after a move");
    { mc::NoCount NC; H += char('0' + Op * 9 + X * 3 + Y); mc::state(H + typeid(A).name()); }
  }
  mc::validated();
}
} // namespace

void mc_register() {
  using namespace bcl;
  using S = std::string;
#ifdef MARRAY_HUGE
  mc::scenario("marray-huge-2", [] { huge<marray<char, 2>, 2>({{65536, 65537}, {46341, 46341}, {5, 1000000007}}); });
  mc::scenario("marray_f-huge-2", [] { huge<marray_f<char, 2>, 2>({{65536, 65537}, {46341, 46341}, {5, 1000000007}}); });
  mc::scenario("marray-huge-3", [] { huge<marray<char, 3>, 3>({{3, 40000, 40000}, {40000, 40000, 3}, {4, 3, 400000009}}); });
  mc::scenario("marray_f-huge-3", [] { huge<marray_f<char, 3>, 3>({{3, 40000, 40000}, {40000, 40000, 3}, {4, 3, 400000009}}); });
  return;
#endif
#define SHAPES(N, Q, T) \
  mc::scenario("marray-" #N, [] { shapes<marray<int, N>, int, N>(mc::bound(Q, T)); }); \
  mc::scenario("marray_f-" #N, [] { shapes<marray_f<int, N>, int, N>(mc::bound(Q, T)); });
  SHAPES(2, 6, 9) SHAPES(3, 5, 7) SHAPES(4, 4, 5) SHAPES(5, 3, 4)
#undef SHAPES
#define LARGE(N) \
  mc::scenario("marray-large-" #N, [] { large<marray<int, N>, int, N>(mc::bound(70000, 400000)); }); \
  mc::scenario("marray_f-large-" #N, [] { large<marray_f<int, N>, int, N>(mc::bound(70000, 400000)); });
  LARGE(2) LARGE(3) LARGE(4)
#undef LARGE
  mc::scenario("marray-odd", [] { shapes<marray<Odd, 3>, Odd, 3>(mc::bound(3, 5)); });
  mc::scenario("marray_f-odd", [] { shapes<marray_f<Odd, 4>, Odd, 4>(mc::bound(3, 4)); });
  mc::scenario("marray-string", [] { shapes<marray<S, 4>, S, 4>(mc::bound(2, 3)); });
  mc::scenario("marray_f-string", [] { shapes<marray_f<S, 3>, S, 3>(mc::bound(3, 4)); });
  mc::scenario("marray-moves", [] { moves<marray<S, 3>, S, 3>(mc::bound(3, 4)); });
  mc::scenario("marray_f-moves", [] { moves<marray_f<S, 3>, S, 3>(mc::bound(3, 4)); });
  mc::scenario("marray-moves-2", [] { moves<marray<int, 2>, int, 2>(mc::bound(4, 5)); });
  mc::scenario("marray_f-moves-2", [] { moves<marray_f<int, 2>, int, 2>(mc::bound(4, 5)); });
}
