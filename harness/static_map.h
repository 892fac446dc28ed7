// Interface to a static map of any type, so that one driver explores them all.
#ifndef VERIF_STATIC_MAP_H
#define VERIF_STATIC_MAP_H
#include "mc.h"
#include <bcl/cell.h>
#include <memory>
#include <string>
#include <vector>

namespace sm {
using Ints = std::vector<int>;
struct Deep { std::unique_ptr<int> P; Deep() = default; explicit Deep(int V) : P(new int(V)) {}
  Deep(const Deep &D) : P(D.P ? new int(*D.P) : nullptr) {} Deep(Deep &&) = default;
  Deep &operator=(const Deep &D) { P.reset(D.P ? new int(*D.P) : nullptr); return *this; } Deep &operator=(Deep &&) = default; };

/// Keys of maps. Two keys have the same type of values.
template <int N> struct K { typedef typename std::conditional<N % 2 == 0, std::string, std::vector<int>>::type ValueType; };
template <> struct K<0> { typedef int ValueType; };
template <> struct K<1> { typedef std::string ValueType; };
template <> struct K<2> { typedef int ValueType; };
template <> struct K<3> { typedef Deep ValueType; };
template <> struct K<4> { typedef std::vector<int> ValueType; };

inline void put(int &X, int V) { X = V; }
inline void put(std::string &X, int V) { X = std::string(20 + V % 3, 'a' + V % 26) + std::to_string(V); }
inline void put(Deep &X, int V) { X.P.reset(new int(V)); }
inline void put(std::vector<int> &X, int V) { X = {V, V + 1}; }
inline int take(int X) { return X; }
inline int take(const std::string &X) { auto I = X.find_first_of("-0123456789"); return I == X.npos ? -1 : atoi(X.c_str() + I); }
inline int take(const Deep &X) { return X.P ? *X.P : -1; }
inline int take(const std::vector<int> &X) { return X.size() != 2 || X[1] != X[0] + 1 ? -1 : X[0]; }
template <class T> T made(int V) { T X{}; put(X, V); return X; }

/// Finds the number of a key or of a type which is a key.
template <class T> struct Id;
template <int N> struct Id<K<N>> { static constexpr int value = N; };
template <> struct Id<int> { static constexpr int value = 0; };
template <> struct Id<std::string> { static constexpr int value = 1; };
template <> struct Id<Deep> { static constexpr int value = 3; };
template <> struct Id<std::vector<int>> { static constexpr int value = 4; };

struct IMap {
  virtual ~IMap() {}
  virtual void set(int Key, int Val, int Via) = 0;
  virtual int get(int Key, int Via) = 0;
  virtual Ints visit(bool Const, Ints &Vals) = 0;
  virtual Ints visitKeys() = 0;
  virtual std::unique_ptr<IMap> copy() = 0;
  virtual std::unique_ptr<IMap> moved() = 0;
  virtual void assign(IMap &M, bool Move) = 0;
};
/// A type of maps.
struct Type {
  const char *Name;
  Ints Keys;
  std::unique_ptr<IMap> (*Default)();
  std::unique_ptr<IMap> (*Init)(const Ints &Vals); ///< constructor, in the declared order
  bool (*Exists)(int Key);
};
std::vector<Type> &types();

template <class... Ks> struct Ops {
  typedef bcl::StaticMap<Ks...> Map;
  static constexpr bool Typed = false;
  template <class F> struct Each { F &Fn; int Calls = 0; Each(F &Fn) : Fn(Fn) {} template <class C> void operator()(C *P) { ++Calls; Fn(Id<typename C::CellKey>::value, P->template value<typename C::CellKey>()); } };
  template <class F> struct EachKey { F &Fn; int Calls = 0; EachKey(F &Fn) : Fn(Fn) {} template <class C> void operator()() { ++Calls; Fn(Id<typename C::CellKey>::value); } };
  template <class Q> static bool exists() { return bcl::IsCellExist<Map, Q>::value; }
};
template <class... Ts> struct TypeOps {
  typedef bcl::StaticTypeMap<Ts...> Map;
  static constexpr bool Typed = true;
  template <class F> struct Each { F &Fn; int Calls = 0; Each(F &Fn) : Fn(Fn) {} template <class T> void operator()(T &V) { ++Calls; Fn(Id<typename std::decay<T>::type>::value, V); } };
  template <class F> struct EachKey { F &Fn; int Calls = 0; EachKey(F &Fn) : Fn(Fn) {} template <class T> void operator()() { ++Calls; Fn(Id<T>::value); } };
  template <class Q> static bool exists() { return bcl::is_contained<Q, Ts...>::value; }
};

inline void same(int Calls, int N) { if (Calls != N) mc::fail_later("functor", "%d of %d calls changed the functor passed by reference", Calls, N); }
template <class O, class... Ks> struct TMap : IMap {
  typename O::Map M;
  TMap() : M() {}
  TMap(const typename O::Map &X) : M(X) {}
  TMap(typename O::Map &&X) : M(std::move(X)) {}
  template <class K0> static void set1(typename O::Map &M, int Key, int Val, int Via) {
    if (Id<K0>::value != Key) return;
    if (Via == 0) put(M.template value<K0>(), Val); else put(M[K0()], Val);
  }
  void set(int Key, int Val, int Via) override {
    if (Via == 2) { auto F = [&](int I, auto &V) { if (I == Key) put(V, Val); }; typename O::template Each<decltype(F)> E{F}; M.for_each(E); same(E.Calls, sizeof...(Ks)); return; }

    int D[] = {0, (set1<Ks>(M, Key, Val, Via), 0)...}; (void)D;
  }
  template <class K0> static void get1(typename O::Map &M, int Key, int Via, int &R) {
    if (Id<K0>::value != Key) return;
    const typename O::Map &C = M;
    R = take(Via == 0 ? C.template value<K0>() : Via == 1 ? C[K0()] : Via == 2 ? M.template value<K0>() : M[K0()]);
    if (&C.template value<K0>() != &M.template value<K0>()) mc::fail_later("address", "constant and mutable access denote different values");
  }
  int get(int Key, int Via) override { int R = -99; int D[] = {0, (get1<Ks>(M, Key, Via, R), 0)...}; (void)D; return R; }
  Ints visit(bool Const, Ints &Vals) override {
    Ints R;
    auto F = [&](int I, auto &V) { R.push_back(I); Vals.push_back(take(V)); };
    typename O::template Each<decltype(F)> E{F};
    const typename O::Map &C = M;
    if (Const) { C.for_each(E); same(E.Calls, (int)R.size()); } else M.for_each(std::move(E));
    return R;
  }
  Ints visitKeys() override { Ints R; auto F = [&](int I) { R.push_back(I); }; O::Map::for_each_key(typename O::template EachKey<decltype(F)>{F}); R.clear();
    typename O::template EachKey<decltype(F)> E{F}; O::Map::for_each_key(E); same(E.Calls, (int)R.size()); return R; }
  std::unique_ptr<IMap> copy() override { return std::unique_ptr<IMap>(new TMap(static_cast<const typename O::Map &>(M))); }
  std::unique_ptr<IMap> moved() override { return std::unique_ptr<IMap>(new TMap(std::move(M))); }
  void assign(IMap &X, bool Move) override { if (Move) M = std::move(static_cast<TMap &>(X).M); else M = static_cast<TMap &>(X).M; }
  static std::unique_ptr<IMap> fresh() { return std::unique_ptr<IMap>(new TMap); }
  template <class T> struct Val { typedef T type; };
  template <int N> struct Val<K<N>> { typedef typename K<N>::ValueType type; };
  static std::unique_ptr<IMap> init(const Ints &V) { return init(V, std::index_sequence_for<Ks...>()); }
  template <std::size_t... I> static std::unique_ptr<IMap> init(const Ints &V, std::index_sequence<I...>) {
    typename O::Map X(made<typename Val<Ks>::type>(V[I])...);
    return std::unique_ptr<IMap>(new TMap(X));
  }
  static bool exists(int Key) {
    bool R[] = {O::template exists<typename std::conditional<O::Typed, int, K<0>>::type>(), O::template exists<typename std::conditional<O::Typed, std::string, K<1>>::type>(),
                O::template exists<typename std::conditional<O::Typed, char, K<2>>::type>(), O::template exists<typename std::conditional<O::Typed, Deep, K<3>>::type>(),
                O::template exists<typename std::conditional<O::Typed, std::vector<int>, K<4>>::type>()};
    return R[Key];
  }
};
template <class... Ks> void addMap(const char *N) { typedef TMap<Ops<Ks...>, Ks...> T; types().push_back(Type{N, {Id<Ks>::value...}, T::fresh, T::init, T::exists}); }
template <class... Ts> void addTypeMap(const char *N) { typedef TMap<TypeOps<Ts...>, Ts...> T; types().push_back(Type{N, {Id<Ts>::value...}, T::fresh, T::init, T::exists}); }

/// A pair of maps.
struct Pair {
  const char *Name;
  Ints L, R;
  /// Transfers in one of four ways from a map which has \p From to one which
  /// has \p To, afterwards both are updated.
  void (*Transfer)(int Kind, Ints &From, Ints &To);
  Ints (*Merged)();
  Ints (*Lists)(int What);
};
std::vector<Pair> &pairs();

template <class M> struct KeysOf;
template <class... Ks> struct KeysOf<bcl::StaticMap<Ks...>> { static Ints get() { return {Id<Ks>::value...}; } };
template <class... Ks> struct KeysOf<bcl::TypeList<Ks...>> { static Ints get() { return {Id<Ks>::value...}; } };
struct Filler { const Ints &V; int I; template <class C> void operator()(C *P) { put(P->template value<typename C::CellKey>(), V[I++]); } };
struct Taker { Ints &V; int I; template <class C> void operator()(C *P) { V[I++] = take(P->template value<typename C::CellKey>()); } };
struct Lister { Ints &R; int Calls = 0; Lister(Ints &R) : R(R) {} template <class T> void operator()() { ++Calls; R.push_back(Id<T>::value); } };
template <class L, class R> struct TPair;
template <class... Ls, class... Rs> struct TPair<bcl::StaticMap<Ls...>, bcl::StaticMap<Rs...>> {
  typedef bcl::StaticMap<Ls...> L; typedef bcl::StaticMap<Rs...> R;
  static void transfer(int Kind, Ints &From, Ints &To) {
    L F{}; R T{};
    F.for_each(Filler{From, 0}); T.for_each(Filler{To, 0});
    if (Kind == 0) T.for_each(bcl::CopyToCellFunctor<L>(&F));
    else if (Kind == 1) F.for_each(bcl::CopyFromCellFunctor<R>(&T));
    else if (Kind == 2) T.for_each(bcl::MoveToCellFunctor<L>(&F));
    else if (Kind == 3) F.for_each(bcl::MoveFromCellFunctor<R>(&T));
    else { const L &CF = F; CF.for_each(bcl::CopyFromCellFunctor<R>(&T)); }
    Taker TF{From, 0}, TT{To, 0}; F.for_each(TF); T.for_each(TT); same(TF.I, (int)sizeof...(Ls)); same(TT.I, (int)sizeof...(Rs));
  }
  template <class X, class Y> static Ints merged(std::true_type) { return KeysOf<typename bcl::MergeCell<X, Y>::Result>::get(); }
  template <class X, class Y> static Ints merged(std::false_type) { return {-1}; }
  static constexpr bool disjoint() { bool B = true; bool D[] = {true, (B = B && !bcl::is_contained<Ls, Rs...>::value)...}; (void)D; return B; }
  static Ints merged() { return merged<L, R>(std::integral_constant<bool, disjoint()>()); }
  static Ints lists(int W) {
    typedef bcl::TypeList<Ls...> A; typedef bcl::TypeList<Rs...> B; typedef typename bcl::MergeTypeLists<A, B>::Type AB;
    if (W == 0) return KeysOf<AB>::get();
    if (W == 1) return KeysOf<typename bcl::IntersectTypeLists<A, B>::Type>::get();
    if (W == 2) return KeysOf<typename bcl::RemoveDuplicate<AB>::Type>::get();
    if (W == 3) return KeysOf<typename bcl::RemoveFromTypeList<K<1>, AB>::Type>::get();
    if (W == 4) return {(int)bcl::IsTypeExist<K<0>, AB>::value, (int)AB::size_of(), (int)bcl::size_of<Ls..., Rs...>()};
    if (W == 5) return KeysOf<typename bcl::ForwardTypeList<bcl::StaticMap, A>::Type>::get();
    if (W == 6) return KeysOf<typename bcl::ReverseCell<L>::Result>::get();
    Ints R; Lister LR{R}; AB::for_each_type(LR); same(LR.Calls, (int)R.size());
    return R;
  }
};
template <class L, class R> void addPair(const char *N) { typedef TPair<L, R> T; pairs().push_back(Pair{N, KeysOf<L>::get(), KeysOf<R>::get(), T::transfer, T::merged, T::lists}); }
} // namespace sm
#endif
