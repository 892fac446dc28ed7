// Legacy collections of cells of any type.
#ifndef VERIF_LEGACY_CELLS_H
#define VERIF_LEGACY_CELLS_H
#include "mc.h"
#include <bcl/legacy/cell_legacy.h>
#include <memory>
#include <string>
#include <vector>

namespace lc {
using Ints = std::vector<int>;
inline void put(int &X, int V) { X = V; }
inline void put(std::string &X, int V) { X = std::string(20, 'a') + char('0' + V); }
inline void put(std::vector<int> &X, int V) { X = {V, 7}; }
inline int take(int X) { return X; }
inline int take(const std::string &X) { return X.size() == 21 ? X[20] - '0' : -1; }
inline int take(const std::vector<int> &X) { return X.size() == 2 ? X[0] : -1; }
template <int N> struct TypeOf { typedef int type; };
template <> struct TypeOf<1> { typedef std::string type; };
template <> struct TypeOf<2> { typedef std::vector<int> type; };
template <int N> struct I { typedef typename TypeOf<N % 4>::type ValueType; };
template <class T> struct Num;
template <int N> struct Num<I<N>> { static constexpr int value = N; };

/// Identifiers of a collection in the order of links.
template <class C> struct Listed { static void get(Ints &R) { R.push_back(Num<typename C::CellId>::value); Listed<typename C::CellNext>::get(R); } };
template <> struct Listed<Utility::Null> { static void get(Ints &) {} };
template <class C> Ints listed() { Ints R; Listed<C>::get(R); return R; }

struct ICells {
  virtual ~ICells() {}
  virtual void set(int Id, int How, int V) = 0;
  virtual int get(int Id) = 0;
  virtual Ints visit(int Kind, Ints &Vals) = 0;
  virtual std::unique_ptr<ICells> copy() = 0;
  virtual void assign(ICells &From) = 0;
};
struct Type { const char *Name; Ints Ids; std::unique_ptr<ICells> (*Make)(); std::string (*Static)(); };
std::vector<Type> &types();
struct Pair {
  const char *Name; Ints Left, Right;
  /// Transfers the values of the first collection to the second one.
  Ints (*Transfer)(int Kind, const Ints &L, const Ints &R, Ints &LeftAfter);
  Ints (*Merged)();
};
std::vector<Pair> &pairs();
struct Macro { int N; Ints Ids; };
std::vector<Macro> &macros();

struct Taker { Ints &Ids, &Vals; template <class C> void operator()(C *X) { typedef typename C::CellId W; Ids.push_back(Num<W>::value); Vals.push_back(take(X->template Value<W>())); } };
struct Adder { int V; template <class C> void operator()(C *X) { typedef typename C::CellId W; put(X->template Value<W>(), V++); } };
struct Definer { Ints &Ids; template <class C> void operator()() { Ids.push_back(Num<typename C::CellId>::value); } };

template <int... Ns> struct TCells : ICells {
  template <int... Ms> struct Make;
  template <int M, int... Ms> struct Make<M, Ms...> { typedef Base::Cell<I<M>, typename Make<Ms...>::type> type; };
  template <int M> struct Make<M> { typedef Base::Cell<I<M>> type; };
  typedef typename Make<Ns...>::type T;
  T X;
  template <int N> void set1(int Id, int How, int V) {
    if (Id != N) return;
    if (How == 0) put(X.template Value<I<N>>(), V);
    else if (How == 1) put(X[I<N>()], V);
    else put(static_cast<typename Base::IsCellExist<T, I<N>>::Cell &>(X)[I<N>()], V);
  }
  template <int N> void get1(int Id, int &R) {
    const T &C = X;
    const auto *P = &X.template Value<I<N>>();
    if (P != &X[I<N>()] || P != &C[I<N>()] || P != &C.template Value<I<N>>()) mc::fail_later("address", "ways to access a value denote different objects");
    if (Id == N) R = take(*P);
  }
  void set(int Id, int How, int V) override { int D[] = {(set1<Ns>(Id, How, V), 0)...}; (void)D; }
  int get(int Id) override { int R = -2; int D[] = {(get1<Ns>(Id, R), 0)...}; (void)D; return R; }
  Ints visit(int Kind, Ints &Vals) override {
    Ints Ids; Taker F{Ids, Vals};
    if (Kind == 0) X.Foreach(F);
    else if (Kind == 1) { const T &C = X; C.Foreach(F); }
    else if (Kind == 2) { Definer D{Ids}; T::ForeachDefinition(D); }
    else { Adder A{1}; X.Foreach(A); }
    return Ids;
  }
  std::unique_ptr<ICells> copy() override { return std::unique_ptr<ICells>(new TCells(*this)); }
  void assign(ICells &From) override { X = static_cast<TCells &>(From).X; }
  template <int N> static std::string exist() {
    typedef Base::IsCellExist<T, I<N>> E;
    bool In = false; for (int K : {Ns...}) In |= K == N;
    std::string R;
    if (std::is_base_of<Utility::True, E>::value != In || std::is_base_of<Utility::False, E>::value == In) R += "IsCellExist ";
    if (std::is_same<typename E::Cell, Utility::Null>::value == In) R += "IsCellExist::Cell ";
    if (In && listed<typename E::Cell>()[0] != N) R += "found cell ";
    return R;
  }
  static std::string statics() {
    std::string R = exist<0>() + exist<1>() + exist<2>() + exist<3>() + exist<4>();
    Ints Ids{Ns...}, Rev(Ids.rbegin(), Ids.rend());
    if (listed<T>() != Ids) R += "order ";
    if (listed<typename Base::ReverseCell<T>::Result>() != Rev) R += "ReverseCell ";
    if (!std::is_same<typename Base::ReverseCell<typename Base::ReverseCell<T>::Result>::Result, T>::value) R += "ReverseCell twice ";
    if (!std::is_same<Base::ReverseCell<Utility::Null>::Result, Utility::Null>::value) R += "ReverseCell of nothing ";
    if (!std::is_same<typename Base::MergeCell<T, Utility::Null>::Result, T>::value || !std::is_same<typename Base::MergeCell<Utility::Null, T>::Result, T>::value) R += "MergeCell with nothing ";
    if (!std::is_same<Base::MergeCell<Utility::Null, Utility::Null>::Result, Utility::Null>::value) R += "MergeCell of nothing ";
    return R;
  }
  static std::unique_ptr<ICells> make() { return std::unique_ptr<ICells>(new TCells); }
};
template <int... Ns> void addCells(const char *Name) { types().push_back({Name, {Ns...}, TCells<Ns...>::make, TCells<Ns...>::statics}); }
template <class L, class R> Ints transfer(int Kind, const Ints &LV, const Ints &RV, Ints &After) {
  L X; R Y;
  Ints LI = listed<typename std::decay<decltype(X.X)>::type>(), RI = listed<typename std::decay<decltype(Y.X)>::type>(), V;
  for (size_t K = 0; K < LI.size(); ++K) X.set(LI[K], 0, LV[K]);
  for (size_t K = 0; K < RI.size(); ++K) Y.set(RI[K], 0, RV[K]);
  if (Kind == 0) { Base::CopyToCellFunctor<decltype(X.X)> F(&X.X); Y.X.Foreach(F); }
  else if (Kind == 1) { Base::CopyFromCellFunctor<decltype(Y.X)> F(&Y.X); X.X.Foreach(F); }
  else { Base::CopyFromCellFunctor<decltype(Y.X)> F(&Y.X); const auto &C = X.X; C.Foreach(F); }
  for (int K : RI) V.push_back(Y.get(K));
  for (int K : LI) After.push_back(X.get(K));
  return V;
}
template <class L, class R> Ints merged() { return listed<typename Base::MergeCell<typename L::T, typename R::T>::Result>(); }
template <class L, class R> void addPair(const char *Name) {
  pairs().push_back({Name, listed<typename L::T>(), listed<typename R::T>(), transfer<L, R>, merged<L, R>});
}
template <class C> void addMacro(int N) { macros().push_back({N, listed<C>()}); }
} // namespace lc
#endif
