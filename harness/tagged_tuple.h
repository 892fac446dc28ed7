// Interface to a tagged tuple of any type.
#ifndef VERIF_TAGGED_TUPLE_H
#define VERIF_TAGGED_TUPLE_H
#include "mc.h"
#include <bcl/tagged.h>
#include <bcl/tuple_utils.h>
#include <bcl/convertible_pair.h>
#include <memory>
#include <string>
#include <vector>

namespace tt {
using Ints = std::vector<int>;
template <int N> struct Tag {};
template <int N, int I> struct Alias {};
/// Elements of wide tuples.
template <int N> struct El { typedef typename std::conditional<N % 2 == 0, std::string, int>::type V; typedef bcl::tagged<V, Tag<N>> type; };
template <> struct El<0> { typedef int V; typedef bcl::tagged<int, Tag<0>> type; };
template <> struct El<1> { typedef std::string V; typedef bcl::tagged<std::string, Tag<1>, Alias<1, 0>> type; };
template <> struct El<2> { typedef int V; typedef bcl::add_alias_tagged<bcl::tagged<int, Tag<2>, Alias<2, 0>>, Alias<2, 1>> type; };
template <> struct El<3> { typedef std::vector<int> V; typedef bcl::add_alias_list_tagged<bcl::tagged<std::vector<int>, Tag<3>>, bcl::TypeList<Alias<3, 0>, Alias<3, 1>>> type; };
template <int N> using E = typename El<N>::type;

inline void put(int &X, int V) { X = V; }
inline void put(std::string &X, int V) { X = std::string(20, 'a') + char('0' + V); }
inline void put(std::vector<int> &X, int V) { X = {V, 7}; }
inline int take(int X) { return X; }
inline int take(const std::string &X) { return X.size() == 21 ? X[20] - '0' : -1; }
inline int take(const std::vector<int> &X) { return X.size() == 2 ? X[0] : -1; }
template <class T> T made(int V) { T X{}; put(X, V); return X; }
template <class T> struct Id;
template <class T, int N, class... A> struct Id<bcl::tagged<T, Tag<N>, A...>> { static constexpr int value = N; };

struct ITuple {
  virtual ~ITuple() {}
  virtual void set(int El, int Name, int V) = 0; ///< name 0 is the tag, 1 and 2 are aliases
  virtual Ints get(int El) = 0;                  ///< through all names, mutable and constant
  virtual Ints positional() = 0;
  virtual Ints visit(int Kind, Ints &Ids) = 0;
  virtual Ints args(bool Const) = 0;
  virtual Ints plain() = 0;
  virtual std::unique_ptr<ITuple> copy(int Kind) = 0;
  virtual void assign(ITuple &T, int Kind) = 0;
  virtual int compare(ITuple &T) = 0;
};
struct Type { const char *Name; Ints Els; std::unique_ptr<ITuple> (*Make)(const Ints &V); std::string (*Static)(); };
std::vector<Type> &types();

template <int N> struct Names { typedef bcl::TypeList<Tag<N>> list; };
template <> struct Names<1> { typedef bcl::TypeList<Tag<1>, Alias<1, 0>> list; };
template <> struct Names<2> { typedef bcl::TypeList<Tag<2>, Alias<2, 0>, Alias<2, 1>> list; };
template <> struct Names<3> { typedef bcl::TypeList<Tag<3>, Alias<3, 0>, Alias<3, 1>> list; };

/// Functors for bcl::for_each().
/// They count calls and check that elements themselves are passed.
typedef std::vector<const void *> Places;
struct Base { Ints &Vals; const Places &At; int Calls;
  template <class V> void put(V &X) {
    if (Vals.size() >= At.size() || At[Vals.size()] != static_cast<const void *>(&X)) mc::fail_later("copy", "a function gets a copy of an element");
    Vals.push_back(take(X)); ++Calls;
  } };
struct Taker : Base { Ints &Ids; Taker(Ints &I, Ints &V, const Places &A) : Base{V, A, 0}, Ids(I) {} template <class Tagged, class V> void operator()(V &X) { Ids.push_back(Id<Tagged>::value); put(X); } };
struct PlainTaker : Base { PlainTaker(Ints &V, const Places &A) : Base{V, A, 0} {} template <class V> void operator()(V &X) { put(X); } };
struct ArgTaker : Base { ArgTaker(Ints &V, const Places &A) : Base{V, A, 0} {} template <class... V> int operator()(V &... X) { int D[] = {0, (put(X), 0)...}; (void)D; return 77; } };
struct ArgRef { template <class... V> int &operator()(V &...) { static int R; return R; } };

/// Access to elements of a tuple or a pair with a name.
template <class T> struct Access {
  template <class Name> static void set1(T &X, int V) { put(X.template get<Name>(), V); }
  template <class Name> static void get1(T &X, Ints &R) {
    const T &C = X;
    if (&C.template get<Name>() != &X.template get<Name>()) mc::fail_later("address", "constant and mutable access denote different elements");
    R.push_back(take(X.template get<Name>())); R.push_back(take(C.template get<Name>()));
  }
  template <class... Ns> static void set(T &X, int Name, int V, bcl::TypeList<Ns...>) {
    void (*F[])(T &, int) = {set1<Ns>...}; F[Name % sizeof...(Ns)](X, V);
  }
  template <class... Ns> static void get(T &X, Ints &R, bcl::TypeList<Ns...>) { int D[] = {(get1<Ns>(X, R), 0)...}; (void)D; }
};

/// What is known without a value, compared with what is expected.
template <int... Ns> struct Static {
  typedef bcl::tagged_tuple<E<Ns>...> T;
  template <int N, class Name> static std::string one(std::size_t I) {
    std::string R;
    if (!std::is_same<bcl::get_tagged<Name, E<Ns>...>, E<N>>::value) R += "get_tagged ";
    if (!std::is_same<bcl::get_tagged<Name, bcl::TypeList<E<Ns>...>>, E<N>>::value) R += "get_tagged(list) ";
    if (!std::is_same<bcl::get_tagged_t<Name, E<Ns>...>, typename El<N>::V>::value) R += "get_tagged_t ";
    if (!std::is_same<bcl::get_tagged_tag<Name, E<Ns>...>, Tag<N>>::value) R += "get_tagged_tag ";
    if (!std::is_same<bcl::get_tagged_alias<Name, E<Ns>...>, typename Names<N>::list>::value) R += "get_tagged_alias ";
    if (!std::is_same<typename bcl::tagged_tuple_element<Name, T>::type, typename El<N>::V>::value) R += "tagged_tuple_element ";
    if (bcl::tagged_tuple_idx<Name, T>::value != I) R += "tagged_tuple_idx ";
    if (!bcl::tags::is_alias<Name, E<N>>::value) R += "is_alias ";
    return R;
  }
  template <int N, class... Names_> static std::string el(std::size_t I, bcl::TypeList<Names_...>) {
    std::string R; int D[] = {0, (R += one<N, Names_>(I), 0)...}; (void)D;
    if (!bcl::is_tagged<E<N>>::value || bcl::is_tagged<Tag<N>>::value) R += "is_tagged ";
    if (bcl::tags::is_alias<Tag<9>, E<N>>::value) R += "is_alias(unknown) ";
    return R;
  }
  template <std::size_t... Is> static std::string all(std::index_sequence<Is...>) {
    std::string R;
    int D[] = {0, (R += el<Ns>(Is, typename Names<Ns>::list()), 0)...}; (void)D;
    bool B[] = {true, std::is_same<typename bcl::tagged_tuple_tag<Is, T>::type, Tag<Ns>>::value...};
    for (bool X : B) if (!X) R += "tagged_tuple_tag ";
    return R;
  }
  static std::string run() {
    std::string R = all(std::make_index_sequence<sizeof...(Ns)>());
    if (!std::is_void<bcl::get_tagged<Tag<9>, E<Ns>...>>::value || !std::is_void<bcl::get_tagged_t<Tag<9>, E<Ns>...>>::value) R += "get_tagged(unknown) ";
    if (bcl::tagged_tuple_size<T>::value != sizeof...(Ns) || bcl::tagged_tuple_empty<T>::value != !sizeof...(Ns)) R += "size ";
    return R;
  }
};

template <int... Ns> struct TTuple : ITuple {
  typedef bcl::tagged_tuple<E<Ns>...> T;
  typedef std::tuple<typename El<Ns>::V...> Std;
  T X;
  TTuple() {}
  TTuple(T &&Y) : X(std::move(Y)) {}
  TTuple(const T &Y) : X(Y) {}
  TTuple(T &Y) : X(Y) {}
  TTuple(const Std &Y) : X(Y) {}
  template <int N> static void set1(T &X, int E, int Name, int V) { if (E == N) Access<T>::set(X, Name, V, typename Names<N>::list()); }
  template <int N> static void get1(T &X, int E, Ints &R) { if (E == N) Access<T>::get(X, R, typename Names<N>::list()); }
  void set(int E, int Name, int V) override { int D[] = {0, (set1<Ns>(X, E, Name, V), 0)...}; (void)D; }
  Ints get(int E) override { Ints R; int D[] = {0, (get1<Ns>(X, E, R), 0)...}; (void)D; return R; }
  template <std::size_t... Is> Ints pos(std::index_sequence<Is...>) { return {take(std::get<Is>(X))...}; }
  Ints positional() override { return pos(std::make_index_sequence<sizeof...(Ns)>()); }
  Ints visit(int Kind, Ints &Ids) override {
    Ints V; const T &C = X; Places A = places(std::make_index_sequence<sizeof...(Ns)>());
    int N = sizeof...(Ns), Calls = N;
    if (Kind == 0) bcl::for_each(X, Taker(Ids, V, A));
    else if (Kind == 1) { Taker F(Ids, V, A); bcl::for_each(C, F); Calls = F.Calls; }
    else if (Kind == 2) bcl::for_each(static_cast<Std &>(X), PlainTaker(V, A));
    else { PlainTaker F(V, A); bcl::for_each(static_cast<const Std &>(C), F); Calls = F.Calls; }
    if (Calls != N) mc::fail_later("function", "another function is called for elements");
    return V;
  }
  template <std::size_t... Is> Places places(std::index_sequence<Is...>) { return {static_cast<const void *>(&std::get<Is>(X))...}; }
  Ints args(bool Const) override {
    Ints V; const Std &C = X; Std &M = X; Places A = places(std::make_index_sequence<sizeof...(Ns)>());
    ArgTaker F(V, A);
    int R = Const ? bcl::forward_as_args(C, F) : bcl::forward_as_args(M, ArgTaker(V, A));
    if (Const && F.Calls != sizeof...(Ns)) mc::fail_later("function", "another function is called for elements");
    static_assert(std::is_same<decltype(bcl::forward_as_args(M, ArgRef())), int &>::value, "the result of a function is not forwarded");
    if (R != 77) V.push_back(-77);
    return V;
  }
  template <std::size_t... Is> static Ints plain(const Std &S, std::index_sequence<Is...>) { return {take(std::get<Is>(S))...}; }
  Ints plain() override { Std S(X); return plain(S, std::make_index_sequence<sizeof...(Ns)>()); }
  std::unique_ptr<ITuple> copy(int Kind) override {
    if (Kind == 0) { const T &C = X; return std::unique_ptr<ITuple>(new TTuple(C)); }
    if (Kind == 1) return std::unique_ptr<ITuple>(new TTuple(X));
    if (Kind == 2) { Std S(X); return std::unique_ptr<ITuple>(new TTuple(S)); }
    return std::unique_ptr<ITuple>(new TTuple(std::move(X)));
  }
  void assign(ITuple &Y, int Kind) override {
    T &From = static_cast<TTuple &>(Y).X; const T &C = From;
    if (Kind == 0) X = C; else if (Kind == 1) X = From; else if (Kind == 2) { Std S(From); X = S; } else if (Kind == 3) X = std::move(From);
    else swap(X, From);
  }
  int compare(ITuple &Y) override {
    T &O = static_cast<TTuple &>(Y).X;
    return (X == O) | (X != O) << 1 | (X < O) << 2 | (X > O) << 3 | (X <= O) << 4 | (X >= O) << 5;
  }
  template <std::size_t... Is> static std::unique_ptr<ITuple> make(const Ints &V, std::index_sequence<Is...>) { return std::unique_ptr<ITuple>(new TTuple(T(made<typename El<Ns>::V>(V[Is])...))); }
  static std::unique_ptr<ITuple> make(const Ints &V) { return make(V, std::make_index_sequence<sizeof...(Ns)>()); }
};
template <> inline std::unique_ptr<ITuple> TTuple<>::make(const Ints &) { return std::unique_ptr<ITuple>(new TTuple<>()); }
template <> inline std::unique_ptr<ITuple> TTuple<>::copy(int) { return std::unique_ptr<ITuple>(new TTuple<>()); }
template <> inline void TTuple<>::assign(ITuple &, int) {}
template <int... Ns> void addTuple(const char *N) { types().push_back(Type{N, {Ns...}, TTuple<Ns...>::make, Static<Ns...>::run}); }

template <int A, int B> struct TPair : ITuple {
  typedef bcl::tagged_pair<E<A>, E<B>> T;
  typedef std::pair<typename El<A>::V, typename El<B>::V> Std;
  T X;
  TPair() {}
  template <class Y> TPair(int, Y &&Z) : X(std::forward<Y>(Z)) {}
  void set(int E, int Name, int V) override { if (E == A) Access<T>::set(X, Name, V, typename Names<A>::list()); else Access<T>::set(X, Name, V, typename Names<B>::list()); }
  Ints get(int E) override { Ints R; if (E == A) Access<T>::get(X, R, typename Names<A>::list()); else Access<T>::get(X, R, typename Names<B>::list()); return R; }
  Ints positional() override { return {take(X.first), take(X.second)}; }
  Ints visit(int, Ints &Ids) override { Ids = {A, B}; return {take(std::get<0>(X)), take(std::get<1>(X))}; }
  Ints args(bool) override { return positional(); }
  Ints plain() override { Std S(X); return {take(S.first), take(S.second)}; }
  std::unique_ptr<ITuple> copy(int Kind) override {
    const T &C = X;
    if (Kind == 0) return std::unique_ptr<ITuple>(new TPair(0, C));
    if (Kind == 1) return std::unique_ptr<ITuple>(new TPair(0, X));
    if (Kind == 2) { Std S(X); return std::unique_ptr<ITuple>(new TPair(0, S)); }
    return std::unique_ptr<ITuple>(new TPair(0, std::move(X)));
  }
  void assign(ITuple &Y, int Kind) override {
    T &From = static_cast<TPair &>(Y).X; const T &C = From;
    if (Kind == 0) X = C; else if (Kind == 1) X = From; else if (Kind == 2) { Std S(From); X = S; } else if (Kind == 3) X = std::move(From);
    else swap(X, From);
  }
  int compare(ITuple &Y) override {
    T &O = static_cast<TPair &>(Y).X;
    return (X == O) | (X != O) << 1 | (X < O) << 2 | (X > O) << 3 | (X <= O) << 4 | (X >= O) << 5;
  }
  static std::unique_ptr<ITuple> make(const Ints &V) {
    std::unique_ptr<TPair> P(new TPair); T Y(made<typename El<A>::V>(V[0]), made<typename El<B>::V>(V[1])); P->X = Y; return std::unique_ptr<ITuple>(P.release());
  }
  static std::string none() { return ""; }
};
template <int A, int B> void addPair(const char *N) { types().push_back(Type{N, {A, B}, TPair<A, B>::make, TPair<A, B>::none}); }

/// A convertible pair denotes its elements by their types.
template <int A, int B> struct TConv : ITuple {
  typedef typename El<A>::V VA; typedef typename El<B>::V VB;
  typedef bcl::convertible_pair<VA, VB> T; typedef std::pair<VA, VB> Std;
  T X;
  TConv() {}
  template <class Y> TConv(int, Y &&Z) : X(std::forward<Y>(Z)) {}
  void set(int E, int, int V) override { if (E == A) { VA &R = X; put(R, V); } else { VB &R = X; put(R, V); } }
  Ints get(int E) override { const T &C = X;
    if (E == A) { VA &R = X; const VA &S = C; if (&R != &S) mc::fail_later("address", "different elements"); return {take(R), take(S), take(X.first)}; }
    VB &R = X; const VB &S = C; if (&R != &S) mc::fail_later("address", "different elements"); return {take(R), take(S), take(X.second)}; }
  Ints positional() override { return {take(X.first), take(X.second)}; }
  Ints visit(int, Ints &Ids) override { Ids = {A, B}; return {take(std::get<0>(X)), take(std::get<1>(X))}; }
  Ints args(bool) override { return positional(); }
  Ints plain() override { Std S(X); return {take(S.first), take(S.second)}; }
  std::unique_ptr<ITuple> copy(int Kind) override {
    const T &C = X;
    if (Kind == 0) return std::unique_ptr<ITuple>(new TConv(0, C));
    if (Kind == 1) return std::unique_ptr<ITuple>(new TConv(0, X));
    if (Kind == 2) { Std S(X); return std::unique_ptr<ITuple>(new TConv(0, S)); }
    return std::unique_ptr<ITuple>(new TConv(0, std::move(X)));
  }
  void assign(ITuple &Y, int Kind) override {
    T &From = static_cast<TConv &>(Y).X; const T &C = From;
    if (Kind == 0) X = C; else if (Kind == 1) X = From; else if (Kind == 2) { Std S(From); X = S; } else if (Kind == 3) X = std::move(From);
    else swap(X, From);
  }
  int compare(ITuple &Y) override {
    T &O = static_cast<TConv &>(Y).X;
    return (X == O) | (X != O) << 1 | (X < O) << 2 | (X > O) << 3 | (X <= O) << 4 | (X >= O) << 5;
  }
  static std::unique_ptr<ITuple> make(const Ints &V) { return std::unique_ptr<ITuple>(new TConv(0, T(made<VA>(V[0]), made<VB>(V[1])))); }
  static std::string none() { return ""; }
};
template <int A, int B> void addConv(const char *N) { types().push_back(Type{N, {A, B}, TConv<A, B>::make, TConv<A, B>::none}); }

/// A tuple of values of one type with tags.
template <int... Ns> struct Same {
  typedef bcl::tags::get_tagged_tuple_t<int, Tag<Ns>...> T;
  static std::string run() {
    static_assert(std::is_same<T, bcl::tags::get_tagged_tuple_t<int, bcl::TypeList<Tag<Ns>...>>>::value, "a list of tags makes another tuple");
    return std::is_same<T, bcl::tagged_tuple<bcl::tagged<int, Tag<Ns>>...>>::value ? "" : "get_tagged_tuple ";
  }
};
std::vector<std::pair<const char *, std::string (*)()>> &sames();
template <int... Ns> void addSame(const char *N) { sames().push_back({N, Same<Ns...>::run}); }
} // namespace tt
#endif
