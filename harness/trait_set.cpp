// T02: ownership of descriptions by a set of traits, in every history.
#include "mc.h"
#include <cassert>
#include <map>
#include <unordered_map>
#include <bcl/trait.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

namespace {
using std::string;
using Ints = std::vector<int>;
int Live, Serial, DeadTwice;
/// Everything that is used as a description.
struct Counted {
  int Id, Alive = 0x5a5a;
  Counted() : Id(++Serial) { ++Live; }
  ~Counted() { if (Alive != 0x5a5a) ++DeadTwice; Alive = 0; --Live; }
};
template <int N> struct T : bcl::TraitBase<N>, Counted { static constexpr int Num = N; static string name() { return "t" + std::to_string(N); } };
struct Info : Counted { string Text = "a description which is not a trait"; };
typedef bcl::TypeList<bcl::tagged<Info, T<1>>, bcl::tagged<Info, T<4>, T<5>>> Tags;
using bcl::TraitDescriptor; using bcl::TraitAlternative; using bcl::TraitUnion;

/// What a set is expected to contain.
struct Cell { bool Set = false; int Desc = -1; }; ///< -1 is no description, 0 a null pointer

template <class D, class Map, class... Ts> struct Driver {
  typedef bcl::TraitSet<D, Map, Tags> S;
  static constexpr int N = sizeof...(Ts);
  typedef std::vector<Cell> Model;
  static bool conf(int I, int J) {
    static std::vector<std::vector<char>> C;
    if (C.empty()) { mc::NoCount NC; C = table(); }
    return C[I][J];
  }
  template <class A> static std::vector<char> row() { return {(char)(std::is_same<A, Ts>::value ? 0 : conflict(A::Num, Ts::Num))...}; }
  static std::vector<std::vector<char>> table() { return {row<Ts>()...}; }
  static bool conflict(int A, int B); ///< given for each declaration
  template <class A> struct Data { typedef typename std::remove_pointer<decltype(std::declval<S>().template get<A>())>::type type; };
  template <class A> static void fSet(S &X) { X.template set<A>(); }
  template <class A> static int fNew(S &X) { auto *P = new typename Data<A>::type; int I = P->Id; X.template set<A>(P); return I; }
  template <class A> static void fNull(S &X) { X.template set<A>(nullptr); }
  template <class A> static void fUnset(S &X) { X.template unset<A>(); }
  template <class A> static int fRelease(S &X) { auto *P = X.template release<A>(); int I = P ? P->Id : 0; delete P; return I; }
  template <class A> static int fGet(S &X) {
    const S &C = X; auto *P = X.template get<A>();
    if (P != C.template get<A>()) mc::fail_later("get", "constant and mutable get() return different descriptions");
    if (P && P->Alive != 0x5a5a) mc::fail_later("dead", "get() returns a deleted description");
    return P ? P->Id : 0;
  }
  template <class A> static bool fIs(S &X) { if (X.template is<A>() != X.template is_any<A>()) mc::fail_later("is", "is() and is_any() disagree"); return X.template is<A>(); }
  template <class A> static void fGroup(S &X, Ints &V) { L F{V}; X.template for_each_in_group<A>(F); F.same(); }
  template <class A> static void fConflict(S &X, Ints &V) { L F{V}; X.template for_each_conflict<A>(F); F.same(); }
  struct L { Ints &V; int Calls; L(Ints &V) : V(V), Calls((int)V.size()) {} template <class X> void operator()() { V.push_back(X::Num); ++Calls; }
    void same() const { if (Calls != (int)V.size()) mc::fail_later("functor", "a functor has been called %d times, but %d calls changed it", (int)V.size(), Calls); } };

  static Ints nums() { return {Ts::Num...}; }
  static void mset(Model &M, int I) {
    for (int J = 0; J < N; ++J) if (conf(I, J)) M[J] = Cell();
    M[I].Set = true;
  }
  static D desc(int Which, std::vector<bool> &Has) {
    D R;
    static void (*const F[])(D &) = {setD<Ts>...};
    Has.assign(N, false);
    if (Which < N) { F[Which](R); Has[Which] = true; }
    else if (Which > N) for (int I = 0; I < N; ++I) { bool Free = true; for (int J = 0; J < I; ++J) Free &= !(Has[J] && conf(I, J)); if (Free) F[I](R), Has[I] = true; }
    return R;
  }
  template <class A> static void setD(D &X) { X.template set<A>(); }
  template <class A> static bool isD(const D &X) { return X.template is<A>(); }

  static string canon(const Model &A) {
    string R;
    for (auto &C : A) R += !C.Set ? '-' : C.Desc < 0 ? 's' : C.Desc ? 'd' : '0';
    return R;
  }
  static void inspect(S &X, Model &M, const char *Which) {
    static bool (*const Is[])(S &) = {fIs<Ts>...};
    static int (*const Get[])(S &) = {fGet<Ts>...};
    Ints All, V;
    for (int I = 0; I < N; ++I) {
      MC_CHECK(Is[I](X) == M[I].Set, "is", "%s: trait %d is %s set", Which, nums()[I], M[I].Set ? "not" : "");
      int G = Get[I](X);
      MC_CHECK(G == std::max(M[I].Desc, 0), "get", "%s: description of trait %d is %d instead of %d", Which, nums()[I], G, std::max(M[I].Desc, 0));
      if (M[I].Set) All.push_back(nums()[I]);
    }
    L F{V}; X.for_each(F); F.same();
    std::sort(V.begin(), V.end()); std::sort(All.begin(), All.end());
    MC_CHECK(V == All, "each", "%s: for_each visits %d traits", Which, (int)V.size());
    static bool (*const IsD[])(const D &) = {isD<Ts>...};
    D C = X, G = X.get();
    for (int I = 0; I < N; ++I) MC_CHECK(IsD[I](C) == M[I].Set && IsD[I](G) == M[I].Set, "conversion", "%s: trait %d of the converted descriptor", Which, nums()[I]);
    static void (*const Gr[])(S &, Ints &) = {fGroup<Ts>...}; static void (*const Co[])(S &, Ints &) = {fConflict<Ts>...};
    for (int I = 0; I < N; ++I) {
      Ints W, E; Co[I](X, W); for (int J = 0; J < N; ++J) if (M[J].Set && conf(I, J)) E.push_back(nums()[J]);
      std::sort(W.begin(), W.end()); std::sort(E.begin(), E.end());
      MC_CHECK(W == E, "each-conflict", "%s: for_each_conflict<%d> visits %d traits", Which, nums()[I], (int)W.size());
      W.clear(); Gr[I](X, W);
      for (int K : W) MC_CHECK(std::count(All.begin(), All.end(), K), "each-group", "%s: for_each_in_group<%d> visits %d", Which, nums()[I], K);
      if (M[I].Set) MC_CHECK(std::count(W.begin(), W.end(), nums()[I]) == 1, "each-group", "%s: for_each_in_group<%d> does not visit it", Which, nums()[I]);
    }
  }
  static int owned(const Model &M) { int R = 0; for (auto &C : M) R += C.Desc > 0; return R; }

  static void run(int Depth, int Objects) {
    Live = Serial = DeadTwice = 0;
    {
    std::unique_ptr<S> O[2] = {std::unique_ptr<S>(new S), std::unique_ptr<S>(new S)};
    Model M[2] = {Model(N), Model(N)};
    for (int St = 0;; ++St) {
      bool New = St == 0 || mc::fresh();
      int Base = 0;
      if (New) for (int I = 0; I < Objects; ++I) inspect(*O[I], M[I], I ? "B" : "A");
      MC_CHECK(Live - Base == owned(M[0]) + owned(M[1]), "live", "%d descriptions are alive instead of %d", Live, owned(M[0]) + owned(M[1]));
      MC_CHECK(!DeadTwice, "twice", "a description is deleted twice");
      { mc::NoCount NC; string C = canon(M[0]) + "|" + canon(M[1]); mc::state(C + typeid(S).name()); if (St == Depth || mc::seen(C + typeid(S).name(), Depth - St)) break; }
      int W = Objects == 2 ? mc::choose(2) : 0;
      S &X = *O[W]; Model &Y = M[W]; const char *Nm = W ? "B" : "A";
      int C = mc::choose(5 * N + (N + 2) * 2 + 2 + 3 + (Objects == 2 ? 5 : 0));
      if (C < 5 * N) {
        int I = C / 5;
        static void (*const Set[])(S &) = {fSet<Ts>...}; static int (*const New[])(S &) = {fNew<Ts>...}; static void (*const Null[])(S &) = {fNull<Ts>...};
        static void (*const Unset[])(S &) = {fUnset<Ts>...}; static int (*const Rel[])(S &) = {fRelease<Ts>...};
        static const char *Names[] = {"set", "set(new)", "set(null)", "unset", "release"};
        mc::op("%s.%s<%d>", Nm, Names[C % 5], nums()[I]);
        switch (C % 5) {
        case 0: Set[I](X); mset(Y, I); break;
        case 1: { int Id = New[I](X); mset(Y, I); Y[I].Desc = Id; break; }
        case 2: Null[I](X); mset(Y, I); Y[I].Desc = 0; break;
        case 3: Unset[I](X); Y[I] = Cell(); break;
        case 4: { int R = Rel[I](X); MC_CHECK(R == std::max(0, Y[I].Desc), "release", "release<%d>() returns %d instead of %d", nums()[I], R, Y[I].Desc); Y[I].Desc = -1; break; }
        }
        continue;
      }
      C -= 5 * N;
      if (C < 2 * (N + 2)) {
        std::vector<bool> Has; D V = desc(C / 2, Has);
        mc::op("%s = descriptor %d", Nm, C / 2);
        if (C % 2) X = std::move(V); else { const D &R = V; X = R; }
        for (int I = 0; I < N; ++I) { Y[I] = Cell(); Y[I].Set = Has[I]; }
        continue;
      }
      C -= 2 * (N + 2);
      if (C < 2) {
        mc::op("%s.%s<first, last>", Nm, C ? "unset" : "set");
        pair(X, C, std::integral_constant<bool, (N > 1)>());
        if (C) Y[0] = Y[N - 1] = Cell(); else mset(Y, 0), mset(Y, N - 1);
        continue;
      }
      C -= 2;
      if (C == 0) { mc::op("%s.unset_all()", Nm); X.unset_all(); Y = Model(N); continue; }
      if (C == 1) { mc::op("%s = move(%s)", Nm, Nm); S &Same = X; X = std::move(Same); continue; }
      Model &YO = M[!W];
      if (C == 2) { // constructed from a descriptor
        mc::op("new %s(descriptor of it)", Nm);
        D V = X.get(); O[W].reset(W ? new S(V) : new S(std::move(V)));
        for (auto &Z : Y) Z.Desc = -1;
        continue;
      }
      S &XO = *O[!W];
      C -= 3;
      static const char *Names[] = {"= move", "(move)", "set from", "update from", "set from descriptor"};
      mc::op("%s %s the other", Nm, Names[C]);
      if (C == 0) X = std::move(XO);
      else if (C == 1) O[W].reset(new S(std::move(XO)));
      else if (C == 2) bcl::trait::set(XO, X);
      else if (C == 3) bcl::trait::update(XO, X);
      else bcl::trait::set(XO.get(), X);
      if (C < 2) {
        Y = YO;
        // Which traits remain set in the source is not specified, it does not own anything.
        static bool (*const Is[])(S &) = {fIs<Ts>...};
        for (int I = 0; I < N; ++I) { YO[I] = Cell(); YO[I].Set = Is[I](XO); }
      } else
        for (int I = 0; I < N; ++I) if (YO[I].Set) mset(Y, I); else if (C == 3) Y[I] = Cell();
    }
    }
    MC_CHECK(!Live && !DeadTwice, "live", "%d descriptions are alive at the end, %d deleted twice", Live, DeadTwice);
    mc::validated();
  }
  static void pair(S &X, int Unset, std::true_type) { typedef std::tuple<Ts...> Tu; typedef typename std::tuple_element<0, Tu>::type F; typedef typename std::tuple_element<N - 1, Tu>::type La;
    if (Unset) X.template unset<F, La>(); else X.template set<F, La>(); }
  static void pair(S &, int, std::false_type) {}
};
typedef TraitDescriptor<T<0>, TraitAlternative<TraitUnion<T<1>, T<2>>, T<3>>> D1;
typedef TraitDescriptor<TraitAlternative<TraitUnion<T<0>, T<1>>, TraitUnion<T<0>, T<2>>, T<3>>, T<4>, TraitAlternative<T<5>, T<6>>> D2;
typedef TraitDescriptor<T<1>, T<2>> D3;
typedef std::map<bcl::TraitKey, void *> M1;
typedef std::unordered_map<bcl::TraitKey, void *> M2;
template <class D> bool conflictIn(int A, int B);
template <> bool conflictIn<D1>(int A, int B) { return (A == 3 && (B == 1 || B == 2)) || (B == 3 && (A == 1 || A == 2)); }
template <> bool conflictIn<D2>(int A, int B) { if (A > B) std::swap(A, B); return (A == 1 && B == 2) || (A < 3 && B == 3) || (A == 5 && B == 6); }
template <> bool conflictIn<D3>(int, int) { return false; }
template <class D, class Map, class... Ts> bool Driver<D, Map, Ts...>::conflict(int A, int B) { return conflictIn<D>(A, B); }

// Transfers between sets and descriptors of different types.
template <class X, class... Ts> struct Many { typedef X type; };
template <class M> struct Side;
template <class X, class... Ts> struct Side<Many<X, Ts...>> {
  static constexpr int N = sizeof...(Ts);
  template <class A> static void fSet(X &Y) { Y.template set<A>(); }
  template <class A, class D, class M> static int fNew(bcl::TraitSet<D, M, Tags> &Y) { auto *P = new typename std::remove_pointer<decltype(Y.template get<A>())>::type; int I = P->Id; Y.template set<A>(P); return I; }
  template <class A, class... G> static int fNew(TraitDescriptor<G...> &Y) { Y.template set<A>(); return -1; }
  template <class A> static bool fIs(const X &Y) { return Y.template is<A>(); }
  template <class A, class D, class M> static int fGet(const bcl::TraitSet<D, M, Tags> &Y) { auto *P = Y.template get<A>(); return P ? P->Id : 0; }
  template <class A, class... G> static int fGet(const TraitDescriptor<G...> &) { return 0; }
  static const int *nums() { static const int V[] = {Ts::Num...}; return V; }
  /// Every combination of traits which are free of conflicts, each with and without a description.
  static void reach(X &Y, std::vector<Cell> &M, bool (*Conf)(int, int)) {
    static void (*const S[])(X &) = {fSet<Ts>...}; static int (*const W[])(X &) = {fNew<Ts>...};
    static const bool Plain = std::is_empty<X>::value || sizeof(X) == sizeof(bcl::TraitKey);
    for (int I = 0; I < N; ++I) {
      bool Free = true;
      for (int J = 0; J < I; ++J) Free &= !(M[J].Set && Conf(nums()[I], nums()[J]));
      int K = Free ? mc::choose(Plain ? 2 : 3) : 0;
      M[I].Set = K;
      if (K == 1) S[I](Y); else if (K) M[I].Desc = W[I](Y);
    }
  }
  static void inspect(const X &Y, const std::vector<Cell> &M, const char *Which) {
    static bool (*const Is[])(const X &) = {fIs<Ts>...}; static int (*const Get[])(const X &) = {fGet<Ts>...};
    for (int I = 0; I < N; ++I) {
      MC_CHECK(Is[I](Y) == M[I].Set, "cross-is", "%s: trait %d is %s set", Which, nums()[I], M[I].Set ? "not" : "");
      MC_CHECK(Get[I](Y) == std::max(M[I].Desc, 0), "cross-get", "%s: the description of trait %d is another one", Which, nums()[I]);
    }
  }
};
struct Collect { Ints &V; template <class A> void operator()() { V.push_back(A::Num); } };
template <class From, class To> void cross(const char *Name, bool (*ConfF)(int, int), bool (*ConfT)(int, int)) {
  typedef Side<From> SF; typedef Side<To> ST;
  Live = Serial = DeadTwice = 0;
  {
  typename From::type X; typename To::type Y;
  std::vector<Cell> MX(SF::N), MY(ST::N);
  SF::reach(X, MX, ConfF); ST::reach(Y, MY, ConfT);
  bool Update = mc::choose(2);
  mc::op("%s: %s", Name, Update ? "update" : "set");
  const typename From::type &C = X;
  if (Update) bcl::trait::update(C, Y); else bcl::trait::set(C, Y);
  // Traits are visited in an order which is not specified.
  Ints Order;
  Collect F{Order};
  if (Update) From::type::for_each_available(F); else C.for_each(F);
  for (int Num : Order) {
    int I = std::find(SF::nums(), SF::nums() + SF::N, Num) - SF::nums(), J = std::find(ST::nums(), ST::nums() + ST::N, Num) - ST::nums();
    if (J == ST::N) continue;
    if (!MX[I].Set) { MY[J] = Cell(); continue; }
    for (int K = 0; K < ST::N; ++K) if (K != J && ConfT(Num, ST::nums()[K])) MY[K] = Cell();
    MY[J].Set = true;
  }
  SF::inspect(X, MX, "source"); ST::inspect(Y, MY, "target");
  int Own = 0; for (auto &Z : MX) Own += Z.Desc > 0; for (auto &Z : MY) Own += Z.Desc > 0;
  MC_CHECK(Live == Own, "live", "%d descriptions are alive instead of %d", Live, Own);
  { mc::NoCount NC; string K = Name; for (auto &Z : MX) K += "-sd"[Z.Set + (Z.Desc > 0)]; K += '|'; for (auto &Z : MY) K += "-sd"[Z.Set + (Z.Desc > 0)]; mc::state(K + (Update ? 'u' : 's')); }
  }
  MC_CHECK(!Live && !DeadTwice, "live", "%d descriptions are alive at the end, %d deleted twice", Live, DeadTwice);
  mc::validated();
}
typedef TraitDescriptor<T<7>, TraitAlternative<T<3>, TraitUnion<T<1>, T<2>>>, T<0>> D4;
template <> bool conflictIn<D4>(int A, int B) { return (A == 3 && (B == 1 || B == 2)) || (B == 3 && (A == 1 || A == 2)); }
typedef Many<bcl::TraitSet<D1, M1, Tags>, T<0>, T<1>, T<2>, T<3>> CS1; typedef Many<D1, T<0>, T<1>, T<2>, T<3>> CD1;
typedef Many<bcl::TraitSet<D2, M2, Tags>, T<0>, T<1>, T<2>, T<3>, T<4>, T<5>, T<6>> CS2; typedef Many<D2, T<0>, T<1>, T<2>, T<3>, T<4>, T<5>, T<6>> CD2;
typedef Many<bcl::TraitSet<D3, M2, Tags>, T<1>, T<2>> CS3; typedef Many<D3, T<1>, T<2>> CD3;
typedef Many<bcl::TraitSet<D4, M1, Tags>, T<0>, T<1>, T<2>, T<3>, T<7>> CS4; typedef Many<D4, T<0>, T<1>, T<2>, T<3>, T<7>> CD4;
void crosses() {
  switch (mc::choose(16)) {
#define CROSS(N, A, B) case N: cross<CS##A, CS##B>("set " #A " to set " #B, conflictIn<D##A>, conflictIn<D##B>); break; \
  case N + 1: cross<CD##A, CS##B>("descriptor " #A " to set " #B, conflictIn<D##A>, conflictIn<D##B>); break; \
  case N + 2: cross<CS##A, CD##B>("set " #A " to descriptor " #B, conflictIn<D##A>, conflictIn<D##B>); break;
  CROSS(0, 3, 1) CROSS(3, 1, 3) CROSS(6, 1, 4) CROSS(9, 3, 2) CROSS(12, 4, 1)
#undef CROSS
  case 15: mc::choose(2) ? cross<CS2, CS3>("set 2 to set 3", conflictIn<D2>, conflictIn<D3>) : cross<CS4, CS2>("set 4 to set 2", conflictIn<D4>, conflictIn<D2>); break;
  }
}

// Static maps of traits.
template <class V> struct Put { int N; template <class Tr> void operator()(V &X) { X = V(10 + Tr::Num); ++N; } };
struct Names { Ints &V; int Calls = 0; Names(Ints &V) : V(V) {} template <class Tr> void operator()() { V.push_back(Tr::Num); ++Calls; } };
struct Vals { Ints &V, &W; int Calls = 0; Vals(Ints &V, Ints &W) : V(V), W(W) {} template <class Tr, class X> void operator()(X &Y) { V.push_back(Tr::Num); W.push_back(Y); ++Calls; } };
template <class Tr, class D, class Map> void look(const D &D0, const D &D1, Map &M, const D *P0, const D *P1) {
  std::vector<const D *> E; const Map &C = M;
  if (D0.template is<Tr>()) E.push_back(P0);
  if (D1.template is<Tr>()) E.push_back(P1);
  auto &V = C.template value<Tr>();
  MC_CHECK(V.size() == E.size() && std::equal(E.begin(), E.end(), V.begin()), "distribute", "the cell of trait %d has %d sets instead of %d", Tr::Num, (int)V.size(), (int)E.size());
  MC_CHECK(&V == &M[Tr()] && &C[Tr()] == &V && &M.template value<Tr>() == &V, "cell", "accesses to the cell of trait %d differ", Tr::Num);
}
template <class D, class... Ts> void maps() {
  D A, B;
  void (*const F[])(D &) = {[](D &X) { X.template set<Ts>(); }...};
  int N = sizeof...(Ts);
  for (int I = 0; I < N; ++I) if (mc::choose(2)) F[I](A);
  for (int I = 0; I < N; ++I) if (mc::choose(2)) F[N - 1 - I](B);
  mc::op("distribute two descriptors");
  typedef bcl::StaticTraitMap<std::vector<D *>, D> Map;
  Map M;
  A.for_each(bcl::TraitMapConstructor<D, Map>(A, M));
  bcl::TraitMapConstructor<D, Map> C(B, M);
  B.for_each(C);
  MC_CHECK(&C.getTraitMap() == &M && &C.getTraitSet() == &B, "constructor", "getTraitMap() or getTraitSet()");
  int Dummy[] = {(look<Ts>(A, B, M, &A, &B), 0)...}; (void)Dummy;
  // A map of numbers.
  typedef bcl::StaticTraitMap<int, D> IMap;
  IMap I(Ts::Num...);
  int Same[] = {(I.template value<Ts>() == Ts::Num ? 0 : 1)...};
  for (int S : Same) MC_CHECK(!S, "init", "values of a map are not in the order of traits");
  Ints K, V, W, Want = {Ts::Num...};
  IMap::for_each_key(Names{K}); K.clear();
  Names FK{K}; IMap::for_each_key(FK);
  const IMap &CI = I; CI.for_each(Vals{V, W}); V.clear(); W.clear();
  Vals FV{V, W}; CI.for_each(FV);
  MC_CHECK(FK.Calls == N && FV.Calls == N, "functor", "%d and %d calls of %d changed a functor", FK.Calls, FV.Calls, N);
  MC_CHECK(K == Want && V == Want && W == Want, "order", "traits of a map are visited in another order");
  Put<int> FP{0}; I.for_each(FP); int Cnt = FP.N; I.template value<T<1>>() = -3; I[T<1>()] -= 1;
  MC_CHECK(Cnt == N && CI.template value<T<1>>() == -4 && CI[T<2>()] == 12, "write", "values written to a map");
  string J = json::Parser<>::unparse(I);
  IMap R(Ts::Num...);
  json::Parser<> P(J);
  MC_CHECK(P.parse(R) && !P.hasErrors(), "json", "%s is refused", J.c_str());
  int Eq[] = {(R.template value<Ts>() == I.template value<Ts>() ? 0 : 1)...};
  for (int E : Eq) MC_CHECK(!E, "json", "a value is lost in %s", J.c_str());
  mc::validated();
}
} // namespace
void mc_register() {
  mc::Opt One, Two; One.split = 1; Two.split = 2;
  mc::scenario("two-sets", [] { Driver<D1, M1, T<0>, T<1>, T<2>, T<3>>::run(mc::bound(5, 9), 2); }, Two);
  mc::scenario("two-sets-hash", [] { Driver<D3, M2, T<1>, T<2>>::run(mc::bound(6, 12), 2); }, Two);
  mc::scenario("one-set", [] { Driver<D2, M1, T<0>, T<1>, T<2>, T<3>, T<4>, T<5>, T<6>>::run(mc::bound(5, 10), 1); }, One);
  mc::scenario("cross", crosses, One);
  mc::scenario("maps", [] { mc::choose(2) ? maps<D1, T<0>, T<1>, T<2>, T<3>>() : maps<TraitDescriptor<T<1>, TraitAlternative<T<2>, T<3>>, T<4>, T<0>>, T<1>, T<2>, T<3>, T<4>, T<0>>(); });
}
