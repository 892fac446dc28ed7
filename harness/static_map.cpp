// S01: one independent value per key of static maps, visited in the order of
// declaration, for a family of maps.
#include "static_map.h"
#include <algorithm>

namespace sm {
std::vector<Type> &types() { static std::vector<Type> T; return T; }
std::vector<Pair> &pairs() { static std::vector<Pair> P; return P; }
}
#define X(K) void staticMaps##K();
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X

namespace {
using namespace sm;
using std::string;
string list(const Ints &V) { string R; for (int I : V) R += std::to_string(I) + " "; return R; }

struct Obj { std::unique_ptr<IMap> M; Ints Val; };

void compare(const Type &T, Obj &O, const char *Which) {
  for (size_t I = 0; I < T.Keys.size(); ++I)
    for (int Via = 0; Via < 4; ++Via) {
      int G = O.M->get(T.Keys[I], Via);
      if (O.Val[I] != -5) MC_CHECK(G == O.Val[I], "value", "%s: %s map has %d for key %d instead of %d (access %d)", T.Name, Which, G, T.Keys[I], O.Val[I], Via);
    }
  for (int C = 0; C < 2; ++C) {
    Ints V, Ks = O.M->visit(C, V);
    MC_CHECK(Ks == T.Keys, "order", "%s: for_each visits keys %s", T.Name, list(Ks).c_str());
    for (size_t I = 0; I < V.size(); ++I)
      MC_CHECK(O.Val[I] == -5 || V[I] == O.Val[I], "visited", "%s: for_each passes %d for key %d instead of %d", T.Name, V[I], T.Keys[I], O.Val[I]);
  }
}

void histories(int Depth) {
  auto &T = types()[mc::choose(types().size())];
  int N = T.Keys.size();
  mc::op("%s", T.Name);
  Obj A, B;
  A.M = T.Default();
  for (int K = 0; K < 5; ++K) {
    bool In = std::find(T.Keys.begin(), T.Keys.end(), K) != T.Keys.end();
    MC_CHECK(T.Exists(K) == In, "exists", "%s: existence of key %d", T.Name, K);
  }
  MC_CHECK(A.M->visitKeys() == T.Keys, "keys", "%s: for_each_key visits %s", T.Name, list(A.M->visitKeys()).c_str());
  for (int I = 0; I < N; ++I) { A.M->set(T.Keys[I], 50 + I, 0); A.Val.push_back(50 + I); }
  if (N) { Ints V; for (int I = 0; I < N; ++I) V.push_back(60 + I); B.M = T.Init(V); B.Val = V; }
  else B.M = T.Default();
  for (int D = 0;; ++D) {
    compare(T, A, "first"); compare(T, B, "second");
    { mc::NoCount NC; string S = T.Name + ("|" + list(A.Val)) + "|" + list(B.Val); mc::state(S); }
    if (D >= (N > 5 ? 1 : Depth + (N <= 2))) break;
    int C = mc::choose(1 + 5 + 6 * N);
    if (!C) break;
    if (--C < 5) {
      static const char *Names[] = {"B(A)", "B = A", "B = move(A)", "B(move(A))", "A = A"};
      mc::op("%s", Names[C]);
      if (C == 0) { B.M = A.M->copy(); B.Val = A.Val; }
      else if (C == 1) { B.M->assign(*A.M, false); B.Val = A.Val; }
      else if (C == 4) A.M->assign(*A.M, false);
      else {
        if (C == 2) B.M->assign(*A.M, true); else B.M = A.M->moved();
        B.Val = A.Val;
        for (int &X : A.Val) X = -5;
      }
    } else {
      C -= 5;
      int Via = C % 3, Which = C / 3 % 2, I = C / 6;
      Obj &O = Which ? B : A;
      int V = 70 + D * 10 + I;
      mc::op("%s[%d] = %d via %d", Which ? "B" : "A", T.Keys[I], V, Via);
      O.M->set(T.Keys[I], V, Via); O.Val[I] = V;
    }
  }
  mc::validated();
}

void transfers() {
  auto &P = pairs()[mc::choose(pairs().size())];
  int Kind = mc::choose(5);
  mc::op("%s: transfer %d", P.Name, Kind);
  Ints F, T;
  for (int K : P.L) F.push_back(100 + K);
  for (int K : P.R) T.push_back(200 + K);
  P.Transfer(Kind, F, T);
  for (size_t I = 0; I < P.R.size(); ++I) {
    bool In = std::count(P.L.begin(), P.L.end(), P.R[I]);
    MC_CHECK(T[I] == (In ? 100 : 200) + P.R[I], "transfer", "%s: value of key %d of the target is %d", P.Name, P.R[I], T[I]);
  }
  for (size_t I = 0; I < P.L.size(); ++I) {
    bool In = std::count(P.R.begin(), P.R.end(), P.L[I]), Moved = Kind == 2 || Kind == 3;
    if (!(In && Moved)) MC_CHECK(F[I] == 100 + P.L[I], "source", "%s: value of key %d of the source is %d", P.Name, P.L[I], F[I]);
    else if (P.L[I] == 1 || P.L[I] >= 3) MC_CHECK(F[I] == -1, "not-moved", "%s: value of key %d is copied and not moved", P.Name, P.L[I]);
  }
  mc::NoCount NC; mc::state(P.Name + std::to_string(Kind)); mc::validated();
}

void lists() {
  auto &P = pairs()[mc::choose(pairs().size())];
  Ints AB = P.L; AB.insert(AB.end(), P.R.begin(), P.R.end());
  auto In = [](const Ints &V, int K) { return std::count(V.begin(), V.end(), K) > 0; };
  bool Disjoint = true;
  for (int K : P.L) Disjoint &= !In(P.R, K);
  mc::op("%s", P.Name);
  if (Disjoint) MC_CHECK(P.Merged() == AB, "merge-cell", "%s: MergeCell has keys %s", P.Name, list(P.Merged()).c_str());
  MC_CHECK(P.Lists(0) == AB, "merge", "%s: MergeTypeLists is %s", P.Name, list(P.Lists(0)).c_str());
  Ints X; for (int K : P.L) if (In(P.R, K)) X.push_back(K);
  MC_CHECK(P.Lists(1) == X, "intersect", "%s: IntersectTypeLists is %s", P.Name, list(P.Lists(1)).c_str());
  Ints U = AB, Y = P.Lists(2), YS = Y; std::sort(U.begin(), U.end()); U.erase(std::unique(U.begin(), U.end()), U.end()); std::sort(YS.begin(), YS.end());
  MC_CHECK(YS == U, "duplicates", "%s: RemoveDuplicate is %s", P.Name, list(Y).c_str());
  Ints Z; for (int K : AB) if (K != 1) Z.push_back(K);
  MC_CHECK(P.Lists(3) == Z, "remove", "%s: RemoveFromTypeList is %s", P.Name, list(P.Lists(3)).c_str());
  MC_CHECK((P.Lists(4) == Ints{In(AB, 0), (int)AB.size(), (int)AB.size()}), "queries", "%s: IsTypeExist or size_of", P.Name);
  MC_CHECK(P.Lists(5) == P.L, "forward", "%s: ForwardTypeList is %s", P.Name, list(P.Lists(5)).c_str());
  MC_CHECK(P.Lists(7) == AB, "for-each-type", "%s: for_each_type visits %s", P.Name, list(P.Lists(7)).c_str());
  Ints V(P.L.rbegin(), P.L.rend());
  MC_CHECK(P.Lists(6) == V, "reverse", "%s: ReverseCell is %s", P.Name, list(P.Lists(6)).c_str());
  mc::NoCount NC; mc::state(string("lists ") + P.Name); mc::validated();
}

/// Pointers in cells: Init and Clear functors.
struct Obj0 { static int Live; int V; Obj0(int V) : V(V) { ++Live; } ~Obj0() { --Live; } };
int Obj0::Live = 0;
template <int N> struct Q { typedef typename std::conditional<N % 2 == 0, Obj0 *, int>::type ValueType; };
struct SetPtr { int Fill, I, P; void put(Obj0 *&P0) { if (Fill >> I & 1) P0 = new Obj0(I), ++P; } void put(int &V) { V = 1000 + I; }
  template <class C> void operator()(C *P0) { put(P0->template value<typename C::CellKey>()); ++I; } };
struct LookPtr { int I, Nulls, Bad; void see(Obj0 *P) { Nulls += !P; } void see(int V) { Bad += V != 1000 + I; }
  template <class C> void operator()(C *P0) { see(P0->template value<typename C::CellKey>()); ++I; } };
struct CountPtr { int &P; void see(Obj0 *) { ++P; } void see(int) {} template <class C> void operator()(const C *P0) { see(P0->template value<typename C::CellKey>()); } };
template <class M> void pointers(const char *Name) {
  Obj0::Live = 0;
  M X;
  int Fill = mc::choose(1 << 4);
  SetPtr S{Fill, 0, 0}; LookPtr L{0, 0, 0}, L2{0, 0, 0};
  X.for_each(bcl::InitCellFunctor());
  X.for_each(S);
  X.for_each(L);
  mc::op("%s: fill %d", Name, Fill);
  MC_CHECK(Obj0::Live == S.P && L.I == S.I && !L.Bad, "init", "%s: values are wrong after initialization", Name);
  X.for_each(bcl::ClearCellFunctor());
  MC_CHECK(!Obj0::Live, "clear", "%s: %d of %d values are not deleted", Name, Obj0::Live, S.P);
  X.for_each(bcl::InitCellFunctor());
  X.for_each(L2);
  int Ptr = 0;
  static_cast<const M &>(X).for_each(CountPtr{Ptr});
  MC_CHECK(L2.Nulls == Ptr && !L2.Bad, "reset", "%s: pointers are not null or numbers have changed", Name);
  mc::NoCount NC; mc::state(Name + std::to_string(Fill)); mc::validated();
}
void clears() {
  using bcl::StaticMap;
  switch (mc::choose(6)) {
  case 0: return pointers<StaticMap<Q<0>>>("0");
  case 1: return pointers<StaticMap<Q<0>, Q<1>>>("0 1");
  case 2: return pointers<StaticMap<Q<1>, Q<0>>>("1 0");
  case 3: return pointers<StaticMap<Q<0>, Q<2>, Q<4>>>("0 2 4");
  case 4: return pointers<StaticMap<Q<1>, Q<4>, Q<3>, Q<2>>>("1 4 3 2");
  case 5: return pointers<StaticMap<Q<1>, Q<3>>>("1 3");
  }
}
} // namespace

void mc_register() {
  staticMaps0(); staticMaps1(); staticMaps2(); staticMaps3(); staticMaps4(); staticMaps5(); staticMaps6(); staticMaps7();
  mc::scenario("histories", [] { histories(mc::bound(2, 4)); });
  mc::scenario("transfers", transfers);
  mc::scenario("lists", lists);
  mc::scenario("clear", clears);
}
