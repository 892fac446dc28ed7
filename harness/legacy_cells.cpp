// L02: legacy collections of cells.
#include "legacy_cells.h"
namespace lc {
std::vector<Type> &types() { static std::vector<Type> T; return T; }
std::vector<Pair> &pairs() { static std::vector<Pair> T; return T; }
std::vector<Macro> &macros() { static std::vector<Macro> T; return T; }
}
#define X(K) void legacyCells##K();
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
namespace {
using namespace lc;
using std::string;
string list(const Ints &V) { string R; for (int I : V) R += std::to_string(I) + " "; return R; }

void compare(const Type &T, ICells &P, const Ints &Val, const char *Which) {
  for (size_t I = 0; I < T.Ids.size(); ++I)
    MC_CHECK(P.get(T.Ids[I]) == Val[I], "value", "%s: %s has %d for %d instead of %d", T.Name, Which, P.get(T.Ids[I]), T.Ids[I], Val[I]);
  for (int K = 0; K < 3; ++K) {
    Ints V, Ids = P.visit(K, V);
    MC_CHECK(Ids == T.Ids && (K == 2 || V == Val), "foreach", "%s: Foreach (%d) visits %s with %s instead of %s with %s", T.Name, K, list(Ids).c_str(), list(V).c_str(), list(T.Ids).c_str(), list(Val).c_str());
  }
}
void histories(int Depth) {
  auto &T = types()[mc::choose(types().size())];
  string S = T.Static();
  mc::op("cells %s", T.Name);
  MC_CHECK(S.empty(), "static", "%s: wrong %s", T.Name, S.c_str());
  int N = T.Ids.size();
  auto A = T.Make(), B = T.Make();
  Ints VA(N), VB(N);
  for (int I = 0; I < N; ++I) A->set(T.Ids[I], 0, VA[I] = 1 + I), B->set(T.Ids[I], 1, VB[I] = 2);
  for (int D = 0;; ++D) {
    compare(T, *A, VA, "A"); compare(T, *B, VB, "B");
    { mc::NoCount NC; mc::state(T.Name + ("|" + list(VA)) + "|" + list(VB)); }
    if (D == Depth) break;
    int C = mc::choose(1 + 4 + 6 * N);
    if (!C) break;
    if (--C < 4) {
      if (C == 0) { mc::op("B(A)"); B = A->copy(); VB = VA; }
      else if (C == 1) { mc::op("B = A"); B->assign(*A); VB = VA; }
      else if (C == 2) { mc::op("A = A"); A->assign(*A); }
      else { mc::op("write to all cells of B"); Ints W; B->visit(3, W); for (int I = 0; I < N; ++I) VB[I] = 1 + I; }
    } else {
      C -= 4;
      int I = C / 6, How = C % 3, Which = C / 3 % 2, V = 5 + D;
      mc::op("%c[%d] = %d in the way %d", "AB"[Which], T.Ids[I], V, How);
      (Which ? B : A)->set(T.Ids[I], How, V); (Which ? VB : VA)[I] = V;
    }
  }
  mc::validated();
}
void transfers() {
  auto &P = pairs()[mc::choose(pairs().size())];
  int Kind = mc::choose(3);
  mc::op("transfer %s, kind %d", P.Name, Kind);
  Ints L, R, After;
  for (size_t I = 0; I < P.Left.size(); ++I) L.push_back(1 + I);
  for (size_t I = 0; I < P.Right.size(); ++I) R.push_back(5 + I);
  Ints W = R;
  for (size_t I = 0; I < P.Right.size(); ++I)
    for (size_t K = 0; K < P.Left.size(); ++K) if (P.Left[K] == P.Right[I]) W[I] = L[K];
  Ints G = P.Transfer(Kind, L, R, After);
  MC_CHECK(G == W, "transfer", "%s: cells have %s instead of %s", P.Name, list(G).c_str(), list(W).c_str());
  MC_CHECK(After == L, "source", "%s: the source has %s instead of %s", P.Name, list(After).c_str(), list(L).c_str());
  Ints M = P.Left; M.insert(M.end(), P.Right.begin(), P.Right.end());
  MC_CHECK(P.Merged() == M, "merge", "%s: merged cells are %s instead of %s", P.Name, list(P.Merged()).c_str(), list(M).c_str());
  mc::NoCount NC; mc::state(string("transfer ") + P.Name + char('0' + Kind)); mc::validated();
}
void collections() {
  auto &M = macros()[mc::choose(macros().size())];
  mc::op("CELL_COLL_%d", M.N);
  Ints W; for (int I = 0; I < M.N; ++I) W.push_back(I);
  MC_CHECK(M.Ids == W, "macro", "CELL_COLL_%d declares %s", M.N, list(M.Ids).c_str());
  mc::NoCount NC; mc::state(mc::fmt("macro %d", M.N)); mc::validated();
}

//===--- Pointers -------------------------------------------------------===//
struct Item { static int Live; int V; explicit Item(int X) : V(X) { ++Live; } ~Item() { --Live; V = -1; } };
int Item::Live = 0;
struct P0 { typedef Item *ValueType; };
struct P1 { typedef string *ValueType; };
struct V0 { typedef int ValueType; };
struct P2 { typedef Item *ValueType; };
typedef CELL_COLL_4(P0, V0, P1, P2) Ptrs;
/// Initialization sets pointers only, clearing frees what pointers denote.
void pointers() {
  Ptrs C;
  Item::Live = 0;
  Base::InitCellFunctor Init; Base::ClearCellFunctor Clear;
  C[V0()] = 42;
  C.Foreach(Init);
  for (int Round = 0; Round < 2; ++Round) {
    MC_CHECK(!C[P0()] && !C[P1()] && !C[P2()] && C[V0()] == 42 + Round, "init", "initialized cells are not null or another cell is changed");
    int Mask = mc::choose(8);
    mc::op("allocate %d", Mask);
    if (Mask & 1) C[P0()] = new Item(1);
    if (Mask & 2) C[P1()] = new string(30, 'x');
    if (Mask & 4) C[P2()] = new Item(2);
    C[V0()]++;
    MC_CHECK(Item::Live == !!(Mask & 1) + !!(Mask & 4), "pointers", "wrong number of objects");
    C.Foreach(Clear);
    MC_CHECK(!Item::Live, "clear", "%d objects live after a collection has been cleared", Item::Live);
    MC_CHECK(C[V0()] == 43 + Round, "clear", "a cell without a pointer is changed");
    C.Foreach(Init);
    mc::NoCount NC; mc::state(mc::fmt("pointers %d %d", Round, Mask));
  }
  mc::validated();
}
} // namespace
void mc_register() {
  legacyCells0(); legacyCells1(); legacyCells2(); legacyCells3(); legacyCells4(); legacyCells5(); legacyCells6(); legacyCells7();
  mc::scenario("histories", [] { histories(mc::bound(2, 4)); });
  mc::scenario("transfers", transfers);
  mc::scenario("macros", collections);
  mc::scenario("pointers", pointers);
}
