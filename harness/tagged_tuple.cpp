// S02: each tag denotes its own element of tagged tuples and pairs.
#include "tagged_tuple.h"
namespace tt {
std::vector<Type> &types() { static std::vector<Type> T; return T; }
std::vector<std::pair<const char *, std::string (*)()>> &sames() { static std::vector<std::pair<const char *, std::string (*)()>> T; return T; }
}
#define X(K) void taggedTuples##K();
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
namespace {
using namespace tt;
using std::string;
string list(const Ints &V) { string R; for (int I : V) R += std::to_string(I) + " "; return R; }
struct Obj { std::unique_ptr<ITuple> P; Ints Val; bool Moved = false; };

void compare(const Type &T, Obj &O, const char *Which) {
  if (O.Moved) return;
  for (size_t I = 0; I < T.Els.size(); ++I)
    for (int V : O.P->get(T.Els[I]))
      MC_CHECK(V == O.Val[I], "tag", "%s: %s has %d for a name of element %d instead of %d", T.Name, Which, V, T.Els[I], O.Val[I]);
  MC_CHECK(O.P->positional() == O.Val, "position", "%s: elements by position are %s instead of %s", T.Name, list(O.P->positional()).c_str(), list(O.Val).c_str());
  MC_CHECK(O.P->plain() == O.Val, "conversion", "%s: the converted tuple has %s instead of %s", T.Name, list(O.P->plain()).c_str(), list(O.Val).c_str());
  for (int K = 0; K < 4; ++K) {
    Ints Ids, V = O.P->visit(K, Ids);
    MC_CHECK(V == O.Val && (K > 1 || Ids == T.Els), "for-each", "%s: for_each visits %s with %s instead of %s (%d)", T.Name, list(Ids).c_str(), list(V).c_str(), list(O.Val).c_str(), K);
  }
  for (int K = 0; K < 2; ++K)
    MC_CHECK(O.P->args(K) == O.Val, "args", "%s: forward_as_args passes %s instead of %s", T.Name, list(O.P->args(K)).c_str(), list(O.Val).c_str());
}

void histories(int Depth) {
  auto &T = types()[mc::choose(types().size())];
  int N = T.Els.size();
  string S = T.Static();
  mc::op("%s", T.Name);
  MC_CHECK(S.empty(), "static", "%s: wrong %s", T.Name, S.c_str());
  Obj A, B;
  for (int I = 0; I < N; ++I) A.Val.push_back(I + 1), B.Val.push_back(I + 1);
  A.P = T.Make(A.Val); B.P = T.Make(B.Val);
  for (int D = 0;; ++D) {
    compare(T, A, "A"); compare(T, B, "B");
    if (!A.Moved && !B.Moved) {
      bool L = A.Val < B.Val, E = A.Val == B.Val;
      int W = E | !E << 1 | L << 2 | (!L && !E) << 3 | (L || E) << 4 | !L << 5, G = A.P->compare(*B.P);
      MC_CHECK(W == G, "compare", "%s: comparison of %s and %s is %d instead of %d", T.Name, list(A.Val).c_str(), list(B.Val).c_str(), G, W);
    }
    { mc::NoCount NC; mc::state(T.Name + ("|" + list(A.Val)) + "|" + list(B.Val)); }
    if (D >= (N > 4 ? 1 : Depth)) break;
    int C = mc::choose(1 + 9 + (D < 2 ? 12 : 2) * N);
    if (!C) break;
    if (--C < 9) {
      mc::op(C < 4 ? "B(A) %d" : "B = A %d", C);
      if (A.Moved) mc::discard();
      if (C < 4) B.P = A.P->copy(C); else B.P->assign(*A.P, C - 4);
      if (C == 8) { if (N) A.Val.swap(B.Val); std::swap(A.Moved, B.Moved); if (N == 0) A.Moved = B.Moved = false; }
      else { B.Val = A.Val; B.Moved = false; A.Moved = C == 3 || C == 7; }
    } else {
      C -= 9;
      int I = C % N, R = C / N, Name = D < 2 ? R % 3 : 0, Which = D < 2 ? R / 3 % 2 : R, V = D < 2 && R / 6 ? 1 : 5 + D;
      Obj &O = Which ? B : A;
      if (O.Moved) mc::discard();
      mc::op("%s[%d] = %d by name %d", Which ? "B" : "A", T.Els[I], V, Name);
      O.P->set(T.Els[I], Name, V); O.Val[I] = V;
    }
  }
  mc::validated();
}
void sameType() {
  auto &S = sames()[mc::choose(sames().size())];
  string R = S.second();
  mc::op("tags %s", S.first);
  MC_CHECK(R.empty(), "same", "tags %s: wrong %s", S.first, R.c_str());
  mc::NoCount NC; mc::state(string("same ") + S.first); mc::validated();
}
} // namespace
void mc_register() {
  taggedTuples0(); taggedTuples1(); taggedTuples2(); taggedTuples3(); taggedTuples4(); taggedTuples5(); taggedTuples6(); taggedTuples7();
  mc::scenario("histories", [] { histories(mc::bound(2, 3)); });
  mc::scenario("same", sameType);
}
