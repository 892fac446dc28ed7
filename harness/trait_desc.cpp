// T01: every state a descriptor of traits can reach, every operation in it.
#include "trait_desc.h"
#include <algorithm>
namespace td {
std::vector<Type> &types() { static std::vector<Type> T; return T; }
std::vector<Cross> &crosses() { static std::vector<Cross> T; return T; }
}
#define X(K) void traitDescs##K();
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
namespace {
using namespace td;
using Set = std::vector<char>;
string text(const Set &S) { string R; for (char C : S) R += C ? '1' : '0'; return R; }
std::vector<Model> Models;
std::vector<std::vector<string>> Keys; ///< of traits of each type

/// Everything a descriptor tells about itself.
void inspect(const Type &Ty, const Model &M, IDesc &D, const Set &S, bool Static) {
  auto &Key = Keys[&M - &Models[0]];
  int N = S.size();
  const char *Name = Ty.Name;
  string St = text(S);
  for (int I = 0; I < N; ++I) for (int J = 0; J < N; ++J)
    MC_CHECK(!(S[I] && S[J] && M.Conf[I][J]), "conflict", "%s: the reference is in a conflicting state", Name);
  string Bits(64, '0');
  Ints All, Avail;
  for (int I = 0; I < N; ++I) {
    int G = D.is(I);
    MC_CHECK(G == (S[I] ? 31 : 0), "is", "%s in state %s: trait %d is %s set (%d)", Name, St.c_str(), Ty.Traits[I], S[I] ? "not" : "", G);
    const string &K = Key[I];
    MC_CHECK(K.size() == 64 && std::count(K.begin(), K.end(), '1') == 1, "key", "%s: key of %d is %s", Name, Ty.Traits[I], K.c_str());
    if (S[I]) for (int B = 0; B < 64; ++B) if (K[B] == '1') Bits[B] = '1';
    if (S[I]) All.push_back(Ty.Traits[I]);
    Avail.push_back(Ty.Traits[I]);
    Ints InGroup, InConf;
    for (int J = 0; J < N; ++J) {
      if (S[J] && M.Group[J] == M.Group[I]) InGroup.push_back(Ty.Traits[J]);
      if (S[J] && M.Conf[I][J]) InConf.push_back(Ty.Traits[J]);
      int Two = D.is2(I, J), Want = (S[I] && S[J] ? 5 : 0) | (S[I] || S[J] ? 10 : 0);
      MC_CHECK(Two == Want, "is2", "%s in state %s: question for traits %d and %d is answered with %d", Name, St.c_str(), Ty.Traits[I], Ty.Traits[J], Two);
    }
    Ints A = D.each(1, I), B = D.each(2, I);
    std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); std::sort(InGroup.begin(), InGroup.end()); std::sort(InConf.begin(), InConf.end());
    MC_CHECK(A == InGroup, "each-group", "%s in state %s: for_each_in_group<%d> visits %d traits", Name, St.c_str(), Ty.Traits[I], (int)A.size());
    MC_CHECK(B == InConf, "each-conflict", "%s in state %s: for_each_conflict<%d> visits %d traits", Name, St.c_str(), Ty.Traits[I], (int)B.size());
    if (!Static) continue;
    string Mk = D.mask(I, -1);
    for (int J = 0; J < N; ++J) {
      string KJ = D.key(J, -1), K2 = D.key(I, J), M2 = D.mask(I, J), MJ = D.mask(J, -1);
      size_t B = KJ.find('1');
      MC_CHECK(I == J || K != KJ, "key", "%s: keys of %d and %d are equal", Name, Ty.Traits[I], Ty.Traits[J]);
      MC_CHECK((Mk[B] == '1') == (M.Group[I] == M.Group[J]), "mask", "%s: the mask of the group of %d and the key of %d", Name, Ty.Traits[I], Ty.Traits[J]);
      for (int Q = 0; Q < 64; ++Q)
        MC_CHECK(K2[Q] == std::max(K[Q], KJ[Q]) && M2[Q] == std::max(Mk[Q], MJ[Q]), "join", "%s: joined keys or masks of %d and %d", Name, Ty.Traits[I], Ty.Traits[J]);
      int C = D.conflict(I, J), W = (M.Conf[I][J] ? 7 : 0) | (M.Group[I] == M.Group[J] ? 8 : 0) | 16;
      MC_CHECK(C == W, "is-conflict", "%s: conflict of %d and %d is %d instead of %d", Name, Ty.Traits[I], Ty.Traits[J], C, W);
    }
  }
  MC_CHECK(D.print() == Bits, "print", "%s in state %s is printed as %s", Name, St.c_str(), D.print().c_str());
  for (int K = 0; K < 5; K += 4) {
    Ints V = D.each(K, 0); std::sort(V.begin(), V.end()); std::sort(All.begin(), All.end());
    MC_CHECK(V == All, "each", "%s in state %s: for_each visits %d traits", Name, St.c_str(), (int)V.size());
  }
  Ints V = D.each(3, 0); std::sort(V.begin(), V.end()); std::sort(Avail.begin(), Avail.end());
  MC_CHECK(V == Avail || (string(Name) == "wide" && V.size() == 64), "available", "%s: for_each_available visits %d traits", Name, (int)V.size());
}

/// One operation, on the descriptor and on the reference.
void operate(const Type &Ty, const Model &M, std::unique_ptr<IDesc> &D, Set &S) {
  int N = S.size(), C = mc::choose(5 * N + 3 + 3 * N * N);
  if (C < 2 * N) { mc::op("set<%d>", Ty.Traits[C / 2]); D->set(C / 2, C % 2); M.set(S, C / 2); return; }
  C -= 2 * N;
  if (C < 2 * N) { mc::op("unset<%d>", Ty.Traits[C / 2]); D->unset(C / 2, C % 2); S[C / 2] = 0; return; }
  C -= 2 * N;
  auto group = [&](int I) { for (int J = 0; J < N; ++J) if (M.Group[I] == M.Group[J]) S[J] = 0; };
  if (C < N) { mc::op("unset_group<%d>", Ty.Traits[C]); D->unsetGroup(C); group(C); return; }
  C -= N;
  if (C < 3) {
    mc::op(C == 0 ? "unset_all" : C == 1 ? "copied" : "moved");
    if (C == 0) { D->unsetAll(); S.assign(N, 0); } else { auto E = D->copy(C - 1); D = std::move(E); }
    return;
  }
  C -= 3;
  int I = C % N, J = C / N % N, K = C / N / N;
  mc::op("%s<%d, %d>", K == 0 ? "set" : K == 1 ? "unset" : "unset_group", Ty.Traits[I], Ty.Traits[J]);
  if (K == 0) {
    D->set2(I, J);
    if (!M.Conf[I][J]) { M.set(S, I); M.set(S, J); return; }
    // Which of two conflicting traits remains is not specified.
    for (int Q = 0; Q < N; ++Q) if (M.Conf[I][Q] || M.Conf[J][Q]) S[Q] = 0;
    S[I] = D->is(I) & 1; S[J] = D->is(J) & 1;
    MC_CHECK(!(S[I] && S[J]), "conflict", "%s: conflicting traits %d and %d are set", Ty.Name, Ty.Traits[I], Ty.Traits[J]);
  } else {
    D->unset2(I, J, K - 1);
    if (K == 1) S[I] = S[J] = 0; else group(I), group(J);
  }
}

/// Brings a descriptor into a conflict free state.
void reach(const Model &M, IDesc &D, Set &S, bool Reversed) {
  int N = S.size();
  for (int I = 0; I < N; ++I) {
    bool Free = true;
    for (int J = 0; J < I; ++J) Free &= !(S[J] && M.Conf[I][J]);
    S[I] = Free ? mc::choose(2) : 0;
  }
  for (int I = 0; I < N; ++I) { int K = Reversed ? N - 1 - I : I; if (S[K]) D.set(K, 0); }
}

/// The states are all which a descriptor can reach: its only member is a mask
/// which is equal to the joined keys of traits in every state.
void states(int Steps) {
  int W = mc::choose(types().size());
  const Type &Ty = types()[W]; const Model &M = Models[W];
  int N = Ty.Traits.size();
  auto D = Ty.Make();
  Set S(N, 0);
  mc::op("%s", Ty.Name);
  inspect(Ty, M, *D, S, mc::fresh());
  if (N <= 9) reach(M, *D, S, mc::choose(2));
  mc::op("%s", text(S).c_str());
  for (int I = 0;; ++I) {
    if (I || mc::fresh()) inspect(Ty, M, *D, S, false);
    { mc::NoCount NC; mc::state(Ty.Name + ("|" + text(S))); }
    if (I == (N <= 3 || N > 9 ? 2 : N <= 5 ? Steps : 1)) break;
    operate(Ty, M, D, S);
  }
  mc::validated();
}

/// Pairs of states: comparison, assignment, set and update.
void pairs() {
  int W = mc::choose(types().size());
  const Type &Ty = types()[W]; const Model &M = Models[W];
  if (Ty.Traits.size() > 8) mc::discard();
  auto A = Ty.Make(), B = Ty.Make();
  Set SA(Ty.Traits.size(), 0), SB = SA;
  reach(M, *A, SA, false); reach(M, *B, SB, true);
  mc::op("%s: %s %s", Ty.Name, text(SA).c_str(), text(SB).c_str());
  MC_CHECK(A->equal(*B) == (SA == SB), "equal", "%s: comparison of %s and %s", Ty.Name, text(SA).c_str(), text(SB).c_str());
  int K = mc::choose(4);
  mc::op("assign %d", K);
  A->assign(*B, K);
  if (K == 2) { for (size_t I = 0; I < SB.size(); ++I) if (SB[I]) M.set(SA, I); } else SA = SB;
  inspect(Ty, M, *A, SA, false);
  if (K != 1) inspect(Ty, M, *B, SB, false);
  MC_CHECK(A->equal(*B) == (SA == SB), "equal", "%s: comparison after assignment", Ty.Name);
  { mc::NoCount NC; mc::state(Ty.Name + ("|" + text(SA)) + "|" + text(SB) + char('0' + K)); }
  mc::validated();
}

/// Transfers between different descriptors.
void cross() {
  auto &C = crosses()[mc::choose(crosses().size())];
  const Type &TA = types()[C.From], &TB = types()[C.To]; const Model &MA = Models[C.From], &MB = Models[C.To];
  auto A = TA.Make(), B = TB.Make();
  Set SA(TA.Traits.size(), 0), SB(TB.Traits.size(), 0);
  reach(MA, *A, SA, false); reach(MB, *B, SB, false);
  int Kind = mc::choose(2);
  mc::op("%s: %s %s %s", C.Name, Kind ? "update" : "set", text(SA).c_str(), text(SB).c_str());
  C.Run(Kind, *A, *B);
  // Traits are visited in an order which is not specified: they have to be free of conflicts in the target.
  Ints Order = A->each(Kind ? 3 : 0, 0);
  for (int Num : Order) {
    int I = -1, J = -1;
    for (size_t Q = 0; Q < TA.Traits.size(); ++Q) if (TA.Traits[Q] == Num) I = Q;
    for (size_t Q = 0; Q < TB.Traits.size(); ++Q) if (TB.Traits[Q] == Num) J = Q;
    if (J < 0) continue;
    if (SA[I]) MB.set(SB, J); else SB[J] = 0;
  }
  inspect(TB, MB, *B, SB, false);
  inspect(TA, MA, *A, SA, false);
  { mc::NoCount NC; mc::state(C.Name + ("|" + text(SA)) + "|" + text(SB) + char('0' + Kind)); }
  mc::validated();
}
} // namespace
void mc_register() {
  traitDescs0(); traitDescs1(); traitDescs2(); traitDescs3(); traitDescs4(); traitDescs5(); traitDescs6(); traitDescs7();
  std::stable_sort(types().begin(), types().end(), [](const Type &A, const Type &B) { return string(A.Name) < B.Name; });
  for (auto &T : types()) {
    Models.emplace_back(T); Keys.emplace_back();
    auto D = T.Make();
    for (size_t I = 0; I < T.Traits.size(); ++I) Keys.back().push_back(D->key(I, -1));
  }
  for (auto &C : crosses()) {
    string N = C.Name, A = N.substr(0, N.find(" to ")), B = N.substr(N.find(" to ") + 4);
    for (size_t I = 0; I < types().size(); ++I) { if (A == types()[I].Name) C.From = I; if (B == types()[I].Name) C.To = I; }
  }
  mc::scenario("states", [] { states(mc::bound(1, 2)); });
  mc::scenario("pairs", pairs);
  mc::scenario("cross", cross);
}
