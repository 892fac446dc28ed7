// E01: all small systems; the parametric solution against exact integer
// linear algebra (column style Hermite elimination, written here).
#include "equation.h"

namespace {
using Z = long long;

/// All integer solutions of A x = B: X0 + span(Basis).
struct Lattice { bool Solvable = false; std::vector<Z> X0; std::vector<std::vector<Z>> Basis; };

Lattice reference(const std::vector<std::vector<Z>> &Rows, const std::vector<Z> &B, int N) {
  // Columns of U are a unimodular transformation; H = A U is lower trapezoid.
  std::vector<std::vector<Z>> H(N, std::vector<Z>(Rows.size())), U(N, std::vector<Z>(N));
  for (int J = 0; J < N; ++J) { U[J][J] = 1; for (size_t I = 0; I < Rows.size(); ++I) H[J][I] = Rows[I][J]; }
  std::vector<Z> Y(N, 0);
  int Piv = 0;
  Lattice L;
  for (size_t I = 0; I < Rows.size(); ++I) {
    // Make at most one of the columns Piv.. non-zero in row I.
    while (true) {
      int Best = -1, Count = 0;
      for (int J = Piv; J < N; ++J) if (H[J][I]) { ++Count; if (Best < 0 || std::llabs(H[J][I]) < std::llabs(H[Best][I])) Best = J; }
      if (Count == 0) break;
      std::swap(H[Piv], H[Best]); std::swap(U[Piv], U[Best]);
      if (Count == 1) break;
      for (int J = Piv + 1; J < N; ++J) if (H[J][I]) {
        Z Q = H[J][I] / H[Piv][I];
        for (size_t K = 0; K < Rows.size(); ++K) H[J][K] -= Q * H[Piv][K];
        for (int K = 0; K < N; ++K) U[J][K] -= Q * U[Piv][K];
      }
    }
    Z Rest = B[I];
    for (int J = 0; J < Piv; ++J) Rest -= H[J][I] * Y[J];
    if (Piv < N && H[Piv][I]) {
      if (Rest % H[Piv][I]) return L;
      Y[Piv] = Rest / H[Piv][I];
      ++Piv;
    } else if (Rest) return L;
  }
  L.Solvable = true;
  L.X0.assign(N, 0);
  for (int J = 0; J < N; ++J) for (int K = 0; K < N; ++K) L.X0[K] += U[J][K] * Y[J];
  for (int J = Piv; J < N; ++J) L.Basis.push_back(U[J]);
  return L;
}

struct Eq { int X; Z A; int Y; Z B; Z C; };

// Columns of another type than values.
template <class V> struct ColumnOf { using type = int; };
template <> struct ColumnOf<long> { using type = unsigned; };
template <> struct ColumnOf<long long> { using type = std::size_t; };
template <class V> using Sys = milp::BinomialSystem<typename ColumnOf<V>::type, V, 1, 1, 1>;

std::string show(const std::vector<Eq> &E) {
  std::string S;
  for (auto &Q : E) S += mc::fmt("%lld*x%d + %lld*x%d = %lld; ", Q.A, Q.X, Q.B, Q.Y, Q.C);
  return S;
}

template <class Equation>
void checkSolution(const std::vector<Equation> &Sol, const std::vector<Eq> &E, size_t Solved, int N) {
  // Every variable of the solved equations has exactly one expression.
  std::vector<int> At(N, -1);
  for (size_t I = 0; I < Sol.size(); ++I) {
    auto &S = Sol[I];
    MC_CHECK(S.LHS.Column >= 0 && S.LHS.Column < N, "solution-shape", "%s the solution mentions column %d", show(E).c_str(), (int)S.LHS.Column);
    MC_CHECK(S.LHS.Value == 1, "solution-shape", "%s the coefficient of x%d is not one", show(E).c_str(), (int)S.LHS.Column);
    MC_CHECK(S.RHS.Column >= 100, "solution-shape", "%s x%d is not given by a parameter", show(E).c_str(), (int)S.LHS.Column);
    MC_CHECK(At[S.LHS.Column] < 0, "solution-shape", "%s x%d has two solutions", show(E).c_str(), (int)S.LHS.Column);
    At[S.LHS.Column] = I;
  }
  // X = C + K * T. A variable which is not mentioned is unconstrained.
  auto C = [&](int X) { return At[X] < 0 ? 0 : (Z)Sol[At[X]].Constant; };
  auto K = [&](int X) { return At[X] < 0 ? 1 : -(Z)Sol[At[X]].RHS.Value; };
  auto T = [&](int X) { return At[X] < 0 ? -1 - X : (int)Sol[At[X]].RHS.Column; };
  std::vector<std::vector<Z>> Rows; std::vector<Z> B;
  std::set<int> Vars;
  for (size_t I = 0; I < Solved; ++I) {
    auto &Q = E[I];
    Vars.insert(Q.X); Vars.insert(Q.Y);
    // Soundness for all values of the parameters.
    std::map<int, __int128> Coef;
    Coef[T(Q.X)] += (__int128)Q.A * K(Q.X); Coef[T(Q.Y)] += (__int128)Q.B * K(Q.Y);
    for (auto &P : Coef)
      MC_CHECK(P.second == 0, "unsound", "%s the solution does not satisfy equation %zu: it depends on a parameter", show(E).c_str(), I);
    MC_CHECK((__int128)Q.A * C(Q.X) + (__int128)Q.B * C(Q.Y) == Q.C, "unsound", "%s the solution does not satisfy equation %zu: x%d=%lld, x%d=%lld",
             show(E).c_str(), I, Q.X, C(Q.X), Q.Y, C(Q.Y));
    std::vector<Z> R(N, 0); R[Q.X] += Q.A; R[Q.Y] += Q.B;
    Rows.push_back(R); B.push_back(Q.C);
  }
  // Completeness: the particular solution and its neighbours along every basis
  // vector are obtained from integer parameters, hence the whole lattice is.
  Lattice L = reference(Rows, B, N);
  MC_CHECK(L.Solvable, "unsound", "%s has no integer solution, but one is returned", show(E).c_str());
  for (size_t J = 0; J <= L.Basis.size(); ++J) {
    std::vector<Z> P = L.X0;
    if (J) for (int I = 0; I < N; ++I) P[I] += L.Basis[J - 1][I];
    std::map<int, Z> Par;
    for (int X : Vars) {
      Z D = P[X] - C(X);
      bool Ok = true;
      if (K(X) == 0) Ok = D == 0;
      else if (D % K(X)) Ok = false;
      else { auto R = Par.emplace(T(X), D / K(X)); Ok = R.first->second == D / K(X); }
      MC_CHECK(Ok, "incomplete", "%s the integer solution with x%d=%lld is not described (x%d = %lld + %lld*t)", show(E).c_str(), X, P[X], X, C(X), K(X));
    }
  }
}

std::vector<Eq> chooseColumns(int M, int MaxVars, bool Same) {
  // Names of variables in order of their first use: renaming is irrelevant.
  std::vector<Eq> E;
  int Used = 0;
  for (int I = 0; I < M; ++I) {
    Eq Q{};
    Q.X = mc::choose(std::min(Used + 1, MaxVars)); Used = std::max(Used, Q.X + 1);
    Q.Y = mc::choose(std::min(Used + 1, MaxVars)); Used = std::max(Used, Q.Y + 1);
    if (Q.X == Q.Y && !Same) mc::discard();
    E.push_back(Q);
  }
  return E;
}

template <class V, bool Assume>
void run(const std::vector<Eq> &E, int N, bool Log) {
  Sys<V> S; Info Inf;
  using M = milp::AMonom<typename ColumnOf<V>::type, V>;
  for (auto &Q : E) S.push_back(M(Q.X, Q.A), M(Q.Y, Q.B), Q.C);
  S.instantiate(Inf);
  size_t Solved;
  mc::op("solve %s", mc::verbose() ? show(E).c_str() : "");
  if (Log) { std::ostringstream OS; Solved = S.template solve<Info, Assume, std::ostringstream>(Inf, OS); }
  else Solved = S.template solve<Info, Assume>(Inf);
  // How many equations can be solved?
  size_t Expected = 0;
  std::vector<std::vector<Z>> Rows; std::vector<Z> B;
  for (auto &Q : E) {
    std::vector<Z> R(N, 0); R[Q.X] += Q.A; R[Q.Y] += Q.B;
    Rows.push_back(R); B.push_back(Q.C);
    if (!reference(Rows, B, N).Solvable) break;
    ++Expected;
  }
  MC_CHECK(Solved == Expected, "count", "%s %zu equations are solved instead of %zu", show(E).c_str(), Solved, Expected);
  mc::state(show(E));
  mc::outcome(std::to_string(S.getSolution().size()));
  if (Solved == E.size()) checkSolution(S.getSolution(), E, Solved, N);
  mc::validated();
}

/// Systems with a planted integer solution.
void planted(int M, int Vars, const std::vector<Z> &Coefs, bool Same, bool Types) {
  auto E = chooseColumns(M, Vars, Same);
  static const Z Plant[3][4] = {{0, 0, 0, 0}, {1, -2, 3, -1}, {-4, 5, 0, 7}};
  const Z *P = Plant[mc::choose(3)];
  for (auto &Q : E) {
    Q.A = Coefs[mc::choose(Coefs.size())]; Q.B = Coefs[mc::choose(Coefs.size())];
    Q.C = Q.A * P[Q.X] + Q.B * P[Q.Y];
  }
  if (!Types) { run<int, true>(E, Vars, false); return; }
  switch (mc::choose(4)) {
  case 0: run<int, true>(E, Vars, false); break;
  case 1: run<long, true>(E, Vars, true); break;
  case 2: run<long long, false>(E, Vars, false); break;
  case 3: run<int, false>(E, Vars, true); break;
  }
}

/// Values which need more than 32 bits, as long as all results fit in 64 bits.
void large() {
  static const Z Co[] = {1073741827, -1073741789, 65537, -1, 6, 1000000007, -999999998, 536870912, 2};
  auto E = chooseColumns(1, 2, true);
  auto &Q = E[0];
  Q.A = Co[mc::choose(9)]; Q.B = Co[mc::choose(9)];
  static const Z Plant[][2] = {{1, -2}, {0, 1}, {-1, -1}, {3, 2}};
  const Z *P = Plant[mc::choose(4)];
  Q.C = Q.A * P[Q.X] + Q.B * P[Q.Y] + mc::choose(2);
  bool Log = mc::choose(2);
  mc::choose(2) ? run<long, false>(E, 2, Log) : run<long long, false>(E, 2, Log);
}
/// The same with smaller values and two equations.
void largeTwo() {
  static const Z Co[] = {601, -499, 64, -1, 6};
  auto E = chooseColumns(2, 3, false);
  static const Z Plant[][3] = {{1, -2, 3}, {0, 1, 0}, {-1, -1, -1}};
  const Z *P = Plant[mc::choose(3)];
  for (auto &Q : E) { Q.A = Co[mc::choose(5)]; Q.B = Co[mc::choose(5)]; Q.C = Q.A * P[Q.X] + Q.B * P[Q.Y]; }
  mc::choose(2) ? run<long, true>(E, 3, false) : run<long long, false>(E, 3, true);
}

/// Systems with arbitrary constants: solvable or not.
void arbitrary(int M, int Vars, const std::vector<Z> &Coefs, const std::vector<Z> &Consts, bool Same) {
  auto E = chooseColumns(M, Vars, Same);
  for (auto &Q : E) {
    Q.A = Coefs[mc::choose(Coefs.size())]; Q.B = Coefs[mc::choose(Coefs.size())];
    Q.C = Consts[mc::choose(Consts.size())];
  }
  run<int, false>(E, Vars, false);
}

template <class T> void gcdPair(T A, T B) {
  auto R = milp::euclidGCD(A, B);
  mc::step();
  T G = std::get<0>(R);
  Z X = std::get<1>(R), Y = std::get<2>(R);
  MC_CHECK(G >= 0, "gcd", "gcd(%lld, %lld) = %lld is negative", (Z)A, (Z)B, (Z)G);
  MC_CHECK(G == std::gcd((Z)A, (Z)B), "gcd", "gcd(%lld, %lld) = %lld", (Z)A, (Z)B, (Z)G);
  MC_CHECK((__int128)X * A + (__int128)Y * B == G, "gcd", "gcd(%lld, %lld): %lld and %lld are not its coefficients", (Z)A, (Z)B, X, Y);
}

void gcd() {
  int Lim = mc::bound(200, 1200);
  int A = mc::choose(2 * Lim + 1) - Lim;
  int Ty = mc::choose(3);
  mc::op("gcd(%d, %d..%d)", A, -Lim, Lim);
  for (int B = -Lim; B <= Lim; ++B)
    Ty == 0 ? gcdPair<int>(A, B) : Ty == 1 ? gcdPair<long>(A, B) : gcdPair<long long>(A, B);
  // Large values.
  static const Z Big[] = {2147483647, -2147483647, 1 << 30, 1836311903, 1134903170, 1000000007, 65536, 30030};
  for (Z B : Big) {
    gcdPair<int>(A, B); gcdPair<int>(B, A); gcdPair<long long>(B * 1000003, A);
    for (Z C : Big) { gcdPair<int>(B, C); gcdPair<long long>(B * 4096, C * 81); }
  }
  mc::state(mc::fmt("gcd %d %d", A, Ty));
  mc::validated();
}
} // namespace

void mc_register() {
  std::vector<Z> All, Small = {1, -1, 2, -3}, Tiny = {1, 2, -3};
  for (Z I = -6; I <= 6; ++I) if (I) All.push_back(I);
  std::vector<Z> Mid = {1, -1, 2, -2, 3, 4, -6}, WithZero = {0, 1, -2, 3};
  mc::Opt Deep; Deep.split = 8; // the first choices are few
  mc::scenario("gcd", gcd);
  mc::scenario("one-equation", [=] { planted(1, 2, All, false, true); });
  mc::scenario("two-equations", [=] { planted(2, 3, Mid, false, false); }, Deep);
  mc::scenario("two-equations-types", [=] { planted(2, 3, Tiny, false, true); }, Deep);
  mc::scenario("two-components", [=] { planted(2, 4, Small, false, false); }, Deep);
  mc::scenario("three-equations", [=] { planted(3, 4, Small, false, false); }, Deep);
  mc::scenario("repeated-variable", [=] { planted(2, 2, WithZero, true, true); }, Deep);
  mc::scenario("zero-coefficients", [=] { planted(3, 3, mc::bound(std::vector<Z>{0, 1, -2}, std::vector<Z>{0, 1, -2, 3}), true, false); }, Deep);
  mc::scenario("large", large);
  mc::scenario("large-two", largeTwo);
  mc::scenario("one-arbitrary", [=] { std::vector<Z> C; for (Z I = -20; I <= 20; ++I) C.push_back(I); arbitrary(1, 2, All, C, true); });
  mc::scenario("two-arbitrary", [=] { arbitrary(2, 3, Small, {-3, 0, 1, 4}, true); }, Deep);
  mc::scenario("three-arbitrary", [=] { arbitrary(3, 4, mc::bound(std::vector<Z>{1, -2}, Tiny), {0, 1, 3}, true); }, Deep);
  if (mc::thorough()) {
    mc::scenario("three-equations-wide", [=] { planted(3, 4, Mid, false, false); }, Deep);
    mc::scenario("four-equations", [=] { planted(4, 4, {1, -2, 3}, false, false); }, Deep);
  }
}
