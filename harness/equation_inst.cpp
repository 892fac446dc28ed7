// E02: guards, computed monomials and transformations of solutions.
#include "equation.h"

namespace {
/// Types of columns and values.
template <class Col, class Val> struct Types {
  using C = Col; using V = Val;
  using Sys = milp::BinomialSystem<C, V, 2, 2, 2>;
  using M = milp::AMonom<C, V>;
  static constexpr long long Big = sizeof(V) > 4 ? 5000000000LL : 3; ///< more than 32 bits if possible
};
using Z = long long;

struct RowSpec {
  std::vector<int> G, IG;
  std::vector<std::pair<int, int>> CM; // column, coefficient
};

/// Rows are told apart by their columns 2i and 2i+1.
template <class T> void check(const std::vector<RowSpec> &Rows, unsigned Val, unsigned Layout) {
  using M = typename T::M; using C = typename T::C; using V = typename T::V;
  Info I;
  for (int G = 0; G < 3; ++G) I.Guards[50 + G] = Val >> G & 1;
  I.Values = {{60, 7 * T::Big}, {61, -4}};
  typename T::Sys S;
  std::string Desc;
  std::set<int> Kept;
  std::map<int, Z> Const;
  auto guards = [&](const RowSpec &R) {
    bool K = true;
    for (int G : R.G) K = K && I.Guards[50 + G];
    for (int G : R.IG) K = K && !I.Guards[50 + G];
    return K;
  };
  for (size_t K = 0; K < Rows.size(); ++K) {
    auto &R = Rows[K];
    Z C0 = 10 * (Z)K - 5;
    S.push_back(M(2 * K, 1), M(2 * K + 1, (int)K + 2), C0);
    for (int G : R.G) S.back().addGuard(50 + G);
    for (int G : R.IG) S.back().addInverseGuard(50 + G);
    for (auto &P : R.CM) S.back().addComputedMonom(M(P.first, P.second));
    const auto &CB = S.back();
    MC_CHECK(S.back().guard_size() == R.G.size() && CB.inverse_size() == R.IG.size() && CB.computed_size() == R.CM.size(), "sizes", "row %zu: wrong numbers of guards and monomials", K);
    std::vector<int> G, IG, G2, IG2; std::vector<std::pair<int, int>> CM, CM2;
    for (auto X : CB.guards()) G.push_back(X - 50);
    for (auto X : CB.inverse_guards()) IG.push_back(X - 50);
    for (auto &X : CB.computed_monoms()) CM.push_back({(int)X.Column, (int)X.Value});
    for (auto X : S.back().guards()) G2.push_back(X - 50);
    for (auto X : S.back().inverse_guards()) IG2.push_back(X - 50);
    for (auto &X : S.back().computed_monoms()) CM2.push_back({(int)X.Column, (int)X.Value});
    MC_CHECK(G == R.G && IG == R.IG && CM == R.CM && G2 == R.G && IG2 == R.IG && CM2 == R.CM, "lists", "row %zu: guards or monomials are not those which were added", K);
    for (auto &P : R.CM) C0 += P.second * I.Values[P.first];
    if (guards(R)) { Kept.insert(K); Const[K] = C0; }
    Desc += mc::fmt("row %zu: g=%zu ig=%zu cm=%zu; ", K, R.G.size(), R.IG.size(), R.CM.size());
  }
  MC_CHECK(S.size() == Rows.size(), "size", "size() is %zu for %zu equations", S.size(), Rows.size());
  MC_CHECK(!S.isInstantiated(), "size", "instantiated too early");
  mc::op("instantiate %s valuation %u", Desc.c_str(), Val);
  S.instantiate(I);
  mc::step();
  MC_CHECK(S.isInstantiated() && S.instantiated_size() == Kept.size(), "kept", "%s %zu equations are kept instead of %zu", Desc.c_str(), S.instantiated_size(), Kept.size());
  MC_CHECK(S.size() == Rows.size(), "size", "size() has changed");
  const typename T::Sys &CS = S;
  for (int Pass = 0; Pass < 2; ++Pass) {
    std::set<int> Got;
    auto See = [&](Z LC, Z LV, Z RC, Z RV, Z C) {
      int K = (int)LC / 2;
      MC_CHECK(Got.insert(K).second, "kept", "%s equation %d is listed twice", Desc.c_str(), K);
      MC_CHECK(Kept.count(K), "kept", "%s equation %d is kept against its guards", Desc.c_str(), K);
      MC_CHECK(LC == 2 * K && RC == 2 * K + 1 && LV == 1 && RV == K + 2, "mixed", "%s equation %d has changed", Desc.c_str(), K);
      MC_CHECK(C == Const[K], "constant", "%s the constant of equation %d is %lld instead of %lld", Desc.c_str(), K, C, Const[K]);
    };
    if (Pass) for (auto B = CS.instantiated_begin(); B != CS.instantiated_end(); ++B) See(B->LHS.Column, B->LHS.Value, B->RHS.Column, B->RHS.Value, B->Constant);
    else for (auto B = S.instantiated_begin(); B != S.instantiated_end(); ++B) See(B->LHS.Column, B->LHS.Value, B->RHS.Column, B->RHS.Value, B->Constant);
    MC_CHECK(Got == Kept, "kept", "%s the instantiated range is not the kept equations", Desc.c_str());
  }
  size_t All = 0; std::set<int> AllSet;
  for (auto &R : CS) { ++All; AllSet.insert(R.LHS.Column / 2); }
  MC_CHECK(All == Rows.size() && AllSet.size() == Rows.size(), "lost", "%s an equation is lost", Desc.c_str());
  // The printed form lists kept and discarded equations.
  std::ostringstream OS;
  S.printInstantiated(I, OS);
  std::istringstream IS(OS.str());
  std::string L; size_t NK = 0, ND = 0; bool Disc = false;
  std::getline(IS, L);
  while (std::getline(IS, L)) {
    if (L.find("discarded") != std::string::npos) { Disc = true; continue; }
    Disc ? ++ND : ++NK;
    for (size_t K = 0; K < Rows.size(); ++K)
      if (L.find(mc::fmt("x%zu + ", 2 * K)) != std::string::npos) {
        std::string W;
        for (auto &P : Rows[K].CM) W += mc::fmt("%d x%d = %lld ", P.second, P.first, (Z)(V)(P.second * I.Values[P.first]));
        MC_CHECK(L.size() >= W.size() && L.compare(L.size() - W.size(), W.size(), W) == 0 && (!W.empty() || L.find("monoms: ") + 8 == L.size()), "printed-monomials", "%s equation %zu is printed with other monomials: %s", Desc.c_str(), K, L.c_str());
        W = mc::fmt("%d x%zu + %zu x%zu = ", 1, 2 * K, K + 2, 2 * K + 1) + (Disc ? "" : mc::fmt("%lld |", Const[K]));
        MC_CHECK(L.compare(0, W.size(), W) == 0, "printed-equation", "equation %zu is printed as %s instead of %s", K, L.c_str(), W.c_str());
        MC_CHECK(Kept.count(K) == !Disc, "printed", "%s equation %zu is printed as %s", Desc.c_str(), K, Disc ? "discarded" : "kept");
      }
  }
  MC_CHECK(NK == Kept.size() && ND == Rows.size() - Kept.size(), "printed", "%s printed %zu kept and %zu discarded", Desc.c_str(), NK, ND);
  // Only kept equations are solved.
  MC_CHECK(S.solve(I) == Kept.size(), "solved", "%s another number of equations is solved", Desc.c_str());
  std::set<int> Vars;
  for (auto &E : S.getSolution()) {
    MC_CHECK(Kept.count((int)E.LHS.Column / 2) && Vars.insert((int)E.LHS.Column).second, "solved", "%s a solution for x%d", Desc.c_str(), (int)E.LHS.Column);
  }
  for (int K : Kept) {
    Z C = 0, A = 0, P[2]; int J = 0;
    for (auto &E : S.getSolution()) if ((int)E.LHS.Column / 2 == K) {
      Z F = E.LHS.Column % 2 ? K + 2 : 1;
      C += F * E.Constant; A += F * E.RHS.Value; P[J & 1] = E.RHS.Column; ++J;
    }
    MC_CHECK(J == 2 && P[0] == P[1] && A == 0 && C == Const[K], "solved", "%s equation %d is not solved", Desc.c_str(), K);
  }
  mc::state(Desc + std::to_string(Val) + std::to_string(Layout) + typeid(T).name());
  mc::outcome(mc::fmt("%zu/%zu", Kept.size(), Rows.size()));
  mc::validated();
}

template <class T> void twoRows() {
  std::vector<RowSpec> R(2);
  for (auto &X : R) {
    static const std::vector<int> Gs[] = {{}, {0}, {1}, {0, 1}}, IGs[] = {{}, {0}, {2}, {1, 2}};
    static const std::vector<std::pair<int, int>> CMs[] = {{}, {{60, 2}}, {{60, 1}, {61, 3}}, {{61, -1}, {61, -1}}};
    X.G = Gs[mc::choose(4)]; X.IG = IGs[mc::choose(4)]; X.CM = CMs[mc::choose(4)];
  }
  check<T>(R, mc::choose(8), 0);
}

template <class T> void manyRows() {
  int N = mc::choose(mc::bound(5, 6));
  std::vector<RowSpec> R(N);
  for (auto &X : R) {
    switch (mc::choose(5)) {
    case 0: X.CM = {{60, 1}}; break;
    case 1: X.G = {0}; break;
    case 2: X.G = {1}; X.IG = {0}; X.CM = {{61, 2}, {60, -3}}; break;
    case 3: X.IG = {2, 1}; X.CM = {{60, 5}}; break;
    case 4: X.G = {0, 2}; break;
    }
  }
  check<T>(R, mc::choose(8), 1);
}

/// Transformations of solutions: x_i + a_i t = b_i.
template <class T> void transform() {
  using M = typename T::M; using V = typename T::V;
  // A star of equations which share x0 gives several entries for one parameter.
  int N = 1 + mc::choose(3), Op = mc::choose(3);
  static const Z Coef[] = {2, -3, 1, -1, 4, 6};
  // Values which need more than 32 bits: large coefficients of homogeneous
  // equations, which products fit in 64 bits, or large constants.
  static const Z Large[][6] = {{3000000019, -3000000037, -1, 2, 6, 4}, {1009, -1201, -1, 2, 6, 4}, {31, -29, -1, 2, 6, 4}};
  const int Mode = sizeof(V) > 4 ? mc::choose(Op == 1 ? 3 : 2) : 0;
  const Z *Co = Mode == 1 ? Large[N - 1] : Coef, Scale = Mode == 1 ? 0 : Mode == 2 ? 3000000007 : 1;
  typename T::Sys S; Info I;
  std::string Desc;
  for (int K = 0; K < N; ++K) {
    Z A = Co[mc::choose(N < 3 || std::is_same<T, Types<int, int>>::value ? 6 : mc::bound(3, 6))], B = Co[mc::choose(N < 3 ? 6 : mc::bound(std::is_same<T, Types<int, int>>::value ? 4 : 3, 6))];
    int X = mc::choose(3);
    int Shared = K && mc::choose(2) ? 10 * K : 0; // another component
    // Shared x0 has to have the same planted value in every equation.
    Z C = Scale * (Shared ? A + B : A * -2 + B * (K ? 3 * K - 4 : X - 1));
    S.push_back(M(Shared, A), M(K + 1, B), C);
    Desc += mc::fmt("%lld*x%d + %lld*x%d = %lld; ", A, Shared, B, K + 1, C);
  }
  S.instantiate(I);
  mc::op("solve and transform %s", Desc.c_str());
  S.solve(I);
  auto Before = S.getSolution();
  for (auto &E : Before) if (E.RHS.Value == 0) mc::discard();
  auto Reverse = [&] {
    auto Old = S.getSolution();
    S.reverseSolution(I);
    mc::step();
    auto &New = S.getSolution();
    MC_CHECK(New.size() == Old.size(), "reverse", "%s the number of equations changes", Desc.c_str());
    std::map<int, __int128> Scale;
    for (size_t K = 0; K < Old.size(); ++K) {
      auto &O = Old[K]; auto &E = New[K];
      MC_CHECK(E.RHS.Column == O.LHS.Column && E.LHS.Column == I.parameterColumn(O.RHS.Column) && E.LHS.Value == 1, "reverse", "%s entry %zu does not express a new variable of the parameter by the old variable", Desc.c_str(), K);
      MC_CHECK(E.RHS.Value != 0, "reverse", "%s x%d vanishes", Desc.c_str(), (int)O.LHS.Column);
      // y = L * t with x + a t = b: y + c x = d for all t iff d = c b and L = c a.
      MC_CHECK(E.Constant == (__int128)E.RHS.Value * O.Constant, "reverse", "%s entry %zu has another set of solutions", Desc.c_str(), K);
      __int128 L = (__int128)E.RHS.Value * O.RHS.Value;
      auto P = Scale.emplace((int)O.RHS.Column, L);
      MC_CHECK(P.first->second == L, "reverse", "%s the new variables of one parameter differ (%lld and %lld)", Desc.c_str(), (Z)P.first->second, (Z)L);
      MC_CHECK(L > 0, "reverse", "%s the new variable is oriented against the parameter", Desc.c_str());
    }
  };
  auto Shift = [&] {
    auto Old = S.getSolution();
    S.solutioWithPositiveConstant(I);
    mc::step();
    auto &New = S.getSolution();
    MC_CHECK(New.size() == Old.size(), "shift", "%s the number of equations changes", Desc.c_str());
    Z Min = 0;
    for (auto &E : Old) Min = std::min(Min, (Z)E.Constant);
    for (size_t K = 0; K < Old.size(); ++K) {
      auto &O = Old[K]; auto &E = New[K];
      MC_CHECK(E.Constant >= 0, "shift", "%s a constant stays negative", Desc.c_str());
      MC_CHECK(E.Constant == O.Constant - Min, "shift", "%s entry %zu is not shifted by the common offset", Desc.c_str(), K);
      MC_CHECK(E.RHS.Column == O.RHS.Column && E.RHS.Value == O.RHS.Value && E.LHS.Value == O.LHS.Value, "shift", "%s entry %zu has another form", Desc.c_str(), K);
      MC_CHECK(E.LHS.Column == (Min ? I.parameterColumn(O.LHS.Column) : O.LHS.Column), "shift", "%s entry %zu: the shifted variable has no name of its own", Desc.c_str(), K);
    }
  };
  if (Op == 0) Reverse();
  else if (Op == 1) Shift();
  else { Reverse(); Shift(); }
  std::ostringstream OS;
  S.printSolution(I, OS);
  size_t Lines = 0;
  for (char C : OS.str()) Lines += C == '\n';
  MC_CHECK(Lines == Before.size() + 1, "printed", "%s the printed solution has %zu lines", Desc.c_str(), Lines);
  mc::state(Desc + std::to_string(Op) + typeid(T).name());
  mc::validated();
}
} // namespace

using Ints = Types<int, int>;
using Longs = Types<unsigned, long long>;
using Sizes = Types<std::size_t, int>;
using Wide = Types<int, long>;
void mc_register() {
  mc::scenario("two-rows", twoRows<Ints>);
  mc::scenario("two-rows-long", twoRows<Longs>);
  mc::scenario("many-rows", manyRows<Ints>);
  mc::scenario("many-rows-size", manyRows<Sizes>);
  mc::scenario("transform", transform<Ints>);
  mc::scenario("transform-unsigned-long-long", transform<Longs>);
  mc::scenario("transform-size-int", transform<Sizes>);
  mc::scenario("transform-int-long", transform<Wide>);
}
