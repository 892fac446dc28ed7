// U01: the helpers of utility.h that work on types (see utility.cpp).
#pragma GCC optimize ("O0")
#include "mc.h"
#include <algorithm>
#include <cassert>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <bcl/utility.h>

namespace {
// Binary literals: every digit string.
using bcl::operator"" _b;
template <unsigned long long V, class I> struct Lit;
template <unsigned long long V, size_t... I> struct Lit<V, std::index_sequence<I...>> {
  static unsigned long long value() { return bcl::operator"" _b<char('0' + ((V >> (sizeof...(I) - 1 - I)) & 1))...>(); }
};
void sameLiteral(int L, unsigned long long V, unsigned long long R) {
  mc::step();
  MC_CHECK(R == V, "literal", "a binary literal of %d digits is %llx instead of %llx", L, R, V);
}
template <int L, unsigned long long V> void literal() { sameLiteral(L, V, Lit<V, std::make_index_sequence<L>>::value()); }
template <int L, size_t... V> void literalsOf(std::index_sequence<V...>) { (void)std::initializer_list<int>{(literal<L, V>(), 0)...}; }
/// Long literals: one digit set, all digits but one set, all digits below set.
template <int L, int... B> void longOf(std::integer_sequence<int, B...>) {
  constexpr unsigned long long All = L == 64 ? ~0ull : (1ull << (L & 63)) - 1;
  (void)std::initializer_list<int>{(literal<L, (1ull << B)>(), literal<L, (All & ~(1ull << B))>(), literal<L, (1ull << B) - 1>(), 0)...};
  literal<L, All>();
}
template <int... L> void literals(std::integer_sequence<int, L...>) { (void)std::initializer_list<int>{(literalsOf<L + 1>(std::make_index_sequence<(1u << (L + 1))>()), 0)...}; }
} // namespace
void literalScenario() {
  int K = mc::choose(4);
  mc::op("part %d", K);
  switch (K) {
  case 0: literals(std::make_integer_sequence<int, 6>()); break;
  case 1: longOf<31>(std::make_integer_sequence<int, 31>()); longOf<32>(std::make_integer_sequence<int, 32>()); longOf<33>(std::make_integer_sequence<int, 33>()); break;
  case 2: longOf<64>(std::make_integer_sequence<int, 64>());  break;
  case 3: {
    constexpr auto A = 01000_b, B = 1_b, C = 0_b, D = 11111111111111111111111111111111_b, E = 100000000000000000000000000000000_b;
    MC_CHECK(A == 8 && B == 1 && C == 0 && D == 0xffffffffull && E == 0x100000000ull, "literal", "a constant literal is wrong");
  }
  }
  mc::state(mc::fmt("literal %d", K));
  mc::validated();
}


namespace {
// Type lists: all lists of up to four types out of four.
template <int> struct Ty {};
struct OneList { int T; std::vector<int> L; bool Contained; size_t Size, Index; };
std::vector<OneList> AllLists;
template <int T, int... L> constexpr size_t indexOf(std::true_type) { return bcl::index_of<Ty<T>, Ty<L>...>(); }
template <int T, int... L> constexpr size_t indexOf(std::false_type) { return 0; }
template <int T, int... L> void typeList() {
  typedef bcl::is_contained<Ty<T>, Ty<L>...> C;
  AllLists.push_back({T, {L...}, C::value, bcl::size_of<Ty<L>...>(), indexOf<T, L...>(std::integral_constant<bool, C::value>())});
}
void sameLists() {
  for (auto &O : AllLists) {
    auto It = std::find(O.L.begin(), O.L.end(), O.T);
    bool In = It != O.L.end();
    mc::step(3);
    MC_CHECK(O.Contained == In, "contained", "is_contained is %d for a list of %zu types", O.Contained, O.L.size());
    MC_CHECK(O.Size == O.L.size(), "size_of", "size_of is %zu for a list of %zu types", O.Size, O.L.size());
    MC_CHECK(!In || O.Index == size_t(It - O.L.begin()), "index_of", "index_of is %zu instead of %zu in a list of %zu types", O.Index, size_t(It - O.L.begin()), O.L.size());
  }
}
template <int D, int... L> struct Lists {
  static void run() { typeList<0, L...>(); typeList<1, L...>(); typeList<2, L...>(); typeList<3, L...>();
    Lists<D - 1, L..., 0>::run(); Lists<D - 1, L..., 1>::run(); Lists<D - 1, L..., 2>::run(); Lists<D - 1, L..., 3>::run(); }
};
template <int... L> struct Lists<0, L...> { static void run() { typeList<0, L...>(); typeList<1, L...>(); typeList<2, L...>(); typeList<3, L...>(); } };

template <size_t... N> void arrays(std::index_sequence<N...>) {
  auto One = [](auto &A, size_t E) { MC_CHECK(bcl::array_sizeof(A) == E, "array", "array_sizeof is %zu instead of %zu", bcl::array_sizeof(A), E); mc::step(); };
  (void)std::initializer_list<int>{([&] { int A[N + 1]; One(A, N + 1); std::string S[N + 1]; One(S, N + 1); }(), 0)...};
}
struct Visit { std::vector<std::string> *V; template <class T> void operator()(const T &X) { std::ostringstream S; S << X; V->push_back(S.str()); } };
template <class... A> void each(const std::vector<std::string> &E, A... Args) {
  std::vector<std::string> V; Visit F{&V};
  bcl::staticForeach(F, Args...);
  MC_CHECK(V == E, "foreach", "staticForeach visits %zu values instead of %zu", V.size(), E.size());
  V.clear(); bcl::staticForeach(Visit{&V}, Args...);
  MC_CHECK(V == E, "foreach", "staticForeach with a temporary visits %zu values instead of %zu", V.size(), E.size());
  mc::step(2);
}
struct Movable : bcl::Uncopyable { };
struct Fixed : bcl::Unassignable { Fixed() = default; };
BASE_ATTR_DEF(AttrA, int)
BASE_ATTR_DEF(AttrB, int)
BASE_ATTR_DEF(AttrC, std::string)
struct Made {
  int A; std::string B; std::unique_ptr<int> C; int *D;
  Made() : A(0), D(nullptr) {}
  explicit Made(int X) : A(X), D(nullptr) {}
  Made(int X, const std::string &S) : A(X), B(S), D(nullptr) {}
  Made(std::string &&S, std::unique_ptr<int> P, int &R) : A(1), B(std::move(S)), C(std::move(P)), D(&R) {}
};
} // namespace
void containers() {
  int K = mc::choose(8);
  mc::op("part %d", K);
  switch (K) {
  case 0: { mc::NoCount NC; if (AllLists.empty()) Lists<4>::run(); sameLists(); break; }
  case 1: arrays(std::make_index_sequence<10>()); break;
  case 2:
    each({}); each({"1"}, 1); each({"1", "x"}, 1, "x"); each({"1", "x", "2.5"}, 1, "x", 2.5); each({"a", "b", "c", "d"}, 'a', std::string("b"), "c", 'd');
    each({"7", "6", "5", "4", "3", "2", "1"}, 7, 6u, 5l, "4", '3', std::string("2"), 1);
    break;
  case 3: {
    // Insertion of every sequence of values
    int N = mc::choose(5);
    std::set<int> S, ES; std::vector<int> V, EV; int C = 0; std::set<int *> PS; std::vector<int *> PV;
    int X[4];
    for (int I = 0; I < N; ++I) {
      X[I] = mc::choose(3);
      bcl::SimpleInserter<int, std::set<int>>::insert(X[I], S); ES.insert(X[I]);
      bcl::PushBackInserter<int, std::vector<int>>::insert(X[I], V); EV.push_back(X[I]);
      bcl::CountInserter<int, int>::insert(X[I], C); bcl::CountInserter<int *, int>::insert(X + I, C);
      bcl::SimpleInserter<int *, std::set<int *>>::insert(X + I, PS); bcl::PushBackInserter<int *, std::vector<int *>>::insert(X + I, PV);
      MC_CHECK(S == ES && V == EV && C == 2 * (I + 1) && PS.count(X + I) && PS.size() == I + 1u && PV.size() == I + 1u && PV[I] == X + I, "insert", "an inserter does not insert its element");
      mc::step(6);
    }
    break;
  }
  case 4: {
    MC_CHECK((!std::is_copy_constructible<Movable>::value && !std::is_copy_assignable<Movable>::value && std::is_move_constructible<Movable>::value), "uncopyable", "a class derived from Uncopyable can be copied or not be moved");
    MC_CHECK((std::is_copy_constructible<Fixed>::value && !std::is_copy_assignable<Fixed>::value), "unassignable", "a class derived from Unassignable can be assigned or not be copied");
    MC_CHECK(AttrA::id() == AttrA::id() && AttrA::id() != AttrB::id() && AttrB::id() != AttrC::id() && AttrA::id() != AttrC::id(), "attribute", "attributes share an identifier");
    break;
  }
  case 5: {
    int N = mc::choose(mc::bound(70, 300)), R = 5;
    auto A = bcl::make_unique<int[]>(N);
    for (int I = 0; I < N; ++I) { MC_CHECK(A[I] == 0, "make_unique", "an array is not initialized"); A[I] = I; }
    auto B = bcl::make_unique<Made>(N, "text");
    MC_CHECK(B->A == N && B->B == "text", "make_unique", "arguments get lost");
    auto P = std::make_unique<int>(N); int *Raw = P.get();
    auto C = bcl::make_unique<Made>(std::string(N, 'x'), std::move(P), R);
    MC_CHECK(C->B == std::string(N, 'x') && C->C.get() == Raw && C->D == &R, "make_unique", "arguments get lost");
    auto D = bcl::make_unique_piecewise<Made>(std::tuple<>());
    auto E = bcl::make_unique_piecewise<Made>(std::make_tuple(N));
    auto F = bcl::make_unique_piecewise<Made>(std::make_tuple(N, std::string("two")));
    auto G = bcl::make_unique_piecewise<Made>(std::tuple<std::string, std::unique_ptr<int>, int &>(std::string(N, 'y'), std::make_unique<int>(N), R));
    MC_CHECK(D->A == 0 && E->A == N && F->A == N && F->B == "two" && G->B == std::string(N, 'y') && *G->C == N && G->D == &R, "piecewise", "arguments get lost");
    mc::step(7);
    break;
  }
  case 6: {
    using namespace Utility;
#define SAME(T, V) MC_CHECK((IsIdentical<T::Definition, V>::Value()), "logic", #T " is wrong"); mc::step()
    SAME(Not<True>, False); SAME(Not<False>, True);
    typedef And<True, True> TT; typedef And<True, False> TF; typedef And<False, True> FT; typedef And<False, False> FF;
    SAME(TT, True); SAME(TF, False); SAME(FT, False); SAME(FF, False);
    typedef Or<True, True> OTT; typedef Or<True, False> OTF; typedef Or<False, True> OFT; typedef Or<False, False> OFF;
    SAME(OTT, True); SAME(OTF, True); SAME(OFT, True); SAME(OFF, False);
    typedef And<Not<False>, Or<False, Not<False>>> N1; typedef Not<And<TT, OFF>> N2;
    SAME(N1, True); SAME(N2, True);
    MC_CHECK((std::is_same<If<True, int, char>::Result, int>::value && std::is_same<If<False, int, char>::Result, char>::value && std::is_same<If<TF, int, char>::Result, char>::value), "logic", "If selects the wrong branch");
    MC_CHECK((IsScalar<int>::Value() && IsScalar<wchar_t>::Value() && !IsScalar<std::string>::Value() && IsReference<int &>::Value() && !IsReference<int>::Value() && !IsIdentical<int, long>::Value()), "logic", "a type predicate is wrong");
    MC_CHECK((Constant<int, 7>::Value() == 7 && True::Value() && !False::Value()), "logic", "a constant is wrong");
    int A = 3; AddToObjectIf(True(), A, 4); AddToObjectIf(False(), A, 8);
    MC_CHECK(A == 7, "logic", "AddToObjectIf adds wrongly");
    break;
  }
  case 7: mc::discard();
  }
  mc::state(mc::fmt("part %d", K));
  mc::validated();
}

