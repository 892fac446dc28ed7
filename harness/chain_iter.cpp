// C02: chain iterators over all chain shapes, start nodes and step sequences.
#include "mc.h"
#include <cassert>
#include <bcl/Chain.h>
#include <iterator>
#include <string>
#include <type_traits>
#include <vector>

namespace {
struct TagB;
struct Base1 { virtual ~Base1() {} int X = 7; };
/// The chain is not the first base: the node address is not the link address.
struct Node : Base1, bcl::Chain<Node, TagB>, bcl::Chain<Node> { int Id = 0; };
constexpr int Max = 5;

template <class It> struct NodePtr { using type = Node *; };

/// Next[i] of a link structure chosen exhaustively (a partial injection).
void build(int N, Node *Nodes, int *Next) {
  bool Used[Max] = {};
  for (int I = 0; I < N; ++I) {
    Next[I] = -1;
    std::vector<int> Free;
    for (int K = 0; K < N; ++K) if (!Used[K] && K != I) Free.push_back(K);
    int C = mc::choose(Free.size() + 1);
    if (C) { Next[I] = Free[C - 1]; Used[Next[I]] = true; }
  }
  for (int I = 0; I < N; ++I) {
    Nodes[I].Id = I;
    if (Next[I] >= 0) bcl::ChainTraits<Node>::mergeNext(&Nodes[Next[I]], &Nodes[I]);
  }
}

template <class It, class Ptr> void walk(int N, int Steps, bool All) {
  Node Nodes[Max]; int Next[Max];
  build(N, Nodes, Next);
  auto Prev = [&](int I) { for (int K = 0; K < N; ++K) if (Next[K] == I) return K; return -1; };
  int Cur = mc::choose(N);
  mc::note("start at %d", Cur);
  It I(&Nodes[Cur]);
  std::string Sh;
  { mc::NoCount NC; for (int K = 0; K < N; ++K) Sh += Next[K] < 0 ? '.' : char('0' + Next[K]); }
  for (int S = 0;; ++S) {
    { mc::NoCount NC; mc::state(Sh + "@" + std::to_string(Cur)); }
    // Observations of the iterator.
    const It &CI = I;
    MC_CHECK(bool(CI) == (Cur >= 0), "bool", "conversion to bool is %d", (int)bool(CI));
    for (int K = 0; K < N; ++K) {
      Ptr P = &Nodes[K];
      bool Eq = K == Cur;
      MC_CHECK((CI == P) == Eq, "eq", "iterator at %d == node %d is %d", Cur, K, (int)(CI == P));
      MC_CHECK((CI != P) == !Eq, "eq", "iterator at %d != node %d is wrong", Cur, K);
      MC_CHECK((&Nodes[K] == CI) == Eq && (&Nodes[K] != CI) == !Eq, "eq", "node %d == iterator at %d is wrong", K, Cur);
      It Other(&Nodes[K]);
      MC_CHECK((CI == Other) == Eq && (Other == CI) == Eq, "eq", "iterator at %d == iterator at %d is wrong", Cur, K);
      MC_CHECK((CI != Other) == !Eq, "eq", "iterator at %d != iterator at %d is wrong", Cur, K);
    }
    { It Null(nullptr);
      MC_CHECK((CI == Null) == (Cur < 0), "eq", "comparison with the end"); }
    if (Cur >= 0) {
      MC_CHECK(&*CI == &Nodes[Cur], "deref", "operator* is not node %d", Cur);
      MC_CHECK(CI->Id == Cur && (*CI).Id == Cur && CI->X == 7, "deref", "operator-> is not node %d", Cur);
      MC_CHECK(CI.get() == &Nodes[Cur], "get", "get() is not node %d", Cur);
      MC_CHECK(CI.getNext() == (Next[Cur] < 0 ? nullptr : &Nodes[Next[Cur]]), "next", "getNext() at %d", Cur);
      MC_CHECK(CI.getPrev() == (Prev(Cur) < 0 ? nullptr : &Nodes[Prev(Cur)]), "prev", "getPrev() at %d", Cur);
    }
    if (S == Steps) break;
    int Op = mc::choose(All ? 6 : 4);
    if (Op < 4 && Cur < 0) mc::discard();
    int Was = Cur;
    switch (Op) {
    case 0: { mc::op("++I"); Cur = Next[Cur]; It &R = ++I; MC_CHECK(&R == &I, "result", "++I does not return I"); break; }
    case 1: { mc::op("I++"); Cur = Next[Cur]; It R = I++; MC_CHECK(R.get() == &Nodes[Was], "postfix", "I++ does not return the old position"); break; }
    case 2: { mc::op("--I"); Cur = Prev(Cur); It &R = --I; MC_CHECK(&R == &I, "result", "--I does not return I"); break; }
    case 3: { mc::op("I--"); Cur = Prev(Cur); It R = I--; MC_CHECK(R.get() == &Nodes[Was], "postfix", "I-- does not return the old position"); break; }
    case 4: { Cur = mc::choose(N); mc::op("I = node %d", Cur); It &R = (I = &Nodes[Cur]); MC_CHECK(&R == &I, "result", "assignment does not return I"); break; }
    case 5: { It Copy(I); It Tmp(&Nodes[0]); Tmp = Copy; I = Tmp; mc::op("copy"); break; }
    }
  }
  mc::validated();
}

/// Whole traversals: the visited sequence is the link order, for every linear
/// chain, forwards and backwards, and the nodes can be written through it.
void traverse() {
  int N = 1 + mc::choose(Max);
  Node Nodes[Max];
  std::vector<int> Order, Left;
  for (int I = 0; I < N; ++I) { Nodes[I].Id = I; Left.push_back(I); }
  bool Back = mc::choose(2);
  while (!Left.empty()) { int C = mc::choose(Left.size()); Order.push_back(Left[C]); Left.erase(Left.begin() + C); }
  for (int I = 0; I + 1 < N; ++I) {
    bcl::ChainIterator<Node> It(&Nodes[Order[Back ? N - 1 - I : I]]);
    if (Back) It.splicePrev(&Nodes[Order[N - 2 - I]]); else It.spliceNext(&Nodes[Order[I + 1]]);
  }
  mc::op("traverse a chain of %d nodes", N);
  std::vector<int> Seen;
  for (bcl::ChainIterator<Node> I(&Nodes[Order[0]]); I; ++I) { Seen.push_back(I->Id); I->Id += 100; if (Seen.size() > Max) break; }
  MC_CHECK(Seen == Order, "order", "the forward traversal differs from the order of insertion");
  Seen.clear();
  for (bcl::ChainIteratorC<Node> I(&Nodes[Order[N - 1]]); I; --I) { Seen.push_back(I->Id - 100); if (Seen.size() > Max) break; }
  MC_CHECK(Seen == std::vector<int>(Order.rbegin(), Order.rend()), "order", "the backward traversal differs");
  Seen.clear();
  for (bcl::ChainIteratorC<Node> I(&Nodes[Order[N - 1]]); I; I--) { Seen.push_back(I->Id - 100); if (Seen.size() > Max) break; }
  MC_CHECK(Seen == std::vector<int>(Order.rbegin(), Order.rend()), "order", "the backward postfix traversal differs");
  { mc::NoCount NC; std::string C; for (int I : Order) C += char('0' + I); mc::state(C); mc::outcome(C); }
  mc::validated();
}
} // namespace

void mc_register() {
  using I = bcl::ChainIterator<Node>;
  using C = bcl::ChainIteratorC<Node>;
  mc::scenario("iterator-3", [] { walk<I, const Node *>(3, mc::bound(4, 6), true); });
  mc::scenario("const-iterator-3", [] { walk<C, const Node *>(3, mc::bound(4, 6), true); });
  mc::scenario("iterator-4", [] { walk<I, const Node *>(4, mc::bound(4, 7), false); });
  mc::scenario("const-iterator-4", [] { walk<C, const Node *>(4, mc::bound(4, 7), false); });
  mc::scenario("iterator-5", [] { walk<I, const Node *>(5, mc::bound(2, 6), false); });
  mc::scenario("traverse", traverse);
}
