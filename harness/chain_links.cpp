// C01: all histories of splice/merge operations on intrusive chains with two
// tags against a map of links.
#include "mc.h"
#include <cassert>
#include <bcl/Chain.h>
#include <string>
#include <vector>

namespace {
struct TagB;
struct Node : bcl::Chain<Node>, bcl::Chain<Node, TagB> { int Id = 0; };
constexpr int Max = 6;

/// The reference: Next[i] is the successor of node i or -1.
struct Model {
  int N;
  int Next[Max];
  explicit Model(int N) : N(N) { for (auto &X : Next) X = -1; }
  int prev(int I) const { for (int K = 0; K < N; ++K) if (Next[K] == I) return K; return -1; }
  void cutIn(int I) { int P = prev(I); if (P >= 0) Next[P] = -1; }
  void spliceNext(int T, int A) {
    if (A < 0) { Next[T] = -1; return; }
    cutIn(A); Next[A] = -1;           // extract A
    int Old = Next[T];
    Next[T] = A; Next[A] = Old;
  }
  void splicePrev(int T, int A) {
    if (A < 0) { cutIn(T); return; }
    cutIn(A); Next[A] = -1;
    int Old = prev(T);
    if (Old >= 0) Next[Old] = A;
    Next[A] = T;
  }
  void mergeNext(int T, int A) {
    Next[T] = -1;
    if (A < 0) return;
    cutIn(A); Next[T] = A;
  }
  void mergePrev(int T, int A) {
    cutIn(T);
    if (A < 0) return;
    Next[A] = T;
  }
  std::string canon() const {
    std::string S;
    for (int K = 0; K < N; ++K) S += Next[K] < 0 ? '.' : char('0' + Next[K]);
    return S;
  }
};

template <class Tag> void agree(Node *Nodes, const Model &M, const char *What) {
  using T = bcl::ChainTraits<Node, Tag>;
  for (int I = 0; I < M.N; ++I) {
    Node *Next = M.Next[I] < 0 ? nullptr : &Nodes[M.Next[I]];
    int P = M.prev(I);
    Node *Prev = P < 0 ? nullptr : &Nodes[P];
    const Node &C = Nodes[I];
    MC_CHECK(T::getNext(&Nodes[I]) == Next, "next", "%s: node %d is not followed by %d", What, I, M.Next[I]);
    MC_CHECK(T::getPrev(&Nodes[I]) == Prev, "prev", "%s: node %d is not preceded by %d", What, I, P);
    MC_CHECK(T::getNext(&C) == Next && T::getPrev(&C) == Prev, "const", "%s: constant access to node %d differs", What, I);
  }
}

const char *Names[] = {"spliceNext", "splicePrev", "mergeNext", "mergePrev"};

template <class Tag>
void apply(Node *Nodes, Model &M, int Op, bool Iter, int T, int A) {
  using Tr = bcl::ChainTraits<Node, Tag>;
  Node *Arg = A < 0 ? nullptr : &Nodes[A];
  if (Iter) {
    bcl::ChainIterator<Node, Tag> I(&Nodes[T]);
    switch (Op) {
    case 0: I.spliceNext(Arg); break;
    case 1: I.splicePrev(Arg); break;
    case 2: I.mergeNext(Arg); break;
    case 3: I.mergePrev(Arg); break;
    }
    MC_CHECK(I.get() == &Nodes[T], "iterator", "an operation moves its iterator");
  } else {
    switch (Op) {
    case 0: Tr::spliceNext(Arg, &Nodes[T]); break;
    case 1: Tr::splicePrev(Arg, &Nodes[T]); break;
    case 2: Tr::mergeNext(Arg, &Nodes[T]); break;
    case 3: Tr::mergePrev(Arg, &Nodes[T]); break;
    }
  }
  switch (Op) {
  case 0: M.spliceNext(T, A); break;
  case 1: M.splicePrev(T, A); break;
  case 2: M.mergeNext(T, A); break;
  case 3: M.mergePrev(T, A); break;
  }
}

/// Every history: all reachable link structures, every operation in each.
void histories(int N, int Depth) {
  Node Nodes[Max];
  for (int I = 0; I < N; ++I) Nodes[I].Id = I;
  Model M(N), MB(N);
  for (int D = 0; D < Depth; ++D) {
    { mc::NoCount NC; std::string C = M.canon();
      mc::state(std::to_string(N) + C);
      if (mc::seen(C, Depth - D)) return; }
    int Op = mc::choose(9);
    if (Op == 8) break;
    int T = mc::choose(N);
    int A = mc::choose(N) - 1;
    if (A >= T) ++A; // every node but T, and null
    mc::op("%s%s(target %d, argument %d)", Names[Op % 4], Op >= 4 ? " (iterator)" : "", T, A);
    apply<void>(Nodes, M, Op % 4, Op >= 4, T, A);
    agree<void>(Nodes, M, Names[Op % 4]);
    agree<TagB>(Nodes, MB, "the other chain");
    for (int I = 0; I < N; ++I) MC_CHECK(Nodes[I].Id == I, "data", "data of a node has changed");
  }
  { mc::NoCount NC; mc::outcome(M.canon()); }
  mc::validated();
}

/// Two tags of the same nodes in all interleavings.
void tags() {
  const int N = 3, Depth = mc::bound(3, 4);
  Node Nodes[Max];
  Model MA(N), MB(N);
  for (int D = 0; D < Depth; ++D) {
    { mc::NoCount NC; std::string C = MA.canon() + "/" + MB.canon();
      mc::state("t" + C);
      if (mc::seen(C, Depth - D)) return; }
    bool B = mc::choose(2);
    int Op = mc::choose(8), T = mc::choose(N), A = mc::choose(N) - 1;
    if (A >= T) ++A;
    mc::op("tag %d: %s%s(target %d, argument %d)", B, Names[Op % 4], Op >= 4 ? " (iterator)" : "", T, A);
    if (B) apply<TagB>(Nodes, MB, Op % 4, Op >= 4, T, A);
    else apply<void>(Nodes, MA, Op % 4, Op >= 4, T, A);
    agree<void>(Nodes, MA, "chain A");
    agree<TagB>(Nodes, MB, "chain B");
  }
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("three-nodes", [] { histories(3, mc::bound(6, 8)); });
  mc::scenario("four-nodes", [] { histories(4, mc::bound(6, 9)); });
  mc::scenario("five-nodes", [] { histories(5, mc::bound(5, 10)); });
  mc::scenario("six-nodes", [] { histories(6, mc::bound(3, 6)); });
  mc::scenario("tags", tags);
}
