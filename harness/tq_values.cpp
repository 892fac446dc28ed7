// Q02: copies, moves, assignments and swaps of up to three queues in every
// history, against deques. Every operation is followed by a full comparison of
// all queues; AddressSanitizer and the heap accounting of the explorer check
// the storage.
#include "mc.h"
#include <cassert>
#include <bcl/transparent_queue.h>
#include <deque>
#include <memory>
#include <utility>

namespace {
using Queue = bcl::TransparentQueue<int>;
using Ref = std::deque<int *>;
int Cells[16];

std::string canon(const Ref &R) {
  std::string S;
  for (auto *P : R) S += P ? std::to_string(P - Cells) + "," : "n,";
  return S + ";";
}

struct Slot {
  std::unique_ptr<Queue> Q;
  Ref R;
  bool Multi = false;
};

// Observes a queue through its public interface without changing it.
void agree(Slot &S, int I, const char *What) {
  const Queue &Q = *S.Q;
  MC_CHECK(Q.size() == S.R.size(), "size", "queue %d: size() is %zu instead of %zu after %s", I, (size_t)Q.size(), S.R.size(), What);
  MC_CHECK(Q.empty() == S.R.empty(), "empty", "queue %d: empty() is wrong after %s", I, What);
  if (S.R.empty()) return;
  MC_CHECK(Q.front() == S.R.front(), "front", "queue %d: wrong front() after %s", I, What);
  MC_CHECK(Q.back() == S.R.back(), "back", "queue %d: wrong back() after %s", I, What);
}

void drain(Slot &S, int I) {
  while (!S.R.empty()) {
    int *E = S.R.front(); S.R.pop_front();
    mc::step();
    int *V = S.Q->pop();
    MC_CHECK(V == E, "contents", "queue %d: the remaining elements differ", I);
    agree(S, I, "draining");
  }
  MC_CHECK(S.Q->pop() == nullptr, "pop-empty", "queue %d: pop() of the empty queue is not null", I);
}

template <bool Full, bool Cache = false> void histories(int NQ, int Depth) {
  Slot S[3];
  // Initial contents of every queue: sizes 0, 1, 2 (inline and heap).
  for (int I = 0; I < NQ; ++I) {
    S[I].Q.reset(new Queue);
    int N = mc::choose(4);
    mc::note("queue %d: form %d", I, N);
    for (int K = 0; K < (N == 3 ? 2 : N); ++K) {
      S[I].Q->push(&Cells[I * 4 + K]); S[I].R.push_back(&Cells[I * 4 + K]);
    }
    if (N == 3) { // grown and shrunk
      S[I].Q->pop(); S[I].R.pop_front();
    }
    S[I].Multi = N > 1;
  }
  int Next = 12;
  for (int D = 0; D < Depth; ++D) {
    {
      std::string C;
      mc::NoCount NC;
      for (int I = 0; I < NQ; ++I) C += canon(S[I].R) + (S[I].Multi ? "m" : "s");
      mc::state(C);
      if (Cache && mc::seen(C + std::to_string(Next), Depth - D)) return;
    }
    int Op = mc::choose(Full ? 11 : 10);
    if (Op == 0) break;
    int A = mc::choose(NQ), B = 0;
    const char *What = "";
    auto Other = [&](bool Self) {
      if (Self) { B = mc::choose(NQ); return; }
      B = mc::choose(NQ - 1); if (B >= A) ++B;
    };
    switch (Op) {
    case 1: What = "push"; mc::op("push %d", A);
      S[A].Q->push(&Cells[Next]); S[A].R.push_back(&Cells[Next]); Next = 12 + (Next - 11) % 4; break;
    case 2: What = "pop"; mc::op("pop %d", A); {
      int *E = S[A].R.empty() ? nullptr : S[A].R.front();
      if (E) S[A].R.pop_front();
      int *V = S[A].Q->pop();
      MC_CHECK(V == E, "contents", "queue %d: pop() returned another element", A);
      break;
    }
    case 3: Other(true); What = "copy assignment"; mc::op("%d = %d", A, B); {
      Queue &R = (*S[A].Q = *S[B].Q);
      MC_CHECK(&R == S[A].Q.get(), "result", "copy assignment does not return its target");
      S[A].R = Ref(S[B].R); S[A].Multi = S[B].Multi; break;
    }
    case 4: Other(true); What = "move assignment"; mc::op("%d = move(%d)", A, B); {
      Queue &R = (*S[A].Q = std::move(*S[B].Q));
      MC_CHECK(&R == S[A].Q.get(), "result", "move assignment does not return its target");
      if (A != B) { S[A].R = S[B].R; S[B].R.clear(); S[A].Multi = S[B].Multi; S[B].Multi = false; }
      break;
    }
    case 5: Other(true); What = "swap"; mc::op("%d.swap(%d)", A, B);
      S[A].Q->swap(*S[B].Q); std::swap(S[A].R, S[B].R); std::swap(S[A].Multi, S[B].Multi); break;
    case 6: Other(true); What = "free swap"; mc::op("swap(%d, %d)", A, B); {
      using std::swap;
      swap(*S[A].Q, *S[B].Q); std::swap(S[A].R, S[B].R); std::swap(S[A].Multi, S[B].Multi); break;
    }
    case 7: Other(false); What = "copy construction"; mc::op("%d := Queue(%d)", A, B);
      S[A].Q.reset(new Queue(*S[B].Q)); S[A].R = S[B].R; S[A].Multi = S[B].Multi; break;
    case 8: Other(false); What = "move construction"; mc::op("%d := Queue(move(%d))", A, B);
      S[A].Q.reset(new Queue(std::move(*S[B].Q))); S[A].R = S[B].R; S[B].R.clear();
      S[A].Multi = S[B].Multi; S[B].Multi = false; break;
    case 9: What = "emplace"; mc::op("emplace %d", A);
      S[A].Q->emplace(&Cells[Next]); S[A].R.push_back(&Cells[Next]); Next = 12 + (Next - 11) % 4; break;
    case 10: What = "writing through front() and back()"; mc::op("write %d", A);
      if (S[A].R.empty()) mc::discard();
      S[A].Q->front() = &Cells[Next]; S[A].R.front() = &Cells[Next];
      S[A].Q->back() = &Cells[12]; S[A].R.back() = &Cells[12]; break;
    }
    S[A].Multi |= S[A].R.size() > 1;
    for (int I = 0; I < NQ; ++I) agree(S[I], I, What);
  }
  {
    mc::NoCount NC;
    std::string C;
    for (int I = 0; I < NQ; ++I) C += canon(S[I].R);
    mc::outcome(C);
  }
  for (int I = 0; I < NQ; ++I) drain(S[I], I);
  mc::validated();
}

// Assignments and swaps of long queues.
void large() {
  static const int Sizes[] = {0, 1, 2, 64, 65, 300};
  Slot S[2];
  static int Big[600];
  for (int I = 0; I < 2; ++I) {
    S[I].Q.reset(new Queue);
    int N = Sizes[mc::choose(6)];
    for (int K = 0; K < N; ++K) { S[I].Q->push(&Big[I * 300 + K]); S[I].R.push_back(&Big[I * 300 + K]); }
  }
  int Op = mc::choose(5);
  mc::op("operation %d on queues of %zu and %zu", Op, S[0].R.size(), S[1].R.size());
  mc::state(mc::fmt("%zu %zu %d", S[0].R.size(), S[1].R.size(), Op));
  switch (Op) {
  case 0: *S[0].Q = *S[1].Q; S[0].R = S[1].R; break;
  case 1: *S[0].Q = std::move(*S[1].Q); S[0].R = S[1].R; S[1].R.clear(); break;
  case 2: S[0].Q->swap(*S[1].Q); std::swap(S[0].R, S[1].R); break;
  case 3: S[0].Q.reset(new Queue(*S[1].Q)); S[0].R = S[1].R; break;
  case 4: S[0].Q.reset(new Queue(std::move(*S[1].Q))); S[0].R = S[1].R; S[1].R.clear(); break;
  }
  for (int K = 0; K < 2; ++K) { agree(S[0], 0, "the operation"); agree(S[1], 1, "the operation"); }
  drain(S[0], 0); drain(S[1], 1);
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("two-queues", [] { histories<true>(2, mc::bound(3, 4)); });
  mc::scenario("two-queues-deep", [] { histories<true, true>(2, mc::bound(6, 9)); });
  mc::scenario("three-queues", [] { histories<false>(3, mc::bound(2, 3)); });
  mc::scenario("three-queues-deep", [] { histories<false, true>(3, mc::bound(4, 6)); });
  mc::scenario("large", large);
}
