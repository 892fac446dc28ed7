// Q01: every history of queue operations on one TransparentQueue against a
// deque, and Q01's cross-representation comparisons.
#include "mc.h"
#include <cassert>
#include <bcl/transparent_queue.h>
#include <deque>
#include <memory>

namespace {
using Queue = bcl::TransparentQueue<int>;
using Ref = std::deque<int *>;
int Cells[2100];

std::string canon(const Ref &R) {
  std::string S;
  for (auto *P : R) S += P ? std::to_string(P - Cells) + "," : "n,";
  return S;
}

void agree(const Queue &Q, const Ref &R, const char *After) {
  MC_CHECK(Q.size() == R.size(), "size", "after %s: size() is %zu, %zu elements were pushed and not popped",
           After, (size_t)Q.size(), R.size());
  MC_CHECK(Q.empty() == R.empty(), "empty", "after %s: empty() is %d for %zu elements", After, (int)Q.empty(), R.size());
  if (R.empty()) return;
  MC_CHECK(Q.front() == R.front(), "front", "after %s: front() is not the oldest element", After);
  MC_CHECK(Q.back() == R.back(), "back", "after %s: back() is not the newest element", After);
  MC_CHECK(const_cast<Queue &>(Q).front() == R.front(), "front", "after %s: front() is not the oldest element", After);
  MC_CHECK(const_cast<Queue &>(Q).back() == R.back(), "back", "after %s: back() is not the newest element", After);
}

void drain(Queue &Q, Ref &R) {
  while (!R.empty()) {
    int *E = R.front(); R.pop_front();
    int *V = Q.pop();
    mc::step();
    MC_CHECK(V == E, "fifo", "pop() returned #%td instead of #%td", V ? V - Cells : -1, E ? E - Cells : -1);
    agree(Q, R, "a draining pop");
  }
  MC_CHECK(Q.pop() == nullptr, "pop-empty", "pop() of a drained queue is not null");
  agree(Q, R, "pop of the empty queue");
}

void histories() {
  const int Depth = mc::bound(7, 9);
  std::unique_ptr<Queue> Q;
  Ref R;
  int Next = 0;
  bool Multi = false; // a second element has been there
  int Kind = mc::choose(3);
  if (Kind == 0) { mc::op("TransparentQueue()"); Q.reset(new Queue); }
  else if (Kind == 1) { mc::op("TransparentQueue(#0)"); Q.reset(new Queue(&Cells[Next])); R.push_back(&Cells[Next++]); }
  else { mc::op("TransparentQueue(null)"); Q.reset(new Queue(nullptr)); R.push_back(nullptr); }
  agree(*Q, R, "construction");
  for (int D = 0; D < Depth; ++D) {
    std::string C = canon(R) + (Multi ? "m" : "s");
    mc::state(C);
    switch (mc::choose(9)) {
    case 0: // stop and drain
      D = Depth;
      break;
    case 1: {
      int *V = &Cells[Next++ % 3];
      mc::op("push(#%td)", V - Cells);
      Q->push(V); R.push_back(V);
      break;
    }
    case 2:
      mc::op("push(null)");
      Q->push(nullptr); R.push_back(nullptr);
      break;
    case 3: {
      int *V = &Cells[Next++ % 3];
      mc::op("emplace(#%td)", V - Cells);
      Q->emplace(V); R.push_back(V);
      break;
    }
    case 4: {
      mc::op("pop()");
      int *V = Q->pop();
      int *E = R.empty() ? nullptr : R.front();
      if (!R.empty()) R.pop_front();
      MC_CHECK(V == E, "fifo", "pop() returned #%td instead of #%td", V ? V - Cells : -1, E ? E - Cells : -1);
      break;
    }
    case 7:
      if (R.empty()) mc::discard();
      mc::op("emplace(back())");
      // An element of this queue.
      if (R.size() % 2) Q->emplace(Q->back()); else Q->emplace(const_cast<const Queue &>(*Q).back());
      R.push_back(R.back());
      break;
    case 8:
      mc::op("emplace()");
      Q->emplace(); R.push_back(nullptr);
      break;
    case 5:
      if (R.empty()) mc::discard();
      mc::op("front() = #7");
      Q->front() = &Cells[7]; R.front() = &Cells[7];
      break;
    case 6:
      if (R.empty()) mc::discard();
      mc::op("back() = #8");
      Q->back() = &Cells[8]; R.back() = &Cells[8];
      break;
    }
    Multi |= R.size() > 1;
    agree(*Q, R, "an operation");
  }
  mc::outcome(canon(R));
  drain(*Q, R);
  mc::validated();
}

// Long fills and drains: the representation behind the first element.
void bulk() {
  Queue Q; Ref R;
  int Next = 0;
  static const int Sizes[] = {1, 2, 3, 63, 64, 65, 127, 128, 513, 1025};
  for (int Round = 0; Round < mc::bound(2, 3); ++Round) {
    int Fill = Sizes[mc::choose(10)];
    bool Emplace = mc::choose(2);
    mc::op("%d x %s", Fill, Emplace ? "emplace" : "push");
    for (int I = 0; I < Fill; ++I) {
      int *V = &Cells[Next++ % 2000];
      if (Emplace) Q.emplace(V); else Q.push(V);
      R.push_back(V);
      mc::step();
      agree(Q, R, "an insertion");
    }
    int Left[] = {0, 1, 2, Fill / 2};
    size_t Keep = Left[mc::choose(4)];
    mc::op("pop until %zu are left", Keep);
    while (R.size() > Keep) {
      int *E = R.front(); R.pop_front();
      mc::step();
      MC_CHECK(Q.pop() == E, "fifo", "pop() out of order");
      agree(Q, R, "pop");
    }
    mc::state("bulk" + std::to_string(Next) + "/" + std::to_string(R.size()));
  }
  drain(Q, R);
  mc::validated();
}

// All pairs of queues: contents over {null,#0,#1,#2} of at most 3 elements, in
// every representation a history can leave them in.
void compare() {
  auto Make = [](Ref &R, Queue &Q, const char *Name) {
    int Form = mc::choose(3);
    int N = mc::choose(4);
    if (Form == 1) { Q.push(&Cells[9]); Q.push(&Cells[9]); Q.pop(); Q.pop(); } // has grown
    if (Form == 2) { Q.push(&Cells[9]); Q.pop(); }                             // has been drained
    for (int I = 0; I < N; ++I) {
      int V = mc::choose(mc::bound(3, 4));
      int *P = V == 3 ? nullptr : &Cells[V];
      Q.push(P); R.push_back(P);
    }
    mc::note("%s = [%s] form %d", Name, mc::verbose() ? canon(R).c_str() : "", Form);
  };
  Queue A, B; Ref RA, RB;
  Make(RA, A, "A"); Make(RB, B, "B");
  mc::op("compare");
  const Queue &CA = A, &CB = B;
  mc::state(canon(RA) + "|" + canon(RB));
  struct { const char *Op; bool Got, Want; } T[] = {
    {"==", CA == CB, RA == RB}, {"!=", CA != CB, RA != RB}, {"<", CA < CB, RA < RB},
    {">", CA > CB, RA > RB}, {"<=", CA <= CB, RA <= RB}, {">=", CA >= CB, RA >= RB}};
  for (auto &C : T)
    MC_CHECK(C.Got == C.Want, "compare", "A %s B is %d, the sequences of elements say %d", C.Op, (int)C.Got, (int)C.Want);
  agree(A, RA, "comparison"); agree(B, RB, "comparison");
  drain(A, RA); drain(B, RB);
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("histories", histories);
  mc::scenario("bulk", bulk);
  mc::scenario("compare", compare);
}
