// V01: all relocation histories of tracked values.
#include "mc.h"
#include <cassert>
#include <algorithm>
#include <bcl/ValuePtrWrapper.h>
#include <memory>
#include <string>
#include <vector>

namespace {
/// A value that is not trivially movable, and whose moved-from state is visible.
struct Item {
  std::string Name;
  int Extra;
  explicit Item(std::string N, int E = 0) : Name(std::move(N)), Extra(E) {}
  Item(Item &&) = default;
  Item &operator=(Item &&) = default;
};
using W = bcl::ValuePtrWrapper<Item>;
constexpr int Max = 5;

std::string name(int Id) { return "tracked value with a long name #" + std::to_string(Id); }

void agree(std::vector<W> &P, const std::vector<int> &Ids, std::vector<Item *> &Ptr, const char *What) {
  MC_CHECK(P.size() == Ids.size(), "size", "harness");
  for (size_t I = 0; I < P.size(); ++I) {
    int Id = Ids[I];
    Item *Loc = &static_cast<Item &>(P[I]);
    MC_CHECK(Ptr[Id] == Loc, "pointer", "after %s: the pointer of value %d does not point to its location", What, Id);
    MC_CHECK(Ptr[Id]->Name == name(Id) && Ptr[Id]->Extra == Id * 3, "value", "after %s: value %d is %s", What, Id, mc::show(Ptr[Id]->Name).c_str());
    MC_CHECK(&P[I] == Loc && &*P[I] == Loc && P[I].operator->() == Loc, "access", "after %s: accessors of value %d disagree", What, Id);
    const W &C = P[I];
    MC_CHECK(&static_cast<const Item &>(C) == Loc, "access", "after %s: constant access of value %d disagrees", What, Id);
  }
}

void histories() {
  const int Depth = mc::bound(5, 7);
  std::vector<Item *> Ptr(Max + 1, nullptr);
  int Next = 0;
  std::vector<W> P;
  int Reserve = mc::choose(3) * 2;
  if (Reserve) P.reserve(Reserve);
  std::vector<int> Ids;
  std::string H;
  auto add = [&](bool Middle) {
    if (Next >= Max) mc::discard();
    int Id = Next++;
    if (Middle && !P.empty()) {
      size_t At = mc::choose(P.size());
      mc::op("insert value %d before %zu", Id, At);
      P.insert(P.begin() + At, W(Ptr[Id], name(Id), Id * 3));
      Ids.insert(Ids.begin() + At, Id);
    } else {
      mc::op("emplace_back value %d", Id);
      P.emplace_back(Ptr[Id], name(Id), Id * 3);
      Ids.push_back(Id);
    }
  };
  add(false);
  for (int D = 0; D < Depth; ++D) {
    { mc::NoCount NC; H.clear(); for (int I : Ids) H += char('0' + I); mc::state(H + mc::fmt("/%zu", P.capacity()));
      if (mc::seen(H + mc::fmt("/%zu/%d", P.capacity(), Next), Depth - D)) return; }
    const char *What = "";
    switch (mc::choose(9)) {
    case 0: D = Depth; What = "stop"; break;
    case 1: What = "emplace_back"; add(false); break;
    case 2: What = "insert"; add(true); break;
    case 3: {
      if (P.empty()) mc::discard();
      size_t At = mc::choose(P.size()); What = "erase"; mc::op("erase %zu", At);
      P.erase(P.begin() + At); Ids.erase(Ids.begin() + At); break;
    }
    case 4: {
      if (P.size() < 2) mc::discard();
      size_t A = mc::choose(P.size()), B = mc::choose(P.size() - 1); if (B >= A) ++B;
      What = "swap"; mc::op("swap %zu %zu", A, B);
      std::swap(P[A], P[B]); std::swap(Ids[A], Ids[B]); break;
    }
    case 5:
      if (P.size() < 2) mc::discard();
      What = "reverse"; mc::op("reverse");
      std::reverse(P.begin(), P.end()); std::reverse(Ids.begin(), Ids.end()); break;
    case 6: {
      if (P.size() < 2) mc::discard();
      size_t A = 1 + mc::choose(P.size() - 1); What = "rotate"; mc::op("rotate %zu", A);
      std::rotate(P.begin(), P.begin() + A, P.end()); std::rotate(Ids.begin(), Ids.begin() + A, Ids.end()); break;
    }
    case 7: {
      What = "sort"; mc::op("sort descending");
      std::sort(P.begin(), P.end(), [](const W &A, const W &B) { return static_cast<const Item &>(A).Extra > static_cast<const Item &>(B).Extra; });
      std::sort(Ids.begin(), Ids.end(), [](int A, int B) { return A > B; }); break;
    }
    case 8: What = "moving the container"; mc::op("move to another vector"); {
      std::vector<W> Q;
      for (auto &X : P) Q.push_back(std::move(X));
      P = std::move(Q); break;
    }
    }
    agree(P, Ids, Ptr, What);
  }
  { mc::NoCount NC; mc::outcome(H); }
  // Writing through a tracked pointer changes the value in the container.
  for (size_t I = 0; I < P.size(); ++I) {
    Ptr[Ids[I]]->Extra = 77;
    MC_CHECK((*P[I]).Extra == 77, "access", "the pointer does not reach the stored value");
  }
  mc::validated();
}

/// Scalars, single wrappers and replaced values.
void singles() {
  int *A = nullptr, *B = nullptr;
  using WI = bcl::ValuePtrWrapper<int>;
  int VA = mc::choose(3), VB = mc::choose(3);
  WI X(A, VA), Y(B, VB);
  MC_CHECK(A == &static_cast<int &>(X) && *A == VA && *B == VB, "pointer", "construction");
  mc::op("construct %d %d", VA, VB);
  mc::state(mc::fmt("%d %d", VA, VB));
  switch (mc::choose(4)) {
  case 0: { WI Z(std::move(X)); mc::op("move construction"); MC_CHECK(A == &static_cast<int &>(Z) && *A == VA && B == &static_cast<int &>(Y), "pointer", "move construction"); break; }
  case 1: { WI &R = (X = std::move(Y)); mc::op("move assignment"); MC_CHECK(std::addressof(R) == std::addressof(X), "result", "assignment result"); MC_CHECK(B == &static_cast<int &>(X) && *B == VB && (int)X == VB, "pointer", "move assignment"); break; }
  case 2: { WI Z(std::move(X)); X = std::move(Y); Y = std::move(Z); mc::op("exchange"); MC_CHECK(A == &static_cast<int &>(Y) && B == &static_cast<int &>(X) && *A == VA && *B == VB, "pointer", "exchange"); break; }
  case 3: { std::unique_ptr<WI> Z(new WI(std::move(X))); std::unique_ptr<WI> Q(new WI(std::move(*Z))); Z.reset(); mc::op("two moves"); MC_CHECK(A == &static_cast<int &>(*Q) && *A == VA, "pointer", "two moves"); break; }
  }
  mc::validated();
}
/// Many wrappers, moved by the growth of a container and by algorithms.
void many() {
  static const int L[] = {15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 4097, 32769, 65537};
  int C = mc::choose(12 + (int)(sizeof L / sizeof *L)), N = C < 12 ? C : L[C - 12];
  std::vector<Item *> Ptr(N, nullptr);
  std::vector<int> Ids;
  std::vector<W> P;
  for (int I = 0; I < N; ++I) { P.emplace_back(Ptr[I], name(I), I * 3); Ids.push_back(I); }
  mc::op("%d wrappers", N);
  mc::state(mc::fmt("many %d", N));
  agree(P, Ids, Ptr, "construction");
  const char *What = "";
  switch (mc::choose(5)) {
  case 0: What = "reverse"; std::reverse(P.begin(), P.end()); std::reverse(Ids.begin(), Ids.end()); break;
  case 1: What = "rotate"; std::rotate(P.begin(), P.begin() + N / 3, P.end()); std::rotate(Ids.begin(), Ids.begin() + N / 3, Ids.end()); break;
  case 2: What = "sort"; {
    auto Key = [](int E) { return E % 7 * 1000000 - E; };
    std::sort(P.begin(), P.end(), [&](const W &A, const W &B) { return Key(static_cast<const Item &>(A).Extra) < Key(static_cast<const Item &>(B).Extra); });
    std::sort(Ids.begin(), Ids.end(), [&](int A, int B) { return Key(A * 3) < Key(B * 3); }); break; }
  case 3: What = "remove"; {
    auto Odd = [](int E) { return E % 2 != 0; };
    P.erase(std::remove_if(P.begin(), P.end(), [&](const W &A) { return Odd(static_cast<const Item &>(A).Extra / 3); }), P.end());
    Ids.erase(std::remove_if(Ids.begin(), Ids.end(), Odd), Ids.end()); break; }
  case 4: What = "swap of the ends"; for (int I = 0; I < N / 2; ++I) { using std::swap; swap(P[I], P[N - 1 - I]); swap(Ids[I], Ids[N - 1 - I]); } break;
  }
  mc::op("%s", What);
  agree(P, Ids, Ptr, What);
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("many", many);
  mc::scenario("histories", histories);
  mc::scenario("singles", singles);
}
