// D01: all histories of two diagnostic containers, with failing formatting.
#include "mc.h"
#include <cassert>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <bcl/Diagnostic.h>
#include <deque>
#include <string>
#include <vector>

// Formatting is an environment answer: each call may fail while armed.
static int Armed = 0;      // calls until the failing one
static bool Failed = false;
extern "C" int snprintf(char *B, size_t N, const char *F, ...) {
  if (Armed > 0 && --Armed == 0) { Failed = true; errno = EILSEQ; return -1; }
  va_list A; va_start(A, F);
  int R = vsnprintf(B, N, F, A);
  va_end(A);
  return R;
}

namespace {
using D = bcl::Diagnostic;
struct Ref { std::string Kind; std::vector<std::string> Items; size_t Internal = 0; };

void agree(const D &Di, const Ref &R, int I, const char *What) {
  MC_CHECK(R.Kind == Di.getKind(), "kind", "container %d: the kind is %s after %s", I, mc::show(Di.getKind()).c_str(), What);
  MC_CHECK(Di.size() == R.Items.size() && Di.empty() == R.Items.empty(), "size", "container %d: size() is %zu instead of %zu after %s", I, (size_t)Di.size(), R.Items.size(), What);
  MC_CHECK(Di.internal_size() == R.Internal, "internal", "container %d: %zu internal errors instead of %zu after %s", I, (size_t)Di.internal_size(), R.Internal, What);
  std::vector<std::string> F, B, CF, CB, P;
  for (auto *S : Di) F.push_back(S);
  for (auto It = Di.rbegin(); It != Di.rend(); ++It) B.insert(B.begin(), *It);
  for (auto It = Di.cbegin(); It != Di.cend(); It++) CF.push_back(*It);
  for (auto It = Di.crbegin(); !(It == Di.crend()); It++) CB.insert(CB.begin(), *It);
  for (auto It = Di.end(); It != Di.begin();) { auto Old = It--; (void)Old; P.insert(P.begin(), *It); }
  MC_CHECK(F == R.Items && CF == R.Items, "items", "container %d: the diagnostics differ after %s: %s", I, What, F.empty() ? "" : mc::show(F.back()).c_str());
  MC_CHECK(B == R.Items && CB == R.Items && P == R.Items, "reverse", "container %d: the reverse iteration differs after %s", I, What);
}

void histories(int Depth, bool Faults) {
  static const char *Kinds[] = {"error", "", "a warning with a long kind %d %s"};
  int K = mc::choose(3);
  D A(Kinds[K]), B("warning");
  Ref RA{Kinds[K]}, RB{"warning"};
  std::string H;
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(Faults ? 10 : 9);
    if (Op == 0) break;
    bool Second = Op < 6 && mc::choose(2);
    D &X = Second ? B : A; Ref &R = Second ? RB : RA;
    const char *What = "insert";
    bool Ok = true; std::string Text;
    mc::op("operation %d on %d", Op, Second);
    switch (Op) {
    case 1: Ok = X.insert(7, "plain", 0); Text = R.Kind + " C7(0): plain"; break;
    case 2: Ok = X.insert(0, "%s=%d%%", 12345678901234ull, "name", -5); Text = R.Kind + " C0(12345678901234): name=-5%"; break;
    case 3: Ok = X.insert(SIZE_MAX, "", UINTMAX_MAX); Text = R.Kind + " C18446744073709551615(18446744073709551615): "; break;
    case 4: { std::string L(300 + S, 'x'); Ok = X.insert(1, "<%s>%c%zu", 2, L.c_str(), 'c', L.size()); Text = R.Kind + " C1(2): <" + L + ">c" + std::to_string(L.size()); break; }
    case 5: { // a conversion that fails: not a character
      static const wchar_t Bad[] = {(wchar_t)0x7fffffff, 0};
      Ok = X.insert(1, "%ls", 2, Bad); What = "a failing insert";
      MC_CHECK(!Ok, "result", "a failing insert returns true");
      ++R.Internal; break; }
    case 6: What = "clear"; A.clear(); RA.Items.clear(); RA.Internal = 0; break;
    case 7: What = "swap"; A.swap(B); std::swap(RA, RB); break;
    case 8: What = "std::swap"; { using std::swap; swap(A, B); } std::swap(RA, RB); break;
    case 9: {
      Armed = 1 + mc::choose(4); Failed = false;
      Ok = A.insert(4, "%d", 4, 4); Armed = 0;
      if (!Failed) { Text = RA.Kind + " C4(4): 4"; break; }
      What = "a failing insert";
      MC_CHECK(!Ok, "result", "insert returns true though formatting failed");
      ++RA.Internal; break;
    }
    }
    if (!Text.empty()) { MC_CHECK(Ok, "result", "insert returns false"); R.Items.push_back(Text); }
    agree(A, RA, 0, What); agree(B, RB, 1, What);
    { mc::NoCount NC; H += char('a' + Op + (Second ? 10 : 0)); mc::state(std::to_string(K) + H); }
  }
  { mc::NoCount NC; mc::outcome(mc::fmt("%zu %zu %zu %zu", RA.Items.size(), RA.Internal, RB.Items.size(), RB.Internal)); }
  mc::validated();
}

/// Every length of kind and text, every number of digits.
void lengths() {
  static const int Long[] = {2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 1 << 20};
  int N = mc::bound(300, 1100), L = mc::choose(N + (int)(sizeof(Long) / sizeof(*Long))), KL = mc::choose(4) * 21;
  if (L >= N) L = Long[L - N];
  std::string Kind(KL, 'k'), T(L, 't');
  for (int I = 0; I < L; ++I) T[I] = char('a' + I % 26);
  D A(Kind.c_str()); Ref R{Kind};
  uintmax_t P = 1; size_t C = 9;
  mc::op("text of length %d, kind of length %d", L, KL);
  for (int I = 0; I < 20; ++I) {
    MC_CHECK(A.insert(C, "%s", P, T.c_str()), "result", "insert returns false");
    R.Items.push_back(Kind + " C" + std::to_string(C) + "(" + std::to_string(P) + "): " + T);
    P *= 10; C = C * 10 + 9;
    mc::step();
  }
  mc::state(mc::fmt("len %d %d", L, KL));
  agree(A, R, 0, "insertions");
  mc::validated();
}
/// Many diagnostics and many internal errors.
void many() {
  static const int L[] = {63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 32769, 65535, 65536, 65537, 70000};
  int C = mc::choose(40 + (int)(sizeof L / sizeof *L)), N = C < 40 ? C : L[C - 40];
  int Form = mc::choose(3);
  static const wchar_t Bad[] = {(wchar_t)0x7fffffff, 0};
  D A("kind"), B("other"); Ref R{"kind"}, RB{"other"};
  mc::op("%d diagnostics, form %d", N, Form);
  mc::state(mc::fmt("many %d %d", N, Form));
  for (int I = 0; I < N; ++I) {
    bool Fail = Form == 1 || (Form == 2 && I % 3 == 0);
    bool Ok = Fail ? A.insert(I, "%ls", I, Bad) : A.insert(I, "number %d", (uintmax_t)I * 4294967297u, I);
    MC_CHECK(Ok == !Fail, "result", "insert number %d returns %d", I, Ok);
    if (Fail) ++R.Internal; else R.Items.push_back("kind C" + std::to_string(I) + "(" + std::to_string((uintmax_t)I * 4294967297u) + "): number " + std::to_string(I));
  }
  if (N <= 4097) agree(A, R, 0, "insertions");
  A.swap(B); std::swap(R, RB);
  agree(A, R, 0, "swap");
  { // only the iteration, in one direction
    size_t I = 0;
    for (auto *S : B) { MC_CHECK(I < RB.Items.size() && RB.Items[I] == S, "items", "diagnostic %zu of %zu differs", I, RB.Items.size()); ++I; }
    MC_CHECK(I == RB.Items.size() && B.size() == I && B.internal_size() == RB.Internal && B.empty() == !I, "size", "%zu of %zu diagnostics, size() is %zu", I, RB.Items.size(), (size_t)B.size());
  }
  B.clear(); RB.Items.clear(); RB.Internal = 0;
  agree(B, RB, 1, "clear");
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("many", many);
  mc::scenario("histories", [] { histories(mc::bound(4, 5), false); });
  mc::scenario("faults", [] { histories(3, true); });
  mc::scenario("lengths", lengths);
}
