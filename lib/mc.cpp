// mc.cpp - see mc.h.
#include "mc.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *))
    __attribute__((weak));
// Defaults, so that a failing execution is always reported and never recovers.
const char *__asan_default_options() {
  return "malloc_context_size=4:exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
         "detect_stack_use_after_return=0:strict_string_checks=1:handle_abort=1:"
         "max_allocation_size_mb=4096:alloc_dealloc_mismatch=1:"
         "new_delete_type_mismatch=1:quarantine_size_mb=16";
}
const char *__ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=86";
}
}

namespace mc {
namespace {
constexpr unsigned MaxChoices = 1u << 16;
constexpr unsigned MaxHashes = 1u << 13;

struct Shared {
  std::atomic<uint64_t> ExecStartMs; // 0: between executions
  std::atomic<uint64_t> Execs, Transitions, Validated, Discards, Pruned, Leaks;
  std::atomic<uint64_t> KnownHits;
  uint32_t Scenario;
  uint32_t NChoices;
  uint16_t Choice[MaxChoices];
  int Status; // 0 running, 1 done, 2 violation, 3 divergence / internal error
  char Sig[256];
  char Msg[6144];
  int Capped;
  char KnownSeen[16][512];
  // For executions in a child process of their own.
  int ChildStatus; // 0 none, 1 completed, 2 violation, 3 discard, 4 skip, 5 error
  uint16_t ChildArity[MaxChoices];
  uint8_t ChildDev[MaxChoices];
  uint32_t NChildHashes;
  uint32_t NChildOutcomes;
  uint64_t ChildHash[MaxHashes];
  uint64_t ChildOutcome[64];
};

struct Scen {
  std::string Name;
  std::function<void()> Body;
  Opt O;
};

struct Point {
  uint16_t Value;
  uint16_t Arity;
  bool Dev;
};

std::vector<Scen> &scens() {
  static std::vector<Scen> S;
  return S;
}

bool Thorough = false;
bool Verbose = false;
FILE *LabelOut = nullptr;
std::vector<std::string> *LabelSink = nullptr;
Shared *Sh = nullptr;
int Shard = 0, Shards = 1;
double Deadline = 0;
std::vector<Point> Path;   // current path; [0, Cur) used by this execution
size_t Cur = 0;
size_t PrefixLen = 0;      // choices below are a prefix of the previous execution
size_t Replayed = 0;       // prefix length which has to be replayed
int Budget = 0;
int SplitAt = 2;
bool Replaying = false;    // replay of a recorded sequence: no sharding
bool InChild = false;
std::unordered_set<uint64_t> States, Outcomes;
std::unordered_map<uint64_t, int> Seen;
std::vector<std::string> Known;
struct Skip {};
struct Divergence {};
bool HasLater = false;
std::string LaterSig, LaterMsg;
/// Not a mutex of pthreads: it must not order threads for the race detector.
struct Spin {
  std::atomic_flag F = ATOMIC_FLAG_INIT;
  void lock() { while (F.test_and_set(std::memory_order_acquire)) {} }
  void unlock() { F.clear(std::memory_order_release); }
} Mu;

std::atomic<int64_t> Live{0};
thread_local int NoCountDepth = 0;
bool Hooks = false;

void onMalloc(const volatile void *, size_t) {
  if (!NoCountDepth) Live.fetch_add(1, std::memory_order_relaxed);
}
void onFree(const volatile void *P) {
  if (P && !NoCountDepth) Live.fetch_sub(1, std::memory_order_relaxed);
}

uint64_t nowMs() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(
      std::chrono::steady_clock::now().time_since_epoch()).count() + 1;
}

uint64_t hash64(const std::string &S, uint64_t Seed = 0) {
  uint64_t H = 1469598103934665603ull ^ (Seed * 0x9E3779B97F4A7C15ull);
  for (unsigned char C : S) { H ^= C; H *= 1099511628211ull; }
  H ^= H >> 32; H *= 0xD6E8FEB86659FD93ull; H ^= H >> 32;
  return H;
}

void splitCheck(size_t Limit) {
  if (Replaying || Shards <= 1) return;
  std::string K;
  for (size_t I = 0; I < Limit; ++I) K += std::to_string(Path[I].Value) + ",";
  if ((int)(hash64(K, 77) % Shards) != Shard) throw Skip();
}

int choosePoint(int N, bool Dev) {
  if (N <= 0) { // A harness error.
    fprintf(stderr, "mc: choose(%d)\n", N);
    throw Divergence();
  }
  if (Cur < Path.size()) {
    if (Path[Cur].Arity == 0) Path[Cur].Arity = N; // loaded from a file
    if (Path[Cur].Arity != N || Path[Cur].Value >= N) {
      fprintf(stderr, "mc: divergence at choice %zu: arity %d, recorded %d\n",
              Cur, N, (int)Path[Cur].Arity);
      throw Divergence();
    }
  } else {
    if (Cur >= MaxChoices) { fprintf(stderr, "mc: too many choices\n"); throw Divergence(); }
    if (Replaying && Cur >= Replayed && Replayed) {
      // A replayed sequence may stop at the failure; go on with defaults.
    }
    Path.push_back({0, (uint16_t)N, Dev});
  }
  int V = Path[Cur].Value;
  Path[Cur].Dev = Dev;
  Sh->Choice[Cur] = V;
  if (InChild) { Sh->ChildArity[Cur] = N; Sh->ChildDev[Cur] = Dev; }
  ++Cur;
  Sh->NChoices = Cur;
  if (Cur == (size_t)SplitAt) splitCheck(SplitAt);
  return V;
}
} // namespace

extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char *, int) __attribute__((weak));
}
NoCount::NoCount() {
  ++NoCountDepth;
  if (AnnotateIgnoreReadsBegin) {
    AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
    AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
  }
}
NoCount::~NoCount() {
  if (AnnotateIgnoreReadsEnd) {
    AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
    AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
  }
  --NoCountDepth;
}

void scenario(const char *Name, std::function<void()> Body, Opt O) {
  scens().push_back({Name, std::move(Body), O});
}
std::string gTmp = "/tmp";
const std::string &tmp() { return gTmp; }
bool thorough() { return Thorough; }
bool verbose() { return Verbose; }
int64_t live_blocks() { return Live.load(); }

int choose(int N) { NoCount NC; return choosePoint(N, false); }
int deviate(int N) {
  NoCount NC;
  if (Budget <= 0) return 0;
  int V = choosePoint(N, true);
  if (V) --Budget;
  return V;
}
void budget(int N) { Budget = N; }
int budget_left() { return Budget; }

static void label(char Kind, const char *Fmt, va_list Ap) {
  char Buf[2048];
  vsnprintf(Buf, sizeof Buf, Fmt, Ap);
  std::lock_guard<Spin> L(Mu);
  if (LabelOut) { fprintf(LabelOut, "  %c %s\n", Kind, Buf); fflush(LabelOut); }
  if (LabelSink) LabelSink->push_back(Buf);
}
void op(const char *Fmt, ...) {
  Sh->Transitions.fetch_add(1, std::memory_order_relaxed);
  if (!Verbose) return;
  NoCount NC;
  va_list Ap; va_start(Ap, Fmt); label('>', Fmt, Ap); va_end(Ap);
}
void note(const char *Fmt, ...) {
  if (!Verbose) return;
  NoCount NC;
  va_list Ap; va_start(Ap, Fmt); label('-', Fmt, Ap); va_end(Ap);
}
void step(uint64_t N) { Sh->Transitions.fetch_add(N, std::memory_order_relaxed); }
void state(const std::string &C) {
  NoCount NC;
  std::lock_guard<Spin> L(Mu);
  uint64_t H = hash64(C, Sh->Scenario + 1);
  States.insert(H);
}
bool seen(const std::string &C, int Remaining) {
  NoCount NC;
  // A replayed prefix has been checked when it was new.
  if (Replaying || Cur < (size_t)SplitAt || Cur < PrefixLen) return false;
  uint64_t H = hash64(C, Sh->Scenario + 1001);
  auto I = Seen.find(H);
  if (I != Seen.end()) {
    if (I->second >= Remaining) { Sh->Pruned.fetch_add(1); return true; }
    I->second = Remaining;
    return false;
  }
  Seen.emplace(H, Remaining);
  return false;
}
uint64_t path() {
  uint64_t H = 7;
  for (size_t I = 0; I < Cur; ++I) H = (H ^ Path[I].Value) * 0x9E3779B97F4A7C15ull, H ^= H >> 31;
  return H;
}
bool fresh() { return Replaying || Cur >= PrefixLen; }
void outcome(const std::string &O) {
  NoCount NC;
  std::lock_guard<Spin> L(Mu);
  if (Outcomes.size() < 1000000) Outcomes.insert(hash64(O, Sh->Scenario + 1));
}
void validated(uint64_t N) { Sh->Validated.fetch_add(N, std::memory_order_relaxed); }
void discard() { throw Discard(); }

static void setMsg(const char *Sig, const char *Msg) {
  snprintf(Sh->Sig, sizeof Sh->Sig, "%s", Sig);
  snprintf(Sh->Msg, sizeof Sh->Msg, "%s", Msg);
}
void fail(const char *Sig, const char *Fmt, ...) {
  {
    NoCount NC;
    char Buf[6144];
    va_list Ap; va_start(Ap, Fmt); vsnprintf(Buf, sizeof Buf, Fmt, Ap); va_end(Ap);
    setMsg(Sig, Buf);
    if (Verbose && LabelOut) { fprintf(LabelOut, "  ! %s\n", Buf); fflush(LabelOut); }
  }
  throw Violation();
}
void fail_later(const char *Sig, const char *Fmt, ...) {
  NoCount NC;
  std::lock_guard<Spin> L(Mu);
  if (HasLater) return;
  char Buf[6144];
  va_list Ap; va_start(Ap, Fmt); vsnprintf(Buf, sizeof Buf, Fmt, Ap); va_end(Ap);
  HasLater = true;
  LaterSig = Sig;
  LaterMsg = Buf;
  if (Verbose && LabelOut) { fprintf(LabelOut, "  ! %s\n", Buf); fflush(LabelOut); }
}
bool failed() { return HasLater; }
bool internal() { return NoCountDepth > 0; }
void fatal(const char *Sig, const char *Fmt, ...) {
  NoCount NC;
  char Buf[6144];
  va_list Ap; va_start(Ap, Fmt); vsnprintf(Buf, sizeof Buf, Fmt, Ap); va_end(Ap);
  setMsg(Sig, Buf);
  if (Verbose && LabelOut) { fprintf(LabelOut, "  ! %s\n", Buf); fflush(LabelOut); }
  Sh->Status = 2;
  _exit(85);
}

std::string show(const std::string &S) {
  std::string R = "\"";
  for (unsigned char C : S) {
    char B[8];
    if (C == '\\' || C == '"') { R += '\\'; R += C; }
    else if (C == '\n') R += "\\n";
    else if (C == '\t') R += "\\t";
    else if (C == '\r') R += "\\r";
    else if (C < 32 || C >= 127) { snprintf(B, sizeof B, "\\x%02x", C); R += B; }
    else R += C;
  }
  return R + "\"";
}
std::string fmt(const char *Fmt, ...) {
  char Buf[8192];
  va_list Ap; va_start(Ap, Fmt); vsnprintf(Buf, sizeof Buf, Fmt, Ap); va_end(Ap);
  return Buf;
}

namespace {
enum Result { R_Ok, R_Violation, R_Discard, R_Skip, R_Error };

Result runBody(Scen &S) {
  Cur = 0; Budget = 0; HasLater = false;
  PrefixLen = Path.size();
  SplitAt = S.O.split;
  Sh->NChoices = 0;
  Result R = R_Ok;
  try {
    S.Body();
    if (Cur < (size_t)SplitAt) splitCheck(Cur);
  } catch (Violation &) { R = R_Violation; }
  catch (Discard &) { R = R_Discard; }
  catch (Skip &) { R = R_Skip; }
  catch (Divergence &) { R = R_Error; }
  catch (std::exception &E) {
    setMsg("exception", (std::string("unexpected exception escaped: ") + E.what()).c_str());
    R = R_Violation;
  }
  if (R != R_Skip && HasLater) {
    NoCount NC;
    setMsg(LaterSig.c_str(), LaterMsg.c_str());
    LaterSig.clear(); LaterMsg.clear();
    R = R_Violation;
  }
  return R;
}

Result runInChild(Scen &S) {
  Sh->ChildStatus = 0; Sh->NChildHashes = 0; Sh->NChildOutcomes = 0;
  fflush(nullptr);
  pid_t P = fork();
  if (P < 0) { perror("fork"); return R_Error; }
  if (P == 0) {
    InChild = true;
    States.clear(); Outcomes.clear();
    Result R = runBody(S);
    uint32_t N = 0;
    for (auto H : States) if (N < MaxHashes) Sh->ChildHash[N++] = H;
    Sh->NChildHashes = N;
    N = 0;
    for (auto H : Outcomes) if (N < 64) Sh->ChildOutcome[N++] = H;
    Sh->NChildOutcomes = N;
    Sh->ChildStatus = 1 + (int)R;
    fflush(nullptr);
    _exit(0);
  }
  int St;
  auto T0 = nowMs();
  while (true) {
    pid_t W = waitpid(P, &St, WNOHANG);
    if (W == P) break;
    if (W < 0) return R_Error;
    if (nowMs() - T0 > S.O.exec_limit * 1000) {
      kill(P, SIGKILL);
      waitpid(P, &St, 0);
      setMsg("hang", "the execution does not terminate");
      Sh->ChildStatus = 1 + R_Violation;
      St = 0;
      break;
    }
    struct timespec Ts = {0, 200000};
    nanosleep(&Ts, nullptr);
  }
  for (uint32_t I = Path.size(); I < Sh->NChoices; ++I)
    Path.push_back({Sh->Choice[I], Sh->ChildArity[I], (bool)Sh->ChildDev[I]});
  Cur = Sh->NChoices;
  for (uint32_t I = 0; I < Sh->NChildHashes; ++I) States.insert(Sh->ChildHash[I]);
  for (uint32_t I = 0; I < Sh->NChildOutcomes; ++I) Outcomes.insert(Sh->ChildOutcome[I]);
  if (Sh->ChildStatus == 0) {
    char B[160];
    if (WIFSIGNALED(St)) snprintf(B, sizeof B, "the execution was ended by signal %d", WTERMSIG(St));
    else snprintf(B, sizeof B, "the execution ended with exit status %d (sanitizer report or exit)", WEXITSTATUS(St));
    setMsg("crash", B);
    return R_Violation;
  }
  return (Result)(Sh->ChildStatus - 1);
}

Result execute(Scen &S) {
  Sh->ExecStartMs = nowMs();
  Result R = S.O.fork_each ? runInChild(S) : runBody(S);
  Sh->ExecStartMs = 0;
  return R;
}

/// Runs one execution and checks that it does not leak.
Result executeChecked(Scen &S) {
  int64_t Before = Live.load();
  Result R = execute(S);
  if (R != R_Ok || !S.O.leaks || !Hooks || S.O.fork_each) return R;
  int64_t D = Live.load() - Before;
  if (D <= 0) return R;
  // Possibly a lazily allocated buffer: do it again, twice.
  for (int K = 0; K < 2; ++K) {
    Path.resize(Cur);
    Before = Live.load();
    R = execute(S);
    D = Live.load() - Before;
    if (R != R_Ok || D <= 0) return R;
  }
  NoCount NC;
  setMsg("leak", fmt("the execution leaks %lld heap block(s)", (long long)D).c_str());
  Sh->Leaks.fetch_add(1);
  return R_Violation;
}

bool isKnown(const char *Sig) {
  for (auto &K : Known) if (K == Sig) return true;
  return false;
}

void writeHashes(const std::string &F) {
  std::ofstream O(F, std::ios::binary);
  uint64_t N = States.size();
  O.write((char *)&N, 8);
  for (auto H : States) O.write((char *)&H, 8);
  N = Outcomes.size();
  O.write((char *)&N, 8);
  for (auto H : Outcomes) O.write((char *)&H, 8);
}

/// \return exit code of a worker.
int workerMain(const std::string &Tmp, const std::vector<int> &Which) {
  for (int SI : Which) {
    auto &S = scens()[SI];
    Sh->Scenario = SI;
    Path.clear(); Seen.clear();
    while (true) {
      if (Deadline && nowMs() > Deadline) { Sh->Capped = 1; break; }
      Result R = executeChecked(S);
      if (R == R_Error) { Sh->Status = 3; writeHashes(Tmp); return 3; }
      if (R == R_Violation) {
        NoCount NC;
        if (isKnown(Sh->Sig)) {
          Sh->KnownHits.fetch_add(1);
          for (auto &K : Sh->KnownSeen) {
            if (!strncmp(K, Sh->Sig, strlen(Sh->Sig)) && K[strlen(Sh->Sig)] == '\t') break;
            if (!K[0]) { snprintf(K, sizeof K, "%s\t%.240s", Sh->Sig, Sh->Msg); break; }
          }
          Sh->Execs.fetch_add(1);
        } else {
          Sh->Status = 2;
          writeHashes(Tmp);
          return 2;
        }
      } else if (R == R_Ok) Sh->Execs.fetch_add(1);
      else if (R == R_Discard) Sh->Discards.fetch_add(1);
      NoCount NC;
      Path.resize(Cur);
      while (!Path.empty() && Path.back().Value + 1 >= Path.back().Arity) Path.pop_back();
      if (Path.empty()) break;
      ++Path.back().Value;
    }
    if (Sh->Capped) break;
  }
  writeHashes(Tmp);
  Sh->Status = 1;
  return 0;
}

std::string slurp(const std::string &F, size_t Max = 20000) {
  std::ifstream I(F, std::ios::binary);
  std::stringstream SS; SS << I.rdbuf();
  std::string R = SS.str();
  if (R.size() > Max) R = R.substr(0, Max) + "\n...[cut]\n";
  return R;
}

/// Runs one recorded sequence in a child of its own.
/// \return 0 held, 1 violated, 2 error. The transcript is placed to Out.
int replayOne(int SI, const std::vector<uint16_t> &Choices, double Limit,
              const std::string &OutFile, std::string &Msg, std::string &Sig) {
  memset((void *)Sh->Sig, 0, sizeof Sh->Sig);
  memset((void *)Sh->Msg, 0, sizeof Sh->Msg);
  Sh->Status = 0;
  fflush(nullptr);
  pid_t P = fork();
  if (P == 0) {
    int Fd = open(OutFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(Fd, 1); dup2(Fd, 2);
    Verbose = true; LabelOut = fdopen(dup(Fd), "w");
    Replaying = true; Shards = 1; Shard = 0;
    Path.clear();
    for (auto C : Choices) Path.push_back({C, 0, false});
    Replayed = Choices.size();
    Sh->Scenario = SI;
    auto S = scens()[SI];
    bool Fork = S.O.fork_each;
    S.O.fork_each = false;
    Result R;
    if (Fork) { S.O.leaks = false; R = runBody(S); }
    else R = executeChecked(S);
    Sh->Status = R == R_Violation ? 2 : R == R_Error ? 3 : 1;
    fflush(nullptr);
    _exit(0);
  }
  int St = 0;
  auto T0 = nowMs();
  while (true) {
    pid_t W = waitpid(P, &St, WNOHANG);
    if (W == P) break;
    if (nowMs() - T0 > Limit * 1000) {
      kill(P, SIGKILL); waitpid(P, &St, 0);
      Sig = "hang"; Msg = "the execution does not terminate";
      return 1;
    }
    usleep(2000);
  }
  if (WIFSIGNALED(St)) { Sig = "crash"; Msg = fmt("ended by signal %d", WTERMSIG(St)); return 1; }
  if (Sh->Status == 0) { Sig = "crash"; Msg = fmt("ended with exit status %d (sanitizer report)", WEXITSTATUS(St)); return 1; }
  if (Sh->Status == 2) { Sig = Sh->Sig; Msg = Sh->Msg; return 1; }
  if (Sh->Status == 3) { Sig = "divergence"; Msg = "diverged"; return 2; }
  return 0;
}

std::string jsonStr(const std::string &S) {
  std::string R = "\"";
  for (unsigned char C : S) {
    char B[8];
    if (C == '"' || C == '\\') { R += '\\'; R += C; }
    else if (C < 32 || C >= 127) { snprintf(B, sizeof B, "\\u%04x", C); R += B; }
    else R += C;
  }
  return R + "\"";
}
} // namespace
} // namespace mc

using namespace mc;

int main(int Argc, char **Argv) {
  std::string Out, Property = "P00", ReplayDir = ".", ReplayFile, Only, Tmp = "/tmp";
  int Jobs = 8; double Cap = 0;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I];
    auto Next = [&] { return I + 1 < Argc ? std::string(Argv[++I]) : std::string(); };
    if (A == "--thorough") Thorough = true;
    else if (A == "--jobs") Jobs = atoi(Next().c_str());
    else if (A == "--out") Out = Next();
    else if (A == "--property") Property = Next();
    else if (A == "--replay-dir") ReplayDir = Next();
    else if (A == "--replay") ReplayFile = Next();
    else if (A == "--only") Only = Next();
    else if (A == "--tmp") gTmp = Tmp = Next();
    else if (A == "--cap") Cap = atof(Next().c_str());
    else if (A == "--known") Known.push_back(Next());
    else { fprintf(stderr, "unknown option %s\n", A.c_str()); return 2; }
  }
  signal(SIGPIPE, SIG_DFL);
  mc_register();
  if (__sanitizer_install_malloc_and_free_hooks)
    Hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) > 0;
  auto T0 = nowMs();
  auto *Reg = (Shared *)mmap(nullptr, sizeof(Shared) * (Jobs + 1),
      PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (Reg == MAP_FAILED) { perror("mmap"); return 2; }
  Sh = &Reg[Jobs];

  if (!ReplayFile.empty()) {
    std::ifstream I(ReplayFile);
    std::string L, Name; std::vector<uint16_t> C;
    while (std::getline(I, L)) {
      if (L.rfind("scenario: ", 0) == 0) Name = L.substr(10);
      else if (L == "tier: thorough") Thorough = true;
      else if (L.rfind("choices:", 0) == 0) {
        std::stringstream SS(L.substr(8)); int V;
        while (SS >> V) C.push_back(V);
      }
    }
    scens().clear(); mc_register();
    for (size_t SI = 0; SI < scens().size(); ++SI)
      if (scens()[SI].Name == Name) {
        std::string Msg, Sig, F = Tmp + "/replay.out";
        int R = replayOne(SI, C, scens()[SI].O.exec_limit * 2, F, Msg, Sig);
        printf("%s", slurp(F, 1000000).c_str());
        if (R == 1) printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", Property.c_str(), ReplayFile.c_str(), Sig.c_str(), Msg.c_str());
        else printf("replay: %s\n", R ? "error" : "the property held");
        return R;
      }
    fprintf(stderr, "no such scenario: %s\n", Name.c_str());
    return 2;
  }

  std::vector<int> Which;
  for (size_t I = 0; I < scens().size(); ++I)
    if (Only.empty() || scens()[I].Name.find(Only) != std::string::npos) Which.push_back(I);
  if (Which.empty()) { fprintf(stderr, "no scenario\n"); return 2; }

  if (Cap > 0) Deadline = nowMs() + Cap * 1000;
  std::vector<pid_t> Pid(Jobs, -1);
  std::vector<std::string> Log(Jobs), Bin(Jobs);
  fflush(nullptr);
  for (int J = 0; J < Jobs; ++J) {
    Log[J] = Tmp + "/worker" + std::to_string(J) + ".log";
    Bin[J] = Tmp + "/worker" + std::to_string(J) + ".bin";
    Pid[J] = fork();
    if (Pid[J] == 0) {
      Sh = &Reg[J]; Shard = J; Shards = Jobs;
      int Fd = open(Log[J].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(Fd, 1); dup2(Fd, 2);
      _exit(workerMain(Bin[J], Which));
    }
  }
  int Failed = -1; std::string FailWhy; bool Hang = false;
  int Left = Jobs;
  while (Left > 0) {
    int St;
    pid_t P = waitpid(-1, &St, WNOHANG);
    if (P > 0) {
      for (int J = 0; J < Jobs; ++J) if (Pid[J] == P) {
        Pid[J] = -1; --Left;
        if (Reg[J].Status != 1 && Failed < 0) {
          Failed = J;
          if (Reg[J].Status == 0)
            FailWhy = WIFSIGNALED(St) ? fmt("crash: signal %d", WTERMSIG(St))
                                      : fmt("crash: exit status %d", WEXITSTATUS(St));
        }
      }
      if (Failed >= 0) break;
      continue;
    }
    auto Now = nowMs();
    for (int J = 0; J < Jobs; ++J) if (Pid[J] > 0) {
      uint64_t S = Reg[J].ExecStartMs;
      double Lim = scens()[Reg[J].Scenario].O.exec_limit;
      if (scens()[Reg[J].Scenario].O.fork_each) Lim = Lim * 2 + 30;
      if (S && Now > S && Now - S > Lim * 1000 && Failed < 0) {
        Failed = J; Hang = true; FailWhy = "hang";
      }
    }
    if (Failed >= 0) break;
    usleep(5000);
  }
  if (Failed >= 0)
    for (int J = 0; J < Jobs; ++J) if (Pid[J] > 0) { kill(Pid[J], SIGKILL); waitpid(Pid[J], nullptr, 0); }
  (void)Hang;

  int Exit = 0;
  std::string Where;
  if (Failed >= 0) {
    auto &R = Reg[Failed];
    if (R.Status == 3) {
      fprintf(stderr, "internal error (divergence) in %s\n%s\n", scens()[R.Scenario].Name.c_str(), slurp(Log[Failed]).c_str());
      Exit = 2;
    } else {
      int SI = R.Scenario;
      std::vector<uint16_t> C(R.Choice, R.Choice + R.NChoices);
      std::string WMsg = R.Status == 2 ? std::string(R.Msg) : FailWhy, WSig = R.Status == 2 ? R.Sig : "crash";
      // Replay before the report, twice.
      std::string M1, S1, M2, S2, F = Tmp + "/replay.out";
      double Lim = scens()[SI].O.exec_limit * 2;
      int A = replayOne(SI, C, Lim, F, M1, S1);
      std::string Tr = slurp(F);
      int B = replayOne(SI, C, Lim, F, M2, S2);
      if (R.Status == 0 && FailWhy == "hang" && A == 0 && B == 0) {
        // Slow, not hanging: report it as an error of the check.
        fprintf(stderr, "an execution of %s was slow, but ends\n", scens()[SI].Name.c_str());
        Exit = 2;
      } else {
        mkdir(ReplayDir.c_str(), 0755);
        Where = ReplayDir + "/" + Property + "-" + scens()[SI].Name + ".replay";
        std::ofstream O(Where);
        O << "property: " << Property << "\nscenario: " << scens()[SI].Name << "\ntier: " << (Thorough ? "thorough" : "quick") << "\nchoices:";
        for (auto V : C) O << ' ' << V;
        O << "\nsignature: " << (A == 1 ? S1 : WSig) << "\nmessage: " << (A == 1 ? M1 : WMsg) << "\n";
        O << "reproduced: " << (A == 1) + (B == 1) << " of 2 isolated replays (deterministic=" << (A == B && M1 == M2) << ")\n";
        O << "transcript:\n" << Tr << "\n";
        if (A != 1) O << "worker log:\n" << slurp(Log[Failed]) << "\n";
        printf("%s: [%s] %s\n", scens()[SI].Name.c_str(), (A == 1 ? S1 : WSig).c_str(), (A == 1 ? M1 : WMsg).c_str());
        printf("%s\n", Tr.substr(0, 6000).c_str());
        if (A != 1) printf("%s\n", slurp(Log[Failed]).substr(0, 6000).c_str());
        printf("VIOLATION property=%s replay=%s\n", Property.c_str(), Where.c_str());
        Exit = 1;
      }
    }
  }

  // Collect.
  std::unordered_set<uint64_t> AS, AO;
  uint64_t Ex = 0, Tr = 0, Va = 0, Di = 0, Pr = 0, KH = 0; bool Capped = false;
  for (int J = 0; J < Jobs; ++J) {
    auto &R = Reg[J];
    Ex += R.Execs; Tr += R.Transitions; Va += R.Validated; Di += R.Discards; Pr += R.Pruned; KH += R.KnownHits;
    Capped |= R.Capped;
    std::ifstream I(Bin[J], std::ios::binary);
    for (auto *Set : {&AS, &AO}) {
      uint64_t N = 0, H;
      if (!I.read((char *)&N, 8)) break;
      for (uint64_t K = 0; K < N && I.read((char *)&H, 8); ++K) Set->insert(H);
    }
  }
  std::unordered_set<std::string> KS;
  for (int J = 0; J < Jobs; ++J)
    for (auto &K : Reg[J].KnownSeen) if (K[0]) KS.insert(K);
  for (auto &K : KS) {
    auto T = K.find('\t');
    printf("KNOWN-FINDING: property=%s %s: %s\n", Property.c_str(), K.substr(0, T).c_str(), K.substr(T + 1).c_str());
  }

  // Samples: the lexicographically first executions and a deep one per scenario.
  std::vector<std::string> Samples;
  if (Exit == 0)
    for (int SI : Which) {
      if (Samples.size() >= 24) break;
      std::string M, S, F = Tmp + "/sample.out";
      replayOne(SI, {}, scens()[SI].O.exec_limit * 2, F, M, S);
      std::string T = slurp(F, 700);
      for (auto &Ch : T) if (Ch == '\n') Ch = ';';
      Samples.push_back(scens()[SI].Name + ":" + T);
    }
  double Wall = (nowMs() - T0) / 1000.0;
  if (!Out.empty()) {
    std::ofstream O(Out);
    O << "{\"executions\":" << Ex << ",\"transitions\":" << Tr << ",\"validated\":" << Va
      << ",\"states\":" << AS.size() << ",\"outcomes\":" << AO.size() << ",\"discards\":" << Di
      << ",\"pruned\":" << Pr << ",\"known_hits\":" << KH << ",\"capped\":" << (Capped ? "true" : "false")
      << ",\"wall_s\":" << Wall << ",\"scenarios\":[";
    bool First = true;
    for (int SI : Which) { O << (First ? "" : ",") << jsonStr(scens()[SI].Name); First = false; }
    O << "],\"samples\":[";
    First = true;
    for (auto &S : Samples) { O << (First ? "" : ",") << jsonStr(S); First = false; }
    O << "],\"violations\":" << (Exit == 1 ? 1 : 0) << "}\n";
  }
  printf("%s: scenarios=%zu executions=%llu transitions=%llu states=%zu outcomes=%zu pruned=%llu%s wall=%.1fs\n",
         Property.c_str(), Which.size(), (unsigned long long)Ex, (unsigned long long)Tr, AS.size(), AO.size(),
         (unsigned long long)Pr, Capped ? " CAPPED" : "", Wall);
  return Exit;
}
