// coop.cpp - see coop.h.
#include "coop.h"
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
}

namespace coop {
std::function<std::string()> describe;
std::function<bool()> create_fails;

namespace {
enum Kind { K_None, K_Mutex, K_Cond, K_Join, K_Custom, K_Futex, K_Sleep };

struct Th {
  int Id = 0;
  std::atomic<int> Go{0};
  pthread_t Real{};
  bool Bound = false, Done = false, Detached = false, Joined = false;
  Kind K = K_None;
  void *Obj = nullptr;
  void *Mx = nullptr;       // K_Cond
  bool Signalled = false, Timed = false, TimedOut = false;
  int FutexVal = 0;
  Th *JoinOf = nullptr;
  const std::function<bool()> *Ready = nullptr;
  uint64_t Since = 0;       // K_Sleep
  const char *What = "";
  uint64_t Hash = 0;
  void *(*Fn)(void *) = nullptr;
  void *Arg = nullptr;
  void *Ret = nullptr;
};

struct MxState { int Owner = -1; int Depth = 0; };

// All of this is never destroyed: pool threads outlive main().
auto &Pool = *new std::vector<Th *>;    // threads of the pool, 0 is the main one
auto &Live = *new std::vector<Th *>;    // threads of this run, by identifier
auto &Mutexes = *new std::map<void *, MxState>;
auto &Objects = *new std::map<const void *, uint64_t>;
bool Active = false, Free = false, Pruned = false;
thread_local Th *Me = nullptr;
uint64_t Steps = 0;
Opt O;
std::exception_ptr Stored;

#define REAL(Name) ((decltype(&::Name))real(#Name))
void *real(const char *Name) {
  void *P = dlsym(RTLD_NEXT, Name);
  if (!P) { fprintf(stderr, "sched: no %s\n", Name); _exit(3); }
  return P;
}

long rawFutex(void *A, int Op, int V) {
  long R;
  register long R10 __asm__("r10") = 0;
  register long R8 __asm__("r8") = 0;
  register long R9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(R) : "a"(SYS_futex), "D"(A), "S"((long)Op), "d"((long)V), "r"(R10), "r"(R8), "r"(R9) : "rcx", "r11", "memory");
  return R;
}
void sleepOn(std::atomic<int> &W) {
  while (W.load(std::memory_order_acquire) == 0) rawFutex(&W, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  W.store(0, std::memory_order_relaxed);
}
void wakeUp(std::atomic<int> &W) {
  W.store(1, std::memory_order_release);
  rawFutex(&W, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

uint64_t mix(uint64_t A, uint64_t B) {
  uint64_t H = A * 0x9E3779B97F4A7C15ull ^ (B + 0x7F4A7C15ull + (A << 6) + (A >> 2));
  H ^= H >> 29; H *= 0xBF58476D1CE4E5B9ull; H ^= H >> 32;
  return H;
}
void touch(const void *Obj, int Op) {
  uint64_t &H = Objects[Obj];
  uint64_t N = mix(mix(Me->Hash, H), Op);
  // Polling: what this thread does depends on the state of all others.
  if (O.polls && !Me->Id)
    for (auto *T : Live) if (T != Me) N = mix(N, T->Hash);
  H = Me->Hash = N;
}

bool enabled(Th *T) {
  if (T->Done) return false;
  switch (T->K) {
  case K_None: return true;
  case K_Mutex: return Mutexes[T->Obj].Owner < 0;
  case K_Cond: return T->Signalled && Mutexes[T->Mx].Owner < 0;
  case K_Join: return T->JoinOf->Done;
  case K_Custom: return (*T->Ready)();
  case K_Futex: return T->Signalled || *(volatile int *)T->Obj != T->FutexVal;
  case K_Sleep: return Steps > T->Since;
  }
  return true;
}

[[noreturn]] void deadlock(const char *Sig, const char *How) {
  std::string S = How;
  for (auto *T : Live)
    if (!T->Done) S += mc::fmt("; thread %d waits: %s", T->Id, T->What);
  if (describe) S += "; " + describe();
  mc::fatal(Sig, "%s", S.c_str());
}

template <class F> int guarded(F Fn) {
  if (Free) return 0;
  try { return Fn(); }
  catch (...) { Stored = std::current_exception(); Free = true; return 0; }
}

/// Selects the thread which goes on. \param SelfAlive false if the current
/// thread has finished.
Th *pick(bool SelfAlive) {
  mc::NoCount NC;
  if (++Steps > (uint64_t)O.max_steps) deadlock("livelock", "the execution does not terminate");
  std::vector<Th *> E;
  bool SelfOn = SelfAlive && enabled(Me);
  if (SelfOn) E.push_back(Me);
  for (auto *T : Live) if (T != Me && enabled(T)) E.push_back(T);
  if (E.empty()) {
    // Time passes: sleeping threads and timed waits go on.
    for (auto *T : Live) {
      if (T->Done) continue;
      if (T->K == K_Sleep) { E.push_back(T); }
      else if (T->K == K_Cond && T->Timed && Mutexes[T->Mx].Owner < 0) { T->TimedOut = true; E.push_back(T); }
      else if (T->K == K_Futex && T->Timed) { T->TimedOut = true; E.push_back(T); }
    }
    if (E.empty()) deadlock("deadlock", "no thread can go on");
    static uint64_t Idle, IdleSteps;
    if (Steps == IdleSteps + 1) { if (++Idle > 2000) deadlock("livelock", "threads only wait for time to pass"); }
    else Idle = 0;
    IdleSteps = Steps;
  }
  if (O.fixed) {
    Th *N = E[0];
    if (O.fixed == 2) N = SelfOn ? Me : E.back();
    if (O.fixed == 3) {
      N = nullptr;
      for (auto *T : E) if (T->Id > Me->Id && (!N || T->Id < N->Id)) N = T;
      if (!N) for (auto *T : E) if (!N || T->Id < N->Id) N = T;
    }
    return N;
  }
  std::vector<Th *> Sp;
  if (O.spurious && !Free && mc::budget_left() > 0)
    for (auto *T : Live)
      if (!T->Done && T->K == K_Cond && !T->Signalled && !T->TimedOut && Mutexes[T->Mx].Owner < 0) Sp.push_back(T);
  if (E.size() + Sp.size() > 1 && !Free) {
    uint64_t H = 0;
    for (auto *T : Live) H += mix(mix(T->Hash, T->Id * 4 + T->Done * 2 + (T == Me)), (uintptr_t)T->K + 16 * T->Signalled + 32 * T->TimedOut);
    std::string S((char *)&H, sizeof H);
    mc::state(S);
    S += SelfOn ? 'a' : 'b';
    if (mc::seen(S, mc::budget_left())) { Pruned = true; Free = true; }
  }
  if (!Sp.empty() && !Free) {
    int K = guarded([&] { return mc::deviate(1 + Sp.size()); });
    if (K) { Sp[K - 1]->Signalled = true; mc::note("thread %d wakes up spuriously", Sp[K - 1]->Id); return Sp[K - 1]; }
  }
  int I = 0;
  if (E.size() > 1)
    I = guarded([&] { return !SelfOn ? mc::choose(E.size()) : O.preempt ? mc::deviate(E.size()) : 0; });
  if (E[I] != Me) mc::note("thread %d %s (%s), thread %d goes on (%s)", Me->Id, SelfAlive ? SelfOn ? "is preempted" : "waits" : "ends", Me->What, E[I]->Id, E[I]->What);
  return E[I];
}

void schedule() {
  Th *N = pick(true);
  if (N != Me) {
    wakeUp(N->Go);
    sleepOn(Me->Go);
  }
}

void enter(Kind K, void *Obj, const char *What) {
  Me->K = K; Me->Obj = Obj; Me->What = What; Me->Signalled = false; Me->TimedOut = false; Me->Timed = false;
}
void leave() { Me->K = K_None; Me->What = "running"; }

void lockMutex(void *M, const char *What) {
  enter(K_Mutex, M, What);
  schedule();
  leave();
  auto &S = Mutexes[M];
  S.Owner = Me->Id; S.Depth = 1;
  touch(M, 1);
  if (__tsan_acquire) __tsan_acquire(M);
}

void finishThread() {
  mc::NoCount NC;
  if (__tsan_release) __tsan_release(Me);
  touch(Me, 9);
  Me->Done = true;
}

void *poolMain(void *P) {
  Me = (Th *)P;
  while (true) {
    sleepOn(Me->Go);
    if (__tsan_acquire) __tsan_acquire(Me);
    Me->Ret = Me->Fn(Me->Arg);
    finishThread();
    Th *N = pick(false);
    wakeUp(N->Go);
  }
}

Th *newThread() {
  // A thread of the pool which is not used in this run.
  for (auto *T : Pool) if (!T->Bound) return T;
  auto *T = new Th;
  Pool.push_back(T);
  if (T != Pool[0]) {
    pthread_attr_t A;
    pthread_attr_init(&A);
    pthread_attr_setstacksize(&A, 1 << 20);
    if (REAL(pthread_create)(&T->Real, &A, poolMain, T)) { fprintf(stderr, "sched: pthread_create\n"); _exit(3); }
    pthread_attr_destroy(&A);
  }
  return T;
}

void bind(Th *T) {
  T->Id = Live.size();
  T->Bound = true;
  T->Done = T->Detached = T->Joined = false;
  T->K = K_None; T->What = "start";
  T->Hash = T->Id + 1;
  Live.push_back(T);
}
} // namespace

bool active() { return Active && Me; }
int self() { return Me ? Me->Id : -1; }
int created() { return Live.size(); }
int alive() { int N = 0; for (auto *T : Live) N += !T->Done; return N; }
bool abandoned() { return Free; }

int choose(int N) {
  mc::NoCount NC;
  int V = N > 1 ? guarded([&] { return mc::choose(N); }) : 0;
  Me->Hash = mix(Me->Hash, 1000 + V);
  return V;
}
int deviate(int N) {
  mc::NoCount NC;
  int V = N > 1 ? guarded([&] { return mc::deviate(N); }) : 0;
  Me->Hash = mix(Me->Hash, 2000 + V);
  return V;
}
void point(const void *Obj, const char *What) {
  mc::NoCount NC;
  mc::step();
  enter(K_None, (void *)Obj, What);
  schedule();
  leave();
  touch(Obj, 2);
}
void wait(const void *Obj, const std::function<bool()> &Ready, const char *What) {
  mc::NoCount NC;
  mc::step();
  enter(K_Custom, (void *)Obj, What);
  Me->Ready = &Ready;
  schedule();
  leave();
  touch(Obj, 3);
}

bool run(const std::function<void()> &Main, Opt Options) {
  {
    mc::NoCount NC;
    O = Options;
    for (auto *T : Pool) T->Bound = false;
    Live.clear(); Mutexes.clear(); Objects.clear();
    Me = newThread();
    bind(Me);
    Me->Hash = mix(mc::path(), 1);
    Steps = 0; Free = Pruned = false; Stored = nullptr;
    mc::budget(O.preemptions);
    Active = true;
  }
  try {
    Main();
  } catch (...) {
    // Failures of the harness itself, in the main thread.
    mc::NoCount NC;
    if (!Stored) Stored = std::current_exception();
    Free = true;
  }
  {
    mc::NoCount NC;
    std::function<bool()> All = [] { for (auto *T : Live) if (T->Id && !T->Done) return false; return true; };
    if (!All()) {
      enter(K_Custom, &Live, "all threads to finish");
      Me->Ready = &All;
      schedule();
      leave();
    }
    for (auto *T : Live) if (T != Me && __tsan_acquire) __tsan_acquire(T);
    Active = false;
    Me = nullptr;
  }
  if (Stored) { auto E = Stored; Stored = nullptr; std::rethrow_exception(E); }
  return !Pruned;
}
} // namespace coop

using namespace coop;

// Interposed functions. Memory of the objects is read, so that a use after
// free is reported by the sanitizer.
#define ON (Active && Me && !mc::internal())
template <class T> static void look(T *P) { volatile char C = *(volatile char *)P; (void)C; }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *M) {
  if (!ON) { static auto *F = REAL(pthread_mutex_lock); return F(M); }
  look(M);
  mc::NoCount NC;
  mc::step();
  auto &S = Mutexes[M];
  if (S.Owner == Me->Id) {
    if ((M->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++S.Depth; return 0; }
    deadlock("deadlock", "a thread locks a mutex which it holds");
  }
  lockMutex(M, "mutex");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *M) {
  if (!ON) { static auto *F = REAL(pthread_mutex_trylock); return F(M); }
  look(M);
  point(M, "trylock");
  mc::NoCount NC;
  auto &S = Mutexes[M];
  if (S.Owner == Me->Id && (M->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++S.Depth; return 0; }
  if (S.Owner >= 0) return EBUSY;
  S.Owner = Me->Id; S.Depth = 1;
  if (__tsan_acquire) __tsan_acquire(M);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *M) {
  if (!ON) { static auto *F = REAL(pthread_mutex_unlock); return F(M); }
  look(M);
  mc::NoCount NC;
  auto I = Mutexes.find(M);
  if (I == Mutexes.end() || I->second.Owner != Me->Id)
    mc::fatal("unlock", "a thread unlocks a mutex which it does not hold");
  if (--I->second.Depth) return 0;
  if (__tsan_release) __tsan_release(M);
  I->second.Owner = -1;
  touch(M, 4);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *M) {
  if (!ON) { static auto *F = REAL(pthread_mutex_destroy); return F(M); }
  mc::NoCount NC;
  Mutexes.erase(M);
  return 0;
}
static int condWait(pthread_cond_t *C, pthread_mutex_t *M, bool Timed) {
  look(C); look(M);
  mc::step();
  point(C, "condition (entry)");
  mc::NoCount NC;
  if (Mutexes[M].Owner != Me->Id) mc::fatal("unlock", "wait for a condition without the mutex");
  if (__tsan_release) __tsan_release(M);
  int Depth = Mutexes[M].Depth;
  Mutexes[M].Owner = -1;
  touch(M, 5);
  enter(K_Cond, C, "condition");
  Me->Mx = M;
  Me->Timed = Timed;
  schedule();
  bool Out = Me->TimedOut && !Me->Signalled;
  leave();
  look(C); look(M);
  Mutexes[M].Owner = Me->Id; Mutexes[M].Depth = Depth;
  touch(M, 6); touch(C, 6);
  if (__tsan_acquire) __tsan_acquire(M);
  return Out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *C, pthread_mutex_t *M) {
  if (!ON) { static auto *F = REAL(pthread_cond_wait); return F(C, M); }
  return condWait(C, M, false);
}
int pthread_cond_timedwait(pthread_cond_t *C, pthread_mutex_t *M, const struct timespec *T) {
  if (!ON) { static auto *F = REAL(pthread_cond_timedwait); return F(C, M, T); }
  return condWait(C, M, true);
}
int pthread_cond_clockwait(pthread_cond_t *C, pthread_mutex_t *M, clockid_t K, const struct timespec *T) {
  if (!ON) { static auto *F = REAL(pthread_cond_clockwait); return F(C, M, K, T); }
  return condWait(C, M, true);
}
static int wakeAll(pthread_cond_t *C, bool All) {
  look(C);
  point(C, All ? "broadcast" : "signal");
  look(C);
  mc::NoCount NC;
  std::vector<Th *> W;
  for (auto *T : Live) if (!T->Done && T->K == K_Cond && T->Obj == C && !T->Signalled) W.push_back(T);
  if (W.empty()) return 0;
  if (All) { for (auto *T : W) T->Signalled = true; return 0; }
  W[W.size() > 1 ? coop::choose(W.size()) : 0]->Signalled = true;
  return 0;
}
int pthread_cond_signal(pthread_cond_t *C) {
  if (!ON) { static auto *F = REAL(pthread_cond_signal); return F(C); }
  return wakeAll(C, false);
}
int pthread_cond_broadcast(pthread_cond_t *C) {
  if (!ON) { static auto *F = REAL(pthread_cond_broadcast); return F(C); }
  return wakeAll(C, true);
}
int pthread_cond_destroy(pthread_cond_t *C) {
  if (!ON) { static auto *F = REAL(pthread_cond_destroy); return F(C); }
  look(C);
  return 0; // Waiters which are left touch freed memory, or wait for ever.
}
int pthread_create(pthread_t *R, const pthread_attr_t *A, void *(*Fn)(void *), void *Arg) {
  if (!ON) { static auto *F = REAL(pthread_create); return F(R, A, Fn, Arg); }
  mc::NoCount NC;
  mc::step();
  if (create_fails && create_fails()) return EAGAIN;
  Th *T = newThread();
  bind(T);
  T->Hash = mix(Me->Hash, 77 + T->Id);
  int D = 0;
  if (A && !pthread_attr_getdetachstate(A, &D) && D == PTHREAD_CREATE_DETACHED) T->Detached = true;
  T->Fn = Fn; T->Arg = Arg;
  *R = T->Real;
  if (__tsan_release) __tsan_release(T);
  touch(T, 8);
  enter(K_None, T, "create");
  schedule();
  leave();
  return 0;
}
static Th *byHandle(pthread_t H) {
  for (auto *T : Live) if (T->Id && pthread_equal(T->Real, H)) return T;
  return nullptr;
}
int pthread_join(pthread_t H, void **Ret) {
  if (!ON) { static auto *F = REAL(pthread_join); return F(H, Ret); }
  mc::NoCount NC;
  mc::step();
  Th *T = byHandle(H);
  if (!T || T->Joined || T->Detached) mc::fatal("join", "join of a thread which cannot be joined");
  if (T == Me) return EDEADLK;
  enter(K_Join, T, "join");
  Me->JoinOf = T;
  schedule();
  leave();
  T->Joined = true;
  touch(T, 7);
  if (__tsan_acquire) __tsan_acquire(T);
  if (Ret) *Ret = T->Ret;
  return 0;
}
int pthread_detach(pthread_t H) {
  if (!ON) { static auto *F = REAL(pthread_detach); return F(H); }
  Th *T = byHandle(H);
  if (!T || T->Joined || T->Detached) mc::fatal("detach", "detach of a thread which is not joinable");
  T->Detached = true;
  return 0;
}
static int sleepFor(const char *What) {
  mc::NoCount NC;
  mc::step();
  enter(K_Sleep, nullptr, What);
  Me->Since = Steps + 1; // The step which selects the next thread is not one.
  schedule();
  leave();
  for (auto *T : Live) if (T != Me) Me->Hash = mix(Me->Hash, T->Hash + 3);
  return 0;
}
int nanosleep(const struct timespec *T, struct timespec *Rem) {
  if (!ON) { static auto *F = REAL(nanosleep); return F(T, Rem); }
  return sleepFor("sleep");
}
int clock_nanosleep(clockid_t C, int Fl, const struct timespec *T, struct timespec *Rem) {
  if (!ON) { static auto *F = REAL(clock_nanosleep); return F(C, Fl, T, Rem); }
  return sleepFor("sleep");
}
int usleep(useconds_t U) {
  if (!ON) { static auto *F = REAL(usleep); return F(U); }
  return sleepFor("sleep");
}
unsigned sleep(unsigned S) {
  if (!ON) { static auto *F = REAL(sleep); return F(S); }
  return sleepFor("sleep");
}
int sched_yield() {
  if (!ON) { static auto *F = REAL(sched_yield); return F(); }
  return sleepFor("yield");
}
// libstdc++ waits for the state of a future with futexes.
long syscall(long N, ...) {
  va_list Ap;
  va_start(Ap, N);
  long A[6];
  for (auto &V : A) V = va_arg(Ap, long);
  va_end(Ap);
  if (ON && N == SYS_futex) {
    int Op = A[1] & 127;
    mc::NoCount NC;
    mc::step();
    if (Op == FUTEX_WAIT || Op == FUTEX_WAIT_BITSET) {
      look((int *)A[0]);
      enter(K_Futex, (void *)A[0], "futex");
      Me->FutexVal = (int)A[2];
      Me->Timed = A[3] != 0;
      schedule();
      bool Out = Me->TimedOut;
      leave();
      touch((void *)A[0], 11);
      if (Out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (Op == FUTEX_WAKE) {
      point((void *)A[0], "futex wake");
      long Woken = 0;
      for (auto *T : Live) if (!T->Done && T->K == K_Futex && T->Obj == (void *)A[0] && !T->Signalled && Woken < A[2]) { T->Signalled = true; ++Woken; }
      return Woken;
    }
  }
  static auto *F = (long (*)(long, ...))real("syscall");
  return F(N, A[0], A[1], A[2], A[3], A[4], A[5]);
}
}
