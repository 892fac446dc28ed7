// R01, R02: all histories of redirected descriptors on real files; for R02
// every file operation of the library may fail.
#include "mc.h"
#include <cassert>
#include <bcl/RedirectIO.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <string>
#include <unistd.h>
#include <vector>

namespace {
bool InLib = false;     // the library is running
bool Faults = false;    // its calls may fail
std::set<FILE *> Open;  // streams which it has opened and not closed
struct Fault { std::string Op; int Err; };
std::vector<Fault> Failed; // failures injected in the current call
int Injected = 0;
// Answers which are decided before the call: it may come from a destructor or
// another function which must not throw.
bool DupFails = false, CloseFails = false;

struct Lib {
  Lib(bool Dup = false, bool Close = false) {
    DupFails = Dup && Faults && mc::deviate(2);
    CloseFails = Close && Faults && mc::deviate(2);
    InLib = true;
  }
  ~Lib() { InLib = false; }
};

/// Decides whether a call fails. A call that succeeds may change errno, too.
bool fails(const char *Op, const bool *Decided = nullptr) {
  if (!InLib) return false;
  bool F = false;
  if (Faults) {
    mc::NoCount NC;
    InLib = false;
    F = Decided ? *Decided : mc::deviate(2);
    if (F) { Failed.push_back({Op, Injected++ % 2 ? ENOSPC : EIO}); mc::note("%s fails", Op); }
    InLib = true;
  }
  errno = F ? Failed.back().Err : ENOTTY;
  return F;
}
void use(FILE *F, const char *Op) {
  if (!InLib) return;
  if (!F) { mc::fail("null-stream", "%s is called without a stream", Op); }
  if (!Open.count(F)) { InLib = false; mc::fail("stream-use", "%s is called for a stream which is not open", Op); }
}
template <class F> F *real(F *, const char *N) { return reinterpret_cast<F *>(dlsym(RTLD_NEXT, N)); }
} // namespace

#define REAL(N) static auto *Real = real(&N, #N)
extern "C" {
FILE *fopen(const char *P, const char *M) {
  REAL(fopen);
  if (fails("fopen")) return nullptr;
  FILE *F = Real(P, M);
  if (InLib && F) { mc::NoCount NC; Open.insert(F); }
  return F;
}
int fclose(FILE *F) {
  REAL(fclose);
  use(F, "fclose");
  if (InLib) { mc::NoCount NC; Open.erase(F); }
  bool X = fails("fclose", &CloseFails);
  int Keep = errno, R = Real(F);
  if (X) { errno = Keep; return EOF; }
  return R;
}
int fflush(FILE *F) {
  REAL(fflush);
  use(F, "fflush");
  return fails("fflush") ? EOF : Real(F);
}
long ftell(FILE *F) { REAL(ftell); use(F, "ftell"); return fails("ftell") ? -1 : Real(F); }
off_t ftello(FILE *F) { REAL(ftello); use(F, "ftell"); return fails("ftell") ? -1 : Real(F); }
int fseek(FILE *F, long O, int W) { REAL(fseek); use(F, "fseek"); return fails("fseek") ? -1 : Real(F, O, W); }
int fseeko(FILE *F, off_t O, int W) { REAL(fseeko); use(F, "fseek"); return fails("fseek") ? -1 : Real(F, O, W); }
#define SETERR(F) ((F)->_flags |= 0x20)
// At the end of a stream nothing is read anymore, so nothing can fail.
bool readFails(FILE *F, const char *Op) {
  use(F, Op);
  if (InLib && feof(F)) { errno = ENOTTY; return false; }
  if (!fails(Op)) return false;
  SETERR(F);
  return true;
}
int fgetc(FILE *F) { REAL(fgetc); return readFails(F, "fgetc") ? EOF : Real(F); }
int getc(FILE *F) { REAL(getc); return readFails(F, "fgetc") ? EOF : Real(F); }
int _IO_getc(FILE *F) { return getc(F); }
char *fgets(char *B, int N, FILE *F) { REAL(fgets); return readFails(F, "fgets") ? nullptr : Real(B, N, F); }
size_t fread(void *B, size_t S, size_t N, FILE *F) { REAL(fread); return readFails(F, "fread") ? 0 : Real(B, S, N, F); }
int dup2(int A, int B) noexcept { REAL(dup2); return fails("dup2", &DupFails) ? -1 : Real(A, B); }
}

namespace {
using R = bcl::RedirectIO;
using Mode = R::Mode;
const int From[2] = {200, 201};

/// A redirection and what has to be known about it.
struct Slot {
  R Object;
  bool Active = false; // made with a descriptor
  bool Works = false;  // the redirection has been set up
  int File = -1;       // number of the file
  size_t Start = 0, Mark = 0;
  size_t Errors = 0;
  std::string Name;
};

struct World {
  std::string Path[4];   // two sinks, then two files
  std::string RealPath;
  std::string Text[4];   // what the files must contain
  int Target[2] = {0, 1};// where the descriptors write
  bool Blurred = false;  // a failed operation may have moved the position
  Slot S[2];

  explicit World(bool Real = false) {
    mc::NoCount NC;
    // Files in memory, and a real one where it must not exist before.
    static int Mem[4] = {-1, -1, -1, -1};
    for (int I = 0; I < 4; ++I) {
      if (Mem[I] == -1) { int D = memfd_create("redirect", 0); Mem[I] = fcntl(D, F_DUPFD, 210); close(D); }
      if (ftruncate(Mem[I], 0) || lseek(Mem[I], 0, SEEK_SET)) abort();
      Path[I] = mc::fmt("/proc/self/fd/%d", Mem[I]);
    }
    if (Real) { RealPath = Path[2] = mc::fmt("%s/f%d", mc::tmp().c_str(), (int)getpid()); unlink(RealPath.c_str()); }
    for (int I = 0; I < 2; ++I) ::dup2(Mem[I], From[I]);
    for (int D = 3; D < 64; ++D) Fds[D] = fcntl(D, F_GETFD) != -1;
    Open.clear(); Failed.clear(); Injected = 0;
  }
  ~World() {
    mc::NoCount NC;
    for (int D : From) close(D);
    if (!RealPath.empty()) unlink(RealPath.c_str());
  }
  void put(int F, const std::string &T) {
    mc::NoCount NC;
    int D = open(Path[F].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (write(D, T.data(), T.size()) != (ssize_t)T.size()) abort();
    close(D);
    Text[F] = T;
  }
  std::string get(int F) {
    std::string T; char B[8192]; ssize_t N;
    int D = open(Path[F].c_str(), O_RDONLY);
    if (D < 0) return "";
    while ((N = read(D, B, sizeof B)) > 0) T.append(B, N);
    close(D);
    return T;
  }

  void redirect(Slot &X, int Fd, int File, Mode M, bool Missing = false, int Handle = -2) {
    mc::NoCount NC;
    std::string Name = Missing ? mc::tmp() + "/missing/file" : Path[File];
    bool Exists = access(Name.c_str(), F_OK) == 0;
    std::string Expect; int Err = 0;
    if (Missing || (M == Mode::Read && !Exists)) { Expect = "fopen"; Err = ENOENT; }
    else if (Handle == -1) { Expect = "dup2"; Err = EBADF; }
    Failed.clear();
    X.Active = true; X.File = File; X.Name = Name; X.Errors = 0;
    { Lib L(true, true); X.Object = R(Handle == -2 ? From[Fd] : Handle, Name, M); }
    if (!Expect.empty() && Failed.empty()) Failed.push_back({Expect, Err});
    bool Before = true;
    for (auto &F : Failed) Before &= F.Op == "fopen" || F.Op == "dup2" || F.Op == "fclose";
    X.Works = Failed.empty();
    bool Opened = !Missing && (Exists || M != Mode::Read) && (Failed.empty() || Failed[0].Op != "fopen");
    if (M == Mode::Rewrite && Opened) Text[File].clear();
    if (X.Works || !Before) Target[Fd] = File;
    X.Start = X.Mark = X.Works && M != Mode::Read ? Text[File].size() : 0;
    MC_CHECK(X.Object.fileName() == Name, "name", "fileName() is %s", mc::show(X.Object.fileName()).c_str());
    report(X, "the construction");
    MC_CHECK(X.Works || Open.size() == working(), "stream-leak", "a stream is open after a failed construction");
  }
  size_t working() { return S[0].Works + S[1].Works; }

  /// A text names an operation; functions which read are not told apart.
  static bool names(const std::string &T, const std::string &Op) {
    if (T.find(Op) != T.npos) return true;
    if (Op != "fgetc" && Op != "fgets" && Op != "fread") return false;
    for (auto *N : {"getc", "fgets", "fread"}) if (T.find(N) != T.npos) return true;
    return false;
  }

  /// The failures of the last call are reported, and nothing else is.
  void report(Slot &X, const char *What) {
    MC_CHECK(X.Object.mayRedirected() == X.Active, "active", "mayRedirected() is %d after %s", !X.Active, What);
    if (!X.Active) { MC_CHECK(!X.Object.hasErrors(), "errors", "an inactive object has errors after %s", What); return; }
    auto &E = X.Object.errors();
    size_t New = E.size() - X.Errors;
    std::vector<std::string> Texts;
    for (auto *T : E) Texts.push_back(T);
    Texts.erase(Texts.begin(), Texts.begin() + X.Errors);
    MC_CHECK(E.size() >= X.Errors && E.internal_size() == 0, "errors", "errors got lost in %s", What);
    MC_CHECK(X.Object.hasErrors() == (E.size() > 0), "has-errors", "hasErrors() is %d after %s", X.Object.hasErrors(), What);
    for (auto &F : Failed) {
      bool Found = false;
      for (auto &T : Texts) Found |= T.find(mc::fmt(" C%d(", F.Err)) != T.npos && names(T, F.Op) && T.find(X.Name) != T.npos;
      MC_CHECK(Found, "unreported", "%s does not report that %s failed with %d%s", What, F.Op.c_str(), F.Err, Texts.empty() ? "" : (": " + Texts[0]).c_str());
    }
    MC_CHECK(!Failed.empty() || !X.Works || New == 0, "errors", "%s reports %s though nothing failed", What, New ? Texts[0].c_str() : "");
    X.Errors = E.size();
  }

  void write_(int Fd, const std::string &T) {
    mc::op("write %zu bytes to descriptor %d", T.size(), Fd);
    mc::NoCount NC;
    if (write(From[Fd], T.data(), T.size()) != (ssize_t)T.size()) abort();
    Text[Target[Fd]] += T;
  }
  bool ok() { return Failed.empty(); }
  void isDiff(Slot &X) {
    mc::NoCount NC; Failed.clear();
    bool D; { Lib L; D = X.Object.isDiff(); }
    bool Expect = X.Works && ok() && Text[X.File].size() != X.Mark;
    if (!Blurred || !ok()) MC_CHECK(D == Expect, "isDiff", "isDiff() is %d, the file has %zu bytes and the mark is at %zu", D, X.File < 0 ? 0 : Text[X.File].size(), X.Mark);
    report(X, "isDiff()");
  }
  void diff(Slot &X) {
    mc::NoCount NC; Failed.clear();
    std::string D; { Lib L; D = X.Object.diff(); }
    std::string Expect = X.Works && ok() ? Text[X.File].substr(X.Mark) : "";
    if (!Blurred || !ok()) MC_CHECK(D == Expect, "diff", "diff() returns %zu bytes instead of %zu: %s", D.size(), Expect.size(), mc::show(D.substr(0, 200)).c_str());
    if (Failed.size() > 1) Blurred = true; // the position could not be restored
    report(X, "diff()");
  }
  void mark(Slot &X) {
    mc::NoCount NC; Failed.clear();
    bool B; { Lib L; B = X.Object.setDiffPos(); }
    MC_CHECK(B == (X.Works && ok()), "set-result", "setDiffPos() returns %d", B);
    if (B) X.Mark = Text[X.File].size();
    report(X, "setDiffPos()");
  }
  void reset(Slot &X) {
    Failed.clear();
    { Lib L; X.Object.resetDiffPos(); }
    X.Mark = X.Start;
    report(X, "resetDiffPos()");
  }
  void moveModel(Slot &To, Slot &Fr) {
    To.Active = Fr.Active; To.Works = Fr.Works; To.File = Fr.File; To.Start = Fr.Start; To.Mark = Fr.Mark; To.Errors = Fr.Errors; To.Name = Fr.Name;
    Fr.Active = Fr.Works = false;
  }
  void assign(Slot &To, Slot &Fr, const char *What) {
    mc::NoCount NC; Failed.clear();
    { Lib L(false, true); To.Object = std::move(Fr.Object); }
    if (&To != &Fr) moveModel(To, Fr);
    // A failure to close what was there before has nowhere to go.
    Failed.clear();
    report(To, What); report(Fr, What);
    MC_CHECK(Open.size() == working(), "stream-leak", "%zu streams are open after %s, %zu are in use", Open.size(), What, working());
  }
  void through(Slot &X) {
    mc::NoCount NC; Failed.clear();
    { Lib L(false, true); R T(std::move(X.Object)); MC_CHECK(!X.Object.mayRedirected(), "active", "an object is active after it has been moved"); X.Object.isDiff(); R U; U = std::move(T); X.Object = std::move(U); }
    Failed.clear();
    report(X, "moves");
  }
  void finish(bool Look = true) {
    bool F = Faults; Faults = false; // what comes after the failures is right
    if (Look) for (auto &X : S) { isDiff(X); diff(X); }
    Faults = F;
    for (auto &X : S) { Lib L(false, true); X.Object = R(); X.Works = X.Active = false; }
    MC_CHECK(Open.empty(), "stream-leak", "%zu streams stay open", Open.size());
    for (int I = 0; I < 2; ++I) { mc::NoCount NC; if (write(From[I], "end", 3) != 3) abort(); Text[Target[I]] += "end"; }
    for (int D = 3; D < 64; ++D) MC_CHECK(Fds[D] == (fcntl(D, F_GETFD) != -1), "descriptor-leak", "descriptor %d %s", D, Fds[D] ? "has been closed" : "stays open");
    if (Blurred) return;
    for (int I = 0; I < 4; ++I) {
      mc::NoCount NC;
      std::string T = get(I);
      MC_CHECK(T == Text[I], "content", "file %d has %zu bytes instead of %zu: %s", I, T.size(), Text[I].size(), mc::show(T.substr(0, 200)).c_str());
    }
  }
  static bool Fds[64];
};
bool World::Fds[64];

std::string bytes(int K, int Step) {
  static const int Len[] = {1, 4, 99, 100, 300, 4096, 5000};
  if (K == 0) return std::string(1, char('a' + Step));
  if (K == 1) return std::string("x\0y\n", 4);
  if (K == 2) return std::string(1, '\0');
  std::string T(Len[K - 1], ' ');
  for (size_t I = 0; I < T.size(); ++I) T[I] = I % 70 == 69 ? '\n' : char(I % 251 + Step);
  return T;
}
const char *Pre[] = {nullptr, "", "old text\n"};
void before(World &W, int P) {
  if (P == 3) { std::string T(5000, 'p'); T[17] = 0; T[4095] = '\n'; W.put(2, T); }
  else if (Pre[P]) W.put(2, Pre[P]);
}

/// One redirection, long histories.
void one(int Depth) {
  Mode M = mc::choose(2) ? Mode::Append : Mode::Rewrite;
  int P = mc::choose(4);
  World W(P == 0);
  mc::op("redirect, mode %c, previous content %d", (char)M, P);
  before(W, P);
  Slot &X = W.S[0];
  W.redirect(X, 0, 2, M);
  std::string H = mc::fmt("%d%d", (int)M, P);
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(9);
    if (!Op) break;
    mc::op("operation %d", Op);
    if (Op < 5) W.write_(0, bytes(Op - 1 + (Op > 3), S));
    else if (Op == 5) W.isDiff(X);
    else if (Op == 6) W.diff(X);
    else if (Op == 7) W.mark(X);
    else W.reset(X);
    H += char('0' + Op);
  }
  W.finish();
  mc::NoCount NC;
  mc::state(H); mc::outcome(mc::fmt("%zu %zu", W.Text[2].size(), X.Mark));
  mc::validated();
}

/// Two redirections, which are moved around.
void two(int Depth) {
  World W;
  Mode M = mc::choose(2) ? Mode::Append : Mode::Rewrite;
  before(W, 2);
  mc::op("redirect, mode %c", (char)M);
  W.redirect(W.S[0], 0, 2, M);
  std::string H = mc::fmt("%d", (int)M);
  bool Second = false;
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(17);
    if (!Op) break;
    mc::op("operation %d", Op);
    switch (Op) {
    case 1: W.write_(0, "abc\n"); break;
    case 2: W.write_(1, "de"); break;
    case 3: case 4: W.isDiff(W.S[Op - 3]); break;
    case 5: case 6: W.diff(W.S[Op - 5]); break;
    case 7: case 8: W.mark(W.S[Op - 7]); break;
    case 9: case 10: W.reset(W.S[Op - 9]); break;
    case 11: case 12: // another file for the same or another descriptor
      if (Second) mc::discard();
      Second = true;
      W.redirect(W.S[1], Op - 11, 3, M);
      break;
    case 13: W.assign(W.S[1], W.S[0], "a move assignment"); break;
    case 14: W.assign(W.S[0], W.S[1], "a move assignment"); break;
    case 15: W.through(W.S[0]); break;
    case 16: W.through(W.S[1]); break;
    }
    H += char('A' + Op);
  }
  W.finish();
  mc::NoCount NC;
  mc::state(H); mc::outcome(mc::fmt("%zu %zu %d %d", W.Text[2].size(), W.Text[3].size(), W.Target[0], W.Target[1]));
  mc::validated();
}

/// Every length of what is written and of what was there before.
void lengths() {
  World W;
  Mode M = mc::choose(2) ? Mode::Append : Mode::Rewrite;
  static const int Long[] = {8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 262145, 1048577, 3000000};
  int Big = mc::choose(3), N = Big == 2 ? Long[mc::choose(18)] : mc::choose(mc::bound(420, 1300)) + (Big ? 3900 : 0), Part = mc::choose(3);
  mc::op("mode %c, %d bytes, part %d", (char)M, N, Part);
  std::string T(N, 0);
  for (int I = 0; I < N; ++I) T[I] = char(I * 7 + I / 256);
  if (Part == 1) W.put(2, T);
  Slot &X = W.S[0];
  W.redirect(X, 0, 2, M);
  if (Part != 1) W.write_(0, T);
  if (Part == 2) { W.mark(X); W.write_(0, T); }
  W.isDiff(X); W.diff(X); W.write_(0, "tail"); W.diff(X);
  W.finish();
  mc::NoCount NC;
  mc::state(mc::fmt("len %d %d %d %d", (int)M, Big, N, Part));
  mc::validated();
}

/// Many writes and marks, and repeated redirections of one object.
void many() {
  static const int Ns[] = {10, 33, 128, 129, 255, 256, 257, 300, 1000};
  World W;
  Mode M = mc::choose(2) ? Mode::Append : Mode::Rewrite;
  int N = Ns[mc::choose(9)], Form = mc::choose(3);
  mc::op("mode %c, %d rounds, form %d", (char)M, N, Form);
  Slot &X = W.S[0];
  W.redirect(X, 0, 2, M);
  for (int I = 0; I < N; ++I) {
    W.write_(0, std::string(I % 17, char('a' + I % 26)) + (I % 3 ? "\n" : ""));
    if (Form == 0 || (Form == 1 && I % 5 == 0)) W.mark(X);
    if (Form == 2 || I % 7 == 0) { W.isDiff(X); W.diff(X); }
  }
  W.isDiff(X); W.diff(X);
  W.finish();
  mc::NoCount NC;
  mc::state(mc::fmt("many %d %d %d", (int)M, N, Form));
  mc::validated();
}

/// Histories with failing operations.
void faults(int Depth, int Budget, bool Long = false) {
  static const Mode Ms[] = {Mode::Rewrite, Mode::Append, Mode::Read};
  Mode M = Ms[mc::choose(3)];
  int How = mc::choose(4);
  if (M == Mode::Read && How == 3) mc::discard();
  World W(How == 0);
  mc::budget(Budget);
  Faults = true;
  struct Off { ~Off() { Faults = false; } } O;
  Slot &X = W.S[0];
  mc::op("redirect, mode %c, case %d", (char)M, How);
  if (How == 1) W.put(2, std::string(Long ? 130 : 2, 'q') + '\n');
  W.redirect(X, 0, 2, M, How == 2, How == 3 ? -1 : -2);
  std::string H = mc::fmt("%d%d", (int)M, How);
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(8);
    if (!Op) break;
    mc::op("operation %d", Op);
    if (M == Mode::Read && (Op == 1 || X.Works)) mc::discard();
    switch (Op) {
    case 1: W.write_(0, "abc\n"); break;
    case 2: W.isDiff(X); break;
    case 3: W.diff(X); break;
    case 4: W.mark(X); break;
    case 5: W.reset(X); break;
    case 6: W.through(X); break;
    case 7: W.assign(W.S[1], X, "a move assignment"); W.assign(X, W.S[1], "a move assignment"); break;
    }
    H += char('0' + Op);
    for (auto &F : Failed) H += F.Op;
  }
  if (M == Mode::Read) W.Blurred = true;
  int Before = Injected;
  bool Look = M != Mode::Read || !X.Works;
  W.finish(Look);
  mc::NoCount NC;
  mc::state(H); mc::outcome(mc::fmt("%d %d %zu", Injected, X.Works, X.Errors));
  (void)Before;
  mc::validated();
}

/// Objects without a redirection, and redirections of a moved object's place.
void inactive(int Depth) {
  World W;
  std::string H;
  for (int S = 0; S < Depth; ++S) {
    int Op = mc::choose(10), I = mc::choose(2);
    if (!Op) break;
    mc::op("operation %d on %d", Op, I);
    Slot &X = W.S[I], &Y = W.S[1 - I];
    switch (Op) {
    case 1: W.isDiff(X); break;
    case 2: W.diff(X); break;
    case 3: W.mark(X); break;
    case 4: W.reset(X); break;
    case 5: W.through(X); break;
    case 6: W.assign(X, Y, "a move assignment"); break;
    case 7: W.assign(X, X, "a self-assignment"); break;
    case 8: if (X.Active || (Y.Works && Y.File == 2 + I)) mc::discard(); W.redirect(X, I, 2 + I, Mode::Append); break;
    case 9: W.write_(I, "z"); break;
    }
    H += char('a' + Op * 2 + I);
  }
  W.finish();
  mc::NoCount NC;
  mc::state(H); mc::outcome(mc::fmt("%d %d", W.Target[0], W.Target[1]));
  mc::validated();
}
} // namespace

void mc_register() {
#ifdef R02
  mc::scenario("inactive", [] { inactive(mc::bound(4, 5)); });
  mc::scenario("faults-1", [] { faults(mc::bound(4, 6), 1); });
  mc::scenario("faults-long", [] { faults(mc::bound(2, 4), 1, true); });
  mc::scenario("faults-2", [] { faults(mc::bound(3, 5), 2); });
  if (mc::thorough()) mc::scenario("faults-3", [] { faults(4, 3); });
#else
  mc::scenario("one", [] { one(mc::bound(5, 7)); });
  mc::scenario("two", [] { two(mc::bound(4, 5)); });
  mc::scenario("lengths", lengths);
  mc::scenario("many", many);
#endif
}
