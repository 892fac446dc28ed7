// I01, I02: IntrusiveConnection under every schedule of the socket thread and
// the server thread. The socket thread is the first thread: it delivers
// messages and closes the socket. The server thread runs a program of
// operations on its connection. What has to happen does not depend on the
// schedule at all, so the complete sequence of observable events is compared.
#include "coop.h"
#include <bcl/IntrusiveConnection.h>
#include <memory>
using bcl::IntrusiveConnection;
using coop::run;

namespace {
struct Sock : bcl::Socket<std::string> {
  int Id;
  std::vector<std::string> *Log;
  mutable std::vector<ReceiveCallback> R;
  mutable std::vector<ClosedCallback> C;
  Sock(int Id, std::vector<std::string> *Log) : Id(Id), Log(Log) {}
  void send(const std::string &M) const override {
    coop::point(this, "send");
    mc::NoCount NC;
    Log->push_back(mc::fmt("%d sends ", Id) + mc::show(M));
    mc::op("%s", Log->back().c_str());
  }
  void receive(const ReceiveCallback &F) const override { R.push_back(F); }
  void closed(const ClosedCallback &F) const override { C.push_back(F); }
  void deliver(const std::string &M) const {
    mc::op("socket %d receives %s", Id, mc::show(M).c_str());
    for (auto &F : R) F(M);
  }
  void close(bool Ok) const {
    mc::op("socket %d is closed", Id);
    for (auto &F : C) F(Ok);
  }
};

std::string response(int Id, int N, const std::string &R, int Kind) {
  if (Kind == 0) return R + mc::fmt("!%d.%d", Id, N);
  if (Kind == 1) return "";
  if (Kind == 2) return "REJECT";
  return std::string("x$\0y\n", 5);
}

/// Requests of a message, by the documentation.
std::vector<std::string> split(const std::string &M, char D) {
  std::vector<std::string> V;
  std::string Cur;
  for (char C : M) {
    if (C == D) { V.push_back(Cur); Cur.clear(); }
    else Cur += C;
  }
  if (!Cur.empty()) V.push_back(Cur);
  return V;
}

struct Plan {
  char D;
  std::vector<std::string> Msgs;
  std::string Prog; // of the server
  int Kind;
};

struct Failure {};

/// The server. \param Next counts requests.
struct Server {
  const Plan *P;
  std::vector<std::string> *Log;
  int Id, Total;
  int Next = 0;

  bool answer(IntrusiveConnection &C, bool Throw = false) {
    bool Called = false;
    bool Ok = C.answer([&](const std::string &R) {
      mc::NoCount NC;
      if (Called) mc::fatal("twice", "one call of answer() calls the function twice");
      Called = true;
      Log->push_back(mc::fmt("%d answers ", Id) + mc::show(R));
      mc::op("%s", Log->back().c_str());
      if (Throw) throw Failure();
      return response(Id, Next++, R, P->Kind);
    });
    if (Ok != Called) mc::fatal("result", "answer() returns %d, but the function has %sbeen called", Ok, Called ? "" : "not ");
    return Ok;
  }
  void inert(IntrusiveConnection &C) {
    if (C.answer([&](const std::string &) { mc::fatal("inert", "an inert connection calls the function"); return std::string(); }))
      mc::fatal("inert", "answer() of an inert connection returns true");
  }
  void run(IntrusiveConnection &First, const std::string &Prog) {
    IntrusiveConnection *Cur = &First;
    std::unique_ptr<IntrusiveConnection> Keep[8];
    int N = 0;
    bool Lost = false; // this connection is inert
    for (char O : Prog) switch (O) {
    case 'a': {
      bool More = !Lost && Next < Total;
      if (answer(*Cur) != More) mc::fatal("answer", "answer() returns %d, expected %d", !More, More);
      if (!More) Lost = true;
      break;
    }
    case 't':
      if (Lost || Next >= Total) { if (answer(*Cur)) mc::fatal("answer", "answer() returns true"); Lost = true; break; }
      try { answer(*Cur, true); mc::fatal("throw", "an exception of the function is swallowed"); } catch (Failure &) {}
      return; // The request is not answered, the connection is dropped.
    case 'l': while (answer(*Cur)) {} Lost = true; inert(*Cur); break;
    case 'm': Keep[N].reset(new IntrusiveConnection(std::move(*Cur))); inert(*Cur); Cur = Keep[N++].get(); break;
    case 'M': Keep[N].reset(new IntrusiveConnection(std::move(*Cur))); if (N) Keep[N - 1].reset(); Cur = Keep[N++].get(); break;
    case 's': { auto &Self = *Cur; IntrusiveConnection &R = (*Cur = std::move(Self)); if (&R != Cur) mc::fatal("assign", "assignment does not return the object"); break; }
    case 'x': { IntrusiveConnection T(std::move(*Cur)); } inert(*Cur); Lost = true; break;
    case 'd': { // Replaced by an inert connection.
      IntrusiveConnection T(std::move(*Cur));
      IntrusiveConnection &R = (T = std::move(*Cur));
      if (&R != &T) mc::fatal("assign", "assignment does not return the object");
      inert(T);
      Lost = true;
      break;
    }
    case 'r': { // Moved away and back.
      IntrusiveConnection T(std::move(*Cur));
      *Cur = std::move(T);
      inert(T);
      break;
    }
    }
  }
};

/// What happens: the number of requests which are answered, and whether the
/// next one is passed to a function that throws.
void predict(const Plan &P, int Id, std::vector<std::string> &E) {
  std::vector<std::string> R;
  for (auto &M : P.Msgs) for (auto &I : split(M, P.D)) R.push_back(I);
  size_t N = 0;
  bool Throws = false, Stop = false;
  for (char O : P.Prog) {
    if (Stop) break;
    if (O == 'a') { if (N < R.size()) ++N; else Stop = true; }
    if (O == 'l') { N = R.size(); Stop = true; }
    if (O == 'x' || O == 'd') Stop = true;
    if (O == 't') { Throws = N < R.size(); Stop = true; }
  }
  for (size_t I = 0; I < R.size(); ++I) {
    if (I < N || (I == N && Throws)) E.push_back(mc::fmt("%d answers ", Id) + mc::show(R[I]));
    E.push_back(mc::fmt("%d sends ", Id) + mc::show((I < N ? response(Id, I, R[I], P.Kind) : "REJECT") + P.D));
  }
}

int total(const Plan &P) {
  int N = 0;
  for (auto &M : P.Msgs) N += split(M, P.D).size();
  return N;
}

std::string join(const std::vector<std::string> &V) {
  std::string S;
  for (auto &X : V) S += X + "; ";
  return S;
}

void compare(const std::vector<std::string> &Want, const std::vector<std::string> &Got) {
  if (Want != Got) mc::fail("events", "events: %s expected: %s", join(Got).c_str(), join(Want).c_str());
  mc::outcome(join(Got));
  mc::validated();
}

void serve(IntrusiveConnection C, Server *S, const std::string &Prog) { S->run(C, Prog); }

void single(const Plan &P, int Preemptions, int MaxSteps = 20000) {
  std::vector<std::string> *Log, *Want;
  Server *S;
  { mc::NoCount NC; Log = new std::vector<std::string>; Want = new std::vector<std::string>; predict(P, 0, *Want); S = new Server{&P, Log, 0, total(P)}; }
  mc::note("program %s", P.Prog.c_str());
  coop::Opt O;
  O.preemptions = Preemptions;
  O.max_steps = MaxSteps;
  bool Full = run([&] {
    Sock K(0, Log);
    IntrusiveConnection::connect(&K, P.D, serve, S, P.Prog);
    for (auto &M : P.Msgs) K.deliver(M);
    K.close(true);
  }, O);
  if (Full) compare(*Want, *Log);
  mc::NoCount NC;
  delete Log; delete Want; delete S;
}

/// All programs: words over Ops of length up to N, then a way to end.
std::vector<std::string> programs(const std::string &Ops, int N) {
  std::vector<std::string> R{""}, L{""};
  for (int K = 0; K < N; ++K) {
    std::vector<std::string> Nx;
    for (auto &W : L) {
      if (!W.empty() && strchr("xdtl", W.back())) continue;
      for (char C : Ops) Nx.push_back(W + C);
    }
    R.insert(R.end(), Nx.begin(), Nx.end());
    L = Nx;
  }
  return R;
}

/// What the client sends, with '$' as the delimiter.
const char *Words[] = {"a$", "a", "a$b$", "a$b", "", "$", "$$c"};

void pick(const std::vector<std::string> &Progs, int MaxMsgs, int NWords, int Pre, bool Simple) {
  Plan P;
  P.Prog = Progs[mc::choose(Progs.size())];
  int D = Simple ? 0 : mc::choose(3);
  P.D = "$\n\0"[D];
  int N = mc::choose(MaxMsgs + 1);
  for (int I = 0; I < N; ++I) {
    std::string W = Words[mc::choose(NWords)];
    for (auto &C : W) if (C == '$') C = P.D;
    P.Msgs.push_back(W);
  }
  P.Kind = Simple ? 0 : mc::choose(4);
  single(P, Pre);
}

/// Many and long requests.
void large() {
  static const int Sizes[] = {31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4096, 4097, 65535, 65536, 65537, 100000};
  int Form = mc::choose(5);
  int N = Sizes[mc::choose(Form == 2 ? 18 : 12)];
  Plan P;
  P.D = "$\n\0"[mc::choose(3)];
  P.Kind = mc::choose(4);
  static const char *Progs[] = {"l", "aaa", ""};
  P.Prog = Progs[mc::choose(3)];
  {
    mc::NoCount NC;
    std::string M;
    switch (Form) {
    case 0: for (int I = 0; I < N; ++I) { M += "r" + std::to_string(I) + P.D; } P.Msgs.push_back(M); break;
    case 1: for (int I = 0; I < N; ++I) { P.Msgs.push_back("m" + std::to_string(I)); if (I % 2) P.Msgs.back() += P.D; } break;
    case 2: for (int I = 0; I < N; ++I) M += char('a' + I % 26); P.Msgs = {M, M + P.D + "x" + P.D + M, "y"}; break;
    case 3: P.Msgs = {std::string(N, P.D) + "e", "f"}; break;
    case 4: for (int I = 0; I < N; ++I) { M += std::string(I % 50, 'q') + P.D; } P.Msgs = {M, M}; break;
    }
  }
  mc::op("form %d of size %d", Form, N);
  single(P, 0, 10000000);
  mc::NoCount NC;
  std::vector<std::string>().swap(P.Msgs);
}

/// One connection is replaced by another one with an assignment.
void replaced() {
  struct Slot { std::mutex M; std::condition_variable C; std::unique_ptr<IntrusiveConnection> I; };
  bool Late = mc::choose(2);      // the replaced connection has answered a request
  bool Fin = mc::choose(2);       // the new one is dropped before the end
  bool First = mc::choose(2);     // order of the sockets
  bool Dead = mc::choose(2);      // the replaced one is closed before
  Plan P{'$', {}, "", 0};
  std::vector<std::string> *Log, *Log2;
  { mc::NoCount NC; Log = new std::vector<std::string>; Log2 = new std::vector<std::string>; }
  coop::Opt O;
  O.preemptions = mc::bound(1, 2);
  int Want = Late ? 1 : 0;
  bool Full = run([&] {
    Slot *L = new Slot;
    Sock A(1, Log), B(2, Log2);
    auto Keep = [L](IntrusiveConnection C) {
      std::unique_lock<std::mutex> K(L->M);
      L->I.reset(new IntrusiveConnection(std::move(C)));
      L->C.notify_one();
    };
    auto Replace = [&, L](IntrusiveConnection C) {
      Server SB{&P, Log2, 2, 1}, SA{&P, Log, 1, 2};
      if (Late) { if (!SB.answer(C)) mc::fatal("answer", "answer() returns false"); }
      else if (Dead) SB.answer(C);
      {
        std::unique_lock<std::mutex> K(L->M);
        L->C.wait(K, [L] { return L->I != nullptr; });
        IntrusiveConnection &R = (C = std::move(*L->I));
        if (&R != &C) mc::fatal("assign", "assignment does not return the object");
      }
      SA.inert(*L->I);
      L->I.reset();
      delete L;
      if (Fin) { if (!SA.answer(C)) mc::fatal("answer", "answer() returns false"); }
      else while (SA.answer(C)) {}
    };
    if (First) IntrusiveConnection::connect(&A, '$', Keep);
    IntrusiveConnection::connect(&B, '$', Replace);
    if (!First) IntrusiveConnection::connect(&A, '$', Keep);
    if (Late) B.deliver("p$");
    if (Dead) { B.close(true); }
    else B.deliver("q$");
    A.deliver("a$");
    A.deliver("b$");
    if (!Dead) B.close(false);
    A.close(true);
  }, O);
  if (Full) {
    std::vector<std::string> E{"1 answers \"a\"", "1 sends \"a!1.0$\""};
    if (Fin) E.push_back("1 sends \"REJECT$\"");
    else { E.push_back("1 answers \"b\""); E.push_back("1 sends \"b!1.1$\""); }
    if (*Log != E) mc::fail("events", "events of the new connection: %s expected: %s", join(*Log).c_str(), join(E).c_str());
    E.clear();
    if (Late) { E.push_back("2 answers \"p\""); E.push_back("2 sends \"p!2.0$\""); }
    if (!Dead) E.push_back("2 sends \"REJECT$\"");
    compare(E, *Log2);
  }
  mc::NoCount NC;
  delete Log; delete Log2;
  (void)Want;
}

/// Independent connections.
void two() {
  std::vector<std::string> *L[2], *W[2];
  Plan P[2];
  Server *S[2];
  static const char *Pr[] = {"l", "a", ""};
  for (int I = 0; I < 2; ++I) {
    P[I] = Plan{'$', {I ? "b$" : "a$", "c"}, Pr[mc::choose(3)], 0};
    mc::NoCount NC;
    L[I] = new std::vector<std::string>; W[I] = new std::vector<std::string>;
    predict(P[I], I, *W[I]);
    S[I] = new Server{&P[I], L[I], I, total(P[I])};
  }
  coop::Opt O;
  O.preemptions = mc::bound(1, 2);
  bool Full = run([&] {
    auto Drive = [&](int I) {
      Sock K(I, L[I]);
      IntrusiveConnection::connect(&K, '$', serve, S[I], P[I].Prog);
      for (auto &M : P[I].Msgs) K.deliver(M);
      K.close(true);
    };
    std::thread T(Drive, 1);
    Drive(0);
    T.join();
  }, O);
  if (Full) for (int I = 0; I < 2; ++I) compare(*W[I], *L[I]);
  mc::NoCount NC;
  for (int I = 0; I < 2; ++I) { delete L[I]; delete W[I]; delete S[I]; }
}
} // namespace

void mc_register() {
  { std::stringstream IS("a b"); std::string S; std::getline(IS, S, ' '); } // warm up
  mc::Opt O;
  O.exec_limit = 30;
  O.split = 3;
#ifndef I02
  mc::scenario("requests", [] {
    static auto V = std::vector<std::string>{"l", "", "a", "aa", "aaa", "t", "at"};
    pick(V, mc::bound(2, 3), 7, mc::bound(1, 3), false);
  }, O);
#endif
#ifndef I02
  mc::scenario("large", large, O);
#endif
  mc::scenario("schedules", [] {
    static auto V = std::vector<std::string>{"l", "", "a", "t", "x", "ma", "ax"};
    pick(V, mc::bound(2, 3), mc::bound(3, 6), mc::bound(4, 8), true);
  }, O);
#ifdef I02
  mc::scenario("programs", [] {
    static auto V = programs("amMsrxdt", mc::bound(2, 3)), W = [] { auto R = V; for (auto &P : V) R.push_back(P + "l"); return R; }();
    pick(W, 2, 3, mc::bound(2, 4), true);
  }, O);
  mc::scenario("replaced", replaced, O);
#endif
  mc::scenario("two", two, O);
}
