// N01, N02, N03: startServer() under every schedule of its threads and every
// answer of a fake network. The functions of the operating system which the
// server calls are interposed for descriptors of the fake network (1000 and
// more). Everything that happens to a connection is recorded in one list and
// compared with what has to happen.
#include "coop.h"
#include <arpa/inet.h>
#include <bcl/CSocket.h>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
using bcl::net::Connection;
using bcl::net::SocketStatus;

namespace {
enum { Base = 1000, MaxFd = 1400 };
struct End {}; // thrown out of accept() to end the server

enum Kind { Accepted, Name, Thread, On, SendBegin, SendEnd, SysSend, SysRecv, Chunk, SysClose, Closed };
struct Event {
  Kind K;
  int A, B;
  std::string S;
};

struct Client {
  std::string In, Out;
  size_t Pos = 0;
  int Fd = -1;
  bool IsAccepted = false, IsClosed = false, NameOk = false, Started = false;
  int Behind = -1;             // sends nothing until this one is closed
  std::vector<Event> Log;
};

struct Descriptor { int Kind = 0; int Client = -1; bool Bound = false, Listens = false, Option = false; }; // 1 listens, 2 is a connection

struct World {
  // Parameters.
  std::string Address;
  int Port = 7000;
  size_t Limit = 0, Buffer = 16;
  bool Faults = false, Errors = false, Interrupts = false;
  int Splits = 0; // 1: of recv, 2: of send
  size_t MaxRecv = SIZE_MAX, MaxSend = SIZE_MAX; // of one call
  int Callbacks = 2;
  bool Greets = true;
  int Greetings = 1;
  int Echo = 0; // what is sent for a chunk
  bool Register2 = false; // callbacks are registered twice as many
  // State.
  std::vector<Client> C;
  int Next = 0;
  Descriptor D[MaxFd - Base];
  std::vector<Event> Startup; // of the listening socket
  int Instances = 0;
  int Open = 0, MaxOpen = 0;
  bool Ended = false, Returned = false;
};
World *W;

const char *statusName(int S) {
  static const char *N[] = {"UnknownError", "InitializeError", "HostnameError", "ServerAddressError", "CreateError", "OptionError", "BindError",
    "ListenError", "AcceptError", "ReceiveError", "SendError", "CloseError", "Listen", "Accept", "Receive", "Send", "Close"};
  return S >= 0 && S < 17 ? N[S] : "?";
}
std::string show(const Event &E) {
  switch (E.K) {
  case Accepted: return mc::fmt("accept=%d", E.A);
  case Name: return mc::fmt("getsockname=%d", E.A);
  case Thread: return mc::fmt("thread=%d", E.A);
  case On: return mc::fmt("on(%s)", statusName(E.A));
  case SendBegin: return "send(" + mc::show(E.S) + ")";
  case SendEnd: return "sent";
  case SysSend: return mc::fmt("sys_send=%d/%d", E.A, E.B);
  case SysRecv: return mc::fmt("sys_recv=%d", E.A) + (E.A > 0 ? mc::show(E.S) : "");
  case Chunk: return mc::fmt("callback%d(", E.A) + mc::show(E.S) + ")";
  case SysClose: return mc::fmt("sys_close=%d", E.A);
  case Closed: return mc::fmt("closed%d(%d)", E.A, E.B);
  }
  return "";
}
std::string show(const std::vector<Event> &L) {
  std::string S;
  for (auto &E : L) S += show(E) + " ";
  return S;
}
/// \param C client or -1
void record(int C, Event E) {
  mc::op("%d: %s", C, show(E).c_str());
  (C < 0 ? W->Startup : W->C[C].Log).push_back(std::move(E));
}

bool mine(int Fd) { return Fd >= Base && Fd < MaxFd && W && coop::active(); }
Descriptor &get(int Fd, int Kind, const char *What) {
  auto &D = W->D[Fd - Base];
  if (!D.Kind) mc::fatal("descriptor", "%s uses a descriptor which is not open", What);
  if (Kind && D.Kind != Kind) mc::fatal("descriptor", "%s uses a wrong descriptor", What);
  return D;
}
int alloc(int Kind) {
  for (int I = 0; I < MaxFd - Base; ++I)
    if (!W->D[I].Kind) { W->D[I] = Descriptor(); W->D[I].Kind = Kind; return Base + I; }
  return -1;
}
bool fault(const char *What) {
  if (!W->Faults || !coop::deviate(2)) return false;
  mc::note("%s fails", What);
  return true;
}
const char *serverIp(int C) { static char B[32]; snprintf(B, sizeof B, "127.0.%d.%d", C / 200, C % 200 + 8); return B; }
const char *clientIp(int C) { static char B[32]; snprintf(B, sizeof B, "10.0.%d.%d", (C + 1) % 250, 1 + C / 250); return B; }
// The smallest and other ports.
int clientPort(int C) { return C ? 5001 + C * 201 : 1; }
int serverPort(int C) { return C ? (W->Port ? W->Port : 40000) + C + 1 : 1; }
// The address of the listening socket is its number -1.
void fill(struct sockaddr *A, socklen_t *L, const char *Ip, int Port) {
  if (*L < sizeof(sockaddr_in)) mc::fatal("address", "length of an address is %d", (int)*L);
  sockaddr_in S{};
  S.sin_family = AF_INET;
  S.sin_port = htons(Port);
  inet_aton(Ip, &S.sin_addr);
  memcpy(A, &S, sizeof S);
  *L = sizeof S;
}

struct Instance {
  int Id, Client = -1;
  const bcl::Socket<std::string> *S;
};

/// A message from an instance to its client.
void sendTo(Instance *I, const std::string &M) {
  { mc::NoCount NC; if (I->Client >= 0) record(I->Client, {SendBegin, 0, 0, M}); }
  I->S->send(M);
  { mc::NoCount NC; if (I->Client >= 0) record(I->Client, {SendEnd, 0, 0, ""}); }
}
std::string toSend(int Echo, const std::string &Data) {
  switch (Echo) {
  default: return Data;
  case 2: return "";
  case 3: return Data + std::string("\0" "0", 2) + Data;
  }
}
} // namespace

// Which client a new instance serves is recognized by its first message, which
// is unique.
static thread_local int CurrentInstance = -1;
static std::map<int, int> &bound() { static auto &M = *new std::map<int, int>; return M; }

namespace bcl {
template <> void createServer<std::string>(const Socket<std::string> *S) {
  Instance *I;
  {
    mc::NoCount NC;
    I = new Instance{W->Instances++, W->C.size() == 1 ? 0 : -1, S};
    bound().erase(I->Id);
  }
  if (W->Greets) {
    if (I->Client < 0) {
      // The event follows its system calls, see below.
      I->S->send(mc::fmt("@%d", I->Id));
      mc::NoCount NC;
      if (bound().count(I->Id)) I->Client = bound()[I->Id];
      if (I->Client >= 0) record(I->Client, {SendEnd, 0, 0, ""});
    } else
      for (int K = 0; K < W->Greetings; ++K) sendTo(I, mc::fmt("@%d", I->Id + K));
  }
  int N = W->Callbacks;
  for (int K = 0; K < N; ++K)
    S->receive([I, K](const std::string &Data) {
      { mc::NoCount NC; record(I->Client, {Chunk, K, 0, Data}); }
      if (K > 0 && W->Echo != 4) return;
      sendTo(I, toSend(W->Echo, Data));
      if (W->Echo == 1) sendTo(I, "!");
    });
  for (int K = 0; K < N; ++K)
    S->closed([I, K, N](bool Ok) {
      coop::point(W, "closed callback");
      mc::NoCount NC;
      record(I->Client, {Closed, K, Ok, ""});
      if (K == N - 1) delete I;
    });
}
} // namespace bcl

#define REAL(Name) ((decltype(&::Name))dlsym(RTLD_NEXT, #Name))
extern "C" {
int socket(int Dom, int Type, int P) noexcept {
  if (!W || !coop::active()) return REAL(socket)(Dom, Type, P);
  mc::NoCount NC;
  if (Dom != AF_INET || (Type & 0xf) != SOCK_STREAM) mc::fatal("socket", "a socket of a wrong kind is created");
  bool F = fault("socket");
  record(-1, {Thread, !F, 0, ""});
  if (F) { errno = EMFILE; return -1; }
  return alloc(1);
}
int setsockopt(int Fd, int L, int O, const void *V, socklen_t N) noexcept {
  if (!mine(Fd)) return REAL(setsockopt)(Fd, L, O, V, N);
  mc::NoCount NC;
  auto &D = get(Fd, 0, "setsockopt");
  if (L == SOL_SOCKET && O == SO_REUSEADDR && !D.Bound && N == sizeof(int) && *(const int *)V) D.Option = true;
  if (fault("setsockopt")) { record(-1, {On, -1, 0, "option"}); errno = EINVAL; return -1; }
  return 0;
}
int bind(int Fd, const struct sockaddr *A, socklen_t L) noexcept {
  if (!mine(Fd)) return REAL(bind)(Fd, A, L);
  mc::NoCount NC;
  auto &D = get(Fd, 1, "bind");
  auto *S = (const sockaddr_in *)A;
  in_addr Want{};
  if (!W->Address.empty()) inet_aton(serverIp(-1), &Want);
  if (L != sizeof *S || S->sin_family != AF_INET || ntohs(S->sin_port) != W->Port || S->sin_addr.s_addr != Want.s_addr)
    mc::fatal("bind", "the socket is bound to a wrong address");
  if (fault("bind")) { record(-1, {On, -1, 0, "bind"}); errno = EADDRINUSE; return -1; }
  if (!D.Option) mc::fatal("option", "the address cannot be used again");
  D.Bound = true;
  return 0;
}
int listen(int Fd, int N) noexcept {
  if (!mine(Fd)) return REAL(listen)(Fd, N);
  mc::NoCount NC;
  auto &D = get(Fd, 1, "listen");
  if (!D.Bound || N <= 0) mc::fatal("listen", "listen() before bind()");
  if (fault("listen")) { record(-1, {On, -1, 0, "listen"}); errno = EADDRINUSE; return -1; }
  D.Listens = true;
  return 0;
}
int getsockname(int Fd, struct sockaddr *A, socklen_t *L) noexcept {
  if (!mine(Fd)) return REAL(getsockname)(Fd, A, L);
  mc::NoCount NC;
  auto &D = get(Fd, 0, "getsockname");
  bool F = fault("getsockname");
  if (D.Kind == 2) { record(D.Client, {Name, !F, 0, ""}); W->C[D.Client].NameOk = !F; }
  else if (F) record(-1, {On, -1, 0, "name"});
  if (F) { errno = ENOBUFS; return -1; }
  fill(A, L, serverIp(D.Client), serverPort(D.Client));
  return 0;
}
struct hostent *gethostbyname(const char *Name) {
  if (!W || !coop::active()) return REAL(gethostbyname)(Name);
  mc::NoCount NC;
  if (W->Address != Name) mc::fatal("host", "a wrong name is looked up");
  if (fault("gethostbyname")) { record(-1, {On, -1, 0, "host"}); h_errno = HOST_NOT_FOUND; return nullptr; }
  static in_addr Addr;
  static char *List[2] = {(char *)&Addr, nullptr};
  static hostent H;
  inet_aton(serverIp(-1), &Addr);
  H.h_addrtype = AF_INET; H.h_length = 4; H.h_addr_list = List;
  return &H;
}
int accept(int Fd, struct sockaddr *A, socklen_t *L) {
  if (!mine(Fd)) return REAL(accept)(Fd, A, L);
  bool Done;
  int R = -1;
  {
    mc::NoCount NC;
    auto &D = get(Fd, 1, "accept");
    if (!D.Listens) mc::fatal("accept", "accept() before listen()");
    coop::wait(&W->Next, [] { return W->Next < (int)W->C.size() || coop::alive() == 1; }, "accept");
    Done = W->Next >= (int)W->C.size();
    if (!Done) {
      if (fault("accept")) { record(-1, {Accepted, 0, 0, ""}); errno = ECONNABORTED; return -1; }
      int C = W->Next++;
      R = alloc(2);
      W->D[R - Base].Client = C;
      W->C[C].Fd = R;
      W->C[C].IsAccepted = true;
      ++W->Open;
      if (W->Open > W->MaxOpen) W->MaxOpen = W->Open;
      record(C, {Accepted, R, 0, ""});
      if (W->Limit && W->Open > (int)W->Limit) mc::fatal("limit", "%d connections are served at the same time, the limit is %d", W->Open, (int)W->Limit);
      fill(A, L, clientIp(C), clientPort(C));
    } else
      W->Ended = true;
  }
  if (Done) throw End();
  return R;
}
ssize_t recv(int Fd, void *B, size_t N, int F) {
  if (!mine(Fd)) return REAL(recv)(Fd, B, N, F);
  mc::NoCount NC;
  auto &D = get(Fd, 2, "recv");
  int Id = D.Client;
  auto &C = W->C[Id];
  coop::wait(&C, [&C] { return C.Behind < 0 || W->C[C.Behind].IsClosed; }, "recv");
  get(Fd, 2, "recv");
  if (W->Interrupts && coop::deviate(2)) { mc::note("recv is interrupted"); errno = EINTR; return -1; }
  if (W->Errors && coop::deviate(2)) { record(Id, {SysRecv, -1, 0, ""}); errno = ECONNRESET; return -1; }
  size_t Avail = std::min(N, C.In.size() - C.Pos);
  Avail = std::min(Avail, W->MaxRecv);
  if (Avail && (W->Splits & 1)) Avail -= coop::choose(Avail);
  memcpy(B, C.In.data() + C.Pos, Avail);
  record(Id, {SysRecv, (int)Avail, 0, C.In.substr(C.Pos, Avail)});
  C.Pos += Avail;
  return Avail;
}
ssize_t send(int Fd, const void *B, size_t N, int F) {
  if (!mine(Fd)) return REAL(send)(Fd, B, N, F);
  mc::NoCount NC;
  auto &D = get(Fd, 2, "send");
  int Id = D.Client;
  auto &C = W->C[Id];
  const char *P = (const char *)B;
  if (W->C.size() > 1 && N > 1 && P[0] == '@' && !bound().count(atoi(std::string(P + 1, N - 1).c_str()))) {
    bound()[atoi(std::string(P + 1, N - 1).c_str())] = Id;
    record(Id, {SendBegin, 0, 0, std::string(P, N)});
  }
  coop::point(&C, "send");
  get(Fd, 2, "send");
  if (W->Interrupts && coop::deviate(2)) { mc::note("send is interrupted"); errno = EINTR; return -1; }
  if (W->Errors && coop::deviate(2)) {
    struct sigaction S;
    sigaction(SIGPIPE, nullptr, &S);
    if (!(F & MSG_NOSIGNAL) && S.sa_handler == SIG_DFL) mc::fatal("signal", "the server is ended by a signal");
    record(Id, {SysSend, -1, (int)N, ""});
    errno = EPIPE;
    return -1;
  }
  size_t K = std::min(N, W->MaxSend);
  if (N && (W->Splits & 2)) K -= coop::choose(N);
  C.Out.append(P, K);
  record(Id, {SysSend, (int)K, (int)N, ""});
  return K;
}
int close(int Fd) {
  if (!mine(Fd)) { static auto *R = REAL(close); return R(Fd); }
  mc::NoCount NC;
  coop::point(&W->Open, "close");
  auto &D = get(Fd, 0, "close");
  bool F = fault("close");
  int C = D.Client;
  if (C >= 0) { --W->Open; W->C[C].IsClosed = true; W->C[C].Fd = -1; }
  D = Descriptor();
  record(C, {SysClose, !F, 0, ""});
  coop::point(&W->Open, "closed");
  if (F) { errno = EIO; return -1; }
  return 0;
}
int shutdown(int Fd, int How) noexcept {
  if (!mine(Fd)) return REAL(shutdown)(Fd, How);
  get(Fd, 2, "shutdown");
  return 0;
}
}

namespace {
void report(SocketStatus S, const Connection &C) {
  coop::point(W, "status");
  mc::NoCount NC;
  bool Conn = C.getClientPort() > 0;
  if (Conn != C.isActive()) mc::fatal("active", "isActive() is %d", C.isActive());
  if (!Conn) {
    if (!C.getClientAddress().empty()) mc::fatal("address", "a client address of the listening socket is reported");
    // Before the address is known the address which has been given is used.
    bool Known = S == SocketStatus::Listen || S == SocketStatus::ListenError || S == SocketStatus::AcceptError;
    bool Given = S == SocketStatus::HostnameError || S == SocketStatus::CreateError || S == SocketStatus::OptionError || S == SocketStatus::BindError;
    std::string A = C.getServerAddress();
    int P = C.getServerPort();
    if ((A == serverIp(-1) && !Given ? P != serverPort(-1) && !(A == W->Address && P == W->Port) : P != W->Port) || (Known && A != serverIp(-1)) || (Given && A != W->Address) || (A != serverIp(-1) && A != W->Address))
      mc::fatal("address", "%s is reported for %s:%d", statusName((int)S), A.c_str(), C.getServerPort());
    record(-1, {On, (int)S, 0, ""});
    return;
  }
  int Id = C.getClientPort() == 1 ? 0 : (C.getClientPort() - 5001) / 201;
  if (Id < 0 || Id >= (int)W->C.size() || C.getClientPort() != clientPort(Id) || C.getClientAddress() != clientIp(Id) ||
      C.getServerAddress() != serverIp(Id) || C.getServerPort() != serverPort(Id))
    mc::fatal("address", "%s is reported for %s:%d <- %s:%d", statusName((int)S), C.getServerAddress().c_str(), C.getServerPort(),
      C.getClientAddress().c_str(), C.getClientPort());
  record(Id, {On, (int)S, 0, ""});
}

/// Checks the events of a connection.
struct Checker {
  const std::vector<Event> &L;
  size_t P = 0;
  std::string Delivered[4], Promised; // received by callbacks, has to be sent
  bool Failed = false; // a message has not been sent
  Client &C;
  explicit Checker(Client &C) : L(C.Log), C(C) {}

  [[noreturn]] void wrong(const char *Sig, const std::string &What) {
    mc::fail(Sig, "%s (event %zu of %s)", What.c_str(), P, show(L).c_str());
  }
  bool is(Kind K) const { return P < L.size() && L[P].K == K; }
  bool isOn(SocketStatus S) const { return is(On) && L[P].A == (int)S; }
  const Event &need(Kind K, const char *What) { if (!is(K)) wrong("order", std::string("expected: ") + What); return L[P++]; }
  void needOn(SocketStatus S) { if (!isOn(S)) wrong("status", std::string("expected: ") + statusName((int)S)); ++P; }

  void sending() {
    std::string M = need(SendBegin, "send").S;
    size_t Done = 0;
    bool Error = false;
    while (is(SysSend)) {
      if (Error) wrong("send", "sending goes on after an error");
      if (L[P].A < 0) Error = true;
      else Done += L[P].A;
      ++P;
    }
    if (Error) needOn(SocketStatus::SendError);
    else {
      if (Done != M.size()) wrong("partial", "a message is sent partially");
      needOn(SocketStatus::Send);
    }
    need(SendEnd, "send() returns");
    Promised += M.substr(0, Done);
    if (Error) Failed = true;
  }
  void closing(bool Regular, int Callbacks) {
    bool Ok = need(SysClose, "close").A;
    bool Told = false;
    int N = 0;
    while (P < L.size()) {
      if (isOn(Ok ? SocketStatus::Close : SocketStatus::CloseError) && !Told) { Told = true; ++P; }
      else if (is(Closed) && L[P].A == N && N < Callbacks) {
        if (L[P].B != (Regular && Ok)) wrong("regular", "a closed callback is called with a wrong value");
        ++N; ++P;
      } else wrong("after", "unexpected event after the connection has been closed");
    }
    if (!Told) wrong("status", "closing is not reported");
    if (N != Callbacks) wrong("closed", "some closed callback is not called");
  }
  void check() {
    if (!C.IsAccepted) { if (!L.empty()) wrong("accept", "events before accept"); return; }
    need(Accepted, "accept");
    if (!need(Name, "getsockname").A) { need(SysClose, "close"); if (P < L.size()) wrong("after", "unexpected event"); return; }
    needOn(SocketStatus::Accept);
    if (!need(Thread, "thread").A) {
      needOn(SocketStatus::UnknownError);
      closing(false, 0);
      return;
    }
    if (W->Greets) for (int K = 0; K < (W->C.size() > 1 ? 1 : W->Greetings); ++K) sending();
    while (true) {
      if (Failed) { closing(false, W->Callbacks); break; }
      const Event &R = need(SysRecv, "recv");
      if (R.A == 0) {
        if (C.Pos != C.In.size()) wrong("end", "the connection is closed before everything has been received");
        closing(true, W->Callbacks);
        break;
      }
      if (R.A < 0) { needOn(SocketStatus::ReceiveError); closing(false, W->Callbacks); break; }
      needOn(SocketStatus::Receive);
      for (int K = 0; K < W->Callbacks; ++K) {
        const Event &D = need(Chunk, "callback");
        if (D.A != K) wrong("callbacks", "callbacks are called in a wrong order");
        if (D.S != R.S) wrong("data", "a callback gets other data");
        Delivered[K] += D.S;
        if (K > 0 && W->Echo != 4) continue;
        sending();
        if (W->Echo == 1) sending();
      }
    }
    if (C.Out != Promised) wrong("sent", "the client has received " + mc::show(C.Out));
    for (int K = 0; K < W->Callbacks; ++K)
      if (Delivered[K] != C.In.substr(0, C.Pos)) wrong("data", "the data are not delivered");
  }
};

void checkStartup() {
  auto &L = W->Startup;
  size_t P = 0;
  auto wrong = [&](const char *Sig, const char *What) { mc::fail(Sig, "%s (event %zu of %s)", What, P, show(L).c_str()); };
  auto on = [&](SocketStatus S) { if (P >= L.size() || L[P].K != On || L[P].A != (int)S) wrong("status", (std::string("expected: ") + statusName((int)S)).c_str()); ++P; };
  auto closes = [&] {
    if (P >= L.size() || L[P].K != SysClose) wrong("close", "the socket is not closed");
    on(L[P++].A ? SocketStatus::Close : SocketStatus::CloseError);
  };
  bool Up = true;
  auto fails = [&](const char *What) { return Up && P < L.size() && L[P].K == On && L[P].A == -1 && L[P].S == What; };
  if (fails("host")) { ++P; on(SocketStatus::HostnameError); Up = false; }
  if (Up) {
    if (P >= L.size() || L[P].K != Thread) wrong("socket", "no socket is created");
    if (!L[P++].A) { on(SocketStatus::CreateError); Up = false; }
  }
  if (fails("option")) { ++P; on(SocketStatus::OptionError); closes(); Up = false; }
  if (fails("bind")) { ++P; on(SocketStatus::BindError); closes(); Up = false; }
  if (fails("name")) { ++P; on(SocketStatus::ServerAddressError); closes(); Up = false; }
  if (fails("listen")) { ++P; on(SocketStatus::ListenError); closes(); Up = false; }
  if (Up) on(SocketStatus::Listen);
  // Then failures to accept, and closed connections without an address.
  size_t C = 0;
  while (Up && P < L.size()) {
    if (L[P].K == Accepted) { ++P; on(SocketStatus::AcceptError); continue; }
    while (C < W->C.size() && W->C[C].NameOk) ++C;
    if (C == W->C.size()) break;
    on(SocketStatus::ServerAddressError);
    on(W->C[C].Log.back().A ? SocketStatus::Close : SocketStatus::CloseError);
    ++C;
  }
  if (P < L.size()) wrong("startup", "unexpected event");
  if (Up != W->Ended) wrong("startup", Up ? "the server ends" : "the server goes on");
  for (; C < W->C.size(); ++C) if (W->C[C].IsAccepted && !W->C[C].NameOk) wrong("startup", "a failure is not reported");
  for (auto &D : W->D) if (D.Kind && !(D.Kind == 1 && Up)) wrong("open", "a descriptor stays open");
}

void play(World &Wo, coop::Opt O) {
  W = &Wo;
  O.polls = true;
  coop::create_fails = [] {
    bool F = fault("pthread_create");
    if (W->Next > 0) record(W->Next - 1, {Thread, !F, 0, ""});
    return F;
  };
  bool Full = coop::run([&] {
    try {
      bcl::net::startServer(W->Address, W->Port, W->Limit, report, W->Buffer);
    } catch (End &) {}
  }, O);
  coop::create_fails = nullptr;
  if (Full) {
    checkStartup();
    std::string Out;
    for (auto &C : Wo.C) {
      Checker(C).check();
      if (W->Ended && !C.IsAccepted) mc::fail("served", "a client is not served");
      Out += show(C.Log) + "|";
    }
    mc::outcome(Out + show(Wo.Startup));
    mc::validated();
  }
  W = nullptr;
}
World *fresh() { return new World; }

void transfers() {
  std::unique_ptr<World> Wo;
  { mc::NoCount NC; Wo.reset(fresh()); Wo->C.resize(1); }
  static const std::string In[] = {"", "a", "ab", std::string("a\0b", 3), std::string("\0", 1), "abcd", "\xff\n\r\x01", std::string("\0\0ab\0", 5)};
  static const size_t Buf[] = {1, 2, 3, 5, 64};
  { int I = mc::choose(mc::bound(7, 8)); mc::NoCount NC; Wo->C[0].In = In[I]; }
  Wo->Buffer = Buf[mc::choose(5)];
  Wo->Echo = mc::choose(5);
  Wo->Callbacks = 1 + mc::choose(2);
  Wo->Greetings = mc::choose(3);
  // All splits of what is sent, of what is received, or of both.
  size_t Size = Wo->C[0].In.size(), Small = mc::bound(3, 4);
  bool Sends = Size <= Small && (Size < 2 || Wo->Greetings < 2), Both = Sends && Wo->Echo < 2 && Wo->Greetings < 2;
  Wo->Splits = 1 + mc::choose(Both ? 3 : Sends ? 2 : 1);
  Wo->Interrupts = Wo->Errors = true;
  coop::Opt O;
  O.preemptions = mc::bound(1, 2);
  O.preempt = O.spurious = false;
  play(*Wo, O);
  mc::NoCount NC;
  Wo.reset();
}

/// Long messages, many messages.
void large() {
  static const size_t Len[] = {63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 200000};
  static const size_t Buf[] = {7, 64, 255, 256, 257, 4096, 65535, 65536, 65537, 1 << 20};
  static const size_t Max[] = {SIZE_MAX, 1, 100, 1460, 65536};
  std::unique_ptr<World> Wo;
  { mc::NoCount NC; Wo.reset(fresh()); Wo->C.resize(1); }
  size_t N = Len[mc::choose(16)];
  Wo->Buffer = Buf[mc::choose(10)];
  Wo->Echo = mc::choose(5);
  Wo->Callbacks = Wo->Echo == 4 ? 2 : 1;
  int M = mc::choose(5);
  Wo->MaxRecv = Max[M];
  Wo->MaxSend = Max[mc::thorough() ? mc::choose(5) : (M * 3) % 5];
  // Up to 5000 calls.
  if (N / std::min(Wo->Buffer, Wo->MaxRecv) > 5000 || N / Wo->MaxSend > 5000) mc::discard();
  { mc::NoCount NC; auto &In = Wo->C[0].In; In.resize(N); for (size_t I = 0; I < N; ++I) In[I] = char(I % 251 + I / 251 * 3); }
  coop::Opt O;
  O.preemptions = 0;
  O.fixed = 1 + (int)N % 3;
  O.max_steps = 100000000;
  play(*Wo, O);
  mc::NoCount NC;
  Wo.reset();
}

void failures() {
  std::unique_ptr<World> Wo;
  { mc::NoCount NC; Wo.reset(fresh()); }
  int N = 1 + mc::choose(2);
  {
    mc::NoCount NC;
    Wo->C.resize(N);
    for (int I = 0; I < N; ++I) Wo->C[I].In = std::string(1, 'A' + I) + "x";
  }
  Wo->Limit = mc::choose(3);
  Wo->Buffer = mc::choose(2) ? 1 : 16;
  { int A = mc::choose(2); mc::NoCount NC; Wo->Address = A ? "" : "server.example"; }
  Wo->Port = N == 1 && mc::choose(2) ? 0 : 7000;
  Wo->Echo = mc::choose(2);
  Wo->Faults = Wo->Errors = true;
  coop::Opt O;
  O.preemptions = mc::bound(2, 3);
  play(*Wo, O);
  mc::NoCount NC;
  Wo.reset();
}

void clients() {
  std::unique_ptr<World> Wo;
  { mc::NoCount NC; Wo.reset(fresh()); }
  int N = 2 + mc::choose(mc::bound(2, 3));
  Wo->Limit = mc::choose(4);
  int Behind = N > 1 && Wo->Limit != 1 ? mc::choose(2) : 0;
  int Quiet = mc::choose(2);
  {
    mc::NoCount NC;
    Wo->C.resize(N);
    for (int I = 0; I < N; ++I) Wo->C[I].In = I == Quiet ? std::string("Q") : std::string(1, 'A' + I);
    if (!Quiet) Wo->C[0].In = "";
    if (Behind) Wo->C[0].Behind = 1;
  }
  Wo->Callbacks = 1;
  coop::Opt O;
  O.preemptions = N > 3 ? mc::bound(1, 2) : N > 2 ? mc::bound(1, 3) : mc::bound(3, 4);
  play(*Wo, O);
  mc::NoCount NC;
  Wo.reset();
}
/// Many clients, one schedule of each kind.
void many() {
  std::unique_ptr<World> Wo;
  { mc::NoCount NC; Wo.reset(fresh()); }
  static const int Ns[] = {5, 12, 40, 127, 128, 129, 255, 256, 257, 290};
  static const int Limits[] = {0, 1, 2, 3, 8, 64, 127, 128, 255, 256};
  int N = Ns[mc::choose(10)];
  Wo->Limit = Limits[mc::choose(10)];
  // The first ones wait for others, which have to be served in the meantime.
  int Behind = N > 12 && Wo->Limit != 1 ? mc::choose(2) : 0;
  {
    mc::NoCount NC;
    Wo->C.resize(N);
    for (int I = 0; I < N; ++I) Wo->C[I].In = I % 7 == 3 ? "" : std::string(I % 5 + 1, 'A' + I % 60);
    if (Behind) for (int I = 0; I + 1 < (Wo->Limit ? (int)Wo->Limit : 8) && I + 2 < N; ++I) Wo->C[I].Behind = N - 2;
  }
  Wo->Callbacks = 1;
  coop::Opt O;
  O.preemptions = 0;
  O.fixed = 1 + mc::choose(3);
  O.max_steps = 10000000;
  play(*Wo, O);
  mc::NoCount NC;
  Wo.reset();
}
} // namespace

void mc_register() {
  mc::Opt O;
  O.exec_limit = 30;
  O.split = 4;
#ifdef N01
  mc::scenario("transfers", transfers, O);
  mc::scenario("large", large, O);
#endif
#ifdef N02
  mc::scenario("failures", failures, O);
#endif
#ifdef N03
  mc::scenario("clients", clients, O);
  mc::scenario("many", many, O);
#endif
}
