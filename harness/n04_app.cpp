// N04: the application which is linked with the Node.js socket. Its server
// performs the operations of a script and logs everything it is told. The
// functions n04_* are how the driver (n04_driver.js, through n04_ctl.cpp)
// sets the script and reads the log.
#include <bcl/Socket.h>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>

// ---- Memory of the addon: counted, and watched by AddressSanitizer. ----
static long Live;
void *operator new(std::size_t N) {
  void *P = std::malloc(N ? N : 1);
  if (!P)
    std::abort();
  ++Live;
  return P;
}
void *operator new[](std::size_t N) { return operator new(N); }
void operator delete(void *P) noexcept {
  if (P) {
    --Live;
    std::free(P);
  }
}
void operator delete[](void *P) noexcept { operator delete(P); }
void operator delete(void *P, std::size_t) noexcept { operator delete(P); }
void operator delete[](void *P, std::size_t) noexcept { operator delete(P); }

#define EXPORT extern "C" __attribute__((visibility("default"), used))

namespace {
// ---- Log: records of (kind, connection, listener, size, bytes). ----
char *Log;
std::size_t LogSize, LogCap;

void put(const void *P, std::size_t N) {
  if (LogSize + N > LogCap) {
    LogCap = (LogSize + N) * 2 + 4096;
    Log = static_cast<char *>(std::realloc(Log, LogCap));
  }
  if (N)
    std::memcpy(Log + LogSize, P, N);
  LogSize += N;
}

void put32(unsigned V) { put(&V, 4); }

void record(char Kind, int Conn, int Id, const char *P, std::size_t N) {
  put32(static_cast<unsigned char>(Kind));
  put32(Conn);
  put32(Id);
  put32(static_cast<unsigned>(N));
  put(P, N);
}

char Script[4096];
int Conns;

constexpr unsigned long Magic = 0x5ca1ab1e0ddba11UL;

using SocketTy = bcl::Socket<std::string>;

void twoMessages(const SocketTy *S) {
  S->send(std::string("A\0B", 3));
  S->send("\xD0\xB6\xE2\x82\xAC\xF0\x9F\x98\x80");
}

/// State of a server. Listeners own it together, so it lives as long as one of
/// them does.
struct State {
  unsigned long Mark = Magic;
  int Refs = 0;
  int Conn;
  int NumReceive = 0, NumClosed = 0;
  const SocketTy *S;
};

/// A share in a state (std::shared_ptr would do, but its counters would hide
/// that a listener is destroyed twice).
struct Share {
  State *P;
  explicit Share(State *P) : P(P) { ++P->Refs; }
  Share(const Share &O) : P(O.P) { ++P->Refs; }
  Share &operator=(const Share &) = delete;
  ~Share() {
    if (P->Mark != Magic)
      std::abort();
    if (--P->Refs == 0) {
      P->Mark = 0;
      delete P;
    }
  }
};

void addReceive(State *St, int Mode);
void addClosed(State *St);

void addClosed(State *St) {
  int Id = St->NumClosed++;
  unsigned long Pad[3] = {Magic, Magic ^ Id, Magic + Id};
  Share Sh(St);
  St->S->closed([Sh, Id, Pad](bool Error) {
    if (Pad[0] != Magic || Pad[1] != (Magic ^ Id) || Pad[2] != Magic + Id)
      std::abort();
    char F = Error ? 1 : 0;
    record('C', Sh.P->Conn, Id, &F, 1);
  });
}

void addReceive(State *St, int Mode) {
  int Id = St->NumReceive++;
  unsigned long Pad[3] = {Magic, Magic ^ Id, Magic + Id};
  bool Done = false;
  Share Sh(St);
  St->S->receive([Sh, Id, Pad, Mode, Done](const std::string &Data) mutable {
    if (Pad[0] != Magic || Pad[1] != (Magic ^ Id) || Pad[2] != Magic + Id)
      std::abort();
    State *St = Sh.P;
    record('R', St->Conn, Id, Data.data(), Data.size());
    switch (Mode) {
    case 1: St->S->send(Data); break;
    case 2: twoMessages(St->S); break;
    case 3:
      if (!Done) {
        Done = true;
        addReceive(St, 0);
        addClosed(St);
      }
      break;
    }
    // The message belongs to this call, whatever has been sent meanwhile.
    record('E', St->Conn, Id, Data.data(), Data.size());
  });
}
}

namespace bcl {
template<> void createServer<std::string>(const Socket<std::string> *S) {
  auto *St = new State;
  St->Conn = Conns++;
  St->S = S;
  Share Sh(St);
  for (const char *C = Script; *C; ++C)
    if (*C == 'g')
      twoMessages(S);
    else if (*C == 'c')
      addClosed(St);
    else
      addReceive(St, *C - '0');
}
}

EXPORT long n04_live() { return Live; }
EXPORT void n04_script(const char *S) {
  std::strncpy(Script, S, sizeof(Script) - 1);
}
EXPORT void n04_reset() { LogSize = 0; Conns = 0; }
/// Takes the records which have not been taken yet.
EXPORT const char *n04_take(std::size_t *Size) {
  *Size = LogSize;
  LogSize = 0;
  return Log;
}
