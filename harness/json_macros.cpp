// J03: objects with 1 to 30 fields, made by the macros of the library.
#include "json_macros.h"

std::string macrosDocument(int N, const char *Name, std::vector<int> &Want) {
  int Mode = mc::choose(3), First = mc::choose(N), Count = Mode == 2 ? 1 : N;
  Want.assign(N, 0);
  std::string T = "{";
  for (int I = 0; I < Count; ++I) {
    int K = (First + (Mode == 1 ? Count - 1 - I : I)) % N + 1;
    int V = K % 3 == 0 ? 100 + K : K % 3 == 1 ? K % 8 < 4 : -K;
    Want[K - 1] = V;
    T += (I ? ",\"f" : "\"f") + std::to_string(K) + "\":";
    T += K % 3 == 1 ? (V ? "true" : "false") : std::to_string(V);
  }
  return T + "}";
}
void macrosCompare(const char *Sig, const char *Name, const std::string &T, const std::vector<int> &Got, const std::vector<int> &Want) {
  for (size_t I = 0; I < Want.size(); ++I)
    MC_CHECK(Got[I] == Want[I], Sig, "%s: field f%d is %d and not %d after %s", Name, (int)I + 1, Got[I], Want[I], T.c_str());
  mc::state(Name + T);
  mc::validated();
}
void macrosOrder(int N, const char *Name, const std::string &T) {
  for (int I = 1; I <= N; ++I)
    MC_CHECK(T.find("\"f" + std::to_string(I) + "\"") != std::string::npos, "written", "%s: field f%d is not written: %s", Name, I, T.c_str());
}
#define X(K) void macros##K(int);
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9)
#undef X
static void macros() {
  static void (*F[])(int) = {macros0, macros1, macros2, macros3, macros4, macros5, macros6, macros7, macros8, macros9};
  int W = mc::choose(60) + 2;
  F[W / 2 % 10](W);
}
void mc_register() { mc::scenario("macros", macros); }
