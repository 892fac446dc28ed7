// Checks one object made by the macros of the library: every field alone, all
// fields in every rotation and in the reversed order.
#ifndef VERIF_JSON_MACROS_H
#define VERIF_JSON_MACROS_H
#include "json_ref.h"

/// A type with a comma in its name.
template <class A, class B> using Both = A;

std::string macrosDocument(int N, const char *Name, std::vector<int> &Want);
void macrosCompare(const char *Sig, const char *Name, const std::string &T, const std::vector<int> &Got, const std::vector<int> &Want);
void macrosOrder(int N, const char *Name, const std::string &T);

/// Values of fields of an object.
template <class O> void object(int N, const char *Name) {
  std::vector<int> Want, Got, All;
  for (int I = 1; I <= N; ++I)
    All.push_back(I % 3 == 0 ? 100 + I : I % 3 == 1 ? I % 8 < 4 : -I);
  std::string T = macrosDocument(N, Name, Want);
  mc::op("%s: %s", Name, T.c_str());
  O U;
  set(U, std::vector<int>(N, 0));
  json::Parser<> P(T);
  MC_CHECK(P.parse(U) && !P.hasErrors(), "refused", "%s: %s is refused", Name, T.c_str());
  get(U, Got);
  macrosCompare("field", Name, T, Got, Want);
  O V, R;
  set(V, All);
  set(R, std::vector<int>(N, 0));
  O W(All);
  get(W, Got);
  macrosCompare("initial", Name, "JSON_INIT", Got, All);
  T = json::Parser<>::unparse(V);
  macrosOrder(N, Name, T);
  json::Parser<> Q(T);
  MC_CHECK(Q.parse(R) && !Q.hasErrors(), "refused", "%s: the written text %s is refused", Name, T.c_str());
  get(R, Got);
  macrosCompare("lost", Name, T, Got, All);
}
#endif
