// Reference for JSON: an independent recognizer, which reads a text into a
// value of a given C++ type, and generators of values.
#ifndef JSON_REF_H
#define JSON_REF_H
#include "mc.h"
#include <cassert>
#include <cerrno>
#include <cstdint>
#include <bcl/Json.h>
#include <limits>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {
enum R { Ok, Fail };

struct Tok {
  enum K { Punct, Str, Num, Key, Bad, End } Kind = End;
  char C = 0;            // Punct and Bad
  std::string Text;      // text without quotes, escapes are resolved
  std::string Raw;       // text without quotes
  size_t B = 0, E = 0;   // [B, E)
};

inline bool space(char C) { return C == ' ' || (C >= 9 && C <= 13); }
inline bool digit(char C) { return C >= '0' && C <= '9'; }

inline std::string unescape(const std::string &S) {
  std::string R;
  for (size_t I = 0; I < S.size(); ++I) {
    if (S[I] != '\\' || I + 1 == S.size()) { R += S[I]; continue; }
    char C = S[++I];
    R += C == 'n' ? '\n' : C == 't' ? '\t' : C == 'v' ? '\v' : C == 'f' ? '\f' : C == 'r' ? '\r' : C;
  }
  return R;
}

struct Text {
  const std::string &S;
  size_t P = 0;       // the next character
  Tok T;              // the current token
  bool Eof = false;   // the end has been reached while a token was expected
  explicit Text(const std::string &Str) : S(Str) {}
  bool next() {
    while (P < S.size() && space(S[P])) ++P;
    T = Tok();
    T.B = P;
    if (P >= S.size()) { T.E = P; Eof = true; return false; }
    char C = S[P];
    if (C == '"') {
      size_t Q = P + 1;
      while (Q < S.size() && S[Q] != '"') Q += S[Q] == '\\' ? 2 : 1;
      if (Q >= S.size()) { P = S.size(); T.B = T.E = P; Eof = true; return false; }
      T.Kind = Tok::Str; T.Raw = S.substr(P + 1, Q - P - 1); T.Text = unescape(T.Raw);
      P = Q + 1;
    } else if (digit(C) || C == '+' || C == '-') {
      size_t Q = P + 1; bool Dot = false;
      for (; Q < S.size(); ++Q) {
        if (digit(S[Q])) continue;
        if (S[Q] == '.' && !Dot) { Dot = true; continue; }
        break;
      }
      T.Kind = Tok::Num; T.Text = T.Raw = S.substr(P, Q - P); P = Q;
    } else {
      T.Kind = Tok::Bad;
      for (const char *K : {"true", "false", "null"})
        if (S.compare(P, strlen(K), K) == 0) { T.Kind = Tok::Key; T.Text = T.Raw = K; P += strlen(K); break; }
      if (T.Kind == Tok::Bad) {
        T.C = C; ++P;
        if (C == '{' || C == '}' || C == '[' || C == ']' || C == ',' || C == ':') T.Kind = Tok::Punct;
      }
    }
    T.E = P;
    return true;
  }
  bool punct(char C) const { return T.Kind == Tok::Punct && T.C == C; }
  bool scalar() const { return T.Kind == Tok::Str || T.Kind == Tok::Num || T.Kind == Tok::Key; }
  bool compound() const { return punct('{') || punct('['); }
  /// Skips a compound value, to its closing bracket.
  bool skip() {
    char Last = punct('{') ? '}' : ']';
    int Level = 0;
    while (next()) {
      if ((punct('}') || punct(']')) && Level-- == 0) return punct(Last);
      if (compound()) ++Level;
    }
    return false;
  }
};

/// The integer a text starts with, as the C library reads it.
inline bool integer(const std::string &S, __int128 Min, __int128 Max, __int128 &V) {
  size_t I = 0;
  while (I < S.size() && space(S[I])) ++I;
  bool Neg = false;
  if (I < S.size() && (S[I] == '+' || S[I] == '-')) Neg = S[I++] == '-';
  if (I >= S.size() || !digit(S[I])) return false;
  V = 0;
  for (; I < S.size() && digit(S[I]); ++I) { V = V * 10 + (S[I] - '0'); if (V > ((__int128)1 << 100)) V = (__int128)1 << 100; }
  if (Neg) V = -V;
  return V >= Min && V <= Max;
}

/// Values of a map or array: calls F for every value (the current token is its
/// first one) with the key.
template <class Fn> bool members(Text &X, bool Arr, bool Obj, Fn F) {
  bool IsArr = X.punct('[');
  if (!(IsArr ? Arr : X.punct('{') && Obj)) return false;
  char Last = IsArr ? ']' : '}';
  if (!X.next()) return false;
  if (X.punct(Last)) return true;
  for (size_t I = 0;; ++I) {
    Tok Key; bool HasKey = !IsArr;
    if (HasKey) {
      if (X.T.Kind != Tok::Str) return false;
      Key = X.T;
      if (!X.next() || !X.punct(':') || !X.next()) return false;
    }
    if (!X.compound() && !X.scalar()) return false;
    if (!F(HasKey ? &Key : nullptr, I)) return false;
    if (!X.next()) return false;
    if (X.punct(Last)) return true;
    if (!X.punct(',') || !X.next()) return false;
  }
}

template <class T, class = void> struct V;

template <> struct V<std::string> {
  static bool parse(Text &X, std::string &D) { if (!X.scalar()) return false; D = X.T.Text; return true; }
};
template <> struct V<char> {
  static bool parse(Text &X, char &D) { if (!X.scalar() || X.T.Text.size() != 1) return false; D = X.T.Text[0]; return true; }
};
template <> struct V<bool> {
  static bool parse(Text &X, bool &D) {
    if (!X.scalar() || (X.T.Text != "true" && X.T.Text != "false")) return false;
    D = X.T.Text == "true"; return true; }
};
template <class T> struct V<T, std::enable_if_t<std::is_integral<T>::value>> {
  static bool parse(Text &X, T &D) {
    __int128 I;
    if (!X.scalar() || !integer(X.T.Text, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), I)) return false;
    if (std::is_unsigned<T>::value && X.T.Text.find('-') != std::string::npos) return false;
    D = (T)I; return true; }
};
/// The number a text starts with, as the C library reads it.
template <class T> struct V<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static bool parse(Text &X, T &D) {
    if (!X.scalar()) return false;
    const char *B = X.T.Text.c_str(); char *E;
    errno = 0;
    D = std::is_same<T, float>::value ? (T)strtof(B, &E) : (T)strtod(B, &E);
    return E != B && errno != ERANGE; }
};
/// Reads an array; the indexes have to be 0..N-1 without duplicates.
template <class E, class F> bool array(Text &X, std::vector<E> &D, F Elem) {
  std::map<__int128, E> M;
  if (!members(X, true, true, [&](Tok *K, size_t I) {
        __int128 Idx = I;
        if (K) {
          if (K->Text.find('-') != std::string::npos || !integer(K->Text, 0, UINT64_MAX, Idx)) return false;
        }
        E Val{};
        if (!Elem(X, Val)) return false;
        return M.emplace(Idx, std::move(Val)).second;
      })) return false;
  __int128 N = 0;
  D.clear();
  for (auto &P : M) { if (P.first != N++) return false; D.push_back(P.second); }
  return true;
}
template <class T> struct V<std::vector<T>> {
  static bool parse(Text &X, std::vector<T> &D) { return array(X, D, [](Text &Y, T &E) { return V<T>::parse(Y, E); }); }
};
template <class T> struct V<std::set<T>> {
  static bool parse(Text &X, std::set<T> &D) {
    return members(X, true, false, [&](Tok *, size_t) { T E{}; return V<T>::parse(X, E) && D.insert(E).second; }); }
};
template <class K, class T> struct V<std::map<K, T>> {
  static bool parse(Text &X, std::map<K, T> &D) {
    // An empty array is taken for an empty map.
    return members(X, true, true, [&](Tok *Key, size_t) {
      K Ky{}; T E{};
      if (!Key) return false;
      Text One(X.S); One.T = *Key;
      if (!V<K>::parse(One, Ky) || !V<T>::parse(X, E)) return false;
      return D.emplace(Ky, E).second; });
  }
};
template <class K, class T> struct V<std::multimap<K, T>> {
  static bool parse(Text &X, std::multimap<K, T> &D) {
    // An empty array is taken for an empty map.
    return members(X, true, true, [&](Tok *Key, size_t) {
      K Ky{}; T E{};
      if (!Key) return false;
      Text One(X.S); One.T = *Key;
      if (!V<K>::parse(One, Ky) || !V<T>::parse(X, E)) return false;
      D.emplace(Ky, E); return true; });
  }
};
template <class T> struct V<std::optional<T>> {
  static bool parse(Text &X, std::optional<T> &D) {
    D.reset();
    if (X.T.Kind == Tok::Key && X.T.Text == "null") return true;
    if (!std::is_same<T, std::string>::value && X.scalar() && X.T.Text == "null") return true;
    T E{};
    if (!V<T>::parse(X, E)) return false;
    D = E; return true; }
};

/// Without a name: a whole text. \return true if it is accepted.
template <class F> bool whole(Text &X, F Parse) {
  X.next();
  if (!Parse(X)) return false;
  size_t Q = X.P;
  while (Q < X.S.size() && space(X.S[Q])) ++Q;
  if (Q < X.S.size()) { X.T.B = Q; X.T.E = Q + 1; return false; }
  return true;
}
/// The place where a text is refused may still grow into something accepted.
inline bool alive(const Text &X) { return X.Eof || X.T.E >= X.S.size(); }

// Objects.
template <class... K> struct V<bcl::StaticMap<K...>> {
  using M = bcl::StaticMap<K...>;
  static bool parse(Text &X, M &D) {
    return members(X, false, true, [&](Tok *Key, size_t) {
      bool Found = false, Good = true;
      (void)std::initializer_list<int>{(one<K>(X, Key->Raw, D, Found, Good), 0)...};
      if (!Found && X.compound()) return X.skip();
      return Good; });
  }
  template <class C> static void one(Text &X, const std::string &Key, M &D, bool &Found, bool &Good) {
    if (Found || C::name() != Key) return;
    Found = true;
    typename C::ValueType E{};
    Good = V<typename C::ValueType>::parse(X, E);
    if (Good) D.template value<C>() = E;
  }
};
} // namespace ref

/// Equality of everything that is read here.
template <class T> bool same(const T &A, const T &B) { return A == B || (A != A && B != B); }
template <class... K> bool same(const bcl::StaticMap<K...> &A, const bcl::StaticMap<K...> &B) {
  bool R = true;
  (void)std::initializer_list<int>{(R = R && same(A.template value<K>(), B.template value<K>()), 0)...};
  return R;
}
template <class T> bool same(const std::vector<T> &A, const std::vector<T> &B) {
  if (A.size() != B.size()) return false;
  for (size_t I = 0; I < A.size(); ++I) if (!same(A[I], B[I])) return false;
  return true;
}
template <class T> bool same(const std::optional<T> &A, const std::optional<T> &B) {
  return A.has_value() == B.has_value() && (!A || same(*A, *B));
}

/// After a refused text: an error with a position inside of the text.
template <class P> void checkErrors(const P &Pa, const std::string &S, const char *What) {
  MC_CHECK(Pa.hasErrors() && !(Pa.errors().empty() && Pa.errors().internal_size() == 0), "no-error",
           "%s: the text %s is refused without an error", What, mc::show(S).c_str());
  for (const char *E : Pa.errors()) {
    const char *B = strstr(E, " C");
    unsigned long long C = 0, Pos = 0;
    MC_CHECK(B && sscanf(B, " C%llu(%llu): ", &C, &Pos) == 2, "error-form", "%s: an error has another form: %s", What, E);
    MC_CHECK(Pos <= S.size(), "error-position", "%s: text %s of length %zu: error at position %llu: %s", What, mc::show(S).c_str(), S.size(), Pos, E);
  }
}
#endif
