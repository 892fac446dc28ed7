// J02: positions of the lexer are stored and restored as on a stack, in
// particular if types of a user look ahead while a document is read.
#include "mc.h"
#include <bcl/Json.h>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace {
using namespace std;
using S = std::string;

/// What may be observed of a position.
struct View {
  size_t Start, End, Next;
  unsigned Token;
  bool operator==(const View &V) const { return Start == V.Start && End == V.End && Next == V.Next && Token == V.Token; }
};
View view(const json::Lexer &L) {
  using json::Token; using json::Keyword;
  static const Token All[] = {Token::LEFT_BRACKET, Token::RIGHT_BRACKET, Token::LEFT_BRACE, Token::RIGHT_BRACE, Token::COMMA, Token::COLON,
    Token::QUOTE, Token::ESCAPE, Token::DOT, Token::PLUS, Token::MINUS, Token::NUMBER, Token::IDENTIFIER, Token::KEYWORD, Token::INVALID};
  View V{L.start(), L.end(), L.next(), 0};
  unsigned B = 1;
  for (auto T : All) { if (L.is(T)) V.Token |= B; B <<= 1; }
  for (auto K : {Keyword::TRUE, Keyword::FALSE, Keyword::NO_VALUE}) { if (L.isKeyword(K)) V.Token |= B; B <<= 1; }
  if (L.isIntegral()) V.Token |= B;
  B <<= 1;
  if (L.isFloatingPoint()) V.Token |= B;
  return V;
}

const char *const Texts[] = {
  "{\"a\":[true,null,1.5,{\"b\":-2}],\"c\":false}",
  "[[null],{\"1\":true,\"0\":0.5},[]] , 3",
  "[true, false,null \"]\" 7 .5 +",
};
constexpr size_t MaxStack = 8;

/// All histories of a lexer.
void histories(int Depth) {
  int T = mc::choose(3);
  S Txt;
  { mc::NoCount NC; Txt = Texts[T]; }
  json::Lexer L(Txt);
  View Stack[MaxStack + 1];
  size_t N = 0;
  View Cur = view(L);
  MC_CHECK(Cur.Start == 0 && Cur.End == 0 && Cur.Next == 0 && L.is(json::Token::INVALID), "new", "a new lexer has a token");
  for (int I = 0; I < Depth; ++I) {
    int Op = mc::choose(8);
    if (Op == 0) break;
    switch (Op) {
    case 1: {
      mc::op("goToNext()");
      bool R = L.goToNext();
      View Now = view(L);
      // The same token as one of a lexer which has not done anything else.
      json::Lexer F(Txt);
      F.setPosition(Cur.Next);
      View Fresh = view(F);
      MC_CHECK(Now == Fresh, "token", "text %d: the token after %zu is [%zu, %zu] and not [%zu, %zu], or of another kind", T, Cur.Next, Now.Start, Now.End, Fresh.Start, Fresh.End);
      MC_CHECK(R != F.hasErrors(), "token", "text %d: the token after %zu is%s found", T, Cur.Next, R ? "" : " not");
      break;
    }
    case 2:
      mc::op("storePosition()");
      if (N == MaxStack) { I = Depth; break; }
      L.storePosition();
      Stack[N++] = Cur;
      MC_CHECK(view(L) == Cur, "store", "text %d: a position has changed when it was stored", T);
      break;
    case 3: {
      mc::op("restorePosition()");
      L.restorePosition();
      View Now = view(L), Want = N ? Stack[N - 1] : Cur;
      if (N) --N;
      MC_CHECK(Now.Start == Want.Start && Now.End == Want.End && Now.Next == Want.Next, "restore", "text %d: position [%zu, %zu] %zu is restored and not [%zu, %zu] %zu", T, Now.Start, Now.End, Now.Next, Want.Start, Want.End, Want.Next);
      MC_CHECK(Now.Token == Want.Token, "restore", "text %d: the token at %zu has another kind after it has been restored", T, Now.Start);
      break;
    }
    case 4: mc::op("setPosition(0)"); L.setPosition(0); MC_CHECK(L.start() == 0 && L.end() == 0 && L.next() == 1, "set", "text %d: position 0 is not set", T); break;
    case 5: mc::op("resetPosition()"); L.resetPosition(); MC_CHECK(L.start() == 0 && L.next() == 0 && L.is(json::Token::INVALID), "reset", "text %d: position is not reset", T); break;
    case 6: {
      if (!L.is(json::Token::LEFT_BRACE) && !L.is(json::Token::LEFT_BRACKET)) { I = Depth; break; }
      mc::op("numberOfKeys()");
      auto R = json::Parser<>::numberOfKeys(L);
      if (std::get<2>(R)) MC_CHECK(view(L) == Cur, "keys", "text %d: keys are counted and the position is lost", T);
      break;
    }
    case 7: {
      if (!L.is(json::Token::LEFT_BRACE) && !L.is(json::Token::LEFT_BRACKET)) { I = Depth; break; }
      mc::op("skipInternal()");
      L.skipInternal();
      break;
    }
    }
    Cur = view(L);
    mc::step();
    S Key;
    for (size_t K = 0; K < N; ++K) Key += to_string(Stack[K].Start) + "," + to_string(Stack[K].Token) + ";";
    Key += to_string(T) + "," + to_string(Cur.Start) + "," + to_string(Cur.Next) + "," + to_string(Cur.Token);
    mc::state(Key);
  }
  mc::validated();
}

/// A value of the first type which it may be read as: the reader looks ahead.
template <class A, class B> struct Either {
  optional<A> First;
  optional<B> Second;
};
template <class A, class B> bool operator==(const Either<A, B> &L, const Either<A, B> &R) { return L.First == R.First && L.Second == R.Second; }
using VV = vector<vector<int>>;
using M = map<S, vector<optional<bool>>>;
using E1 = Either<VV, vector<S>>;
using E2 = Either<M, map<S, optional<int>>>;
using E3 = Either<E1, E2>;
} // namespace

namespace json {
template <class A, class B> struct Traits<Either<A, B>> {
  static bool parse(Either<A, B> &D, Lexer &Lex) {
    Lex.storePosition();
    A Try;
    bool Is = Traits<A>::parse(Try, Lex);
    Lex.restorePosition();
    // The value is read once more, as if nothing was read before.
    return Is ? Traits<A>::parse(D.First.emplace(), Lex) : Traits<B>::parse(D.Second.emplace(), Lex);
  }
};
} // namespace json

namespace {
template <class T> bool alone(const S &Txt, T &D) { json::Parser<> P(Txt); return P.parse(D); }
template <class A, class B> bool alone(const S &Txt, Either<A, B> &D) {
  A X;
  if (alone(Txt, X)) { D.First = X; return true; }
  B Y;
  if (alone(Txt, Y)) { D.Second = Y; return true; }
  return false;
}

const char *const Values[] = {
  "[]", "{}", "[[]]", "[[1]]", "[[1],[2,3],[]]", "{\"0\":[1]}", "{\"1\":[],\"0\":{\"0\":5}}", "[\"a\"]", "[\"a\",\"1\"]", "[[1],\"a\"]", "[1]",
  "{\"0\":[1],\"1\":\"x\"}", "{\"a\":[true]}", "{\"a\":[true,false],\"b\":[]}", "{\"a\":[null,true]}", "{\"a\":1}", "{\"a\":null,\"b\":2}", "{\"a\":[true],\"b\":2}",
  "{\"0\":[1],\"0\":[2]}", "[[1],[\"x\"]]", "{\"a\":[true],\"b\":[2]}", "{\"1\":\"x\",\"0\":\"y\"}", "{\"2\":1}", "[[1],[2}]", "[\"a\"", "7", "null",
};
constexpr int NValues = sizeof Values / sizeof *Values;

/// Values of alternative types, alone and as elements.
template <class T> void elements(const char *What, int Count) {
  S Txt;
  vector<T> Want;
  bool All = true;
  { mc::NoCount NC; Txt = "["; }
  for (int I = 0; I < Count; ++I) {
    S V;
    { mc::NoCount NC; V = Values[mc::choose(NValues)]; }
    if (I) Txt += ",";
    Txt += V;
    T D;
    All &= alone(V, D);
    Want.push_back(D);
    S().swap(V);
  }
  Txt += "]";
  mc::op("%s", Txt.c_str());
  vector<T> Got;
  json::Parser<> P(Txt);
  bool R = P.parse(Got);
  mc::step();
  MC_CHECK(R == All, "look-ahead", "%s: %s is %s though its elements are %s alone", What, Txt.c_str(), R ? "accepted" : "refused", All ? "accepted" : "not all accepted");
  if (R) MC_CHECK(Got == Want, "look-ahead", "%s: %s is read as other values than its elements alone", What, Txt.c_str());
  mc::state(What + Txt);
  mc::outcome(What + S(R ? "+" : "-"));
  mc::validated();
}
} // namespace

void mc_register() {
  mc::scenario("lexer", [] { histories(mc::bound(8, 10)); });
  mc::scenario("look-ahead", [] {
    int N = 1 + mc::choose(mc::bound(2, 3));
    switch (mc::choose(3)) {
    case 0: elements<E1>("vectors", N); break;
    case 1: elements<E2>("maps", N); break;
    case 2: elements<E3>("vectors or maps", N); break;
    }
  });
}
