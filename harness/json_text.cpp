// J02: every text, accepted or refused exactly as the reference does.
#include "json_ref.h"

JSON_OBJECT_BEGIN(Sub)
JSON_OBJECT_PAIR_2(Sub, a, int, b, std::string)
JSON_OBJECT_END(Sub)
JSON_DEFAULT_TRAITS(::, Sub)

JSON_OBJECT_BEGIN(Doc)
JSON_OBJECT_ROOT_PAIR_4(Doc, a, int, b, std::vector<int>, s, std::string, o, Sub)
Doc() : JSON_INIT_ROOT { (*this)[Doc::a] = 0; (*this)[Doc::o][Sub::a] = 0; }
JSON_OBJECT_END(Doc)
JSON_DEFAULT_TRAITS(::, Doc)

JSON_OBJECT_BEGIN(Other)
JSON_OBJECT_ROOT_PAIR(Other, b, bool)
Other() : JSON_INIT_ROOT { (*this)[Other::b] = false; }
JSON_OBJECT_END(Other)
JSON_DEFAULT_TRAITS(::, Other)

namespace ref {
template <> struct V<Sub> {
  static bool parse(Text &X, Sub &D) { return V<json_::SubImpl::Base>::parse(X, D); }
};
template <> struct V<Doc> {
  static bool parse(Text &X, Doc &D) { return V<json_::DocImpl::Base>::parse(X, D); }
};
template <> struct V<Other> {
  static bool parse(Text &X, Other &D) { return V<json_::OtherImpl::Base>::parse(X, D); }
};
} // namespace ref
static bool same(const Sub &A, const Sub &B) { return A[Sub::a] == B[Sub::a] && A[Sub::b] == B[Sub::b]; }
static bool same(const Doc &A, const Doc &B) { return A[Doc::a] == B[Doc::a] && A[Doc::b] == B[Doc::b] && A[Doc::s] == B[Doc::s] && same(A[Doc::o], B[Doc::o]); }
static bool same(const Other &A, const Other &B) { return A[Other::b] == B[Other::b]; }

namespace {
using namespace std;
using S = std::string;

/// \return 0: refused for good, 1: refused and may be continued, 2: accepted.
template <class T> int tryText(const S &Txt, const char *What) {
  static_assert(!is_pointer<T>::value, "");
  T Got{}, Want{};
  json::Parser<> P(Txt);
  bool R = P.parse(Got);
  mc::step();
  mc::NoCount NC;
  ref::Text X(Txt);
  bool E = ref::whole(X, [&](ref::Text &Y) { return ref::V<T>::parse(Y, Want); });
  MC_CHECK(R == E, "language", "%s: the text %s is %s", What, mc::show(Txt).c_str(), R ? "accepted though it is malformed" : "refused though it is well-formed");
  if (R) {
    MC_CHECK(!P.hasErrors(), "errors", "%s: the text %s is accepted with an error: %s", What, mc::show(Txt).c_str(), P.errors().empty() ? "internal" : *P.errors().begin());
    MC_CHECK(same(Got, Want), "value", "%s: the text %s is read as another value", What, mc::show(Txt).c_str());
  } else checkErrors(P, Txt, What);
  mc::state(What + Txt);
  mc::outcome(What + S(R ? "+" : "-") + S(R ? "" : P.errors().empty() ? "" : *P.errors().begin()));
  mc::validated();
  return E ? 2 : ref::alive(X);
}
/// Objects which are found by name.
struct Named {};
int parseName(ref::Text &X, const S &NameKey, S &Name) {
  if (!X.next() || !X.punct('{')) return 0;
  while (X.next()) {
    if (X.T.Kind != ref::Tok::Str) return 0;
    bool Is = X.T.Raw == NameKey;
    if (!X.next() || !X.punct(':') || !X.next()) return 0;
    if (Is) { if (X.T.Kind != ref::Tok::Str) return 0; Name = X.T.Raw; return 1; }
    if (X.compound() ? !X.skip() : !X.scalar()) return 0;
    if (!X.next()) return 0;
    if (!X.punct(',')) return 0;
  }
  return 0;
}
template <> int tryText<Named>(const S &Txt, const char *What) {
  json::Parser<Doc, Other> P(Txt);
  auto O = P.parse();
  mc::step();
  mc::NoCount NC;
  ref::Text X(Txt);
  S Name; Doc D; Other Ot;
  bool E = parseName(X, "name", Name), Known = false;
  if (E) {
    ref::Text Y(Txt);
    if (Name == "Doc") { Known = true; E = ref::whole(Y, [&](ref::Text &Z) { return ref::V<Doc>::parse(Z, D); }); }
    else if (Name == "Other") { Known = true; E = ref::whole(Y, [&](ref::Text &Z) { return ref::V<Other>::parse(Z, Ot); }); }
    else E = false;
    if (Known) { X.T = Y.T; X.P = Y.P; X.Eof = Y.Eof; }
  }
  MC_CHECK(!!O == E, "language", "%s: the text %s is %s", What, mc::show(Txt).c_str(), O ? "accepted though it is malformed" : "refused though it is well-formed");
  if (O) {
    MC_CHECK(!P.hasErrors(), "errors", "%s: the text %s is accepted with an error", What, mc::show(Txt).c_str());
    MC_CHECK(O->getName() == Name && O->is<Doc>() == (Name == "Doc") && O->is<Other>() == (Name == "Other"), "object", "%s: another object is made", What);
    MC_CHECK(Name == "Doc" ? same(O->as<Doc>(), D) : same(O->as<Other>(), Ot), "value", "%s: the text %s is read as another value", What, mc::show(Txt).c_str());
  } else checkErrors(P, Txt, What);
  mc::state(What + Txt);
  mc::outcome(What + S(O ? "+" : "-"));
  mc::validated();
  return E ? 2 : ref::alive(X);
}
struct Type { const char *Name; int (*Try)(const S &, const char *); };
// Pointers: parse() twice would leak, so the pointer is freed by its form.
template <class T> int ptr(const S &Txt, const char *What) {
  bool Arr = is_same<T, char>::value;
  {
    ref::Text X(Txt); mc::NoCount NC; X.next(); Arr |= X.compound();
  }
  int R = 0;
  struct Hold { T *P = nullptr; bool Arr; ~Hold() { if (Arr) delete[] P; else delete P; } } H;
  H.Arr = Arr;
  json::Parser<> P(Txt);
  bool Ok = P.parse(H.P);
  mc::step();
  vector<T> Want;
  {
    mc::NoCount NC;
    ref::Text X(Txt);
    bool E = ref::whole(X, [&](ref::Text &Y) {
      if (Y.compound()) return ref::array(Y, Want, [](ref::Text &Z, T &El) { return ref::V<T>::parse(Z, El); });
      if (is_same<T, char>::value) {
        S Str; if (!ref::V<S>::parse(Y, Str)) return false;
        for (char C : Str) Want.push_back(C);
        Want.push_back(0); return true;
      }
      T El{}; if (!ref::V<T>::parse(Y, El)) return false;
      Want.push_back(El); return true; });
    MC_CHECK(Ok == E, "language", "%s: the text %s is %s", What, mc::show(Txt).c_str(), Ok ? "accepted though it is malformed" : "refused though it is well-formed");
    if (Ok) {
      MC_CHECK(!P.hasErrors(), "errors", "%s: the text %s is accepted with an error", What, mc::show(Txt).c_str());
      MC_CHECK(!H.P == Want.empty(), "value", "%s: the text %s: null pointer", What, mc::show(Txt).c_str());
      for (size_t I = 0; I < Want.size(); ++I)
        MC_CHECK(H.P[I] == Want[I], "value", "%s: the text %s: element %zu differs", What, mc::show(Txt).c_str(), I);
    } else checkErrors(P, Txt, What);
    mc::state(What + Txt);
    mc::outcome(What + S(Ok ? "+" : "-"));
    mc::validated();
    R = E ? 2 : ref::alive(X);
    vector<T>().swap(Want);
  }
  return R;
}

const Type Types[] = {
  {"int", tryText<int>}, {"string", tryText<S>}, {"bool", tryText<bool>}, {"char", tryText<char>},
  {"unsigned", tryText<unsigned>}, {"vector<int>", tryText<vector<int>>}, {"set<string>", tryText<set<S>>},
  {"map<string,int>", tryText<map<S, int>>}, {"optional<int>", tryText<optional<int>>},
  {"optional<string>", tryText<optional<S>>}, {"object", tryText<Sub>}, {"int *", ptr<int>}, {"char *", ptr<char>},
  {"vector<vector<string>>", tryText<vector<vector<S>>>}, {"map<int,vector<bool>>", tryText<map<int, set<bool>>>},
  {"multimap<string,optional<int>>", tryText<multimap<S, optional<int>>>}, {"document", tryText<Doc>}, {"named", tryText<Named>},
  {"optional<vector<int>>", tryText<optional<vector<int>>>}, {"vector<object>", tryText<vector<Sub>>},
  {"unsigned long long", tryText<unsigned long long>}, {"long", tryText<long>},
  {"long long", tryText<long long>}, {"unsigned long", tryText<unsigned long>},
  {"double", tryText<double>}, {"float", tryText<float>}, {"vector<double>", tryText<vector<double>>},
};
constexpr int NTypes = sizeof Types / sizeof *Types;

const S Pad(17, ' ');

/// Every text up to a length.
void chars(const char *Ctx, const char *Tail, int NT, int Len) {
  static const S Abc("{}[],:\"\\a1-. n\0ik\xff", 18);
  int T = NT < 0 ? NTypes - 3 + mc::choose(-NT) : mc::choose(NT); // from the begin or the numbers at the end
  S Txt;
  for (int I = 0; I < Len; ++I) {
    int C = mc::choose(Abc.size() + 1);
    if (C == 0) break;
    mc::NoCount NC; Txt += Abc[C - 1];
  }
  S Full;
  { mc::NoCount NC; Full = Pad + Ctx + Txt + Tail; }
  mc::op("%s: %s", Types[T].Name, mc::verbose() ? mc::show(Full).c_str() : "");
  Types[T].Try(Full, Types[T].Name);
  mc::NoCount NC; S().swap(Full); S().swap(Txt);
}

/// Every sequence of tokens, as long as it may be continued to an accepted
/// text, and then a little further.
void tokens(int First, int Last, int Len, int More) {
  static const char *Tk[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"0\"", "\"1\"", "1", "-2", "true", "null", " ", "\"name\"", "\"Doc\"", "\"\\\"\""};
  static const char *TkNamed[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"name\"", "\"Other\"", "\"Doc\"", "1", "true", " ", "\"na\\me\""};
  int T = First + mc::choose(Last - First);
  bool IsNamed = !strcmp(Types[T].Name, "named");
  S Txt; int Dead = 0;
  for (int I = 0; I < Len; ++I) {
    int C = mc::choose((IsNamed ? sizeof TkNamed / sizeof *TkNamed : 18 - 3) + 1);
    if (C == 0) break;
    { mc::NoCount NC; Txt += IsNamed ? TkNamed[C - 1] : Tk[C - 1]; }
    mc::op("%s: %s", Types[T].Name, mc::verbose() ? mc::show(Txt).c_str() : "");
    static int Stack[64];
    if (mc::fresh()) Stack[I] = Types[T].Try(Txt, Types[T].Name);
    int R = Stack[I];
    if (!R && ++Dead > More) break;
    if (R && Dead) ++Dead; // continues though a part has been refused
  }
  mc::NoCount NC; S().swap(Txt);
}

struct Sample { const char *Type, *Text; };
const Sample Docs[] = {
  {"int", " -12 "}, {"int", "\"+7\""}, {"int", "2147483647"}, {"int", "-2147483648"}, {"int", "2147483648"}, {"int", "1.5"},
  {"unsigned", "4294967295"}, {"unsigned", "4294967296"}, {"unsigned", "-1"},
  {"long", "-9223372036854775808"}, {"long", "9223372036854775808"}, {"long long", "9223372036854775807"},
  {"unsigned long", "18446744073709551615"}, {"unsigned long", "18446744073709551616"}, {"unsigned long long", "18446744073709551615"}, {"unsigned long long", "-1"},
  {"double", "-12.25"}, {"double", "\"1.5e3\""}, {"double", "3."}, {"double", "\"1e999\""}, {"float", "0.1"}, {"float", "\"9e39\""}, {"float", "16777217"},
  {"vector<double>", "[0.1,-2,1000000000000000000000.5]"}, {"vector<double>", "{\"1\":0.3,\"0\":.5}"},
  {"string", "\"a\\\"b\\\\c\\n/\""}, {"string", "\"a long text with an escape at its end\\n\""}, {"string", "\"\""}, {"string", "12.5"}, {"string", "null"},
  {"bool", "true"}, {"bool", "false"}, {"bool", "\"true\""}, {"bool", "\"falsetrue\""}, {"bool", "\"false\""}, {"char", "\"\\t\""}, {"char", "\"x\""},
  {"vector<int>", "[1, 2,3 ]"}, {"vector<int>", "{\"1\":1,\"0\":0}"}, {"vector<int>", "[]"}, {"vector<int>", "{\"0\":1,\"2\":2,\"2\":3}"},
  {"vector<int>", "{\"0\":1,\"18446744073709551615\":2}"}, {"vector<int>", "{\"\\1\":1,\"\\0\":2}"},
  {"set<string>", "[\"a\",\"b\",\"\"]"}, {"map<string,int>", "{\"a\":1,\"b\" : 2}"}, {"map<string,int>", "{\"a\\\"\":1,\"\\\\\" : 2}"},
  {"map<int,vector<bool>>", "{\"1\":[true],\"-2\":[false,true]}"}, {"multimap<string,optional<int>>", "{\"a\":null,\"a\":1,\"b\":\"null\"}"},
  {"optional<int>", "null"}, {"optional<int>", "\"null\""}, {"optional<string>", "\"null\""}, {"optional<vector<int>>", "[1]"},
  {"object", "{\"a\":1,\"b\":\"x\"}"}, {"object", "{\"b\":\"}\",\"z\":{\"a\":[1,{}]},\"a\":5,\"y\":[[]],\"x\":null}"},
  {"int *", "[1,2]"}, {"int *", "{\"0\":1,\"1\":2}"}, {"int *", "5"}, {"char *", "\"text\""}, {"char *", "[\"a\",\"\\n\"]"}, {"char *", "\"a long text, with an escape at its end\\\\\""},
  {"vector<vector<string>>", "[[\"a\"],[],[\"b\",\"c\"]]"}, {"vector<vector<string>>", "{\"1\":[],\"0\":{\"0\":\"x\"}}"},
  {"vector<object>", "[{\"a\":1},{\"b\":\"[\"}]"},
  {"document", "{\"name\":\"Doc\",\"a\":1,\"b\":[1,2],\"s\":\"\\\\\",\"o\":{\"a\":2,\"b\":\"q\"}}"},
  {"document", "{\"o\":{\"b\":\"1\",\"b\":\"2\"},\"name\":[{}],\"b\":{\"0\":1}}"},
  {"named", "{\"name\":\"Doc\",\"a\":1,\"o\":{}}"}, {"named", "{\"b\":true,\"x\":{\"name\":\"Doc\"},\"name\":\"Other\"}"}, {"named", "{\"name\":\"None\"}"},
  {"named", "{\"b\":true}"},
};

/// All mutations of well-formed texts.
void mutations(int Depth) {
  static const S Abc("{}[],:\"\\a0-. \0i\xff", 16);
  const auto &D = Docs[mc::choose(sizeof Docs / sizeof *Docs)];
  const Type *T = nullptr;
  for (auto &X : Types) if (!strcmp(X.Name, D.Type)) T = &X;
  S Txt;
  { mc::NoCount NC; Txt = D.Text; }
  for (int I = 0; I < Depth; ++I) {
    int Op = mc::choose(5);
    if (Op == 0) break;
    mc::NoCount NC;
    if (Txt.empty()) break;
    size_t P = mc::choose(Txt.size() + (Op == 2));
    switch (Op) {
    case 1: Txt.erase(P, 1); break;
    case 2: Txt.insert(P, 1, Abc[mc::choose(Abc.size())]); break;
    case 3: Txt[P] = Abc[mc::choose(Abc.size())]; break;
    case 4: Txt.resize(P); break;
    }
  }
  mc::op("%s: %s", D.Type, mc::verbose() ? mc::show(Txt).c_str() : "");
  T->Try(Txt, D.Type);
  mc::NoCount NC; S().swap(Txt);
}
/// Deeply nested, long and wide texts, whole and damaged.
const int Sizes[] = {63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 1000, 1024, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 70000};
constexpr int NSizes = sizeof Sizes / sizeof *Sizes;
int someSize(int Small, int Max = 70000) {
  int N = 0; while (N < NSizes && Sizes[N] <= Max) ++N;
  int C = mc::choose(Small + N);
  return C < Small ? C : Sizes[C - Small];
}
S times(int N, const char *A) { S R; for (int I = 0; I < N; ++I) R += A; return R; }
S nest(int N, int Form, const char *Inside) {
  static const char *Open[] = {"[", "{\"a\":", "[1,", "[{\"b\":"}, *Close[] = {"]", "}", ",2]", "}]"};
  return times(N, Open[Form]) + Inside + times(N, Close[Form]);
}
template <class T> void tryAll(const char *What, S Txt) {
  // Whole, cut, with another closing bracket, with a further one.
  mc::NoCount NC;
  switch (mc::choose(5)) {
  case 0: break;
  case 1: if (Txt.empty()) return; Txt.erase(Txt.size() - 1); break;
  case 2: if (Txt.empty()) return; Txt.erase(Txt.size() / 2, 1); break;
  case 3: Txt += "]"; break;
  case 4: { if (Txt.empty()) return; size_t P = Txt.find_last_of("]}", Txt.size() - 2); if (P != S::npos) Txt[P] = Txt[P] == ']' ? '}' : ']'; break; }
  }
  mc::op("%s: %s", What, mc::verbose() ? mc::show(Txt).c_str() : "");
  tryText<T>(Txt, What);
}
void large() {
  S T;
  switch (mc::choose(12)) {
  case 0: { int F = mc::choose(4), N = someSize(20); { mc::NoCount NC; T = "{\"a\":7,\"z\":" + nest(N, F, "null") + ",\"b\":\"x\"}"; } tryAll<Sub>("object", T); break; }
  case 1: { int F = mc::choose(4), N = someSize(20); { mc::NoCount NC; T = "{\"z\":" + nest(N, F, "\"]}\"") + ",\"name\":\"Other\",\"b\":true}"; } tryAll<Named>("named", T); break; }
  case 2: { int F = mc::choose(3), N = someSize(20, 4096); { mc::NoCount NC; T = "[{\"a\":1},{\"q\":" + nest(N, F, "{}") + "},{\"b\":\"\"}]"; } tryAll<vector<Sub>>("vector<object>", T); break; }
  case 3: { int N = someSize(30); { mc::NoCount NC; T = "[" + times(N, "5,") + "6]"; } tryAll<vector<int>>("vector<int>", T); break; }
  case 4: { // elements by their index, in three orders, one missing or repeated
    int N = someSize(30), O = mc::choose(3), Bad = mc::choose(3);
    { mc::NoCount NC; T = "{";
      for (int I = 0; I < N; ++I) {
        int Idx = O == 0 ? I : O == 1 ? N - 1 - I : (I + N / 2) % N;
        if (Bad && Idx == N / 2) Idx += Bad == 1 ? N : -1;
        T += (I ? ",\"" : "\"") + to_string(Idx) + "\":" + to_string(I % 1000);
      }
      T += "}"; }
    tryAll<vector<int>>("vector<int>", T); break; }
  case 5: { int N = someSize(40); { mc::NoCount NC; T = "{\"a\":" + S(N, '0') + "42,\"b\":\"" + S(N, 'q') + "\"}"; } tryAll<Sub>("object", T); break; }
  case 6: { int N = someSize(40); { mc::NoCount NC; T = S(N, ' ') + "{" + S(N, '\n') + "\"" + S(N, 'k') + "\"" + S(N, '\t') + ":" + S(N, ' ') + "1" + S(N, ' ') + "}" + S(N, ' '); } tryAll<map<S, int>>("map<string,int>", T); break; }
  case 7: { int N = someSize(40); { mc::NoCount NC; T = "{\"" + S(N, 'a') + "\":1,\"a\":2,\"" + times(N, "\\\"") + "\":[]}"; } tryAll<Sub>("object", T); break; }
  case 8: { int N = someSize(30, 4096); { mc::NoCount NC; T = "{"; for (int I = 0; I < N; ++I) T += "\"u" + to_string(I) + "\":" + (I % 3 == 0 ? "1" : I % 3 == 1 ? "[{}]" : "\"}\"") + ","; T += "\"a\":3}"; } tryAll<Sub>("object", T); break; }
  case 9: { int N = someSize(30, 4096); { mc::NoCount NC; T = "["; for (int I = 0; I < N; ++I) T += (I ? ",[" : "[") + times(I % 4, "\"x\",") + "\"y\"]"; T += "]"; } tryAll<vector<vector<S>>>("vector<vector<string>>", T); break; }
  case 10: { int N = someSize(30, 33000); { mc::NoCount NC; T = "["; for (int I = 0; I < N; ++I) T += (I ? ",\"" : "\"") + to_string(I) + "\""; T += "]"; } tryAll<set<S>>("set<string>", T); break; }
  case 11: { int N = someSize(30, 4096); { mc::NoCount NC; T = nest(N, 0, ""); } tryAll<vector<vector<S>>>("vector<vector<string>>", T); break; }
  }
  mc::NoCount NC; S().swap(T);
}
} // namespace

void mc_register() {
  mc::scenario("large", large);
  mc::scenario("chars", [] { chars("", "", mc::bound(13, 20), mc::bound(4, 5)); });
  mc::scenario("chars-float", [] { chars("", "", -2, mc::bound(4, 5)); });
  mc::scenario("chars-end", [] { chars("\"0123456789abcdefghij", "", 2, mc::bound(4, 6)); });
  mc::scenario("chars-inside", [] { chars("{\"a\":", "}", 13, mc::bound(3, 5)); });
  mc::scenario("chars-element", [] { chars("[\"0123456789abcdef", "]", 20, mc::bound(3, 5)); });
  mc::Opt O; O.split = 5;
  mc::scenario("tokens", [] { tokens(0, NTypes, mc::bound(7, 9), mc::bound(1, 2)); }, O);
  mc::scenario("mutations", [] { mutations(mc::bound(1, 2)); });
}
