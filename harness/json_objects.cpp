// J03: documents for a family of objects: every order and subset of members,
// unknown members of every shape at every place, every place of the name.
#include "json_ref.h"
#include <algorithm>

namespace People {
JSON_OBJECT_BEGIN(Doc)
JSON_OBJECT_ROOT_PAIR_4(Doc, a, int, ab, std::string, abc, std::vector<int>, b, bool)
Doc() : JSON_INIT_ROOT { (*this)[a] = -7; (*this)[b] = true; (*this)[ab] = "initial"; (*this)[abc] = {9}; }
JSON_OBJECT_END(Doc)
}
JSON_DEFAULT_TRAITS(People::, Doc)

JSON_OBJECT_BEGIN(Docs)
JSON_OBJECT_ROOT_PAIR_3(Docs, ab, int, a, std::string, names, People::Doc)
Docs() : JSON_INIT_ROOT { (*this)[ab] = -8; (*this)[a] = "first"; }
JSON_OBJECT_END(Docs)
JSON_DEFAULT_TRAITS(::, Docs)

namespace hand {
struct Name { static const std::string &name() { static const std::string N("name"); return N; } typedef std::string ValueType; };
}
JSON_OBJECT_BEGIN(Do)
  typedef hand::Name called;
  JSON_VALUE(nam, unsigned)
  JSON_OBJECT_ROOT(Do, called, nam)
  JSON_ACCESS(Do, nam)
  Do() : JSON_INIT_ROOT { value<json_::DoImpl::nam>() = 11; }
JSON_OBJECT_END(Do)
JSON_DEFAULT_TRAITS(::, Do)

// A manual definition with names which are no identifiers.
namespace hand {
struct Key1 { static const std::string &name() { static const std::string N("max-size"); return N; } typedef int ValueType; };
struct Key2 { static const std::string &name() { static const std::string N("a/b c"); return N; } typedef std::string ValueType; };
struct Key3 { static const std::string &name() { static const std::string N(""); return N; } typedef bool ValueType; };
}
struct Hand : public bcl::StaticMap<hand::Key1, hand::Key2, hand::Key3> {};
namespace json { template <> struct Traits<Hand> : public Traits<bcl::StaticMap<hand::Key1, hand::Key2, hand::Key3>> {}; }

JSON_OBJECT_BEGIN(Wide)
JSON_OBJECT_ROOT_PAIR_6(Wide, L, std::vector<int>, M, BCL_JOIN(std::map<std::string, int>), N, std::vector<std::vector<std::string>>, O, std::vector<bool *>, U, BCL_JOIN(std::map<int, std::vector<int>>), V, std::optional<std::vector<int>>)
Wide() : JSON_INIT_ROOT {}
~Wide() { for (auto *P : (*this)[Wide::O]) delete P; }
JSON_OBJECT_END(Wide)
JSON_DEFAULT_TRAITS(::, Wide)

namespace {
using namespace std;
using S = std::string;
using People::Doc;

const char *Unknown[] = {
  "\"z\":1", "\"zz\":\"text }\"", "\"aba\":[1,[2,{}],\"]\"]", "\"Doc\":{\"a\":5,\"name\":\"Docs\",\"b\":[{}]}", "\"\":null", "\"abcd\":[]", "\"B\":{}", "\"n\":{\"\\\"\":\"{\\\"\"}",
};
constexpr int NUnknown = sizeof Unknown / sizeof *Unknown;

/// Chooses an order of a subset of members, and places unknown members.
S document(vector<S> M, int Extra, vector<int> &Used) {
  vector<S> Out; vector<int> Left;
  mc::NoCount NC;
  for (size_t I = 0; I < M.size(); ++I) Left.push_back(I);
  while (!Left.empty()) {
    int C = mc::choose(Left.size() + 1);
    if (!C) break;
    Out.push_back(M[Left[C - 1]]); Used.push_back(Left[C - 1]);
    Left.erase(Left.begin() + C - 1);
  }
  for (int I = 0; I < Extra; ++I) {
    int U = mc::choose(NUnknown + 1);
    if (!U) break;
    int P = mc::choose(Out.size() + 1);
    Out.insert(Out.begin() + P, Unknown[U - 1]);
  }
  S R = "{";
  static const char *Sep[] = {",", " ,\n "};
  const char *Se = Sep[mc::choose(2)];
  for (size_t I = 0; I < Out.size(); ++I) R += (I ? Se : "") + Out[I];
  return R + "}";
}
bool has(const vector<int> &U, int I) { return find(U.begin(), U.end(), I) != U.end(); }

template <class D> void checkDoc(const D &O, const vector<int> &U, const S &T) {
  MC_CHECK(O[Doc::a] == (has(U, 0) ? 5 : -7), "field", "field a is %d in %s", O[Doc::a], T.c_str());
  MC_CHECK(O[Doc::ab] == (has(U, 1) ? "te\"xt" : "initial"), "field", "field ab is %s in %s", O[Doc::ab].c_str(), T.c_str());
  MC_CHECK(O[Doc::abc] == (has(U, 2) ? vector<int>{1, 2, 3} : vector<int>{9}), "field", "field abc differs in %s", T.c_str());
  MC_CHECK(O[Doc::b] == !has(U, 3), "field", "field b differs in %s", T.c_str());
}
const char *DocM[] = {"\"a\":5", "\"ab\" : \"te\\\"xt\"", "\"abc\":[1,2,3]", "\"b\":false"};

void finish(const S &T) { mc::NoCount NC; mc::state(T); mc::validated(); }

/// One known type.
void plain(int Extra) {
  vector<int> U; S T;
  { mc::NoCount NC; vector<S> M(DocM, DocM + 4); T = document(M, Extra, U); }
  mc::op("Doc: %s", T.c_str());
  Doc O;
  json::Parser<> P(T);
  MC_CHECK(P.parse(O) && !P.hasErrors(), "refused", "the document %s is refused: %s", T.c_str(), P.errors().empty() ? "" : *P.errors().begin());
  checkDoc(O, U, T);
  finish(T);
  mc::NoCount NC; S().swap(T); vector<int>().swap(U);
}

/// The type is found by its name, which is at any place.
void named(int Extra) {
  int Kind = mc::choose(4), Key = mc::choose(2);
  const char *NameKey = Key ? "type" : "name";
  vector<int> U; S T;
  {
    mc::NoCount NC;
    vector<S> M;
    static const char *Names[] = {"Doc", "Docs", "Do", "Document"};
    if (Kind == 0 || Kind == 3) M.assign(DocM, DocM + 4);
    else if (Kind == 1) M = {"\"ab\":17", "\"a\":\"]\"", "\"names\":{\"b\":false,\"a\":3}"};
    else M = {"\"nam\":4"};
    if (mc::choose(2)) M = {}; // few members, then more unknown ones
    M.push_back("\"" + S(NameKey) + "\": \"" + Names[Kind] + "\"");
    rotate(M.begin(), M.end() - 1, M.end());
    T = document(M, Extra, U);
  }
  mc::op("named by %s: %s", NameKey, T.c_str());
  // All orders of the types of the parser.
  int Order = mc::choose(3);
  unique_ptr<json::Object> O; bool Err; S Msg;
  auto Run = [&](auto &&P) { O = P.parse(); mc::step(); Err = P.hasErrors(); mc::NoCount NC; if (!P.errors().empty()) Msg = *P.errors().begin();
    MC_CHECK(S(P.getNameKey()) == NameKey, "name-key", "getNameKey() returns another key");
    if (!O) checkErrors(P, T, "named"); };
  if (Order == 0) Run(json::Parser<Doc, Docs, Do>(T, NameKey));
  else if (Order == 1) Run(json::Parser<Do, Docs, Doc>(T, NameKey));
  else Run(json::Parser<Docs, Do, Doc>(T, NameKey));
  bool Good = has(U, 0) && Kind != 3;
  MC_CHECK(!!O == Good, "found", "the document %s is %s: %s", T.c_str(), O ? "accepted" : "refused", Msg.c_str());
  MC_CHECK(Err == !Good, "errors", "the document %s: errors are %s", T.c_str(), Err ? "recorded" : "not recorded");
  if (O) {
    MC_CHECK(O->is<Doc>() == (Kind == 0) && O->is<Docs>() == (Kind == 1) && O->is<Do>() == (Kind == 2), "type", "the document %s is taken for %s", T.c_str(), O->getName().c_str());
    vector<int> V;
    { mc::NoCount NC; for (int I : U) if (I) V.push_back(I - 1); }
    if (Kind == 0) checkDoc(O->as<Doc>(), V, T);
    else if (Kind == 1) {
      auto &D = O->as<Docs>();
      MC_CHECK(D[Docs::ab] == (has(V, 0) ? 17 : -8) && D[Docs::a] == (has(V, 1) ? "]" : "first"), "field", "fields differ in %s", T.c_str());
      if (has(V, 2)) MC_CHECK(!D[Docs::names][Doc::b] && D[Docs::names][Doc::a] == 3 && D[Docs::names][Doc::ab] == "initial", "field", "the inner object differs in %s", T.c_str());
    } else {
      MC_CHECK(O->as<Do>()[Do::nam] == (has(V, 0) ? 4 : 11), "field", "fields differ in %s", T.c_str());
      MC_CHECK(O->as<Do>().value<hand::Name>() == (Key ? "" : "Do"), "field", "the name field differs in %s", T.c_str());
    }
    mc::NoCount NC; vector<int>().swap(V);
  }
  mc::outcome(mc::fmt("%d %d %d", Kind, Good, Err));
  finish(T);
  mc::NoCount NC; S().swap(T); S().swap(Msg); vector<int>().swap(U);
}

/// Names of fields which are no identifiers; also nested in containers.
void hands() {
  static const char *M[] = {"\"max-size\":3", "\"a/b c\":\"x\"", "\"\":true", "\"max-siz\":4", "\"a/b\":\"y\"", "\" \":false", "\"max-size2\":[5]"};
  vector<int> U; S T, Full;
  int Wrap = mc::choose(3);
  { mc::NoCount NC; vector<S> MM(M, M + 7); T = document(MM, 0, U);
    Full = Wrap == 0 ? T : Wrap == 1 ? "[" + T + ",{}," + T + "]" : "{\"k\":" + T + ",\"max-size\":" + T + "}"; }
  mc::op("%s", Full.c_str());
  auto Check = [&](Hand &H) {
    MC_CHECK(H.value<hand::Key1>() == (has(U, 0) ? 3 : 0) && H.value<hand::Key2>() == (has(U, 1) ? "x" : "") && H.value<hand::Key3>() == has(U, 2), "field", "fields differ in %s", Full.c_str()); };
  json::Parser<> P(Full);
  if (Wrap == 0) { Hand H{}; MC_CHECK(P.parse(H) && !P.hasErrors(), "refused", "%s is refused", Full.c_str()); Check(H); }
  else if (Wrap == 1) { vector<Hand> H; MC_CHECK(P.parse(H) && H.size() == 3 && !P.hasErrors(), "refused", "%s is refused", Full.c_str()); Check(H[0]); Check(H[2]); U.clear(); Check(H[1]); }
  else { map<S, Hand> H; MC_CHECK(P.parse(H) && H.size() == 2 && !P.hasErrors(), "refused", "%s is refused", Full.c_str()); Check(H["k"]); Check(H["max-size"]); }
  finish(Full);
  mc::NoCount NC; S().swap(T); S().swap(Full); vector<int>().swap(U);
}

/// Many compound members one after another, in all their forms.
void wide(int Max) {
  static const char *Key[] = {"L", "M", "N", "O", "U", "V"};
  static const char *Form[][4] = {
    {"[]", "[1,2]", "{\"1\":4,\"0\":3}", "{}"}, {"{}", "{\"a\":1}", "{\"a\":1,\"\":2}", "[]"},
    {"[[],[\"a\",\"]\"]]", "{\"0\":{\"1\":\"x\",\"0\":\"y\"}}", "[{}]", "[{\"0\":\"1\"},[\"{\"],{}]"}, {"[true]", "{\"0\":false}", "[]", "{\"1\":true,\"0\":false}"},
    {"{\"1\":[1],\"2\":{\"0\":2}}", "{}", "{\"3\":{}}", "{\"3\":{\"1\":1,\"0\":0}}"}, {"null", "[7]", "{\"0\":8}", "{}"}};
  int N = 1 + mc::choose(Max), First = mc::choose(6), Back = mc::choose(2), Skip = mc::choose(2);
  vector<int> F(6, -1); S T;
  {
    mc::NoCount NC;
    T = "{";
    for (int I = 0; I < N; ++I) {
      int K = (First + (Back ? 6 - I : I)) % 6;
      F[K] = mc::choose(4);
      T += (I ? ",\"" : "\"") + S(Key[K]) + "\":" + Form[K][F[K]];
      if (Skip) T += ",\"X\":" + S(Form[(K + 2) % 6][F[K]]);
    }
    T += Skip ? ",\"name\":\"Wide\"}" : "}";
  }
  mc::op("%s", T.c_str());
  auto Value = [&](const Wide &W) {
    mc::NoCount NC;
    auto Is = [&](int K, const auto &V, const auto &A, const auto &B, const auto &C, const auto &D) {
      bool R = F[K] < 0 ? V == decay_t<decltype(V)>() : F[K] == 0 ? V == A : F[K] == 1 ? V == B : F[K] == 2 ? V == C : V == D;
      MC_CHECK(R, "field", "field %s differs in %s", Key[K], T.c_str()); };
    typedef vector<int> VI; typedef map<S, int> MI; typedef vector<vector<S>> VV; typedef map<int, VI> MV; typedef optional<VI> OV;
    Is(0, W[Wide::L], VI{}, VI{1, 2}, VI{3, 4}, VI{});
    Is(1, W[Wide::M], MI{}, MI{{"a", 1}}, MI{{"a", 1}, {"", 2}}, MI{});
    Is(2, W[Wide::N], VV{{}, {"a", "]"}}, VV{{"y", "x"}}, VV{{}}, VV{{"1"}, {"{"}, {}});
    vector<int> B; for (auto *P : W[Wide::O]) B.push_back(P ? *P : -1);
    Is(3, B, VI{1}, VI{0}, VI{}, VI{0, 1});
    Is(4, W[Wide::U], MV{{1, {1}}, {2, {2}}}, MV{}, MV{{3, {}}}, MV{{3, {0, 1}}});
    Is(5, W[Wide::V], OV{}, OV{VI{7}}, OV{VI{8}}, OV{VI{}});
  };
  json::Parser<Doc, Wide> P(T);
  for (int I = 0; I < 2; ++I) { // a parser may be used again
    Wide W;
    MC_CHECK(P.parse(W) && !P.hasErrors(), "refused", "%s is refused: %s", T.c_str(), P.errors().empty() ? "" : *P.errors().begin());
    Value(W);
    if (!Skip) continue;
    auto O = P.parse();
    MC_CHECK(O && O->is<Wide>() && !P.hasErrors(), "refused", "%s is refused: %s", T.c_str(), P.errors().empty() ? "" : *P.errors().begin());
    Value(O->as<Wide>());
  }
  finish(T);
  mc::NoCount NC; S().swap(T);
}
} // namespace

void mc_register() {
  mc::scenario("wide", [] { wide(mc::bound(5, 6)); });
  mc::scenario("plain", [] { plain(mc::bound(2, 3)); });
  mc::scenario("named", [] { named(mc::bound(1, 2)); });
  mc::scenario("hands", hands);
}
