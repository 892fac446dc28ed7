// Legacy facilities: error descriptions, static trees and cells of any type.
#ifndef VERIF_LEGACY_H
#define VERIF_LEGACY_H
#include "mc.h"
#include <bcl/legacy/exception.h>
#include <bcl/legacy/text.h>
#include <bcl/legacy/tree.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace lg {
using Ints = std::vector<int>;
inline void put(int &X, int V) { X = V; }
inline void put(std::string &X, int V) { X = std::string(20, 'a') + char('0' + V); }
inline void put(std::vector<int> &X, int V) { X = {V, 7}; }
inline int take(int X) { return X; }
inline int take(const std::string &X) { return X.size() == 21 ? X[20] - '0' : -1; }
inline int take(const std::vector<int> &X) { return X.size() == 2 ? X[0] : -1; }
template <int N> struct TypeOf { typedef int type; };
template <> struct TypeOf<1> { typedef std::string type; };
template <> struct TypeOf<2> { typedef std::vector<int> type; };
/// Identifiers with a value of some type, of two families.
template <int N, int F = 0> struct I { typedef typename TypeOf<N % 3>::type ValueType; };
template <class T> struct Num;
template <int N, int F> struct Num<I<N, F>> { static constexpr int value = N; };

//===--- Errors ---------------------------------------------------------===//
struct Case { std::string Name; std::function<void()> Run; };
std::vector<Case> &cases();
struct Expected { int Code; const char *Type, *Brief; int Below; };
struct Thrown { const char *Acronym; int Code; };
typedef std::vector<std::pair<Base::ErrorCode (*)(const Base::IException &), Base::Text (*)(const Base::IException &)>> Users;
void compareError(const std::string &Name, const Expected &E, const char *Acronym, int Code, int Below, const std::string &Type,
                  const std::string &Brief, const std::string &Text);
void compareThrown(const std::string &Name, const Expected &E, const Base::IException &X, const std::vector<Thrown> &T, const Users &U);
template <class App> Base::ErrorCode codeIn(const Base::IException &E) { return E.Code<App>(); }
template <class App> Base::Text textIn(const Base::IException &E) { return E.ToText<App>(); }
template <class P> struct Last { typedef typename Base::ReverseCell<P>::Result::CellId type; };

/// An error with a path of descriptions, thrown and used by some applications.
template <class App, class Path, class... Apps> void addError(std::string Name, Expected E, const char *Acronym, std::vector<Thrown> T) {
  cases().push_back({Name, [=] {
    compareError(Name, E, Acronym, Base::CodeOfError<Path, App>(), Base::CountOfErrors<typename Last<Path>::type>(), Base::TypeOfError<Path, App>(),
                 Base::BriefOfError<Path>(), Base::ErrorToText<Path, App>());
    typedef Base::Exception<App> Exc;
    Users U{{codeIn<Apps>, textIn<Apps>}...};
    bool Caught = false;
    try { throw typename Exc::template Error<Path>(); }
    catch (const typename Exc::template Error<Path> &X) { Caught = true; compareThrown(Name, E, X, T, U); }
    MC_CHECK(Caught, "catch", "%s: not caught", Name.c_str());
    try { throw typename Exc::template Error<Path>(); }
    catch (const Exc &X) { compareThrown(Name, E, X, T, U); }
    try { throw typename Exc::template Error<Path>(); }
    catch (const Base::IException &X) { compareThrown(Name, E, X, T, U); }
    try { throw typename Exc::template TypeCastError<Path>("one", ""); }
    catch (const typename Exc::template TypeCastError<Path> &X) {
      std::string B = E.Brief, P = B.rfind(": ") == std::string::npos ? "" : B.substr(0, B.rfind(": ") + 2);
      std::string M = P + "type cast from type 'one' to type '' is not valid";
      MC_CHECK(X.FromType() == "one" && X.ToType() == "" && X.Message() == M && X.Brief() == B && X.RelativeCode() == E.Code, "type-cast",
               "%s: type cast error has message '%s' instead of '%s'", Name.c_str(), X.Message().c_str(), M.c_str());
    }
  }});
}
template <class App> void addCount(std::string Name, int N) {
  cases().push_back({Name, [=] {
    int C = Base::CountOfAppErrors<App>();
    MC_CHECK(C == N, "count", "%s: application has %d errors instead of %d", Name.c_str(), C, N);
  }});
}

//===--- Trees ----------------------------------------------------------===//
struct ITree {
  virtual ~ITree() {}
  virtual void set(int Id, int How, int V) = 0;
  virtual Ints get() = 0;             ///< values in preorder; reports other faults
  virtual Ints visit(int Kind, Ints &Vals) = 0;
  virtual std::unique_ptr<ITree> copy(int Kind) = 0;
  virtual void assign(ITree &From) = 0;
};
struct TreeType { const char *Name; Ints Pre, Post; std::unique_ptr<ITree> (*Make)(); std::string (*Static)(); };
std::vector<TreeType> &trees();
typedef Utility::Null Null;
template <class T> struct Other { typedef Null type; };
template <int N, class L, class R> struct Other<Base::Node<I<N>, L, R>> { typedef Base::Node<I<N, 1>, typename Other<L>::type, typename Other<R>::type> type; };

/// Calls F for each node in preorder.
template <class F> void each(Null &, F &) {}
template <class F> void each(const Null &, F &) {}
template <class T, class F> void each(T &X, F &Fn) { Fn(X); each(X.LeftNode(), Fn); each(X.RightNode(), Fn); }
template <class Tree> struct TTree : ITree {
  Tree X;
  TTree() { Ids F{X, 0, 0, 0, nullptr}; each(X, F); }
  template <class Y> TTree(const Y &From, int) : X(From) {}
  template <class L, class R> TTree(const typename Tree::ValueType &V, const L &Le, const R &Ri) : X(V, Le, Ri) {}
  /// Sets or gets values by identifiers.
  struct Ids {
    Tree &X; int Id, How, V; Ints *Out;
    template <class N> void operator()(N &Node) {
      typedef typename N::Id W;
      const Tree &C = X; const N &CN = Node;
      if (Out) {
        const auto *P = &X.template Value<W>();
        if (P != &C.template Value<W>() || P != &X[W()] || P != &C[W()] || P != &Node.template Value<W>() || P != &CN[W()])
          mc::fail_later("address", "ways to access a value denote different objects");
        Out->push_back(take(*P));
      } else if (How == 0) put(X.template Value<W>(), 0);
      else if (Num<W>::value == Id) {
        if (How == 1) put(X.template Value<W>(), V);
        else if (How == 2) put(X[W()], V);
        else put(Node[W()], V);
      }
    }
  };
  void set(int Id, int How, int V) override { Ids F{X, Id, How + 1, V, nullptr}; each(X, F); }
  Ints get() override {
    Ints R, S; Ids F{X, 0, 0, 0, &R}; each(X, F);
    const Tree &C = X; const void *L = &C.LeftNode(), *Ri = &C.RightNode();
    if (L != &X.LeftNode() || Ri != &X.RightNode()) mc::fail_later("address", "subtrees of constant trees are different");
    return R;
  }
  struct Visitor { Ints &Id, &Val; template <class N> void operator()(N &X) { Id.push_back(Num<typename N::Id>::value); Val.push_back(take(X[typename N::Id()])); } };
  struct Adder { int V; template <class N> void operator()(N &X) { put(X[typename N::Id()], V++); } };
  Ints visit(int Kind, Ints &Vals) override {
    Ints Id; Visitor F{Id, Vals};
    if (Kind == 0) Base::Visit(X, F);
    else if (Kind == 1) { const Tree &C = X; Base::Visit(C, F); }
    else { Adder A{1}; Base::Visit(X, A); }
    return Id;
  }
  std::unique_ptr<ITree> copy(int Kind) override {
    typedef typename Other<Tree>::type O;
    const Tree &C = X;
    if (Kind == 0) return std::unique_ptr<ITree>(new TTree(C, 0));
    if (Kind == 1) { O Y(C); return std::unique_ptr<ITree>(new TTree(Y, 0)); }
    return std::unique_ptr<ITree>(new TTree(C[typename Tree::Id()], C.LeftNode(), C.RightNode()));
  }
  void assign(ITree &From) override { X = static_cast<TTree &>(From).X; }
  struct Exist {
    std::string R;
    template <class N> void operator()(N &) {
      typedef Base::IsNodeExist<Tree, typename N::Id> E;
      if (!std::is_base_of<Utility::True, E>::value || !std::is_same<typename E::Result, N>::value) R += "IsNodeExist ";
      if (std::is_base_of<Utility::True, Base::IsNodeExist<Tree, I<Num<typename N::Id>::value, 1>>>::value) R += "IsNodeExist(absent) ";
    }
  };
  static std::string statics() {
    std::unique_ptr<TTree> T(new TTree); Exist E; each(T->X, E);
    if (!std::is_same<typename Base::IsNodeExist<Tree, I<99>>::Result, Null>::value) E.R += "Result(absent) ";
    return E.R;
  }
  static std::unique_ptr<ITree> make() { return std::unique_ptr<ITree>(new TTree); }
};
template <class T> void addTree(const char *Name, Ints Pre, Ints Post) { trees().push_back({Name, Pre, Post, TTree<T>::make, TTree<T>::statics}); }
} // namespace lg
#endif
