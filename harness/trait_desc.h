// Interface to a trait descriptor of any type.
#ifndef VERIF_TRAIT_DESC_H
#define VERIF_TRAIT_DESC_H
#include "mc.h"
#include <cassert>
#include <sstream>
#include <bcl/trait.h>
#include <memory>
#include <string>
#include <vector>

namespace td {
using Ints = std::vector<int>;
using std::string;
template <int N> struct T : bcl::TraitBase<N> { static constexpr int Num = N; };
template <class... X> using Alt = bcl::TraitAlternative<X...>;
template <class... X> using Un = bcl::TraitUnion<X...>;

struct Lister { Ints &V; int Calls; Lister(Ints &V) : V(V), Calls((int)V.size()) {} template <class X> void operator()() { V.push_back(X::Num); ++Calls; }
  void same() const { if (Calls != (int)V.size()) mc::fail_later("functor", "a functor has been called %d times, but %d calls changed it", (int)V.size(), Calls); } };

/// A descriptor; traits are denoted by positions in the list of its traits.
struct IDesc {
  virtual ~IDesc() {}
  virtual void set(int I, int Via) = 0;       ///< member or free function
  virtual void unset(int I, int Via) = 0;
  virtual void unsetGroup(int I) = 0;
  virtual void unsetAll() = 0;
  virtual void set2(int I, int J) = 0;
  virtual void unset2(int I, int J, int Kind) = 0; ///< both, groups of both
  virtual int is(int I) = 0;                  ///< bits: is, is_any, Is, IsAny, is of a copy
  virtual int is2(int I, int J) = 0;          ///< bits: is both, is_any
  virtual Ints each(int Kind, int I) = 0;     ///< set, in group, conflict, available
  virtual string print() = 0;
  virtual string key(int I, int J) = 0;       ///< J is -1 for a single key
  virtual string mask(int I, int J) = 0;
  virtual int conflict(int I, int J) = 0;     ///< bits: groups, descriptor, set of traits, contained
  virtual bool equal(IDesc &D) = 0;
  virtual std::unique_ptr<IDesc> copy(int Kind) = 0;
  virtual void assign(IDesc &D, int Kind) = 0; ///< copy, move, trait::set, trait::update
  virtual unsigned char cross(int Kind, int To) { return 0; }
};
struct Type { const char *Name; Ints Traits; const char *Groups; std::unique_ptr<IDesc> (*Make)(); };
std::vector<Type> &types();

template <class D, class... Ts> struct TDesc : IDesc {
  D X;
  TDesc() {}
  TDesc(const D &Y) : X(Y) {}
  TDesc(D &&Y) : X(std::move(Y)) {}
  static constexpr int N = sizeof...(Ts);
  typedef void (*Op)(D &);
  typedef int (*Ask)(const D &);
  template <class A> static void fSet(D &X) { X.template set<A>(); }
  template <class A> static void fSetFree(D &X) { bcl::trait::set<A>(X); }
  template <class A> static void fUnset(D &X) { X.template unset<A>(); }
  template <class A> static void fUnsetFree(D &X) { bcl::trait::unset<A>(X); }
  template <class A> static void fUnsetGroup(D &X) { X.template unset_group<A>(); }
  template <class A> static int fIs(const D &X) {
    return X.template is<A>() | X.template is_any<A>() << 1 | bcl::trait::Is<A>::is(X) << 2 | bcl::ForwardTypeList<bcl::trait::IsAny, bcl::TypeList<A>>::Type::is_any(X) << 3 | X.template is<A, A>() << 4;
  }
  template <class A> static void fGroup(const D &X, Ints &V) { Lister L{V}; X.template for_each_in_group<A>(L); L.same(); }
  template <class A> static void fConflict(const D &X, Ints &V) { Lister L{V}; X.template for_each_conflict<A>(L); L.same(); }
  template <class A> static void fKey(std::ostream &S) { D::template printKey<A>(S); if (((unsigned long long)D::template getKey<A>()) != D::template joinKey<A, A>()) S << "!"; }
  template <class A> static void fMask(std::ostream &S) { D::template printMask<A>(S); }
  // Pairs: the first is chosen by the table, the second by the row.
  template <class A, class B> static void fSet2(D &X) { X.template set<A, B>(); }
  template <class A, class B> static void fUnset2(D &X) { X.template unset<A, B>(); }
  template <class A, class B> static void fUnsetGroup2(D &X) { X.template unset_group<A, B>(); }
  template <class A, class B> static int fIs2(const D &X) { return X.template is<A, B>() | X.template is_any<A, B>() << 1 | bcl::trait::Is<A, B>::is(X) << 2 | bcl::trait::IsAny<A, B>::is_any(X) << 3; }
  template <class A, class B> static void fKey2(std::ostream &S) { D::template printKey<A, B>(S); }
  template <class A, class B> static void fMask2(std::ostream &S) { D::template printMask<A, B>(S); }
  template <class A, class B> static int fConf(const D &) {
    typedef bcl::TraitSet<D, std::map<bcl::TraitKey, void *>> S;
    return bcl::trait::is_conflict<A, B, D>::value | bcl::trait::is_conflict<A, B, S>::value << 1 | bcl::IsTypeExist<B, typename Conf<A, D>::Type>::value << 2 |
      std::is_same<bcl::trait::find_group_t<A, D>, bcl::trait::find_group_t<B, D>>::value << 3 | (bcl::trait::is_contained<A, D>::value && bcl::trait::is_contained<B, S>::value) << 4;
  }
  template <class A, class Y> struct Conf;
  template <class A, class... G> struct Conf<A, bcl::TraitDescriptor<G...>> { typedef typename bcl::TraitConflict<A, G...>::Type Type; };
  typedef void FOp(D &); typedef int FAsk(const D &); typedef void FOut(std::ostream &);
#define ROW(Name, Sig) template <class A> static Sig *row##Name(int J) { static Sig *const R[] = {Name<A, Ts>...}; return R[J]; } \
  static Sig *tab##Name(int I, int J) { Sig *(*const R[])(int) = {row##Name<Ts>...}; return R[I](J); }
  ROW(fSet2, FOp) ROW(fUnset2, FOp) ROW(fUnsetGroup2, FOp) ROW(fIs2, FAsk) ROW(fKey2, FOut) ROW(fMask2, FOut) ROW(fConf, FAsk)
#undef ROW
  void set(int I, int Via) override { static const Op R[][2] = {{fSet<Ts>, fSetFree<Ts>}...}; R[I][Via](X); }
  void unset(int I, int Via) override { static const Op R[][2] = {{fUnset<Ts>, fUnsetFree<Ts>}...}; R[I][Via](X); }
  void unsetGroup(int I) override { static const Op R[] = {fUnsetGroup<Ts>...}; R[I](X); }
  void unsetAll() override { X.unset_all(); }
  void set2(int I, int J) override { tabfSet2(I, J)(X); }
  void unset2(int I, int J, int Kind) override { (Kind ? tabfUnsetGroup2(I, J) : tabfUnset2(I, J))(X); }
  int is(int I) override { static const Ask R[] = {fIs<Ts>...}; return R[I](X); }
  int is2(int I, int J) override { return tabfIs2(I, J)(X); }
  Ints each(int Kind, int I) override {
    Ints V; Lister L{V};
    static void (*const G[])(const D &, Ints &) = {fGroup<Ts>...}; static void (*const C[])(const D &, Ints &) = {fConflict<Ts>...};
    if (Kind == 0) X.for_each(L); else if (Kind == 1) G[I](X, V); else if (Kind == 2) C[I](X, V); else if (Kind == 3) D::for_each_available(L); else X.for_each(Lister{V});
    if (Kind == 0 || Kind == 3) L.same();
    return V;
  }
  string print() override { std::ostringstream S; X.print(S); return S.str(); }
  string key(int I, int J) override { std::ostringstream S; static void (*const R[])(std::ostream &) = {fKey<Ts>...}; if (J < 0) R[I](S); else tabfKey2(I, J)(S); return S.str(); }
  string mask(int I, int J) override { std::ostringstream S; static void (*const R[])(std::ostream &) = {fMask<Ts>...}; if (J < 0) R[I](S); else tabfMask2(I, J)(S); return S.str(); }
  int conflict(int I, int J) override { return tabfConf(I, J)(X); }
  bool equal(IDesc &Y) override { D &O = static_cast<TDesc &>(Y).X; if ((X == O) == (X != O)) mc::fail_later("equal", "operators == and != agree"); return X == O; }
  std::unique_ptr<IDesc> copy(int Kind) override { const D &C = X; return std::unique_ptr<IDesc>(Kind ? new TDesc(std::move(X)) : new TDesc(C)); }
  void assign(IDesc &Y, int Kind) override {
    D &O = static_cast<TDesc &>(Y).X; const D &C = O;
    if (Kind == 0) X = C; else if (Kind == 1) X = std::move(O); else if (Kind == 2) bcl::trait::set(C, X); else bcl::trait::update(C, X);
  }
  static std::unique_ptr<IDesc> make() { return std::unique_ptr<IDesc>(new TDesc); }
};
template <class D, class... Ts> void addDesc(const char *Name, const char *Groups) { types().push_back(Type{Name, {Ts::Num...}, Groups, TDesc<D, Ts...>::make}); }

/// Transfers between descriptors of different types.
struct Cross { const char *Name; int From, To; void (*Run)(int Kind, IDesc &From, IDesc &To); };
std::vector<Cross> &crosses();
template <class A, class B> struct TCross;
template <class A, class... As, class B, class... Bs> struct TCross<TDesc<A, As...>, TDesc<B, Bs...>> {
  static void run(int Kind, IDesc &F, IDesc &T) {
    const A &X = static_cast<TDesc<A, As...> &>(F).X; B &Y = static_cast<TDesc<B, Bs...> &>(T).X;
    if (Kind) bcl::trait::update(X, Y); else bcl::trait::set(X, Y);
  }
};

/// The declaration of a descriptor, read from its text.
struct Model {
  Ints Traits;
  std::vector<std::vector<Ints>> Groups; ///< groups of blocks of positions
  std::vector<int> Group;                ///< of each position
  std::vector<std::vector<char>> Conf;
  explicit Model(const Type &Ty) : Traits(Ty.Traits) {
    Groups.emplace_back(); Groups[0].emplace_back();
    int V = -1;
    auto pos = [&](int Num) { for (size_t I = 0; I < Traits.size(); ++I) if (Traits[I] == Num) return (int)I; return -1; };
    for (const char *P = Ty.Groups;; ++P) {
      if (*P >= '0' && *P <= '9') { V = (V < 0 ? 0 : V) * 10 + *P - '0'; continue; }
      if (V >= 0) { Groups.back().back().push_back(pos(V)); V = -1; }
      if (!*P) break;
      if (*P == ',') Groups.back().emplace_back();
      if (*P == ';') { Groups.emplace_back(); Groups.back().emplace_back(); }
    }
    int N = Traits.size();
    Group.assign(N, -1); Conf.assign(N, std::vector<char>(N, 0));
    for (size_t G = 0; G < Groups.size(); ++G)
      for (auto &B : Groups[G]) for (int I : B) Group[I] = G;
    for (int I = 0; I < N; ++I) for (int J = 0; J < N; ++J) {
      if (I == J || Group[I] != Group[J]) continue;
      bool Together = false;
      for (auto &B : Groups[Group[I]]) { bool A = false, C = false; for (int K : B) A |= K == I, C |= K == J; Together |= A && C; }
      Conf[I][J] = !Together;
    }
  }
  void set(std::vector<char> &S, int I) const { for (size_t J = 0; J < S.size(); ++J) if (Conf[I][J]) S[J] = 0; S[I] = 1; }
};
} // namespace td
#endif
