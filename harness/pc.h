// Common vocabulary of the harnesses: element types, the three collection kinds,
// and the reference model (one plain array of values per element type).
#pragma once
#include "sx.h"
#ifdef SX_BC
#include "support.h"
#endif
#ifndef KIND
#define KIND 0
#endif
#include <boost/poly_collection/algorithm.hpp>
#if KIND == 0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND == 1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <iterator>
#include <memory>
#include <new>
#include <type_traits>
#include <typeinfo>
#include <utility>

#ifndef THOROUGH
#define THOROUGH 0
#endif

// ------------------------------------------------------------------ faults
struct Fault { int where; };
enum { F_CTOR = 1, F_COPY = 2, F_MOVE = 4, F_ASSIGN = 8, F_ALLOC = 16, F_EQ = 32, F_FN = 64 };
inline int  g_fault_mask = 0;        // which kinds of operation may throw
inline u64  g_fault_at = ~0ull;      // symbolic: which one does
inline u64  g_fault_ctr = 0;
inline bool g_fault_hit = false;
inline void fault_point(int k) {
  if ((g_fault_mask & k) && !g_fault_hit) { if (g_fault_ctr++ == g_fault_at) { g_fault_hit = true; throw Fault{k}; } }
}
struct FaultScope { // a fault may happen at the n-th fallible step inside the scope
  FaultScope(int mask, u64 at) { g_fault_mask = mask; g_fault_at = at; g_fault_ctr = 0; g_fault_hit = false; }
  ~FaultScope() { g_fault_mask = 0; }
};

// ------------------------------------------------------------------ elements
enum : u32 { ALIVE = 0xA11CEu, MOVED = 0x30BEDu, DEAD = 0xDEADDEADu };
inline int g_live[16];
inline bool g_lenient = false;      // copying a moved-from element is fine (after a failure)
inline int g_copies = 0, g_moves = 0;
struct cell { // a value with a lifetime: knows where it was constructed and whether it still holds its value
  u32 v, st; const cell* self; int id;
  cell(int id, u32 v) : v(v), st(ALIVE), self(this), id(id) { ++g_live[id]; }
  cell(const cell& x) : v(x.peek()), st(x.st), self(this), id(x.id) { ++g_live[id]; ++g_copies; }
  cell(cell&& x, int) noexcept : v(x.v), st(x.st), self(this), id(x.id) { x.ok(); x.st = MOVED; ++g_live[id]; ++g_moves; }
  void assign(const cell& x) { ok(); v = x.peek(); st = x.st; ++g_copies; }
  void assign_move(cell& x) noexcept { ok(); x.ok(); if (&x != this) { v = x.v; st = x.st; x.st = MOVED; } ++g_moves; }
  ~cell() { ok(); st = DEAD; self = nullptr; --g_live[id]; }
  u32 peek() const noexcept { if (!g_lenient) return get(); ok(); return v; }
  void ok() const noexcept { sx_assert((st == ALIVE || st == MOVED) && self == this, "operation on an element that is not alive"); }
  u32 get() const noexcept { sx_assert(st == ALIVE && self == this, "value read from an element that is dead or moved from"); return v; }
};

struct Base { virtual ~Base() {} virtual u64 probe(int k) const = 0; virtual void poke(u32 v) = 0; };
struct Left { u64 pad; Left() : pad(0x1122334455667788ull) {} virtual ~Left() {} virtual int left() const { return 1; } };
template <int I> struct Bases : Base {};
template <> struct Bases<1> : Left, Base {};
template <> struct Bases<4> : Left, Base {};
template <int I> struct Traits { enum { align = 8, extra = 4, throwing_move = 0 }; };
#ifndef THROWY
#define THROWY 0
#endif
template <> struct Traits<1> { enum { align = 8, extra = 24, throwing_move = THROWY }; };
template <> struct Traits<2> { enum { align = 32, extra = 8, throwing_move = 0 }; };
template <> struct Traits<3> { enum { align = 8, extra = 1, throwing_move = 1 }; };

template <int I> struct alignas(Traits<I>::align) Elem : Bases<I> {
  cell c; u8 extra[Traits<I>::extra];
  static constexpr bool tm = Traits<I>::throwing_move;
  explicit Elem(u32 v) : c((fault_point(F_CTOR), I), v) { for (auto& x : extra) x = 0x5a; }
  Elem(u32 v, u32 w) : c((fault_point(F_CTOR), I), v ^ w) { for (auto& x : extra) x = 0x5a; }
  Elem(const Elem& x) : Bases<I>(x), c((fault_point(F_COPY), x.c)) { for (auto& y : extra) y = 0x5a; }
  Elem(Elem&& x) noexcept(!tm) : Bases<I>(x), c(((tm ? fault_point(F_MOVE) : (void)0), std::move(x.c)), 0) { for (auto& y : extra) y = 0x5a; }
  Elem& operator=(const Elem& x) { fault_point(F_ASSIGN); c.assign(x.c); return *this; }
  Elem& operator=(Elem&& x) noexcept(!tm) { if (tm) fault_point(F_MOVE); c.assign_move(x.c); return *this; }
  u64 probe(int k) const override { for (auto& y : extra) sx_assert(y == 0x5a, "element bytes overwritten"); if (k == 3) { c.ok(); return c.st == ALIVE; } return k == 0 ? c.get() : k == 1 ? I : (u64)(std::uintptr_t)this; }
  void poke(u32 v) override { c.get(); c.v = v; }
  u64 operator()(int k) const { return probe(k); }
  bool operator==(const Elem& x) const { fault_point(F_EQ); return c.get() == x.c.get(); }
  u32 value() const { return (u32)probe(0); }
};
using T0 = Elem<0>;                                               // open, single inheritance
using T1 = Elem<1>;                                               // open, interface at a nonzero offset
struct T2 final : Elem<2> { using Elem<2>::Elem; };               // final, over-aligned
struct T3 final : Elem<3> { using Elem<3>::Elem; };               // final, move may throw
template <int I> struct TI { using type = Elem<I>; };
template <class T> struct IdOf; 
#ifdef CUSTOM_TYPES
#include CUSTOM_TYPES
#else
template <> struct TI<2> { using type = T2; };
template <> struct TI<3> { using type = T3; };
template <int I> struct IdOf<Elem<I>> { enum { value = I }; }; template <> struct IdOf<T2> { enum { value = 2 }; }; template <> struct IdOf<T3> { enum { value = 3 }; };
#endif
template <int I> using Ty = typename TI<I>::type;
template <class T> struct tag { using type = T; };

#ifndef NT
#define NT 3
#endif
template <class F> inline void with(int t, F&& f) {
  switch (t) {
    case 0: f(tag<Ty<0>>{}); break;
#if NT > 1
    case 1: f(tag<Ty<1>>{}); break;
#endif
#if NT > 2
    case 2: f(tag<Ty<2>>{}); break;
#endif
#if NT > 3
    case 3: f(tag<Ty<3>>{}); break;
#endif
#if NT > 4
    case 4: f(tag<Ty<4>>{}); break;
#endif
    default: sx_assume(false);
  }
}
template <class F> inline void each_type(F&& f) {
  f(tag<Ty<0>>{});
#if NT > 1
  f(tag<Ty<1>>{});
#endif
#if NT > 2
  f(tag<Ty<2>>{});
#endif
#if NT > 3
  f(tag<Ty<3>>{});
#endif
#if NT > 4
  f(tag<Ty<4>>{});
#endif
}

// ------------------------------------------------------------------ the three kinds of collection
#if KIND == 0
template <template <class> class A> using CollA = boost::base_collection<Base, A<Base>>;
template <class V> inline u64 P(const V& x, int k) { return x.probe(k); }
#elif KIND == 1
template <template <class> class A> using CollA = boost::function_collection<u64(int), A<boost::poly_collection::function_collection_value_type<u64(int)>>>;
template <class V> inline u64 P(const V& x, int k) { return x(k); }
#else
namespace te = boost::type_erasure;
template <class T = te::_self> struct has_probe { static u64 apply(const T& x, int k) { return x.probe(k); } };
namespace boost { namespace type_erasure { template <class T, class B> struct concept_interface<has_probe<T>, B, T> : B { u64 probe(int k) const { return te::call(has_probe<T>(), *this, k); } }; } }
using Concept = boost::mpl::vector<has_probe<>, te::typeid_<>, te::relaxed>;
template <template <class> class A> using CollA = boost::any_collection<Concept, A<boost::poly_collection::any_collection_value_type<Concept>>>;
template <class C, class T> inline u64 P(const te::any<C, T>& x, int k) { return te::call(has_probe<>(), x, k); }
template <class T, class = typename std::enable_if<std::is_base_of<Base, T>::value>::type> inline u64 P(const T& x, int k) { return x.probe(k); }
#endif
#if KIND == 0
using Coll = boost::base_collection<Base>;
#elif KIND == 1
using Coll = boost::function_collection<u64(int)>;
#else
using Coll = boost::any_collection<Concept>;
#endif
using boost::poly_collection::unregistered_type;
using boost::poly_collection::not_copy_constructible;
using boost::poly_collection::not_equality_comparable;

// ------------------------------------------------------------------ reference model
#ifndef WIDE
#define WIDE 0
#endif
#ifndef CAP
#define CAP (WIDE ? 600 : 28)
#endif
struct Model {
  bool reg[NT]; int n[NT]; u32 v[NT][CAP];
  Model() { for (int t = 0; t < NT; t++) { reg[t] = false; n[t] = 0; } }
  void ins(int t, int p, u32 x) { reg[t] = true; for (int i = n[t]; i > p; i--) v[t][i] = v[t][i - 1]; v[t][p] = x; n[t]++; }
  void add(int t, u32 x) { ins(t, n[t], x); }
  void era(int t, int a, int b) { for (int i = b; i < n[t]; i++) v[t][a + i - b] = v[t][i]; n[t] -= b - a; }
  int total() const { int r = 0; for (int t = 0; t < NT; t++) r += n[t]; return r; }
};

template <class C, class Al = typename C::allocator_type> u64 value_at(C& c, int t, int i) { u64 r = 0; with(t, [&](auto g) { using T = typename decltype(g)::type; r = (c.template begin<T>() + i)->value(); }); return r; }

// everything a user can see of the contents, through every access path
template <class C> void verify(C& c, const Model& m, bool observe = true) {
  const C& cc = c;
  std::size_t total = 0; int nreg = 0;
  each_type([&](auto g) {
    using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value;
    CHECKM(cc.template is_registered<T>() == m.reg[t], "registration state");
    CHECKM(cc.is_registered(typeid(T)) == m.reg[t], "registration state");
    if (!m.reg[t]) return;
    nreg++; std::size_t n = m.n[t]; total += n;
    CHECKM(cc.template size<T>() == n && cc.size(typeid(T)) == n, "segment size");
    CHECKM(cc.template empty<T>() == (n == 0) && cc.empty(typeid(T)) == (n == 0), "segment empty()");
    CHECKM(cc.template capacity<T>() >= n && cc.capacity(typeid(T)) == cc.template capacity<T>(), "segment capacity");
    std::size_t i = 0;
    for (auto& x : c.template segment<T>()) { CHECKM(i < n, "segment longer than expected"); CHECKM(x.value() == m.v[t][i], "element value (typed local traversal)"); ++i; }
    CHECKM(i == n, "segment shorter than expected"); i = 0;
    for (auto it = cc.begin(typeid(T)), e = cc.end(typeid(T)); it != e; ++it) { CHECKM(i < n, "segment longer than expected"); CHECKM(P(*it, 1) == t, "type of element (local traversal)"); CHECKM(P(*it, 0) == m.v[t][i], "element value (local traversal)"); ++i; }
    CHECKM(i == n, "segment shorter than expected");
  });
  CHECKM(cc.size() == total, "size()"); CHECKM(cc.empty() == (total == 0), "empty()");
  int seen[NT]; for (auto& s : seen) s = 0;
  std::size_t k = 0; int last = -1;
  for (auto it = c.begin(), e = c.end(); it != e; ++it) {
    CHECKM(k < total, "traversal visits too many elements"); int t = (int)P(*it, 1); CHECKM(t >= 0 && t < NT, "type of element (traversal)");
    if (t != last) { CHECKM(seen[t] == 0, "segment visited twice"); last = t; }
    CHECKM(seen[t] < m.n[t], "traversal visits too many elements of a type"); u64 v = P(*it, 0); CHECKM(v == m.v[t][seen[t]], "element value (traversal)"); seen[t]++; k++;
    if (observe) { sx_observe(t); sx_observe(v); }
  }
  CHECKM(k == total, "traversal misses elements"); k = 0;
  for (auto it = cc.begin(), e = cc.end(); it != e; ++it) { CHECKM(k < total, "const traversal visits too many elements"); k++; P(*it, 0); }
  CHECKM(k == total, "const traversal misses elements"); k = 0; int segs = 0;
  for (auto s : cc.segment_traversal()) {
    segs++; CHECKM(segs <= nreg, "too many segments");
    for (auto it = s.begin(), e = s.end(); it != e; ++it) { CHECKM(k < total, "segment traversal visits too many elements"); k++; P(*it, 0); }
  }
  CHECKM(k == total && segs == nreg, "segment traversal misses elements");
}
// the same through one traversal only
template <class C> void verify_light(C& c, const Model& m) {
  std::size_t total = m.total(), k = 0; int seen[NT]; for (auto& s : seen) s = 0;
  CHECKM(c.size() == total, "size()");
  for (auto it = c.begin(), e = c.end(); it != e; ++it) { CHECKM(k < total, "traversal visits too many elements"); int t = (int)P(*it, 1); CHECKM(t >= 0 && t < NT, "type of element (traversal)"); CHECKM(seen[t] < m.n[t], "too many elements of a type"); CHECKM(P(*it, 0) == m.v[t][seen[t]], "element value"); seen[t]++; k++; }
  CHECKM(k == total, "traversal misses elements");
}

inline u32 sym32(const char* n) { return (u32)sx_sym(32, n); }

// a collection in an arbitrary state: per type unregistered, or registered with 0..maxn elements of
// arbitrary value and no or some spare capacity
// the order in which types get registered decides the order of segments
inline int g_order[NT]; inline bool g_ordered = false;
inline void any_order() { g_ordered = true; bool used[NT]; for (auto& x : used) x = false; for (int i = 0; i < NT; i++) { int k = (int)sx_choose(NT - i, "order"), t = 0; for (;; t++) if (!used[t] && k-- == 0) break; used[t] = true; g_order[i] = t; } }
template <class C> void build(C& c, Model& m, int maxn, bool allow_unreg = true, bool spare = true, int ntypes = NT) {
  for (int q = 0; q < ntypes; q++) { int t = g_ordered ? g_order[q] : q;
    int k = (int)sx_range(maxn + 1 + (allow_unreg ? 1 : 0), "size");
    if (allow_unreg && k == maxn + 1) continue;
    with(t, [&](auto g) {
      using T = typename decltype(g)::type; c.template register_types<T>(); m.reg[t] = true;
      int sp = spare ? (int)sx_choose(2, "spare") : 0;
      if (k + sp) c.template reserve<T>(k + 2 * sp);
      for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); }
    });
  }
}
// one type with many elements (no or some spare capacity), the others with one each
#ifndef BIGS
#if WIDE && THOROUGH
#define BIGS {40, 260}
#elif WIDE
#define BIGS {260}
#else
#define BIGS {5, 17}
#endif
#endif
inline int g_fix_type = -1; inline bool g_concrete = false;
inline int pick(u64 n, const char* name) {
  if (WIDE && n > 12) { static const int at[] = {0, 1, 63, 255, 256, 2, 31, 32, 64, 127, 128, 254}; u64 k = THOROUGH ? sizeof at / sizeof *at : 5, i = sx_choose(k + 2, name), r = i < k ? at[i] : n - 1 - (i - k); sx_assume(r < n); return (int)r; }
  return (int)(g_concrete ? sx_choose(n, name) : sx_range(n, name)); } // arbitrary position: one path per value with many elements, symbolic with few
template <class C> int build_big(C& c, Model& m, bool spare = true) {
  static const int sizes[] = BIGS; int big = (int)sx_choose(NT, "big"), n = sizes[sx_choose(sizeof sizes / sizeof *sizes, "size")]; g_fix_type = big; g_concrete = true;
  for (int t = 0; t < NT; t++) with(t, [&](auto g) { using T = typename decltype(g)::type; int k = t == big ? n : 1, sp = t == big && spare ? (int)sx_choose(2, "spare") : 0; m.reg[t] = true; c.template reserve<T>(k + 6 * sp); for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); } });
  return big;
}
// iterator at position h of the traversal, and which element of the model that is
template <class C> typename C::const_iterator nth(const C& c, int h) { auto it = c.begin(); while (h-- > 0) ++it; return it; }
struct Where { int t, i; }; // t<0: end
template <class C> Where where(const C& c, int h) {
  int seen[NT]; for (auto& s : seen) s = 0; auto it = c.begin(), e = c.end();
  for (; it != e; ++it) { int t = (int)P(*it, 1); if (h-- == 0) return {t, seen[t]}; seen[t]++; }
  return {-1, 0};
}
inline void no_live_elements() { for (int i = 0; i < 16; i++) CHECKM(g_live[i] == 0, "elements constructed but never destroyed (or destroyed twice)"); }
struct Clean { // nothing remains when the scope ends
  u64 h = sx_live_heap();
  ~Clean() { no_live_elements(); CHECKM(sx_live_heap() == h, "memory not returned"); }
};
#define ENTRY(n) static void body_##n(); extern "C" void h_##n() { Clean clean; body_##n(); sx_reach(#n); } static void body_##n()
