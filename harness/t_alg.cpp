// C11: every algorithm agrees with its standard counterpart.
// C12 (-DRESTITUTION): what the function objects receive.
#include "pc.h"
#include <algorithm>
#ifndef RESTITUTION
#define RESTITUTION 0
#endif
#ifndef MAXN
#define MAXN (THOROUGH ? 3 : 2)
#endif
#ifndef MAXTOTAL
#if GROUP == 1
#define MAXTOTAL (THOROUGH ? 5 : 4)
#else
#define MAXTOTAL (THOROUGH ? 7 : 5)
#endif
#endif
namespace pcn = boost::poly_collection;
#define MAXE (NT * MAXN + 4)
// ---------------------------------------------------------------- the two runs
struct Val { u32 v; int id; };                       // element of a second sequence, or a value searched
struct R { int id; u32 v; };                         // reference run: stands for one element
static u64 g_addr[MAXE]; static int g_type[MAXE]; static u32 g_val[MAXE]; static int g_n;
static int g_log[2][128], g_len[2], g_ph; static bool g_listed[NT]; static bool g_const; static int g_moved;
static void note(int x) { CHECKM(g_len[g_ph] < 128, "too many calls"); g_log[g_ph][g_len[g_ph]++] = x; }
template <class T> struct IsElem { enum { value = 0, id = -1 }; };
template <int I> struct IsElem<Elem<I>> { enum { value = 1, id = I }; };
template <> struct IsElem<T2> { enum { value = 1, id = 2 }; };
template <> struct IsElem<T3> { enum { value = 1, id = 3 }; };
static int id_of(u64 a) { for (int i = 0; i < g_n; i++) if (g_addr[i] == a) return i; CHECKM(false, "function object called with something that is not an element of the collection"); return 0; }
// what a function object sees: identity (an element or an item of the second sequence)
inline int see(const R& r) { return r.id; }
inline int see(const Val& v) { return 16 + v.id; }
template <class X> int see(X&& x) {
  using T = std::decay_t<X>; int id = id_of(P(x, 2));
#if RESTITUTION
  CHECKM((IsElem<T>::value != 0) == g_listed[g_type[id]], "concrete type passed exactly for the listed types");
  if (IsElem<T>::value) { CHECKM((int)IsElem<T>::id == g_type[id], "concrete type of the element"); CHECKM(std::is_const<std::remove_reference_t<X>>::value == g_const, "constness of the element"); }
#if KIND == 0
  CHECKM(std::is_const<std::remove_reference_t<X>>::value == g_const, "constness of the element");
#endif
#else
  (void)sizeof(T);
#endif
  return id;
}
inline u32 val(const R& r) { return r.v; }
inline u32 val(const Val& v) { return v.v; }
template <class X> u32 val(const X& x) { return (u32)P(x, 0); }
template <class X, class = std::enable_if_t<!std::is_same<std::decay_t<X>, Val>::value>> bool operator==(X&& x, const Val& y) { note(see(std::forward<X>(x)) * 64 + y.id); return val(x) == y.v; }

#if KIND == 0 // overloads without relation: elements compared with ==
inline bool operator==(const R& x, const R& y) { return x.v == y.v; }
template <class X, class Y, class = std::enable_if_t<std::is_base_of<Base, std::decay_t<X>>::value && std::is_base_of<Base, std::decay_t<Y>>::value>> bool operator==(X&& x, Y&& y) { u32 a = val(x), b = val(y); see(std::forward<X>(x)); see(std::forward<Y>(y)); return a == b; }
#endif
struct U { int calls = 0; template <class X> bool operator()(X&& x) { calls++; note(see(std::forward<X>(x))); return val(x) & 1; } };
struct Rel { int k; template <class X, class Y> bool operator()(X&& x, Y&& y) const { u32 a = val(x), b = val(y); note(see(std::forward<X>(x)) * 64 + see(std::forward<Y>(y))); return k ? a < b : a == b; } };
struct F { template <class X> int operator()(X&& x) { int i = see(std::forward<X>(x)); note(i); return 100 + i; } template <class X, class Y> int operator()(X&& x, Y&& y) { int i = see(std::forward<X>(x)) * 64 + see(std::forward<Y>(y)); note(i); return 100 + i; } };
struct Out { // output iterator: logs what is written
  typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
  int n = 0, ch = 0;
  struct Ref { Out* o; template <class X> void operator=(X&& x) const { if (!std::is_lvalue_reference<X>::value) g_moved++; note(10000 * (o->ch + 1) + see(x)); } void operator=(int x) const { note(20000 + x); } };
  Ref operator*() { return {this}; } Out& operator++() { n++; return *this; } Out operator++(int) { Out r = *this; n++; return r; }
};
template <class T> struct Fwd { // forward iterator over an array
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T* p = nullptr; const T& operator*() const { return *p; } const T* operator->() const { return p; }
  Fwd& operator++() { ++p; return *this; } Fwd operator++(int) { Fwd r = *this; ++p; return r; } bool operator==(const Fwd& x) const { return p == x.p; } bool operator!=(const Fwd& x) const { return p != x.p; }
};
using RI = Fwd<R>; using VI = Fwd<Val>;
static void same_log() { CHECKM(g_len[0] == g_len[1], "number of calls and writes"); for (int i = 0; i < g_len[0] && i < g_len[1]; i++) CHECKM(g_log[0][i] == g_log[1][i], "sequence of calls and writes"); }
template <class It> int pos_of(It b, It x) { int k = 0; for (; b != x; ++b) { CHECKM(k < g_n, "returned iterator not in the collection"); k++; } return k; }

// ---------------------------------------------------------------- one comparison
struct Lcg { typedef u32 result_type; u32 s; static constexpr u32 min() { return 0; } static constexpr u32 max() { return 0xffffffffu; } u32 operator()() { s = s * 1664525u + 1013904223u; return s; } };
struct Args { int a, b; const R* r; const Val* v; int m, k; Val x, y; };
#define BOTH(expr_ref, expr_lib) do { g_ph = 0; auto r0 = expr_ref; g_ph = 1; auto r1 = expr_lib; (void)r0; (void)r1; CHECKM(r0 == r1, "result"); sx_observe((u64)r0); } while (0)
#define BOTH_IT(expr_ref, expr_lib) do { g_ph = 0; auto r0 = expr_ref; g_ph = 1; auto r1 = expr_lib; CHECKM((int)(r0.p - q.r) == pos_of(beg, r1), "position returned"); sx_observe((u64)(r0.p - q.r)); } while (0)
#define BOTH_OUT(expr_ref, expr_lib) do { g_ph = 0; Out r0 = expr_ref; g_ph = 1; Out r1 = expr_lib; CHECKM(r0.n == r1.n, "number of elements written"); sx_observe((u64)r0.n); } while (0)
template <class... Ts, class It> void compare(int op, It beg, It f, It l, const Args& q) {
  RI rf{q.r + q.a}, rl{q.r + q.b}; VI vf{q.v}, vl{q.v + q.m}; Rel rel{q.k}; int n = q.b - q.a; (void)rf; (void)rl; (void)vf; (void)vl; (void)rel; (void)n; (void)beg;
  switch (op) {
#if GROUP == 0
    case 0: BOTH(std::all_of(rf, rl, U{}), pcn::all_of<Ts...>(f, l, U{})); break;
    case 1: BOTH(std::any_of(rf, rl, U{}), pcn::any_of<Ts...>(f, l, U{})); break;
    case 2: BOTH(std::none_of(rf, rl, U{}), pcn::none_of<Ts...>(f, l, U{})); break;
    case 3: BOTH(std::for_each(rf, rl, U{}).calls, pcn::for_each<Ts...>(f, l, U{}).calls); break;
    case 4: { int k = (int)sx_range(n + 1, "count"); BOTH_IT(std::for_each_n(rf, k, U{}), pcn::for_each_n<Ts...>(f, k, U{})); break; }
    case 5: BOTH_IT(std::find(rf, rl, q.x), pcn::find<Ts...>(f, l, q.x)); break;
    case 6: BOTH_IT(std::find_if(rf, rl, U{}), pcn::find_if<Ts...>(f, l, U{})); break;
    case 7: BOTH_IT(std::find_if_not(rf, rl, U{}), pcn::find_if_not<Ts...>(f, l, U{})); break;
    case 8: BOTH_IT(std::adjacent_find(rf, rl, rel), pcn::adjacent_find<Ts...>(f, l, rel)); break;
    case 9: BOTH(std::count(rf, rl, q.x), pcn::count<Ts...>(f, l, q.x)); break;
    case 10: BOTH(std::count_if(rf, rl, U{}), pcn::count_if<Ts...>(f, l, U{})); break;
    case 11: { int k = (int)sx_range(n + 2, "count"); BOTH_IT(std::search_n(rf, rl, k, q.x), pcn::search_n<Ts...>(f, l, k, q.x)); return; }
    case 12: { int k = (int)sx_range(n + 2, "count"); BOTH_IT(std::search_n(rf, rl, k, q.x, rel), pcn::search_n<Ts...>(f, l, k, q.x, rel)); return; }
    case 13: BOTH(std::is_partitioned(rf, rl, U{}), pcn::is_partitioned<Ts...>(f, l, U{})); break;
    case 14: { g_ph = 0; sx_assume(std::is_partitioned(rf, rl, U{})); BOTH_IT(std::partition_point(rf, rl, U{}), pcn::partition_point<Ts...>(f, l, U{})); return; }
    case 15: { int k = (int)sx_range(3, "count") - 2; if (n > 0 || k < 0) BOTH_IT(std::for_each_n(rf, k > 0 ? k : 0, U{}), pcn::for_each_n<Ts...>(f, k > 0 ? k : 0, U{})); break; }
#if KIND == 0
    case 16: BOTH_IT(std::adjacent_find(rf, rl), pcn::adjacent_find<Ts...>(f, l)); return;
#endif
#elif GROUP == 1
    case 0: BOTH_IT(std::find_first_of(rf, rl, vf, vl), pcn::find_first_of<Ts...>(f, l, vf, vl)); break;
    case 1: BOTH_IT(std::find_first_of(rf, rl, vf, vl, rel), pcn::find_first_of<Ts...>(f, l, vf, vl, rel)); break;
    case 2: BOTH_IT(std::find_end(rf, rl, vf, vl), pcn::find_end<Ts...>(f, l, vf, vl)); return;
    case 3: BOTH_IT(std::find_end(rf, rl, vf, vl, rel), pcn::find_end<Ts...>(f, l, vf, vl, rel)); return;
    case 4: BOTH_IT(std::search(rf, rl, vf, vl), pcn::search<Ts...>(f, l, vf, vl)); return;
    case 5: BOTH_IT(std::search(rf, rl, vf, vl, rel), pcn::search<Ts...>(f, l, vf, vl, rel)); return;
    case 6: case 7: case 8: case 9: {
      if (op < 8) sx_assume(q.m >= n); auto P1 = [&](auto r0, auto r1) { CHECKM((int)(r0.first.p - q.r) == pos_of(beg, r1.first), "position returned"); CHECKM(r0.second == r1.second, "position in the second sequence"); };
      g_ph = 0; auto r0 = op == 6 ? std::mismatch(rf, rl, vf) : op == 7 ? std::mismatch(rf, rl, vf, rel) : op == 8 ? std::mismatch(rf, rl, vf, vl) : std::mismatch(rf, rl, vf, vl, rel);
      g_ph = 1; auto r1 = op == 6 ? pcn::mismatch<Ts...>(f, l, vf) : op == 7 ? pcn::mismatch<Ts...>(f, l, vf, rel) : op == 8 ? pcn::mismatch<Ts...>(f, l, vf, vl) : pcn::mismatch<Ts...>(f, l, vf, vl, rel); P1(r0, r1); break; }
    case 10: sx_assume(q.m >= n); BOTH(std::equal(rf, rl, vf), pcn::equal<Ts...>(f, l, vf)); break;
    case 11: sx_assume(q.m >= n); BOTH(std::equal(rf, rl, vf, rel), pcn::equal<Ts...>(f, l, vf, rel)); break;
    case 12: BOTH(std::equal(rf, rl, vf, vl), pcn::equal<Ts...>(f, l, vf, vl)); break;
    case 13: BOTH(std::equal(rf, rl, vf, vl, rel), pcn::equal<Ts...>(f, l, vf, vl, rel)); break;
    case 14: sx_assume(q.m >= n); BOTH(std::is_permutation(rf, rl, vf, Rel{0}), pcn::is_permutation<Ts...>(f, l, vf, Rel{0})); return;
    case 15: BOTH(std::is_permutation(rf, rl, vf, vl, Rel{0}), pcn::is_permutation<Ts...>(f, l, vf, vl, Rel{0})); return;
#if KIND == 0
    case 16: sx_assume(q.m >= n); BOTH(std::is_permutation(rf, rl, vf, Rel{0}), pcn::is_permutation<Ts...>(f, l, vf)); return;
    case 17: BOTH(std::is_permutation(rf, rl, vf, vl, Rel{0}), pcn::is_permutation<Ts...>(f, l, vf, vl)); return;
#endif
#elif GROUP == 2
    case 0: BOTH_OUT(std::copy(rf, rl, Out{}), pcn::copy<Ts...>(f, l, Out{})); break;
    case 1: { std::ptrdiff_t k = (std::ptrdiff_t)sx_range(n + 1, "count"); BOTH_OUT(std::copy_n(rf, k, Out{}), pcn::copy_n<Ts...>(f, k, Out{})); break; }
    case 2: BOTH_OUT(std::copy_if(rf, rl, Out{}, U{}), pcn::copy_if<Ts...>(f, l, Out{}, U{})); break;
    case 3: g_moved = 0; BOTH_OUT(std::copy(rf, rl, Out{}), pcn::move<Ts...>(f, l, Out{})); if (KIND == 0) CHECKM(g_moved == n, "elements passed as rvalues"); break;
    case 4: BOTH_OUT(std::transform(rf, rl, Out{}, F{}), pcn::transform<Ts...>(f, l, Out{}, F{})); break;
    case 5: sx_assume(q.m >= n); BOTH_OUT(std::transform(rf, rl, vf, Out{}, F{}), pcn::transform<Ts...>(f, l, vf, Out{}, F{})); break;
    case 6: BOTH_OUT(std::replace_copy(rf, rl, Out{}, q.x, q.y), pcn::replace_copy<Ts...>(f, l, Out{}, q.x, q.y)); break;
    case 7: BOTH_OUT(std::replace_copy_if(rf, rl, Out{}, U{}, q.y), pcn::replace_copy_if<Ts...>(f, l, Out{}, U{}, q.y)); break;
    case 8: BOTH_OUT(std::remove_copy(rf, rl, Out{}, q.x), pcn::remove_copy<Ts...>(f, l, Out{}, q.x)); break;
    case 9: BOTH_OUT(std::remove_copy_if(rf, rl, Out{}, U{}), pcn::remove_copy_if<Ts...>(f, l, Out{}, U{})); break;
    case 10: { Rel eq{0}; BOTH_OUT(std::unique_copy(rf, rl, Out{}, eq), pcn::unique_copy<Ts...>(f, l, Out{}, eq)); // only what is written: the pairs compared may differ
      int w[2][MAXE], c[2]; for (int p = 0; p < 2; p++) { c[p] = 0; for (int i = 0; i < g_len[p]; i++) if (g_log[p][i] >= 10000) w[p][c[p]++] = g_log[p][i]; } CHECKM(c[0] == c[1], "number of elements written"); for (int i = 0; i < c[0]; i++) CHECKM(w[0][i] == w[1][i], "elements written"); return; }
    case 11: { int k = (int)sx_range(n + 1, "middle"); It mid = f; for (int i = 0; i < k; i++) ++mid; BOTH_OUT(std::rotate_copy(rf, RI{q.r + q.a + k}, rl, Out{}), pcn::rotate_copy<Ts...>(f, mid, l, Out{})); break; }
    case 12: { Out t, e; e.ch = 2; g_ph = 0; auto r0 = std::partition_copy(rf, rl, t, e, U{}); g_ph = 1; auto r1 = pcn::partition_copy<Ts...>(f, l, t, e, U{}); CHECKM(r0.first.n == r1.first.n && r0.second.n == r1.second.n, "number of elements written"); break; }
    case 13: { std::ptrdiff_t k = (std::ptrdiff_t)sx_choose(n + 2, "count"); g_ph = 1; Out o = pcn::sample<Ts...>(f, l, Out{}, k, Lcg{(u32)sx_choose(THOROUGH ? 8 : 3, "seed") * 77777u + 5u}); // a subsequence of the right length, in order
      int w = k < n ? (int)k : n; CHECKM(o.n == w && g_len[1] == w, "number of elements sampled"); int last = q.a - 1; for (int i = 0; i < w; i++) { int id = g_log[1][i] - 10000; CHECKM(id > last && id < q.b, "sampled elements are distinct, in order and within the range"); last = id; } return; }
#if KIND == 0
    case 14: { BOTH_OUT(std::unique_copy(rf, rl, Out{}), pcn::unique_copy<Ts...>(f, l, Out{})); // only what is written: the pairs compared may differ
      int w[2][MAXE], c[2]; for (int p = 0; p < 2; p++) { c[p] = 0; for (int i = 0; i < g_len[p]; i++) if (g_log[p][i] >= 10000) w[p][c[p]++] = g_log[p][i]; } CHECKM(c[0] == c[1], "number of elements written"); for (int i = 0; i < c[0]; i++) CHECKM(w[0][i] == w[1][i], "elements written"); return; }
#endif
#endif
    default: sx_assume(false);
  }
  same_log();
}
#if GROUP == 0
#define NOPS (KIND == 0 ? 17 : 16)
#elif GROUP == 1
#define NOPS (KIND == 0 ? 18 : 16)
#else
#define NOPS (KIND == 0 ? 15 : 14)
#endif
static void run(int list, bool lng = false) { // lng: longer segments, values 0/1
  Coll c; Model m; each_type([&](auto g) { using T = typename decltype(g)::type; c.template register_types<T>(); });
  int total = 0;
  static const int shapes[][NT < 3 ? 3 : NT] = {{1, 5, 1}, {5, 1, 0}, {3, 0, 3}, {0, 2, 5}, {7, 0, 0}}; int sh = lng ? (int)sx_choose(5, "shape") : 0;
  for (int t = 0; t < NT; t++) { int k = lng ? shapes[sh][t] : (int)sx_choose(MAXN + 1, "size"); total += k; if (!lng) sx_assume(total <= MAXTOTAL); with(t, [&](auto g) { using T = typename decltype(g)::type; for (int i = 0; i < k; i++) c.template emplace<T>((u32)sx_range(lng ? 2 : THOROUGH ? 4 : 3, "v")); }); }
  R r[MAXE]; g_n = 0; for (auto it = c.begin(); it != c.end(); ++it) { g_addr[g_n] = P(*it, 2); g_type[g_n] = (int)P(*it, 1); g_val[g_n] = (u32)P(*it, 0); r[g_n] = {g_n, g_val[g_n]}; g_n++; }
  CHECK(g_n == total);
  int a = (int)sx_choose(lng ? 2 : g_n + 1, "first"), b = lng ? g_n - (int)sx_choose(2, "cut") : a + (int)sx_choose(g_n - a + 1, "len");
  int op = (int)sx_choose(NOPS, "algorithm");
  Val v[MAXE]; Args q; q.a = a; q.b = b; q.r = r; q.v = v; q.k = 0; q.m = 0; q.x = {0, 40}; q.y = {7, 41};
#if GROUP == 0
  if (op == 5 || op == 9 || op == 11 || op == 12) q.x.v = (u32)sx_range(3, "x");
  if (op == 8 || op == 12) q.k = (int)sx_choose(2, "relation");
#elif GROUP == 1
  if (op >= 16) sx_assume(THOROUGH || list == (RESTITUTION ? 3 : 0));
  if (lng && op >= 14) { sx_assume(b - a <= 4); sx_assume(THOROUGH || list == 0); }
  q.m = (int)sx_choose((lng ? 3 : op >= 6 && op != 8 && op != 9 ? MAXTOTAL : 2) + 1, "len2"); if (lng && op >= 6) { sx_assume(q.m < 2 && (q.m == 0 || b - a < 7)); q.m = b - a + q.m; } for (int i = 0; i < q.m; i++) v[i] = {(u32)(lng && op < 6 ? sx_choose(2, "w") : sx_range(lng ? 2 : 3, "w")), i}; if (op < 14 && (op == 11 || op == 13 || (op < 10 && (op & 1)))) q.k = (int)sx_choose(2, "relation");
#else
  if (op == 5) { q.m = b - a; for (int i = 0; i < q.m; i++) v[i] = {0, i}; }
  if (op == 6 || op == 8) q.x.v = (u32)sx_range(3, "x");
#endif
  g_len[0] = g_len[1] = 0; for (auto& x : g_listed) x = false; g_const = list & 1;
  auto go = [&](auto beg, auto lst) { auto f = beg; for (int i = 0; i < a; i++) ++f; auto l = f; for (int i = a; i < b; i++) ++l; (void)lst; lst(beg, f, l); };
  const Coll& cc = c;
  switch (list) {
    case 0: go(c.begin(), [&](auto bg, auto f, auto l) { compare<>(op, bg, f, l, q); }); break;
    case 1: g_listed[1] = true; go(cc.begin(), [&](auto bg, auto f, auto l) { compare<Ty<1>>(op, bg, f, l, q); }); break;
    case 3: for (int t = 0; t < 3; t++) g_listed[t] = true; go(cc.begin(), [&](auto bg, auto f, auto l) { compare<Ty<0>, Ty<1>, Ty<2>>(op, bg, f, l, q); }); break;
    default: g_listed[0] = g_listed[2] = true; go(c.begin(), [&](auto bg, auto f, auto l) { compare<Ty<2>, Ty<0>>(op, bg, f, l, q); }); break;
  }
}
#if NT >= 5
ENTRY(many) { run(RESTITUTION ? 2 : 0); }
#else
#if THOROUGH || !RESTITUTION || GROUP != 1
ENTRY(plain) { run(0); }
ENTRY(long_plain) { run(0, true); }
#endif
ENTRY(one) { run(1); }
ENTRY(two) { run(2); }
#if THOROUGH || RESTITUTION
ENTRY(long_two) { run(2, true); }
ENTRY(all_listed) { run(3); }
#endif
#endif
