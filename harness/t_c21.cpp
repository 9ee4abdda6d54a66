// C21: a collection's own elements (or parts of them) as arguments of insertion
#include "ops.h"
#define MAXN (THOROUGH ? 4 : 2)
template <class F> static void own(F f, bool big = false) {
  Coll c; Model m; if (big) build_big(c, m); else build(c, m, MAXN, true); g_concrete = true; int t = any_type(); sx_assume(m.n[t] > 0); int s = pick(m.n[t], "source");
  with(t, [&](auto g) { using T = typename decltype(g)::type; f(g, c, m, t, s, m.v[t][s]); (void)sizeof(T); });
  verify(c, m);
}
#define SAME(it, p) do { m.ins(t, p, v); verify_light(c, m); it; } while (0)
// x: a reference to the source element, in one of several forms; place as in op_insert
template <class C, class T, class X> static void put(C& c, Model& m, int t, u32 v, int place, X& x) {
  switch (place) {
    case 0: { auto it = c.insert(x); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); break; }
    case 1: { Hint<C> h(c); int p = h.pos(m, t); auto it = c.insert(h.it, x); m.ins(t, p, v); chk_at(c, m, it, t, p); break; }
    default: { int p = pick(m.n[t] + 1, "pos"); at_local<T>(c, place - 2, p, [&](auto l) { auto it = c.insert(l, x); m.ins(t, p, v); chk_local(c, m, it, t, p); }); }
  }
}
static void self_insert(bool big) { own([](auto g, auto& c, Model& m, int t, int s, u32 v) { using T = typename decltype(g)::type; using C = std::decay_t<decltype(c)>; const C& cc = c; int place = (int)sx_choose(6, "place");
  switch (sx_choose(5, "form")) {
    case 0: { const T& x = *(cc.template begin<T>() + s); put<C, T>(c, m, t, v, place, x); break; }
    case 1: { T& x = *(c.template begin<T>() + s); put<C, T>(c, m, t, v, place, x); break; }
    case 2: { auto& x = *(c.begin(typeid(T)) + s); put<C, T>(c, m, t, v, place, x); break; }
    case 3: { auto& x = *(cc.begin(typeid(T)) + s); put<C, T>(c, m, t, v, place, x); break; }
    default: { auto it = c.begin(); u64 a = (c.template begin<T>() + s)->probe(2); for (int k = 0; P(*it, 2) != a; k++) { CHECK(k < CAP * NT); ++it; } auto& x = *it; put<C, T>(c, m, t, v, place, x); } } }, big); }
// constructor arguments: the element itself, or a value inside it
template <class C, class T, class... A> static void make(C& c, Model& m, int t, u32 v, int place, A&... a) {
  const C& cc = c;
  switch (place) {
    case 0: { auto it = c.template emplace<T>(a...); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); break; }
    case 1: { Hint<C> h(c); int p = h.pos(m, t); auto it = c.template emplace_hint<T>(h.it, a...); m.ins(t, p, v); chk_at(c, m, it, t, p); break; }
    default: { int p = pick(m.n[t] + 1, "pos");
      if (place == 2) { auto it = c.template emplace_pos<T>(c.begin(typeid(T)) + p, a...); m.ins(t, p, v); chk_local(c, m, it, t, p); }
      else if (place == 3) { auto it = c.template emplace_pos<T>(cc.begin(typeid(T)) + p, a...); m.ins(t, p, v); chk_local(c, m, it, t, p); }
      else if (place == 4) { auto it = c.emplace_pos(c.template begin<T>() + p, a...); m.ins(t, p, v); chk_local(c, m, it, t, p); }
      else { auto it = c.emplace_pos(cc.template begin<T>() + p, a...); m.ins(t, p, v); chk_local(c, m, it, t, p); } } }
}
static void self_emplace(bool big) { own([](auto g, auto& c, Model& m, int t, int s, u32 v) { using T = typename decltype(g)::type; using C = std::decay_t<decltype(c)>; int place = (int)sx_choose(6, "place"); T& x = *(c.template begin<T>() + s);
  switch (sx_choose(4, "argument")) { case 0: make<C, T>(c, m, t, v, place, x); break; case 1: { const T& y = x; make<C, T>(c, m, t, v, place, y); break; } case 2: make<C, T>(c, m, t, v, place, x.c.v); break; default: { u32 w = sym32("w"); make<C, T>(c, m, t, v ^ w, place, x.c.v, w); } } }, big); }
ENTRY(from_other_type) { // a value inside an element of another segment
  Coll c; Model m; build(c, m, 1, true); int t = any_type(), q = any_type(); sx_assume(m.n[t] > 0 && q != t);
  with(t, [&](auto g) { using T = typename decltype(g)::type; with(q, [&](auto h) { using Q = typename decltype(h)::type; u32 v = m.v[t][0]; u32& r = c.template begin<T>()->c.v; if (sx_choose(2, "hint")) { auto it = c.template emplace_hint<Q>(c.cbegin(), r); Where w = where(c, 0); (void)w; (void)it; sx_assume(m.n[q] == 0); m.add(q, v); } else { c.template emplace<Q>(r); m.add(q, v); } }); }); verify(c, m);
}
ENTRY(twice) { // repeatedly: growth is passed several times
  Coll c; Model m; int t = any_type(); with(t, [&](auto g) { using T = typename decltype(g)::type; u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); int rounds = THOROUGH ? 5 : 4; bool front = sx_choose(2, "front");
    for (int k = 0; k < rounds; k++) { int s = (int)sx_range(m.n[t], "source"); u32 x = m.v[t][s]; auto& y = *(c.begin(typeid(T)) + s); if (front) { c.insert(c.cbegin(typeid(T)), y); m.ins(t, 0, x); } else { c.insert(y); m.add(t, x); } } }); verify(c, m);
}
ENTRY(insert) { self_insert(false); }
ENTRY(emplace) { self_emplace(false); }
ENTRY(big_insert) { self_insert(true); }
ENTRY(big_emplace) { self_emplace(true); }
