// C07: capacity, reserve, shrink_to_fit
#include "ops.h"
#include <stdexcept>
#define MAXN (THOROUGH ? 3 : 2)
static std::size_t cap(Coll& c, int t) { std::size_t r = 0; with(t, [&](auto g) { using T = typename decltype(g)::type; r = c.template capacity<T>(); CHECK(c.capacity(typeid(T)) == r); }); return r; }
static u64 addr0(Coll& c, int t) { u64 r = 0; with(t, [&](auto g) { using T = typename decltype(g)::type; r = c.template begin<T>()->probe(2); }); return r; }
ENTRY(reserve) {
  Coll c; Model m; build(c, m, MAXN); std::size_t before[NT] = {}; for (int t = 0; t < NT; t++) if (m.reg[t]) before[t] = cap(c, t);
  int form = (int)sx_choose(3, "form"), t = form ? any_type() : -1; std::size_t n = sx_range(7, "reserve");
  if (form == 0) c.reserve(n);
  else with(t, [&](auto g) { using T = typename decltype(g)::type; if (form == 1) { sx_assume(m.reg[t]); c.reserve(typeid(T), n); } else { c.template reserve<T>(n); m.reg[t] = true; } });
  verify(c, m);
  for (int q = 0; q < NT; q++) if (m.reg[q]) {
    std::size_t k = cap(c, q); CHECKM(k >= before[q], "reserve lowered a capacity"); if (q == t || t < 0) CHECKM(k >= n, "capacity below what was reserved"); else CHECKM(k == before[q], "reserve changed another segment");
    // no relocation until the capacity is exceeded
    u64 a = 0; int lim = (int)k > 5 ? 5 : (int)k; u64 heap = 0;
    while (m.n[q] < lim) { with(q, [&](auto g) { using T = typename decltype(g)::type; u32 v = sym32("v"); if (!a) { c.template emplace<T>(v); m.add(q, v); a = addr0(c, q); heap = sx_live_heap(); } else { if (m.n[q] & 1) c.template emplace<T>(v); else { const T x(v); c.insert(x); } m.add(q, v); CHECKM(addr0(c, q) == a, "elements relocated below capacity"); CHECKM(sx_live_heap() == heap, "allocation below capacity"); } }); CHECKM(cap(c, q) == k, "capacity changed below capacity"); }
  }
  verify(c, m);
}
ENTRY(shrink) {
  Coll c; Model m; build(c, m, MAXN); int form = (int)sx_choose(3, "form"); std::size_t before[NT] = {}; for (int t = 0; t < NT; t++) if (m.reg[t]) before[t] = cap(c, t); int t = form ? any_type() : -1;
  if (form == 0) c.shrink_to_fit(); else { sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; if (form == 1) c.shrink_to_fit(typeid(T)); else c.template shrink_to_fit<T>(); }); }
  verify(c, m); for (int q = 0; q < NT; q++) if (m.reg[q]) { CHECKM(cap(c, q) <= before[q] || before[q] == 0, "shrink_to_fit raised a capacity"); if (t >= 0 && q != t) CHECKM(cap(c, q) == before[q], "shrink_to_fit changed another segment"); }
  probe_after(c, m); verify(c, m); probe_after(c, m); verify(c, m);
}
ENTRY(keeps) { // clearing and erasing keep capacities; capacity is at least the size
  Coll c; Model m; build(c, m, MAXN); std::size_t before[NT] = {}; for (int t = 0; t < NT; t++) if (m.reg[t]) before[t] = cap(c, t);
  switch (sx_choose(3, "op")) { case 0: op_misc(c, m, (int)sx_choose(3, "form")); break; case 1: op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); break; default: op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); }
  for (int t = 0; t < NT; t++) if (m.reg[t]) CHECKM(cap(c, t) == before[t], "erasing changed a capacity"); verify(c, m);
}
ENTRY(grow) { // growth from any state keeps contents and the relation of size, capacity and relocation
  Coll c; Model m; int t = any_type();
  with(t, [&](auto g) { using T = typename decltype(g)::type; c.template register_types<T>(); m.reg[t] = true; if (sx_choose(2, "reserve")) c.template reserve<T>(sx_range(4, "n"));
    for (int i = 0; i < (THOROUGH ? 10 : 7); i++) { std::size_t k = c.template capacity<T>(), n = c.template size<T>(); u64 a = n ? addr0(c, t) : 0; u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v);
      if (n < k) { CHECKM(c.template capacity<T>() == k, "capacity changed below capacity"); if (n) CHECKM(addr0(c, t) == a, "elements relocated below capacity"); } else CHECK(c.template capacity<T>() > k);
      if (i == 3 && sx_choose(2, "shrink")) c.template shrink_to_fit<T>(); }
  }); verify(c, m);
}
ENTRY(too_much) { // more than the maximum size: length_error, nothing changed
  Coll c; Model m; build(c, m, 1, true, false); int t = any_type(); sx_assume(m.reg[t]);
  with(t, [&](auto g) { using T = typename decltype(g)::type; std::size_t k = c.template capacity<T>(), mx = c.template max_size<T>(); CHECK(c.max_size(typeid(T)) == mx); CHECK(mx >= k && mx <= (std::size_t)-1 / sizeof(T));
    std::size_t n = sx_sym(64, "n"); sx_assume(n > mx); bool thrown = false;
    int form = (int)sx_choose(3, "form"); if (form == 2) each_type([&](auto q) { using Q = typename decltype(q)::type; if (m.reg[IdOf<Q>::value]) sx_assume(n > c.template max_size<Q>()); });
    try { switch (form) { case 0: c.reserve(typeid(T), n); break; case 1: c.template reserve<T>(n); break; default: c.reserve(n); } } catch (const std::length_error&) { thrown = true; } catch (const std::bad_alloc&) { CHECKM(false, "bad_alloc instead of length_error"); }
    CHECKM(thrown, "no length_error"); CHECK(c.template capacity<T>() == k); });
  verify(c, m); probe_after(c, m); verify(c, m);
}
static void keep_big(int what) { // the same with many elements
  Coll c; Model m; int b = build_big(c, m); std::size_t before[NT] = {}; for (int t = 0; t < NT; t++) before[t] = cap(c, t); u64 a = addr0(c, b); bool shrinks = false;
  switch (what) { case 0: op_misc(c, m, (int)sx_choose(3, "form")); break; case 1: op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); break; case 2: op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); break; default: op_misc(c, m, 6 + (int)sx_choose(3, "form")); shrinks = true; }
  for (int t = 0; t < NT; t++) if (shrinks) CHECKM(cap(c, t) >= (std::size_t)m.n[t] && cap(c, t) <= before[t], "shrink_to_fit raised a capacity"); else CHECKM(cap(c, t) == before[t], "erasing changed a capacity");
  verify(c, m); // refilled up to capacity: no relocation
  if (!shrinks) with(b, [&](auto g) { using T = typename decltype(g)::type; u64 heap = sx_live_heap(); while ((std::size_t)m.n[b] < before[b]) { u32 v = sym32("v"); if (m.n[b] % 3 == 2) { c.template emplace_pos<T>(c.begin(typeid(T)) + m.n[b] / 2, v); m.ins(b, m.n[b] / 2, v); } else { c.template emplace<T>(v); m.add(b, v); } CHECKM(addr0(c, b) == a, "elements relocated below capacity"); CHECKM(sx_live_heap() == heap, "allocation below capacity"); } CHECK(cap(c, b) == before[b]); });
  verify(c, m); probe_after(c, m); verify(c, m);
}
ENTRY(big_clear) { keep_big(0); }
ENTRY(big_erase) { keep_big(1); }
ENTRY(big_erase_range) { keep_big(2); }
ENTRY(big_shrink) { keep_big(3); }
ENTRY(big_reserve) { // reserve amounts around a larger size, then fill
  Coll c; Model m; int b = build_big(c, m); std::size_t k0 = cap(c, b), n = sx_choose(25, "reserve"); int form = (int)sx_choose(3, "form"); u64 heap = 0;
  with(b, [&](auto g) { using T = typename decltype(g)::type; u64 a0 = addr0(c, b); if (form == 0) c.reserve(n); else if (form == 1) c.reserve(typeid(T), n); else c.template reserve<T>(n); verify(c, m); std::size_t k = cap(c, b); CHECKM(k >= n && k >= k0, "capacity after reserve"); if (n <= k0) CHECKM(k == k0 && addr0(c, b) == a0, "reserve below capacity changed something");
    u64 a = addr0(c, b); heap = sx_live_heap(); while ((std::size_t)m.n[b] < k && m.n[b] < CAP - 2) { u32 v = sym32("v"); T x(v); if (m.n[b] & 1) c.insert(std::move(x)); else c.insert(c.cbegin(typeid(T)), x); if (m.n[b] & 1) m.add(b, v); else m.ins(b, 0, v); CHECKM(addr0(c, b) == a, "elements relocated below capacity"); CHECKM(sx_live_heap() == heap, "allocation below capacity"); CHECK(cap(c, b) == k); } });
  verify(c, m);
}
ENTRY(range_within) { // ranges that fit do not relocate
  Coll c; Model m; g_concrete = true; build(c, m, 2, true, true); int t = any_type(); sx_assume(m.reg[t]); g_fix_type = t; std::size_t before[NT] = {}; for (int q = 0; q < NT; q++) if (m.reg[q]) before[q] = cap(c, q); int n0 = m.n[t]; u64 a = n0 ? addr0(c, t) : 0;
  int f = (int)sx_choose(N_RANGE, "form"); op_range(c, m, f); for (int q = 0; q < NT; q++) if (m.reg[q] && q != t) CHECKM(cap(c, q) == before[q], "another segment's capacity changed");
  if ((std::size_t)m.n[t] <= before[t]) { CHECKM(cap(c, t) == before[t], "capacity changed below capacity"); if (n0) CHECKM(addr0(c, t) == a, "elements relocated below capacity"); } else CHECKM(cap(c, t) >= (std::size_t)m.n[t], "capacity below size"); verify(c, m);
}
