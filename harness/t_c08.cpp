// C08: validity of iterators and references across operations
#include "ops.h"
#define MAXN 2
struct Held { // everything one can hold to an element
  typename Coll::iterator it; typename Coll::const_iterator cit; typename Coll::local_base_iterator lb; typename Coll::const_local_base_iterator clb; u64 addr; int t, i; u32 v;
};
static void hold(Coll& c, const Model& m, Held* h, int& n) {
  n = 0; int seen[NT] = {};
  for (auto it = c.begin(); it != c.end(); ++it) { int t = (int)P(*it, 1); Held& x = h[n++]; x.it = it; x.cit = it; x.t = t; x.i = seen[t]; x.addr = P(*it, 2); x.v = m.v[t][seen[t]];
    with(t, [&](auto g) { using T = typename decltype(g)::type; x.lb = c.begin(typeid(T)) + seen[t]; x.clb = x.lb; }); seen[t]++; }
}
static void still(Coll& c, const Held& x) { // reference, iterators all still designate that element
  CHECKM(P(*x.it, 2) == x.addr && P(*x.cit, 2) == x.addr, "iterator designates another element"); CHECKM(P(*x.it, 0) == x.v && P(*x.it, 1) == (u64)x.t, "iterator: element changed");
  CHECKM(P(*x.lb, 2) == x.addr && P(*x.clb, 2) == x.addr && P(*x.lb, 0) == x.v, "local iterator designates another element");
  with(x.t, [&](auto g) { using T = typename decltype(g)::type; T* p = reinterpret_cast<T*>(x.addr); (void)p;
    auto j = c.begin(typeid(T)); std::size_t k = 0, n = c.template size<T>(); while (k < n && P(*j, 2) != x.addr) { ++j; ++k; } CHECKM(k < n, "element relocated"); CHECKM(j == x.lb, "local iterator is no longer the iterator of its element"); });
  auto j = c.begin(); std::size_t k = 0, n = c.size(); while (k < n && P(*j, 2) != x.addr) { ++j; ++k; } CHECKM(k < n && j == x.it && j == x.cit, "iterator is no longer the iterator of its element");
  for (auto q = x.it; q != c.end(); ++q) { CHECKM(k < n, "traversal from a held iterator is too long"); ++k; } CHECKM(k == n, "traversal from a held iterator is too short");
}
// insertion of one element of type t at (t,p): what stays valid
ENTRY(insertion) {
  Coll c; Model m; build(c, m, MAXN); g_concrete = true; Held h[NT * 4]; int n; hold(c, m, h, n); std::size_t room[NT] = {}; bool was[NT]; for (int t = 0; t < NT; t++) { was[t] = m.reg[t]; if (m.reg[t]) with(t, [&](auto g) { using T = typename decltype(g)::type; room[t] = c.template capacity<T>() - c.template size<T>(); }); }
  Model o = m; int add = 1;
  switch (sx_choose(3, "op")) { case 0: op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); break; case 1: op_insert(c, m, (int)sx_choose(N_INSERT, "form")); break; default: op_range(c, m, (int)sx_choose(N_RANGE, "form")); }
  int t = -1, p = 0; for (int q = 0; q < NT; q++) if (m.n[q] != o.n[q]) { t = q; add = m.n[q] - o.n[q]; }
  bool fresh = false; for (int q = 0; q < NT; q++) fresh |= m.reg[q] != was[q];
  if (t >= 0) { // first position at which the new sequence may differ: the returned position is checked elsewhere, here the smallest index whose element moved
    p = o.n[t]; }
  for (int k = 0; k < n; k++) { Held& x = h[k];
    if (x.t != t) { if (fresh) { CHECKM(P(*x.it, 2) == x.addr && P(*x.it, 0) == x.v && P(*x.lb, 0) == x.v && P(*x.lb, 2) == x.addr, "element of another segment"); } else still(c, x); continue; }
    if (room[t] < (std::size_t)add) continue;
    // within capacity: the element is where it was unless the insertion was at or before it
    with(t, [&](auto g) { using T = typename decltype(g)::type; CHECKM((c.template begin<T>() + x.i)->probe(2) == x.addr, "segment relocated below capacity"); }); }
}
// the same with the insertion point known: elements before it stay put and valid
ENTRY(before_point) {
  Coll c; Model m; build(c, m, 3, false); g_concrete = true; int t = any_type(); Held h[NT * 5]; int n; hold(c, m, h, n); u32 v = sym32("v"); int p = pick(m.n[t] + 1, "pos");
  with(t, [&](auto g) { using T = typename decltype(g)::type; bool room = c.template capacity<T>() > c.template size<T>();
    switch (sx_choose(4, "form")) { case 0: c.template emplace_pos<T>(c.begin(typeid(T)) + p, v); break; case 1: { const T x(v); c.insert(c.template begin<T>() + p, x); break; } case 2: { T x(v); c.insert(c.cbegin(typeid(T)) + p, std::move(x)); break; } default: { auto l = c.begin(typeid(T)) + p; c.emplace_pos(c.template cbegin<T>() + p, v); (void)l; } }
    m.ins(t, p, v); for (int k = 0; k < n; k++) if (h[k].t != t || (room && h[k].i < p)) still(c, h[k]); });
  verify(c, m);
}
ENTRY(erasure) {
  Coll c; Model m; build(c, m, THOROUGH ? 3 : 2, true, false); Held h[NT * 4]; int n; hold(c, m, h, n); bool keep[NT * 4];
  if (sx_choose(2, "range")) { int a = (int)sx_range(n + 1, "first"), b = a + (int)sx_range(n + 1 - a, "len"); for (int k = 0; k < n; k++) { keep[k] = true; for (int q = a; q < b; q++) if (h[q].t == h[k].t && h[q].i <= h[k].i) keep[k] = false; } c.erase(nth(c, a), nth(c, b)); for (int q = b; q-- > a;) m.era(h[q].t, h[q].i, h[q].i + 1); }
  else { sx_assume(n > 0); int a = (int)sx_range(n, "pos"); for (int k = 0; k < n; k++) keep[k] = h[k].t != h[a].t || h[k].i < h[a].i; switch (sx_choose(3, "form")) { case 0: c.erase(h[a].cit); break; case 1: c.erase(h[a].lb); break; default: c.erase(h[a].clb); } m.era(h[a].t, h[a].i, h[a].i + 1); }
  for (int k = 0; k < n; k++) if (keep[k]) still(c, h[k]); verify(c, m);
}
ENTRY(clear_other) { Coll c; Model m; build(c, m, 2, true, false); Held h[NT * 4]; int n; hold(c, m, h, n); int t = any_type(); sx_assume(m.reg[t]);
  with(t, [&](auto g) { using T = typename decltype(g)::type; switch (sx_choose(4, "op")) { case 0: c.template clear<T>(); m.n[t] = 0; break; case 1: c.clear(typeid(T)); m.n[t] = 0; break; case 2: c.template reserve<T>(9); break; default: c.template shrink_to_fit<T>(); } });
  for (int k = 0; k < n; k++) if (h[k].t != t) still(c, h[k]); verify(c, m); }
ENTRY(registration) { // further types, enough of them to make the table of segments grow
  Coll c; Model m; build(c, m, 1, true, false); Held h[NT * 4]; int n; hold(c, m, h, n);
  c.template register_types<Elem<5>, Elem<6>, Elem<7>, Elem<8>, Elem<9>, Elem<10>>(); if (sx_choose(2, "more")) c.template register_types<Elem<11>, Elem<12>, Elem<13>, Elem<14>, Elem<15>>();
  for (int k = 0; k < n; k++) { Held& x = h[k]; CHECK(P(*x.it, 2) == x.addr && P(*x.cit, 0) == x.v && P(*x.lb, 2) == x.addr && P(*x.clb, 0) == x.v); with(x.t, [&](auto g) { using T = typename decltype(g)::type; CHECK((c.template begin<T>() + x.i)->probe(2) == x.addr); CHECK(P(*(c.begin(typeid(T)) + x.i), 2) == x.addr); CHECK(c.begin(typeid(T)) + x.i == x.lb); }); }
  // and they are still good arguments
  if (n) { int a = (int)sx_range(n, "pos"); c.erase(h[a].cit); m.era(h[a].t, h[a].i, h[a].i + 1); }
  verify_light(c, m);
}
ENTRY(reading) { Coll c; Model m; build(c, m, 2); Held h[NT * 4]; int n; hold(c, m, h, n); const Coll& cc = c; verify(c, m); Coll d(cc); (void)(d == cc); for (int k = 0; k < n; k++) still(c, h[k]); }
ENTRY(swap_move) { // references (not iterators' containers) survive swap and move
  Coll c, d; Model m, md; build(c, m, 1, true, false); build(d, md, 1, true, false); Held h[NT * 4]; int n; hold(c, m, h, n);
  switch (sx_choose(4, "op")) { case 0: c.swap(d); break; case 1: { using std::swap; swap(c, d); break; } case 2: d = std::move(c); break; default: { Coll e(std::move(c)); for (int k = 0; k < n; k++) { const Held& x = h[k]; CHECK(P(*x.it, 2) == x.addr && P(*x.it, 0) == x.v); with(x.t, [&](auto g) { using T = typename decltype(g)::type; CHECK((e.template begin<T>() + x.i)->probe(2) == x.addr); }); } verify(e, m); verify(c, Model()); return; } }
  for (int k = 0; k < n; k++) { const Held& x = h[k]; CHECK(P(*x.it, 2) == x.addr && P(*x.it, 0) == x.v); with(x.t, [&](auto g) { using T = typename decltype(g)::type; CHECK((d.template begin<T>() + x.i)->probe(2) == x.addr); }); }
  verify(d, m);
}
ENTRY(transferred_capacity) { // the capacity a collection reports holds after copies and moves too: no relocation below it
  Coll c; Model m; build(c, m, 1); Coll d;
  auto fill_up = [&](Coll& x) { int t = any_type(); sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; std::size_t cap = x.template capacity<T>(); sx_assume(cap > (std::size_t)m.n[t]); Held h[NT * 4]; int n; hold(x, m, h, n);
    while (x.template size<T>() < cap) { u32 v = sym32("v"); x.template emplace<T>(v); m.add(t, v); } CHECK(x.template capacity<T>() == cap); for (int k = 0; k < n; k++) still(x, h[k]); }); verify(x, m); };
  switch (sx_choose(6, "form")) { case 0: { Coll e(c); fill_up(e); break; } case 1: { Coll e(std::move(c)); fill_up(e); break; } case 2: { Coll e(std::move(c), c.get_allocator()); fill_up(e); break; } case 3: d = c; fill_up(d); break; case 4: d = std::move(c); fill_up(d); break; default: d.template emplace<Ty<0>>(1u); c.swap(d); fill_up(d); }
}
// several steps in a row, everything held at the beginning: an element's iterators and references stay good as long as no
// step erases it, inserts or erases before it in its segment, or grows its segment beyond the capacity
static void steps(int nsteps, bool big) {
  Coll c; Model m; if (big) build_big(c, m); else { for (int t = 0; t < NT; t++) with(t, [&](auto g) { using T = typename decltype(g)::type; int k = t ? 1 : 2 + (int)sx_choose(2, "size"); c.template reserve<T>(k + (int)sx_choose(2, "spare")); m.reg[t] = true; for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); } }); g_concrete = true; }
  static Held h[CAP + NT]; bool ok[CAP + NT]; int n; hold(c, m, h, n); for (int k = 0; k < n; k++) ok[k] = true; int t = big ? g_fix_type : 0;
  with(t, [&](auto g) { using T = typename decltype(g)::type; std::size_t cap = c.template capacity<T>();
    auto gone = [&](int from) { for (int k = 0; k < n; k++) if (h[k].t == t && h[k].i >= from) ok[k] = false; };
    for (int s = 0; s < nsteps; s++) {
      int sz = m.n[t], op = (int)sx_choose(big ? 6 : 8, "op"); u32 v = sym32("v"); auto at = [&](int i) { return c.begin(typeid(T)) + i; };
      auto erase = [&](int a, int b, int form) { if (form == 0) c.erase(c.template begin<T>() + a, c.template begin<T>() + b); else if (form == 1) c.erase(at(a), at(b)); else c.erase(typename Coll::const_local_base_iterator(at(a))); m.era(t, a, b); gone(a); };
      auto grown = [&] { if ((std::size_t)m.n[t] > cap) { gone(0); cap = c.template capacity<T>(); } };
      switch (op) {
        case 0: if (sz) erase(sz - 1, sz, 2); break;                                              // last, one by one
        case 1: { c.template emplace<T>(v); m.add(t, v); grown(); break; }
        case 2: while ((std::size_t)m.n[t] < cap && m.n[t] < CAP - 2) { u32 w = sym32("w"); if (m.n[t] & 1) c.template emplace<T>(w); else c.insert(T(w)); m.add(t, w); } break; // up to the capacity
        case 3: if (sz) erase(sz / 2, sz, 1); break;
        case 4: c.template clear<T>(); m.n[t] = 0; gone(0); break;
        case 5: { int p = sz / 2; c.template emplace_pos<T>(at(p), v); m.ins(t, p, v); gone(p); grown(); break; }
        case 6: if (sz) erase(0, 1, 0); break;
        default: { const T x[2] = {T(v), T(v + 1)}; c.insert(at(sz), FwIt<T>{x}, FwIt<T>{x + 2}); m.add(t, v); m.add(t, v + 1); grown(); }
      }
      CHECKM((std::size_t)m.n[t] > cap || c.template capacity<T>() == cap, "capacity changed below capacity");
      for (int k = 0; k < n; k++) if (ok[k]) still(c, h[k]);
    } });
  verify(c, m);
}
ENTRY(sequence) { steps(THOROUGH ? 5 : 4, false); }
ENTRY(big_sequence) { steps(THOROUGH ? 4 : 3, true); }
