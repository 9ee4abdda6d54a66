// C03: returned iterators designate the right position, and are usable at once
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
ENTRY(emplace) { Coll c; Model m; build(c, m, MAXN); op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); }
ENTRY(insert) { Coll c; Model m; build(c, m, MAXN); op_insert(c, m, (int)sx_choose(N_INSERT, "form")); }
ENTRY(range) { Coll c; Model m; build(c, m, 2); op_range(c, m, (int)sx_choose(N_RANGE, "form")); }
ENTRY(erase1) { Coll c; Model m; build(c, m, MAXN, true, false); op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); }
ENTRY(erase2) { Coll c; Model m; build(c, m, MAXN, true, false); op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); }
// chained: the returned iterator is the argument of the next operation
ENTRY(chain) {
  Coll c; Model m; build(c, m, 1);
  int t = any_type(); u32 v = sym32("v"), w = sym32("w");
  with(t, [&](auto g) {
    using T = typename decltype(g)::type; typename Coll::iterator it;
    switch (sx_choose(3, "first")) {
      case 0: it = c.template emplace<T>(v); m.add(t, v); break;
      case 1: { const T x(v); it = c.insert(c.cbegin(), x); Where q{-1, 0}; int h = 0; for (auto k = c.begin(); k != c.end(); ++k, ++h) if (k == it) { q = where(c, h); break; } CHECK(q.t == t); m.ins(t, q.i, v); chk_at(c, m, it, t, q.i); break; }
      default: { T x(v); it = c.insert(std::move(x)); m.add(t, v); }
    }
    u64 a = P(*it, 2); int i = 0; while ((c.template begin<T>() + i)->probe(2) != a) { ++i; CHECK(i < m.n[t]); }
    switch (sx_choose(4, "second")) {
      case 0: { Where x; int h = 0; for (auto k = c.begin(); k != it; ++k) ++h; x = where(c, h + 1); it = c.erase(it); m.era(t, i, i + 1); if (x.t < 0) chk_end(c, it); else chk_at(c, m, it, x.t, x.t == t ? i : x.i); break; }
      case 1: it = c.template emplace_hint<T>(it, w); m.ins(t, i, w); chk_at(c, m, it, t, i); break;
      case 2: { const T y(w); it = c.insert(it, y); m.ins(t, i, w); chk_at(c, m, it, t, i); break; }
      default: it = c.erase(it, c.end()); chk_end(c, it); { // everything from there on, in traversal order
          int h = 0; for (auto k = c.begin(); k != c.end(); ++k) ++h; CHECK(h <= m.total()); for (int q = 0; q < NT; q++) if (m.reg[q]) with(q, [&](auto gg) { using Q = typename decltype(gg)::type; int nn = (int)c.template size<Q>(); CHECK(nn <= m.n[q]); m.n[q] = nn; }); CHECK(m.n[t] == i); }
    }
    verify(c, m);
  });
}
// erase while traversing, keeping the elements an arbitrary predicate selects
ENTRY(erase_loop) {
  Coll c; Model m; build(c, m, 2, true, false); Model r; for (int t = 0; t < NT; t++) r.reg[t] = m.reg[t];
  int seen[NT] = {}; int steps = 0, total = m.total();
  for (auto it = c.begin(); it != c.end();) {
    CHECK(steps++ < total); int t = (int)P(*it, 1); u64 v = P(*it, 0); CHECK(seen[t] < m.n[t] && v == m.v[t][seen[t]]); seen[t]++;
    if (v & 1) it = c.erase(it); else { r.add(t, (u32)v); ++it; }
  }
  CHECK(steps == total); verify(c, r);
}
// many elements in one segment, long ranges
ENTRY(big_emplace) { Coll c; Model m; build_big(c, m); op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); }
ENTRY(big_insert) { Coll c; Model m; build_big(c, m); op_insert(c, m, (int)sx_choose(N_INSERT, "form")); }
ENTRY(big_range) { Coll c; Model m; build_big(c, m); g_big_range = true; op_range(c, m, (int)sx_choose(N_RANGE, "form")); }
ENTRY(big_erase) { Coll c; Model m; build_big(c, m, false); if (sx_choose(2, "range")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); }
#if NT >= 5
ENTRY(many_erase1) { Coll c; Model m; build(c, m, 1, true, false); op_erase1(c, m, 0); }
ENTRY(many_erase2) { Coll c; Model m; build(c, m, 1, true, false); op_erase2(c, m, 0); }
ENTRY(many_insert) { Coll c; Model m; build(c, m, 1, false, false); switch (sx_choose(3, "what")) { case 0: op_emplace(c, m, (int)sx_choose(3, "form")); break; case 1: op_insert(c, m, (int)sx_choose(2 * N_SRC, "form")); break; default: op_range(c, m, (int)sx_choose(2 * R_SRC, "form")); } }
#endif
