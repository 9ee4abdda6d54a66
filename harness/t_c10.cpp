// C10: equality
#include "ops.h"
static bool eq(const Model& a, const Model& b) { for (int t = 0; t < NT; t++) { if (a.n[t] != b.n[t]) return false; for (int i = 0; i < a.n[t]; i++) if (a.v[t][i] != b.v[t][i]) return false; } return true; }
static void compare(Coll& c, Coll& d, const Model& m, const Model& k) {
  const Coll &cc = c, &cd = d; bool e = eq(m, k);
  CHECKM((cc == cd) == e, "operator=="); CHECKM((cd == cc) == e, "operator== is not symmetric"); CHECKM((cc != cd) == !e, "operator!="); CHECKM((cd != cc) == !e, "operator!="); CHECKM(cc == cc && !(cd != cd), "reflexive");
  if (e) sx_reach("equal"); else sx_reach("different"); verify(c, m, false); verify(d, k, false);
}
ENTRY(any_pair) { Coll c, d; Model m, k; build(c, m, THOROUGH ? 2 : 1, true, false); build(d, k, THOROUGH ? 2 : 1, true, false); compare(c, d, m, k); }
ENTRY(one_type) { Coll c, d; Model m, k; build(c, m, THOROUGH ? 4 : 3, true, true, 1); build(d, k, THOROUGH ? 4 : 3, true, true, 1); compare(c, d, m, k); }
ENTRY(history) { // same values reached differently: other registration order, capacity, erasures
  Coll c; Model m; build(c, m, 2, true, false); Coll d; Model k;
  for (int t = NT; t-- > 0;) { bool w = sx_choose(2, "reg"); if (!w && !m.n[t]) continue; with(t, [&](auto g) { using T = typename decltype(g)::type; d.template reserve<T>(m.n[t] + 3); k.reg[t] = true; d.template emplace<T>(sym32("x")); for (int i = m.n[t]; i-- > 0;) d.template emplace_pos<T>(d.begin(typeid(T)), m.v[t][i]); d.erase(d.template end<T>() - 1); k.n[t] = m.n[t]; for (int i = 0; i < m.n[t]; i++) k.v[t][i] = m.v[t][i]; }); }
  compare(c, d, m, k); CHECK(c == d);
}
ENTRY(one_change) { // a copy with one element changed, added, removed
  Coll c; Model m; build(c, m, 2, true, false); Coll d(c); Model k = m; int t = any_type(); sx_assume(m.reg[t]);
  with(t, [&](auto g) { using T = typename decltype(g)::type; switch (sx_choose(4, "what")) {
    case 0: { sx_assume(m.n[t] > 0); int i = (int)sx_range(m.n[t], "i"); u32 v = sym32("v"); (d.template begin<T>() + i)->poke(v); k.v[t][i] = v; break; }
    case 1: { u32 v = sym32("v"); int i = (int)sx_range(m.n[t] + 1, "i"); d.template emplace_pos<T>(d.begin(typeid(T)) + i, v); k.ins(t, i, v); break; }
    case 2: { sx_assume(m.n[t] > 0); int i = (int)sx_range(m.n[t], "i"); d.erase(d.begin(typeid(T)) + i); k.era(t, i, i + 1); break; }
    default: { int q = any_type(); sx_assume(m.n[t] > 0 && q != t); u32 v = m.v[t][0]; d.erase(d.begin(typeid(T))); k.era(t, 0, 1); with(q, [&](auto h) { using Q = typename decltype(h)::type; d.template emplace<Q>(v); k.add(q, v); }); } } });
  compare(c, d, m, k);
}
ENTRY(big) { // many elements, one of them changed
  Coll c; Model m; int t = build_big(c, m, false); Coll d; Model k = m; for (int q = NT; q-- > 0;) with(q, [&](auto g) { using T = typename decltype(g)::type; for (int i = 0; i < m.n[q]; i++) d.template emplace<T>(m.v[q][i]); }); CHECK(c == d && !(c != d));
  with(t, [&](auto g) { using T = typename decltype(g)::type; int i = pick(m.n[t], "i"); u32 v = sym32("v"); switch (sx_choose(3, "what")) { case 0: (d.template begin<T>() + i)->poke(v); k.v[t][i] = v; break; case 1: d.erase(d.begin(typeid(T)) + i); k.era(t, i, i + 1); break; default: d.template emplace_pos<T>(d.begin(typeid(T)) + i, v); k.ins(t, i, v); } });
  compare(c, d, m, k);
}
#if NT >= 5
ENTRY(many) { Coll c, d; Model m, k; build(c, m, 1, true, false); build(d, k, 1, false, false); compare(c, d, m, k); }
#endif
