// C02: every way to traverse a collection shows each element exactly once, grouped by type
#include "ops.h"
#include <vector>
template <class C> static void traversals(C& c, const Model& m) {
  const C& cc = c; verify(c, m);
  int n = m.total(); u64 addr[NT * 8]; u64 val[NT * 8]; int ty[NT * 8]; int k = 0;
  for (auto it = c.begin(); it != c.end(); ++it) { addr[k] = P(*it, 2); val[k] = P(*it, 0); ty[k] = (int)P(*it, 1); k++; CHECK(k <= n); }
  CHECK(k == n);
  // same sequence through all forms, and again
  k = 0; for (auto it = c.begin(), e = c.end(); it != e;) { auto o = it++; CHECK(P(*o, 2) == addr[k]); CHECK(!(o == it) && o != it); k++; CHECK(k <= n); }
  CHECK(k == n);
  k = 0; for (auto it = c.cbegin(); it != cc.cend(); ++it) { typename C::const_iterator j = it; CHECK(j == it); CHECK(P(*j, 2) == addr[k]); k++; CHECK(k <= n); }
  CHECK(k == n);
  k = 0; for (auto& x : c) { CHECK(P(x, 2) == addr[k] && P(x, 0) == val[k]); k++; }
  CHECK(k == n); k = 0; for (auto& x : cc) { CHECK(P(x, 2) == addr[k]); k++; }
  CHECK(k == n);
  { typename C::iterator a = c.begin(); typename C::const_iterator b = a; CHECK(b == a); CHECK(b == cc.begin()); k = 0; while (a != c.end()) { ++a; ++b; CHECK(a == b); k++; CHECK(k <= n); } CHECK(b == cc.end()); CHECK(k == n); }
  // distinct positions have distinct iterators
  { int i = 0; for (auto a = c.begin(); a != c.end(); ++a, ++i) { int j = 0; for (auto b = c.begin(); b != c.end(); ++b, ++j) CHECK((a == b) == (i == j)); } }
  // segment by segment
  k = 0; int segs = 0; bool seen[NT]; for (auto& s : seen) s = false;
  auto tr = c.segment_traversal(); auto trc = cc.segment_traversal(); auto sc = trc.begin();
  for (auto s = tr.begin(); s != tr.end(); ++s, ++sc) {
    segs++; CHECK(sc != trc.end()); CHECK(s->type_info() == sc->type_info()); bool known = false;
    each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; if (!(s->type_info() == typeid(T))) return;
      known = true; CHECK(!seen[t]); seen[t] = true; CHECK(m.reg[t]); int k0 = k;
      for (auto it = (*s).begin(); it != (*s).end(); ++it) { CHECK(k < n); CHECK(P(*it, 2) == addr[k] && ty[k] == t); k++; }
      CHECK(k - k0 == m.n[t]); int q = k0;
      for (auto it = s->cbegin(); it != s->cend(); ++it) { CHECK(P(*it, 2) == addr[q]); q++; } CHECK(q == k); q = k0;
      auto si = *s; for (auto it = si.template begin<T>(); it != si.template end<T>(); ++it) { CHECK(it->probe(2) == addr[q] && it->value() == val[q]); q++; } CHECK(q == k); q = k0;
      for (auto it = sc->template cbegin<T>(); it != sc->template cend<T>(); ++it) { CHECK(it->probe(2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto it = sc->template begin<T>(); it != sc->template end<T>(); ++it) { CHECK(it->probe(2) == addr[q]); q++; } CHECK(q == k); q = k0;
      // and through the collection itself
      for (auto it = c.begin(typeid(T)); it != c.end(typeid(T)); ++it) { CHECK(P(*it, 2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto it = cc.cbegin(typeid(T)); it != cc.cend(typeid(T)); ++it) { CHECK(P(*it, 2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto it = c.template begin<T>(); it != c.template end<T>(); ++it) { CHECK(it->probe(2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto it = cc.template cbegin<T>(); it != cc.template cend<T>(); ++it) { CHECK(it->probe(2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto& x : c.segment(typeid(T))) { CHECK(P(x, 2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto& x : cc.segment(typeid(T))) { CHECK(P(x, 2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto& x : c.template segment<T>()) { CHECK(x.probe(2) == addr[q]); q++; } CHECK(q == k); q = k0;
      for (auto& x : cc.template segment<T>()) { CHECK(x.probe(2) == addr[q]); q++; } CHECK(q == k);
      CHECK(c.segment(typeid(T)).type_info() == typeid(T) && cc.segment(typeid(T)).type_info() == typeid(T));
    });
    CHECK(known);
  }
  CHECK(sc == trc.end()); CHECK(k == n); int nreg = 0; for (int t = 0; t < NT; t++) nreg += m.reg[t]; CHECK(segs == nreg);
}
ENTRY(traversal) { any_order(); Coll c; Model m; build(c, m, THOROUGH ? 3 : 2, true, false); traversals(c, m); }
// after modifications that move segment boundaries
ENTRY(after_change) {
  any_order(); Coll c; Model m; build(c, m, 1, true, true);
  switch (sx_choose(4, "op")) { case 0: op_emplace(c, m, (int)sx_choose(3, "form")); break; case 1: op_erase1(c, m, (int)sx_choose(2, "form")); break; case 2: op_erase2(c, m, 0); break; default: op_misc(c, m, (int)sx_choose(N_MISC, "form")); }
  traversals(c, m);
}
// a writable traversal reaches the elements
ENTRY(write) {
  Coll c; Model m; build(c, m, 2, true, false);
#if KIND == 0
  int seen[NT] = {}; for (auto& x : c) { int t = (int)P(x, 1); u32 v = sym32("w"); x.poke(v); m.v[t][seen[t]++] = v; }
#else
  each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; if (!m.reg[t]) return; int i = 0; for (auto& x : c.template segment<T>()) { u32 v = sym32("w"); x.poke(v); m.v[t][i++] = v; } });
#endif
  verify(c, m);
}
#if NT >= 5
ENTRY(many_traversal) { Coll c; Model m; build(c, m, 2, true, false); traversals(c, m); }
ENTRY(many_after) { Coll c; Model m; build(c, m, 1, false, false); switch (sx_choose(3, "op")) { case 0: op_emplace(c, m, (int)sx_choose(3, "form")); break; case 1: op_erase1(c, m, (int)sx_choose(2, "form")); break; default: op_erase2(c, m, 0); } traversals(c, m); }
#endif
