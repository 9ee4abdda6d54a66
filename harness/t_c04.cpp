// C04: range and hinted insertion
#include "ops.h"
ENTRY(range) { Coll c; Model m; build(c, m, 2); op_range(c, m, (int)sx_choose(N_RANGE, "form")); verify(c, m); }
ENTRY(mixed) { Coll c; Model m; build(c, m, 1); op_range_mixed(c, m, sx_choose(2, "hinted"), 2); verify(c, m); }
ENTRY(hinted) { Coll c; Model m; build(c, m, 2); if (sx_choose(2, "what")) op_emplace(c, m, 2); else op_insert(c, m, N_SRC + (int)sx_choose(N_SRC, "src")); verify(c, m); }
ENTRY(iface_range) { // a plain range of interface references never registers
  Coll c; Model m; build(c, m, 1); int t = any_type(); u32 v = sym32("v");
#if KIND == 0
  with(t, [&](auto g) { using T = typename decltype(g)::type; T x(v); const Base* a[1] = {&x};
    struct RefIt { typedef std::forward_iterator_tag iterator_category; typedef Base value_type; typedef std::ptrdiff_t difference_type; typedef const Base* pointer; typedef const Base& reference; const Base** p; const Base& operator*() const { return **p; } RefIt& operator++() { ++p; return *this; } bool operator==(const RefIt& o) const { return p == o.p; } bool operator!=(const RefIt& o) const { return p != o.p; } };
    bool thrown = false; int hinted = (int)sx_choose(2, "hinted"); Hint<Coll> h(c);
    try { if (hinted) c.insert(h.it, RefIt{a}, RefIt{a + 1}); else c.insert(RefIt{a}, RefIt{a + 1}); } catch (const unregistered_type& e) { thrown = true; CHECK(*e.pinfo == typeid(T)); }
    CHECKM(thrown == !m.reg[t], "unregistered_type exactly for unregistered types"); if (!thrown) m.ins(t, hinted ? h.pos(m, t) : m.n[t], v); });
#else
  with(t, [&](auto g) { using T = typename decltype(g)::type; Coll o; o.template emplace<T>(v); bool had = m.reg[t];
    bool thrown = false; try { c.insert(*o.begin()); } catch (const unregistered_type& e) { thrown = true; CHECK(*e.pinfo == typeid(T)); }
    CHECKM(thrown == !had, "unregistered_type exactly for unregistered types"); if (!thrown) m.add(t, v); });
#endif
  verify(c, m);
}
ENTRY(ctor) { // construction from a range
  Coll o; Model m; build(o, m, 2, true, false); const Coll& co = o; for (int t = 0; t < NT; t++) if (!m.n[t]) m.reg[t] = false;
  switch (sx_choose(3, "form")) {
    case 0: { Coll c(o.begin(), o.end()); verify(c, m); break; }
    case 1: { Coll c(co.begin(), co.end(), Coll::allocator_type()); verify(c, m); break; }
    default: { int t = any_type(); u32 v = sym32("v"), w = sym32("w"); with(t, [&](auto g) { using T = typename decltype(g)::type; std::allocator<T> al; T* a = al.allocate(2); ::new (a) T(v); ::new (a + 1) T(w); { Coll c(FwIt<T>{a}, FwIt<T>{a + 2}); Model r; r.add(t, v); r.add(t, w); verify(c, r); } a[0].~T(); a[1].~T(); al.deallocate(a, 2); }); }
  }
}
static void part(Coll& o, Model& mo) { // part of another collection, spanning segments
  const Coll& co = o; Coll c; Model m; build(c, m, 1, true, false);
  int n = mo.total(), a = pick(n + 1, "first"), b = a + pick(n + 1 - a, "len");
  Where w[CAP]; for (int k = a; k < b; k++) w[k] = where(o, k);
  int form = (int)sx_choose(2, "hinted"); int h = 0; Where hw{-1, 0}; if (form) { h = pick(c.size() + 1, "hint"); hw = where(c, h); }
  if (form) c.insert(nth(c, h), nth(co, a), nth(co, b)); else c.insert(nth(co, a), nth(co, b));
  int done[NT] = {}; for (int k = a; k < b; k++) { int t = w[k].t; u32 v = mo.v[t][w[k].i]; if (hw.t == t) m.ins(t, hw.i + done[t]++, v); else m.add(t, v); }
  verify(c, m); verify(o, mo);
}
ENTRY(subrange) { Coll o; Model mo; build(o, mo, 2, true, false); part(o, mo); }
ENTRY(big_subrange) { Coll o; Model mo; build_big(o, mo, false); part(o, mo); }
ENTRY(big_range) { Coll c; Model m; build_big(c, m); g_big_range = true; op_range(c, m, (int)sx_choose(N_RANGE, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(big_hinted) { Coll c; Model m; build_big(c, m); if (sx_choose(2, "what")) op_emplace(c, m, 2); else op_insert(c, m, N_SRC + (int)sx_choose(N_SRC, "src")); verify(c, m); }
ENTRY(two_ranges) { Coll c; Model m; build(c, m, 1, true, true); op_range_mixed(c, m, sx_choose(2, "hinted"), 1); g_concrete = true; op_range_mixed(c, m, sx_choose(2, "hinted"), 1); verify(c, m); }
#if NT >= 5
ENTRY(many_mixed) { Coll c; Model m; build(c, m, 1, false, false); bool h = sx_choose(2, "hinted"); g_concrete = true; op_range_mixed(c, m, h, 1); verify(c, m); }
ENTRY(many_ctor) { Coll o; Model m; build(o, m, 2, true, false); for (int t = 0; t < NT; t++) if (!m.n[t]) m.reg[t] = false; Coll c(o.begin(), o.end()); verify(c, m); }
#endif
