// C06: registration and the unregistered_type error
#include "ops.h"
template <class F> static void expect_unreg(bool should, const std::type_info& ti, F f) {
  bool thrown = false;
  try { f(); } catch (const unregistered_type& e) { thrown = true; CHECKM(e.pinfo && *e.pinfo == ti, "type carried by the error"); }
  CHECKM(thrown == should, "unregistered_type raised exactly for unregistered types");
}
// queries and operations by type information / on the interface: error or not, nothing registered
ENTRY(runtime) {
  Coll c; Model m; build(c, m, 1); const Coll& cc = c; int t = any_type(); bool un = !m.reg[t];
  with(t, [&](auto g) {
    using T = typename decltype(g)::type; const std::type_info& ti = typeid(T);
    switch (sx_choose(27, "op")) {
      case 0: expect_unreg(un, ti, [&] { c.begin(ti); }); break;
      case 1: expect_unreg(un, ti, [&] { c.end(ti); }); break;
      case 2: expect_unreg(un, ti, [&] { cc.begin(ti); }); break;
      case 3: expect_unreg(un, ti, [&] { cc.end(ti); }); break;
      case 4: expect_unreg(un, ti, [&] { cc.cbegin(ti); }); break;
      case 5: expect_unreg(un, ti, [&] { cc.cend(ti); }); break;
      case 6: expect_unreg(un, ti, [&] { c.template begin<T>(); }); break;
      case 7: expect_unreg(un, ti, [&] { c.template end<T>(); }); break;
      case 8: expect_unreg(un, ti, [&] { cc.template begin<T>(); }); break;
      case 9: expect_unreg(un, ti, [&] { cc.template cend<T>(); }); break;
      case 10: expect_unreg(un, ti, [&] { c.segment(ti); }); break;
      case 11: expect_unreg(un, ti, [&] { cc.segment(ti); }); break;
      case 12: expect_unreg(un, ti, [&] { c.template segment<T>(); }); break;
      case 13: expect_unreg(un, ti, [&] { cc.template segment<T>(); }); break;
      case 14: expect_unreg(un, ti, [&] { CHECK(cc.empty(ti) == (m.n[t] == 0)); }); break;
      case 15: expect_unreg(un, ti, [&] { CHECK(cc.template empty<T>() == (m.n[t] == 0)); }); break;
      case 16: expect_unreg(un, ti, [&] { CHECK(cc.size(ti) == (std::size_t)m.n[t]); }); break;
      case 17: expect_unreg(un, ti, [&] { CHECK(cc.template size<T>() == (std::size_t)m.n[t]); }); break;
      case 18: expect_unreg(un, ti, [&] { CHECK(cc.max_size(ti) > 0); }); break;
      case 19: expect_unreg(un, ti, [&] { CHECK(cc.template max_size<T>() > 0); }); break;
      case 20: expect_unreg(un, ti, [&] { CHECK(cc.capacity(ti) >= (std::size_t)m.n[t]); }); break;
      case 21: expect_unreg(un, ti, [&] { CHECK(cc.template capacity<T>() >= (std::size_t)m.n[t]); }); break;
      case 22: expect_unreg(un, ti, [&] { c.reserve(ti, 3); CHECK(c.capacity(ti) >= 3); }); break;
      case 23: expect_unreg(un, ti, [&] { if (sx_choose(2, "typed")) c.template shrink_to_fit<T>(); else c.shrink_to_fit(ti); }); break;
      case 24: expect_unreg(un, ti, [&] { if (sx_choose(2, "typed")) c.template clear<T>(); else c.clear(ti); m.n[t] = 0; }); break;
      case 25: { u32 v = sym32("v"); with_iface(t, v, [&](auto&& x) { expect_unreg(un, ti, [&] { if (sx_choose(2, "const")) { const auto& y = x; c.insert(y); } else c.insert(x); m.add(t, v); }); }); break; }
      default: { u32 v = sym32("v"); Hint<Coll> h(c); with_iface(t, v, [&](auto&& x) { expect_unreg(un, ti, [&] { c.insert(h.it, x); m.ins(t, h.pos(m, t), v); }); }); }
    }
  });
  verify(c, m);
}
// operations that know the type register it
ENTRY(compile_time) {
  Coll c; Model m; build(c, m, 1); int t = any_type(); u32 v = sym32("v");
  with(t, [&](auto g) {
    using T = typename decltype(g)::type;
    switch (sx_choose(7, "op")) {
      case 0: c.template emplace<T>(v); m.add(t, v); break;
      case 1: { Hint<Coll> h(c); c.template emplace_hint<T>(h.it, v); m.ins(t, h.pos(m, t), v); break; }
      case 2: { const T x(v); c.insert(x); m.add(t, v); break; }
      case 3: { T x(v); c.insert(std::move(x)); m.add(t, v); break; }
      case 4: c.template reserve<T>(1); m.reg[t] = true; break;
      case 5: c.template register_types<T>(); m.reg[t] = true; break;
      default: { std::size_t cap[NT] = {}; each_type([&](auto q) { using Q = typename decltype(q)::type; if (m.reg[IdOf<Q>::value]) cap[IdOf<Q>::value] = c.template capacity<Q>(); });
        c.template register_types<Ty<0>, T, Ty<NT - 1>, T>(); m.reg[0] = m.reg[t] = m.reg[NT - 1] = true;
        each_type([&](auto q) { using Q = typename decltype(q)::type; constexpr int i = IdOf<Q>::value; if (cap[i]) CHECKM(c.template capacity<Q>() == cap[i], "registering again changes nothing"); }); }
    }
  });
  verify(c, m);
}
// registration survives clear/erase, is unaffected by reading, and nothing else registers
ENTRY(survives) { Coll c; Model m; build(c, m, 1); switch (sx_choose(3, "op")) { case 0: op_misc(c, m, (int)sx_choose(N_MISC, "form")); break; case 1: op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); break; default: op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); } verify(c, m); }
ENTRY(ranges) { Coll c; Model m; build(c, m, 1); op_range_mixed(c, m, sx_choose(2, "hinted"), 1); verify(c, m); }
ENTRY(empty_range) { Coll c; Model m; build(c, m, 1); Coll o; Model mo; for (int t = 0; t < NT; t++) reg(o, mo, t); c.insert(o.begin(), o.end()); int t = any_type();
  with(t, [&](auto g) { using T = typename decltype(g)::type; const T* a = nullptr; c.insert(FwIt<T>{a}, FwIt<T>{a}); c.insert(o.template begin<T>(), o.template end<T>()); c.insert(o.begin(typeid(T)), o.end(typeid(T))); }); verify(c, m); }
ENTRY(many) { // one type after another, in any order, with elements in between
  Coll c; Model m; int order = (int)sx_choose(6, "order"); static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k = 0; k < 3; k++) { int t = perm[order][k]; if (t >= NT) continue; reg(c, m, t); verify(c, m, false); if (sx_choose(2, "fill")) with(t, [&](auto g) { using T = typename decltype(g)::type; u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); }); }
  verify(c, m);
}
