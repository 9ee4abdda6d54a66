// C18: type information objects are identified by the type they denote
#include "twin.h"
#include "ops.h"
// some lookups through arbitrary type information objects, then something that rearranges the table of segments
static void lookups(Coll& c, Model& m, int n) {
  for (int i = 0; i < n; i++) { int t = any_type(), k = (int)sx_choose(NTWIN, "info"), f = (int)sx_choose(3, "look");
    with(t, [&](auto g) { using T = typename decltype(g)::type; const std::type_info& ti = twin<T>(k); const Coll& cc = c;
      if (f == 0) ask_const<Coll, T>(cc, m, ti); else if (f == 1) ask<Coll, T>(c, m, ti); else if (m.reg[t]) { c.reserve(ti, m.n[t] + 1); CHECKM(c.template capacity<T>() > (std::size_t)m.n[t], "reserve"); } }); }
}
static void more_types(Coll& c) { c.template register_types<Elem<5>, Elem<6>, Elem<7>, Elem<8>, Elem<9>, Elem<10>, Elem<11>, Elem<12>, Elem<13>, Elem<14>, Elem<15>>(); }
static void check(Coll& c, Model& m) { ask_all(c, m); }
ENTRY(lookup) { Coll c; Model m; build(c, m, 1, true, false); lookups(c, m, THOROUGH ? 3 : 2); check(c, m); verify(c, m); }
ENTRY(then_transfer) {
  Coll c; Model m, none; build(c, m, 1, true, false); lookups(c, m, 1); Coll d; Model md; if (sx_choose(2, "dest")) { d.template emplace<Ty<0>>(3u); md.add(0, 3); d.begin(twin<Ty<0>>(2)); }
  switch (sx_choose(7, "op")) {
    case 0: { Coll e(c); check(e, m); check(c, m); c.clear(); check(e, m); break; }
    case 1: { Coll e(std::move(c)); check(e, m); check(c, none); break; }
    case 2: { Coll e(c, c.get_allocator()); check(e, m); break; }
    case 3: { Coll e(std::move(c), c.get_allocator()); check(e, m); check(c, none); break; }
    case 4: d = c; check(d, m); check(c, m); break;
    case 5: d = std::move(c); check(d, m); check(c, none); break;
    default: c.swap(d); check(c, md); check(d, m); lookups(d, m, 1); check(d, m);
  }
}
ENTRY(then_register) { Coll c; Model m; build(c, m, 1, true, false); lookups(c, m, 1); if (sx_choose(2, "many")) { c.template register_types<Elem<5>, Elem<6>>(); more_types(c); CHECK(c.is_registered(typeid(Elem<11>))); CHECK(c.size(typeid(Elem<15>)) == 0); } else op_emplace(c, m, 0); check(c, m); lookups(c, m, 1); verify_light(c, m); }
ENTRY(modify) { // modifications through any of them reach the right segment
  Coll c; Model m; build(c, m, 2, true, false); int t = any_type(), k = (int)sx_choose(NTWIN, "info"); sx_assume(m.reg[t]);
  with(t, [&](auto g) { using T = typename decltype(g)::type; const std::type_info& ti = twin<T>(k); const Coll& cc = c; u32 v = sym32("v");
    switch (sx_choose(8, "op")) {
      case 0: c.clear(ti); m.n[t] = 0; break;
      case 1: c.reserve(ti, 6); CHECK(c.template capacity<T>() >= 6); break;
      case 2: c.shrink_to_fit(ti); break;
      case 3: { int p = (int)sx_range(m.n[t] + 1, "pos"); auto it = c.template emplace_pos<T>(c.begin(ti) + p, v); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 4: { int p = (int)sx_range(m.n[t] + 1, "pos"); auto it = c.insert(cc.begin(ti) + p, T(v)); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 5: { sx_assume(m.n[t] > 0); int p = (int)sx_range(m.n[t], "pos"); auto it = c.erase(c.begin(ti) + p); m.era(t, p, p + 1); chk_local(c, m, it, t, p); break; }
      case 6: { auto it = c.erase(c.begin(ti), c.end(ti)); m.n[t] = 0; chk_local(c, m, it, t, 0); break; }
      default: { Coll d; d.insert(cc.begin(ti), cc.end(ti)); CHECK(d.size() == (std::size_t)m.n[t]); if (m.n[t]) CHECK(d.template size<T>() == (std::size_t)m.n[t]); break; }
    } });
  check(c, m); verify(c, m);
}
ENTRY(many_types) { // every type found among many, whatever their hashes
  Coll c; Model m; c.template register_types<Elem<5>, Elem<6>, Elem<7>>(); build(c, m, 1, true, false); more_types(c); check(c, m); Coll d(c); check(d, m); CHECK(c == d);
  each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; if (m.reg[t]) { u32 v = sym32("v"); d.template emplace<T>(v); CHECK(d.size(twin<T>(1)) == (std::size_t)m.n[t] + 1); } }); verify_light(c, m);
}
#if KIND == 0
static Base* volatile g_opaque;
ENTRY (foreign_element) { // an element whose class, as seen by its creator, has another type information object
  Coll c; Model m; build(c, m, 1, true, false); u32 v = sym32("v"); int k = 1 + (int)sx_choose(2, "info");
  T0 x(v); void* vt[8]; void**& vp = reinterpret_cast<void**&>(x); void** own = vp; for (int i = 0; i < 6; i++) vt[i] = vp[i - 2]; vt[1] = const_cast<std::type_info*>(&twin<T0>(k)); vp = vt + 2; g_opaque = &x; Base& b = *g_opaque;
  CHECK(&typeid(b) != &typeid(T0) && typeid(b) == typeid(T0));
  bool thrown = false; try { if (sx_choose(2, "hinted")) c.insert(c.cbegin(), b); else c.insert(b); } catch (const unregistered_type& e) { thrown = true; CHECK(*e.pinfo == typeid(T0)); }
  CHECKM(thrown == !m.reg[0], "unregistered_type exactly when the type is not registered"); vp = own; if (m.reg[0]) { CHECKM(c.template size<T0>() == (std::size_t)m.n[0] + 1, "element added to its segment"); c.template clear<T0>(); m.n[0] = 0; }
  check(c, m); verify(c, m);
}
#endif
