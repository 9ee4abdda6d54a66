// C16: element types that cannot be copied, compared or assigned
#define CUSTOM_TYPES "c16_types.h"
#define NT 5
#define MIXED 1
#include "track.h"
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
using C = TC;
// one restricted type t (0..n elements, with or without spare room) next to one ordinary type
static int build2(C& c, Model& m, int n, int t, int n0 = 1) {
  auto one = [&](int q, int maxn) {
    int k = (int)sx_range(maxn + 2, "size"); if (k == maxn + 1) return;
    with(q, [&](auto g) { using T = typename decltype(g)::type; c.template register_types<T>(); m.reg[q] = true; int sp = (int)sx_choose(2, "spare"); if (k + sp) c.template reserve<T>(k + 2 * sp);
      for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(q, v); } });
  };
  one(t, n); if (t != 0) one(0, n0); return t;
}
static int restricted() { return 1 + (int)sx_choose(NT - 1, "type"); }
template <class F> static bool throws_not_copyable(int t, F f) {
  bool thrown = false; with(t, [&](auto g) { using T = typename decltype(g)::type; try { f(g); } catch (const not_copy_constructible& e) { thrown = true; CHECKM(*e.pinfo == typeid(T), "type carried by not_copy_constructible"); } }); return thrown;
}
ENTRY(emplace) { Track k; C c; Model m; g_fix_type = restricted(); build2(c, m, MAXN, g_fix_type); op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); verify(c, m); tracked(); }
ENTRY(insert_moved) { Track k; C c; Model m; g_fix_type = restricted(); build2(c, m, MAXN, g_fix_type); op_insert(c, m, N_SRC * (int)sx_choose(6, "form") + (sx_choose(2, "iface") ? 3 : 1)); verify(c, m); tracked(); }
ENTRY(insert_copied) {
  Track k; C c; Model m; int t = g_fix_type = restricted(); build2(c, m, MAXN, t); int place = (int)sx_choose(6, "form"), src = (int)sx_choose(2, "src") ? 2 : 0;
  if (copyable(t)) { op_insert(c, m, N_SRC * place + src); verify(c, m); sx_reach("copied"); return; }
  if (place >= 2) reg(c, m, t); if (src == 2) sx_assume(m.reg[t]); u32 v = sym32("v");
  bool th = throws_not_copyable(t, [&](auto g) {
    using T = typename decltype(g)::type;
    auto go = [&](auto& x) { if (place == 0) c.insert(x); else if (place == 1) { Hint<C> h(c); c.insert(h.it, x); } else { int p = (int)sx_range(m.n[t] + 1, "pos"); at_local<T>(c, place - 2, p, [&](auto l) { c.insert(l, x); }); } };
    if (src == 0) { const T x(v); go(x); } else with_iface(t, v, [&](auto&& x) { go(x); });
  });
  CHECKM(th, "copying a noncopyable element raises not_copy_constructible"); with(t, [&](auto g) { using T = typename decltype(g)::type; m.reg[t] = m.reg[t] || c.template is_registered<T>(); });
  verify(c, m); if (src == 0) sx_reach("refused"); else sx_reach("refused by interface");
}
ENTRY(ranges) {
  Track k; C c; Model m; int t = g_fix_type = restricted(); build2(c, m, MAXN - 1, t);
  int place = (int)sx_choose(R_PLACES, "place"), src = (int)sx_choose(R_SRC, "src");
  if (src == 5 && place < 3) sx_assume(false);
  if (copyable(t) || src >= 5) { op_range(c, m, place * R_SRC + src); verify(c, m); return; }
  bool th = throws_not_copyable(t, [&](auto g) {
    using T = typename decltype(g)::type; C o; o.template emplace<T>(sym32("v")); const C& co = o; const C& cc = c; (void)cc; 
    switch (src % 3) { case 0: c.insert(co.begin(), co.end()); break; case 1: c.insert(co.begin(typeid(T)), co.end(typeid(T))); break; default: c.insert(co.template begin<T>(), co.template end<T>()); }
  });
  CHECKM(th, "copying a noncopyable element raises not_copy_constructible"); with(t, [&](auto g) { using T = typename decltype(g)::type; m.reg[t] = m.reg[t] || c.template is_registered<T>(); }); verify(c, m); sx_reach("refused range");
}
ENTRY(erase) { Track k; C c; Model m; g_fix_type = restricted(); build2(c, m, MAXN, g_fix_type); if (sx_choose(2, "two")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); verify(c, m); tracked(); }
ENTRY(misc) { Track k; C c; Model m; g_fix_type = restricted(); build2(c, m, MAXN, g_fix_type); op_misc(c, m, (int)sx_choose(N_MISC, "form")); verify(c, m); tracked(); }
#if THROWING_MO
// move-only, move constructible and assignable, but not noexcept: acceptable as an element type
ENTRY(throwing_move_reserved) { // with room for everything
  Track k; C c; Model m; int t = g_fix_type = 1; c.template reserve<MO>(8); m.reg[1] = true; int n = (int)sx_range(3, "size"); for (int i = 0; i < n; i++) { u32 v = sym32("v"); c.template emplace<MO>(v); m.add(t, v); }
  switch (sx_choose(4, "op")) { case 0: op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); break; case 1: op_insert(c, m, N_SRC * (int)sx_choose(6, "form") + (sx_choose(2, "iface") ? 3 : 1)); break; case 2: op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); break; default: op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); }
  verify(c, m);
}
ENTRY(throwing_move_growth) { // without
  Track k; C c; Model m; int n = 1 + (int)sx_range(2, "size");
  try { for (int i = 0; i < n; i++) { u32 v = sym32("v"); c.template emplace<MO>(v); m.add(1, v); } if (sx_choose(2, "reserve")) c.template reserve<MO>(9); }
  catch (const not_copy_constructible&) { CHECKM(false, "growing a segment of move-only elements whose move is not noexcept raises not_copy_constructible"); }
  verify(c, m);
}
#endif
ENTRY(relocate) { // positional insertion and erasure, growth and shrinking in the middle: values survive
  Track k; C c; Model m; g_fix_type = 3 + (int)sx_choose(2, "type"); int t = g_fix_type; with(t, [&](auto g) { using T = typename decltype(g)::type; for (int i = 0; i < 2; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); } });
  op_emplace(c, m, 3); op_erase2(c, m, 1); op_misc(c, m, 6); op_emplace(c, m, 5); verify(c, m); tracked();
}
ENTRY(copying) { // copies of collections
  Track k; int t = restricted(); C c; Model m; build2(c, m, MAXN, t); C d; Model md; int form = (int)sx_choose(3, "form"); if (form == 2) build2(d, md, 1, t);
  bool bad = !copyable(t) && m.n[t] > 0;
  bool th = throws_not_copyable(t, [&](auto) { switch (form) { case 0: { C e(c); verify(e, m); Model x = m; probe_after(e, x); break; } case 1: { C e(c, TAv(9)); verify(e, m); break; } default: d = c; md = m; } });
  CHECKM(th == bad, "copying raises not_copy_constructible exactly when there is a noncopyable element");
  if (th && form == 2) { d.clear(); md = Model(); each_type([&](auto g) { using T = typename decltype(g)::type; md.reg[IdOf<T>::value] = d.template is_registered<T>(); }); } // valid, contents unspecified
  verify(c, m); verify(d, md, false); if (bad) { sx_reach("copy refused"); probe_after(c, m); } else sx_reach("copy done"); tracked();
}
ENTRY(moving) { // moves and swaps never copy
  Track k; int t = restricted(); C c; Model m, none; build2(c, m, MAXN, t); C d(TAv(sx_choose(2, "alloc") ? 9 : 0)); Model md; with(t, [&](auto g) { using T = typename decltype(g)::type; d.template emplace<T>(5u); md.add(t, 5); }); g_copies = 0;
  switch (sx_choose(5, "form")) { case 0: { C e(std::move(c)); verify(e, m); break; } case 1: { C e(std::move(c), TAv(9)); verify(e, m); break; } case 2: { C e(std::move(c), TAv(0)); verify(e, m); break; } case 3: d = std::move(c); verify(d, m); break;
    default: sx_assume(d.get_allocator().id == 0); c.swap(d); verify(d, m); verify(c, md); return; }
  CHECKM(g_copies == 0, "elements copied by a move"); verify(c, none, false); probe_after(c, none); tracked();
}
ENTRY(comparing) {
  Track k; int t = restricted(); C c, d; Model m, md; build2(c, m, MAXN, t); build2(d, md, MAXN, t); const C &cc = c, &cd = d;
  bool other = m.n[0] == md.n[0]; for (int i = 0; i < m.n[0] && other; i++) other = m.v[0][i] == md.v[0][i];
  bool same = m.n[t] == md.n[t]; bool must = !comparable(t) && same && m.n[t] > 0, e = other && same; if (comparable(t)) for (int i = 0; i < m.n[t] && e; i++) e = m.v[t][i] == md.v[t][i];
  for (int i = 0; i < 2; i++) {
    bool th = false, r = false;
    with(t, [&](auto g) { using T = typename decltype(g)::type; try { r = i ? !(cd != cc) : cc == cd; } catch (const not_equality_comparable& x) { th = true; CHECKM(*x.pinfo == typeid(T), "type carried by not_equality_comparable"); } });
    if (must && other) { CHECKM(th, "comparing noncomparable elements raises not_equality_comparable"); sx_reach("comparison refused"); } else if (!must) { CHECKM(!th, "not_equality_comparable raised although nothing noncomparable has to be compared"); CHECKM(r == e, "result of the comparison"); if (e) sx_reach("equal"); else sx_reach("different"); } else CHECKM(th || !r, "comparison");
  }
  verify(c, m); verify(d, md, false); tracked();
}
