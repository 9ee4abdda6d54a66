// C09: copy, move, assignment, swap
#include "ops.h"
#ifndef MAXN
#define MAXN (THOROUGH ? 2 : 1)
#endif
static void use(Coll& c, Model& m) { // both collections keep working, separately
  switch (sx_choose(4, "use")) { case 0: probe_after(c, m); break; case 1: c.clear(); for (int t = 0; t < NT; t++) m.n[t] = 0; break; case 2: if (m.total()) { Where w = where(c, 0); c.erase(c.begin()); m.era(w.t, w.i, w.i + 1); } break; default: each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; if (!m.reg[t]) return; u32 v = sym32("u"); const T x(v); c.insert(c.cbegin(typeid(T)), x); m.ins(t, 0, v); }); }
}
ENTRY(copy) { Coll c; Model m; build(c, m, THOROUGH ? 3 : 2); const Coll& cc = c; Model k = m;
  Coll* p = sx_choose(2, "alloc") ? new Coll(cc, Coll::allocator_type()) : new Coll(cc); verify(*p, m); verify(c, m); CHECK(*p == c);
  use(c, m); verify(*p, k); verify(c, m); use(*p, k); verify(c, m); verify(*p, k); delete p; verify(c, m); }
ENTRY(move) { Coll c; Model m; build(c, m, THOROUGH ? 3 : 2); Coll* p = sx_choose(2, "alloc") ? new Coll(std::move(c), Coll::allocator_type()) : new Coll(std::move(c)); Model z; verify(*p, m); verify(c, z);
  use(*p, m); verify(*p, m); verify(c, z); probe_after(c, z); verify(c, z); verify(*p, m); delete p; verify(c, z); }
ENTRY(assign) { Coll c, d; Model m, k; build(c, m, MAXN); build(d, k, MAXN); const Coll& cc = c; Coll& r = (d = cc); CHECK(&r == &d); verify(d, m); verify(c, m); k = m; use(d, k); verify(d, k); verify(c, m); use(c, m); verify(c, m); verify(d, k); }
ENTRY(move_assign) { Coll c, d; Model m, k; build(c, m, MAXN); build(d, k, MAXN); Coll& r = (d = std::move(c)); CHECK(&r == &d); verify(d, m); verify(c, Model()); Model z; use(d, m); verify(d, m); probe_after(c, z); verify(c, z); verify(d, m); }
ENTRY(swap) { Coll c, d; Model m, k; build(c, m, MAXN); build(d, k, MAXN); switch (sx_choose(2, "form")) { case 0: c.swap(d); break; default: { using std::swap; swap(c, d); } } verify(c, k); verify(d, m); use(c, k); verify(c, k); verify(d, m); use(d, m); verify(d, m); verify(c, k); }
ENTRY(self) { Coll c; Model m; build(c, m, 2); Coll& r = c; switch (sx_choose(3, "form")) { case 0: c = static_cast<const Coll&>(r); verify(c, m); break; case 1: c = std::move(r); verify(c, m); break; default: c.swap(r); verify(c, m); } use(c, m); verify(c, m); }
ENTRY(chain) { Coll a; Model m; build(a, m, 1); Coll b(a); Coll c; c = b; Coll d(std::move(b)); Coll e; e = std::move(d); e.swap(a); verify(e, m); verify(a, m); verify(c, m); verify(d, Model()); verify(b, Model()); CHECK(a == e && e == c); use(e, m); verify(e, m); }
ENTRY(big) { // many elements
  Coll c; Model m; int b = build_big(c, m); Coll d; Model z, k; if (sx_choose(2, "dest")) { d.template emplace<Ty<0>>(4u); k.add(0, 4); } (void)b;
  switch (sx_choose(6, "form")) {
    case 0: { Coll e(c); verify(e, m); verify(c, m, false); CHECK(e == c); Model q = m; use(e, m); verify(e, m); verify(c, q, false); break; }
    case 1: { Coll e(std::move(c)); verify(e, m); verify(c, z); use(e, m); verify(e, m); break; }
    case 2: { Coll e(std::move(c), Coll::allocator_type()); verify(e, m); verify(c, z); use(e, m); verify(e, m); probe_after(c, z); verify(c, z); break; }
    case 3: { d = c; verify(d, m); verify(c, m, false); CHECK(d == c); Model q = m; use(d, m); verify(d, m); verify(c, q, false); break; }
    case 4: d = std::move(c); verify(d, m); verify(c, z); use(d, m); verify(d, m); probe_after(c, z); verify(c, z); break;
    default: c.swap(d); verify(d, m); verify(c, k); use(d, m); verify(d, m); use(c, k); verify(c, k);
  }
}
#if NT >= 5
ENTRY(many) { Coll c, d; Model m, k; build(c, m, 1, true, false); if (sx_choose(2, "dest")) { g_concrete = true; for (int t = NT; t-- > 0;) with(t, [&](auto g) { using T = typename decltype(g)::type; if (t & 1) { d.template emplace<T>(9u); k.add(t, 9); } else { d.template register_types<T>(); k.reg[t] = true; } }); } Model z;
  switch (sx_choose(6, "form")) {
    case 0: { Coll e(c); verify(e, m); verify(c, m); break; }
    case 1: { Coll e(std::move(c)); verify(e, m); verify(c, z); break; }
    case 2: { Coll e(std::move(c), Coll::allocator_type()); verify(e, m); verify(c, z); probe_after(c, z); verify(c, z); break; }
    case 3: d = c; verify(d, m); verify(c, m); probe_after(d, m); verify(d, m); break;
    case 4: d = std::move(c); verify(d, m); verify(c, z); probe_after(d, m); verify(d, m); break;
    default: c.swap(d); verify(d, m); verify(c, k); probe_after(d, m); verify(d, m); verify(c, k); } }
#endif
