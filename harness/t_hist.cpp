// C01: histories of several operations from the empty collection
#include "ops.h"
#ifndef STEPS
#define STEPS (THOROUGH ? 5 : 4)
#endif
// the operations at their simplest, one per path
static void step(Coll*& c, Model& m) {
  int op = (int)sx_choose(13, "op");
  if (op < 9) {
    int t = any_type();
    with(t, [&](auto g) {
      using T = typename decltype(g)::type; u32 v = sym32("v");
      switch (op) {
        case 0: c->template emplace<T>(v); m.add(t, v); break;
        case 1: { Where w = where(*c, 0); const T x(v); c->insert(c->begin(), x); m.ins(t, w.t == t ? w.i : m.n[t], v); break; }
        case 2: { c->template register_types<T>(); m.reg[t] = true; int p = m.n[t] / 2; T x(v); c->insert(c->template begin<T>() + p, std::move(x)); m.ins(t, p, v); break; }
        case 3: { u32 w = sym32("w"); std::allocator<T> al; T* a = al.allocate(2); ::new (a) T(v); ::new (a + 1) T(w); c->insert(c->begin(), FwIt<T>{a}, FwIt<T>{a + 2}); a[0].~T(); a[1].~T(); al.deallocate(a, 2);
          Where q = where(*c, 0); (void)q; // position: before the old first element if it was of this type, else at the end
          int p = m.n[t]; if (m.total() && m.n[t]) { bool first = false; for (auto s : c->segment_traversal()) if (s.begin() != s.end()) { first = s.type_info() == typeid(T); break; } if (first) p = 0; }
          m.ins(t, p, v); m.ins(t, p + 1, w); break; }
        case 4: if (!m.n[t]) sx_assume(false); c->erase(c->begin(typeid(T))); m.era(t, 0, 1); break;
        case 5: if (!m.reg[t]) sx_assume(false); c->erase(c->template begin<T>() + m.n[t] / 2, c->template end<T>()); m.era(t, m.n[t] / 2, m.n[t]); break;
        case 6: if (!m.reg[t]) sx_assume(false); c->template clear<T>(); m.n[t] = 0; break;
        case 7: c->template reserve<T>(m.n[t] + 2); m.reg[t] = true; break;
        default: if (!m.reg[t]) sx_assume(false); c->template shrink_to_fit<T>(); break;
      }
    });
  } else switch (op) {
    case 9: if (!m.total()) sx_assume(false); { Where w = where(*c, m.total() - 1); c->erase(nth(*c, m.total() - 1)); m.era(w.t, w.i, w.i + 1); } break;
    case 10: { Coll* d = new Coll(*c); delete c; c = d; break; }
    case 11: { Coll* d = new Coll(std::move(*c)); verify(*c, Model()); delete c; c = d; break; }
    default: { Coll* d = new Coll; if (NT > 1) d->template register_types<Ty<NT - 1>>(); *d = *c; delete c; c = d; break; }
  }
}
ENTRY(history) { Coll* c = new Coll; Model m; for (int i = 0; i < STEPS; i++) step(c, m); verify(*c, m); delete c; }
