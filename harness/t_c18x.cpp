// C18: two parts of one program, each with its own copy of the library's code and of every type information object (as with
// shared libraries that hide their symbols), work on the same collection. Compiled twice: SIDE=1 keeps everything but side1_do
// and the harness's own globals to itself, SIDE=0 holds the entries.
#include "ops.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define DO CAT(CAT(side, SIDE), _do)
#define MK CAT(CAT(side, SIDE), _mk)
#define MKC CAT(CAT(side, SIDE), _mkc)
#if SIDE == 0
#define OMK side1_mk
#define OMKC side1_mkc
#else
#define OMK side0_mk
#define OMKC side0_mkc
#endif
// elements and collections that one side makes for the other
extern "C" Base* MK(int t, u32 v) { Base* r = nullptr; with(t, [&](auto g) { using T = typename decltype(g)::type; r = new T(v); }); return r; }
extern "C" Coll* MKC(int t, u32 v) { Coll* o = new Coll; with(t, [&](auto g) { using T = typename decltype(g)::type; o->template emplace<T>(v); o->template emplace<T>(v + 1); }); return o; }
extern "C" Base* OMK(int t, u32 v); extern "C" Coll* OMKC(int t, u32 v);
enum { N_OPS = 17, CHECK_ALL = 100, FOREIGN = 200 };
template <class T> struct F { u64* n; bool* w; void operator()(const T&) const { ++*n; } template <class X> void operator()(const X& x) const { if (P(x, 1) == (u64)IdOf<T>::value) *w = true; } };
template <class T> static u64 typed_calls(const Coll& c, bool& wrong) { u64 n = 0; boost::poly_collection::for_each<T>(c.begin(), c.end(), F<T>{&n, &wrong}); return n; }
extern "C" void DO(int op, Coll* pc, Model* pm, int t, u32 v) {
  Coll& c = *pc; Model& m = *pm; const Coll& cc = c;
  if (op == CHECK_ALL) { // everything this side sees of the collection
    verify(c, m); Coll same; bool wrong = false;
    for (int q = 0; q < NT; q++) with(q, [&](auto g) { using T = typename decltype(g)::type; if (m.reg[q]) { same.template register_types<T>(); for (int i = 0; i < m.n[q]; i++) same.template emplace<T>(m.v[q][i]); CHECKM(c.is_registered(typeid(T)) && c.size(typeid(T)) == (std::size_t)m.n[q] && cc.segment(typeid(T)).type_info() == typeid(T), "lookup by this side's type information"); }
      else CHECKM(!c.is_registered(typeid(T)), "lookup by this side's type information"); CHECKM(typed_calls<T>(cc, wrong) == (u64)m.n[q] && !wrong, "elements of a listed type passed with their type"); });
    int k = 0; for (auto& x : c) with((int)P(x, 1), [&](auto g) { using T = typename decltype(g)::type; k++; (void)sizeof(T);
#if KIND == 0
      CHECK(typeid(x) == typeid(T));
#elif KIND == 1
      CHECKM(x.target_type() == typeid(T) && x.template target<T>() != nullptr && (u64)x.template target<T>() == P(x, 2), "target");
#else
      CHECK(te::typeid_of(x) == typeid(T));
#endif
    });
    CHECK(k == m.total()); CHECKM(same == c && c == same && !(same != c), "equality with a collection made by this side");
    for (auto s : c.segment_traversal()) { int q = -1; for (int j = 0; j < NT; j++) with(j, [&](auto g) { using T = typename decltype(g)::type; if (s.type_info() == typeid(T)) q = j; }); CHECKM(q >= 0 && m.reg[q], "segment type"); }
    return; }
  bool foreign = op >= FOREIGN; if (foreign) op -= FOREIGN;
  with(t, [&](auto g) { using T = typename decltype(g)::type; std::unique_ptr<Base> px(foreign ? OMK(t, v) : MK(t, v)); std::unique_ptr<Coll> po(foreign ? OMKC(t, v) : MKC(t, v)); T& x = static_cast<T&>(*px); Coll& o = *po; auto reg = [&] { if (!m.reg[t]) { c.template register_types<T>(); m.reg[t] = true; } };
    switch (op) {
      case 0: c.template register_types<T>(); m.reg[t] = true; break;
      case 1: { auto it = c.template emplace<T>(v); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); break; }
      case 2: { const T& y = x; auto it = c.insert(y); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); break; }
      case 3: { auto it = c.insert(std::move(x)); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); break; }
      case 4: case 5: { bool thrown = false, had = m.reg[t]; try { if (op == 4) c.insert(*o.begin()); else c.insert(c.cend(), *o.cbegin()); } catch (const unregistered_type& e) { thrown = true; CHECK(*e.pinfo == typeid(T)); } CHECKM(thrown == !had, "unregistered_type exactly for unregistered types"); if (!thrown) m.add(t, v); break; }
      case 6: { reg(); int p = m.n[t] / 2; auto it = c.template emplace_pos<T>(c.begin(typeid(T)) + p, v); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 7: { reg(); int p = m.n[t] / 2; auto it = c.insert(c.template begin<T>() + p, x); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 8: { reg(); int p = m.n[t] / 2; auto it = c.insert(cc.begin(typeid(T)) + p, *o.begin()); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 9: { Where w = where(c, 0); int p = w.t == t ? w.i : m.n[t]; auto it = c.template emplace_hint<T>(c.cbegin(), v); m.ins(t, p, v); chk_at(c, m, it, t, p); break; }
      case 10: { Where w = where(c, 0); int p = w.t == t ? w.i : m.n[t]; auto it = c.insert(c.cbegin(), x); m.ins(t, p, v); chk_at(c, m, it, t, p); break; }
      case 11: reg(); c.insert(o.begin(), o.end()); m.add(t, v); m.add(t, v + 1); break;
      case 12: reg(); c.insert(o.template begin<T>(), o.template end<T>()); m.add(t, v); m.add(t, v + 1); break;
      case 13: sx_assume(m.n[t] > 0); c.erase(c.begin(typeid(T))); m.era(t, 0, 1); break;
      case 14: c.template reserve<T>(3); m.reg[t] = true; CHECK(c.capacity(typeid(T)) >= 3); c.shrink_to_fit(typeid(T)); break;
      case 15: { Coll d(c); CHECK(d == c); c = std::move(d); break; }
      default: reg(); c.template clear<T>(); m.n[t] = 0; }
  });
}
#if SIDE == 0
extern "C" void side1_do(int op, Coll* c, Model* m, int t, u32 v);
static void side(int s, int op, Coll& c, Model& m, int t, u32 v) { if (s) side1_do(op, &c, &m, t, v); else side0_do(op, &c, &m, t, v); }
ENTRY(sides) {
  Coll c; Model m; int foreign = sx_choose(2, "foreign") ? FOREIGN : 0, steps = THOROUGH ? 3 : 2, s0 = (int)sx_choose(2, "side"); if (sx_choose(2, "start")) { side(s0, 1, c, m, 0, sym32("v")); if (sx_choose(2, "second")) side(!s0, 1, c, m, 0, sym32("v")); }
  for (int i = 0; i < steps; i++) side((int)sx_choose(2, "side"), foreign + (int)sx_choose(N_OPS, "op"), c, m, (int)sx_choose(2, "type"), sym32("v"));
  side(0, CHECK_ALL, c, m, 0, 0); side(1, CHECK_ALL, c, m, 0, 0);
}
ENTRY(moved) { // a collection made by one side, transferred by the other
  Coll c; Model m; for (int i = 0; i < 2; i++) side((int)sx_choose(2, "side"), 1, c, m, (int)sx_choose(2, "type"), sym32("v")); Coll d; Model md; side((int)sx_choose(2, "side"), 1, d, md, 0, sym32("v"));
  CHECKM((c == d) == (m.n[0] == 1 && m.n[1] == 0 && m.v[0][0] == md.v[0][0]), "equality"); 
  switch (sx_choose(4, "op")) { case 0: { Coll e(c); CHECK(e == c); side(1, CHECK_ALL, e, m, 0, 0); break; } case 1: d = c; side(1, CHECK_ALL, d, m, 0, 0); break; case 2: c.swap(d); side(1, CHECK_ALL, d, m, 0, 0); side(0, CHECK_ALL, c, md, 0, 0); break; default: c.insert(d.begin(), d.end()); m.add(0, md.v[0][0]); side(1, CHECK_ALL, c, m, 0, 0); side(0, CHECK_ALL, c, m, 0, 0); }
}
#endif
