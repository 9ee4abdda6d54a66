// C22: elements are made from exactly what is passed, and used only through what is required of them
#define CUSTOM_TYPES "c22_types.h"
#define NT 2
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
static void state(Coll& c, Model& m, int n = MAXN) { g_fix_type = 1; int k = (int)sx_range(n + 2, "size"); if (k == n + 1) return; c.register_types<H>(); m.reg[1] = true; int sp = (int)sx_choose(2, "spare"); if (k + sp) c.reserve<H>(k + 3 * sp); for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.emplace<H>(v); m.add(1, v); } }
static bool copied() { return g_copies != 0; }
// ---- emplacement: T(args...)
struct A4 { Arg a; int cat; A4(const char* n) : a(sym32("arg")), cat(1 + (int)sx_choose(4, n)) {} };
template <class F> static void as(Arg& a, int cat, F f) { switch (cat) { case 1: f(a); break; case 2: f(static_cast<const Arg&>(a)); break; case 3: f(std::move(a)); break; default: f(static_cast<const Arg&&>(a)); } }
template <class... X> static void emplace_form(Coll& c, Model& m, int form, u32 v, int& pos, X&&... x) {
  if (form == 0) { c.emplace<H>(std::forward<X>(x)...); pos = m.n[1]; m.add(1, v); return; }
  if (form == 1) { Hint<Coll> h(c); pos = h.pos(m, 1); c.emplace_hint<H>(h.it, std::forward<X>(x)...); m.ins(1, pos, v); return; }
  int p = pos = pick(m.n[1] + 1, "pos"); const Coll& cc = c;
  switch (form) {
    case 2: c.emplace_pos<H>(c.begin(typeid(H)) + p, std::forward<X>(x)...); break;
    case 3: c.emplace_pos<H>(cc.begin(typeid(H)) + p, std::forward<X>(x)...); break;
    case 4: c.emplace_pos(c.begin<H>() + p, std::forward<X>(x)...); break;
    default: c.emplace_pos(cc.begin<H>() + p, std::forward<X>(x)...); break;
  }
  m.ins(1, p, v);
}
static void made(const Coll& c, const Model& m, int pos, u32 sig, const A4* const* a, int n) {
  const H& h = *(c.begin<H>() + pos); CHECKM(h.sig == sig, "value categories and number of the arguments the element was constructed from"); CHECKM(!copied(), "element copied by an emplacement");
  for (int i = 0; i < n; i++) { CHECKM(h.from[i] == std::addressof(a[i]->a), "element constructed from the arguments themselves"); CHECKM(a[i]->a.st == (a[i]->cat == 3 ? MOVED : ALIVE), "state of the argument afterwards"); }
  verify(c, m);
}
ENTRY(emplace1) { Coll c; Model m; state(c, m); int form = (int)sx_choose(6, "form"), pos; if (form >= 2) reg(c, m, 1); A4 a("cat"); const A4* l[] = {std::addressof(a)}; g_copies = 0; as(a.a, a.cat, [&](auto&& x) { emplace_form(c, m, form, a.a.v, pos, std::forward<decltype(x)>(x)); }); made(c, m, pos, (u32)a.cat, l, 1); }
ENTRY(emplace2) { Coll c; Model m; state(c, m, 1); int form = (int)sx_choose(6, "form"), pos; if (form >= 2) reg(c, m, 1); A4 a("cat"), b("cat2"); const A4* l[] = {std::addressof(a), std::addressof(b)}; g_copies = 0;
  as(a.a, a.cat, [&](auto&& x) { as(b.a, b.cat, [&](auto&& y) { emplace_form(c, m, form, a.a.v ^ b.a.v, pos, std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); }); made(c, m, pos, (u32)(a.cat + 8 * b.cat), l, 2); }
ENTRY(emplace3) { Coll c; Model m; state(c, m, 1); int form = (int)sx_choose(6, "form"), pos; if (form >= 2) reg(c, m, 1); A4 a("cat"); const A4* l[] = {std::addressof(a)}; const u32 k = 5; g_copies = 0;
  as(a.a, a.cat, [&](auto&& x) { emplace_form(c, m, form, a.a.v ^ 7u ^ k, pos, std::forward<decltype(x)>(x), 7u, k); }); made(c, m, pos, (u32)(a.cat + 8 * 3 + 64 * 2), l, 1); }
// ---- insertion of a value: an lvalue is copied once, an rvalue moved
template <class It> static void insert_at(Coll& c, Model& m, int place, u32 v, It put) {
  if (place == 0) { put([&](auto&& x) { c.insert(std::forward<decltype(x)>(x)); }); m.add(1, v); }
  else if (place == 1) { Hint<Coll> h(c); int p = h.pos(m, 1); put([&](auto&& x) { c.insert(h.it, std::forward<decltype(x)>(x)); }); m.ins(1, p, v); }
  else { int p = pick(m.n[1] + 1, "pos"); at_local<H>(c, place - 2, p, [&](auto l) { put([&](auto&& x) { c.insert(l, std::forward<decltype(x)>(x)); }); }); m.ins(1, p, v); }
}
ENTRY(insert) {
  Coll c; Model m; state(c, m); int place = (int)sx_choose(6, "place"), cat = 1 + (int)sx_choose(4, "cat"); if (place >= 2) reg(c, m, 1); u32 v = sym32("v"); H x(v); u32 sig = x.sig; const H& cx = x; g_copies = 0;
  insert_at(c, m, place, v, [&](auto f) { switch (cat) { case 1: f(x); break; case 2: f(cx); break; case 3: f(std::move(x)); break; default: f(std::move(cx)); } });
  CHECKM(g_copies == (cat == 3 ? 0 : 1), cat == 3 ? "an rvalue is moved, not copied" : "an lvalue is copied exactly once"); CHECKM(x.c.st == (cat == 3 ? MOVED : ALIVE), "state of the source afterwards"); (void)sig; verify(c, m);
}
#if KIND == 0 || KIND == 2
ENTRY(insert_iface) { // through the interface
  Coll c; Model m; state(c, m); int place = (int)sx_choose(4, "place"), cat = 1 + (int)sx_choose(3, "cat"); reg(c, m, 1); u32 v = sym32("v");
#if KIND == 0
  H y(v); Base& x = y;
#else
  Coll o; o.emplace<H>(v); auto& x = *o.begin(); H& y = *o.begin<H>();
#endif
  g_copies = 0; const auto& cx = x;
  insert_at(c, m, place, v, [&](auto f) { switch (cat) { case 1: f(x); break; case 2: f(cx); break; default: f(std::move(x)); } });
#if KIND == 0
  CHECKM(g_copies == (cat == 3 ? 0 : 1), cat == 3 ? "an rvalue is moved, not copied" : "an lvalue is copied exactly once"); CHECKM(y.c.st == (cat == 3 ? MOVED : ALIVE), "state of the source afterwards");
#else
  if (cat != 3) { CHECKM(g_copies == 1, "an lvalue is copied exactly once"); CHECKM(y.c.st == ALIVE, "state of the source afterwards"); }
#endif
  verify(c, m);
}
#endif
// ---- ranges
template <class T, class R, class Tag> struct It { typedef Tag iterator_category; typedef std::decay_t<R> value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef R reference;
  T* p; R operator*() const { return static_cast<R>(*p); } It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; } bool operator==(const It& x) const { return p == x.p; } bool operator!=(const It& x) const { return p != x.p; } };
template <class R, class T, class F> static void rng(T* a, int n, bool fwd, F f) { if (fwd) f(It<T, R, std::forward_iterator_tag>{a}, It<T, R, std::forward_iterator_tag>{a + n}); else f(It<T, R, std::input_iterator_tag>{a}, It<T, R, std::input_iterator_tag>{a + n}); }
ENTRY(range) {
  Coll c; Model m; state(c, m, 1); int place = (int)sx_choose(6, "place"), cat = (int)sx_choose(5, "cat"), n = (int)sx_range(3, "count"); bool fwd = sx_choose(2, "forward"); if (place >= 2) reg(c, m, 1); u32 v[2]; for (int i = 0; i < n; i++) v[i] = sym32("v"); Arr<H> arr(v, n); H* a = arr.a; g_copies = 0;
  auto go = [&](auto f, auto l) {
    if (place == 0) { c.insert(f, l); for (int i = 0; i < n; i++) m.add(1, v[i]); if (n) m.reg[1] = true; }
    else if (place == 1) { Hint<Coll> h(c); int p = h.pos(m, 1); c.insert(h.it, f, l); for (int i = 0; i < n; i++) m.ins(1, p + i, v[i]); if (n) m.reg[1] = true; }
    else { int p = pick(m.n[1] + 1, "pos"); at_local<H>(c, place - 2, p, [&](auto q) { c.insert(q, f, l); }); for (int i = 0; i < n; i++) m.ins(1, p + i, v[i]); }
  };
  switch (cat) { case 0: rng<H>(a, n, fwd, go); break; case 1: rng<H&>(a, n, fwd, go); break; case 2: rng<const H&>(a, n, fwd, go); break; case 3: rng<H&&>(a, n, fwd, go); break; default: rng<const H&&>(a, n, fwd, go); }
  if (cat) CHECKM(g_copies == (cat == 3 ? 0 : n), cat == 3 ? "rvalues are moved, not copied" : "lvalues are copied exactly once"); for (int i = 0; i < n; i++) CHECKM(a[i].c.st == (cat == 3 ? MOVED : ALIVE), "state of the source afterwards"); verify(c, m);
}
ENTRY(range_args) { // typed local positions: each element constructed from *it
  Coll c; Model m; state(c, m, 1); reg(c, m, 1); int cat = 1 + (int)sx_choose(4, "cat"), n = (int)sx_range(3, "count"), p = pick(m.n[1] + 1, "pos"); bool fwd = sx_choose(2, "forward"), cn = sx_choose(2, "const"); u32 v[2] = {sym32("v"), sym32("v")}; Arg a[2] = {v[0], v[1]}; const Coll& cc = c; g_copies = 0;
  auto go = [&](auto f, auto l) { if (cn) c.insert(cc.begin<H>() + p, f, l); else c.insert(c.begin<H>() + p, f, l); };
  switch (cat) { case 1: rng<Arg&>(a, n, fwd, go); break; case 2: rng<const Arg&>(a, n, fwd, go); break; case 3: rng<Arg&&>(a, n, fwd, go); break; default: rng<const Arg&&>(a, n, fwd, go); }
  for (int i = 0; i < n; i++) { m.ins(1, p + i, v[i]); const H& h = *(c.begin<H>() + (p + i)); CHECKM(h.sig == (u32)cat, "value category the element was constructed from"); CHECKM(h.from[0] == std::addressof(a[i]), "element constructed from the item of the range"); CHECKM(a[i].st == (cat == 3 ? MOVED : ALIVE), "state of the source afterwards"); }
  CHECKM(!copied(), "elements copied"); verify(c, m);
}
// ---- everything else
ENTRY(any_op) { Coll c; Model m; state(c, m); if (sx_choose(2, "other")) { u32 v = sym32("v"); c.emplace<T0>(v); m.add(0, v); } op_any(c, m); verify(c, m); }
ENTRY(whole) {
  Coll c; Model m; state(c, m); Coll d; Model md; d.emplace<H>(9u); md.add(1, 9); const Coll &cc = c, &cd = d; bool same = m.n[1] == 1 && m.v[1][0] == 9;
  CHECKM((cc == cd) == same, "comparison"); CHECKM((cc != cd) == !same, "comparison"); g_copies = 0; int n = m.n[1];
  switch (sx_choose(5, "form")) { case 0: { Coll e(cc); CHECKM(g_copies == n, "each element copied once"); verify(e, m); CHECKM(e == cc, "copy equal"); verify(c, m); return; } case 1: { Coll e(std::move(c)); CHECKM(!g_copies, "copies in a move"); verify(e, m); return; } case 2: d = cc; CHECKM(g_copies == n, "each element copied once"); verify(d, m); verify(c, m); return; case 3: d = std::move(c); CHECKM(!g_copies, "copies in a move"); verify(d, m); return; default: c.swap(d); CHECKM(!g_copies, "copies in a swap"); verify(d, m); verify(c, md); }
}
struct Sees { template <class X> bool operator()(const X& x) const { return P(x, 0) & 1; } template <class X, class Y> bool operator()(const X& x, const Y& y) const { return P(x, 0) == P(y, 0); } };
struct Sink { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference; int* n; Sink& operator*() { return *this; } Sink& operator++() { return *this; } Sink operator++(int) { return *this; } template <class X> Sink& operator=(X&& x) { if (P(x, 0) < ~0ull) ++*n; return *this; } };
template <class... Ts> static void algorithms(Coll& c, int op) {
  namespace pcn = boost::poly_collection; int n = 0, total = (int)c.size(); Sees s;
  switch (op) {
    case 0: pcn::for_each<Ts...>(c.begin(), c.end(), [&](const auto& x) { n += P(x, 1) < 5; }); CHECKM(n == total, "calls"); break;
    case 1: { auto k = pcn::count_if<Ts...>(c.begin(), c.end(), s); auto it = pcn::find_if<Ts...>(c.begin(), c.end(), s); CHECKM((k != 0) == (it != c.end()), "found iff counted"); break; }
    case 2: { auto it = pcn::adjacent_find<Ts...>(c.begin(), c.end(), s); if (it != c.end()) { auto j = it; ++j; CHECKM(P(*it, 0) == P(*j, 0), "adjacent"); } break; }
    case 3: { pcn::unique_copy<Ts...>(c.begin(), c.end(), Sink{&n}, s); CHECKM(n <= total && (n > 0 || !total), "unique"); break; }
    case 4: CHECKM(pcn::is_permutation<Ts...>(c.begin(), c.end(), c.begin(), c.end(), s), "own permutation"); break;
    case 5: CHECKM(pcn::equal<Ts...>(c.begin(), c.end(), c.begin(), c.end(), s), "equal to itself"); break;
    case 6: CHECKM(pcn::search<Ts...>(c.begin(), c.end(), c.begin(), c.end(), s) == c.begin(), "found in itself"); break;
    case 7: { pcn::copy<Ts...>(c.begin(), c.end(), Sink{&n}); CHECKM(n == total, "copied"); break; }
    case 8: CHECKM(pcn::find_end<Ts...>(c.begin(), c.end(), c.begin(), c.end(), s) == c.begin(), "found in itself"); break;
    default: { pcn::rotate_copy<Ts...>(c.begin(), c.begin(), c.end(), Sink{&n}); CHECKM(n == total, "copied"); }
  }
}
ENTRY(algorithms) { Coll c; Model m; state(c, m); if (sx_choose(2, "other")) { u32 v = sym32("v"); c.emplace<T0>(v); m.add(0, v); } int op = (int)sx_choose(10, "algorithm"); switch (sx_choose(3, "list")) { case 0: algorithms<>(c, op); break; case 1: algorithms<H>(c, op); break; default: algorithms<T0, H>(c, op); } verify(c, m); }
