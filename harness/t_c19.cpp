// C19: local iterators
#include "ops.h"
#include <algorithm>
template <class C, class T> struct Seg { int n; u64 addr[CAP]; u32 v[CAP]; Seg(C& c, const Model& m) : n(m.n[IdOf<T>::value]) { for (int i = 0; i < n; i++) { addr[i] = (c.template begin<T>() + i)->probe(2); v[i] = m.v[IdOf<T>::value][i]; } } };
template <class T> u64 A(const T& x) { return P(x, 2); }
// all of random access, between positions i and j
template <class It, class S> void arithmetic(const It b, const It e, const S& s) {
  int n = s.n, i = (int)sx_choose(n + 1, "i"), j = (int)sx_range(n + 1, "j"); std::ptrdiff_t d = j - i;
  CHECK(e - b == n && b - e == -n && b + n == e && e - n == b); It a = b + i, c = b; c += j; It x;
  CHECK(c - a == d && a - c == -d && a + d == c && d + a == c && c - d == a); CHECK(std::distance(a, c) == d); x = std::next(a, d); CHECK(x == c);
  CHECK((a == c) == (d == 0) && (a != c) == (d != 0) && (a < c) == (d > 0) && (a <= c) == (d >= 0) && (a > c) == (d < 0) && (a >= c) == (d <= 0));
  x = a; x -= i; CHECK(x == b); x = a; x += d; CHECK(x == c); x -= d; CHECK(x == a); x = b; for (int k = 0; k < i; k++) { It y = x; It o = x++; CHECK(o == y && x != y && x - y == 1); } CHECK(x == a);
  x = e; for (int k = n; k > i; k--) --x; CHECK(x == a); x = e; for (int k = n; k > j; k--) { It y = x; It o = x--; CHECK(o == y && y - x == 1); } CHECK(x == c); It y = a; using std::swap; swap(x, y); CHECK(x == a && y == c); It z(y); CHECK(z == c);
  if (i < n) { CHECKM(A(*a) == s.addr[i], "dereference"); CHECKM(P(*a, 0) == s.v[i], "value"); It q = a; CHECKM(A(*q++) == s.addr[i], "dereference of the previous position"); CHECKM(A(b[i]) == s.addr[i] && A(e[i - n]) == s.addr[i], "indexing"); CHECKM(A(*std::addressof(*a)) == s.addr[i], "address"); }
  if (j < n) CHECKM(A(a[d]) == s.addr[j], "indexing");
  if (d > 0) { int k = i; for (It q = a; q < c; ++q) CHECK(A(*q) == s.addr[k++]); CHECK(k == j); }
}
template <class C, class T> void forms(C& c, const Model& m, int form) {
  Seg<C, T> s(c, m); const C& cc = c;
  switch (form) {
    case 0: arithmetic(c.begin(typeid(T)), c.end(typeid(T)), s); break;
    case 1: arithmetic(cc.begin(typeid(T)), cc.end(typeid(T)), s); break;
    case 2: arithmetic(c.template begin<T>(), c.template end<T>(), s); break;
    case 3: arithmetic(cc.template begin<T>(), cc.template end<T>(), s); break;
    case 4: { auto g = c.segment(typeid(T)); arithmetic(g.begin(), g.end(), s); break; }
    default: { auto g = c.template segment<T>(); arithmetic(g.cbegin(), g.cend(), s); }
  }
}
ENTRY(arithmetic) { Coll c; Model m; build(c, m, 1, true, false); int t = any_type(); sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; int k = (int)sx_range(THOROUGH ? 4 : 3, "more"); for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); } forms<Coll, T>(c, m, (int)sx_choose(6, "form")); }); }
// conversions at position i
template <class C, class T> void conversions(C& c, const Model& m) {
  using LB = typename C::local_base_iterator; using CLB = typename C::const_local_base_iterator; using L = typename C::template local_iterator<T>; using CL = typename C::template const_local_iterator<T>;
  static_assert(std::is_convertible<LB, CLB>::value && std::is_convertible<L, CL>::value, "implicit conversions"); static_assert(std::is_constructible<L, LB>::value && std::is_constructible<LB, L>::value && std::is_constructible<CL, CLB>::value && std::is_constructible<CLB, CL>::value, "explicit conversions");
  static_assert(!std::is_convertible<CLB, LB>::value && !std::is_convertible<CL, L>::value, "const is kept"); static_assert(std::is_same<decltype(*std::declval<L>()), T&>::value && std::is_same<decltype(*std::declval<CL>()), const T&>::value, "references");
  const C& cc = c; Seg<C, T> s(c, m); int n = s.n, i = (int)sx_range(n + 1, "i");
  LB lb = c.begin(typeid(T)) + i; CLB clb = cc.begin(typeid(T)) + i; L l = c.template begin<T>() + i; CL cl = cc.template begin<T>() + i;
  auto is = [&](auto it, auto b, auto e) { CHECKM(it - b == i && e - it == n - i, "position after conversion"); CHECKM(it == b + i, "position after conversion"); if (i < n) { CHECKM(A(*it) == s.addr[i] && P(*it, 0) == s.v[i], "element after conversion"); } else CHECKM(it == e, "end after conversion"); auto j = it; for (int k = i; k < n; k++) { CHECK(j != e); CHECKM(A(*j) == s.addr[k], "iteration after conversion"); ++j; } CHECK(j == e); if (n) { CHECKM(A(*(it - i)) == s.addr[0], "iteration backwards after conversion"); } };
  auto isLB = [&](LB x) { is(x, c.begin(typeid(T)), c.end(typeid(T))); }; auto isCLB = [&](CLB x) { is(x, c.cbegin(typeid(T)), cc.end(typeid(T))); }; auto isL = [&](L x) { is(x, c.template begin<T>(), c.template end<T>()); }; auto isCL = [&](CL x) { is(x, c.template cbegin<T>(), cc.template end<T>()); };
  switch (sx_choose(9, "conversion")) {
    case 0: isLB(lb); isCLB(clb); isL(l); isCL(cl); break;
    case 1: isCLB(lb); CHECK(clb == lb && lb == clb && !(lb != clb) && lb - clb == 0 && lb <= clb); break;
    case 2: isCL(l); CHECK(cl == l && l == cl && cl - l == 0 && !(l < cl)); break;
    case 3: isL(L(lb)); isL(static_cast<L>(lb)); break;
    case 4: isCL(CL(clb)); isCL(CL(CLB(lb))); break;
    case 5: isLB(LB(l)); break;
    case 6: isCLB(CLB(cl)); isCLB(LB(l)); break;
    case 7: isL(L(LB(L(lb)))); isCL(CL(CLB(CL(clb)))); { CLB x; x = lb; isCLB(x); CL y; y = l; isCL(y); } break;
    default: { auto g = c.segment(typeid(T)); isL(L(g.begin() + i)); isLB(g.begin() + i); isL(g.template begin<T>() + i); isL(g.template end<T>() - (n - i)); isCL(CL(g.cend() - (n - i))); isCLB(CLB(g.template cbegin<T>() + i)); auto h = c.template segment<T>(); isLB(LB(h.begin() + i)); isCL(h.cend() - (n - i)); auto gc = cc.segment(typeid(T)); isCLB(gc.begin() + i); isCL(gc.template begin<T>() + i); } }
  if (i < n) { auto k = c.begin(); int q = 0; while (q++ < 64 && A(*k) != s.addr[i]) ++k; CHECKM(A(*k) == A(*lb) && A(*k) == A(*l), "global and local iterators designate the same element"); }
}
ENTRY(conversion) { Coll c; Model m; build(c, m, 1); int t = any_type(); sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; int k = (int)sx_range(3, "more"); for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); } conversions<Coll, T>(c, m); }); }
ENTRY(after_change) { // positions and conversions after the segment was modified, with the iterators the modification returned
  Coll c; Model m; build(c, m, 1, true, true, 2); int t = g_fix_type = (int)sx_choose(2, "type"); 
  switch (sx_choose(4, "op")) { case 0: op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); break; case 1: op_erase2(c, m, 1 + (int)sx_choose(4, "form")); break; case 2: op_misc(c, m, (int)sx_choose(N_MISC, "form")); break; default: op_insert(c, m, N_SRC * (int)sx_choose(6, "form")); }
  sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; conversions<Coll, T>(c, m); });
}
ENTRY(returned) { // what local insertion and erasure return converts like any other iterator
  Coll c; Model m; build(c, m, 1, false, true, 2); int t = (int)sx_choose(2, "type"); u32 v = sym32("v");
  with(t, [&](auto g) { using T = typename decltype(g)::type; using L = typename Coll::template local_iterator<T>; using LB = typename Coll::local_base_iterator; int p = (int)sx_range(m.n[t] + 1, "pos");
    switch (sx_choose(5, "form")) {
      case 0: { LB r = c.template emplace_pos<T>(c.begin(typeid(T)) + p, v); m.ins(t, p, v); L l(r); CHECK(l - c.template begin<T>() == p && l->value() == v); break; }
      case 1: { L r = c.emplace_pos(c.template begin<T>() + p, v); m.ins(t, p, v); LB l(r); CHECK(l - c.begin(typeid(T)) == p && P(*l, 0) == v && A(*l) == r->probe(2)); break; }
      case 2: { L r = c.insert(c.template cbegin<T>() + p, T(v)); m.ins(t, p, v); LB l(r); CHECK(c.end(typeid(T)) - l == m.n[t] - p); break; }
      case 3: { sx_assume(p < m.n[t]); L r = c.erase(c.template begin<T>() + p); m.era(t, p, p + 1); LB l(r); CHECK(l - c.begin(typeid(T)) == p); CHECK(c.template end<T>() - r == m.n[t] - p); break; }
      default: { LB r = c.erase(c.cbegin(typeid(T)) + p, c.cend(typeid(T))); m.era(t, p, m.n[t]); L l(r); CHECK(l == c.template end<T>() && l - c.template begin<T>() == p); } } });
  verify(c, m);
}
ENTRY(permute) { // typed local iterators are good for standard mutating algorithms
  Coll c; Model m; build(c, m, 1, true, false); int t = any_type(); sx_assume(m.reg[t]);
  with(t, [&](auto g) { using T = typename decltype(g)::type; int k = (int)sx_range(3, "more"); for (int i = 0; i < k; i++) { u32 v = sym32("v"); c.template emplace<T>(v); m.add(t, v); }
    u32* v = m.v[t]; int n = m.n[t]; if (sx_choose(2, "reverse")) { std::reverse(c.template begin<T>(), c.template end<T>()); std::reverse(v, v + n); } else if (n) { int q = (int)sx_range(n, "mid"); std::rotate(c.template begin<T>(), c.template begin<T>() + q, c.template end<T>()); std::rotate(v, v + q, v + n); } });
  verify(c, m);
}
