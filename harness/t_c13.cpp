// C13: a failure at any fallible step leaves everything valid and leaks nothing
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
#define KF 40
template <class T> struct FA { // allocation may fail; POCCA/POCMA/POCS and equality as configured
  typedef T value_type; int id;
  FA(int id = 0) noexcept : id(id) {} template <class U> FA(const FA<U>& x) noexcept : id(x.id) {}
  T* allocate(std::size_t n) { fault_point(F_ALLOC); return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
#ifndef PROP
#define PROP 0
#endif
  typedef std::integral_constant<bool, PROP> propagate_on_container_copy_assignment, propagate_on_container_move_assignment; typedef std::true_type propagate_on_container_swap;
  template <class U> bool operator==(const FA<U>& x) const { return id == x.id; } template <class U> bool operator!=(const FA<U>& x) const { return id != x.id; }
};
using C = CollA<FA>;
static int live() { int r = 0; for (int x : g_live) r += x; return r; }
// consistent from every side; segments other than 'addressed' exactly as in m (exact: that one too)
template <class C> std::size_t sane(C& c, const Model& m, int addressed, bool exact) {
  const C& cc = c; std::size_t total = 0, segs = 0;
  each_type([&](auto g) {
    using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; bool same = exact || (addressed >= 0 && t != addressed);
    bool r = cc.template is_registered<T>(); CHECKM(cc.is_registered(typeid(T)) == r, "registration state"); if (m.reg[t]) CHECKM(r, "type no longer registered"); 
    if (addressed >= 0 && t != addressed) CHECKM(r == m.reg[t], "another type got registered");
    if (!r) { CHECKM(m.n[t] == 0, "elements lost"); return; }
    segs++; std::size_t n = cc.template size<T>(); total += n; CHECKM(cc.size(typeid(T)) == n && cc.template empty<T>() == (n == 0) && cc.template capacity<T>() >= n, "size, emptiness and capacity agree");
    if (same) CHECKM(n == (std::size_t)m.n[t], "size of a segment the failed operation should not have changed");
    auto b = cc.begin(typeid(T)), e = cc.end(typeid(T)); CHECKM((std::size_t)(e - b) == n, "local range and size agree"); std::size_t i = 0;
    for (auto& x : c.template segment<T>()) { CHECKM(i < n, "local traversal too long"); CHECKM(b != e && P(*b, 2) == x.probe(2), "local traversals agree"); x.probe(3); if (same) CHECKM(x.value() == m.v[t][i], "value of an element the failed operation should not have changed"); ++b; ++i; }
    CHECKM(i == n && b == e, "local traversal too short");
  });
  CHECKM(cc.size() == total && cc.empty() == (total == 0), "sizes agree"); std::size_t k = 0;
  for (auto it = c.begin(), e = c.end(); it != e; ++it) { CHECKM(k < total, "traversal too long"); P(*it, 3); k++; }
  CHECKM(k == total, "traversal too short"); k = 0; std::size_t s2 = 0;
  for (auto s : cc.segment_traversal()) { s2++; CHECKM(s2 <= segs, "too many segments"); for (auto it = s.begin(); it != s.end(); ++it) { CHECKM(k < total, "traversal too long"); P(*it, 3); k++; } }
  CHECKM(k == total && s2 == segs, "segment traversal"); return total;
}
// still usable: elements can be added, erased, everything cleared
template <class C> void usable(C& c) {
  g_lenient = true;
  each_type([&](auto g) { using T = typename decltype(g)::type; std::size_t n = c.template is_registered<T>() ? c.template size<T>() : 0; u32 v = sym32("probe"); auto it = c.template emplace<T>(v); CHECKM(P(*it, 0) == v && P(*it, 1) == IdOf<T>::value, "element added afterwards"); CHECKM(c.template size<T>() == n + 1 && (c.template begin<T>() + n)->value() == v, "element added afterwards"); });
  Model none; sane(c, none, -1, false);
  each_type([&](auto g) { using T = typename decltype(g)::type; std::size_t n = c.template size<T>(); c.erase(c.template begin<T>()); CHECKM(c.template size<T>() == n - 1, "element erased afterwards"); });
  sane(c, none, -1, false); c.reserve(3); c.shrink_to_fit(); sane(c, none, -1, false); c.clear(); CHECKM(c.size() == 0 && c.begin() == c.end(), "cleared afterwards"); g_lenient = false;
}
struct Want { Want(u64 mask) { g_want = (int)mask; g_fault_at = sx_range(KF + 1, "fault"); g_fault_ctr = 0; g_fault_hit = false; } ~Want() { g_want = 0; CHECKM(g_fault_ctr < KF, "bound on fallible steps too small"); } };
#define ALL (F_CTOR | F_COPY | F_MOVE | F_ASSIGN | F_ALLOC)
template <class F> static void attempt(F f, bool strong, bool swallow = false) {
  C c; Model m; build(c, m, MAXN); Model before = m; bool thrown = false;
  { Want w(ALL); try { f(c, m); } catch (const Fault&) { thrown = true; } catch (...) { CHECKM(false, "the exception reaches the caller unchanged"); } if (!swallow) CHECKM(thrown == g_fault_hit, "the exception reaches the caller"); }
  if (!thrown) { verify(c, m, false); return; }
  std::size_t n = sane(c, before, g_addressed, strong); CHECKM((std::size_t)live() == n, "elements leaked"); usable(c);
}
ENTRY(emplace) { int f = (int)sx_choose(N_EMPLACE, "form"); attempt([&](C& c, Model& m) { op_emplace(c, m, f); }, f < 2); }
ENTRY(insert) { int f = (int)sx_choose(N_INSERT, "form"); attempt([&](C& c, Model& m) { op_insert(c, m, f); }, f < N_SRC); }
ENTRY(range) { int f = (int)sx_choose(N_RANGE, "form"); attempt([&](C& c, Model& m) { op_range(c, m, f); }, false); }
ENTRY(mixed) { bool h = sx_choose(2, "hinted"); attempt([&](C& c, Model& m) { op_range_mixed(c, m, h, 1); }, false); }
ENTRY(erase1) { int f = (int)sx_choose(N_ERASE1, "form"); attempt([&](C& c, Model& m) { op_erase1(c, m, f); }, false); }
ENTRY(erase2) { int f = (int)sx_choose(N_ERASE2, "form"); attempt([&](C& c, Model& m) { op_erase2(c, m, f); }, false); }
ENTRY(misc) { int f = (int)sx_choose(N_MISC, "form"); attempt([&](C& c, Model& m) { op_misc(c, m, f); }, true, f >= 6 && f < 9); /* shrink_to_fit may give up silently */ }
// construction, assignment, swap, comparison
ENTRY(construct) {
  C c; Model m; build(c, m, MAXN); int form = (int)sx_choose(4, "form"); bool thrown = false; bool copy = form < 2;
  { Want w(ALL); try { Arm arm;
      if (form == 0) { C d(c); g_fault_mask = 0; verify(d, m); } else if (form == 1) { C d(c, FA<typename C::value_type>(1)); g_fault_mask = 0; verify(d, m); }
      else if (form == 2) { C d(std::move(c), FA<typename C::value_type>(1)); g_fault_mask = 0; verify(d, m); } else { C d(std::move(c), FA<typename C::value_type>(0)); g_fault_mask = 0; verify(d, m); }
    } catch (const Fault&) { thrown = true; } CHECKM(thrown == g_fault_hit, "the exception reaches the caller"); }
  if (copy) verify(c, m, false); std::size_t n = sane(c, copy ? m : Model(), -1, copy); CHECKM((std::size_t)live() == n, "elements leaked"); usable(c);
}
ENTRY(assign) {
  C c(FA<typename C::value_type>(0)), d(FA<typename C::value_type>((int)sx_choose(2, "id"))); Model m, md; build(c, m, MAXN, true, false); build(d, md, 1, true, false); int form = (int)sx_choose(2, "form"); bool thrown = false;
  { Want w(ALL); try { Arm arm; if (form == 0) d = c; else d = std::move(c); } catch (const Fault&) { thrown = true; } CHECKM(thrown == g_fault_hit, "the exception reaches the caller"); }
  Model none; std::size_t nc = sane(c, form == 0 ? m : none, -1, form == 0), nd = sane(d, none, -1, false); CHECKM((std::size_t)live() == nc + nd, "elements leaked"); if (!thrown) verify(d, m, false);
  usable(c); usable(d);
}
ENTRY(from_range) {
  C c; Model m; build(c, m, MAXN, true, false); bool thrown = false;
  { Want w(ALL); try { Arm arm; C d(c.begin(), c.end(), FA<typename C::value_type>(1)); g_fault_mask = 0; verify_light(d, m); } catch (const Fault&) { thrown = true; } CHECKM(thrown == g_fault_hit, "the exception reaches the caller"); }
  verify(c, m, false); CHECKM(live() == m.total(), "elements leaked"); usable(c);
}
ENTRY(compare) {
  C c, d; Model m, md; build(c, m, MAXN, true, false); build(d, md, MAXN, true, false); bool thrown = false;
  { Want w(F_EQ | F_ALLOC); try { Arm arm; bool r = sx_choose(2, "ne") ? !(c != d) : c == d; sx_observe(r); } catch (const Fault&) { thrown = true; } CHECKM(thrown == g_fault_hit, "the exception reaches the caller"); }
  verify(c, m, false); verify(d, md, false); CHECKM(live() == m.total() + md.total(), "elements leaked");
}
