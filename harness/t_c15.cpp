// C15: allocators
#include "track.h"
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
using C = TC;
static u64 first_addr(C& c) { return c.empty() ? 0 : P(*c.begin(), 2); }
static void work(C& c, Model& m, int id) { // growth, erasure, reserve, shrink, clear: all through the same allocator
  owned(c, id); tracked(); probe_after(c, m); owned(c, id); c.reserve(5); owned(c, id); if (c.size() > 1) { Where w = where(c, 0); c.erase(c.begin()); m.era(w.t, w.i, w.i + 1); } c.shrink_to_fit(); owned(c, id); tracked(); probe_after(c, m); verify(c, m, false); owned(c, id); tracked();
}
// all memory alive belongs to allocators of this identity
static void only(int id) { for (int i = 0; i < g_nblk; i++) CHECKM(!g_blk[i].p || g_blk[i].id == id, "memory of the collection belongs to another allocator than its own"); }
template <class X> struct Slot { alignas(X) char b[sizeof(X)]; bool live; template <class... A> Slot(A&&... a) : live(true) { ::new ((void*)b) X(std::forward<A>(a)...); } ~Slot() { end(); } void end() { if (live) { live = false; get().~X(); } } X& get() { return *reinterpret_cast<X*>(b); } };
// the two collections share nothing: when either goes, what remains belongs to the other's allocator
static void part(Slot<C>& c, int ic, Slot<C>& d, int id) { if (sx_choose(2, "first")) { c.end(); only(id); owned(d.get(), id); } else { d.end(); only(ic); owned(c.get(), ic); } tracked(); }
ENTRY(construct_alone) {
  Track t; Slot<C> sc(TAv{7}); C& c = sc.get(); Model m; build(c, m, MAXN, true, false); only(7);
  switch (sx_choose(6, "form")) {
    case 0: { Slot<C> d(c); part(sc, 7, d, 107); break; }
    case 1: { Slot<C> d(c, TAv(9)); part(sc, 7, d, 9); break; }
    case 2: { Slot<C> d(std::move(c)); part(sc, 7, d, 7); break; }
    case 3: { Slot<C> d(std::move(c), TAv(9)); part(sc, 7, d, 9); break; }
    case 4: { Slot<C> d(std::move(c), TAv(7)); part(sc, 7, d, 7); break; }
    default: { Slot<C> d(c.begin(), c.end(), TAv(9)); part(sc, 7, d, 9); } } }
ENTRY(assign_alone) {
  Track t; int same = (int)sx_choose(2, "same"), form = (int)sx_choose(POCS ? 3 : 2, "form"), o = same ? 7 : 9; Slot<C> sc(TAv{7}), sd(TAv{o}); C &c = sc.get(), &d = sd.get(); Model m, md; build(c, m, MAXN, true, false); build(d, md, 1, true, false);
  if (form == 0) { d = c; if (sx_choose(2, "use")) { probe_after(d, m); } part(sc, 7, sd, POCCA ? 7 : o); }
  else if (form == 1) { d = std::move(c); if (sx_choose(2, "use")) probe_after(d, m); part(sc, 7, sd, POCMA ? 7 : o); }
  else { c.swap(d); part(sc, o, sd, 7); } }
ENTRY(construct) {
  Track t; C c(TAv(7)); Model m; build(c, m, MAXN); owned(c, 7); tracked(); Model none; g_copies = 0; u64 a = first_addr(c);
  switch (sx_choose(7, "form")) {
    case 0: { C d(c); verify(d, m); work(d, m, 107); break; }
    case 1: { C d(c, TAv(9)); verify(d, m); work(d, m, 9); break; }
    case 2: { C d(std::move(c)); CHECKM(first_addr(d) == a && g_copies == 0, "move construction keeps the elements in place"); verify(d, m); work(d, m, 7); work(c, none, 7); break; }
    case 3: { C d(std::move(c), TAv(9)); CHECKM(g_copies == 0, "elements moved, not copied"); verify(d, m); work(d, m, 9); verify(c, none, false); work(c, none, 7); break; }
    case 4: { C d(std::move(c), TAv(7)); CHECKM(g_copies == 0, "elements not copied"); CHECKM(first_addr(d) == a, "equal allocators: elements stay in place"); verify(d, m); work(d, m, 7); verify(c, none, false); work(c, none, 7); break; }
    case 5: { C d(c.begin(), c.end(), TAv(9)); verify_light(d, m); for (int q = 0; q < NT; q++) m.reg[q] = m.n[q] > 0; work(d, m, 9); break; }
    default: { C d(TAv(3)); owned(d, 3); C e; owned(e, 0); work(d, none, 3); break; }
  }
}
ENTRY(copy_assign) {
  Track t; int same = (int)sx_choose(2, "same"); C c(TAv(7)), d(TAv(same ? 7 : 9)); Model m, md; build(c, m, MAXN, true, false); build(d, md, 1, true, false);
  d = c; verify(d, m); verify(c, m, false); int id = POCCA ? 7 : same ? 7 : 9; owned(c, 7); Model mc = m; work(d, m, id); verify(c, mc, false); work(c, mc, 7);
}
ENTRY(move_assign) {
  Track t; int same = (int)sx_choose(2, "same"); C c(TAv(7)), d(TAv(same ? 7 : 9)); Model m, md, none; build(c, m, MAXN, true, true, 2); build(d, md, 1, true, false, 2); u64 a = first_addr(c); g_copies = 0;
  d = std::move(c); CHECKM(g_copies == 0, "elements moved, not copied"); if (POCMA || same) CHECKM(first_addr(d) == a, "elements stay in place"); verify(d, m); verify(c, none, false);
  work(d, m, POCMA ? 7 : same ? 7 : 9); work(c, none, 7);
}
ENTRY(swaps) {
  Track t; int same = POCS ? (int)sx_choose(2, "same") : 1; C c(TAv(7)), d(TAv(same ? 7 : 9)); Model m, md; build(c, m, MAXN, true, false); build(d, md, 1, true, false); u64 a = first_addr(c), b = first_addr(d); g_copies = g_moves = 0;
  if (sx_choose(2, "member")) c.swap(d); else { using std::swap; swap(c, d); }
  CHECKM(g_copies == 0 && g_moves == 0 && first_addr(c) == b && first_addr(d) == a, "swap keeps all elements in place"); verify(c, md); verify(d, m); work(c, md, same ? 7 : 9); work(d, m, 7);
}
ENTRY(modify) { Track t; C c(TAv(7)); Model m; build(c, m, 1); op_any(c, m); verify(c, m, false); owned(c, 7); tracked(); }
