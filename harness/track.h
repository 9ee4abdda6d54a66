// An allocator with identity.  Every block is remembered with the identity and size it was
// obtained with; blocks have to go back the same way.  Elements have to be constructed and
// destroyed through an allocator equal to the one that supplied the memory around them, and
// nothing else may be constructed through it.
#pragma once
#include "pc.h"
#ifndef POCCA
#define POCCA 0
#endif
#ifndef POCMA
#define POCMA 0
#endif
#ifndef POCS
#define POCS 0
#endif
#ifndef MIXED
#define MIXED 0      // allow elements constructed or destroyed outside the allocator (C14 does not care)
#endif
struct Block { char* p; std::size_t n; int id; std::size_t al; };
inline Block g_blk[160]; inline int g_nblk = 0, g_blocks = 0; inline long g_made = 0, g_unmade = 0; inline u64 g_heap0 = 0;
inline Block* block_of(const void* q) { for (int i = 0; i < g_nblk; i++) if (g_blk[i].p && (char*)q >= g_blk[i].p && (char*)q < g_blk[i].p + g_blk[i].n) return &g_blk[i]; return nullptr; }
template <class T> struct is_elem : std::is_base_of<Base, T> {};
template <class T> struct TA {
  typedef T value_type; int id; volatile u32 st; // st: an allocator must not be used after its destruction
  TA(int id = 0) noexcept : id(id), st(ALIVE) {} TA(const TA& x) noexcept : id(x.id), st(ALIVE) { x.ok(); } template <class U> TA(const TA<U>& x) noexcept : id(x.id), st(ALIVE) { x.ok(); } TA& operator=(const TA& x) noexcept { ok(); x.ok(); id = x.id; return *this; } ~TA() { ok(); st = DEAD; }
  void ok() const noexcept { sx_assert(st == ALIVE, "use of an allocator that is not alive"); }
  typedef std::integral_constant<bool, POCCA> propagate_on_container_copy_assignment; typedef std::integral_constant<bool, POCMA> propagate_on_container_move_assignment; typedef std::integral_constant<bool, POCS> propagate_on_container_swap; typedef std::false_type is_always_equal;
  TA select_on_container_copy_construction() const { ok(); return TA(id + 100); }
  T* allocate(std::size_t n) {
    ok();    T* p = std::allocator<T>().allocate(n); int i = 0; while (i < g_nblk && g_blk[i].p) i++; CHECKM(i < 160, "too many blocks (bound)"); if (i == g_nblk) g_nblk++;
    g_blk[i] = {(char*)p, n * sizeof(T), id, alignof(T)}; g_blocks++; return p;
  }
  void deallocate(T* p, std::size_t n) {
    ok();    Block* b = nullptr; for (int i = 0; i < g_nblk; i++) if (g_blk[i].p == (char*)p) b = &g_blk[i];
    CHECKM(b, "memory returned that was not obtained from the allocator"); CHECKM(b->n == n * sizeof(T), "memory returned with another size"); CHECKM(b->al == alignof(T), "memory returned with another alignment"); CHECKM(b->id == id, "memory returned to an allocator that is not equal to the one that supplied it");
    b->p = nullptr; g_blocks--; std::allocator<T>().deallocate(p, n);
  }
  template <class U, class... A> void construct(U* p, A&&... a) { CHECKM(is_elem<U>::value, "the allocator's construct used for something that is not an element"); ::new ((void*)p) U(std::forward<A>(a)...); g_made++; }
  template <class U> void destroy(U* p) { CHECKM(is_elem<U>::value, "the allocator's destroy used for something that is not an element"); p->~U(); g_unmade++; }
  template <class U> bool operator==(const TA<U>& x) const { return id == x.id; } template <class U> bool operator!=(const TA<U>& x) const { return id != x.id; }
};
using TC = CollA<TA>; using TAv = TA<TC::value_type>;
inline int live_elems() { int r = 0; for (int x : g_live) r += x; return r; }
// everything that is allocated came from the allocator; elements live in its blocks, with the right identity
inline void tracked() {
  CHECKM((u64)g_blocks == sx_live_heap() - g_heap0, "memory obtained from somewhere else than the allocator");
  if (!MIXED) CHECKM(g_made - g_unmade == live_elems(), "elements constructed or destroyed around the allocator");
}
template <class C> void owned(C& c, int id) { // the memory of c belongs to allocators of this identity
  CHECKM(c.get_allocator().id == id, "allocator reported by the collection");
  for (auto& x : c) { auto b = block_of((void*)P(x, 2)); CHECKM(b && b->id == id, "element not in memory of the collection's allocator"); }
}
struct Track { Track() { g_heap0 = sx_live_heap(); } ~Track() { tracked(); CHECKM(g_blocks == 0, "memory not returned to the allocator"); } };
