// Bitcode only: the out-of-line parts of libstdc++ that code using std::map, std::set, std::list
// or memchr needs, so that the executor can follow it (trees are not rebalanced: the order of
// elements is the same).
#pragma once
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <set>
extern "C" __attribute__((used)) inline void* sx_memchr(const void* p, int c, std::size_t n) { const unsigned char* q = (const unsigned char*)p; for (; n; --n, ++q) if (*q == (unsigned char)c) return (void*)q; return nullptr; }
namespace std {
typedef _Rb_tree_node_base RB;
inline RB* sx_next(RB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } RB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
inline RB* sx_prev(RB* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { RB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } RB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
__attribute__((used)) RB* _Rb_tree_increment(RB* x) throw() { return sx_next(x); }
__attribute__((used)) const RB* _Rb_tree_increment(const RB* x) throw() { return sx_next(const_cast<RB*>(x)); }
__attribute__((used)) RB* _Rb_tree_decrement(RB* x) throw() { return sx_prev(x); }
__attribute__((used)) const RB* _Rb_tree_decrement(const RB* x) throw() { return sx_prev(const_cast<RB*>(x)); }
__attribute__((used)) void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
__attribute__((used)) RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw() {
  RB* const lo = h._M_left == z ? sx_next(z) : h._M_left; RB* const hi = h._M_right == z ? sx_prev(z) : h._M_right;
  auto put = [&](RB* o, RB* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
  else { RB* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y != z->_M_right) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = lo; h._M_right = hi; }
  return z;
}
namespace __detail {
__attribute__((used)) void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
__attribute__((used)) void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
__attribute__((used)) void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
__attribute__((used)) void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
__attribute__((used)) void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
