// A second type information object for a type, as another dynamic library would bring along:
// equal to typeid(T), at another address, with its own copy of the name.
#pragma once
#include "pc.h"
struct Twin { const void* vptr; const char* name; char buf[160]; bool made; };
template <class T> const std::type_info& twin(int k) { // k==0: the ordinary one
  static Twin tw[2]; if (k == 0) return typeid(T);
  Twin& w = tw[k - 1];
  if (!w.made) { struct Raw { const void* vptr; const char* name; }; const Raw& r = reinterpret_cast<const Raw&>(typeid(T)); w.vptr = r.vptr; int i = 0; do { CHECK(i < 159); w.buf[i] = r.name[i]; } while (r.name[i++]); w.name = w.buf; w.made = true; }
  return reinterpret_cast<const std::type_info&>(w);
}
#define NTWIN 3
#if COLLIDE
namespace std { size_t _Hash_bytes(const void* p, size_t n, size_t) { return COLLIDE == 1 ? 42 : static_cast<const char*>(p)[n / 2] & 1; } }
#endif
// all that can be asked about a type through a type information object
template <class C, class T> void ask_const(const C& c, const Model& m, const std::type_info& ti) {
  constexpr int t = IdOf<T>::value; bool thrown = false; std::size_t n = m.n[t];
  CHECKM(c.is_registered(ti) == m.reg[t], "is_registered");
  if (m.reg[t]) {
    CHECKM(c.size(ti) == n && c.empty(ti) == (n == 0), "size, empty"); CHECKM(c.capacity(ti) == c.template capacity<T>() && c.max_size(ti) == c.template max_size<T>(), "capacity, max_size");
    CHECKM(c.begin(ti) == c.cbegin(typeid(T)) && c.cend(ti) == c.end(typeid(T)), "local range"); std::size_t i = 0;
    for (auto it = c.begin(ti), e = c.end(ti); it != e; ++it, ++i) { CHECKM(i < n, "local range too long"); CHECKM(P(*it, 0) == m.v[t][i] && P(*it, 1) == (u64)t, "element"); } CHECKM(i == n, "local range too short");
    auto s = c.segment(ti); CHECKM(s.type_info() == typeid(T) && s.begin() == c.cbegin(ti) && s.cend() == c.cend(ti), "segment info");
    return;
  }
#define THROWS(e) thrown = false; try { e; } catch (const unregistered_type& x) { thrown = true; CHECKM(*x.pinfo == typeid(T), "type carried by the error"); } CHECKM(thrown, "no unregistered_type error");
  THROWS(c.size(ti)) THROWS(c.empty(ti)) THROWS(c.capacity(ti)) THROWS(c.max_size(ti)) THROWS(c.begin(ti)) THROWS(c.cend(ti)) THROWS(c.segment(ti))
}
template <class C, class T> void ask(C& c, const Model& m, const std::type_info& ti) {
  constexpr int t = IdOf<T>::value; bool thrown = false; std::size_t n = m.n[t];
  if (m.reg[t]) {
    CHECKM(c.begin(ti) == c.begin(typeid(T)) && c.end(ti) == c.end(typeid(T)), "local range"); std::size_t i = 0;
    for (auto& x : c.segment(ti)) { CHECKM(i < n, "local range too long"); CHECKM(P(x, 0) == m.v[t][i] && P(x, 2) == (c.template begin<T>() + i)->probe(2), "element"); i++; } CHECKM(i == n, "local range too short");
  } else { THROWS(c.begin(ti)) THROWS(c.end(ti)) THROWS(c.segment(ti)) THROWS(c.reserve(ti, 1)) THROWS(c.clear(ti)) THROWS(c.shrink_to_fit(ti)) }
}
template <class C> void ask_all(C& c, const Model& m) { each_type([&](auto g) { using T = typename decltype(g)::type; for (int k = 0; k < NTWIN; k++) { ask_const<C, T>(c, m, twin<T>(k)); ask<C, T>(c, m, twin<T>(k)); ask_const<C, T>(c, m, twin<T>(k)); } }); }
