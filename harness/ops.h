// The operations of a collection, each applied together with its effect on the model.
// Every operation checks what it returns.  Arguments (types, positions, counts, values,
// overloads) are arbitrary.
#pragma once
#include "pc.h"
// library calls inside the operations below are made under Arm: with faults requested
// (C13) they may throw at any fallible step, everything else in here cannot
inline int g_want = 0;
struct Arm { Arm() { g_fault_mask = g_want; } ~Arm() { g_fault_mask = 0; } };
inline int g_addressed = -1;   // the type whose segment the operation addresses; -1: all

// 'it' must be the iterator of element i of type t: right element, right place in the traversal
template <class C, class It> void chk_at(C& c, const Model& m, It it, int t, int i) {
  with(t, [&](auto g) {
    using T = typename decltype(g)::type;
    const T& x = *(c.template begin<T>() + i); u64 a = x.probe(2);
    CHECKM(it != c.end(), "returned iterator is end() but should designate an element");
    CHECKM(P(*it, 2) == a, "returned iterator designates the wrong element");
    CHECKM(P(*it, 0) == m.v[t][i], "returned iterator: value of the element");
    auto k = c.begin(); std::size_t pos = 0, n = c.size();
    while (k != c.end() && P(*k, 2) != a) { ++k; ++pos; CHECKM(pos < n, "element not found by traversal"); }
    CHECKM(k == it, "returned iterator differs from the iterator found by traversal");
    for (; it != c.end(); ++it) { CHECKM(pos < n, "too many elements after the returned iterator"); ++pos; }
    CHECKM(pos == n, "too few elements after the returned iterator");
  });
}
template <class C, class It> void chk_end(C& c, It it) { CHECKM(it == c.end(), "returned iterator should be end()"); CHECKM(it == c.cend(), "returned iterator should be end()"); }
// the same for a local iterator (i may be the end of the segment)
template <class C, class L> void chk_local(C& c, const Model& m, L it, int t, int i) {
  with(t, [&](auto g) {
    using T = typename decltype(g)::type;
    auto b = c.begin(typeid(T)), e = c.end(typeid(T));
    CHECKM(typename C::const_local_base_iterator(it) - typename C::const_local_base_iterator(b) == i, "returned local iterator: position");
    CHECKM(typename C::const_local_base_iterator(e) - typename C::const_local_base_iterator(it) == m.n[t] - i, "returned local iterator: distance to end");
    if (i < m.n[t]) { CHECKM(P(*it, 2) == (c.template begin<T>() + i)->probe(2), "returned local iterator designates the wrong element"); CHECKM(P(*it, 0) == m.v[t][i], "returned local iterator: value of the element"); }
  });
}
// a position of the whole collection used as hint, and where an element of type t has to end up
template <class C> struct Hint {
  typename C::const_iterator it; Where w;
  Hint(C& c) : it(), w{-1, 0} { int h = pick(c.size() + 1, "hint"); it = nth(c, h); w = where(c, h); }
  int pos(const Model& m, int t) const { return w.t == t ? w.i : m.n[t]; }
};
// forms of local iterator
template <class T, class C, class F> void at_local(C& c, int form, int p, F f) {
  const C& cc = c; // local iterators of const collections are accepted as positions as well
  switch (form) {
    case 0: f(c.begin(typeid(T)) + p); break;
    case 1: f(cc.begin(typeid(T)) + p); break;
    case 2: f(c.template begin<T>() + p); break;
    default: f(cc.template begin<T>() + p); break;
  }
}
template <class C> void reg(C& c, Model& m, int t) { with(t, [&](auto g) { using T = typename decltype(g)::type; (Arm(), c.template register_types<T>()); m.reg[t] = true; }); }
inline int any_type() { return g_addressed = g_fix_type >= 0 ? g_fix_type : (int)sx_choose(NT, "type"); }

// an element of the collection's interface type that is not in c
template <class F> void with_iface(int t, u32 v, F f) {
  with(t, [&](auto g) {
    using T = typename decltype(g)::type;
#if KIND == 0
    T x(v); Base& b = x; f(b);
#elif KIND == 1
    T x(v); Coll o; o.insert(std::move(x)); f(*o.begin());
#else
    Coll o; o.template emplace<T>(v); f(*o.begin());
#endif
  });
}

// ---- emplace: 7 overloads
constexpr int N_EMPLACE = 7;
template <class C> void op_emplace(C& c, Model& m, int form) {
  int t = any_type(); u32 v = sym32("v");
  with(t, [&](auto g) {
    using T = typename decltype(g)::type;
    if (form == 0) { auto it = (Arm(), c.template emplace<T>(v)); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); return; }
    if (form == 1) { u32 w = sym32("w"); auto it = (Arm(), c.template emplace<T>(v, w)); m.add(t, v ^ w); chk_at(c, m, it, t, m.n[t] - 1); return; }
    if (form == 2) { Hint<C> h(c); int p = h.pos(m, t); auto it = (Arm(), c.template emplace_hint<T>(h.it, v)); m.ins(t, p, v); chk_at(c, m, it, t, p); return; }
    reg(c, m, t); int p = pick(m.n[t] + 1, "pos");
    const C& cc = c;
    switch (form) {
      case 3: { auto it = (Arm(), c.template emplace_pos<T>(c.begin(typeid(T)) + p, v)); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 4: { auto it = (Arm(), c.template emplace_pos<T>(cc.begin(typeid(T)) + p, v)); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      case 5: { auto it = (Arm(), c.emplace_pos(c.template begin<T>() + p, v)); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
      default: { auto it = (Arm(), c.emplace_pos(cc.template begin<T>() + p, v)); m.ins(t, p, v); chk_local(c, m, it, t, p); break; }
    }
  });
}

// ---- single insertion: {plain, hinted, 4 local forms} x {const&, &&, interface &, interface &&, const interface &}
constexpr int N_SRC = 5, N_INSERT = 6 * N_SRC;
template <class C> void op_insert(C& c, Model& m, int form) {
  int place = form / N_SRC, src = form % N_SRC, t = any_type(); u32 v = sym32("v");
  if (place >= 2) reg(c, m, t);
  bool byref = src >= 2;
  auto go = [&](auto&& x) {
    with(t, [&](auto g) {
      using T = typename decltype(g)::type; using X = decltype(x);
      if (place == 0) { auto it = (Arm(), c.insert(std::forward<X>(x))); m.add(t, v); chk_at(c, m, it, t, m.n[t] - 1); }
      else if (place == 1) { Hint<C> h(c); int p = h.pos(m, t); auto it = (Arm(), c.insert(h.it, std::forward<X>(x))); m.ins(t, p, v); chk_at(c, m, it, t, p); }
      else { int p = pick(m.n[t] + 1, "pos"); at_local<T>(c, place - 2, p, [&](auto l) { auto it = (Arm(), c.insert(l, std::forward<X>(x))); m.ins(t, p, v); chk_local(c, m, it, t, p); }); }
    });
  };
  if (byref) {
    if (!m.reg[t]) { // the interface does not give the concrete type away: not registered, not inserted
      bool thrown = false;
      with_iface(t, v, [&](auto&& x) { with(t, [&](auto g) { using T = typename decltype(g)::type;
        try { if (place == 0) { if (src == 3) c.insert(std::move(x)); else c.insert(x); } else { Hint<C> h(c); if (src == 3) c.insert(h.it, std::move(x)); else c.insert(h.it, x); } } catch (const unregistered_type& e) { thrown = true; CHECKM(*e.pinfo == typeid(T), "type carried by the error"); } }); });
      CHECKM(thrown, "no unregistered_type error"); return;
    }
    with_iface(t, v, [&](auto&& x) { const auto& y = x; if (src == 2) go(x); else if (src == 3) go(std::move(x)); else go(y); if (src != 3) CHECKM(P(x, 0) == v, "source of a copy changed"); });
  } else with(t, [&](auto g) { using T = typename decltype(g)::type;
    if (src == 0) { const T x(v); go(x); CHECKM(x.value() == v, "source of a copy changed"); } else { T x(v); go(std::move(x)); } });
}

// ---- range insertion
template <class T> struct InIt { // single pass
  typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T** shared; const T* last;
  const T& operator*() const { return **shared; }
  InIt& operator++() { ++*shared; return *this; }
  InIt operator++(int) { InIt r = *this; ++*shared; return r; }
  bool done() const { return !shared || *shared == last; }
  bool operator==(const InIt& x) const { return done() == x.done(); }
  bool operator!=(const InIt& x) const { return !(*this == x); }
};
template <class T> struct FwIt { // multi pass (not a pointer)
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  const T* p;
  const T& operator*() const { return *p; }
  FwIt& operator++() { ++p; return *this; }
  FwIt operator++(int) { FwIt r = *this; ++p; return r; }
  bool operator==(const FwIt& x) const { return p == x.p; }
  bool operator!=(const FwIt& x) const { return p != x.p; }
};
#ifndef RMAX
#define RMAX (THOROUGH ? 3 : 2)
#endif
#define RBIG (WIDE ? 270 : 9)
inline bool g_big_range = false; // ranges of RBIG elements only
template <class T> struct Arr { T* a; int n; Arr(const u32* v, int n) : a(std::allocator<T>().allocate(RBIG + 1)), n(n) { for (int i = 0; i < n; i++) ::new (a + i) T(v[i]); } ~Arr() { for (int i = 0; i < n; i++) a[i].~T(); std::allocator<T>().deallocate(a, RBIG + 1); } };
// places: 0 plain, 1 hinted, 2.. local (const_local_base, local<T>, const_local<T>)
// sources: 0 array of T, 1 single-pass of T, 2 whole other collection, 3 other collection's local_base,
//          4 other collection's local<T>, 5 values T can be constructed from (typed local places only),
//          6 moving from an array of T, 7 moving from another collection
constexpr int R_PLACES = 5, R_SRC = 8, N_RANGE = R_PLACES * R_SRC;
template <class C> void op_range(C& c, Model& m, int form) {
  int place = form / R_SRC, src = form % R_SRC, t = any_type(), n = g_big_range ? RBIG : (int)sx_range(RMAX + 1, "count");
  if (src == 5 && place < 3) { sx_assume(false); }
  u32 v[RBIG + 1]; for (int i = 0; i < n; i++) v[i] = sym32("v");
  if (place >= 2) reg(c, m, t); else if (src == 7) sx_assume(m.reg[t]); // the interface does not register
  with(t, [&](auto g) {
    using T = typename decltype(g)::type; const C& cc = c;
    auto go = [&](auto f, auto l) {
      if (place == 0) { (Arm(), c.insert(f, l)); for (int i = 0; i < n; i++) m.add(t, v[i]); }
      else if (place == 1) { Hint<C> h(c); int p = h.pos(m, t); (Arm(), c.insert(h.it, f, l)); for (int i = 0; i < n; i++) m.ins(t, p + i, v[i]); }
      else {
        int p = pick(m.n[t] + 1, "pos");
        auto done = [&](auto it) { for (int i = 0; i < n; i++) m.ins(t, p + i, v[i]); chk_local(c, m, it, t, p); };
        if (place == 2) done((Arm(), c.insert(cc.begin(typeid(T)) + p, f, l)));
        else if (place == 3) done((Arm(), c.insert(c.template begin<T>() + p, f, l)));
        else done((Arm(), c.insert(cc.template begin<T>() + p, f, l)));
      }
    };
    switch (src) {
      case 0: case 1: {
        Arr<T> arr(v, n); T* a = arr.a;
        if (src == 0) go(FwIt<T>{a}, FwIt<T>{a + n}); else { const T* cur = a; go(InIt<T>{&cur, a + n}, InIt<T>{nullptr, nullptr}); }
        for (int i = 0; i < n; i++) { CHECKM(a[i].value() == v[i], "source range changed"); } break; }
      case 2: case 3: case 4: {
        C o; o.template register_types<T>(); for (int i = 0; i < n; i++) o.template emplace<T>(v[i]); const C& co = o;
        if (src == 2) { if (sx_choose(2, "const")) go(co.begin(), co.end()); else go(o.begin(), o.end()); }
        else if (src == 3) { if (sx_choose(2, "const")) go(co.begin(typeid(T)), co.end(typeid(T))); else go(o.begin(typeid(T)), o.end(typeid(T))); }
        else go(o.template begin<T>(), o.template end<T>());
        CHECKM(o.size() == (std::size_t)n, "source range changed"); for (int i = 0; i < n; i++) CHECKM((o.template begin<T>() + i)->value() == v[i], "source range changed"); break; }
      case 6: { Arr<T> arr(v, n); T* a = arr.a; go(std::make_move_iterator(a), std::make_move_iterator(a + n)); break; }
      case 7: { C o; o.template register_types<T>(); for (int i = 0; i < n; i++) o.template emplace<T>(v[i]); go(std::make_move_iterator(o.begin()), std::make_move_iterator(o.end())); CHECKM(o.size() == (std::size_t)n, "size of the source changed"); break; }
      default: {
        int p = pick(m.n[t] + 1, "pos"); const u32* a = v;
        auto done = [&](auto it) { for (int i = 0; i < n; i++) m.ins(t, p + i, v[i]); chk_local(c, m, it, t, p); };
        if (place == 3) done((Arm(), c.insert(c.template begin<T>() + p, a, a + n))); else done((Arm(), c.insert(cc.template begin<T>() + p, a, a + n))); }
    }
    // a source with elements registers the type it holds
    if (place < 2) { m.reg[t] = m.reg[t] || n > 0; }
  });
}
// several types at once, from another collection
template <class C> void op_range_mixed(C& c, Model& m, bool hinted, int maxn) {
  C o; Model mo; g_addressed = -1; build(o, mo, maxn, true, false); const C& co = o;
  int h = 0; Where w{-1, 0}; if (hinted) { h = pick(c.size() + 1, "hint"); w = where(c, h); }
  if (hinted) (Arm(), c.insert(nth(c, h), co.begin(), co.end())); else if (sx_choose(2, "const")) (Arm(), c.insert(co.begin(), co.end())); else (Arm(), c.insert(o.begin(), o.end()));
  for (int t = 0; t < NT; t++) for (int i = 0; i < mo.n[t]; i++) { if (w.t == t) m.ins(t, w.i + i, mo.v[t][i]); else m.add(t, mo.v[t][i]); }
  verify(o, mo, false);
}

// ---- erasure
constexpr int N_ERASE1 = 5, N_ERASE2 = 5;
template <class C> void op_erase1(C& c, Model& m, int form) {
  if (form == 0) {
    int n = (int)c.size(); sx_assume(n > 0); int h = pick(n, "pos"); Where w = where(c, h), x = where(c, h + 1); g_addressed = w.t;
    typename C::iterator it; if (sx_choose(2, "const")) it = (Arm(), c.erase(nth(c, h))); else { auto p = c.begin(); for (int i = 0; i < h; i++) ++p; it = (Arm(), c.erase(p)); }
    m.era(w.t, w.i, w.i + 1);
    if (x.t < 0) chk_end(c, it); else chk_at(c, m, it, x.t, x.t == w.t ? w.i : x.i);
    return;
  }
  int t = any_type(); sx_assume(m.n[t] > 0); int p = pick(m.n[t], "pos");
  with(t, [&](auto g) { using T = typename decltype(g)::type; at_local<T>(c, form - 1, p, [&](auto l) { auto it = (Arm(), c.erase(l)); m.era(t, p, p + 1); chk_local(c, m, it, t, p); }); });
}
template <class C> void op_erase2(C& c, Model& m, int form) {
  if (form == 0) {
    int n = (int)c.size(); int a = pick(n + 1, "first"), b = a + pick(n + 1 - a, "len");
    Where x = where(c, b); g_addressed = -1; int cut[NT]; for (int t = 0; t < NT; t++) cut[t] = 0;
    Where first[NT]; for (int k = a; k < b; k++) { Where w = where(c, k); if (!cut[w.t]++) first[w.t] = w; }
    auto it = (Arm(), c.erase(nth(c, a), nth(c, b)));
    for (int t = 0; t < NT; t++) if (cut[t]) m.era(t, first[t].i, first[t].i + cut[t]);
    if (x.t < 0) chk_end(c, it); else chk_at(c, m, it, x.t, x.i - cut[x.t]);
    return;
  }
  int t = any_type(); sx_assume(m.reg[t]); int a = pick(m.n[t] + 1, "first"), b = a + pick(m.n[t] + 1 - a, "len");
  with(t, [&](auto g) { using T = typename decltype(g)::type; at_local<T>(c, form - 1, a, [&](auto l) { auto it = (Arm(), c.erase(l, l + (b - a))); m.era(t, a, b); chk_local(c, m, it, t, a); }); });
}
// ---- the rest
constexpr int N_MISC = 10;
template <class C> void op_misc(C& c, Model& m, int form) {
  if (form < 3) { // clear
    if (form == 0) { (Arm(), c.clear()); for (int t = 0; t < NT; t++) m.n[t] = 0; return; }
    int t = any_type(); sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; if (form == 1) (Arm(), c.clear(typeid(T))); else (Arm(), c.template clear<T>()); m.n[t] = 0; }); return;
  }
  if (form < 6) {
    if (form == 3) { std::size_t n = sx_range(5, "reserve"); g_addressed = -1; (Arm(), c.reserve(n)); return; }
    int t = any_type(); std::size_t n = sx_range(5, "reserve");
    with(t, [&](auto g) { using T = typename decltype(g)::type; if (form == 4) { sx_assume(m.reg[t]); (Arm(), c.reserve(typeid(T), n)); } else { (Arm(), c.template reserve<T>(n)); m.reg[t] = true; } }); return;
  }
  if (form < 9) {
    if (form == 6) { g_addressed = -1; (Arm(), c.shrink_to_fit()); return; }
    int t = any_type(); sx_assume(m.reg[t]); with(t, [&](auto g) { using T = typename decltype(g)::type; if (form == 7) (Arm(), c.shrink_to_fit(typeid(T))); else (Arm(), c.template shrink_to_fit<T>()); }); return;
  }
  if (sx_choose(2, "all")) { g_addressed = -1; (Arm(), c.template register_types<Ty<0>, Ty<NT - 1>>()); m.reg[0] = m.reg[NT - 1] = true; } else reg(c, m, any_type());
}
// any operation at all
template <class C> void op_any(C& c, Model& m) {
  switch (sx_choose(7, "op")) {
    case 0: op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); break;
    case 1: op_insert(c, m, (int)sx_choose(N_INSERT, "form")); break;
    case 2: op_range(c, m, (int)sx_choose(N_RANGE, "form")); break;
    case 3: op_range_mixed(c, m, sx_choose(2, "hinted"), 1); break;
    case 4: op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); break;
    case 5: op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); break;
    default: op_misc(c, m, (int)sx_choose(N_MISC, "form")); break;
  }
}
// after an operation: one more element of each type shows that the internal state is sound
template <class C> void probe_after(C& c, Model& m) {
  each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; u32 v = sym32("probe"); c.template emplace<T>(v); m.add(t, v); });
}
