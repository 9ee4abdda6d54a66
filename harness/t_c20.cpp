// C20: what the interface reaches is exactly the stored element
#include "ops.h"
#if KIND == 1
#include <functional>
#include <memory>
#endif
static const void* g_this; static int g_calls;
#if KIND == 0
// an interface with arguments, results and references, elements of several layouts
struct Iface { virtual ~Iface() {} virtual u64& act(u32 a, u64& b, u64&& c) = 0; virtual u64 look(u32 a) const = 0; };
struct Other { u64 pad[3]; virtual ~Other() {} virtual int other() { return 7; } Other() { pad[0] = pad[1] = pad[2] = 77; } };
template <int I, class... B> struct El : B... {
  cell c; u64 acc; explicit El(u32 v) : c(I, v), acc(v) {} El(const El& x) : B(x)..., c(x.c), acc(x.acc) {} El(El&& x) noexcept : B(x)..., c(std::move(x.c), 0), acc(x.acc) {}
  El& operator=(const El& x) { c.assign(x.c); acc = x.acc; return *this; } El& operator=(El&& x) noexcept { c.assign_move(x.c); acc = x.acc; return *this; }
  u64& act(u32 a, u64& b, u64&& d) override { g_this = this; g_calls++; b += a; acc = c.get() + I + d; d = 0; return acc; }
  u64 look(u32 a) const override { g_this = this; g_calls++; return acc ^ a ^ ((u64)I << 40); }
};
using E0 = El<0, Iface>; using E1 = El<1, Other, Iface>; struct E2 final : El<2, Iface, Other> { u8 tail[9]; using El::El; };
struct D0 : E0 { u64 own; explicit D0(u32 v) : E0(v), own((u64)v + 1) {} u64 look(u32 a) const override { return E0::look(a) + own; } }; // derived from another element type
using C = boost::base_collection<Iface>;
template <int I> struct EI; template <> struct EI<0> { using type = E0; }; template <> struct EI<1> { using type = E1; }; template <> struct EI<2> { using type = E2; };
template <class V> const std::type_info& tid(const V& x) { return typeid(x); }
template <class V> u64& act(V& x, u32 a, u64& b, u64&& d) { return x.act(a, b, std::move(d)); }
template <class V> u64 look(const V& x, u32 a) { return x.look(a); }
#define CAN_LOOK_CONST 1
#elif KIND == 1
static int g_tokcopies; struct Tok { u64 v; explicit Tok(u64 v) : v(v) {} Tok(Tok&& x) noexcept : v(x.v) { x.v = 0; } Tok(const Tok& x) : v(x.v) { g_tokcopies++; } Tok& operator=(Tok&&) = delete; }; // arguments passed by value are moved along, never copied
using Sig = u64*(u32, u64&, Tok); // results by reference do not compile with this library version, see DESIGN.md
struct E0 { cell c; mutable u64 acc; explicit E0(u32 v) : c(0, v), acc(v) {} E0(const E0& x) : c(x.c), acc(x.acc) {} E0(E0&& x) noexcept : c(std::move(x.c), 0), acc(x.acc) {} E0& operator=(E0&& x) noexcept { c.assign_move(x.c); acc = x.acc; return *this; }
  u64* operator()(u32 a, u64& b, Tok t) const { g_this = this; g_calls++; b += a; acc = c.get() + 0 + t.v; return &acc; } };
struct alignas(32) E1 { u8 pad[3]; mutable u64 acc; cell c; explicit E1(u32 v) : acc(v), c(1, v) {} E1(const E1& x) : acc(x.acc), c(x.c) {} E1(E1&& x) noexcept : acc(x.acc), c(std::move(x.c), 0) {} E1& operator=(E1&& x) noexcept { c.assign_move(x.c); acc = x.acc; return *this; }
  u64* operator()(u32 a, u64& b, const Tok& t) const { g_this = this; g_calls++; b += a; acc = c.get() + 1 + t.v; return &acc; } };
static u64 g_acc; // stateless
struct E2 { explicit E2(u32) {} u64* operator()(u64 a, u64& b, Tok&& t) const { g_this = this; g_calls++; b += a; g_acc = 2 + t.v; return &g_acc; } };
using C = boost::function_collection<Sig>;
template <int I> struct EI; template <> struct EI<0> { using type = E0; }; template <> struct EI<1> { using type = E1; }; template <> struct EI<2> { using type = E2; };
template <class V> const std::type_info& tid(const V& x) { return x.target_type(); }
template <class V> u64& act(V& x, u32 a, u64& b, u64&& d) { u64& r = *x(a, b, Tok(d)); d = 0; return r; }
#else
template <class T> u64& do_act(T& x, u32 a, u64& b, u64&& c); template <class T> u64 do_look(const T& x, u32 a); template <class Q, class T> u64& do_act(te::any<Q, T>& x, u32 a, u64& b, u64&& c); template <class Q, class T> u64 do_look(const te::any<Q, T>& x, u32 a);
template <class T = te::_self> struct has_act { static u64& apply(T& x, u32 a, u64& b, u64&& c) { return do_act(x, a, b, std::move(c)); } };
template <class T = te::_self> struct has_look { static u64 apply(const T& x, u32 a) { return do_look(x, a); } };
template <class T> u64& do_act(T& x, u32 a, u64& b, u64&& c) { return x.act(a, b, std::move(c)); } template <class T> u64 do_look(const T& x, u32 a) { return x.look(a); } template <class Q, class T> u64& do_act(te::any<Q, T>& x, u32 a, u64& b, u64&& c) { return te::call(has_act<>(), x, a, b, std::move(c)); } template <class Q, class T> u64 do_look(const te::any<Q, T>& x, u32 a) { return te::call(has_look<>(), x, a); }
template <int I, int AL> struct alignas(AL) El {
  u8 pad; cell c; u64 acc; explicit El(u32 v) : c(I, v), acc(v) {} El(const El& x) : c(x.c), acc(x.acc) {} El(El&& x) noexcept : c(std::move(x.c), 0), acc(x.acc) {} El& operator=(const El& x) { c.assign(x.c); acc = x.acc; return *this; } El& operator=(El&& x) noexcept { c.assign_move(x.c); acc = x.acc; return *this; }
  u64& act(u32 a, u64& b, u64&& d) { g_this = this; g_calls++; b += a; acc = c.get() + I + d; d = 0; return acc; } u64 look(u32 a) const { g_this = this; g_calls++; return acc ^ a ^ ((u64)I << 40); } };
using E0 = El<0, 8>; using E1 = El<1, 32>; static u64 g_acc; struct E2 { explicit E2(u32) {} u64& act(u32 a, u64& b, u64&& d) { g_this = this; g_calls++; b += a; g_acc = 2 + d; d = 0; return g_acc; } u64 look(u32 a) const { g_this = this; g_calls++; return a; } };
using Con = boost::mpl::vector<te::relaxed, has_act<>, has_look<>>; // typeid_ is added by the library
using C = boost::any_collection<Con>;
template <int I> struct EI; template <> struct EI<0> { using type = E0; }; template <> struct EI<1> { using type = E1; }; template <> struct EI<2> { using type = E2; };
template <class V> const std::type_info& tid(const V& x) { return te::typeid_of(x); }
template <class V> u64& act(V& x, u32 a, u64& b, u64&& d) { return te::call(has_act<>(), x, a, b, std::move(d)); }
template <class V> u64 look(const V& x, u32 a) { return te::call(has_look<>(), x, a); }
#define CAN_LOOK_CONST 1
#endif
template <class T> struct EId { enum { value = std::is_same<T, E0>::value ? 0 : std::is_same<T, E1>::value ? 1 : 2 }; };
template <class F> static void withE(int t, F f) { switch (t) { case 0: f(tag<E0>{}); break; case 1: f(tag<E1>{}); break; default: f(tag<E2>{}); } }
// the element whose address the interface reached must be the stored one: act through x, compare with the element p
template <class T, bool MUT, class V> static void one(V& x, T* p, u32 v) {
  constexpr bool mut = MUT; constexpr int I = EId<T>::value; constexpr bool stateless = KIND != 0 && I == 2; u32 a = sym32("a"); u64 b0 = sym32("b"), b = b0, d0 = sym32("d"), d = d0; int n = g_calls;
  CHECKM(tid(x) == typeid(T), "type reported through the interface");
  if constexpr (mut) {
    u64& r = act(x, a, b, std::move(d)); CHECKM(g_calls == n + 1, "called once"); CHECKM(g_this == (const void*)p, "call reached another object"); CHECKM(b == b0 + a, "argument by reference"); CHECKM(d == 0, "argument by rvalue reference"); CHECKM(r == (stateless ? 0 : v) + I + d0, "result");
    if constexpr (!stateless) { CHECKM(&r == &p->acc, "result by reference"); CHECKM(p->acc == v + I + d0, "effect on the element"); p->acc = v; CHECKM(r == v, "same object"); }
  }
#if CAN_LOOK_CONST
  n = g_calls; u64 l = look(x, a); CHECKM(g_calls == n + 1 && g_this == (const void*)p, "const call reached another object"); if constexpr (!stateless) CHECKM(l == (p->acc ^ a ^ ((u64)I << 40)), "const result");
#endif
#if KIND == 1
  CHECKM(g_tokcopies == 0, "argument copied instead of forwarded"); auto& w = x; CHECK(static_cast<bool>(w)); CHECKM(w.template target<T>() == p, "target"); CHECKM(w.data() == (const void*)p, "data"); CHECKM((w.template target<typename std::conditional<I == 0, E1, E0>::type>()) == nullptr, "target of another type"); std::function<Sig> f = w; b = b0; u64& r = *f(a, b, Tok(d0)); CHECKM(g_this == (const void*)p && b == b0 + a && r == (stateless ? 0 : v) + I + d0, "converted to std::function"); if constexpr (!stateless) { CHECK(&r == &p->acc); p->acc = v; }
#elif KIND == 2
  CHECKM(te::any_cast<const T*>(&x) == p, "any_cast"); if constexpr (mut) { CHECKM(&te::any_cast<T&>(x) == p, "any_cast"); }
#else
  CHECKM(dynamic_cast<const void*>(&x) == (const void*)p, "address of the complete object"); CHECKM(static_cast<const Iface*>(p) == &x, "address of the interface");
#endif
}
static void all(C& c, int (&n)[3], u32 (&v)[3][8]) { // through every kind of iterator
  const C& cc = c; int way = (int)sx_choose(5, "way"); int seen[3] = {}; std::size_t k = 0;
  if (way < 2) {
    auto go = [&](auto it, auto e, auto mut) { constexpr bool MU = decltype(mut)::value; for (; it != e; ++it) { int t = tid(*it) == typeid(E0) ? 0 : tid(*it) == typeid(E1) ? 1 : 2; withE(t, [&](auto g) { using T = typename decltype(g)::type; CHECKM(seen[t] < n[t], "too many elements"); one<T, MU>(*it, std::addressof(*(c.template begin<T>() + seen[t])), v[t][seen[t]]); }); seen[t]++; k++; } };
    if (way == 0) go(c.begin(), c.end(), std::true_type{}); else go(cc.begin(), cc.end(), std::false_type{}); CHECKM(k == c.size(), "all elements");
  } else for (int t = 0; t < 3; t++) withE(t, [&](auto g) { using T = typename decltype(g)::type; if (!c.template is_registered<T>()) { CHECK(n[t] == 0); return; } CHECK(c.template size<T>() == (std::size_t)n[t]);
    for (int i = 0; i < n[t]; i++) { T* p = std::addressof(c.template segment<T>().begin()[i]);
      if (way == 2) one<T, true>(*(c.begin(typeid(T)) + i), p, v[t][i]); else if (way == 3) one<T, false>(*(cc.end(typeid(T)) - (n[t] - i)), p, v[t][i]); else { one<T, true>(c.begin(typeid(T))[i], p, v[t][i]); CHECK(std::addressof(*(c.template begin<T>() + i)) == p && std::addressof(cc.template begin<T>()[i]) == p); } } });
}
static void fill(C& c, int (&n)[3], u32 (&v)[3][8], int maxn) { for (int t = 0; t < 3; t++) withE(t, [&](auto g) { using T = typename decltype(g)::type; n[t] = (int)sx_range(maxn + 1, "size"); for (int i = 0; i < n[t]; i++) { v[t][i] = sym32("v"); c.template emplace<T>(v[t][i]); } }); }
ENTRY(reach) { C c; int n[3]; u32 v[3][8]; fill(c, n, v, 3); all(c, n, v); }
ENTRY(relocated) {
  C c; int n[3]; u32 v[3][8]; fill(c, n, v, 2); int t = (int)sx_choose(3, "type"); C d; C* p = &c;
  withE(t, [&](auto g) { using T = typename decltype(g)::type; auto ins = [&](int at) { u32 x = sym32("x"); c.template emplace_pos<T>((c.template register_types<T>(), c.begin(typeid(T)) + at), x); for (int i = n[t]; i > at; i--) v[t][i] = v[t][i - 1]; v[t][at] = x; n[t]++; };
    switch (sx_choose(10, "op")) {
      case 0: c.reserve(9); break;
      case 1: ins(0); break;
      case 2: ins(n[t]); ins(0); ins(1); break;
      case 3: ins(0); ins(0); c.erase(c.template begin<T>()); for (int i = 1; i < n[t]; i++) v[t][i - 1] = v[t][i]; n[t]--; break;
      case 4: c.reserve(7); ins(0); c.shrink_to_fit(); break;
      case 5: d = std::move(c); p = &d; break;
      case 6: { d = c; p = &d; c.clear(); break; }
      case 7: c.swap(d); p = &d; break;
      case 8: { ins(0); C e(std::move(c)); all(e, n, v); return; }
      default: { ins(0); C e(c); all(e, n, v); } } });
  if (p != &c || !c.empty()) all(*p, n, v);
}
#if KIND == 0
ENTRY (dynamic_type) { // the dynamic type decides, also below a static type that is itself an element type
  C c; bool r0 = sx_choose(2, "r0"), rd = sx_choose(2, "rd"); if (r0) c.template register_types<E0>(); if (rd) c.template register_types<D0>(); u32 v = sym32("v"); D0 x(v); E0& e = x; Iface& b = x; bool thrown = false; int f = (int)sx_choose(6, "form");
  try { switch (f) { case 0: c.insert(e); break; case 1: c.insert(std::move(e)); break; case 2: c.insert(b); break; case 3: c.insert(std::move(b)); break; case 4: c.insert(c.cbegin(), const_cast<const E0&>(e)); break; default: c.insert(c.cend(), std::move(b)); } } catch (const unregistered_type& u) { thrown = true; CHECKM(*u.pinfo == typeid(D0), "type carried by the error"); }
  CHECKM(thrown == !rd, "unregistered_type exactly when the dynamic type is not registered");
  if (rd) { CHECK(c.template size<D0>() == 1 && c.size() == 1); const D0& y = *c.template begin<D0>(); CHECKM(y.c.get() == v && y.own == (u64)v + 1, "complete object stored"); CHECK(typeid(*c.begin()) == typeid(D0)); u32 a = sym32("a"); CHECK(c.begin()->look(a) == ((y.acc ^ a) + y.own)); CHECKM(x.c.st == (f == 1 || f == 3 || f == 5 ? MOVED : ALIVE), "moved exactly when passed as rvalue"); } else CHECK(c.size() == 0);
  CHECK(c.template is_registered<E0>() == r0); 
}
#elif KIND == 1
static u64 g_r; static u64* fun(u32 a, u64& b, Tok t) { g_calls++; b ^= t.v; g_r = a + t.v; return &g_r; }
ENTRY (pointer) { // function pointers and lambdas
  C c; u32 k = sym32("k"), a = sym32("a"); u64 b0 = sym32("b"), d = sym32("d"), b = b0; u64 cap = 0; auto lam = [k, &cap](u32 x, u64& y, Tok t) -> u64* { g_calls++; y += t.v; cap = x ^ k; return &cap; };
  c.insert(&fun); c.insert(lam); if (sx_choose(2, "grow")) { c.reserve(5); c.insert(lam); c.erase(c.template begin<decltype(lam)>()); } CHECK(c.size() == 2);
  for (auto& f : c) { b = b0; u64& r = *f(a, b, Tok(d)); if (f.target_type() == typeid(lam)) { CHECK(&r == &cap && r == (a ^ k) && b == b0 + d); } else { CHECK(f.target_type() == typeid(&fun) && r == a + d && b == (b0 ^ d)); CHECK(*f.template target<decltype(&fun)>() == &fun); } }
  C sf; sf.insert(std::function<Sig>(lam)); sf.reserve(3); sf.insert(std::function<Sig>(&fun)); CHECKM(sf.size() == 2 && sf.template size<std::function<Sig>>() == 2, "std::function is an element type"); b = b0; cap = 0; CHECK(*(*sf.begin())(a, b, Tok(d)) == (a ^ k) && b == b0 + d);
  boost::function_collection<void(u32&)> q; q.insert([](u32& x) { return x = 5; }); u32 z = 0; for (auto& f : q) f(z); CHECKM(z == 5, "result discarded");
  boost::function_collection<u64(u64)> w; w.insert([](u32 x) -> u32 { return x + 1; }); CHECKM((*w.begin())(d) == (u32)((u32)d + 1), "conversion of argument and result");
  // wrappers of another collection are not elements of their own
  C e; e.insert(c.begin(), c.end()); CHECK(e.size() == 2 && e.template is_registered<decltype(lam)>()); b = b0; cap = 0; u64& r = *(*e.begin(typeid(lam)))(a, b, Tok(d)); CHECK(&r == &cap && r == (a ^ k));
}
#else
ENTRY (by_value) { // an any that owns its value and knows its type stands for that value
  using Own = te::any<boost::mpl::vector<te::relaxed, te::copy_constructible<>, te::typeid_<>, has_act<>, has_look<>>>; C c; bool r = sx_choose(2, "reg"); if (r) c.template register_types<E0>(); u32 v = sym32("v"); Own x{E0(v)}; bool thrown = false;
  try { switch (sx_choose(3, "form")) { case 0: c.insert(x); break; case 1: c.insert(c.cend(), x); break; default: c.insert(std::move(x)); } } catch (const unregistered_type& e) { thrown = true; CHECK(*e.pinfo == typeid(E0)); }
  CHECKM(thrown == !r, "unregistered_type exactly when the type of the value is not registered"); if (r) { CHECK(c.size() == 1 && c.template size<E0>() == 1 && c.template begin<E0>()->c.get() == v); int n[3] = {1, 0, 0}; u32 w[3][8] = {{v}}; all(c, n, w); } else CHECK(c.size() == 0 && !c.template is_registered<Own>());
}
ENTRY (nested) { // an any that owns its value, without typeid: an element like any other
  using Own = te::any<boost::mpl::vector<te::copy_constructible<>, te::assignable<>, has_act<>, has_look<>>>; C c; u32 v = sym32("v"), a = sym32("a"); c.insert(Own(E0(v))); c.template emplace<E0>(v); if (sx_choose(2, "grow")) { c.insert(Own(E0(v))); c.erase(c.template begin<Own>()); }
  CHECK(c.size() == 2 && c.template size<Own>() == 1); u64 b0 = sym32("b"), b = b0, d = 1; Own* p = &*c.template begin<Own>(); auto& x = *c.begin(typeid(Own)); CHECK(tid(x) == typeid(Own)); (void)p;
  u64& r = act(x, a, b, std::move(d)); CHECK(r == (u64)v + 1 && b == b0 + a && d == 0); CHECK(look(x, a) == (((u64)v + 1) ^ a));
}
#endif
