// C17: read-only use writes to nothing the collection owns (nor to the collection object itself, which
// lives on the heap here); what must not be written is write protected while the const operations run
#include "twin.h"
#include "ops.h"
#include <algorithm>
namespace pcn = boost::poly_collection;
struct On { On() { sx_protect(1); } ~On() { sx_protect(0); } };
template <class F> static void readonly(F f, int maxn = 2, bool looked = true) {
  Coll* p = new Coll; Model m; build(*p, m, maxn); 
  if (looked && sx_choose(2, "looked")) { int t = any_type(); with(t, [&](auto g) { using T = typename decltype(g)::type; if (m.reg[t]) p->begin(twin<T>(1)); }); }
  { On on; f(const_cast<const Coll&>(*p), m); }
  verify(*p, m); delete p;
}
ENTRY(queries) { readonly([](const Coll& c, const Model& m) {
  each_type([&](auto g) { using T = typename decltype(g)::type; constexpr int t = IdOf<T>::value; bool thrown = false; for (int k = 0; k < NTWIN; k++) ask_const<Coll, T>(c, m, twin<T>(k));
    CHECK(c.template is_registered<T>() == m.reg[t]);
    if (m.reg[t]) { CHECK(c.template size<T>() == (std::size_t)m.n[t] && c.template empty<T>() == !m.n[t] && c.template capacity<T>() >= (std::size_t)m.n[t]); (void)c.template max_size<T>(); int i = 0; for (auto it = c.template begin<T>(); it != c.template cend<T>(); ++it) CHECK(it->value() == m.v[t][i++]); for (auto& x : c.template segment<T>()) x.value(); }
    else { THROWS(c.template size<T>()) THROWS(c.template begin<T>()) THROWS(c.template empty<T>()) THROWS(c.template capacity<T>()) THROWS(c.template max_size<T>()) THROWS(c.template segment<T>()) THROWS(c.template cend<T>()) } });
  CHECK(c.size() == (std::size_t)m.total() && c.empty() == !m.total()); (void)c.get_allocator(); }); }
ENTRY(traversal) { readonly([](const Coll& c, const Model& m) {
  int n = 0; for (auto it = c.begin(); it != c.end(); it++) n += P(*it, 1) < NT; for (auto it = c.cbegin(), e = c.cend(); it != e; ++it) { auto j = it; CHECK(j == it); } for (auto& x : c) P(x, 0); CHECK(n == m.total());
  for (auto s : c.segment_traversal()) { for (auto& x : s) { P(x, 0); n--; } (void)s.type_info(); } CHECK(n == 0); auto tr = c.segment_traversal(); for (auto i = tr.cbegin(); i != tr.cend(); ++i) { auto a = i->cbegin(); auto b = (*i).end(); CHECK(b - a >= 0); } }); }
ENTRY(comparison) {
  Coll* q = new Coll; Model k; build(*q, k, 1, true, false);
  readonly([&](const Coll& c, const Model& m) { const Coll& d = *q; bool e = c == d; CHECK(e == (d == c)); CHECK((c != d) == !e); CHECK(c == c); (void)m; }, 1, false);
  verify(*q, k); delete q;
}
ENTRY(copy_from) { readonly([](const Coll& c, const Model& m) {
  switch (sx_choose(7, "form")) {
    case 0: { Coll d(c); verify(d, m, false); break; }
    case 1: { Coll d(c, c.get_allocator()); verify(d, m, false); break; }
    case 2: { Coll d; d.template emplace<Ty<0>>(1u); d = c; verify(d, m, false); break; }
    case 3: { Coll d(c.begin(), c.end()); verify_light(d, m); break; }
    case 4: { Coll d; d.insert(c.begin(), c.end()); verify_light(d, m); break; }
    case 5: { Coll d; d.template emplace<Ty<1>>(1u); d.insert(d.begin(), c.begin(), c.end()); CHECK(d.size() == c.size() + 1); break; }
    default: { Coll d; each_type([&](auto g) { using T = typename decltype(g)::type; if (c.template is_registered<T>()) { d.insert(c.begin(typeid(T)), c.end(typeid(T))); d.template register_types<T>(); d.insert(d.cbegin(typeid(T)), c.template begin<T>(), c.template end<T>()); } }); CHECK(d.size() == 2 * c.size()); }
  } }, 2, false); }
struct O { std::size_t* k; O& operator*() { return *this; } O& operator++() { ++*k; return *this; } O operator++(int) { ++*k; return *this; } template <class X> O& operator=(X&&) { return *this; } typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference; };
template <class... Ts> static void algos(const Coll& c, const Model& m) {
  u32 v = sym32("x"); auto pr = [&](const auto& x) { return P(x, 0) == v; }; auto eq = [&](const auto& x, const auto& y) { return P(x, 0) == P(y, 0); };
  auto b = c.begin(), e = c.end(); std::size_t n = 0; pcn::for_each<Ts...>(b, e, [&](const auto& x) { n += P(x, 1) < NT; }); CHECK(n == (std::size_t)m.total());
  switch (sx_choose(6, "algo")) {
    case 0: { auto k = pcn::count_if<Ts...>(b, e, pr); CHECK(pcn::any_of<Ts...>(b, e, pr) == (k > 0)); CHECK(pcn::none_of<Ts...>(b, e, pr) == (k == 0)); CHECK(pcn::all_of<Ts...>(b, e, pr) == ((std::size_t)k == n)); break; }
    case 1: { auto i = pcn::find_if<Ts...>(b, e, pr); CHECK(i == e || P(*i, 0) == v); pcn::find_if_not<Ts...>(b, e, pr); break; }
    case 2: pcn::adjacent_find<Ts...>(b, e, eq); break;
    case 3: CHECK((pcn::equal<Ts...>(b, e, b, eq))); CHECK((pcn::equal<Ts...>(b, e, b, e, eq))); break;
    case 4: { auto q = pcn::mismatch<Ts...>(b, e, b, eq); CHECK(q.first == e); pcn::search<Ts...>(b, e, b, e, eq); pcn::find_end<Ts...>(b, e, b, e, eq); break; }
    default: { pcn::is_partitioned<Ts...>(b, e, pr); pcn::for_each_n<Ts...>(b, n, [](const auto&) {}); std::size_t q = 0; pcn::copy<Ts...>(b, e, O{&q}); CHECK(q == n); q = 0; pcn::copy_if<Ts...>(b, e, O{&q}, pr); pcn::transform<Ts...>(b, e, O{&q}, [](const auto& x) { return P(x, 0); }); }
  }
}
ENTRY(algorithms) { readonly([](const Coll& c, const Model& m) { if (sx_choose(2, "restitution")) algos<Ty<0>, Ty<2>>(c, m); else algos<>(c, m); }, 1, false); }
