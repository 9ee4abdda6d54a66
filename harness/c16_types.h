// Element types that lack operations: 0 ordinary, 1 move only, 2 not comparable, 3 not assignable,
// 4 none of the three.  With THROWING_MO the move of type 1 is not noexcept.
#ifndef THROWING_MO
#define THROWING_MO 0
#endif
#define COMMON(NAME, I) \
  cell c; u64 guard = 0x5a5a5a5a5a5a5a5aull + I; \
  explicit NAME(u32 v) : c(I, v) {} NAME(u32 v, u32 w) : c(I, v ^ w) {} \
  u64 probe(int k) const override { sx_assert(guard == 0x5a5a5a5a5a5a5a5aull + I, "element bytes overwritten"); return k == 0 ? c.get() : k == 1 ? I : (u64)(std::uintptr_t)this; } \
  void poke(u32 v) override { c.get(); c.v = v; } \
  u64 operator()(int k) const { return probe(k); } \
  u32 value() const { return (u32)probe(0); }
using T0 = Elem<0>;
struct MO : Left, Base { COMMON(MO, 1) MO(MO&& x) noexcept(!THROWING_MO) : c(std::move(x.c), 0) {} MO& operator=(MO&& x) noexcept(!THROWING_MO) { c.assign_move(x.c); return *this; } bool operator==(const MO& x) const { return c.get() == x.c.get(); } };
struct NC : Base { COMMON(NC, 2) NC(const NC& x) : c(x.c) {} NC(NC&& x) noexcept : c(std::move(x.c), 0) {} NC& operator=(const NC& x) { c.assign(x.c); return *this; } NC& operator=(NC&& x) noexcept { c.assign_move(x.c); return *this; } };
struct NA final : Base { COMMON(NA, 3) NA(const NA& x) : c(x.c) {} NA(NA&& x) noexcept : c(std::move(x.c), 0) {} NA& operator=(const NA&) = delete; bool operator==(const NA& x) const { return c.get() == x.c.get(); } };
struct XX : Left, Base { COMMON(XX, 4) XX(XX&& x) noexcept : c(std::move(x.c), 0) {} XX& operator=(const XX&) = delete; };
template <> struct TI<1> { using type = MO; }; template <> struct TI<2> { using type = NC; }; template <> struct TI<3> { using type = NA; }; template <> struct TI<4> { using type = XX; };
template <> struct IdOf<T0> { enum { value = 0 }; }; template <> struct IdOf<MO> { enum { value = 1 }; }; template <> struct IdOf<NC> { enum { value = 2 }; }; template <> struct IdOf<NA> { enum { value = 3 }; }; template <> struct IdOf<XX> { enum { value = 4 }; };
template <class T> struct can_copy : std::integral_constant<bool, !std::is_same<T, MO>::value && !std::is_same<T, XX>::value> {};
template <class T> struct can_compare : std::integral_constant<bool, !std::is_same<T, NC>::value && !std::is_same<T, XX>::value> {};
inline bool copyable(int t) { return t != 1 && t != 4; }
inline bool comparable(int t) { return t != 2 && t != 4; }
