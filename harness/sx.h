// Interface between a harness and its two back ends: the symbolic executor
// (engine/sx.cpp) and the native replayer (harness/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
typedef std::uint8_t u8; typedef std::uint32_t u32; typedef std::uint64_t u64;
extern "C" {
u64  sx_sym(int bits, const char* name);       // arbitrary value of the given width
u64  sx_range(u64 n, const char* name);        // arbitrary value in [0,n), kept symbolic
u64  sx_choose(u64 n, const char* name);       // arbitrary value in [0,n), one path per value
void sx_assume(bool);
void sx_assert(bool, const char* what);
void sx_observe(u64);                          // part of the path's observable outcome
void sx_reach(const char* label);              // vacuity control
u64  sx_live_heap();                           // number of live heap blocks
void sx_protect(int on);                       // heap blocks existing now become read-only
}
#define SXS2(x) #x
#define SXS(x) SXS2(x)
#define CHECK(c) sx_assert(static_cast<bool>(c), #c " [" __FILE_NAME__ ":" SXS(__LINE__) "]")
#define CHECKM(c, m) sx_assert(static_cast<bool>(c), m " [" __FILE_NAME__ ":" SXS(__LINE__) "]")
