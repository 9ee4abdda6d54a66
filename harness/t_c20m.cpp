// C20: arguments that can only be moved (a unit of its own: it need not compile with every change to the library)
#include "ops.h"
#include <memory>
ENTRY(move_only) { // arguments that can only be moved
  boost::function_collection<u64(std::unique_ptr<u64>, u32&&, const u32&)> c; u32 k = sym32("k"), y = sym32("y"), z = sym32("z"); c.insert([k](std::unique_ptr<u64> p, u32&& y, const u32& z) { u64 r = *p + k; CHECK(z == y); y = 9; return r; }); c.insert([k, &z](std::unique_ptr<u64>&& p, u32 y, const u32& w) { CHECKM(&w == &z, "argument by const reference"); return *p * 2 + y + w; });
  int n = 0; for (auto& f : c) { u32 a = y; z = y; u64 x = sym32("x"); u64 r = f(std::unique_ptr<u64>(new u64(x)), std::move(a), z); CHECKM(r == x + k || r == x * 2 + y + z, "result"); if (a == 9 && y != 9) CHECK(r == x + k); n++; } CHECK(n == 2);
}
