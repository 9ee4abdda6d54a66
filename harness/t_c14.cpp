// C14: lifetimes and memory over histories of all operations
#include "track.h"
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
using C = TC;
static void light(C& c, Model& m) { // one more simple operation
  switch (sx_choose(4, "then")) {
    case 0: probe_after(c, m); break;
    case 1: if (c.size()) op_erase1(c, m, 0); break;
    case 2: op_misc(c, m, 0); break;
    default: op_misc(c, m, 6); break;
  }
}
static void transfer(C& c, Model& m) { // copies, moves and swaps with another collection
  C o; Model mo; { Ty<0> x(1); o.insert(x); mo.add(0, 1); o.template emplace<Ty<NT - 1>>(2u); mo.add(NT - 1, 2); }
  switch (sx_choose(7, "transfer")) {
    case 0: { C d(c); verify(d, m, false); verify(c, m, false); break; }
    case 1: { C d(std::move(c)); verify(d, m, false); light(d, m); verify(d, m, false); m = Model(); verify(c, m, false); break; }
    case 2: o = c; verify(o, m, false); light(c, m); verify(c, m, false); break;
    case 3: o = std::move(c); verify(o, m, false); m = Model(); verify(c, m, false); break;
    case 4: c.swap(o); verify(o, m, false); verify(c, mo, false); m = mo; break;
    case 5: c = o; m = mo; verify(c, m, false); break;
    default: { C& self = c; c = self; verify(c, m, false); break; }
  }
}
#define HIST(name, n, then, op) ENTRY(name) { Track t; C c; Model m; build(c, m, n); op; verify(c, m, true); if (then) { light(c, m); verify(c, m, false); } tracked(); }
HIST(emplace, MAXN - 1, true, op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")))
HIST(insert, MAXN - 1, THOROUGH, op_insert(c, m, (int)sx_choose(N_INSERT, "form")))
HIST(erase, MAXN, THOROUGH, if (sx_choose(2, "two")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")))
HIST(misc, MAXN - 1, true, op_misc(c, m, (int)sx_choose(N_MISC, "form")))
ENTRY(range) { Track t; C c; Model m; build(c, m, MAXN - 1); op_range(c, m, (int)sx_choose(N_RANGE, "form")); verify(c, m); tracked(); }
ENTRY(mixed) { Track t; C c; Model m; build(c, m, MAXN - 1); op_range_mixed(c, m, sx_choose(2, "hinted"), 1); verify(c, m); tracked(); }
ENTRY(transfers) { Track t; C c; Model m; build(c, m, MAXN - 1); transfer(c, m); light(c, m); verify(c, m, false); tracked(); }
ENTRY(two) { Track t; C c; Model m; build(c, m, 1, true, true, 2); op_emplace(c, m, (int)sx_choose(3, "form")); op_erase2(c, m, 0); op_insert(c, m, N_SRC * (int)sx_choose(2, "form") + (int)sx_choose(2, "form")); verify(c, m); tracked(); }
