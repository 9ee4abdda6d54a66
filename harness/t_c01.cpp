// C01: contents after any history of operations
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
ENTRY(emplace) { Coll c; Model m; build(c, m, MAXN); op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(insert) { Coll c; Model m; build(c, m, MAXN); op_insert(c, m, (int)sx_choose(N_INSERT, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(range) { Coll c; Model m; build(c, m, 2); op_range(c, m, (int)sx_choose(N_RANGE, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(erase) { Coll c; Model m; build(c, m, MAXN); if (sx_choose(2, "range")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(misc) { Coll c; Model m; build(c, m, MAXN); op_misc(c, m, (int)sx_choose(N_MISC, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
// many elements in one segment, long ranges
ENTRY(big_emplace) { Coll c; Model m; build_big(c, m); op_emplace(c, m, (int)sx_choose(N_EMPLACE, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(big_insert) { Coll c; Model m; build_big(c, m); op_insert(c, m, (int)sx_choose(N_INSERT, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(big_range) { Coll c; Model m; build_big(c, m); g_big_range = true; op_range(c, m, (int)sx_choose(N_RANGE, "form")); verify(c, m); }
ENTRY(big_erase) { Coll c; Model m; build_big(c, m); if (sx_choose(2, "range")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(big_misc) { Coll c; Model m; build_big(c, m); op_misc(c, m, (int)sx_choose(N_MISC, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
