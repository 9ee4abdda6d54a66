// C05: erasure
#include "ops.h"
#define MAXN (THOROUGH ? 3 : 2)
ENTRY(range) { any_order(); Coll c; Model m; build(c, m, MAXN, true, false); op_erase2(c, m, 0); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(local_range) { Coll c; Model m; build(c, m, 2, true, false); op_erase2(c, m, 1 + (int)sx_choose(N_ERASE2 - 1, "form")); verify(c, m); }
ENTRY(single) { Coll c; Model m; build(c, m, 2, true, false); op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); verify(c, m); }
ENTRY(clear) { Coll c; Model m; build(c, m, 2, true, false); op_misc(c, m, (int)sx_choose(3, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(twice) { Coll c; Model m; build(c, m, 2, false, false); op_erase2(c, m, 0); op_erase2(c, m, 0); verify(c, m); }
ENTRY(big) { Coll c; Model m; build_big(c, m); if (sx_choose(2, "range")) op_erase2(c, m, (int)sx_choose(N_ERASE2, "form")); else op_erase1(c, m, (int)sx_choose(N_ERASE1, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(big_clear) { Coll c; Model m; build_big(c, m); op_misc(c, m, (int)sx_choose(3, "form")); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(one_by_one) { // from any end until nothing is left
  Coll c; Model m; build(c, m, 2, true, false); int how = (int)sx_choose(3, "how"); for (int n = m.total(); n > 0; n--) { int h = how == 0 ? 0 : how == 1 ? n - 1 : n / 2; Where w = where(c, h); auto it = c.erase(nth(c, h)); m.era(w.t, w.i, w.i + 1); CHECK(it == nth(c, h)); } verify(c, m); CHECK(c.empty() && c.begin() == c.end()); probe_after(c, m); verify(c, m); }
#if NT >= 5
ENTRY(many_range) { Coll c; Model m; build(c, m, 2, THOROUGH, false); op_erase2(c, m, 0); verify(c, m); probe_after(c, m); verify(c, m); }
ENTRY(many_single) { Coll c; Model m; build(c, m, 2, true, false); op_erase1(c, m, 0); verify(c, m); }
#endif
