def U(file, kinds=(0, 1, 2), **kw): return [dict(file=file, kind=k, **kw) for k in kinds]
SPECS = {
 "C01": {"units": U("t_c01.cpp", defs=["NT=2"]) + U("t_hist.cpp", defs=["NT=2"])},
 "C02": {"units": U("t_c02.cpp")},
 "C03": {"units": U("t_c03.cpp", defs=["NT=2"])},
 "C04": {"units": U("t_c04.cpp", defs=["NT=2"])},
 "C05": {"units": U("t_c05.cpp")},
 "C06": {"units": U("t_c06.cpp")},
 "C07": {"units": U("t_c07.cpp")},
 "C08": {"units": U("t_c08.cpp")},
 "C09": {"units": U("t_c09.cpp")},
 "C10": {"units": U("t_c10.cpp")},
}
for _c, _x in (("C11", []), ("C12", ["RESTITUTION=1"])): SPECS[_c] = {"units": [u for g in range(3) for u in U("t_alg.cpp", defs=[f"GROUP={g}"] + _x)]}
SPECS["C13"] = {"units": U("t_c13.cpp", defs=["NT=2", "THROWY=1"])}
SPECS["C14"] = {"units": U("t_c14.cpp", defs=["MIXED=1"])}
SPECS["C15"] = {"units": [u for a, b, c in ((0,0,0),(1,1,1),(1,0,0),(0,1,0)) for u in U("t_c15.cpp", defs=["NT=2", f"POCCA={a}", f"POCMA={b}", f"POCS={c}"], **({} if (a,b,c) == (0,0,0) else {"entries": ["h_construct", "h_copy_assign", "h_move_assign", "h_swaps", "h_assign_alone"]}))]}
SPECS["C16"] = {"units": U("t_c16.cpp") + U("t_c16.cpp", defs=["THROWING_MO=1"], entries=["h_throwing"])}
SPECS["C17"] = {"units": U("t_c17.cpp", arena=True)}
SPECS["C18"] = {"units": [u for d in ([], ["COLLIDE=1"], ["COLLIDE=2"]) for u in U("t_c18.cpp", defs=d, thorough_only=d == ["COLLIDE=2"])] + U("t_c18x.cpp", twin=True)}
SPECS["C19"] = {"units": U("t_c19.cpp")}
SPECS["C20"] = {"units": U("t_c20.cpp") + U("t_c20m.cpp", kinds=(1,))}
SPECS["C21"] = {"units": U("t_c21.cpp")}
SPECS["C22"] = {"units": U("t_c22.cpp")}

# many segments: 5 types
for _c in ("C02", "C03", "C04", "C05", "C09", "C10"): SPECS[_c]["units"] += U("t_%s.cpp" % _c.lower(), defs=["NT=5"], entries=["h_many"])
for _c, _x in (("C11", []), ("C12", ["RESTITUTION=1"])): SPECS[_c]["units"] += [u for g in range(3) for u in U("t_alg.cpp", defs=[f"GROUP={g}"] + _x + ["NT=5", "MAXN=1", "MAXTOTAL=4"], entries=["h_many"])]
# many elements: up to 260, ranges of 270
for _c, _k in (("C01", ["NT=2"]), ("C03", ["NT=2"]), ("C04", ["NT=2"]), ("C05", []), ("C07", []), ("C09", []), ("C10", []), ("C21", [])): SPECS[_c]["units"] += U("t_%s.cpp" % _c.lower(), defs=_k + ["WIDE=1"], entries=["h_big"])

_B = {
 'C01': ('any state of 2 element types x {unregistered, 0..2 elements (thorough 3)} x {no, some spare capacity}, then one call of any overload of emplace/insert/range insert (ranges 0..2, thorough 3)/erase/clear/reserve/shrink/register with any position, then one more element of each type; also by rvalue / const reference of the interface type and with moving ranges; plus every history of 4 (thorough 5) calls out of 13 from the empty collection; plus one segment with 5, 17 or 260 (thorough also 40) elements beside small ones, ranges of 9 and 270, positions at both ends and around powers of two. Element values: all 2^32.', 'longer histories, more than 2 types at once (3 or 5 in C02, C05..), sizes other than those named'),
 'C02': ('3 element types x {unregistered, 0..2 (thorough 3) elements} x all 6 registration orders; one modification before the traversals in a second entry. All traversal forms of the interface. 5 types x 0..1 elements in both orders, before and after a change.', 'more than 5 segments'),
 'C03': ('2 types, 0..2 (thorough 3) elements each, spare capacity or not; every overload, every position and hint; two chained calls; an erase loop with an arbitrary predicate; one segment with 5, 17 or 260 (thorough also 40) elements beside small ones, ranges of 9 and 270, positions at both ends and around powers of two; 5 types x 0..1', 'three or more chained calls'),
 'C04': ('2 types, destination 0..2, source ranges 0..2 (thorough 3) elements; array, single-pass, other collection (whole, any sub-range), local ranges, constructible values; plain, every hint, every local position, ranges that move their elements; one segment with 5, 17 or 260 (thorough also 40) elements beside small ones, ranges of 9 and 270, positions at both ends and around powers of two; 5 types x 0..1', 'other sizes'),
 'C05': ('3 types, 0..2 (thorough 3) elements each, all registration orders for range erasure; all pairs of positions; two range erasures in a row; erasing everything one by one; one segment with 5, 17 or 260 (thorough also 40) elements beside small ones, ranges of 9 and 270, positions at both ends and around powers of two; 5 types x 0..1', 'more than 5 segments'),
 'C06': ('3 types, {unregistered, 0..1 elements}; 27 run-time operations and 7 compile-time ones, range insertions of 0..1 elements per type; all registration orders; up to 13 further types registered', 'operations are applied to one collection at a time'),
 'C07': ('3 types, 0..2 (thorough 3) elements, spare or not, reserve amounts 0..6 and every 64-bit amount above max_size(); growth by 7 (thorough 10) elements; one segment with 5, 17 or 260 (thorough also 40) elements beside small ones, ranges of 9 and 270, positions at both ends and around powers of two', 'larger amounts that succeed'),
 'C08': ('3 types, 0..2 (before_point 0..3) elements, spare or not; one operation of any overload with iterators and references to every element held; registration of 6 or 11 further types; two operations in a row; capacities handed over by move and swap; segments of 5 and 17', 'three or more operations in a row'),
 'C09': ('3 types, pairs of collections with 0..1 (thorough 2) elements per type, single ones with 0..2 (3); every form, followed by one modification of either side; chains of two forms; self assignment and swap; segments of 5, 17 and 260; 5 types x 0..1', 'pairs with more than 2 elements of several types'),
 'C10': ('3 types x 0..1 (thorough 2) elements each in both operands, one type with 0..3 (4) in both, 3 types x 0..2 against a rearranged or once changed copy; segments of 5, 17 and 260; 5 types x 0..1 on both sides; values all 2^32', 'segments that differ in more than one place when both are large'),
 'C11': ('3 types, 0..2 (thorough 3) elements each, at most 5 (7) in total (4 (5) for the two-sequence algorithms), every sub-range, values 0..2 (3), predicates value-odd, relations == and <, second sequences up to 5, every count; without list, const with one type listed, two types listed, all types listed; the overloads without function object (operator==) where they exist; runs of up to 7 equal elements over the segments; 5 types x 0..1 (at most 4 elements)', 'other predicates; element values outside 0..3 (the algorithms only see values through the function object)'),
 'C12': ('as C11, with what every function object receives (type, identity, constness) checked for every call', 'as C11'),
 'C13': ('2 types (one with a throwing move), 0..2 (thorough 3) elements, spare or not; every overload; the fault at any of the first 40 fallible steps (construction, copy, move, assignment, allocation, comparison), or none; exactly one fault per call', 'two faults in one call, destructors that throw, swap of unequal non-propagating allocators (undefined)'),
 'C14': ('3 types of different size/alignment, 0..1 (thorough 2) elements (erase 0..2 (3)), any overload, one further operation, copy/move/swap; every block and element accounted for by an allocator model, every access checked by the executor', 'longer histories (see C01 for histories without accounting)'),
 'C15': ('2 types, 0..2 (thorough 3) elements, allocators equal or not, the four propagation settings none/all/copy only/move only; every constructor, assignment, swap; every modifier once with the non-propagating allocator; after a form the memory held by every part of the collection is counted per allocator', 'stateful allocators with fancy pointers (do not compile)'),
 'C16': ('4 restricted types (move only, not comparable, not assignable, neither) next to an ordinary one, 0..2 (thorough 3) elements; every operation', 'larger segments'),
 'C17': ('3 types, 0..2 elements; every const member, traversal, comparison, copy, insertion from, nonmodifying algorithm; with and without an earlier lookup through another type information object. A write to anything allocated before, or to a static of the library, is a violation', 'interleavings are not explored: absence of writes implies absence of races between readers'),
 'C18': ('3 types with 3 type information objects each, 0..1 elements, 1..2 (thorough 3) lookups through any of them, then copy/move/assign/swap/registration of up to 13 further types; ordinary hash, constant hash (all collide), thorough: 1-bit hash; and two images of the whole program (two copies of every type information object, as with shared libraries) working on one collection', 'three or more images'),
 'C19': ('3 types, up to 3 (thorough 4) elements in the segment, all pairs of positions, all iterator forms and conversions', 'longer segments'),
 'C20': ('3 layouts per kind (single base, interface at an offset, over-aligned/final/stateless), 0..3 elements each, every way to reach an element, 10 relocating histories, arbitrary 32-bit arguments', 'non-const callables and reference results of function_collection do not compile'),
 'C21': ('3 types, 1..2 (thorough 4) elements, spare or not, every source element, every insertion and emplacement overload and position; 4 (5) repeated self-insertions', 'self range insertion (not permitted)'),
 'C22': ('one ordinary and one hostile type, 0..2 (thorough 3) elements, spare or not; every emplacement overload with 1..3 arguments of every value category and constness, every insertion overload with every category of source, ranges of 0..2 items of every category, forward and single pass; one call of any modifier; copies, moves, swap, comparison; ten algorithms with and without list', 'constructors that throw (C13); more than three arguments'),
}
for _k in SPECS: SPECS[_k]['bounds'], SPECS[_k]['outside'] = _B[_k]
