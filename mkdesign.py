#!/usr/bin/env python3
# fills the generated parts of DESIGN.md (between <!-- x --> and <!-- /x -->): properties, planted bugs
import json, os, re
from specs import SPECS
HOW = {
 'C01': ("t_c01.cpp, t_hist.cpp", "Model comparison through every access path after one arbitrary call from an arbitrary small state (which covers one step of *any* history whose state is in bounds), and after every short history from empty.", "combinations of overload x state x spare capacity; the parallel index of function/any collections can disagree with the storage only after particular histories"),
 'C02': ("t_c02.cpp", "Global, segment, local, const and mutable traversals are compared element by element (identity, type, value), and with all sizes; element addresses must be distinct.", "patterns of empty segments and storage orders of the types"),
 'C03': ("t_c03.cpp", "The returned iterator is compared with the one found by walking to the model's position; it is dereferenced, its distance to the end is measured, and it is used in a second call.", "positions at segment boundaries and in last segments"),
 'C04': ("t_c04.cpp", "Model: insert the sequence value by value at the resolved position; source is compared before/after; registration after it.", "category of the iterator x place x capacity x unregistered destination"),
 'C05': ("t_c05.cpp", "Model: per type the cut is computed by walking the traversal order; the rest must be unchanged.", "all pairs of positions in all arrangements"),
 'C06': ("t_c06.cpp", "A table of operations with their documented registration behaviour; for each, either it registers, or it throws `unregistered_type` carrying that type iff unregistered; the whole collection is compared afterwards.", "operations x sets of registered types"),
 'C07': ("t_c07.cpp", "Capacities before/after, addresses of elements while filling up to the reported capacity, contents by model; `length_error` for symbolic 64-bit amounts above `max_size`.", "amounts close to the maximum, growth after any mix"),
 'C08': ("t_c08.cpp", "Iterators and addresses of every element are taken, an arbitrary operation is made, those which the contract keeps must still designate the same element (address, value, and for iterators: distance to both ends).", "nothing in the tests holds iterators over operations"),
 'C09': ("t_c09.cpp", "Two models; every form; then one modification of each side and complete comparison, lookups through both collections.", "pairs with different registrations"),
 'C10': ("t_c10.cpp", "`==` must equal the comparison of the two models (symbolic values: the solver decides both directions), symmetric, `!=` the negation, operands unchanged.", "one differing value anywhere, types present on one side only"),
 'C11': ("t_alg.cpp", "The standard algorithm on an array of element pointers of the range; result position, output, and for single-pass algorithms the sequence of calls.", "ends of runs falling on segment boundaries, partially consumed segments"),
 'C12': ("t_alg.cpp with RESTITUTION", "Every call of the function object records static type, constness and address of its argument; each must be that of a stored element and typed iff the type is listed.", "tests only look at results"),
 'C13': ("t_c13.cpp", "A symbolic fault index makes one of the fallible steps throw; afterwards the exception must have arrived, other segments are as before, the addressed one consists of live elements consistent through all access paths, append is all-or-nothing, nothing leaked at the end.", "the tests inject hardly any fault"),
 'C14': ("t_c14.cpp", "Allocator and element accounting by address, size, alignment and type; the executor checks every access.", "no memory checking in the tests"),
 'C15': ("t_c15.cpp", "Allocator with identity; each block is recorded with its owner; global operator new must not be used; after each form the identity of the allocator of the collection, of every block and of every element construction is compared with what the traits prescribe.", "propagation x equality x form"),
 'C16': ("t_c16.cpp", "Model plus the table of which calls must throw which error with which type; element addresses distinguish moving from copying.", "states with several restricted types"),
 'C17': ("t_c17.cpp", "All memory alive (and all the library's statics) is write-protected in the executor before the const operation; natively the arena is `mprotect`ed.", "a race is not observable in a sequential test; writes are"),
 'C18': ("t_c18.cpp, t_c18x.cpp", "Type information objects that are equal but distinct (two images of the program in the executor; natively a shared object loaded with its own RTTI), and hash functions that collide.", "tests run in one image with one hash"),
 'C19': ("t_c19.cpp", "All laws on pairs/triples of positions against integer arithmetic on positions.", "all pairs"),
 'C20': ("t_c20.cpp, t_c20m.cpp", "Each way of reaching an element calls through the interface; the element type, address and results are compared with a direct call.", "offset interfaces, relocations in between"),
 'C21': ("t_c21.cpp", "Model with the value of the source element before the call.", "source x position x capacity"),
 'C22': ("t_c22.cpp", "An element type whose greedy constructor records number, category and address of what it was constructed from; counters of copies and moves of sources and arguments; hostile overloads are assertions that must not be reached.", "combinations of category x overload x capacity path; types the tests do not have"),
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
cost = {}
for p in props:
    try: cost[p['id']] = json.load(open(f"/verif/cost.json"))[p['id']]
    except Exception: cost[p['id']] = '?'
out = []
for p in props:
    i = p['id']; f, o, w = HOW[i]; s = SPECS[i]
    out.append(f"**{i} {p['title']}** (`{f}`, ≈{cost[i]} s)  \n*Oracle.* {o}  \n*Bounds.* {s['bounds']}  \n*Outside.* {s['outside']}  \n*Beyond tests.* {w}.\n")
tab = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open("/verif/caught.json")) if os.path.exists("/verif/caught.json") else {}
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{d}/meta.json")); tab.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d,'-')} |")
t = open("/verif/DESIGN.md").read()
for k, v in (("PROPS", "\n".join(out)), ("SEEDED", "\n".join(tab))):
    t = t.replace(f"@@{k}@@", f"<!-- {k} --><!-- /{k} -->")
    t = re.sub(f"<!-- {k} -->.*?<!-- /{k} -->", lambda _: f"<!-- {k} -->\n{v}\n<!-- /{k} -->", t, flags=re.S)
open("/verif/DESIGN.md", "w").write(t)
