#!/usr/bin/env python3
# writes properties.jsonl (kept as a script only to keep the JSON lines readable here)
import json
D="include/boost/poly_collection/detail/"; P="include/boost/poly_collection/"
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":mech}; a.update(kw)
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
PC=D+"poly_collection.hpp"; SEG=D+"segment.hpp"; PK=D+"packed_segment.hpp"; SP=D+"split_segment.hpp"; IT=D+"iterator_impl.hpp"; TM=D+"type_info_map.hpp"; VH=D+"value_holder.hpp"; AA=D+"allocator_adaptor.hpp"; AL=P+"algorithm.hpp"
L=[
p("C01","Contents after any history of modifiers match the per-type sequences described",
 "After any sequence of insertions, emplacements, range insertions, erasures and clears over any mix of element types, every segment holds exactly the elements that were added and not removed, with their values intact and in the order the operations prescribe: plain additions go to the end of the segment of their type, positional ones immediately before the given position, erasures close the gap. Segments of other types are not affected. This holds for all three kinds of collection, through every overload (typed, by type information, local, by interface reference).",
 ["histories","inputs"],"every bounded sequence of modifier calls from every small initial state (types present, sizes, spare capacity), for all element values",
 "The tests run a fixed script per overload on fixed integers; they never combine overloads from states with/without spare capacity.",
 [PC,SEG,PK,SP,D+"stride_iterator.hpp"],"modifiers dispatch to a per-type vector (and a parallel index for function/any collections)",observe_at=["segment/local/global traversal and sizes after each call"]),
p("C02","Traversal visits every element exactly once, segment by segment",
 "Whole-collection traversal visits each element exactly once, all elements of one type contiguously and in segment order, skipping empty segments, and agrees element by element with segment traversal and with the local iteration of each segment, in const and mutable form. The reported total and per-type sizes and emptiness equal the number of elements visited. This holds for any number of registered types, whatever order the types are stored in.",
 ["inputs","configurations"],"all distributions of elements over up to the bounded number of registered types (including empty segments anywhere) and all internal orders of the types",
 "Tests use a handful of types whose storage order is fixed by one hash function, with few patterns of empty segments.",
 [IT,PC,D+"segment_split.hpp",SEG,TM],"an iterator walks a segment up to a cached end marker and then skips to the next nonempty segment"),
p("C03","Modifiers return iterators to the right place",
 "Every insertion or emplacement returns an iterator to the element just added (for a range, to the first element added, or the given position if the range is empty), and every erasure returns an iterator to the element that followed the last removed one in traversal order, or the end. The returned iterator can be dereferenced, advanced to the end of the traversal, and used as argument of further operations.",
 ["histories","inputs"],"every modifier overload that returns an iterator, every state and position within bounds, including erasing the last element of a segment and positions in the last segment",
 "Tests check returned iterators on a few positions of one arrangement of segments.",
 [PC,SEG,PK,SP,IT],"returned iterators are rebuilt from the post-operation position and end marker of the affected segment"),
p("C04","Range and hinted insertion add the whole range in order at the right place",
 "Inserting a range (plain input or forward iterators, iterators of the same kind of collection, local iterators), with or without a hint or local position, adds a copy of every element of the range, keeping the relative order of elements of the same type, before the hint or position for elements whose type matches its segment and at the end of their segment otherwise. Types not yet known to the destination are registered when the source is a collection. The source range is not modified.",
 ["inputs","histories"],"all source ranges up to the bound, all hints including end, all mixes of registered/unregistered destination types",
 "Tests insert one fixed range per overload at one or two hints.",
 [PC,SEG,SP,PK],"range insertion resolves the destination segment per element or once per range and advances the hint"),
p("C05","Range erasure removes exactly the range, across segments",
 "Erasing any valid range of a collection removes exactly the elements between the two positions in traversal order, whether the range lies in one segment or spans several, and leaves all other elements in place and in order; an empty range changes nothing. Erasing local ranges and single elements likewise removes exactly the designated elements.",
 ["inputs"],"all pairs of positions in all distributions of elements over the bounded number of segments, including ranges ending at the end of the collection or at the start of a segment, and empty segments in between",
 "Tests erase from a few positions; the multi-segment cases depend on where segment boundaries fall.",
 [PC,PK,SP],"erasure splits the range into tail of first segment, whole middle segments, and head of last segment"),
p("C06","Registration rules and the unregistered-type error are exact",
 "Operations that know the concrete type at compile time register it on demand; operations that only know it at run time (by type information or interface reference) and const queries never register, and raise the unregistered-type error, carrying that type, exactly when the type is not registered, leaving the collection unchanged. Registration is idempotent, never affects existing elements, survives clearing and erasing, and is reported correctly.",
 ["inputs","histories"],"all operations times all subsets of registered types within bounds",
 "Tests probe registration for a few operations and one unregistered type.",
 [PC,TM,P+"exception.hpp"],"lookup of the segment by type information, with creation only on statically typed paths"),
p("C07","Capacity, reserve and shrink_to_fit keep their contracts",
 "After reserving n for a type or for all registered types, the affected capacities are at least n and never decrease because of it, and no reallocation or relocation of that segment happens until its size would exceed the capacity; shrinking or reserving never changes contents, sizes or registration. Capacity is never below size, clearing or erasing keeps capacity, and requests for more than the maximum size raise the length error and change nothing.",
 ["inputs","histories"],"all sizes and reserve amounts within bounds interleaved with insertions and erasures",
 "Tests check reserve/shrink on single states; absence of relocation between them is not observed for all histories.",
 [PC,SEG,PK,SP],"per-segment vector capacity plus, for function/any collections, a parallel index whose capacity must follow"),
p("C08","Iterators and references stay valid where promised",
 "Operations on one segment never invalidate iterators or references to elements of other segments, and within a segment insertion without exceeding capacity keeps references and iterators before the insertion point valid, erasure keeps those before the erased position valid, and registering further types or read-only operations invalidate nothing. Swapping and move construction keep references to elements valid and referring to the same elements.",
 ["histories","inputs"],"all operations within bounds with iterators and references to every element taken beforehand, with any number of later registrations",
 "Tests never hold iterators across operations that could relocate memory for all states.",
 [PC,IT,TM,SP,PK],"iterators pair a position in the type map with a position in a segment; end markers are cached per segment"),
p("C09","Copy, move, assignment and swap have value semantics",
 "A copy (constructed or assigned, also with a different allocator) has the same registered types and, per type, equal elements in the same order, and is independent of its source, which is unchanged; a move transfers all elements and registered types to the destination and leaves the source empty, valid and reusable; swap exchanges contents and registrations; self-assignment changes nothing. After any of them all operations, including lookups by type of both collections, work on the right collection.",
 ["histories","inputs"],"all pairs of small collections (including different sets of registered types) times all copy/move/assign/swap forms followed by further modifications",
 "Tests compare one source/destination pair per form.",
 [PC,TM,SEG,PK,SP,AA],"type map with a lookup cache that must be rebuilt to refer to the new owner"),
p("C10","Equality compares the per-type sequences exactly",
 "Two collections compare equal if and only if for every type the sequences of elements of that type are equal element by element (an unregistered type counts as an empty sequence), regardless of registration order, capacity and history; inequality is its negation, and comparison is symmetric and changes neither operand.",
 ["inputs","configurations"],"all pairs of collections within bounds, for all element values",
 "Tests compare a few hand-made pairs that differ in obvious ways.",
 [PC,SEG,PK,SP,VH],"segment-wise comparison plus size accounting for types present on one side only"),
p("C11","Algorithms give the results of their standard counterparts",
 "Every algorithm of the library, applied to any range of a collection (from any position to any position, with empty segments anywhere), returns the same result and writes the same output as the standard algorithm of the same name applied to that range, and the single-pass ones call their function object on the same elements in the same order. (A sample is an in-order selection of the requested size; unique_copy assumes an equivalence.) This holds for all predicates, values and second sequences, and with or without a list of types to restore.",
 ["inputs"],"all element values, all sub-ranges over several segments, all second sequences and counts within bounds",
 "Tests compare on one fixed collection per model; boundary cases between segments and partially consumed segments are not covered for all values.",
 [AL,D+"segment_split.hpp",D+"functional.hpp",D+"type_restitution.hpp",IT],"each algorithm is decomposed into per-segment loops with early exit and position reconstruction"),
p("C12","Type restitution passes concrete types exactly for the listed types",
 "An algorithm invoked with a list of types passes elements of a listed type to the function object as references to their concrete type, and all other elements through the interface, in both cases referring to the very element stored, with the collection's constness; the result is the same as without the list. This applies to every element the algorithm examines, including across segment boundaries.",
 ["inputs","programs"],"all algorithms, lists of types within bounds, all distributions of elements",
 "Tests only check that results agree, not which type the function object receives for each element.",
 [AL,D+"type_restitution.hpp",D+"functional.hpp",D+"iterator_traits.hpp"],"per-segment dispatch on the segment's type information to typed local iterators"),
p("C13","An exception leaves the collection valid and leaks nothing",
 "If constructing, copying, moving, comparing or allocating throws during any operation, the exception reaches the caller, no memory or element is leaked or destroyed twice, and the collection remains fully usable: traversals, sizes and iterators are consistent with each other and every element seen is alive. Elements of segments the operation did not address keep their values, and adding one element at the end of a segment either succeeds or has no effect.",
 ["fault_sequences","inputs"],"every fallible step of every operation within bounds failing, in every initial state within bounds",
 "Tests inject almost no faults.",
 [SEG,SP,PK,PC,TM,VH],"cached end markers and parallel index must be re-established on the error path"),
p("C14","Every element and memory block is released exactly once, no stray access",
 "Over any history of operations each element constructed by a collection is destroyed exactly once, each memory block obtained is returned exactly once with the size and alignment it was obtained with, and no operation accesses memory outside live objects, reads a destroyed or moved-from element, or uses an element in the wrong type or alignment. After the collection is destroyed nothing remains.",
 ["histories","inputs"],"all bounded histories over all operations, for element types of different sizes and alignments",
 "Tests are not run under memory checking and cover few histories.",
 [VH,PK,SP,SEG,D+"segment_backend.hpp"],"type-erased storage with manual lifetime in per-type vectors"),
p("C15","Allocators are used for everything and propagate as declared",
 "All memory of a collection is obtained from and returned to (copies of) its allocator, elements are constructed and destroyed through it, and no other allocation takes place; copies, moves, assignments and swaps select, propagate or keep the allocator as its traits declare, and when allocators differ and do not propagate elements are transferred individually. The allocator reported by the collection is the one in use.",
 ["configurations","histories"],"all combinations of propagation traits and equal/unequal allocators, over all construction/assignment/swap forms and modifiers within bounds",
 "Tests count allocations for a few trait combinations and do not see unequal allocators on every path.",
 [AA,PC,TM,SEG,PK,SP],"allocator is rebound and passed through the type map, segments and vectors via an adaptor"),
p("C16","Restricted element types work, and fail cleanly where unsupported",
 "Elements that cannot be copied, compared or assigned can be stored, traversed, inserted by move, emplaced and erased like any other; copying a collection that holds a noncopyable element, or comparing two that both hold noncomparable elements of a type, raises the corresponding documented error carrying the type, exactly when such an element really has to be copied or compared, and leaves the source and the compared operands unchanged (an assigned-to collection stays valid), while segments not involved behave normally. Elements without assignment are relocated by destroy-and-reconstruct without losing values.",
 ["programs","inputs"],"move-only, noncomparable and nonassignable element types, all states and operations within bounds",
 "Tests check one throwing copy and comparison and never combine them with other segments' state.",
 [VH,PC,TM,P+"exception.hpp"],"fallbacks in the element holder that raise an error at run time instead of failing to compile"),
p("C17","Read-only use never writes to the collection",
 "No const member function, const traversal, comparison, copy from, or nonmodifying algorithm over const iterators writes to, allocates into or frees any memory belonging to the collection, so any number of them may run concurrently on the same collection. This includes queries by type for types never looked up before.",
 ["schedules","inputs"],"all const operations on all states within bounds (a write-free operation is race-free under every schedule of readers)",
 "Tests are single threaded and cannot see hidden writes such as lazily filled caches.",
 [TM,PC,IT,SEG],"const lookups consult but must not update the per-collection lookup cache"),
p("C18","Types are identified by type equality, not by the address of type information",
 "Operations given type information select the segment of the type it denotes even when it is a different object from the one used before (as happens across dynamic libraries), whether it was seen before or not, before and after copying, moving, swapping and registering more types. Types with equal hash codes are still told apart.",
 ["configurations","histories"],"all interleavings within bounds of lookups through distinct but equal type information objects with registration, copy, move and swap; colliding hashes",
 "A single program has one type information object per type, so tests never present a second one; hashes never collide.",
 [TM,PC,SEG],"lookup cache keyed by address in front of a map keyed by type equality"),
p("C19","Local iterators are random access, agree with each other and convert",
 "Local iterators of a segment, typed or untyped, const or not, form random access ranges: arithmetic, difference, ordering, indexing and dereference agree with the element sequence, and conversion between the typed/untyped and const/nonconst forms (including from iterators of a segment obtained in any way) preserves the position. The same element is designated by the corresponding local and global iterators.",
 ["inputs"],"all positions and offsets in segments within bounds, all four iterator forms",
 "Tests check conversions at begin and end positions and few offsets.",
 [IT,D+"stride_iterator.hpp",D+"any_iterator.hpp",D+"callable_wrapper_iterator.hpp",D+"base_model.hpp",D+"function_model.hpp",D+"any_model.hpp"],"strided pointers or index entries with conversions to concrete pointers"),
p("C20","Access through the interface reaches exactly the stored element",
 "Dereferencing any iterator and using the common interface (virtual call, function call with its arguments and result, type-erased operation) acts on exactly the stored element designated, forwards arguments and results faithfully, observes and performs modifications on it, and reports its type correctly, whatever the element's layout (several bases, nonzero interface offset, alignment, empty class, function pointer). This remains true after any relocation of elements.",
 ["inputs","programs"],"all element layouts, positions, argument values and relocation histories within bounds",
 "Tests use simple layouts and do not check object identity through the interface after relocations.",
 [D+"callable_wrapper.hpp",D+"function_model.hpp",D+"base_model.hpp",D+"any_model.hpp",SP,D+"callable_wrapper_iterator.hpp",D+"any_iterator.hpp"],"interface objects hold a pointer to the concrete element that must follow it on relocation"),
p("C21","Inserting a collection's own elements into itself is safe and correct",
 "Inserting or emplacing from a reference to an element of the same collection (also of the same segment, at any position, through the interface or the concrete type, when the segment is full) adds an element equal to the value the referenced element had before the call and leaves the others intact.",
 ["inputs"],"all source elements, positions, sizes and spare capacities within bounds, all insertion overloads taking an element",
 "Tests never insert an element of the collection into itself at full capacity.",
 [SP,PK,PC],"reallocation happens before the new element is constructed from the argument"),
p("C22","Elements are made from exactly what is passed, also for unusual types",
 "Emplacing creates the element as T(args...) from the very objects passed, each with its value category and constness (rvalues may be moved from, others are left alone; no argument is copied on the way). Inserting a value or a range makes exactly one copy per lvalue source and leaves it unchanged, and moves (never copies) from rvalues. This and everything else works for element types with constructors accepting anything, initializer-list constructors, overloaded unary & or comma, own operator new, or comparison returning something convertible to bool.",
 ["inputs"],"all value categories and constness of up to three arguments or of the source, all emplacement, insertion and range insertion overloads and positions, sizes and spare capacity within bounds; any other operation on such types",
 "The tests emplace from one or two plain values and look at the result; they use no element type with hostile overloads.",
 [SP,PK,PC,VH],"perfect forwarding through four layers (collection, segment, segment implementation, value holder); one lost forward or one & instead of addressof changes behaviour for such types only"),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
for x in L: assert len(x["title"])<=80,(x["id"],len(x["title"]))
