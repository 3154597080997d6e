#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
S = "include/boost/segmented_tree/seq.hpp"
P = []
def p(id, title, statement, over, text, why, mech, files=(S,), state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

TREE = [("subtree sizes", "element count below every child of an index node", S + " node::sizes"),
        ("root/size/height", "what the container believes about the whole tree", S + " root_, size_pair_, height_pair_")]

p("C01", "Every history of modifications yields the sequence std::vector would hold",
  "After any sequence of constructors, insert/emplace/push/erase/pop/assign/resize/clear (single, counted, range and initializer-list forms) at any positions, size(), empty() and the elements in order are exactly those of an ideal sequence (std::vector) given the same calls. This holds for trivially copyable and non-trivial element types, and however the tree has been split, merged or rebalanced on the way.",
  ["histories", "inputs"], "all call histories, positions, counts and element values, at every tree height",
  "The suite runs 5-element literals plus one fixed-seed insert-all-then-erase-all history per size with std::uint64_t; mixed histories, repeated growth and shrinkage and non-trivial types at height > 2 are never run.",
  [("insert: shift, segment split, leaf and branch split, new root", S + " insert_single_segment/_leaf/_branch"),
   ("erase: shift, borrow from or merge with the previous or next sibling, root collapse", S + " erase_single_segment/_leaf/_branch"),
   ("counted and range forms", S + " emplace_count, emplace_range, erase_range, assign_count, assign_range, resize_count")],
  state=TREE, observe=["size()", "iteration", "operator[]"])

p("C02", "Iterators obey the random-access laws at every position and distance",
  "For every position i and distance d with 0 <= i <= size() and 0 <= i+d <= size(), ++, --, +=, -=, +, -, [] (and reverse and const iterators) land on position i+d and refer to its element, differences equal index differences, and all six comparisons agree with index order, also between iterator and const_iterator. Moving by any path to the same position gives equal, interchangeable iterators, including to and from end().",
  ["inputs", "histories"], "all positions and distances in trees of every shape that histories of insertions and erasures produce",
  "test_iterator strides forward and backward by six fixed steps through trees of one shape per size and only compares sums; negative and mixed jumps, end() arithmetic and irregular shapes are not exercised.",
  [("single steps", S + " move_next_segment/_leaf/_branch, move_prev_*"),
   ("jumps over subtree sizes", S + " move_next_*_count, move_prev_*_count"),
   ("position field for comparison and difference", S + " iterator_data::pos, difference")],
  state=TREE, observe=["iterator_t public operators"])

p("C03", "Positional access reaches exactly the addressed element, or fails as documented",
  "nth(i), operator[](i), at(i), front(), back(), begin(), end(), penultimate() and their const forms designate positions i, 0, size()-1 and size() exactly, and index_of() is the inverse of nth(). at(i) throws std::out_of_range for every i >= size() without changing anything, and nth(i) for every i >= size() is end(). Elements written through any of them are read back through all the others.",
  ["inputs", "histories"], "all indices, including size()-1, size() and the largest size_type, after every history",
  "The tests look up positions 0 and 1 of a two-element sequence; subtree-size bookkeeping after rebalancing decides every other lookup.",
  [("descent by subtree sizes", S + " find_index_root/_branch/_leaf"),
   ("bounds check", S + " at(), nth()"), ("edges", S + " find_first_*, find_last_*, find_end_*")],
  state=TREE, observe=["at()", "nth()", "operator[]", "index_of()"])

p("C04", "The segment view of iterators partitions the sequence into contiguous runs",
  "For every iterator, [begin(), end()) is a contiguous run of elements of the sequence that contains current() (or ends there for the end iterator), and the runs visited by move_after_segment()/after_segment() from the first, or move_before_segment()/before_segment() from the last, cover every element exactly once in order. after_segment(n) is the first element of the next run moved n forward, and before_segment(n) is the last element of the previous run moved n backward, both with the right position.",
  ["inputs", "histories"], "all iterators, runs and counts n that stay inside the sequence, in trees of every shape",
  "No test calls any of these members; before_segment(n) was wrong for every n in the original tree.",
  [("segment bounds carried by the iterator", S + " segment_entry, first_element, last_element, current_element"),
   ("segment jumps", S + " move_after_segment(_count), move_before_segment(_count)")],
  observe=["iterator_t::begin/end/current", "before_segment/after_segment"])

p("C05", "Iterators returned by modifiers are exact and fully usable",
  "insert and emplace return an iterator to the (first) inserted element, or to pos when nothing is inserted, and erase returns one to the element after the last removed. The returned iterator is indistinguishable from nth() of that index in every use: dereferencing, stepping, jumping, segment members, and as the position of the next insert or erase, without ever asking the container for a fresh one.",
  ["histories", "inputs"], "all chains of modifications each starting from the iterator the previous one returned, through every kind of split, borrow, merge and root change",
  "The tests discard every returned iterator; the counted and range forms rely on them internally but only from one position.",
  [("fix-up of the iterator during splits", S + " insert_single_segment, insert_single_leaf (entry.leaf)"),
   ("fix-up during borrows and merges", S + " erase_single_segment, erase_single_leaf (entry)"),
   ("stepping off an emptied tail", S + " erase_single")],
  observe=["return values of insert/emplace/erase"])

p("C06", "The tree stays balanced and compact after every modification",
  "At every moment height() is 0 for an empty sequence, 1 while a single segment holds all elements, and otherwise at most logarithmic in size(): no segment except a sole one is less than half full, no index node except the root has fewer than half its capacity of children, and none exceeds its capacity, which is what segment_target and base_target bytes have room for (but at least one element and three children). Hence live memory is at most about twice what the elements need, also after the sequence has shrunk, and an empty sequence holds no memory.",
  ["histories"], "all histories of insertions and erasures, in particular shrinking after growth and churn around the boundaries",
  "The only assertions on shape are height()==0 and height()==1 for two tiny sequences; a tree that never merges or that degenerates passes every test.",
  [("split sizes", S + " insert_single_* pointer_length/alloc_length"), ("merge thresholds", S + " erase_single_* against segment_min/base_min"),
   ("height bookkeeping", S + " insert_single_leaf/_branch, erase_single_leaf/_branch")],
  state=TREE, observe=["height()", "allocations live in the allocator", "segment lengths seen through iterators"])

p("C07", "Operations keep their documented complexity",
  "Positional access, begin/end, and single insert/erase anywhere cost work logarithmic in size(); ++/-- are amortized constant over a traversal, jumps are logarithmic; size, empty, height, swap, move construction and comparison or difference of iterators cost constant work; copying or traversing n elements costs O(n log n) at most; ranges of M elements are inserted, erased or spliced in M log N; sort is NlogN, merge, unique, remove and reverse near-linear, in work and in calls of the comparator or predicate. A single insert or erase relocates a bounded number of elements and allocates at most one segment plus one index node per level and a new root; erase, pop, clear, swap, traversal and lookup never allocate.",
  ["inputs", "histories"], "all sizes and positions, measured in machine-independent work (executed code blocks, element moves, allocations)",
  "No test measures work; an accidentally linear lookup or step still returns the right element.",
  [("descent by subtree sizes", S + " find_*"), ("local rebalancing", S + " insert_single_*, erase_single_*"), ("pointer exchange", S + " swap, steal, move constructor")],
  observe=["executed basic blocks of an instrumented build", "element move counts", "allocator calls"])

p("C08", "Every element is constructed once, destroyed once, never used outside its life",
  "Throughout any history the number of live elements equals the sum of the sizes of all live sequences, every element's constructor is matched by exactly one destructor, and no operation reads, assigns or destroys storage without a live element in it or leaves a moved-from element visible. Elements whose identity depends on their own address are relocated only through their move operations.",
  ["histories", "inputs"], "all histories of all operations, for non-trivial element types (self-referential, owning memory, trivially destructible but not trivially copyable)",
  "The suite's non-trivial type is std::string in at most ten-element sequences that never split; lifetimes are not observed at all.",
  [("relocation into new storage", S + " construct_range_segment, move_segment"), ("shifts", S + " assign_forward_segment, assign_backward_segment"),
   ("destruction", S + " destroy_segment, purge_segment")],
  observe=["constructors, assignments and destructors of instrumented elements"])

p("C09", "All memory and element construction goes through the allocator, balanced exactly",
  "Every block is obtained from the sequence's allocator (rebound as needed), returned exactly once with the same count to an equal allocator, and never as a null pointer; after destruction, clear() or shrinking to empty nothing remains allocated. Where the allocator defines construct or destroy, each element's life begins and ends with a matching call of them, for trivial element types as well.",
  ["histories", "configurations"], "all histories, allocators with and without construct/destroy, stateful and stateless",
  "The test allocators forward to malloc/free, ignore counts, accept null and always compare equal.",
  [("allocation wrappers", S + " allocate_segment, allocate_node, deallocate_*"), ("teardown", S + " purge_root, purge_node, purge_segment"),
   ("choice of the byte-copy path", S + " is_alloc_move_construct_default, is_alloc_destroy_default")],
  observe=["calls received by an instrumented allocator"])

p("C10", "Copy, move, assignment and swap transfer values and allocators as specified",
  "Copies are equal and independent of their source, moves give the destination the source's value and (where storage is taken over) leave the source empty and reusable, assignment replaces the old value completely, and swap exchanges values; self-copy-assignment changes nothing and self-move-assignment leaves a valid sequence. Which allocator each sequence uses afterwards follows allocator_traits (select_on_container_copy_construction and the three propagate traits), also when the allocators compare unequal, and storage never changes hands between unequal allocators.",
  ["inputs", "configurations", "histories"], "all pairs of source and destination sizes, all combinations of propagation traits and allocator equality, followed by further use of both",
  "The tests transfer five elements between sequences whose allocators are always equal and never propagate.",
  [("assignment dispatch", S + " copy_assign_alloc, move_assign, move_assign_alloc"), ("storage takeover", S + " steal, seq(seq&&), seq(seq&&, alloc)"), ("swap", S + " swap, swap_allocator")],
  observe=["contents and get_allocator()/get_stored_allocator() of both sequences", "allocator call log"])

p("C11", "Single insertion, push and resize(n) are all-or-nothing when something throws",
  "If an allocation, or the construction or copying of the inserted element, throws inside insert, emplace, push_back/front, emplace_back/front of one element or resize(count), the sequence has exactly its previous elements and structure is intact: nothing is leaked, every later operation works, and retrying succeeds. An element passed as an rvalue to insert or push keeps its value when the call throws.",
  ["fault_sequences", "histories", "inputs"], "every throw point of every single-element operation, at every tree shape, for element types whose moves do not throw; also repeated failures before success",
  "One retry test lets a fixed pseudo-random eighth of the calls fail on integers with lvalue insert only and looks at a checksum at the end; leaks, other operations and rvalues are not observed.",
  [("allocate everything before touching the tree", S + " insert_single_segment, alloc_nodes_single"), ("rollback of partial allocations", S + " alloc_nodes_single catch"),
   ("rollback of resize", S + " resize_count"), ("return of the rvalue", S + " move_single")],
  observe=["contents before and after the failed call", "live blocks and live elements"])

p("C12", "Bulk operations and constructors that throw leave valid, leak-free sequences",
  "If an allocation, element operation, source iterator, predicate or comparator throws inside a constructor, copy or move with another allocator, assign, counted or range insert, range erase, resize(n, value), splice, merge, sort, unique, remove(_if) or reverse, no element or memory is leaked or destroyed twice, a failed constructor leaves nothing behind, and every sequence involved is a consistent sequence of live elements that can be used, assigned, cleared and destroyed. The source of a failed copy, and the elements outside the range being inserted, keep their values and order.",
  ["fault_sequences", "inputs"], "every throw point of every bulk operation for element types whose moves do not throw",
  "No test makes a bulk operation or constructor fail.",
  [("delegating constructors run the destructor on failure", S + " constructors"), ("per-element insertion keeps the tree consistent at every step", S + " emplace_range, emplace_count, erase_range"),
   ("algorithms over iterators", S + " sort, merge, unique, remove_if")],
  observe=["contents, live blocks and live elements after each injected failure"])

p("C13", "A throwing element move or copy during relocation never corrupts the sequence",
  "If the element type's own move (or copy, for types without a move, or the allocator's construct) throws while elements are being shifted or relocated inside insert, emplace, push, erase or pop, the basic guarantee still holds: no element is leaked or destroyed twice, no memory is leaked, size() equals the number of live elements, and the sequence can be traversed, modified, cleared and destroyed.",
  ["fault_sequences", "inputs"], "every relocation performed by single-element operations, at every tree shape, failing once",
  "The test allocator deliberately exempts moves from failing, and no test element type has a throwing move.",
  [("shift within a segment", S + " assign_forward_segment, assign_backward_segment"), ("relocation on split and merge", S + " construct_range_segment, insert_single_segment, erase_single_segment")],
  observe=["registry of live elements", "allocator log", "traversal after the failure"])

p("C14", "Swap and takeover keep every iterator and reference on its element",
  "swap, move construction and move assignment between equal (or propagating) allocators perform no element operation and no allocation, and every iterator, pointer and reference into the source keeps designating the same element, now in the destination, and remains fully usable there: stepping, jumping, index_of, and as a position for insert and erase. Reading operations, writes through references, sort and reverse invalidate nothing.",
  ["histories", "inputs"], "all iterators of sequences of every height, alternating swaps and moves with modification through the carried-over iterators",
  "The tests compare contents after a swap or move of five elements; no iterator taken before is used after.",
  [("pointer exchange", S + " swap, steal, seq(seq&&)"), ("iterators refer to nodes, not to the container", S + " iterator_data")],
  observe=["iterators taken before, used after", "element and allocator event counts"])

p("C15", "sort, merge, unique, remove, reverse and splice behave as for std::list",
  "sort() is a stable sort for every strict weak order, merge() stably merges two sorted sequences (elements of *this first among equals) and empties the other, unique() keeps the first of each run of equivalents, remove/remove_if delete exactly the matching elements, reverse() reverses, and splice (whole, one element, range) moves exactly the named elements to the position and removes them from the source, which for one element or a range may be the same sequence; merging a sequence into itself changes nothing. sort and reverse leave iterators where they are, on the new order; remove_if asks its predicate once about each element, unique once about each but the first. The other elements keep their relative order, and no element is lost or duplicated.",
  ["inputs"], "all contents with arbitrarily many duplicates, all sizes and heights, orders, predicates and positions, including empty operands",
  "Each operation is run once on about ten elements that fit in one segment, without equal-but-distinguishable elements.",
  [("std algorithms over the iterators", S + " sort, merge, unique, remove, remove_if, reverse"), ("transfer by move then erase", S + " splice overloads")],
  observe=["contents with identity-carrying elements"])

p("C16", "Comparison operators are the lexicographic order on contents",
  "==, !=, <, <=, >, >= between two sequences depend only on their elements and agree with std::vector's comparison of the same elements, so they are mutually consistent and independent of how each tree came to its shape.",
  ["inputs", "histories"], "all pairs of contents (equal, prefix, first difference at any position, empty), built by different histories",
  "No test uses any comparison operator.",
  [("element-wise comparison", S + " operator==, operator< and the derived operators")],
  observe=["results of the six operators"])

p("C17", "Arguments may refer to elements of the sequence itself",
  "insert, emplace and push of one value, counted insert, resize(n, value) and remove(value) use the value their argument had at the call, even when it is a reference to an element of the same sequence that the operation shifts, relocates or overwrites.",
  ["inputs"], "all positions of the referenced element relative to the insertion point and to segment and node boundaries, all counts",
  "No test passes a reference into the container; counted insert, resize and remove were wrong in the original tree.",
  [("value materialised before the tree is changed", S + " emplace_single, move_single, insert(pos, count, value), remove")],
  observe=["contents after the call"])

p("C18", "Behaviour does not depend on node sizes, element size or alignment",
  "For every choice of segment_target and base_target (from 0 to sizes whose nodes hold more than 65536 entries), every element size and alignment, any number of elements (also past 2^32), and every size_type the allocator defines, the same history of calls gives the same contents, results and iterator behaviour; only the shape of the tree differs.",
  ["configurations", "histories"], "all template parameter values, element sizes from 1 byte to larger than a segment, over-aligned elements, narrow size types",
  "The suite is compiled for segment_target 0 and 512 with the default base_target and 8-byte elements (and std::string).",
  [("capacities computed from the targets", S + " segment_max, base_max, segment_min, base_min"), ("16-bit child counts", S + " node::length_, node::parent_index_")],
  observe=["same observations across configurations"])

p("C19", "No undefined behaviour or invalid memory access in any valid use",
  "No valid sequence of calls makes the library read or write outside live allocations, use freed or uninitialised memory, leak, overlap a memcpy, misalign an access, overflow a signed integer or otherwise invoke undefined behaviour detectable at run time.",
  ["histories", "inputs", "configurations"], "all valid histories, element types, allocators and node sizes",
  "The stable tests are built without sanitizers and compare contents only.",
  [("raw storage handling", S + " construct_*, assign_*, move_*, memcpy/memmove paths"), ("pointer walks", S + " find_*, move_*")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, MemorySanitizer, valgrind memcheck", "libstdc++ assertions"])

p("C20", "Concurrent readers, and independent sequences in different threads, do not race",
  "Any number of threads may read one sequence at the same time (const members, and the non-const accessors begin, end, nth, at, operator[], front, back) and write to distinct elements of it, and different sequences, including ones swapped, moved or copied from each other earlier, may be used in different threads, all without external locking: no data race and no wrong value occurs.",
  ["schedules", "inputs"], "all thread interleavings of reads, of writes to distinct elements, and of modifications of distinct sequences",
  "The whole suite is single-threaded.",
  [("lookups and iteration keep no hidden state", S + " const members, iterator_t"), ("no state shared between sequences", S + " seq private data")],
  observe=["ThreadSanitizer", "values read by each thread"])

p("C21", "Elements are moved where moving suffices and copied exactly when asked",
  "Inserting by lvalue copies each inserted element once (at most one further copy per call), and inserting by rvalue, emplacing, erasing, popping, splicing, merging, sorting, reversing, unique, remove, swap and moves copy nothing. Hence all of these work for element types that cannot be copied, and default construction happens only in the default-constructing operations.",
  ["inputs", "histories"], "all operations and positions, for move-only, copy-counting and non-default-constructible element types",
  "No test uses a move-only type or counts copies; splicing one element copied it in the original tree.",
  [("forwarding", S + " emplace_single, move_single"), ("relocation by move", S + " construct_range_segment, assign_*"), ("transfer", S + " splice overloads")],
  observe=["copy, move and default construction counts of instrumented elements"])

p("C22", "Allocators with class-type pointers are fully supported",
  "With an allocator whose pointer types are classes (offset pointers, checked pointers), every operation behaves as with raw pointers, and each pointer the library dereferences lies inside a block that this allocator handed out and has not taken back. Every pointer object the library stores is constructed and destroyed exactly once.",
  ["configurations", "histories"], "all operations and histories over offset pointers and over pointers that check every access against the allocator's live blocks",
  "Every test allocator uses raw pointers.",
  [("pointer types taken from the allocator", S + " static_traits_t node_pointer/element_pointer/void_pointer, cast_segment, cast_node")],
  observe=["each access through an instrumented pointer class"])

p("C23", "Range inputs are consumed in one pass, in order, each element exactly once",
  "Construction, assign and insert from an iterator pair accept any input iterator (single-pass, forward, pointer, move, proxy-returning) and initializer lists, dereference each source position exactly once in order, read nothing at or beyond last, and insert equal elements in that order; integers are never mistaken for iterators.",
  ["inputs"], "all iterator categories and lengths, including empty ranges, at every position and destination shape",
  "The tests only pass pointers from initializer lists or one long vector.",
  [("single-pass loops", S + " emplace_range, assign_range"), ("overload selection by iterator_traits", S + " constructor, assign, insert templates")],
  observe=["accesses made to an instrumented source", "contents"])

p("C24", "Workload generators, benchmarks and the documented example work and cross-check",
  "For any count and size of at least one and any seed the generators produce index lists valid for replay and a checksum that every benchmark program over seq, std::vector and std::deque accepts (and a wrong checksum is refused), the benchmarks then report each named measurement once and exit successfully, and the random bounded generator stays in range without bias; the traversal sums add up every element, or every distance-th element of each whole stride, from the front or the back. The header compiles on its own as documented and the documented example prints the index and removes the element.",
  ["inputs"], "all counts, sizes, seeds and both element widths",
  "The suite replays four fixed data sets and never runs a generator, a benchmark or the documented example.",
  [("data generation", "common/single.hpp, common/range.hpp, common/common.hpp bounded_rand, make_checksum_unsigned"), ("self-verification", "bench/common.hpp verify, bench/single.hpp, bench/range.hpp"), ("self-contained header", S + " includes")],
  files=(S, "common/common.hpp", "common/single.hpp", "common/range.hpp", "common/iterator.hpp", "bench/common.hpp", "bench/single.hpp", "bench/range.hpp", "doc/segmented_tree.qbk"),
  observe=["exit status and output of the programs"])

p("C25", "What is documented not to throw never throws, even when nothing can be had",
  "Accessors, iterators and their segment functions, swap, move construction, move assignment (allocators equal or propagating), clear() and destruction neither throw nor allocate nor copy an element, for any state and history, even while every allocation and element copy fails; and erase, pop, shrinking resize, remove_if, unique and reverse need no memory, so they succeed then too if element moves do not throw. The functions documented as no-throw are noexcept (move assignment and default construction as their allocator allows), so that containers of sequences grow by moving them.",
  ["faults", "inputs"], "all shapes and states, all propagation policies, equal and unequal allocators, with every later allocation and element copy failing",
  "No test makes an allocation fail or reads a noexcept.",
  [("noexcept specifications", S + " seq(), seq(seq&&), operator=(seq&&), swap, clear, begin .. max_size"), ("allocation-free removal", S + " erase_single, erase_range, purge, remove_if, unique"), ("documentation", S + " Exception safety: No-throw")],
  observe=["noexcept operator", "exceptions, allocations and element operations during each call", "addresses of elements"])

p("C26", "Every compiler, standard and build mode gives the same, complete sequence",
  "From C++11 to C++23, with gcc and clang, at every optimisation level and in one or several translation units, seq has the member types, conversions, iterator traits and (in C++20) concepts of a random-access sequence, works with the standard algorithms, adaptors and range-for, and the same calls give the same results, heights and segment lengths. It accepts minimal C++11 allocators, scoped allocators and polymorphic allocators, each element keeping the allocator the sequence constructed it with through every later operation.",
  ["configurations", "histories"], "all compilers, standards, levels, element types and kinds of allocator; all histories",
  "The tests are built once, with one compiler, standard and level, over one allocator.",
  [("member types", S + " seq public aliases, iterator_t aliases"), ("allocator-aware construction", S + " alloc_construct, insert paths"), ("header-only", "doc/segmented_tree.qbk: header only C++11 library")],
  observe=["exit status and digests of the programs", "allocators of elements"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]), x["title"])
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
