import json
P=[]
I="include/cpp-sort/"
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],state=state or [],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=obs,hook_needed=None)))
p("C01","Every comparison sorter sorts and permutes its input",
 "After a comparison sorter has run on a range with any strict weak ordering and projection, every element is not less than its predecessor and the range is a permutation of what it was. This holds for every sorter of the library, for every iterator category the sorter advertises, for every input and every size.",
 ["inputs","configurations"],"all key sequences (including duplicates, pre-sorted pieces and adversarial layouts), all sizes, every sorter x iterator category x comparator/projection combination",
 "The suite runs each sorter on a few seeded distributions of mostly distinct integers at a handful of sizes; a merge, gallop, partition or buffer path wrong only for one order type, one tie pattern or one size passes.",
 ["sorters","detail/pdqsort.h","detail/grail_sort.h","detail/wiki_sort.h","detail/timsort.h","detail/spinsort.h","detail/merge_sort.h","detail/quick_merge_sort.h","detail/slabsort.h","detail/poplar_sort.h","detail/smoothsort.h"],
 [("merging with and without buffers","detail/buffered_inplace_merge.h"),("selection and partition","detail/introselect.h"),("heap shapes","detail/poplar_sort.h"),("run stack and galloping","detail/timsort.h")],
 ["the range after sorter(first, last, comp, proj)"])
p("C02","Sorters and adapters that claim stability keep equivalent elements in order",
 "Every sorter or adapter whose documentation or is_stable trait says it is stable for a given call leaves elements that compare equivalent in their original relative order. make_stable, stable_adapter, stable_t and stable_sort are stable for every sorter they wrap.",
 ["inputs","configurations"],"all inputs with equivalent elements, all sizes, every sorter and adapter stack for which is_stable is true, every iterator category",
 "Tests check stability on a few fixed shuffles with fixed duplicate density; a one-sided error on ties (< instead of <=, bisecting on the wrong side, a reversed run with equal elements) needs one specific tie pattern at one specific position.",
 ["adapters/stable_adapter.h","sorters","detail/timsort.h","detail/grail_sort.h","detail/wiki_sort.h","detail/vergesort.h","detail/spinsort.h"],
 [("stable_compare on original positions","adapters/stable_adapter.h"),("is_stable","sorter_traits.h"),("left/right bisection and merging","detail/buffered_inplace_merge.h")],
 ["original positions of equivalent elements after the call"])
p("C03","Sorting is memory safe, leak-free and never uses a moved-from element",
 "No sorter, adapter, probe or utility reads or writes outside the given range and its own storage, reads uninitialised or destroyed objects, compares, projects or moves from a moved-from element, self-move-assigns an element, triggers undefined behaviour, or loses memory. After the call every element of the range is alive and everything allocated has been released.",
 ["inputs","configurations"],"all inputs and sizes, for element types that are trivial, non-trivial, and move-only",
 "Sanitizer runs and the move-only test type only see the executed inputs; an off-by-one in an unguarded insertion or partition needs the extreme element in one particular place.",
 ["detail/insertion_sort.h","detail/pdqsort.h","detail/immovable_vector.h","detail/memory.h","detail/fixed_size_list.h","detail/merge_move.h","detail/indiesort.h"],
 [("unguarded scans with sentinels","detail/pdqsort.h"),("raw buffers and destroy guards","detail/memory.h"),("node pools","detail/fixed_size_list.h")],
 ["every load, store, allocation, construction and destruction performed"])
p("C04","A throwing comparison, projection or move never leaks or corrupts",
 "If a comparison, projection or element move throws at any point, the exception reaches the caller unchanged, no memory or element is leaked or destroyed twice, and every slot of the range still holds a live object that can be destroyed or assigned. The indirect adapter additionally leaves the collection untouched when a comparison or projection throws.",
 ["inputs","crash_points"],"every input and every point at which a user-supplied operation may throw",
 "The suite throws at a few fixed or random points in a few sorters; the number of (input, throw point) pairs is the product of both and the guards protect different windows of an algorithm.",
 ["detail/memory.h","detail/scope_exit.h","detail/immovable_vector.h","detail/fixed_size_list.h","detail/indiesort.h","adapters/indirect_adapter.h","adapters/schwartz_adapter.h","detail/merge_move.h"],
 [("destroy_n / unique_ptr guards","detail/memory.h"),("scope_exit","detail/scope_exit.h"),("partial construction clean-up","detail/immovable_vector.h")],
 ["the caller's catch handler; allocation and lifetime ledgers; the range after the throw"])
p("C05","Allocation failure is survived with a correct result or reported as bad_alloc",
 "When memory is exhausted at any allocation, sorters and probes documented to tolerate it still produce the correct result, and all others propagate std::bad_alloc. In both cases nothing leaks, every slot of the range still holds a live object, and no invalid access happens.",
 ["inputs","fault_sequences"],"every input and every allocation of the call failing, once or from then on",
 "Tests make all allocations fail from the start for a handful of sorters and inputs; failing at the k-th allocation (a second, smaller buffer request, a node pool) is never tried.",
 ["detail/memory.h","detail/merge_sort.h","detail/buffered_inplace_merge.h","detail/stable_partition.h","detail/inplace_merge.h","detail/quick_merge_sort.h","detail/fixed_size_list.h","probes"],
 [("get_temporary_buffer shrinking and bufferless fallbacks","detail/memory.h"),("temporary buffers of merges","detail/buffered_inplace_merge.h")],
 ["result of the call under an allocation-failure schedule"])
p("C06","Fixed-size sorters sort every array of their size",
 "For every size N in its domain, each fixed-size sorter (sorting network, merge-exchange network, odd-even merge network, low-comparison and low-move sorters, and the small-array adapter dispatching to them) sorts every array of N elements and returns a permutation of it, for every comparator and projection.",
 ["inputs","configurations"],"all 2^N 0-1 inputs for every network size up to 64 (which by the 0-1 principle covers all inputs), all order types for the comparison-tree sorters",
 "A missing or misrouted comparator in a 64-input network is exercised by a vanishing share of the few thousand shuffles the suite tries.",
 ["fixed/sorting_network_sorter.h","fixed/merge_exchange_network_sorter.h","fixed/odd_even_merge_network_sorter.h","fixed/low_comparisons_sorter.h","fixed/low_moves_sorter.h","detail/sorting_network","detail/low_comparisons","detail/low_moves","adapters/small_array_adapter.h"],
 [("compare-exchange sequences","detail/sorting_network/sort64.h"),("front insertion trees","detail/low_comparisons/sort9.h")],
 ["the array after the call"])
p("C07","Fixed-size sorters keep their documented operation counts",
 "A sorting-network sorter of size N performs exactly its documented number of compare-exchanges, at positions that do not depend on the data, and the index pairs it publishes are valid, ordered, in the documented number, and sort when applied. Over all orders of their size, low-comparison sorters spend no more comparisons, and low-move sorters no more moves, in total than documented.",
 ["inputs","configurations"],"all inputs for every documented size",
 "The documented totals sum over every order of the size; tests only check sums over permutations for small sizes and constants for the pairs.",
 ["fixed","detail/sorting_network","detail/low_comparisons","detail/low_moves","utility/sorting_networks.h"],
 [("index_pairs()","fixed/sorting_network_sorter.h"),("swap_index_pairs","utility/sorting_networks.h")],
 ["comparator and move counts of a call; index_pairs()"])
p("C08","Each measure of presortedness equals its mathematical definition",
 "For every sequence and strict weak ordering, every probe returns exactly the value of the definition its documentation gives (inversions, runs, longest non-decreasing subsequence complement, displacement, oscillation, cycles and so on).",
 ["inputs"],"all sequences, including those with equivalent elements, all sizes within the bound, both iterator categories' algorithms",
 "The suite checks a few hand-computed sequences per probe, nearly all without ties; the fast algorithms differ from the definition only on specific tie or run patterns.",
 ["probes","detail/count_inversions.h","detail/longest_non_descending_subsequence.h","detail/cartesian_tree_sort.h","detail/is_p_sorted.h"],
 [("probe algorithms","probes/osc.h")],["probe(range, comp, proj)"])
p("C09","Probes obey the laws of a measure of presortedness",
 "Every probe returns 0 on a sorted sequence, never exceeds the maximum it publishes for the size and reaches it for some sequence, does not depend on the container or iterator category nor on order-preserving relabelling, and leaves the sequence as it was.",
 ["inputs","configurations"],"all sequences of every size within the bound, for forward, bidirectional and random-access iterators",
 "The maximum is a universally quantified bound; tests check it on one reversed or hand-made sequence and on fixed sizes.",
 ["probes"],[("max_for_size","probes/inv.h")],["probe(range), probe.max_for_size(n), the range afterwards"])
p("C10","Type-specific sorters order every value of their type",
 "The counting, ska and spread sorters order every range of the integer, floating-point, string, pair/tuple and projected types they accept, for the ascending and (where supported) descending comparators, and keep exactly the same multiset of values.",
 ["inputs","configurations"],"all values of the key type (extreme integers, signed zeros, infinities, prefixes, embedded zero and high bytes) in all arrangements within the bound",
 "Tests use random values of moderate range; sign handling, highest and lowest radix digits, common-prefix skipping and range-width arithmetic break only at specific bit patterns.",
 ["sorters/counting_sorter.h","sorters/ska_sorter.h","sorters/spread_sorter","detail/counting_sort.h","detail/ska_sort.h","detail/spreadsort"],
 [("to_unsigned_or_bool and digit extraction","detail/ska_sort.h"),("float casting","detail/spreadsort/detail/float_sort.h"),("histogram","detail/counting_sort.h")],
 ["the range after the call"])
p("C11","Total, weak and partial orders satisfy their axioms on all numeric values",
 "total_less/total_greater order floating-point numbers as IEEE 754 totalOrder does (negative NaNs, -inf, negative numbers, -0, +0, positive numbers, +inf, positive NaNs), NaNs of the same sign being equivalent as the library documents; weak_less/weak_greater likewise with all zeros equivalent; partial_less/partial_greater agree with the built-in operators. greater is always less with its arguments exchanged. For integers all agree with the built-in order, and each order falls back to the stronger one a user type provides.",
 ["inputs"],"all pairs of float/double/integer bit patterns",
 "2^64 pairs (2^96 triples) of float patterns; tests try a dozen special values.",
 ["comparators/total_less.h","comparators/weak_less.h","comparators/partial_less.h","comparators/total_greater.h","comparators/weak_greater.h","comparators/partial_greater.h","detail/floating_point_weight.h"],
 [("NaN weighting and sign-bit handling","detail/floating_point_weight.h")],["comp(a, b)"])
p("C12","Natural and case-insensitive string orders are the documented weak orders",
 "natural_less orders strings comparing maximal digit runs by numeric value and other characters by value, and case_insensitive_less compares character-wise after case folding; both are irreflexive, asymmetric, transitive with transitive equivalence, and the refined forms agree with the generic ones.",
 ["inputs"],"all pairs and triples of strings within the length bound",
 "Order axioms quantify over triples; tests sort one fixed list of strings.",
 ["comparators/natural_less.h","comparators/case_insensitive_less.h"],
 [("digit-run comparison","comparators/natural_less.h"),("refined facet comparison","comparators/case_insensitive_less.h")],["comp(a, b) on strings"])
p("C13","Comparator and projection adapters mean what they say",
 "flip, not_fn and projection_compare yield comparators equal to swapping, negating, and comparing projections; flipping or negating twice gives back the original; as_function, as_comparison, as_projection, identity, indirect and the pipe operator compose projections left to right, whatever kind of callable they wrap and whatever the value category they are called with; half halves.",
 ["inputs","configurations"],"all argument values, for built-in, refined and user comparators and chains of projections",
 "Tests evaluate each adapter on one or two argument pairs.",
 ["comparators/flip.h","comparators/not_fn.h","comparators/projection_compare.h","utility/functional.h","utility/as_function.h"],
 [("special-cased flip/not_fn combinations","comparators/not_fn.h"),("projection pipe","utility/functional.h")],["the adapted callables' results"])
p("C14","Sorter adapters keep their specific promises",
 "The schwartz adapter projects each element exactly once, the indirect adapter sorts with at most 3n/2 element moves beyond buffers, the out-of-place, drop-merge, split, verge, self-sort, small-array and hybrid adapters sort any collection and use the sorter documented for the given iterators or type, and the counting adapter returns exactly the number of comparisons made. Whatever the adapted sorter returns is forwarded where documented.",
 ["inputs","configurations"],"all inputs, adapter stacks and iterator categories",
 "Tests check one input per promise; the move bound and the exact counts are worst-case statements.",
 ["adapters","detail/indiesort.h","detail/drop_merge_sort.h","detail/split_sort.h","detail/vergesort.h"],
 [("associate iterators","detail/associate_iterator.h"),("cycle-following moves","detail/indiesort.h"),("iterator-category ranking","adapters/hybrid_adapter.h")],
 ["operation counts, result values and the collection after the call"])
p("C15","Container-aware sorting relinks nodes and never touches elements",
 "For std::list and std::forward_list, the container-aware insertion, selection, merge and mel sorters leave a well-formed list with the same nodes, sorted, without copying or moving any element, and stably where the sorter is stable; iterators stay valid, nodes come from and go back to the list's own allocator, and a throwing comparison leaks nothing and leaves a well-formed list.",
 ["inputs","crash_points"],"all element sequences within the bound, for list and forward_list, and every point where a comparison may throw",
 "Tests sort one shuffled list per sorter and do not look at node identity, link integrity or exceptions.",
 ["adapters/container_aware_adapter.h","detail/container_aware"],
 [("splicing","detail/container_aware/mel_sort.h")],["node addresses, links and order after the call"])
p("C16","Metrics report exactly the work done",
 "The comparisons, projections and moves metrics return exactly the number of the corresponding operations the wrapped sorter performed, on the sorted result, the running_time metric the time the clock advanced during the sort, and metric values compare, assign and convert as the value they hold.",
 ["inputs","configurations"],"all inputs, sorters and iterator kinds",
 "Tests compare one known constant per metric; a miscount that depends on the path taken by the sorter is not visible.",
 ["metrics","metrics/comparisons.h","metrics/moves.h","metrics/projections.h","utility/metrics_tools.h"],
 [("counting wrappers","metrics/comparisons.h"),("element wrapper counting moves","metrics/moves.h")],["metric values vs. an independent count"])
p("C17","Sorted views and apply_permutation describe and apply the sorting permutation",
 "sorted_indices and sorted_iterators leave the collection untouched and return every index or iterator exactly once in sorted order, apply_permutation reorders a collection as the index sequence says, and together they sort (stably when built from a stable sorter).",
 ["inputs"],"all sequences and all permutations within the bound",
 "Tests use one shuffle each; a cycle-walking error shows only for particular cycle structures.",
 ["utility/sorted_indices.h","utility/sorted_iterators.h","utility/apply_permutation.h"],
 [("cycle walking","utility/apply_permutation.h")],["returned sequences and the collection afterwards"])
p("C18","All ways of calling a sorter are equivalent and deterministic",
 "Calling a sorter with a range or an iterator pair, with or without default comparator and projection, through a projection or the equivalent comparator, through sorter_facade-converted function pointers, or through cpp_sort::sort and stable_sort gives the same resulting sequence; repeating a call on the same input gives the same result.",
 ["inputs","configurations"],"all inputs; all overloads of the unified interface",
 "The overload sets are tested for compilation and one input; that overloads differ for some input is not.",
 ["sorter_facade.h","sort.h","stable_sort.h","refined.h","utility/as_function.h"],
 [("overload dispatch","sorter_facade.h")],["resulting sequences of the different calls"])
p("C19","Operations, memory and recursion stay within the documented complexity",
 "On every input the comparisons, element moves and iterator steps of a call to a sorter (also wrapped in an adapter, with forward, bidirectional or random-access iterators), a measure of presortedness or a container-aware list sorter stay within the documented worst-case class, and adaptive ones documented to be linear on sorted, reverse-sorted, all-equal, few-runs or nearly sorted inputs are; the quick sorters' worst case stays O(n log n) where documented, whatever the pivots; memory and recursion stay within the documented class, also when no memory can be allocated for those documented to fall back; merge_insertion_sorter performs no more comparisons than the Ford-Johnson algorithm.",
 ["inputs"],"all order types of the bounded input families, including adversarial ones at sizes past every threshold",
 "Complexity is a statement about the worst input; tests never count operations.",
 ["sorters","adapters","probes","detail/container_aware","detail/pdqsort.h","detail/introselect.h","detail/quicksort.h","detail/timsort.h","detail/smoothsort.h","detail/vergesort.h","detail/merge_insertion_sort.h"],
 [("bad-partition fallbacks","detail/pdqsort.h"),("median of medians fallback","detail/introselect.h"),("run detection","detail/vergesort.h"),("insertion order of pend elements","detail/merge_insertion_sort.h")],["number of comparisons, moves, iterator steps, bytes allocated and nested calls per call"])
p("C20","Buffer providers and customised moves and swaps are honoured",
 "Grail and wiki sorts give a correct, stable result whatever buffer provider is used (none, fixed of any size, dynamic) and never write outside the buffer; user-provided iter_move and iter_swap are used whenever elements are moved through an iterator that customises them, by every sorter, fixed-size sorter and sorter adapter but the ones documented not to (std_sorter, std_stable_sorter), and proxy iterators are sorted correctly.",
 ["inputs","configurations"],"all inputs; buffer sizes from 0 to beyond the range size; proxy iterators with customised moves",
 "Tests use one or two fixed buffer sizes and one proxy-like iterator.",
 ["utility/buffer.h","utility/iter_move.h","detail/grail_sort.h","detail/wiki_sort.h"],
 [("fixed and dynamic buffers","utility/buffer.h"),("iter_move dispatch","utility/iter_move.h")],["range and buffer after the call; calls to the customised functions"])
p("C21","Index-pair and sized-range helpers do exactly what they document",
 "swap_index_pairs and swap_index_pairs_force_unroll apply the given compare-exchanges in order and nothing else, for any comparator and projection; size, iter_move and iter_swap return the documented values and have the documented effects for every range and iterator, adaptors included.",
 ["inputs","configurations"],"all values and all index-pair sequences within the bound; all element values",
 "One fixed sequence is tested.",
 ["utility/sorting_networks.h","utility/size.h","utility/iter_move.h"],
 [("swap_index_pairs","utility/sorting_networks.h")],["results of the helpers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
import os
for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],'missing',f)
    for m in x['anchors']['mechanism']:
        if not os.path.exists('/repo/'+m['where']): print(x['id'],'missing',m['where'])
