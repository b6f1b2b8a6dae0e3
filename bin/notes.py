COMMON = ("Bounded: holds for every value of the symbolic inputs within the bounds the evidence file lists; larger sizes and other key patterns are outside. "
          "Trusted: clang 18's translation to LLVM IR (-O2), the engine in /verif/engine (sampled paths are re-run natively on every run and compared), Z3 and MiniSat.")
NA = {}
NOTE = {
"C01": "Every sorter's real code on all inputs up to 6 (7) elements and on block-symbolic inputs reaching the deep code of every algorithm.",
"C02": "Same inputs as C01 for the stable sorters and adapters; the verdict is on positions of equal keys.",
"C03": "Lifecycle-tracked elements plus the engine's byte-precise memory model (bounds, use after free, uninitialised decisions, leaks).",
"C04": "The number of the throwing operation is symbolic, so every throw point of every explored path is decided.",
"C05": "The number of the failing allocation is symbolic, alone or with every later one failing too.",
"C06": "All networks for sizes 0 to 64 on all 0-1 inputs (0-1 principle, with solver-proved lemmas along the network); comparison-tree sorters on all keys.",
"C07": "Counts are taken on every path and their totals over all order types are compared with the documented ones; index pairs are decided through the 0-1 principle.",
"C08": "Each probe against a direct definition of its measure; exc with ties is compared with the exact minimum up to 4 elements (13 order types are known findings: the probe is not minimal there) and with bounds beyond.",
"C09": "Maximum, attainment, zero on sorted input, independence of the representation; Mannila's axioms 3 to 5 only for the measures that satisfy them by definition (dis, inv, max, rem, runs, sus).",
"C10": "Keys free in all bits for tiny sizes; around the size thresholds of the radix code 1 or 2 keys (or characters) are free in bit patterns chosen to reach every radix pass.",
"C11": "All bit patterns of pairs of float and double and all pairs of integers against an order computed from the bits; long double is not encoded.",
"C12": "natural_less against a definition over tokens, and its axioms on triples; case_insensitive_less for a character type of 4 values with every folding table (std::use_facet is specialised, the locale object is modelled).",
"C13": "Comparators are arbitrary relations and projections arbitrary maps on 3 values: an adapter that is right for all of them is right by parametricity.",
"C14": "Adapters around reference sorters that record how they were called, and around real sorters; a documented call that no longer compiles is reported too.",
"C15": "Node addresses, links, allocator identity and element operations are tracked; the number of the throwing comparison is symbolic.",
"C16": "The number returned against independent counts of the same run and of a direct run of the sorter; the clock is replaced by one that advances with the operations counted.",
"C17": "Element addresses, tags and operation counts show that the collection is untouched; every permutation of up to 6 (7) elements for apply_permutation.",
"C18": "Every call form of every sorter on one input, in one query: the sequences of results (keys and order of equal elements) must be identical; sorter_facade on 13 minimal implementations with all 24 groups of functions.",
"C19": "The operations are counted by the comparator, element and iterator types of the harness inside the symbolic run, so each bound is an assertion decided for all order types of the family; the adversary (McIlroy) fixes keys only when they are compared, with up to 3 of its choices symbolic. Bounds are the documented class with factors calibrated at about twice the observed worst.",
 "C20": "Iterators whose iter_move, iter_swap and raw dereference are told apart; proxy iterators (vector<bool>-like, with temporaries that die) for every sorter; buffers of every provider with every size, writes outside them seen by the byte-precise memory model.",
"C21": "Every index-pair sequence (the indices are symbolic) and all values of the element types; size, iter_swap and iter_move dispatch for every combination of members, hidden friends and adaptors. make_integer_range is a compile-time sequence and left to the compiler.",
}
