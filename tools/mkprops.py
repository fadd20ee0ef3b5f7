#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the catalogue is kept here in readable form)."""
import json, os
I = 'include/cpp-sort/'
D = I + 'detail/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop('C01', 'Comparison sorters produce a sorted permutation of their input',
 "For every collection, every strict weak order and every projection, each comparison sorter of the library leaves the collection "
 "holding exactly the elements it held before, rearranged so that no element's projection compares before the projection of an element placed earlier. "
 "This holds for every collection size and for every iterator category the sorter accepts.",
 ['inputs', 'configurations'], 'all sizes, all value sequences, all strict weak orders and projections, all accepted iterator categories, all sorters',
 'The tests sort a dozen distributions at a handful of fixed sizes with int-like values; most branches (fallbacks, small-size thresholds, gallop paths, run detection) are reached by few or no samples.',
 [D+'insertion_sort.h', D+'heapsort.h', D+'d_ary_heapsort.h', D+'merge_sort.h', D+'quicksort.h', D+'introselect.h', D+'selection_sort.h', D+'bubble_sort.h',
  D+'pdqsort.h', D+'timsort.h', D+'grail_sort.h', D+'wiki_sort.h', D+'smoothsort.h', D+'spinsort.h', D+'splaysort.h', D+'poplar_sort.h', D+'cartesian_tree_sort.h',
  D+'melsort.h', D+'slabsort.h', D+'merge_insertion_sort.h', D+'quick_merge_sort.h', D+'vergesort.h', D+'drop_merge_sort.h', I+'sorters/'],
 [('in-place algorithms', D+'*sort*.h'), ('merging primitives', D+'merge_move.h, inplace_merge.h, recmerge_*.h, buffered_inplace_merge.h, symmerge.h'),
  ('selection/partition primitives', D+'introselect.h, partition.h, adaptive_quickselect.h'), ('search primitives', D+'lower_bound.h, upper_bound.h, equal_range.h')],
 observe=['the collection after the sorter returns'])

prop('C02', 'Sorters and adapters reported stable keep equivalent elements in order',
 "Whenever the library reports a sorter as stable for the given arguments, or the sorter was obtained through a stability-making adapter or the stable sorting function, "
 "elements that compare equivalent appear after the sort in the same relative order as before it. "
 "This holds for every input, size, iterator category, comparison and projection.",
 ['inputs', 'configurations'], 'all inputs with equivalent elements, all sizes, all sorters reporting stability, all adapters that make sorters stable',
 'Stability tests use one collection shape per sorter; a wrong tie in a rarely taken merge/rotate/gallop path is not sampled.',
 [D+'insertion_sort.h', D+'merge_sort.h', D+'merge_move.h', D+'inplace_merge.h', D+'recmerge_bidirectional.h', D+'recmerge_forward.h', D+'buffered_inplace_merge.h', D+'symmerge.h',
  D+'timsort.h', D+'wiki_sort.h', D+'grail_sort.h', D+'splaysort.h', D+'bubble_sort.h', D+'stable_partition.h', I+'adapters/stable_adapter.h', I+'adapters/verge_adapter.h', I+'adapters/schwartz_adapter.h', I+'sorter_traits.h', I+'stable_sort.h'],
 [('is_stable / is_always_stable', I+'sorter_traits.h'), ('stable_compare wrapper', I+'adapters/stable_adapter.h'), ('stable merges', D+'merge_move.h, inplace_merge.h')],
 observe=['relative order of equivalent elements after the sort'])

prop('C03', 'Move discipline and memory safety of the sorting algorithms',
 "While sorting, the library only moves and swaps elements: every element the comparison or projection sees holds a value, no element that holds a value is moved onto itself by move assignment, no value is duplicated or dropped, "
 "and no position outside the given range is accessed. Every element constructed in auxiliary storage is destroyed exactly once, and move-only element types work with every sorter that documents it.",
 ['inputs', 'configurations'], 'all inputs, sizes and orders for every algorithm on random-access, bidirectional and forward ranges',
 'Existing tests use move_only and sanitizers on a few fixed distributions; an out-of-bounds probe or a read of a moved-from value in an unsampled path stays invisible, particularly when the stale value happens to be left intact.',
 [D+'insertion_sort.h', D+'heapsort.h', D+'d_ary_heapsort.h', D+'merge_move.h', D+'move.h', D+'memory.h', D+'rotate.h', D+'swap_ranges.h', D+'partition.h', D+'quicksort.h', D+'introselect.h', D+'selection_sort.h', D+'smoothsort.h', D+'pdqsort.h', D+'timsort.h', D+'fixed_size_list.h', D+'immovable_vector.h', I+'utility/iter_move.h'],
 [('iter_move / iter_swap', I+'utility/iter_move.h'), ('hole-based shifting loops', D+'insertion_sort.h, heapsort.h, smoothsort.h, d_ary_heapsort.h'), ('uninitialized moves and destruct', D+'memory.h, move.h')],
 observe=['element lifetime events', 'addresses accessed'])

prop('C04', 'Sorting networks sort every input with the documented comparator counts',
 "For every supported size, the fixed-size sorting network sorters (generic, odd-even merge and merge-exchange) sort every possible input of that size, use exactly the number of compare-exchanges documented for that size (and never a different number for the same size), "
 "and the list of index pairs they expose describes the same network and itself sorts every input, also when replayed through the public swap helpers.",
 ['inputs', 'configurations'], 'all inputs (all permutations and all orders with ties) for every network size from 0 to 64 and every size of the generated networks',
 'The tests sort one or a few shuffled arrays per size; a single wrong comparator in a 64-input network of 500+ comparators leaves almost every random input sorted.',
 [D+'sorting_network/', I+'fixed/sorting_network_sorter.h', I+'fixed/odd_even_merge_network_sorter.h', I+'fixed/merge_exchange_network_sorter.h', I+'utility/sorting_networks.h', D+'swap_if.h'],
 [('sorting_network_sorter_impl<N>', D+'sorting_network/sortN.h'), ('iter_swap_if / swap_if', D+'swap_if.h'), ('index_pairs, swap_index_pairs', I+'utility/sorting_networks.h')],
 observe=['array after the sort', 'number of comparisons', 'returned index pairs'])

prop('C05', 'Small fixed-size sorters sort every input of their size within documented cost',
 "The low-comparisons and low-moves fixed-size sorters sort every possible input of every size they support. "
 "Summed over all permutations of that size, the comparisons (respectively moves) they perform do not exceed the documented comparison weight (respectively move weight).",
 ['inputs', 'configurations'], 'all inputs for each supported size',
 'Tests check a sample of permutations per size and no cost; errors in one leaf of a decision tree are not sampled and cost regressions are not asserted.',
 [D+'low_comparisons/', D+'low_moves/', D+'front_insert.h', D+'front_inserter/', I+'fixed/low_comparisons_sorter.h', I+'fixed/low_moves_sorter.h'],
 [('low_comparisons_sorter_impl<N>', D+'low_comparisons/sortN.h'), ('low_moves_sorter_impl<N>', D+'low_moves/sortN.h'), ('front_insert', D+'front_inserter/')],
 observe=['array after the sort', 'number of comparisons and moves'])

prop('C06', 'Each measure of presortedness returns the value of its mathematical definition',
 "For every collection, comparison and projection, each measure of presortedness returns exactly the number its documented definition gives (for example the number of inversions, of descents, the minimal number of elements to remove to leave a sorted sequence). "
 "The result does not depend on the iterator category or on which internal strategy is selected, and a pair of equivalent elements is never counted as disordered.",
 ['inputs', 'configurations'], 'all collections with or without equivalent elements, all orders, all iterator categories',
 'The tests compare a few hand-computed collections per probe.',
 [I+'probes/', D+'count_inversions.h', D+'longest_non_descending_subsequence.h', D+'is_sorted_until.h', D+'is_p_sorted.h'],
 [('one function object per measure', I+'probes/*.h'), ('shared helpers', D+'count_inversions.h, longest_non_descending_subsequence.h, is_p_sorted.h')],
 observe=['value returned by the probe'])

prop('C07', 'Presortedness measures: read-only, zero on sorted input, within bounds',
 "Every measure of presortedness leaves the collection unchanged, returns 0 for every sorted collection (and for empty or one-element collections), and never returns more than the maximum it documents for collections of that size. "
 "For sizes of at least two elements, the documented maximum is attained by some collection of that size.",
 ['inputs', 'configurations'], 'all collections of all sizes for all probes',
 'Tests check 0-on-sorted and the maximum on one or two sizes only.',
 [I+'probes/'],
 [('max_for_size', I+'probes/*.h'), ('probe implementations', I+'probes/*.h')],
 observe=['value returned', 'collection after the call', 'max_for_size'])

prop('C08', 'Floating-point and generic order comparators satisfy their order axioms',
 "The total-order comparators are strict orders on every built-in floating-point value (including signed zeros, infinities and every NaN) that refine the natural order of the numbers, order the negative zero before the positive one, and place negative NaNs first and positive NaNs last; only values with the same representation, or NaNs of the same sign, are equivalent; the weak-order comparators are strict weak orders that identify exactly the equivalent values the documentation describes; the partial-order comparators agree with the built-in operators. "
 "The greater variants are exactly the less variants with swapped arguments, and all of them agree with the natural order on integers.",
 ['inputs'], 'all pairs and triples of floating-point and integer values of every built-in type',
 'Tests check a short list of values; axioms quantify over all triples of bit patterns.',
 [I+'comparators/total_less.h', I+'comparators/total_greater.h', I+'comparators/weak_less.h', I+'comparators/weak_greater.h', I+'comparators/partial_less.h', I+'comparators/partial_greater.h', D+'floating_point_weight.h', D+'three_way_compare.h'],
 [('per-type overloads', I+'comparators/*.h'), ('NaN weight', D+'floating_point_weight.h')],
 observe=['boolean result of the comparison'])

prop('C09', 'Text comparators are strict weak orders matching their documented meaning',
 "The case-insensitive comparator orders two character sequences exactly as comparing their lower-cased forms lexicographically would, and the natural-order comparator compares maximal digit groups by numeric value and other characters by code, as documented. "
 "Both are strict weak orders over all strings and never read outside the sequences they are given.",
 ['inputs'], 'all pairs and triples of strings, all iterator categories accepted',
 'Tests compare a few dozen words.',
 [I+'comparators/case_insensitive_less.h', I+'comparators/natural_less.h'],
 [('char-wise comparison', I+'comparators/case_insensitive_less.h'), ('digit-run comparison', I+'comparators/natural_less.h')],
 observe=['boolean result'])

prop('C10', 'Comparator and projection wrappers denote exactly the documented function',
 "Flipping a comparator yields the comparator with its arguments exchanged, negating yields its logical negation, combining a comparator with projections applies the matching projection to each argument before comparing, and applying any of these transformations a second time, where documented to unwrap, restores the original behaviour. "
 "Projection composition applies projections left to right, and the arguments are passed on with their value category and constness preserved.",
 ['inputs', 'configurations'], 'all comparators, projections and arguments, all nestings of the wrappers',
 'Tests instantiate a few combinations on a few integers.',
 [I+'comparators/flip.h', I+'comparators/not_fn.h', I+'comparators/projection_compare.h', I+'utility/functional.h', I+'utility/as_function.h'],
 [('flip_t / not_fn_t', I+'comparators/flip.h, not_fn.h'), ('projection_compare', I+'comparators/projection_compare.h'), ('as_function, operator| on projections', I+'utility/')],
 observe=['boolean or value result'])

prop('C11', 'Sorter adapters preserve correctness for every conforming adapted sorter',
 "Given any sorter that sorts correctly, each sorter adapter (hybrid, self-sort, small-array, out-of-place, indirect, schwartz, stable, split, drop-merge, verge, counting, container-aware) yields a sorter that leaves a sorted permutation of the input. "
 "A hybrid adapter dispatches to a sorter that accepts the call, and the result of the sort does not depend on which internal path of the adapter handled it.",
 ['inputs', 'programs', 'configurations'], 'all adapted sorters, all nestings of adapters, all inputs, all iterator categories',
 'Tests combine adapters with the shipped sorters on a couple of shuffled arrays.',
 [I+'adapters/', D+'drop_merge_sort.h', D+'split_sort.h', D+'vergesort.h', D+'associate_iterator.h', D+'indiesort.h'],
 [('adapter implementations', I+'adapters/*.h'), ('association of values with keys/positions', D+'associate_iterator.h')],
 observe=['collection after the sort'])

prop('C12', 'Sorted indices, sorted iterators and permutation application are consistent',
 "Computing sorted indices or sorted iterators leaves the collection untouched and yields each position exactly once, ordered so that reading the collection through them gives the sorted sequence (and a stable one when the sorter is stable). "
 "Applying a permutation of indices rearranges the collection so that position i receives the element previously at the i-th index, for every permutation.",
 ['inputs', 'configurations'], 'all collections, all permutations, all sorters',
 'Tests use one shuffled collection.',
 [I+'utility/apply_permutation.h', I+'utility/sorted_indices.h', I+'utility/sorted_iterators.h'],
 [('cycle following', I+'utility/apply_permutation.h'), ('index/iterator sorting with indirection', I+'utility/sorted_indices.h, sorted_iterators.h')],
 observe=['returned indices or iterators', 'collection after application'])

prop('C13', 'Metrics count exactly the operations the wrapped sorter performs',
 "A metric adapter returns exactly the number of comparisons, projections or moves the adapted sorter performs on the given collection, in the requested counter type, sorts the collection exactly as the adapted sorter would, and every counted call is forwarded to the user's function with the same arguments and result. "
 "Counting one copy of a function counts in all copies made by the algorithm.",
 ['inputs', 'programs'], 'all sorters, all inputs, all comparison/projection functions',
 'Tests compare against constants for one or two sorters and sizes.',
 [I+'metrics/', I+'adapters/counting_adapter.h', D+'comparison_counter.h', I+'utility/metrics_tools.h'],
 [('counting wrappers', D+'comparison_counter.h, '+I+'metrics/*.h')],
 observe=['returned metric', 'collection after the sort'])

prop('C14', 'Type-specific sorters sort every value of the types they accept',
 "The counting, ska and spread sorters leave a permutation of the input sorted by the natural order (or the reverse order where they accept it) of the projected values, for every value of every integer, floating-point (NaN excluded), string, pair, tuple or array type they accept, including the extreme values of each type. "
 "The result agrees with what a comparison sorter produces.",
 ['inputs', 'configurations'], 'all sequences of values of the accepted key types, all sizes',
 'Tests use small shuffled ranges around zero; extremes, sign boundaries and large spreads are not sampled.',
 [D+'counting_sort.h', D+'ska_sort.h', D+'spreadsort/', I+'sorters/counting_sorter.h', I+'sorters/ska_sorter.h', I+'sorters/spread_sorter/', D+'minmax_element_and_is_sorted.h', D+'memcpy_cast.h'],
 [('histogram rewriting', D+'counting_sort.h'), ('to_unsigned_or_bool key mapping and American-flag passes', D+'ska_sort.h'), ('bin computation', D+'spreadsort/')],
 observe=['collection after the sort'])

prop('C15', 'Exceptions thrown during a sort leak nothing and destroy nothing twice',
 "If a comparison, projection or element operation throws while an algorithm, adapter or probe is running, the exception reaches the caller unchanged, every temporary element is destroyed exactly once and every block of memory is released exactly once. "
 "The same holds for internal containers and buffers when they are filled, emptied, moved or partially constructed.",
 ['inputs', 'fault_sequences'], 'every throw point of every algorithm on every input',
 'Tests throw at one fixed point for a few sorters.',
 [D+'memory.h', D+'immovable_vector.h', D+'fixed_size_list.h', D+'scope_exit.h', D+'merge_insertion_sort.h', D+'timsort.h', I+'utility/buffer.h', I+'adapters/', I+'probes/dis.h', I+'probes/osc.h', D+'move.h'],
 [('destruct_n / destruct_n-like deleters', D+'memory.h'), ('immovable_vector', D+'immovable_vector.h'), ('fixed_size_list', D+'fixed_size_list.h')],
 observe=['lifetime counters', 'allocator balance', 'propagated exception'])

prop('C16', 'Memory-adaptive sorters still sort, without throwing, when allocation fails',
 "Sorters and primitives documented as memory-adaptive, or as needing no additional memory, produce the same sorted (and, where documented, stable) result whatever amount of auxiliary memory the system grants, including none at all. "
 "Failing to obtain memory never surfaces as an exception from them.",
 ['inputs', 'fault_sequences'], 'every allocation outcome (none, partial, all) and every input',
 'Tests exhaust memory completely for one shuffled collection per sorter; partial grants and the buffer-less merge paths are not sampled.',
 [D+'memory.h', D+'merge_sort.h', D+'inplace_merge.h', D+'recmerge_bidirectional.h', D+'recmerge_forward.h', D+'buffered_inplace_merge.h', D+'stable_partition.h', D+'wiki_sort.h', D+'grail_sort.h', I+'utility/buffer.h'],
 [('temporary_buffer with halving retries', D+'memory.h'), ('buffer-size dispatch in merges', D+'recmerge_*.h, inplace_merge.h')],
 observe=['collection after the sort', 'exceptions'])

prop('C17', 'Container-aware sorting of linked lists relinks nodes and sorts stably',
 "Sorting a list or forward list through the container-aware adapter leaves a sorted permutation, preserves the relative order of equivalent elements for the algorithms reported stable, and keeps every element at its address: references and iterators obtained before the sort still designate the same elements. "
 "No element is copied, moved, created or destroyed.",
 ['inputs', 'configurations'], 'all lists of all lengths, all comparisons and projections',
 'Tests sort one shuffled list per algorithm.',
 [I+'adapters/container_aware_adapter.h', D+'container_aware/insertion_sort.h', D+'container_aware/merge_sort.h', D+'container_aware/mel_sort.h', D+'container_aware/selection_sort.h'],
 [('splice-based algorithms', D+'container_aware/*.h')],
 observe=['list order', 'element addresses'])

prop('C18', 'Every way of calling a sorter is equivalent',
 "Calling a sorter with a collection or with its two iterators, with or without an explicit default comparison, with or without an explicit identity projection, through a function pointer, through a span-like temporary, or through the generic sorting functions, sorts the same elements with the same order and projection and returns what the sorter returns. "
 "A comparison and a projection given together are both honoured, including by sorters that natively support only one of them.",
 ['inputs', 'programs', 'configurations'], 'all sorters, all call forms, all comparisons and projections',
 'Tests exercise a few call forms on one collection.',
 [I+'sorter_facade.h', I+'sort.h', I+'stable_sort.h', I+'sorter_traits.h', I+'refined.h', I+'utility/adapter_storage.h'],
 [('overload forwarding', I+'sorter_facade.h'), ('stateless/stateful storage', I+'utility/adapter_storage.h')],
 observe=['collection after the sort', 'return value'])

prop('C19', 'Arithmetic helpers, buffer policies and search helpers meet their specification',
 "The integer helpers compute the exact mathematical value (half, floor and ceiling of the binary logarithm, next and previous power of two, single-bit test, bit rotation, greatest common divisor) for every representable argument of every integer type they accept, buffer policies return sizes consistent with the policy they name, and searching helpers return the first or last admissible position in every partitioned range, and the selection, partition, rotation and reversal helpers leave the permutation they name. "
 "No helper overflows or invokes undefined behaviour on an argument in its domain.",
 ['inputs'], 'all arguments of all integer types, all partitioned ranges',
 'Only a few constants are checked, indirectly.',
 [D+'bitops.h', I+'utility/size.h', I+'utility/functional.h', I+'utility/buffer.h', D+'lower_bound.h', D+'upper_bound.h', D+'equal_range.h', D+'min_element.h', D+'minmax_element.h', D+'nth_element.h', D+'rotate.h', D+'reverse.h', D+'partition.h'],
 [('bit operations', D+'bitops.h'), ('function objects half/log/sqrt', I+'utility/functional.h'), ('binary searches', D+'lower_bound.h, upper_bound.h, equal_range.h')],
 observe=['returned value'])

prop('C20', 'Move-minimising sorters respect their documented bound on element moves',
 "The indirect sorting adapter moves elements along permutation cycles only: sorting n elements performs at most 3n/2 element moves, elements already in place are not moved, and a sorted collection is not moved at all (when its elements are distinct or the adapted sorter is stable). "
 "The selection-type and low-move sorters likewise stay within their documented linear number of exchanges.",
 ['inputs'], 'all inputs of all sizes',
 'Move counts are tested for one shuffled collection.',
 [I+'adapters/indirect_adapter.h', D+'indiesort.h', D+'selection_sort.h', I+'utility/apply_permutation.h', D+'low_moves/'],
 [('cycle following with one temporary', I+'adapters/indirect_adapter.h, '+D+'indiesort.h')],
 observe=['number of element moves'])

prop('C21', 'Worst-case running time guarantees of the O(n log n) sorters',
 "Sorters documented with an O(n log n) worst case perform O(n log n) comparisons on every input, including adversarial inputs built against their pivot selection, and sorters documented as adaptive perform a linear number of comparisons on already sorted input.",
 ['inputs'], 'all inputs of all sizes, including adversarial ones',
 'No test counts operations on adversarial inputs.',
 [D+'pdqsort.h', D+'quicksort.h', D+'introselect.h', D+'heapsort.h', D+'timsort.h', D+'merge_sort.h'],
 [('bad-partition counters and heapsort / median-of-medians fallback', D+'pdqsort.h, quicksort.h, introselect.h')],
 observe=['number of comparisons'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
