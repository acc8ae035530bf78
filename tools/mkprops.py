#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

MIXED = ["src/containers/mixed_andnot.c", "src/containers/mixed_intersection.c", "src/containers/mixed_union.c",
         "src/containers/mixed_xor.c", "src/containers/mixed_negation.c"]
KINDS = ["src/containers/array.c", "src/containers/bitset.c", "src/containers/run.c", "src/containers/containers.c",
         "src/containers/convert.c"]

prop("C01", "32-bit set algebra is exact for every operand and representation",
 "Intersection, union, difference and symmetric difference of 32-bit bitmaps - as new bitmaps, in place, over many operands, through the heap-based union, and through the lazy variants once repaired - contain exactly the values the mathematical set operation gives. This holds whatever internal representation each operand happens to have, and for operands that are empty, equal, repeated or disjoint.",
 ["inputs", "histories", "configurations"],
 "every pair or list of 32-bit value sets, every way the operands were built (plain, run-compressed, decompressed, deserialized, shared), every CPU code path",
 "The unit tests compare a few dozen hand-made bitmaps and some real data files; the behaviour depends on the pair of container kinds, on cardinality and run-count thresholds, overlap shape, size ratios and SIMD tails, whose product is far larger than any sample.",
 ["src/roaring.c", "src/roaring_array.c", "src/array_util.c", "src/bitset_util.c", "src/roaring_priority_queue.c"] + MIXED + KINDS,
 [("pairwise merge of the key arrays and dispatch on the pair of container kinds", "src/roaring.c roaring_bitmap_and/or/xor/andnot, *_inplace; include/roaring/containers/containers.h container_and/ior/..."),
  ("per-kind-pair kernels", "src/containers/mixed_*.c, src/array_util.c, src/bitset_util.c"),
  ("lazy unions with deferred cardinality", "src/roaring.c roaring_bitmap_lazy_or, roaring_bitmap_repair_after_lazy; src/roaring_priority_queue.c")],
 [("bitmap", "sorted array of 16-bit keys, each with a container holding the low 16 bits", "include/roaring/roaring_types.h")],
 ["roaring_bitmap_to_uint32_array", "roaring_bitmap_get_cardinality", "roaring_bitmap_internal_validate"])

prop("C02", "32-bit comparisons and combination counts match the exact sets",
 "Equality, subset, strict subset, intersection tests and the Jaccard index of two 32-bit bitmaps, and the cardinalities of their intersection, union, difference and symmetric difference, are the mathematically exact answers for the two value sets. The answers never depend on how either bitmap is represented, and asking changes neither bitmap.",
 ["inputs", "histories", "configurations"],
 "every ordered pair of 32-bit value sets in every combination of representations",
 "Tests compare a few chosen pairs; each answer is computed by kernels separate from the materialising ones, with early exits depending on container kinds, cardinalities, keys present on one side only and the position of the first difference.",
 ["src/roaring.c", "src/containers/mixed_equal.c", "src/containers/mixed_subset.c", "src/containers/mixed_intersection.c", "src/array_util.c", "src/bitset_util.c"] + KINDS,
 [("count-only and early-exit walks over both key arrays", "src/roaring.c roaring_bitmap_*_cardinality, roaring_bitmap_intersect, roaring_bitmap_is_subset, roaring_bitmap_equals"),
  ("mixed equality / subset / just-cardinality kernels", "src/containers/mixed_equal.c, mixed_subset.c, mixed_intersection.c")],
 None, ["return values of the comparison functions"])

prop("C03", "Updates to a 32-bit bitmap change exactly the requested values",
 "After any history of additions, removals and complementations - single values, value lists, bulk insertion with a context, ranges, clearing, building from a list or a stepped range - a 32-bit bitmap contains exactly the values that history defines, at every range boundary up to and including the top of the value space. The variants that report whether something changed report exactly that.",
 ["histories", "inputs"],
 "every finite sequence of update calls with arguments anywhere in the value space, starting from any representation",
 "Tests apply short fixed sequences; container conversions, creation and removal of containers and the end points of ranges (container, 2^16 and 2^32 edges) interact over long histories and can be reached with unboundedly many arguments.",
 ["src/roaring.c", "include/roaring/roaring.h", "src/roaring_array.c", "include/roaring/containers/containers.h", "src/containers/mixed_negation.c"] + KINDS,
 [("container lookup, mutation and conversion on overflow/underflow", "include/roaring/containers/containers.h container_add/container_remove/container_add_range/container_remove_range"),
  ("range splitting by high 16 bits", "src/roaring.c roaring_bitmap_add_range_closed, roaring_bitmap_remove_range_closed, roaring_bitmap_flip*"),
  ("bulk context caching the last container", "src/roaring.c roaring_bitmap_add_bulk, roaring_bitmap_add_many")],
 None, ["roaring_bitmap_to_uint32_array", "return values of the *_checked functions"])

prop("C04", "32-bit membership, rank, select and range queries are exact",
 "Membership, minimum, maximum, cardinality, rank, select, index-of, range membership, range cardinality, range intersection, extraction to an array, paginated extraction and the reported statistics agree with the sorted sequence of the values a 32-bit bitmap holds. This holds for query arguments anywhere in the domain, including values not present, past the last value, and empty or full ranges; querying never changes the bitmap.",
 ["inputs", "histories"],
 "every value set, representation and query argument (values, ranks, offsets, limits, batches of values)",
 "Tests ask a few questions of a few bitmaps; each query has its own per-container shortcut and end-of-bitmap handling, so the answers must be checked for arguments in every position relative to the containers.",
 ["src/roaring.c", "include/roaring/roaring.h", "src/roaring_array.c", "include/roaring/containers/array.h", "include/roaring/containers/run.h"] + KINDS,
 [("cumulated container cardinalities plus in-container rank/select", "src/roaring.c roaring_bitmap_rank, _rank_many, _select, _get_index, _range_cardinality"),
  ("paginated extraction", "src/roaring_array.c ra_range_uint32_array")],
 None, ["return values and output arrays of the queries"])

prop("C05", "Every 32-bit result is a valid, representation-independent bitmap",
 "After any history of public operations a 32-bit bitmap satisfies the library's own validity check, and no operation's answer depends on whether it was run-compressed, decompressed, shrunk, copied or rebuilt along the way. Run compression, decompression and shrinking never change the set of values, and run compression never makes the containers take more bytes.",
 ["histories", "inputs", "configurations"],
 "every finite history over a pool of bitmaps interleaved with representation-changing calls at any point",
 "Tests call the validity check after individual operations; stale representation state left behind by one operation only shows when a later operation of a particular kind meets it.",
 ["src/roaring.c", "src/roaring_array.c"] + MIXED + KINDS,
 [("conversion rules between array, bitset and run containers", "src/containers/convert.c convert_run_optimize, convert_run_to_efficient_container"),
  ("internal validation", "src/roaring.c roaring_bitmap_internal_validate")],
 [("container kind", "array (<= 4096 values), bitset (> 4096) or run", "include/roaring/containers/containers.h")],
 ["roaring_bitmap_internal_validate", "roaring_bitmap_portable_size_in_bytes", "roaring_bitmap_to_uint32_array"])

prop("C06", "32-bit iterators walk the exact sorted value sequence",
 "A 32-bit iterator behaves as a cursor over the sorted sequence of values: stepping forward and backward, seeking to the first value not smaller than a bound, bulk reading, copying, starting at either end, and re-entering after running off either end all give the values that sequence dictates, and the end-of-sequence flag is exact. Callback iteration visits every value once in order and stops when told to.",
 ["histories", "inputs"],
 "every value set and representation, and every finite interleaving of iterator calls (including direction changes, seeks backward or past the end, reads of any size and calls after exhaustion)",
 "Tests walk iterators forward or backward over a few bitmaps; a cursor has per-container-kind state, and faults show only for particular interleavings of calls at container and word edges.",
 ["src/roaring.c", "src/containers/containers.c", "include/roaring/containers/containers.h"],
 [("cursor over containers", "src/roaring.c roaring_iterator_init*, roaring_uint32_iterator_*"),
  ("per-container cursor", "src/containers/containers.c container_iterator_next/prev/lower_bound/read_into_uint32")],
 [("iterator", "position in the sorted value sequence, possibly before the first or after the last", "include/roaring/roaring.h roaring_uint32_iterator_t")],
 ["has_value / current_value after each call", "values delivered by bulk reads and callbacks"])

prop("C07", "32-bit serialization round-trips in every format",
 "Writing a 32-bit bitmap in the portable, native or frozen format produces exactly the announced number of bytes, touches nothing beyond them, and reading them back by any of the readers (copying, bounded, or zero-copy view) gives a valid bitmap with the same values. Any bounded reader given at least that many bytes succeeds and the portable size probe reports exactly that size; the loaded bitmap answers every query as the original did.",
 ["inputs", "histories", "configurations"],
 "every bitmap in every representation, including shared containers, run/bitset/array mixes, empty bitmaps, and container counts around the format's thresholds",
 "Tests round-trip a few bitmaps; the formats switch layout on the presence of runs, on the number of containers, and on container kinds and sharing.",
 ["src/roaring.c", "src/roaring_array.c"] + KINDS,
 [("portable format writer and readers", "src/roaring_array.c ra_portable_serialize, ra_portable_deserialize, ra_portable_deserialize_size"),
  ("native format", "src/roaring.c roaring_bitmap_serialize / deserialize / deserialize_safe"),
  ("frozen format", "src/roaring.c roaring_bitmap_frozen_serialize / frozen_view / portable_deserialize_frozen")],
 None, ["returned byte counts, buffers with guard zones, loaded bitmaps"])

prop("C08", "The portable format written and read is the published RoaringFormatSpec",
 "The bytes of the portable serialization, for 32-bit and for 64-bit bitmaps, are exactly those the published interchange format prescribes for the bitmap's containers: cookies, container count, run flags, keys, cardinalities, offsets and container payloads, little-endian. Conversely every byte string which that format allows - including ones this library itself would not produce - is read back as the set of values the format assigns to it.",
 ["inputs"],
 "every bitmap, and every well-formed portable document (with or without run flags, with more or fewer containers than the offset threshold, in any mixture of container kinds)",
 "Round-trip tests cannot notice a reader and writer that drift together, and the checked-in reference files cover a handful of documents.",
 ["src/roaring_array.c", "src/roaring64.c", "src/containers/run.c", "src/containers/array.c", "src/containers/bitset.c"],
 [("portable writer/reader", "src/roaring_array.c ra_portable_*"),
  ("64-bit portable writer/reader", "src/roaring64.c roaring64_bitmap_portable_*")],
 None, ["serialized bytes", "bitmaps loaded from synthesized documents"])

prop("C09", "Bounded deserializers are safe and honest on arbitrary bytes",
 "Given any byte string and its length, the bounded deserializers and size probes, for 32-bit and 64-bit bitmaps, never read outside the string, never crash or leak, and never return a bitmap for a truncated document. Whatever they return either fails the library's validity check or is a bitmap holding exactly the values the document denotes, and is then safe to use. (The 64-bit zero-copy view accepts only images the library wrote; for it the claim covers those images and all their truncations.)",
 ["inputs", "fault_sequences"],
 "every byte string: valid documents truncated at every byte, documents with any field corrupted (counts, keys, cardinalities, run lengths, cookies), and arbitrary bytes",
 "Tests and the checked-in crash files cover a few malformed inputs; the claim is over all byte strings and all truncation points.",
 ["src/roaring_array.c", "src/roaring.c", "src/roaring64.c", "src/containers/run.c", "src/containers/array.c", "src/containers/bitset.c"],
 [("bounds checks before each read", "src/roaring_array.c ra_portable_deserialize, ra_portable_deserialize_size; src/roaring.c roaring_bitmap_deserialize_safe, roaring_bitmap_frozen_view; src/roaring64.c roaring64_bitmap_portable_deserialize_safe"),
  ("post-load validation", "src/roaring.c roaring_bitmap_internal_validate; *_container_validate")],
 None, ["return values on exactly sized buffers under AddressSanitizer", "internal_validate verdicts", "allocation balance"])

prop("C10", "Copies and operands are isolated, with or without copy-on-write",
 "Operations never change the value of any bitmap other than their declared destination: operands of binary operations, the source of a copy, copies taken earlier and results computed earlier keep their values under any later history on the others, whether copy-on-write sharing is enabled on all of them or on none (mixing is documented as unsupported). Shared storage is released exactly once, when its last user lets go of it, and never while still in use.",
 ["histories", "configurations"],
 "every finite history over a pool of bitmaps with copy-on-write toggled arbitrarily, including self-repeated operands, chains of copies, and freeing in any order",
 "Tests use copy-on-write in a few scripted sequences; a missing un-sharing or a mis-counted reference only shows after a particular chain of copy, combine, mutate and free.",
 ["src/roaring.c", "src/roaring_array.c", "src/containers/containers.c", "include/roaring/containers/containers.h"],
 [("reference-counted shared containers", "src/containers/containers.c get_copy_of_container, shared_container_extract_copy, shared_container_free"),
  ("un-sharing before mutation", "src/roaring_array.c ra_unshare_container_at_index; include/roaring/containers/containers.h get_writable_copy_if_shared")],
 [("sharing graph", "which bitmaps reference which shared container, and its counter", "include/roaring/containers/containers.h shared_container_t")],
 ["contents of every live bitmap after every step", "reference counters of shared containers", "allocation balance"])

prop("C11", "Copy-on-write copies may be used from different threads",
 "Bitmaps that were copied (with copy-on-write on or off) and then handed to different threads can be queried, combined, modified, copied and freed concurrently, each thread using only its own copies: every thread sees exactly the values its own operations define, in every interleaving. Shared storage is neither freed while another thread uses it nor leaked, and read-only use of one bitmap by several threads is free of data races.",
 ["schedules", "histories"],
 "every interleaving of the threads' accesses to the shared containers and their reference counters",
 "The single threaded test pins one schedule per run; a lost reference count update or a use after the last release needs a particular interleaving of a few instructions.",
 ["src/containers/containers.c", "include/roaring/portability.h", "src/roaring_array.c", "src/roaring.c", "src/isadetection.c"],
 [("atomic reference counting", "include/roaring/portability.h croaring_refcount_inc/dec/get"),
  ("extract-or-clone of shared containers", "src/containers/containers.c shared_container_extract_copy")],
 [("reference counter", "number of bitmaps referencing a shared container", "include/roaring/containers/containers.h shared_container_t.counter")],
 ["contents per thread, freed-memory accesses, allocation balance, data races"])

prop("C12", "Shifting a 32-bit bitmap by an offset moves exactly the values that fit",
 "Adding an offset, positive or negative and of any magnitude, to a 32-bit bitmap yields a valid bitmap with exactly the values v+offset that lie in the 32-bit range, dropping the others, and leaves the original unchanged.",
 ["inputs", "configurations"],
 "every bitmap in every representation and every 64-bit signed offset",
 "Tests use a few offsets on a few bitmaps; containers are split across two keys with per-kind shifting code whose behaviour depends on offset modulo 2^16, on which halves become empty and on neighbouring containers.",
 ["src/roaring.c", "src/containers/array.c", "src/containers/bitset.c", "src/containers/run.c"],
 [("splitting each container in low and high parts and merging neighbours", "src/roaring.c roaring_bitmap_add_offset, offset_append_with_merge"),
  ("per-kind offset kernels", "src/containers/array.c, bitset.c, run.c *_container_offset")],
 None, ["roaring_bitmap_to_uint32_array of result and source", "roaring_bitmap_internal_validate"])

prop("C13", "64-bit set algebra and comparisons are exact",
 "Intersection, union, difference, symmetric difference, complement over a range, equality, subset, intersection tests, combination counts and the Jaccard index of 64-bit bitmaps give the mathematically exact answer, both as new bitmaps and in place, and leave the other operand unchanged. The results satisfy the library's validity check.",
 ["inputs", "histories", "configurations"],
 "every pair of 64-bit value sets, with keys clustered or spread so that the key index takes any shape",
 "Tests combine a few small bitmaps; the operations walk two radix trees in step, inserting and erasing through iterators, so faults depend on the shape of both trees and on which leaves become empty.",
 ["src/roaring64.c", "src/art/art.c"] + MIXED + KINDS,
 [("synchronised walk over two radix-tree iterators", "src/roaring64.c roaring64_bitmap_and/or/xor/andnot and *_inplace"),
  ("radix tree with insertion and erasure through an iterator", "src/art/art.c")],
 [("64-bit bitmap", "radix tree from 48-bit keys to containers", "src/roaring64.c")],
 ["roaring64_bitmap_to_uint64_array", "roaring64_bitmap_internal_validate", "return values"])

prop("C14", "Updates to a 64-bit bitmap change exactly the requested values",
 "After any history of single, list, bulk-context, range and clearing additions, removals and complementations, constructions from lists and stepped ranges, copies, and conversions from 32-bit bitmaps, a 64-bit bitmap contains exactly the values that history defines, up to and including the largest 64-bit value, and is valid. The variants that report whether something changed report exactly that.",
 ["histories", "inputs"],
 "every finite sequence of update calls with arguments anywhere in the 64-bit value space",
 "Tests use short sequences with few keys; adding and removing whole subtrees of keys makes index nodes split, grow, shrink and merge in orders that samples do not reach.",
 ["src/roaring64.c", "src/art/art.c"] + KINDS,
 [("container allocation slots and leaf replacement", "src/roaring64.c add_container, replace_container, roaring64_bitmap_add*, _remove*, _flip*"),
  ("node growth, shrinking and prefix compression", "src/art/art.c")],
 None, ["roaring64_bitmap_to_uint64_array", "return values", "roaring64_bitmap_internal_validate"])

prop("C15", "64-bit queries and iterators follow the sorted value sequence",
 "Membership (single, bulk, range), minimum, maximum, cardinality, rank, select, index-of, range counts, extraction and callbacks of a 64-bit bitmap agree with its sorted sequence of values. Its iterators behave as a cursor over that sequence under any interleaving of forward and backward steps, seeks, bulk reads, copies and re-initialisations, including after running off either end.",
 ["inputs", "histories"],
 "every 64-bit value set and every query argument or finite interleaving of iterator calls",
 "Tests iterate over a few bitmaps; cursor state spans the radix tree and the container, and seeks must climb and descend in every tree shape.",
 ["src/roaring64.c", "src/art/art.c", "src/containers/containers.c"],
 [("iterator over radix tree and container", "src/roaring64.c roaring64_iterator_*"), ("lower bound search in the radix tree", "src/art/art.c art_iterator_lower_bound, art_iterator_move")],
 None, ["return values", "roaring64_iterator_has_value / _value after each call"])

prop("C16", "64-bit serialization and frozen views round-trip",
 "Writing a 64-bit bitmap in the portable or frozen format produces exactly the announced number of bytes, and reading them back - copying or as a zero-copy view - gives a valid bitmap with the same values that answers every query as the original. The size probe reports exactly the written size, readers reject every truncation of the written bytes, and shrinking or run-compressing beforehand changes no value.",
 ["inputs", "histories"],
 "every 64-bit bitmap in every representation and after every update history",
 "Tests round-trip a few bitmaps; the frozen form dumps the key index's node pools, whose content depends on the whole history of splits, erasures and free-list reuse.",
 ["src/roaring64.c", "src/art/art.c"],
 [("portable 64-bit format", "src/roaring64.c roaring64_bitmap_portable_*"), ("frozen format of containers and index", "src/roaring64.c roaring64_bitmap_frozen_*; src/art/art.c art_serialize, art_frozen_view, art_shrink_to_fit")],
 None, ["returned sizes, guard zones, loaded bitmaps"])

prop("C17", "The 48-bit radix index is an exact ordered map",
 "The ordered index behind 64-bit bitmaps behaves as a sorted map from 6-byte keys to values: insertion, lookup, erasure, ordered iteration in both directions, lower- and upper-bound seeks, insertion and erasure through an iterator, shrinking and serialization agree with that map after any history, and the structure passes its own consistency check.",
 ["histories", "inputs"],
 "every finite history of map and iterator operations over keys sharing prefixes of any length and with any number of children per node",
 "Tests insert and erase a few key families; node kinds, compressed prefixes and free lists evolve with the history, and iterator stability across erasure depends on node shrinking.",
 ["src/art/art.c", "include/roaring/art/art.h"],
 [("adaptive node kinds (4/16/48/256 children) and prefix compression", "src/art/art.c art_node_insert_leaf, art_node_erase, art_node*_insert/erase"),
  ("node pools with free lists", "src/art/art.c art_allocate_index, art_shrink_to_fit")],
 [("map", "sorted association of 48-bit keys and 64-bit values", "src/art/art.c")],
 ["art_find, iterator keys/values, art_internal_validate"])

prop("C18", "The C++ 32-bit class is a faithful value type over the C bitmap",
 "Every operation of the C++ 32-bit bitmap class - constructors, assignment, moves, swap, operators, set updates, queries, iterators, serialization, bulk contexts and n-ary unions - has exactly the effect and result of the set operation it names. Objects behave as values: copies are independent, moved-from objects stay usable, and frozen views refuse no reads and alter nothing.",
 ["histories", "inputs"],
 "every finite history over a pool of C++ bitmap objects, including self-assignment, self-combination and moves",
 "The C++ tests repeat a selection of C scenarios; overload resolution, half-open versus closed ranges, iterator ends and object lifetimes vary independently of those.",
 ["cpp/roaring.hh"],
 [("forwarding to the C API with lifetime management", "cpp/roaring.hh class Roaring, RoaringSetBitBiDirectionalIterator, BulkContext")],
 None, ["contents via toUint32Array and iterators", "return values"])

prop("C19", "The C++ map-based 64-bit class is an exact 64-bit set",
 "The C++ 64-bit bitmap class built from per-high-word 32-bit bitmaps behaves as one set of 64-bit values under any history of its operations: updates and ranges crossing 2^32 boundaries, operators (also with itself as operand), comparisons, rank/select/index, iteration in both directions with seeks, flips, n-ary union, and portable, native and frozen serialization. Empty inner bitmaps and equal sets built differently are never observable.",
 ["histories", "inputs"],
 "every finite history over a pool of objects with values straddling arbitrary 2^32 boundaries",
 "Tests check selected operations; correctness depends on how inner bitmaps appear, empty out and stay in the map over a history and on the end points of multi-bucket ranges.",
 ["cpp/roaring64map.hh", "cpp/roaring.hh"],
 [("ordered map from high 32 bits to inner bitmaps", "cpp/roaring64map.hh class Roaring64Map"), ("bidirectional iterator over the map", "cpp/roaring64map.hh Roaring64MapSetBitBiDirectionalIterator")],
 None, ["contents via toUint64Array and iterators", "return values", "serialized bytes"])

prop("C20", "The dense bitset and conversions to it are exact",
 "The uncompressed bitset type behaves as a set of indices with an explicit size: setting, clearing, shifting, resizing, trimming, in-place and counting combinations, comparison, minimum, maximum and traversal give the exact answers for any sizes of the operands. Converting a 32-bit bitmap into a bitset yields exactly its values.",
 ["inputs", "histories"],
 "every finite history of bitset operations with operands of equal or different sizes, and every bitmap converted",
 "Tests use a few sizes; word-boundary shifts, operands of different length and stale words beyond the logical size need systematic combination.",
 ["src/bitset.c", "include/roaring/bitset/bitset.h", "src/roaring.c"],
 [("word-array operations and growth", "src/bitset.c"), ("conversion", "src/roaring.c roaring_bitmap_to_bitset")],
 [("bitset", "array of 64-bit words with size and capacity", "include/roaring/bitset/bitset.h")],
 ["bit contents, size, counts and traversal results"])

prop("C21", "All memory goes through the installed allocator and is returned exactly once",
 "With a custom allocator installed, every block the library obtains comes from it and is returned to it exactly once with the matching function, so that after freeing all bitmaps, iterators and bitsets nothing is outstanding. When an allocation is refused inside a call that reports failure (creating or copying a bitmap, reading one with the bounded or zero-copy readers; for 32-bit bitmaps also overwriting one, extracting a range of values, converting to a dense bitset and creating an iterator; creating, copying, resizing or trimming a dense bitset), the call reports it, nothing leaks or is corrupted, and existing bitmaps keep their value (an overwritten destination is empty).",
 ["fault_sequences", "histories"],
 "every history of operations, and for the failure-reporting operations every position of the failing allocation",
 "The allocation-failure test covers one call with one bitmap; each allocation site is a separate failure point, and mismatched alloc/free pairs are invisible with the default allocator.",
 ["src/memory.c", "include/roaring/memory.h", "src/roaring.c", "src/roaring_array.c", "src/containers/containers.c", "src/roaring64.c", "src/bitset.c", "src/art/art.c"],
 [("global allocation hook", "src/memory.c"), ("failure paths of create/copy/overwrite/deserialize", "src/roaring_array.c ra_copy, ra_overwrite, ra_init_with_capacity, ra_portable_deserialize")],
 [("outstanding blocks", "blocks obtained from the hook and not yet returned", "src/memory.c")],
 ["hook call log", "return values under injected failures", "contents of surviving bitmaps"])

prop("C22", "Results are identical on every instruction-set code path",
 "For the same calls on the same values, the AVX-512, AVX2 and portable code paths produce the same results: equal contents, equal answers, equal serialized bytes. No path reads or writes outside its operands' storage.",
 ["configurations", "inputs"],
 "every operation with operands of every size and alignment on each of the three dispatch paths",
 "Test runs execute only the path of the machine's CPU, and vector tails, block boundaries and threshold switches depend on exact operand sizes.",
 ["src/isadetection.c", "src/array_util.c", "src/bitset_util.c", "src/containers/convert.c", "src/containers/array.c", "src/containers/bitset.c", "src/containers/run.c", "include/roaring/bitset_util.h", "src/containers/mixed_subset.c"],
 [("run-time dispatch on CPU support", "src/isadetection.c croaring_hardware_support; callers in array_util.c, bitset_util.c, containers/*.c")],
 None, ["transcripts of identical histories on differently built libraries, each checked against the specification"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
