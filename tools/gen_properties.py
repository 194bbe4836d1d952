#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property). Run: python3 tools/gen_properties.py"""
import json, os
OUT = []
def P(id, title, stmt, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    OUT.append({"id": id, "title": title, "statement": stmt,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})

VEC, BOX, RC, ARC, TC, HM, FMT, MAP, NODE, SEARCH, SET = ("src/vec.rs", "src/boxed.rs", "src/rc.rs", "src/arc.rs",
    "src/try_clone.rs", "src/hashmap.rs", "src/format.rs", "src/btree/map.rs", "src/btree/node.rs", "src/btree/search.rs", "src/btree/set.rs")

# ---------------------------------------------------------------- vectors
P("V01", "Fallible vector operations compute what the standard vector computes",
  "When memory is available, any history of vector operations (push, pop, insert, append, resize in its three forms, extend from slice in its two forms, reserve, clear, in-place mutation through slices and iterators), on a plain vector through the fallible extension trait or on the try-vector wrapper, leaves exactly the elements, order and length that the corresponding standard vector operations leave, and every call returns success. Inserting beyond the end panics as the standard vector does and changes nothing.",
  ["histories", "inputs", "configurations"],
  "every history of vector operations, every element type (zero-sized, over-aligned, large, owning, copyable), in the stable and the unstable feature configuration",
  "The unit tests push one fixed byte string and a few reservations; TryVec::push as a no-op fails none of them, and insert, append, resize*, pop, clear, iter_mut have no test at all.",
  [VEC], [("FallibleVec for Vec", "src/vec.rs FallibleVec impl"), ("TryVec wrapper", "src/vec.rs impl TryVec"), ("clone-based extension writing raw slots", "src/vec.rs try_extend_from_slice_no_copy, try_extend_with"), ("truncation", "src/vec.rs Truncate")],
  ["contents and length after every call", "return values"])
P("V02", "Vector operations report exhausted memory as an error, never fatally",
  "Whichever allocation request a fallible vector operation makes is refused, and however large a size is asked for, the operation returns its error: it does not panic, abort or report success. Conversely, when nothing is refused and the requested size is representable, the operation succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "every fallible vector operation (including the clone, collect, concat, list/repeat macro and slice/str conversion forms) in every reachable vector state, for every allocation request refused once or from then on, and every requested size up to the maximum",
  "Existing OOM tests only ask for impossible sizes from reserve and clone of a forged vector; no test refuses an ordinary allocation, so an operation that skips its reservation passes all of them.",
  [VEC], [("reserve before the infallible std operation", "src/vec.rs try_push, try_insert, try_append, try_resize, try_resize_with, try_extend_from_slice"), ("needs_to_grow with checked addition", "src/vec.rs needs_to_grow"), ("per-item push in collection", "src/vec.rs TryFromIterator"), ("reservation of the summed length", "src/vec.rs TryVec::concat")],
  ["result of the call under a refusing allocator"])
P("V03", "A vector operation that fails loses nothing",
  "After a fallible vector operation returns an error, the vector still holds exactly its previous elements in order, and so does the source of a failed append; only clone-based extend and resize may additionally have appended a prefix of the requested elements. Insert and the give-back form of push return the very element that was passed in. The vector stays fully usable, and repeating the operation once memory is available has its full effect.",
  ["fault_sequences", "histories"],
  "every history, every fallible operation in it, every refused allocation or failing element clone inside that operation",
  "No test looks at a vector after a failed call, nor makes an element's own clone fail halfway.",
  [VEC], [("element handed back in the error", "src/vec.rs try_push_give_back, try_insert"), ("length advanced element by element", "src/vec.rs try_extend_from_slice_no_copy, try_extend_with"), ("source untouched until reservation succeeded", "src/vec.rs try_append")],
  ["contents and element identity after an error"])
P("V04", "Reserved vector space is honoured and growth is amortised",
  "After a successful reservation of n further elements (or construction with capacity n), adding up to n elements by any vector operation requests no memory and therefore cannot fail, and an operation whose result fits the existing capacity never requests memory or moves the elements. Repeating a reservation that is already satisfied does not change the capacity, and building n elements one at a time or in small pieces, by any operation that adds elements, makes only a logarithmic number of memory requests.",
  ["histories", "inputs"],
  "every vector state, every reservation size, every continuation of operations that fits, every element type",
  "Two tests check one capacity each; none checks that later operations stay within a reservation or counts allocation requests.",
  [VEC], [("reserve forwarded to the vector", "src/vec.rs try_reserve, reserve, try_with_capacity, with_capacity"), ("grow only when full", "src/vec.rs try_push, try_insert, needs_to_grow")],
  ["allocation requests seen by the global allocator", "capacity and element address"])
P("V05", "Vector conversions, collection, concatenation and views are faithful",
  "Collecting any iterator, converting from a vector, slice or string, concatenating a vector of vectors, building with the list and repeat macros, and consuming or borrowing iteration all yield exactly the source elements in order, each produced once. Equality against another try-vector, vector, slice or string holds exactly when the elements are equal, debug output equals that of the standard vector, and iterator size hints are exact.",
  ["inputs", "configurations"],
  "all element sequences and iterators (including those with wrong or absent size hints and with early failure), all nestings for concatenation, both feature configurations for the macros",
  "try_collect, concat, equality against slices, iterators' hints and Debug have no tests; the macro test only prints its result.",
  [VEC], [("collection", "src/vec.rs TryFromIterator, TryCollect"), ("conversions", "src/vec.rs From<Vec>, TryFrom<&[T]>, TryFrom<&str>"), ("concat", "src/vec.rs TryVec::concat"), ("macros and specialised repeat", "src/vec.rs try_vec!, try_from_elem, SpecFromElem"), ("equality and views", "src/vec.rs PartialEq impls, Deref, AsRef, Iter, IterMut")],
  ["returned contents", "boolean of ==", "formatted text", "size_hint"])
P("V06", "Vector elements are dropped exactly once, even on errors and panics",
  "Over any history of vector operations, including ones that fail for lack of memory, whose element clone fails, or during which caller code (clone, closure, iterator or drop) panics, every element ever created is dropped exactly once or handed back, none is dropped twice or read uninitialised, and without a panicking drop none is leaked. After such a panic the vector remains usable.",
  ["histories", "fault_sequences"],
  "every history, every point at which an allocation, an element clone, a closure or a drop can fail or panic",
  "All tests use plain integers, for which a double drop, a leak or a skipped drop is invisible.",
  [VEC], [("length updated per element around raw writes", "src/vec.rs try_extend_from_slice_no_copy, try_extend_with"), ("raw drop loop in truncation", "src/vec.rs Truncate::truncate"), ("raw fill of specialised repeat", "src/vec.rs SpecFromElem for u8")],
  ["drop ledger of tracked elements", "allocator ledger"])

# ---------------------------------------------------------------- boxes and shared pointers
P("B01", "Fallible boxes hold their value in memory of their own or report failure",
  "A successful fallible box construction (plain box or try-box) holds exactly the given value at an address aligned for its type, in an allocation of exactly that type's size and alignment (none for zero-sized types) that is released exactly once when the box or the raw pointer taken from it is dropped; cloning makes an independent equal box. If the allocation is refused the construction or clone returns an error, without panic or abort, and the value is dropped once.",
  ["inputs", "fault_sequences"],
  "all value types by size and alignment (zero-sized, over-aligned, large, owning), all values, every refused allocation, every sequence of raw-pointer round trips",
  "Tests box an integer and a unit value with memory available; they never refuse the allocation, look at alignment or observe drops.",
  [BOX], [("one-element exact reservation turned into a box", "src/boxed.rs FallibleBox::try_new"), ("raw round trip", "src/boxed.rs TryBox::into_raw, from_raw"), ("clone", "src/boxed.rs TryClone for Box, TryBox")],
  ["value, address and layout seen by the allocator", "drop ledger"])
P("B02", "Fallible shared pointers hold their value once and report failure",
  "A successful fallible construction of a reference-counted pointer holds the given value with a strong count of one and no weak reference, releases value and memory exactly once when the last owner goes, and cloning the atomic one through the fallible clone trait shares the same allocation without requesting memory. If the first allocation for a value that is not zero-sized is refused, the construction returns an error and drops the value once; in the unstable configuration, where allocation-fallible constructors exist, this holds for every value and every allocation it makes.",
  ["inputs", "fault_sequences", "configurations"],
  "all value types by size and alignment, every refusable allocation, both feature configurations (on stable the second, internal allocation is documented as infallible and excluded)",
  "The two pointer tests construct with the standard constructors and never call the crate's fallible ones.",
  [RC, ARC, BOX], [("Rc construction", "src/rc.rs FallibleRc::try_new"), ("Arc construction per feature", "src/arc.rs FallibleArc::try_new"), ("Arc clone", "src/arc.rs TryClone for Arc")],
  ["value, counts, pointer identity", "allocator ledger"])
P("C01", "A fallible clone is an equal and independent deep copy",
  "Fallibly cloning any supported value (integers, booleans, options, boxes, vectors, try-vectors, hash maps, ordered maps and arbitrary nestings of them) yields a value equal to the original and leaves the original unchanged. The copy shares no storage with it: mutating or dropping either one never affects the other, the atomically counted pointer alone being shared by design.",
  ["inputs"],
  "all values of nested supported types, including extremes and empty containers, and every later mutation or drop of either copy",
  "Tests clone one flat vector of equal integers and never mutate or drop either side, so an aliasing or truncated copy of other shapes passes.",
  [TC, VEC, BOX, HM, MAP, ARC], [("primitive and option impls", "src/try_clone.rs"), ("vector clone", "src/vec.rs TryClone for Vec, TryVec"), ("map clone", "src/hashmap.rs TryClone; src/btree/map.rs clone_subtree"), ("box clone", "src/boxed.rs")],
  ["equality, addresses, effect of mutation"])
P("C02", "A fallible clone that runs out of memory reports it and leaves no trace",
  "Whenever any allocation request made while fallibly cloning a container, or the fallible clone of any one element, is refused, the clone returns that failure instead of panicking, aborting or returning a partial copy. The original is unchanged, everything cloned so far is dropped exactly once, and all memory obtained during the attempt is returned.",
  ["fault_sequences", "inputs"],
  "every nested value, every allocation request or element clone during the clone refused, once or persistently",
  "The only clone-failure tests forge an impossibly long vector so the very first request overflows; no later request is ever refused.",
  [VEC, BOX, HM, MAP, NODE, TC], [("error propagation from nested clones", "src/vec.rs, src/hashmap.rs try_clone, src/btree/map.rs clone_subtree, src/try_clone.rs Option"), ("partial tree owned by a map while cloning", "src/btree/map.rs clone_subtree")],
  ["result, drop ledger and allocator ledger after a refused clone"])

# ---------------------------------------------------------------- hash map
P("H01", "The fallible hash map is a map",
  "When memory is available, any history of insert, get, remove, clone and iteration on the fallible hash map returns the same results as on a reference map: the latest value inserted for a key is found until it is removed, replaced and removed values are returned, the length is the number of distinct keys, and iteration (borrowing or consuming) yields every entry exactly once. This holds with the standard-library backend and with the no-std backend, and for lookups by any borrowed form of the key.",
  ["histories", "configurations"],
  "every history over arbitrary keys including colliding hashes, both backends",
  "The only hash map test reserves an impossible capacity; insert, get, remove, iteration and clone are never run.",
  [HM], [("delegation to the backend map", "src/hashmap.rs TryHashMap"), ("clone by re-insertion", "src/hashmap.rs TryClone")],
  ["results of calls, multiset of iterated entries"])
P("H02", "Hash map operations report exhausted memory and keep the map intact",
  "If the memory needed to create, grow or clone the hash map is refused, or an impossible capacity is asked for, the call returns an error without panic or abort. The map is then exactly as before the call, stays usable, and the same call succeeds once memory is available; when nothing is refused and the size is representable, the call succeeds.",
  ["fault_sequences", "histories"],
  "every history including heavy removal and re-insertion, every allocation request refused, all requested capacities, both backends",
  "The single test asks one impossible reservation of an empty map; an insert that forgets to reserve passes it.",
  [HM], [("reserve before insert", "src/hashmap.rs insert, reserve, with_capacity"), ("error value without allocation", "src/hashmap.rs make_try_reserve_error")],
  ["result and contents under a refusing allocator"])
P("H03", "Hash map capacity requests are honoured",
  "A hash map successfully created with capacity n takes n distinct keys without requesting further memory, so these insertions cannot fail; overwriting existing keys never grows a map that was never removed from and has room. Inserting n keys one at a time requests memory only a logarithmic number of times, and lookups, removals and iteration request none.",
  ["inputs", "histories"],
  "all capacities and key sets, both backends",
  "No test creates a hash map with a valid capacity or counts allocation requests.",
  [HM], [("capacity reservation", "src/hashmap.rs with_capacity, reserve"), ("one-slot reservation before insert", "src/hashmap.rs insert")],
  ["allocation requests seen by the global allocator"])
P("H04", "Hash map keys and values are dropped exactly once",
  "Over any history of hash map operations, including refused insertions, failing clones, partially consumed iteration and panicking hash or equality code, each key and value is dropped exactly once or returned to the caller, and dropping the map returns all its memory. Overwriting drops or returns the old value and never both.",
  ["histories", "fault_sequences"],
  "every history, every refused allocation, failing element clone or panicking hash/equality call, both backends",
  "No test stores an owning value in the hash map.",
  [HM], [("ownership passes to the backend after reservation", "src/hashmap.rs insert, try_clone, into_iter")],
  ["drop ledger", "allocator ledger"])

# ---------------------------------------------------------------- ordered map / set
P("M01", "The ordered map answers point operations like a reference ordered map",
  "When memory is available, any history of insert, remove, get, get-mut, get-key-value, contains, indexing, length and clear on the ordered map returns what a reference ordered map returns, for maps of every size. Inserting an equal key replaces and returns the old value but keeps the original key, and lookups accept any borrowed form of the key.",
  ["histories"],
  "every history of point operations, from empty maps to maps several node levels deep, in any insertion and removal order, all key and value types",
  "The B-tree source has no unit tests, and its doc-tests import the standard library's map, so none of its code runs in the existing suite.",
  [MAP, NODE, SEARCH], [("search", "src/btree/search.rs"), ("node split on insertion", "src/btree/node.rs insert, split; src/btree/map.rs VacantEntry::try_insert"), ("merge and steal on removal", "src/btree/map.rs remove_kv, handle_underfull_node; src/btree/node.rs merge, steal_left, steal_right")],
  ["results of calls, contents after every call"], [("root, length", "tree and number of entries", "src/btree/map.rs BTreeMap")])
P("M02", "Map entries act atomically on one key",
  "An entry obtained for a key is occupied exactly when the key is present, reports that key, and its operations (get, get-mut, into-mut, insert, remove, remove-entry, and-modify, or-insert, or-insert-with, or-default, vacant insert, take key) affect only that key, return the stated old or current value, hand out a reference to the value now in the map, and call the given closure at most once and only when documented. Obtaining an entry and dropping it changes nothing.",
  ["histories", "inputs"],
  "every map state (including full nodes at several levels, so that inserting splits them) and every entry operation and closure",
  "The entry doc-tests run against the standard library, not this crate.",
  [MAP, NODE], [("entry construction", "src/btree/map.rs try_entry"), ("vacant insertion with split propagation and pointer to the new value", "src/btree/map.rs VacantEntry::try_insert"), ("removal from leaf or internal node", "src/btree/map.rs OccupiedEntry::remove_kv")],
  ["entry kind, returned references and values, map contents"])
P("M03", "Ordered iteration and ranges yield exactly the right entries in order",
  "Borrowing, mutable, consuming, key, value and range iteration of the ordered map and set yields each entry within the bounds exactly once, ascending from the front and descending from the back, for any interleaving of front and back steps, and stays exhausted afterwards; reported lengths and size hints match what remains, clones of an iterator continue independently, and mutable iteration changes exactly the visited values. Ranges accept every combination of bounds, and panic exactly when the start exceeds the end or both are the same excluded key.",
  ["inputs", "histories"],
  "every map content and shape, every pair of bounds (present or absent keys, borrowed forms), every interleaving of next and next_back, partial consumption",
  "No iterator of the forked B-tree runs in any test.",
  [MAP, NODE, SET, SEARCH], [("leaf-edge stepping", "src/btree/map.rs Range::next_unchecked and its mutable, owning and backward variants"), ("bound search", "src/btree/map.rs range_search"), ("length counters", "src/btree/map.rs Iter, IterMut, IntoIter")],
  ["sequence of yielded entries, len/size_hint, panics"])
P("M04", "Bulk operations on ordered maps move exactly the right entries",
  "Append leaves in the receiver the union of both maps with the argument's value winning for common keys and leaves the argument empty; split-off leaves keys below the split key and returns the rest; clone, collecting and extending reproduce all entries with later values winning. All resulting maps and sets, including the emptied ones, report correct lengths and keep behaving as ordered maps under any further history.",
  ["histories", "inputs"],
  "all pairs of maps of any sizes and shapes (disjoint, interleaved, overlapping, several levels deep), every split key, every further history on the results",
  "append, split_off, clone, extend and collect of the forked B-tree run in no test.",
  [MAP, NODE, SET], [("bulk building and right-edge repair", "src/btree/map.rs from_sorted_iter, fix_right_edge"), ("suffix move and border repair", "src/btree/map.rs split_off, fix_left_border, fix_right_border; src/btree/node.rs move_suffix, bulk_steal_left, bulk_steal_right"), ("length recomputation", "src/btree/map.rs recalc_length"), ("merge of sorted sequences", "src/btree/map.rs MergeIter")],
  ["contents of all maps involved after each bulk call and after later calls"])
P("M05", "Comparison, hashing and display of ordered maps depend only on contents",
  "Two ordered maps or sets with the same entries are equal, compare equal, hash equally and print identically whatever histories built them, and ones with different entries are unequal. Ordering is the lexicographic ordering of their entry sequences, and debug output of the maps, sets and their iterators lists exactly the entries (or remaining entries) in order.",
  ["histories", "inputs"],
  "all pairs of maps or sets and all histories producing them",
  "The trait implementations of the forked types run in no test.",
  [MAP, SET], [("content comparison", "src/btree/map.rs PartialEq, PartialOrd, Ord, Hash, Debug"), ("derived set traits and iterator Debug", "src/btree/set.rs; src/btree/map.rs Debug impls")],
  ["results of ==, cmp, partial_cmp, hash, {:?}"])
P("M06", "Ordered map and set operations survive exhausted memory unchanged",
  "If any allocation request made by a fallible ordered map or set operation (insert, entry, entry insertion, set replace, split-off, clone) is refused, the operation returns an error without panic or abort, and the map or set holds exactly the entries it held before, with correct length, order and lookups. It stays fully usable, and repeating the operation with memory available succeeds.",
  ["fault_sequences", "histories"],
  "every map state, in particular those where an insertion splits several levels of full nodes, every allocation request within the operation refused, once or persistently",
  "No test ever makes a B-tree allocation fail; the forked code has no tests at all.",
  [MAP, NODE, SET], [("allocation before mutation in node split", "src/btree/node.rs split, push_level, new_leaf"), ("length update and split propagation", "src/btree/map.rs VacantEntry::try_insert"), ("right tree allocated before the split", "src/btree/map.rs split_off"), ("owned root on first entry", "src/btree/map.rs ensure_root_is_owned")],
  ["result, len, full contents and later behaviour after an error"])
P("M07", "Ordered map keys and values are dropped exactly once and memory returned",
  "Over any history of ordered map and set operations, including refused allocations, failing clones, clear, append, split-off and partially consumed owning iteration from both ends, every key and value is dropped exactly once or handed to the caller. When all maps, sets and iterators are gone, every byte they obtained has been returned, each block with the size and alignment it was requested with.",
  ["histories", "fault_sequences"],
  "every history, every refused allocation or failing element clone, every amount of owning iteration from either end before it is dropped",
  "Drops and deallocations of the forked B-tree are never exercised by a test.",
  [MAP, NODE, SET], [("owning iteration frees nodes as it leaves them", "src/btree/map.rs IntoIter next/next_back/Drop; src/btree/node.rs deallocate_and_ascend"), ("drop via owning iteration", "src/btree/map.rs Drop for BTreeMap"), ("node release on merge and pop_level", "src/btree/node.rs merge, pop_level")],
  ["drop ledger", "allocator ledger with layouts"])
P("M08", "Caller code that panics or orders badly cannot corrupt an ordered map",
  "If the caller's comparison, clone, closure or drop code panics during any ordered map or set operation, no key or value is dropped twice or used after it was dropped, and every map involved is left in a usable state: its length equals what it iterates, in order, only previously present or newly supplied entries occur, and further operations behave like those of an ordered map. A comparison that is inconsistent may make results meaningless but never causes memory errors, double drops or a length that disagrees with iteration.",
  ["histories", "fault_sequences"],
  "every history, every call into caller code at which a panic can occur, every (even inconsistent) comparison outcome",
  "No test panics inside caller code or supplies an inconsistent order.",
  [MAP, NODE, SEARCH], [("search completes before mutation", "src/btree/map.rs try_insert, remove, split_off; src/btree/search.rs"), ("bulk build repairs its right edge", "src/btree/map.rs append, from_sorted_iter"), ("ill-defined order detected in ranges", "src/btree/map.rs range_search")],
  ["drop ledger, len vs iteration, later behaviour after a caught panic"])
P("M09", "Ordered maps stay balanced: logarithmic searches and bounded footprint",
  "After any history, a lookup, insertion, removal or range bound on an ordered map of n entries performs a number of key comparisons within the bound of a balanced tree whose nodes hold between four and eleven entries, and an insertion or removal requests or frees only a number of memory blocks within that tree's height. The blocks a map owns never exceed what such a tree of n entries can have, so removed entries do not keep memory alive.",
  ["histories"],
  "every history of insertions, removals, appends, splits and clones, at all sizes",
  "Balance and occupancy are invisible to result-checking tests, and none of them runs the forked code.",
  [MAP, NODE, SEARCH], [("split at the middle, merge and steal below half", "src/btree/node.rs, src/btree/map.rs remove_kv"), ("border repair after bulk operations", "src/btree/map.rs fix_right_edge, fix_left_border, fix_right_border, fix_top")],
  ["number of comparisons per call", "live blocks per entry"])
P("S01", "The ordered set answers element operations like a reference ordered set",
  "When memory is available, any history of insert, replace, remove, take, get, contains, clear, range, append, split-off, iteration and length on the ordered set returns what a reference ordered set returns. Insert reports whether the element was new and keeps an equal element already present, replace substitutes it and returns the old one, and get and take yield the stored element itself.",
  ["histories"],
  "every history over elements that can be equal without being identical, at all sizes",
  "The set's doc-tests import the standard library's set; the crate's own set code (len returning len+1 passes) is never run.",
  [SET, MAP], [("delegation to the map", "src/btree/set.rs"), ("recovering stored keys", "src/btree/map.rs Recover get, take, replace")],
  ["results of calls, identity of stored elements"])
P("S02", "Set algebra is correct and ordered",
  "Union, intersection, difference and symmetric difference of any two ordered sets yield exactly the mathematical result, ascending and without duplicates, whether taken lazily or through the operators; subset, superset and disjointness answer accordingly. The operands are unchanged, size hints of the lazy forms always bracket what remains, their debug output shows what remains, and a cloned iterator continues independently from the same point.",
  ["inputs"],
  "all pairs of sets of any sizes, in particular very different sizes where another strategy is used, empty sets, identical sets, and every prefix of the lazy iteration",
  "None of the set operations of the forked set runs in a test, nor do their size-dependent strategies.",
  [SET], [("stitch or search strategy by relative size", "src/btree/set.rs difference, intersection, is_subset"), ("merging iteration", "src/btree/set.rs Union, SymmetricDifference, cmp_opt"), ("operators", "src/btree/set.rs Sub, BitXor, BitAnd, BitOr")],
  ["yielded sequences, booleans, size_hint at every step"])

# ---------------------------------------------------------------- format, io, cross-cutting
P("F01", "Fallible formatting produces the formatted text within its capacity",
  "Fallible formatting with any capacity and arguments returns exactly the text that ordinary formatting produces. When the capacity is at least the text's byte length it makes a single memory request, up front (none for capacity zero), and if that request is refused or the capacity is impossible it returns an error without panic, abort or running the formatting; later refusals cannot affect it.",
  ["inputs", "fault_sequences"],
  "all format arguments (multi-byte text, numbers, padding, nested debug output), all capacities, the request refused or not",
  "The test formats three short numbers with ample memory and an exact capacity.",
  [FMT, VEC], [("capacity reserved before writing", "src/format.rs try_format, tryformat!")],
  ["returned text, allocation requests, result under refusal"])
P("I01", "Bounded reading takes exactly the promised bytes or reports failure",
  "Reading up to a limit from any reader into a try-vector appends exactly the first min(limit, available) bytes after the existing contents, returns that count and consumes no byte more from the source; a reader's error is returned with the existing contents and the bytes already read intact, and interruptions are retried. Space for the limit is reserved before reading: if that is refused or impossible an error is returned with nothing consumed and the buffer unchanged, and if it is granted reading needs no more memory.",
  ["inputs", "fault_sequences", "histories"],
  "all source contents, chunkings, interruptions and error positions, limits from zero to the maximum, initial buffer contents and spare capacities, every refused allocation",
  "Tests read five of ten bytes from one slice into an empty buffer and ask for one impossible limit.",
  [VEC], [("reserve then bounded read", "src/vec.rs std_io::try_read_up_to, TryRead for Take"), ("collecting form", "src/vec.rs read_into_try_vec")],
  ["buffer contents, count, remaining source, allocation requests"])
P("I02", "Writing into a try-vector appends every byte or reports failure",
  "Any sequence of writes (single, complete, formatted, copied from a reader) into a try-vector of bytes appends exactly the written bytes in order, each write reporting its full length, and flushing changes nothing. A write for which memory is refused returns an error without panic or abort, leaves the contents as they were, and later writes succeed once memory is available.",
  ["histories", "fault_sequences"],
  "all sequences of writes of all sizes, every refused allocation",
  "The writer implementation has no test.",
  [VEC], [("write as fallible extension", "src/vec.rs Write for TryVec<u8>")],
  ["contents and returned counts, errors under refusal"])
P("X01", "Operations that cannot report failure need no memory",
  "Operations without a way to report failure - creating empty containers, lookups, iteration in every form, length, in-place mutation, popping, clearing, removal, taking ownership of existing storage, comparison, set queries and lazy set operations - make no memory request and therefore work when memory is exhausted. The only exceptions are the ordered map's and set's inherited bulk operations (append of two non-empty collections, extending, collecting, standard clone and the set operators).",
  ["histories", "inputs"],
  "every container state and every operation with an infallible signature, with all memory requests refused",
  "No test watches the allocator, so a hidden allocation in a lookup or removal is invisible.",
  [VEC, HM, MAP, NODE, SET, BOX], [("static shared empty root", "src/btree/node.rs EMPTY_ROOT_NODE; src/btree/map.rs new"), ("in-place merge and steal", "src/btree/node.rs"), ("empty containers without storage", "src/vec.rs TryVec::new, src/hashmap.rs Default")],
  ["allocation requests seen by the global allocator"])
P("X02", "Behaviour does not depend on element size or alignment",
  "The same history on a container of any element type - zero-sized, byte-sized, large, or aligned more strictly than a pointer, in any combination of key and value types - gives the same observable results as on plain integers (up to what a zero-sized element can show). Every reference handed out is aligned for its type and every memory request carries the layout its elements require.",
  ["histories", "inputs"],
  "all histories crossed with element, key and value types of all sizes and alignments, in vectors, boxes, shared pointers, hash maps and ordered maps",
  "Tests use integers, characters and one unit value; no test uses an over-aligned or large type in a container.",
  [VEC, BOX, NODE, MAP, HM, ARC, RC], [("header/leaf prefix layout and shared root alignment check", "src/btree/node.rs into_key_slice, NodeHeader"), ("raw element pointers", "src/vec.rs"), ("box from a one-element vector", "src/boxed.rs")],
  ["results compared across element types, addresses modulo alignment, allocator ledger"])
P("X03", "All feature configurations behave the same",
  "For the operations that several feature configurations offer (vectors, boxes, shared pointers, fallible clone, formatting, hash map, bounded I/O), the same history with the same memory refusals produces the same observable results in every configuration: no features at all, hash map without and with the standard library, with I/O, and unstable.",
  ["configurations", "histories", "fault_sequences"],
  "all histories and refusal positions, across seven configurations: stable with no features, with the hash map, with hash map and std, with everything stable, and unstable alone, with I/O, and with everything",
  "Each configuration runs the same few unit tests separately; nothing compares configurations on anything else.",
  ["src/lib.rs", "Cargo.toml", VEC, ARC, RC, HM, FMT], [("configuration-dependent implementations", "src/arc.rs, src/hashmap.rs, src/vec.rs SpecFromElem, src/lib.rs cfg attributes")],
  ["digests of observable traces, compared between builds"])

P("P01", "Operations do no more work than their kind needs",
  "In every history, iterating, measuring, clearing, dropping and unconditionally moving elements compares, hashes and clones none of them; a fallible clone or a clone-based extension clones each element concerned at most once, and cloning a shared pointer none. A lookup, insertion, removal, replacement, entry (whatever is done with it), range bound, split or index on an ordered map or set costs one search of a balanced tree; append and the set operations cost one joint pass, or, when one set is far smaller, one search for each of its elements, and set iterators do nothing before they are asked. A hash map operation hashes its key at most twice and other keys only when the table is resized. Length, ends of iterators and ranges, pushing, popping and appending to or from an empty container take no pass over the elements of a large container.",
  ["histories", "inputs"],
  "all histories, all sizes of one or two containers",
  "Tests see results, not work; a linear step where a constant one belongs passes all of them.",
  [MAP, SEARCH, SET, VEC, HM, ARC], [("one search per operation", "src/btree/search.rs, src/btree/map.rs try_entry"), ("strategies for sets of different sizes", "src/btree/set.rs ITER_PERFORMANCE_TIPPING_SIZE_DIFF"), ("structural clone, append by merging", "src/btree/map.rs clone_subtree, append, MergeIter"), ("moving the value into the last place", "src/vec.rs TryExtendElement")],
  ["calls of the elements' cmp, eq, hash, clone", "CPU time of many operations on a large container, against a limit some hundred times what they need"])
P("X04", "Threads see no more than one thread would",
  "A map, set, vector, hash map or shared pointer whose contents may cross threads can be read by several threads at once - looked up, ranged over, iterated with iterators that move on to other threads, compared and cloned - moved to another thread between any two operations, lent out by mutable reference or iterator piecewise to several threads, and dropped on another thread than the one that filled it, with exactly the results a single thread would see, every element dropped once, and no data race. Threads that work on containers of their own (clones of one another, empty ones, copies of a shared pointer) never influence each other, and memory refused in one thread makes no operation fail in another.",
  ["schedules", "histories", "fault_sequences"],
  "all histories on two or more threads that share, exchange or separately own containers, all interleavings, all refusals in one thread",
  "No existing test starts a thread.",
  [MAP, NODE, SEARCH, SET, VEC, ARC, HM], [("manual Send and Sync implementations and the shared empty root", "src/btree/node.rs EMPTY_ROOT_NODE, NodeRef, Root"), ("shared pointers", "src/arc.rs"), ("fallible operations without global state", "src/vec.rs, src/hashmap.rs, src/format.rs")],
  ["answers of every thread, race reports, counts of live elements and blocks"])

# ---------------------------------------------------------------- which programs compile
P("T01", "Try wrappers offer no implicit allocating trait",
  "The try-wrapper types never implement a trait whose interface allocates without being able to report failure: standard cloning, extending, and collecting from an iterator are not available on them, and conversion into them is only offered from storage that needs no allocation. A program using such a trait on a wrapper does not compile.",
  ["programs"],
  "all programs that use the wrapper types",
  "A test that compiles cannot show that another program does not.",
  ["src/lib.rs", VEC, BOX, HM], [("documented list of forbidden traits", "src/lib.rs crate documentation"), ("absence of the implementations", "src/vec.rs TryVec, src/boxed.rs TryBox, src/hashmap.rs TryHashMap")])
P("T02", "Containers and iterators cross threads only when their contents may",
  "An ordered map, set, try-wrapper, and their iterators and entries can be sent to or shared with another thread exactly when their contents (or, for shared views, references to them) can, and the lifetimes in them can be shortened where the standard library's can and never lengthened. A program that would share non-thread-safe contents does not compile.",
  ["programs"],
  "all programs that use the containers from several threads",
  "These are statements about which programs the compiler accepts; tests only compile one.",
  [NODE, MAP], [("manual Send and Sync implementations", "src/btree/node.rs NodeRef, Root, NodeHeader"), ("variance markers", "src/btree/map.rs PhantomData fields")])

P("T03", "No safe program keeps a view past a change, or aliases one",
  "A reference, iterator, range or entry obtained from a container cannot be used after the container was changed, moved or dropped, nor outlive it, nor be duplicated where it gives mutable access; and a container's elements cannot outlive what they borrow if they look at it when dropped. A safe program that does so does not compile, and every program that gives its views up in time does.",
  ["programs"],
  "all combinations of a container, a view of it, a later use of the container and a later use of the view; all element types",
  "No existing test checks that a program is rejected, and the container fork keeps these guarantees by hand (raw nodes, transmuted lifetimes, may_dangle).",
  [MAP, NODE, SET, VEC, BOX, HM], [("lifetimes in method signatures", "src/btree/map.rs, src/btree/set.rs, src/vec.rs, src/hashmap.rs"), ("drop check of maps", "src/btree/map.rs BTreeMap Drop with may_dangle"), ("markers of views", "src/btree/map.rs RangeMut, VacantEntry, OccupiedEntry PhantomData")])
P("T04", "Containers ask of their contents only what the standard ones ask",
  "An ordered map, set, their iterators, views and entries implement copying, comparison, hashing, debug output, iteration traits, indexing and collecting for exactly the contents for which the standard library's counterparts do. Generic code written against the standard containers' bounds compiles with these.",
  ["programs"],
  "all types of keys and values, with every combination of implemented traits",
  "Tests use integers and strings, which implement everything.",
  [MAP, SET], [("bounds of trait implementations", "src/btree/map.rs and src/btree/set.rs impl blocks")])
P("T05", "The macros mean the same in every program",
  "try_vec! and tryformat! compile and mean the same in every kind of crate - with or without the standard library or a declaration of alloc, in any edition, imported, renamed or by path, whatever names the crate itself defines (Vec, Box, Ok, alloc, traits with the same methods) - and in every position of an expression. Every argument is evaluated exactly once, in order, and the result holds exactly the listed values, the repeated value the given number of times, or the formatted text.",
  ["programs"],
  "all surroundings, positions and arguments of a macro call",
  "The macros are only used inside the crate itself, where every name they mention is in scope.",
  ["src/vec.rs", "src/format.rs"], [("try_vec! macro", "src/vec.rs try_vec, try_from_elem, try_from_array"), ("tryformat! macro", "src/format.rs tryformat, try_format")])
P("T06", "Every feature set offers its documented part, std only when asked for",
  "Under every set of features the crate offers the same base interface (vectors, boxes, shared pointers, fallible clone and collection, formatting); std_io adds bounded reading and writing, hashmap (without unstable) the hash map, unstable the ordered collections and try_vec!. Unless std or std_io is selected, the crate and what it offers can be used in a program that has no standard library at all.",
  ["configurations", "programs"],
  "all sets of features, all kinds of programs using any part of the interface",
  "Tests run with the standard library linked in and in two sets of features.",
  ["src/lib.rs", "Cargo.toml", VEC, HM], [("conditional modules and no_std attribute", "src/lib.rs cfg attributes"), ("features", "Cargo.toml [features]")])
P("E01", "Errors tell what failed",
  "When an operation fails because a memory request was refused, the error it returns says that the allocator failed and names the size and alignment of a request that was refused; when a requested size cannot be represented, it says that the capacity overflowed and nothing was requested; an error returned by an element's own fallible clone is passed on unchanged. Operations on I/O report exhausted memory with the out-of-memory kind. (The stable hash map and, in the unstable configuration, the shared pointers make up the layout.)",
  ["histories", "fault_sequences"],
  "all operations, all refusal positions, all impossible sizes, all failing element clones",
  "Tests only ask whether an operation failed, for one impossible size.",
  [VEC, BOX, MAP, NODE, SET, FMT, HM], [("errors from reservations", "src/vec.rs FallibleVec for Vec, src/boxed.rs try_new"), ("errors from nodes", "src/btree/node.rs, src/btree/map.rs"), ("I/O errors", "src/vec.rs std_io")],
  ["error values, compared with the global allocator's record of refused requests"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for o in OUT: f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
