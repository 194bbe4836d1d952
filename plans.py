"""Which binary, configurations and case counts decide each property."""

BASE = [
    "the harness's own allocator, registry and models are correct (they are exercised on every run and by the planted bugs)",
    "callers of one thread, except in X04; x86_64; allocations above 1 GiB are refused by the harness's allocator as on an exhausted machine",
]


def P(bin, level, quick, thorough, note, extra=(), **kw):
    d = dict(bin=bin, level=level, quick=quick, thorough=thorough, note=note, assumptions=BASE + list(extra))
    d.update(kw)
    return d


EX, FE = "exploration", "fault_enumeration"

PLANS = {
    "V01": P("p_vec", EX, [("nb", 60000), ("std", 20000)], [("nb-deep", 2000000), ("std-deep", 1000000), ("nb-asan", 300000)],
             "stateful histories against std Vec semantics, compared by value and identity after every operation"),
    "V02": P("p_vec", FE, [("nb", 40000), ("std", 15000)], [("nb-deep", 1500000), ("std-deep", 700000), ("std-rel", 500000), ("nb-asan", 200000)],
             "every memory request of every generated operation refused in turn; impossible sizes"),
    "V03": P("p_vec", FE, [("nb", 40000), ("std", 10000)], [("nb-deep", 1500000), ("std-deep", 700000), ("nb-asan", 200000)],
             "contents by identity before and after every refusal, then retry"),
    "V04": P("p_vec", EX, [("nb", 40000), ("std", 10000)], [("nb-deep", 1500000), ("std-deep", 700000), ("m32", 3000)],
             "allocator ledger and capacities around reservations and one-at-a-time builds"),
    "V05": P("p_vec", EX, [("nb", 80000), ("std", 20000)], [("nb-deep", 2500000), ("std-deep", 1000000), ("nb-asan", 300000), ("m32", 3000)],
             "conversions, collection, concatenation, iteration and comparison against the source data"),
    "V06": P("p_vec", FE, [("nb", 40000), ("std", 10000), ("nb-asan0", 6000)], [("nb-deep", 1500000), ("std-deep", 700000), ("nb-asan", 400000), ("nb-rel", 300000)],
             "identity registry and ledger under refusals, failing and panicking callbacks"),
    "M01": P("p_btree", EX, [("nb", 24000)], [("nb-deep", 600000), ("nb-asan", 100000)],
             "stateful histories over four maps against std's BTreeMap, by value and identity, with point, range and whole-map verification"),
    "M02": P("p_btree", EX, [("nb", 24000)], [("nb-deep", 600000), ("nb-asan", 100000)],
             "entry protocol histories against std's entry semantics, by identity of stored keys and values, closures counted"),
    "M03": P("p_btree", EX, [("nb", 24000)], [("nb-deep", 600000), ("nb-asan", 100000)],
             "every iterator and range kind driven by generated front/back/size_hint/clone schedules and bound pairs against the model's order, including the documented panics"),
    "M04": P("p_btree", EX, [("nb", 20000)], [("nb-deep", 500000), ("nb-asan", 100000)],
             "append, split_off, collect, extend and clone over maps of generated shapes, every resulting map verified and used further"),
    "M05": P("p_btree", EX, [("nb", 20000)], [("nb-deep", 500000), ("nb-asan", 100000)],
             "equality, order, hash and debug text of maps built by different generated histories, against std's"),
    "M06": P("p_btree", FE, [("nb", 16000)], [("nb-deep", 400000), ("nb-asan", 80000)],
             "every memory request of every generated operation refused in turn; contents compared before and after"),
    "M07": P("p_btree", FE, [("nb", 16000), ("nb-asan0", 2500)], [("nb-deep", 400000), ("nb-asan", 120000)],
             "identity registry and block ledger over whole lifetimes, partially consumed iterators, refusals"),
    "M08": P("p_btree", FE, [("nb", 24000), ("nb-asan0", 3000)], [("nb-deep", 600000), ("nb-asan", 150000), ("nb-rel", 100000)],
             "panicking callbacks at enumerated call positions and inconsistent comparisons, then further use of the survivors"),
    "M09": P("p_btree", EX, [("nb", 16000)], [("nb-deep", 400000)],
             "comparison counts and owned blocks against the bounds of a tree with 4 to 11 entries per node"),
    "S01": P("p_set", EX, [("nb", 50000)], [("nb-deep", 1500000), ("nb-asan", 200000)],
             "stateful histories over three sets against a reference set, by value and identity"),
    "S02": P("p_set", EX, [("nb", 60000)], [("nb-deep", 2000000), ("nb-asan", 200000)],
             "pairs of sets in generated relations (subset, disjoint, interleaved, touching, sixteen-fold sizes); lazy forms stepped with size hints and clones, operators, predicates, all against set theory"),
    "H01": P("p_hash", EX, [("std", 25000), ("hb", 25000)], [("std-deep", 700000), ("hb-deep", 700000), ("std-asan", 100000)],
             "stateful histories against a reference map, both backends, ordinary and colliding hashes"),
    "H02": P("p_hash", FE, [("std", 20000), ("hb", 20000)], [("std-deep", 500000), ("hb-deep", 500000), ("hb-rel", 300000)],
             "every memory request of every generated operation refused in turn; impossible capacities; contents by identity before and after"),
    "H03": P("p_hash", EX, [("std", 25000), ("hb", 25000)], [("std-deep", 700000), ("hb-deep", 700000)],
             "requests counted while promised room is filled, keys overwritten, or maps built one key at a time"),
    "H04": P("p_hash", FE, [("std", 8000), ("hb", 8000)], [("std-deep", 250000), ("hb-deep", 250000), ("std-asan", 60000)],
             "identity registry and ledger under refusals, failing clones, panicking and inconsistent hash and equality"),
    "B01": P("p_box", FE, [("nb", 150000), ("std", 100000), ("std-asan0", 10000)], [("nb-deep", 4000000), ("std-deep", 4000000), ("nb-asan", 400000), ("m32", 4000)],
             "histories over boxes, try-boxes and raw pointers with every request refused in turn; block, alignment, identity and ledger after every step"),
    "B02": P("p_box", FE, [("nb", 150000), ("std", 100000)], [("nb-deep", 4000000), ("std-deep", 4000000), ("std-asan", 400000), ("m32", 4000)],
             "histories over groups of strong and weak pointers with refused constructions; owner counts, identity and ledger after every step"),
    "C01": P("p_clone", EX, [("nb", 160000), ("std", 120000), ("hb", 60000)], [("nb-deep", 2500000), ("std-deep", 2000000), ("hb-deep", 1000000), ("nb-asan", 200000), ("m32", 4000)],
             "values of 55 nested types built from generated words, cloned, then either side changed or dropped; contents, identities and storage addresses of every other value compared after each step"),
    "C02": P("p_clone", FE, [("nb", 100000), ("std", 70000), ("hb", 40000)], [("nb-deep", 1500000), ("std-deep", 1000000), ("hb-deep", 500000), ("std-rel", 300000), ("nb-asan", 150000), ("m32", 4000)],
             "every memory request and every element clone of the fallible clone of a generated nested value refused in turn; result, ledger, registry and the original checked"),
    "F01": P("p_io", FE, [("nb", 150000), ("std", 150000), ("hb", 50000)], [("nb-deep", 6000000), ("std-deep", 6000000), ("hb-deep", 2000000), ("std-rel", 1000000), ("m32", 4000)],
             "generated texts through 16 templates and every kind of formatter call, against ordinary formatting; capacities around the text's length, refused and impossible; every later request refused"),
    "I01": P("p_io", FE, [("nb", 100000), ("std", 100000), ("m32", 480)], [("nb-deep", 5000000), ("std-deep", 5000000), ("std-asan", 300000), ("m32", 6000)],
             "scripted readers (short reads, interruptions, errors, panics, early ends) behind four bounded-read forms, limits around the available bytes, reservation refused or impossible, and every request after the reservation refused"),
    "I02": P("p_io", FE, [("nb", 40000), ("std", 30000)], [("nb-deep", 1500000), ("std-deep", 1500000), ("std-asan", 100000), ("m32", 4000)],
             "histories of writes of every form against a byte-list model, with refused requests and retries"),
    "X01": P("p_misc", FE, [("nb", 40000), ("std", 25000), ("hb", 20000)], [("nb-deep", 1500000), ("std-deep", 800000), ("hb-deep", 800000)],
             "containers of generated contents, then every infallible operation with every request refused and counted, results against a model"),
    "X02": P("p_misc", EX, [("nb", 50000), ("std", 40000), ("hb", 20000), ("nb-asan0", 2000)], [("nb-deep", 2000000), ("std-deep", 1500000), ("nb-asan", 150000)],
             "the same generated history run on plain integers and on another layout, every observation compared; alignment of references and layout of buffers checked"),
    "X03": P("p_misc", EX, [(c, 60000) for c in ("std", "nb", "hb", "no", "so", "nu", "al")], [(c + "-deep", 1500000) for c in ("std", "nb", "hb", "no", "so", "nu", "al")],
             "the same generated histories, with the same refusals, run in seven configurations and their observations compared", diff=True),
    "P01": P("p_cost", EX, [("nb", 14000), ("std", 9000), ("hb", 5000)], [("nb-deep", 600000), ("std-deep", 300000), ("hb-deep", 150000)],
             "generated histories on elements that count their comparisons, hashes and clones, each operation against a bound for its kind; large containers against a generous CPU limit"),
    "X04": P("p_thread", EX, [("nb", 30000), ("std", 15000), ("hb", 8000), ("nb-tsan", 6000), ("std-tsan", 2500)],
             [("nb-deep", 1500000), ("std-deep", 700000), ("hb-deep", 300000), ("nb-tsan1", 300000), ("std-tsan", 150000)],
             "generated histories on several threads (shared readers, containers handed round, values lent out, views and iterators that move on, shared pointers), each answer against a model, data races reported by ThreadSanitizer",
             ["interleavings are those the scheduler produces between generated meeting points; ThreadSanitizer judges happens-before, so a race is reported whether or not it did harm"], repeat=20),
    "T01": P("", EX, [("std", 8000), ("nb", 4000)], [("std", 200000), ("nb", 100000)],
             "generated programs: trait queries over generated wrapper types and uses of the traits, compiled against the crate; verdicts against the documented list", programs=True),
    "T02": P("", EX, [("nb", 14000), ("std", 5000)], [("nb", 300000), ("std", 100000)],
             "generated programs: auto-trait queries, variance conversions, thread crossings and drop-order programs over generated types; verdicts against a model of the language's rules", programs=True),
    "T03": P("", EX, [("nb", 14000), ("std", 6000)], [("nb", 300000), ("std", 100000)],
             "generated programs: a view of a container, a use of the container, a use of the view; verdicts against a model of borrows", programs=True),
    "T04": P("", EX, [("nb", 12000)], [("nb", 200000)],
             "generated programs: trait queries over generated contents, asked of the crate's type and of the standard library's", programs=True),
    "T05": P("", EX, [("nb", 2600), ("std", 1000)], [("nb", 60000), ("std", 25000)],
             "generated programs: uses of the macros with logged arguments in generated surroundings (names of the program's own, kinds of crate, editions), compiled and run; values, order and count against the generator's", programs=True),
    "T06": P("", EX, [("f-none", 400), ("f-hash", 500), ("f-std", 300), ("f-io", 400), ("f-std-hash", 300), ("f-io-hash", 400), ("f-bt", 500), ("f-bt-io", 400), ("f-bt-hash", 400)],
             [(f, 4000) for f in ("f-none", "f-hash", "f-std", "f-io", "f-std-hash", "f-io-hash", "f-bt", "f-bt-std", "f-bt-io", "f-bt-hash-io", "f-bt-hash")],
             "generated programs: parts of the crate used from generated kinds of program (with and without the standard library) under every set of features; verdicts against the documented features", programs=True),
    "E01": P("p_misc", FE, [("nb", 60000), ("std", 60000), ("hb", 20000)], [("nb-deep", 2000000), ("std-deep", 2000000), ("hb-deep", 500000)],
             "histories with refusals at enumerated depths, failing clones and impossible sizes; every error compared with the allocator's record of what was refused"),
}

NA = {}
