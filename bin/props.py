"""Per-property run configuration: budgets (quick, thorough) in seconds per process, extra stages."""
NOT = {}
PROPS = {
    "P01": dict(secs=(12, 240), rule="one case = one random history of builder operations on one zoo type, ended by build or abandonment; distinct = different (type, seed, length)",
                technique="monitored execution: AddressSanitizer, MemorySanitizer, Miri, allocation ledger and drop ledger over random builder histories",
                note="held on the histories run; allocation and drop ledgers are exact for those runs; ASan/Miri see only the accesses made",
                must_observe=["clones of values put", "builder operations", "values built", "builders abandoned", "overwrites of complete values", "variant switches"],
                msan={"quick": dict(secs=6), "thorough": dict(secs=120)},
                miri={"quick": dict(secs=20, seeds=1), "thorough": dict(secs=200, seeds=6)}),
    "P02": dict(secs=(12, 240), rule="one case = one random history of builder operations on one zoo type compared with the model after every step; distinct = different (type, seed, length)",
                technique="online model checker: every builder operation compared with an independent reference model, build result compared with the model's value",
                note="held on the histories run; the reference model shares no code with facet",
                must_observe=["clones of values put", "paths compared", "builder operations", "values built", "incomplete values refused", "operations refused as they should be"]),
    "P03": dict(bin="fvp", secs=(10, 200), rule="one case = one random value of one zoo type walked completely by reflection, or one pair of values of one type compared, ordered, hashed and printed; distinct = different (type, seed, depth)",
                technique="differential monitor: every view reflection offers of a value (fields, variants, items, entries, lookups, scalars, texts, comparisons, hashes) compared with an independent model of the value and with the type's own operations; AddressSanitizer and Miri",
                note="held on the values walked",
                must_observe=["structs walked", "enums walked", "lists walked", "maps walked", "map keys looked up", "absent keys refused", "absent things refused", "views of another kind refused", "fields of other variants refused", "Some walked", "None walked", "scalars read", "compared: equal", "compared: different", "ordered: less", "ordered: not comparable", "values hashed", "values printed", "walked values compared"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P04": dict(bin="fvp", secs=(10, 200), rule="one case = one type's shape held against its declaration and the compiler, or one value of one variant looked at and rebuilt through the shape; distinct = different (type, variant, seed)",
                technique="monitored execution: about 170 derived types generated together with an independent description; layouts and offsets measured on the compiler's own values, values read and rebuilt through the shape and compared natively; AddressSanitizer and Miri",
                note="held on the types generated (see harness/gen/gen_lay.py) and the values built of them",
                must_observe=["shapes compared with the compiler", "fields compared", "variants compared", "field offsets compared", "values looked at through their shape", "values written through their shape", "values whose invariant holds", "values whose invariant fails"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P05": dict(bin="fvc", secs=(10, 200), rule="one case = one pair of values of one type put through every erased operation, or one text parsed; distinct = different (type, value seeds or text)",
                technique="differential monitor: every erased operation run beside the type's own trait implementation (found at compile time) on the same values, with drop and allocation ledgers; AddressSanitizer",
                note="held on the values compared; about 330 types, every combination of derived, scalar and container types listed in DESIGN.md",
                must_observe=["erased clones", "erased drops", "erased defaults", "texts parsed", "texts refused as natively", "hash compared", "ord compared", "eq compared: equal", "eq compared: different", "debug compared", "display compared"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P06": dict(bin="fvc", secs=(10, 200), rule="one case = one random history of erased operations on one container type beside the native container; distinct = different (type, seed, length)",
                technique="differential monitor: every erased container operation run beside the native container on the same values, with drop and allocation ledgers; AddressSanitizer and Miri",
                note="held on the histories run: about 270 container types (lists, arrays, slices, maps with colliding hashers, options, Arc/Weak, NonNull)",
                must_observe=["list pushes", "list items read", "out-of-range accesses refused", "map entries inserted", "map entries replaced", "lookups of absent keys", "map entries iterated", "iterations abandoned", "iterations to the end", "Some replaced by Some", "pointers created", "pointers upgraded", "upgrades of dead pointers refused", "pointers dropped", "options driven", "containers cloned"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P07": dict(bin="fvc", probes=True, secs=(12, 200), rule="one case = one ordered pair of types meeting at every typed operation (equality, read, compare, look up, extract, write, at the top and inside), or one program of safe code tried against the compiler and the sanitizer; distinct = different (types, seeds)",
                technique="monitored execution: every ordered pair of about 370 types offered to every typed operation, judged by the compiler's own TypeId, with drop and allocation ledgers under AddressSanitizer; programs of safe code that would outlive an owner are compiled and, where accepted, run under AddressSanitizer",
                note="held on the pairs and programs tried; shapes written by hand (not by an implementation of the unsafe trait Facet) are trusted",
                must_observe=["pairs of one type", "pairs of two types", "typed reads refused", "comparisons refused", "map lookups refused", "extractions refused", "values extracted", "writes refused", "writes accepted", "writes offered to inner places", "values put into an option", "control faults seen", "probe programs refused by the compiler"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P08": dict(secs=(10, 200), rule="one case = one random value of one zoo type written through every entry point; distinct = different (type, seed, depth)",
                technique="monitored execution: an independent JSON parser and typed decoder as the oracle on every document written; fault-injecting writers; AddressSanitizer",
                note="held on the values written; the reference parser and decoder share no code with facet",
                must_observe=["documents written", "failing writers", "values refused by the writer"],
                miri={"thorough": dict(secs=120, seeds=4)}),
    "P09": dict(secs=(10, 200), rule="one case = one JSON document (random notation, order, escapes, whitespace, mutations of a valid tree) read into one zoo type; distinct = different (type, document)",
                technique="differential monitor: every result of the reader compared with an independent parser and typed decoder; round trips; AddressSanitizer",
                note="held on the documents read; where the text leaves the outcome open (duplicate keys, maps and enums) only panics and wrong values are judged",
                must_observe=["documents read", "documents refused as they should be", "round trips", "texts in escaped units"]),
    "P10": dict(secs=(12, 240), rule="one case = one byte string (truncation, corruption, nesting, random) read into one zoo type; distinct = different (type, bytes)",
                technique="fault injection (every truncation, corruption of bytes and tokens, deep nesting) under AddressSanitizer and Miri, with a totality monitor, a well-formedness oracle and checks of every error's position and rendering",
                note="held on the inputs tried",
                must_observe=["malformed documents", "errors formatted and located", "documents truncated everywhere", "deep nesting swept"],
                miri={"thorough": dict(secs=120, seeds=4)}),
    "P11": dict(secs=(10, 200), rule="one case = one value written, or one message (any legal format of each item, any order, unknown fields, mutations) read into one type; distinct = different (type, message)",
                technique="differential monitor: writer and reader compared with an independent MessagePack codec written from the specification; round trips; AddressSanitizer",
                note="held on the values and messages tried",
                must_observe=["messages read", "messages refused as they should be", "round trips", "values written"]),
    "P12": dict(secs=(10, 200), rule="one case = one byte string (every first byte, truncations, corruptions, huge lengths, nesting) read into one type; distinct = different (type, bytes)",
                technique="fault injection under AddressSanitizer and Miri, with a totality monitor, an allocation meter (peak bytes held against input length) and the reference codec as the oracle for what must be refused",
                note="held on the inputs tried",
                must_observe=["truncated messages", "messages truncated everywhere", "tags and nesting swept", "messages read"],
                miri={"thorough": dict(secs=120, seeds=4)}),
    "P21": dict(secs=(10, 200), rule="one case = one document over attribute-bearing types with a random subset, order and nesting of fields; distinct = different (type, document)",
                technique="differential monitor: independent decoder with the declared attributes as the oracle, in both directions; AddressSanitizer",
                note="held on the documents tried",
                must_observe=["documents read", "documents refused as they should be", "documents written"]),
    "P13": dict(bin="fvf", secs=(14, 200), rule="one case = one TOML document (random notation of a random value: inline, dotted, headed or arrays of tables; truncated everywhere, damaged or deeply nested) read into one type; distinct = different (type, document)",
                technique="differential monitor: every result of the reader compared with what an independent typed decoder makes of the generator's own tree (damaged documents: the tree the TOML parser crate gives); AddressSanitizer",
                note="held on the documents read; the toml_edit crate is trusted for what a damaged document denotes",
                must_observe=["documents read", "documents refused as they should be", "documents generated", "malformed documents", "documents truncated everywhere", "deep nesting swept", "addresses read", "addresses refused as they should be", "borrowed texts read"]),
    "P14": dict(bin="fvf", secs=(10, 200), rule="one case = one YAML document (random notation of a random value: block, flow, quoted, folded, literal; truncated everywhere, damaged or deeply nested) read into one type; distinct = different (type, document)",
                technique="differential monitor: every result of the reader compared with what an independent typed decoder makes of the generator's own tree (damaged documents: the tree the YAML parser crate gives); AddressSanitizer",
                note="held on the documents read; the yaml-rust2 crate is trusted for what a damaged document denotes",
                must_observe=["documents read", "documents refused as they should be", "documents generated", "malformed documents", "documents truncated everywhere", "deep nesting swept"]),
    "P15": dict(bin="fvf", secs=(10, 200), rule="one case = one query string (random order, escapes, unknown and repeated keys, malformed and deep brackets) read into one type; distinct = different (type, string)",
                technique="differential monitor: every result of the reader compared with an independent percent-decoder and bracket parser; AddressSanitizer",
                note="held on the strings read; where a key is given twice either value is accepted",
                must_observe=["documents read", "documents refused as they should be", "deep nesting swept"]),
    "P16": dict(bin="fvf", secs=(10, 200), rule="one case = one argument list (random order of options, flags and positional arguments, option-like values, mistakes) read into one argument struct; distinct = different (type, list)",
                technique="differential monitor: every result compared with the values the list was made from; AddressSanitizer",
                note="held on the lists tried; for a mistaken list only that no value comes back is judged, since the crate reports mistakes by panicking or with an error",
                must_observe=["argument lists read", "flags given", "flags not given", "option values read", "positional arguments read", "wrong argument lists refused"]),
    "P17": dict(bin="fvf", secs=(10, 200), rule="one case = one value printed three times, the second and third time with other contents in its sensitive fields only, under one printer configuration; distinct = different (type, seed, depth, configuration)",
                technique="noninterference monitor: values that differ only in what is sensitive are printed by every entry point under random printer settings and must give the same text; an independent renderer says what must be shown and where a marker stands; AddressSanitizer",
                note="held on the values printed; about 60 types place sensitive fields in structs, tuple structs, enum variants, options, lists, maps, arrays, smart pointers, tuples and generic types",
                must_observe=["pairs differing only in sensitive fields", "values of other kinds", "fields redacted", "values elided at the depth limit", "scalars printed"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P18": dict(bin="fvf", secs=(10, 200), rule="one case = one value printed by every entry point, to a string, a formatter and a sink which fails, under one printer configuration; distinct = different (type, seed, depth, configuration)",
                technique="differential monitor: every text printed compared with an independent renderer working from a model of the value; coloured output taken apart; fault-injecting sinks; AddressSanitizer",
                note="held on the values printed",
                must_observe=["values printed without colours", "values printed in colour", "failing sinks reported", "values elided at the depth limit", "scalars printed", "other kinds printed", "documented types printed", "very deep values printed"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P20": dict(secs=(10, 200), rule="one case = one f64 bit pattern offered to one numeric place; distinct = different (type, bits)",
                technique="differential monitor: the value stored compared with exact rational arithmetic done by the harness, at every edge of every numeric type and on random bit patterns; AddressSanitizer",
                note="held on the bit patterns tried",
                must_observe=["every edge put into every type", "numbers stored", "numbers refused as they should be"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P22": dict(secs=(12, 240), rule="one case = one document made to fail (truncation, corruption, wrong target type, missing or unknown field) or read, into one type; distinct = different (type, bytes)",
                technique="fault injection at every byte of the input with an allocation ledger and a drop ledger as the oracle, under AddressSanitizer, MemorySanitizer and Miri",
                note="held on the failures provoked; the ledgers are exact for those runs",
                must_observe=["failed JSON deserialisations", "failed MessagePack deserialisations", "failed TOML deserialisations", "failed YAML deserialisations", "failed URL-encoded deserialisations", "documents cut everywhere", "documents corrupted everywhere", "documents read"],
                msan={"quick": dict(secs=6), "thorough": dict(secs=120)},
                miri={"thorough": dict(secs=120, seeds=4)}),
    "P23": dict(bin="fvp", secs=(8, 120), rule="one case = one type's shape, and those of its arguments, held against what the compiler says of the type, or one group of shapes asked for its characteristics; distinct = different (type or group)",
                technique="runtime monitoring: the shapes of hundreds of instantiations of the built-in types compared with descriptions which the compiler builds from each type's own arguments, measured offsets and the standard library's constants, under AddressSanitizer (and Miri)",
                note="held on every instantiation listed and every group of shapes drawn; element types stand for the generic parameters",
                must_observe=["affinities compared", "bounds compared", "characteristics of some shapes of a group", "element shapes compared", "failing sinks reported", "groups of shapes compared", "names compared", "shapes compared", "shapes of two crates compared", "smart pointers compared", "tuple fields compared", "type parameters compared", "types visited"],
                miri={"thorough": dict(secs=120, seeds=2)}),
    "P19": dict(bin="fvt", asan=False, secs=(0, 0), rule="one case = one round, a process of its own in which 2 to 8 threads run the same 4 to 20 jobs at once, each in an order of its own (writing, reading, printing, walking, comparing, building values of any zoo type in any format), before or after a single thread runs them; distinct = different rounds",
                technique="race detection: ThreadSanitizer (and Miri) over rounds of concurrent jobs on shared values and shapes; every result compared with the single-threaded one and with the same job's result after other histories; drop ledger over smart pointers shared by threads; handles tried across threads",
                note="held on the schedules that occurred; ThreadSanitizer reports races between accesses which the observed synchronisation leaves unordered, whether or not they collided in time; text that depends on load addresses (addresses in debug output, the hue of coloured scalars) is compared within a process only",
                must_observe=["jobs run beside other threads", "jobs on a value shared by threads", "rounds that began with threads", "rounds that began with a single thread", "smart pointer operations beside other threads", "handles tried across threads", "results compared across histories", "distinct orders of jobs over the threads"],
                tsan={"quick": dict(secs=25), "thorough": dict(secs=400)},
                miri={"thorough": dict(secs=240, seeds=4)}),
}
