#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run to regenerate.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

WIP = "facet-reflect/src/wip/mod.rs"
p("P01", "Incremental builder: exactly-once drop, no leak, no bad access",
  "Whatever sequence of operations is applied to the incremental value builder (selecting fields, variants, elements, keys, values or options; putting, overwriting, parsing or defaulting; popping; failing; building; or abandoning it at any point), every value handed to it is dropped exactly once or becomes part of the built value, and nothing it holds is leaked. Every block it allocates is freed once, with the size and alignment it was allocated with. Memory is never read before it is initialised or after it is freed.",
  ["histories", "fault_sequences"],
  "all operation sequences over all supported shapes (structs, tuples, enums, options, lists, maps, nested), with failure or abandonment after any operation",
  "The tests build a few dozen fixed values along the happy path; only a few drop a half-built value, and none runs under a memory checker that counts drops and allocations for arbitrary interleavings of puts, revisits, errors and abandonment.",
  [WIP, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/wip/iset.rs", "facet-reflect/src/wip/flat_map.rs", "facet-reflect/src/wip/heap_value.rs", "facet-core/src/ptr.rs"],
  [("frame stack and tracked init state", WIP + " Wip, Frame, IState"), ("cleanup of abandoned builders", WIP + " impl Drop for Wip"), ("moving elements into containers", WIP + " pop_inner"), ("ownership transfer to the result", "facet-reflect/src/wip/heap_value.rs HeapValue, Guard")],
  [("istates", "initialisation state of every place no longer on the frame stack"), ("ISet", "which fields of a frame are initialised")])
p("P02", "Incremental builder: builds exactly what was put, or reports why not",
  "Building succeeds if and only if every field of the value (every field of the selected variant, for an enum) has been given a value, and the built value then holds at every position the last value put there. A value of another type than the one selected, or an operation that does not apply to the selected place, is refused with an error and never reinterpreted. What the builder reports of itself meanwhile (the selected shape and variant, which fields are set, the path to the selected place) is true. No builder operation that reports errors panics.",
  ["histories", "inputs"],
  "all operation sequences over all supported shapes, including orders, re-visits, variant switches and wrong-type puts",
  "Tests fill each value once, in one order; the quantifier is over every order and repetition of operations, including reopening a place already filled and switching variants midway.",
  [WIP, "facet-reflect/src/wip/enum_.rs", "facet-reflect/src/wip/iset.rs", "facet-core/src/types/option.rs", "facet-core/src/types/list.rs", "facet-core/src/types/map.rs"],
  [("completeness check", WIP + " Wip::build"), ("init bookkeeping", WIP + " mark_field_as_initialized, mark_fully_initialized; iset.rs"), ("type check on put", WIP + " put_shape"), ("variant selection", "facet-reflect/src/wip/enum_.rs variant")])
p("P03", "Reflection reads report exactly the value's contents",
  "Exploring any value by reflection yields exactly what the value holds: each field under its own name, index and type, the active enum variant and its payload, list, array and slice lengths and elements in order, map entries (each exactly once) and lookups, option presence and contents. Asking for something absent or of another kind gives an error or nothing, never some other value. Printing, comparing, ordering, hashing and scalar reads through reflection give the same answers as the native operations, and an operation that a shape does not offer is reported as absent.",
  ["inputs", "programs"],
  "all values of all reflected types",
  "Tests peek at one or two hand-written values per kind; offsets, discriminants, niche layouts, padding and out-of-range accesses vary with every type and value.",
  ["facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/struct_.rs", "facet-reflect/src/peek/enum_.rs", "facet-reflect/src/peek/list.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/peek/option.rs", "facet-reflect/src/scalar.rs"],
  [("erased value", "facet-reflect/src/peek/value.rs Peek"), ("variant detection", "facet-reflect/src/peek/enum_.rs variant_index/discriminant"), ("map iteration and lookup", "facet-reflect/src/peek/map.rs")])
p("P04", "Derived shapes describe the type the compiler laid out",
  "For every type with derived reflection, the shape agrees with the compiler: size and alignment, number, order and names (after rename) of fields, each field's offset and field type, flags and attributes, every variant's name, discriminant, kind and payload layout, the enum's representation, type name with its generic arguments, and doc comments. Values written through the shape's offsets and discriminants are the values the type's own code sees.",
  ["programs"],
  "all derive inputs: struct, tuple, unit, generic and const-generic types, enums of every representation with explicit or implicit discriminants, attributes, visibility, lifetimes, raw identifiers",
  "The derive is a program transformation: tests check a couple of dozen hand-written items, the property ranges over all items the macro accepts.",
  ["facet-derive-emit/src/lib.rs", "facet-derive-emit/src/process_struct.rs", "facet-derive-emit/src/process_enum.rs", "facet-derive-parse/src/lib.rs", "facet-core/src/types/struct_.rs", "facet-core/src/types/enum_.rs", "facet-core/src/types/field.rs", "facet-core/src/macros.rs"],
  [("struct emission", "facet-derive-emit/src/process_struct.rs"), ("enum emission, shadow structs and discriminants", "facet-derive-emit/src/process_enum.rs"), ("grammar", "facet-derive-parse/src/lib.rs")])
p("P05", "Type-erased operations agree with the type's own operations",
  "For every type with a shape, each erased operation that the shape offers (default, clone, debug, display, equality, ordering, hashing, parsing, dropping) has the same result and side effects as the type's native operation on the same values, and produces only valid values of that type. An operation that the native type lacks is never offered under its name with another meaning, scalars and derived types offer every one they support, and marker traits (Send, Sync, Copy, Eq, Unpin) are reported only when the type has them.",
  ["inputs", "programs"],
  "all scalar, standard-library, tuple, reference, smart-pointer, collection and user types with a shape, and all their values (parse: all strings)",
  "The existing vtable tests compare a few values of a few types and mostly check that output is printed; agreement is over all values and strings, and ownership effects (does a clone own its memory, is a tuple's payload dropped) are not observed at all.",
  ["facet-core/src/spez/mod.rs", "facet-core/src/macros.rs", "facet-core/src/types/value.rs", "facet-core/src/types/characteristic.rs", "facet-core/src/impls_core/scalar.rs", "facet-core/src/impls_core/tuple.rs", "facet-core/src/impls_core/array.rs", "facet-core/src/impls_core/slice.rs", "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/smartptr.rs", "facet-core/src/impls_std/hashmap.rs"],
  [("auto-specialised vtable", "facet-core/src/spez/mod.rs and macros.rs value_vtable!"), ("hand-written vtables", "facet-core/src/impls_*")])
p("P06", "Erased container operations behave like the native container",
  "Operating on a list, map, option, array, slice or smart pointer through its shape (create, push or insert, get, length, contains, iterate, replace, borrow, clone, drop) has the same observable effect as the native operation on the same container: inserted values are moved in exactly once, a replaced value is dropped once, indexing returns that element and nothing out of range, iteration yields every entry exactly once, and reference counts change as they would natively.",
  ["histories", "inputs"],
  "all operation sequences on Vec, HashMap, BTreeMap, Option, [T; N], &[T], Arc and Weak of all element types",
  "Tests exercise one short script per container; wrong indices, repeated keys, replacement, iterator abandonment and drop counts over arbitrary histories are not observed.",
  ["facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_alloc/smartptr.rs", "facet-core/src/impls_std/hashmap.rs", "facet-core/src/impls_core/array.rs", "facet-core/src/impls_core/slice.rs", "facet-core/src/impls_core/option.rs", "facet-core/src/types/list.rs", "facet-core/src/types/map.rs", "facet-core/src/types/option.rs", "facet-core/src/types/smartptr.rs"],
  [("list vtable", "facet-core/src/types/list.rs"), ("map vtable and iterator", "facet-core/src/types/map.rs"), ("option vtable", "facet-core/src/types/option.rs"), ("smart pointer vtable", "facet-core/src/types/smartptr.rs")])
p("P07", "Type identity: distinct types never pass for one another",
  "Two shapes compare equal exactly when they describe the same type, including its generic arguments. A typed read, extraction, comparison, lookup or write through an erased value happens only when the types are the same and is refused otherwise, so safe code can never view a value as a type it is not or keep using it after its owner is gone.",
  ["inputs", "programs"],
  "all pairs of reflected types and every typed entry point of the safe API",
  "Tests try one matching and at most one mismatching type per entry point; the property is over all pairs, including look-alikes with the same layout, name or fields.",
  ["facet-core/src/typeid.rs", "facet-core/src/types/mod.rs", "facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/wip/heap_value.rs", WIP],
  [("type id", "facet-core/src/typeid.rs ConstTypeId; types/mod.rs PartialEq for Shape"), ("typed access", "Peek::get, Peek equality/ordering, HeapValue::materialize, Wip::put")])
p("P08", "JSON output is valid JSON denoting exactly the value",
  "Serialising any supported value to JSON gives a syntactically valid document which an independent JSON parser reads back as exactly that value: every string (control characters, quotes, backslashes, any Unicode), every integer digit for digit, every finite float to the same bits, every field under its (renamed) name, every element in order, every map entry once. A float that JSON cannot express is written as null. Both entry points write the same text, and a value of an unsupported kind is reported as an error by the entry point that can report one, never as wrong text.",
  ["inputs"],
  "all values of all types built from supported scalars, structs, tuples structs, enums, options, lists and maps",
  "Tests compare a few literal documents; string escaping, number printing, separators and nesting range over all values.",
  ["facet-json/src/serialize.rs"],
  [("iterative serializer", "facet-json/src/serialize.rs serialize"), ("string escaping", "facet-json/src/serialize.rs write_json_string / write_json_escaped_char")])
p("P09", "JSON input is read as exactly the value it denotes",
  "Deserialising a valid JSON document of a type the reader supports yields exactly the value the document denotes according to an independent JSON parser, whatever its whitespace, key order, escapes, number notation, or nesting; numbers are read exactly, or reported as out of range, and never silently truncated or wrapped. Anything that facet serialises to JSON deserialises to an equal value. A document that lacks a required field, or has a value of the wrong type, gives an error. (A document may be refused for nesting beyond a fixed depth; which of two values of a repeated key counts is left open.)",
  ["inputs"],
  "all JSON documents and all supported target types",
  "Tests use a few dozen short literals; escapes, large integers, key orders, repeated nesting with partially filled siblings and wrong types are an unbounded input space.",
  ["facet-json/src/deserialize.rs", "facet-reflect/src/wip/mod.rs", "facet-reflect/src/wip/put_f64.rs"],
  [("iterative JSON reader", "facet-json/src/deserialize.rs from_slice"), ("number conversion", "facet-reflect/src/wip/put_f64.rs")])
p("P10", "JSON reader is total: any bytes give a value or a located error",
  "For any byte string and any supported target type, the JSON reader terminates and returns either a value or an error; it never panics, aborts, overflows the stack, or reads outside the input. Input that is not a well-formed JSON document (truncated, trailing garbage, bad tokens, unbalanced brackets) is always an error. Every error names a position inside the input, and can be formatted, with or without the input containing multi-byte or invalid UTF-8.",
  ["inputs", "fault_sequences"],
  "all byte strings, in particular every truncation and mutation of valid documents, deep nesting, and invalid UTF-8, for all supported types",
  "Tests feed about ten malformed inputs; the space of malformed inputs is unbounded and most error paths are never run.",
  ["facet-json/src/deserialize.rs", "facet-json/src/deserialize/error.rs"],
  [("reader", "facet-json/src/deserialize.rs"), ("error rendering", "facet-json/src/deserialize/error.rs")])
p("P11", "MessagePack bytes denote exactly the value, both ways",
  "Serialising a supported value (structs of strings, booleans, integers of up to 64 bits and such structs) to MessagePack gives bytes that an independent MessagePack decoder reads as exactly that value, as a map keyed by field name. Deserialising any valid encoding of a document of the type (any integer, string, array or map format the specification allows, any field order, unknown extra fields) gives exactly the value it denotes, or an error if it does not fit the type; integers are never truncated or wrapped. What facet serialises, it reads back equal.",
  ["inputs"],
  "all values of supported types and all encodings of them (every length and integer format)",
  "Tests cover one value per format family; boundaries between formats (fixint/8/16/32/64, fixstr/8/16/32) and skipped unknown values range over all sizes.",
  ["facet-msgpack/src/to_msgpack.rs", "facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/constants.rs"],
  [("encoder", "facet-msgpack/src/to_msgpack.rs"), ("decoder", "facet-msgpack/src/from_msgpack.rs Decoder")])
p("P12", "MessagePack reader is total on arbitrary bytes",
  "For any byte string and any supported target type the MessagePack reader terminates and returns a value or an error: it never panics, overflows the stack, reads outside the input, or allocates out of proportion to the input. A truncated message is always an error.",
  ["inputs", "fault_sequences"],
  "all byte strings, in particular every truncation and mutation of valid messages, huge declared lengths, deep nesting, and invalid UTF-8",
  "Tests feed a handful of malformed messages; lengths, tags and truncation points form an unbounded space.",
  ["facet-msgpack/src/from_msgpack.rs", "facet-msgpack/src/errors.rs"],
  [("decoder", "facet-msgpack/src/from_msgpack.rs Decoder, skip_value")])
p("P13", "TOML input is read as exactly the value it denotes, or refused",
  "Deserialising a TOML document into a supported type yields exactly the value that an independent TOML parser gives for it, whether tables are written inline, as headers, as arrays of tables or with dotted keys; numbers are exact or refused; an optional field that is absent is None. A missing required field, wrong type, unknown variant, out-of-range number or malformed document gives an error, and no input makes the reader panic or overflow the stack.",
  ["inputs"],
  "all TOML documents and all supported target types",
  "Tests use small fixed documents; the equivalence of notations and the error paths range over all documents.",
  ["facet-toml/src/lib.rs", "facet-toml/src/to_scalar.rs", "facet-toml/src/error.rs"],
  [("TOML walker", "facet-toml/src/lib.rs"), ("scalar conversion", "facet-toml/src/to_scalar.rs")])
p("P14", "YAML input is read as exactly the value it denotes, or refused",
  "Deserialising a YAML document into a supported type yields exactly the value an independent YAML reader gives for it; numbers are exact or refused, and never wrapped or truncated. A missing or unknown field, wrong type, unsupported construct or malformed document gives an error, and no input makes the reader panic or overflow the stack.",
  ["inputs"],
  "all YAML documents and all target types",
  "The crate has a handful of tests over tiny documents; signs, quoting, unsupported kinds and malformed input are untested.",
  ["facet-yaml/src/lib.rs"],
  [("YAML walker", "facet-yaml/src/lib.rs")])
p("P15", "URL-encoded input is read as exactly the value it denotes, or refused",
  "Deserialising a query string into a supported type assigns to every field, flat or bracket-nested, exactly the percent-decoded value given for its key, independently of the order of the pairs and of unknown keys. A missing field or unparsable number gives an error, and no input makes the reader panic or overflow the stack.",
  ["inputs"],
  "all query strings, including percent-escapes, malformed and deeply nested brackets, and duplicate keys",
  "Tests cover about ten query strings; key orders, escapes and bracket shapes are unbounded.",
  ["facet-urlencoded/src/lib.rs"],
  [("nested parameter tree", "facet-urlencoded/src/lib.rs NestedValues"), ("value walker", "facet-urlencoded/src/lib.rs")])
p("P16", "Command-line arguments land in exactly the declared fields",
  "Parsing a valid argument list gives every named, short and positional field exactly the value supplied for it, in whatever order the options appear, and flags are true exactly when given. Values keep their exact text or number. A list with a missing, unknown or unparsable argument never yields a value.",
  ["inputs"],
  "all well-formed argument lists of all supported argument structs",
  "Tests cover three or four command lines; orders, interleavings of options with positionals, and option-like values are not sampled.",
  ["facet-args/src/lib.rs"],
  [("argument walker", "facet-args/src/lib.rs from_slice")])
p("P17", "Sensitive fields never appear in pretty-printed output",
  "The contents of a field marked sensitive never reach the output of the pretty-printer, wherever the field sits (struct, tuple struct, enum variant, nested in options, lists or maps), whatever its type and whatever the printer's settings; its name still appears, with a redaction marker. Fields not marked sensitive are shown.",
  ["inputs", "configurations", "programs"],
  "all values, all placements of sensitive fields and all printer configurations",
  "Tests print one struct with one sensitive field; placement, nesting and configuration multiply.",
  ["facet-pretty/src/printer.rs", "facet-pretty/src/display.rs", "facet-core/src/types/field.rs", "facet-derive-emit/src/process_enum.rs"],
  [("redaction", "facet-pretty/src/printer.rs FieldFlags::SENSITIVE"), ("flag emission", "facet-derive-emit field flags")])
p("P18", "Pretty-printing is total, faithful and respects its settings",
  "The pretty-printer terminates without panicking on every value and configuration. Its output names the type and contains every non-sensitive scalar, field name, variant name and list item of the value in order, each exactly once, nested with balanced delimiters and the configured indentation (lists of bytes appear as hexadecimal, as one value; the entries of maps are summarised by a placeholder); doc comments appear where asked for and only there. With colours off it contains no escape sequences of its own and equals the coloured output stripped of them. Values below the configured depth limit are elided and nothing else is. A sink that fails is reported, and every entry point prints the same text.",
  ["inputs", "configurations"],
  "all values and printer configurations",
  "Snapshot tests pin a few outputs; structure, depth limits and colour handling range over all values and settings.",
  ["facet-pretty/src/printer.rs", "facet-pretty/src/color.rs", "facet-pretty/src/ansi.rs", "facet-pretty/src/display.rs"],
  [("printer", "facet-pretty/src/printer.rs PrettyPrinter")])
p("P19", "Reflection and formats are deterministic and race-free across threads",
  "Using shapes, reflection, builders and every format from many threads at once is free of data races, and each thread obtains the result a single-threaded run obtains: results depend only on the inputs, not on the schedule, on earlier calls, or on other threads. A handle that refers to a value of unknown type does not cross threads, so that safe code cannot race through it.",
  ["schedules", "histories"],
  "all interleavings of concurrent users and all orders of calls",
  "The tests of a crate never share a shape or a value between threads on purpose, and never compare repeated or reordered calls.",
  ["facet-core/src/types/mod.rs", "facet-core/src/types/value.rs", "facet-core/src/types/smartptr.rs", "facet-reflect/src/peek/value.rs", "facet-reflect/src/wip/mod.rs", "facet-json/src/serialize.rs", "facet-json/src/deserialize.rs"],
  [("static shapes and vtables shared by all threads", "facet-core Facet::SHAPE"), ("shared smart pointers", "facet-core/src/types/smartptr.rs")])
p("P20", "Numeric conversion into typed places is exact or refused",
  "When a floating-point number is offered to a numeric place, the place then holds exactly that number (rounded to nearest only if the place is a floating-point one), or an error is returned and nothing is stored; no integer is ever truncated, wrapped or saturated and no non-zero type receives zero.",
  ["inputs"],
  "all f64 bit patterns against every numeric type",
  "Tests try a few values per type; the boundaries (2^53, type limits, fractions, NaN, infinities, negative zero) of twenty types are not covered.",
  ["facet-reflect/src/wip/put_f64.rs"],
  [("conversion", "facet-reflect/src/wip/put_f64.rs try_put_f64")])
p("P21", "Field attributes mean the same in every document",
  "In every JSON document: a field with a default takes its declared default exactly when it is absent, a renamed field is written under its new name and read from it, unknown fields are refused exactly when the type denies them and otherwise ignored whatever their content, and a type's declared invariant holds for every value that is built. The position and order of fields make no difference.",
  ["inputs", "programs"],
  "all subsets and orders of fields present, all unknown-field contents, all attribute combinations, at every nesting level",
  "Tests try one document per attribute; the combinations of attributes, subsets of present fields, and nesting are not enumerated.",
  ["facet-json/src/deserialize.rs", "facet-json/src/serialize.rs", "facet-derive-emit/src/lib.rs", "facet-derive-emit/src/process_struct.rs", "facet-reflect/src/wip/mod.rs", "facet-core/src/types/field.rs"],
  [("defaults and unknown fields", "facet-json/src/deserialize.rs"), ("attribute emission", "facet-derive-emit/src/lib.rs"), ("invariant check", WIP + " build")])
p("P22", "A failed deserialisation releases everything it had built",
  "Whenever deserialising from any format fails, at whatever point of the input and for whatever reason (truncation, corruption, wrong type, missing or unknown field, failed invariant), every partially built value is dropped exactly once and all memory is released, with no invalid memory access.",
  ["fault_sequences", "inputs", "crash_points"],
  "every truncation point and every single-token corruption of documents of every format and supported type",
  "Tests assert that an error is returned for some inputs, never what happened to the half-built value, and sample only a few failure points.",
  ["facet-reflect/src/wip/mod.rs", "facet-json/src/deserialize.rs", "facet-msgpack/src/from_msgpack.rs", "facet-toml/src/lib.rs", "facet-yaml/src/lib.rs", "facet-urlencoded/src/lib.rs"],
  [("builder cleanup", WIP + " impl Drop for Wip"), ("error exits of each reader", "facet-*/src")])
p("P23", "The shapes of built-in types describe those types",
  "For every built-in type facet supports and every instantiation of the generic ones (numbers, text, paths, addresses, options, lists, slices, arrays, maps, tuples, smart pointers, marker types), however nested and wherever it was asked for, the shape is that type's: its id and layout are the compiler's; its kind, affinity, bit width, signedness, smallest and largest value and special floats are the type's; element, key, value, pointee and counterpart shapes and type parameters are those of the right argument; the elements of a tuple lie at the offsets the compiler gave them; an array has its length; the printed name is the type's name down to exactly the depth asked for, and a failing sink is reported; equal types have equal shapes with equal hashes, in any crate, and different types different ones; what a shape or a group of shapes (all, any, none) says of characteristics agrees with what its vtable offers.",
  ["inputs", "configurations"],
  "every type constructor over every kind of argument, nested to any depth, named in any crate",
  "Tests look at a handful of shapes (Vec, Option, a few tuples); the implementations are const evaluated per instantiation, so each combination of arguments is a program of its own.",
  ["facet-core/src/impls_core/scalar.rs", "facet-core/src/impls_core/tuple.rs", "facet-core/src/impls_core/smartptr.rs", "facet-core/src/impls_alloc", "facet-core/src/impls_std", "facet-core/src/types"],
  [("built-in shapes", "facet-core/src/impls_*"), ("names and characteristics", "facet-core/src/types/value.rs, characteristic.rs, mod.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
