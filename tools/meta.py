#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, D, R = "internal/encoder/", "internal/decoder/", "internal/runtime/struct_field.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))

prop("C01", "Marshal writes exactly the PHP serialization of every supported value",
 "For every supported Go value Marshal returns, without error, one complete PHP-serialized value in canonical form: N; for nil, b:, i:, d: and s: scalars with byte-accurate string lengths, and a: arrays whose declared count equals the entries written, with indices 0..n-1 for slices and arrays, the map's own keys (each once) for maps and the field names for structs in declaration order. The output depends only on the value, except for the order of map entries.",
 ["inputs", "programs"], "every value of every supported Go type, of any shape, nesting and size, handed over directly or by pointer",
 "The tests marshal some hundred literal values; the type space is unbounded and the encoder is composed per type at run time, so wrong counts, lengths or paths for untested compositions and sizes go unnoticed.",
 [E + "compile.go", E + "struct.go", E + "map.go", E + "slice.go", E + "array.go", E + "interface.go", E + "struct.go"],
 [("encoder composed per type", E + "compile.go"), ("counts and entries of structs, maps, slices", E + "struct.go, map.go, map_reflect.go, slice.go"), ("string lengths", E + "string.go, bytes.go, buffer.go")],
 "Random types and values against an independent reference encoder; map order is matched structurally.")
prop("C02", "Struct tags mean the same to Marshal and Unmarshal",
 "A struct is written with one entry per exported field that is not tagged '-', in order, under the tag's name when it is a usable name and under the field name otherwise; omitempty leaves out exactly the fields holding a zero value and string writes bools and numbers as strings, also when a field of interface type holds them, through however many pointers; unknown options and other tags change nothing. Unmarshal stores an entry in a field exactly when Marshal would write that field under that key, understands the string form, and never touches other fields.",
 ["inputs", "programs"], "every struct type with any combination of field types and tags, every value and document for it",
 "The tests use a fixed list of struct types; tag parsing, key tables and omitempty/string handling combine with each field type separately, in two packages that share no code for it.",
 [R, E + "struct.go", D + "compile.go", D + "struct.go", D + "wrapped_string.go"],
 [("tag parsing", R), ("field encoders, omitempty", E + "struct.go"), ("string option", E + "int_as_string.go, bool_as_string.go, uint_at_string.go; " + D + "wrapped_string.go"), ("field lookup", D + "struct.go")],
 "Random struct types built by reflection; both directions against reference models and against each other.")
prop("C03", "A value is encoded the same wherever it stands",
 "The bytes that Marshal writes for a value are the same whether the value is marshalled alone, through a pointer, inside an interface, or as element, map value, pointer target or struct field of any enclosing value (apart from pointers that have a MarshalPHP method which the value itself lacks).",
 ["inputs", "programs"], "every supported value and every holder around it",
 "Static and interface-held values take different code paths (compiled encoders and reflection), the tests cover few combinations of value kind and holder.",
 [E + "interface.go", E + "ptr.go", E + "slice_reflect.go", E + "map_reflect.go", E + "struct_reflect.go"],
 [("static path", E + "compile.go"), ("dynamic path", E + "interface.go, *_reflect.go"), ("pointer handling", E + "ptr.go")],
 "Metamorphic: one value in about 25 holders.")
prop("C04", "Unmarshal into an interface yields the documented dynamic types",
 "Decoding any well-formed document into an empty interface succeeds and gives nil, bool, int64, float64, string, or a map whose keys and values follow the same rule recursively, holding exactly the entries of the document.",
 ["inputs"], "every well-formed document within the supported integer range and nesting depth, in every interface-typed destination",
 "The tests decode a few documents into any; key types, nesting and object handling vary with the data.",
 [D + "interface.go", D + "map.go"], [("type chosen from the data", D + "interface.go")],
 "Random documents against a reference decoder, dynamic types compared.")
prop("C05", "Unmarshal fills every supported type with what the document says",
 "For every supported destination type and well-formed document that fits it, Unmarshal succeeds and the destination then holds exactly the values of the document at every level, in every place (field, element, map key and value, pointer target), allocating pointers, slices and maps as needed.",
 ["inputs", "programs"], "every supported destination type and every document that fits it, in any of its spellings (object or array, any entry order, PHP float forms)",
 "Decoders are composed per type at run time; the tests reach a small set of compositions and documents.",
 [D + "compile.go", D + "struct.go", D + "map.go", D + "slice.go", D + "array.go", D + "ptr.go", D + "int.go", D + "uint.go", D + "float.go", D + "string.go", D + "bytes.go", D + "bool.go"],
 [("decoder composed per type", D + "compile.go"), ("per-kind decoders", D + "*.go")],
 "Random types and documents drawn for them, against a reference decoder.")
prop("C06", "Marshal then Unmarshal gives back the same value",
 "For every value whose type both directions support, decoding what Marshal wrote for it into a fresh variable of the same type succeeds and gives an equal value, up to what the format cannot express (nil or empty []byte, omitted zero fields, unexported and ignored fields, nil pointers behind values).",
 ["inputs", "programs"], "every type supported by both directions and every value of it, custom Marshaler and Unmarshaler pairs included",
 "Both directions are tested mostly apart, with hand-written bytes; agreement over the product of types and values is not sampled.",
 [E + "compile.go", D + "compile.go"], [("encoders", E + "*.go"), ("decoders", D + "*.go")],
 "Round trip over random types and values, floats bit by bit.")
prop("C07", "Integers are exact: never truncated, wrapped or misread",
 "Every integer of every width and sign is written as its exact decimal text wherever it stands, and an integer in a document is stored exactly when the destination type can hold it; otherwise Unmarshal reports an error and never stores a wrapped or truncated number.",
 ["inputs"], "all integers in and out of all ten Go integer types, as values, map keys, list indices, struct fields, string-tagged fields and interface values",
 "Boundaries of ten widths times many positions, each with its own code; the tests try a few of them.",
 [D + "int.go", D + "uint.go", D + "interface.go", D + "wrapped_string.go", E + "int.go", E + "uint.go", E + "int_as_string.go", E + "uint_at_string.go"],
 [("range checks", D + "int.go, uint.go"), ("digit parsing", D + "int.go"), ("formatting", E + "int.go, uint.go")],
 "Random integers dense at every limit against big-integer arithmetic; all 8 and 16 bit values exhaustively, all 32 bit ones in the thorough tier.")
prop("C08", "Floats survive exactly in both widths",
 "A float32 or float64 is written as the shortest decimal that reads back as the same value (plain notation within 1e-6 to 1e21, NAN, INF and -INF for the special values), and any decimal text is decoded to the nearest value of the destination's width; a text beyond its range is an error.",
 ["inputs"], "all floats of both widths and all decimal texts, in every position",
 "The 2^64 values and the unbounded texts have many special regions (subnormals, halfway points, exponents, limits), the tests hold a dozen literals.",
 [E + "float.go", D + "float.go", D + "interface.go", D + "wrapped_string.go"],
 [("formatting", E + "float.go"), ("parsing", D + "float.go")],
 "Random bit patterns and decimals against exact rational arithmetic; all float32 values in the thorough tier.")
prop("C09", "Strings are byte exact, whatever they contain",
 "Strings and byte slices of any length and content (quotes, semicolons, braces, NUL, invalid UTF-8, text that looks like serialized data) are written with their length in bytes and read back unchanged, as values, map keys, struct keys, class names and skipped entries.",
 ["inputs"], "all byte strings in all positions",
 "Code that scans for delimiters instead of counting bytes passes tests whose strings hold no delimiters; buffer growth depends on lengths the tests do not have.",
 [E + "string.go", E + "bytes.go", E + "struct.go", D + "string.go", D + "bytes.go", D + "context.go"],
 [("length prefix", E + "struct.go"), ("reading by length", D + "context.go")],
 "Random bytes and every length up to 2600 in a dozen positions.")
prop("C10", "Unmarshal never panics, whatever the bytes and the destination",
 "For any byte sequence and any destination Unmarshal returns, with or without an error, without panicking, crashing or hanging; it reads nothing outside the given bytes, and gives the same result for the same bytes.",
 ["inputs", "programs"], "all byte sequences, all destination types, supported or not",
 "Only inputs that nobody thought of matter here; the tests hold a short list of malformed documents.",
 [D + "context.go", D + "compile.go", "unmarshal.go"], [("bounds checks", D + "context.go"), ("length checks", D + "context.go"), ("rejecting types", D + "compile.go, invalid.go")],
 "Random bytes, token soups and edited documents into ordinary and odd types; a panic, fault or disagreement fails.")
prop("C11", "Truncated documents and trailing data are rejected",
 "Every proper prefix of an accepted document is rejected, and so is an accepted document with any further bytes after it.",
 ["inputs"], "every accepted document of every destination type, every prefix and every suffix",
 "Each decoder checks the end of the data itself; the tests cut a few documents at a few places.",
 [D + "context.go", "unmarshal.go", D + "struct.go", D + "map.go", D + "slice.go"], [("end checks", D + "context.go"), ("validateEndBuf", "unmarshal.go")],
 "Every prefix of random accepted documents, random suffixes.")
prop("C12", "Malformed tokens are rejected wherever they stand",
 "A document that does not follow the serialization grammar (bad type letter, separator, quote, length, digits, boolean, float, key or bracket, or a string length that does not end at its closing quote) is rejected with an error, also where the value is skipped, dynamic or given to a custom Unmarshaler; keys are integers or strings, floats decimal numbers, INF, -INF or NAN; where an array is skipped also its number of entries must be right.",
 ["inputs"], "all malformed documents, at every position of every destination",
 "The same token is read by several decoders and by the skipping code, each with its own checks; the tests try few of the combinations.",
 [D + "context.go", D + "int.go", D + "float.go", D + "bool.go", D + "string.go", D + "map.go", D + "slice.go", D + "struct.go"],
 [("token readers", D + "context.go"), ("skipping", D + "context.go"), ("per-kind checks", D + "*.go")],
 "Edited documents: what a deliberately lenient grammar excludes must be rejected, what is still well formed must decode as the model says.")
prop("C13", "Nesting is handled to the documented depth and beyond it safely",
 "Documents nested up to 10000 levels decode, deeper ones are rejected with an error whatever mix of arrays, objects, typed and dynamic destinations and skipped values they use, and no depth of data exhausts the stack; Marshal encodes acyclic values of thousands of levels.",
 ["inputs"], "all nesting depths in all kinds of destination",
 "The depth counter is passed by hand through every decoder; one missing increment is invisible to the shallow documents of the tests.",
 [D + "type.go", D + "context.go", D + "struct.go", D + "map.go", D + "slice.go", D + "array.go", D + "interface.go", D + "unmarshal_php.go"],
 [("depth counter and limit", D + "*.go"), ("pointer tracking of deep values", E + "ptr.go, context.go")],
 "Random nestings of 1 to 270000 levels into 19 kinds of destination.")
prop("C14", "Cost follows the input: lying lengths allocate nothing",
 "The memory Unmarshal allocates is bounded by a constant times the length of the data, whatever lengths and counts the data declares, and its memory and processor time grow no faster than the data for genuine content; those of Marshal grow no faster than its output, deep values included.",
 ["inputs"], "all documents, also with false declared lengths at any number of places, and all sizes",
 "Tests look at results, not cost, and have no documents whose declared lengths lie.",
 [D + "context.go", D + "slice.go", D + "map.go", D + "interface.go", E + "struct.go"],
 [("reserve", D + "context.go"), ("slice growth", D + "slice.go"), ("map allocation", D + "map.go"), ("output buffer", E + "context.go")],
 "Allocated bytes measured for lying documents and for documents of n and 2n entries.")
prop("C15", "Cyclic values are reported, shared ones are encoded",
 "Marshal of a value that contains itself, through any mix of pointers, maps, slices, arrays and interfaces, returns an error instead of overflowing the stack or looping; a value that merely occurs several times, at any depth, is encoded at each place as if it were a copy.",
 ["inputs", "histories"], "all reference graphs over all types that can refer to themselves, also after earlier failures",
 "The tests hold a few two-node cycles; the detection starts at a depth and keys on identity, so sharing, aliasing and the kind of link all matter.",
 [E + "ptr.go", E + "context.go", E + "slice.go", E + "map.go", E + "interface.go"], [("seen set and start depth", E + "context.go, ptr.go")],
 "Random reference graphs; whether a graph is cyclic is computed independently.")
prop("C16", "Recursive and mutually recursive types work both ways",
 "Types that refer to themselves or to each other through pointers, slices, arrays, maps and struct fields can be marshalled and unmarshalled, whichever of them is used first and in whichever direction, with the same results as any other type.",
 ["programs", "histories"], "all recursive type graphs and orders of first use",
 "Compilation of recursive types goes through placeholders that depend on where the recursion is entered; the tests enter a few types one way.",
 [E + "compile.go", D + "compile.go", E + "compile_cache.go"], [("recursion while compiling", E + "compile.go; " + D + "compile.go"), ("type caches", E + "compile_cache.go; " + D + "compile.go")],
 "About 300 recursive types used in random order, against the reference models and by round trip.")
prop("C17", "Arguments stay unchanged and results belong to the caller",
 "Marshal never modifies the value it is given or the bytes a custom Marshaler returned, Unmarshal never modifies the data; what they return shares no memory with the arguments, with each other, with results of other calls or between the parts of one decoded value, so overwriting or appending to any of them changes nothing else.",
 ["inputs", "histories"], "all values and documents, all later writes of the caller, all later calls",
 "Buffers are pooled and decoded bytes are cut from one copy; the tests compare results at once and never write to them.",
 ["unmarshal.go", E + "marshal.go", E + "context.go", D + "bytes.go", D + "string.go", D + "unmarshal_php.go"],
 [("copy of the output", E + "marshal.go"), ("copy of the data", "unmarshal.go"), ("three-index slices", D + "context.go, unmarshal_php.go")],
 "Everything the caller owns is overwritten up to its capacity and the rest compared; a hash over all reachable memory of the argument.")
prop("C18", "Earlier calls never influence later ones",
 "What Marshal and Unmarshal return depends only on their arguments, whatever was called before in the process: other types and orders of first use, calls that failed, panicked in custom methods, or met cyclic, damaged or very deep data; and no later call changes an earlier result.",
 ["histories"], "all sequences of calls",
 "Contexts, buffers and compiled types are kept between calls; tests run one call per state.",
 [E + "context.go", E + "compile_cache.go", D + "context.go", D + "compile.go", E + "map.go"], [("context pools", E + "context.go; " + D + "context.go"), ("type caches", E + "compile_cache.go; " + D + "compile.go")],
 "Random histories of calls, each compared with stateless reference models.")
prop("C19", "Concurrent calls behave like separate ones",
 "Any number of goroutines may call Marshal and Unmarshal at the same time, also for types used for the first time and for shared values and data: there is no data race, deadlock or crash, and every call returns what it would return alone.",
 ["schedules", "histories"], "all interleavings of calls, first uses of types included",
 "The tests have no concurrent first use of types; races need particular interleavings.",
 [E + "compile_cache.go", E + "context.go", D + "compile.go", D + "context.go", D + "struct.go"], [("copy-on-write caches", E + "compile_cache.go; " + D + "compile.go"), ("pools", E + "context.go; " + D + "context.go")],
 "Goroutines with barrier start over fresh types under the race detector; schedules are sampled, not enumerated.")
prop("C20", "Custom Marshalers are honoured everywhere",
 "A non-nil value whose type has MarshalPHP is written as exactly the bytes that method returns, wherever it stands (directly, by pointer, in interfaces, fields, elements and map values) and whatever its kind; nil ones are written as null, and an error of MarshalPHP makes Marshal return that error and no output. Every occurrence in the output is asked anew; a value is written by its kind where only its pointer type has the method.",
 ["inputs", "programs"], "all types with a MarshalPHP method in their own method set, in all places",
 "Dispatch is decided per kind and place in different functions; the tests have a few struct Marshalers.",
 [E + "marshal_php.go", E + "compile.go", E + "interface.go", E + "ptr.go", E + "struct.go", "marshal.go"], [("dispatch", E + "compile.go, interface.go"), ("call", E + "marshal_php.go")],
 "22 Marshaler types of all kinds inside random types, and each in about 25 holders.")
prop("C21", "Custom Unmarshalers get exactly their part of the document",
 "A destination with UnmarshalPHP is given, once, exactly the bytes of its own value as they stand in the document, wherever it stands and whatever its kind; null resets it without a call, and an error of UnmarshalPHP makes Unmarshal return that error.",
 ["inputs", "programs"], "all types with UnmarshalPHP in all places, all well-formed values given to them",
 "The extent of the value is found by skipping code that the typed decoders do not use; the tests give it a few small values.",
 [D + "unmarshal_php.go", D + "context.go", D + "compile.go", "unmarshal.go"], [("extent of a value", D + "context.go"), ("dispatch", D + "compile.go")],
 "Recording Unmarshalers in random types and 14 kinds of place.")
prop("C22", "Unknown entries are skipped without a trace",
 "Entries of a document for which the destination has no place (unknown struct keys, indices past an array) may hold any well-formed value, at any level and position, and leave the result exactly as if they were absent.",
 ["inputs"], "all documents with any extra entries",
 "Skipping is separate code per token; the tests skip a few scalars.",
 [D + "context.go", D + "struct.go", D + "array.go"], [("skipValue", D + "context.go"), ("unknown fields", D + "struct.go")],
 "Metamorphic: the same document with and without extra entries.")
prop("C23", "Decoding over existing contents changes only what the document names",
 "Fields and map entries that a document does not mention keep their prior values and existing pointers and maps are filled in place, while slices and what empty interfaces hold are replaced (the old ones are not written to), Go arrays start from zeros and each map entry starts from a fresh value; null leaves scalars, []byte, structs and arrays as they were and resets pointers, maps, other slices and interfaces.",
 ["inputs", "histories"], "all prior contents and all documents",
 "The tests decode into zero values nearly everywhere.",
 [D + "struct.go", D + "map.go", D + "ptr.go", D + "array.go", D + "slice.go", D + "interface.go"], [("null handling per kind", D + "*.go"), ("reuse of pointers and maps", D + "ptr.go, map.go")],
 "Random documents over random contents against the reference decoder, identities compared.")
prop("C24", "Values that do not fit the destination are errors, not guesses",
 "A value of a kind the destination does not take (or a number out of its range, or text its string option cannot parse) makes Unmarshal return an error; no conversion between kinds happens silently.",
 ["inputs", "programs"], "all pairs of value kind and destination kind, in all places",
 "Every decoder rejects on its own, at each place of use; the tests cover part of the matrix.",
 [D + "int.go", D + "uint.go", D + "float.go", D + "bool.go", D + "string.go", D + "bytes.go", D + "slice.go", D + "array.go", D + "map.go", D + "struct.go", D + "wrapped_string.go"],
 [("per-kind rejection", D + "*.go")],
 "Kind-by-kind matrix and random misfits against the reference decoder.")
prop("C25", "Unsupported types and unusable arguments give errors",
 "Marshal of a value containing something it cannot encode (channels, functions, complex numbers, unsupported map keys, embedded structs, struct fields that point to pointers, the string option on lists, maps, structs and byte slices; in fields of such types also when omitempty would leave them out) and Unmarshal that reaches a destination it cannot fill, or is given nil, a non-pointer, a nil pointer or no data, return an error (and no output) every time, without panicking and without changing the argument; fields that are ignored may have any type.",
 ["inputs", "programs"], "all unsupported types in all places, all unusable arguments",
 "The tests try single cases at the top level.",
 ["unmarshal.go", E + "compile.go", E + "struct.go", E + "map.go", D + "compile.go", D + "invalid.go", E + "error.go", "internal/errors/error.go"], [("type checks", E + "compile.go; " + D + "compile.go"), ("argument checks", "unmarshal.go")],
 "48 unsupported types in random holders, both directions.")
prop("C26", "List entries land at their indices, in any order",
 "An array decoded into a slice or Go array stores each entry at its integer key, in any order and with gaps, missing elements being zero whatever the destination held before; slices end at the highest index, entries past a Go array are dropped, and negative or non-integer keys are errors.",
 ["inputs"], "all index sequences and destination lengths and prior contents",
 "The tests use dense ascending lists nearly everywhere.",
 [D + "slice.go", D + "array.go"], [("growth and placement", D + "slice.go"), ("bounds", D + "array.go")],
 "Index sequences of all shapes against the reference decoder.")
prop("C27", "Objects decode like arrays, whatever their class",
 "An object (O:) is accepted wherever an array with string keys is, with the same result, and its class name, of any bytes, has no influence.",
 ["inputs"], "all documents and class names",
 "The tests have a handful of objects with plain class names.",
 [D + "context.go", D + "struct.go", D + "map.go", D + "interface.go"], [("class name skipping", D + "context.go")],
 "Metamorphic: the same document with arrays turned into objects and back.")

TECH = {
 "C19": "property-based testing: generated concurrent call mixes under the race detector, differential against reference models",
 "C18": "property-based testing: generated call histories, differential against stateless reference models",
 "C03": "property-based testing: metamorphic relation over generated values and holders",
 "C06": "property-based testing: round trip over generated types and values",
 "C07": "property-based testing against big-integer arithmetic, with exhaustive small widths",
 "C08": "property-based testing against exact rational arithmetic, exhaustive float32 in the thorough tier",
 "C10": "fuzzing with generated and mutated inputs (structure-aware), crash and agreement oracle",
 "C12": "fuzzing with mutated documents against a grammar oracle",
 "C14": "property-based testing: bounds on allocation and growth of processor time over generated inputs",
 "C15": "property-based testing: generated reference graphs against an independent cycle oracle",
 "C17": "property-based testing: ownership invariant by overwriting everything the caller owns",
 "C22": "property-based testing: metamorphic relation (extra entries)",
 "C27": "property-based testing: metamorphic relation (arrays as objects)",
}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
 notes="No hooks in /repo: everything is checked through the public API. Replay a failing case with ./check.sh replay FILE.")
for p, note in P:
    id = p["id"]
    m["checks"].append(dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
        technique=TECH.get(id, "property-based testing: generated inputs against a reference model"), level="exploration",
        level_note=note + " Sampled, not exhaustive; trusts the reference models in harness/."))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
