#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the text stays reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

DEC="src/scale_impls/decode.rs"; ENC="src/scale_impls/encode.rs"; TR="src/scale_impls/tracing_decoder/"
FS="src/string_impls/from_string.rs"; TS="src/string_impls/to_string.rs"
SER="src/serde_impls/"; VT="src/value_type.rs"

p("C01","Decoding valid bytes yields exactly the encoded value",
 "For every type description and every valid SCALE encoding of a value of that type, decoding succeeds and yields exactly that value: every number, character, string, bit, field name and variant name, fields and elements in order, signed as signed and unsigned as unsigned. Each node of the result carries the id of the type it was decoded from. Exactly the encoding's bytes are consumed: whatever follows them is left unread.",
 ["inputs","configurations"],"all type registries (primitives, compacts, sequences, arrays, tuples, structs, enums with arbitrary indices, bit sequences of any store/order), all values of them, all trailing bytes",
 "The tests decode a few dozen hand-picked values with the type ids thrown away; the space is type shapes x values x trailing bytes.",
 [DEC,"src/lib.rs"],[("value visitor",DEC+" DecodeValueVisitor"),("named/unnamed composite split",DEC+" visit_composite")],["scale::decode_as_type"])
p("C02","Decoding then encoding reproduces the same bytes",
 "For every type and every canonical SCALE encoding of a value of it, encoding the decoded value back to the same type succeeds and reproduces byte for byte the bytes that were decoded.",
 ["inputs","configurations"],"all type registries and values, including nested single-field wrappers, zero-sized types and collections of collections",
 "The tests round trip a handful of values; the wrapper-skipping heuristics of encoding interact with nesting in combinations nobody lists by hand.",
 [ENC,DEC],[("try as-is, then unwrap the type, then peel the value",ENC+" encode_composite")],["scale::decode_as_type","scale::encode_as_type"])
p("C03","Encoding gives the canonical bytes, through every supported coercion",
 "Encoding a value to a type that it matches yields the canonical SCALE encoding of it. So it does when the value differs only in ways encoding supports: named fields in another order or with unused extra fields, named given for unnamed fields and the reverse by position, single-element wrappers missing or added around primitives and multi-field structs (arrays of one missing too, around a multi-field struct or where some wrapper is left), an unused field beside the only one of a single-field struct, signed for unsigned numbers and the reverse when in range, lists of booleans or of 0/1 numbers for bit sequences, named lists for sequences and arrays. The context of a value never influences its encoding.",
 ["inputs","configurations"],"all type registries, values, contexts, and combinations of supported coercions at any depth",
 "Tests apply each coercion once, on its own, to one small type.",
 [ENC],[("encode attempts",ENC+" encode_composite"),("bit sequences from lists",ENC+" encode_vals_to_bitsequence"),("type unwrapping",ENC+" find_single_entry_with_same_repr")],["scale::encode_as_type"])
p("C04","A successful encode never misrepresents the value",
 "Whenever encoding any value to any type succeeds, the bytes are a complete valid encoding of that type, and decoding them gives only leaves (numbers, strings, characters, booleans, bits, variant names) that were in the value, in the value's own order when it has no named fields, with nothing invented, altered or duplicated. A value that the type cannot represent (number out of range, unknown variant, missing field, wrong array length, non-bit in a bit sequence, mismatching kind) is refused with an error.",
 ["inputs","configurations"],"all pairs of value and type, in particular near-miss pairs made by mutating matching ones",
 "Tests contain a few negative cases; the set of mismatching pairs is unbounded.",
 [ENC],[("range checks and shape errors",ENC+" encode_primitive, encode_vals_to_bitsequence, visit_array")],["scale::encode_as_type"])
p("C05","Encoding only ever appends to the output buffer",
 "Encoding leaves the bytes already in the output buffer untouched and appends bytes that do not depend on them. When encoding a composite value to a type fails, nothing at all is appended.",
 ["inputs","fault_sequences"],"all values, types and prior buffer contents, with the mismatch at any depth and position",
 "Tests always start with an empty buffer and ignore it after an error.",
 [ENC],[("temporary buffers per attempt",ENC+" encode_composite")],["scale::encode_as_type"])
p("C06","Encoding work stays bounded under nested wrappers",
 "Encoding a value through nested single-element wrappers, on the value's side, the type's side or both, alone or between variants, tuples, structs and arrays, and whether it succeeds or fails anywhere on the way, takes work that grows at most polynomially with the nesting depth.",
 ["inputs"],"all nesting depths (here to 24), all mixes of wrapper kinds, matching and mismatching leaves",
 "One timing test on one succeeding shape.",
 [ENC],[("attempt sequence",ENC+" encode_composite")],["calls made to the type resolver during scale::encode_as_type"])
p("C07","Hostile bytes are accepted or refused correctly, never crash",
 "Decoding any bytes against any type (of bounded nesting) returns normally: no panic, abort or endless loop, by both the plain and the tracing decoder, and by every other decoding entry point. It succeeds exactly when the bytes begin with a valid encoding of the type, with the value that encoding denotes. Memory used is bounded by a constant factor of the input length, whatever lengths the bytes claim, for element types that occupy at least one byte.",
 ["inputs","fault_sequences"],"all byte strings (truncations, bit flips, length inflation, random) against all types",
 "Tests feed well-formed bytes, plus one or two bad ones.",
 [DEC,TR+"visitor.rs"],[("pre-allocation from claimed length",DEC+" to_unnamed_composite!"),("capacity cap",TR+"visitor.rs MAX_CAPACITY")],["scale::decode_as_type","scale::tracing::decode_as_type","allocator"])
p("C08","The tracing decoder agrees with the plain decoder",
 "On any type and any bytes the tracing decoder succeeds exactly when the plain decoder does, with an equal value (type ids included) and the same bytes consumed.",
 ["inputs"],"all types and byte strings, valid and invalid",
 "The two decoders are separate code; the tests exercise the tracing one on a few inputs.",
 [TR+"visitor.rs",DEC],[("parallel visitor implementations",TR+"visitor.rs TraceDecodingVisitor")],["scale::tracing::decode_as_type"])
p("C09","Tracing errors name the failing place and show what was decoded",
 "When tracing decode fails somewhere inside a value, the error's text gives the path (fields, indexes and variant names, outermost first) that leads to the very item that could not be decoded, the underlying reason, and the part of the value decoded before it, each annotated with its type id; displaying the error never fails.",
 ["inputs","fault_sequences"],"all types, all valid encodings cut short or corrupted at every byte position",
 "One or two fixed failing inputs are tested by text.",
 [TR+"error.rs",TR+"path.rs",TR+"visitor.rs"],[("context merging",TR+"error.rs with_outer_context"),("path building",TR+"path.rs")],["Display of TraceDecodingError"])
p("C10","All decoding and encoding entry points agree",
 "Decoding a list of fields gives the same named or unnamed composite, and leaves the same bytes unread, as decoding a struct with those fields; encoding a composite as fields gives the same bytes as encoding it as such a struct. Decoding through the generic decoding traits gives the same value without type ids, and the choice of type resolver makes no difference.",
 ["inputs","configurations"],"all field lists, values, byte strings and resolver implementations",
 "Each entry point is tested on its own with a couple of inputs.",
 [DEC,ENC,"src/lib.rs"],[("field decoding",DEC+" decode_composite_as_fields, DecodeAsFields impls"),("field encoding",ENC+" EncodeAsFields impls")],["scale::decode_as_fields","EncodeAsFields","DecodeAsFields","DecodeAsType"])
p("C11","Written values parse back to themselves in every style",
 "Every value without 256-bit integers, with any strings, characters, field names and variant names, written in the compact, normal or pretty style or by Display, parses back to an equal value (a non-negative signed number comes back unsigned) with nothing left over.",
 ["inputs","configurations"],"all values, names and characters; all styles and whitespace indents",
 "Tests round trip short lists of tame values; names and characters range over all of Unicode.",
 [TS,FS,"src/string_impls/string_helpers.rs"],[("writer",TS+" fmt_value"),("parser",FS+" parse_value"),("escapes","src/string_impls/string_helpers.rs")],["stringify::to_string","stringify::from_str"])
p("C12","The parser accepts exactly the documented syntax",
 "On any string the parser returns normally. It yields a value exactly when the string begins with one in the documented syntax, with that value and exactly the unparsed rest of the string; otherwise an error whose kind and byte location point into the text at the offending place, and never silently wraps or truncates a number.",
 ["inputs"],"all strings: written values, token soups, mutations, arbitrary Unicode",
 "Tests list some tens of strings.",
 [FS],[("recursive descent over yap tokens",FS+" parse_value and parse_*")],["stringify::from_str"])
p("C13","Custom parsers see the right text and consume what they say",
 "Custom parsers are offered, in the order added and at every place a value may start, exactly the text not yet parsed; one that declines changes nothing for those after it or for normal parsing. One that accepts has its value used and parsing resumes exactly after what it consumed, and an error it raises ends parsing and is reported with its location relative to the whole input.",
 ["inputs","histories"],"all inputs, including multi-byte text, nested positions and several parsers of which some decline after reading ahead",
 "Tests use the two built-in parsers on ASCII input.",
 [FS],[("cursor hand-off",FS+" parse_value custom parser loop")],["stringify::from_str_custom"])
p("C14","Hex text and byte lists convert faithfully both ways",
 "The hex parser turns 0x followed by pairs of hex digits of either case into precisely those bytes, stops at the first non-alphanumeric character, leaves the rest unread, refuses odd lengths and other letters with an error at the right place, and declines anything else. The hex formatter writes exactly the non-empty unnamed composites of numbers 0-255 as such text, declines all others without writing, and the two are inverse.",
 ["inputs"],"all strings and all values",
 "Tests compare some fixed strings with another hex crate.",
 ["src/string_impls/custom_parsers/hex.rs","src/string_impls/custom_formatters/hex.rs"],[("nibble loop","src/string_impls/custom_parsers/hex.rs parse_hex"),("byte-list test","src/string_impls/custom_formatters/hex.rs format_hex")],["custom_parsers::parse_hex","custom_formatters::format_hex"])
p("C15","SS58 addresses parse to their bytes only if the checksum holds",
 "Every well-formed SS58 address (any network prefix of one or two bytes, any account of up to 124 bytes; longer ones parse to theirs or are declined) parses to exactly its account bytes, consuming exactly the address. Text with a wrong checksum, bad prefix or non-base58 characters, booleans, plain numbers, and identifiers that begin a variant are declined, with nothing consumed.",
 ["inputs"],"all prefixes, account bytes, corruptions and following texts",
 "Tests hold a few real addresses.",
 ["src/string_impls/custom_parsers/ss58.rs"],[("checksum and prefix","src/string_impls/custom_parsers/ss58.rs parse_ss58_bytes")],["custom_parsers::parse_ss58"])
p("C16","Writing follows the configured style, context and formatters",
 "The text written depends only on the value and the settings: compact has no spacing, normal is one line with single spaces, pretty puts each item on its own line indented by the leading indent plus one step per nesting level. Every value is preceded by its own context in angle brackets if asked for, and custom formatters are consulted in order for each value, the first to accept replacing the default text for exactly that value. Two writes of the same value are identical.",
 ["inputs","configurations"],"all values, styles, indents, contexts and sets of formatters",
 "Tests assert a few literal outputs.",
 [TS],[("style state",TS+" Formatter indent_step/unindent_step"),("formatter chain",TS+" print_custom_format")],["stringify::to_writer_custom","Display"])
p("C17","Write failures are reported, never swallowed",
 "If the underlying writer, a context printer or an accepting custom formatter fails at any point, writing stops there and returns the error; everything written until then is a prefix of the full output. Without such a failure, writing a value free of 256-bit integers never fails, and one with them fails rather than writing something misleading.",
 ["inputs","fault_sequences"],"all values and styles, with the failure injected at every write",
 "No test injects a failing writer.",
 [TS],[("? on every write",TS+" fmt_*")],["ToWriterBuilder::write","stringify::to_writer"])
p("C18","Values survive serde: self-describing formats and back",
 "Serializing a value gives the documented form (names and values for variants, maps for named and lists for unnamed composites, plain primitives given in 64 bits if they fit, 256-bit numbers as their 32 bytes, bits as a specially named map; the length of each list and map announced), without loss of any digit or bit, and reports every failure of the format. Deserializing a value, composite, variant or primitive from a self-describing format gives the one with the same content or an error, whatever lengths the format announces. A value converted via serde into a value is unchanged (256-bit numbers become lists of their bytes).",
 ["inputs","fault_sequences"],"all values, all trees of serde data (every call of the data model, in human-readable and binary formats), false size hints, failing formats",
 "Tests cover single small values of each kind.",
 [SER+"serialize.rs",SER+"deserialize.rs",SER+"deserializer.rs",SER+"bitvec_helpers.rs"],[("Serialize/Deserialize impls",SER+"serialize.rs, deserialize.rs"),("bit sequence marker",SER+"bitvec_helpers.rs")],["Serialize for Value","Deserialize for Value","serde::from_value"])
p("C19","Rust data converts to values and back without loss",
 "Converting any serializable Rust data (structs, tuples, enums of every variant kind, options, maps keyed by strings or characters, sequences, bytes, integers, strings, characters, unit) to a value succeeds with its documented shape, and floats and maps keyed otherwise are refused. Converting that value back to the same Rust type gives equal data, and so does any equivalent value: named fields in another order, beside unknown ones or listed in order, optional fields left out, integers of the other signedness, newtype structs given as just their content. A value decoded from SCALE bytes of a Rust type likewise converts into the equal Rust data.",
 ["inputs"],"all data of some hundred Rust types covering the serde data model and serde's attributes, nested, and all equivalent shapes of it",
 "Tests convert one instance per shape.",
 [SER+"serializer.rs",SER+"deserializer.rs"],[("ValueSerializer",SER+"serializer.rs"),("Deserializer for Value",SER+"deserializer.rs")],["serde::to_value","serde::from_value"])
p("C20","Converting a value to a Rust type is exact or an error",
 "Converting any value into any Rust type, through every deserializer there is (value, definition, composite, variant, primitive), returns normally and either gives data that faithfully reflects the value or an error. Numbers never wrap, truncate or turn into floats, and convert to exactly those integer types that hold them. Lengths must fit (lists too long or too short for a struct or tuple are refused), fields must be there unless optional and only once, variants must exist.",
 ["inputs"],"all values against some hundred Rust target types, including boundary numbers and near misses of every shape",
 "Tests only try fitting values.",
 [SER+"deserializer.rs"],[("number and shape dispatch",SER+"deserializer.rs deserialize_* methods")],["serde::from_value"])
p("C21","Mapping contexts touches every context once and nothing else",
 "Mapping the contexts of a value, composite or variant applies the function to each node's own context exactly once and changes nothing else: shape, order, names and primitives stay. Removing contexts is mapping them to nothing, mapping by identity changes nothing, and mapping twice equals mapping by the composition.",
 ["inputs"],"all values with distinct contexts on every node, all mapping functions",
 "Tests map trivial contexts.",
 [VT],[("map_context",VT)],["Value::map_context","Value::remove_context"])
p("C22","Lookups, accessors and constructors mirror the data",
 "Looking up by name gives the first field of that name, by index the field or element at that position, and nothing for anything absent or out of range, at any depth and without panicking. Accessors return the stored primitive for its own kind only; lengths, emptiness and iteration agree with the stored items; each constructor and conversion builds exactly the value it names with numbers preserved in full, and values are equal exactly when their kinds, names, contents and contexts are.",
 ["inputs","histories"],"all values, location sequences and primitive inputs",
 "Doc tests show one example path.",
 ["src/at.rs",VT],[("At impls","src/at.rs"),("constructors and From impls",VT)],["At::at","as_* accessors","Composite::{len,is_empty,values,into_values}","From impls"])
p("C23","The value! macro builds what it spells",
 "Any literal in the macro's syntax (named and unnamed composites, variants, nested, trailing commas, embedded expressions, quoted names) expands to the value that it spells, equal to the one built by hand and (where the text is also the parser's syntax, up to the type of its numbers) to the one parsed from the same text; each embedded expression is evaluated once, in order of appearance; text outside the syntax (a missing comma, key, colon or value) is refused by the compiler.",
 ["programs"],"all macro inputs up to a nesting bound",
 "Tests spell out a couple of dozen literals.",
 ["src/macros.rs"],[("tt-muncher","src/macros.rs value_internal!")],["value!"])
p("C24","No memory error or undefined behaviour on any input",
 "No input text, bytes, type or value drives the library into a memory error or undefined behaviour; in particular any string slice it hands back is valid text at a character boundary of the input.",
 ["inputs"],"all inputs to parsing (multi-byte text around hex digits in particular), decoding, encoding, writing and conversion",
 "Ordinary tests run without a sanitizer and do not notice silent corruption.",
 ["src/string_impls/custom_parsers/hex.rs"],[("unchecked str conversion","src/string_impls/custom_parsers/hex.rs parse_hex")],["custom_parsers::parse_hex under AddressSanitizer and Miri"])
p("C25","Features are additive: behaviour is the same with any set of them",
 "The crate compiles with each set of its features, without the standard library too, and what each set offers (parsing, writing, decoding, tracing, encoding, lookups, conversions) gives exactly the same results and errors with every set that offers it: turning on a feature adds interfaces and changes no behaviour.",
 ["configurations","inputs"],"all sets of features, with and without the standard library, and all inputs to each interface",
 "Tests run with all features on, on one machine, with the standard library.",
 ["src/lib.rs","src/scale_impls/mod.rs","src/string_impls/mod.rs","src/serde_impls/mod.rs"],[("feature gates","src/lib.rs"),("cfg'd impls",VT)],["whole public API under each feature set"])
p("C26","Behaviour does not depend on the machine's word size or byte order",
 "On machines with 32-bit words, or the other byte order, every operation gives the same results and errors on the same input as on a 64-bit little-endian one: lengths, indexes, discriminants and numbers beyond the word size are neither cut nor wrapped.",
 ["configurations","inputs"],"all inputs to parsing, writing, decoding, tracing, encoding, lookups, hex, SS58 and serde conversions; a 32-bit and a big-endian target",
 "Tests run on one kind of machine only, while the crate is used in wasm.",
 [DEC,ENC,SER+"bitvec_helpers.rs"],[("index and length conversions",DEC),("variant and length casts",ENC),("integer dispatch",SER+"deserializer.rs")],["whole public API on wasm32 and s390x"])
p("C27","Calls are independent: no hidden state, in any order or thread",
 "What a call returns depends on its arguments only: not on calls before it, successful or failed, on their order, on the thread it is made from or others running at the same time, or on the process. Calls from several threads on shared values, types and parsers do not race.",
 ["histories","schedules"],"all sequences of calls, reorderings and concurrent threads",
 "Tests make each call once, from one thread.",
 ["src/lib.rs"],[("whole crate","src/")],["whole public API"])
p("C28","Encode errors name the place that does not fit, and why",
 "When a value of the shape of a type (any depth and mix of composites, tuples, lists, arrays, variants, bits, wrappers) differs from it in one place, encoding fails with an error whose path is exactly the way to that place (names of named fields, else positions) and whose reason is what is wrong there: number out of range (with the number), no such variant (its name), missing field (its name), wrong length (both lengths), wrong kind of value.",
 ["inputs"],"all types, values and places in them, with all ways of not fitting",
 "Tests check that encoding fails, hardly where or why.",
 [ENC],[("error locations",ENC+" encode_composite"),("the error kept of several attempts",ENC+" original_error")],["scale::encode_as_type","EncodeAsType","EncodeAsFields","scale_encode::Error"])
p("C29","The work done grows no faster than the input and output",
 "The work of parsing (also with custom parsers), writing in any style, decoding, tracing, encoding (to any type, succeeding or failing, fields in any order), hex, serde conversions, lookups, cloning, comparing and mapping is in proportion to the size of what goes in and comes out: with tens of times as many items, fields, characters or bits, each takes about the same number of instructions as before; so too with thousands of levels of nesting (but for tracing, which keeps a path for each level, pretty output, which indents each level, and decoding that fails deep inside, which is up to scale-decode). Nothing is scanned, copied or shifted again for each item.",
 ["inputs"],"all inputs of growing length or depth, malformed ones too",
 "Tests use small inputs, on which quadratic work cannot be told from linear; untrusted input makes it a denial of service.",
 ["src/string_impls/from_string.rs","src/string_impls/to_string.rs",DEC,ENC,SER+"deserializer.rs",VT,"src/at.rs"],[("parser position and rest of input","src/string_impls/from_string.rs"),("fields lined up by name",ENC+" encode_composite_fields"),("lists decoded item by item",DEC)],["stringify::from_str","to_writer_custom","scale::decode_as_type","scale::encode_as_type","scale_value::serde","At::at"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
