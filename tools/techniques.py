# id -> (technique, level_note); read by gen_manifest.py
NA = {}
T["C01"] = ("differential runtime monitor: decode vs an independent SCALE model and parity-scale-codec", "Each execution is judged exactly (value, type ids, unread bytes) by a model that shares no code with the crate and is itself cross-checked against parity-scale-codec on derived Rust types; reach is what the random type/value generator covers.")
T["C02"] = ("round-trip monitor: decode then encode, bytes compared with the model's", "Exact byte comparison per execution over random types (wrapper-heavy included), derived Rust types, long and deep values; reach is the generator's.")
T["C07"] = ("hostile-input workload with an allocation-counting, hang-watching monitor and a reference decoder as oracle", "Each execution is judged exactly (accept/refuse, value, unread bytes, peak memory) at every decoding entry point; exhaustive over short inputs for six types, otherwise reach is the mutator's. Skips only inputs on which the dependency's error path is exponential (nesting above 12) or element types are zero-sized.")
T["C08"] = ("differential runtime monitor: tracing decoder vs plain decoder on valid and damaged bytes", "Exact comparison per execution (success, value with type ids, unread bytes), two resolvers.")
T["C09"] = ("runtime monitor of tracing errors against a reference walk of the same bytes", "Path, reason and rendered partial value are compared exactly per execution; the reference walk and renderer share no code with the crate.")
T["C10"] = ("differential runtime monitor over all entry points and three resolvers", "Exact comparison per execution of values, type ids, unread bytes and encoded bytes.")
T["C03"] = ("runtime monitor: encode output vs an independent model's canonical bytes, over randomly coerced values", "Exact byte comparison per execution; every supported coercion is applied at random depths and combinations, and each is counted and required to have occurred.")
T["C04"] = ("runtime monitor: successful encodes are decoded by an independent model and their leaves compared; known misfits must be refused", "A successful encode is judged leaf by leaf (so a value dropped, duplicated, truncated or misrepresented shows); reach is the generator's (near misses, values of other types, arbitrary values).")
T["C05"] = ("runtime monitor comparing the output buffer before and after every encode, failing ones included", "Exact per execution; failing composites are produced by spoiling late leaves.")
T["C06"] = ("work-counting monitor: a counting type resolver and allocator bound the work of each encode", "Counts type lookups and allocations against a cubic bound in the combined nesting (some thirty times what is observed), which any doubling per level exceeds well within the depths explored.")
T["C11"] = ("round-trip monitor: write in every style, parse, compare", "Exact comparison per execution, with hostile names, strings and characters; reach is the generator's.")
T["C12"] = ("differential runtime monitor: the parser vs an independent reference parser of the documented syntax", "Acceptance, value, unread rest, error kind and byte location are compared exactly on every text; exhaustive over short texts of the syntax's own symbols, otherwise grammar-directed generation and mutation.")
T["C13"] = ("recording monitor: custom parsers log every offer and are checked against the reference parser's own offers", "Each offer (text, order, place), consumption and error location is compared exactly per execution.")
T["C14"] = ("differential runtime monitor: hex parser and formatter vs reference functions, exhaustive over short texts", "Exact comparison per execution.")
T["C15"] = ("differential runtime monitor: SS58 parser vs an independent base58/BLAKE2b implementation", "Exact comparison per execution, over valid addresses of every prefix size and length and damaged ones.")
T["C16"] = ("runtime monitor: written text and every call of printers and formatters vs an independent reference writer", "Exact comparison per execution over random values and settings (order of settings, indents, several formatters), every Display impl, and builders reused across values and failed writes.")
T["C17"] = ("fault injection: a writer, context printer and formatters that fail at each place in turn, monitored", "Every place of every write of each case fails once (a sample for very long texts); swallowed failures, writes after one, and output that is no prefix all show.")
T["C18"] = ("recording serializer and replaying deserializer as monitors of every serde call, against a reference conversion; JSON round trips; failing formats", "Every call of the serde data model is recorded and compared exactly per execution, in human-readable and binary formats, with false size hints and injected failures; reach is the value and tree generators'.")
T["C19"] = ("round-trip monitor over Rust types: to_value and from_value vs a model of each type's shape, through every deserializer and equivalent shapes", "Exact comparison per execution for about a hundred types (also with serde attributes, and from SCALE bytes); reach is the data generator's.")
T["C20"] = ("runtime monitor: whatever a conversion accepts is checked against a relation between value and data, on near misses and other types' values; integers exhaustively at every boundary", "Each accepted conversion is judged by a relation written per Rust type; integer conversions are decided both ways (accepted exactly if in range).")
T["C21"] = ("runtime monitor logging every call of the mapping function and every drop of a context, against a reference mapping", "Calls, places, drops and results are compared exactly per execution, also when the function panics on the way.")
T["C22"] = ("differential runtime monitor: lookups, accessors, constructors and equality vs reference functions on the public data", "Exact comparison (by address for lookups) per execution; numbers at every boundary and all of 16 bits.")
T["C23"] = ("runtime monitor over generated programs: literals are generated, compiled against the crate, run and compared with plain constructors and the parser; embedded expressions log their evaluation", "Exact comparison per literal; malformed text must be refused by the compiler at its own line; reach is the generator's. Keys are identifiers and string literals; parenthesised expressions, blocks and function calls at the head of a value are the macro's own syntax (composites and variants) and are not generated as expressions.")
T["C24"] = ("AddressSanitizer and Miri over the workloads of all the other checks, with std's unsafe-precondition checks; a monitor of every slice of text handed back", "Judged by the sanitizer's and the interpreter's own reports, on some 600,000 cases (ASan) and several hundred (Miri) per quick run; left-over text is checked byte by byte, exhaustively over short texts of awkward pieces. std itself is not instrumented by ASan (its allocator calls are).")
T["C25"] = ("differential runtime monitor: the same workload run in builds with each set of features (with std, and without it in wasm), every result compared", "Results (values, text, bytes, errors with their places, unread input) are digested per case and compared exactly across eight builds; a set which no longer compiles shows as well. The workload is regenerated from the same seeds in each build; all builds share one char table (nightly std).")
T["C26"] = ("differential runtime monitor: the same workload run natively, in 32-bit wasm and (under Miri) on a big-endian target, every result compared", "Exact comparison per case, about 300,000 on 32 bits and several hundred on big-endian (the interpreter is slow); two defects of scale-decode on 32-bit machines are known findings, and inputs that hit those are left out of the rest. Conversions to usize/isize, which differ by definition, are left out.")
T["C27"] = ("differential runtime monitor: each case's result compared between orders, repetitions, threads, fresh processes and processes that did a lot; ThreadSanitizer and Miri's random schedules over concurrent runs", "Exact comparison per case; races on shared data are judged by ThreadSanitizer (std instrumented as well) and Miri. Reach over schedules: thousands of fresh processes whose first calls come from several threads, eight free-running threads, and over a hundred random schedules under Miri per quick run.")
T["C28"] = ("runtime monitor: values are spoiled at one chosen place, and the error's path and reason compared with the place and the change", "Exact comparison of path and reason per execution, by every way of encoding; composites within Compact, whose path is another, are not spoiled.")
T["C29"] = ("instruction counts under callgrind as a monitor of growth: each operation on inputs of one shape in three sizes (64 times apart), compared per byte or item", "Instruction counts are deterministic, so a growth of more than 2 (found: at most 1.5) is no matter of load; a quadratic term shows once it makes up half of the work at 32000 items or 3600 levels. Reach is the shapes generated: hundreds per quick run, over ten kinds of operation.")
