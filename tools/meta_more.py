prop("C05", "Any input ends in a result or an error, never in a crash or a hang",
     "Whatever bytes are given and whatever sequence of decoder calls follows, lexing, parsing and decoding with either engine terminate with a result or an error: no panic, no endless loop, no unbounded memory, no modified input. A loop over a collection makes exactly as many iterations as the collection has items, or stops because of an error, and once everything was read the decoder reports the end of the stream.",
     ["inputs", "histories"], "all byte strings (valid UTF-8 or not) x all finite sequences of decoder calls",
     "the tests feed a few dozen well-behaved sources with the calls that fit them",
     [YL+"tokenizer.go", YP+"parser.go", YR+"reader.go", YR+"any.go", GR+"reader.go", GR+"any.go", "engines/yayamls/pkg/cpaccessor/"],
     m(("backtracking parser with dead-end detection", YP+"parser.go"), ("route of visited nodes and iterators", YR+"reader.go"), ("checkpointing accessor", "engines/yayamls/pkg/cpaccessor/")),
     "runtime monitor: panic/CPU/memory watchdogs and call-contract assertions over hostile inputs and random call histories",
     "exploration: hundreds of thousands of hostile sources per run, executed in watched worker processes (CPU budget, address-space limit, stack limit)")
prop("C06", "Malformed documents are reported and no content is silently dropped",
     "A source that is not well-formed YAML - unbalanced, mismatched or unclosed brackets and quotes, missing or repeated commas, invalid escapes or block headers, inconsistent indentation, entries of another kind inside a collection, content after a complete node, repeated properties - is reported as an error and never decoded partially. If a source is accepted, each piece of scalar content it holds is delivered exactly once and in order.",
     ["inputs"], "all sources: valid documents with arbitrary structural damage, and documents broken by construction at any nesting",
     "error tests hold about a dozen sources; the ways to break a document are unbounded",
     [YP+"block.go", YP+"flow.go", YP+"documents.go", YP+"parser.go", YP+"internal/balancecheck/", YL+"context.go", "engines/yayamls/yamlchar/transformations.go"],
     m(("rest of the source must be empty", YP+"parser.go"), ("balance checker", YP+"internal/"), ("rollback of partially read productions", YP)),
     "runtime conservation monitor over damaged documents plus rejection oracle over documents broken by construction",
     "exploration: a malformed source is judged only when yaml.v3 also rejects it; two recorded leniencies are in known_findings.jsonl")
prop("C07", "Typed reads return the exact value or an error, never an approximation",
     "A typed read (Integer, Unsigned, Float, Boolean, String, Timestamp, at any bit size) returns precisely the value the scalar denotes under the YAML 1.2 core schema, correctly rounded for floats, or reports an error and returns the zero value: integers are never truncated, wrapped, or read from text that only resembles a number, and values that do not fit the requested size are refused. The outcome is the same wherever the scalar stands: root, element, key, value, or behind an alias.",
     ["inputs"], "all scalar texts x all typed calls x bit sizes 8..64 x positions x both engines",
     "the tests read a handful of numbers; every type edge, base, exponent and near-miss text is a separate case",
     ["engines/yayamls/schema/", "engines/goyaml/schema/", "engines/pkg/schema/", YR+"reader.go", GR+"reader.go"],
     m(("schema To* conversions", "engines/pkg/schema/"), ("schema Is* predicates", "engines/yayamls/schema/"), ("expectations of a reader", YR+"expected.go")),
     "runtime monitor: arbitrary-precision reference (math/big) judges every recorded typed read over edge-directed scalar texts",
     "exploration: texts are drawn around every type edge; the reference is about 300 lines over math/big")
prop("C08", "The decoder honours its error and position contract on every call history",
     "For any history of decoder calls: the first error sticks and every later call returns a zero value without touching the document; a read of the wrong kind reports ErrDenied (errors.Is), a read past the end ErrEndOfStream, and a custom error is returned as it was added; TryNull consumes exactly a null and nothing else; collection loops end when the items are exhausted or an error happened; with multiple denied errors enabled all denials are collected while reading goes on.",
     ["inputs", "histories"], "all documents x all finite sequences of right and wrong decoder calls x both engines x both denial modes",
     "tests call the methods that fit the document; wrong calls, calls after errors and past the end combine without bound",
     [YR+"reader.go", YR+"expected.go", YR+"error.go", GR+"reader.go", GR+"expected.go", "decode.go", GR+"error.go"],
     m(("sticky fatal error and denial list", YR+"reader.go"), ("expectations", YR+"expected.go"), ("route of visited nodes", GR+"reader.go")),
     "online trace checker: a cursor model predicts the outcome of each call in random call histories on the real decoders",
     "exploration: the model knows the engines' documented differences (multi-deny position, TryNull probing)")
prop("C09", "Aliases and merge keys stand for the anchored value wherever they are read",
     "An alias reads as the value of the latest preceding anchor of that name, through every call (typed, Any, Raw, Skip) and in any order of calls, including after the anchored node itself was skipped; a merge key adds the pairs of its mapping or list of mappings to Any's result, explicit and earlier keys taking precedence wherever the merge key stands. An undefined or self-containing alias ends in an error on every way of reading, never in a crash or an endless walk.",
     ["inputs", "histories"], "all documents with anchors, redefinitions, aliases, merge keys x ways of reading x both engines",
     "tests hold a few alias documents read one way; chains, redefinition, cycles and skipped anchors multiply",
     [YR+"anchors.go", YR+"any.go", YR+"reader.go", GR+"reader.go", GR+"any.go", YW+"writer.go"],
     m(("anchorsKeeper", YR+"anchors.go"), ("merge in anyBuilder", YR+"any.go"), ("cycle detection in the route", YR+"reader.go"), ("mergeMaps", GR+"any.go")),
     "runtime monitor: reference evaluation of anchored documents vs recorded Any/typed/Raw/Skip reads; cycle watchdog",
     "exploration: a document is judged only when yaml.v3 confirms the reference; late binding inside reused collections of redefined anchors is a known finding")
prop("C10", "Any, Raw, Skip and Node take exactly one subtree",
     "At any position of any document, Any, Raw, Skip and Node take exactly the node at that position: Any returns its complete generic value, the bytes of Raw and the tree of Node read back as precisely that value on their own (aliases to anchors outside included), and reading continues right behind the node with nothing lost or read twice.",
     ["inputs", "histories"], "all documents x all positions x all interleavings of subtree calls with typed calls x both engines",
     "tests take one subtree of one document; what follows a taken subtree and what precedes it is never varied",
     [YR+"reader.go", YR+"any.go", GR+"reader.go", GR+"any.go", YW+"writer.go", GW+"writer.go"],
     m(("Raw via ASTWriter", YR+"reader.go"), ("Raw via yaml.v3 encoder", GR+"reader.go"), ("Skip and iterators", YR+"iterator.go")),
     "online trace checker: model cursor demands exact subtree content and position after each recorded call",
     "exploration: content of goyaml Raw is judged only for documents yaml.v3 itself re-emits correctly")
prop("C11", "A builder yields a tree only for a complete call sequence and reports the rest",
     "For any sequence of inserter calls, Result (and every Encode method) succeeds exactly when the calls formed one complete value, and then the tree holds precisely the inserted values in order. Unfinished collections, keys without values, ends without a matching start, a second root, raw fragments that are malformed or hold several documents, and errors passed to InsertRaw or InsertRawText are reported; the first error wins, is returned as it was given (errors.Is) and stops insertion. After Result the builder starts afresh, trees obtained earlier are unaffected.",
     ["histories", "inputs"], "all finite sequences of inserter calls, right or wrong, over several rounds on one builder x both engines x both quoting modes",
     "tests call the inserter correctly; misuse, leftovers of a failed round and reuse combine without bound",
     [YW+"builder.go", GW+"builder.go", "encode.go"],
     m(("route of open nodes and fatal error", YW+"builder.go"), ("route and fatal error", GW+"builder.go"), ("Inserter contract", "encode.go")),
     "online trace checker: an automaton of the inserter judges random call histories on the real builders",
     "exploration: the automaton is about 80 lines; the trees are read back with the real decoders")
prop("C12", "Every sink receives the same bytes and a sink's failure is reported",
     "EncodeToString, EncodeToBytes, EncodeTo and the tree writers deliver the same bytes for the same value, whatever was encoded before with the same encoder, and whether or not earlier calls failed; slices returned earlier never change. If the destination fails or (yayamls) writes short at any point, the call returns an error - for yayamls the destination's own error - and the destination received a prefix of the document; nothing is written for a tree that could not be built.",
     ["inputs", "faults", "histories"], "all values x all sequences of sinks on one encoder x a failure of the destination after any number of bytes",
     "no test has a failing writer or reuses an encoder after a failure",
     [YW+"writer.go", GW+"writer.go", "engines/yayamls/encode.go", "encode.go"],
     m(("ASTWriter buffer and state reset", YW+"writer.go"), ("yaml.v3 encoder wrapper", GW+"writer.go")),
     "runtime monitor with fault injection: destinations failing at every offset, outputs compared with those of fresh encoders",
     "exploration: short writes and the identity of the error are judged for yayamls only (goyaml delegates to yaml.v3, which ignores both)")
prop("C13", "Independent uses from many goroutines neither race nor influence each other",
     "Encoders, decoders, parsers, comparators and generators used by different goroutines on their own data never race on memory and each yields exactly the result it yields alone; shared package state (pools, caches, tables) is invisible. A parsed yayamls tree may be read by several readers and written by several writers at once.",
     ["schedules", "inputs"], "all interleavings of self-contained operations on separate data, and of readers of one shared yayamls tree",
     "the tests are sequential; a pooled buffer or shared table is only wrong under particular interleavings",
     [YP+"parser.go", YL+"tokenizer.go", YW+"writer.go", YR+"reader.go", GR+"reader.go", "engines/yayamls/ast/astcmp/", "generator/parser/"],
     m(("sync.Pool of parsers and accessors", YP+"parser.go"), ("keyword and context tables", YL), ("buffers of writers", YW+"writer.go")),
     "Go race detector over concurrent mixes of all operations, plus a monitor comparing each result with its sequential one",
     "exploration: schedules are sampled by the runtime with injected yields; worker processes run with halt_on_error", )
prop("C14", "What is handed in or out is never changed or shared afterwards",
     "The library never writes to bytes or trees it was given, keeps no reference through which a later change of the caller's input buffer alters a result, and values returned earlier (strings, byte slices, Any values, trees) stay as they were whatever is read, built or mutated later. Reading the same tree again, in any way, gives the same result.",
     ["histories", "inputs"], "all documents x all orders of reading, buffer reuse and mutation of returned values x both engines",
     "tests use each input and each result once; aliasing shows only when a buffer is reused or a result is mutated",
     [YR+"reader.go", YR+"any.go", YP+"parser.go", YL+"tokenizer.go", GR+"reader.go", GR+"any.go", YW+"builder.go", GW+"builder.go"],
     m(("bytes to string conversion", YP+"parser.go"), ("sub-slices of anchored values in Any", YR+"any.go"), ("alias expansion in Raw", GR+"reader.go")),
     "runtime monitor: input buffers are poisoned and results mutated between reads; digests of every tree, buffer and result compared before and after",
     "exploration: goyaml Raw rewrites aliases of the tree while it runs and restores them; the tree is compared after the call")
prop("C23", "The tokens of a source are exactly the source, with true positions",
     "For every source the tokenizer emits tokens whose texts concatenate to precisely the source: nothing lost, repeated, reordered or invented, each with the row and column of its first and last character, each of a type that can have that text, finished by an end of file token that stays. The same holds with the raw mode switched at any time, with the unsafe option, and for the tokens a parser takes from a source it accepts.",
     ["inputs", "histories"], "all valid UTF-8 sources x raw mode switches at any token x both construction modes",
     "lexer tests list the tokens of some fixed sources; positions and rare contexts combine without bound",
     [YL+"tokenizer.go", YL+"context.go", YL+"rune_stream.go", "engines/yayamls/token/"],
     m(("lookahead buffer and position tracking", YL+"tokenizer.go"), ("context switching", YL+"context.go"), ("token type texts", "engines/yayamls/token/")),
     "runtime conservation monitor over the recorded token stream of every source",
     "exploration: the oracle re-reads the source; multi-word tokens are judged by their text only")
prop("C25", "Each document of a stream is delivered whole, in order and on its own",
     "A stream of several documents, separated by start and end markers, directives, comments or blank lines, some of them empty, is parsed into exactly those documents: read one after another by one reader or each alone, every document gives precisely its value, the end of the stream is reported after the last, and a written stream reads back as the same documents.",
     ["inputs"], "all sequences of documents x presentations x boundary styles x ways of reading",
     "tests hold two or three streams; what ends one document and begins the next depends on how both are written",
     [YP+"documents.go", YP+"parser.go", YR+"reader.go", YW+"writer.go", YL+"context.go"],
     m(("document productions", YP+"documents.go"), ("stream root of the reader", YR+"reader.go"), ("document separators of the writer", YW+"writer.go")),
     "runtime differential monitor: generated streams of known values read in all ways; generator confirmed by yaml.v3",
     "exploration: a stream is judged only when yaml.v3 confirms its documents")
prop("C26", "All entry points and options of the parser agree on every source",
     "ParseString, ParseBytes, Parse, ParseTokenStream, ParseTokens and a custom token stream give one and the same tree, or one and the same error, for a source, whatever was parsed before; WithOmitStream only strips the stream around a single document, WithUnescapedText only decodes escapes, and the options commute.",
     ["inputs", "histories"], "all sources x entry points x option sets x sources parsed in between",
     "tests use one entry point per source and never interleave sources",
     [YP+"parser.go", YP+"options.go", YL+"tokenizer.go", "engines/yayamls/pkg/cpaccessor/"],
     m(("pooled parser state", YP+"parser.go"), ("options", YP+"parser.go"), ("token source adapters", YP)),
     "runtime differential monitor: the same source through random entry points and options, with other sources in between",
     "exploration: trees are compared by a structural dump independent of the library's comparator")

GEN = ["generator/generator.go", "generator/decoder.go", "generator/encoder.go", "generator/tags.go", "engines/yayamls/engine.go", "engines/goyaml/engine.go"]
prop("C15", "Generated code compiles and every value of every type survives a round trip",
     "For every Go type the generator accepts - structs, named and anonymous, recursive, embedded, inlined and foreign types, pointers, slices, arrays, maps, interfaces, custom marshalers, in any combination - the generated code compiles next to other generated code of the package, whatever the tags and flags, and each value of the type, marshalled through any generated method with either engine, unmarshals to an equal value through any generated method that fits.",
     ["inputs", "types"], "all supported types x tags x flag sets x engines x values x generated entry points",
     "the test module holds about two dozen hand-written types with one value each; shapes of types combine without bound",
     GEN,
     m(("encode and decode function emission", "generator/encoder.go"), ("decode function emission", "generator/decoder.go"), ("names and imports", "generator/generator.go"), ("engine methods", "engines/yayamls/engine.go")),
     "runtime monitor: code is generated for random type sets, compiled and run; values are compared by reflection after each round trip",
     "exploration: about 20 random packages and 100000 values per quick run; values that the format cannot tell apart (nil and empty under omitempty, pointer chains to nil) are normalised")
prop("C16", "Tags and flags mean what is documented, on both sides",
     "Generated code writes exactly the fields the tags and flags prescribe - renamed, omitted when empty (per field or by flag), left out by '-', inlined, embedded ones promoted with Go's rules, null for nil - in the order of declaration, and reads them back wherever they stand: a missing or null field leaves or clears the field as documented, unknown fields are skipped whole or refused when the flag says so, surplus array elements are ignored and short arrays leave the rest zero, with nothing shifted to another field. Marshalling methods belong to the value, or by flag to the pointer, where nil is null.",
     ["inputs", "types"], "all struct types x tags x flag sets x documents with fields missing, null, unknown, repeated or in any order x fresh and used destinations",
     "the tests decode a document with all fields in order into a fresh value",
     GEN,
     m(("tag parsing", "generator/tags.go"), ("field collection and promotion", "generator/generator.go"), ("omission conditions", "generator/encoder.go"), ("key switch", "generator/decoder.go")),
     "runtime monitor: a reflection model of tags and flags predicts each emitted document and each decoded value of the running generated code",
     "exploration: emitted documents are read back by yaml.v3, independent of the library")
prop("C17", "Generated decoders judge every document: the exact value or the right error",
     "Given any document, generated code ends with the value of the document in the type, or with an error of the right class: a node of the wrong kind or a number out of range is denied, an unknown field under the flag is refused, text that is not YAML is reported; numbers are never truncated, and no document makes it panic or loop.",
     ["inputs", "types"], "all documents, fitting and unfitting, well-formed or damaged x all supported types x engines x flags",
     "the tests feed generated code almost only with fitting documents",
     GEN + [YR+"reader.go", GR+"reader.go"],
     m(("decode function emission", "generator/decoder.go"), ("reader contract", YR+"reader.go")),
     "runtime monitor: mutated documents run through compiled generated code; a reflection model predicts value or error class",
     "exploration: the class of the error is judged (denied, unknown field, other), not its text")
prop("C18", "A run of yamlygen yields exactly the promised file or changes nothing",
     "yamlygen, given a package by directory, working directory or go:generate, a type and flags, writes one gofmt-ed file - under the given name or the snake-cased name of the type - of the package's name, with exactly the four methods, honouring build tags and every flag, compiling next to the rest of the package, and leaves nothing else behind; run again it produces the identical file. A run that cannot succeed (no such type, broken package, wrong flag, unwritable output) exits non-zero with a message and leaves the package, an earlier output included, as it was.",
     ["inputs", "faults"], "all packages x types x flag sets x ways to name package and output x causes of failure",
     "no test runs the command; leftovers and damaged output show only after particular failures",
     ["cmd/yamlygen/main.go", "generator/bootstrap/generator.go", "generator/parser/parser.go", "generator/parser/pkgpath.go", "generator/parser/modulepath.go"],
     m(("stubs, bootstrap program and cleanup", "generator/bootstrap/generator.go"), ("package discovery", "generator/parser/parser.go"), ("flags", "cmd/yamlygen/main.go")),
     "runtime monitor: the command runs on scratch packages with injected failures; directory snapshots before and after, and the monitors of C15-C17 on the code it wrote",
     "exploration: everything happens in scratch directories; concurrent runs in one package and killed runs are not covered")
prop("C19", "Custom marshalers are used wherever they stand and their errors come out",
     "A type with its own marshalling methods - text, yamly or engine-specific, by value or pointer receiver, local or from another package - is written and read through exactly these methods wherever generated code meets it: as field, element, key, map value, array element, behind pointers, embedded or in an interface; what the method produced is what the document holds, the method receives precisely its subtree, and an error it returns is what marshalling or unmarshalling returns (errors.Is).",
     ["inputs", "types", "faults"], "all placements of all kinds of custom marshalers x values x documents x failures of the methods x engines",
     "the tests hold a few custom types that never fail",
     GEN + ["decode.go", "encode.go"],
     m(("implementation checks", "generator/encoder.go"), ("implementation checks", "generator/decoder.go"), ("engine-specific checks", "engines/goyaml/engine.go"), ("InsertRaw and InsertRawText", YW+"builder.go")),
     "runtime monitor: instrumented custom types record each call and fail at random; documents and errors are compared with what they recorded",
     "exploration: engine-specific methods are exercised through their own engine only")

prop("C20", "A rollback restores exactly the position of its checkpoint",
     "For any history of Next, SetCheckpoint, Rollback and Commit on a checkpointing accessor, elements come in the order of the stream with none lost, repeated or skipped: Rollback returns to the latest open checkpoint and yields the element that was current there, Commit forgets just that checkpoint, and the underlying stream is read once per element and never ahead of what was asked for; a new stream starts afresh.",
     ["histories"], "all finite histories of accessor calls, with checkpoints nested to any depth",
     "the tests replay about ten short histories; what goes wrong depends on the interplay of buffer, nesting and position",
     ["engines/yayamls/pkg/cpaccessor/accessor.go", YP+"parser.go", YL+"tokenizer.go"],
     m(("buffer and checkpoint stack", "engines/yayamls/pkg/cpaccessor/accessor.go"), ("backtracking of the parser", YP+"parser.go"), ("lookahead of the tokenizer", YL+"tokenizer.go")),
     "online trace checker: a list model judges each call of random histories on the real accessor",
     "exploration: two million histories per quick run; the model is a position and a stack of positions")
prop("C21", "Quoting is exactly undone by unquoting; characters are classified by the spec",
     "Any string quoted as a double quoted scalar, and any string that can be single quoted, reads back as precisely that string, and the quoted form consists only of characters that can stand in it. Unquoting decodes every escape of the specification to its character and refuses everything else, and the character set predicates (decimal, word, URI, tag, plain-safe, quoted) hold for exactly the strings the specification allows.",
     ["inputs"], "all strings x quoting styles x character set predicates",
     "tests hold a few strings; each code point, escape and truncated escape is a case of its own",
     ["engines/yayamls/yamlchar/transformations.go", "engines/yayamls/yamlchar/chars.go", "engines/yayamls/yamlchar/charset.go", "engines/yayamls/token/"],
     m(("escape tables", "engines/yayamls/yamlchar/transformations.go"), ("character classes", "engines/yayamls/yamlchar/chars.go"), ("cached conformance of tokens", "engines/yayamls/token/")),
     "runtime monitor: reference unquoting and character sets written from the specification judge the recorded results",
     "exploration: texts with parentheses and braces are not judged for URI and tag sets; escapes of invalid code points read as U+FFFD")
prop("C22", "Scalar conversions are exact inverses and every kind knows its own texts",
     "The text a schema package gives for a value (integer, unsigned, float, boolean, timestamp) converts back to precisely that value, sign of zero, NaN, offset and nanoseconds included; it is recognised as its kind and as no other (integers also count as floats); a conversion to fewer bits succeeds exactly when the value fits; integers, floats and booleans are recognised by exactly the grammar of the YAML core schema, whatever the length; a recognised text converts (or is out of range), no other text converts to an integer, boolean or timestamp, and both engines recognise the same texts.",
     ["inputs"], "all values of each type x all texts x bit sizes x the schema packages of both engines",
     "the tests convert a handful of values",
     ["engines/pkg/schema/schema.go", "engines/yayamls/schema/schema.go", "engines/goyaml/schema/schema.go"],
     m(("From and To conversions", "engines/pkg/schema/schema.go"), ("Is predicates", "engines/pkg/schema/schema.go")),
     "runtime monitor: inverse and agreement assertions over edge-directed values and texts",
     "exploration: timestamps within the years 0-9999 and whole-minute offsets")
prop("C24", "Trees compare equal exactly when they hold the same nodes",
     "Equal is true for two trees exactly when they have the same nodes - kinds, texts, tags, anchors, aliases, nesting and order, quoting aside - symmetrically and on every repetition; a comparison leaves no goroutine behind. The printer prints every node once, in order, with its depth, kind and text, whatever was printed before.",
     ["inputs"], "all pairs of trees, equal or differing anywhere, parsed or built",
     "tests compare a dozen trees and look only at the verdict",
     ["engines/yayamls/ast/astcmp/comparator.go", "engines/yayamls/ast/astprint/printer.go", "engines/yayamls/ast/node.go"],
     m(("parallel walk", "engines/yayamls/ast/astcmp/comparator.go"), ("levels and edges", "engines/yayamls/ast/astprint/printer.go")),
     "runtime monitor: verdicts and printed lines compared with a tree model; goroutines counted after each comparison",
     "exploration: pairs are a tree and a copy with one small change; trees without keys or values in entries are not built")
prop("C27", "Work grows with the size of the source, never explosively",
     "Lexing, parsing, reading, skipping, copying and writing a document take memory, allocations and steps at most in proportion to the length of the source, times the depth of nesting for nested documents - for sound and for broken documents alike, block or flow, however the openers are combined - so that no short source makes the library run or allocate without bound.",
     ["inputs"], "all documents, nested or wide, complete or cut off x all operations of both engines",
     "tests hold small documents; backtracking and copying explode only in particular nestings of a certain depth",
     [YP+"parser.go", YP+"flow.go", YP+"block.go", YL+"tokenizer.go", YR+"reader.go", YW+"writer.go"],
     m(("dead-end detection of the parser", YP+"parser.go"), ("checkpoint buffer", "engines/yayamls/pkg/cpaccessor/accessor.go"), ("copying of subtrees", YR+"reader.go")),
     "runtime monitor: allocation counters and counters of executed basic blocks (coverage instrumentation) of each operation at two sizes of the same shape, CPU and memory watchdogs",
     "exploration: the measures are allocations and executed basic blocks, which do not depend on the machine; documents with aliases that multiply by design are excluded")
prop("C28", "A parsed tree keeps every tag, anchor, alias and quoting where it stood",
     "The tree of a document holds, node by node, what the source says: kind, number of entries, text, whether and how it was quoted, its tag, its anchor, and aliases under their names, in flow and block style, on keys, values, entries, collections and roots alike. Written and parsed again the tree keeps the nodes, texts, tags, anchors and aliases.",
     ["inputs"], "all documents x placements of properties x presentations",
     "tests place properties at a few positions; each combination of style, position and order of tag and anchor is parsed by other code",
     [YP+"properties.go", YP+"block.go", YP+"flow.go", YL+"context.go", YW+"writer.go", "engines/yayamls/ast/node.go"],
     m(("properties productions", YP+"properties.go"), ("tag contexts of the tokenizer", YL+"context.go"), ("properties written", YW+"writer.go")),
     "runtime differential monitor: trees compared node by node with those of yaml.v3 for the same source, before and after writing",
     "exploration: judged when yaml.v3 accepts the source; tag handles are not part of the tree and not compared")
prop("C29", "A tree put together from nodes is written as precisely that document",
     "Whatever tree a program puts together with the constructors of package ast - texts of every content with any quoting type, nulls, tags, anchors and aliases, sequences, mappings, entries inside of sequences, collections as keys, one document or a stream - the tree writer writes it as a document which parses to the same nodes: kinds, sizes, texts, tags, anchors, aliases, documents, and a quoted text stays quoted where the quotes matter. The same holds for another YAML reader, and writing leaves the tree as it was.",
     ["inputs"], "all trees of the node types a document can hold x quoting types x text contents",
     "tests write a handful of trees; the writer chooses layout and quoting from the content and the position of a node",
     [YW+"writer.go", "engines/yayamls/yamlchar/chars.go", "engines/yayamls/ast/node.go"],
     m(("layout of collections and properties", YW+"writer.go"), ("choice of scalar style", YW+"writer.go"), ("what can be plain, quoted or literal", "engines/yayamls/yamlchar/chars.go")),
     "runtime differential monitor: written trees parsed again and compared node by node with the tree built, by the parser and by yaml.v3",
     "exploration: anchor names without exclamation marks and leading indicators, valid UTF-8; trees of up to five levels")
