ENC = ["engines/yayamls/encode/builder.go", "engines/goyaml/encode/builder.go"]
DEC = ["engines/yayamls/decode/reader.go", "engines/goyaml/decode/reader.go"]
REPLAY = "TLA+ specification model-checked with TLC; every generated behaviour replayed into the real code"

prop("C01", "Encoder accepts exactly the balanced call sequences",
     "For every sequence of encoder calls (opening and closing sequences and mappings, inserting scalars and raw YAML, adding errors), encoding succeeds if and only if the calls build exactly one complete document tree, and then the text means exactly the inserted tree. Any ill-formed sequence (close without open, wrong close, missing mapping value, a second root, unfinished collection, no root) and any error handed in ends in an error of the encoding call and never in a panic or in YAML text for a different tree. The first error is never lost by later calls.",
     ["histories", "inputs"], "every finite sequence of encoder calls with every payload, on every engine",
     "Tests run a few well-formed call sequences; the guarantee is about all of them, including arbitrary ill-formed ones and calls after an error.",
     ENC + ["engines/yayamls/encode/writer.go", "engines/goyaml/encode/writer.go", "encode.go", "engines/yayamls/encode.go"],
     ["builder keeps a stack of open collections and a sticky error; Result reports unfinished or missing root"],
     ["text and error of EncodeToString, EncodeToBytes and EncodeTo on both engines"],
     REPLAY, "All call sequences up to the bound are enumerated; payloads are drawn from pools per seed; deeper sequences only by simulation.")

prop("C02", "Decoder reads every node once, in document order",
     "For every document and every sequence of typed reads, each read returns the value of the next unread node in document order, opening a collection makes its entries next, and skipping or reading a whole node leaves exactly the nodes behind it. A collection reports its amount of entries (pairs for a mapping) and has unprocessed items exactly until its last entry is read. A read that does not fit the current node is denied and returns a zero value, and reading behind the end reports the end of stream.",
     ["inputs", "histories"], "every document tree and every interleaving of reads, whole-node reads, skips and queries, on every engine, in default and collecting modes",
     "The cursor has to leave several finished collections at once at any depth after any mix of reads; tests walk a handful of fixed shapes in one order.",
     DEC + ["engines/yayamls/decode/iterator.go", "engines/goyaml/decode/iterator.go", "engines/yayamls/decode/expected.go", "engines/goyaml/decode/expected.go", "decode.go"],
     ["cursor over the tree with a stack of entered collections and per-collection counters"],
     ["returned values, collection states and Error() of both readers"],
     REPLAY, "All read sequences up to the bound over enumerated document families, random deeper ones by TLC simulation.")

prop("C03", "Decoding errors are sticky and loops over collections end",
     "After a fatal decoding error (a denied read in default mode, end of stream, or an error added by the caller) every later read returns a zero value, the first error stays reported, and no opened collection has unprocessed items, so that a loop over a collection ends. In collecting mode denials are all reported while reading goes on with the node still current. Adding a nil error changes nothing.",
     ["histories", "fault_sequences"], "every document, every point of failure and every sequence of reads after it",
     "Tests fail at one or two fixed reads and rarely continue after the failure.",
     DEC + ["engines/yayamls/decode/error.go", "engines/goyaml/decode/error.go", "decode.go"],
     ["fatal error field checked by every read; deny errors collected in multi-deny mode"],
     ["Error(), values of reads after the error, HasUnprocessedItems of all opened collections"],
     REPLAY, "Failure at every point of every enumerated walk; loops' termination follows from collections reporting no items after a fatal error.")

prop("C04", "Scalars are typed and converted exactly, out-of-range values refused",
     "Every plain scalar is typed by its text alone (null, boolean, integer, float, timestamp, otherwise string), quoted non-null text is never null, and a typed read returns exactly the number, boolean, time or text written. A value that does not fit the requested bit size (signed or unsigned) or sign is refused with an error, and never wrapped, truncated or clamped.",
     ["inputs"], "every scalar text and every requested bit size, on both engines",
     "Boundary values exist for each of four sizes, two signednesses, three bases and every zero-padding; tests sample few of them.",
     ["engines/yayamls/schema/schema.go", "engines/goyaml/schema/schema.go", "engines/yayamls/decode/expected.go", "engines/goyaml/decode/expected.go"],
     ["core schema recognisers and converters"], ["Integer, Unsigned, Float, Boolean, Timestamp, String, TryNull of both readers"],
     REPLAY, "Arithmetic is done on digit sequences in TLA+ (no machine integers), values around every power-of-two boundary.")

prop("C05", "Encoding and decoding round-trip every value tree",
     "For every value tree built from sequences, mappings with arbitrary string keys, and null, boolean, integer, unsigned, float, timestamp and string scalars (of any Unicode content), decoding the encoded text with typed reads gives the same tree again. This holds for each engine, between engines, and for an independent YAML parser, including strings that look like other types or like YAML syntax.",
     ["inputs"], "every value tree and every string content",
     "Strings that need quoting, escaping, block or flow treatment interact with nesting position; tests check a few.",
     ENC + DEC + ["engines/yayamls/encode/writer.go"],
     ["writer chooses quoting and indentation, reader undoes it"], ["encoded text read back with both engines and yaml.v3"],
     REPLAY, "Tree shapes and string contents (sequences over an alphabet of critical characters) enumerated up to bounds.")

prop("C06", "Both engines give the same meaning to the same document",
     "For every document of the supported language, the two engines deliver the same structure, the same values and the same refusals to the same reads. Text written by either engine is read by the other one as the same tree.",
     ["inputs", "configurations"], "every supported document, every read sequence, every engine pair",
     "Each engine has its own tests with different documents; agreement on all documents is not a unit fact.",
     ENC + DEC, ["shared interfaces with two implementations"], ["both readers on the same document"],
     REPLAY, "Both engines are compared with one specification and thereby with one another.")

prop("C07", "Aliases stand for the latest preceding anchored node",
     "Wherever an alias occurs, reading it in any way (typed, whole value, raw, skipped) behaves as reading the node anchored last under that name before it, no matter how that node was consumed (read, skipped, taken raw) or whether it lies in an already finished collection. An alias inside of its own anchored node is reported as an error and never loops or crashes. Anchors redefined later do not change earlier aliases.",
     ["inputs", "histories"], "every document with anchors and aliases and every way of consuming anchored nodes",
     "Anchor bookkeeping depends on how preceding nodes were consumed; tests use one way of reading.",
     DEC + ["engines/yayamls/decode/anchors.go", "engines/yayamls/decode/any.go", "engines/goyaml/decode/any.go", "engines/goyaml/decode/raw.go"],
     ["anchor table filled while visiting, dereferencing at alias, in-progress marks"], ["reads on both readers"],
     REPLAY, "Anchor/alias documents of the enumerated families under all read sequences up to the bound.")

prop("C08", "Merge keys give missing keys only, explicit and earlier ones win",
     "Decoding a mapping with merge keys as a whole value gives its explicit entries plus the entries of the merged mapping, or of all merged mappings of a sequence, whose keys are absent; explicit entries win regardless of their position, and of several merged mappings the earlier one wins. Nested values are taken over whole and never merged recursively or shared between results. A merge key whose value is not a mapping or a sequence of mappings is an ordinary key.",
     ["inputs"], "every mapping with merge keys at any position, through aliases, chains and sequences",
     "Precedence depends on positions, number and nesting of merges; tests cover one example.",
     ["engines/yayamls/decode/any.go", "engines/goyaml/decode/any.go"],
     ["any-builder merges mappings under the merge key"], ["Any() of both readers"],
     REPLAY, "All combinations of enumerated merge sources and explicit entries, before and behind.")

prop("C09", "Meaning does not depend on presentation style",
     "For every document tree, all of its presentations (block or flow collections at every level, any consistent indentation widths, compact nested collections, plain or quoted scalars, explicit or implicit keys, any well-formed anchors and local tags, comments and blank lines between lines, document markers) decode to the same tree. No presentation of a supported document is rejected.",
     ["inputs", "configurations"], "every tree times every combination of presentation choices",
     "The number of combinations of styles explodes; tests contain some dozens of fixed texts.",
     ["engines/yayamls/parser/block.go", "engines/yayamls/parser/flow.go", "engines/yayamls/parser/indents.go", "engines/yayamls/lexer", "engines/yayamls/parser/internal"],
     ["recursive descent with checkpoints over a context-dependent lexer"], ["typed walk of both readers"],
     REPLAY, "Tree shapes times style vectors enumerated up to bounds, larger ones by simulation.")

prop("C10", "Any input is parsed deterministically, without panic or endless loop",
     "For every byte sequence, parsing and then decoding end with either a result or an error; they never panic, never run forever, and give the same outcome when repeated. The source bytes are never modified.",
     ["inputs"], "every byte sequence",
     "Only hand-picked documents are tested; robustness is about arbitrary ones.",
     ["engines/yayamls/parser/parser.go", "engines/yayamls/lexer", "engines/yayamls/parser/internal", "engines/yayamls/decode.go", "engines/yayamls/decode/reader.go"],
     ["tokenizer and backtracking parser"], ["outcome of parse, Any, typed reads and Raw"],
     REPLAY, "All sequences over an alphabet of YAML fragments up to the bound, longer ones by simulation; timing is bounded by a watchdog.")

prop("C11", "Quoted scalars denote exactly the escaped and folded text",
     "A double-quoted scalar denotes the text in which every escape sequence is replaced by its character and every line break is folded (one break becomes a space, further empty lines become line feeds, surrounding white space is dropped), and unknown or incomplete escapes are errors. In a single-quoted scalar only doubled quotes and line folding are special. Quoted text never turns into null and keeps white space inside of a line.",
     ["inputs"], "every sequence of characters, escapes and line breaks within quotes, in every position of a document",
     "Escapes interact with each other, with folding and with quote characters; tests try single escapes.",
     ["engines/yayamls/schema/schema.go", "engines/yayamls/parser/flow.go", "engines/yayamls/yamlchar"],
     ["unescaping of quoted text and folding in the parser"], ["String() of both readers"],
     REPLAY, "All sequences of quoted-text items up to the bound.")

prop("C12", "Checkpointed source rewinds to exactly the marked position",
     "For every sequence of reading, setting checkpoints, committing and rolling back, the source delivers the elements of the underlying stream in order, rollback returns to the element at the latest open checkpoint, commit keeps the position and forgets only the latest checkpoint. Nothing is lost, repeated or reordered after any nesting of these operations, and the underlying stream is asked for each element once.",
     ["histories"], "every sequence of operations with any nesting of checkpoints",
     "The order and nesting of operations is unbounded; tests run some scripts.",
     ["engines/yayamls/pkg/cpaccessor/accessor.go", "engines/yayamls/parser/token_source.go"],
     ["buffer of read elements with a stack of checkpoints"], ["elements delivered by the accessor"],
     REPLAY, "All operation sequences up to the bound; longer ones by simulation.")

prop("C13", "Malformed documents are rejected, never silently cut or repaired",
     "A document with unbalanced or wrongly nested brackets, missing separators, unterminated quotes, lines at an indentation no open block collection has, a malformed tag, anchor or directive, or content behind its end is refused with an error. It is never accepted as its well-formed prefix or with parts dropped.",
     ["inputs"], "every flow or block document, well-formed or not",
     "The set of malformed texts is infinite; tests hold a few.",
     ["engines/yayamls/parser/parser.go", "engines/yayamls/parser/flow.go", "engines/yayamls/parser/internal"],
     ["grammar plus early dead end detection"], ["error of parsing"],
     REPLAY, "All token sequences up to the bound, classified by a pushdown automaton in TLA+.")

prop("C14", "Generated decoders fill every field with exactly its entry",
     "For every supported Go type, a generated decoder assigns to each field the value of the entry with its name, whatever the order of entries, ignores (or, if so configured, refuses) unknown entries, leaves absent fields untouched and treats null as absence. A value that does not fit the type of its field gives an error, and never a wrong value.",
     ["inputs", "configurations"], "every field type, entry order, subset of entries, null and mismatching value, engine and generator option",
     "Fields, orders, nulls and mismatches combine; tests decode one document per type.",
     ["generator/decoder.go", "generator/tags.go", "generator/generator.go"],
     ["templates of the generator per kind of type"], ["UnmarshalYAML of generated types of both engines"],
     REPLAY, "Generated code is produced and compiled from the working tree in every run; documents enumerated up to the bound.")

prop("C15", "Generated encoders write what generated decoders read",
     "For every value of a supported type, the text written by a generated encoder is valid YAML that the generated decoder reads back as the same value. Omitempty fields are left out exactly when they are empty, and no other fields ever are.",
     ["inputs", "configurations"], "every value of every supported type, engine and generator option",
     "Emptiness of fields and nesting combine; tests encode one value per type.",
     ["generator/encoder.go", "generator/tags.go"],
     ["templates of the generator per kind of type"], ["MarshalYAML of generated types of both engines"],
     REPLAY, "Generated code is produced and compiled from the working tree in every run; values enumerated up to the bound.")

prop("C16", "Raw data of a node is a standalone document for this node",
     "Taking any node raw, at any point of reading, gives a text which on its own denotes the same tree as the node (aliases replaced or accompanied by their anchors), and the cursor goes on behind the node.",
     ["inputs", "histories"], "every document, every node of it, every preceding reads",
     "Tests take the raw form of one or two nodes.",
     ["engines/yayamls/decode/reader.go", "engines/goyaml/decode/raw.go", "engines/yayamls/encode/writer.go"],
     ["serialization of the subtree at the cursor"], ["Raw() of both readers, reparsed by both and by yaml.v3"],
     REPLAY, "Every node of enumerated documents at every reachable cursor state up to the bound.")

prop("C17", "Encoders and decoders are independent of one another",
     "Any interleaving of work with several encoders and decoders, whether in one goroutine or in many, gives each of them the results it has alone, also when several decoders read one tree. Callers may change bytes they have passed or received without effect on anything else. Reusing an encoder or decoder after its result was taken gives fresh results and never changes earlier ones.",
     ["schedules", "histories"], "every interleaving of operations of several instances",
     "Tests use one instance at a time.",
     ["encode.go", "engines/yayamls/encode.go", "engines/yayamls/decode.go", "engines/yayamls/parser/parser.go", "engines/yayamls/encode/builder.go", "engines/goyaml/encode/builder.go"],
     ["pooled buffers of the parser, reset on reuse"], ["results of interleaved instances"],
     REPLAY, "Interleavings enumerated by TLC are replayed in one goroutine; goroutine schedules are sampled under the race detector.")

prop("C18", "The generator is deterministic and its output compiles",
     "For every supported type declaration and combination of options (engine, omitempty, disallow-unknown-fields, encode-pointer-receiver, inline-embedded, build tags, output name, form of the directory), yamlygen produces code that compiles and implements the interfaces of yamly and of the engine. The content of the output is the same on every run: it is determined by the request, the declarations and which other types of the package have marshaling methods, not by earlier output or the order of invocations, and generating again for a type always works, even when generated code of other types uses it or when the previous invocation was killed. Unsupported types and bad invocations end with exit code 1 and a message, and leave every file of the directory as it was, with nothing left behind.",
     ["inputs", "configurations", "histories", "crash_points"], "every type declaration, engine, combination of options and history of invocations in a package",
     "Tests generate for one fixed set of types and options, once.",
     ["cmd/yamlygen/main.go", "generator/generator.go", "generator/bootstrap", "generator/parser"],
     ["bootstrap program generated, run and removed"], ["files written by yamlygen"],
     REPLAY, "Combinations enumerated by TLC up to the bound.")

prop("C20", "Block scalars denote exactly their lines",
     "A literal block scalar denotes its lines without the indentation, a folded one the same with single breaks between text lines replaced by spaces, with trailing breaks dropped, kept once or kept all by its chomping indicator. Indentation is detected from the first non-empty line or given explicitly, and text inside is never interpreted (comments, indicators, markers, quotes).",
     ["inputs"], "every sequence of lines, header and position in a document",
     "Line kinds, header forms and positions combine; tests have a few dozen.",
     ["engines/yayamls/parser/block.go", "engines/yayamls/lexer"],
     ["block scalar rules of the parser and a raw mode of the lexer"], ["String() of both readers"],
     REPLAY, "All sequences of line kinds up to the bound times headers times positions.")

prop("C21", "Streams are split into documents at their markers only",
     "In a stream of documents separated by start and end markers, with directives, comments and empty documents between them, every document is recognised with its own content and in order. Marker-like text inside of scalars or with other text attached does not split a document.",
     ["inputs"], "every sequence of documents, markers, directives and comments",
     "Tests contain a few streams.",
     ["engines/yayamls/parser/documents.go", "engines/yayamls/lexer"],
     ["stream production of the parser"], ["documents of the parsed stream"],
     REPLAY, "All sequences of stream parts up to the bound.")

prop("C22", "A parsed tree written again denotes the same documents",
     "For every text that is parsed, in whatever presentation (block or flow collections, any quoting, block scalars, anchors and aliases, tags, complex keys, single pairs, streams of several documents), writing the parsed tree gives a text which every reader, the other engine and an independent parser included, reads as the same documents in the same order.",
     ["inputs"], "every document in all of its presentations, every stream",
     "Tests write a few hand-made trees; which presentation of which node meets which place of the written text is open.",
     ["engines/yayamls/encode/writer.go", "engines/yayamls/parser/parser.go"],
     ["visitor writing the syntax tree"], ["text written by ASTWriter for a parsed tree, read again"],
     REPLAY, "All presentations of small documents, simulated larger ones, all small streams, block and quoted scalars.")
