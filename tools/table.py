# prop(id, title, statement, over, text, why, files, mechanism, state, observe, technique, note)
V2 = "src/v2_parser.rs"
prop("C01", "Accepts exactly the KDL 2.0.0 language",
     "A text is accepted as a KDL v2 document if and only if it is a sentence of the KDL 2.0.0 grammar, disallowed code points, reserved keywords and string indentation rules included. Parsing as a node, entry or identifier accepts exactly the texts of those forms.",
     ["inputs"], "every Unicode text",
     "The suite samples about 200 conformance files; the language is infinite and most wrong acceptances need combinations (comments, slashdashes, esclines, newline kinds) no file has.",
     [V2, "src/document.rs"],
     [("recursive-descent grammar", V2 + ": document, nodes, base_node, node_entry, string, number"), ("error recovery that must still reject", V2 + ": try_parse, resume_after_cut")],
     observe=["KdlDocument::parse_v2 result"],
     technique="differential oracle: independent reference recogniser run beside the real parser",
     note="Exploration: every generated text is judged by a recogniser written from the KDL 2.0.0 spec alone, plus exhaustive short strings. Texts on which the spec itself is ambiguous are not judged.")
prop("C02", "Parsed structure is what the text says",
     "For every accepted document the parsed nodes, their names, type annotations, arguments, properties, order and nesting are exactly those the text denotes; anything slashdashed contributes nothing.",
     ["inputs"], "every accepted KDL v2 text",
     "Unit tests compare a few dozen fixed documents; attribution mistakes need particular nestings of slashdashes, children blocks and terminators.",
     [V2, "src/node.rs", "src/document.rs"],
     [("node assembly", V2 + ": nodes, base_node, node_entry, node_children"), ("slashdash discarding", V2 + ": slashdash, slashdashed_node, slashdashed_entries, slashdashed_children")],
     observe=["public accessors of the parsed document"],
     technique="differential oracle: reference tree built beside the real parser",
     note="Exploration against an independent parser's tree, compared node by node.")
prop("C03", "String values are decoded exactly",
     "The value of every identifier, quoted, raw and multi-line string is exactly the one the KDL 2.0.0 rules give: escapes, whitespace escapes, indentation removal and newline normalisation included. Nothing inside a string changes where it ends, and a literal that breaks the rules is rejected.",
     ["inputs"], "every accepted string literal, in every position a string may take",
     "Tests cover each escape once; interactions (whitespace escapes against indentation, CRLF, hash counts, unicode newlines) are combinatorial.",
     [V2], [("string decoding", V2 + ": quoted_string, multi_line_string_body, escaped_char, raw_string, dedent of multi-line bodies")],
     observe=["values read through KdlEntry::value and identifier values"],
     technique="differential oracle: reference string decoder",
     note="Exploration against an independent decoder; generator biased to escape, indentation and newline interactions.")
prop("C04", "Numbers and keywords have their exact value",
     "Every integer literal in every radix yields exactly its mathematical value or is rejected when it does not fit the 128-bit range, every decimal float yields the correctly rounded double, and each keyword yields its value; sign and underscores never change anything else, and malformed numbers are rejected.",
     ["inputs"], "every numeric and keyword literal",
     "Tests hold a handful of literals; boundary values, long digit strings and rounding cases are unbounded.",
     [V2, "src/value.rs"], [("number parsing", V2 + ": number, float, integer, hex, octal, binary, from_str_radix"), ("keyword parsing", V2 + ": keyword")],
     observe=["KdlValue of the parsed entry"],
     technique="differential oracle: reference number evaluator (arbitrary-precision digits)",
     note="Exploration against exact digit arithmetic and Rust's correctly rounding float parser.")
prop("C05", "Parsed text prints back byte for byte",
     "Printing anything parsed from KDL v2 text - a document, node, entry or identifier - gives back exactly the text it was parsed from, whitespace, comments, slashdashed parts and number and string spellings included.",
     ["inputs"], "every accepted text of each kind",
     "Round trips are tested on a few dozen documents; each formatting slot of each production must be kept for every combination of its contents.",
     [V2, "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
     [("capture of formatting", V2 + ": take() of every whitespace and comment run into the format structs"), ("printing", "src/node.rs, src/document.rs: stringify; src/entry.rs: Display")],
     state=[("format structs", "leading, trailing, terminators, value_repr", "src/document.rs KdlDocumentFormat, src/node.rs KdlNodeFormat, src/entry.rs KdlEntryFormat")],
     observe=["to_string of the parsed value"],
     technique="round-trip monitor on executions over generated, mutated and exhaustive short texts",
     note="Exploration; no model needed: the input text is the oracle.")
prop("C06", "No input makes the library panic",
     "Every parsing and detection entry point returns a result for every text, and every printing, formatting and conversion operation on a successfully parsed value returns; none panics, overflows an integer, or ends the process.",
     ["inputs"], "every Unicode text at bounded nesting, through every parsing entry point",
     "Tests only run inputs somebody thought of; panics hide in slicing, radix conversion and unwraps reached by malformed text during error recovery.",
     [V2, "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
     [("error recovery instead of panicking", V2 + ": resume_after_cut"), ("unwraps that must be unreachable", V2 + ": failure_from_errs; src/entry.rs: ensure_v1")],
     observe=["panic hook, abort signal handler, overflow checks and debug assertions compiled in"],
     technique="crash monitor (panic hook, abort handler, overflow checks) under hostile workloads",
     note="Exploration with checked arithmetic and debug assertions on. Depth is bounded here; C07 owns depth.")
prop("C07", "Stack and work stay bounded as texts grow",
     "Parsing, printing, comparing and auto-formatting an accepted text takes time in proportion to its size, and rejecting one at most in proportion to its square, at any nesting. Nothing but the nesting depth of children blocks uses up stack, and a hundred and fifty levels of any construct fit an 8 MiB stack.",
     ["inputs"], "every family of texts that grows by repeating or nesting fragments",
     "Tests use small texts; exponential backtracking and recursion over flat input show only as a text grows in one particular way.",
     [V2, "src/document.rs", "src/node.rs", "src/fmt.rs"],
     [("backtracking and recursion in the parser", V2 + ": nodes, base_node, slashdashed_node, slashdashed_children, commented_block, document")],
     observe=["CPU time of a process per size, stack overflow reports, exit status"],
     technique="resource monitor: CPU-time growth and fixed-stack probes over families of growing texts",
     note="Exploration. CPU time (never wall time) of each probe process is compared between sizes with a margin of 4 to 5 times. Depth beyond 150 is a known finding.")
prop("C08", "Every rejection carries usable diagnostics",
     "A rejected text always yields at least one diagnostic, each with a message and a source range that lies within the given text on character boundaries, together with that very text; miette is handed just these, and rendering the error always succeeds. At least one points at or after the first line that is not sound. No error is reported for accepted text.",
     ["inputs"], "every rejected text, through every parsing entry point",
     "Tests assert the diagnostics of a handful of errors; ranges are computed during error recovery, where any malformed text can take a new path.",
     [V2, "src/error.rs"], [("diagnostic construction", V2 + ": failure_from_errs, span_from_checkpoint, resume_after_cut"), ("diagnostic types", "src/error.rs: KdlError, KdlDiagnostic")],
     observe=["KdlError diagnostics, labels, source code, rendered report"],
     technique="trace monitor on returned errors: range, boundary, source and rendering assertions",
     note="Exploration: each rejected text's diagnostics are checked and rendered with miette.")
prop("C09", "Source spans point at the parsed text",
     "The span of every parsed node, entry, name and annotation lies within the source on character boundaries and covers exactly that item's text; spans of children lie within their parent and siblings never overlap.",
     ["inputs"], "every accepted KDL v2 text",
     "One span test exists, on one document; offsets depend on everything consumed or skipped before.",
     [V2, "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/document.rs"],
     [("span capture", V2 + ": span_from_checkpoint, with_span")],
     observe=["span accessors"],
     technique="span monitor comparing with positions from the reference parser",
     note="Exploration: exact ranges compared with the reference parser's positions.")
prop("C10", "Every accessor finds what the document holds",
     "Looking a node up by name finds the first such node, looking an entry up by key finds the last such property and by position the argument at that position; iteration, indexing and the argument and dash-argument views agree with the full list of nodes and entries, in order. Values, identifiers, entries and nodes tell what they are, what they hold and how long they print; the mutable accessors reach the same parts; conversions from and to plain types keep the value.",
     ["inputs", "histories"], "every document, parsed or edited, and every key and position, present or absent",
     "Accessor tests use one small document each; duplicates, positions among properties and absent keys vary freely.",
     ["src/document.rs", "src/node.rs"],
     [("lookups", "src/node.rs: entry_impl, entry_mut_impl, Index; src/document.rs: get, get_arg, iter_args, iter_dash_args")],
     observe=["results of all accessors"],
     technique="online monitor: every accessor against a plain list model",
     note="Exploration over generated documents with many duplicate names and keys.")
prop("C11", "Edits do to a node exactly what they say",
     "Any sequence of pushes, insertions, replacements, removals, sorts and clears on nodes and documents leaves exactly the entries, children and nodes that the same sequence leaves in an ordinary ordered list with keyed lookup, and each call returns what was replaced or removed.",
     ["histories"], "every sequence of editing calls from every parsed or empty start",
     "Tests make single edits; wrong positions show up only after several edits with duplicate keys and mixed arguments and properties.",
     ["src/node.rs", "src/document.rs", "src/entry.rs"],
     [("editing", "src/node.rs: insert_impl, remove_impl, push, retain, sort_by; src/document.rs: nodes_mut")],
     observe=["entries, nodes and return values after every call"],
     technique="online monitor: sequential list model stepped with every call of random edit histories",
     note="Exploration of random histories; the model is compared after every call.")
prop("C12", "An edited document prints what it holds",
     "After any sequence of edits to a parsed document, printing it gives KDL v2 text that reads back as exactly the nodes, entries, values and children the document then holds, however the pieces that were combined had been formatted.",
     ["histories", "inputs"], "every parsed document and every sequence of edits, with pieces built or parsed on their own",
     "Tests print a few edits of tidy documents; gluing, swallowed comments and lost terminators depend on the formatting next to the edit.",
     ["src/node.rs", "src/document.rs", "src/entry.rs", "src/value.rs", "src/fmt.rs"],
     [("separators and terminators when printing", "src/node.rs: stringify, terminate; src/document.rs: stringify"), ("quoting", "src/value.rs: write_string, is_plain_ident")],
     observe=["to_string, read back by the library and by the reference reader"],
     technique="print/read-back monitor over random edit histories, with two independent readers",
     note="Exploration. Setting a value while keeping its old custom spelling is documented to print the old spelling and is not judged.")
prop("C13", "An edit changes only its own text",
     "Editing one entry, node or value of a parsed document leaves every byte of the printed text outside that item as it was.",
     ["inputs", "histories"], "every parsed document and every single edit",
     "The crate exists to preserve formatting while editing, yet tests look at one or two edits of tidy documents.",
     ["src/node.rs", "src/document.rs", "src/entry.rs"],
     [("formatting kept per item", "format fields of document, node and entry; src/node.rs: stringify")],
     observe=["to_string before and after"],
     technique="before/after text monitor against splices at reference positions",
     note="Exploration: the expected text is computed by splicing the source at positions from the reference parser.")
prop("C14", "Built documents print as valid, equal KDL",
     "Any document built through the API, from any names, keys, annotations and values, prints as KDL v2 text that reads back with exactly the same content; this also holds after clearing formatting or auto-formatting it.",
     ["inputs", "programs"], "every string, number and keyword in every position, every document shape",
     "Tests build a few ASCII documents; quoting and escaping must be right for every code point and every string that resembles something else.",
     ["src/value.rs", "src/identifier.rs", "src/entry.rs", "src/node.rs", "src/document.rs", "src/fmt.rs"],
     [("quoting and escaping", "src/value.rs: write_string, is_plain_ident, Display"), ("default formatting", "src/node.rs, src/document.rs: stringify")],
     observe=["to_string, read back by the library and by the reference reader"],
     technique="print/read-back monitor over built documents, every Unicode scalar and short strings",
     note="Exploration; every Unicode scalar value is tried in names and values on each run.")
prop("C15", "Auto-formatting changes the layout only",
     "Auto-formatting any parsed document, under any configuration, leaves its content unchanged and prints KDL v2 text that reads back with that content, indented as configured and one node per line; every comment and slashdashed part between nodes is kept, in order, unless comments are to be removed, and formatting the result again changes nothing.",
     ["inputs", "configurations"], "every accepted KDL v2 document and every formatting configuration",
     "One test formats one document; comments, slashdashes and line continuations can sit in any gap, and each gap is rewritten by its own code.",
     ["src/fmt.rs", "src/document.rs", "src/node.rs", "src/entry.rs"],
     [("rewriting what surrounds nodes", "src/fmt.rs: autoformat_lines, autoformat_before_terminator"), ("recursion and indentation", "src/node.rs, src/document.rs: autoformat_config")],
     observe=["autoformatted documents in memory and printed"],
     technique="before/after monitor: content, comment sequence, layout and fixed-point oracles",
     note="Exploration. Not claimed: comments inside a node's own line (between its name and its end) may be dropped.")
prop("C16", "Clearing formatting leaves content and nothing else",
     "Clearing the formatting of a document, node or entry leaves its content unchanged and erases every trace of how it was written: the result prints exactly like one built from the same content, one node per line, four spaces of indentation per level, single spaces between entries.",
     ["inputs"], "every accepted KDL v2 document",
     "No test checks that nothing of the old spelling survives; every item has its own formatting to clear.",
     ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
     [("clearing", "clear_format, clear_format_recursive of document, node, entry, identifier")],
     observe=["cleared documents in memory and printed"],
     technique="differential monitor: cleared documents against documents built from the same content",
     note="Exploration over parsed documents with every kind of formatting.")
prop("C17", "Equality, hashing, ordering and cloning agree",
     "For values, entries, nodes and documents: equality is an equivalence that tells different contents apart, equal things hash equally, ordering agrees with equality and is transitive, clones equal their originals and share nothing with them, and spans do not take part.",
     ["inputs", "histories"], "every pair and triple of values, entries, nodes and documents",
     "No test covers the contracts; they quantify over all pairs and triples, and floats make them easy to break.",
     ["src/value.rs", "src/entry.rs", "src/node.rs", "src/document.rs", "src/identifier.rs"],
     [("float normalisation", "src/value.rs: normalize_float, PartialEq, Hash, PartialOrd"), ("span-blind equality", "PartialEq and Hash of node, entry, identifier, document")],
     observe=["==, hash, partial_cmp, clone"],
     technique="contract monitor over all pairs and triples of generated pools",
     note="Exploration. Infinite and extreme floats, and NaN and zero, are documented to be equal.")
prop("C18", "KDL v1 text becomes v2 text that means the same",
     "A text is read as KDL v1 exactly when it is KDL v1, with exactly the v1 content, as a document, node, entry or identifier; made v2 - by v1_to_v2, or by ensure_v2 on what was parsed - its content stays the same in memory and the printed text is KDL v2 that reads back with that content; every comment is kept, in order. ensure_v2 changes nothing about the content of a document that is v2 already.",
     ["inputs"], "every KDL v1 text without slashdashed parts (for those: reading, and content in memory)",
     "One test converts one document; v1 and v2 differ in strings, keywords, whitespace, comments and node endings, each converted by its own rule.",
     ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
     [("conversion from the v1 tree", "From<kdlv1::...> for KdlDocument, KdlNode, KdlEntry, KdlIdentifier, KdlValue"), ("ensure_v2", "src/entry.rs, src/node.rs, src/document.rs: ensure_v2")],
     observe=["parse_v1, v1_to_v2, ensure_v2 and printed text"],
     technique="conversion monitor: content by the v1 parser against content of the v2 text, by the library and a reference reader",
     note="Exploration over generated and mutated v1 text. The v1 side's oracle is the kdl 4.7.1 parser. Slashdashed parts are kept as written (known finding).")
prop("C19", "KDL v2 documents become v1 text that means the same",
     "A KDL v2 document - parsed, built or edited - whose values v1 has (64-bit integers, finite floats) keeps its content in memory through ensure_v1, and prints as KDL v1 text that the v1 parser reads with exactly that content; v2_to_v1 does the same from text, keeping every comment in order, and accepts exactly what parse_v2 accepts. Converting twice, and back to v2, changes nothing.",
     ["inputs", "histories"], "every KDL v2 document without slashdashed parts whose values fit v1",
     "One test converts one document back; most v2-only syntax (bare strings, multi-line strings, whitespace around = and types, unterminated last nodes) is in no test.",
     ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
     [("ensure_v1", "src/entry.rs, src/node.rs, src/document.rs, src/identifier.rs: ensure_v1"), ("whitespace conversion", "src/fmt.rs: to_v1, lines_to_v1")],
     observe=["v2_to_v1, ensure_v1 and printed text, read by kdl 4.7.1"],
     technique="conversion monitor: content before against content read by the v1 parser from the printed text",
     note="Exploration. i64::MIN is left out (kdl 4.7.1 cannot read it). Slashdashed parts are kept as written (known finding).")
prop("C20", "The v1 fallback reads v2 first, then v1, and nothing else",
     "With the v1-fallback feature, parsing a document gives exactly what parse_v2 gives where that succeeds, otherwise the v1 content where the text is v1, and otherwise an error that is one version's own (v1's for a text declaring itself v1, v2's when nothing in it looks like v1). Nodes, entries and identifiers do likewise, reporting v2 errors. from_str is parse, and deserialization reads v1 text as the same document in v2.",
     ["inputs"], "every text",
     "Two tests try one document; which version answers depends on the whole text.",
     ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
     [("fallback order", "parse and FromStr of KdlDocument, KdlNode, KdlEntry, KdlIdentifier"), ("choice of errors", "src/document.rs: detect_v1")],
     observe=["parse, from_str, parse_v1, parse_v2, de::from_str results"],
     technique="differential monitor: parse against parse_v2, parse_v1 and the v1 parser itself",
     note="Exploration. Texts on which the v1 parser itself panics are not judged (known finding).")
prop("C21", "What serde serialization writes, deserialization reads back",
     "Serializing a value and deserializing the text (or the document) gives an equal value; the text is KDL that parses to what to_document gives. So for structs with any of the special field names (#args, #props, #rest, #N, #name, #N#type), maps with string, number, flag, unit-variant or newtype keys, enums of every variant kind, bytes, options, tuples, newtypes, sequences, and every scalar, nested in each other as the mapping allows.",
     ["inputs"], "every value of every type the serde mapping documents",
     "Tests round-trip a handful of small values; strings that need quoting, empty and falsy values, and combinations of shapes at different depths are in none.",
     ["src/se.rs", "src/de.rs", "src/lib.rs"],
     [("field placement", "src/se.rs: node, props and args serializers"), ("field lookup", "src/de.rs: NodeMapAccess, document and enum access")],
     observe=["to_string, to_document, from_str, from_document"],
     technique="round-trip monitor over a family of generated types and values",
     note="Exploration over 600 instantiated types. Left out: Option of bool or unit, unit variants and scalars as whole documents, sequences of sequences below the top level, floats as keys, newtype variants of anything but scalars, an empty list in an optional #args, 128-bit fields, false or null inside flattened, tagged or untagged types.")
prop("C22", "The serde mapping is the documented one",
     "Serialization puts every field where the documentation says (child node, argument, property, type, false and null left out) with its exact value and nothing else, and refuses with an error what has no place in KDL; deserialization hands a type exactly what is in the document under the documented names: the last of repeated properties, all arguments in order, every child, and each value with its exact type and magnitude.",
     ["inputs"], "every document and every value",
     "Round trips alone cannot see a field that both directions misplace; the tests fix a few documents.",
     ["src/se.rs", "src/de.rs", "src/lib.rs"],
     [("writer", "src/se.rs"), ("reader", "src/de.rs: deserialize_any, NodeMapAccess, ValueDeserializer")],
     observe=["the tree serialization makes", "everything a visitor is given"],
     technique="differential monitor: an independent model of the documented mapping in both directions",
     note="Exploration. A child and a property of the same name are not judged.")
prop("C23", "Deserialization is total, exact and says where it failed",
     "Deserializing any text into any type returns a value or an error; never panics. A number is accepted by an integer type exactly when it is in range, and is then that number; float and char likewise. Errors carry the input text and a span that lies within it, on character boundaries, at the value or type annotation that does not fit.",
     ["inputs"], "every text, type and number",
     "Tests check a few error messages; ranges and positions quantify over all types and numbers.",
     ["src/de.rs", "src/error.rs"],
     [("number conversion", "src/de.rs: value deserializers"), ("error spans", "src/de.rs: Error, attach of spans")],
     observe=["from_str results and errors"],
     technique="fault-input monitor: hostile documents against every type, exact arithmetic oracle for ranges, span oracle for errors",
     note="Exploration.")
prop("C24", "Feature flags add, and change nothing else",
     "The library builds with any combination of the span, serde and v1 features, and parses, prints, edits, formats, compares and rejects every text identically in all of them, down to each diagnostic; spans do not depend on serde or v1, nor serde results on span or v1, nor v1 conversions on span.",
     ["configurations", "inputs"], "every text and operation in every feature combination",
     "The test suite runs with one combination; code behind `not(feature)` is never run.",
     ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/v2_parser.rs", "src/fmt.rs"],
     [("conditional code", "#[cfg(feature = ...)] throughout src/")],
     observe=["everything the public API returns for a case, in six builds"],
     technique="differential monitor: six builds of the real library over the same cases, everything observed compared",
     note="Exploration over generated, mutated and random text with edits; v1-fallback is C20's. Entries kept as written by autoformat (keep_format) are left out: what they keep depends on v1 by design.")
prop("C25", "The language server reports exactly the errors of the current text",
     "Whatever documents a client opens, changes, saves and closes, in whatever order and without waiting, each diagnostic request is answered with exactly the errors parsing the document's current text gives - none for good, closed or unknown documents - each at the UTF-16 line and character the LSP gives its span, with its message and severity. The server answers every request and keeps running.",
     ["inputs", "histories", "schedules"], "every editing session over any texts",
     "The language server has no tests at all.",
     ["tools/kdl-lsp/src/main.rs"],
     [("document state", "did_open, did_change, did_save, did_close"), ("positions", "byte_to_position")],
     state=[("document_map", "the text the server holds for each open document", "tools/kdl-lsp/src/main.rs")],
     observe=["JSON-RPC traffic of the running server"],
     technique="protocol monitor: a model of the client's documents judges every answer of the real server process",
     note="Exploration. Texts on which the v1 parser panics end the server (known finding).")
prop("C26", "Calls depend on their arguments only, on any thread",
     "What any call returns is a function of its arguments: the same whatever was parsed, edited or rejected before, in whatever order, process or thread. All public types can be sent to and shared between threads; threads using the same document at once each see what one alone would, without data races, invalid memory accesses or leaks.",
     ["schedules", "histories", "inputs"], "every order, interleaving and history of calls",
     "Each test runs a few calls on one thread; state that leaks between calls or threads shows up in none of them.",
     ["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/value.rs"],
     [("parsing without shared state", "src/v2_parser.rs: try_parse, Recoverable"), ("shared sources", "src/error.rs: Arc<String> of diagnostics")],
     state=[("the document", "everything reachable from a KdlDocument or KdlError", "src/document.rs, src/error.rs")],
     observe=["results of the same cases in other orders, processes and threads", "ThreadSanitizer, AddressSanitizer and Miri reports"],
     technique="differential monitor over orders, processes and threads, with ThreadSanitizer and AddressSanitizer builds (std included), and Miri in the thorough tier",
     note="Exploration.")
prop("C27", "A node, entry or identifier parses on its own as it does in a document",
     "KdlNode::parse, KdlEntry::parse, KdlIdentifier::parse and their FromStr take the text of any node, entry, name, key or type annotation of a valid document, nodes and entries also with whitespace, newlines and comments around them and slashdashed ones before them, and give the same content the document has there, with spans of that text, and print as what was given. Text that holds none, more than one, or something of another kind is refused.",
     ["inputs"], "every part of every valid document, with everything that may surround it",
     "The tests parse a few plain nodes and entries; the padded parsers are entry points of their own that no conformance file reaches.",
     ["src/v2_parser.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
     [("padded parts", "src/v2_parser.rs: padded_node, padded_node_entry, identifier"), ("entry points", "parse and FromStr of KdlNode, KdlEntry, KdlIdentifier")],
     observe=["parse results of parts cut out at the reference reader's positions"],
     technique="differential monitor: each part of an accepted document parsed alone between random padding, against the document's own tree; wrong kinds and counts must be refused",
     note="Exploration.")
prop("C28", "One run of the parser finds every wrong line",
     "When several lines of a document are each wrong by themselves, with right lines between them, one parse reports every one of them: for each wrong line that does not leave a string, comment, block or line continuation open, some diagnostic touches it, at the top level and inside children blocks alike.",
     ["inputs"], "every document made of right lines and of wrong lines that leave nothing open",
     "Tests look at the diagnostics of a few single errors; whether the parser goes on after an error depends on which production it failed in and on what follows.",
     [V2], [("error recovery", V2 + ": resume_after_cut, badval, quoted_string_badval, raw_string_badval, recovery of type annotations and property values"), ("going on at the end of what parses", V2 + ": document")],
     observe=["KdlError diagnostics of texts with several errors"],
     technique="differential monitor: lines found wrong by the reference recogniser against the diagnostics of one parse",
     note="Exploration. Right lines hold no quotes, slashes or backslashes, because recovery may resume in the middle of a line.")
