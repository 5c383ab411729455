PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="Rendering writes every stored piece once, in order, and keeps siblings apart",
  statement="Rendering a document, node, entry or identifier writes every piece of text it stores (formatting text, annotations, names, values, entries, children, terminators) exactly once and in source order. "
            "Sibling entries and sibling nodes are always kept apart by white space, a newline or a terminator, whatever formatting they carry or lack.",
  over=["inputs"], q="every document tree: any mix of formatted and unformatted nodes, entries, annotations and children",
  why="The tests render a few dozen documents; the guarantee ranges over every combination of present and absent formatting, annotations and children in trees of any size.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("document rendering", "src/document.rs: impl Display for KdlDocument / stringify"),
        ("node rendering", "src/node.rs: impl Display for KdlNode / stringify"),
        ("entry rendering", "src/entry.rs: impl Display for KdlEntry"),
        ("identifier rendering", "src/identifier.rs: impl Display for KdlIdentifier")],
  observe=["to_string() of the public tree types"],
  tech="abstract interpretation of the compiler's MIR: path-partitioned emission sequences matched against the required sequence of pieces",
  note="All paths of the rendering functions over symbolic trees; loops summarised per iteration; nothing executed.")

P(id="C02", title="What the v2 parser accepts, Display reproduces exactly",
  statement="Whenever KdlDocument::parse_v2, KdlNode::parse, KdlEntry::parse or KdlIdentifier::parse succeeds by way of the v2 grammar (not the v1 fallback), writing the returned value with Display gives exactly the text that was parsed: "
            "every character once and in order, including white space, newlines of every kind, comments, slash-dashed nodes, entries and children blocks, escaped line ends, node terminators, a byte-order mark, and the spelling of every name, annotation and value.",
  over=["inputs"], q="every text the v2 grammar accepts",
  why="Each optional piece of text is collected by hand into one of twelve format fields; losing one needs a particular combination (say, a comment between a name and `=`), and the suite round-trips some hundred files.",
  files=["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("grammar actions", "src/v2_parser.rs: functions returning KdlDocument, KdlNode, KdlEntry, KdlIdentifier and the texts stored in their formats"), ("rendering", "impl Display for each of them")],
  observe=["parse(text).to_string() == text"],
  tech="abstract interpretation of MIR: consumed text of every successful parser path matched against the rendering of the value it returns; fixed point of contracts over the grammar functions",
  note="winnow's combinators are modelled (a parser consumes what it matches; look-ahead and failed alternatives consume nothing). Quick: feature set none; thorough: also all features and span+v1.")

P(id="C03", title="The v2 parser accepts the KDL 2.0 grammar, nothing more and nothing less",
  statement="KdlDocument::parse_v2, and the v2 side of KdlNode::parse, KdlEntry::parse and KdlIdentifier::parse, return Ok exactly for the texts that the KDL 2.0.0 grammar derives for a document, a single node, a single entry or a single string: "
            "bare, quoted and raw strings with their escapes, keywords, numbers in every radix, type annotations, properties, node spaces, escaped line ends, comments (nested ones too), slash-dashed nodes, entries and blocks, terminators, nested blocks, the byte-order mark and disallowed code points. "
            "The parser's own latitude belongs to the grammar meant here: no white space is needed before a children block (nor before the first slash-dashed block after it), 0X/0O/0B may be written for 0x/0o/0b, -inf is a bare string, comments may hold any code point, and KdlEntry::parse takes slash-dashed entries before the entry. "
            "Not covered: multi-line strings (three quotes), raw strings with more than three hashes, and whether a number fits its type.",
  over=["inputs"], q="every text, of any length, over the alphabets and nesting bounds each comparison states",
  why="Acceptance is a property of an infinite language; ordered choice, possessive repetition, look-ahead and cut interact, and the suite samples a few hundred texts.",
  files=["src/v2_parser.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("grammar", "src/v2_parser.rs: document, nodes, node, base_node, node_entry, value, ty, string, identifier_string, quoted_string, raw_string, number, keyword, ws, newline, comments, escline, slashdash"),
        ("recovered errors mean rejection", "src/v2_parser.rs: try_parse, resume_after_cut")],
  observe=["is_ok() of the public parse methods"],
  tech="grammar extraction from MIR (abstract interpretation of the parser functions) and exact language comparison with a reference grammar by derivatives of alternating automata",
  note="Full Unicode for strings, entries and flat documents; document structure over reduced alphabets with at most 1-3 (thorough: up to 5) opening braces, slash-dashes and comment openers; texts of any length. winnow's combinators are modelled. The features-on grammar is shown identical to the features-off one.")

P(id="C04", title="A literal is read as the kind of value the grammar gives it",
  statement="When KdlEntry::parse reads a single value, the value is a string exactly for bare, quoted and raw strings; an integer exactly for decimal literals without fraction and exponent and for 0x, 0o and 0b literals; a float exactly for decimal literals with a fraction or an exponent, however many digits they have; "
            "true, false, null, infinity, negative infinity and NaN exactly for #true, #false, #null, #inf, #-inf and #nan. Multi-line strings, and whether an integer fits 128 bits, are not covered.",
  over=["inputs"], q="every text of any length without type annotation, `=`, comment and slash-dash",
  why="The literal syntaxes overlap (+5 / +a, -.5 / -.a, 1e5 / 1, #inf / #\"inf\"#) and are tried in order; which alternative wins for every text cannot be sampled.",
  files=["src/v2_parser.rs", "src/entry.rs"],
  mech=[("literals", "src/v2_parser.rs: value, string, number, keyword, float, integer_value and the functions below them")],
  observe=["KdlEntry::parse(text).value()"],
  tech="grammar extraction from MIR with the KdlValue each alternative builds; exact language comparison per kind of value",
  note="All code points; a run counts for a kind when every KdlValue it builds is of that kind (constants of keywords included).")

P(id="C05", title="What is written for a value or a name is read back as that value",
  statement="Writing a KdlValue, or a KdlIdentifier that has no stored spelling, gives text that KdlEntry::parse (KdlIdentifier::parse for names) reads back as the same kind of value: "
            "a string is written bare only if it is a KDL 2 bare string (never when it is empty, a keyword, looks like a number or holds a character that may not stand in one), and otherwise in quotes, every character written once, either as itself where that is legal or as an escape that denotes it; "
            "integers are written as integers, finite floats as floats, infinities, NaN, booleans and null as their keywords. KdlEntry::ensure_v2 spells a string value bare only under the same condition. Not covered: the digits of floats.",
  over=["inputs"], q="every value: strings over all code points and of any length (at most one '/*' in a quoted one), all integers, floats and booleans",
  why="Which strings need quotes or escapes is a question about all 1.1 million code points and their positions; the tests write a few dozen strings, nearly all ASCII.",
  files=["src/value.rs", "src/identifier.rs", "src/entry.rs", "src/v2_parser.rs"],
  mech=[("writer", "src/value.rs: impl Display for KdlValue, write_string, is_plain_ident"), ("reader", "src/v2_parser.rs: string, identifier_string, quoted_string, escaped_char, number, keyword"), ("respelling", "src/entry.rs: ensure_v2")],
  observe=["KdlEntry::parse(&value.to_string())", "KdlIdentifier::parse(&name.to_string())"],
  tech="abstract interpretation of the writer's MIR into languages (per path, per class of characters) and exact language inclusion in the grammar extracted from the parser's MIR, with the characters escapes denote",
  note="Feature set none. What {:?} writes for numbers is taken from the standard library's documentation.")

P(id="C07", title="Equality, hashing and ordering agree with each other and ignore spans",
  statement="Two documents, nodes, entries or identifiers are equal exactly when all their stored components (everything but the source span) are equal; objects that are equal have the same hash, "
            "every KdlValue is equal to itself (NaN included), values of different kinds are never equal, and partial_cmp says Equal exactly when == holds. "
            "None of these ever depends on a span.",
  over=["inputs"], q="all pairs of documents, nodes, entries, identifiers and values, in particular all pairs of floats",
  why="The laws relate all pairs of values, including NaNs, signed zeros and objects that differ only in a span or in one component; tests compare a handful of pairs.",
  files=["src/value.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("tree equality and hashing", "PartialEq and Hash impls of KdlDocument, KdlNode, KdlEntry, KdlIdentifier"),
        ("value equality, hashing, ordering", "src/value.rs: PartialEq, Hash, PartialOrd of KdlValue, normalize_float")],
  observe=["==", "Hash::hash", "partial_cmp"],
  tech="abstract interpretation of the comparison and hashing functions' MIR over symbolic pairs; every branch matched against the set of compared components",
  note="All paths of eq, hash and partial_cmp over symbolic operands, float classes (NaN, zeros, infinities, ordinary) treated separately.")

P(id="C11", title="clear_format and clear_format_recursive remove formatting and nothing else",
  statement="clear_format drops the object's own formatting; clear_format_recursive also drops it from every node, entry, name and annotation below, at any depth, so that the tree renders canonically. "
            "Neither ever adds, drops, reorders or changes a node, entry, name, value, annotation or children block.",
  over=["inputs"], q="every tree of any size and depth with any mix of formatting",
  why="A forgotten component or branch only shows on trees that combine that component with formatting; tests check two or three trees.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("clearing", "clear_format / clear_format_recursive of KdlDocument, KdlNode, KdlEntry, KdlIdentifier")],
  observe=["format() and repr() accessors after the call"],
  tech="abstract interpretation of MIR: symbolic pre/post-state of each path, full-traversal loops summarised, recursion by induction on the tree",
  note="Every path of the clearing functions; recursive calls are replaced by the property itself (induction over depth).")

P(id="C08", title="All lookups, inserts and removals by key or index address the same entry",
  statement="In a node, a name denotes the last property with that name (names match by value, whatever their representation) and an index n the n-th argument: entry, get, entry_mut, get_mut, indexing, insert and remove all agree on it, "
            "find nothing when there is none, and change no other entry; insert replaces that property or puts the argument before that index, and appends when there is none. "
            "In a document, a name denotes the first node with that name for get, get_mut, get_arg, get_arg_mut, iter_args and iter_dash_args; the entry and child iterators yield everything once and in order.",
  over=["inputs"], q="all entry and node lists of any length and composition, all keys",
  why="Agreement has to hold for every arrangement of arguments, duplicate names and representations; the tests try a few lists of length two or three.",
  files=["src/node.rs", "src/document.rs"],
  mech=[("node lookups", "src/node.rs: entry, entry_mut, get, get_mut, insert, remove, Index, IndexMut"),
        ("document lookups", "src/document.rs: get, get_mut, get_arg, get_arg_mut, iter_args, iter_dash_args"),
        ("iterators", "src/node.rs: iter, iter_mut, iter_children, iter_children_mut")],
  observe=["results of the lookup functions and entries() afterwards"],
  tech="abstract interpretation of MIR over lists of unbounded length (pre* mark post* with affine counters), loops taken to a fixpoint",
  note="Every path of every lookup on unbounded symbolic lists, with and without a match.")

P(id="C14", title="Accessors, setters and constructors touch exactly the component they name",
  statement="Every accessor of a document, node, entry or identifier reports exactly the component it is named after (names and annotations of nodes and entries as stored, absent when absent); every setter and mutable accessor "
            "changes that component to its argument and leaves all others as they were; constructors and conversions build objects with exactly the given components and none of the others. "
            "The list operations of KdlNode (push, extend, clear_entries, retain, len, is_empty) act on its entry list, ensure_children creates children only when there are none, "
            "and the FormatConfig builder stores each option unchanged with the documented defaults.",
  over=["inputs"], q="all objects, all argument values",
  why="Frame conditions (nothing else changes) relate every method to every other component for all objects; tests call a few setters on fixed objects.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
  mech=[("accessors and setters", "impl KdlDocument, KdlNode, KdlEntry, KdlIdentifier"), ("conversions", "From and IntoIterator impls of the tree types"),
        ("configuration", "src/fmt.rs: FormatConfigBuilder")],
  observe=["public accessors before and after the call"],
  tech="abstract interpretation of MIR: symbolic pre/post-state of every accessor, setter and constructor compared component by component",
  note="Every path of each method over a symbolic object; one obligation per method and component.")

P(id="C29", title="KdlValue predicates, accessors and conversions are exact",
  statement="Every KdlValue answers yes to exactly one of is_string, is_integer, is_float, is_bool and is_null, the one of its kind; as_string, as_integer, as_float and as_bool return the stored value exactly when it is of that kind; "
            "converting a string, integer, float, bool or Option into a KdlValue keeps the value unchanged (None becomes Null).",
  over=["inputs"], q="all values of all five kinds",
  why="Exactness for every integer and float bit pattern; tests look at two or three values.",
  files=["src/value.rs"], mech=[("predicates and accessors", "impl KdlValue"), ("conversions", "From impls of KdlValue")],
  observe=["return values"],
  tech="abstract interpretation of MIR with the value's kind fixed, all five kinds in turn",
  note="Payload terms must be identical to the stored ones; no cast, rounding or normalisation may occur.")

P(id="C09", title="All parse entry points agree, and v1 is only ever a fallback",
  statement="For documents, nodes, entries and identifiers, FromStr gives exactly what the type's parse function gives. parse returns the v2 parser's result for the whole text whenever that parser accepts it; otherwise it fails, "
            "unless the v1-fallback feature is on and the v1 parser accepts the text, in which case it returns the v1 result; when both fail, it fails (nodes, entries and identifiers with the v2 errors). "
            "parse_v2 and parse_v1 only use their version's parser, and v1_to_v2 and v2_to_v1 return the text of the parsed document converted with ensure_v2 or ensure_v1, or the parse error.",
  over=["inputs"], q="all texts, with and without the v1-fallback feature",
  why="Which parser decides depends on the text and the feature set; tests parse a few texts with the default features.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/v2_parser.rs"],
  mech=[("entry points", "parse, parse_v1, parse_v2, v1_to_v2, v2_to_v1 and FromStr of the tree types"), ("engine", "src/v2_parser.rs: try_parse")],
  observe=["results of the parse functions"],
  tech="abstract interpretation of MIR under each feature configuration, both parsers opaque; every path's result compared with the parsers' results",
  note="The two parsers themselves are opaque here (v2 grammar: see the other parser properties; v1: a dependency).")

P(id="C10", title="Parsing succeeds only without errors and reports every error in full",
  statement="A v2 parse succeeds only if no error was recorded, and fails otherwise; an error the parser recovers from is always recorded. The returned KdlError carries the complete input and one diagnostic per recorded error, "
            "in order, each with the complete input and the error's span, message, label and help. V1 errors are carried over with input, span, label, help and their kind as message. "
            "KdlError and KdlDiagnostic expose exactly the stored input, related diagnostics, severity, help, label, span and message through miette's Diagnostic and Display.",
  over=["inputs"], q="all texts and all combinations of errors in them",
  why="Swallowed errors only show on malformed texts that hit one particular recovery path; tests contain a few malformed documents.",
  files=["src/v2_parser.rs", "src/error.rs"],
  mech=[("errors", "src/v2_parser.rs: try_parse, failure_from_errs"), ("recovery", "src/v2_parser.rs: resume_after_cut, node_children"), ("exposure", "src/error.rs")],
  observe=["KdlError, KdlDiagnostic"],
  tech="abstract interpretation of MIR: every path of every parser function on which a sub-parser fails must return or record that failure; error construction and accessors compared field by field",
  note="winnow's combinators are trusted to pass cut errors on; sub-parser results are opaque.")

P(id="C12", title="Autoformat changes nothing but formatting, and reaches everything",
  statement="Autoformatting a document, node, entry or identifier never adds, drops, reorders or changes a node, entry, name, value, annotation or children block. "
            "It reaches every node, entry and children block at any depth with the caller's configuration, indentation one level deeper per children block; every name and annotation loses its own representation, and every entry its formatting "
            "(only an entry that is to be kept, by entry_autoformate_keep or its own autoformat_keep, keeps leading text and value representation). "
            "autoformat() uses the default configuration and autoformat_no_comments() differs from it only in no_comments.",
  over=["inputs"], q="every tree of any size and depth, every FormatConfig",
  why="A missed branch or wrong hand-down only shows on deep trees combining formatting, annotations and children with non-default options; tests format a few documents.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
  mech=[("formatting", "autoformat, autoformat_config, autoformat_no_comments, keep_format of the tree types")],
  observe=["the tree after the call"],
  tech="abstract interpretation of MIR: symbolic pre/post-state per path, full-traversal loops, induction over depth for the recursive calls",
  note="All paths with a symbolic configuration; recursive calls replaced by the property, their arguments compared component by component.")

P(id="C13", title="Autoformat keeps comments and puts each node on its own indented line",
  statement="Unless no_comments is set, autoformatting a document or node keeps every comment in it, and a single-line comment still ends with its line; with no_comments the comments in the nodes' and the document's own formatting are dropped. "
            "Every node ends its line, and the text before a formatted node ends with the indent string repeated indent_level times.",
  over=["inputs"], q="all formatting text of all nodes, every FormatConfig",
  why="Which texts survive depends on where a comment stands and how many lines it has; tests have a handful of comments.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/fmt.rs"],
  mech=[("text handling", "src/fmt.rs: autoformat_leading, autoformat_trailing"), ("nodes", "src/node.rs: autoformat_config"), ("documents", "src/document.rs: autoformat_config")],
  observe=["format() of nodes and documents after the call"],
  tech="abstract interpretation of MIR with string terms: each formatting component's final text must contain every non-blank line of the original",
  note="Helper functions on strings are summarised from their own MIR. 17 places where autoformat does delete comments are listed as known findings.")

P(id="C24", title="Converting between v1 and v2 spelling reaches everything, changes only spelling",
  statement="Converting a document, node or entry with ensure_v1 or ensure_v2 never adds, drops, reorders or changes a node, entry, name, value, annotation or children block, and converts all of them at any depth: "
            "names and annotations lose their own representation and are spelled for the target version, booleans and null get its keywords, numbers keep their spelling. All other formatting stays as it is, except that ensure_v1 terminates the last node "
            "of a document and of every children block, and gives an unformatted entry formatting spelled from its value.",
  over=["inputs"], q="every tree of any size and depth with any mix of formatting",
  why="A component the traversal forgets only shows on trees that combine it with formatting at some depth; tests convert one or two documents.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"],
  mech=[("conversion", "ensure_v1 / ensure_v2 of KdlDocument, KdlNode, KdlEntry")],
  observe=["the tree after the call"],
  tech="abstract interpretation of MIR: symbolic pre/post-state per path, full-traversal loops, induction over depth for the recursive calls",
  note="Whether a string's new spelling denotes the same string is not decided here (see C28).")

P(id="C25", title="Converting a v1 tree carries over every part of it",
  statement="With the v1 feature, converting a v1 document, node, entry, identifier or value into this crate's type (From, and so parse_v1 and the fallback of parse) keeps everything: all nodes and entries in order, names, type annotations, values of the same kind "
            "(raw strings are strings; integers of any base are integers) with the same payload, the children block exactly if there is one, spans, and the stored spelling of names and values. "
            "Every stored text of the v1 tree (before and after a node, an entry or the document, and before a children block) is in the result's formatting, once; the text after a node is divided into text before the terminator, terminator and trailing text without losing any of it.",
  over=["inputs"], q="every v1 tree: any size, depth and combination of present and absent formatting",
  why="Each field is forwarded by hand, so a dropped one shows only on the trees that use it; tests convert two documents.",
  files=["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/value.rs"],
  mech=[("conversion", "impl From<kdlv1::X> for X")],
  observe=["accessors, format() and Display of the converted tree"],
  tech="abstract interpretation of MIR: each From impl on a symbolic v1 object with opaque accessors; slice-bound matching for the divided trailing text",
  note="Induction over the tree: the conversions of the parts are opaque in each run. Where in the text a terminator is found is not decided.")

P(id="C16", title="The serializer writes every value it accepts, once, or fails",
  statement="With the serde feature, to_document and to_string either fail or write everything they are given. A scalar is never refused and becomes exactly one value of its own kind with the same payload "
            "(any integer an integer, f32/f64 a float, char/str/unit variant a string, none/unit/unit struct null; at the top of a document these last three may write nothing). "
            "Some and newtype structs are their content. Every element of a sequence, tuple, byte string, map, struct or variant adds exactly its own serialized value behind what was written before, at its key's name (map keys and field names as node names, `#@name` as a property, "
            "other `#` fields as arguments of the node) and, for variants, under a node named after the variant (`#` fields of a nested struct variant go onto the parent node). A keyed field may be left out only if its value is false or null and its key is not a `#` key. "
            "An element fails only if serializing its value or key failed, and such a failure always makes the whole fail.",
  over=["inputs"], q="every sequence of serde calls a Serialize implementation can make, at every nesting",
  why="28 methods in four serializers times seven kinds of compound; tests serialize a handful of derived types.",
  files=["src/se.rs"],
  mech=[("serializers", "src/se.rs: impl Serializer for DocumentSerializer, NodeValueSerializer, ArgsSerializer, KdlValueSerializer, KeySerializer"), ("compounds", "src/se.rs: impl Serialize{Seq,Tuple,TupleStruct,TupleVariant,Map,Struct,StructVariant}")],
  observe=["to_document, to_string"],
  tech="abstract interpretation of MIR: every serializer method on symbolic state with nested serializations opaque; start/element/end composed; induction over nesting",
  note="Which compounds a scalar-only sink refuses is not part of the property. Where in the argument list a `#n` field goes is not decided.")

P(id="C20", title="The language server's copy of a document is the editor's",
  statement="After a document is opened, changed or saved with its text, kdl-lsp holds under that document's URI exactly the text the notification carries: for a change, that of the last content change (the server announces full-text synchronisation and open/close notifications); "
            "a change without content changes and a save without text leave the store as it is. Closing a document removes it. No handler stores under, changes or removes another document's entry, "
            "and a diagnostic request parses exactly what is stored under the URI it names, and changes nothing.",
  over=["histories"], q="every sequence of notifications, for any documents and texts",
  why="An entry stored under the wrong URI, or the wrong one of several changes, shows only in longer editing sessions; kdl-lsp has no tests.",
  files=["tools/kdl-lsp/src/main.rs"],
  mech=[("handlers", "tools/kdl-lsp/src/main.rs: impl LanguageServer for Backend: did_open, did_change, did_save, did_close, diagnostic, initialize")],
  observe=["textDocument/diagnostic after any notifications"],
  tech="abstract interpretation of MIR (coroutine bodies of the async handlers): every path's effect on the document store; induction over the history",
  note="Order of concurrently handled notifications is tower-lsp's and not decided. ropey and dashmap are taken at their word (from_str/to_string round trip, insert/get/remove by key).")

P(id="C21", title="Ranges reported to the editor are the parser's spans in UTF-16 positions",
  statement="In every diagnostic kdl-lsp reports, start and end of the range are the positions of span.offset() and span.offset() + span.len() of the parser's diagnostic, clamped to the length of the text that was parsed: "
            "the line containing that byte offset (as ropey counts lines), and the number of UTF-16 code units between the start of that line and the offset. The server announces no other position encoding.",
  over=["inputs"], q="every text and every span of a diagnostic",
  why="Mixed-up units (bytes, characters, UTF-16) agree on ASCII and one-line documents; kdl-lsp has no tests.",
  files=["tools/kdl-lsp/src/main.rs"],
  mech=[("positions", "tools/kdl-lsp/src/main.rs: byte_to_position, diagnostic")],
  observe=["range of each item of textDocument/diagnostic"],
  tech="abstract interpretation of MIR: the reported positions as terms over the rope's index conversions, normalised and compared",
  note="ropey counts U+000B, U+000C, U+0085, U+2028 and U+2029 as line breaks too; which characters end a line is not decided.")

P(id="C22", title="The editor is shown every diagnostic of the parser, and nothing else",
  statement="A diagnostic request for a document that is not open, or whose text parses, is answered by a full report without items. For an open document whose text is refused, the full report has exactly one item for each diagnostic of the KdlError, in its order, "
            "with its message (Display), its severity (Error as ERROR, Warning as WARNING, Advice as HINT or INFORMATION) and its code.",
  over=["inputs"], q="every document text and every set of diagnostics",
  why="A lost or mislabelled diagnostic shows only on documents with several errors of a particular kind; kdl-lsp has no tests.",
  files=["tools/kdl-lsp/src/main.rs"],
  mech=[("report", "tools/kdl-lsp/src/main.rs: diagnostic, to_lsp_sev")],
  observe=["textDocument/diagnostic"],
  tech="abstract interpretation of MIR: the report of every path as a term, per element of the list of diagnostics",
  note="Which diagnostics the parser produces is not part of this property (see C03, C08).")

P(id="C23", title="Every combination of features builds, and features only add",
  statement="The library type-checks with each of the twelve combinations of its features (span, serde, v1, v1-fallback). Turning more features on never takes a public function, type, field, variant or trait implementation of a public type away "
            "and never changes a public function's signature or a public enum's variants.",
  over=["histories"], q="all feature combinations, the whole public API",
  why="The test suite builds one feature combination; a dependency resolver may pick any, and unions them.",
  files=["Cargo.toml", "src/lib.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/value.rs", "src/error.rs"],
  mech=[("features", "Cargo.toml: [features]; cfg(feature) in src")], observe=["cargo check --no-default-features --features ...", "public API of each combination"],
  tech="type checking of every feature combination and comparison of the typed public API between them",
  note="All twelve combinations (v1-fallback implies v1), all pairs of a smaller and a larger one.")

P(id="C31", title="Public types are thread-safe and immutable behind shared references",
  statement="Every public type of the library is Send, Sync, Unpin and RefUnwindSafe, and nothing reachable through a public type's fields is a Cell, RefCell, lock, once-cell, atomic or raw pointer.",
  over=["schedules"], q="all public types, all schedules of threads sharing them",
  why="A data race or a non-Send error type does not show in single-threaded tests; the bound has to hold for the type.",
  files=["src/error.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/se.rs", "src/de.rs"], mech=[("public types", "src/lib.rs: pub use")], observe=["auto traits of the public types"],
  tech="the compiler's trait solver on every public type, and a search through field types",
  note="Feature sets none and all (thorough: also default, v1, v1-fallback, serde).")

P(id="C18", title="The deserializer hands every value to the type as it is",
  statement="When a type is read with from_str, it is given the parsed document, and what it asks of each value, node and name is answered as follows. A string, bool or number is handed to the visitor as that string, bool or number, and null as unit; "
            "asked for as an option, exactly null is none; a newtype gets the same data; only a string can name an enum variant. "
            "A node without entries and children block is true (none as an option); one with a single argument and nothing else is that argument; one with several arguments and nothing else is the sequence of them; "
            "any other node is a map. Asked for as a sequence, a node with a children block is its children, else its arguments. Asked for as an enum, a lone string argument names the variant; else an only child node is the variant and its content; "
            "else a lone property is; else the node itself. Sequences yield every element once, in order. A failure of the type comes back with its message. Which keys and values a map or struct is given is not part of this property.",
  over=["inputs"], q="every document and every Deserialize type", why="The type decides what is asked of which node; tests sample a few types and documents.",
  files=["src/de.rs"], mech=[("values", "src/de.rs: ValueDeserializer"), ("nodes", "src/de.rs: NodeDeserializer"), ("enums", "src/de.rs: NodeEnumAccess, PropertyEnumAccess"), ("documents", "src/de.rs: DocumentDeserializer")], observe=["kdl::de::from_str"],
  tech="path-sensitive abstract interpretation of the MIR of every Deserializer method with the visitor opaque; questions on each path compared with a contract per kind of data and shape of node",
  note="Nodes are distinguished by number of arguments (0-3), properties (0-2) and children (no block, 0-2); sequences are followed for two steps from where they are made.")

P(id="C32", title="Results depend on nothing but the arguments",
  statement="The library contains no unsafe code and no mutable statics, and never consults the environment, files, network, processes, threads, time, random numbers, locks, atomics, once-cells or thread-locals, "
            "the address of anything, or the iteration order of a hash table.",
  over=["histories", "schedules"], q="all call histories and environments",
  why="State kept between calls and hash order show only across calls or runs; each test makes one call in one run.",
  files=["src/lib.rs", "src/de.rs", "src/fmt.rs", "src/v2_parser.rs"], mech=[("whole library", "src")], observe=["every public function"],
  tech="effect analysis: every function constant, cast and static in the MIR of all library functions, and unsafe blocks in the syntax tree",
  note="Every body of the library; effects inside winnow, miette, serde and kdl 4 are not analysed.")

P(id="C15", title="Floating-point numbers survive writing and reading",
  statement="A finite f64 written by KdlValue's Display and read back by KdlEntry::parse is the same f64, bit for bit, and a float literal is read as the f64 nearest to it.",
  over=["inputs"], q="every finite f64, every float literal", why="2^64 values; tests try a handful.",
  files=["src/value.rs", "src/v2_parser.rs"], mech=[("writer", "src/value.rs: impl Display for KdlValue"), ("reader", "src/v2_parser.rs: float")], observe=["KdlEntry::parse(&value.to_string())"],
  na="The digits are produced and read by the standard library's float formatting and parsing; that these invert each other is a theorem about their arithmetic (shortest decimal, correct rounding) that no dataflow, type-based or language argument reaches. C05 decides the syntactic half (what is written is a float literal).")

P(id="C17", title="Formatting is idempotent",
  statement="Autoformatting a document that has been autoformatted with the same configuration does not change its text.",
  over=["inputs"], q="every document and configuration", why="Interactions of comments, blank lines and nesting are unbounded.",
  files=["src/fmt.rs", "src/document.rs", "src/node.rs", "src/entry.rs"], mech=[("autoformat", "src/document.rs: autoformat_config"), ("trivia", "src/fmt.rs: autoformat_leading, autoformat_trailing")], observe=["to_string() after one and two calls"],
  na="The texts are rewritten line by line with trimming, and idempotence relates the output of one run, as an input, to a second run of loops over its lines: a relational property of string transducers. The string terms used for C13 keep containment of lines, not equality of two rewritings.")

P(id="C19", title="Spans lie within the source, on character boundaries, and nest",
  statement="Every span of a parsed tree and of a diagnostic lies within the parsed text, on character boundaries; the text it covers is the element's; children's spans lie within their parent's.",
  over=["inputs"], q="every text and every element of the resulting tree", why="Offsets are computed at run time from positions in the input.",
  files=["src/v2_parser.rs"], mech=[("spans", "src/v2_parser.rs: span_from_checkpoint")], observe=["span() of tree types, KdlDiagnostic.span"],
  na="Offsets are differences of runtime addresses and winnow checkpoints; a sound argument needs the numeric relation between the stream position at each checkpoint and the returned range (relational numeric invariants through a third-party combinator library), which the consumed-text domain of C02 abstracts away.")

P(id="C26", title="Parsing takes time proportional to the input",
  statement="The time to parse a text grows no more than linearly (or, for backtracking alternatives, within a fixed factor of the text's length).",
  over=["inputs"], q="every text", why="Only adversarial inputs show super-linear behaviour.",
  files=["src/v2_parser.rs"], mech=[("grammar", "src/v2_parser.rs: alternatives and look-ahead that re-read input")], observe=["parse time"],
  na="A cost bound over a backtracking PEG with error recovery needs amortised reasoning over how often each stretch is re-read; the syntactic criterion (no nested re-reading) is violated harmlessly by this grammar, and a sound bound is out of reach.")

P(id="C27", title="Nesting depth is bounded only by memory",
  statement="Parsing, rendering, comparing and dropping a tree of any nesting depth neither overflows the stack nor aborts.",
  over=["inputs"], q="every nesting depth", why="Needs inputs nested tens of thousands deep.",
  files=["src/v2_parser.rs", "src/document.rs", "src/node.rs"], mech=[("recursion", "src/v2_parser.rs: nodes -> node -> node_children -> nodes; derived Clone, Drop, PartialEq")], observe=["parse of deeply nested input"],
  na="The code recurses per level by design (a recursive-descent parser, derived traits on owned trees), so the property does not hold for unbounded depth and its threshold is a runtime quantity (stack size, frame sizes); recorded in DESIGN.md as a limit of the crate.")

P(id="C28", title="Respelling a string for the other version keeps its meaning",
  statement="After ensure_v1, every string spelled anew is read by a KDL v1 parser as the same string; after ensure_v2, quoted strings too are read by the v2 parser as the same string when their v1 spelling is kept.",
  over=["inputs"], q="every string and spelling", why="Depends on every code point and escape.",
  files=["src/entry.rs", "src/identifier.rs"], mech=[("respelling", "KdlEntry::ensure_v1, KdlIdentifier::ensure_v1")], observe=["kdlv1 parse of the converted text"],
  na="The reader is the kdlv1 dependency (nom-based), whose grammar is not in /repo; with only this crate's source there is no oracle to compare the writer with. What is decidable from here (bare spelling under ensure_v2) is part of C05; that nothing but spelling changes is C24.")

P(id="C30", title="Multi-line strings lose exactly their common indentation",
  statement="The value of a multi-line string is its lines without the white-space prefix of its last line, blank lines empty, line ends normalised to one newline, escapes decoded afterwards.",
  over=["inputs"], q="every multi-line string", why="Prefix, escapes, white-space escapes and blank lines interact.",
  files=["src/v2_parser.rs"], mech=[("dedent", "src/v2_parser.rs: quoted_string, raw_string")], observe=["KdlEntry::parse of a multi-line string"],
  na="The prefix is a runtime string that later lines are matched against (a context-sensitive language) and the value is accumulated by closures over it; neither the regular languages of C03/C05 nor the consumed-text domain of C02 can express the relation. C02 still decides that such strings are kept verbatim when written back.")
