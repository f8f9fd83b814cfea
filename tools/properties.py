#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level="exploration", technique="", note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe, level=level, technique=technique, note=note))

FMT = ["format/format.go", "format/transform.go"]
REF = "Trusts the monitor's own reader (mon/ref), written from the Clojure reader's rules independently of goclj's parser."
MODEL = "Trusts the reference model (mon/model), written from the README's rules."

prop("C01", "Formatting keeps every code token",
 "For every text which the parser accepts, the formatted text has the same sequence of code tokens (symbols, keywords, numbers, characters, strings, brackets, prefixes), with the same spelling, as the input, so that a Clojure reader reads the same forms. The only exceptions are the documented rewritings inside the ns form; a docstring's continuation lines may be realigned. This holds for every combination of transforms and overrides.",
 ["inputs", "configurations"], "all well-formed texts and all formatter settings",
 "The tests format a dozen fixture files; each token kind, adjacency and line break before or after a prefix, comment or discard needs its own input.",
 FMT + ["parse/lex.go", "parse/parse.go", "parse/node.go"],
 [("sequence printing", "format/format.go printSequence, printNode"), ("prefix nodes", "parse/node.go"), ("tokenizer", "parse/lex.go")],
 ["output of Printer.PrintTree", "standard output of cljfmt"],
 technique="runtime monitoring: online token-stream comparison by an independent reader", note=REF)

prop("C02", "Strings and regexes keep their contents; docstrings only shift whole lines",
 "Formatting keeps every string and regex literal byte for byte. The only exception is the documentation string of a defining form, whose continuation lines are all moved to the column of the opening quote while their text, their relative indentation, and blank lines are kept.",
 ["inputs", "configurations"], "all well-formed texts with literals, in particular multi-line ones in every position",
 "Fixtures have a handful of docstrings; which literal is a docstring, and how lines with tabs, blank lines or odd indentation move, depends on the input.",
 ["format/docstring.go", "format/format.go"],
 [("docstring realignment", "format/docstring.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: literal-by-literal comparison against an exact realignment rule", note=REF)

prop("C03", "Sorting and restyling ns clauses keeps what they declare",
 "Sorting and styling the :require and :import clauses of an ns form neither loses, adds, duplicates nor changes a declared library, alias, referred name, option, class or prefix: the output declares the same items, each with the same options and modifiers (metadata, discards, reader conditionals), in the same clauses, as the input.",
 ["inputs", "configurations"], "all ns forms, in every mixture of notations, with the two ns transforms on or off",
 "The fixtures have a few ns forms; duplicates, prefix lists, flags, reader conditionals, metadata and discards between items combine in unbounded ways.",
 ["format/transform.go", "format/require.go"],
 [("sortImportRequire", "format/transform.go"), ("enforceNSStyle", "format/transform.go")],
 ["ns form of the output"], technique="runtime monitoring: conservation check on declarations read from input and output", note=REF)

prop("C04", "No comment is lost, duplicated, changed or moved to other code",
 "Every comment of the input appears exactly once in the output with its text unchanged (trailing blanks aside), in the same place among the code tokens. In an ns form whose items are reordered, a comment stays with the item it stands above or beside; only comments of requires that the user asked to have removed may go with them.",
 ["inputs", "configurations"], "all well-formed texts with comments in any position, all transforms",
 "A comment may stand between any two tokens; the tests place them in a few ordinary positions.",
 FMT + ["parse/parse.go", "format/require.go"],
 [("comment lines kept by sorting", "format/transform.go sortImportRequire"), ("terminated comments", "format/format.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: uniquely named comments tracked from input to output", note=REF + " One known finding (comment between a quote prefix and its form) is listed in known_findings.txt.")

prop("C05", "Formatting is idempotent",
 "Formatting an already formatted text with the same settings changes nothing: for every text the parser accepts and all transforms and overrides, the second pass returns the first pass's output byte for byte.",
 ["inputs", "configurations"], "all well-formed texts; all sets of transforms; all overrides",
 "The tests check a few fixtures; non-convergence arises from interactions of transforms with comments, line breaks and reordering.",
 FMT + ["format/require.go", "format/unused.go", "format/docstring.go"],
 [("transform order", "format/transform.go applyTransforms")],
 ["output of Printer.PrintTree", "cljfmt -l after cljfmt -w"], technique="runtime monitoring: metamorphic monitor (second pass equals first)", note="The oracle is equality of two executions; no model is trusted.")

prop("C06", "Without transforms, line structure is kept and blanks are normalized",
 "With all transforms disabled the output has the input's tokens, comments and line breaks in the same order, changing only horizontal whitespace: no line ends in blanks, and tokens on a line are separated by at most one space besides indentation.",
 ["inputs"], "all well-formed texts with all transforms disabled",
 "Where line breaks are added, dropped or joined depends on each pair of neighbouring tokens and prefixes; the tests disable transforms on a few files only.",
 ["format/format.go"], [("printSequence", "format/format.go"), ("transform switch", "format/transform.go applyTransforms")],
 ["output of Printer.PrintTree", "cljfmt with -disable-transform"], technique="runtime monitoring: token and line-break stream comparison", note=REF)

prop("C07", "The layout transforms move line breaks exactly as documented",
 "Each layout transform (trailing newlines, extra blank lines, defn argument vectors, defmethod dispatch values, if arms) changes line breaks exactly where its documentation says, alone and combined with the others, at any nesting depth. A disabled transform changes nothing, and no transform touches tokens or comments.",
 ["inputs", "configurations"], "all well-formed texts; all subsets of the five layout transforms",
 "Each transform has one or two fixtures; the conditions (comments in the way, discards, metadata, docstrings, nested forms, missing arms) are many and interact.",
 ["format/transform.go"], [("removeTrailingNewlines, removeExtraBlankLines, fixDefnArglist, fixDefmethodDispatchVal, enforceConsistentIfNewlines", "format/transform.go")],
 ["output of Printer.PrintTree", "cljfmt -enable-transform/-disable-transform"], technique="runtime monitoring: line-break stream against an executable reference model", note=MODEL)

prop("C08", "ns forms are sorted and styled as documented",
 "With sorting on, the items of every :require and :import clause are in order of library or class; with the ns style on, clauses are lists with keywords and a line break after the keyword, requires are vectors, imports are lists of package and classes, and referred and excluded names are vectors. Nothing else in the text changes on their account.",
 ["inputs", "configurations"], "all ns forms in every mixture of notations",
 "The fixtures contain a few clauses in ordinary notation; nesting, comments, discards, reader conditionals and odd items interact.",
 ["format/transform.go"], [("sortImportRequire, enforceRequireStyle, enforceImportStyle, normalizeNSClauses", "format/transform.go")],
 ["ns form of the output"], technique="runtime monitoring: reference-model comparison plus order and style invariants on the output", note=MODEL)

prop("C09", "Every line is indented by the documented rule of its form",
 "Every line of the output starts in the column given by the documented indentation rule of the innermost form it belongs to (built-in or overridden, thread-first forms shifted by one argument), computed from the output's own columns; characters count as one column each, whatever their encoding, and multi-line literals count from their last line.",
 ["inputs", "configurations"], "all well-formed texts; all indent and thread-first overrides",
 "The rules are recursive and depend on column, head, position and threading; fixtures sample a few dozen combinations.",
 ["format/format.go", "format/threadfirst.go"], [("indentation styles", "format/format.go"), ("thread-first adjustment", "format/threadfirst.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: whole-output comparison against an executable reference model", note=MODEL)

prop("C10", "Override names resolve through the ns form's requires",
 "An indentation or thread-first override for an unqualified name applies to every list whose head has that name, qualified or not; one for a qualified name applies exactly to heads written in full, through an alias of that library, or as a name referred from it in the ns form. No other head is affected, and the more specific setting is preferred consistently.",
 ["inputs", "configurations"], "all ns forms and overrides, and all uses of the names",
 "Two fixtures use overrides; aliases, refers, shadowing names, several clauses, prefix lists and both overrides at once are not sampled.",
 ["format/format.go", "format/require.go", "format/threadfirst.go"], [("requires and aliases", "format/require.go"), ("style lookup", "format/format.go")],
 ["output of Printer.PrintTree", "cljfmt with a configuration file"], technique="runtime monitoring: layout comparison against a reference model of name resolution", note=MODEL)

prop("C11", "No input crashes, hangs or exhausts the parser or the formatter",
 "For any byte sequence whatever, parsing ends with either a tree or an error, never with both, neither, a panic, an endless loop or unbounded memory; every tree that parsing returns can be listed and formatted with any settings without a panic or an error.",
 ["inputs", "configurations"], "all byte sequences, all parse options, all formatter settings",
 "Tests feed ordinary files and a few malformed ones; crashes hide in truncated, deeply nested or oddly prefixed input.",
 ["parse/lex.go", "parse/parse.go", "format/format.go", "format/transform.go"], [("error recovery", "parse/parse.go recover"), ("type switches on nodes", "format/")],
 ["return values of parse.Reader and PrintTree", "exit status of cljfmt"], technique="runtime monitoring: crash, hang and memory monitors (subprocess watchdog) under hostile input", note="A case is called endless only after 100 s of CPU time or 7 GB of memory.")

prop("C12", "The parser accepts exactly the well-formed texts",
 "A text is rejected exactly if a bracket is unclosed, unopened or closed by another kind, a literal is unfinished or invalid, or a prefix (quote, metadata, tag, discard, dispatch character, ...) lacks a form or stands before one to which it cannot apply; every other text is accepted. Whether comments and whitespace are included in the tree makes no difference to acceptance.",
 ["inputs"], "all byte sequences for which Clojure readers agree",
 "Tests have under twenty malformed inputs; each kind of form, prefix and nesting can be broken off anywhere.",
 ["parse/lex.go", "parse/parse.go"], [("tokenizer states", "parse/lex.go"), ("recursive descent", "parse/parse.go")],
 ["error of parse.Reader"], technique="runtime monitoring: differential verdict against an independent reader", note=REF + " Texts on which readers legitimately differ carry no verdict.")

prop("C13", "The tree represents the text exactly",
 "The parse tree mirrors the text: every form appears once, with the right kind, nesting and order, symbols, keywords, numbers, strings and regexes keep their exact text, characters have their decoded value, and comments and line breaks (if asked for) are in place.",
 ["inputs"], "all well-formed texts",
 "Tests compare a listing of a few example files; token spellings and nestings are unbounded.",
 ["parse/lex.go", "parse/parse.go", "parse/node.go"], [("node constructors", "parse/parse.go"), ("character decoding", "parse/parse.go parseCharLiteral")],
 ["nodes of parse.Tree"], technique="runtime monitoring: node-by-node comparison with an independent reader", note=REF)

prop("C14", "Nodes and parse errors carry exact positions",
 "Every node's position is the file name, byte offset, line and column of its first character, where lines and columns count from one and a column counts bytes (as in Go); the error for a malformed text names the position of the offending token or of the end of the input.",
 ["inputs"], "all texts, with any line ends, tabs, wide characters and prefixes",
 "No test compares positions of more than a few nodes; multi-byte characters, carriage returns and prefix forms shift them.",
 ["parse/lex.go", "parse/parse.go"], [("Pos bookkeeping", "parse/lex.go next, back"), ("error positions", "parse/parse.go errorf")],
 ["Node.Position", "text of the parse error"], technique="runtime monitoring: position-by-position comparison with an independent reader", note=REF)

prop("C15", "Parse options exclude exactly what they name",
 "Without non-semantic nodes the tree is the full tree minus comments and line breaks; ignoring comment forms drops exactly the lists headed by comment; ignoring reader discards drops exactly each discard together with the form it discards (stacked discards, metadata and tags included). All other nodes are the same under every combination of options.",
 ["inputs", "configurations"], "all well-formed texts and all eight option sets",
 "The options have one small test each; stacking, nesting, and prefixes in front of dropped forms are not sampled.",
 ["parse/parse.go"], [("includeNode, parseDiscarded", "parse/parse.go")],
 ["nodes of parse.Tree under ParseOpts"], technique="runtime monitoring: tree filtered by the monitor compared with the tree parsed under each option set", note=REF)

prop("C16", "The result of parsing does not depend on how the bytes arrive",
 "Parsing gives the same tree or error however the reader splits the input into chunks, and the same from a file as from memory. A read error makes parsing fail with an error that reports it, unless the text before it is already malformed; a truncated input is never taken for a complete one.",
 ["inputs", "fault_sequences"], "all byte sequences, all ways of splitting them, read errors at every position",
 "Tests read whole strings and files only.",
 ["parse/lex.go", "parse/parse.go"], [("buffered reading", "parse/lex.go lex, next"), ("read errors", "parse/lex.go scanError")],
 ["results of parse.Reader and parse.File"], technique="runtime monitoring: fault injection into readers with a result-equality monitor", level="fault_enumeration", note="Fault points: every byte of small texts, random bytes of larger ones.")

prop("C17", "Write errors are reported and end the printing",
 "If the destination of a print accepts fewer bytes than the output, for whatever reason and at whatever byte, printing returns an error that carries the writer's; what was written is a prefix of the right output, and nothing is written after the fault. A nil error means that the destination has received the whole output.",
 ["inputs", "fault_sequences"], "all outputs and a write fault at any byte (error, partial write, short write)",
 "No test prints to a failing writer.",
 ["format/format.go"], [("buffered writer and flush", "format/format.go PrintTree")],
 ["error of PrintTree", "bytes received by the writer"], technique="runtime monitoring: fault injection into writers with a prefix/error monitor", level="fault_enumeration", note="Fault points: every byte of small outputs, random bytes and buffer boundaries of larger ones.")

prop("C18", "Parsing and printing may run concurrently",
 "Any number of goroutines may parse and print different trees at the same time, sharing option maps and reading shared trees: there is no data race, and each result equals that of the same operation run alone.",
 ["schedules", "inputs"], "all interleavings of independent operations",
 "All tests are sequential, and none is run under the race detector with concurrent use.",
 ["parse/parse.go", "parse/lex.go", "format/format.go", "format/transform.go"], [("package-level tables and nodes", "format/"), ("per-call state", "parse/parse.go Tree, format/format.go Printer")],
 ["results of concurrent Reader and PrintTree calls", "memory accesses"], technique="runtime monitoring: Go race detector plus result-equality monitor under perturbed schedules", note="Observes the interleavings that occur; schedules are perturbed by yields and delays in readers and writers.")

prop("C19", "Parsing and printing leave no resources behind",
 "When a parse or print returns, successfully or not, it leaves no goroutine running, no file open and no memory retained by the package, however often it is called.",
 ["histories", "fault_sequences"], "all sequences of successful and failing operations",
 "Tests do not count goroutines, descriptors or memory; leaks on error paths need failing inputs or readers.",
 ["parse/lex.go", "parse/parse.go", "format/format.go"], [("File closes its file", "parse/parse.go File"), ("pull lexer", "parse/lex.go")],
 ["goroutine count", "open descriptors", "live heap"], technique="runtime monitoring: resource conservation monitor (goroutines, descriptors, heap) over operation histories", note="Heap growth is judged with a margin of 2 MB over 550 calls.")

prop("C20", "Formatting is deterministic",
 "The same text with the same settings always gives the same output or the same error: from call to call, from process to process, and whatever the internal order of the option maps.",
 ["inputs", "histories"], "all texts and settings, repeated runs",
 "Map iteration order makes a wrong order appear in some runs only; the tests format each file once.",
 ["format/require.go", "format/transform.go", "format/unused.go"], [("ordered iteration over requires", "format/require.go")],
 ["outputs of repeated runs"], technique="runtime monitoring: repeated-execution equality monitor, in one and in several processes", note="Eight repetitions per text, plus a separate process for a share.")

prop("C21", "A print depends only on its tree and its settings",
 "What a Printer prints does not depend on what it or another Printer printed before, or on settings it had earlier; printing a tree a second time gives the same text; and printing never changes the caller's option maps or the package's defaults.",
 ["histories", "configurations"], "all sequences of prints with one or several Printers and changing settings",
 "Every test makes a new Printer for each file.",
 ["format/format.go", "format/transform.go"], [("per-print state", "format/format.go PrintTree"), ("DefaultTransforms", "format/transform.go")],
 ["outputs of successive PrintTree calls", "option maps after printing"], technique="runtime monitoring: history monitor comparing each print with that of a fresh Printer", note="Sequences of four texts through two Printers.")

prop("C22", "Parent links agree with the children of every node",
 "In every tree, after parsing, after replacing children, and after formatting, the parent of each node is the node whose children include it, roots have none, and a child taken out of the tree has none; nodes with a fixed number of children refuse any other number.",
 ["inputs", "histories"], "all trees and all sequences of child replacements and prints",
 "No test looks at parents; every transform and every kind of node has to maintain them.",
 ["parse/node.go", "format/transform.go"], [("SetChildren", "parse/node.go"), ("linkParents", "format/transform.go")],
 ["Node.Parent and Node.Children"], technique="runtime monitoring: structural invariant walk at quiescent points", note="Walks the whole tree after every operation of the history.")

prop("C23", "Rewriting :use as :require keeps what is loaded, aliased and referred",
 "Rewriting :use clauses as :require keeps, for every library, that it is loaded, its aliases, its referred names or the referral of everything, its macros and exclusions, whatever mixture of :use and :require clauses, notations and duplicates the ns form has. Every :use item with an equivalent :require notation is rewritten.",
 ["inputs", "configurations"], "all ns forms with :use clauses, any other transforms",
 "One fixture has a :use clause; merging with existing requires and unusual options is not sampled.",
 ["format/require.go", "format/transform.go"], [("require merging", "format/require.go"), ("useToRequire", "format/transform.go")],
 ["ns form of the output"], technique="runtime monitoring: conservation check on the facts declared by input and output", note=REF)

prop("C24", "Only unused aliases, names and requires are removed",
 "Removing unused requires keeps every alias, referred name and library that the rest of the text uses (as a qualified or plain symbol, var quote, auto-resolved keyword or map, or imported class), and everything it does not understand; it removes exactly the aliases and referred names without a use, and the requires which had such and are left without any, while plain requires stay for their side effects.",
 ["inputs", "configurations"], "all texts with ns forms, all ways of using a name",
 "One fixture exercises removal; the ways of using a name and of writing a require are many.",
 ["format/unused.go", "format/require.go"], [("symbolCache", "format/unused.go"), ("removeUnusedRequires", "format/transform.go")],
 ["ns form of the output"], technique="runtime monitoring: independent use analysis compared with what the output still declares", note=REF)

prop("C25", "cljfmt prints, lists or rewrites exactly what each mode promises",
 "Without a mode cljfmt prints the formatted text of each file (or of standard input) in order and touches nothing; -l prints the names of exactly those files whose formatting differs; -w rewrites exactly those files with their formatted text, keeping permissions, and leaves well-formatted ones untouched. A malformed file gives a non-zero status and a message with its name and position, is never changed, and nothing is printed for it.",
 ["inputs", "configurations", "histories"], "all file contents, sets of files, modes and transform flags",
 "The command has no tests at all.",
 ["cljfmt/cljfmt.go"], [("processFile", "cljfmt/cljfmt.go"), ("flags", "cljfmt/cljfmt.go main")],
 ["standard output and error", "exit status", "files on disk"], technique="runtime monitoring: black-box monitor of the process and the file system against the library's output", note="The expected text comes from the library, whose own properties are C01 to C24.")

prop("C26", "A directory walk processes exactly the matching files",
 "Given a directory, cljfmt processes every file below it, at any depth and in lexical order, whose extension is one of the configured (or default) ones, except hidden files; it processes no other file, does not descend into symbolic links, and always processes a file given by name whatever its extension.",
 ["inputs", "configurations"], "all directory trees, extensions and argument lists",
 "The command has no tests at all.",
 ["cljfmt/cljfmt.go"], [("walkDir", "cljfmt/cljfmt.go")],
 ["list of processed files", "files on disk"], technique="runtime monitoring: processed files against an independent walk of the generated tree", note="The generated tree is the ground truth; Linux file systems only.")

prop("C27", "cljfmt applies the right configuration, and never a broken one",
 "cljfmt uses the configuration file given by -c, else by CLJFMT_CONFIG_PATH, else $HOME/.cljfmt, and its extensions, indentation and thread-first rules have exactly the effect they have in the library; for each transform the last flag counts. An invalid configuration or flag stops cljfmt with a message and a non-zero status before it prints or writes anything; a missing file named by -c gives a warning.",
 ["configurations", "inputs"], "all configuration files at the three places, all flag sequences",
 "The command has no tests; the configuration reader has none.",
 ["cljfmt/config.go", "cljfmt/cljfmt.go"], [("parseDotConfig, parseOverrides", "cljfmt/config.go"), ("defaultConfigPath", "cljfmt/cljfmt.go")],
 ["standard output and error", "exit status"], technique="runtime monitoring: black-box monitor against the library with the generated configuration", note="Whether a lower-priority file counts when a higher-priority one is missing carries no verdict.")

prop("C28", "cljfmt reports every I/O failure and never destroys a source file",
 "If cljfmt cannot read an input, a directory or its configuration, or cannot write its output or a file, it says so and exits with a non-zero status (a configuration that cannot be opened gives at least a message). A source file then holds its original text or its complete formatted text, never a part of it, as long as the original can still be put back; interrupted system calls have no effect.",
 ["fault_sequences", "inputs"], "a fault at any open, stat, read, write or listing; full devices; missing permissions; closed pipes",
 "The command has no tests; faults never happen in ordinary runs.",
 ["cljfmt/cljfmt.go", "cljfmt/config.go"], [("error returns of processFile and walkDir", "cljfmt/cljfmt.go"), ("restoring the original", "cljfmt/cljfmt.go processFile")],
 ["exit status", "standard error", "files on disk"], technique="runtime monitoring: system-call fault injection (strace, rlimits, /dev/full, permissions) with a file and status monitor", level="fault_enumeration", note="Faults that cannot be set up in a sandbox (no strace, no unprivileged user) are counted as skipped. A kill between truncation and rewriting is not covered: -w is not atomic.")

prop("C29", "The cost of parsing and formatting is linear",
 "Time and memory for parsing and formatting a text grow in proportion to the size of the text and of its formatted form, in every direction in which a text can grow: length, breadth, depth, comments, blank lines, long literals, bindings, clauses, requires and their uses, and unfinished forms.",
 ["inputs"], "families of texts growing without bound",
 "Tests format small files; quadratic behaviour shows only on large ones.",
 ["parse/lex.go", "parse/parse.go", "format/format.go", "format/transform.go", "format/unused.go"], [("single-pass lexer and printer", "parse/lex.go, format/format.go"), ("symbol set computed once", "format/unused.go")],
 ["CPU time and bytes allocated relative to input and output"], technique="runtime monitoring: cost monitor (CPU time, allocated bytes) on growing input families", note="Cost per byte at size 16n may be at most 5 times that at size n; logarithmic factors and caches stay far below.")

prop("C30", "An edited tree prints as the code it holds",
 "A tree that a program has edited through the exported node types (nodes removed, reordered, moved, wrapped, renamed, made new without positions or taken from another tree, line breaks and comments added or dropped) is printed as that code: what PrintTree writes reads as the same tree again, comments and line breaks included, and is formatted as the same text would be if it had been parsed.",
 ["inputs", "histories"], "all trees reachable by parsing and editing, all formatter settings",
 "The tests print only trees fresh from the parser, whose positions, parents and line breaks are all consistent.",
 ["format/format.go", "format/transform.go", "parse/node.go"],
 [("printing", "format/format.go printSequence"), ("SetChildren", "parse/node.go"), ("top-level line breaks", "format/format.go PrintTree")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: edit histories with the tree spelled out by the monitor and both texts read by an independent reader", note=REF)

prop("C31", "Node interface and helpers describe the nodes faithfully",
 "For every node of every tree, the helper predicates of package goclj (Symbol, Keyword, Newline, Comment, Vector, Semantic, FnFormSymbol, FnFormKeyword), and its own String, Children, Position and Parent say what the text has at that place; Tree.String lists all nodes in order with their depth; Pos.Copy is independent; Pos.String and FormatError name file, line and column; storing a node's children back changes nothing.",
 ["inputs"], "all well-formed texts",
 "The helpers have one small test; other tools rely on them for every kind of node.",
 ["goclj.go", "parse/node.go", "parse/parse.go"],
 [("predicates", "goclj.go"), ("node methods", "parse/node.go")],
 ["results of the exported helpers and methods"], technique="runtime monitoring: every node's answers compared with an independent reader's tree", note=REF)

prop("C32", "What cljfmt lists, writes and prints agrees over a history of runs",
 "Over any history of cljfmt runs with the same flags and configuration on well-formed files: -l names exactly the files which -w then rewrites, to the text that printing shows; after -w nothing is listed, written or touched any more and the same text is printed as before; files edited in between, and only those, are listed again.",
 ["histories", "inputs", "configurations"], "all trees of well-formed files, all flags and configurations, all sequences of -l, -w and plain runs",
 "The command has no tests; the agreement depends on idempotence for every file and on comparing the right texts.",
 ["cljfmt/cljfmt.go", "format/format.go"], [("processFile", "cljfmt/cljfmt.go")],
 ["standard output", "files on disk (content, time, inode)"], technique="runtime monitoring: histories of process runs checked against each other and the file system")

prop("C33", "A form's layout does not depend on the forms around it",
 "Top-level forms formatted together give the texts they give one by one (with the same ns form): no form influences another. A form inside a vector, set, map or tagged form that starts on its line is laid out as at top level, shifted to its column (apart from the two transforms that are about top-level definitions, and multi-line literals).",
 ["inputs", "configurations"], "all sequences and nestings of forms, all formatter settings",
 "Fixtures show each form in one surrounding only; state kept between forms shows up only for certain pairs.",
 ["format/format.go", "format/threadfirst.go", "format/transform.go"],
 [("per-tree state of Printer", "format/format.go"), ("indentation", "format/format.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: metamorphic comparison of whole and parts")

prop("C34", "Formatting depends on line breaks and tokens, never on blanks",
 "Two texts that differ only in the blanks (spaces, tabs, commas, other white space) between their tokens, before or after their lines, have the same formatted text, so that the result is canonical.",
 ["inputs", "configurations"], "all well-formed texts, all changes of blanks that keep tokens and line breaks",
 "Each fixture has one spacing; columns of the input leak only in rare combinations.",
 ["format/format.go", "format/docstring.go", "format/transform.go", "parse/lex.go"],
 [("blanks dropped by the lexer", "parse/lex.go"), ("columns counted by the printer", "format/format.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: metamorphic comparison under changed blanks", note=REF)

prop("C35", "The ns transforms change nothing outside of ns forms",
 "Enabling or disabling the transforms of the ns form (sort-import-require, enforce-ns-style, use-to-require, remove-unused-requires) changes only the text of top-level ns forms: every line outside, including forms that merely look like ns clauses, stays the same.",
 ["inputs", "configurations"], "all texts with ns forms, all choices of the four transforms",
 "Fixtures have the ns form alone or with plain definitions.",
 ["format/transform.go", "format/require.go", "format/unused.go"],
 [("dispatch of transforms", "format/transform.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: metamorphic comparison of the text outside of ns forms", note="Without overrides, whose names may be resolved through the ns form.")

prop("C36", "Transforms enabled in stages give the same text as at once",
 "For any two sets of transforms, one inside the other, that agree on the ns transforms: formatting with the smaller set and then the result with the larger one gives the text that formatting once with the larger set gives, so that enabling a transform later, or running cljfmt with various configurations one after the other, never leaves traces (apart from docstrings of several lines, whose indentation is kept relative to where they stood).",
 ["inputs", "configurations"], "all well-formed texts, all pairs of transform sets",
 "The tests run each fixture with one set of transforms; what an earlier, partial run leaves is never fed to a later one.",
 ["format/transform.go", "format/format.go", "format/docstring.go"],
 [("order and conditions of the transforms", "format/transform.go applyTransforms"), ("layout", "format/format.go")],
 ["output of Printer.PrintTree"], technique="runtime monitoring: metamorphic comparison of staged and direct formatting")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="bash bin/setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash bin/check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash bin/check.sh " + p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"],
        level_note=("Held on the executions observed (counts in the evidence file), over random and enumerated inputs from one seed. " + p["note"]).strip()) for p in P],
    not_applicable=[],
    notes="No hooks in /repo are needed: the monitors observe the exported API, the cljfmt process and the file system.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
