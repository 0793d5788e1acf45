#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

LEX, PARSE, NODE = "parse/lex.go", "parse/parse.go", "parse/node.go"
FMT, DOC, TF = "format/format.go", "format/docstring.go", "format/threadfirst.go"
REQ, TR, UN = "format/require.go", "format/transform.go", "format/unused.go"
CLI, CFG, GO = "cljfmt/cljfmt.go", "cljfmt/config.go", "goclj.go"

prop("C01", "Parsing and formatting never crash or hang",
 "For every byte sequence and every combination of parse options, parsing terminates and returns either a tree or an error, never both, and never panics. Every tree that was parsed with comments and newlines included can then be printed, under every combination of enabled transforms, without a panic and without an error.",
 ["inputs", "configurations"], "all byte strings (including malformed and non-UTF-8 ones), all parse option sets, all transform sets",
 "The tests parse about 45 hand-picked well-formed snippets and print about 45 fixture files; crashes such as a newline between a reader prefix and its form sit in combinations no fixture contains.",
 [LEX, PARSE, FMT, TR, REQ, UN],
 [("lexer state functions ending in EOF or error tokens", LEX), ("recover of lexError/parseError in Tree.parse", PARSE), ("printNode's exhaustive node switch", FMT)],
 observe=["parse.Reader", "format.Printer.PrintTree"])

prop("C02", "The parser accepts exactly well-formed code and builds the right tree",
 "The parser accepts a UTF-8 text exactly when it is a well-formed sequence of Clojure reader forms (balanced delimiters, terminated strings, valid character literals, no nested function literals, no unreadable forms, every reader prefix followed by what it needs), and rejects everything else. (Input that is nested more than 100,000 deep may be refused, too.) For accepted text the tree contains, in source order and with the source's nesting, exactly one node per form, comment and newline (apart from comments and newlines between a reader prefix and its form), each of the right kind and carrying the source text of its token. Whitespace and commas only separate, so `~ @x` is an unquote of a deref while `~@x` is an unquote-splice, and `# _` is a tag while `#_` is a discard.",
 ["inputs"], "all UTF-8 texts: every token kind, every adjacency of tokens, every nesting",
 "The tests check the one-line summary of one root per token kind; adjacency of tokens, malformed input and almost all of nesting are unsampled.",
 [LEX, PARSE, NODE], [("token scanning", LEX + ": lexOuter, lexDispatch, lexString, lexCharLiteral, isSymbolChar"), ("recursive descent", PARSE + ": parseNext and the parse* functions")],
 state=[("Tree.inLambda", "inside a #() literal", PARSE)], observe=["parse.Reader", "Node fields, Children"])

prop("C03", "Nodes and errors carry exact source positions",
 "Every node of a parsed tree reports the source name it was parsed under and the byte offset, line and byte column at which its first character stands in the source. Every error for malformed text names the source and the line and column of the offending token: the start of a malformed or unterminated token, or the end of the text when an enclosing form is never closed or a prefix lacks its form.",
 ["inputs"], "all UTF-8 texts: multi-byte runes, multi-line strings, CRLF, tabs, any token kind",
 "No test looks at a position at all.",
 [LEX, PARSE], [("Pos bookkeeping in next/back/emit/synth/skip", LEX), ("start.pos handed to each node", PARSE)],
 state=[("lexer.pos/start/lastPos", "current, token-start and undo positions", LEX)], observe=["Node.Position()", "error text"])

prop("C04", "Parse options filter the tree and change nothing else",
 "Parsing without comments and newlines gives exactly the full tree with those nodes removed. Ignoring (comment ...) forms removes exactly the unquoted lists headed by the symbol comment, at any depth, and ignoring reader discards removes exactly the forms the Clojure reader would drop, including stacked discards and discarded forms that carry metadata or a tag. Options combine independently, never change whether a text whose discards are complete is accepted, and leave all remaining nodes as they are without the option.",
 ["inputs", "configurations"], "all texts x all 8 option sets",
 "Seven snippets with one option at a time are tested.",
 [PARSE], [("includeNode filter in every container loop", PARSE), ("parseNextSemantic", PARSE)], observe=["parse.Reader"])

prop("C05", "Tree links stay consistent under parsing and editing",
 "In a freshly parsed tree every node other than a root has as parent exactly the node that lists it as a child, and roots have no parent. Replacing a node's children makes it list exactly the given children, makes it the parent of each of them, leaves the replaced children that are not reused without a parent, and touches no other link. Single-operand nodes accept exactly one child and leaf nodes refuse children with a panic.",
 ["inputs", "histories"], "all parsed trees x all sequences of child replacements",
 "One parent is looked up in each of four snippets; child replacement is never tested directly.",
 [NODE, PARSE], [("linkParents", PARSE), ("SetChildren/setParent of each node type", NODE)], state=[("parent field", "back link", NODE)], observe=["Node.Parent, Node.Children, Node.SetChildren"])

prop("C06", "Parse results do not depend on how input arrives; read errors surface",
 "The result of parsing (tree, positions or error) is a function of the byte sequence alone: it is the same however the reader splits the bytes into chunks, including one byte at a time, empty reads, and data returned together with end-of-file, and parsing a file gives the same as parsing its contents. If the reader fails at any point before the parser has finished with an earlier malformed token, parsing returns an error that conveys the reader's error, never a tree built from truncated input.",
 ["inputs", "fault_sequences"], "all texts x all chunkings x a read error at every byte offset",
 "All tests parse from an in-memory reader that returns everything at once and never fails.",
 [LEX, PARSE], [("bufio.Reader wrapping and inputReadErr", LEX), ("lexer.run recovery and scanError", LEX)], observe=["parse.Reader", "parse.File"])

prop("C07", "Parsing leaves nothing running",
 "Once parsing has returned, with a tree or with an error at any point of the input, no goroutine that it started stays alive (apart from finishing a read it is already inside) and no file that it opened stays open. This holds for any number of parses in one process.",
 ["inputs", "schedules", "histories"], "all texts (malformed at any point), any chunking of the input, any order of the parser's and lexer's steps",
 "No test counts goroutines; the tests parse a handful of malformed texts and never look back.",
 [LEX, PARSE], [("token channel hand-off between lexer goroutine and parser", LEX)], state=[("lexer.tokens", "unbuffered token channel", LEX)], observe=["goroutine states after parse.Reader returns"])

prop("C08", "Independent parses and prints do not interfere",
 "Parses and prints of separate texts that run at the same time, in any interleaving, each give the same result as when run alone, and do so without data races, even when the printers share one options map. A printer's result depends only on the tree and its own options: not on what was parsed or printed before by it or by others, and options the caller passes in are not modified.",
 ["schedules", "histories"], "all interleavings of two or three parse/print runs at their reads and writes; all orders of earlier runs",
 "Tests run one parse and print at a time, each with a fresh printer, and never under contention.",
 [FMT, REQ, TR, LEX], [("package-level shared state: DefaultTransforms, the shared newline node", REQ + ", " + TR), ("per-printer maps", FMT)],
 state=[("Printer.requires/refers/threadFirst/specialIndent/docstrings", "per-print scratch", FMT)], observe=["parse.Reader", "format.Printer.PrintTree"])

prop("C09", "Formatting preserves the program",
 "With default settings the formatted text of any accepted source is again accepted, and the Clojure reader sees the same program: the same forms in the same order with the same literals, metadata, tags, discards and reader conditionals. The only differences allowed are the re-indentation of docstrings and, inside ns forms, the documented restyling and reordering of :import and :require clauses, which keep the same set of required libs, aliases, referred names and imported classes.",
 ["inputs"], "all accepted texts",
 "The fixtures compare 45 sample files to expected output; nothing checks that the output still means the same for other token adjacencies, comments, line endings or ns shapes.",
 [FMT, DOC, TR, LEX, PARSE], [("printNode writes every node", FMT), ("transforms move only newlines outside ns", TR)], observe=["format.Printer.PrintTree", "cljfmt stdout"])

prop("C10", "With transforms off, formatting keeps every token and line break",
 "With every transform turned off, the formatted text consists of the same tokens and comments in the same order with the same line breaks between them as the source; only spaces, commas, tabs and indentation change, and continuation lines of docstrings. The exceptions are comments and line breaks between a reader prefix and its form, which are dropped, and a line break added where a comment would otherwise swallow the code after it.",
 ["inputs"], "all accepted texts, all transforms disabled",
 "The test suite never prints with transforms off.",
 [FMT], [("printSequence emits one newline per newline node", FMT)], observe=["format.Printer.PrintTree"])

prop("C11", "Formatting is idempotent",
 "Formatting already formatted text changes nothing: for every accepted source and every set of enabled transforms, printing, re-parsing and printing again under the same settings (with spaces as indentation) gives the same bytes.",
 ["inputs", "configurations"], "all accepted texts x all transform sets",
 "Only the single-file fixtures are fixed points; the outputs of changing inputs are never formatted again.",
 [FMT, TR, REQ, DOC, UN], [("order of the transforms in applyTransforms", TR), ("docstring alignment", DOC)], observe=["format.Printer.PrintTree"])

prop("C12", "Comments survive formatting and never swallow code",
 "With default settings every comment of the source, except one standing between a reader prefix and its form, appears exactly once in the formatted text with its text unchanged and still as a comment, and outside of sorted ns clauses in the same order relative to the code around it. No code or closing delimiter ever ends up inside a comment.",
 ["inputs"], "all accepted texts; every position a comment can stand in; LF, CRLF and lone CR line ends",
 "Fixtures place comments in a few dozen spots; the combinations of comments with moved newlines and sorted clauses are unsampled.",
 [FMT, TR, REQ], [("newline retained after a trailing comment in removeTrailingNewlines", TR), ("comment attachment in sortImportRequire", TR)], observe=["format.Printer.PrintTree"])

prop("C13", "Formatting is deterministic",
 "For a given source and settings the output is always the same bytes: it does not depend on map iteration order, on the process, or on how often it is run. This includes the optional ns-rewriting transforms with sorting turned off.",
 ["inputs", "schedules", "configurations"], "all accepted texts x settings x all map iteration orders",
 "A run of a test samples one iteration order, and every fixture keeps sorting on.",
 [REQ, UN, TR], [("requireList.m iterated by render", REQ), ("sortStringSet", REQ)], observe=["format.Printer.PrintTree"])

prop("C14", "Layout depends only on tokens and line breaks of the source",
 "Spaces, tabs, commas, carriage returns before line feeds, and existing indentation in the source have no influence on the output: two sources that have the same tokens and the same line breaks between them (outside of multi-line string literals) format to the same bytes.",
 ["inputs"], "all accepted texts x all ways of re-spacing them",
 "Each fixture fixes one spacing of its text.",
 [LEX, FMT], [("lexWhitespace discards spacing", LEX), ("printSequence computes all spacing", FMT)], observe=["format.Printer.PrintTree"])

prop("C15", "Formatted output has canonical spacing",
 "In formatted output, outside of string literals and comments, neighbouring forms on one line are separated by exactly one space, nothing is put between a delimiter or reader prefix and the form next to it (except where needed to keep the reading of the text), no line ends in blanks, and no character other than the indentation character, single spaces and line feeds is used as whitespace. With default transforms there are never two consecutive blank lines inside the text, and no closing delimiter of a list, vector, map, set or function literal starts a line unless the line before ends in a comment.",
 ["inputs"], "all accepted texts",
 "Checked only implicitly on the fixture files.",
 [FMT, TR], [("needSpace/needIndent in printSequence", FMT), ("removeExtraBlankLines, removeTrailingNewlines", TR)], observe=["format.Printer.PrintTree"])

prop("C16", "Every form is indented by the rule for its style",
 "The first form on each output line is indented as the documented rule of the enclosing form's style says: normal, list, list-body, let, for (with nested :let), letfn, deftype, cond0/1/2/4 with the :>> triple, and paired indentation for maps and reader conditionals, where the second element of a pair on its own line is indented two further columns whatever precedes it. The style is the one given for the head (the symbol or keyword directly after the opening parenthesis) by an override or the built-in table, else list-body for names starting with def, let, with- or when-, else list; columns count characters, and discarded forms count as elements.",
 ["inputs", "configurations"], "all trees x line-break placements x styles x override sets",
 "Fixtures hold a few line-break placements per style; the product of style, position, nesting, comment and blank line is unsampled.",
 [FMT], [("printSequence pair/indent state machine", FMT), ("chooseIndent/applySpecial*", FMT)], state=[("w, pairIdx, extraIndent, firstIndent", "indent state while printing one sequence", FMT)], observe=["format.Printer.PrintTree"])

prop("C17", "Overrides apply to exactly the symbols the README says",
 "An indent override for an unqualified name applies to that name written plain or with any namespace; an override for a qualified name applies when the symbol is written exactly so, or through an alias or referred name that an ns :require (or :require-macros) clause of the file binds to that namespace by a lib spec like [lib :as a :refer [x]], and to no other symbol. A qualified override that applies wins over an unqualified one, and user overrides win over the built-in table.",
 ["inputs", "configurations"], "all combinations of override sets, require clauses and ways of writing the head symbol",
 "One fixture with five overrides is tested.",
 [FMT, REQ], [("indentStyleForSymbol", FMT), ("markRequires", REQ)], state=[("Printer.requires/refers", "alias and refer tables", FMT)], observe=["format.Printer.PrintTree", "cljfmt with config"])

prop("C18", "Thread-first macros shift argument-sensitive indentation",
 "Directly inside ->, some-> and user-declared thread-first macros every list after the first argument, and inside cond-> (and forms declared like it) every second form after the first argument, is indented as if it had one more leading argument: one styled cond1 like cond0, one styled cond2 like cond1. In a threading form that is itself threaded into, counting starts one argument earlier; metadata and tags do not count, discarded forms do. No other form is affected, and function literals thread like lists.",
 ["inputs", "configurations"], "all trees of threading and non-threading forms up to a nesting depth x override sets",
 "Two fixtures with a dozen forms are tested.",
 [TF, FMT], [("markThreadFirsts/markThreadFirstStyle", TF), ("threadFirstTransform", FMT)], state=[("Printer.threadFirst", "marked forms", FMT)], observe=["format.Printer.PrintTree"])

prop("C19", "Literals are verbatim and only docstrings are realigned",
 "Strings, regexes, characters, numbers, symbols and keywords are written byte for byte as in the source, including multi-line and escaped ones, except for docstrings: the string directly after the name of a top-level ns, def, defn, defmacro or defmulti that is followed by a further form. In a docstring only the leading and trailing blanks of continuation lines change: every non-empty continuation line is indented at least to the column of the opening quote, keeps deeper indentation, and blank lines become empty.",
 ["inputs"], "all literals and all placements of string literals in all forms",
 "Two fixtures contain docstrings; strings that merely look like docstrings are covered by one example.",
 [DOC, FMT], [("markDocstrings", DOC), ("alignDocstring", DOC)], state=[("Printer.docstrings", "strings to realign", FMT)], observe=["format.Printer.PrintTree"])

prop("C20", "enforce-ns-style rewrites ns clauses as documented",
 "With the ns-style transform on, in every top-level ns form, clause symbols become keywords, vector clauses become lists, a line break follows the clause keyword of :require, :require-macros, :use, :import, :load and :gen-class clauses with arguments, requires become vectors (with list-valued options as vectors too), and imports become lists with dotted class symbols split at the last dot (where both parts are names); items keep their content, order and comments. Nothing else in the ns form or outside of it changes, and clauses already in that style are left as they are.",
 ["inputs"], "all ns forms built from clause heads, item shapes, comments and line breaks",
 "Two fixture files with about ten clauses are tested.",
 [TR], [("enforceNSStyle, enforceRequireStyle, enforceImportStyle", TR)], observe=["format.Printer.PrintTree"])

prop("C21", "Sorting import and require clauses is a stable, comment-keeping permutation",
 "With the sort transform on, each :require, :require-macros and :import clause of a top-level ns form lists the same items as before, one per line, ordered by namespace or package name in byte order with unnameable items last and ties in source order; comments on the lines above an item and beside it move with it and unattached trailing comments stay at the end. Metadata and tags stay in front of the item they apply to. All other clauses and forms are untouched.",
 ["inputs"], "all clauses up to a size: every permutation of items, every comment and line-break placement",
 "Two fixtures with fixed orders are tested.",
 [TR], [("sortImportRequire", TR), ("importRequireList.Less with sort.Stable", TR)], observe=["format.Printer.PrintTree"])

prop("C22", "Line-break transforms do exactly what they document",
 "remove-trailing-newlines removes exactly the line breaks before the closing delimiter of lists, vectors, maps, sets and function literals that do not follow a comment; remove-extra-blank-lines reduces each run of blank lines to one; fix-defn-arglist-newline and fix-defmethod-dispatch-val-newline move an argument vector or dispatch keyword that starts the line after the name up to the name's line in top-level forms (an argument vector only when something follows it on its line); fix-if-newline-consistency starts a line before each arm of an if, if-not, if-let or if-some (with the arm's metadata) when there is a line break before one of them. They add, remove or move line breaks only, and only there.",
 ["inputs", "configurations"], "all forms of the affected shapes x line-break and comment placements x transform subsets",
 "Each transform has one small fixture.",
 [TR], [("removeTrailingNewlines, removeExtraBlankLines, fixDefnArglist, fixDefmethodDispatchVal, enforceConsistentIfNewlines", TR)], observe=["format.Printer.PrintTree"])

prop("C23", "Transforms can be switched independently",
 "A transform takes effect exactly when it is enabled: unset transforms follow the documented defaults (all on except use-to-require and remove-unused-requires), an explicit setting wins over the default, and a disabled transform has no effect whatever else is enabled. The command-line enable and disable flags select the transform they name, the last flag for a transform wins, and unknown names are refused.",
 ["configurations", "inputs"], "all 3^9 settings (unset/on/off per transform) x inputs that exercise each transform; flag sequences",
 "Tests use seven of the settings; the flags are not tested.",
 [FMT, TR, CLI], [("Transforms map merged with DefaultTransforms", FMT), ("transformFlag.Set", CLI)], observe=["format.Printer.PrintTree", "cljfmt flags"])

prop("C24", "use-to-require keeps what the namespace loads",
 "With the use-to-require transform on, the :require and :use clauses of an ns form become a single :require (plus a :use for items it cannot rewrite) that loads the same libs and keeps every alias, every explicitly referred name, and every refer-all. Items in a shape it does not recognise are carried over unchanged, other clauses stay where they are, and comments in and around items are kept.",
 ["inputs"], "all combinations of :require and :use clauses over a small set of libs, aliases and referred names",
 "One fixture with two clauses is tested.",
 [TR, REQ], [("useToRequire", TR), ("requireList.merge, referList.merge, render", REQ)], state=[("requireList.m", "merged requires by lib", REQ)], observe=["format.Printer.PrintTree"])

prop("C25", "remove-unused-requires never removes a require that is used",
 "With the remove-unused-requires transform on, an alias is kept if any symbol, var quote, auto-resolved keyword or auto-resolved map in the code outside ns uses it as a namespace, a referred name is kept if it occurs as a symbol there, and a require is kept if it still has an alias or referred name, is refer-all, is used by its full name, provides a class imported in an ns form (in whatever way the clause is written, reader conditionals included), or is written as a bare vector [lib]. Unused aliases, referred names and requires that none of this keeps are removed, other items and clauses are left alone, and a clause left empty disappears.",
 ["inputs"], "all combinations of require items and usages over a small vocabulary",
 "Two fixtures are tested.",
 [UN, TR, REQ], [("findSymbols", UN), ("symbolCache.unused, referList.removeUnused", UN + ", " + REQ), ("removeUnusedRequires", TR)], observe=["format.Printer.PrintTree"])

prop("C26", "Output failures are reported",
 "If the destination of a print fails at any point, with an error or a short write, printing returns an error, and what reached the destination before is a prefix of the correct output; without a failure the destination receives exactly the formatted text. The command-line tool exits non-zero when it cannot write its result to standard output.",
 ["fault_sequences", "inputs"], "a write failure at every byte offset of the output, for outputs below and above the buffer size",
 "All tests print to an in-memory buffer that cannot fail.",
 [FMT, CLI], [("bufErr panics recovered in PrintTree and final Flush", FMT), ("io.Copy to stdout", CLI)], observe=["PrintTree error", "cljfmt exit status"])

prop("C27", "Configuration files mean what the README says or are refused",
 "A configuration file is accepted exactly when it holds at most one form, a map with an even number of elements, whose keyword keys are among the documented ones and whose values have the documented shape; then the extensions, indent overrides (single names and name lists) and thread-first overrides in it take effect as written. Any other file makes the tool exit non-zero with a message and without formatting anything, and the file is found by precedence: -c flag, then CLJFMT_CONFIG_PATH, then $HOME/.cljfmt, where a missing file means defaults.",
 ["configurations", "inputs"], "all configuration texts from a grammar of keys, values, malformed variants and locations",
 "Configuration parsing and lookup have no tests.",
 [CFG, CLI], [("parseDotConfig, parseOverrides", CFG), ("defaultConfigPath, pathFlag, parseDotConfigFile", CLI)], observe=["cljfmt process"])

prop("C28", "cljfmt modes report and rewrite exactly the files that differ",
 "Without flags the formatted text of each input goes to standard output in argument order; with -l exactly the names of the inputs whose formatting differs are printed; with -w exactly those files are rewritten, to the formatted text, keeping their permissions (a file named through a symbolic link is rewritten where it is, and the link stays), and all others stay untouched. All modes agree with formatting the same bytes from standard input, a second -w run changes nothing, and -w with standard input is refused.",
 ["inputs", "configurations", "histories"], "all mode flag sets x argument lists over formatted, unformatted, empty and broken files x repeated runs",
 "The command-line tool has no tests.",
 [CLI], [("processFile compare-and-write", CLI), ("shared package-level buffers", CLI)], state=[("buf1, buf2", "buffers reused between files", CLI)], observe=["cljfmt stdout, exit status, file system"])

prop("C29", "Directory arguments select exactly the Clojure files",
 "For a directory argument (or one that is a link to a directory) the tool processes exactly the regular files (and symbolic links to such files) below it, at any depth and in lexical order directory by directory, whose extension (the part of the name from its last dot on) is in the configured list (by default .clj, .cljs, .cljc and .edn) and whose name does not start with a dot; links to directories and special files below it are passed over. A file named explicitly is processed whatever its name is.",
 ["inputs", "configurations"], "all small directory trees over a set of file and directory names x extension lists",
 "The command-line tool has no tests.",
 [CLI], [("walkDir", CLI)], observe=["cljfmt -l output, rewritten files"])

prop("C30", "A failing run never damages a file",
 "When a file cannot be read, parsed or formatted the tool says so, exits non-zero and leaves that file and every file it has not yet reached byte-for-byte as it was. When rewriting a file fails or is interrupted at any step, the complete original or the complete formatted text is still on disk, in the file itself or in a backup next to it.",
 ["crash_points", "fault_sequences"], "every kind of failing input at every position of the argument list; a crash or error at every file-system step of a rewrite",
 "The command-line tool has no tests.",
 [CLI], [("parse and print fully into memory before writing", CLI + ": processFile")], observe=["file system after the run", "exit status"])

prop("C31", "Node classification helpers and tree rendering are exact",
 "The helper predicates hold for exactly the node kinds and head names they name: form-symbol and form-keyword tests hold only for lists whose first child in the tree is a symbol (keyword) equal to one of the given names, or any when none is given. The textual rendering of a tree has exactly one line per node, in depth-first order, indented by depth, that states the node's kind and its text or its number of elements without counting comments and newlines (pairs for maps).",
 ["inputs"], "all node kinds, child shapes and name lists",
 "The rendering is tested for one node of each kind; the helpers only through the formatter.",
 [GO, NODE, PARSE], [("FnFormSymbol, FnFormKeyword, Semantic", GO), ("String methods, nodesToString", NODE + ", " + PARSE)], observe=["goclj package", "Node.String, Tree.String"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
