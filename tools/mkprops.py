#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LEX, PARSE, NODE = "parse/lex.go", "parse/parse.go", "parse/node.go"
FMT, TR, REQ, UN, DOC, TF = ("format/format.go", "format/transform.go", "format/require.go",
    "format/unused.go", "format/docstring.go", "format/threadfirst.go")
CLI, CFG, GO = "cljfmt/cljfmt.go", "cljfmt/config.go", "goclj.go"

prop("C01", "Source text is cut into the Clojure reader's tokens, kept verbatim",
 "For every UTF-8 input, parsing cuts the text at the Clojure reader's token boundaries: strings and regexes end at the first unescaped double quote, comments (; and #!) end before CR, LF or end of input, symbols, keywords, numbers and character literals end before the first whitespace, comma or one of \" ; @ ^ ~ ( ) [ ] { } \\, and # plus its next character selects the dispatch macro. Each token is classified by its first characters (a sign starts a number only when a digit follows), and its text is exactly the input between its boundaries. Only whitespace and commas are ever skipped, and every line feed outside a token is reported as a newline.",
 ["inputs"], "every UTF-8 input, of any length and content, delivered by any io.Reader",
 "The tests parse about forty short snippets, one token kind each; boundaries depend on every pair of adjacent characters and on unbounded escape runs.",
 [LEX], [("scanner states", "parse/lex.go: lexOuter, lexString, lexDispatch, lexCharLiteral, lexComment"), ("character classes", "parse/lex.go: isSymbolChar, isWhitespace")],
 ["token stream handed to the parser", "Val/Text of leaf nodes"])
prop("C02", "Positions and positioned errors point at the construct's first character",
 "Every node produced by the parser carries the position (file name, byte offset, 1-based line, and 1-based byte column) of the first character of the construct it stands for, including its prefix characters. Every scanning error carries the position of the start of the token being scanned, and the position object of one node is never changed by scanning later input.",
 ["inputs"], "every UTF-8 input, every token in it",
 "No test looks at a position: a line counter that is not restored after one character of look-ahead is invisible to the suite.",
 [LEX, PARSE], [("position bookkeeping", "parse/lex.go: next, back, skip, emit, synth, errorf"), ("start.pos handed to nodes", "parse/parse.go: parseX(start token)")],
 ["Node.Position()", "error text"])
prop("C03", "Each reader form parses to its own node kind with all its sub-forms in order",
 "Every form of the grammar (atoms, lists, vectors, maps, sets, function literals, reader conditionals, namespaced maps, quote/deref/metadata/discard/eval and the unquote forms, regexes, var quotes, tags, comments, newlines) parses to the one node kind that stands for it, whose text fields hold the token's text. A delimited form holds exactly the forms between its opening and closing delimiter, in source order, and a prefix form holds exactly the next form that is not a newline or comment.",
 ["inputs"], "every input, any nesting",
 "Tests cover one instance of each form, nearly all at top level with atoms inside.",
 [PARSE], [("recursive descent", "parse/parse.go: parseNext, parseList/Map/Vector/Set, parseDispatch, parseNextSemantic")],
 ["Tree.Roots, Node.Children()"])
prop("C04", "Incomplete or mismatched input is rejected, never silently repaired",
 "If the input ends inside a form (an open delimiter, a prefix or dispatch macro without its form, a string without its closing quote), or holds a closing delimiter that does not match the innermost open one, or a form the grammar does not allow (nested function literal, unreadable #<, reader conditional that is not a list, namespaced map without a map), parsing returns a nil tree and an error with the position. No such input yields a tree.",
 ["inputs"], "every malformed input",
 "Six unterminated prefixes are tested; delimiters and dispatch forms are not.",
 [PARSE, LEX], [("EOF and unexpected-token checks", "parse/parse.go: unexpectedEOF, unexpected at every production")],
 ["error result of Reader and File"])
prop("C05", "Parsing any byte stream ends in a tree or an error, never a panic",
 "For every byte stream and every failure of the underlying reader at any point, Reader returns either a tree and a nil error or a nil tree and a non-nil error, and never panics (nesting deep enough to exhaust the stack aside). A read failure is reported as an error and is never taken for the end of the input.",
 ["inputs", "fault_sequences"], "every byte stream, every reader failure point",
 "The suite feeds well-formed snippets from strings; no failing reader, no random bytes.",
 [LEX, PARSE], [("recover of lexer and parser errors", "parse/parse.go: (*Tree).recover; parse/lex.go: step"), ("one-token look-ahead", "parse/parse.go: next, backup")],
 ["result of Reader"])
prop("C06", "Parsing leaves nothing running and nothing open behind",
 "When Reader or File returns, with or without an error, no goroutine started by the call remains and every file it opened has been closed. Parsing never blocks on anything but the caller's reader.",
 ["inputs", "schedules"], "every input, every way a parse can end (success, syntax error, read error)",
 "A goroutine left blocked after a syntax error is invisible to tests that only look at results.",
 [LEX, PARSE], [("on-demand scanner", "parse/lex.go: nextToken"), ("deferred close", "parse/parse.go: File")],
 ["goroutines and descriptors after return"])
prop("C07", "Children, SetChildren and Parent of every node kind stay consistent",
 "For every node kind, Children returns exactly the sub-nodes the node holds; SetChildren replaces them, clears the parent of the nodes it drops and sets the parent of the nodes it adds, and panics for a leaf or for a wrong number of children. After parsing, every node's Parent is the node that holds it and a root's Parent is nil.",
 ["inputs", "histories"], "every node kind, every sequence of SetChildren calls, every parsed tree",
 "Four parent links are tested; SetChildren is tested only through the formatter.",
 [NODE, PARSE], [("per-kind accessors", "parse/node.go"), ("linkParents", "parse/parse.go: (*Tree).parse")],
 ["Node.Children, Node.Parent"])
prop("C08", "Parse options only leave nodes out, at every level, and only what they name",
 "Without IncludeNonSemantic exactly the newlines and comments are left out of every sequence; with IgnoreCommentForm exactly the lists whose first element is the symbol comment are left out; with IgnoreReaderDiscard exactly the #_ forms are left out. This holds at top level and inside every delimited form, for every combination of options; an ignored form is still checked for syntax, and a form under a prefix such as quote is never left out.",
 ["inputs", "configurations"], "every input, all eight option sets, every nesting level",
 "Each option is tested alone at top level and in a vector.",
 [PARSE], [("includeNode at each append", "parse/parse.go: includeNode and its callers")],
 ["Tree.Roots, Node.Children()"])
prop("C09", "Character literals get the value the Clojure reader gives them",
 "A character literal's value is: the character itself for a single character; newline, space, tab, formfeed, backspace and return for those names; the code unit for u plus four hexadecimal digits; the code for o plus octal digits. Any other literal is rejected with an error at its position, and the literal's text is kept as written.",
 ["inputs"], "every character literal",
 "One character literal (\\s) is tested.",
 [PARSE], [("parseCharLiteral", "parse/parse.go")], ["CharacterNode.Val, .Text"])
prop("C10", "The printer spells every node the way the reader reads it back",
 "For every node kind, the characters the formatter writes for the node (delimiters, prefix, dispatch characters, and the node's text) are ones the parser reads back as the same node kind holding the same text and sub-forms. In particular an unquoted deref is not printed as an unquote-splice, nor a tag as a dispatch macro, and no node kind the parser can build is refused.",
 ["inputs"], "every node kind with any contents, nested in any way",
 "Fixtures cover common forms; the printer's and the parser's tables are never compared.",
 [FMT, PARSE], [("printNode", "format/format.go"), ("parseNext/parseDispatch", "parse/parse.go")], ["bytes written by PrintTree"])
prop("C11", "Adjacent forms never run together, and comments never swallow code",
 "Between two forms of one sequence the formatter always writes at least one space or a newline, and after a comment always a newline before anything else, including a closing delimiter. Otherwise it adds only spaces (the indent character) and keeps each newline of the tree, so nothing printed changes which tokens are read back.",
 ["inputs"], "every sequence of node kinds and newlines, every indent style",
 "Fixtures exercise a few layouts; separators depend on the interleaving of newlines, comments and styles.",
 [FMT], [("printSequence separator flags", "format/format.go: needSpace, needIndent"), ("terminateComments", "format/format.go")], ["bytes written by PrintTree"])
prop("C12", "Formatting does not depend on source positions or horizontal spacing",
 "The bytes the formatter writes depend only on the tree's node kinds, texts, nesting and newlines and on the printer's settings. Positions of nodes (and so the spacing, file name and line numbers of the source) never influence the output.",
 ["inputs"], "every tree, any assignment of positions",
 "Needs two inputs that differ only in spacing for every input; fixtures have one spacing each.",
 [FMT, TR, REQ, UN, DOC, TF], [("no use of positions", "format/*.go")], ["bytes written by PrintTree"])
prop("C13", "Formatting is deterministic and independent of earlier calls",
 "Formatting equal trees with equal settings writes the same bytes every time: nothing depends on map iteration order, time, randomness, the environment, or what the same printer or process formatted before.",
 ["inputs", "histories"], "every tree, every history of earlier formatting calls, every map iteration order",
 "Map order and leftovers of an earlier call show up only occasionally and with specific inputs.",
 [FMT, REQ, TR, UN], [("sorted rendering", "format/require.go: sortStringSet, render"), ("per-call state", "format/format.go: PrintTree")], ["bytes written by PrintTree"])
prop("C14", "Formatters for different trees do not share or modify state",
 "Formatting one tree never writes package-level state, the default settings, or the settings maps the caller passed in. Printers working on different trees can therefore run at the same time without a data race and without affecting one another.",
 ["schedules", "histories"], "every interleaving of printers on distinct trees; every pair of calls sharing a settings map",
 "The tests use one printer at a time and never look at the maps they passed in.",
 [FMT, TR, REQ, PARSE], [("private copies of settings", "format/format.go: PrintTree"), ("fresh newline nodes", "format/require.go")], ["package variables; caller's maps"])
prop("C15", "PrintTree reports every write failure and flushes on success",
 "If any write to the destination fails, PrintTree returns an error; it returns nil only after everything has been written and flushed to the destination. A write failure never escapes as a panic.",
 ["fault_sequences"], "a failing writer at every write",
 "All tests print to memory buffers, which never fail.",
 [FMT], [("bufErr panic and recover", "format/format.go: writeString, writeByte, PrintTree")], ["error result of PrintTree"])
prop("C16", "Formatting a parsed tree never panics",
 "For every tree the parser can return with newlines and comments included, and for every combination of transforms, indent and thread-first settings, PrintTree returns without panicking: no index, slice bound, type assertion, nil or children-count failure (nesting deep enough to exhaust the stack aside).",
 ["inputs", "configurations"], "every parsed tree, all settings",
 "Short or oddly ordered forms (empty clauses, comment-only forms, forms cut after two elements) are not in the fixtures.",
 [FMT, TR, REQ, UN, DOC, TF], [("length and kind guards", "format/*.go")], ["PrintTree"])
prop("C17", "Outside ns forms the transforms only add, drop or move newlines",
 "For every form other than ns, every transform keeps all non-newline nodes (comments included) at every level, the same ones and in the same order: only newline nodes are inserted, removed or moved. With all transforms disabled the tree is not changed at all.",
 ["inputs", "configurations"], "every tree, every subset of transforms",
 "Fixtures show a transform working on the intended shape; slice surgery goes wrong on the shapes nobody wrote down.",
 [TR], [("slice edits guarded by newline checks", "format/transform.go: fixDefnArglist, removeTrailingNewlines, removeExtraBlankLines, enforceConsistentIfNewlines")], ["tree after PrintTree"])
prop("C18", "The default ns transforms lose no form and no comment",
 "Sorting and restyling the ns form keeps every libspec, import, option, comment, discarded form and unrecognised form it contains; metadata and tags stay in front of the form they apply to; sorting only reorders the entries of one clause. Restyling only changes list/vector brackets, symbol clause names to keywords, and package-qualified class symbols to package lists.",
 ["inputs"], "every ns form, however its clauses, comments and newlines are interleaved",
 "Fixtures have one comment per entry at most and no metadata in ns clauses.",
 [TR], [("attached comments and prefixes", "format/transform.go: sortImportRequire"), ("enforceNSStyle", "format/transform.go")], ["ns form after PrintTree"])
prop("C19", "Each transform runs exactly when it is enabled, with the documented defaults",
 "Every transform's effect is applied if and only if its setting is on, where a setting the caller gave wins over the default; the transforms that are on by default are exactly those the README lists as on. Disabling one transform never disables or enables another.",
 ["configurations"], "all settings of the nine transforms",
 "Of 512 settings the tests use five.",
 [TR, FMT], [("guards in applyTransforms", "format/transform.go"), ("DefaultTransforms", "format/transform.go"), ("merge with Transforms", "format/format.go: PrintTree")], ["effects of PrintTree"])
prop("C20", "remove-unused-requires drops only what is not used anywhere in the file",
 "An alias, referred name or whole libspec is removed only if no symbol, var quote, auto-resolved keyword or auto-resolved namespaced map anywhere in the file, in any kind of form at any depth, uses it, and no import names its package. Single-namespace libspecs, refer-all libspecs and forms it does not recognise are always kept.",
 ["inputs"], "every file, uses nested in any node kind",
 "The fixtures put uses in a handful of positions.",
 [UN, TR], [("findSymbols walk", "format/unused.go"), ("unused", "format/unused.go"), ("removeUnusedRequires", "format/transform.go")], ["ns form after PrintTree"])
prop("C21", "use-to-require keeps every alias, referred name and unknown clause when merging",
 "When libspecs for the same namespace are consolidated, the result requires every namespace that was required or used and keeps every alias, every referred name (macros apart), refer-all, and every comment and unrecognised entry. Aliases never move to another namespace and a name is referred only if it was before.",
 ["inputs"], "every combination of require and use entries for the same and different namespaces",
 "One before/after fixture; each merge case (has/has not, first/second) is a separate branch.",
 [REQ, TR], [("merge", "format/require.go: requireList.merge, referList.merge"), ("render", "format/require.go")], ["ns form after PrintTree"])
prop("C22", "String and regex contents change only in docstrings, and there only indentation",
 "The contents of a string or regex literal are written byte for byte as in the source, unless the string is the docstring of an ns, def, defn, defmacro or defmulti form with something after it. In a docstring only leading and trailing white space of the lines after the first may change.",
 ["inputs"], "every string literal in every position",
 "Fixtures contain a few docstrings and no near-misses.",
 [DOC, FMT], [("markDocstrings, alignDocstring", "format/docstring.go"), ("StringNode and RegexNode cases", "format/format.go: printNode")], ["bytes written by PrintTree"])
prop("C23", "Indentation never drifts with the length of a sequence",
 "The indentation of every line inside a form is the form's own column plus a bounded amount chosen by the indent style and the first element; it never accumulates with the number of elements, pairs, comments or blank lines that come before it in the form.",
 ["inputs"], "sequences of any length with newlines, blank lines and comments anywhere, every indent style",
 "An accumulating offset needs a repeated pattern (for example blank lines inside pairs) that no fixture has.",
 [FMT], [("paired indent and dedent", "format/format.go: printSequence extraIndent")], ["bytes written by PrintTree"])
prop("C24", "cljfmt -w rewrites a file only with its own fully formatted contents",
 "cljfmt writes to a file only when -w is given, only after the file was read, parsed and formatted without any error, only if the result differs, only to the path it read, and with exactly the formatted bytes and the file's existing permission bits. Without -w no file is created, changed or truncated; a file that fails to parse or format is left untouched.",
 ["inputs", "configurations", "fault_sequences"], "every set of flags and files, every failure before the write",
 "The command has no tests.",
 [CLI], [("processFile", "cljfmt/cljfmt.go")], ["file system after a run"])
prop("C25", "cljfmt never exits 0 after a failure to read, parse, format or write",
 "Any error from opening, reading, parsing, formatting or writing an input, from walking a directory, from writing standard output, or from parsing the configuration makes cljfmt print a message and exit with a non-zero status. No error value is dropped on the way.",
 ["inputs", "fault_sequences"], "every failing operation",
 "The command has no tests.",
 [CLI, CFG], [("error returns and log.Fatal", "cljfmt/cljfmt.go: main, processFile, walkDir, parseDotConfigFile")], ["exit status"])
prop("C26", "Every transform and indent style can be named on the command line and in config",
 "Each transform can be enabled and disabled by the kebab-case form of its API name as documented in the README, and each such name selects that transform only, with enable and disable setting it on and off. Each configurable indent and thread-first style name documented in the README selects the style of the same name; unknown names are rejected with an error.",
 ["configurations"], "every name",
 "The command has no tests.",
 [CLI, CFG], [("transformFlag.Set", "cljfmt/cljfmt.go"), ("indentStyles, threadFirstStyles", "cljfmt/config.go")], ["command line and config"])
prop("C27", "cljfmt processes exactly the requested files, once each",
 "Each path argument that is a file is processed whatever its name; a directory argument is walked recursively and every entry in it is processed if and only if it is not a directory, its name does not start with a dot, and its extension is one of the configured ones. With no path arguments standard input is formatted to standard output (and -w is refused).",
 ["configurations", "inputs"], "every set of paths and directory trees",
 "The command has no tests.",
 [CLI], [("main loop and walkDir", "cljfmt/cljfmt.go")], ["files processed"])
prop("C28", "The config file is chosen and applied as documented",
 "The configuration file is the -c path if given, else the CLJFMT_CONFIG_PATH path if that variable is set, else .cljfmt in $HOME. A missing file is silently ignored unless it was named with -c, and each documented key replaces exactly its own setting and leaves the others alone.",
 ["configurations"], "every combination of flag, environment and config contents",
 "The command has no tests.",
 [CLI, CFG], [("defaultConfigPath, pathFlag", "cljfmt/cljfmt.go"), ("parseDotConfig", "cljfmt/config.go")], ["settings in effect"])
prop("C29", "The node predicates answer exactly for their node kinds",
 "Symbol, Newline, Vector, Keyword and Comment are true for exactly their node kind; Semantic is false for exactly newline, comment, metadata and tag nodes. FnFormSymbol and FnFormKeyword are true exactly for a list whose first child is a symbol (keyword) and, when names are given, whose text equals one of them; none of them modifies the node or panics.",
 ["inputs"], "every node, every list of names",
 "There are no tests of these functions.",
 [GO], [("type switches", "goclj.go")], ["results"])
prop("C30", "Built-in indent styles follow the documentation",
 "For every function or macro that the documentation names as an example of an indent style, the built-in table gives it that style, and every thread-first macro it names is threaded the documented way. A name is looked up as written and, when qualified, by its unqualified name, with an override for its resolved namespace first, and overrides always win over built-ins.",
 ["configurations"], "every documented name and override",
 "Fixtures use some of the names.",
 [FMT], [("defaultIndents", "format/format.go"), ("indentStyleForSymbol", "format/format.go")], ["indentation"])
prop("C31", "Redundant newlines are removed as documented",
 "With the default settings, no sequence keeps more than one blank line in a row, and no list, map, vector, set or function literal keeps a newline before its closing delimiter except after a comment.",
 ["inputs"], "every tree",
 "Fixtures contain a few such sequences, at shallow depth.",
 [TR], [("removeExtraBlankLines, removeTrailingNewlines", "format/transform.go")], ["bytes written by PrintTree"])
prop("C32", "cljfmt prints and lists exactly what its flags ask for",
 "Without -l and -w the formatted text of each input, and nothing else, is written to standard output. With -l the names of exactly those files whose formatted text differs from their contents are listed, one per line, and with -w exactly those files are rewritten; no formatted text goes to standard output with either flag.",
 ["configurations", "inputs"], "every combination of -l and -w, every input",
 "The command has no tests.",
 [CLI], [("processFile", "cljfmt/cljfmt.go")], ["standard output"])
# not decided by static analysis
prop("C40", "Formatting formatted code changes nothing",
 "For every input the formatter accepts, formatting its own output again, with the same settings, gives the same bytes.",
 ["inputs"], "every input, every setting",
 "Fixtures whose before and after are equal show it for themselves only.",
 [FMT, TR], [("whole pipeline", "format/format.go: PrintTree")], ["bytes written by PrintTree"])
prop("C41", "Indentation columns follow the documented geometry of each style",
 "Each element that starts a line is indented to the column its indent style documents (aligned with the first argument, two spaces in, or two further for the second of a pair).",
 ["inputs"], "every form, every layout",
 "Fixtures sample it.",
 [FMT], [("printSequence", "format/format.go")], ["bytes written by PrintTree"])
prop("C42", "cljfmt -w never leaves a partly written file behind",
 "If cljfmt -w is killed or the disk fills while a file is being rewritten, the file holds either its old or its new contents in full.",
 ["crash_points", "fault_sequences"], "every point of the rewrite",
 "No test interrupts a write.",
 [CLI], [("ioutil.WriteFile", "cljfmt/cljfmt.go: processFile")], ["file contents after a crash"])
prop("C43", "Parsing and formatting take time and memory linear in the input",
 "Parsing and formatting an input of n bytes takes time and memory proportional to n, and stack proportional to nesting depth.",
 ["inputs"], "every input size",
 "No benchmark or large input is in the suite.",
 [LEX, PARSE, FMT], [("single pass", "parse/lex.go, parse/parse.go")], ["resource use"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
