AI = "abstract interpretation of the Go SSA (path facts, widening to a fixpoint)"
C["C29"] = (AI, "other", "every path of the eight predicates over a node of unknown kind and an argument list of unknown length; trusts the Go type checker, go/ssa and the term domain")
C["C01"] = (AI, "other", "the whole scanner, as a finite-state machine over an unbounded input of characters partitioned by what the grammar and the code distinguish, in lockstep with a specification automaton; every token, for inputs of any length; a read failure at any point")
C["C02"] = (AI, "other", "positions as linear terms over the widths of the characters read, in the same lockstep exploration as C01; parse.go's transfer of token positions to nodes is decided with C03")
PG = "the parser over unknown tokens in lockstep with a reference grammar; the recursive entry is replaced by its contract and its effect on the parser's state by summaries computed to a fixpoint, so nesting of any depth and sequences of any length are covered, for all 8 option combinations"
C["C03"] = (AI, "other", PG)
C["C04"] = (AI, "other", PG + "; every accepting path must be one the grammar accepts and every error must mention the position of the token it is about")
C["C05"] = (AI, "other", "every index, slice, assertion and nil obligation of scanner and parser, and every way out of Reader and File; stack exhaustion by nesting is not covered")
C["C06"] = (AI + "; rule over all instructions of package parse", "other", "open files as typestate on every path of File; no go, channel or waiting instruction anywhere in the package")
C["C08"] = (AI, "other", PG + "; the children kept must be exactly the forms read less those the options name")
C["C09"] = (AI, "other", "the value of a character literal as a function of its text on every path, and every rejection justified")
NA["C40"] = "needs the output of one run fed to another: equality of f(f(x)) and f(x) over all trees is beyond any dataflow domain in reach here; its parts (C10, C11, C12, C23, C31) are decided instead"
NA["C41"] = "the documented geometry is a numeric relation between the columns of unboundedly many elements and the widths of their texts; no static domain in reach bounds it (boundedness of the offset is decided by C23)"
NA["C42"] = "a property of the file system under crashes: ioutil.WriteFile truncates in place, and no analysis of this source can show what a kill leaves behind (it does not hold as the code stands)"
NA["C43"] = "time, memory and stack bounds are runtime quantities; no sound static bound in reach"
NA["C16"] = "needs invariants of the tree that ns transforms keep in maps keyed by node and name (libspecs under construction, their orders and counts) together with index bounds that depend on them; the engine proves the obligations of the parser (C05), the predicates (C29), the node methods (C07) and the printing loops as it goes, but not those of require.go, and a check of a part would not decide the property"
NA["C18"] = "sorting moves elements between the lists of a require table through maps, callbacks to sort and a set of merge rules; that nothing is lost is a statement about multisets across those containers, which the sequence domain (order-preserving, one watched element) cannot express"
NA["C20"] = "what counts as a use is a relation between names in one part of the tree and all the symbols of another, kept in maps of unknown keys over a recursion on the whole file; the domain tracks one unknown key soundly only when it is compared directly, so no argument in reach would not also reject the current code"
NA["C21"] = "the merged libspec depends on every pair of libspecs with the same name, in maps of maps; joint facts about unboundedly many keys are out of reach of the term domain"
DF = "dataflow over the SSA form (taint / effect / aliasing rules on the static call graph)"
C["C12"] = (DF, "other", "every function reachable from PrintTree; field-insensitive taint from every position value to every branch, store, call, index and result; a position may only be given to a node or named in a panic")
C["C13"] = (DF, "other", "every map range reachable from PrintTree is shown insensitive to order (or sorted by a total order before use); no clock, randomness, environment or concurrency; printer fields that formatting changes are given fresh values before they are read")
C["C14"] = (DF, "other", "every store, map update, delete, append and sorting call reachable from PrintTree, Reader, File and NewPrinter against everything package-level variables and the caller's maps refer to (Andersen-style, field-based)")
CL = "the whole command from main, every path, with flags, arguments, files and the results of every operation unknown; library calls by contract (named in the evidence); directory walks and argument lists of any length"
for i in ("C24", "C25", "C26", "C27", "C28", "C32"):
    C[i] = (AI, "other", CL)
C["C10"] = (AI, "other", "printNode over every node kind with all texts, sub-nodes and settings unknown, against a table of spellings; printSequence and the recursion by contract; sequences of any length")
C["C11"] = (AI, "other", "the printing loop over sequences of unknown length, by invariant, and terminateComments by a contract on an arbitrary index")
C["C07"] = (AI, "other", "Children, SetChildren, Parent and setParent of all 27 node kinds, for unknown contents and lists of unknown length; the linking of parents by induction on the tree; every store of a parent in the repository")
C["C15"] = (AI, "other", "every write reachable from PrintTree may fail at any point; the printing recursion by a fixpoint over the ways it ends after a failure; trusts the documented behaviour of bufio.Writer")
C["C17"] = (AI, "other", "the calls the formatter makes for a tree, found by interpreting it with the transform settings unknown; each function called is interpreted for a form of each of the 27 node kinds with unknown contents of any length, sub-forms by the same contract; forms known to be ns forms are C18's")
C["C19"] = (AI, "other", "each of the nine settings on, off or not given, with the other eight all on, all off or not given (so every interplay of two settings, not of three), any tree, one root form at an unknown index; which code a setting stands for is told by the calls it governs and a text that code must know")
C["C31"] = (AI, "other", "every function that rewrites sequences, for a form of each kind with unknown contents of any length, in the order the calls for one tree are made: which functions establish that no sequence has two blank lines, or a newline before its end, at every level, and that no later one undoes it")
C["C30"] = (AI, "other", "the built-in table with every possible set of overrides, against a transcription of the README; the look-up for a list and a function literal whose first symbol has any text, with any aliases and referred names; how aliases are collected from the ns form, and the indentation a style leads to, are not part of it")
C["C22"] = (AI, "other", "every function that marks docstrings, for a form of unknown contents and length and any string in it (at the head, as the name, later, with something before or after it), and the function that rewrites a docstring, for any line and any pair of lines of a text of any length; together with what the printer writes of a string or regex, on every path")
C["C23"] = (AI, "other", "the function that prints a sequence, for unknown forms and newlines in any order and number and every style; the first form is assumed not to be a newline where the style is one that is chosen by it; within a bound of 8 columns")
