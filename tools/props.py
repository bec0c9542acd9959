#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the list below.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSER = "pkg/parser/parser.go"
GEN = "pkg/bnf/tablegen/tablegen.go"
FROM = "pkg/bnf/fromcst/fromcst.go"
AST = "pkg/bnf/ast.go"
SELF = "pkg/bnf/selfgrammar.go"
CST = "pkg/cst/cst.go"
BS = "pkg/bnf/tablegen/byteset/byteset.go"

def m(name, where):
    return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a}, technique, note))

prop("C01", "Generated parsers accept exactly the grammar's language",
 "For every grammar for which a parsing table is generated, the parser built from that table accepts an input (any bytes, any length, zero bytes included) exactly when the input is a sentence derivable from the grammar's first rule. Every other input - proper prefixes, sentences with trailing bytes, damaged sentences - is rejected with an error.",
 ["programs", "inputs"], "every grammar accepted by the generator, every byte string",
 "Tests parse a handful of inputs of two or three grammars; FIRST/FOLLOW propagation, nullable runs, recursion depth and offending bytes differ for every other grammar and input.",
 [GEN, PARSER, BS],
 [m("FIRST and FOLLOW fixpoints, row construction", GEN+" findFirsts, findFollows, makeTableRow"), m("prediction and matching loop", PARSER+" realParser.parse")],
 ["tablegen.FromGrammar", "parser.NewLL1Parser", "LL1Parser.Parse"],
 "reference-model monitor (Earley, derivations, independent LL(1)) over generated grammars and inputs",
 "Held on the grammars and inputs generated; trusts the harness's Earley recogniser and sentence deriver.")

prop("C02", "The returned tree is the derivation tree of the input",
 "Every tree Parse returns is the derivation of the input: the root is rule 0 over the whole input; the children of a node of rule n spell, in order and without gaps or overlaps, one alternative of rule n, terminals as childless literal nodes (type -1) over exactly their bytes and non terminals as nodes of their rule. A rule that derived nothing - and only such a rule - is an empty-span node at its place holding one childless empty node of type -2.",
 ["programs", "inputs"], "every grammar accepted by the generator, every accepted input",
 "Tests compare a few fixed trees; positions, child counts and literal spans at other nestings, lengths and shapes are never looked at.",
 [PARSER, CST, GEN],
 [m("reduction functions with start offset and child count", PARSER+" processFunction, processTerminal"), m("node construction", CST+" NewNode")],
 ["cst.Node Type/Pos/End/Childs of the tree returned by Parse"],
 "runtime tree validator against the grammar and the input bytes",
 "Held on every tree observed; a valid tree of an LL(1) grammar is unique, so validity decides the property.")

prop("C03", "Table generation succeeds exactly on LL(1) grammars",
 "For every well-formed grammar (each used non terminal defined exactly once, no empty terminals, the empty string only as a whole alternative, terminals not starting with a zero byte), generation succeeds exactly when the grammar is LL(1): in every rule, used or not, no two alternatives predict the same next byte or end of input by FIRST and FOLLOW. A grammar with such a conflict anywhere gets an error and neither table nor names.",
 ["programs"], "every well-formed grammar: any number and order of rules and alternatives, recursive, cyclic, nullable, unreachable or unproductive rules",
 "Tests try a couple of grammars; both directions (no conflict missed, no LL(1) grammar refused) range over all grammars and depend on fixpoints that need many rules or particular orders to go wrong.",
 [GEN, BS],
 [m("conflict detection when a cell is filled", GEN+" makeTableRow"), m("FIRST/FOLLOW fixpoints", GEN+" findFirsts, findFollows")],
 ["error result of tablegen.FromGrammar"],
 "reference-model monitor: textbook FIRST/FOLLOW analysis as oracle for generated grammars",
 "Held on the grammars generated; trusts the harness's LL(1) analysis, itself cross-checked by Earley in C01/C06.")

prop("C04", "Malformed grammars are refused with an error, never a panic",
 "Table generation from a grammar without rules, with a use of an undefined non terminal, a non terminal defined twice, an empty terminal, a terminal starting with a zero byte, an empty sequence, the empty string beside other symbols, or a nil or foreign symbol - in any rule, alternative and position, reachable or not - returns an error with nil table and nil names. It never panics.",
 ["programs"], "every well-formed grammar with one such defect at any place",
 "Tests have one or two malformed grammars with the defect in the first rule; whether the defect is seen depends on where it stands.",
 [GEN], [m("grammar check before generation", GEN+" checkGrammar"), m("errors in FIRST computation", GEN+" sequenceFirsts")],
 ["results of tablegen.FromGrammar"],
 "defect injection with outcome and panic monitor",
 "Held on the injected defects; the defect classes are those listed in the statement.")

prop("C05", "The table holds exactly the predicted cells and the row names",
 "For every LL(1) grammar the generated table has one row per rule, indexed in rule order, and in it exactly one cell per byte that can begin an alternative of the rule (holding that alternative's symbols in order) and, when an alternative can be empty, an empty cell per byte of the rule's FOLLOW set, with end of input in column 0; no other cells. The row names are exactly the rule names by row.",
 ["programs"], "every LL(1) grammar",
 "Tests compare a few cells of one or two grammars; a superfluous or missing cell elsewhere may never influence their parses.",
 [GEN, BS], [m("row construction", GEN+" makeTableRow"), m("row naming", GEN+" enumerate, FromGrammar")],
 ["table and names returned by tablegen.FromGrammar"],
 "reference-model monitor comparing every cell with a textbook table",
 "Held on the tables generated, every cell compared.")

prop("C06", "Rejection names the first offending byte and what was due",
 "When a generated parser of a grammar without useless rules rejects an input, the error is about the first byte at which the input stops being a prefix of any sentence: \"expected char 'x' (n), got 'y' (m)\" within a terminal, \"no rules for 'y' (m) and non terminal op <name>\" where a rule was due, \"expected end of input got 'y' (m)\" after a complete sentence. Characters are shown with their byte values, the end of input as byte 0.",
 ["programs", "inputs"], "every reduced LL(1) grammar, every rejected input",
 "Tests check that an error exists, or one or two texts; which byte and expectation are reported varies with every grammar and input.",
 [PARSER], [m("errors of the parsing loop", PARSER+" processChar, processTableNonTerminal, processEOS"), m("character rendering", PARSER+" charCode")],
 ["error returned by LL1Parser.Parse"],
 "reference-model monitor of error texts; offsets cross-checked with Earley viable prefixes",
 "Held on the rejected inputs observed; message formats are taken from the current tree.")

prop("C07", "The outcome depends only on the source's bytes, not its kind",
 "Parse gives the same tree, names and error for the same bytes passed as string, byte slice, *bytes.Buffer (its unread part) or any io.Reader, however the reader chunks its data (single bytes, empty reads, data together with EOF). The source is left unmodified and a bytes.Buffer unconsumed; a reader's error makes Parse fail with that error and nil results; nil and unsupported sources (including a nil *bytes.Buffer) are errors.",
 ["inputs", "fault_sequences"], "every input, every read schedule of a reader, every position of a read error, every kind of value",
 "Tests use one or two source kinds with one chunking; short reads, errors after n bytes and partially read buffers are unlimited.",
 [PARSER], [m("source reading", PARSER+" readSource")],
 ["LL1Parser.Parse with instrumented readers and buffers"],
 "differential monitor with instrumented, fault-injecting readers",
 "Held on the read schedules and faults generated.")

prop("C08", "Concurrent use is free of data races and equals sequential use",
 "One parser (from its very first Parse), one table, one names map, one grammar, one set of bindings, one tree may be used from any number of goroutines at once - Parse, table generation, ToAST, grammar printing, tree walking, parser construction - without data races, even while each caller changes the names map its own Parse returned. Every call returns exactly what it returns when run alone.",
 ["schedules"], "every interleaving of calls on shared objects",
 "The tests are sequential; a race needs overlapping calls and may leave results right most of the time.",
 [PARSER, GEN, FROM, AST, CST, BS],
 [m("per-call parser state", PARSER+" ll1parser_t.Parse, realParser"), m("copy of names per call", PARSER+" processEOS"), m("copy of the ignore list", FROM+" ToAST")],
 ["Go race detector; results of concurrent calls"],
 "Go race detector plus differential monitor over stress schedules with rendezvous readers",
 "Held on the interleavings executed; the race detector sees happens-before races of executed accesses.",
 [{"name": "names map", "meaning": "names given to NewLL1Parser, shared by all Parse calls", "where": PARSER}])

prop("C09", "Calls leave no trace: history independence and no aliasing",
 "A call's result depends only on its arguments: earlier calls on the same or other parsers, successful or failed, change nothing, and results already returned never change afterwards. No call modifies its arguments (grammar, table, names, source, bindings, tree), nothing a caller does to a returned names map, table, grammar or bindings value, or to a grammar after generation, affects other results, and the library writes nothing to standard output or error.",
 ["histories"], "every sequence of calls and of caller mutations between them",
 "Tests use fresh objects once; leaks of state need particular histories.",
 [PARSER, GEN, FROM, SELF, AST],
 [m("no state kept between calls", PARSER+" Parse"), m("fresh values per call", SELF+" SelfGrammar; "+FROM+" SelfCSTtoASTBindings"), m("copies instead of shared slices and maps", PARSER+" processEOS; "+FROM+" ToAST")],
 ["results, deep snapshots of arguments, file descriptors 1 and 2"],
 "history monitor: random call/mutation histories against a fresh-object model with deep snapshots",
 "Held on the histories executed.")

prop("C10", "Parse returns a tree and names, or an error and nothing else",
 "Every Parse call returns either a tree, a names map and a nil error, or nil, nil and a non-nil error; it never panics, whatever the input and names map (nil, empty or partial included). The names map is a new map holding exactly the names given at construction plus -1 \"_literal\" and -2 \"_nothing\"; for generated tables it names every node type of the tree.",
 ["inputs", "configurations"], "every input of every kind, every names map, generated and hand-written tables",
 "Tests see a few calls; the outcome contract is for all.",
 [PARSER, "pkg/parser/interface.go"], [m("result construction", PARSER+" processEOS"), m("error returns", PARSER+" Parse, parse")],
 ["results of LL1Parser.Parse"],
 "runtime outcome-contract monitor over all source kinds, names maps and damaged tables",
 "Held on the calls observed.")

prop("C11", "Printing a grammar and reading it back gives the same grammar",
 "For every grammar writable in the BNF notation (names: letter then letters, digits, dashes; terminals of printable ASCII, tab, newline, carriage return; at least one symbol per alternative), Grammar.String() yields one line per rule that the parser of the self grammar accepts, and ToAST with the self bindings on that tree returns a grammar equal to the original, rule for rule and symbol for symbol. This includes the self grammar itself; printing the result again gives the same text.",
 ["programs"], "every grammar expressible in the notation",
 "Tests round-trip the self grammar and single cases; quoting and escaping interact (quote kinds, backslashes, control characters) in combinations no sample covers.",
 [AST, SELF, FROM, PARSER, "examples/parseownsyntax/main.go"],
 [m("printing and quoting", AST+" String methods"), m("notation grammar", SELF), m("tree to AST", FROM+" ToAST, parseTerminalName, parseEscape")],
 ["bnf.Grammar.String, Parse, ToAST, exit status of examples/parseownsyntax"],
 "round-trip monitor with an independent reader of the notation",
 "Held on the grammars generated; expected equality is judged on the harness's own copies.")

prop("C12", "The BNF text front end reads exactly the documented notation",
 "The parser of the self grammar followed by ToAST accepts exactly the texts of the documented BNF notation - rules one per line separated by LF or CRLF, the first on the first line, blank lines allowed, spaces between tokens optional, single- and double-quoted terminals with escapes \\t \\n \\r \\\" \\\\, empty quotes for the empty string - and yields exactly the rules, alternatives, symbols and terminal texts written, in order. Any other text is rejected with an error.",
 ["inputs"], "every text",
 "Tests read two or three well-laid-out grammars; layouts, quotes, escapes and malformed texts combine without limit.",
 [SELF, FROM, GEN, PARSER],
 [m("notation grammar", SELF), m("tree to AST", FROM)],
 ["Parse of BNF text and ToAST of its tree"],
 "reference-model monitor: hand-written reader of the notation as oracle",
 "Held on the texts generated; trusts the harness's reader, written from the documentation of the notation.")

prop("C13", "Walk visits in depth-first pre-order under visitor control",
 "Walk(v, node) calls v.Visit(node) once, before anything below it; a nil result prunes that subtree only, otherwise each child is walked left to right with the returned visitor. This holds for every tree, including user-defined Node types, wide and deep trees and visitors that change; nodes made by NewNode report exactly the type, positions and children given.",
 ["inputs", "programs"], "every tree and every visitor behaviour",
 "No test walks with changing or pruning visitors; order and pruning depend on shape.",
 [CST], [m("traversal", CST+" Walk"), m("node accessors", CST+" NewNode")],
 ["sequence of Visit calls"],
 "trace monitor: recorded visit traces against a specification trace",
 "Held on the trees and visitors generated.")

prop("C14", "ByteSet behaves as a mathematical set of bytes",
 "After any sequence of New, Add, Remove and Union, Contains, Len, Bytes (ascending, no duplicates), Equal, IsSubSet, IsSuperSet and String (\"[00 01 FF]\", \"[]\" when empty) answer as for the mathematical set of bytes so built. Only Add and Remove change a set, and only the one they are called on; copies, results of Union and slices from Bytes are independent.",
 ["histories", "inputs"], "every history of operations over all 256 bytes and 2^256 sets",
 "Tests use a few sets; word boundaries, full sets and long histories are out of their reach.",
 [BS], [m("four-word bit set", BS), m("de Bruijn bit index", BS+" log2pow2n, lookupTable")],
 ["all exported ByteSet operations"],
 "model-based history monitor (exhaustive on single bytes and pairs)",
 "Exhaustive for all sets of at most two bytes and their complements; otherwise held on the histories run.")

prop("C15", "The JSON example parses JSON and prints its key structure",
 "Built from the shipped json.bnf, the JSON parser accepts every JSON document within the documented subset (space, LF and CRLF whitespace, printable ASCII strings) and rejects everything that is not JSON. The example program prints every object key in document order, indented by two spaces per enclosing object or array, and exits 0; for a rejected document it exits non-zero without printing keys.",
 ["inputs"], "every JSON document of the subset and every near-miss",
 "The example has one sample file and no test.",
 ["examples/json/json.bnf", "examples/json/main.go", FROM, GEN, PARSER],
 [m("JSON grammar", "examples/json/json.bnf"), m("key printing visitor", "examples/json/main.go keyPrintingVisitor")],
 ["Parse outcome of the json.bnf parser", "stdout and exit status of examples/json"],
 "differential monitor against encoding/json, in process and on the example binary",
 "Held on the documents generated, but for the two known findings; tabs, lone CR and non-ASCII are outside the documented subset and only judged for soundness.")

prop("C16", "Hand-written tables are interpreted as documented",
 "NewLL1Parser with any caller-made table parses by it from row 0: terminal operations match their bytes, non terminal operations expand the cell for the next byte (column 0 at end of input), the built-in non terminal -2 matches LF or CRLF as one node, and trees have the shape of the operations executed. An empty table, a missing row 0, a missing row or cell met during the parse, and other negative non terminals are reported as errors (unnamed rows as Unknown_n), not panics.",
 ["configurations", "inputs"], "every table over terminal and non terminal operations, every input on which interpretation ends",
 "Tests use one hand-written table; missing rows, missing names, built-ins and empty terminals are configurations they never build.",
 [PARSER], [m("interpretation loop", PARSER+" parse, processNonTerminal, processBuiltinNonTerminal"), m("table checks", PARSER+" Parse")],
 ["results of LL1Parser.Parse on caller-made tables"],
 "reference-interpreter monitor over random tables",
 "Held on the tables and inputs generated; tables on which the reference does not end within its step budget are skipped.")

prop("C17", "Generation and parsing terminate within linear resources",
 "Table generation returns for every grammar, including left-recursive, cyclic and unproductive ones, and Parse with a generated table returns for every input. The memory Parse allocates and the time it takes grow linearly with the input, and nesting as deep as the input is long is parsed.",
 ["programs", "inputs"], "every grammar, every input, any nesting depth",
 "Tests parse small inputs; non-termination and super-linear growth show on particular grammars and sizes only.",
 [GEN, PARSER], [m("fixpoint loops", GEN+" findFirsts, findFollows"), m("explicit stacks", PARSER+" ll1parserOpStack, ll1parserProdStack")],
 ["return of FromGrammar and Parse, allocation counters, processor time of the thread"],
 "bounded-progress monitor: processor-time and memory budgets, allocation metering",
 "Termination is restated as return within budgets hundreds of times above normal use.")

prop("C18", "AST building follows the bindings it is given",
 "ToAST finds rules, heads, tails, sequences, symbols, terminals and escapes only by the node types and escape mapping in the bindings: for any renumbering of the notation's grammar with bindings renumbered alike, for other delimiters, for ignore lists in any order, and for any escape mapping, it yields the grammar the text denotes, escapes replaced by their mapped strings. An escape missing from the mapping, or a rule lacking a head or tail under the bindings, is an error with a nil grammar.",
 ["configurations", "inputs"], "every binding of a notation grammar, every text of it",
 "Tests use the built-in bindings only.",
 [FROM, SELF], [m("type-directed traversal", FROM+" lrTraverse, parseRule, parseSymbol"), m("escape replacement", FROM+" parseTerminalName, parseEscape")],
 ["BNFCSTtoASTBindings.ToAST"],
 "metamorphic monitor: renumbered and restyled notations against the known grammar",
 "Held on the bindings and texts generated.")

prop("C19", "Grammar text to parser, end to end, recognises what is written",
 "For every LL(1) grammar written as BNF text in any layout the notation allows, reading the text, generating the table and building the parser succeeds and the parser accepts exactly the sentences of the written grammar, with derivation trees of it and with names equal to the written rule names. For written grammars that are not LL(1) the pipeline ends in an error.",
 ["programs", "inputs"], "every grammar expressible in the notation, every layout, every input",
 "The stages are tested alone on samples; errors may hide in their composition.",
 [SELF, FROM, GEN, PARSER, "examples/json/main.go"],
 [m("front end", SELF+", "+FROM), m("generator", GEN), m("parser", PARSER)],
 ["Parse of the resulting parser"],
 "end-to-end reference-model monitor (Earley, tree validator) on rendered grammar texts",
 "Held on the texts and inputs generated.")

prop("C20", "Finished calls leave no memory, goroutines or files behind",
 "Once the results of calls are dropped, the library keeps nothing of them: over any number of calls of Parse, NewLL1Parser, FromGrammar, ToAST, String and Walk, each with arguments of its own (sources of every kind, grammars, tables, names, trees, bindings), succeeding, failing or cut short by a panicking reader, the memory in use, the number of goroutines and of files stay bounded, independently of the number of calls made before.",
 ["histories", "inputs"], "every sequence of calls with any arguments",
 "A test makes a few calls; what each call leaves behind shows only over tens of thousands of different ones, and changes no result.",
 [PARSER, GEN, FROM, AST, CST, BS],
 [m("state made for each call", PARSER+" Parse, realParser"), m("readers read in the calling goroutine", PARSER+" readSource"), m("generator state", GEN+" FromGrammar"), m("bindings by value", FROM+" ToAST")],
 ["live heap after collections and goroutine count between phases of calls"],
 "resource monitor: live heap and goroutines over tens of thousands of different calls of each kind",
 "Held on the call sequences run; growth below 4 bytes per call or 50 kB in all is not seen.")

prop("C21", "Printing, AST building and walking use linear resources",
 "String of a grammar, ToAST of a tree and Walk over a tree finish and return the right result for grammars and trees of every size and shape - many rules, alternatives or symbols, long names, terminals, escapes or runs of blanks, wide trees, trees as deep as they are large - and the memory they allocate and the time they take grow linearly with that size.",
 ["inputs"], "every grammar, tree and size",
 "Tests print and convert grammars of a few rules; quadratic growth or overflow shows only on large ones.",
 [AST, FROM, CST], [m("printing through one builder", AST+" Grammar.String, Rule.String"), m("one traversal for each level of the grammar", FROM+" ToAST, lrTraverse"), m("recursive walk", CST+" Walk")],
 ["bytes allocated and processor time of String, ToAST and Walk at two sizes"],
 "resource monitor: allocation and processor time at one size and at 16 times it, results against the reference reader",
 "Held on the shapes measured; constant factors below about 3 (memory) and 5 (time) are not seen.")

TEST_ONLY = sys.argv[1:]  # ids to claim; all when empty
ids = [p["id"] for p, _, _ in P]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, technique, note in P:
    if TEST_ONLY and p["id"] not in TEST_ONLY:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + technique,
        "level": "exploration", "level_note": note})
M = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: everything is observed at the exported API, the example programs and the race detector."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(ids), "properties,", len(checks), "claimed")
