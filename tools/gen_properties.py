#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one source)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],
                 "observe_at":list(observe),"hook_needed":hook}})
PEG="parse/rules.peg"; Z="parse/internal/parser/zparser.go"; GX="parse/internal/goexpr/parse.go"
p("C01","Parsing recovers exactly the rules that were written",
 "For every well-formed rules text, parsing yields one rule per written rule, in source order, and each rule holds exactly what was written: match, optional condition, optional block, result, and for every expression its binding, operator name with its alternative groups in order, type, AuxInt, Aux, arguments in order, ellipsis mark and trailing mark. Nothing is added, lost, duplicated, reordered or attached to the wrong expression, whatever the combination, nesting depth, number or spelling of the parts.",
 ["inputs"],"every well-formed rule text, any combination and size of its parts",
 "The tests compare a dozen hand-picked rules and count the rules of the Go 1.16 corpus; feature combinations, positions, sizes and spellings outside them are never compared with an expected tree.",
 [PEG,Z,"parse/parse.go","ast/ast.go"],[("grammar rules Rule, SExpr, Op, Operand, Expr","%s:20-175"%PEG),("semantic actions onFile1..onCall1","%s:1384-1645"%Z)],
 observe=["parse.String","parse.Reader","parse.File"])
p("C02","Text outside the rules language is rejected, never half-read",
 "Parsing any byte string terminates without panicking and returns either a file and no error or an error and no file. Text that is not a sequence of well-formed rules (a missing, extra, misplaced or illegal token, an unterminated bracket, a malformed embedded Go expression, invalid UTF-8) is always an error: the parser never skips, truncates or repairs it into some other rules.",
 ["inputs"],"every byte string",
 "No existing test feeds the parser a malformed input at all.",
 [PEG,Z,GX],[("PEG recogniser, EOF anchor","%s:20-30,195-203"%PEG),("error accumulation","%s:2114-2250"%Z)],observe=["parse.String"])
p("C03","Layout and comments never change the parsed rules",
 "The tree parsed from a rules text does not depend on layout: spaces, tabs, carriage returns, newlines and // comments (whatever a comment contains, also one that ends the file without a newline) may be inserted at, or replaced by one another between, any two parts of a rule that may be separated, including between the tokens of a condition, of an AuxInt or Aux expression and of a call, and the result is an identical tree, source positions included. (A comment inside an AuxInt or Aux must not contain the closing bracket, and one inside a Go expression only what Go allows in source text.)",
 ["inputs"],"every rule text x every assignment of layout to its gaps",
 "Tests use the corpus layout (one rule per line, single spaces) plus one condition split over two lines.",
 [PEG,Z,GX],[("skip rules _, __, Comment","%s:180-195"%PEG),("position clearing","%s:25-57"%GX),("condition and call text normalisation",PEG)],observe=["parse.String"])
p("C04","Printing a parsed file and parsing it again gives the same file",
 "For every text the parser accepts, printing the resulting file succeeds, the printed text is accepted, and parsing it gives a tree identical to the first one; printing that again gives the same bytes.",
 ["inputs"],"every accepted rules text",
 "TestRoundtrip covers only the Go 1.16 corpus, which contains for instance no nested or adjacent unary operators, no variadic call and no bit-and of a complement.",
 ["printer/printer.go",PEG,GX],[("printer","printer/printer.go:45-235"),("parser",PEG)],observe=["parse.String","printer.Bytes","printer.Fprint"])
p("C05","Printed form is the one canonical text of the tree",
 "Printing a file, rule, value or operator writes every part it contains exactly once, in canonical form: binding, operator, type, AuxInt, Aux, arguments, ellipsis, trailing mark in that order, single spaces between parts, ' && ' before a condition, ' => ' and an optional '@block ' before the result, and one newline-terminated line per rule in file order. The text depends only on the content of the tree: trees that are built by hand, parsed from any layout, or produced by alternation expansion print alike when they are equal.",
 ["inputs"],"every well-formed tree over the node kinds",
 "Golden files fix the output for corpus rules only; hand-built and expanded trees, and printing of single rules, values and operators are not tested.",
 ["printer/printer.go"],[("node dispatch and rule/sexpr/op printers","printer/printer.go:45-180")],observe=["printer.Bytes","printer.Fprint","printer.Print"])
p("C06","Embedded Go expressions keep their exact meaning",
 "For every Go expression built from identifiers, literals, parentheses, unary and binary operators, calls (also variadic), dereferences and selectors, used as condition, AuxInt or Aux and not containing what ends that part (=> in a condition, ] in an AuxInt, } in an Aux), the parsed expression is the tree the Go language gives to that text, without source positions; printing it yields text to which Go gives the same tree again. A Go expression that uses any other construct is refused with an error and is never approximated.",
 ["inputs"],"every Go expression over the supported constructs, and every unsupported construct, in the three positions",
 "Corpus expressions exercise few operator pairs and nestings; no test checks a refusal or a variadic call.",
 [GX,"printer/printer.go"],[("Parse/clearpos","%s:13-57"%GX),("goexpr printer","printer/printer.go:183-225")],observe=["parse.String","printer.Bytes"])
p("C07","Alternation expansion selects the i-th alternative everywhere",
 "Expanding alternates replaces a rule whose operators contain groups of n alternatives by exactly n rules, in order, in place: the i-th is the original rule with the i-th alternative chosen in every group at once (match and result, any nesting depth, several groups in one operator), and with everything else, including condition, block, bindings, types, AuxInt, Aux, argument order and marks, as in the original. Rules without groups are kept unchanged, and no group remains.",
 ["inputs"],"every file of rules with any placement and number of alternative groups",
 "Three positive cases; on the corpus only the number of rules is compared (not fewer).",
 ["pass/alt.go"],[("expandrule, expandsexpr, expandopcodeparts, idx","pass/alt.go:34-190")],observe=["pass.ExpandAlternates"])
p("C08","Incompatible alternatives are refused and leave the file untouched",
 "Expansion succeeds if and only if, in each rule, all groups with more than one alternative have the same number of alternatives, wherever they stand (same operator, nested arguments, match against result). Otherwise it returns an error without panicking and the file still holds exactly the rules it held before, also when earlier rules of the file were expandable.",
 ["inputs"],"every pair or set of group sizes at every pair of positions, at every rule of a file",
 "Five hand-picked mismatches; the state of the file after an error is never looked at.",
 ["pass/alt.go"],[("resolvecounts","pass/alt.go:172-186"),("assign only on success","pass/alt.go:10-17")],observe=["pass.ExpandAlternates"])
p("C09","Expansion is stable, rule-local and never edits the input rules",
 "Expanding an expanded file again changes nothing; expanding a file gives the concatenation of what expanding each of its rules alone gives, so neighbouring rules do not influence each other. The rule and expression trees that were in the file before are not modified, also when rules or subtrees are shared between files or occur twice in a file. Appending to a list of a rule of the result changes no other rule.",
 ["inputs","histories"],"every sequence of rules, with sharing of rules and subtrees, and every sequence of expansions over files that share them",
 "No test expands twice, shares trees, or inspects the original trees after expansion.",
 ["pass/alt.go"],[("clone on expansion","pass/alt.go:95-118"),("append per rule","pass/alt.go:19-31")],observe=["pass.ExpandAlternates"])
p("C10","Rule feature predicates are exact",
 "Each predicate (has binding, type, Aux, AuxInt, ellipsis, trailing) is true for a rule if and only if some expression anywhere in its match or its result, at any depth and any argument position, carries that feature. Presence of the other features, of a condition, of a block, of alternatives or of call arguments has no influence.",
 ["inputs"],"every rule x every predicate",
 "One positive example per predicate (none for AuxInt), and no negative example.",
 ["rules/rules.go","ast/walk.go"],[("HasX","rules/rules.go:5-45"),("Contains","ast/walk.go:66-76")],observe=["rules.HasBinding","rules.HasType","rules.HasAux","rules.HasAuxInt","rules.HasEllipsis","rules.HasTrailing"])
p("C11","Tree traversal visits each node once, in order, and honours pruning",
 "Walking or inspecting a tree visits the node itself and then, in depth-first source order, exactly once each: the rules of a file; match, condition (if any) and result of a rule; operator, AuxInt, Aux (if any) and arguments of an expression; the parts of a multi-part operator; while names, alternative groups, variables and Go expressions are leaves. Children are visited with the visitor returned for their parent and are skipped exactly when that visitor is nil (or the inspecting function returned false); containment is true exactly when some visited node satisfies the predicate.",
 ["inputs","programs"],"every tree x every visitor behaviour (which nodes are pruned, which visitor is returned)",
 "Traversal has no direct test; it is only run through one positive example per predicate.",
 ["ast/walk.go"],[("Walk, Inspect, Contains","ast/walk.go:15-76")],observe=["ast.Walk","ast.Inspect","ast.Contains"])
p("C12","Generated SMT query states the rule's equivalence, nothing else",
 "For every rule for which a query is generated, the asserted formula is true under an assignment of the rule's variables exactly when the two sides of the rule, read with the meaning of their Go SSA operators at their width, have different values; so it is unsatisfiable exactly when the rule is correct. Equal names denote equal values, and each placeholder denotes an arbitrary value of its own.",
 ["inputs"],"every rule over the supported operators (all widths), every naming of its leaves, every assignment",
 "The generator has no test at all.",
 ["smt2/generate.go","smt2/ops.go"],[("operation table","smt2/ops.go:25-120"),("eval, sexpr, variable","smt2/generate.go:80-215")],observe=["smt2.Generate"])
p("C13","Generated SMT query is a complete, well-formed SMT-LIB script",
 "Every generated script is a valid SMT-LIB 2.6 QF_BV script: header, rule shown only in comment lines, each variable or placeholder of the rule declared exactly once and before use, with the sort its operand position requires and under a symbol that is neither reserved nor defined by the theories, one well-sorted assertion, one check-sat and a final exit, and no other commands. Every well-typed rule over the supported operators and without unsupported features does get a script.",
 ["inputs"],"every supported rule, every variable name the language allows",
 "The generator has no test at all.",
 ["smt2/generate.go","smt2/ops.go"],[("variable declaration and sorts","smt2/generate.go:92-155"),("signatures","smt2/ops.go:130-230")],observe=["smt2.Generate"])
p("C14","SMT generation refuses whatever it does not model",
 "Generation returns an error and no script whenever the rule has a condition or block, or any expression at any position of match or result has a binding, type, AuxInt, Aux, ellipsis, trailing mark, unexpanded alternatives, an unknown operator, a wrong number of arguments, a Go call argument, or operands or sides of inconsistent types, or no type can be deduced. It never ignores the offending part and never panics.",
 ["inputs"],"every rule with at least one unsupported element at any position",
 "The generator has no test at all.",
 ["smt2/generate.go","smt2/ops.go"],[("unsupported feature checks","smt2/generate.go:155-190"),("arity/type checks","smt2/generate.go:190-205, smt2/ops.go:135-215")],observe=["smt2.Generate"])
p("C15","The command writes exactly one query per supported simple rule",
 "Running the command over any list of rules files writes, in the output directory, for the i-th rule (from 0) of the in-order list of expanded simple rules (no condition, block, binding, type, Aux, AuxInt, ellipsis or trailing mark), the file named by i in at least four digits with exactly the query generated for that rule, and no file for rules that have no query. It exits 0 then; if any input cannot be read, parsed or expanded it exits non-zero and writes nothing, and a failing write makes it exit non-zero.",
 ["inputs","configurations","fault_sequences"],"every list of input files (valid, empty, malformed, missing, incompatible), every output directory state",
 "The command has no test.",
 ["cmd/ssarules/main.go"],[("load: filter and expand","cmd/ssarules/main.go:62-102"),("run: numbering and writing","cmd/ssarules/main.go:30-60")],observe=["process exit status","files in -outdir"])
p("C16","Parsing does not depend on how its input is delivered",
 "Parsing from a string, a file or a reader of the same bytes gives the same result, for every way the reader splits the bytes into reads (short reads, empty reads, data together with end-of-file) and every source name. If the reader reports an error at any point, or the file cannot be read, parsing returns an error and no file, also when the bytes delivered before form complete rules. Parsing a file leaves it closed and unchanged.",
 ["inputs","fault_sequences"],"every split of the input into reads x a read error at every point",
 "Tests use one in-memory reader and existing files only; no read ever fails.",
 ["parse/parse.go",Z],[("File, Reader, String, cast","parse/parse.go:13-35"),("ParseReader/ParseFile","%s:1738-1766"%Z)],observe=["parse.Reader","parse.File","parse.String"])
p("C17","A failing writer is always reported and never hides lost output",
 "For every tree, if the destination fails at any write (fully or after accepting part of the bytes), printing or dumping to it returns that error; what the destination accepted is a prefix of the complete output, and printing attempts no further write after the first failure. If no write fails, the destination received the complete output and no error is returned.",
 ["inputs","fault_sequences"],"every tree x a failure at every write, with every number of bytes accepted",
 "Tests print to memory buffers, which never fail.",
 ["printer/printer.go","ast/ast.go"],[("printf/seterror error latch","printer/printer.go:225-237"),("Fprint","ast/ast.go:88-108")],observe=["printer.Fprint","ast.Fprint"])
p("C18","Results depend only on the arguments, and arguments are not changed",
 "Parsing, printing, dumping, traversing, testing predicates, expanding and generating SMT give, in every sequence of earlier calls on the same or other inputs (also failing ones), the result the call gives in a fresh process. None of these calls changes a tree it is given, except that expansion replaces the rule list of the file it is asked to expand; trees and texts returned earlier stay as they were.",
 ["histories"],"every sequence of calls, on shared and distinct inputs",
 "Each test runs one call chain on fresh data, and none compares a tree before and after a read-only call.",
 ["smt2/ops.go",Z,"printer/printer.go","rules/rules.go","ast/walk.go","pass/alt.go"],[("no mutable package state","smt2/ops.go:24, %s:28"%Z),("per-call generator/printer/parser objects","smt2/generate.go:16-28")],
 state=[("operations","opcode table shared by all generations","smt2/ops.go"),("g","grammar shared by all parses",Z)],observe=["all exported functions"])
p("C19","Independent calls may run concurrently",
 "Any two or three of the exported operations (parsing, printing, dumping, traversing, predicates, SMT generation, expansion of different files), running concurrently on distinct inputs or reading the same tree, each return what they return when run alone, under every interleaving, without deadlock and without data race.",
 ["schedules"],"every interleaving of the statements of 2-3 concurrent calls",
 "No test runs two calls concurrently.",
 ["smt2/ops.go",Z,"printer/printer.go","pass/alt.go","ast/walk.go"],[("no mutable package state","smt2/ops.go:24, %s:28"%Z)],observe=["all exported functions"],
 hook="none in /repo: scheduling points are inserted in a build overlay")
p("C20","Syntax errors point at the offending place",
 "When text is rejected because some character cannot continue any well-formed text, the reported error names the source and gives the line (from 1), the column (from 1, in characters; an offending line break is column 0 of the line it begins) and the byte offset of that character, or of the beginning of the broken token it is in (such as => or ...), or of the end of input if the text merely ends too early; when an embedded Go expression is malformed or unsupported, the error gives the position where that expression's enclosing part starts.",
 ["inputs"],"every rule text with an illegal character, or an end of input, at every token boundary",
 "No test looks at an error of the parser.",
 [Z,"parse/parse.go"],[("failAt, addErrAt, read","%s:2118-2180"%Z)],observe=["parse.String","parse.Reader"])
p("C21","Dumping a tree identifies it",
 "The debugging dump of a node succeeds for every tree. Two trees of the same node kind have the same dump if and only if they have the same content (trees in which no node object occurs twice, type names without line breaks, empty lists represented alike). Dumping to a string, to a writer and to standard output gives the same text.",
 ["inputs"],"every pair of trees of one kind",
 "Dumps are only printed when a test fails; their content is never checked.",
 ["ast/ast.go"],[("Dump, Fprint, Print","ast/ast.go:88-108")],observe=["ast.Dump","ast.Fprint","ast.Print"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
