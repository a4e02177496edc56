package props

import (
	"bytes"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"os"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

func init() {
	All["C04"] = &Prop{
		Level:  "model_checking",
		States: "distinct accepted texts that were parsed, printed, parsed and printed again",
		Bounds: "features: every combination of at most 3 (thorough 4) feature deviations from small skeletons, 2 (3) from larger ones; expressions: every Go expression with at most 3 (4) operators as condition, AuxInt, Aux; every accepted text of the token, edit, byte, Go-token and trailing explorations of C02 (so also odd but accepted ones); mixed: lists of 600 (4200) mixed elements as in C01; sizes, bulk, spellings, name pairs, twins, unicode, sized-features, characters and the corpus as in C01 and C03",
		Assume: []string{"equality of trees is structural equality of all fields, positions included (nil and empty slices alike)"},
		Subs: func(tier string) []*explore.Sub {
			subs := []*explore.Sub{
				{Name: "features", Bound: pick(tier, 3, 4), Run: func(x *explore.X) {
					checkRoundtrip(x, model.Text([]*model.Rule{gen.Rule(x, small[x.Free(len(small))], gen.DefaultOpts())}))
				}, Share: 4},
				{Name: "features-full", Bound: pick(tier, 2, 3), Run: func(x *explore.X) {
					checkRoundtrip(x, model.Text([]*model.Rule{gen.Rule(x, large[x.Free(len(large))], gen.DefaultOpts())}))
				}, Share: 2},
				{Name: "expressions", Bound: pick(tier, 3, 4), Share: 4, Run: func(x *explore.X) {
					e, _ := goExpr(x, tier)
					checkRoundtrip(x, model.Text([]*model.Rule{inPosition(e, x.Free(3))}))
				}},
				{Name: "sizes", Share: 4, Run: func(x *explore.X) {
					rs, _ := sizedRules(x, pick(tier, 40, 300), pick(tier, 5000, 100000))
					if rs != nil {
						checkRoundtrip(x, model.Text(rs))
					}
				}},
				mixedSub(pick(tier, 600, 4200), ruleKinds, func(x *explore.X, rs []*model.Rule) { checkRoundtrip(x, model.Text(rs)) }),
				bulkSub(tier, func(x *explore.X, rs []*model.Rule) { checkRoundtrip(x, model.Text(rs)) }),
				{Name: "spelling", Run: func(x *explore.X) {
					if r, _ := spelled(x); r != nil {
						checkRoundtrip(x, model.Text([]*model.Rule{r}))
					}
				}},
				{Name: "files", Run: func(x *explore.X) {
					var rs []*model.Rule
					for n := x.Free(4); n > 0; n-- {
						ks := ruleKinds(n)
						rs = append(rs, ks[x.Free(len(ks))])
					}
					checkRoundtrip(x, model.Text(rs))
				}},
				{Name: "corpus", Run: func(x *explore.X) {
					fs, ls := corpora(), corpusLines()
					if i := x.Free(len(fs) + 1); i < len(fs) {
						checkRoundtrip(x, readFile(fs[i]))
					} else {
						checkRoundtrip(x, ls[x.Free(len(ls))])
					}
				}},
			}
			subs = append(subs, pairSubs(func(x *explore.X, rs []*model.Rule) { checkRoundtrip(x, model.Text(rs)) })...)
			for _, s := range garbageSubs(tier, checkRoundtrip) {
				switch s.Name {
				case "edits", "bytes", "runes", "constants", "go", "continuations", "trailing":
					if tier == "thorough" || s.Name != "trailing" && s.Name != "continuations" {
						subs = append(subs, s)
					}
				}
			}
			return subs
		},
	}
	All["C05"] = &Prop{
		Level:  "model_checking",
		States: "distinct trees whose printed text was compared with the reference's canonical text",
		Bounds: "rules: every tree with at most 3 (thorough 4) feature deviations from small skeletons, 2 (3) from larger ones, built by hand, and, where the bound is one less, also parsed and expanded; nodes: every value and operator in them printed alone; expressions: every Go expression with at most 3 (4) operators, built by hand and by Go's parser; files of up to 4 of 14 rule kinds; shared: 7452 rules in whose trees all equal parts are one object; sizes, bulk, mixed (2100; 9000), spellings, name pairs, twins, unicode and sized-features as in C01; marks: every two and three of 36 ASCII characters in a type and a block; groups of one: operators of up to 3 parts with groups of 1 to 3 alternatives; standard output for a sample of node kinds",
		Assume: []string{"the canonical text of Go expressions (spaces only around operators of lower precedence than +, and where two tokens would run together) is the reference's"},
		Subs: func(tier string) []*explore.Sub {
			return append(pairSubs(checkPrintFile), []*explore.Sub{
				{Name: "rules", Bound: pick(tier, 3, 4), Share: 4, Run: func(x *explore.X) {
					checkPrint(x, gen.Rule(x, small[x.Free(len(small))], gen.DefaultOpts()), false)
				}},
				{Name: "rules-full", Bound: pick(tier, 2, 3), Share: 3, Run: func(x *explore.X) {
					checkPrint(x, gen.Rule(x, large[x.Free(len(large))], gen.DefaultOpts()), false)
				}},
				{Name: "sources", Bound: pick(tier, 2, 3), Share: 2, Run: func(x *explore.X) {
					checkPrint(x, gen.Rule(x, gen.Skeletons[x.Free(len(gen.Skeletons))], gen.DefaultOpts()), true)
				}},
				{Name: "expressions", Bound: pick(tier, 3, 4), Share: 3, Run: func(x *explore.X) {
					e, _ := goExpr(x, tier)
					pos := x.Free(3)
					r := inPosition(e, pos)
					checkPrint(x, r, false)
					// The same with the positions and objects of a parsed expression.
					a := r.ToAST()
					for _, text := range []string{e.Print(), "\n( " + e.Print() + " ) "} {
						g, err := goparser.ParseExpr(text)
						if err != nil {
							x.Fail("an expression of the reference is not one: %v", err)
						}
						if p, ok := g.(*goast.ParenExpr); ok && strings.HasPrefix(text, "\n") {
							g = p.X
						}
						exprAt(&ast.File{Rules: []*ast.Rule{a}}, pos).Expr = g
						if model.CanonAST(a) != r.Canon() {
							continue // the text of a negative number, for example
						}
						x.Validated(1)
						same(x, "printed rule with an expression of Go's parser", printed(x, a, "a rule"), r.Print())
					}
				}},
				{Name: "files", Run: c05Files},
				sharedSub(sharedRules, func(x *explore.X, r *model.Rule) {
					checkPrint(x, r, false)
					checkPrintFile(x, []*model.Rule{r, r})
				}),
				{Name: "sizes", Run: func(x *explore.X) {
					rs, name := sizedRules(x, pick(tier, 70, 300), pick(tier, 20000, 100000))
					if rs == nil {
						return
					}
					x.Describe(func() string { return name })
					x.Key(name)
					got, err := printer.Bytes(model.FileAST(rs))
					if err != nil {
						x.Fail("printing fails: %v", err)
					}
					same(x, "printed file", string(got), model.PrintFile(rs))
				}},
				mixedSub(pick(tier, 2100, 9000), ruleKinds, func(x *explore.X, rs []*model.Rule) {
					x.Key(model.CanonFile(rs))
					same(x, "printed file", printed(x, model.FileAST(rs), "a file"), model.PrintFile(rs))
				}),
				bulkSub(tier, func(x *explore.X, rs []*model.Rule) {
					same(x, "printed file", printed(x, model.FileAST(rs), "a file"), model.PrintFile(rs))
				}),
				{Name: "spelling", Run: func(x *explore.X) {
					if r, _ := spelled(x); r != nil {
						checkPrint(x, r, true)
					}
				}},
				{Name: "characters", Run: func(x *explore.X) {
					c := string(sampleRunes[x.Free(len(sampleRunes))])
					pat := []string{c, "a" + c, c + "b", "%" + c, c + "%d"}[x.Free(5)]
					m := sx("A", model.Var("x"))
					r := rule(m, sx("B"))
					switch x.Free(3) {
					case 0:
						m.Type = pat
					case 1:
						r.Block = pat
					case 2:
						m.Aux = model.Lit("STRING", "`"+pat+"`")
					}
					checkPrint(x, r, false)
				}},
				{Name: "marks", Run: func(x *explore.X) {
					n := len(asciiMarks)
					pat := string(asciiMarks[x.Free(n)]) + string(asciiMarks[x.Free(n)])
					if k := x.Free(n + 2); k < n {
						pat += string(asciiMarks[k])
					} else if k == n {
						pat += "b" + pat
					}
					m := sx("A", model.Var("x"))
					m.Type = pat
					r := rule(m, sx("B"))
					r.Block = "a" + pat
					checkPrint(x, r, false)
				}},
				{Name: "groups of one", Run: func(x *explore.X) {
					n := 1 + x.Free(3)
					var op ast.OpcodeParts
					want := ""
					for i := 0; i < n; i++ {
						switch k := x.Free(4); k {
						case 0:
							op = append(op, ast.Opcode("A"))
							want += "A"
						default:
							g := ast.OpcodeAlt{"b", "c", "b"}[:k]
							op = append(op, g)
							want += "(" + []string{"b", "b|c", "b|c|b"}[k-1] + ")"
						}
					}
					x.Describe(func() string { return want })
					x.Key(want)
					same(x, "printed operator", printed(x, op, "an operator"), want)
					r := &ast.Rule{Match: &ast.SExpr{Op: op, Args: []ast.Value{ast.Variable("x")}}, Result: &ast.SExpr{Op: op}}
					same(x, "printed rule", printed(x, r, "a rule"), "("+want+" x) => ("+want+")")
				}},
				{Name: "stdout", Serial: true, Run: c05Stdout},
			}...)
		},
	}
}

func checkRoundtrip(x *explore.X, text string) {
	x.Describe(func() string { return clip(text) })
	f, err := parse.String(text)
	if err != nil {
		x.Outcome = "not accepted"
		return
	}
	x.Key(text)
	b, err := printer.Bytes(f)
	if err != nil {
		x.Fail("printing what %q parses to fails: %v", clip(text), err)
	}
	g, err := parse.String(string(b))
	if err != nil {
		x.Fail("printed text is rejected: %v\n text    %q\n printed %q", err, clip(text), clip(string(b)))
	}
	if model.CanonAST(f) != model.CanonAST(g) {
		same(x, fmt.Sprintf("tree of the printed text %q of %q", clip(string(b)), clip(text)), model.CanonAST(g), model.CanonAST(f))
	}
	same(x, fmt.Sprintf("complete tree of the printed text %q of %q", clip(string(b)), clip(text)), model.Full(g), model.Full(f))
	c, err := printer.Bytes(g)
	if err != nil {
		x.Fail("printing again fails: %v", err)
	}
	if !bytes.Equal(b, c) {
		x.Fail("printing again gives %q, not %q", clip(string(c)), clip(string(b)))
	}
	x.Outcome = "round trip"
}

// checkPrintFile compares what is printed for a file with the reference.
func checkPrintFile(x *explore.X, rs []*model.Rule) {
	want := model.PrintFile(rs)
	x.Describe(func() string { return want })
	x.Key(want)
	same(x, "printed file", printed(x, model.FileAST(rs), "a file"), want)
}

func printed(x *explore.X, n ast.Node, what string) string {
	b, err := printer.Bytes(n)
	if err != nil {
		x.Fail("printing %s fails: %v", what, err)
	}
	return string(b)
}

// checkPrint compares what is printed for a rule and its parts with the reference.
func checkPrint(x *explore.X, r *model.Rule, sources bool) {
	want := r.Print()
	x.Describe(func() string { return want })
	x.Key(r.Canon())
	a := r.ToAST()
	same(x, "printed rule", printed(x, a, "a rule"), want)
	same(x, "printed file", printed(x, &ast.File{Rules: []*ast.Rule{a, a}}, "a file"), want+"\n"+want+"\n")
	var visit func(v model.Value)
	n := 2
	visit = func(v model.Value) {
		n++
		same(x, "printed value", printed(x, model.ValueAST(v), "a value"), model.PrintValue(v))
		if s, ok := v.(*model.S); ok {
			same(x, "printed operator", printed(x, model.OpAST(s.Op), "an operator"), model.PrintOp(s.Op))
			for _, b := range s.Args {
				visit(b)
			}
		}
	}
	visit(r.Match)
	visit(r.Result)
	x.Validated(n)
	if !sources {
		return
	}
	// Parsed from other layouts.
	items := model.Items([]*model.Rule{r})
	for _, lay := range []string{"", "\n", " // c\n"} {
		var b strings.Builder
		for _, it := range items {
			switch {
			case !it.IsGap:
				b.WriteString(it.Text)
			case fits(it, lay) && !(it.Region == model.InCond && strings.Contains(lay, "//")):
				b.WriteString(lay)
			default:
				b.WriteString(it.Def)
			}
		}
		f, err := parse.String(b.String())
		if err != nil || len(f.Rules) != 1 {
			continue // C01 and C03
		}
		if model.CanonAST(f.Rules[0]) != r.Canon() {
			continue
		}
		x.Validated(1)
		same(x, "printed parsed rule", printed(x, f.Rules[0], "a parsed rule"), want)
	}
	// Produced by expansion.
	es, ok := model.Expand(r)
	if !ok {
		return
	}
	f := &ast.File{Rules: []*ast.Rule{r.ToAST()}}
	if err := pass.ExpandAlternates(f); err != nil || model.CanonAST(f) != model.CanonFile(es) {
		return // C07
	}
	x.Validated(1)
	same(x, "printed expanded rules", printed(x, f, "expanded rules"), model.PrintFile(es))
}

func c05Files(x *explore.X) {
	var rs []*model.Rule
	for n := x.Free(5); n > 0; n-- {
		ks := ruleKinds(n)
		if n > 3 {
			ks = ks[:5]
		}
		rs = append(rs, ks[x.Free(len(ks))])
	}
	want := model.PrintFile(rs)
	x.Describe(func() string { return want })
	x.Key(want)
	x.Outcome = fmt.Sprintf("%d rules", len(rs))
	a := model.FileAST(rs)
	same(x, "printed file", printed(x, a, "a file"), want)
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, a); err != nil {
		x.Fail("Fprint fails: %v", err)
	}
	same(x, "file printed to a writer", buf.String(), want)
}

// captureStdout runs f with standard output redirected to a file.
func captureStdout(x *explore.X, f func() error) (string, error) {
	t, err := os.CreateTemp("", "mcstdout")
	if err != nil {
		panic(err)
	}
	os.Remove(t.Name())
	defer t.Close()
	old := os.Stdout
	os.Stdout = t
	defer func() { os.Stdout = old }()
	rerr := f()
	os.Stdout = old
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", t.Fd()))
	if err != nil {
		panic(err)
	}
	return string(b), rerr
}

func c05Stdout(x *explore.X) {
	ks := ruleKinds(1)
	i := x.Free(len(ks))
	r := ks[i]
	var n ast.Node
	var want string
	switch x.Free(4) {
	case 0:
		n, want = r.ToAST(), r.Print()
	case 1:
		n, want = model.FileAST(ks[:i+1]), model.PrintFile(ks[:i+1])
	case 2:
		n, want = model.ValueAST(r.Match), model.PrintValue(r.Match)
	case 3:
		s, ok := r.Match.(*model.S)
		if !ok {
			return
		}
		n, want = model.OpAST(s.Op), model.PrintOp(s.Op)
	}
	x.Describe(func() string { return want })
	x.Key(want)
	got, err := captureStdout(x, func() error { return printer.Print(n) })
	if err != nil {
		x.Fail("Print fails: %v", err)
	}
	same(x, "printed to standard output", got, want)
}
