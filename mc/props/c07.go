package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

func init() {
	All["C07"] = &Prop{
		Level:  "model_checking",
		States: "distinct expandable files whose expansion was compared with the reference's",
		Bounds: expandBounds + "; only the files whose groups are compatible count",
		Assume: []string{"the reference model's expansion defines the i-th alternative"},
		Subs:   func(tier string) []*explore.Sub { return expandSubs(tier, expandContent) },
	}
	All["C08"] = &Prop{
		Level:  "model_checking",
		States: "distinct files for which the outcome of expansion (success or refusal with the file left alone) was compared with the reference's",
		Bounds: expandBounds + "; mixes: files of up to 4 rules with an unexpandable one at every position; degenerate: hand-built operators that no text can produce (no panic only)",
		Assume: []string{"files that hold operators which no rules text can produce (no parts, groups without alternatives) may be refused"},
		Subs: func(tier string) []*explore.Sub {
			return append(expandSubs(tier, expandOutcome),
				&explore.Sub{Name: "mixes", Run: func(x *explore.X) { c08Mixes(x, pick(tier, 4, 5)) }},
				&explore.Sub{Name: "degenerate", Run: c08Degenerate})
		},
	}
	All["C09"] = &Prop{
		Level:  "model_checking",
		States: "distinct files and sequences of expansions over files that share rules, subtrees or storage",
		Bounds: expandBounds + "; sharing: every sequence of up to 4 (thorough 5) expansions over 3 files that share rules, rule lists (also a common backing array) and subtrees, for every choice of the rules from 9 kinds",
		Assume: []string{"trees are compared by a serialisation of all their fields, and rule lists element by element"},
		Subs: func(tier string) []*explore.Sub {
			return append(expandSubs(tier, expandStable),
				&explore.Sub{Name: "sharing", Run: func(x *explore.X) { c09Sharing(x, pick(tier, 4, 5)) }, Share: 3},
				&explore.Sub{Name: "subtrees", Run: c09Subtrees})
		},
	}
}

const expandBounds = "features: every combination of at most 3 (thorough 4) feature deviations from small skeletons, 2 (3) from larger ones, with 9 operator shapes; groups: every assignment of 12 operator shapes to the at most 4 expressions of 8 skeletons; small-operators: every operator of up to 4 parts, 2 literals and all groups of 2 or 3 (thorough 4) alternatives over 2 letters, on one side, on both, or with another one of up to 2 parts; mixed: files of 1100 (4200) rules, and rules with as many arguments, alternatives and function arguments, or 600 levels, in which over all shifts every two of 13 (7, 4, 6) kinds are neighbours at every place; expressions: every Go expression with at most 3 (4) non-identifier nodes, over 4 binary and 2 unary operators, as condition, AuxInt, Aux or call; files: every sequence of up to 3 (4) of 16 rule kinds; sizes: 9 dimensions (alternatives, groups, depth, arguments, rules, ...) at all small sizes and sizes around powers of 2, 10 and the constants of the sources; bulk: 9 of them with 65537 (thorough 131073) alternatives, arguments, rules, or levels; shared: 7452 rules in whose trees all equal parts are one object, alone and twice in a file; slots: blocks, types and raw strings of up to 4 (5) letters of a|()8, and 33 that look like groups, beside groups of 2 and 3; spelling: every dictionary word as alternative or literal part; pairs, twins, unicode, sized-features: as in C01; corpus: every rule and file of the repository"

type expandCheck func(x *explore.X, rs []*model.Rule, f *ast.File)

func expandSubs(tier string, check expandCheck) []*explore.Sub {
	run := func(x *explore.X, rs []*model.Rule, parsed bool) {
		text := ""
		x.Describe(func() string {
			if text == "" {
				text = model.PrintFile(rs)
			}
			return clip(text)
		})
		x.Key(model.CanonFile(rs))
		var f *ast.File
		if parsed {
			text = model.Text(rs)
			var err error
			f, err = parse.String(text)
			if err != nil || model.CanonAST(f) != model.CanonFile(rs) {
				x.Outcome = "not parsed" // C01
				return
			}
		} else {
			f = model.FileAST(rs)
		}
		check(x, rs, f)
	}
	return append(pairSubs(func(x *explore.X, rs []*model.Rule) { run(x, rs, false) }), []*explore.Sub{
		{Name: "features", Bound: pick(tier, 3, 4), Share: 4, Run: func(x *explore.X) {
			run(x, []*model.Rule{gen.Rule(x, small[x.Free(len(small))], gen.DefaultOpts())}, false)
		}},
		{Name: "features-full", Bound: pick(tier, 2, 3), Share: 3, Run: func(x *explore.X) {
			run(x, []*model.Rule{gen.Rule(x, large[x.Free(len(large))], gen.DefaultOpts())}, true)
		}},
		{Name: "groups", Share: 3, Run: func(x *explore.X) {
			run(x, []*model.Rule{groupsRule(x, tier)}, x.Free(2) == 1)
		}},
		{Name: "files", Share: 2, Run: func(x *explore.X) {
			var rs []*model.Rule
			for n, i := x.Free(pick(tier, 4, 5)), 0; i < n; i++ {
				ks := expandKinds(i)
				rs = append(rs, ks[x.Free(len(ks))])
			}
			run(x, rs, x.Free(2) == 1)
		}},
		{Name: "sizes", Share: 2, Run: func(x *explore.X) {
			d := expandDims[x.Free(len(expandDims))]
			ns := dict().Sizes(pick(tier, 40, 200), min(d.max, pick(tier, 3000, 20000)))
			n := ns[x.Free(len(ns))]
			rs, ok := d.make(n)
			if !ok {
				return
			}
			run(x, rs, false)
			x.Describe(func() string { return fmt.Sprintf("%s=%d", d.name, n) })
		}},
		{Name: "bulk", Split: 2, Hang: 100 * time.Second, Run: func(x *explore.X) {
			// Quadratic ones are left at the sizes above.
			var ds []dimension
			for _, d := range expandDims {
				if d.name != "groups" {
					ds = append(ds, d)
				}
			}
			rs, _ := bulkRules(x, tier, ds)
			x.Apart(func() { check(x, rs, model.FileAST(rs)) })
		}},
		mixedSub(pick(tier, 1100, 4200), goodKinds, func(x *explore.X, rs []*model.Rule) { check(x, rs, model.FileAST(rs)) }),
		sharedSub(sharedRules, func(x *explore.X, r *model.Rule) {
			if x.Free(2) == 1 {
				run(x, []*model.Rule{r, r}, false)
			} else {
				run(x, []*model.Rule{r}, false)
			}
		}),
		{Name: "slots", Run: func(x *explore.X) {
			run(x, []*model.Rule{slotRule(x, pick(tier, 4, 5))}, x.Free(2) == 1)
		}},
		{Name: "small-operators", Share: 2, Run: func(x *explore.X) {
			if r := smallOperators(x, tier); r != nil {
				run(x, []*model.Rule{r}, x.Free(2) == 1)
			}
		}},
		{Name: "expressions", Bound: pick(tier, 3, 4), Share: 2, Run: func(x *explore.X) {
			run(x, []*model.Rule{withExpr(x)}, x.Free(2) == 1)
		}},
		{Name: "spelling", Run: func(x *explore.X) {
			ws := dict().Idents()
			w := ws[x.Free(len(ws))]
			m := &model.S{Args: []model.Value{model.Var("x")}}
			r := &model.S{Op: []model.Part{{Alt: []string{"b", w}}}}
			switch x.Free(5) {
			case 0:
				m.Op = []model.Part{{Lit: "A"}, {Alt: []string{w, "b"}}}
			case 1:
				m.Op = []model.Part{{Alt: []string{"c", w}}, {Lit: "z"}}
			case 2:
				m.Op = []model.Part{{Lit: w}, {Alt: []string{"a", "b"}}, {Lit: w}}
			case 3:
				m.Op = []model.Part{{Alt: []string{w, w}}}
			case 4:
				m.Op = []model.Part{{Lit: w}, {Alt: []string{"a", "b", w}}}
			}
			run(x, []*model.Rule{rule(m, r)}, true)
		}},
		{Name: "corpus", Run: func(x *explore.X) {
			fs, ls := corpora(), corpusLines()
			var text string
			if i := x.Free(len(fs) + 1); i < len(fs) {
				text = readFile(fs[i])
			} else {
				text = ls[x.Free(len(ls))]
			}
			x.Describe(func() string { return clip(text) })
			f, err := parse.String(text)
			if err != nil {
				return
			}
			rs := model.FromFile(f)
			x.Key(model.CanonFile(rs))
			check(x, rs, f)
		}},
	}...)
}

// withExpr is a rule with groups that has a Go expression somewhere.
func withExpr(x *explore.X) *model.Rule {
	e := fewExpr(x, 4)
	g := func(args ...model.Value) *model.S {
		return &model.S{Op: []model.Part{{Lit: "A"}, {Alt: []string{"8", "16"}}}, Args: args}
	}
	v := model.Var("x")
	pos := x.Free(6)
	m, q := g(v), g(v)
	if pos == 5 {
		if e.Kind != model.KCall || e.X[0].Kind != model.KIdent {
			e = model.Fn(model.Id("f"), e)
		}
		m, q = g(v, &model.Call{X: e}), g(&model.Call{X: e}, g())
	}
	r := rule(m, q)
	switch pos {
	case 0:
		r.Cond = e
	case 1:
		m.AuxInt = e
	case 2:
		m.Aux = e
	case 3:
		r.Result = g(&model.S{Op: model.Op("C"), AuxInt: e, Aux: e})
	case 4: // without groups
		r = &model.Rule{Match: sx("A", v), Cond: e, Result: v}
	}
	return r
}

// groupsRule assigns operator shapes to the expressions of a skeleton.
func groupsRule(x *explore.X, tier string) *model.Rule {
	l := func(s string) model.Part { return model.Part{Lit: s} }
	a := func(s ...string) model.Part { return model.Part{Alt: s} }
	n := 0
	op := func() []model.Part {
		s := string(rune('A' + n))
		n++
		shapes := [][]model.Part{
			{l(s)},
			{l(s), a("1", "2")},
			{a("p"+s, "q"+s), l("z")},
			{a("1", "2"), l(s), a("3", "4")},
			{l(s), a("1", "2", "3")},
			{a("1", "2", "3"), a("4", "5", "6")},
			{a("1", "2"), l(s), a("3", "4", "5")},
			{l(s), a("1", "2", "3", "4")},
			{a(s, s)},
			{a("1", "2", "3"), l(s), a("4", "5")},
			{l(s), a("1", "1", "1", "1")},
			{l(s), a("1", "2"), a("3", "4"), l("m"), a("5", "6", "7")},
		}
		return shapes[x.Free(len(shapes))]
	}
	s := func(args ...model.Value) *model.S { return &model.S{Op: op(), Args: args} }
	v := model.Var("x")
	call := &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}
	switch x.Free(8) {
	case 0:
		return rule(s(), s())
	case 1:
		return rule(s(v, s(v)), s(v))
	case 2:
		return rule(s(v), s(s(v), v))
	case 3:
		return rule(s(s(), s()), s(v))
	case 4:
		return rule(s(v, call), v)
	case 5:
		return rule(v, s(s(s())))
	case 6:
		m := s(s(v), v)
		m.Binding, m.Type, m.AuxInt, m.Ellipsis = "b", "t", model.Id("c"), true
		q := s(v, s())
		q.Aux, q.Trailing = model.Id("s"), true
		r := rule(m, q)
		r.Cond, r.Block = model.Bin(model.Id("c"), ">", model.Int("1")), "b"
		return r
	default:
		return rule(s(s(v, s())), call)
	}
}

// expandKinds are rule kinds for expansion, named by i.
func expandKinds(i int) []*model.Rule {
	p := fmt.Sprintf("R%d", i)
	v := model.Value(model.Var("x"))
	op := func(s string) []model.Part {
		var ps []model.Part
		for s != "" {
			if s[0] == '(' {
				e := strings.Index(s, ")")
				ps = append(ps, model.Part{Alt: strings.Split(s[1:e], "|")})
				s = s[e+1:]
				continue
			}
			e := strings.Index(s, "(")
			if e < 0 {
				e = len(s)
			}
			ps = append(ps, model.Part{Lit: s[:e]})
			s = s[e:]
		}
		return ps
	}
	s := func(o string, args ...model.Value) *model.S { return &model.S{Op: op(o), Args: args} }
	full := func() *model.Rule {
		m := s(p+"(8|16)", s("(B|C)", v), v)
		m.Type, m.AuxInt, m.Aux, m.Binding = "t", model.Id("c"), model.Id("sym"), "b"
		q := s("D", s("E(1|2)", v))
		q.Ellipsis, q.Trailing = true, true
		r := rule(m, q)
		r.Cond, r.Block = model.Id("c"), "blk"
		return r
	}
	return []*model.Rule{
		rule(s(p, v), v),
		rule(s(p+"(8|16)", v), v),
		rule(s(p+"(8|16|32)z", v), s("(A|B|C)", v)),
		full(),
		rule(s(p, v), s("Q", s("(a|b)", v))),
		rule(s("("+p+"|"+p+")"), s("Z")),
		rule(s(p+"(1|2)(3|4)", v), s("A(1|2|3)", v)), // incompatible
		rule(s(p+"(1|2)(3|4|5)"), v),                 // incompatible
		rule(s(p, s("(a|b)"), s("(c|d|e)")), v),      // incompatible
		rule(v, s(p+"(1|2|3|4)")),
		rule(s(p+"(1|2)", v), s("A", v, s("B(1|2|3)"))), // incompatible
		rule(s("A", s("B", s("C(x|y)"))), s("A", s("B", s("C(x|y)")))),
		rule(v, v),
		rule(s(p), &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}),
		rule(s("(a|b)(c|d)"), s("(a|b)(c|d)")),
		rule(s(p+"(1|2)"), &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}),
	}
}

func alts(p string, n int) model.Part {
	pt := model.Part{Alt: []string{}}
	for i := 0; i < n; i++ {
		pt.Alt = append(pt.Alt, fmt.Sprintf("%s%d", p, i))
	}
	return pt
}

var expandDims = []dimension{
	{"alternatives", 3000, func(n int) ([]*model.Rule, bool) {
		return []*model.Rule{rule(&model.S{Op: []model.Part{{Lit: "A"}, alts("a", n)}, Args: vars(1)}, &model.S{Op: []model.Part{alts("b", n)}})}, n > 1
	}},
	{"alternatives-match", 3000, func(n int) ([]*model.Rule, bool) {
		return []*model.Rule{rule(&model.S{Op: []model.Part{{Lit: "A"}, alts("a", n)}, Args: vars(2)}, sx("B"))}, n > 1
	}},
	{"alternatives-result", 3000, func(n int) ([]*model.Rule, bool) {
		return []*model.Rule{rule(sx("A"), sx("B", sx("C"), &model.S{Op: []model.Part{alts("b", n)}}))}, n > 1
	}},
	{"alternatives-off-by-one", 3000, func(n int) ([]*model.Rule, bool) {
		return []*model.Rule{rule(&model.S{Op: []model.Part{{Lit: "A"}, alts("a", n)}}, &model.S{Op: []model.Part{alts("b", n+1)}})}, n > 1
	}},
	{"groups", 2000, func(n int) ([]*model.Rule, bool) {
		s := &model.S{}
		for i := 0; i < n; i++ {
			s.Op = append(s.Op, alts(fmt.Sprintf("g%d_", i), 2))
		}
		return []*model.Rule{rule(s, sx("B"))}, n > 0
	}},
	{"group-depth", 1500, func(n int) ([]*model.Rule, bool) {
		v := &model.S{Op: []model.Part{alts("a", 3)}}
		for i := 0; i < n; i++ {
			v = sx(fmt.Sprintf("D%d", i), model.Var("x"), v)
		}
		return []*model.Rule{rule(v, sx("B"))}, true
	}},
	{"group-argument", 3000, func(n int) ([]*model.Rule, bool) {
		m := sx("A", vars(n)...)
		m.Args = append(m.Args, &model.S{Op: []model.Part{alts("a", 2)}}, model.Var("z"))
		return []*model.Rule{rule(m, sx("B"))}, true
	}},
	{"group-arguments", 1000, func(n int) ([]*model.Rule, bool) {
		m := sx("A")
		for i := 0; i < n; i++ {
			m.Args = append(m.Args, &model.S{Op: []model.Part{{Lit: fmt.Sprintf("N%d", i)}, alts("a", 3)}})
		}
		return []*model.Rule{rule(sx("B"), m)}, true
	}},
	{"rules", 3000, func(n int) ([]*model.Rule, bool) {
		var rs []*model.Rule
		for i := 0; i < n; i++ {
			ks := expandKinds(i)
			rs = append(rs, ks[[]int{0, 1, 2, 3}[i%4]])
		}
		return rs, true
	}},
	{"rules-last-bad", 3000, func(n int) ([]*model.Rule, bool) {
		var rs []*model.Rule
		for i := 0; i < n; i++ {
			rs = append(rs, expandKinds(i)[i%4])
		}
		return append(rs, expandKinds(n)[7]), true
	}},
}

func expandContent(x *explore.X, rs []*model.Rule, f *ast.File) {
	want, ok := model.ExpandFile(rs)
	err := pass.ExpandAlternates(f)
	if !ok {
		x.Outcome = "incompatible"
		return // C08
	}
	if err != nil {
		x.Fail("expansion of compatible alternatives fails: %v", err)
	}
	if len(want) > len(rs) {
		x.Outcome = "expanded"
	} else {
		x.Outcome = "unchanged"
	}
	if len(f.Rules) != len(want) {
		x.Fail("expansion gives %d rules instead of %d", len(f.Rules), len(want))
	}
	for i := range want {
		if g, w := model.CanonAST(f.Rules[i]), want[i].Canon(); g != w {
			same(x, fmt.Sprintf("rule %d of the expansion", i), g, w)
		}
	}
	x.Validated(len(want))
}

func expandOutcome(x *explore.X, rs []*model.Rule, f *ast.File) {
	_, ok := model.ExpandFile(rs)
	before := append([]*ast.Rule{}, f.Rules...)
	full := fulls(before)
	err := pass.ExpandAlternates(f)
	if ok {
		x.Outcome = "compatible"
		if err != nil {
			x.Fail("expansion of compatible alternatives fails: %v", err)
		}
		return
	}
	x.Outcome = "incompatible"
	if err == nil {
		x.Fail("incompatible alternatives are expanded, to %s", clip(model.CanonAST(f)))
	}
	unchanged(x, "after the refusal", f.Rules, before, full)
	// Refused again, and again left alone.
	if pass.ExpandAlternates(f) == nil {
		x.Fail("the second expansion of the refused file succeeds")
	}
	unchanged(x, "after the second refusal", f.Rules, before, full)
}

func fulls(rs []*ast.Rule) []string {
	var out []string
	for _, r := range rs {
		out = append(out, model.Full(r))
	}
	return out
}

// unchanged checks that the list holds the given rules with the given contents.
func unchanged(x *explore.X, when string, got, want []*ast.Rule, full []string) {
	if len(got) != len(want) {
		x.Fail("%s, the file holds %d rules instead of %d", when, len(got), len(want))
	}
	for i := range want {
		if g := model.Full(got[i]); g != full[i] {
			same(x, fmt.Sprintf("%s, rule %d", when, i), g, full[i])
		}
	}
}

func expandStable(x *explore.X, rs []*model.Rule, f *ast.File) {
	_, ok := model.ExpandFile(rs)
	before := append([]*ast.Rule{}, f.Rules...)
	full := fulls(before)
	err := pass.ExpandAlternates(f)
	for i, r := range before {
		if g := model.Full(r); g != full[i] {
			same(x, fmt.Sprintf("rule %d that was in the file before", i), g, full[i])
		}
	}
	x.Validated(len(before))
	if (err == nil) != ok {
		x.Outcome = "see C08"
		return
	}
	if err != nil {
		x.Outcome = "refused"
		return
	}
	// The expansion of each rule alone.
	n := 0
	for i, r := range before {
		g := &ast.File{Rules: []*ast.Rule{r}}
		if err := pass.ExpandAlternates(g); err != nil {
			x.Fail("rule %d expands in the file but not alone: %v", i, err)
		}
		for _, e := range g.Rules {
			if n >= len(f.Rules) {
				x.Fail("the rules expanded one by one give more than the %d rules of the expanded file", n)
			}
			if a, b := model.CanonAST(f.Rules[n]), model.CanonAST(e); a != b {
				same(x, fmt.Sprintf("rule %d of the expanded file against expanding rule %d alone", n, i), a, b)
			}
			n++
		}
	}
	if n != len(f.Rules) {
		x.Fail("the expanded file has %d rules, its rules expanded one by one give %d", len(f.Rules), n)
	}
	// Adding to a list of a rule of the result is not seen in any other.
	if n <= 300 {
		all := append(append([]*ast.Rule{}, before...), f.Rules...)
		afull := fulls(all)
		ends := map[uintptr]bool{}
		model.Ends(before, ends)
		for _, r := range f.Rules {
			model.Append(r, ends)
		}
		unchanged(x, "after something was appended to the lists of the rules", all, all, afull)
	}
	// Expanding again.
	after := append([]*ast.Rule{}, f.Rules...)
	afull := fulls(after)
	if err := pass.ExpandAlternates(f); err != nil {
		x.Fail("expanding the expanded file fails: %v", err)
	}
	unchanged(x, "after expanding again", f.Rules, after, afull)
	x.Outcome = "stable"
}

func c08Mixes(x *explore.X, max int) {
	n := 1 + x.Free(max)
	bad := x.Free(n)
	var rs []*model.Rule
	for i := 0; i < n; i++ {
		ks := expandKinds(i)
		if i == bad {
			b := []int{6, 7, 8, 10}
			rs = append(rs, ks[b[x.Free(len(b))]])
			continue
		}
		g := []int{0, 1, 2, 3, 6, 12}
		if max > 4 {
			g = append(g, 5)
		}
		rs = append(rs, ks[g[x.Free(len(g))]])
	}
	text := model.PrintFile(rs)
	x.Describe(func() string { return text })
	x.Key(text)
	expandOutcome(x, rs, model.FileAST(rs))
}

func c08Degenerate(x *explore.X) {
	v := ast.Variable("x")
	ops := []ast.Op{
		ast.Opcode("A"), ast.Opcode(""), ast.OpcodeParts{}, ast.OpcodeParts(nil), ast.OpcodeParts{ast.Opcode("A")},
		ast.OpcodeParts{ast.OpcodeAlt{}}, ast.OpcodeParts{ast.OpcodeAlt{"a"}}, ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"a", "b"}},
		ast.OpcodeParts{ast.OpcodeAlt{"a"}, ast.OpcodeAlt{"b", "c"}}, ast.OpcodeParts{ast.OpcodeAlt{"a", "b"}, ast.OpcodeAlt{}},
		ast.OpcodeParts{ast.Opcode("A"), ast.Opcode("B")}, ast.OpcodeParts{ast.OpcodeAlt{"a"}, ast.OpcodeAlt{"b", "c", "d"}, ast.OpcodeAlt{"e"}},
	}
	a, b, c := ops[x.Free(len(ops))], ops[x.Free(len(ops))], ops[x.Free(len(ops))]
	f := &ast.File{Rules: []*ast.Rule{{Match: &ast.SExpr{Op: a, Args: []ast.Value{v, &ast.SExpr{Op: b}}}, Result: &ast.SExpr{Op: c}}}}
	x.Describe(func() string { return model.CanonAST(f) })
	before := append([]*ast.Rule{}, f.Rules...)
	full := fulls(before)
	x.Key(full...)
	if err := pass.ExpandAlternates(f); err != nil {
		x.Outcome = "refused"
		unchanged(x, "after the refusal", f.Rules, before, full)
	} else {
		x.Outcome = "expanded"
	}
}

// c09Sharing expands files that share rules and storage, in every order.
func c09Sharing(x *explore.X, depth int) {
	ks := expandKinds(0)
	sel := []int{0, 1, 2, 3, 6, 10, 11, 12, 15}
	r1, r2 := ks[sel[x.Free(len(sel))]], expandKinds(1)[sel[x.Free(len(sel))]]
	a, b := r1.ToAST(), r2.ToAST()
	full := map[*ast.Rule]string{a: model.Full(a), b: model.Full(b)}
	backing := []*ast.Rule{a, b, a, b}
	files := []*ast.File{{Rules: backing[:2]}, {Rules: backing[1:3:3]}, {Rules: backing[:3]}}
	// A fourth one, without the sharing, as a control that is never expanded.
	control := &ast.File{Rules: backing}
	holds := make([][]string, len(files)) // canonical forms the files must hold
	mod := [][]*model.Rule{{r1, r2}, {r2, r1}, {r1, r2, r1}}
	for i, m := range mod {
		for _, r := range m {
			holds[i] = append(holds[i], r.Canon())
		}
	}
	var ops []string
	x.Describe(func() string {
		return fmt.Sprintf("rules %s and %s; files sharing storage [1 2 1 2]: A=[:2] B=[1:3] C=[:3]; expand %s", r1.Print(), r2.Print(), strings.Join(ops, ", "))
	})
	for n := 0; n < depth; n++ {
		c := x.Free(len(files) + 1)
		if c == len(files) {
			break
		}
		ops = append(ops, string(rune('A'+c)))
		err := pass.ExpandAlternates(files[c])
		want, ok := model.ExpandFile(mod[c])
		if (err == nil) != ok {
			x.Outcome = "see C08"
			return
		}
		if ok {
			holds[c] = nil
			for _, r := range want {
				holds[c] = append(holds[c], r.Canon())
			}
			mod[c] = want
		}
		for i, f := range files {
			if len(f.Rules) != len(holds[i]) {
				x.Fail("file %c holds %d rules instead of %d", 'A'+i, len(f.Rules), len(holds[i]))
			}
			for k, r := range f.Rules {
				same(x, fmt.Sprintf("rule %d of file %c", k, 'A'+i), model.CanonAST(r), holds[i][k])
			}
		}
		for k, r := range control.Rules {
			if r != []*ast.Rule{a, b, a, b}[k] {
				x.Fail("the list of rules shared by the files was changed at %d", k)
			}
		}
		for r, s := range full {
			same(x, "shared rule", model.Full(r), s)
		}
		x.Validated(6)
	}
	x.Key(strings.Join(ops, ""), r1.Canon(), r2.Canon())
}

// c09Subtrees expands rules with subtrees that occur more than once.
func c09Subtrees(x *explore.X) {
	mk := func(op ast.Op, args ...ast.Value) *ast.SExpr { return &ast.SExpr{Op: op, Args: args} }
	two := func(p string) ast.Op {
		return ast.OpcodeParts{ast.Opcode(p), ast.OpcodeAlt{"1", "2"}}
	}
	ops := func(p string) ast.Op {
		return []ast.Op{ast.Opcode(p), two(p), ast.OpcodeParts{ast.OpcodeAlt{"1", "2"}, ast.Opcode(p), ast.OpcodeAlt{"3", "4"}}}[x.Free(3)]
	}
	v := ast.Variable("x")
	leaf := mk(ops("L"))
	leaf.Type, leaf.Binding = "t", "b"
	mid := mk(ops("M"), leaf, v, leaf)
	mid.AuxInt = &ast.Expr{Expr: model.Bin(model.Id("c"), "+", model.Int("1")).ToGo()}
	args := make([]ast.Value, 0, 8)
	args = append(args, mid, leaf)
	var r *ast.Rule
	switch x.Free(4) {
	case 0:
		r = &ast.Rule{Match: mid, Result: mid}
	case 1:
		r = &ast.Rule{Match: &ast.SExpr{Op: ops("P"), Args: args}, Result: leaf}
	case 2:
		top := &ast.SExpr{Op: ops("P"), Args: args}
		r = &ast.Rule{Match: top, Result: &ast.SExpr{Op: ops("Q"), Args: args[:1]}}
	case 3:
		r = &ast.Rule{Match: leaf, Result: &ast.SExpr{Op: ops("Q"), Args: args[1:]}}
	}
	r2 := &ast.Rule{Match: r.Result, Result: r.Match, Block: "b"}
	f := &ast.File{Rules: []*ast.Rule{r, r2, r}}
	m := model.FromFile(f)
	x.Describe(func() string { return model.PrintFile(m) + " (with shared subtrees)" })
	x.Key(model.CanonFile(m))
	expandStable(x, m, f)
	if x.Outcome == "stable" {
		want, _ := model.ExpandFile(m)
		same(x, "expansion with shared subtrees", model.CanonAST(f), model.CanonFile(want))
	}
}
