package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
	"verif/mc/smt"
)

const smtBounds = "shared: about 1000 rules in whose trees all equal parts are one object; terms: every rule with at most 3 (thorough 4) deviations (operators, shared variables, placeholders) from 'operator of fresh variables => first variable', for all 33 operators on the match side; operators: every pair of operators of one sort, nested in every argument position, on both sides; names: every dictionary word and special symbol as variable, and every ordered pair of special words and of easily confused names; sizes: nesting depth and number of variables and placeholders up to 300; mixed: chains of 9, 70 and 300 (1100) operators in which, over all shifts, every two of a sort are neighbours at every level, with new and old variables, placeholders and terms as other operands; corpus: every simple rule of the repository's rules files, expanded"

func init() {
	All["C12"] = &Prop{
		Level:  "model_checking",
		States: "distinct rules whose generated formula was evaluated; comparisons counts the assignments at which formula and rule were compared",
		Bounds: smtBounds + "; assignments: all of them for Booleans up to 9 variables and for one and (in sub-exploration exact8) two 8-bit variables, otherwise all over an alphabet of up to 16 values chosen for carries, signs and bit patterns",
		Assume: []string{"the checker's own reading of SMT-LIB QF_BV and of the Go SSA operators", "for widths above 8 bits, agreement on the value alphabet stands for all values"},
		Subs: func(tier string) []*explore.Sub {
			limit := pick(tier, 256, 4096)
			subs := smtSubs(tier, func(x *explore.X, r *model.Rule) { checkMeaning(x, r, limit) })
			return append(subs, &explore.Sub{Name: "exact8", Share: 2, Bound: pick(tier, 1, 2), Run: func(x *explore.X) {
				g := &smtGen{x: x, sort: 8, names: []string{"x", "y"}, max: 2, nodes: 5}
				checkMeaning(x, g.rule(), 65536)
			}})
		},
	}
	All["C13"] = &Prop{
		Level:  "model_checking",
		States: "distinct rules whose script was read and sort-checked by an independent SMT-LIB reader",
		Bounds: smtBounds,
		Assume: []string{"the checker's own SMT-LIB 2.6 reader and sort checker (Core and FixedSizeBitVectors, widths up to 64)"},
		Subs: func(tier string) []*explore.Sub {
			return smtSubs(tier, checkScript)
		},
	}
	All["C14"] = &Prop{
		Level:  "model_checking",
		States: "distinct rules for which script or refusal was compared with the reference's verdict",
		Bounds: "offences: a rule with at most 2 (thorough 3) deviations, of any kind (also other widths, unknown operators, missing and additional arguments, calls, features, groups, condition, block), from 12 well-typed rules of every sort; trivial: about 90 harmless looking conditions, AuxInt and Aux (true, 0, x == x, ...) and 26 block, type and binding names at every position of well-typed rules of every sort; operators: every dictionary word and variations of the supported names as operator, with 0 to 3 arguments, outside and nested; arguments: every supported operator with every number of arguments up to 20, around the powers of 2 up to 600, and 4097, 4098, 65537, 65538; calls: calls of every dictionary word and every predeclared Go name, of 7 argument lists, at 7 places in rules of every sort; deep: each of 16 offences, and none, at the first, middle and last level of chains of every sort and four forms, of every number of levels up to 12 and around powers of 2, 10 and the constants of the sources up to 1100 (5000), in match and result; positions: each offence alone at every position of rules with up to 4 (6) expressions; the rules of the other SMT properties; corpus: every rule of the repository",
		Assume: []string{"33 operators of the pinned version are the supported ones"},
		Subs: func(tier string) []*explore.Sub {
			return append([]*explore.Sub{
				{Name: "offences", Bound: pick(tier, 2, 3), Share: 5, Run: func(x *explore.X) { c14Offences(x) }},
				{Name: "trivial", Run: c14Trivial},
				{Name: "operators", Share: 2, Run: c14Operators},
				{Name: "arguments", Run: c14Arguments, Share: 3},
				{Name: "deep", Share: 2, Run: func(x *explore.X) { c14Deep(x, pick(tier, 1100, 5000)) }},
				{Name: "positions", Share: 2, Run: func(x *explore.X) { c14Positions(x, pick(tier, 4, 6)) }},
				{Name: "features", Bound: pick(tier, 2, 3), Share: 2, Run: func(x *explore.X) {
					checkVerdict(x, gen.Rule(x, gen.Skeletons[x.Free(len(gen.Skeletons))], gen.DefaultOpts()))
				}},
				{Name: "calls", Run: c14Calls},
				{Name: "shared-rules", Run: sharedSub(sharedRules, checkVerdict).Run},
				{Name: "rules", Run: func(x *explore.X) {
					ls := corpusLines()
					l := ls[x.Free(len(ls))]
					x.Describe(func() string { return l })
					f, err := parse.String(l)
					if err != nil {
						return
					}
					for _, r := range f.Rules {
						checkVerdict(x, model.FromRule(r))
					}
				}},
			}, smtSubs(tier, checkVerdict)...)
		},
	}
}

var sorts = []smt.Sort{8, 16, 32, 64, 0}

// smtGen generates well-typed rules of a sort.
type smtGen struct {
	x     *explore.X
	sort  smt.Sort
	names []string
	used  int
	max   int // number of distinct variables
	nodes int // operators left
}

func (g *smtGen) fresh() model.Value {
	if g.used < g.max {
		g.used++
	}
	return model.Var(g.names[g.used-1])
}

func (g *smtGen) arg() model.Value {
	names, arity := smt.Ops(g.sort)
	n := 3
	if g.nodes <= 0 {
		n = 2
	}
	// A fresh variable, a variable used before or a placeholder, or an operator.
	switch g.x.Choose(n) {
	case 0:
		return g.fresh()
	case 1:
		if k := g.x.Free(g.used + 1); k > 0 {
			return model.Var(g.names[k-1])
		}
		return model.Var("_")
	}
	g.nodes--
	i := g.x.Free(len(names))
	s := sx(names[i])
	for k := 0; k < arity[i]; k++ {
		s.Args = append(s.Args, g.arg())
	}
	return s
}

func (g *smtGen) op() *model.S {
	names, arity := smt.Ops(g.sort)
	i := g.x.Free(len(names))
	s := sx(names[i])
	for k := 0; k < arity[i]; k++ {
		s.Args = append(s.Args, g.arg())
	}
	return s
}

func (g *smtGen) rule() *model.Rule {
	m := g.op()
	var res model.Value
	switch g.x.Choose(3) {
	case 0:
		res = model.Var(g.names[0])
	case 1:
		res = g.op()
	case 2:
		res = g.arg()
	}
	return rule(m, res)
}

var varNames = []string{"x", "y", "z", "w", "v", "u", "t", "s"}

// Words that mean something in SMT-LIB or could clash with symbols made up by the
// generator.
var smtWords = strings.Fields(`as let exists forall match par assert exit pop push reset echo not and or xor distinct ite true false
	concat extract bvnot bvneg bvand bvor bvadd bvmul bvudiv bvurem bvshl bvlshr bvult bvnand bvnor bvxor bvxnor bvcomp bvsub bvsdiv
	bvsrem bvsmod bvashr repeat zero_extend sign_extend rotate_left rotate_right bvule bvugt bvuge bvslt bvsle bvsgt bvsge
	bv bv0 bv1 bv2nat nat2bv int2bv bvx bvnego bvumulo bvsaddo x x1 x_ x_1 x_2 x0 y y_1 p p1 p_ v0 v1 v2 var_0 var1 placeholder placeholder1 anon tmp t t0 ph0 arg0 arg1 a0 abs div mod select store is_int
	let_ not_ and_ true_ bvadd_ selected check_sat declare_const set_logic set_info define_fun int bool real array bitvec sat unsat unknown`)

func smtSubs(tier string, check func(x *explore.X, r *model.Rule)) []*explore.Sub {
	return []*explore.Sub{
		{Name: "terms", Bound: pick(tier, 3, 4), Share: 5, Run: func(x *explore.X) {
			g := &smtGen{x: x, sort: sorts[x.Free(len(sorts))], names: varNames, max: 8, nodes: 6}
			check(x, g.rule())
		}},
		sharedSub(sharedTerms, check),
		{Name: "nested", Share: 3, Run: func(x *explore.X) {
			sort := sorts[x.Free(len(sorts))]
			names, arity := smt.Ops(sort)
			i, j := x.Free(len(names)), x.Free(len(names))
			mk := func(k int, args ...model.Value) *model.S { return sx(names[k], args[:arity[k]]...) }
			a, b, c := model.Var("x"), model.Var("y"), model.Var("z")
			var m *model.S
			if x.Free(2) == 0 {
				m = mk(i, mk(j, a, b), c)
			} else {
				m = mk(i, c, mk(j, a, b))
			}
			var res model.Value
			switch k := x.Free(len(names)*2 + 3); k {
			case 0:
				res = a
			case 1:
				res = c
			case 2:
				res = m
			default:
				k -= 3
				if k%2 == 0 {
					res = mk(k/2, mk(i, b, c), mk(j, a, c))
				} else {
					res = mk(k/2, mk(j, c, a), mk(i, a, mk(k/2, b, b)))
				}
			}
			check(x, rule(m, res))
		}},
		{Name: "names", Run: func(x *explore.X) {
			var ws []string
			for _, w := range dict().Idents() {
				if gen.IsVar(w) {
					ws = append(ws, w)
				}
			}
			ws = append(ws, smtWords...)
			w := model.Var(ws[x.Free(len(ws))])
			other := model.Var("x")
			if w == "x" {
				other = "y"
			}
			sort := sorts[x.Free(len(sorts))]
			names, _ := smt.Ops(sort)
			o := names[0]
			switch x.Free(5) {
			case 0:
				check(x, rule(sx(o, w, other), sx(o, other, w)))
			case 1:
				check(x, rule(sx(o, other, w), w))
			case 2:
				check(x, rule(sx(o, w, w), other))
			case 3:
				check(x, rule(sx(o, other, other), sx(names[1], sx(o, w, other), w)))
			case 4:
				check(x, rule(sx(o, model.Var("_"), w), sx(o, w, model.Var("_"))))
			}
		}},
		{Name: "name-pairs", Share: 2, Run: func(x *explore.X) {
			a, b := smtWords[x.Free(len(smtWords))], smtWords[x.Free(len(smtWords))]
			c := model.Var("_")
			if x.Free(2) == 1 {
				c = model.Var("x_1")
			}
			check(x, rule(sx("Sub8", model.Var(a), sx("Sub8", model.Var(b), c)), model.Var(b)))
		}},
		{Name: "confusable", Run: func(x *explore.X) {
			all := append(confusables[:len(confusables):len(confusables)], collisions...)
			p := all[x.Free(len(all))]
			sort := sorts[x.Free(len(sorts))]
			names, _ := smt.Ops(sort)
			o := names[1]
			a, b, c := model.Var(p[0]), model.Var(p[1]), model.Var("_")
			if x.Free(2) == 1 {
				a, b = b, a
			}
			switch x.Free(5) {
			case 0:
				check(x, rule(sx(o, a, sx(o, b, c)), b))
			case 1:
				check(x, rule(sx(o, a, b), sx(o, b, a)))
			case 2:
				check(x, rule(sx(o, a, a), b))
			case 3:
				check(x, rule(a, sx(o, c, b)))
			case 4:
				check(x, rule(sx(o, sx(o, a, c), b), sx(o, sx(o, b, c), a)))
			}
		}},
		{Name: "sizes", Run: func(x *explore.X) {
			d := x.Free(12)
			sort := sorts[x.Free(len(sorts))]
			names, _ := smt.Ops(sort)
			two, one := names[0], names[len(names)-1]
			ns := dict().Sizes(pick(tier, 40, 130), pick(tier, 300, 1000))
			n := ns[x.Free(len(ns))]
			v := func(i int) model.Value { return model.Var(fmt.Sprintf("v%d", i)) }
			var r *model.Rule
			switch d {
			case 0: // depth, one operand
				s := model.Value(model.Var("x"))
				for i := 0; i <= n; i++ {
					s = sx(one, s)
				}
				r = rule(s, model.Var("x"))
			case 1: // many variables, right
				s := v(0)
				for i := 1; i <= n+1; i++ {
					s = sx(two, v(i), s)
				}
				r = rule(s, v(0))
			case 2: // left
				s := v(0)
				for i := 1; i <= n+1; i++ {
					s = sx(names[1], s, v(i))
				}
				r = rule(s, v(n))
			case 3: // placeholders
				s := model.Value(model.Var("_"))
				for i := 0; i <= n; i++ {
					s = sx(names[1], s, model.Var("_"))
				}
				r = rule(s, model.Var("_"))
			case 4: // the same variable
				s := model.Value(model.Var("x"))
				for i := 0; i <= n; i++ {
					s = sx(two, s, model.Var("x"))
				}
				r = rule(s, s)
			case 5: // result side
				s := v(0)
				for i := 1; i <= n; i++ {
					s = sx(two, v(i), s)
				}
				r = rule(sx(two, v(0), v(1)), s)
			case 7, 8, 9, 10, 11: // two long terms of one length
				term := func(l string) model.Value {
					s := model.Value(model.Var(l))
					for i := 0; i <= n; i++ {
						switch {
						case d == 7:
							s = sx(one, s)
						case d == 11:
							s = sx(names[i%2], s, model.Var("z"))
						case i%2 == 0:
							s = sx(two, s, model.Var(l))
						default:
							s = sx(two, model.Var("z"), s)
						}
					}
					return s
				}
				a, b := term("x"), term("y")
				switch d {
				case 7, 8, 11:
					r = rule(sx(names[1], a, b), model.Var("x"))
				case 9:
					r = rule(a, b)
				case 10:
					r = rule(sx(two, a, model.Var("x")), sx(two, model.Var("x"), b))
				}
			case 6: // long names
				a, b := rep("ab_", n+1)[:n+1], rep("ab_", n+1)[:n+1]+"c"
				r = rule(sx(two, model.Var(a), model.Var(b)), sx(two, model.Var(b), model.Var(a)))
			}
			check(x, r)
		}},
		{Name: "mixed", Run: func(x *explore.X) {
			// Long chains in which every two operators are neighbours at every level.
			sort := sorts[x.Free(len(sorts))]
			names, arity := smt.Ops(sort)
			n := []int{9, 70, pick(tier, 300, 1100)}[x.Free(3)]
			ks, _ := mixed(x, len(names), n)
			form := x.Free(3)
			s := model.Value(model.Var("x"))
			for i, k := range ks {
				var o model.Value
				switch (i*7 + i/5) % 4 {
				case 0:
					o = model.Var(fmt.Sprintf("v%d", i))
				case 1:
					o = model.Var("_")
				case 2:
					o = model.Var("x")
				case 3:
					o = sx(names[ks[(i+1)%n]], []model.Value{model.Var("y"), model.Var("_")}[:arity[ks[(i+1)%n]]]...)
				}
				switch {
				case arity[k] == 1:
					s = sx(names[k], s)
				case i%2 == 0:
					s = sx(names[k], s, o)
				default:
					s = sx(names[k], o, s)
				}
			}
			switch form {
			case 0:
				check(x, rule(s, model.Var("x")))
			case 1:
				check(x, rule(sx(names[1], model.Var("y"), model.Var("x")), s))
			case 2:
				check(x, rule(s, s))
			}
		}},
		{Name: "corpus", Run: func(x *explore.X) {
			ls := corpusLines()
			l := ls[x.Free(len(ls))]
			x.Describe(func() string { return l })
			f, err := parse.String(l)
			if err != nil || pass.ExpandAlternates(f) != nil {
				return
			}
			for _, r := range f.Rules {
				if m := model.FromRule(r); model.Simple(m) {
					check(x, m)
				}
			}
		}},
	}
}

func describeRule(x *explore.X, r *model.Rule) {
	x.Describe(func() string { return clip(r.Print()) })
	x.Key(r.Canon())
}

// generate runs the generator; text and position of the rule are those of a parsed rule.
func generate(x *explore.X, r *model.Rule) ([]byte, error) {
	return smt2.Generate(r.ToAST())
}

func checkMeaning(x *explore.X, r *model.Rule, limit int) {
	describeRule(x, r)
	u, v := smt.Understand(r)
	b, err := generate(x, r)
	if err != nil || v == smt.Refuse {
		x.Outcome = "no script" // C13, C14
		return
	}
	s, err := smt.Meaning(string(b))
	if err != nil {
		x.Fail("the script has no meaning: %v\n%s", err, clip(string(b)))
	}
	if len(s.Consts) != len(u.Vars) {
		x.Fail("the script declares %d constants for the %d variables and placeholders %v\n%s", len(s.Consts), len(u.Vars), u.Vars, b)
	}
	for _, c := range s.Consts {
		if c.Sort != u.Sort {
			x.Fail("the constant %s has sort %s, which is not that of the rule, %s\n%s", c.Name, c.Sort, u.Sort, clip(string(b)))
		}
	}
	x.Outcome = fmt.Sprintf("%s %d variables", u.Sort, len(u.Vars))
	// Which constant stands for which variable: by name, the rest in every order.
	maps := correspondences(u.Vars, s.Consts)
	if len(maps) == 0 {
		x.Fail("no correspondence of constants and variables")
	}
	var first string
	for _, m := range maps {
		env := make([]uint64, len(s.Consts))
		bad := ""
		n := smt.Assignments(u.Sort, len(u.Vars), limit, func(vals []uint64) bool {
			for i, v := range vals {
				env[m[i]] = v
			}
			got, want := s.Formula.Eval(env) == 1, u.Differ(vals)
			if got != want {
				var as []string
				for i, v := range vals {
					as = append(as, fmt.Sprintf("%s=%#x", u.Vars[i], v))
					if len(as) > 12 {
						break
					}
				}
				bad = fmt.Sprintf("with %s the sides are equal: %v, but the formula is %v\n%s", strings.Join(as, " "), !want, got, clip(string(b)))
				return false
			}
			return true
		})
		x.Validated(n)
		if bad == "" {
			return
		}
		if first == "" {
			first = bad
		}
	}
	x.Fail("%s", first)
}

// correspondences lists the assignments of constants to variables worth trying: the
// names if they tell, every order of the rest if they are few, and the order of
// declaration.
func correspondences(vars []string, cs []smt.Const) [][]int {
	n := len(vars)
	m := make([]int, n)
	used := make([]bool, n)
	left := 0
	for i := range m {
		m[i] = -1
		if vars[i] != "_" {
			for j, c := range cs {
				if c.Name == vars[i] && !used[j] {
					m[i], used[j] = j, true
				}
			}
		}
		if m[i] < 0 {
			left++
		}
	}
	var free []int
	for j := range cs {
		if !used[j] {
			free = append(free, j)
		}
	}
	var out [][]int
	inorder := append([]int{}, m...)
	k := 0
	for i := range inorder {
		if inorder[i] < 0 {
			inorder[i] = free[k]
			k++
		}
	}
	out = append(out, inorder)
	if left >= 2 && left <= 4 {
		var permute func(i int, rest []int)
		permute = func(i int, rest []int) {
			for i < n && m[i] >= 0 {
				i++
			}
			if i == n {
				out = append(out, append([]int{}, m...))
				return
			}
			for k, j := range rest {
				m[i] = j
				permute(i+1, append(append([]int{}, rest[:k]...), rest[k+1:]...))
				m[i] = -1
			}
		}
		permute(0, free)
	}
	return out
}

func checkScript(x *explore.X, r *model.Rule) {
	describeRule(x, r)
	u, v := smt.Understand(r)
	b, err := generate(x, r)
	switch {
	case v == smt.Refuse && err != nil, v == smt.Either && err != nil:
		x.Outcome = "refused"
		return
	case v == smt.Produce && err != nil:
		x.Fail("a well-typed rule over supported operators is refused: %v", err)
	}
	x.Outcome = "script"
	s, err := smt.Check(string(b))
	if err != nil {
		x.Fail("the script is not well-formed: %v\n%s", err, clip(string(b)))
	}
	if v == smt.Refuse {
		return // C14
	}
	if len(s.Consts) != len(u.Vars) {
		x.Fail("the script declares %d constants for the %d variables and placeholders %v\n%s", len(s.Consts), len(u.Vars), u.Vars, clip(string(b)))
	}
	for _, c := range s.Consts {
		if c.Sort != u.Sort {
			x.Fail("constant %s has sort %s instead of %s\n%s", c.Name, c.Sort, u.Sort, clip(string(b)))
		}
	}
	want := r.Print()
	for _, c := range s.Comments {
		if strings.TrimSpace(c) == want {
			return
		}
	}
	x.Fail("no comment shows the rule %s\n%s", clip(want), clip(string(b)))
}

func checkVerdict(x *explore.X, r *model.Rule) {
	describeRule(x, r)
	_, v := smt.Understand(r)
	a := r.ToAST()
	b, err := smt2.Generate(a)
	if v == smt.Refuse && err == nil {
		x.Fail("a rule that is not supported gets a script\n%s", clip(string(b)))
	}
	if err != nil && len(b) > 0 {
		x.Fail("a script is returned together with the error %v\n%s", err, clip(string(b)))
	}
	if err == nil && len(b) == 0 {
		x.Fail("neither script nor error is returned")
	}
	x.Outcome = map[bool]string{true: "refused", false: "script"}[err != nil]
	// Once more from the parsed text.
	f, perr := parse.String(r.Print())
	if perr != nil || len(f.Rules) != 1 || model.CanonAST(f) != model.CanonFile([]*model.Rule{r}) {
		return
	}
	x.Validated(1)
	c, err2 := smt2.Generate(f.Rules[0])
	if (err == nil) != (err2 == nil) || !bytes.Equal(b, c) {
		x.Fail("parsed, the rule gives error %v and script\n%s\ninstead of error %v and\n%s", err2, clip(string(c)), err, clip(string(b)))
	}
}

// ---- C14 ----

// c14Gen generates rules around the well-typed ones.
type c14Gen struct {
	x     *explore.X
	sort  smt.Sort
	nodes int
}

var badOps = []string{"Mul8", "Add", "Add128", "AddB", "Const8", "Not8", "NegB", "ZeroExt8to16"}

func (g *c14Gen) value(v model.Value) model.Value {
	x := g.x
	s, ok := v.(*model.S)
	if !ok {
		switch x.Choose(6) {
		case 0:
			return v
		case 1:
			return model.Var([]string{"x", "y", "_", "z"}[x.Free(4)])
		case 2:
			return &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}
		case 3, 4: // an operator of this or another sort
			so := sorts[x.Free(len(sorts))]
			names, arity := smt.Ops(so)
			i := x.Free(len(names))
			return sx(names[i], []model.Value{model.Var("x"), model.Var("q")}[:arity[i]]...)
		default:
			return sx(badOps[x.Free(len(badOps))], model.Var("x"))
		}
	}
	c := *s
	c.Args = nil
	switch x.Choose(10) {
	case 1:
		c.Binding = "b"
	case 2:
		c.Type = "t"
	case 3:
		c.AuxInt = []*model.GoX{model.Id("c"), model.Int("0")}[x.Free(2)]
	case 4:
		c.Aux = model.Id("s")
	case 5:
		c.Ellipsis = true
	case 6:
		c.Trailing = true
	case 7: // other operator
		so := sorts[x.Free(len(sorts))]
		names, _ := smt.Ops(so)
		c.Op = model.Op(names[x.Free(len(names))])
	case 8: // unknown operator
		c.Op = model.Op(badOps[x.Free(len(badOps))])
	case 9: // groups
		n := s.Op[0].Lit
		c.Op = [][]model.Part{
			{{Alt: []string{n, n}}},
			{{Lit: n}, {Alt: []string{"8", "16"}}},
			{{Lit: n[:len(n)-1]}, {Alt: []string{n[len(n)-1:], "16"}}},
			{{Alt: []string{"x", "y"}}, {Lit: n}},
		}[x.Free(4)]
	}
	for _, a := range s.Args {
		c.Args = append(c.Args, g.value(a))
	}
	switch x.Choose(4) {
	case 1:
		c.Args = append(c.Args, model.Var("x"))
	case 2:
		if n := len(c.Args); n > 0 {
			c.Args = c.Args[:n-1]
		}
	case 3:
		c.Args = nil
	}
	return &c
}

func c14Offences(x *explore.X) {
	v := func(s string) model.Value { return model.Var(s) }
	bases := []*model.Rule{
		rule(sx("Add8", v("x"), v("y")), sx("Add8", v("y"), v("x"))),
		rule(sx("Neg16", sx("Neg16", v("x"))), v("x")),
		rule(sx("Xor32", v("x"), v("x")), sx("Sub32", v("x"), v("x"))),
		rule(sx("And64", v("x"), sx("Com64", v("y"))), sx("Com64", sx("Or64", sx("Com64", v("x")), v("y")))),
		rule(sx("AndB", v("x"), v("y")), v("x")),
		rule(sx("Not", sx("EqB", v("x"), v("_"))), sx("NeqB", v("x"), v("_"))),
		rule(v("x"), sx("Neg8", v("x"))),
		rule(sx("OrB", v("x"), sx("Not", v("x"))), sx("EqB", v("x"), v("x"))),
		rule(sx("Neg64", v("x")), v("x")),
		rule(sx("Sub16", v("_"), v("x")), v("_")),
		rule(sx("Com8", v("x")), v("y")),
		rule(v("x"), v("y")),
	}
	b := bases[x.Free(len(bases))]
	g := &c14Gen{x: x}
	r := &model.Rule{}
	if c := x.Choose(3); c > 0 {
		r.Cond = []*model.GoX{model.Id("c"), model.Bin(model.Id("x"), "!=", model.Int("0"))}[c-1]
	}
	if x.Bool() {
		r.Block = "b"
	}
	r.Match = g.value(b.Match)
	r.Result = g.value(b.Result)
	checkVerdict(x, r)
}

// c14Deep puts one offence at a level of a deep tree.
func c14Deep(x *explore.X, max int) {
	so := sorts[x.Free(len(sorts))]
	names, arity := smt.Ops(so)
	bin, un := "", ""
	for i, n := range names {
		if arity[i] == 2 {
			bin = n
		} else {
			un = n
		}
	}
	var ns []int
	for _, n := range dict().Sizes(12, max) {
		if n > 0 {
			ns = append(ns, n)
		}
	}
	n := ns[x.Free(len(ns))]
	// The level of the offence, from the outside, and the form of the tree.
	at := []int{0, n / 2, n - 1}[x.Free(3)]
	form := x.Free(4)
	bad := x.Free(17)
	v := model.Value(model.Var("x"))
	for i := n - 1; i >= 0; i-- {
		var s *model.S
		switch {
		case form == 0:
			s = sx(un, v)
		case form == 1 || form == 3 && i%2 == 0:
			s = sx(bin, v, model.Var("y"))
		default:
			s = sx(bin, model.Var("x"), v)
		}
		last := len(s.Args) - 1
		if i == at {
			switch bad {
			case 0, 1, 2, 3, 4, 5:
				setFeature(s, bad)
			case 6:
				s.Op = []model.Part{{Lit: s.Op[0].Lit[:1]}, {Alt: []string{s.Op[0].Lit[1:], "x"}}}
			case 7:
				s.Op = model.Op("Frob8")
			case 8:
				s.Op = model.Op(otherOp(so, len(s.Args)))
			case 9:
				s.Args = append(s.Args, model.Var("y"))
			case 10:
				s.Args = s.Args[:last]
			case 11:
				s.Args[last] = &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}
			case 12:
				s.Args[0] = sx(otherOp(so, 1), model.Var("q"))
			case 13:
				s.Args[last] = sx(otherOp(so, 2), model.Var("x"), model.Var("q"))
			case 14:
				s.Args = nil
			case 15:
				s.Op = []model.Part{{Alt: []string{s.Op[0].Lit, s.Op[0].Lit}}}
			case 16: // none
			}
		}
		v = s
	}
	var r *model.Rule
	if x.Free(2) == 0 {
		r = rule(v, model.Var("x"))
	} else {
		r = rule(sx(bin, model.Var("x"), model.Var("y")), v)
	}
	x.Describe(func() string {
		return fmt.Sprintf("offence %d at level %d of %d, form %d: %s", bad, at, n, form, clip(r.Print()))
	})
	x.Key(r.Canon())
	_, verdict := smt.Understand(r)
	b, err := smt2.Generate(r.ToAST())
	if verdict == smt.Refuse && err == nil {
		x.Fail("a rule that is not supported gets a script")
	}
	if verdict == smt.Produce && err != nil {
		x.Fail("a supported rule is refused: %v", err)
	}
	if err != nil && len(b) > 0 {
		x.Fail("a script is returned together with the error %v", err)
	}
	x.Outcome = map[bool]string{true: "refused", false: "script"}[err != nil]
}

// c14Trivial puts one offence in its most harmless looking forms at every position of
// well-typed rules.
func c14Trivial(x *explore.X) {
	v := func(s string) model.Value { return model.Var(s) }
	sort := sorts[x.Free(len(sorts))]
	names, arity := smt.Ops(sort)
	bin, un := names[x.Free(2)], names[len(names)-1]
	if arity[0] != 2 || arity[1] != 2 {
		panic("the first operators are not binary")
	}
	var ss []*model.S
	s := func(op string, args ...model.Value) *model.S {
		e := sx(op, args...)
		ss = append(ss, e)
		return e
	}
	var r *model.Rule
	switch x.Free(4) {
	case 0:
		r = rule(s(bin, v("x"), v("y")), s(bin, v("y"), v("x")))
	case 1:
		r = rule(s(un, s(un, v("x"))), v("x"))
	case 2:
		r = rule(v("x"), s(un, v("x")))
	case 3:
		r = rule(s(bin, s(un, v("_")), v("x")), s(bin, v("x"), s(un, v("y"))))
	}
	var gs []*model.GoX
	for _, t := range []string{"true", "false", "nil", "_", "x", "y", "x0", "c", "sym", "off", "ok", "True", "iota"} {
		gs = append(gs, model.Id(t), model.Paren(model.Id(t)), model.Un("!", model.Id(t)))
	}
	for _, t := range []string{"0", "1", "00", "0x0", "8", "16", "32", "64"} {
		gs = append(gs, model.Int(t), model.Un("-", model.Int(t)), model.Paren(model.Int(t)))
	}
	gs = append(gs,
		model.Bin(model.Id("x"), "==", model.Id("x")), model.Bin(model.Id("true"), "&&", model.Id("true")), model.Bin(model.Id("x"), "==", model.Id("y")),
		model.Bin(model.Id("c"), "||", model.Un("!", model.Id("c"))), model.Bin(model.Int("1"), "==", model.Int("1")), model.Bin(model.Int("0"), "<", model.Int("1")),
		model.Bin(model.Id("x"), "!=", model.Id("nil")), model.Fn(model.Id("true")), model.Fn(model.Id("canMergeLoad"), model.Id("x")), model.Fn(model.Id("true"), model.Id("x")),
		model.Paren(model.Paren(model.Id("true"))), model.Lit("STRING", `""`), model.Lit("STRING", "`a`"), model.Lit("CHAR", "'a'"), model.Lit("FLOAT", "1.5"), model.Sel(model.Id("config"), "BigEndian"),
		model.Sel(model.Id("x"), "Uses"), model.Bin(model.Sel(model.Id("x"), "Uses"), "==", model.Int("1")))
	words := []string{"_", "b", "x", "y", "true", "v.Block", "x.Block", "t", "x.Type", "v.Type", "mem", "flags", "bool", "BVec8", "int8", "uint64", "nil", "0", "b.Func.Entry", "(t)", "Bool", "int", "@x", "...", "___", "t.IsInteger()", "typ.UInt64"}
	if len(ss) > 1 {
		ss = append(ss, nil)
	}
	k := x.Free(len(ss))
	if ss[k] == nil {
		// The same everywhere.
		k = -1
	}
	set := func(f func(e *model.S)) {
		for i, e := range ss {
			if e != nil && (k < 0 || k == i) {
				f(e)
			}
		}
	}
	switch x.Free(6) {
	case 0:
		r.Cond = gs[x.Free(len(gs))]
	case 1:
		r.Block = words[x.Free(len(words))]
		if r.Block == "@x" {
			r.Block = "@"
		}
	case 2:
		w := words[x.Free(len(words))]
		set(func(e *model.S) { e.Type = w })
	case 3:
		g := gs[x.Free(len(gs))]
		set(func(e *model.S) { e.AuxInt = g })
	case 4:
		g := gs[x.Free(len(gs))]
		set(func(e *model.S) { e.Aux = g })
	case 5:
		w := words[x.Free(len(words))]
		if !gen.IsVar(w) || strings.ContainsAny(w, ".()") {
			w = "v"
		}
		set(func(e *model.S) { e.Binding = w })
	}
	checkVerdict(x, r)
}

func c14Operators(x *explore.X) {
	var ws []string
	for _, s := range sorts {
		names, _ := smt.Ops(s)
		ws = append(ws, names...)
	}
	for _, n := range ws[:len(ws):len(ws)] {
		ws = append(ws, n+"x", n+"_", n+"0", "x"+n, "_"+n, strings.ToLower(n), strings.ToUpper(n), n[:len(n)-1], n+n, n+"F", n+"u", n+"B", n+"Ptr")
	}
	for _, p := range []string{"Mul", "Div", "Mod", "Lsh", "Rsh", "Eq", "Neq", "Less", "Leq", "Not", "Add", "Sub", "And", "Or", "Xor", "Neg", "Com", "Const", "Sqrt", "Copy", "Phi", "Ctz", "Bswap", "BitRev", "PopCount", "RotateLeft"} {
		for _, s := range []string{"", "8", "16", "32", "64", "128", "1", "F", "32F", "64F", "Ptr", "B", "Bool", "8u", "64u", "8x8", "String", "08", "008"} {
			ws = append(ws, p+s)
		}
	}
	ws = append(ws, dict().Idents()...)
	w := ws[x.Free(len(ws))]
	n := x.Free(4)
	args := []model.Value{model.Var("x"), model.Var("y"), model.Var("z")}[:n]
	c14Placed(x, w, args)
}

// c14Arguments gives an operator any number of arguments.
func c14Arguments(x *explore.X) {
	var ws []string
	for _, s := range sorts {
		names, _ := smt.Ops(s)
		ws = append(ws, names...)
	}
	w := ws[x.Free(len(ws))]
	ns := dict().Sizes(20, 600)
	ns = append(ns, 4097, 4098, 65537, 65538)
	n := ns[x.Free(len(ns))]
	vars := 1 + x.Free(2)
	if n > 2000 && vars != 1 {
		return
	}
	args := make([]model.Value, n)
	for i := range args {
		args[i] = model.Var([]string{"x", "y"}[i%vars])
	}
	c14Placed(x, w, args)
}

// c14Placed puts an expression into the sides of a rule.
func c14Placed(x *explore.X, w string, args []model.Value) {
	switch x.Free(4) {
	case 0:
		checkVerdict(x, rule(sx(w, args...), model.Var("x")))
	case 1:
		checkVerdict(x, rule(sx("Add8", model.Var("x"), sx(w, args...)), model.Var("x")))
	case 2:
		checkVerdict(x, rule(sx("Not", model.Var("x")), sx(w, args...)))
	case 3:
		checkVerdict(x, rule(sx(w, args...), sx(w, args...)))
	}
}

// c14Positions puts one offence at every position of a tree.
func c14Positions(x *explore.X, max int) {
	sort := sorts[x.Free(len(sorts))]
	names, arity := smt.Ops(sort)
	bin, un := names[1], names[len(names)-1]
	_ = arity
	n := max
	var all []*model.S
	vn := 0
	var mk func(top bool) model.Value
	mk = func(top bool) model.Value {
		k := x.Free(3)
		if top && k == 0 {
			k = 2
		}
		if n == 0 || k == 0 {
			vn++
			return model.Var(fmt.Sprintf("v%d", vn%3))
		}
		n--
		var s *model.S
		if k == 1 {
			s = sx(un)
			all = append(all, s)
			s.Args = []model.Value{mk(false)}
		} else {
			s = sx(bin)
			all = append(all, s)
			s.Args = []model.Value{mk(false), mk(false)}
		}
		return s
	}
	n = max - 2
	m := mk(true)
	n += 2
	r := rule(m, mk(false))
	x.Describe(func() string { return r.Print() })
	try := func() {
		x.Key(r.Canon())
		_, v := smt.Understand(r)
		b, err := smt2.Generate(r.ToAST())
		if v == smt.Refuse && err == nil {
			x.Fail("a rule that is not supported gets a script\n%s", clip(string(b)))
		}
		if v == smt.Produce && err != nil {
			x.Fail("a supported rule is refused: %v", err)
		}
		x.Validated(1)
	}
	try()
	for _, s := range all {
		saved := *s
		for i := 0; i < 6; i++ {
			setFeature(s, i)
			try()
			*s = saved
		}
		op := s.Op[0].Lit
		for _, o := range [][]model.Part{
			{{Alt: []string{op, op}}}, {{Lit: op}, {Alt: []string{"", "x"}}}, {{Lit: "Frob8"}}, {{Lit: ""}}, {{Lit: op + "x"}},
			{{Lit: otherOp(sort, len(s.Args))}},
		} {
			s.Op = o
			try()
			*s = saved
		}
		for k := range s.Args {
			for _, a := range []model.Value{&model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}, sx(otherOp(sort, 1), model.Var("q")), sx(otherOp(sort, 2), model.Var("v1"), model.Var("v2"))} {
				s.Args = append([]model.Value{}, saved.Args...)
				s.Args[k] = a
				try()
				*s = saved
			}
		}
		s.Args = append(append([]model.Value{}, saved.Args...), model.Var("v1"))
		try()
		s.Args = saved.Args[:len(saved.Args)-1]
		try()
		*s = saved
	}
	r.Cond = model.Id("c")
	try()
	r.Cond = nil
	r.Block = "b"
	try()
	r.Block = ""
}

// otherOp is an operator of another sort.
func otherOp(s smt.Sort, arity int) string {
	if s == 64 || s == 0 {
		return map[int]string{1: "Com32", 2: "Xor32"}[arity]
	}
	return map[int]string{1: "Neg64", 2: "Sub64"}[arity]
}
