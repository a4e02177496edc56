package props

import (
	"fmt"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/rules"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

func init() {
	All["C10"] = &Prop{
		Level:  "model_checking",
		States: "distinct rules for which all six predicates were compared with the reference",
		Bounds: "features: every combination of at most 3 (thorough 4) feature deviations from small skeletons, 2 (3) from larger ones; positions: every pair of trees with together at most 5 (6) expressions, every single expression carrying every subset of the six features, and every expression but one carrying it; sizes: the feature at the deepest or last of n expressions, all small n and sizes around powers of 2, 10 and the constants of the sources, and 65537 (thorough 131073); shared: 7452 rules in whose trees all equal parts are one object; spelling: bindings, types, blocks and names of every dictionary word; sized-features, twins, expressions: as in C01; corpus: every rule of the repository's rules files",
		Assume: []string{"the reference model's own traversal defines where a feature occurs"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "features", Bound: pick(tier, 3, 4), Share: 4, Run: func(x *explore.X) {
					checkFeatures(x, gen.Rule(x, small[x.Free(len(small))], gen.DefaultOpts()))
				}},
				{Name: "features-full", Bound: pick(tier, 2, 3), Share: 3, Run: func(x *explore.X) {
					checkFeatures(x, gen.Rule(x, large[x.Free(len(large))], gen.DefaultOpts()))
				}},
				{Name: "positions", Share: 3, Run: func(x *explore.X) { c10Positions(x, pick(tier, 5, 6)) }},
				{Name: "sizes", Run: func(x *explore.X) { c10Sizes(x, tier) }},
				{Name: "bulk", Split: 2, Hang: 100 * time.Second, Run: func(x *explore.X) { c10Bulk(x, tier) }},
				{Name: "spelling", Run: func(x *explore.X) {
					if r, _ := spelled(x); r != nil {
						checkFeatures(x, r)
					}
				}},
				sizedFeaturesSub(pick(tier, 300, 1100), checkFeatures),
				sharedSub(sharedRules, checkFeatures),
				{Name: "expressions", Bound: pick(tier, 3, 4), Run: func(x *explore.X) { checkFeatures(x, withExpr(x)) }},
				{Name: "twins", Run: func(x *explore.X) {
					for _, r := range twins(x) {
						checkFeatures(x, r)
					}
				}},
				{Name: "corpus", Run: func(x *explore.X) {
					ls := corpusLines()
					l := ls[x.Free(len(ls))]
					x.Describe(func() string { return l })
					f, err := parse.String(l)
					if err != nil {
						return
					}
					for _, r := range f.Rules {
						checkFeatures(x, model.FromRule(r))
						checkPredicates(x, r, model.FromRule(r))
					}
				}},
			}
		},
	}
	All["C11"] = &Prop{
		Level:  "model_checking",
		States: "distinct pairs of tree and traversal decisions (prune, continue, change visitor at each visit)",
		Bounds: "walk: every combination of feature deviations from any skeleton and traversal decisions other than 'continue' with together at most 2 (thorough 3) of them; prune: every set of pruned nodes (exhaustive) on 8 trees that have every node kind; contains: every tree with at most 2 (3) deviations, with the predicate true at every single node, at every node type, at all and at none; shared: as in C10; roots: each of the eight node kinds; sizes: 21 dimensions; bulk, mixed, sized-features, expressions: as in C01",
		Assume: []string{"the order of the children of a node is that of its fields in source order, as the property lists them"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "walk", Bound: pick(tier, 2, 3), Share: 5, Run: func(x *explore.X) {
					checkWalk(x, c11Tree(x), false)
				}},
				{Name: "prune", Share: 2, Run: func(x *explore.X) {
					ts := c11Trees()
					checkWalk(x, ts[x.Free(len(ts))], true)
				}},
				{Name: "contains", Bound: pick(tier, 2, 3), Share: 3, Run: func(x *explore.X) {
					checkContains(x, c11Tree(x))
				}},
				{Name: "sizes", Run: func(x *explore.X) {
					rs, name := sizedRules(x, pick(tier, 40, 200), pick(tier, 5000, 20000))
					if rs == nil {
						return
					}
					x.Key(name)
					n := ast.Node(model.FileAST(rs))
					x.Describe(func() string { return name })
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
					last := want[len(want)-1]
					if !ast.Contains(n, func(m ast.Node) bool { return sameNode(m, last) }) {
						x.Fail("the last node is not found")
					}
				}},
				{Name: "expressions", Bound: pick(tier, 3, 4), Run: func(x *explore.X) {
					r := withExpr(x)
					x.Describe(func() string { return r.Print() })
					x.Key(r.Canon())
					n := ast.Node(model.FileAST([]*model.Rule{r}))
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
				}},
				sharedSub(sharedRules, func(x *explore.X, r *model.Rule) {
					x.Describe(func() string { return r.Print() + " (equal parts are one object)" })
					x.Key(r.Canon())
					n := ast.Node(model.FileAST([]*model.Rule{r, r}))
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
				}),
				sizedFeaturesSub(pick(tier, 300, 1100), func(x *explore.X, r *model.Rule) {
					x.Key(r.Canon())
					n := ast.Node(r.ToAST())
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
				}),
				mixedSub(pick(tier, 1100, 9000), ruleKinds, func(x *explore.X, rs []*model.Rule) {
					x.Key(model.CanonFile(rs))
					n := ast.Node(model.FileAST(rs))
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
				}),
				bulkSub(tier, func(x *explore.X, rs []*model.Rule) {
					n := ast.Node(model.FileAST(rs))
					var got, want []ast.Node
					ast.Inspect(n, func(n ast.Node) bool { got = append(got, n); return true })
					preorder(n, func(n ast.Node) { want = append(want, n) })
					sameNodes(x, got, want)
				}),
			}
		},
	}
}

var predicates = []struct {
	name string
	impl func(*ast.Rule) bool
	ref  func(model.Features) bool
}{
	{"HasBinding", rules.HasBinding, func(f model.Features) bool { return f.Binding }},
	{"HasType", rules.HasType, func(f model.Features) bool { return f.Type }},
	{"HasAux", rules.HasAux, func(f model.Features) bool { return f.Aux }},
	{"HasAuxInt", rules.HasAuxInt, func(f model.Features) bool { return f.AuxInt }},
	{"HasEllipsis", rules.HasEllipsis, func(f model.Features) bool { return f.Ellipsis }},
	{"HasTrailing", rules.HasTrailing, func(f model.Features) bool { return f.Trailing }},
}

func checkPredicates(x *explore.X, a *ast.Rule, r *model.Rule) {
	f := model.FeaturesOf(r)
	for _, p := range predicates {
		if got, want := p.impl(a), p.ref(f); got != want {
			x.Fail("%s is %v for %s", p.name, got, clip(r.Print()))
		}
	}
	x.Validated(len(predicates))
}

func checkFeatures(x *explore.X, r *model.Rule) {
	x.Describe(func() string { return clip(r.Print()) })
	x.Key(r.Canon())
	x.Outcome = shape(r)
	checkPredicates(x, r.ToAST(), r)
}

// tree generates an expression with at most *n expressions.
func tree(x *explore.X, n *int, all *[]*model.S, name *int) *model.S {
	s := sx(string(rune('A' + *name)))
	*name++
	*n--
	*all = append(*all, s)
	for {
		// A leaf, another expression, or no more arguments.
		k := x.Free(3)
		if k == 0 || k == 1 && len(s.Args) > 2 || k == 2 && *n == 0 {
			return s
		}
		if k == 1 {
			s.Args = append(s.Args, model.Var("x"))
		} else {
			s.Args = append(s.Args, tree(x, n, all, name))
		}
		if len(s.Args) == 3 {
			return s
		}
	}
}

func setFeature(s *model.S, i int) {
	switch i {
	case 0:
		s.Binding = "b"
	case 1:
		s.Type = "t"
	case 2:
		s.Aux = model.Id("sym")
	case 3:
		s.AuxInt = model.Id("c")
	case 4:
		s.Ellipsis = true
	case 5:
		s.Trailing = true
	}
}

func c10Positions(x *explore.X, max int) {
	n, name := max-2, 0
	var all []*model.S
	m := tree(x, &n, &all, &name)
	var res model.Value
	switch x.Free(3) {
	case 0:
		res = model.Var("x")
	case 1:
		res = &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))}
	case 2:
		n++
		res = tree(x, &n, &all, &name)
	}
	r := rule(m, res)
	// All assignments are evaluated in one execution: they are independent.
	build := func(set func()) {
		for _, s := range all {
			s.Binding, s.Type, s.Aux, s.AuxInt, s.Ellipsis, s.Trailing = "", "", nil, nil, false, false
		}
		set()
		checkPredicates(x, r.ToAST(), r)
		x.Key(r.Canon())
	}
	x.Describe(func() string { return r.Print() })
	for _, s := range all {
		for set := 0; set < 64; set++ {
			build(func() {
				for i := 0; i < 6; i++ {
					if set>>uint(i)&1 == 1 {
						setFeature(s, i)
					}
				}
			})
		}
		for i := 0; i < 6; i++ {
			// Everywhere else all the other features, too.
			build(func() {
				for _, t := range all {
					for j := 0; j < 6; j++ {
						if j != i {
							setFeature(t, j)
						}
					}
				}
				setFeature(s, i)
				r.Cond, r.Block = model.Id("c"), "b"
			})
			build(func() {
				for _, t := range all {
					for j := 0; j < 6; j++ {
						if j != i {
							setFeature(t, j)
						}
					}
				}
			})
			r.Cond, r.Block = nil, ""
		}
	}
}

func c10Sizes(x *explore.X, tier string) {
	d := x.Free(4)
	i := x.Free(6)
	ns := dict().Sizes(pick(tier, 40, 200), pick(tier, 3000, 20000))
	r := c10At(x, d, i, ns[x.Free(len(ns))])
	checkPredicates(x, r.ToAST(), r)
}

func c10Bulk(x *explore.X, tier string) {
	d := x.Free(4)
	i := x.Free(6)
	ns := bulkSizes(false, tier)
	r := c10At(x, d, i, ns[x.Free(len(ns))])
	x.Apart(func() { checkPredicates(x, r.ToAST(), r) })
}

func c10At(x *explore.X, d, i, n int) *model.Rule {
	last := sx("L", model.Var("x"))
	setFeature(last, i)
	var r *model.Rule
	switch d {
	case 0:
		m := sx("A", vars(n)...)
		m.Args = append(m.Args, last)
		r = rule(m, model.Var("x"))
	case 1:
		m := sx("A")
		for k := 0; k < n; k++ {
			m.Args = append(m.Args, sx("N", model.Var("x")))
		}
		m.Args = append(m.Args, last)
		r = rule(model.Var("x"), m)
	case 2:
		v := last
		for k := 0; k < n; k++ {
			v = sx("D", v, model.Var("y"))
		}
		r = rule(v, sx("B"))
	case 3:
		v := last
		for k := 0; k < n; k++ {
			v = sx("D", model.Var("y"), v)
		}
		r = rule(sx("B"), v)
	}
	x.Describe(func() string {
		return fmt.Sprintf("%s at the end of size %d (%s)", predicates[i].name, n, []string{"variables", "arguments", "depth, first argument", "depth, last argument"}[d])
	})
	x.Key(fmt.Sprint(d, i, n))
	return r
}

// ---- traversal ----

// children of an implementation node, in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	switch n := n.(type) {
	case *ast.File:
		for _, r := range n.Rules {
			out = append(out, r)
		}
	case *ast.Rule:
		out = append(out, n.Match)
		if n.Condition != nil {
			out = append(out, n.Condition)
		}
		out = append(out, n.Result)
	case *ast.SExpr:
		out = append(out, n.Op)
		if n.AuxInt != nil {
			out = append(out, n.AuxInt)
		}
		if n.Aux != nil {
			out = append(out, n.Aux)
		}
		for _, a := range n.Args {
			out = append(out, a)
		}
	case ast.OpcodeParts:
		for _, p := range n {
			out = append(out, p)
		}
	}
	return out
}

func preorder(n ast.Node, f func(ast.Node)) {
	f(n)
	for _, c := range children(n) {
		preorder(c, f)
	}
}

// sameNode reports whether a and b are the same node: the same pointer, or equal
// values for nodes that are not pointers.
func sameNode(a, b ast.Node) bool {
	switch a := a.(type) {
	case *ast.File:
		b, ok := b.(*ast.File)
		return ok && a == b
	case *ast.Rule:
		b, ok := b.(*ast.Rule)
		return ok && a == b
	case *ast.SExpr:
		b, ok := b.(*ast.SExpr)
		return ok && a == b
	case *ast.Expr:
		b, ok := b.(*ast.Expr)
		return ok && a == b
	case ast.Opcode:
		b, ok := b.(ast.Opcode)
		return ok && a == b
	case ast.Variable:
		b, ok := b.(ast.Variable)
		return ok && a == b
	case ast.OpcodeParts:
		_, ok := b.(ast.OpcodeParts)
		return ok && model.CanonAST(a) == model.CanonAST(b)
	case ast.OpcodeAlt:
		_, ok := b.(ast.OpcodeAlt)
		return ok && model.CanonAST(a) == model.CanonAST(b)
	}
	return false
}

func nodeName(n ast.Node) string { return fmt.Sprintf("%T %s", n, clip(model.CanonAST(n))) }

func sameNodes(x *explore.X, got, want []ast.Node) {
	for i := range got {
		if i >= len(want) {
			x.Fail("visit %d is of %s after all nodes have been visited", i, nodeName(got[i]))
		}
		if !sameNode(got[i], want[i]) {
			x.Fail("visit %d is of %s instead of %s", i, nodeName(got[i]), nodeName(want[i]))
		}
	}
	if len(got) < len(want) {
		x.Fail("only %d nodes are visited; the next one should be %s", len(got), nodeName(want[len(got)]))
	}
}

// c11Tree generates a tree of every root kind.
func c11Tree(x *explore.X) ast.Node {
	r := gen.Rule(x, gen.Skeletons[x.Free(len(gen.Skeletons))], gen.DefaultOpts())
	switch x.Free(3) {
	case 0:
		return r.ToAST()
	case 1:
		k := ruleKinds(7)[3]
		return model.FileAST([]*model.Rule{r, k, r})
	default:
		return model.ValueAST(r.Match)
	}
}

func c11Trees() []ast.Node {
	c := &ast.Expr{Expr: model.Bin(model.Id("c"), "+", model.Int("1")).ToGo()}
	x := ast.Variable("x")
	alt := ast.OpcodeAlt{"a", "b"}
	parts := ast.OpcodeParts{ast.Opcode("A"), alt, ast.Opcode("z")}
	leaf := &ast.SExpr{Op: ast.Opcode("L")}
	mid := &ast.SExpr{Binding: "b", Op: parts, Type: "t", AuxInt: c, Aux: &ast.Expr{Expr: model.Id("s").ToGo()}, Args: []ast.Value{x, leaf, &ast.Expr{Expr: model.Fn(model.Id("f"), model.Id("x")).ToGo()}}, Trailing: true}
	r := &ast.Rule{Match: mid, Condition: c, Block: "b", Result: leaf}
	r2 := &ast.Rule{Match: x, Result: &ast.SExpr{Op: ast.Opcode("B"), Args: []ast.Value{leaf, x, ast.Placeholder, leaf}, Ellipsis: true}}
	return []ast.Node{
		ast.Opcode("A"), alt, parts, x, c, leaf, mid, r, r2,
		&ast.File{}, &ast.File{Rules: []*ast.Rule{r2}}, &ast.File{Rules: []*ast.Rule{r}},
		&ast.File{Rules: []*ast.Rule{{Match: leaf, Result: leaf}, {Match: x, Condition: c, Result: x}, {Match: leaf, Result: leaf}}},
		&ast.SExpr{Op: ast.OpcodeParts{alt, alt}, AuxInt: c, Args: []ast.Value{x, x, leaf}},
		&ast.SExpr{Op: ast.Opcode("A"), Aux: c, Args: []ast.Value{&ast.SExpr{Op: ast.Opcode("B"), Args: []ast.Value{&ast.SExpr{Op: ast.Opcode("C"), Args: []ast.Value{x}}, x}}}},
	}
}

type visit struct {
	visitor int
	node    ast.Node
}

type visitor struct {
	id  int
	rec *recorder
}

type recorder struct {
	x       *explore.X
	visits  []visit
	next    []int // what each visit decided: the visitor for the children, 0 for nil
	fresh   int
	choose  func(n int) int
	stopped bool
}

func (v *visitor) Visit(n ast.Node) ast.Visitor {
	r := v.rec
	if len(r.visits) > 100000 {
		r.x.Fail("the traversal does not end")
	}
	r.visits = append(r.visits, visit{v.id, n})
	switch r.choose(3) {
	case 0:
		r.next = append(r.next, v.id)
		return v
	case 1:
		r.next = append(r.next, 0)
		return nil
	default:
		r.fresh++
		r.next = append(r.next, r.fresh)
		return &visitor{r.fresh, r}
	}
}

func checkWalk(x *explore.X, n ast.Node, all bool) {
	rec := &recorder{x: x, fresh: 1, choose: x.Choose}
	size := 0
	preorder(n, func(ast.Node) { size++ })
	mode := x.Free(2)
	if all {
		rec.choose = x.Free
	}
	what := ""
	x.Describe(func() string {
		return fmt.Sprintf("%s of %s with the decisions %v (0 prunes)", what, clip(model.CanonAST(n)), rec.next)
	})
	before := model.Full(n)
	if mode == 0 {
		what = "Walk"
		if all && size > 9 {
			// Too many for every combination of three decisions: prune or continue.
			rec.choose = func(int) int { return x.Free(2) }
		}
		ast.Walk(&visitor{1, rec}, n)
	} else {
		what = "Inspect"
		ast.Inspect(n, func(m ast.Node) bool {
			if len(rec.visits) > 100000 {
				x.Fail("the traversal does not end")
			}
			rec.visits = append(rec.visits, visit{1, m})
			c := rec.choose(2)
			rec.next = append(rec.next, 1-c)
			return c == 0
		})
	}
	x.Key(what, before, fmt.Sprint(rec.next))
	// The reference traversal with the same decisions.
	var want []visit
	var walk func(n ast.Node, v int)
	walk = func(n ast.Node, v int) {
		i := len(want)
		want = append(want, visit{v, n})
		if i >= len(rec.next) || rec.next[i] == 0 {
			return
		}
		for _, c := range children(n) {
			walk(c, rec.next[i])
		}
	}
	walk(n, 1)
	var g, w []ast.Node
	for i, v := range rec.visits {
		g = append(g, v.node)
		if i < len(want) && sameNode(v.node, want[i].node) && v.visitor != want[i].visitor {
			x.Fail("visit %d, of %s, is made with visitor %d instead of %d", i, nodeName(v.node), v.visitor, want[i].visitor)
		}
	}
	for _, v := range want {
		w = append(w, v.node)
	}
	sameNodes(x, g, w)
	same(x, "tree after the traversal", model.Full(n), before)
	x.Validated(len(w))
}

func checkContains(x *explore.X, n ast.Node) {
	var nodes []ast.Node
	preorder(n, func(m ast.Node) { nodes = append(nodes, m) })
	x.Describe(func() string { return clip(model.CanonAST(n)) })
	x.Key(model.Full(n))
	check := func(what string, p func(ast.Node) bool) {
		want := false
		for _, m := range nodes {
			want = want || p(m)
		}
		if got := ast.Contains(n, p); got != want {
			x.Fail("containment of %s is %v", what, got)
		}
		x.Validated(1)
	}
	for i, m := range nodes {
		check(fmt.Sprintf("node %d, %s", i, nodeName(m)), func(k ast.Node) bool { return sameNode(k, m) })
	}
	for _, t := range []string{"*ast.File", "*ast.Rule", "*ast.SExpr", "*ast.Expr", "ast.Opcode", "ast.OpcodeParts", "ast.OpcodeAlt", "ast.Variable", "none"} {
		t := t
		check("a node of type "+t, func(k ast.Node) bool { return fmt.Sprintf("%T", k) == t })
	}
	check("any node", func(ast.Node) bool { return true })
	check("a leaf", func(k ast.Node) bool { return len(children(k)) == 0 })
	check("an inner node", func(k ast.Node) bool { return len(children(k)) > 0 })
}
