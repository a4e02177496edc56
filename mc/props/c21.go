package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

func init() {
	All["C21"] = &Prop{
		Level:  "model_checking",
		States: "distinct trees (canonical forms) dumped",
		Bounds: "features: every rule with at most 2 (thorough 3) features over the default, dumped to a string, a writer and standard output, compared with the dump of an independent copy, of the same rule parsed from two layouts, and with the dump of every single change to it; map: the dumps of all rules with at most 2 (3) features of all skeletons are in one-to-one correspondence with the trees; spelling, sizes: every identifier of the dictionary in every place and every size dimension, compared with its neighbours; sized-features: the dumps of the rules as in C01, up to 70 (300), are in one-to-one correspondence with the trees, too; characters: in each of 7 slots all texts of two printable ASCII characters, all bytes, and all characters up to U+2FFF and every 85th (all) of the rest; long: names, types, blocks, literals and alternatives of 10 kinds, of lengths around powers of 2, 10 and the constants of the sources up to 70000 (2^20+1), changed at one of 23 places; roots: every node kind; corpus: every rule of the repository against every other",
		Assume: []string{"trees in which no node occurs twice, types and blocks without line breaks, empty lists represented alike; roots of one kind are compared"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "features", Share: 3, Bound: pick(tier, 2, 3), Run: func(x *explore.X) {
					sks := gen.Skeletons
					if tier == "quick" {
						sks = []gen.RuleSk{sks[0], sks[2], sks[3], sks[6], sks[8]}
					}
					r := gen.Rule(x, sks[x.Free(len(sks))], gen.DefaultOpts())
					checkDumps(x, r)
				}},
				{Name: "all", Share: 2, Bound: 1, Run: func(x *explore.X) {
					checkDumps(x, gen.Rule(x, gen.Skeletons[x.Free(len(gen.Skeletons))], gen.DefaultOpts()))
				}},
				{Name: "map", Share: 2, Bound: pick(tier, 2, 3), Serial: true, Run: c21Map},
				{Name: "go-map", Share: 2, Bound: pick(tier, 3, 4), Serial: true, Run: func(x *explore.X) { c21GoMap(x, tier) }},
				{Name: "spelling", Run: c21Spelling},
				{Name: "sizes", Run: c21Sizes},
				{Name: "sized-features", Serial: true, Run: func(x *explore.X) {
					if r := sizedFeatures(x, pick(tier, 70, 300)); r != nil {
						canon := r.Canon()
						x.Describe(func() string { return r.Print() })
						x.Key(canon)
						bijective(x, "rule", canon, dump(x, r.ToAST()))
					}
				}},
				{Name: "long", Run: func(x *explore.X) { c21Long(x, pick(tier, 70000, 1<<20+1)) }},
				{Name: "characters", Serial: true, Run: func(x *explore.X) { c21Characters(x, tier == "thorough") }},
				{Name: "roots", Run: c21Roots},
				{Name: "corpus", Run: c21Corpus},
			}
		},
	}
}

func dump(x *explore.X, n ast.Node) string {
	s, err := ast.Dump(n)
	if err != nil {
		x.Fail("dumping fails: %v", err)
	}
	return s
}

// checkOutputs compares the three ways of dumping.
func checkOutputs(x *explore.X, n ast.Node) string {
	d := dump(x, n)
	var b bytes.Buffer
	if err := ast.Fprint(&b, n); err != nil {
		x.Fail("dumping to a writer fails: %v", err)
	}
	same(x, "dump to a writer", b.String(), d)
	return d
}

// copyRule returns an independent copy.
func copyRule(r *model.Rule) *model.Rule { return model.FromRule(r.ToAST()) }

// mutate applies the k-th single change to r; ok is false if there is none.
func mutate(r *model.Rule, k int) (what string, ok bool) {
	n := -1
	var done string
	hit := func(w string) bool {
		n++
		if n == k {
			done = w
			return true
		}
		return false
	}
	word := func(s *string, what string) {
		for i, t := range []string{*s + "q", "", "q" + *s, *s + " ", "*" + *s, strings.ToUpper(*s)} {
			if t != *s && hit(fmt.Sprintf("%s: %q instead of %q", what, t, *s)) {
				*s = t
			}
			if i == 0 && *s == "" && (what == "type" || what == "block" || what == "binding") {
				break
			}
		}
	}
	flip := func(b *bool, what string) {
		if hit(what) {
			*b = !*b
		}
	}
	var gox func(p **model.GoX, what string, opt bool)
	gox = func(p **model.GoX, what string, opt bool) {
		e := *p
		if e == nil {
			if hit(what + " added") {
				*p = model.Id("c")
			}
			return
		}
		if opt && hit(what+" removed") {
			*p = nil
		}
		if hit(what + " in parentheses") {
			*p = model.Paren(e)
		}
		if hit(what + " replaced") {
			*p = model.Id("q1")
		}
		switch e.Kind {
		case model.KIdent, model.KSel:
			if hit(what + " renamed") {
				e.Text += "q"
			}
		case model.KLit:
			if hit(what + " value") {
				e.Text += "0"
			}
		case model.KBin:
			op := "-"
			if e.Text == "-" {
				op = "+"
			}
			if hit(what + " operator") {
				e.Text = op
			}
			if e.X[0].Canon() != e.X[1].Canon() && hit(what+" operands swapped") {
				e.X[0], e.X[1] = e.X[1], e.X[0]
			}
		case model.KUnary:
			op := "-"
			if e.Text == "-" {
				op = "^"
			}
			if hit(what + " operator") {
				e.Text = op
			}
		case model.KCall:
			if len(e.X) > 1 {
				flip(&e.Var, what+" variadic")
				if hit(what + " last argument removed") {
					e.X, e.Var = e.X[:len(e.X)-1], e.Var && len(e.X) > 2
				}
			}
			if hit(what + " argument added") {
				e.X = append(e.X, model.Id("q2"))
			}
		}
		for i := range e.X {
			gox(&e.X[i], fmt.Sprintf("%s.%d", what, i), false)
		}
	}
	var value func(p *model.Value, what string)
	value = func(p *model.Value, what string) {
		switch v := (*p).(type) {
		case model.Var:
			if hit(what + " renamed") {
				*p = v + "q"
			}
			if hit(what + " made an S-expression") {
				*p = sx(string(v))
			}
		case *model.Call:
			gox(&v.X, what, false)
		case *model.S:
			word(&v.Binding, "binding")
			word(&v.Type, "type")
			for i := range v.Op {
				pt := &v.Op[i]
				if pt.Alt == nil {
					if hit("operator renamed") {
						pt.Lit += "Q"
					}
					if hit("operator made a group") {
						pt.Alt, pt.Lit = []string{pt.Lit, "q"}, ""
					}
					continue
				}
				for k := range pt.Alt {
					if hit("alternative renamed") {
						pt.Alt[k] += "Q"
					}
				}
				if hit("alternative added") {
					pt.Alt = append(append([]string{}, pt.Alt...), "q")
				}
				if hit("alternatives swapped") && pt.Alt[0] != pt.Alt[1] {
					pt.Alt[0], pt.Alt[1] = pt.Alt[1], pt.Alt[0]
				}
			}
			if hit("part added") {
				v.Op = append(append([]model.Part{}, v.Op...), model.Part{Alt: []string{"q", "r"}})
			}
			gox(&v.AuxInt, what+" AuxInt", true)
			gox(&v.Aux, what+" Aux", true)
			if v.AuxInt != nil && v.Aux == nil && hit(what+" AuxInt made Aux") {
				v.AuxInt, v.Aux = nil, v.AuxInt
			}
			flip(&v.Ellipsis, what+" ellipsis")
			flip(&v.Trailing, what+" trailing")
			if hit(what + " argument added") {
				v.Args = append(v.Args, model.Var("q3"))
			}
			if len(v.Args) > 0 && hit(what+" first argument removed") {
				v.Args = v.Args[1:]
				return
			}
			if len(v.Args) > 0 && hit(what+" last argument removed") {
				v.Args = v.Args[:len(v.Args)-1]
				return
			}
			for i := range v.Args {
				if i > 0 && model.CanonValue(v.Args[i]) != model.CanonValue(v.Args[i-1]) && hit(what+" arguments swapped") {
					v.Args[i], v.Args[i-1] = v.Args[i-1], v.Args[i]
					return
				}
				value(&v.Args[i], fmt.Sprintf("%s.%d", what, i))
			}
		}
	}
	value(&r.Match, "match")
	gox(&r.Cond, "condition", true)
	word(&r.Block, "block")
	value(&r.Result, "result")
	if model.CanonValue(r.Match) != model.CanonValue(r.Result) && hit("match and result exchanged") {
		r.Match, r.Result = r.Result, r.Match
	}
	return done, done != ""
}

func checkDumps(x *explore.X, r *model.Rule) {
	r = copyRule(r)
	text := r.Print()
	canon := r.Canon()
	x.Describe(func() string { return text })
	x.Key(canon)
	d := checkOutputs(x, r.ToAST())
	same(x, "dump of an equal tree", dump(x, copyRule(r).ToAST()), d)
	p := parsedRule(x, text)
	pd := checkOutputs(x, p)
	same(x, "dump of the same rule parsed from another layout", dump(x, parsedRule(x, "// c\n\t"+strings.ReplaceAll(text, " => ", "\n=>\n")+"  // d")), pd)
	// Without its required parts.
	for k := 0; k < 3; k++ {
		t := r.ToAST()
		switch k {
		case 0:
			t.Result = nil
		case 1:
			t.Match = nil
		case 2:
			t.Result, t.Match = nil, t.Result
		}
		if dump(x, t) == d {
			x.Fail("the dump is the same without one of the sides")
		}
	}
	for k := 0; ; k++ {
		m := copyRule(r)
		what, ok := mutate(m, k)
		if !ok {
			break
		}
		if m.Canon() == canon {
			continue
		}
		x.Validated(1)
		if dump(x, m.ToAST()) == d {
			x.Fail("the dump is the same after a change (%s) to\n%s", what, m.Canon())
		}
	}
}

func parsedRule(x *explore.X, text string) *ast.Rule {
	f, err := parse.String(text)
	if err != nil {
		x.Fail("well-formed text is rejected: %v", err)
	}
	if len(f.Rules) != 1 {
		x.Fail("one rule is read as %d", len(f.Rules))
	}
	return f.Rules[0]
}

func hash2(s string) [2]uint64 {
	h := fnv.New128a()
	h.Write([]byte(s))
	b := h.Sum(nil)
	var r [2]uint64
	for i := 0; i < 8; i++ {
		r[0] = r[0]<<8 | uint64(b[i])
		r[1] = r[1]<<8 | uint64(b[i+8])
	}
	return r
}

var dumpOf, treeOf = map[[2]uint64][2]uint64{}, map[[2]uint64][2]uint64{}

// bijective fails if the dump belongs to another tree, or the tree has another dump.
func bijective(x *explore.X, kind, canon, d string) {
	hc, hd := hash2(kind+canon), hash2(kind+d)
	if old, ok := treeOf[hd]; ok && old != hc {
		x.Fail("another tree has the same dump:\n%s\nas\n%s", clip(d), clip(canon))
	}
	if old, ok := dumpOf[hc]; ok && old != hd {
		x.Fail("an equal tree had another dump than\n%s\nfor %s", clip(d), clip(canon))
	}
	treeOf[hd], dumpOf[hc] = hc, hd
}

func c21Map(x *explore.X) {
	r := gen.Rule(x, gen.Skeletons[x.Free(len(gen.Skeletons))], gen.DefaultOpts())
	canon := r.Canon()
	x.Describe(func() string { return r.Print() })
	x.Key(canon)
	bijective(x, "rule", canon, dump(x, r.ToAST()))
}

func c21GoMap(x *explore.X, tier string) {
	e, _ := goExpr(x, tier)
	canon := e.Canon()
	x.Describe(func() string { return e.Print() })
	x.Key(canon)
	bijective(x, "expr", canon, dump(x, &ast.Expr{Expr: e.ToGo()}))
}

func c21Spelling(x *explore.X) {
	r, _ := spelled(x)
	if r == nil || strings.Contains(r.Print(), "\n") {
		return
	}
	checkDumps(x, r)
}

func c21Sizes(x *explore.X) {
	d := dims[x.Free(len(dims))]
	ns := dict().Sizes(3, min(d.max, 600))
	n := ns[x.Free(len(ns))]
	rs, ok := d.make(n)
	more, ok2 := d.make(n + 1)
	if !ok || !ok2 {
		return
	}
	x.Describe(func() string { return fmt.Sprintf("%s=%d", d.name, n) })
	x.Key(d.name, fmt.Sprint(n))
	a := checkOutputs(x, model.FileAST(rs))
	same(x, "dump of an equal tree", dump(x, model.FileAST(rs)), a)
	if dump(x, model.FileAST(more)) == a {
		x.Fail("the dump is the same for sizes %d and %d", n, n+1)
	}
	if len(rs) == 0 {
		return
	}
	// The last thing changed.
	last := copyRule(rs[len(rs)-1])
	changed := append(append([]*model.Rule{}, rs[:len(rs)-1]...), last)
	for _, v := range []string{"a", "b"} {
		last.Block += v
		if dump(x, model.FileAST(changed)) == a {
			x.Fail("the dump is the same with block %s in the last rule", v)
		}
	}
}

// c21Long compares the dumps of trees with a long name, type or block that differ in one
// character.
func c21Long(x *explore.X, max int) {
	ns := dict().Sizes(0, max)
	n := ns[x.Free(len(ns))]
	if n < 40 {
		return
	}
	make := func(w string) (ns []ast.Node) { return nil }
	kind := x.Free(10)
	s := func(w string) *ast.SExpr {
		return &ast.SExpr{Op: ast.Opcode("A"), Args: []ast.Value{ast.Variable("x")}}
	}
	rl := func(e *ast.SExpr) *ast.Rule { return &ast.Rule{Match: e, Result: ast.Variable("x")} }
	nodes := func(e *ast.SExpr) []ast.Node { return []ast.Node{e, rl(e), &ast.File{Rules: []*ast.Rule{rl(e)}}} }
	switch kind {
	case 0:
		make = func(w string) []ast.Node { e := s(w); e.Op = ast.Opcode(w); return append(nodes(e), ast.Opcode(w)) }
	case 1:
		make = func(w string) []ast.Node { e := s(w); e.Binding = ast.Variable(w); return nodes(e) }
	case 2:
		make = func(w string) []ast.Node { e := s(w); e.Type = ast.Type(w); return nodes(e) }
	case 3:
		make = func(w string) []ast.Node {
			e := s(w)
			e.Args[0] = ast.Variable(w)
			return append(nodes(e), ast.Variable(w))
		}
	case 4:
		make = func(w string) []ast.Node {
			r := rl(s(w))
			r.Block = w
			return []ast.Node{r, &ast.File{Rules: []*ast.Rule{r}}}
		}
	case 5, 6, 7:
		make = func(w string) []ast.Node {
			g := model.Id(w)
			if kind == 6 {
				g = model.Lit("STRING", "`"+w+"`")
			} else if kind == 7 {
				g = model.Sel(model.Id("a"), w)
			}
			e := s(w)
			e.Aux = &ast.Expr{Expr: g.ToGo()}
			return append(nodes(e), e.Aux)
		}
	case 8:
		make = func(w string) []ast.Node {
			a := ast.OpcodeAlt{"a", ast.Opcode(w)}
			e := s(w)
			e.Op = ast.OpcodeParts{ast.Opcode("A"), a}
			return append(nodes(e), a, e.Op)
		}
	case 9:
		make = func(w string) []ast.Node {
			e := s(w)
			e.Op = ast.OpcodeParts{ast.Opcode(w), ast.OpcodeAlt{"a", "b"}}
			return append(nodes(e), e.Op)
		}
	}
	x.Describe(func() string { return fmt.Sprintf("kind %d, length %d", kind, n) })
	x.Key(fmt.Sprint(kind), fmt.Sprint(n))
	w := strings.Repeat("aB0_c", n/5+1)[:n]
	base := make(w)
	var dumps []string
	for _, b := range base {
		dumps = append(dumps, dump(x, b))
	}
	ws := []string{w + "a", w[1:], w[:n-1], w[:n/2] + w[n/2+1:]}
	for _, at := range []int{0, 1, 2, 15, 16, 31, 32, n / 4, n / 3, n / 2, n - n/3, n - n/4, n - 33, n - 32, n - 17, n - 16, n - 3, n - 2, n - 1} {
		ws = append(ws, w[:at]+"q"+w[at+1:])
	}
	for _, v := range ws {
		for i, b := range make(v) {
			x.Validated(1)
			if dump(x, b) == dumps[i] {
				x.Fail("two names of about %d characters have the same dump in %s", n, nodeName(b))
			}
		}
	}
}

func c21Roots(x *explore.X) {
	ts := c17Trees
	i, j := x.Free(len(ts)), x.Free(len(ts))
	a, b := ts[i], ts[j]
	x.Describe(func() string { return nodeName(a) + " and " + nodeName(b) })
	x.Key(nodeName(a), nodeName(b))
	da := checkOutputs(x, a)
	if i == j {
		got, err := captureStdout(x, func() error { return ast.Print(a) })
		if err != nil {
			x.Fail("dumping to standard output fails: %v", err)
		}
		same(x, "dump to standard output", got, da)
		return
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return
	}
	db := dump(x, b)
	if ca, cb := model.Full(a), model.Full(b); (da == db) != (ca == cb) {
		x.Fail("equal dumps: %v, equal trees: %v", da == db, ca == cb)
	}
}

var corpusDumps []string

func c21Corpus(x *explore.X) {
	ls := corpusLines()
	if corpusDumps == nil {
		for _, l := range ls {
			corpusDumps = append(corpusDumps, dump(x, parsedRule(x, l)))
		}
	}
	i := x.Free(len(ls))
	x.Describe(func() string { return ls[i] })
	x.Key(ls[i])
	r := parsedRule(x, ls[i])
	d := checkOutputs(x, r)
	c := model.CanonAST(r)
	for k, e := range corpusDumps {
		if (e == d) != (k == i) && model.CanonAST(parsedRule(x, ls[k])) != c {
			x.Fail("the dump of %q is that of %q", ls[i], ls[k])
		}
	}
	x.Validated(len(ls))
}
