// Package props defines the explorations that decide each property.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

// Prop is how one property is decided.
type Prop struct {
	Level  string
	Bounds string
	States string
	Assume []string
	// NoLimit lifts the address space limit.
	NoLimit bool
	Subs    func(tier string) []*explore.Sub
}

// All properties, by id.
var All = map[string]*Prop{}

// Root is the verification directory.
var Root = "/verif"

// Repo is the repository under verification.
var Repo = "/repo"

var cleanups []func()

// Cleanup removes what the explorations created.
func Cleanup() {
	for _, f := range cleanups {
		f()
	}
}

var (
	dictOnce sync.Once
	theDict  *gen.Dict
)

func dict() *gen.Dict {
	dictOnce.Do(func() { theDict = gen.ReadDict(Repo) })
	return theDict
}

func pick(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// words are the rules corpora of the repository, in name order.
func corpora() []string {
	fs, _ := filepath.Glob(filepath.Join(Repo, "internal/testdata/*.rules"))
	return fs
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// mustParse parses text, which is well-formed, and fails the execution otherwise.
func mustParse(x *explore.X, text string) *ast.File {
	f, err := parse.String(text)
	if err != nil {
		x.Fail("well-formed text is rejected: %v", err)
	}
	if f == nil {
		x.Fail("parsing returned neither a file nor an error")
	}
	return f
}

// same compares canonical forms.
func same(x *explore.X, what, got, want string) {
	if got != want {
		x.Fail("%s:\n got  %s\n want %s", what, around(got, want), around(want, got))
	}
}

// around shows a where it first differs from b.
func around(a, b string) string {
	if len(a) < 1200 {
		return a
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-200, i+400
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("…[%d]%s…", lo, a[lo:hi])
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func vars(n int) []model.Value {
	var vs []model.Value
	for i := 0; i < n; i++ {
		vs = append(vs, model.Var(fmt.Sprintf("v%d", i)))
	}
	return vs
}

func sx(op string, args ...model.Value) *model.S { return &model.S{Op: model.Op(op), Args: args} }

func rule(m, r model.Value) *model.Rule { return &model.Rule{Match: m, Result: r} }

// permutations of 0..n-1.
func permutation(x *explore.X, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		c := x.Free(len(rest))
		out = append(out, rest[c])
		rest = append(rest[:c:c], rest[c+1:]...)
	}
	return out
}

// perm chooses an order of the operands of s in which the arguments keep theirs.
func perm(x *explore.X, s *model.S) []int {
	n := s.Operands()
	k := n - len(s.Args)
	var out []int
	used := make([]bool, k)
	next := k
	for len(out) < n {
		var cand []int
		for i := 0; i < k; i++ {
			if !used[i] {
				cand = append(cand, i)
			}
		}
		if next < n {
			cand = append(cand, next)
		}
		c := cand[x.Free(len(cand))]
		if c < k {
			used[c] = true
		} else {
			next++
		}
		out = append(out, c)
	}
	return out
}

// sized builds a rule (or file) in which one dimension has size n; ok is false if the
// dimension has no such size.
type dimension struct {
	name string
	max  int
	make func(n int) (rs []*model.Rule, ok bool)
}

func one(m, r model.Value) ([]*model.Rule, bool) { return []*model.Rule{rule(m, r)}, true }

// dims are the size dimensions of rules files.
var dims = []dimension{
	{"args", 20000, func(n int) ([]*model.Rule, bool) {
		m := sx("A", vars(n)...)
		return one(m, sx("B", model.Var("x")))
	}},
	{"result-args", 20000, func(n int) ([]*model.Rule, bool) {
		m := sx("B", vars(n)...)
		m.Type, m.AuxInt, m.Aux, m.Ellipsis, m.Trailing = "t", model.Id("c"), model.Id("s"), true, true
		return one(sx("A"), m)
	}},
	{"nested-args", 5000, func(n int) ([]*model.Rule, bool) {
		m := sx("A")
		for i := 0; i < n; i++ {
			s := sx(fmt.Sprintf("N%d", i), model.Var(fmt.Sprintf("v%d", i)))
			if i%3 == 1 {
				s.Binding = fmt.Sprintf("b%d", i)
			}
			if i%3 == 2 {
				s.Type = fmt.Sprintf("T%d", i)
			}
			m.Args = append(m.Args, s)
		}
		return one(m, model.Var("x"))
	}},
	{"depth-first", 5000, func(n int) ([]*model.Rule, bool) {
		v := model.Value(model.Var("x"))
		for i := 0; i < n; i++ {
			v = sx(fmt.Sprintf("D%d", i), v, model.Var("y"))
		}
		if n == 0 {
			v = sx("A")
		}
		return one(v, sx("B"))
	}},
	{"depth-last", 5000, func(n int) ([]*model.Rule, bool) {
		v := model.Value(model.Var("x"))
		for i := 0; i < n; i++ {
			s := sx(fmt.Sprintf("D%d", i), model.Var("y"), v)
			switch i % 7 {
			case 1:
				s.Binding = "b"
			case 2:
				s.AuxInt = model.Id("c")
			case 3:
				s.Aux = model.Id("s")
			case 4:
				s.Type = "t"
			case 5:
				s.Trailing = true
			case 6:
				s.Ellipsis = true
			}
			v = s
		}
		return one(sx("A"), v)
	}},
	{"alternatives", 10000, func(n int) ([]*model.Rule, bool) {
		if n < 2 {
			return nil, false
		}
		var alt []string
		for i := 0; i < n; i++ {
			alt = append(alt, fmt.Sprint(i))
		}
		m := &model.S{Op: []model.Part{{Lit: "A"}, {Alt: alt}, {Lit: "z"}}, Args: vars(1)}
		return one(m, sx("B"))
	}},
	{"parts", 5000, func(n int) ([]*model.Rule, bool) {
		if n < 2 {
			return nil, false
		}
		var op []model.Part
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				op = append(op, model.Part{Lit: fmt.Sprintf("P%d", i)})
			} else {
				op = append(op, model.Part{Alt: []string{fmt.Sprintf("l%d", i), fmt.Sprintf("r%d", i)}})
			}
		}
		return one(&model.S{Op: op}, sx("B"))
	}},
	{"opcode-length", 200000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		return one(sx(rep("Op", n)[:n], model.Var("x")), sx("B"))
	}},
	{"variable-length", 200000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		return one(sx("A", model.Var(rep("vA_", n)[:n]), model.Var("x")), sx("B"))
	}},
	{"binding-length", 200000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		m := sx("A", model.Var("x"))
		m.Binding = rep("bA_", n)[:n]
		return one(m, sx("B"))
	}},
	{"type-length", 200000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		m := sx("A", model.Var("x"))
		m.Type = rep("t. (", n)[:n]
		return one(m, sx("B"))
	}},
	{"block-length", 200000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		rs, _ := one(sx("A", model.Var("x")), sx("B"))
		rs[0].Block = rep("b.C(", n)[:n]
		return rs, true
	}},
	{"rules", 20000, func(n int) ([]*model.Rule, bool) {
		var rs []*model.Rule
		for i := 0; i < n; i++ {
			rs = append(rs, rule(sx(fmt.Sprintf("R%d", i), model.Var("x")), sx(fmt.Sprintf("S%d", i))))
		}
		return rs, true
	}},
	{"call-args", 5000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		c := model.Fn(model.Id("f"))
		for i := 0; i < n; i++ {
			c.X = append(c.X, model.Id(fmt.Sprintf("a%d", i)))
		}
		return one(sx("A"), &model.Call{X: c})
	}},
	{"call-depth", 400, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		c := model.Id("x")
		for i := 0; i < n; i++ {
			c = model.Fn(model.Id(fmt.Sprintf("f%d", i)), c)
		}
		return one(sx("A", &model.Call{X: c}), sx("B"))
	}},
	{"conjuncts", 3000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		c := model.Id("c0")
		for i := 1; i < n; i++ {
			c = model.Bin(c, "&&", model.Bin(model.Id(fmt.Sprintf("c%d", i)), "==", model.Int(fmt.Sprint(i))))
		}
		rs, _ := one(sx("A"), sx("B"))
		rs[0].Cond = c
		return rs, true
	}},
	{"parens", 400, func(n int) ([]*model.Rule, bool) {
		c := model.Id("c")
		for i := 0; i < n; i++ {
			c = model.Paren(c)
		}
		m := sx("A")
		m.AuxInt = c
		return one(m, sx("B"))
	}},
	{"unary", 400, func(n int) ([]*model.Rule, bool) {
		c := model.Id("c")
		for i := 0; i < n; i++ {
			c = model.Un([]string{"-", "^", "!"}[i%3], c)
		}
		m := sx("A")
		m.Aux = c
		return one(m, sx("B"))
	}},
	{"digits", 10000, func(n int) ([]*model.Rule, bool) {
		if n < 1 {
			return nil, false
		}
		m := sx("A")
		m.AuxInt = model.Int("1" + rep("0", n-1))
		m.Aux = model.Lit("STRING", `"`+rep("s", n)+`"`)
		return one(m, sx("B"))
	}},
	{"params", 3000, func(n int) ([]*model.Rule, bool) {
		c := model.Fn(model.Id("f"))
		for i := 0; i < n; i++ {
			c.X = append(c.X, model.Id(fmt.Sprintf("a%d", i)))
		}
		m := sx("A")
		m.Aux = c
		return one(m, sx("B"))
	}},
	{"selectors", 400, func(n int) ([]*model.Rule, bool) {
		c := model.Id("c")
		for i := 0; i < n; i++ {
			c = model.Sel(c, fmt.Sprintf("F%d", i))
		}
		m := sx("A")
		m.Aux = c
		return one(m, sx("B"))
	}},
}

// sizedRules chooses a dimension and a size.
func sizedRules(x *explore.X, all, max int) (rs []*model.Rule, name string) {
	d := dims[x.Free(len(dims))]
	m := max
	if d.max < m {
		m = d.max
	}
	ns := dict().Sizes(all, m)
	n := ns[x.Free(len(ns))]
	rs, ok := d.make(n)
	name = fmt.Sprintf("%s=%d", d.name, n)
	if !ok {
		return nil, name
	}
	return rs, name
}

// slots are the places in a rule that hold a spelling.
type slot struct {
	name string
	ok   func(w string) bool
	make func(w string) *model.Rule
}

func isOp(w string) bool { return w != "" }

// goName reports whether w can stand as an identifier in a Go expression.
func goName(w string) bool {
	if w == "" || w[0] >= '0' && w[0] <= '9' {
		return false
	}
	return !keywords[w]
}

var keywords = map[string]bool{"break": true, "case": true, "chan": true, "const": true, "continue": true, "default": true,
	"defer": true, "else": true, "fallthrough": true, "for": true, "func": true, "go": true, "goto": true, "if": true,
	"import": true, "interface": true, "map": true, "package": true, "range": true, "return": true, "select": true,
	"struct": true, "switch": true, "type": true, "var": true}

var slots = []slot{
	{"match-op", isOp, func(w string) *model.Rule { return rule(sx(w, model.Var("x")), sx("B")) }},
	{"bare-op", isOp, func(w string) *model.Rule { return rule(sx(w), sx(w)) }},
	{"nested-op", isOp, func(w string) *model.Rule { return rule(sx("A", sx(w), model.Var("x")), sx("B", sx("C", sx(w)))) }},
	{"result-op", isOp, func(w string) *model.Rule { return rule(sx("A"), sx(w, model.Var("x"), model.Var("y"))) }},
	{"op-alt", isOp, func(w string) *model.Rule {
		return rule(&model.S{Op: []model.Part{{Lit: "A"}, {Alt: []string{w, "b"}}, {Lit: "z"}}}, &model.S{Op: []model.Part{{Alt: []string{"b", w}}}})
	}},
	{"op-part", isOp, func(w string) *model.Rule {
		return rule(&model.S{Op: []model.Part{{Lit: w}, {Alt: []string{"a", "b"}}}}, &model.S{Op: []model.Part{{Alt: []string{"a", "b"}}, {Lit: w}}})
	}},
	{"binding", gen.IsVar, func(w string) *model.Rule {
		m := sx("A", model.Var("x"))
		m.Binding = w
		return rule(m, model.Var(w))
	}},
	{"nested-binding", gen.IsVar, func(w string) *model.Rule {
		m := sx("A", model.Var("x"))
		m.Binding = w
		return rule(sx("B", model.Var("y"), m), sx("C"))
	}},
	{"arg-variable", gen.IsVar, func(w string) *model.Rule {
		return rule(sx("A", model.Var(w)), sx("B", model.Var("x"), model.Var(w), model.Var("_")))
	}},
	{"rule-variable", gen.IsVar, func(w string) *model.Rule { return rule(model.Var(w), model.Var(w)) }},
	{"type", isOp, func(w string) *model.Rule {
		m := sx("A", model.Var("x"))
		m.Type = w
		return rule(m, m)
	}},
	{"block", isOp, func(w string) *model.Rule {
		r := rule(sx("A"), sx("B"))
		r.Block = w
		return r
	}},
	{"auxint-ident", goName, func(w string) *model.Rule {
		m := sx("A", model.Var("x"))
		m.AuxInt = model.Id(w)
		return rule(m, sx("B"))
	}},
	{"aux-ident", goName, func(w string) *model.Rule {
		m := sx("A", model.Var("x"))
		m.Aux = model.Fn(model.Id(w), model.Id("c"))
		return rule(sx("B"), m)
	}},
	{"cond-ident", goName, func(w string) *model.Rule {
		r := rule(sx("A"), sx("B"))
		r.Cond = model.Bin(model.Id(w), "&&", model.Sel(model.Id("x"), w))
		return r
	}},
	{"call-name", func(w string) bool { return gen.IsVar(w) && goName(w) }, func(w string) *model.Rule {
		return rule(sx("A", &model.Call{X: model.Fn(model.Id(w), model.Id("x"))}), &model.Call{X: model.Fn(model.Id(w), model.Id("y"))})
	}},
	{"call-arg", func(w string) bool { return gen.IsVar(w) && goName(w) }, func(w string) *model.Rule {
		return rule(sx("A"), &model.Call{X: model.Fn(model.Id("f"), model.Id("x"), model.Id(w))})
	}},
}

func inputOf(text func() string) func() string { return text }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var dictNamesCache []string

// dictNames are file and source names made of the string constants of the sources.
func dictNames() []string {
	if dictNamesCache == nil {
		dictNamesCache = []string{"x"}
		for _, t := range dict().Texts {
			if !strings.Contains(t, "\x00") {
				dictNamesCache = append(dictNamesCache, t, t+"x", "x"+t, "x."+t, t+"/x.rules")
			}
		}
	}
	return dictNamesCache
}
