// Package gen generates rules, expressions and texts by explored choices.
package gen

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/mc/explore"
	"verif/mc/model"
)

// Sk is a skeleton of a value: the shape a generator starts from.
type Sk struct {
	Kind string // "s", "x" (variable), "_" (placeholder), "f" (call)
	Args []Sk
}

// RuleSk is a skeleton of a rule.
type RuleSk struct {
	Name          string
	Match, Result Sk
	Cond, Block   bool
}

func s(args ...Sk) Sk { return Sk{"s", args} }

var (
	skx = Sk{Kind: "x"}
	sk_ = Sk{Kind: "_"}
	skf = Sk{Kind: "f"}
)

// Skeletons are the standard starting shapes.
var Skeletons = []RuleSk{
	{"leaf", s(), s(), false, false},
	{"unary", s(skx), s(skx), false, false},
	{"binary", s(skx, skx), skx, false, false},
	{"nest", s(s(skx), skx), s(skx, s(skx)), false, false},
	{"right", s(skx, s(skx, s(skx))), skf, false, false},
	{"full", s(s(skx, sk_), s(s(skx), skx), skx), s(s(skx), skx, s(skx, s(skx))), true, true},
	{"guard", s(skx, s()), s(s(), skx), true, false},
	{"block", s(sk_, skx), s(skx, s()), false, true},
	{"var", skx, s(skx), false, false},
	{"call", skf, skf, false, false},
}

// Opts are the generator's alphabets.
type Opts struct {
	Shapes   func(name string) [][]model.Part // first is the default
	Types    []string
	AuxInts  []*model.GoX
	Auxes    []*model.GoX
	Conds    []*model.GoX
	Calls    []*model.GoX
	Blocks   []string
	Bindings bool
	Marks    bool
	Kinds    string // argument kinds to vary over, e.g. "x_fs"
	Extra    int    // how many additional arguments may be inserted
	Perm     bool   // vary the order of operands
}

// AltShapes are operators with and without groups.
func AltShapes(n string) [][]model.Part {
	l := func(s string) model.Part { return model.Part{Lit: s} }
	a := func(s ...string) model.Part { return model.Part{Alt: s} }
	return [][]model.Part{
		{l(n)},
		{l(n), a("1", "2")},
		{a(n+"a", n+"b")},
		{a("p", "q"), l(n)},
		{l(n), a("8", "16"), l("z")},
		{a("u", "v"), a(n, "w")},
		{l(n), a("1", "2", "3")},
		{a(n, n)},
		{l(n), a("a", "b"), l("m"), a("c", "d"), l("e")},
	}
}

// PlainShapes are operators without groups.
func PlainShapes(n string) [][]model.Part {
	return [][]model.Part{{{Lit: n}}}
}

// DefaultOpts are small alphabets with every feature.
func DefaultOpts() *Opts {
	c, d := model.Id("c"), model.Id("d")
	return &Opts{
		Shapes:   AltShapes,
		Types:    []string{"t", "x.Type", "a,(b)"},
		AuxInts:  []*model.GoX{c, model.Int("1"), model.Un("-", model.Int("1")), model.Bin(c, "+", d)},
		Auxes:    []*model.GoX{model.Id("sym"), model.Fn(model.Id("f"), c, d), model.Sel(c, "X")},
		Conds:    []*model.GoX{c, model.Bin(model.Bin(c, "==", d), "&&", model.Un("!", model.Fn(model.Id("ok"), c))), model.Bin(c, ">=", model.Int("0"))},
		Calls:    []*model.GoX{model.Fn(model.Id("f"), model.Id("x")), model.Fn(model.Id("g"), model.Id("x"), model.Id("_")), model.Fn(model.Id("f"), model.Fn(model.Id("h"), model.Id("y")))},
		Blocks:   []string{"b", "x.Block", "a(b)"},
		Bindings: true,
		Marks:    true,
		Kinds:    "x_fs",
		Extra:    1,
		Perm:     false,
	}
}

type g struct {
	x    *explore.X
	o    *Opts
	ops  int
	vars int
}

// Rule generates a rule from a skeleton.
func Rule(x *explore.X, sk RuleSk, o *Opts) *model.Rule {
	return (&g{x: x, o: o}).rule(sk)
}

// Rules generates rules from skeletons, with distinct names.
func Rules(x *explore.X, sks []RuleSk, o *Opts) []*model.Rule {
	gg := &g{x: x, o: o}
	var rs []*model.Rule
	for _, sk := range sks {
		rs = append(rs, gg.rule(sk))
	}
	return rs
}

func (g *g) rule(sk RuleSk) *model.Rule {
	r := &model.Rule{}
	r.Match = g.value(sk.Match)
	r.Cond = g.gox(g.o.Conds, sk.Cond)
	r.Block = g.str(g.o.Blocks, sk.Block)
	r.Result = g.value(sk.Result)
	return r
}

// gox chooses an expression or none; present says which is the default.
func (g *g) gox(alpha []*model.GoX, present bool) *model.GoX {
	if len(alpha) == 0 {
		return nil
	}
	c := g.x.Choose(len(alpha) + 1)
	if present {
		if c == len(alpha) {
			return nil
		}
		return alpha[c]
	}
	if c == 0 {
		return nil
	}
	return alpha[c-1]
}

func (g *g) str(alpha []string, present bool) string {
	if len(alpha) == 0 {
		return ""
	}
	c := g.x.Choose(len(alpha) + 1)
	if present {
		if c == len(alpha) {
			return ""
		}
		return alpha[c]
	}
	if c == 0 {
		return ""
	}
	return alpha[c-1]
}

func (g *g) freshVar() string {
	names := []string{"x", "y", "z", "w", "v", "u", "t", "s"}
	n := g.vars
	g.vars++
	if n < len(names) {
		return names[n]
	}
	return fmt.Sprintf("v%d", n)
}

func (g *g) freshOp() string {
	n := g.ops
	g.ops++
	if n < 26 {
		return string(rune('A' + n))
	}
	return fmt.Sprintf("O%d", n)
}

func (g *g) value(sk Sk) model.Value {
	kinds := sk.Kind
	for _, k := range g.o.Kinds {
		if string(k) != sk.Kind && (k != 'f' || len(g.o.Calls) > 0) {
			kinds += string(k)
		}
	}
	switch k := kinds[g.x.Choose(len(kinds))]; k {
	case 'x':
		return model.Var(g.freshVar())
	case '_':
		return model.Var("_")
	case 'f':
		return &model.Call{X: g.o.Calls[g.x.Choose(len(g.o.Calls))]}
	default:
		if sk.Kind != "s" {
			return g.sexpr(Sk{Kind: "s"})
		}
		return g.sexpr(sk)
	}
}

func (g *g) sexpr(sk Sk) *model.S {
	s := &model.S{}
	if g.o.Bindings && g.x.Bool() {
		s.Binding = g.freshVar()
	}
	shapes := g.o.Shapes(g.freshOp())
	s.Op = shapes[g.x.Choose(len(shapes))]
	s.Type = g.str(g.o.Types, false)
	s.AuxInt = g.gox(g.o.AuxInts, false)
	s.Aux = g.gox(g.o.Auxes, false)
	for _, a := range sk.Args {
		s.Args = append(s.Args, g.value(a))
	}
	for i := 0; i < g.o.Extra; i++ {
		if c := g.x.Choose(3); c > 0 {
			s.Args = append(s.Args, g.value([]Sk{skx, {Kind: "s"}}[c-1]))
		}
	}
	if g.o.Marks {
		s.Ellipsis = g.x.Bool()
		s.Trailing = g.x.Bool()
	}
	if g.o.Perm {
		n := s.Operands()
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		for len(rest) > 0 {
			c := g.x.Choose(len(rest))
			s.Perm = append(s.Perm, rest[c])
			rest = append(rest[:c:c], rest[c+1:]...)
		}
		// The arguments keep their order: swap the argument entries back.
		k := n - len(s.Args)
		next := k
		for i, p := range s.Perm {
			if p >= k {
				s.Perm[i] = next
				next++
			}
		}
	}
	return s
}

// ---- dictionary ----

// Dict are the constants found in the sources of the repository, used to enrich
// alphabets: a branch on a special name or size has to name it somewhere.
type Dict struct {
	Words []string // strings made of identifier characters
	Texts []string // all short strings
	Ints  []int    // between 2 and maxInt
}

// maxInt bounds the numbers of the dictionary.
const maxInt = 1 << 25

// ReadDict collects the constants of all non-test Go files under root, the grammar
// tables excluded.
func ReadDict(root string) *Dict {
	words, texts, ints := map[string]bool{}, map[string]bool{}, map[int]bool{}
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		if err == nil && fi.IsDir() && fi.Name() == ".git" {
			return filepath.SkipDir
		}
		return nil
	})
	sort.Strings(files)
	for _, p := range files {
		f, err := goparser.ParseFile(gotoken.NewFileSet(), p, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*goast.GenDecl); ok {
				if gd.Tok == gotoken.IMPORT {
					continue
				}
				if vs, ok := gd.Specs[0].(*goast.ValueSpec); ok && gd.Tok == gotoken.VAR && vs.Names[0].Name == "g" {
					continue // grammar tables
				}
			}
			goast.Inspect(d, func(n goast.Node) bool {
				l, ok := n.(*goast.BasicLit)
				if !ok {
					return true
				}
				switch l.Kind {
				case gotoken.STRING:
					s, err := strconv.Unquote(l.Value)
					if err != nil || s == "" {
						return true
					}
					if len(s) <= 40 {
						texts[s] = true
					}
					// Words inside longer texts, too.
					for _, w := range strings.FieldsFunc(s, func(c rune) bool {
						return !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
					}) {
						if len(w) <= 40 {
							words[w] = true
						}
					}
				case gotoken.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil {
						texts[s] = true
					}
				case gotoken.INT:
					if n, err := strconv.ParseInt(l.Value, 0, 64); err == nil && n >= 2 && n <= maxInt {
						ints[int(n)] = true
					}
				}
				return true
			})
			// Constants of package math.
			goast.Inspect(d, func(n goast.Node) bool {
				if s, ok := n.(*goast.SelectorExpr); ok {
					if k, ok := map[string]int{"MaxInt8": 127, "MaxUint8": 255, "MaxInt16": 32767, "MaxUint16": 65535, "MaxScanTokenSize": 65536}[s.Sel.Name]; ok {
						ints[k] = true
					}
				}
				return true
			})
			// Constant expressions such as 1<<12 and 64*1024.
			goast.Inspect(d, func(n goast.Node) bool {
				b, ok := n.(*goast.BinaryExpr)
				if !ok {
					return true
				}
				x, ok1 := b.X.(*goast.BasicLit)
				y, ok2 := b.Y.(*goast.BasicLit)
				if !ok1 || !ok2 || x.Kind != gotoken.INT || y.Kind != gotoken.INT {
					return true
				}
				m, _ := strconv.ParseInt(x.Value, 0, 64)
				k, _ := strconv.ParseInt(y.Value, 0, 64)
				var v int64
				switch b.Op {
				case gotoken.SHL:
					if k < 40 && m < 1<<20 {
						v = m << uint(k)
					}
				case gotoken.MUL:
					v = m * k
				case gotoken.ADD:
					v = m + k
				case gotoken.SUB:
					v = m - k
				}
				if v >= 2 && v <= maxInt {
					ints[int(v)] = true
				}
				return true
			})
		}
	}
	d := &Dict{}
	for w := range words {
		d.Words = append(d.Words, w)
	}
	for t := range texts {
		d.Texts = append(d.Texts, t)
	}
	for n := range ints {
		d.Ints = append(d.Ints, n)
	}
	sort.Strings(d.Words)
	sort.Strings(d.Texts)
	sort.Ints(d.Ints)
	return d
}

// Sizes are the sizes to try in a sweep up to max: all small ones, powers of two and
// the constants of the sources with their neighbours.
func (d *Dict) Sizes(all, max int) []int {
	m := map[int]bool{}
	for i := 0; i <= all; i++ {
		m[i] = true
	}
	add := func(n int) {
		for k := -1; k <= 1; k++ {
			if n+k >= 0 {
				m[n+k] = true
			}
		}
	}
	for n := 64; n <= max; n *= 2 {
		add(n)
	}
	for n := 10; n <= max; n *= 10 {
		add(n)
		add(n * 2)
		add(n * 5)
	}
	for _, n := range d.Ints {
		add(n)
	}
	var out []int
	for n := range m {
		if n <= max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// Idents are identifiers worth trying as names: Go keywords and predeclared names,
// SMT-LIB words and the words of the sources. They all match [_a-zA-Z0-9]+.
func (d *Dict) Idents() []string {
	m := map[string]bool{}
	for t := gotoken.BREAK; t <= gotoken.VAR; t++ {
		m[t.String()] = true
	}
	for _, w := range strings.Fields(`nil true false iota bool byte int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr
		float32 float64 complex64 complex128 string error any len cap append make new panic print init main
		as exists forall let match par assert exit pop push reset echo not and or xor distinct ite concat extract repeat
		zero_extend sign_extend rotate_left rotate_right bvadd bvsub bvnot bvneg bv0 bv define_fun check_sat bvult bvcomp
		x y z a b c d e f ptr mem idx sym off val v w t1 x1 a_b a__b aB9_ op block rule file result cond type_ aux auxint ellipsis trailing
		A B C Add8 Add16 Add32 Add64 Sub8 And8 AndB OrB EqB NeqB Not Neg8 Com64 Const64 MOVQload Load Store Arg x0 _0 0 00 007 9x 0x1 1e5 _ __ ___ _a a_ A_ Z9
		i j k l m n o p q r s t u abs max min log2 isPowerOfTwo`) {
		m[w] = true
	}
	for _, w := range d.Words {
		m[w] = true
	}
	for c := 'a'; c <= 'z'; c++ {
		m[string(c)] = true
		m["a"+string(c)] = true
		m[string(c-32)] = true
		m["a"+string(c-32)] = true
	}
	for c := '0'; c <= '9'; c++ {
		m["a"+string(c)] = true
		m[string(c)] = true
	}
	var out []string
	for w := range m {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool {
		if len(out[i]) != len(out[j]) {
			return len(out[i]) < len(out[j])
		}
		return out[i] < out[j]
	})
	return out
}

// IsVar reports whether w is a variable name.
func IsVar(w string) bool { return w != "" && w[0] >= 'a' && w[0] <= 'z' }
