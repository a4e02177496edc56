package props

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	All["C06"] = &Prop{
		Level:  "model_checking",
		States: "distinct (expression, position) pairs parsed and compared with the Go language's tree, printed, and read by Go again",
		Bounds: "trees: every expression with at most 3 (thorough 4) non-identifier nodes over 19 binary and 7 unary operators, calls with up to 3 arguments and variadic ones, dereferences, selectors, parentheses and 27 literals, in each of 3 positions; pairs: every two operators (also three, thorough) in every nesting, with and without parentheses; literals: every literal of at most 4 (thorough 5) characters over 19 that numbers consist of, every string, character and raw string of at most 4 (5) over 12, and 39 others, each in 4 contexts; refused: each of 62 unsupported or malformed expressions alone and inside 18 supported contexts, in each position",
		Assume: []string{"go/parser gives the tree the Go language gives"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "trees", Bound: pick(tier, 3, 4), Run: func(x *explore.X) {
					e, _ := goExpr(x, tier)
					checkGo(x, e, x.Free(3))
				}, Share: 4},
				{Name: "chains", Run: func(x *explore.X) { c06Chains(x, tier) }, Share: 3},
				{Name: "literals", Run: func(x *explore.X) { c06Literals(x, pick(tier, 4, 5)) }},
				{Name: "refused", Run: c06Refused},
				{Name: "sizes", Run: func(x *explore.X) { c06Sizes(x, pick(tier, 130, 400)) }},
				{Name: "spelling", Run: c06Spelling},
			}
		},
	}
}

var binops = []string{"+", "&&", "==", "*", "-", "||", "!=", "<", "<=", ">", ">=", "|", "^", "/", "%", "<<", ">>", "&", "&^"}
var unops = []string{"-", "!", "^", "+", "&", "<-", "~"}

var literals = []*model.GoX{
	model.Int("0"), model.Int("1"), model.Int("42"), model.Int("0x1F"), model.Int("0b101"), model.Int("0o17"), model.Int("017"), model.Int("1_000"), model.Int("0XaB_c"), model.Int("18446744073709551616"),
	model.Lit("FLOAT", "1.5"), model.Lit("FLOAT", "1."), model.Lit("FLOAT", ".5"), model.Lit("FLOAT", "1e9"), model.Lit("FLOAT", "1E-5"), model.Lit("FLOAT", "0x1p-2"), model.Lit("IMAG", "2i"), model.Lit("IMAG", "1.5e+3i"),
	model.Lit("CHAR", "'c'"), model.Lit("CHAR", `'\n'`), model.Lit("CHAR", `'\''`), model.Lit("CHAR", "'é'"),
	model.Lit("STRING", `"s"`), model.Lit("STRING", `"a b\t\"%d"`), model.Lit("STRING", "`r\\`"), model.Lit("STRING", "`a\n\n b`"), model.Lit("STRING", `""`),
}

type goGen struct {
	x     *explore.X
	names int
	ops   int // operators left
	few   bool
}

// fewExpr is goExpr over fewer operators and literals.
func fewExpr(x *explore.X, nodes int) *model.GoX {
	g := &goGen{x: x, ops: nodes, few: true}
	return g.expr(0).Norm()
}

// upTo is n, or m over fewer.
func (g *goGen) upTo(n, m int) int {
	if g.few {
		return m
	}
	return n
}

// goExpr generates an expression: every node other than an identifier is a deviation,
// operators and literals are free choices.
func goExpr(x *explore.X, tier string) (*model.GoX, string) {
	g := &goGen{x: x, ops: pick(tier, 3, 4)}
	e := g.expr(0).Norm()
	return e, e.Print()
}

func (g *goGen) ident() *model.GoX {
	names := []string{"c", "d", "off", "sym", "X", "v_1", "e", "g"}
	n := names[g.names%len(names)]
	g.names++
	return model.Id(n)
}

func (g *goGen) expr(depth int) *model.GoX {
	if g.ops == 0 {
		return g.ident()
	}
	k := g.x.Choose(8)
	if k > 0 {
		g.ops--
	}
	switch k {
	case 0:
		return g.ident()
	case 1:
		op := binops[g.x.Free(g.upTo(len(binops), 4))]
		l := g.expr(depth + 1)
		return model.Bin(l, op, g.expr(depth+1))
	case 2:
		op := unops[g.x.Free(g.upTo(len(unops), 2))]
		return model.Un(op, g.expr(depth+1))
	case 3:
		c := &model.GoX{Kind: model.KCall, X: []*model.GoX{g.expr(depth + 1)}}
		for n := g.x.Free(g.upTo(4, 3)); n > 0; n-- {
			c.X = append(c.X, g.expr(depth+1))
		}
		if len(c.X) > 1 {
			c.Var = g.x.Free(2) == 1
		}
		return c
	case 4:
		if g.few {
			return []*model.GoX{model.Int("1"), model.Int("0x1F"), model.Lit("STRING", `"s"`)}[g.x.Free(3)]
		}
		return literals[g.x.Free(len(literals))]
	case 5:
		return model.Paren(g.expr(depth + 1))
	case 6:
		return model.Star(g.expr(depth + 1))
	default:
		return model.Sel(g.expr(depth+1), []string{"F", "x"}[g.x.Free(g.upTo(2, 1))])
	}
}

// inPosition puts an expression into a rule: as condition, AuxInt or Aux.
func inPosition(e *model.GoX, pos int) *model.Rule {
	m := sx("A", model.Var("x"))
	r := rule(m, sx("B"))
	switch pos {
	case 0:
		r.Cond = e
	case 1:
		m.AuxInt = e
	case 2:
		m.Aux = e
	}
	return r
}

func exprAt(f *ast.File, pos int) *ast.Expr {
	if len(f.Rules) != 1 {
		return nil
	}
	r := f.Rules[0]
	m, ok := r.Match.(*ast.SExpr)
	if !ok {
		return nil
	}
	switch pos {
	case 0:
		return r.Condition
	case 1:
		return m.AuxInt
	}
	return m.Aux
}

// frame is what surrounds the expression in canonical text.
var frames = [][2]string{{"(A x) && ", " => (B)"}, {"(A [", "] x) => (B)"}, {"(A {", "} x) => (B)"}}

func checkGo(x *explore.X, e *model.GoX, pos int) {
	text := e.Print()
	x.Describe(func() string { return frames[pos][0] + text + frames[pos][1] })
	want := e.Canon()
	x.Key(fmt.Sprint(pos), text)
	// The model agrees with Go about its own text.
	ge, err := goparser.ParseExpr(text)
	if err != nil {
		panic(fmt.Sprintf("mc: model text %q is not Go: %v", text, err))
	}
	if c := model.CanonGoExpr(ge); c != want {
		panic(fmt.Sprintf("mc: model text %q is %s in Go, not %s", text, c, want))
	}
	if pos == 1 && strings.Contains(text, "]") || pos == 2 && strings.Contains(text, "}") || pos == 0 && (strings.Contains(text, "=>") || strings.Contains(text, "//")) {
		x.Outcome = "cannot be written there"
		return
	}
	x.Outcome = e.Kind
	f, err := parse.String(frames[pos][0] + text + frames[pos][1])
	if err != nil {
		x.Fail("expression %q is refused: %v", text, err)
	}
	n := exprAt(f, pos)
	if n == nil || n.Expr == nil {
		x.Fail("expression %q is lost", text)
	}
	got := model.CanonGoExpr(n.Expr)
	if folded := strings.ReplaceAll(text, "\n", " "); pos == 0 && folded != text && got != want {
		// K3: line breaks inside raw strings are replaced, too.
		if ge, err := goparser.ParseExpr(folded); err == nil && got == model.CanonGoExpr(ge) {
			x.Outcome = "K3"
			x.Known("K3", "the line breaks in the raw string of the condition %q are replaced by spaces", text)
			return
		}
	}
	same(x, fmt.Sprintf("expression %q", text), got, want)
	if p := model.FirstPos(n.Expr); p != "" {
		x.Fail("expression %q keeps a source position: %s", text, p)
	}
	// Print it, and let Go read what is printed.
	out := printed(x, f.Rules[0], "an expression")
	if !strings.HasPrefix(out, frames[pos][0]) || !strings.HasSuffix(out, frames[pos][1]) {
		x.Fail("printed rule is %q", out)
	}
	p := strings.TrimSuffix(strings.TrimPrefix(out, frames[pos][0]), frames[pos][1])
	he, err := goparser.ParseExpr(p)
	if err != nil {
		x.Fail("expression %q is printed as %q, which is not Go: %v", text, p, err)
	}
	same(x, fmt.Sprintf("expression %q printed as %q", text, p), model.CanonGoExpr(he), want)
	// Hand-built, too.
	b, err := printer.Bytes(inPosition(e, pos).ToAST())
	if err != nil {
		x.Fail("printing %q fails: %v", text, err)
	}
	same(x, "printed hand-built expression", string(b), out)
	x.Validated(2)
}

// c06Chains: nestings of two and three operators, with explicit parentheses on either
// side or not.
func c06Chains(x *explore.X, tier string) {
	a, b, c, d := model.Id("a"), model.Id("b"), model.Id("c"), model.Id("d")
	type wrapf func(*model.GoX) *model.GoX
	wraps := []wrapf{
		func(y *model.GoX) *model.GoX { return y },
		model.Paren,
		func(y *model.GoX) *model.GoX { return model.Un("-", y) },
		func(y *model.GoX) *model.GoX { return model.Un("^", y) },
		func(y *model.GoX) *model.GoX { return model.Un("&", y) },
		func(y *model.GoX) *model.GoX { return model.Un("<-", y) },
		func(y *model.GoX) *model.GoX { return model.Un("+", y) },
		func(y *model.GoX) *model.GoX { return model.Un("!", y) },
		model.Star,
		func(y *model.GoX) *model.GoX { return model.Fn(model.Id("f"), y) },
		func(y *model.GoX) *model.GoX { return model.FnV(model.Id("f"), model.Id("e"), y) },
		func(y *model.GoX) *model.GoX { return model.Sel(y, "F") },
		func(y *model.GoX) *model.GoX { return model.Fn(y, model.Id("e")) },
	}
	lits := []*model.GoX{b, model.Int("1"), model.Lit("FLOAT", "1."), model.Lit("FLOAT", "0x1p-2"), model.Lit("STRING", `"s"`), model.Lit("CHAR", "'+'"), model.Lit("IMAG", "1i")}
	op1 := binops[x.Free(len(binops))]
	op2 := binops[x.Free(len(binops))]
	w := wraps[x.Free(len(wraps))]
	mid := lits[x.Free(pick(tier, 3, len(lits)))]
	var e *model.GoX
	switch x.Free(pick(tier, 4, 6)) {
	case 0:
		e = model.Bin(model.Bin(a, op1, w(mid)), op2, c)
	case 1:
		e = model.Bin(a, op1, w(model.Bin(mid, op2, c)))
	case 2:
		e = model.Bin(w(model.Bin(a, op1, mid)), op2, c)
	case 3:
		e = model.Bin(w(a), op1, w(model.Un(unops[x.Free(len(unops))], w(mid))))
	case 4:
		e = model.Bin(w(model.Bin(a, op1, mid)), op2, w(model.Bin(c, op1, d)))
	case 5:
		e = model.Bin(model.Bin(model.Bin(a, op1, mid), op2, w(c)), op1, d)
	}
	checkGo(x, e.Norm(), x.Free(3))
}

var refused = []string{
	// Unsupported constructs.
	"a[b]", "a[1:2]", "a[:]", "a[1:2:3]", "[]int{1}", "[3]int{}", "T{}", "T{a: 1}", "T{1, 2}", "&T{}", "map[a]b{}", "map[string]int", "func() {}", "func(a int) int { return a }", "func()", "a.(T)", "a.(*T)", "[]byte(a)", "[]int", "[4]int", "chan int", "<-chan int", "chan<- int", "(chan int)(a)", "interface{}", "struct{}", "struct{ a int }", "interface{}(a)", "f[int](a)", "a[b, c]", "make([]int, 3)", "(func())(a)", "[...]int{1}", "new(struct{})", "map[a]b(c)",
	// Malformed.
	"a b", "a +", "+", "a ++", "a == ", "(a", "a)", "f(a", "f(,)", "f(a,,b)", "a,b", "a;b", "a;", "a = b", "a := b", "1a", "08", "'ab'", "\"a", "a...", "...a", "a.", ".a", "a..b", "a.1", "if", "return a", "a ? b : c", "a $ b", "a @ b", "\\", "0x", "1e", "''", "var", "type T", "!", "a &&", "&& a", "a | | b", "a === b", "f(a...b)", "f(...)", "x.type", "func", "_ _",
}

// contexts put an expression into a supported one.
var contexts = []func(string) string{
	func(e string) string { return e },
	func(e string) string { return "(" + e + ")" },
	func(e string) string { return "f(" + e + ")" },
	func(e string) string { return "f(a, " + e + ")" },
	func(e string) string { return "f(" + e + ", a)" },
	func(e string) string { return "f(a, " + e + ", b)" },
	func(e string) string { return "!f(" + e + ")" },
	func(e string) string { return "-(" + e + ")" },
	func(e string) string { return "*(" + e + ")" },
	func(e string) string { return "a + (" + e + ")" },
	func(e string) string { return "(" + e + ") + a" },
	func(e string) string { return "a && b && (" + e + ") && c" },
	func(e string) string { return "(" + e + ").F" },
	func(e string) string { return "(" + e + ")(a)" },
	func(e string) string { return "f(g(h(" + e + ")))" },
	func(e string) string { return "f(a)(b, c.d(" + e + "))" },
	func(e string) string { return "a == b || c < f(1, -(" + e + "))" },
	func(e string) string { return "f((" + e + ")...)" },
}

// c06Literals has every literal that can be spelled with a few characters.
func c06Literals(x *explore.X, n int) {
	var b []byte
	kind := x.Free(5)
	alpha := []string{"0179_xXbBoOaEePp.+-i", "\\xu014na\"'`%", "\\xu014na\"'`%", "\\xu014na\"'`%", ""}[kind]
	if kind == 4 {
		ls := []string{`"\u00e9"`, `"\u0041"`, `"\U0001F600"`, `"\U00000041"`, `"\101"`, `"\377"`, `"\xff"`, `"\x41\x42"`, `"\u202e"`, `'\u00e9'`, `'\x41'`, `'\101'`, `'\U0001F600'`, `"é"`, `"\a\b\f\n\r\t\v\\\""`, `'\''`,
			"0x123456789abcdef0", "0b1111_0000", "0o7777", "00000001", "1e400", "0x1.8p+1", "0x1P-1022", "123456789012345678901234567890", "1.50", "1.0e+00", "0i", "08i", "0x1p1i", "0XFFi", "0.0", "00.5", "1_0.2_5e1_0", "`\\x41`", "`\t`", `"	"`, `"//"`, `"/*"`, "`//`"}
		b = []byte(ls[x.Free(len(ls))])
	} else {
		m := x.Free(n + 1)
		for i := 0; i < m; i++ {
			b = append(b, alpha[x.Free(len(alpha))])
		}
		if kind > 0 {
			q := "\"'`"[kind-1]
			b = append(append([]byte{q}, b...), q)
		}
	}
	text := string(b)
	ge, err := goparser.ParseExpr(text)
	l, ok := ge.(*goast.BasicLit)
	if err != nil || !ok || l.Value != text {
		x.Outcome = "no literal"
		return
	}
	e := model.Lit(l.Kind.String(), text)
	switch x.Free(4) {
	case 1:
		e = model.Bin(e, "-", model.Un("-", e))
	case 2:
		e = model.FnV(model.Id("f"), e, e)
	case 3:
		e = model.Sel(e, "F")
	}
	checkGo(x, e, x.Free(3))
}

func c06Refused(x *explore.X) {
	e := contexts[x.Free(len(contexts))](refused[x.Free(len(refused))])
	pos := x.Free(4)
	var text string
	if pos < 3 {
		text = frames[pos][0] + e + frames[pos][1]
	} else {
		text = "(A x) => (B [" + "c] {" + e + "} (C))"
	}
	if ge, err := goparser.ParseExpr(e); err == nil && model.Supported(ge) {
		x.Outcome = "fine in this context"
		return
	}
	x.Describe(func() string { return text })
	x.Key(text)
	x.Outcome = "refused"
	f, err := parse.String(text)
	if err == nil {
		x.Fail("expression %q is accepted: %s", e, model.CanonAST(f))
	}
	if f != nil {
		x.Fail("both a file and an error for %q", e)
	}
}

func c06Sizes(x *explore.X, max int) {
	n := x.Free(max + 1)
	a := model.Id("a")
	e := model.Id("c")
	switch x.Free(12) {
	case 0:
		for i := 0; i < n; i++ {
			e = model.Un(unops[i%len(unops)], e)
		}
	case 1:
		for i := 0; i < n; i++ {
			e = model.Bin(e, binops[i%len(binops)], a)
		}
	case 2:
		for i := 0; i < n; i++ {
			e = model.Bin(a, binops[i%len(binops)], e)
		}
	case 3:
		for i := 0; i < n; i++ {
			e = model.Star(e)
		}
	case 4:
		for i := 0; i < n; i++ {
			e = model.Sel(e, fmt.Sprintf("F%d", i))
		}
	case 5:
		for i := 0; i < n; i++ {
			e = model.Fn(e, a)
		}
	case 6:
		for i := 0; i < n; i++ {
			e = model.FnV(model.Id(fmt.Sprintf("f%d", i)), a, e)
		}
	case 7:
		for i := 0; i < n; i++ {
			e = model.Paren(e)
		}
	case 8:
		c := model.Fn(a)
		for i := 0; i < n; i++ {
			c.X = append(c.X, model.Int(fmt.Sprint(i)))
		}
		e = c
	case 9:
		for i := 0; i < n; i++ {
			e = model.Un("-", model.Paren(e))
		}
	case 10:
		e = model.Id("i" + rep("d", n))
	case 11:
		e = model.Lit("STRING", `"`+rep("s", n)+`"`)
	}
	checkGo(x, e.Norm(), x.Free(3))
}

func c06Spelling(x *explore.X) {
	ws := theIdents()
	w := ws[x.Free(len(ws))]
	if !goName(w) {
		return
	}
	var e *model.GoX
	switch x.Free(5) {
	case 0:
		e = model.Id(w)
	case 1:
		e = model.Fn(model.Id(w), model.Id("c"))
	case 2:
		e = model.Sel(model.Id("c"), w)
	case 3:
		e = model.Bin(model.Un("-", model.Id(w)), "&^", model.Un("^", model.Id(w)))
	case 4:
		e = model.Lit("STRING", `"`+w+`"`)
	}
	checkGo(x, e, x.Free(3))
}
