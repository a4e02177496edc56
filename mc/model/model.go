// Package model is the reference model of the rules language: its own tree type,
// canonical serialisation, printer, expansion, predicates and traversal. It shares
// no code with github.com/mmcloughlin/ssarules.
package model

import (
	"strconv"
	"strings"
)

// Rule is a rewrite rule.
type Rule struct {
	Match  Value
	Cond   *GoX
	Block  string
	Result Value
}

// Value is *S, Var or *Call.
type Value interface{}

// Part is one part of an operator: a literal (Alt nil) or a group.
type Part struct {
	Lit string
	Alt []string
}

// S is an S-expression.
type S struct {
	Binding  string
	Op       []Part
	Type     string
	AuxInt   *GoX
	Aux      *GoX
	Args     []Value
	Ellipsis bool
	Trailing bool

	// Perm is the order in which the operands (type, AuxInt, Aux, arguments) are
	// written; nil is the canonical one. It is not part of the tree.
	Perm []int
}

// Var is a variable or placeholder.
type Var string

// Call is a Go call used as argument or result.
type Call struct{ X *GoX }

// Go expression kinds.
const (
	KIdent = "id"
	KLit   = "lit"
	KParen = "paren"
	KUnary = "unary"
	KBin   = "bin"
	KCall  = "call"
	KStar  = "star"
	KSel   = "sel"
)

// GoX is a Go expression.
type GoX struct {
	Kind string
	Text string // identifier, literal text, operator or selected name
	Lit  string // literal kind: INT FLOAT IMAG CHAR STRING
	X    []*GoX // operands; for calls the function first
	Var  bool   // variadic call
}

// Constructors.

func Op(name string) []Part { return []Part{{Lit: name}} }

func Id(s string) *GoX          { return &GoX{Kind: KIdent, Text: s} }
func Lit(kind, s string) *GoX   { return &GoX{Kind: KLit, Text: s, Lit: kind} }
func Int(s string) *GoX         { return Lit("INT", s) }
func Paren(x *GoX) *GoX         { return &GoX{Kind: KParen, X: []*GoX{x}} }
func Un(op string, x *GoX) *GoX { return &GoX{Kind: KUnary, Text: op, X: []*GoX{x}} }
func Bin(x *GoX, op string, y *GoX) *GoX {
	return &GoX{Kind: KBin, Text: op, X: []*GoX{x, y}}
}
func Fn(f *GoX, args ...*GoX) *GoX { return &GoX{Kind: KCall, X: append([]*GoX{f}, args...)} }
func FnV(f *GoX, args ...*GoX) *GoX {
	return &GoX{Kind: KCall, X: append([]*GoX{f}, args...), Var: true}
}
func Star(x *GoX) *GoX          { return &GoX{Kind: KStar, X: []*GoX{x}} }
func Sel(x *GoX, s string) *GoX { return &GoX{Kind: KSel, Text: s, X: []*GoX{x}} }

// HasAlt reports whether the operator has a group.
func HasAlt(op []Part) bool {
	for _, p := range op {
		if p.Alt != nil {
			return true
		}
	}
	return false
}

// ---- canonical form (structure only) ----

func q(b *strings.Builder, s string) { b.WriteString(strconv.Quote(s)) }

// CanonFile returns the canonical form of a file.
func CanonFile(rs []*Rule) string {
	var b strings.Builder
	b.WriteString("file{")
	for _, r := range rs {
		r.canon(&b)
	}
	b.WriteString("}")
	return b.String()
}

// Canon returns the canonical form of a rule.
func (r *Rule) Canon() string {
	var b strings.Builder
	r.canon(&b)
	return b.String()
}

func (r *Rule) canon(b *strings.Builder) {
	b.WriteString("rule{")
	canonValue(b, r.Match)
	if r.Cond != nil {
		b.WriteString(" cond=")
		r.Cond.canon(b)
	}
	if r.Block != "" {
		b.WriteString(" block=")
		q(b, r.Block)
	}
	b.WriteString(" -> ")
	canonValue(b, r.Result)
	b.WriteString("}")
}

// CanonValue returns the canonical form of a value.
func CanonValue(v Value) string {
	var b strings.Builder
	canonValue(&b, v)
	return b.String()
}

// CanonOp returns the canonical form of an operator.
func CanonOp(op []Part) string {
	var b strings.Builder
	canonOp(&b, op)
	return b.String()
}

func canonOp(b *strings.Builder, op []Part) {
	if len(op) == 1 && op[0].Alt == nil {
		b.WriteString("op")
		q(b, op[0].Lit)
		return
	}
	b.WriteString("parts[")
	for _, p := range op {
		if p.Alt == nil {
			b.WriteString("op")
			q(b, p.Lit)
		} else {
			b.WriteString("alt(")
			for _, a := range p.Alt {
				q(b, a)
			}
			b.WriteString(")")
		}
	}
	b.WriteString("]")
}

func canonValue(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case *S:
		b.WriteString("s{")
		if v.Binding != "" {
			b.WriteString("binding=")
			q(b, v.Binding)
		}
		canonOp(b, v.Op)
		if v.Type != "" {
			b.WriteString(" type=")
			q(b, v.Type)
		}
		if v.AuxInt != nil {
			b.WriteString(" auxint=")
			v.AuxInt.canon(b)
		}
		if v.Aux != nil {
			b.WriteString(" aux=")
			v.Aux.canon(b)
		}
		for _, a := range v.Args {
			b.WriteString(" ")
			canonValue(b, a)
		}
		if v.Ellipsis {
			b.WriteString(" ellipsis")
		}
		if v.Trailing {
			b.WriteString(" trailing")
		}
		b.WriteString("}")
	case Var:
		b.WriteString("var")
		q(b, string(v))
	case *Call:
		b.WriteString("expr")
		v.X.canon(b)
	default:
		b.WriteString("?")
	}
}

// Canon returns the canonical form of a Go expression.
func (x *GoX) Canon() string {
	var b strings.Builder
	x.canon(&b)
	return b.String()
}

func (x *GoX) canon(b *strings.Builder) {
	b.WriteString("<")
	b.WriteString(x.Kind)
	switch x.Kind {
	case KLit:
		b.WriteString(" ")
		b.WriteString(x.Lit)
		fallthrough
	case KIdent, KUnary, KBin, KSel:
		b.WriteString(" ")
		q(b, x.Text)
	case KCall:
		if x.Var {
			b.WriteString(" variadic")
		}
	}
	for _, y := range x.X {
		y.canon(b)
	}
	b.WriteString(">")
}

// ---- canonical text (the printer's reference) ----

// PrintFile is the canonical text of a file.
func PrintFile(rs []*Rule) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.Print())
		b.WriteString("\n")
	}
	return b.String()
}

// Print is the canonical text of a rule.
func (r *Rule) Print() string {
	s := PrintValue(r.Match)
	if r.Cond != nil {
		s += " && " + r.Cond.Print()
	}
	s += " => "
	if r.Block != "" {
		s += "@" + r.Block + " "
	}
	return s + PrintValue(r.Result)
}

// PrintOp is the canonical text of an operator.
func PrintOp(op []Part) string {
	var b strings.Builder
	for _, p := range op {
		if p.Alt == nil {
			b.WriteString(p.Lit)
		} else {
			b.WriteString("(" + strings.Join(p.Alt, "|") + ")")
		}
	}
	return b.String()
}

// PrintValue is the canonical text of a value.
func PrintValue(v Value) string {
	var b strings.Builder
	printValue(&b, v)
	return b.String()
}

func printValue(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case Var:
		b.WriteString(string(v))
	case *Call:
		b.WriteString(v.X.Print())
	case *S:
		if v.Binding != "" {
			b.WriteString(v.Binding + ":")
		}
		b.WriteString("(")
		b.WriteString(PrintOp(v.Op))
		if v.Type != "" {
			b.WriteString(" <" + v.Type + ">")
		}
		if v.AuxInt != nil {
			b.WriteString(" [" + v.AuxInt.Print() + "]")
		}
		if v.Aux != nil {
			b.WriteString(" {" + v.Aux.Print() + "}")
		}
		for _, a := range v.Args {
			b.WriteString(" ")
			printValue(b, a)
		}
		if v.Ellipsis {
			b.WriteString(" ...")
		}
		if v.Trailing {
			b.WriteString(" ___")
		}
		b.WriteString(")")
	default:
		panic("model: bad value")
	}
}

// Prec is the precedence of a binary operator.
func Prec(op string) int {
	switch op {
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=", "<", "<=", ">", ">=":
		return 3
	case "+", "-", "|", "^":
		return 4
	case "*", "/", "%", "<<", ">>", "&", "&^":
		return 5
	}
	return 0
}

// Print is the canonical text of a Go expression: operators below additive
// precedence are surrounded by spaces, others are not, except where two tokens
// would run together.
func (x *GoX) Print() string {
	var out strings.Builder
	var last string
	x.tokens(func(s string) {
		if last != "" && s != "" && needSpace(out.String(), last, s) {
			out.WriteString(" ")
		}
		out.WriteString(s)
		last = s
	}, func() { out.WriteString(" "); last = "" })
	return out.String()
}

// needSpace reports whether the canonical text needs a space between out, which
// ends in token last, and token s.
func needSpace(out, last, s string) bool {
	l, f := out[len(out)-1], s[0]
	switch {
	case f == '.' && (isword(l)):
		// A dot after an integer literal would be its decimal point.
		i := len(out)
		for i > 0 && isword(out[i-1]) {
			i--
		}
		return intLit(out[i:]) && !strings.HasSuffix(out[:i], ".") && !expSign(out[:i])
	case l == '+' && f == '+', last == "-" && f == '-', l == '&' && f == '&', l == '&' && f == '^', l == '/' && f == '*':
		return true
	}
	return false
}

// expSign reports whether s ends in a sign which belongs to a floating point literal.
func expSign(s string) bool {
	n := len(s)
	if n < 2 || (s[n-1] != '+' && s[n-1] != '-') || !strings.ContainsRune("eEpP", rune(s[n-2])) {
		return false
	}
	i := n - 2
	for i > 0 && (isword(s[i-1]) || s[i-1] == '.') {
		i--
	}
	return i < n-2 && s[i] >= '0' && s[i] <= '9'
}

func isword(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func intLit(s string) bool {
	if s == "" || s[0] < '0' || s[0] > '9' {
		return false
	}
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		return !strings.ContainsAny(s, "pPi")
	}
	return !strings.ContainsAny(s, "eEi")
}

// tokens emits the tokens of x, with the canonical spaces.
func (x *GoX) tokens(tok func(string), space func()) {
	switch x.Kind {
	case KIdent, KLit:
		tok(x.Text)
	case KParen:
		tok("(")
		x.X[0].tokens(tok, space)
		tok(")")
	case KUnary:
		tok(x.Text)
		x.X[0].tokens(tok, space)
	case KStar:
		tok("*")
		x.X[0].tokens(tok, space)
	case KBin:
		x.X[0].tokens(tok, space)
		if Prec(x.Text) < 4 {
			space()
			tok(x.Text)
			space()
		} else {
			tok(x.Text)
		}
		x.X[1].tokens(tok, space)
	case KSel:
		x.X[0].tokens(tok, space)
		tok(".")
		tok(x.Text)
	case KCall:
		x.X[0].tokens(tok, space)
		tok("(")
		for i, a := range x.X[1:] {
			if i > 0 {
				tok(",")
				space()
			}
			a.tokens(tok, space)
		}
		if x.Var {
			tok("...")
		}
		tok(")")
	}
}

// Tokens are the tokens of x.
func (x *GoX) Tokens() []string {
	var ts []string
	x.tokens(func(s string) { ts = append(ts, s) }, func() {})
	return ts
}

// Norm returns x with parentheses added where the tree could not be written
// without them.
func (x *GoX) Norm() *GoX {
	y := *x
	y.X = nil
	for _, c := range x.X {
		y.X = append(y.X, c.Norm())
	}
	wrap := func(i int, bad bool) {
		if bad {
			y.X[i] = Paren(y.X[i])
		}
	}
	switch y.Kind {
	case KUnary, KStar:
		wrap(0, y.X[0].Kind == KBin)
	case KBin:
		p := Prec(y.Text)
		wrap(0, y.X[0].Kind == KBin && Prec(y.X[0].Text) < p)
		wrap(1, y.X[1].Kind == KBin && Prec(y.X[1].Text) <= p)
	case KSel, KCall:
		k := y.X[0].Kind
		wrap(0, k == KBin || k == KUnary || k == KStar)
	}
	return &y
}

// ---- expansion ----

// Expand returns the expansion of a rule, or ok=false if its groups are incompatible.
func Expand(r *Rule) (out []*Rule, ok bool) {
	counts := map[int]bool{}
	groups := false
	var visit func(v Value)
	visit = func(v Value) {
		if s, is := v.(*S); is {
			for _, p := range s.Op {
				if p.Alt != nil {
					groups = true
					if len(p.Alt) > 1 {
						counts[len(p.Alt)] = true
					}
				}
			}
			for _, a := range s.Args {
				visit(a)
			}
		}
	}
	visit(r.Match)
	visit(r.Result)
	if len(counts) > 1 {
		return nil, false
	}
	if !groups {
		return []*Rule{r}, true
	}
	n := 1
	for c := range counts {
		n = c
	}
	for i := 0; i < n; i++ {
		out = append(out, &Rule{Match: pick(r.Match, i), Cond: r.Cond, Block: r.Block, Result: pick(r.Result, i)})
	}
	return out, true
}

func pick(v Value, i int) Value {
	s, is := v.(*S)
	if !is {
		return v
	}
	c := *s
	name := ""
	for _, p := range s.Op {
		switch {
		case p.Alt == nil:
			name += p.Lit
		case len(p.Alt) == 1:
			name += p.Alt[0]
		default:
			name += p.Alt[i]
		}
	}
	c.Op = Op(name)
	c.Args = nil
	for _, a := range s.Args {
		c.Args = append(c.Args, pick(a, i))
	}
	return &c
}

// ExpandFile expands all rules.
func ExpandFile(rs []*Rule) (out []*Rule, ok bool) {
	for _, r := range rs {
		e, ok := Expand(r)
		if !ok {
			return nil, false
		}
		out = append(out, e...)
	}
	return out, true
}

// Features are the predicates of a rule.
type Features struct{ Binding, Type, Aux, AuxInt, Ellipsis, Trailing bool }

// FeaturesOf computes the feature predicates.
func FeaturesOf(r *Rule) (f Features) {
	var visit func(v Value)
	visit = func(v Value) {
		if s, is := v.(*S); is {
			f.Binding = f.Binding || s.Binding != ""
			f.Type = f.Type || s.Type != ""
			f.Aux = f.Aux || s.Aux != nil
			f.AuxInt = f.AuxInt || s.AuxInt != nil
			f.Ellipsis = f.Ellipsis || s.Ellipsis
			f.Trailing = f.Trailing || s.Trailing
			for _, a := range s.Args {
				visit(a)
			}
		}
	}
	visit(r.Match)
	visit(r.Result)
	return f
}

// Simple reports whether the command considers the rule.
func Simple(r *Rule) bool {
	return r.Cond == nil && r.Block == "" && FeaturesOf(r) == Features{}
}
