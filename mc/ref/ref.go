// Package ref is the reference recogniser of the rules language: a recursive
// descent over the documented grammar, which shares no code with the repository.
// Embedded Go expressions are judged by go/parser.
package ref

import (
	goparser "go/parser"
	"strings"
	"unicode/utf8"

	"verif/mc/model"
)

// Error kinds.
const (
	Syntax = "syntax"   // no well-formed text continues this way
	GoExpr = "goexpr"   // an embedded expression is malformed or unsupported
	Coding = "encoding" // invalid UTF-8
)

// Result is what the reference says about a text.
type Result struct {
	OK    bool
	Rules []*model.Rule
	// Unspecified is set if the reference does not define the outcome: repeated
	// operands of one kind, comments or multi-line raw strings inside conditions.
	Unspecified string
	// If not OK: the kind of error, and the range of byte offsets it may be reported
	// at: from the start of the offending token to its offending character.
	Kind   string
	Lo, Hi int
}

type rec struct {
	s      string
	pos    int
	lo, hi int
	// first error of an embedded expression
	acted  bool
	action int
	unspec string
	reach  int
}

func (r *rec) fail(lo, hi int) {
	if hi > r.hi {
		r.lo, r.hi = lo, hi
	} else if hi == r.hi && lo < r.lo {
		r.lo = lo
	}
}

func (r *rec) peek() (rune, int) {
	if r.pos >= len(r.s) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(r.s[r.pos:])
}

// class consumes one character satisfying f.
func (r *rec) class(f func(rune) bool) bool {
	c, n := r.peek()
	if n == 0 || !f(c) {
		r.fail(r.pos, r.pos)
		return false
	}
	r.pos += n
	return true
}

func (r *rec) lit(t string) bool {
	if strings.HasPrefix(r.s[r.pos:], t) {
		r.pos += len(t)
		return true
	}
	n := 0
	for n < len(t) && r.pos+n < len(r.s) && r.s[r.pos+n] == t[n] {
		n++
	}
	r.fail(r.pos, r.pos+n)
	return false
}

func (r *rec) skip1() bool {
	if r.lit("//") {
		for r.class(func(c rune) bool { return c != '\n' }) {
		}
		return true
	}
	return r.class(func(c rune) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' })
}

func (r *rec) skip0() {
	for r.skip1() {
	}
}

func (r *rec) skips() bool {
	if !r.skip1() {
		return false
	}
	r.skip0()
	return true
}

func lower(c rune) bool { return c >= 'a' && c <= 'z' }
func word(c rune) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (r *rec) ident() (string, bool) {
	p := r.pos
	if !r.class(lower) {
		return "", false
	}
	for r.class(word) {
	}
	return r.s[p:r.pos], true
}

func (r *rec) badexpr(at int) {
	if !r.acted {
		r.acted, r.action = true, at
	}
}

// Recognise judges a text.
func Recognise(s string) Result {
	r := &rec{s: s, hi: -1}
	var rules []*model.Rule
	for {
		p := r.pos
		r.skip0()
		rule, ok := r.rule()
		if !ok {
			r.pos = p
			break
		}
		rules = append(rules, rule)
		r.skip0()
	}
	r.skip0()
	res := Result{Unspecified: r.unspec}
	if r.pos != len(s) {
		r.fail(r.pos, r.pos)
	}
	switch {
	case !utf8.ValidString(s):
		res.Kind = Coding
		for i := 0; i < len(s); {
			c, n := utf8.DecodeRuneInString(s[i:])
			if c == utf8.RuneError && n == 1 {
				res.Lo, res.Hi = i, i
				break
			}
			i += n
		}
	case r.acted:
		res.Kind, res.Lo, res.Hi = GoExpr, r.action, r.action
	case r.pos != len(s):
		res.Kind, res.Lo, res.Hi = Syntax, r.lo, r.hi
	default:
		res.OK, res.Rules = true, rules
	}
	return res
}

func (r *rec) rule() (*model.Rule, bool) {
	rule := &model.Rule{}
	var ok bool
	if rule.Match, ok = r.value(); !ok {
		return nil, false
	}
	p := r.pos
	if r.skips() && r.lit("&&") && r.skips() && r.cond(rule) {
	} else {
		r.pos = p
	}
	r.skip0()
	if !r.lit("=>") {
		return nil, false
	}
	r.skip0()
	if r.lit("@") {
		p := r.pos
		q := p
		for {
			c, n := r.peek()
			if n == 0 || c == ' ' || c == '\t' || c == '\r' || c == '\n' || strings.HasPrefix(r.s[r.pos:], "//") {
				r.fail(r.pos, r.pos)
				break
			}
			r.pos += n
			q = r.pos
		}
		if q == p {
			return nil, false
		}
		rule.Block = r.s[p:q]
	}
	r.skip0()
	if rule.Result, ok = r.value(); !ok {
		return nil, false
	}
	return rule, true
}

func (r *rec) cond(rule *model.Rule) bool {
	p := r.pos
	end := strings.Index(r.s[p:], "=>")
	if end == 0 || p == len(r.s) {
		r.fail(p, p)
		return false
	}
	if end < 0 {
		r.pos = len(r.s)
	} else {
		r.pos = p + end
	}
	r.fail(r.pos, r.pos)
	text := r.s[p:r.pos]
	if strings.Contains(text, "//") || strings.Contains(text, "`") && strings.Contains(text, "\n") {
		r.unspec = "comment or raw string in a condition"
	}
	x, ok := Go(strings.ReplaceAll(text, "\n", " "))
	if !ok {
		r.badexpr(p)
	}
	rule.Cond = x
	return true
}

// Go parses a supported Go expression.
func Go(text string) (*model.GoX, bool) {
	e, err := goparser.ParseExpr(text)
	if err != nil || !model.Supported(e) {
		return nil, false
	}
	return model.FromGo(e), true
}

// Flat replaces the line breaks and comments of a Go expression by spaces, except
// inside literals.
func Flat(x string) string {
	if !strings.Contains(x, "\n") {
		return x
	}
	var b strings.Builder
	for i := 0; i < len(x); {
		c := x[i]
		switch {
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(x) && x[j] != c && x[j] != '\n' {
				if x[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(x) {
				j++
			} else {
				j = len(x)
			}
			b.WriteString(x[i:j])
			i = j
		case c == '`':
			j := strings.IndexByte(x[i+1:], '`')
			if j < 0 {
				j = len(x)
			} else {
				j += i + 2
			}
			b.WriteString(x[i:j])
			i = j
		case strings.HasPrefix(x[i:], "//"):
			j := strings.IndexByte(x[i:], '\n')
			if j < 0 {
				j = len(x)
			} else {
				j += i
			}
			b.WriteByte(' ')
			i = j
		case strings.HasPrefix(x[i:], "/*"):
			j := strings.Index(x[i+2:], "*/")
			if j < 0 {
				b.WriteString(x[i:])
				i = len(x)
				continue
			}
			b.WriteByte(' ')
			i += j + 4
		case c == '\n':
			b.WriteByte(' ')
			i++
		default:
			b.WriteByte(c)
			i++
		}
	}
	return b.String()
}

func (r *rec) value() (model.Value, bool) {
	p := r.pos
	if s, ok := r.sexpr(); ok {
		return s, true
	}
	r.pos = p
	return r.expr()
}

func (r *rec) expr() (model.Value, bool) {
	p := r.pos
	if r.call() {
		x, ok := Go(Flat(r.s[p:r.pos]))
		if !ok {
			r.badexpr(p)
			return model.Var("?"), true
		}
		return &model.Call{X: x}, true
	}
	r.pos = p
	if v, ok := r.ident(); ok {
		return model.Var(v), true
	}
	r.pos = p
	if r.lit("_") {
		if strings.HasPrefix(r.s[r.pos:], "_") {
			r.fail(r.pos, r.pos)
			r.pos = p
			return nil, false
		}
		return model.Var("_"), true
	}
	return nil, false
}

func (r *rec) call() bool {
	if _, ok := r.ident(); !ok {
		return false
	}
	if !r.lit("(") {
		return false
	}
	r.skip0()
	if _, ok := r.expr(); !ok {
		return false
	}
	for {
		p := r.pos
		r.skip0()
		if !r.lit(",") {
			r.pos = p
			break
		}
		r.skip0()
		if _, ok := r.expr(); !ok {
			r.pos = p
			break
		}
		r.skip0()
	}
	r.skip0()
	return r.lit(")")
}

func (r *rec) sexpr() (*model.S, bool) {
	s := &model.S{}
	p := r.pos
	if v, ok := r.ident(); ok && r.lit(":") {
		s.Binding = v
	} else {
		r.pos = p
	}
	if !r.lit("(") {
		return nil, false
	}
	r.skip0()
	var ok bool
	if s.Op, ok = r.op(); !ok {
		return nil, false
	}
	for {
		p := r.pos
		if !r.skips() || !r.operand(s) {
			r.pos = p
			break
		}
	}
	p = r.pos
	if r.skips() && r.lit("...") {
		s.Ellipsis = true
	} else {
		r.pos = p
	}
	p = r.pos
	if r.skips() && r.lit("___") {
		s.Trailing = true
	} else {
		r.pos = p
	}
	r.skip0()
	if !r.lit(")") {
		return nil, false
	}
	return s, true
}

func (r *rec) oppart() (string, bool) {
	p := r.pos
	for r.class(word) {
	}
	return r.s[p:r.pos], r.pos > p
}

func (r *rec) op() ([]model.Part, bool) {
	var parts []model.Part
	for {
		if l, ok := r.oppart(); ok {
			parts = append(parts, model.Part{Lit: l})
			continue
		}
		p := r.pos
		alt, ok := r.alt()
		if !ok {
			r.pos = p
			break
		}
		parts = append(parts, model.Part{Alt: alt})
	}
	return parts, len(parts) > 0
}

func (r *rec) alt() ([]string, bool) {
	if !r.lit("(") {
		return nil, false
	}
	l, ok := r.oppart()
	if !ok {
		return nil, false
	}
	alt := []string{l}
	for {
		p := r.pos
		if !r.lit("|") {
			break
		}
		l, ok := r.oppart()
		if !ok {
			r.pos = p
			break
		}
		alt = append(alt, l)
	}
	return alt, len(alt) > 1 && r.lit(")")
}

func (r *rec) bracketed(open, shut string) (string, int, bool) {
	p := r.pos
	if !r.lit(open) {
		return "", 0, false
	}
	q := r.pos
	for r.class(func(c rune) bool { return c != rune(shut[0]) }) {
	}
	text := r.s[q:r.pos]
	if text == "" || !r.lit(shut) {
		r.pos = p
		return "", 0, false
	}
	return text, p, true
}

func (r *rec) operand(s *model.S) bool {
	if t, _, ok := r.bracketed("<", ">"); ok {
		if s.Type != "" {
			r.unspec = "type written twice"
		}
		s.Type = t
		return true
	}
	if t, at, ok := r.bracketed("[", "]"); ok {
		if s.AuxInt != nil {
			r.unspec = "AuxInt written twice"
		}
		s.AuxInt = r.gox(t, at)
		return true
	}
	if t, at, ok := r.bracketed("{", "}"); ok {
		if s.Aux != nil {
			r.unspec = "Aux written twice"
		}
		s.Aux = r.gox(t, at)
		return true
	}
	v, ok := r.value()
	if ok {
		s.Args = append(s.Args, v)
	}
	return ok
}

func (r *rec) gox(t string, at int) *model.GoX {
	x, ok := Go(Flat(t))
	if !ok {
		r.badexpr(at)
		return model.Id("?")
	}
	return x
}

// LineCol is the line and column (in characters) of a byte offset.
func LineCol(s string, off int) (line, col int) {
	line, col = 1, 1
	for i, c := range s {
		if i >= off {
			break
		}
		col++
		if c == '\n' {
			line, col = line+1, 1
		}
	}
	return
}
