package model

import (
	goscanner "go/scanner"
	gotoken "go/token"
	"strings"
)

// GapKind says what may stand between two tokens.
type GapKind int

// Gap kinds.
const (
	Optional GapKind = iota // any layout, or nothing
	Required                // some layout
)

// Gap regions.
const (
	Plain  = iota // between rule tokens
	InCond        // inside a condition, up to =>
	InAuxInt
	InAux
	InCall
)

// Item is a token or a gap.
type Item struct {
	Text   string // token
	IsGap  bool
	Kind   GapKind
	Def    string // default layout
	Region int
	Last   bool // nothing follows but the end of the text
}

type writer struct{ items []Item }

func (w *writer) tok(s string) {
	if n := len(w.items); n > 0 && !w.items[n-1].IsGap {
		w.items[n-1].Text += s // glued
		return
	}
	w.items = append(w.items, Item{Text: s})
}

func (w *writer) gap(kind GapKind, def string, region int) {
	w.items = append(w.items, Item{IsGap: true, Kind: kind, Def: def, Region: region})
}

// Items lays out a file as tokens and gaps.
func Items(rs []*Rule) []Item {
	w := &writer{}
	w.gap(Optional, "", Plain)
	for i, r := range rs {
		if i > 0 {
			k := Optional
			if _, ok := rs[i-1].Result.(Var); ok {
				k = Required
			}
			w.gap(k, "\n", Plain)
		}
		w.rule(r)
	}
	if len(rs) > 0 {
		w.gap(Optional, "\n", Plain)
	}
	w.items[len(w.items)-1].Last = true
	return w.items
}

func (w *writer) rule(r *Rule) {
	w.value(r.Match, Plain)
	if r.Cond != nil {
		w.gap(Required, " ", Plain)
		w.tok("&&")
		w.gap(Required, " ", Plain)
		w.gox(r.Cond, InCond)
		w.gap(Optional, " ", InCond)
	} else {
		w.gap(Optional, " ", Plain)
	}
	w.tok("=>")
	w.gap(Optional, " ", Plain)
	if r.Block != "" {
		w.tok("@" + r.Block)
		w.gap(Required, " ", Plain)
	}
	w.value(r.Result, Plain)
}

func (w *writer) value(v Value, region int) {
	switch v := v.(type) {
	case Var:
		w.tok(string(v))
	case *Call:
		w.gox(v.X, InCall)
	case *S:
		w.sexpr(v)
	}
}

func (w *writer) sexpr(s *S) {
	if s.Binding != "" {
		w.tok(s.Binding + ":")
	}
	w.tok("(")
	w.gap(Optional, "", Plain)
	w.tok(PrintOp(s.Op))
	var ops []func()
	if s.Type != "" {
		ops = append(ops, func() { w.tok("<" + s.Type + ">") })
	}
	if s.AuxInt != nil {
		ops = append(ops, func() {
			w.tok("[")
			w.gap(Optional, "", InAuxInt)
			w.gox(s.AuxInt, InAuxInt)
			w.gap(Optional, "", InAuxInt)
			w.tok("]")
		})
	}
	if s.Aux != nil {
		ops = append(ops, func() {
			w.tok("{")
			w.gap(Optional, "", InAux)
			w.gox(s.Aux, InAux)
			w.gap(Optional, "", InAux)
			w.tok("}")
		})
	}
	for _, a := range s.Args {
		a := a
		ops = append(ops, func() { w.value(a, Plain) })
	}
	for i := range ops {
		j := i
		if s.Perm != nil {
			j = s.Perm[i]
		}
		w.gap(Required, " ", Plain)
		ops[j]()
	}
	if s.Ellipsis {
		w.gap(Required, " ", Plain)
		w.tok("...")
	}
	if s.Trailing {
		w.gap(Required, " ", Plain)
		w.tok("___")
	}
	w.gap(Optional, "", Plain)
	w.tok(")")
}

// Operands counts the operands of s.
func (s *S) Operands() int {
	n := len(s.Args)
	if s.Type != "" {
		n++
	}
	if s.AuxInt != nil {
		n++
	}
	if s.Aux != nil {
		n++
	}
	return n
}

func (w *writer) gox(x *GoX, region int) {
	toks := x.Tokens()
	// The default layout is the canonical text.
	canon := x.Print()
	for i, t := range toks {
		if i > 0 {
			def := ""
			for strings.HasPrefix(canon, " ") {
				def += " "
				canon = canon[1:]
			}
			kind := Optional
			if !Glue(toks[i-1], t) {
				kind = Required
			}
			callgap := region == InCall && (t == "(" || t == "." || toks[i-1] == ".")
			if !callgap {
				w.gap(kind, def, region)
			}
		}
		if !strings.HasPrefix(canon, t) {
			panic("model: canonical text does not consist of the tokens: " + x.Print())
		}
		canon = canon[len(t):]
		w.tok(t)
	}
}

var glueCache = map[[2]string]bool{}

// Glue reports whether Go tokens a and b are still read as these two when written
// without anything between them.
func Glue(a, b string) bool {
	k := [2]string{a, b}
	if g, ok := glueCache[k]; ok {
		return g
	}
	var s goscanner.Scanner
	fset := gotoken.NewFileSet()
	src := a + b
	s.Init(fset.AddFile("", fset.Base(), len(src)), []byte(src), nil, goscanner.ScanComments)
	var got []string
	for {
		_, tok, lit := s.Scan()
		if tok == gotoken.EOF {
			break
		}
		if tok == gotoken.SEMICOLON && lit == "\n" {
			continue
		}
		if lit == "" {
			lit = tok.String()
		}
		got = append(got, lit)
	}
	g := s.ErrorCount == 0 && len(got) == 2 && got[0] == a && got[1] == b
	if b == "=>" {
		g = true
	}
	if len(glueCache) < 100000 {
		glueCache[k] = g
	}
	return g
}

// Default renders the items with default layout.
func Default(items []Item) string {
	var b strings.Builder
	for _, it := range items {
		if it.IsGap {
			b.WriteString(it.Def)
		} else {
			b.WriteString(it.Text)
		}
	}
	return b.String()
}

// Text is the default text of a file.
func Text(rs []*Rule) string { return Default(Items(rs)) }
