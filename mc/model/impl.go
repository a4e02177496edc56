package model

import (
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- canonical form of implementation trees ----

// CanonAST is the canonical form (structure only) of an implementation node.
func CanonAST(n ast.Node) string {
	var b strings.Builder
	canonAST(&b, n)
	return b.String()
}

func canonAST(b *strings.Builder, n ast.Node) {
	switch n := n.(type) {
	case *ast.File:
		if n == nil {
			b.WriteString("nil-file")
			return
		}
		b.WriteString("file{")
		for _, r := range n.Rules {
			canonAST(b, r)
		}
		b.WriteString("}")
	case *ast.Rule:
		if n == nil {
			b.WriteString("nil-rule")
			return
		}
		b.WriteString("rule{")
		canonAST(b, n.Match)
		if n.Condition != nil {
			b.WriteString(" cond=")
			CanonGo(b, n.Condition.Expr)
		}
		if n.Block != "" {
			b.WriteString(" block=")
			q(b, n.Block)
		}
		b.WriteString(" -> ")
		canonAST(b, n.Result)
		b.WriteString("}")
	case *ast.SExpr:
		if n == nil {
			b.WriteString("nil-sexpr")
			return
		}
		b.WriteString("s{")
		if n.Binding != "" {
			b.WriteString("binding=")
			q(b, string(n.Binding))
		}
		canonAST(b, n.Op)
		if n.Type != "" {
			b.WriteString(" type=")
			q(b, string(n.Type))
		}
		if n.AuxInt != nil {
			b.WriteString(" auxint=")
			CanonGo(b, n.AuxInt.Expr)
		}
		if n.Aux != nil {
			b.WriteString(" aux=")
			CanonGo(b, n.Aux.Expr)
		}
		for _, a := range n.Args {
			b.WriteString(" ")
			canonAST(b, a)
		}
		if n.Ellipsis {
			b.WriteString(" ellipsis")
		}
		if n.Trailing {
			b.WriteString(" trailing")
		}
		b.WriteString("}")
	case ast.Opcode:
		b.WriteString("op")
		q(b, string(n))
	case ast.OpcodeParts:
		b.WriteString("parts[")
		for _, p := range n {
			canonAST(b, p)
		}
		b.WriteString("]")
	case ast.OpcodeAlt:
		b.WriteString("alt(")
		for _, a := range n {
			q(b, string(a))
		}
		b.WriteString(")")
	case ast.Variable:
		b.WriteString("var")
		q(b, string(n))
	case *ast.Expr:
		if n == nil {
			b.WriteString("nil-expr")
			return
		}
		b.WriteString("expr")
		CanonGo(b, n.Expr)
	default:
		fmt.Fprintf(b, "?%T", n)
	}
}

// CanonGo writes the canonical form of a Go expression.
func CanonGo(b *strings.Builder, x goast.Expr) {
	switch e := x.(type) {
	case *goast.Ident:
		b.WriteString("<id ")
		q(b, e.Name)
	case *goast.BasicLit:
		b.WriteString("<lit ")
		b.WriteString(e.Kind.String())
		b.WriteString(" ")
		q(b, e.Value)
	case *goast.ParenExpr:
		b.WriteString("<paren")
		CanonGo(b, e.X)
	case *goast.UnaryExpr:
		b.WriteString("<unary ")
		q(b, e.Op.String())
		CanonGo(b, e.X)
	case *goast.BinaryExpr:
		b.WriteString("<bin ")
		q(b, e.Op.String())
		CanonGo(b, e.X)
		CanonGo(b, e.Y)
	case *goast.CallExpr:
		b.WriteString("<call")
		if e.Ellipsis.IsValid() {
			b.WriteString(" variadic")
		}
		CanonGo(b, e.Fun)
		for _, a := range e.Args {
			CanonGo(b, a)
		}
	case *goast.StarExpr:
		b.WriteString("<star")
		CanonGo(b, e.X)
	case *goast.SelectorExpr:
		b.WriteString("<sel ")
		q(b, e.Sel.Name)
		CanonGo(b, e.X)
	default:
		fmt.Fprintf(b, "<?%T", x)
	}
	b.WriteString(">")
}

// CanonGoExpr is CanonGo as a string.
func CanonGoExpr(x goast.Expr) string {
	var b strings.Builder
	CanonGo(&b, x)
	return b.String()
}

// Supported reports whether x only uses the supported constructs.
func Supported(x goast.Expr) bool {
	ok := true
	goast.Inspect(x, func(n goast.Node) bool {
		switch n.(type) {
		case nil, *goast.Ident, *goast.BasicLit, *goast.ParenExpr, *goast.UnaryExpr, *goast.BinaryExpr,
			*goast.CallExpr, *goast.StarExpr, *goast.SelectorExpr:
		default:
			ok = false
		}
		return ok
	})
	return ok
}

// FromGo converts a supported Go expression to the model.
func FromGo(x goast.Expr) *GoX {
	switch e := x.(type) {
	case *goast.Ident:
		return Id(e.Name)
	case *goast.BasicLit:
		return Lit(e.Kind.String(), e.Value)
	case *goast.ParenExpr:
		return Paren(FromGo(e.X))
	case *goast.UnaryExpr:
		return Un(e.Op.String(), FromGo(e.X))
	case *goast.BinaryExpr:
		return Bin(FromGo(e.X), e.Op.String(), FromGo(e.Y))
	case *goast.CallExpr:
		c := &GoX{Kind: KCall, X: []*GoX{FromGo(e.Fun)}, Var: e.Ellipsis.IsValid()}
		for _, a := range e.Args {
			c.X = append(c.X, FromGo(a))
		}
		return c
	case *goast.StarExpr:
		return Star(FromGo(e.X))
	case *goast.SelectorExpr:
		return Sel(FromGo(e.X), e.Sel.Name)
	}
	panic(fmt.Sprintf("model: unsupported %T", x))
}

var optok = func() map[string]gotoken.Token {
	m := map[string]gotoken.Token{}
	for t := gotoken.ADD; t <= gotoken.TILDE; t++ {
		m[t.String()] = t
	}
	return m
}()

var littok = map[string]gotoken.Token{"INT": gotoken.INT, "FLOAT": gotoken.FLOAT, "IMAG": gotoken.IMAG, "CHAR": gotoken.CHAR, "STRING": gotoken.STRING}

// ToGo builds the go/ast tree of x, without positions (variadic calls have
// Ellipsis 1).
func (x *GoX) ToGo() goast.Expr {
	switch x.Kind {
	case KIdent:
		return &goast.Ident{Name: x.Text}
	case KLit:
		return &goast.BasicLit{Kind: littok[x.Lit], Value: x.Text}
	case KParen:
		return &goast.ParenExpr{X: x.X[0].ToGo()}
	case KUnary:
		return &goast.UnaryExpr{Op: optok[x.Text], X: x.X[0].ToGo()}
	case KBin:
		return &goast.BinaryExpr{X: x.X[0].ToGo(), Op: optok[x.Text], Y: x.X[1].ToGo()}
	case KStar:
		return &goast.StarExpr{X: x.X[0].ToGo()}
	case KSel:
		return &goast.SelectorExpr{X: x.X[0].ToGo(), Sel: &goast.Ident{Name: x.Text}}
	case KCall:
		c := &goast.CallExpr{Fun: x.X[0].ToGo()}
		for _, a := range x.X[1:] {
			c.Args = append(c.Args, a.ToGo())
		}
		if x.Var {
			c.Ellipsis = 1
		}
		return c
	}
	panic("model: bad expression kind " + x.Kind)
}

// ToAST builds the implementation tree of a rule.
func (r *Rule) ToAST() *ast.Rule {
	if Sharing {
		return share(r.toAST()).(*ast.Rule)
	}
	return r.toAST()
}

func (r *Rule) toAST() *ast.Rule {
	a := &ast.Rule{Match: valueAST(r.Match), Block: r.Block, Result: valueAST(r.Result)}
	if r.Cond != nil {
		a.Condition = &ast.Expr{Expr: r.Cond.ToGo()}
	}
	return a
}

// FileAST builds the implementation tree of a file.
func FileAST(rs []*Rule) *ast.File {
	f := &ast.File{}
	for _, r := range rs {
		f.Rules = append(f.Rules, r.toAST())
	}
	if Sharing {
		share(f)
	}
	return f
}

// OpAST builds the implementation's operator.
func OpAST(op []Part) ast.Op {
	if len(op) == 1 && op[0].Alt == nil {
		return ast.Opcode(op[0].Lit)
	}
	var parts ast.OpcodeParts
	for _, p := range op {
		if p.Alt == nil {
			parts = append(parts, ast.Opcode(p.Lit))
		} else {
			alt := ast.OpcodeAlt{}
			for _, a := range p.Alt {
				alt = append(alt, ast.Opcode(a))
			}
			parts = append(parts, alt)
		}
	}
	return parts
}

// ValueAST builds the implementation tree of a value.
func ValueAST(v Value) ast.Value {
	if Sharing {
		if a := valueAST(v); a != nil {
			share(&a)
			return a
		}
	}
	return valueAST(v)
}

func valueAST(v Value) ast.Value {
	switch v := v.(type) {
	case Var:
		return ast.Variable(v)
	case *Call:
		return &ast.Expr{Expr: v.X.ToGo()}
	case *S:
		s := &ast.SExpr{Binding: ast.Variable(v.Binding), Op: OpAST(v.Op), Type: ast.Type(v.Type), Ellipsis: v.Ellipsis, Trailing: v.Trailing}
		if v.AuxInt != nil {
			s.AuxInt = &ast.Expr{Expr: v.AuxInt.ToGo()}
		}
		if v.Aux != nil {
			s.Aux = &ast.Expr{Expr: v.Aux.ToGo()}
		}
		for _, a := range v.Args {
			s.Args = append(s.Args, valueAST(a))
		}
		return s
	}
	panic("model: bad value")
}

// ---- complete form of implementation trees, by reflection ----

// Full is a complete serialisation of an implementation tree: every exported and
// unexported field, positions included; nil and empty slices are the same.
func Full(n interface{}) string {
	var b strings.Builder
	full(&b, reflect.ValueOf(n), 0)
	return b.String()
}

func full(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 1000000 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		full(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			full(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString(v.Type().Name())
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			full(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.String:
		b.WriteString(v.Type().Name())
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Map:
		fmt.Fprintf(b, "map(%d)", v.Len())
	default:
		fmt.Fprintf(b, "%s", v.Kind())
	}
}

// FirstPos returns a description of the first node of x that has a source
// position, other than the mark of a variadic call.
func FirstPos(x goast.Expr) string {
	res := ""
	goast.Inspect(x, func(n goast.Node) bool {
		if n == nil || res != "" {
			return false
		}
		v := reflect.ValueOf(n).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(gotoken.NoPos) && f.Int() != 0 && v.Type().Field(i).Name != "Ellipsis" {
				res = fmt.Sprintf("%T.%s=%d", n, v.Type().Field(i).Name, f.Int())
			}
		}
		return true
	})
	return res
}

// ---- conversion of implementation trees to the model ----

// FromFile converts a file.
func FromFile(f *ast.File) []*Rule {
	var rs []*Rule
	for _, r := range f.Rules {
		rs = append(rs, FromRule(r))
	}
	return rs
}

// FromRule converts a rule.
func FromRule(r *ast.Rule) *Rule {
	m := &Rule{Match: FromValue(r.Match), Block: r.Block, Result: FromValue(r.Result)}
	if r.Condition != nil {
		m.Cond = FromGo(r.Condition.Expr)
	}
	return m
}

// FromValue converts a value.
func FromValue(v ast.Value) Value {
	switch v := v.(type) {
	case ast.Variable:
		return Var(v)
	case *ast.Expr:
		return &Call{X: FromGo(v.Expr)}
	case *ast.SExpr:
		s := &S{Binding: string(v.Binding), Type: string(v.Type), Ellipsis: v.Ellipsis, Trailing: v.Trailing, Op: FromOp(v.Op)}
		if v.AuxInt != nil {
			s.AuxInt = FromGo(v.AuxInt.Expr)
		}
		if v.Aux != nil {
			s.Aux = FromGo(v.Aux.Expr)
		}
		for _, a := range v.Args {
			s.Args = append(s.Args, FromValue(a))
		}
		return s
	}
	panic(fmt.Sprintf("model: unexpected %T", v))
}

// FromOp converts an operator.
func FromOp(op ast.Op) []Part {
	switch op := op.(type) {
	case ast.Opcode:
		return []Part{{Lit: string(op)}}
	case ast.OpcodeParts:
		var ps []Part
		for _, p := range op {
			switch p := p.(type) {
			case ast.Opcode:
				ps = append(ps, Part{Lit: string(p)})
			case ast.OpcodeAlt:
				alt := []string{}
				for _, a := range p {
					alt = append(alt, string(a))
				}
				ps = append(ps, Part{Alt: alt})
			default:
				panic(fmt.Sprintf("model: unexpected %T", p))
			}
		}
		return ps
	}
	panic(fmt.Sprintf("model: unexpected %T", op))
}
