package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

// overwrite gives dst the content of src, keeping the nodes (and the storage of lists) of
// dst where it can, as a caller does who edits a tree in place.
func overwrite(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Ptr:
		if dst.IsNil() || src.IsNil() || dst.Elem().Kind() != reflect.Struct {
			dst.Set(src)
			return
		}
		overwrite(dst.Elem(), src.Elem())
	case reflect.Interface:
		if dst.IsNil() || src.IsNil() || dst.Elem().Type() != src.Elem().Type() {
			dst.Set(src)
			return
		}
		switch d, s := dst.Elem(), src.Elem(); d.Kind() {
		case reflect.Ptr:
			overwrite(d, s)
		case reflect.Slice:
			if d.Len() != s.Len() {
				dst.Set(src)
				return
			}
			for i := 0; i < d.Len(); i++ {
				overwrite(d.Index(i), s.Index(i))
			}
		default:
			dst.Set(src)
		}
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if dst.Type().Field(i).PkgPath == "" {
				overwrite(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Slice:
		if n := src.Len(); n > 0 && n <= dst.Len() {
			dst.Set(dst.Slice(0, n))
			for i := 0; i < n; i++ {
				overwrite(dst.Index(i), src.Index(i))
			}
			return
		}
		dst.Set(src)
	default:
		dst.Set(src)
	}
}

// ruleCalls is what all calls that do not change it give for a rule and for a file of it.
// They scribble over the bytes they return.
func ruleCalls(f *ast.File) string {
	r := f.Rules[0]
	var b strings.Builder
	put := func(what string, t []byte, err error) {
		fmt.Fprintf(&b, "%s %v: %s\n", what, err, t)
		for i := range t {
			t[i] = '!'
		}
	}
	for _, n := range []ast.Node{f, r, r.Match, r.Result} {
		p, err := printer.Bytes(n)
		put("print", p, err)
		d, err := ast.Dump(n)
		put("dump", []byte(d), err)
	}
	for _, n := range []ast.Node{f, r} {
		b.WriteString("walk ")
		ast.Inspect(n, func(n ast.Node) bool {
			switch v := n.(type) {
			case nil:
				b.WriteString(")")
			case ast.Variable:
				fmt.Fprintf(&b, "(var %s", v)
			case ast.Opcode:
				fmt.Fprintf(&b, "(op %s", v)
			case ast.OpcodeAlt:
				fmt.Fprintf(&b, "(alt %q", v)
			default:
				fmt.Fprintf(&b, "(%T", v)
			}
			return true
		})
	}
	k := 0
	fmt.Fprintf(&b, "\ncontains %v", ast.Contains(f, func(n ast.Node) bool { k++; _, ok := n.(ast.Variable); return ok }))
	fmt.Fprintf(&b, " %d\n", k)
	for _, p := range predicates {
		fmt.Fprintf(&b, "%v ", p.impl(r))
	}
	q, err := smt2.Generate(r)
	put("\ngenerate", q, err)
	return b.String()
}

func expandRuleCall(f *ast.File) string {
	g := &ast.File{Rules: append([]*ast.Rule{}, f.Rules...)}
	err := pass.ExpandAlternates(g)
	return fmt.Sprintf("%v %s", err, model.CanonAST(g))
}

// c18Edits makes all calls on a tree, edits it in place and makes them again.
func c18Edits(x *explore.X) {
	var r *model.Rule
	sk := x.Free(len(gen.Skeletons) + 1)
	if sk < len(gen.Skeletons) {
		r = gen.Rule(x, gen.Skeletons[sk], gen.DefaultOpts())
	} else {
		v := func(s string) model.Value { return model.Var(s) }
		r = []*model.Rule{
			rule(sx("Add8", v("x"), v("y")), sx("Sub8", v("y"), v("x"))),
			rule(sx("Neg16", sx("Com16", v("x"))), v("x")),
			rule(sx("AndB", v("x"), v("_")), v("x")),
			rule(sx("Frob8", v("x")), v("x")),
			rule(v("x"), sx("Xor64", v("x"), v("select"))),
		}[x.Free(5)]
	}
	r = copyRule(r)
	text := r.Print()
	x.Describe(func() string { return text })
	x.Key(r.Canon())
	canon := r.Canon()
	first := ruleCalls(&ast.File{Rules: []*ast.Rule{r.ToAST()}})
	firstExpanded := expandRuleCall(&ast.File{Rules: []*ast.Rule{r.ToAST()}})
	for k := 0; ; k++ {
		m := copyRule(r)
		what, ok := mutate(m, k)
		if !ok {
			break
		}
		if m.Canon() == canon {
			continue
		}
		x.Validated(1)
		f := &ast.File{Rules: []*ast.Rule{r.ToAST()}}
		a := f.Rules[0]
		same(x, "calls on an equal tree", ruleCalls(f), first)
		same(x, "expansion of an equal tree", expandRuleCall(f), firstExpanded)
		edited := m.ToAST()
		overwrite(reflect.ValueOf(a), reflect.ValueOf(edited))
		if model.CanonAST(a) != m.Canon() {
			panic("the edit did not succeed: " + what)
		}
		fresh := &ast.File{Rules: []*ast.Rule{m.ToAST()}}
		same(x, fmt.Sprintf("calls after an edit (%s) to %s, against a new tree", what, m.Print()), ruleCalls(f), ruleCalls(fresh))
		same(x, fmt.Sprintf("expansion after an edit (%s) to %s, against a new tree", what, m.Print()), expandRuleCall(f), expandRuleCall(fresh))
		overwrite(reflect.ValueOf(a), reflect.ValueOf(r.ToAST()))
		same(x, "calls after an edit ("+what+") and back", ruleCalls(f), first)
		// A rule replaced in its file.
		f.Rules[0] = m.ToAST()
		same(x, "calls after replacing the rule", ruleCalls(f), ruleCalls(fresh))
	}
	// A tree that was parsed and edited does not change what parsing gives.
	f, err := parse.String(text)
	if err != nil {
		return // hand-built only
	}
	full := model.Full(f)
	if len(f.Rules) == 1 {
		m := copyRule(r)
		mutate(m, 0)
		overwrite(reflect.ValueOf(f.Rules[0]), reflect.ValueOf(m.ToAST()))
		f.Rules = append(f.Rules[:0], nil)
	}
	g, err := parse.String(text)
	if err != nil {
		x.Fail("the second parse fails: %v", err)
	}
	same(x, "tree parsed again after editing the first", model.Full(g), full)
}
