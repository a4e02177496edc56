package model

import (
	"fmt"
	goast "go/ast"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// Roomy gives every list of the tree n storage beyond its end, as lists have that are
// parts of longer ones.
func Roomy(n interface{}) { roomy(reflect.ValueOf(n)) }

func roomy(v reflect.Value) {
	lists(v, func(s reflect.Value) {
		k := s.Len()
		if !s.CanSet() || k == 0 {
			return
		}
		t := reflect.MakeSlice(s.Type(), k, k+2)
		reflect.Copy(t, s)
		u := t.Slice(0, k+2)
		for i := k; i < k+2; i++ {
			var e interface{}
			switch u.Index(i).Interface().(type) {
			case *ast.Rule:
				e = &ast.Rule{Match: ast.Variable("other"), Result: ast.Variable("other")}
			case ast.Opcode:
				e = ast.Opcode("other")
			default:
				switch s.Type().Elem() {
				case reflect.TypeOf((*ast.Value)(nil)).Elem():
					e = ast.Variable("other")
				case reflect.TypeOf((*ast.OpPart)(nil)).Elem():
					e = ast.Opcode("other")
				case reflect.TypeOf((*goast.Expr)(nil)).Elem():
					e = goast.NewIdent("other")
				default:
					continue
				}
			}
			u.Index(i).Set(reflect.ValueOf(e))
		}
		s.Set(t)
	})
}

// lists calls f for every list in a tree, the outer ones first. Lists held by interfaces
// are replaced by ones that can be set.
func lists(v reflect.Value, f func(s reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf((*goast.Object)(nil)) {
			lists(v.Elem(), f)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if e := v.Elem(); e.Kind() == reflect.Slice {
			s := reflect.New(e.Type()).Elem()
			s.Set(e)
			lists(s, f)
			if v.CanSet() && s.Len() > 0 && s.Pointer() != e.Pointer() {
				v.Set(s)
			}
			return
		}
		lists(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				lists(v.Field(i), f)
			}
		}
	case reflect.Slice:
		f(v)
		for i := 0; i < v.Len(); i++ {
			lists(v.Index(i), f)
		}
	}
}

// Spare describes what is stored beyond the end of the lists of the tree n.
func Spare(n interface{}) string {
	var b strings.Builder
	lists(reflect.ValueOf(n), func(s reflect.Value) {
		for u, i := s.Slice(0, s.Cap()), s.Len(); i < u.Len(); i++ {
			fmt.Fprintf(&b, "%s;", brief(u.Index(i)))
		}
		b.WriteString("/")
	})
	return b.String()
}

func brief(v reflect.Value) string {
	switch e := v.Interface().(type) {
	case *ast.Rule:
		if e == nil {
			return "nil"
		}
		return CanonAST(e)
	case ast.Opcode:
		return string(e)
	case ast.Node:
		return CanonAST(e)
	case goast.Expr:
		return CanonGoExpr(e)
	}
	return fmt.Sprint(v.Interface())
}
