package model

import (
	"fmt"
	goast "go/ast"
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
)

// Sharing makes ToAST, FileAST and ValueAST build trees in which all equal nodes and
// lists are one object, as a caller may build them.
var Sharing bool

// share makes equal parts of n one object, in place, and returns the object for n.
func share(n interface{}) interface{} {
	return (&sharer{map[string]reflect.Value{}}).value(reflect.ValueOf(n)).Interface()
}

type sharer struct{ seen map[string]reflect.Value }

func (s *sharer) value(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			if e := v.Elem(); e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice {
				v.Set(s.value(e))
			}
		}
		return v
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if _, ok := v.Interface().(*goast.Object); ok {
			return v
		}
		s.value(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() && (f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice) {
				f.Set(s.value(f))
			} else if f.Kind() == reflect.Interface {
				s.value(f)
			}
		}
		return v
	case reflect.Slice:
		if v.Len() == 0 {
			return v
		}
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Ptr {
				e.Set(s.value(e))
			} else if e.Kind() == reflect.Interface {
				s.value(e)
			}
		}
	default:
		return v
	}
	k := fmt.Sprintf("%s %s", v.Type(), Full(v.Interface()))
	if o, ok := s.seen[k]; ok {
		return o
	}
	s.seen[k] = v
	return v
}

// Ends gives where the storage of each list of the tree ends.
func Ends(n interface{}, ends map[uintptr]bool) {
	lists(reflect.ValueOf(n), func(v reflect.Value) {
		if v.Cap() > 0 {
			ends[v.Pointer()+uintptr(v.Cap())*v.Type().Elem().Size()] = true
		}
	})
}

// Append puts something behind the end of each list of the tree that has room there, as
// an append by its owner does, except for lists that end at one of the addresses.
func Append(n interface{}, except map[uintptr]bool) {
	lists(reflect.ValueOf(n), func(v reflect.Value) {
		if v.Cap() == v.Len() || except[v.Pointer()+uintptr(v.Cap())*v.Type().Elem().Size()] {
			return
		}
		w := v.Slice(0, v.Cap())
		for i := v.Len(); i < v.Cap(); i++ {
			switch e := w.Index(i); e.Type() {
			case reflect.TypeOf((*ast.Value)(nil)).Elem():
				e.Set(reflect.ValueOf(ast.Variable("appended")))
			case reflect.TypeOf((*ast.OpPart)(nil)).Elem():
				e.Set(reflect.ValueOf(ast.Opcode("Appended")))
			case reflect.TypeOf(ast.Opcode("")):
				e.SetString("Appended")
			case reflect.TypeOf((*goast.Expr)(nil)).Elem():
				e.Set(reflect.ValueOf(goast.NewIdent("appended")))
			case reflect.TypeOf((*ast.Rule)(nil)):
				e.Set(reflect.ValueOf(&ast.Rule{Match: ast.Variable("appended"), Result: ast.Variable("appended")}))
			}
		}
	})
}
