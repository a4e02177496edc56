package model

import "reflect"

// Take does with n what the owner of a result may do: it overwrites the bytes of a text,
// also the room behind it, or adds tag to every string of a tree, in place.
func Take(n interface{}, tag string) {
	if b, ok := n.([]byte); ok {
		b = b[:cap(b)]
		for i := range b {
			b[i] = tag[i%len(tag)]
		}
		return
	}
	take(reflect.ValueOf(n), tag, map[uintptr]bool{})
}

func take(v reflect.Value, tag string, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			take(v.Elem(), tag, seen)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if e := v.Elem(); e.Kind() == reflect.String {
			if v.CanSet() {
				v.Set(reflect.ValueOf(e.String() + tag).Convert(e.Type()))
			}
		} else {
			take(e, tag, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			take(v.Field(i), tag, seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			take(v.Index(i), tag, seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + tag)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}
