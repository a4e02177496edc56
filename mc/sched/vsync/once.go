//go:build go1.21

package vsync

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		once  Once
		valid bool
		p     interface{}
		r1    T1
		r2    T2
	)
	g := func() {
		defer func() {
			if p = recover(); !valid {
				panic(p)
			}
		}()
		r1, r2 = f()
		f = nil
		valid = true
	}
	return func() (T1, T2) {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return r1, r2
	}
}
