package smt

import (
	"verif/mc/model"
)

// The Go SSA operators that have a meaning here.
type opinfo struct {
	sort  Sort
	arity int
	f     func(a []uint64, m uint64) uint64
}

var ops = map[string]opinfo{}

func init() {
	for _, w := range []struct {
		s string
		n Sort
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		ops["Add"+w.s] = opinfo{w.n, 2, func(a []uint64, m uint64) uint64 { return (a[0] + a[1]) & m }}
		ops["Sub"+w.s] = opinfo{w.n, 2, func(a []uint64, m uint64) uint64 { return (a[0] - a[1]) & m }}
		ops["And"+w.s] = opinfo{w.n, 2, func(a []uint64, m uint64) uint64 { return a[0] & a[1] }}
		ops["Or"+w.s] = opinfo{w.n, 2, func(a []uint64, m uint64) uint64 { return a[0] | a[1] }}
		ops["Xor"+w.s] = opinfo{w.n, 2, func(a []uint64, m uint64) uint64 { return a[0] ^ a[1] }}
		ops["Neg"+w.s] = opinfo{w.n, 1, func(a []uint64, m uint64) uint64 { return (^a[0] + 1) & m }}
		ops["Com"+w.s] = opinfo{w.n, 1, func(a []uint64, m uint64) uint64 { return m - a[0] }}
	}
	ops["AndB"] = opinfo{0, 2, func(a []uint64, m uint64) uint64 { return a[0] & a[1] }}
	ops["OrB"] = opinfo{0, 2, func(a []uint64, m uint64) uint64 { return a[0] | a[1] }}
	ops["EqB"] = opinfo{0, 2, func(a []uint64, m uint64) uint64 { return 1 - (a[0] ^ a[1]) }}
	ops["NeqB"] = opinfo{0, 2, func(a []uint64, m uint64) uint64 { return a[0] ^ a[1] }}
	ops["Not"] = opinfo{0, 1, func(a []uint64, m uint64) uint64 { return 1 - a[0] }}
}

// Ops lists the operators of a sort, by arity.
func Ops(s Sort) (names []string, arity []int) {
	var l []string
	switch s {
	case 0:
		l = []string{"AndB", "OrB", "EqB", "NeqB", "Not"}
	default:
		w := map[Sort]string{8: "8", 16: "16", 32: "32", 64: "64"}[s]
		for _, o := range []string{"Add", "Sub", "And", "Or", "Xor", "Neg", "Com"} {
			l = append(l, o+w)
		}
	}
	for _, n := range l {
		names = append(names, n)
		arity = append(arity, ops[n].arity)
	}
	return
}

// IsOp reports whether name is a supported operator.
func IsOp(name string) bool { _, ok := ops[name]; return ok }

// Verdict of the reference on a rule.
type Verdict int

// Verdicts.
const (
	Refuse  Verdict = iota // must be refused
	Produce                // must give a script
	Either                 // the type of a bare variable could only come from the other side
)

// Rule is the reference meaning of a supported rule.
type Rule struct {
	Sort Sort
	Vars []string // variables, then one entry "_" for each placeholder, in order of first occurrence
	env  []uint64
	m, r func() uint64
}

// Understand gives the reference's verdict and, unless it is Refuse, the meaning.
func Understand(r *model.Rule) (*Rule, Verdict) {
	if r.Cond != nil || r.Block != "" {
		return nil, Refuse
	}
	_, mv := r.Match.(model.Var)
	_, rv := r.Result.(model.Var)
	if mv && rv {
		return nil, Refuse
	}
	u := &Rule{}
	// Every operator has operands and a result of one and the same sort.
	sort, ok := sortOf(r.Match)
	if mv {
		sort, ok = sortOf(r.Result)
	}
	if !ok {
		return nil, Refuse
	}
	u.Sort = sort
	idx := map[string]int{}
	if u.m, ok = u.value(r.Match, idx); !ok {
		return nil, Refuse
	}
	if u.r, ok = u.value(r.Result, idx); !ok {
		return nil, Refuse
	}
	u.env = make([]uint64, len(u.Vars))
	if mv {
		return u, Either
	}
	return u, Produce
}

func sortOf(v model.Value) (Sort, bool) {
	s, ok := v.(*model.S)
	if !ok || len(s.Op) != 1 || s.Op[0].Alt != nil {
		return 0, false
	}
	o, ok := ops[s.Op[0].Lit]
	return o.sort, ok
}

func (u *Rule) value(v model.Value, idx map[string]int) (func() uint64, bool) {
	switch v := v.(type) {
	case model.Var:
		i, ok := idx[string(v)]
		if !ok || v == "_" {
			i = len(u.Vars)
			u.Vars = append(u.Vars, string(v))
			idx[string(v)] = i
		}
		return func() uint64 { return u.env[i] }, true
	case *model.S:
		if v.Binding != "" || v.Type != "" || v.AuxInt != nil || v.Aux != nil || v.Ellipsis || v.Trailing {
			return nil, false
		}
		if len(v.Op) != 1 || v.Op[0].Alt != nil {
			return nil, false
		}
		o, ok := ops[v.Op[0].Lit]
		if !ok || o.sort != u.Sort || o.arity != len(v.Args) {
			return nil, false
		}
		var fs []func() uint64
		for _, a := range v.Args {
			f, ok := u.value(a, idx)
			if !ok {
				return nil, false
			}
			fs = append(fs, f)
		}
		m := u.Sort.mask()
		return func() uint64 {
			var a [2]uint64
			for i, f := range fs {
				a[i] = f()
			}
			return o.f(a[:], m)
		}, true
	}
	return nil, false
}

// Differ reports whether the sides differ under the assignment.
func (u *Rule) Differ(env []uint64) bool {
	copy(u.env, env)
	return u.m() != u.r()
}

// Values is an alphabet of at most n values of a sort.
func Values(s Sort, n int) []uint64 {
	if s == 0 {
		return []uint64{0, 1}
	}
	m := s.mask()
	if s < 64 && int(m) < n {
		var vs []uint64
		for v := uint64(0); v <= m; v++ {
			vs = append(vs, v)
		}
		return vs
	}
	top := uint64(1) << uint(s-1)
	vs := []uint64{1, m, top, 0, top - 1, 0x5a & m, 3, 0xaaaaaaaaaaaaaaaa & m, m - 1, 2, 0x5555555555555555 & m, top + 1, 0x0f0f0f0f0f0f0f0f & m, 1 << uint(s/2), 1<<uint(s/2) - 1, 0xfedcba9876543210 & m}
	if n < len(vs) {
		vs = vs[:n]
	}
	return vs
}

// Assignments calls f with every assignment of values of the alphabet to n variables;
// for many variables, with every one where at most two of them differ from a common
// value. It stops if f returns false.
func Assignments(s Sort, n, limit int, f func(env []uint64) bool) (count int) {
	env := make([]uint64, n)
	k := 16
	if s == 8 && n <= 2 && limit >= 65536 || s == 8 && n == 1 && limit >= 256 {
		k = 256
	}
	if s == 0 {
		k = 2
	}
	pow := func(k int) int {
		p := 1
		for i := 0; i < n; i++ {
			p *= k
			if p > limit {
				return limit + 1
			}
		}
		return p
	}
	for k > 2 && pow(k) > limit {
		k--
	}
	vs := Values(s, k)
	if pow(len(vs)) <= limit {
		for {
			count++
			if !f(env2(env, vs)) {
				return
			}
			i := 0
			for i < n {
				env[i]++
				if int(env[i]) < len(vs) {
					break
				}
				env[i] = 0
				i++
			}
			if i == n {
				return
			}
		}
	}
	vs = Values(s, 8)
	try := func() bool { count++; return f(env) }
	for _, base := range vs[:2] {
		for i := range env {
			env[i] = base
		}
		if !try() {
			return
		}
		for i := range env {
			for _, v := range vs {
				env[i] = v
				if !try() {
					return
				}
			}
			if n <= 20 {
				for j := i + 1; j < n; j++ {
					for _, v := range vs {
						env[i], env[j] = v, vs[(j+1)%len(vs)]
						if !try() {
							return
						}
						env[j] = base
					}
				}
			}
			env[i] = base
		}
	}
	// Distinct values everywhere.
	for r := 0; r < 3; r++ {
		for i := range env {
			env[i] = uint64(i*r+i+r) * 0x9e3779b97f4a7c15 >> 7 & s.mask()
		}
		if !try() {
			return
		}
	}
	return
}

var scratch []uint64

func env2(env, vs []uint64) []uint64 {
	scratch = scratch[:0]
	for _, i := range env {
		scratch = append(scratch, vs[i])
	}
	return scratch
}
