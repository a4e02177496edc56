package props

import (
	"sync"

	"verif/mc/explore"
	"verif/mc/model"
)

// Twins are constructs that are written with the same letters or the same parts, put
// together in another way. What tells them apart by something less than their whole
// structure (a key, a hash, a flattened name) takes one for the other.

// regrouped returns all operators spelled with the letters, split into literals and
// groups in every way.
func regrouped(letters string) [][]model.Part {
	var out [][]model.Part
	var visit func(rest string, op []model.Part)
	visit = func(rest string, op []model.Part) {
		if rest == "" {
			out = append(out, append([]model.Part(nil), op...))
			return
		}
		if len(op) == 0 || op[len(op)-1].Alt != nil {
			for i := 1; i <= len(rest); i++ {
				visit(rest[i:], append(op[:len(op):len(op)], model.Part{Lit: rest[:i]}))
			}
		}
		var group func(rest string, alt []string)
		group = func(rest string, alt []string) {
			if len(alt) > 1 {
				visit(rest, append(op[:len(op):len(op)], model.Part{Alt: append([]string(nil), alt...)}))
			}
			for i := 1; i <= len(rest); i++ {
				group(rest[i:], append(alt[:len(alt):len(alt)], rest[:i]))
			}
		}
		group(rest, nil)
	}
	visit(letters, nil)
	return out
}

type twinFamily struct {
	name string
	all  []func() *model.Rule
}

var (
	twinsOnce sync.Once
	families  []twinFamily
)

func twinFamilies() []twinFamily {
	twinsOnce.Do(func() {
		v := func(s string) model.Value { return model.Var(s) }
		result := func() *model.S { return sx("R", v("x")) }
		// Operators.
		ops := twinFamily{name: "operators"}
		list := regrouped("abcd")
		list = append(list,
			[]model.Part{{Alt: []string{"abcd", "abcd"}}}, []model.Part{{Alt: []string{"a", "b"}}, {Alt: []string{"c", "d"}}, {Lit: "e"}},
			[]model.Part{{Alt: []string{"b", "a"}}, {Lit: "cd"}}, []model.Part{{Alt: []string{"ab", "a"}}, {Lit: "bcd"}}, []model.Part{{Alt: []string{"a", "ab"}}, {Lit: "bcd"}},
			[]model.Part{{Alt: []string{"a", "b", "c"}}, {Lit: "d"}})
		for _, op := range list {
			op := op
			ops.all = append(ops.all, func() *model.Rule {
				return rule(&model.S{Op: op, Args: []model.Value{v("x")}}, result())
			})
		}
		// Nesting.
		nest := twinFamily{name: "nesting"}
		b := func(args ...model.Value) *model.S { return sx("B", args...) }
		s := func(args ...model.Value) func() *model.Rule {
			return func() *model.Rule { return rule(sx("A", args...), result()) }
		}
		nest.all = append(nest.all,
			s(v("x"), v("y"), v("z")), s(v("x"), b(v("y"), v("z"))), s(v("x"), b(v("y")), v("z")), s(b(v("x")), v("y"), v("z")), s(v("x"), v("y"), b(v("z"))),
			s(v("x"), b(), v("y"), v("z")), s(v("x"), v("y"), b(), v("z")), s(b(), v("x"), v("y"), v("z")), s(b(v("x"), v("y")), v("z")), s(b(v("x"), v("y"), v("z"))),
			s(v("x"), v("y"), v("z"), b()), s(v("z"), v("y"), v("x")), s(v("x"), v("x"), v("y")), s(v("x"), v("y"), v("y")), s(v("y"), b(v("x")), v("z")), s(b(v("x")), b(v("y")), v("z")), s(b(v("x"), b(v("y"))), v("z")), s(b(b(v("x")), v("y")), v("z")), s(b(v("x"), b(v("y"), v("z")))),
			func() *model.Rule { return rule(b(v("x"), v("y"), v("z")), sx("A", v("x"))) },
			func() *model.Rule { return rule(sx("R", v("x")), sx("A", v("x"), v("y"), v("z"))) },
			func() *model.Rule { return rule(sx("A", v("x"), v("y"), v("z")), v("x")) },
			func() *model.Rule { return rule(v("x"), sx("A", v("x"), v("y"), v("z"))) },
			func() *model.Rule { return rule(v("a"), sx("A", v("x"))) },
		)
		// The same name in every role.
		role := twinFamily{name: "roles"}
		add := func(f func(r *model.Rule, s *model.S)) {
			for deep := 0; deep < 3; deep++ {
				deep := deep
				role.all = append(role.all, func() *model.Rule {
					in, m, q := sx("B", v("x")), sx("A", v("y")), result()
					m.Args = append(m.Args, in)
					r := rule(m, q)
					f(r, []*model.S{m, in, q}[deep])
					return r
				})
			}
		}
		c := model.Id("c")
		add(func(r *model.Rule, s *model.S) {})
		add(func(r *model.Rule, s *model.S) { s.Type = "c" })
		add(func(r *model.Rule, s *model.S) { s.AuxInt = c })
		add(func(r *model.Rule, s *model.S) { s.Aux = c })
		add(func(r *model.Rule, s *model.S) { s.Binding = "c" })
		add(func(r *model.Rule, s *model.S) { s.Args = append(s.Args, v("c")) })
		add(func(r *model.Rule, s *model.S) { s.Args = append([]model.Value{v("c")}, s.Args...) })
		add(func(r *model.Rule, s *model.S) { s.Args = append(s.Args, &model.Call{X: model.Fn(c, c)}) })
		add(func(r *model.Rule, s *model.S) { s.Args = append(s.Args, sx("c")) })
		add(func(r *model.Rule, s *model.S) { s.Op = model.Op("c") })
		add(func(r *model.Rule, s *model.S) { s.Args = append(s.Args, v("_")) })
		add(func(r *model.Rule, s *model.S) { s.Trailing = true })
		add(func(r *model.Rule, s *model.S) { s.Ellipsis = true })
		add(func(r *model.Rule, s *model.S) { s.Args = nil })
		add(func(r *model.Rule, s *model.S) { s.Args = nil; s.Ellipsis = true })
		add(func(r *model.Rule, s *model.S) { s.Args = nil; s.Trailing = true })
		add(func(r *model.Rule, s *model.S) { s.Type = "c"; s.Aux = c })
		add(func(r *model.Rule, s *model.S) { s.Type = "c"; s.AuxInt = c })
		add(func(r *model.Rule, s *model.S) { s.AuxInt = c; s.Aux = c })
		role.all = append(role.all,
			func() *model.Rule { r := rule(sx("A", v("x")), result()); r.Cond = c; return r },
			func() *model.Rule { r := rule(sx("A", v("x")), result()); r.Block = "c"; return r },
			func() *model.Rule { r := rule(sx("A", v("x")), result()); r.Block = "c"; r.Cond = c; return r },
			func() *model.Rule { return rule(sx("A", v("x")), v("c")) },
			func() *model.Rule { return rule(v("c"), result()) },
			func() *model.Rule { return rule(sx("A", v("x")), &model.Call{X: model.Fn(c, c)}) },
			func() *model.Rule { return rule(&model.Call{X: model.Fn(c, c)}, result()) },
		)
		// Expressions.
		exprs := twinFamily{name: "expressions"}
		id, bin, un, fn := model.Id, model.Bin, model.Un, model.Fn
		a, bb, d := id("a"), id("b"), id("d")
		for _, e := range []*model.GoX{
			fn(a, bb, c), fn(fn(a), bb, c), fn(fn(a, bb), c), fn(a, fn(bb, c)), fn(a, fn(bb), c), fn(a, bb, fn(c)), model.FnV(a, bb, c), fn(fn(fn(a), bb), c), fn(a, bin(bb, "-", c)), bin(fn(a, bb), "-", c), fn(a, c, bb),
			bin(bin(a, "-", bb), "-", c), bin(a, "-", bin(bb, "-", c)), bin(a, "-", model.Paren(bin(bb, "-", c))), model.Paren(bin(bin(a, "-", bb), "-", c)), bin(model.Paren(bin(a, "-", bb)), "-", c), bin(a, "-", un("-", bb)), bin(bin(a, "-", un("-", bb)), "-", c), un("-", bin(a, "-", bb)), bin(un("-", a), "-", bb), un("-", un("-", a)), un("-", model.Paren(un("-", a))), bin(bin(a, "+", bb), "*", c), bin(a, "+", bin(bb, "*", c)), bin(bin(a, "*", bb), "+", c), bin(a, "*", bin(bb, "+", c)),
			un("!", bin(a, "==", bb)), bin(un("!", a), "==", bb), bin(a, "!=", bb), bin(a, "==", un("!", bb)), bin(a, "<", bb), bin(a, "<", un("-", bb)), bin(a, "&^", bb), bin(a, "&", un("^", bb)), bin(a, "&&", bb), bin(a, "&", un("&", bb)), bin(a, "*", model.Star(bb)), bin(bin(a, "&&", bb), "||", c), bin(a, "&&", bin(bb, "||", c)), bin(a, "||", bin(bb, "&&", c)), bin(bin(a, "||", bb), "&&", c),
			model.Sel(model.Sel(a, "b"), "c"), model.Sel(a, "b"), model.Sel(bb, "a"), fn(model.Sel(a, "b"), c), model.Sel(fn(a, bb), "c"), model.Sel(a, "bc"), model.Sel(id("ab"), "c"), model.Star(model.Sel(a, "b")), model.Sel(model.Paren(model.Star(a)), "b"), model.Star(a), un("&", a), un("-", a), un("+", a), un("^", a), un("!", a), a, model.Paren(a), model.Paren(model.Paren(a)), fn(a), fn(model.Paren(a)),
			model.Int("1"), model.Int("01"), model.Int("0x1"), model.Int("0X1"), model.Int("1_0"), model.Int("10"), model.Int("0xa"), model.Int("0xA"), model.Lit("FLOAT", "1."), model.Lit("FLOAT", "1.0"), model.Lit("FLOAT", "1e0"), model.Lit("FLOAT", "1E0"), model.Lit("IMAG", "1i"), model.Lit("CHAR", "'1'"), model.Lit("CHAR", "'a'"), model.Lit("CHAR", `'\x61'`), model.Lit("STRING", `"1"`), model.Lit("STRING", "`1`"), model.Lit("STRING", `"a"`), model.Lit("STRING", "`a`"), model.Lit("STRING", `""`), model.Lit("STRING", "``"), model.Lit("STRING", `"\x61"`), model.Lit("STRING", `" a"`), model.Lit("STRING", `"a "`), model.Lit("STRING", `"a\n"`),
			un("-", model.Int("1")), fn(a, un("-", model.Int("1"))), bin(a, "-", model.Int("1")), bin(a, "+", model.Int("1")), bin(a, "-", un("-", model.Int("1"))), bin(un("-", a), "-", un("-", d)),
		} {
			e := e.Norm()
			exprs.all = append(exprs.all, func() *model.Rule {
				r := rule(sx("A", v("x")), result())
				r.Cond = e
				return r
			}, func() *model.Rule {
				m := sx("A", v("x"))
				m.AuxInt = e
				return rule(m, result())
			})
		}
		families = []twinFamily{ops, nest, role, exprs}
	})
	return families
}

// twins is a file with two twins; the first one comes again last.
func twins(x *explore.X) []*model.Rule {
	fs := twinFamilies()
	all := fs[x.Free(len(fs))].all
	i, j := x.Free(len(all)), x.Free(len(all))
	a, b := all[i](), all[j]()
	switch x.Free(3) {
	case 0:
		return []*model.Rule{a, b, all[i]()}
	case 1:
		// In one rule.
		s, ok := b.Match.(*model.S)
		if !ok {
			return nil
		}
		r := &model.Rule{Match: a.Match, Cond: a.Cond, Block: a.Block, Result: s}
		return []*model.Rule{r}
	default:
		s, ok := a.Match.(*model.S)
		if !ok {
			return nil
		}
		m := sx("O", s, b.Match, all[i]().Match)
		return []*model.Rule{{Match: m, Cond: b.Cond, Result: b.Result}}
	}
}
