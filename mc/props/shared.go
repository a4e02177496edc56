package props

import (
	"verif/mc/explore"
	"verif/mc/model"
)

// sharedRules are rules whose equal parts are, in hand-built trees, one object: the same
// expression as condition, AuxInt and Aux, the same argument twice, on both sides, or
// inside another one.
func sharedRules(x *explore.X) *model.Rule {
	es := []*model.GoX{nil, model.Id("c"), model.Fn(model.Id("f"), model.Id("c"))}
	v := model.Var("x")
	leaf := func(i int) model.Value {
		switch i {
		case 1:
			return sx("B", v)
		case 2:
			s := sx("B", v)
			s.Op = []model.Part{{Lit: "B"}, {Alt: []string{"1", "2"}}}
			return s
		case 3:
			return &model.Call{X: es[2]}
		case 4:
			return sx("C", sx("B", v))
		case 5:
			s := sx("B", v)
			s.Type, s.Binding, s.AuxInt, s.Aux, s.Trailing = "t", "x", es[1], es[1], true
			return s
		}
		return v
	}
	m := sx("A", leaf(x.Free(6)), leaf(x.Free(6)))
	m.AuxInt, m.Aux = es[x.Free(3)], es[x.Free(3)]
	r := rule(m, v)
	r.Cond = es[x.Free(3)]
	switch x.Free(6) {
	case 0:
		r.Result = m
	case 1:
		r.Result = leaf(1)
	case 2:
		s := sx("A", m.Args...)
		s.AuxInt = es[x.Free(3)]
		s.Ellipsis = true
		r.Result = s
	case 3:
		r.Result = sx("D", m, m)
	case 4:
		r.Result = m.Args[0]
	}
	return r
}

func sharedSub(rules func(x *explore.X) *model.Rule, check func(x *explore.X, r *model.Rule)) *explore.Sub {
	return &explore.Sub{Name: "shared", Run: func(x *explore.X) {
		r := rules(x)
		model.Sharing = true
		defer func() { model.Sharing = false }()
		check(x, r)
	}}
}

// sharedTerms are the same for the SMT generator.
func sharedTerms(x *explore.X) *model.Rule {
	v, p := model.Var("x"), model.Var("_")
	arg := func() model.Value {
		return []model.Value{v, p, sx("Neg8", v), sx("Neg8", p), sx("Com8", sx("Neg8", v)), sx("Sub8", p, v), sx("Neg8", sx("Sub8", p, v))}[x.Free(7)]
	}
	a, b := arg(), arg()
	m := sx([]string{"Add8", "And8", "Sub8"}[x.Free(3)], a, b)
	return rule(m, []model.Value{m, v, a, sx("Sub8", a, b), sx("Neg8", m), sx("Sub8", m, m), sx("Or8", b, a)}[x.Free(7)])
}
