package props

import (
	"fmt"
	"strings"
	"unicode"

	"verif/mc/explore"
	"verif/mc/model"
)

// Long lists in which, over all shifts, every two kinds of elements stand next to each
// other at every place.

// pairsOf is a cyclic sequence over k kinds in which every two follow each other exactly
// once (a de Bruijn sequence of order 2).
func pairsOf(k int) (seq []int) {
	used := make([][]bool, k)
	for i := range used {
		used[i] = make([]bool, k)
	}
	// Hierholzer's algorithm on the complete graph with loops.
	stack := []int{0}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		w := -1
		for j := 0; j < k; j++ {
			if !used[v][j] {
				w = j
				break
			}
		}
		if w < 0 {
			seq = append(seq, v)
			stack = stack[:len(stack)-1]
			continue
		}
		used[v][w] = true
		stack = append(stack, w)
	}
	return seq[:len(seq)-1]
}

// mixed are the kinds of n elements, for one of the shifts.
func mixed(x *explore.X, k, n int) (kinds []int, shift int) {
	seq := pairsOf(k)
	shift = x.Free(len(seq))
	for i := 0; i < n; i++ {
		kinds = append(kinds, seq[(i+shift)%len(seq)])
	}
	return kinds, shift
}

// mixedRules is a long file, or a rule with a long list, of mixed elements.
func mixedRules(x *explore.X, n int, ruleKinds func(i int) []*model.Rule) []*model.Rule {
	what := x.Free(6)
	var shift int
	var rs []*model.Rule
	switch what {
	case 0: // rules
		var ks []int
		ks, shift = mixed(x, len(ruleKinds(0)), n)
		for i, k := range ks {
			rs = append(rs, ruleKinds(i % 7)[k])
		}
	case 1, 2: // arguments
		var ks []int
		ks, shift = mixed(x, 7, n)
		s := sx("A")
		for i, k := range ks {
			v := model.Var(fmt.Sprintf("v%d", i))
			e := sx(fmt.Sprintf("N%d", i), v)
			switch k {
			case 0:
				s.Args = append(s.Args, v)
				continue
			case 1:
				s.Args = append(s.Args, model.Var("_"))
				continue
			case 2:
				s.Args = append(s.Args, &model.Call{X: model.Fn(model.Id("f"), model.Id("x"))})
				continue
			case 3:
				e.Binding = "b"
			case 4:
				e.Type = "t"
			case 5:
				e.AuxInt, e.Trailing = model.Id("c"), true
			case 6:
				e.Op = []model.Part{{Lit: "N"}, {Alt: []string{"1", "2"}}}
			}
			s.Args = append(s.Args, e)
		}
		rs = []*model.Rule{rule(s, sx("B"))}
		if what == 2 {
			rs = []*model.Rule{rule(sx("B"), s)}
		}
	case 3: // alternatives, some of them the same
		var ks []int
		ks, shift = mixed(x, 4, n)
		var alt []string
		for i, k := range ks {
			alt = append(alt, []string{"a", "b", "8", fmt.Sprintf("q%d", i)}[k])
		}
		rs = []*model.Rule{rule(&model.S{Op: []model.Part{{Lit: "A"}, {Alt: alt}}, Args: vars(1)}, &model.S{Op: []model.Part{{Alt: alt}, {Lit: "z"}}})}
	case 4: // levels
		var ks []int
		ks, shift = mixed(x, 6, min(n, 600))
		v := model.Value(model.Var("x"))
		for i, k := range ks {
			s := sx(fmt.Sprintf("D%d", i), v, model.Var("y"))
			switch k {
			case 0:
				s.Args = s.Args[:1]
			case 1:
				s.Args[0], s.Args[1] = s.Args[1], s.Args[0]
				s.Binding = "b"
			case 2:
				s.Type, s.Ellipsis = "t", true
			case 3:
				s.AuxInt, s.Trailing = model.Id("c"), true
			case 4:
				s.Op = []model.Part{{Alt: []string{"1", "2"}}, {Lit: "D"}}
			}
			v = s
		}
		rs = []*model.Rule{rule(v, sx("B"))}
	case 5: // arguments of a function
		var ks []int
		ks, shift = mixed(x, 6, n)
		c, d := model.Fn(model.Id("f")), model.Fn(model.Id("f"))
		for i, k := range ks {
			id := model.Id(fmt.Sprintf("a%d", i))
			// As values, calls have few kinds of arguments.
			d.X = append(d.X, []*model.GoX{id, model.Fn(model.Id("g"), id), model.Fn(model.Id("h"), id, id)}[k%3])
			c.X = append(c.X, []*model.GoX{id, model.Int(fmt.Sprint(i)), model.Bin(id, "+", model.Int("1")), model.Fn(model.Id("g"), id), model.Paren(id), model.Lit("STRING", `"s"`)}[k])
		}
		m := sx("A", &model.Call{X: d})
		m.Aux = c
		r := rule(m, &model.Call{X: d})
		r.Cond = c
		rs = []*model.Rule{r}
	}
	x.Describe(func() string { return fmt.Sprintf("list of mixed elements %d, shift %d", what, shift) })
	return rs
}

func mixedSub(n int, kinds func(i int) []*model.Rule, check func(x *explore.X, rs []*model.Rule)) *explore.Sub {
	return &explore.Sub{Name: "mixed", Run: func(x *explore.X) { check(x, mixedRules(x, n, kinds)) }}
}

// goodKinds are the expandable ones of expandKinds.
func goodKinds(i int) []*model.Rule {
	ks := expandKinds(i)
	return []*model.Rule{ks[0], ks[1], ks[2], ks[3], ks[4], ks[5], ks[9], ks[11], ks[12], ks[13], ks[15], ruleKinds(i)[6], ruleKinds(i)[8]}
}

// smallOperators are rules with every operator of up to four parts, of literals and
// groups of the same number of alternatives over two letters.
func smallOperators(x *explore.X, tier string) *model.Rule {
	n := 2 + x.Free(pick(tier, 2, 3))
	op := func(max int) (ps []model.Part) {
		groups := false
		for k := 0; k < max; k++ {
			c := x.Free(3 + 1<<n)
			if c == 0 {
				break
			}
			if c < 3 {
				if k > 0 && ps[k-1].Alt == nil {
					return nil // one literal would be read
				}
				ps = append(ps, model.Part{Lit: []string{"a", "Z"}[c-1]})
				continue
			}
			groups = true
			var alt []string
			for i := 0; i < n; i++ {
				alt = append(alt, []string{"a", "b"}[(c-3)>>i&1])
			}
			ps = append(ps, model.Part{Alt: alt})
		}
		if !groups {
			return nil
		}
		return ps
	}
	v := model.Var("x")
	ps := op(pick(tier, 4, 4))
	if ps == nil {
		return nil
	}
	s := &model.S{Op: ps, Args: []model.Value{v}}
	switch x.Free(4) {
	case 0:
		return rule(s, v)
	case 1:
		return rule(v, s)
	case 2:
		q := op(2)
		if q == nil {
			return nil
		}
		return rule(s, &model.S{Op: q})
	}
	return rule(s, s)
}

// sizedFeatures is a rule of some size that has one or two features.
func sizedFeatures(x *explore.X, max int) *model.Rule {
	form := x.Free(6)
	var ns []int
	for _, n := range dict().Sizes(20, max) {
		if n > 0 {
			ns = append(ns, n)
		}
	}
	n := ns[x.Free(len(ns))]
	v := model.Value(model.Var("x"))
	outer := sx("A", v)
	inner := outer
	switch form {
	case 0: // arguments, some of them S-expressions
		outer = sx("A", vars(n)...)
		inner = outer
		for i := 2; i < n; i += 5 {
			outer.Args[i] = sx("N", outer.Args[i])
		}
	case 1: // the last of the arguments
		inner = sx("B", v)
		outer = sx("A", append(vars(n-1), inner)...)
	case 2, 3: // levels
		inner = sx("D", v)
		outer = inner
		for i := 1; i < n; i++ {
			if form == 2 {
				outer = sx("D", outer, v)
			} else {
				outer = sx("D", v, outer)
			}
		}
	case 4: // the length of names
		if n < 2 {
			return nil
		}
		inner.Op = model.Op(rep("Op", n)[:n])
		inner.Args[0] = model.Var(rep("vA_", n)[:n])
	case 5: // alternatives
		if n < 2 {
			return nil
		}
		inner.Op = []model.Part{{Lit: "A"}, alts("a", n)}
	}
	r := rule(outer, sx("R", v))
	k := x.Free(10)
	for l := x.Free(k + 1); ; k, l = l, l {
		at := inner
		switch {
		case k < 6:
			setFeature(at, k)
		case k == 6:
			r.Cond = model.Bin(model.Id("c"), "==", model.Int("1"))
		case k == 7:
			r.Block = "blk"
		case k == 8 && form != 5:
			at.Op = []model.Part{{Lit: "G"}, {Alt: []string{"8", "16"}}, {Lit: "z"}}
		}
		if k == l {
			break
		}
	}
	switch x.Free(3) {
	case 1:
		r.Match, r.Result = r.Result, r.Match
	case 2:
		r.Result = r.Match
	}
	return r
}

func sizedFeaturesSub(max int, check func(x *explore.X, r *model.Rule)) *explore.Sub {
	return &explore.Sub{Name: "sized-features", Share: 2, Run: func(x *explore.X) {
		if r := sizedFeatures(x, max); r != nil {
			check(x, r)
		}
	}}
}

// everyRune's counterpart for trees: rules that hold, 256 at a time, every character there
// is in a place that allows it.
func unicodeRules(x *explore.X) []*model.Rule {
	const block = 256
	from := rune(x.Free((unicode.MaxRune+1)/block)) * block
	kind := x.Free(9)
	var rs []rune
	for r := from; r < from+block; r++ {
		if r < 0xd800 || r >= 0xe000 {
			rs = append(rs, r)
		}
	}
	without := func(not string) string {
		return strings.Map(func(r rune) rune {
			if strings.ContainsRune(not, r) {
				return -1
			}
			return r
		}, string(rs))
	}
	s := sx("A", model.Var("x"))
	r := rule(s, sx("B"))
	call := model.Fn(model.Id("f"))
	switch kind {
	case 0:
		s.Type = without(">")
		if s.Type == "" {
			return nil
		}
	case 1:
		r.Block = "b" + without(" \t\r\n/")
	case 2:
		s.Aux = model.Lit("STRING", `"`+without("\"}\\\n\x00\ufeff")+`"`)
	case 3:
		s.AuxInt = model.Lit("STRING", "`"+without("`]\r\n\x00\ufeff")+"`")
	case 4:
		r.Cond = model.Lit("STRING", `"`+without(">\"\\\n\x00\ufeff")+`"`)
	case 5:
		for _, c := range without("'\\\n}\x00\ufeff") {
			call.X = append(call.X, model.Lit("CHAR", "'"+string(c)+"'"))
		}
		s.Aux = call
	case 6:
		for _, c := range without("]\"\\\n\x00\ufeff") {
			call.X = append(call.X, model.Lit("STRING", `"`+string(c)+`"`))
		}
		s.AuxInt = call
	case 7:
		for _, c := range rs {
			if unicode.IsLetter(c) {
				call.X = append(call.X, model.Id(string(c)), model.Id("a"+string(c)))
			} else if unicode.IsDigit(c) {
				call.X = append(call.X, model.Id("a"+string(c)))
			}
		}
		r.Cond = call
	case 8:
		s.Type = "t" + strings.ReplaceAll(without("> \t"), "", " ") + "u"
	}
	if (kind == 5 || kind == 6 || kind == 7) && len(call.X) == 1 {
		return nil
	}
	x.Describe(func() string {
		return fmt.Sprintf("characters from %U, kind %d: %q", from, kind, model.Text([]*model.Rule{r}))
	})
	return []*model.Rule{r}
}

func unicodeSub(check func(x *explore.X, rs []*model.Rule)) *explore.Sub {
	return &explore.Sub{Name: "unicode", Run: func(x *explore.X) {
		if rs := unicodeRules(x); rs != nil {
			check(x, rs)
		}
	}}
}
