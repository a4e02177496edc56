package props

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
)

// confusables are pairs of names that are easily taken for one another: by folding case,
// dropping underscores or digits, comparing prefixes or suffixes, adding up characters.
// Both match [a-z][_a-zA-Z0-9]*.
var confusables = func() [][2]string {
	ps := [][2]string{
		{"ab", "ab"}, {"x", "x"},
		{"ab", "aB"}, {"aB", "ab"}, {"abc", "aBC"}, {"ptrX", "ptrx"},
		{"a_b", "ab"}, {"ab", "a_b"}, {"a_", "a"}, {"a", "a_"}, {"a__b", "a_b"},
		{"a", "aa"}, {"aa", "a"}, {"a", "a0"}, {"a0", "a"}, {"a1", "a01"}, {"a1", "a10"}, {"a1", "a2"}, {"a9", "a10"},
		{"ab", "ba"}, {"ad", "bc"}, {"l1", "ll"}, {"o0", "oo"}, {"xy", "x"}, {"xy", "y"}, {"yx", "x"},
		{"a1b", "a2b"}, {"b1", "c1"}, {"aA", "aa"}, {"true", "tru"}, {"nil", "ni"}, {"b", "v"},
	}
	for _, n := range []int{2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1024} {
		p := rep("abcdefghij", n/10+1)[:n]
		ps = append(ps, [2]string{p + "x", p + "y"}, [2]string{"x" + p, "y" + p}, [2]string{p, p + "x"}, [2]string{p + "x" + p, p + "X" + p})
	}
	return ps
}()

// capital makes an operator name of a variable name, keeping what distinguishes the pair.
func capital(s string) string { return "O" + s }

// holed is a file with many names; h gives the name for each of its places.
func holed(h func(kind string) string) []*model.Rule {
	v := func() model.Value { return model.Var(h("var")) }
	id := func() *model.GoX { return model.Id(h("go")) }
	op := func() []model.Part { return model.Op(h("op")) }
	inner := &model.S{Binding: h("var"), Op: op(), Type: h("type"), AuxInt: id(), Aux: model.Fn(id(), id())}
	inner.Args = []model.Value{v(), model.Var("_")}
	m := &model.S{Binding: h("var"), Op: []model.Part{{Lit: h("op")}, {Alt: []string{h("op"), h("op")}}}, Type: h("type")}
	m.Args = []model.Value{v(), inner, v()}
	q := &model.S{Op: []model.Part{{Alt: []string{h("op"), h("op")}}, {Lit: h("op")}}, Aux: model.Sel(id(), h("go"))}
	q.Args = []model.Value{&model.Call{X: model.Fn(model.Id(h("var")), id())}, v()}
	a := rule(m, q)
	a.Cond = model.Bin(model.Bin(id(), "==", id()), "&&", model.Fn(id(), model.Un("-", id())))
	a.Block = h("type")
	b := rule(&model.S{Binding: h("var"), Op: op(), Type: h("type"), Args: []model.Value{v()}}, &model.S{Op: op(), AuxInt: id(), Args: []model.Value{v()}})
	b.Block = h("type")
	return []*model.Rule{a, b}
}

var holeKinds = func() []string {
	var ks []string
	holed(func(k string) string { ks = append(ks, k); return k })
	return ks
}()

// paired is the holed file with a confusable pair at two of its places.
func paired(x *explore.X) []*model.Rule {
	n := len(holeKinds)
	i := x.Free(n)
	j := x.Free(n)
	if j < i {
		return nil
	}
	all := append(confusables[:len(confusables):len(confusables)], collisions...)
	pair := all[x.Free(len(all))]
	if j == i {
		// The two rules twice, the same but for one name.
		return append(holedWith(map[int]string{i: pair[0]}), holedWith(map[int]string{i: pair[1]})...)
	}
	return holedWith(map[int]string{i: pair[0], j: pair[1]})
}

// holedWith is the holed file with the given names at their places.
func holedWith(names map[int]string) []*model.Rule {
	k := -1
	return holed(func(kind string) string {
		k++
		w := names[k]
		if w == "" {
			w = fmt.Sprintf("n%d", k+100)
		}
		if kind == "op" {
			return capital(w)
		}
		if kind == "go" && !goName(w) {
			return w + "z"
		}
		if !gen.IsVar(w) {
			panic(w)
		}
		return w
	})
}

// pairedTypes has two types (or blocks) that differ little.
func pairedTypes(x *explore.X) []*model.Rule {
	ps := [][2]string{{"a b", "a  b"}, {"a b", "ab"}, {"a", "a "}, {"a", " a"}, {" a", "a"}, {"a", "a\t"}, {"a.b", "a,b"}, {"x.Type", "x.type"}, {"(a)", "a"},
		{"a)", "a"}, {"[8]T", "[16]T"}, {"t%d", "t%s"}, {"é", "e"}, {"é", "É"}, {"Ω", "ω"}, {"K", "K"}, {"a\x00", "a"}, {"ſ", "s"}, {"e\u0301", "é"}, {"ﬁ", "fi"}}
	p := ps[x.Free(len(ps))]
	n := 0
	for _, k := range holeKinds {
		if k == "type" {
			n++
		}
	}
	i, j := x.Free(n), x.Free(n)
	if i == j {
		return nil
	}
	if strings.ContainsAny(p[0]+p[1], " \t") {
		// Not in a block.
		if i == 2 || j == 2 || i == 4 || j == 4 {
			return nil
		}
	}
	k, t := 0, -1
	return holed(func(kind string) string {
		k++
		w := fmt.Sprintf("n%d", k+100)
		if kind == "op" {
			w = "O" + w
		}
		if kind == "type" {
			t++
			if t == i {
				w = p[0]
			}
			if t == j {
				w = p[1]
			}
		}
		return w
	})
}

// pairSubs are the explorations of files with confusable names.
func pairSubs(check func(x *explore.X, rs []*model.Rule)) []*explore.Sub {
	return []*explore.Sub{
		unicodeSub(check),
		sizedFeaturesSub(300, func(x *explore.X, r *model.Rule) { check(x, []*model.Rule{r}) }),
		{Name: "pairs", Run: func(x *explore.X) {
			if rs := paired(x); rs != nil {
				check(x, rs)
			}
		}},
		{Name: "twins", Run: func(x *explore.X) {
			if rs := twins(x); rs != nil {
				check(x, rs)
			}
		}},
		{Name: "type-pairs", Run: func(x *explore.X) {
			if rs := pairedTypes(x); rs != nil {
				check(x, rs)
			}
		}},
	}
}
