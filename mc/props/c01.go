package props

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
	"verif/mc/ref"
)

func init() {
	All["C01"] = &Prop{
		Level:  "model_checking",
		States: "distinct rule trees of the reference model (canonical form) that were rendered, parsed by the implementation and compared",
		Bounds: "features: every combination of at most 3 (thorough 4) feature deviations from 7 small skeletons and of at most 2 (3) from 3 larger ones; order: every order of type, AuxInt, Aux and up to 2 (3) arguments with every combination of marks and binding; files: every sequence of up to 3 (4) of 14 rule kinds with every separator; sizes: one of 21 dimensions at a time, all sizes up to 70 (300) and sizes around powers of 2, 10 and the constants of the sources up to 20000 (200000); bulk: one of 16 dimensions at a time with 65537 (thorough 131073) nodes or 2^20+1 (2^22+1, 2^24+1) bytes; sized-features: every one and two of 9 features on an expression with up to 20, or around powers of 2, 10 and the constants of the sources up to 300, arguments, levels inside or outside, alternatives, or characters in its names, as match, result or both; mixed: files of 700 (4200) rules, and rules with as many arguments, alternatives and function arguments, or 600 levels, in which over all shifts every two of 14 (7, 4, 6) kinds are neighbours at every place; marks: every two (and, in part, three and four) of 36 ASCII punctuation, blank and other characters in types, blocks and string literals; expressions: every Go expression with at most 3 (4) non-identifier nodes, over 4 binary and 2 unary operators, as condition, AuxInt or Aux of a match or result; spelling: every word of the dictionary in each of 17 places; pairs: every two of the 36 names of a file of two rules replaced by each of 134 pairs of easily confused names (by case, prefix, suffix, common hash functions; and 20 of types), and both rules once with each name of the pair; twins: every two operators of the 45 spelled abcd (and 6 more), every two of 24 nestings of the same parts, of 64 rules with the same name in another role, of 184 placed expressions of the same letters, in two rules, in match and result, and side by side; characters: every byte and sample runes in type and block texts; unicode: every Unicode character, in blocks of 256, where it is allowed; corpus: every rule of the repository's rules files, one by one and as whole files",
		Assume: []string{"the reference model's renderer and go/parser (for the corpus sub-exploration) define what was written"},
		Subs: func(tier string) []*explore.Sub {
			return append(pairSubs(checkParse), []*explore.Sub{
				{Name: "features", Bound: pick(tier, 3, 4), Run: func(x *explore.X) { c01Features(x, small) }, Share: 6},
				{Name: "features-full", Bound: pick(tier, 2, 3), Run: func(x *explore.X) { c01Features(x, large) }, Share: 3},
				{Name: "order", Bound: 0, Run: func(x *explore.X) { c01Order(x, pick(tier, 2, 3)) }},
				{Name: "files", Bound: 0, Run: func(x *explore.X) { c01Files(x, pick(tier, 3, 4)) }},
				{Name: "sizes", Bound: 0, Run: func(x *explore.X) { c01Sizes(x, pick(tier, 70, 300), pick(tier, 20000, 200000)) }},
				mixedSub(pick(tier, 700, 4200), ruleKinds, checkParse),
				bulkSub(tier, func(x *explore.X, rs []*model.Rule) {
					same(x, "parsed tree", model.CanonAST(mustParse(x, model.Text(rs))), model.CanonFile(rs))
				}),
				{Name: "expressions", Bound: pick(tier, 3, 4), Run: func(x *explore.X) {
					r := withExpr(x)
					if s := r.Match.(*model.S); len(s.Args) < 2 { // calls are more restricted
						checkParse(x, []*model.Rule{r})
					}
				}},
				{Name: "spelling", Bound: 0, Run: c01Spelling},
				{Name: "characters", Bound: 0, Run: c01Chars},
				{Name: "marks", Run: c01Marks},
				{Name: "corpus", Bound: 0, Run: c01Corpus},
			}...)
		},
	}
}

func checkParse(x *explore.X, rs []*model.Rule) {
	text := model.Text(rs)
	x.Describe(func() string { return text })
	want := model.CanonFile(rs)
	x.Key(want)
	f := mustParse(x, text)
	same(x, "parsed tree", model.CanonAST(f), want)
}

func shape(r *model.Rule) string {
	f := model.FeaturesOf(r)
	s := fmt.Sprintf("cond=%v block=%v", r.Cond != nil, r.Block != "")
	for _, b := range []struct {
		n string
		v bool
	}{{"binding", f.Binding}, {"type", f.Type}, {"aux", f.Aux}, {"auxint", f.AuxInt}, {"...", f.Ellipsis}, {"___", f.Trailing}} {
		if b.v {
			s += " " + b.n
		}
	}
	return s
}

// Skeletons with few and with many choice points.
var small, large = func() (s, l []gen.RuleSk) {
	for _, sk := range gen.Skeletons {
		if sk.Name == "full" || sk.Name == "right" || sk.Name == "nest" {
			l = append(l, sk)
		} else {
			s = append(s, sk)
		}
	}
	return
}()

func c01Features(x *explore.X, sks []gen.RuleSk) {
	sk := sks[x.Free(len(sks))]
	r := gen.Rule(x, sk, gen.DefaultOpts())
	x.Outcome = shape(r)
	checkParse(x, []*model.Rule{r})
}

func c01Order(x *explore.X, maxargs int) {
	s := sx("A")
	if x.Free(2) == 1 {
		s.Binding = "b"
	}
	if x.Free(2) == 1 {
		s.Type = "t"
	}
	if x.Free(2) == 1 {
		s.AuxInt = model.Id("c")
	}
	if x.Free(2) == 1 {
		s.Aux = model.Fn(model.Id("f"), model.Id("d"))
	}
	for n := x.Free(maxargs + 1); n > 0; n-- {
		switch x.Free(4) {
		case 0:
			s.Args = append(s.Args, model.Var(fmt.Sprintf("x%d", n)))
		case 1:
			s.Args = append(s.Args, sx(fmt.Sprintf("N%d", n)))
		case 2:
			s.Args = append(s.Args, &model.Call{X: model.Fn(model.Id("g"), model.Id(fmt.Sprintf("y%d", n)))})
		case 3:
			s.Args = append(s.Args, model.Var("_"))
		}
	}
	s.Ellipsis = x.Free(2) == 1
	s.Trailing = x.Free(2) == 1
	s.Perm = perm(x, s)
	var r *model.Rule
	switch x.Free(3) {
	case 0:
		r = rule(s, sx("B", model.Var("x")))
	case 1:
		r = rule(sx("B", model.Var("x")), s)
	case 2:
		r = rule(sx("B", model.Var("x"), s, model.Var("y")), sx("C"))
	}
	x.Outcome = shape(r)
	checkParse(x, []*model.Rule{r})
}

// ruleKinds are small rules of different shape, distinguishable by i.
func ruleKinds(i int) []*model.Rule {
	n := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	v := func(s string) model.Value { return model.Var(n(s)) }
	b := sx(n("A"), v("x"))
	b.Binding = n("b")
	cond := rule(sx(n("A"), v("x")), sx(n("B")))
	cond.Cond = model.Bin(model.Id(n("c")), "&&", model.Id(n("d")))
	block := rule(sx(n("A"), v("x")), v("x"))
	block.Block = n("blk")
	both := rule(b, sx(n("B"), v("y")))
	both.Cond, both.Block = model.Id(n("c")), n("blk")
	full := sx(n("A"), v("x"), sx(n("C")))
	full.Type, full.AuxInt, full.Aux, full.Ellipsis, full.Trailing = n("t"), model.Id(n("i")), model.Id(n("s")), true, true
	alt := rule(&model.S{Op: []model.Part{{Lit: n("A")}, {Alt: []string{"8", "16"}}}}, &model.S{Op: []model.Part{{Alt: []string{n("B"), n("C")}}}})
	call := &model.Call{X: model.Fn(model.Id(n("f")), model.Id("x"))}
	return []*model.Rule{
		rule(sx(n("A"), v("x")), sx(n("B"), v("x"))),
		rule(sx(n("A")), v("x")),
		rule(sx(n("A")), model.Var("_")),
		rule(v("x"), sx(n("B"))),
		rule(v("x"), v("y")),
		rule(b, sx(n("B"))),
		cond, block, both,
		rule(full, full),
		alt,
		rule(sx(n("A"), call), call),
		rule(call, sx(n("A"))),
		rule(model.Var("_"), sx(n("B"))),
	}
}

func c01Files(x *explore.X, max int) {
	var rs []*model.Rule
	for n := x.Free(max + 1); n > 0; n-- {
		ks := ruleKinds(n)
		rs = append(rs, ks[x.Free(len(ks))])
	}
	// The separator between rules, and what starts and ends the text.
	sep := []string{"\n", " ", "\n\n", "", "// c\n", "\r\n", "\t"}[x.Free(7)]
	end := []string{"\n", "", "// c", "\n// c\n"}[x.Free(4)]
	items := model.Items(rs)
	level := 0
	for i := range items {
		it := &items[i]
		if it.IsGap && it.Def == "\n" && it.Region == model.Plain {
			if it.Last {
				it.Def = end
			} else if sep != "" || it.Kind == model.Optional {
				it.Def = sep
			}
			level++
		}
	}
	if len(rs) == 0 {
		items[len(items)-1].Def = end
	}
	text := model.Default(items)
	x.Describe(func() string { return text })
	want := model.CanonFile(rs)
	x.Key(want)
	x.Outcome = fmt.Sprintf("%d rules", len(rs))
	f := mustParse(x, text)
	same(x, "parsed file", model.CanonAST(f), want)
}

func c01Sizes(x *explore.X, all, max int) {
	rs, name := sizedRules(x, all, max)
	if rs == nil {
		x.Outcome = "none"
		return
	}
	x.Outcome = strings.SplitN(name, "=", 2)[0]
	text := model.Text(rs)
	x.Describe(func() string { return name + ": " + clip(text) })
	want := model.CanonFile(rs)
	x.Key(want)
	f := mustParse(x, text)
	same(x, "parsed tree", model.CanonAST(f), want)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

var idents []string

func theIdents() []string {
	if idents == nil {
		idents = dict().Idents()
	}
	return idents
}

// spelled chooses a slot and a word.
func spelled(x *explore.X) (*model.Rule, string) {
	sl := slots[x.Free(len(slots))]
	ws := theIdents()
	w := ws[x.Free(len(ws))]
	if !sl.ok(w) {
		return nil, sl.name
	}
	return sl.make(w), sl.name
}

func c01Spelling(x *explore.X) {
	r, name := spelled(x)
	x.Outcome = name
	if r == nil {
		x.Outcome = "not a name there"
		return
	}
	checkParse(x, []*model.Rule{r})
}

// sampleRunes are characters to place in raw texts.
var sampleRunes = func() []rune {
	var rs []rune
	for c := rune(0); c < 0x100; c++ {
		rs = append(rs, c)
	}
	rs = append(rs, 0x3b1, 0x7ff, 0x800, 0x2028, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff)
	return append(rs, tableRunes...)
}()

// tableRunes are the first and the last character of every category, script and
// property of Unicode.
var tableRunes = func() []rune {
	m := map[rune]bool{}
	for _, ts := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties, unicode.FoldCategory, unicode.FoldScript} {
		for _, t := range ts {
			if n := len(t.R16); n > 0 {
				m[rune(t.R16[0].Lo)], m[rune(t.R16[n-1].Hi)] = true, true
			}
			if n := len(t.R32); n > 0 {
				m[rune(t.R32[0].Lo)], m[rune(t.R32[n-1].Hi)] = true, true
			}
		}
	}
	var rs []rune
	for r := range m {
		if r >= 0x100 && utf8.ValidRune(r) {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}()

func c01Chars(x *explore.X) {
	c := string(sampleRunes[x.Free(len(sampleRunes))])
	c01Pattern(x, []string{c, "a" + c, c + "a", "a" + c + "b", c + c, "a" + c + "=>" + c}[x.Free(6)])
}

// asciiMarks are the characters that are neither letters nor digits, and one of each of
// these.
const asciiMarks = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ \tnu0"

// c01Marks has every two of these, once and twice, and every three.
func c01Marks(x *explore.X) {
	c := string(asciiMarks[x.Free(len(asciiMarks))]) + string(asciiMarks[x.Free(len(asciiMarks))])
	switch k := x.Free(4 + len(asciiMarks)); k {
	case 0:
		c01Pattern(x, c)
	case 1:
		c01Pattern(x, "a"+c+"b")
	case 2:
		c01Pattern(x, c+c)
	case 3:
		c01Pattern(x, "a"+c+"b"+c+"c")
	default:
		c01Pattern(x, c+string(asciiMarks[k-4])+"c")
	}
}

func c01Pattern(x *explore.X, pat string) {
	var r *model.Rule
	switch x.Free(4) {
	case 0, 1:
		if strings.Contains(pat, ">") {
			pat = strings.ReplaceAll(pat, ">", "")
			if pat == "" {
				return
			}
		}
		m := sx("A", model.Var("x"))
		m.Type = pat
		r = rule(m, sx("B"))
	case 2:
		if strings.ContainsAny(pat, " \t\r\n") || strings.Contains(pat, "//") {
			return
		}
		r = rule(sx("A"), sx("B"))
		r.Block = pat
		x.Outcome = "block"
	case 3:
		// A string literal in Aux.
		if strings.ContainsAny(pat, "\"}\\\n\x00\ufeff") || !utf8.ValidString(pat) {
			return
		}
		m := sx("A", model.Var("x"))
		m.Aux = model.Lit("STRING", `"`+pat+`"`)
		r = rule(m, sx("B"))
	}
	checkParse(x, []*model.Rule{r})
}

var corpusRules []string

// corpusLines are the rules of the corpora, as written, one text per rule, where the
// reference recogniser can split them.
func corpusLines() []string {
	if corpusRules != nil {
		return corpusRules
	}
	for _, f := range corpora() {
		cur := ""
		for _, l := range strings.Split(readFile(f), "\n") {
			cur += l + "\n"
			res := ref.Recognise(cur)
			if res.OK {
				if len(res.Rules) > 0 {
					corpusRules = append(corpusRules, cur)
				}
				cur = ""
			}
		}
	}
	return corpusRules
}

func c01Corpus(x *explore.X) {
	files := corpora()
	i := x.Free(len(files) + 1)
	var text string
	if i < len(files) {
		text = readFile(files[i])
	} else {
		ls := corpusLines()
		text = ls[x.Free(len(ls))]
	}
	x.Describe(func() string { return clip(text) })
	res := ref.Recognise(text)
	if !res.OK {
		x.Fail("the reference rejects the corpus at %d-%d (%s)", res.Lo, res.Hi, res.Kind)
	}
	want := model.CanonFile(res.Rules)
	x.Key(want)
	f := mustParse(x, text)
	if res.Unspecified != "" {
		x.Outcome = "unspecified"
		if len(f.Rules) != len(res.Rules) {
			x.Fail("%d rules parsed, %d written", len(f.Rules), len(res.Rules))
		}
		return
	}
	x.Outcome = "specified"
	same(x, "parsed corpus", model.CanonAST(f), want)
}
