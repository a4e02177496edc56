package props

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
	"verif/mc/ref"
)

func init() {
	All["C03"] = &Prop{
		Level:  "model_checking",
		States: "distinct laid-out texts parsed and compared, node by node and position by position, with the tree of the default layout",
		Bounds: "gaps: every assignment of 13 layouts to at most 2 (thorough 3) gaps of 16 files that contain every kind of gap, the others having the default layout; uniform: one of 6 (13) layouts in all gaps, for every rule with at most 2 (3) feature deviations from 10 skeletons; tokens: every Go expression with at most 2 (3) non-identifier nodes as condition, AuxInt and Aux, with one of 6 layouts in any one gap, or in all gaps, between its tokens; comments: every byte, every rune sample, every short string constant of the sources and 40 rule fragments as comment text in each gap of 8 files; long: 11 layouts repeated up to 100000 times, single bytes up to 2^20+1 times, in each gap of 4 files; unicode: every Unicode character in comments; corpus: every rule of the repository's rules files under 8 uniform layouts",
		Assume: []string{"comments inside a condition are a recorded finding (K1): the only other outcome accepted there is that the condition ends at the first comment, or at a => inside a comment"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "gaps", Bound: pick(tier, 2, 3), Run: c03Gaps, Share: 5},
				{Name: "uniform", Bound: pick(tier, 2, 3), Run: func(x *explore.X) { c03Uniform(x, pick(tier, 6, len(layouts))) }, Share: 3},
				{Name: "tokens", Bound: pick(tier, 2, 3), Run: func(x *explore.X) { c03Tokens(x, tier) }, Share: 4},
				{Name: "unicode", Run: c03Unicode},
				{Name: "comments", Run: c03Comments, Share: 2},
				{Name: "long", Run: c03Long},
				{Name: "corpus", Run: func(x *explore.X) { c03Corpus(x, tier) }},
			}
		},
	}
}

// layoutFiles contain every kind of gap.
func layoutFiles() [][]*model.Rule {
	c, d, f := model.Id("c"), model.Id("d"), model.Id("f")
	v := func(s string) model.Value { return model.Var(s) }
	with := func(s *model.S, g func(*model.S)) *model.S { g(s); return s }
	cond := func(r *model.Rule, x *model.GoX) *model.Rule { r.Cond = x; return r }
	block := func(r *model.Rule, b string) *model.Rule { r.Block = b; return r }
	return [][]*model.Rule{
		{rule(sx("A"), sx("B"))},
		{rule(sx("A", v("x"), v("y")), v("x"))},
		{rule(with(sx("A", sx("C", v("x"))), func(s *model.S) { s.Binding = "b" }), sx("B", v("b")))},
		{rule(with(sx("A", v("x")), func(s *model.S) { s.Type = "t"; s.AuxInt = model.Bin(c, "+", d); s.Aux = model.Fn(f, c, d) }), sx("B"))},
		{cond(rule(sx("A", v("x")), sx("B", v("x"))), model.Bin(model.Bin(c, "==", d), "&&", model.Un("!", model.Fn(f, c))))},
		{block(rule(sx("A"), sx("B")), "b")},
		{block(cond(rule(sx("A"), v("x")), c), "x.Block")},
		{rule(with(sx("A"), func(s *model.S) { s.Ellipsis = true }), with(sx("B", v("_")), func(s *model.S) { s.Ellipsis = true; s.Trailing = true }))},
		{rule(&model.S{Op: gen.AltShapes("A")[4], Args: []model.Value{v("x")}}, &model.S{Op: gen.AltShapes("B")[2], Trailing: true})},
		{rule(sx("A", &model.Call{X: model.Fn(f, model.Id("x"), model.Fn(model.Id("g"), model.Id("_")))}), &model.Call{X: model.Fn(f, model.Id("y"))})},
		{rule(v("x"), v("y")), rule(v("z"), sx("B"))},
		{rule(sx("A"), sx("B")), block(rule(sx("C"), v("x")), "b"), cond(rule(sx("D"), sx("E")), c)},
		{},
		{rule(with(sx("A"), func(s *model.S) { s.AuxInt = model.Un("-", model.Un("-", c)) }), with(sx("B"), func(s *model.S) {
			s.Aux = model.FnV(model.Sel(c, "F"), model.Paren(model.Bin(c, "<<", model.Star(d))))
		}))},
		{cond(rule(sx("A"), sx("B")), model.Bin(model.Paren(model.Bin(c, ">=", model.Int("1"))), "||", model.Bin(model.Sel(c, "X"), "&^", model.Un("^", d))))},
		{rule(&model.Call{X: model.Fn(f, model.Id("x"))}, v("_"))},
	}
}

var layouts = []string{" ", "\n", "// c\n", "", "\t", "\r", "\r\n", "  ", "//\n", " // (B) => x && y\n", "\n\n", " \t\n ", "// a // b\n// c\n"}

// fits reports whether a layout may stand in a gap.
func fits(it model.Item, lay string) bool {
	if lay == "" && it.Kind == model.Required {
		return false
	}
	if strings.Contains(lay, "//") {
		i := strings.LastIndex(lay, "//")
		if !strings.Contains(lay[i:], "\n") && !it.Last {
			return false
		}
		switch it.Region {
		case model.InAuxInt:
			return !strings.Contains(lay, "]")
		case model.InAux:
			return !strings.Contains(lay, "}")
		}
	}
	return true
}

// afterSlash reports whether a comment after token i of items would be glued to a
// slash, or a layout character would change the token before it.
func afterSlash(items []model.Item, i int, lay string) bool {
	return strings.HasPrefix(lay, "/") && i > 0 && strings.HasSuffix(items[i-1].Text, "/")
}

func checkLayout(x *explore.X, rs []*model.Rule, items []model.Item, gaps map[int]string) {
	var b strings.Builder
	condComment := false
	for i, it := range items {
		if !it.IsGap {
			b.WriteString(it.Text)
			continue
		}
		lay, ok := gaps[i]
		if !ok {
			lay = it.Def
		}
		if afterSlash(items, i, lay) {
			lay = " " + lay
		}
		if it.Region == model.InCond && strings.Contains(lay, "//") {
			condComment = true
		}
		b.WriteString(lay)
	}
	text := b.String()
	x.Describe(func() string { return clip(text) })
	x.Key(text)
	want := model.CanonFile(rs)
	f, err := parse.String(text)
	if err == nil && f == nil {
		x.Fail("neither a file nor an error for %q", clip(text))
	}
	var got string
	if err == nil {
		got = model.CanonAST(f)
	}
	if err == nil && got == want {
		def, derr := parse.String(model.Text(rs))
		if derr != nil {
			x.Fail("text in default layout is rejected: %v", derr)
		}
		x.Validated(1)
		same(x, fmt.Sprintf("complete tree of %q, compared with the default layout's", clip(text)), model.Full(f), model.Full(def))
		x.Outcome = "identical"
		return
	}
	if condComment {
		// K1: the condition ends at the comment, or at a => in it.
		res := ref.Recognise(text)
		if res.Unspecified != "" && (res.OK && err == nil && got == model.CanonFile(res.Rules) || !res.OK && err != nil) {
			x.Outcome = "K1"
			x.Known("K1", "comment in the condition of %q: the rest of the condition is lost, parsed as %q (error %v), written is %q", clip(text), got, err, want)
			return
		}
	}
	if err != nil {
		x.Fail("text %q is rejected: %v", clip(text), err)
	}
	same(x, fmt.Sprintf("tree of %q", clip(text)), got, want)
}

func c03Gaps(x *explore.X) {
	fs := layoutFiles()
	rs := fs[x.Free(len(fs))]
	items := model.Items(rs)
	gaps := map[int]string{}
	for i, it := range items {
		if !it.IsGap {
			continue
		}
		alts := []string{it.Def}
		for _, l := range layouts {
			if l != it.Def && fits(it, l) {
				alts = append(alts, l)
			}
		}
		if it.Last {
			alts = append(alts, "// c", "//", " // c\r", "\n// c\n// d")
		}
		gaps[i] = alts[x.Choose(len(alts))]
	}
	checkLayout(x, rs, items, gaps)
}

// allGaps gives every gap the layout, where it fits.
func allGaps(items []model.Item, lay string) map[int]string {
	gaps := map[int]string{}
	for i, it := range items {
		if it.IsGap && fits(it, lay) {
			gaps[i] = lay
		}
	}
	return gaps
}

func c03Uniform(x *explore.X, nl int) {
	lay := layouts[x.Free(nl)]
	sk := gen.Skeletons[x.Free(len(gen.Skeletons))]
	o := gen.DefaultOpts()
	o.AuxInts, o.Auxes, o.Conds = o.AuxInts[2:], o.Auxes[1:], o.Conds[1:2]
	o.Types, o.Blocks, o.Calls = o.Types[:1], o.Blocks[:1], o.Calls[1:]
	rs := []*model.Rule{gen.Rule(x, sk, o)}
	items := model.Items(rs)
	gaps := allGaps(items, lay)
	if strings.Contains(lay, "//") {
		for i, it := range items {
			if it.Region == model.InCond {
				delete(gaps, i) // K1 is covered by the other sub-explorations
			}
		}
	}
	checkLayout(x, rs, items, gaps)
}

// c03Tokens lays out the tokens of every small Go expression.
func c03Tokens(x *explore.X, tier string) {
	e, text := goExpr(x, tier)
	pos := x.Free(3)
	if pos == 1 && strings.Contains(text, "]") || pos == 2 && strings.Contains(text, "}") || pos == 0 && (strings.Contains(text, "=>") || strings.Contains(text, "//") || strings.Contains(text, "\n")) {
		x.Outcome = "cannot be written there"
		return
	}
	rs := []*model.Rule{inPosition(e, pos)}
	items := model.Items(rs)
	ls := []string{"\n", "", "\t", "\r\n", " \n\n ", "// c\n"}
	if pos == 0 {
		ls = ls[:5] // K1 is covered by the other sub-explorations
	}
	lay := ls[x.Free(len(ls))]
	var at []int
	for i, it := range items {
		if it.IsGap && it.Region != model.Plain && fits(it, lay) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	gaps := map[int]string{}
	if k := x.Free(len(at) + 1); k < len(at) {
		gaps[at[k]] = lay
	} else {
		for _, i := range at {
			gaps[i] = lay
		}
	}
	checkLayout(x, rs, items, gaps)
}

var fragments = []string{"", " ", "(A) => (B)", "=>", "&&", "(", ")", "]", "}", ">", "[c]", "{c}", "<t>", "@b", "...", "___", "_", "x:", "|", ",", "/", "//", "/*", "*/", "\"", "'", "`", "\\", "\\n", "\t", "\r", "é漢😀", "%d %s", "#", ";", "func", "0", "-", "!", "TODO: x"}

// c03Unicode has comments of every character there is, 256 at a time.
func c03Unicode(x *explore.X) {
	const block = 256
	from := rune(x.Free((unicode.MaxRune+1)/block)) * block
	var c []rune
	for r := from; r < from+block; r++ {
		if (r < 0xd800 || r >= 0xe000) && r != '\n' {
			c = append(c, r)
		}
	}
	kind := x.Free(4)
	text := []string{"//%s\n(A x) => (B x)\n", "(A x) => (B x) // %s\n", "(A //%s\n x) => (B x)", "(A x) =>// %s\n// %s\n(B x)//%s"}[kind]
	text = strings.ReplaceAll(text, "%s", string(c))
	x.Describe(func() string { return fmt.Sprintf("%q", text) })
	x.Key(text)
	v := model.Var("x")
	same(x, "parsed tree", model.CanonAST(mustParse(x, text)), model.CanonFile([]*model.Rule{rule(sx("A", v), sx("B", v))}))
}

func c03Comments(x *explore.X) {
	var c string
	switch x.Free(3) {
	case 0:
		c = string(sampleRunes[x.Free(len(sampleRunes))])
		switch x.Free(3) {
		case 1:
			c = "a" + c
		case 2:
			c = c + "=>" + c
		}
	case 1:
		c = fragments[x.Free(len(fragments))]
	case 2:
		ts := dict().Texts
		if len(ts) == 0 {
			return
		}
		c = ts[x.Free(len(ts))]
	}
	if strings.Contains(c, "\n") {
		return
	}
	fs := layoutFiles()
	pick := []int{0, 3, 4, 5, 7, 9, 11, 13}
	rs := fs[pick[x.Free(len(pick))]]
	items := model.Items(rs)
	var at []int
	lay := "//" + c + "\n"
	for i, it := range items {
		if it.Region != model.Plain && strings.ContainsAny(c, "\x00\ufeff") {
			continue // Go allows these in no source text, comments included
		}
		if it.IsGap && fits(it, lay) {
			at = append(at, i)
		}
	}
	i := at[x.Free(len(at))]
	if items[i].Last && x.Free(2) == 1 {
		lay = "//" + c
	}
	checkLayout(x, rs, items, map[int]string{i: lay})
}

func c03Long(x *explore.X) {
	fs := layoutFiles()
	rs := fs[[]int{3, 4, 9, 11}[x.Free(4)]]
	items := model.Items(rs)
	l := []string{" ", "\n", "\t", "\r\n", "// c\n", " // comment\n", "//\n", "\n\t", "//" + rep("x", 1000) + "\n", "// \xc3\xa9\n", "\r"}[x.Free(11)]
	ns := []int{3, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65536, 100000, 1<<20 + 1}
	n := ns[x.Free(len(ns))]
	switch {
	case n > 100000 && len(l) > 2, n <= 100000 && n*len(l) > 400000:
		return
	}
	var at []int
	for i, it := range items {
		if it.IsGap && fits(it, l) && it.Region != model.InCond {
			at = append(at, i)
		}
	}
	if n > 5000 {
		// A few gaps only.
		at = []int{at[0], at[len(at)/2], at[len(at)-1]}
	}
	if n > 100000 {
		at = at[1:2]
	}
	checkLayout(x, rs, items, map[int]string{at[x.Free(len(at))]: rep(l, n)})
}

var corpusModels [][]*model.Rule

func c03Corpus(x *explore.X, tier string) {
	if corpusModels == nil {
		for _, l := range corpusLines() {
			if res := ref.Recognise(l); res.OK && res.Unspecified == "" {
				corpusModels = append(corpusModels, res.Rules)
			}
		}
	}
	rs := corpusModels[x.Free(len(corpusModels))]
	ls := []string{"\n", "// c\n", " \t", "\r\n"}
	if tier == "thorough" {
		ls = layouts
	}
	lay := ls[x.Free(len(ls))]
	items := model.Items(rs)
	gaps := allGaps(items, lay)
	if strings.Contains(lay, "//") {
		for i, it := range items {
			if it.Region == model.InCond {
				delete(gaps, i)
			}
		}
	}
	checkLayout(x, rs, items, gaps)
}
