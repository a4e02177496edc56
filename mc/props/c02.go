package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/model"
	"verif/mc/ref"
)

func init() {
	bounds := "tokens: every viable string of up to 8 (thorough 10) tokens over 20 rule tokens, and each of its one-token non-viable extensions, from the empty text and, shorter, from 12 started rules; edits: every single deletion, duplication, insertion, replacement, transposition and truncation of tokens in 24 seed texts (thorough: every pair of edits in 10 shorter ones); bytes: every byte value and 10 further runes inserted at, and replacing, every position of 10 seed texts; runes: 256 characters and the first and last of every category, script and property of Unicode in 20 texts; unicode: every character there is (1,112,064) in each of 22 texts, in the role of each token; lenient: 190 tokens, comments and separators of other languages in the place of, before, and on a line of their own before each token of the 24 seed texts; go: every string of up to 3 (thorough 4) Go tokens over 38 as condition, AuxInt, Aux and call argument; short: every text of up to 2 bytes, every text of up to 4 (5) over a reduced alphabet; deep: unterminated and mismatched nestings up to 3000 deep; encoding: every kind of malformed UTF-8 at every position of 6 seed texts; constants: the string constants of the sources and tests, with 5 endings, in each of 20 places; formats: 71 forms of 5 texts (compressed, in other encodings, with marks of other formats before or after)"
	All["C02"] = &Prop{
		Level:  "model_checking",
		States: "distinct texts judged by the reference recogniser and given to the implementation",
		Bounds: bounds + "; stack: four kinds of nesting a million levels deep, each in a process of its own (K2 is accepted there)",
		Assume: []string{"go/parser decides which embedded Go expressions are well-formed", "texts with // or a multi-line raw string inside a condition, or with one operand kind written twice, are only checked for termination, no panic and file-or-error"},
		Subs:   func(tier string) []*explore.Sub { return append(garbageSubs(tier, checkReject), stackSub()) },
	}
	All["C20"] = &Prop{
		Level:  "model_checking",
		States: "distinct rejected texts whose reported position was compared with the reference recogniser's",
		Bounds: bounds,
		Assume: []string{"go/parser decides which embedded Go expressions are well-formed", "positions are read from the name:line:column (offset) prefix of the first reported error"},
		Subs: func(tier string) []*explore.Sub {
			return append(garbageSubs(tier, checkPosition), &explore.Sub{Name: "sources", Run: c20Sources}, &explore.Sub{Name: "lines", Run: func(x *explore.X) { c20Lines(x, pick(tier, 300, 3000)) }})
		},
	}
}

func checkReject(x *explore.X, text string) {
	x.Describe(func() string { return clip(text) })
	x.Key(text)
	f, err := parse.String(text)
	if (f == nil) == (err == nil) {
		x.Fail("parsing %q returned file %v and error %v", clip(text), f != nil, err)
	}
	res := ref.Recognise(text)
	switch {
	case res.Unspecified != "" && res.Kind != ref.Coding:
		x.Outcome = "unspecified"
	case res.OK && err != nil:
		x.Fail("well-formed text %q is rejected: %v", clip(text), err)
	case !res.OK && err == nil:
		x.Fail("text %q is accepted as %s; it is malformed (%s error at offset %d-%d)", clip(text), model.CanonAST(f), res.Kind, res.Lo, res.Hi)
	case res.OK:
		x.Outcome = fmt.Sprintf("accepted, %d rules", len(res.Rules))
		same(x, fmt.Sprintf("tree of %q", clip(text)), model.CanonAST(f), model.CanonFile(res.Rules))
	default:
		x.Outcome = "rejected, " + res.Kind
	}
}

var position = regexp.MustCompile(`^(\d+):(\d+) \((\d+)\)`)

// checkPosition compares the position of the first reported error with the reference.
func checkPosition(x *explore.X, text string) {
	checkPositionNamed(x, "string", text, func() error { _, err := parse.String(text); return err })
}

func checkPositionNamed(x *explore.X, name, text string, run func() error) {
	x.Describe(func() string { return clip(text) })
	res := ref.Recognise(text)
	if res.OK || res.Unspecified != "" {
		x.Outcome = "not rejected"
		return
	}
	x.Key(name, text)
	err := run()
	if err == nil {
		// Whether it is rejected is another property's business.
		x.Outcome = "not rejected by the implementation"
		return
	}
	msg := err.Error()
	if !strings.HasPrefix(msg, name+":") {
		x.Fail("error for %q does not name the source %q: %s", clip(text), name, clip(msg))
	}
	m := position.FindStringSubmatch(msg[len(name)+1:])
	if m == nil {
		x.Fail("error for %q has no position: %s", clip(text), clip(msg))
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	off, _ := strconv.Atoi(m[3])
	x.Outcome = res.Kind
	if res.Kind == ref.Coding {
		// The malformed byte, or an earlier syntax error, or the expression that holds it.
		if off > res.Hi {
			x.Fail("error for %q is reported at offset %d, beyond the malformed byte at %d: %s", clip(text), off, res.Hi, clip(msg))
		}
	} else if off < res.Lo || off > res.Hi {
		x.Fail("error for %q is reported at offset %d, the %s error is at %d..%d: %s", clip(text), off, res.Kind, res.Lo, res.Hi, clip(msg))
	}
	l, c := ref.LineCol(text, off)
	if line == l && col == c {
		return
	}
	// A line break may be counted as column 0 of the line it begins.
	if off < len(text) && text[off] == '\n' && line == l+1 && col == 0 {
		x.Outcome += " at a line break"
		return
	}
	x.Fail("error for %q at offset %d is reported at line %d column %d, not line %d column %d: %s", clip(text), off, line, col, l, c, clip(msg))
}

// everyRuneTexts are texts with a place for a character, in each of the roles it may have.
var everyRuneTexts = []string{
	"(A x) %s (B)", "(A x) %s c => (B)", "(A x)%s=> (B)", "(A%sx) => (B)", "(A x %s) => (B)", "%sA x) => (B)", "(A x%s => (B)", "(A%s8|16) x) => (B)", "(A(8%s16)) => (B)",
	"(A %st> x) => (B)", "(A <t%s x) => (B)", "b%s(A) => (B)", "(A) => %sblk (B)", "(%s) => (B)", "(A f(x%s y)) => (B)", "%s(A) => (B)", "(A) => (B)%s", "(A [c %s d]) => (B)",
	"(A) && c%s=> (B)", "(A %s\n) => (B)", "(A) => @b%s(B)", "(A x%s y) => x",
}

// everyRune does check for every character there is, 1024 of them per execution, in each
// of the texts.
func everyRune(x *explore.X, texts []string, check func(x *explore.X, text string)) {
	const block = 1024
	from := rune(x.Free((unicode.MaxRune+1)/block)) * block
	text := texts[x.Free(len(texts))]
	x.Key(text, fmt.Sprint(from))
	x.Unkeyed = true
	outcomes := ""
	for r := from; r < from+block; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		check(x, strings.ReplaceAll(text, "%s", string(r)))
		if x.Outcome != outcomes {
			outcomes = x.Outcome
		}
	}
	x.Validated(block - 1)
	x.Outcome = "block, last " + outcomes
}

// lenient is what stands for tokens and comments elsewhere.
var lenient = []string{
	"\u21d2", "\u2192", "\uff1d\uff1e", "->", "=>>", "==>", "=", ">", "=>=>", "==", ">=", "<=", "~>", ":=", "=&gt;", "&gt;", "\u2265", "&&&&", "&", "and", "AND", "\uff06\uff06", "&amp;&amp;", "\u2227", "if", "when", "||",
	"\u2026", "..", "....", ". . .", "\u22ef", "__", "____", "\uff3f\uff3f\uff3f", "_ _ _", "\u2014", "*", "\uff08", "\uff09", "[", "]", "{", "}", "\u201c", "\u201d", "'", "\"", "`", "\uff1a", "::", ":", ";", ",", ".", "!", "?", "|", "\u2016", "\uff5c", "/", "\\", "@", "$", "%", "#", "^", "~", "-", "+",
	"# c", "; c", "/* c */", "/* c", "*/", "/ / c", "/// c", "-- c", "% c", "(* c *)", "{- c -}", "<!-- c -->", "\"c\"", "'c'", "/c/", "#!c", "!c", "* c", "\u00b6", "\\n", "\\", "\\\n", "&nbsp;", "%20", "\x00", "\x1a", "\x04", "\f", "\v", "\u0085", "\u2028", "\ufeff", "\u200b", "\u00ad",
	"()", "( )", "[]", "{}", "<>", "[ ]", "{ }", "< >", "(())", "(A", "A)", "=> =>", "&& &&", "@", "@b", "@b @b", "x:", "x:y:", ":x", "_:", "A:", "8", "08", "-1", "x.y", "x-y", "A.B", "Ab", "aB", "_x", "x_", "_", "é", "X", "x()", "x( )", "X(y)", "_(y)", "f(y,)", "f(,y)", "f(y z)", "f((y))", "f(1)", "f(Y)", "f(_)", "f(__)", "f(y...)", "f(y)(z)", "(f(y))", "(x)", "((A))", "((A) x)", "true", "nil", "func", "EOF", "__END__", "---", "```", "end",
}

var ruleTokens = []string{"(", "A", ")", "=>", "x", " ", "(B)", "_", "f(", "[c]", "{c}", "<t>", "&&", "@b", "x:", "...", "___", ",", "|", "\n", "// c", "[", "c]", "/", ":"}

// starts are begun rules to continue from.
var starts = []string{
	"(A) => ", "(A ", "(A x", "(A) && ", "(A) && c", "(A) => @", "(A) => @b ", "x:", "(A(", "(A(b|", "(A f(", "(A [", "(A <", "(A {c", "(A x ...", "(A x ___", "(A) => (B)", "(A) => (B)\n", "(A) =", "(A) &", "f(x", "(A) => f(",
}

// seeds are well-formed texts to edit, as tokens.
var seedTokens = [][]string{
	{"(", "A", ")", " ", "=>", " ", "(", "B", ")"},
	{"(", "A", " ", "x", ")", " ", "=>", " ", "x"},
	{"x", ":", "(", "A", " ", "y", ")", " ", "=>", " ", "(", "B", " ", "x", ")"},
	{"(", "A", " ", "[", "c", "]", " ", "x", ")", " ", "=>", " ", "(", "B", " ", "[", "c", "+", "1", "]", ")"},
	{"(", "A", " ", "<", "t", ">", " ", "{", "s", "}", " ", "x", ")", "=>", "(", "B", ")"},
	{"(", "A", " ", "x", ")", " ", "&&", " ", "c", "==", "d", " ", "=>", " ", "(", "B", ")"},
	{"(", "A", ")", " ", "=>", " ", "@", "b", " ", "(", "B", ")"},
	{"(", "A", "(", "8", "|", "16", ")", " ", "x", ")", " ", "=>", " ", "(", "(", "B", "|", "C", ")", " ", "x", ")"},
	{"(", "A", " ", "...", ")", " ", "=>", " ", "(", "B", " ", "...", ")"},
	{"(", "A", " ", "x", " ", "___", ")", " ", "=>", " ", "(", "B", " ", "_", " ", "___", ")"},
	{"(", "A", " ", "x", " ", "...", " ", "___", ")", " ", "=>", " ", "x"},
	{"(", "A", " ", "f", "(", "x", ",", " ", "y", ")", ")", " ", "=>", " ", "f", "(", "_", ")"},
	{"(", "A", " ", "(", "B", " ", "(", "C", " ", "x", ")", ")", " ", "y", ")", " ", "=>", " ", "y"},
	{"// c", "\n", "(", "A", ")", " ", "=>", " ", "(", "B", ")", " ", "// d", "\n"},
	{"(", "A", ")", " ", "=>", " ", "(", "B", ")", "\n", "(", "C", " ", "x", ")", " ", "=>", " ", "x", "\n"},
	{"(", "A", ")", " ", "=>", " ", "x", "\n", "\n", "y", " ", "=>", " ", "(", "D", ")", "\n"},
	{"(", "A", " ", "x", ")", "\n", "&&", " ", "f", "(", "x", ")", "\n", "&&", " ", "!", "g", "\n", "=>", " ", "(", "B", ")"},
	{"(", "A", " ", "b", ":", "(", "B", " ", "x", ")", ")", " ", "&&", " ", "c", " ", "=>", " ", "@", "b", ".", "Block", " ", "(", "C", " ", "b", ")"},
	{"(", "A", " ", "f", "(", "g", "(", "x", ")", ",", "_", ")", ")", " ", "=>", " ", "(", "B", " ", "g", "(", "f", "(", "y", ")", ")", ")"},
	{"\t", "(", " ", "A", "\r", "\n", " ", "x", " ", ")", "=>", "\n", "@", "b", "\n", "x", "\n"},
	{"x", "=>", "y"},
	{"_", "=>", "_"},
	{"f", "(", "x", ")", "=>", "g", "(", "y", ")"},
	{"// only a comment", "\n"},
}

var shortSeeds = []int{0, 1, 4, 6, 8, 9, 11, 20, 21, 22}

func join(ts []string) string { return strings.Join(ts, "") }

var extraTokens = []string{"(", ")", "A", "x", " ", "=>", "&&", "@", "b", ":", "[", "]", "c", "{", "}", "<", ">", "|", ",", "...", "___", "_", "__", "//", "\n", "\r", "=", "&", ".", "..", "/", "9", "X", "+", "-", "'", "\"", "`", ";", "é", "\x00", "$", "\\", "f(", "x:", "(A|B)", "[c]", "<t>", "{s}", "@b ", "=> =>", "!", "~", "%", "func", "\v", "\f", " ", "\ufeff", "/*", "*/", "#", "=>\n", "(B)"}

// edit applies one explored edit to ts.
func edit(x *explore.X, ts []string) []string {
	n := len(ts)
	cp := func(a ...[]string) []string {
		var out []string
		for _, s := range a {
			out = append(out, s...)
		}
		return out
	}
	switch x.Free(6) {
	case 0:
		i := x.Free(n)
		return cp(ts[:i], ts[i+1:])
	case 1:
		i := x.Free(n)
		return cp(ts[:i+1], ts[i:])
	case 2:
		i := x.Free(n + 1)
		return cp(ts[:i], []string{extraTokens[x.Free(len(extraTokens))]}, ts[i:])
	case 3:
		i := x.Free(n)
		return cp(ts[:i], []string{extraTokens[x.Free(len(extraTokens))]}, ts[i+1:])
	case 4:
		i, j := x.Free(n), x.Free(n)
		out := cp(ts)
		out[i], out[j] = out[j], out[i]
		return out
	default:
		return cp(ts[:x.Free(n)])
	}
}

var goTokens = []string{"a", "B", "1", "0x1f", "1.5", "2i", "'c'", `"s"`, "`r`", "(", ")", "[", "]", "{", "}", ".", ",", "...", ":", ";", "+", "-", "*", "/", "&", "&&", "&^", "^", "!", "~", "<", "<<", "<-", "==", "=", ":=", "++", "func", "int", "\n", "// z\n", "/* z */", " ", "#", "\\", "08", "'ab'", "\"", "_", "map", "chan", "interface{}", "struct{}", "//"}

var badUTF8 = []string{"\x80", "\xbf", "\xc0\x80", "\xc3", "\xc3(", "\xe2\x82", "\xe2(\xa1", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff"}

func isLayout(c byte) bool { return c == ' ' || c == '\n' }

func garbageSubs(tier string, check func(*explore.X, string)) []*explore.Sub {
	stop := len(ruleTokens)
	extend := func(x *explore.X, text string, max int) string {
		for k := 0; k < max; k++ {
			c := (x.Free(stop+1) + stop) % (stop + 1) // the default is to stop
			if c == stop {
				break
			}
			if len(text) > 1 && isLayout(text[len(text)-1]) && isLayout(text[len(text)-2]) && (isLayout(ruleTokens[c][0]) || ruleTokens[c] == "// c") {
				break // longer layout leads to the same futures
			}
			if i := strings.LastIndex(text, "//"); i >= 0 && !strings.Contains(text[i:], "\n") && ruleTokens[c] != "\n" {
				break // inside a comment, only its end leads anywhere
			}
			text += ruleTokens[c]
			if res := ref.Recognise(text); !res.OK && res.Hi < len(text) && res.Kind != ref.GoExpr {
				break // no continuation is well-formed
			}
		}
		return text
	}
	return []*explore.Sub{
		{Name: "tokens", Share: 4, Run: func(x *explore.X) {
			check(x, extend(x, "", pick(tier, 6, 8)))
		}},
		{Name: "continuations", Share: 4, Run: func(x *explore.X) {
			check(x, extend(x, starts[x.Free(len(starts))], pick(tier, 4, 5)))
		}},
		{Name: "edits", Share: 2, Run: func(x *explore.X) {
			ts := seedTokens[x.Free(len(seedTokens))]
			check(x, join(edit(x, ts)))
		}},
		{Name: "two-edits", Share: 4, Run: func(x *explore.X) {
			if tier == "thorough" {
				ts := seedTokens[shortSeeds[x.Free(len(shortSeeds))]]
				check(x, join(edit(x, edit(x, ts))))
				return
			}
			ts := seedTokens[shortSeeds[[]int{0, 7, 8}[x.Free(3)]]]
			ts = edit(x, ts)
			if len(ts) == 0 {
				return
			}
			// The second edit is a deletion, a duplication or a truncation.
			n := len(ts)
			i := x.Free(n)
			switch x.Free(3) {
			case 0:
				ts = append(append([]string{}, ts[:i]...), ts[i+1:]...)
			case 1:
				ts = append(append([]string{}, ts[:i+1]...), ts[i:]...)
			case 2:
				ts = ts[:i]
			}
			check(x, join(ts))
		}},
		{Name: "bytes", Share: 2, Run: func(x *explore.X) {
			text := join(seedTokens[x.Free(pick(tier, 12, len(seedTokens)))])
			i := x.Free(len(text) + 1)
			c := x.Free(256 + 12)
			var b string
			if c < 256 {
				b = string([]byte{byte(c)})
			} else {
				b = string([]rune{0x85, 0xa0, 0x3b1, 0x2028, 0x3000, 0xfeff, 0xfffd, 0xff08, 0x1f600, 0x10ffff, 0x200b, 0xd7ff}[c-256])
			}
			j := i
			if x.Free(2) == 1 && i < len(text) {
				j++
			}
			check(x, text[:i]+b+text[j:])
		}},
		{Name: "runes", Run: func(x *explore.X) {
			// Characters of every kind.
			c := string(sampleRunes[x.Free(len(sampleRunes))])
			texts := []string{"//%s\n(A) => (B)\n)", "(A) => (B) // %s\n(C", "(A <%s> )", "(A <t%s>) => (B) )", "(A {\"%s\"}) => @", "(A) && c == \"%s\" => )", "(A) => @b%s x y )", "(A) => @%sb (B", "(A [`%s`] x y", "// a%s%s\n\n  (A x) && `%s\n%s` => ((",
				"%s(A) => (B)", "(A%s x) => (B)", "(A x%s y) => (B)", "(A %s) => x", "(A) => (B) %s", "(A [c%s]) => (B)", "(A) && c%s => (B)", "(A [%s 1 2]) => (B)", "(A <t>%s) => x", "(A x)\n%s\n=> (B)"}
			check(x, strings.ReplaceAll(texts[x.Free(len(texts))], "%s", c))
		}},
		{Name: "unicode", Share: 3, Run: func(x *explore.X) { everyRune(x, everyRuneTexts, check) }},
		{Name: "lenient", Run: func(x *explore.X) {
			// What other languages, editors and people write instead.
			ts := append([]string{}, seedTokens[x.Free(len(seedTokens))]...)
			i := x.Free(len(ts) + 1)
			l := lenient[x.Free(len(lenient))]
			if how := x.Free(3); how == 0 && i < len(ts) {
				ts[i] = l
			} else if how == 1 {
				ts = append(ts[:i:i], append([]string{l}, ts[i:]...)...)
			} else {
				ts = append(ts[:i:i], append([]string{"\n" + l + "\n"}, ts[i:]...)...)
			}
			check(x, join(ts))
		}},
		{Name: "go", Share: 3, Run: func(x *explore.X) {
			pos := x.Free(4)
			e := ""
			max := pick(tier, 3, 4)
			for k := 0; k < max; k++ {
				c := x.Free(len(goTokens) + 1)
				if c == 0 {
					break
				}
				e += goTokens[c-1]
			}
			var text string
			switch pos {
			case 0:
				text = "(A) && " + e + " => (B)"
			case 1:
				text = "(A [" + e + "] x) => (B)"
			case 2:
				text = "(A x {" + e + "}) => (B)"
			case 3:
				text = "(A f(" + e + ")) => (B)"
			}
			check(x, text)
		}},
		{Name: "constants", Run: func(x *explore.X) {
			// The string constants of the sources, in all roles.
			ts := dict().Texts
			t := ts[x.Free(len(ts))]
			t += []string{"", "x", " 5", ":5", " 990"}[x.Free(5)]
			role := []string{"//%s\n(A) => (B)\n", "//%s\n(A [c d]) => (B)", "(A) => (B) // %s\n)", "(A) => (B) //%s", "%s\n(A) => (B)", "(A) => (B) %s", "(A %s x) => (B)", "(%s x) => (B", "(A <%s> [1 2]) => x",
				"(A [%s c]) => (B)", "(A {%s}) => )", "(A) && %s => (B", "(A) => @%s (B", "(A \"%s\") => (B)", "(A [\"%s\"]) => (B",
				"%s\n(A) => )", "(A)\n%s\n => )", "\n%s\n\n\n(A x) =>", "// c\n%s\n(A [1 2]) => x", "%s"}[x.Free(20)]
			check(x, strings.Replace(role, "%s", t, 1))
		}},
		{Name: "formats", Run: func(x *explore.X) {
			t, _ := formatted(x)
			check(x, t)
		}},
		{Name: "short", Run: func(x *explore.X) {
			n := x.Free(3)
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, byte(x.Free(256)))
			}
			check(x, string(b))
		}},
		{Name: "short-alphabet", Run: func(x *explore.X) {
			const alpha = "(Ax)=> _:@b&/\n[]{}<>|,.\xff"
			n := x.Free(pick(tier, 4, 5) + 1)
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, alpha[x.Free(len(alpha))])
			}
			check(x, string(b))
		}},
		{Name: "deep", Run: func(x *explore.X) {
			ps := []string{"(A ", "(", "f(", "f(x,", "x:(A ", "[", "(A [", "(A(b|", "((", "(A f(", "(A (B)", "(A x", "{", "<", "(A <t> ", ")", "=>", "(A) => (B) ", "(A) =>", "@", "// ", "&& ", "(A) && c ", "_", "x", "x ", "...", "/", " ", "\n", "|", "x:", "(A) => x:", "(A) && !"}
			p := ps[x.Free(len(ps))]
			n := []int{1, 2, 3, 4, 5, 10, 20, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 3000}[x.Free(21)]
			ends := []string{"", ")", " => (B)", ") => (B)", "x) => y", "]", "\x00"}
			check(x, rep(p, n)+ends[x.Free(len(ends))])
		}},
		{Name: "encoding", Run: func(x *explore.X) {
			text := join(seedTokens[[]int{0, 3, 5, 6, 13, 4}[x.Free(6)]])
			i := x.Free(len(text) + 1)
			b := badUTF8[x.Free(len(badUTF8))]
			text = text[:i] + b + text[i:]
			if utf8.ValidString(text) {
				return
			}
			check(x, text)
		}},
		{Name: "trailing", Run: func(x *explore.X) {
			// Something after complete rules.
			text := join(seedTokens[x.Free(len(seedTokens))])
			text += []string{"", " ", "\n", "\n\n", " // c\n"}[x.Free(5)]
			text += extraTokens[x.Free(len(extraTokens))]
			text += []string{"", "\n", " "}[x.Free(3)]
			text += append([]string{""}, extraTokens...)[x.Free(len(extraTokens)+1)]
			check(x, text)
		}},
	}
}

func c20Sources(x *explore.X) {
	names := []string{"string", "a.rules", "/tmp/dir/file.rules", "a b", "é.rules", "x:y", "%d", "name:1:2 (3)", "-", "<stdin>", rep("n", 300)}
	i := x.Free(len(names) + len(dictNames()))
	name := append(names, dictNames()...)[i]
	texts := []string{"(A", "(A) => ", "\n\n(A) => (B\n", "(A [1+]) => (B)", "(A) && c d => (B)", "é", "// é\n (A {f(}) => (B)", "(A f(func)) => (B)", "(A) => (B)\n\t\t)"}
	text := texts[x.Free(len(texts))]
	checkPositionNamed(x, name, text, func() error { _, err := parse.Reader(name, strings.NewReader(text)); return err })
}

// c20Lines places an error after many lines and characters.
func c20Lines(x *explore.X, max int) {
	pre := []string{"\n", "(A) => (B)\n", "// c\n", "// é漢😀\n", "\r\n", "(A x)\n && c\n => (B)\n", "\n\t", " ", "é", "(A <é>) => (B) ", "// e\u0301\u200d\U0001f3fd\n", "(A <\u0301\u202e>) => (B) "}
	ns := []int{0, 1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 299, 1000, 3000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072}
	p := pre[x.Free(len(pre))]
	n := ns[x.Free(len(ns))]
	errs := []string{")", "(A <é> )", "(A {é é}) => x", "(A", "(A x", "é", "(A [)]) => (B)", "(A) && é é => (B)", "(A <é漢> [1 2] x) => y", "(A <\n> }", "=>", "(A) => (B) é", "(A <\xff>) => (B)", "\xff", "(A x\xe9) => (B)", "(A <a>\x80) => (B)", "(A {f(}) => (B)", "(A) => (B)\n\t(A [1+]) => (B)", "// \xf0\x9f\n(A) => (B)", "(A {\"\xff\"}) => (B)"}
	if n > 30000 {
		// Numbers that do not fit into 16 bits.
		if len(p) > 11 {
			return
		}
		errs = errs[:2]
	} else if n > max {
		return
	}
	text := "(A) => (B)\n" + rep(p, n) + errs[x.Free(len(errs))]
	checkPosition(x, text)
}
