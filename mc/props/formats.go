package props

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"

	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
)

// Rules texts in other formats, or with something around them that other programs take as
// a sign of one. They are bytes like any other.

var formats = []struct {
	name string
	make func(t string) string
}{
	{"plain", func(t string) string { return t }},
	{"gzip", func(t string) string {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write([]byte(t))
		w.Close()
		return b.String()
	}},
	{"zlib", func(t string) string {
		var b bytes.Buffer
		w := zlib.NewWriter(&b)
		w.Write([]byte(t))
		w.Close()
		return b.String()
	}},
	{"gzip magic", func(t string) string { return "\x1f\x8b" + t }},
	{"gzip header", func(t string) string { return "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff" + t }},
	{"compress magic", func(t string) string { return "\x1f\x9d" + t }},
	{"bzip2 magic", func(t string) string { return "BZh91AY&SY" + t }},
	{"zip magic", func(t string) string { return "PK\x03\x04" + t }},
	{"xz magic", func(t string) string { return "\xfd7zXZ\x00" + t }},
	{"zstd magic", func(t string) string { return "\x28\xb5\x2f\xfd" + t }},
	{"ELF magic", func(t string) string { return "\x7fELF" + t }},
	{"UTF-16, little", func(t string) string { return wide(t, false) }},
	{"UTF-16, big", func(t string) string { return wide(t, true) }},
	{"UTF-16, little, mark", func(t string) string { return "\xff\xfe" + wide(t, false) }},
	{"UTF-16, big, mark", func(t string) string { return "\xfe\xff" + wide(t, true) }},
	{"UTF-32 mark", func(t string) string { return "\xff\xfe\x00\x00" + t }},
	{"UTF-8 mark", func(t string) string { return "\ufeff" + t }},
	{"UTF-8 marks", func(t string) string { return "\ufeff\ufeff" + t }},
	{"mark at the end", func(t string) string { return t + "\ufeff" }},
	{"mark in a comment", func(t string) string { return "// \ufeff\n" + t }},
	{"UTF-7 mark", func(t string) string { return "+/v8-" + t }},
	{"UTF-7", func(t string) string { return strings.ReplaceAll(t, "=", "+AD0-") }},
	{"base64", func(t string) string { return base64.StdEncoding.EncodeToString([]byte(t)) }},
	{"URL", func(t string) string { return strings.ReplaceAll(t, " ", "%20") }},
	{"data URL", func(t string) string { return "data:," + t }},
	{"HTML", func(t string) string { return strings.ReplaceAll(t, ">", "&gt;") }},
	{"XML", func(t string) string { return "<?xml version=\"1.0\"?>\n" + t }},
	{"JSON", func(t string) string { return fmt.Sprintf("%q", t) }},
	{"Go", func(t string) string { return "`" + t + "`" }},
	{"Go file", func(t string) string { return "package rules\n" + t }},
	{"script", func(t string) string { return "#!/usr/bin/ssarules\n" + t }},
	{"hash comment", func(t string) string { return "# comment\n" + t }},
	{"block comment", func(t string) string { return "/* comment */\n" + t }},
	{"coding", func(t string) string { return "// -*- coding: latin-1 -*-\n// é\n" + t }},
	{"build constraint", func(t string) string { return "//go:build ignore\n// +build ignore\n\n" + t }},
	{"line directive", func(t string) string { return "//line other.rules:99\n" + t }},
	{"generated", func(t string) string { return "// Code generated by x. DO NOT EDIT.\n" + t }},
	{"include", func(t string) string { return "//include other.rules\n" + t }},
	{"end mark", func(t string) string { return "//__END__\n" + t + "// EOF\n" + t }},
	{"include statement", func(t string) string { return "#include \"other\"\n" + t }},
	{"armour", func(t string) string { return "-----BEGIN RULES-----\n" + t + "-----END RULES-----\n" }},
	{"front matter", func(t string) string { return "---\n" + t }},
	{"diff", func(t string) string { return "+" + strings.ReplaceAll(t, "\n", "\n+") }},
	{"quoted", func(t string) string { return "> " + t }},
	{"^Z", func(t string) string { return t + "\x1a" }},
	{"^D", func(t string) string { return t + "\x04" }},
	{"^Z and more", func(t string) string { return t + "\x1a)" }},
	{"NUL", func(t string) string { return t + "\x00" }},
	{"NULs", func(t string) string { return t + strings.Repeat("\x00", 512) }},
	{"form feed", func(t string) string { return "\f" + t }},
	{"vertical tab", func(t string) string { return t + "\v" }},
	{"no-break space", func(t string) string { return "\u00a0" + t }},
	{"zero width", func(t string) string { return "\u200b" + t }},
	{"CR", func(t string) string { return strings.ReplaceAll(t, "\n", "\r") }},
	{"CR LF", func(t string) string { return strings.ReplaceAll(t, "\n", "\r\n") }},
	{"LF CR", func(t string) string { return strings.ReplaceAll(t, "\n", "\n\r") }},
	{"NEL", func(t string) string { return strings.ReplaceAll(t, "\n", "\u0085") }},
	{"LS", func(t string) string { return strings.ReplaceAll(t, "\n", "\u2028") }},
	{"backslash", func(t string) string { return strings.ReplaceAll(t, "=>", "\\\n=>") }},
	{"escape", func(t string) string { return "\x1b[1m" + t + "\x1b[0m" }},
	{"overstrike", func(t string) string { return "(\b" + t }},
	{"soft hyphen", func(t string) string { return strings.ReplaceAll(t, "A", "A\u00ad") }},
	{"full width", func(t string) string { return strings.ReplaceAll(t, "(", "（") }},
	{"typographic", func(t string) string { return strings.ReplaceAll(t, "=>", "⇒") }},
	{"decomposed", func(t string) string { return "// e\u0301 é\n" + t }},
	{"surrogate", func(t string) string { return "// \xed\xa0\x80\n" + t }},
	{"overlong", func(t string) string { return "// \xc0\xaf\n" + t }},
	{"latin-1", func(t string) string { return "// \xe9\n" + t }},
	{"archive", func(t string) string { return "-- a.rules --\n" + t }},
	{"tar", func(t string) string { return "a.rules" + strings.Repeat("\x00", 505) + t }},
	{"trailing backup", func(t string) string { return t + "\n\n\n)" }},
}

func wide(t string, big bool) string {
	var b []byte
	for _, u := range utf16.Encode([]rune(t)) {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	return string(b)
}

var formatTexts = []string{"(A x) => (B x)\n", "// c\n(A [c]) && d => @e (B \"\")\n", "x => y", "", "(Add8 (Neg8 x) y) => (Sub8 y x)\n(Com8 x) => (Neg8 x)\n(A) => (B)\n"}

var formatNames = []string{"a.rules", "a.rules.gz", "a.gz", "a.zip", "a.bz2", "a.json", "a.go", "a.txt", "a.utf16", "a.b64"}

// formatted chooses a text.
func formatted(x *explore.X) (text, what string) {
	f := formats[x.Free(len(formats))]
	text = f.make(formatTexts[x.Free(len(formatTexts))])
	return text, f.name
}

// c16Formats delivers such texts in all ways.
func c16Formats(x *explore.X) {
	text, what := formatted(x)
	ways := len(c16Kinds)
	way := x.Free(ways + len(formatNames))
	x.Outcome = reference(text)[:5]
	if way < ways {
		k := c16Kinds[way]
		x.Describe(func() string { return fmt.Sprintf("%q (%s) from %s", text, what, k.name) })
		x.Key(text, k.name)
		r := k.make(text, 0)
		checkDelivery(x, text, "string", r)
		if f, ok := r.(io.Closer); ok {
			f.Close()
		}
		return
	}
	dir := freshDir()
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, formatNames[way-ways])
	put(p, text)
	x.Describe(func() string { return fmt.Sprintf("%q (%s) in %s", text, what, formatNames[way-ways]) })
	x.Key(text, formatNames[way-ways])
	f, err := parse.File(p)
	same(x, "outcome for this file", parseOutcome(f, err, p), reference(text))
	g, err := parse.Reader(p, strings.NewReader(text))
	same(x, "outcome for this name", parseOutcome(g, err, p), reference(text))
}
