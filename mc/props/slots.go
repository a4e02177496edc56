package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	gotypes "go/types"
	"io"
	"strings"
	"testing/iotest"
	"unicode"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/model"
	"verif/mc/smt"
)

// slotRule is a rule with alternatives whose block, type or expressions look like groups
// of alternatives, too.
func slotRule(x *explore.X, max int) *model.Rule {
	op := func(n int) []model.Part {
		return []model.Part{{Lit: "A"}, {Alt: []string{"8", "16", "32"}[:n]}}
	}
	n := 2 + x.Free(2)
	m := &model.S{Op: op(n), Args: []model.Value{model.Var("x")}}
	res := &model.S{Op: op(n), Args: []model.Value{model.Var("x")}}
	r := rule(m, res)
	switch x.Free(3) {
	case 1:
		res.Op = model.Op("B")
	case 2:
		m.Op, m.Args = model.Op("B"), []model.Value{&model.S{Op: op(n)}}
	}
	var s string
	if f := []string{"v(8|16)", "v(8|16|32)", "(8|16)", "(8|16|32)", "8|16", "8|16|32", "8,16", "8,16,32", "8/16", "8;16", "8:16", "t(8|16)(a|b)", "%d", "$1", "\\1", "A", "A8", "A16", "8", "16", "(A8|A16)", "A(8|16)", "A(8|16|32)", "*", "x", "_", "idx", "i", "|", "||", "v.Block|v.Args[0].Block", "a && b", "a&&b"}; x.Free(2) == 0 {
		s = f[x.Free(len(f))]
	} else {
		const letters = "a|()8"
		for k := 1 + x.Free(max); k > 0; k-- {
			s += string(letters[x.Free(len(letters))])
		}
	}
	switch x.Free(6) {
	case 0:
		r.Block = s
	case 1:
		m.Type = s
	case 2:
		res.Type = s
	case 3:
		r.Block, m.Type, res.Type = s, s, s
	case 4:
		m.AuxInt = model.Lit("STRING", "`"+s+"`")
		r.Cond = model.Fn(model.Id("f"), model.Lit("STRING", "`"+s+"`"))
	case 5:
		res.Aux = model.Lit("STRING", "`"+s+"`")
		m.Args = append(m.Args[:len(m.Args):len(m.Args)], &model.Call{X: model.Fn(model.Id("f"), model.Lit("STRING", "`"+s+"`"))})
	}
	return r
}

// c14Calls: no call stands for a value that a query can speak of, whatever its name.
func c14Calls(x *explore.X) {
	var ws []string
	for _, w := range append(dict().Idents(), gotypes.Universe.Names()...) {
		if gen.IsVar(w) {
			ws = append(ws, w)
		}
	}
	w := ws[x.Free(len(ws))]
	sort := sorts[x.Free(len(sorts))]
	names, arity := smt.Ops(sort)
	bin, un := names[0], names[len(names)-1]
	if arity[0] != 2 || arity[len(arity)-1] != 1 {
		panic("the first operator is not binary, or the last not unary")
	}
	v := model.Var("x")
	args := [][]*model.GoX{{model.Id("x")}, {model.Id("_")}, {model.Id("y")}, {model.Id("x"), model.Id("x")}, {model.Fn(model.Id(w), model.Id("x"))}, {}, {model.Int("0")}}[x.Free(7)]
	c := &model.Call{X: model.Fn(model.Id(w), args...)}
	var r *model.Rule
	switch x.Free(7) {
	case 0:
		r = rule(sx(un, v), c)
	case 1:
		r = rule(sx(bin, v, c), v)
	case 2:
		r = rule(sx(bin, v, v), sx(bin, c, v))
	case 3:
		r = rule(sx(un, sx(un, c)), v)
	case 4:
		r = rule(c, sx(un, v))
	case 5:
		r = rule(sx(un, c), c)
	case 6:
		r = rule(sx(un, v), sx(un, sx(bin, v, c)))
	}
	checkVerdict(x, r)
}

// seekless fails to read at every offset from n on.
type failAt struct {
	text string
	n    int
	err  error
}

func (f failAt) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(f.n) {
		return 0, f.err
	}
	k := copy(b, f.text[off:f.n])
	if k < len(b) {
		return k, f.err
	}
	return k, nil
}

// A reader with all the optional methods there are, which all tell the truth.
type talented struct {
	*bufio.Reader
	at *io.SectionReader
}

func (t talented) Seek(off int64, whence int) (int64, error) { return 0, errors.New("cannot seek") }
func (t talented) ReadAt(b []byte, off int64) (int, error)   { return t.at.ReadAt(b, off) }
func (t talented) Close() error                              { return nil }

type writerTo struct {
	io.Reader
}

func (w writerTo) WriteTo(to io.Writer) (n int64, err error) { return io.Copy(to, hidden{w.Reader}) }

type byteReader struct{ io.Reader }

func (b byteReader) ReadByte() (byte, error) {
	var c [1]byte
	_, err := io.ReadFull(b.Reader, c[:])
	return c[0], err
}

var c16Wraps = []struct {
	name string
	make func(base io.Reader, text string, at int, e error) io.Reader
}{
	{"bufio.Reader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return bufio.NewReader(b) }},
	{"bufio.Reader of 16 bytes", func(b io.Reader, _ string, _ int, _ error) io.Reader { return bufio.NewReaderSize(b, 16) }},
	{"bufio.ReadWriter", func(b io.Reader, _ string, _ int, _ error) io.Reader {
		return bufio.NewReadWriter(bufio.NewReader(b), bufio.NewWriter(io.Discard))
	}},
	{"io.MultiReader", func(b io.Reader, t string, at int, e error) io.Reader {
		return io.MultiReader(strings.NewReader(t[:at]), &planned{steps: []readStep{{0, e}}})
	}},
	{"io.MultiReader and more", func(b io.Reader, t string, at int, e error) io.Reader {
		if e == io.EOF {
			return io.MultiReader(strings.NewReader(t[:at/2]), strings.NewReader(""), bytes.NewBufferString(t[at/2:at]))
		}
		return io.MultiReader(strings.NewReader(t[:at/2]), strings.NewReader(t[at/2:at]), &planned{steps: []readStep{{0, e}}}, strings.NewReader(t[at:]))
	}},
	{"io.TeeReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return io.TeeReader(b, io.Discard) }},
	{"io.LimitedReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return io.LimitReader(b, 1<<40) }},
	{"io.SectionReader", func(b io.Reader, t string, at int, e error) io.Reader {
		return io.NewSectionReader(failAt{t, at, e}, 0, 1<<40)
	}},
	{"all methods", func(b io.Reader, t string, at int, e error) io.Reader {
		return talented{bufio.NewReader(b), io.NewSectionReader(failAt{t, at, e}, 0, 1<<40)}
	}},
	{"io.WriterTo", func(b io.Reader, _ string, _ int, _ error) io.Reader { return writerTo{b} }},
	{"io.ByteReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return byteReader{b} }},
	{"bytes.Buffer", func(b io.Reader, t string, at int, e error) io.Reader {
		var buf bytes.Buffer
		if e != io.EOF {
			return bufio.NewReader(io.MultiReader(bytes.NewBufferString(t[:at]), &planned{steps: []readStep{{0, e}}}))
		}
		buf.WriteString(t)
		return &buf
	}},
	{"iotest.OneByteReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return iotest.OneByteReader(b) }},
	{"iotest.HalfReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return iotest.HalfReader(b) }},
	{"iotest.DataErrReader", func(b io.Reader, _ string, _ int, _ error) io.Reader { return iotest.DataErrReader(b) }},
	{"pipe", func(b io.Reader, t string, at int, e error) io.Reader {
		r, w := io.Pipe()
		go func() {
			io.WriteString(w, t[:at])
			w.CloseWithError(e)
		}()
		return r
	}},
}

// c16Interfaces: what a reader can do besides reading makes no difference.
func c16Interfaces(x *explore.X) {
	ts := append(shortTexts(99), longerTexts...)
	ts = append(ts, rep("(A x) => (B x)\n", 300))
	text := ts[x.Free(len(ts))]
	w := c16Wraps[x.Free(len(c16Wraps))]
	at, e := len(text), io.EOF
	if es := []error{nil, errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer}; true {
		if k := x.Free(len(es)); k > 0 {
			e = es[k]
			if len(text) > 1000 {
				at = []int{0, 1, 15, 16, 511, 512, 513, 4095, 4096, 4097, len(text)}[x.Free(11)]
			} else {
				at = x.Free(len(text) + 1)
			}
		}
	}
	what := fmt.Sprintf("%q by %s, after %d bytes %v", clip(text), w.name, at, e)
	x.Describe(func() string { return what })
	x.Key(what)
	x.Outcome = w.name
	base := &planned{data: text, steps: []readStep{{n: at}, {0, e}}}
	if at == 0 {
		base.steps = base.steps[1:]
	}
	r := w.make(base, text, at, e)
	f, err := parse.Reader("string", r)
	if c, ok := r.(io.Closer); ok {
		c.Close()
	}
	if e != io.EOF {
		mustFailRead(x, f, err)
		return
	}
	same(x, "outcome for this reader", parseOutcome(f, err, "string"), reference(text))
}

// c21Characters: dumps tell any two characters apart, in every name.
func c21Characters(x *explore.X, all bool) {
	slot := x.Free(7)
	const block = 256
	k := x.Free(1 + (unicode.MaxRune+1)/block)
	var ss []string
	if k == 0 {
		for a := rune(' '); a < 127; a++ {
			for b := rune(' '); b < 127; b++ {
				ss = append(ss, string(a)+string(b))
			}
		}
		for c := 0; c < 256; c++ {
			ss = append(ss, string([]byte{byte(c)}), string([]byte{'a', byte(c), 'b'}))
		}
		ss = append(ss, "")
	} else {
		from := rune(k-1) * block
		step := rune(1)
		if from >= 0x3000 && !all {
			step = 85
		}
		for r := from; r < from+block; r += step {
			if r >= 0x80 {
				ss = append(ss, string(r))
			}
		}
	}
	x.Key(fmt.Sprint(slot, k))
	x.Describe(func() string { return fmt.Sprintf("slot %d, %d texts from %q", slot, len(ss), ss[:min(1, len(ss))]) })
	x.Unkeyed = true
	seen := map[string]bool{}
	for _, s := range ss {
		if strings.ContainsAny(s, "\n\r\u0085\u2028\u2029\v\f") || seen[s] || s == "\uFFFD" {
			continue
		}
		seen[s] = true
		m := &ast.SExpr{Op: ast.Opcode("A")}
		r := &ast.Rule{Match: m, Result: ast.Variable("x")}
		switch slot {
		case 0:
			m.Type = ast.Type(s)
		case 1:
			m.Binding = ast.Variable(s)
		case 2:
			m.Op = ast.Opcode(s)
		case 3:
			m.Args = []ast.Value{ast.Variable(s)}
		case 4:
			r.Block = s
		case 5:
			r.Condition = &ast.Expr{Expr: model.Id(s).ToGo()}
		case 6:
			r.Condition = &ast.Expr{Expr: model.Lit("STRING", s).ToGo()}
		}
		bijective(x, fmt.Sprint("slot", slot), fmt.Sprintf("%q", s), dump(x, r))
		x.Validated(1)
	}
}
