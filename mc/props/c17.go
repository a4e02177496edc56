package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/printer"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	All["C17"] = &Prop{
		Level:  "fault_enumeration",
		States: "distinct (tree, failing write, bytes accepted, error, later behaviour of the writer)",
		Bounds: "offsets: for each of 60 trees covering every node kind, printing and dumping fail after every number of accepted bytes (so at every write with every number of bytes accepted), with 21 errors, and the writer then fails for ever or recovers, with and without the optional writer methods (string, byte, Flush; ReadFrom, Sync, and methods that must not be called); features: the same at every byte for every rule with at most 2 features over the default, and as part of files; expressions: the same for rules with a Go expression of at most 2 (thorough 3) nodes other than identifiers; sizes: the size dimensions, failing at selected bytes; stdout: standard output is closed, read-only, a full device or a broken pipe; healthy: every writer kind receives the complete output, after what it holds already (buffers, files)",
		Assume: []string{"a writer that accepts fewer bytes than offered returns an error (io.Writer contract)"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "offsets", Share: 4, Run: c17Offsets},
				{Name: "features", Share: 3, Bound: 2, Run: func(x *explore.X) {
					n := c11Tree(x)
					c17Every(x, n)
				}},
				{Name: "stdout", Split: 8, Run: c17Stdout},
				{Name: "expressions", Bound: pick(tier, 2, 3), Run: func(x *explore.X) { c17Every(x, withExpr(x).ToAST()) }},
				{Name: "healthy", Run: c17Healthy},
				{Name: "sizes", Run: c17Sizes},
			}
		},
	}
}

// faulty accepts the first limit bytes and then fails, for ever or once.
type faulty struct {
	limit   int
	err     error
	recover bool
	got     []byte
	writes  int
	failed  int // writes that failed
	later   int // writes after the first failure
}

func (f *faulty) Write(b []byte) (int, error) {
	f.writes++
	if f.failed > 0 {
		f.later++
		if f.recover {
			f.got = append(f.got, b...)
			return len(b), nil
		}
		return 0, f.err
	}
	if n := f.limit - len(f.got); f.limit >= 0 && len(b) >= n && (len(b) > n || n == 0) {
		f.got = append(f.got, b[:n]...)
		f.failed++
		return n, f.err
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

// full fails with everything accepted: the write that reaches limit.
type fullThenFail struct{ faulty }

func (f *fullThenFail) Write(b []byte) (int, error) {
	if f.failed == 0 && len(f.got)+len(b) >= f.limit && len(b) > 0 {
		f.writes++
		f.got = append(f.got, b...)
		f.failed++
		return len(b), f.err
	}
	return f.faulty.Write(b)
}

// rich has the optional methods a writer can have.
type rich struct{ w io.Writer }

func (r rich) Write(b []byte) (int, error)       { return r.w.Write(b) }
func (r rich) WriteString(s string) (int, error) { return r.w.Write([]byte(s)) }
func (r rich) WriteByte(c byte) error            { _, err := r.w.Write([]byte{c}); return err }
func (r rich) Flush() error                      { return nil }

// richer has more of them.
type richer struct{ rich }

func (r richer) ReadFrom(s io.Reader) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, rerr := s.Read(b)
		if k > 0 {
			m, err := r.w.Write(b[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}
func (r richer) WriteRune(c rune) (int, error)  { return r.w.Write([]byte(string(c))) }
func (r richer) Sync() error                    { return nil }
func (r richer) Available() int                 { return 1 << 20 }
func (r richer) Buffered() int                  { return 0 }
func (r richer) Len() int                       { return 3 }
func (r richer) Size() int                      { return 3 }
func (r richer) Grow(n int)                     {}
func (r richer) Seek(int64, int) (int64, error) { panic("the destination is moved") }
func (r richer) Truncate(int64) error           { panic("the destination is truncated") }
func (r richer) Reset()                         { panic("the destination is reset") }
func (r richer) WriteAt([]byte, int64) (int, error) {
	panic("the destination is written at another place")
}
func (r richer) Close() error               { panic("the destination is closed") }
func (r richer) CloseWithError(error) error { panic("the destination is closed") }

var errWrite = errors.New("write failed")

var writeErrors = []error{errWrite, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, syscall.EPIPE, syscall.ENOSPC, os.ErrClosed, temporary{},
	syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, context.DeadlineExceeded, context.Canceled, io.ErrNoProgress, io.ErrUnexpectedEOF, &os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}, fmt.Errorf("write: %w", io.EOF), fmt.Errorf("write: %w", io.ErrShortWrite), temporary{true}, errors.New("EOF"), errors.New("")}

// output is what the operation writes.
type output struct {
	name  string
	write func(w io.Writer, n ast.Node) error
	stop  bool // nothing may be written after a failure
}

var outputs = []output{
	{"printer.Fprint", printer.Fprint, true},
	{"ast.Fprint", ast.Fprint, false},
}

// printable reports whether the printer supports the node on its own.
func printable(n ast.Node) bool {
	_, alt := n.(ast.OpcodeAlt)
	return !alt
}

func outputFor(x *explore.X, n ast.Node) output {
	if !printable(n) {
		return outputs[1]
	}
	return outputs[x.Free(2)]
}

func complete(x *explore.X, o output, n ast.Node) string {
	var b strings.Builder
	if err := o.write(&b, n); err != nil {
		x.Fail("%s fails without any write failing: %v", o.name, err)
	}
	return b.String()
}

// errorIs avoids comparing uncomparable errors.
func reported(err, want error) bool { return err != nil && errors.Is(err, want) }

func checkFault(x *explore.X, o output, n ast.Node, all string, f *faulty, w io.Writer) {
	err := o.write(w, n)
	if f.failed == 0 {
		if err != nil {
			x.Fail("%s reports %v but no write failed", o.name, err)
		}
		if string(f.got) != all {
			x.Fail("%s wrote %q instead of %q", o.name, clip(string(f.got)), clip(all))
		}
		return
	}
	if err == nil {
		x.Fail("write %d failed (%d bytes accepted before), but %s reports success", f.writes, f.limit, o.name)
	}
	if !reported(err, f.err) {
		x.Fail("write %d failed with %q, but %s reports %q", f.writes, f.err, o.name, err)
	}
	if o.stop && f.later > 0 {
		x.Fail("%s made %d writes after the failed one", o.name, f.later)
	}
	if !strings.HasPrefix(all, string(f.got)) {
		x.Fail("after a failure with %d bytes accepted the destination holds %q, which is not a beginning of %q", f.limit, clip(string(f.got)), clip(all))
	}
}

var c17Trees = func() []ast.Node {
	ns := c11Trees()
	var rs []*model.Rule
	for _, r := range ruleKinds(3) {
		ns = append(ns, r.ToAST())
		rs = append(rs, r)
	}
	for _, e := range c17Exprs() {
		ns = append(ns, &ast.Expr{Expr: e.ToGo()})
	}
	return append(ns, model.FileAST(rs), &ast.File{})
}()

func c17Exprs() []*model.GoX {
	a, b := model.Id("a"), model.Id("b")
	return []*model.GoX{
		a, model.Int("1"), model.Paren(model.Bin(a, "+", b)), model.Un("-", a), model.Bin(a, "-", model.Un("-", b)), model.Bin(a, "&&", model.Bin(b, "==", a)),
		model.Fn(a), model.Fn(a, b, model.Int("1")), model.FnV(a, b), model.FnV(a, model.Int("1")), model.Star(a), model.Sel(a, "F"), model.Sel(model.Int("1"), "F"),
		model.Lit("STRING", `"%d é"`), model.Bin(a, "/", model.Star(b)), model.Fn(model.Sel(a, "G"), model.Un("!", model.Paren(b))),
	}
}

func c17Offsets(x *explore.X) {
	n := c17Trees[x.Free(len(c17Trees))]
	o := outputFor(x, n)
	all := complete(x, o, n)
	at := x.Free(len(all) + 2)
	e, mode := errWrite, 0
	if o.stop || at < 200 || at%31 == 0 || at >= len(all)-2 {
		e = writeErrors[x.Free(len(writeErrors))]
		mode = x.Free(12)
	} else {
		mode = x.Free(2)
	}
	f := &faulty{limit: at, err: e, recover: mode&1 == 1}
	var w io.Writer = f
	m := mode
	if mode >= 8 {
		mode -= 4
	}
	if mode&2 != 0 {
		g := &fullThenFail{*f}
		f, w = &g.faulty, g
	}
	if m >= 8 {
		w = richer{rich{w}}
	} else if m >= 4 {
		w = rich{w}
	}
	x.Describe(func() string {
		return fmt.Sprintf("%s of %s, %d of %d bytes accepted, %v, mode %d", o.name, clip(model.CanonAST(n)), at, len(all), e, m)
	})
	x.Key(o.name, all, fmt.Sprint(at, e, m))
	checkFault(x, o, n, all, f, w)
	x.Outcome = fmt.Sprintf("%s: %s", o.name, map[bool]string{true: "failed", false: "no write reached the limit"}[f.failed > 0])
}

// c17Every fails after every number of bytes.
func c17Every(x *explore.X, n ast.Node) {
	x.Describe(func() string { return clip(model.CanonAST(n)) })
	x.Key(fmt.Sprintf("%T", n), model.CanonAST(n))
	for _, o := range outputs {
		if o.stop && !printable(n) {
			continue
		}
		all := complete(x, o, n)
		step := 1
		if !o.stop {
			step = 1 + len(all)/40
		}
		for at := 0; at <= len(all); at += step {
			f := &faulty{limit: at, err: errWrite, recover: at&1 == 1}
			checkFault(x, o, n, all, f, f)
			x.Validated(1)
		}
	}
}

func c17Stdout(x *explore.X) {
	o := []struct {
		name string
		run  func(ast.Node) error
	}{{"printer.Print", printer.Print}, {"ast.Print", ast.Print}}[x.Free(2)]
	kind := x.Free(4)
	n := c17Trees[x.Free(len(c17Trees))]
	if o.name == "printer.Print" && !printable(n) {
		return
	}
	x.Describe(func() string {
		return fmt.Sprintf("%s of %s with standard output %s", o.name, clip(model.CanonAST(n)), []string{"a full device", "closed", "read-only", "a broken pipe"}[kind])
	})
	x.Key(o.name, model.CanonAST(n), fmt.Sprint(kind))
	var want string
	if o.name == "ast.Print" {
		want = complete(x, outputs[1], n)
	} else {
		want = complete(x, outputs[0], n)
	}
	var f *os.File
	var err error
	var cause error
	switch kind {
	case 0:
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		cause = syscall.ENOSPC
	case 1:
		f, err = os.OpenFile("/dev/null", os.O_WRONLY, 0)
		if err == nil {
			f.Close()
		}
		cause = os.ErrClosed
	case 2:
		f, err = os.Open("/dev/null")
		cause = syscall.EBADF
	case 3:
		var r *os.File
		r, f, err = os.Pipe()
		if err == nil {
			r.Close()
		}
		cause = syscall.EPIPE
	}
	if err != nil {
		panic(err)
	}
	defer f.Close()
	old := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = old }()
	got := o.run(n)
	os.Stdout = old
	if want == "" {
		x.Outcome = "nothing to write"
		return
	}
	x.Outcome = o.name
	if !reported(got, cause) {
		x.Fail("standard output fails with %v, but %s reports %v", cause, o.name, got)
	}
}

func c17Healthy(x *explore.X) {
	n := c17Trees[x.Free(len(c17Trees))]
	o := outputFor(x, n)
	kind := x.Free(11)
	all := complete(x, o, n)
	x.Describe(func() string { return fmt.Sprintf("%s of %s, writer kind %d", o.name, clip(model.CanonAST(n)), kind) })
	x.Key(o.name, all, fmt.Sprint(kind))
	f := &faulty{limit: -1}
	var w io.Writer = f
	switch kind {
	case 1:
		w = rich{f}
	case 2:
		w = io.MultiWriter(f, io.Discard)
	case 3:
		r, p := io.Pipe()
		done := make(chan bool)
		go func() {
			b, _ := io.ReadAll(r)
			f.got = b
			done <- true
		}()
		err := o.write(p, n)
		p.Close()
		<-done
		if err != nil || string(f.got) != all {
			x.Fail("%s to a pipe: %v, %q", o.name, err, clip(string(f.got)))
		}
		return
	}
	if kind >= 4 && kind < 10 {
		c17Destination(x, o, n, all, kind-4)
		return
	}
	if kind == 10 {
		w = richer{rich{f}}
	}
	checkFault(x, o, n, all, f, w)
}

// c17Destination writes to a destination that holds something already.
func c17Destination(x *explore.X, o output, n ast.Node, all string, kind int) {
	const old = "(old "
	var err error
	var got string
	switch kind {
	case 0:
		b := bytes.NewBufferString(old)
		err = o.write(b, n)
		got = b.String()
	case 1:
		b := bytes.NewBufferString("read" + old)
		b.Next(4)
		err = o.write(b, n)
		got = b.String()
	case 2:
		var b strings.Builder
		b.WriteString(old)
		err = o.write(&b, n)
		got = b.String()
	case 3:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 16)
		w.WriteString(old)
		err = o.write(w, n)
		w.Flush()
		got = b.String()
	case 4, 5:
		p := filepath.Join(scratch(), "c17.out")
		put(p, old+strings.Repeat("#", 20))
		flags := os.O_RDWR
		if kind == 5 {
			put(p, old)
			flags |= os.O_APPEND
		}
		f, e := os.OpenFile(p, flags, 0)
		if e != nil {
			panic(e)
		}
		f.Seek(int64(len(old)), io.SeekStart)
		err = o.write(f, n)
		at, e := f.Seek(0, io.SeekCurrent)
		if e != nil {
			x.Fail("%s closes the file", o.name)
		}
		f.Close()
		b, e := os.ReadFile(p)
		if e != nil {
			panic(e)
		}
		got = string(b)
		if kind == 4 && len(got) > len(old+all) && strings.Trim(got[len(old+all):], "#") == "" {
			got = got[:len(old+all)]
		}
		if at != int64(len(old+all)) {
			x.Fail("%s leaves the file at %d instead of %d", o.name, at, len(old+all))
		}
	}
	if err != nil {
		x.Fail("%s reports %v but no write failed", o.name, err)
	}
	same(x, "what the destination holds", got, old+all)
}

// c17Sizes fails around every internal buffer size of large outputs.
func c17Sizes(x *explore.X) {
	rs, name := sizedRules(x, 0, 3000)
	if rs == nil {
		return
	}
	n := model.FileAST(rs)
	x.Describe(func() string { return name })
	x.Key(name)
	o := outputs[x.Free(2)]
	all := complete(x, o, n)
	if o.name == "ast.Fprint" && len(all) > 50000 {
		x.Outcome = "not dumped"
		return
	}
	for _, at := range dict().Sizes(0, len(all)) {
		f := &faulty{limit: at, err: errWrite, recover: at&1 == 1}
		checkFault(x, o, n, all, f, f)
		x.Validated(1)
	}
	for _, at := range []int{len(all) - 2, len(all) - 1, len(all)} {
		if at >= 0 {
			f := &faulty{limit: at, err: errWrite}
			checkFault(x, o, n, all, f, f)
		}
	}
}
