package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	All["C16"] = &Prop{
		Level:  "fault_enumeration",
		States: "distinct deliveries: input text, sequence of read results, source name",
		Bounds: "splits: every split into reads of 14 texts of up to 11 (thorough 15) bytes, with end-of-file alone or with the last data; cuts: every two cuts of 12 longer texts with up to 3 empty reads at either (99 to 101, 1000 and 70000 at a single one); errors: a read error of each of 18 kinds at every offset of 20 texts, alone or with data, after one big read or single bytes, once or for ever; readers: 14 kinds of reader of the standard library and of files, fresh or partly consumed; interfaces: 16 readers with other methods or that wrap one, complete or with one of 5 errors at every offset of 37 texts; long: texts around every internal buffer size x 12 read sizes x an error at every such boundary; bulk: 2^20 to 2^22 (thorough 2^24) bytes; formats: 71 forms of 5 texts (compressed, in other encodings, with marks of other formats before or after) from every kind of reader and from files of 10 names; names: 30 source names x texts; files: every text as plain file, link, relative name, odd name, FIFO, every unusable file; descriptors: no file stays open",
		Assume: []string{"in-memory parsing of the same bytes (decided by C01 to C03, C20) is the reference", "a reader obeys the io.Reader contract, returns at most 70000 empty reads in a row"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "splits", Share: 3, Run: func(x *explore.X) { c16Splits(x, pick(tier, 11, 15)) }},
				{Name: "cuts", Share: 3, Run: c16Cuts},
				{Name: "errors", Share: 3, Run: c16Errors},
				{Name: "readers", Run: c16Readers},
				{Name: "interfaces", Share: 2, Run: c16Interfaces},
				{Name: "formats", Run: c16Formats},
				{Name: "names", Run: c16Names},
				{Name: "files", Run: c16Files},
				{Name: "descriptors", Run: c16Descriptors},
				{Name: "long", Share: 3, Run: c16Long},
				{Name: "bulk", Share: 2, Run: func(x *explore.X) { c16Bulk(x, tier) }},
			}
		},
	}
}

// outcome is the complete observable result of a parse; name is the source name, which
// an error mentions.
func parseOutcome(f *ast.File, err error, name string) string {
	if err != nil {
		if f != nil {
			return "file and error"
		}
		s := err.Error()
		if name != "" {
			s = strings.ReplaceAll(s, name+":", "")
		}
		return "error " + s
	}
	if f == nil {
		return "neither file nor error"
	}
	return "file " + model.Full(f)
}

var (
	refMu    sync.Mutex
	refCache = map[string]string{}
)

// reference is the outcome of parsing text from memory.
func reference(text string) string {
	refMu.Lock()
	defer refMu.Unlock()
	if s, ok := refCache[text]; ok {
		return s
	}
	f, err := parse.String(text)
	s := parseOutcome(f, err, "string")
	if len(refCache) < 5000 {
		refCache[text] = s
	}
	return s
}

// step is one planned result of a read.
type readStep struct {
	n   int // bytes delivered
	err error
}

// planned is a reader that delivers data in planned steps. A step larger than the
// buffer offered is divided.
type planned struct {
	data  string
	steps []readStep
	reads int
}

func (r *planned) Read(b []byte) (int, error) {
	r.reads++
	if len(r.steps) == 0 {
		return 0, io.EOF
	}
	s := &r.steps[0]
	if len(b) == 0 {
		return 0, nil
	}
	n := s.n
	if n > len(b) {
		n = copy(b, r.data[:len(b)])
		r.data = r.data[n:]
		s.n -= n
		return n, nil
	}
	copy(b, r.data[:n])
	r.data = r.data[n:]
	err := s.err
	s.n = 0
	if !(err != nil && len(r.steps) == 1) {
		r.steps = r.steps[1:]
	}
	return n, err
}

func (r *planned) String() string { return fmt.Sprint(r.steps) }

func checkDelivery(x *explore.X, text, name string, r io.Reader) {
	f, err := parse.Reader(name, r)
	same(x, "outcome for this delivery", parseOutcome(f, err, name), reference(text))
}

// shortTexts are whole inputs of few bytes, valid and not.
func shortTexts(max int) []string {
	var out []string
	for _, s := range []string{
		"x=>y", "(A)=>x", "(A) => (B)", "", "\n", "x=>y\nz=>w", "x =>@b y", "(A|B)=>x", "x=>y//é", "//漢\nx=>y", "x=>(é)", "x && a => y",
		"(A [c])=>x", "x:(A)=>(B x)", "x=>y\r\n", "f(x) => y\n", "(A|B)C|D) =>x", "x=>y=>z", "(A {\"é\"}) =>x", "x", "(", "\xff", "x=>y\xc3", "x=>y \\",
	} {
		if len(s) <= max {
			out = append(out, s)
		}
	}
	return out
}

func c16Splits(x *explore.X, max int) {
	ts := shortTexts(max)
	text := ts[x.Free(len(ts))]
	var steps []readStep
	n := 0
	for i := 0; i < len(text); i++ {
		n++
		if i == len(text)-1 {
			break
		}
		if x.Free(2) == 1 {
			steps = append(steps, readStep{n: n})
			n = 0
		}
	}
	if x.Free(2) == 1 {
		steps = append(steps, readStep{n, io.EOF})
	} else {
		steps = append(steps, readStep{n: n}, readStep{0, io.EOF})
	}
	x.Describe(func() string { return fmt.Sprintf("%q read as %v", text, steps) })
	x.Key(text, fmt.Sprint(steps))
	x.Outcome = reference(text)[:5]
	checkDelivery(x, text, "string", &planned{data: text, steps: append([]readStep(nil), steps...)})
}

var longerTexts = []string{
	"(Add64 (Const64 [c]) x) => (Add64 x (Const64 [c]))\n",
	"// a comment — with é\n\n(A(8|16) x:(B y) ___) && c == d => @blk (C(8|16) <t.T> [a+b] {s} x ...) // end",
	"(A x)\n\t=> (B\r\n x)\n(C) => f(x, y)\n\n\n(D) => (E)",
	"(A {\"a // b\"} x) && f(\"漢😀\") => x\n",
	"(A x) => (B x) (C) => (D)",
	"(A [08]) => (B)",
	"(A x) => (B x)\n(A x) = (B x)\n",
	"(A x) => (B x)\n(A x\xc3",
	"(A x) => (B x)\n// \xff\n(C) => (D)\n",
	"(A x) && x => (B x)\nx",
	"\ufeff(A x) => (B x)\n",
	"   \n\n",
}

func c16Cuts(x *explore.X) {
	text := longerTexts[x.Free(len(longerTexts))]
	n := len(text)
	var at []int
	first := x.Free(n+1) - 1 // -1: no cut
	if first >= 0 {
		at = append(at, first)
		if k := x.Free(n - first); k > 0 {
			at = append(at, first+k)
		}
	}
	empties := x.Free(4)
	if empties == 3 && len(at) < 2 {
		empties = []int{3, 99, 100, 101, 1000, 70000}[x.Free(6)]
	}
	which := 0
	if empties > 0 {
		which = x.Free(len(at) + 1)
	}
	eof := x.Free(2)
	var steps []readStep
	prev := 0
	for i, a := range append(at, n) {
		if i == which {
			for e := 0; e < empties; e++ {
				steps = append(steps, readStep{})
			}
		}
		s := readStep{n: a - prev}
		prev = a
		if a == n && eof == 1 {
			s.err = io.EOF
		}
		steps = append(steps, s)
	}
	if eof == 0 {
		steps = append(steps, readStep{0, io.EOF})
	}
	x.Describe(func() string { return fmt.Sprintf("%q read as %v", text, steps) })
	x.Key(text, fmt.Sprint(steps))
	x.Outcome = fmt.Sprintf("%s, %d empty", reference(text)[:5], empties)
	checkDelivery(x, text, "string", &planned{data: text, steps: append([]readStep(nil), steps...)})
}

type temporary struct{ eof bool }

func (temporary) Error() string   { return "temporarily unavailable" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }
func (t temporary) Is(err error) bool {
	return t.eof && err == io.EOF
}

var errRead = errors.New("read failed")

// readErrors are the ways a read can fail.
var readErrors = []error{errRead, io.ErrUnexpectedEOF, fmt.Errorf("device: %w", io.EOF), io.ErrNoProgress, os.ErrClosed, syscall.EINTR, syscall.EAGAIN,
	temporary{}, temporary{true}, errors.New("EOF"), os.ErrDeadlineExceeded, context.Canceled, io.ErrShortBuffer, io.ErrClosedPipe, &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, fmt.Errorf("read: %w", io.ErrUnexpectedEOF), &os.PathError{Op: "read", Path: "x", Err: io.EOF}, errors.New("")}

func c16Errors(x *explore.X) {
	ts := append(shortTexts(99), longerTexts...)
	text := ts[x.Free(len(ts))]
	at := x.Free(len(text) + 1)
	e := readErrors[x.Free(len(readErrors))]
	mode := x.Free(3) // one read then error, error with the data, single bytes then error
	then := x.Free(3) // for ever the error, then end of file, then the rest
	var steps []readStep
	switch mode {
	case 0:
		if at > 0 {
			steps = append(steps, readStep{n: at})
		}
		steps = append(steps, readStep{0, e})
	case 1:
		steps = append(steps, readStep{at, e})
	default:
		for i := 0; i < at; i++ {
			steps = append(steps, readStep{n: 1})
		}
		steps = append(steps, readStep{0, e})
	}
	switch then {
	case 1:
		steps = append(steps, readStep{0, io.EOF})
	case 2:
		steps = append(steps, readStep{len(text) - at, nil}, readStep{0, io.EOF})
	}
	x.Describe(func() string { return fmt.Sprintf("%q read as %v", text, steps) })
	x.Key(text, fmt.Sprint(steps), fmt.Sprintf("%T", e))
	x.Outcome = fmt.Sprintf("mode %d, %d after", mode, then)
	f, err := parse.Reader("string", &planned{data: text, steps: append([]readStep(nil), steps...)})
	mustFailRead(x, f, err)
}

func mustFailRead(x *explore.X, f *ast.File, err error) {
	if err == nil {
		x.Fail("a read failed, but parsing reports no error (file %v)", f != nil)
	}
	if f != nil {
		x.Fail("a read failed, but parsing returns a file, with error %v", err)
	}
}

// hidden hides all methods but Read.
type hidden struct{ io.Reader }

// oddReader has the optional methods of other readers, which do not tell the truth
// about what is read; only Read counts.
type lenReader struct {
	io.Reader
	n int
}

func (l lenReader) Len() int    { return l.n }
func (l lenReader) Size() int64 { return int64(l.n) }
func (l lenReader) Name() string {
	return "/dev/null"
}

var c16Kinds = []struct {
	name string
	make func(text string, skip int) io.Reader
}{
	{"strings.Reader", func(t string, k int) io.Reader {
		r := strings.NewReader(t)
		io.CopyN(io.Discard, r, int64(k))
		return r
	}},
	{"bytes.Reader", func(t string, k int) io.Reader {
		r := bytes.NewReader([]byte(t))
		io.CopyN(io.Discard, r, int64(k))
		return r
	}},
	{"bytes.Buffer", func(t string, k int) io.Reader { r := bytes.NewBufferString(t); r.Next(k); return r }},
	{"bufio.Reader", func(t string, k int) io.Reader {
		r := bufio.NewReaderSize(hidden{strings.NewReader(t)}, 16)
		r.Discard(k)
		return r
	}},
	{"io.SectionReader", func(t string, k int) io.Reader {
		return io.NewSectionReader(strings.NewReader(t+"garbage )"), int64(k), int64(len(t)-k))
	}},
	{"io.LimitedReader", func(t string, k int) io.Reader {
		return io.LimitReader(strings.NewReader(t[k:]+"garbage )"), int64(len(t)-k))
	}},
	{"io.TeeReader", func(t string, k int) io.Reader { return io.TeeReader(strings.NewReader(t[k:]), io.Discard) }},
	{"io.MultiReader", func(t string, k int) io.Reader {
		m := k + (len(t)-k)/2
		return io.MultiReader(strings.NewReader(t[k:m]), strings.NewReader(""), strings.NewReader(t[m:]))
	}},
	{"io.Pipe", func(t string, k int) io.Reader {
		r, w := io.Pipe()
		go func() {
			for _, c := range []byte(t[k:]) {
				w.Write([]byte{c})
			}
			w.Close()
		}()
		return r
	}},
	{"hidden", func(t string, k int) io.Reader { return hidden{strings.NewReader(t[k:])} }},
	{"misleading", func(t string, k int) io.Reader { return lenReader{strings.NewReader(t[k:]), 3} }},
	{"file", func(t string, k int) io.Reader {
		p := filepath.Join(scratch(), "reader.rules")
		put(p, t)
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		f.Seek(int64(k), io.SeekStart)
		return f
	}},
	{"pipe", func(t string, k int) io.Reader {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() {
			for _, c := range []byte(t[k:]) {
				w.Write([]byte{c})
			}
			w.Close()
		}()
		return r
	}},
	{"closer", func(t string, k int) io.Reader { return io.NopCloser(strings.NewReader(t[k:])) }},
}

func c16Readers(x *explore.X) {
	k := c16Kinds[x.Free(len(c16Kinds))]
	ts := append(shortTexts(99), longerTexts...)
	text := ts[x.Free(len(ts))]
	skips := []string{"", "(", "x => y\n", "\xff"}
	skip := skips[x.Free(len(skips))]
	x.Describe(func() string { return fmt.Sprintf("%q from %s after %q", text, k.name, skip) })
	x.Key(text, k.name, skip)
	x.Outcome = k.name
	r := k.make(skip+text, len(skip))
	checkDelivery(x, text, "string", r)
	if f, ok := r.(*os.File); ok {
		f.Close()
	}
}

var sourceNames = []string{"", "a", "string", "a.rules", "a b", "a:b", "1:2", "%d", "%s%!", "é", "日本", "/", "/a/b.rules", "./x", "-", "\n", "\t", "a\nb", "\x00", "\xff", " ", ":",
	"rule X", "no match found", "x => y", "\"q\"", "{}", "$HOME", "~", strings.Repeat("n", 5000), "C:\\x", "http://h/p", "(", "//"}

func c16Names(x *explore.X) {
	all := append(sourceNames[:len(sourceNames):len(sourceNames)], dictNames()...)
	i := x.Free(len(all))
	name := all[i]
	ts := append(shortTexts(99), longerTexts...)
	if i >= len(sourceNames) {
		ts = longerTexts
	}
	text := ts[x.Free(len(ts))]
	x.Describe(func() string { return fmt.Sprintf("%q named %q", text, name) })
	x.Key(name, text)
	f, err := parse.Reader(name, strings.NewReader(text))
	want := reference(text)
	got := parseOutcome(f, err, name)
	x.Outcome = want[:5]
	if strings.HasPrefix(want, "error ") && strings.HasPrefix(got, "error ") {
		// The form of the error is decided by C20.
		x.Outcome = "rejected"
		return
	}
	same(x, "outcome for this source name", got, want)
}

func c16Files(x *explore.X) {
	mode := x.Free(12)
	ts := append(shortTexts(99), longerTexts...)
	text := ""
	dir := freshDir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "a.rules")
	what := "file"
	bad := false
	if mode < 7 {
		text = ts[x.Free(len(ts))]
		put(path, text)
	}
	wd := ""
	switch mode {
	case 1:
		what = "link"
		l := filepath.Join(dir, "link")
		if err := os.Symlink("a.rules", l); err != nil {
			panic(err)
		}
		path = l
	case 2:
		ns := []string{"a", "-", "a b", "%d", "é", "a:b", "string", "~", ".hidden", "a\nb", "*", "$HOME", "a.gz", "\xff", strings.Repeat("n", 255)}
		for _, n := range dictNames() {
			if !strings.Contains(n, "/") && n != "." && n != ".." {
				ns = append(ns, n)
			}
		}
		if text != longerTexts[0] {
			ns = ns[:15]
		}
		n := ns[x.Free(len(ns))]
		what = fmt.Sprintf("file named %q", n)
		if err := os.Rename(path, filepath.Join(dir, n)); err != nil {
			panic(err)
		}
		path, wd = n, dir
	case 3:
		what = "relative name with . and .."
		path, wd = "./../"+filepath.Base(dir)+"//a.rules", dir
	case 4:
		what = "FIFO"
		path = filepath.Join(dir, "fifo")
		if err := syscall.Mkfifo(path, 0600); err != nil {
			panic(err)
		}
		size := []int{1, 3, 4096}[x.Free(3)]
		go func() {
			w, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			for rest := text; rest != ""; {
				n := min(size, len(rest))
				w.WriteString(rest[:n])
				rest = rest[n:]
			}
			w.Close()
		}()
	case 5:
		what = "hard link"
		l := filepath.Join(dir, "hard")
		if err := os.Link(path, l); err != nil {
			panic(err)
		}
		path = l
	case 6:
		what = "file read twice"
		if f, err := parse.File(path); parseOutcome(f, err, path) != reference(text) {
			same(x, "outcome of the first reading", parseOutcome(f, err, path), reference(text))
		}
	case 7:
		what, path = "missing file", filepath.Join(dir, "none")
		bad = true
	case 8:
		what, path = "directory", dir
		bad = true
	case 9:
		ps := []string{"", "a\x00b", strings.Repeat("n", 256), "/dev/null/x", filepath.Join(dir, "none", "a"), strings.Repeat("a/", 3000), " "}
		path = ps[x.Free(len(ps))]
		what, wd = fmt.Sprintf("%.40q", path), dir
		bad = true
	case 10:
		what, path = "/dev/null", "/dev/null"
	case 11:
		what = "dangling or circular link"
		t := []string{"none", "link"}[x.Free(2)]
		path = filepath.Join(dir, "link")
		if err := os.Symlink(t, path); err != nil {
			panic(err)
		}
		bad = true
	}
	x.Describe(func() string { return fmt.Sprintf("%s: %q", what, text) })
	x.Key(what, text)
	x.Outcome = what
	if wd != "" {
		old, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(wd); err != nil {
			panic(err)
		}
		defer os.Chdir(old)
	}
	f, err := parse.File(path)
	if bad {
		mustFailRead(x, f, err)
		return
	}
	want, got := reference(text), parseOutcome(f, err, path)
	same(x, "outcome for this file", got, want)
	if mode == 0 || mode == 2 {
		if b, err := os.ReadFile(path); err != nil || string(b) != text {
			x.Fail("the file was changed by parsing: %q, %v", b, err)
		}
	}
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(es)
}

// c16Descriptors checks that parsing a file releases it, whatever becomes of it.
func c16Descriptors(x *explore.X) {
	i := x.Free(6)
	dir := freshDir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "a.rules")
	texts := []string{"(A) => (B)\n", "(A) => (", "", "\xff", "(A [08]) => (B)\n"}
	if i < len(texts) {
		put(path, texts[i])
	} else {
		path = dir
	}
	x.Describe(func() string { return fmt.Sprintf("parsing %q 40 times", path) })
	x.Key(fmt.Sprint(i))
	before := openFiles()
	for k := 0; k < 40; k++ {
		parse.File(path)
	}
	if after := openFiles(); after > before+20 {
		x.Fail("40 calls of parse.File left %d files open", after-before)
	}
}

func c16Long(x *explore.X) {
	sizes := dict().Sizes(0, 70000)
	n := sizes[x.Free(len(sizes))]
	kind := x.Free(3)
	reads := []int{1 << 30, 1, 7, 511, 512, 513, 1024, 4095, 4096, 4097, 32768, 65536}
	size := reads[x.Free(len(reads))]
	if size < 100 && n > 20000 {
		return
	}
	unit := "(Add64 (Const64 [c]) x) => (Add64 x (Const64 [c]))\n"
	if kind == 1 {
		unit = "// é漢\n"
	}
	var b strings.Builder
	for b.Len()+len(unit) <= n {
		b.WriteString(unit)
	}
	b.WriteString(rep(" ", n-b.Len()))
	text := b.String()
	if kind == 2 && n > 0 {
		text = text[:n-1] + ")"
	}
	fault := x.Free(4)
	at := n
	switch fault {
	case 1:
		at = 0
	case 2:
		at = n / len(unit) * len(unit)
	}
	var steps []readStep
	for left := at; left > 0; left -= min(left, size) {
		steps = append(steps, readStep{n: min(left, size)})
	}
	if fault > 0 {
		steps = append(steps, readStep{0, errRead})
	} else {
		steps = append(steps, readStep{0, io.EOF})
	}
	x.Describe(func() string { return fmt.Sprintf("%d bytes in reads of %d, fault %d, kind %d", n, size, fault, kind) })
	x.Key(fmt.Sprint(n, size, fault, kind))
	r := &planned{data: text, steps: steps}
	if fault > 0 {
		f, err := parse.Reader("string", r)
		mustFailRead(x, f, err)
		return
	}
	checkDelivery(x, text, "string", r)
}

// c16Bulk delivers texts of more than a MiB.
func c16Bulk(x *explore.X, tier string) {
	ns := []int{1 << 20, 1<<20 + 1, 1<<20 + 4096, 1<<21 + 1, 1<<22 + 1}
	if tier == "thorough" {
		ns = append(ns, 1<<23+1, 1<<24, 1<<24+1)
	}
	for _, n := range dict().Ints {
		if n > 70000 && n <= 1<<24 {
			ns = append(ns, n, n+1, n+512)
		}
	}
	n := ns[x.Free(len(ns))]
	size := []int{1 << 30, 4096, 1<<20 + 1}[x.Free(3)]
	end := []string{"(A) => (B)", "(A) => )", "(A) => (B) //"}[x.Free(3)]
	fault := x.Free(3)
	line := "//" + rep("xyz ", 30) + "\n"
	text := rep(line, n/len(line)+1)
	text = text[:n-len(end)-1] + "\n" + end
	at := []int{n, n - 1, 1 << 20}[fault]
	var steps []readStep
	for left := at; left > 0; left -= min(left, size) {
		steps = append(steps, readStep{n: min(left, size)})
	}
	last := io.EOF
	if fault > 0 {
		last = errRead
	}
	steps = append(steps, readStep{0, last})
	x.Describe(func() string {
		return fmt.Sprintf("%d bytes ending in %q, in reads of %d, fault %d", n, end, size, fault)
	})
	x.Key(fmt.Sprint(n, size, fault, end))
	r := &planned{data: text, steps: steps}
	if fault > 0 {
		f, err := parse.Reader("string", r)
		mustFailRead(x, f, err)
		return
	}
	checkDelivery(x, text, "string", r)
}
