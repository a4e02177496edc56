package props

import (
	"fmt"
	"io"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/model"
)

// world is the set of trees calls work on.
type world struct {
	files []*ast.File
}

// worldTexts are the files of the world.
var worldTexts = []string{
	// 0: groups, supported by SMT.
	"(Add(8|16) x (Neg(8|16) y)) => (Sub(8|16) x y)\n(Com8 x) => (Neg8 (Sub8 x (Const8 [1])))\n((And|Or)64 x x) => x\n",
	// 1: plain rules, the same operators, other names and widths.
	"(Add8 x y) => (Add8 y x)\n(Add16 a b) => (Add16 b a)\n(Sub32 x (Neg32 y)) => (Add32 x y)\n(Mul64 _ x) => (Frob x)\n(And64 select _) => select\n",
	// 2: every feature.
	"b:(Op(a|b) <t.T> [c+1] {sym(x)} v (In w:(Deep [-1] _)) f(v) ...) && c == d && !ok(x) => @x.Block (Res(a|b) <u> v (Op) ___)\n(Plain x) => x\n",
	// 3: incompatible groups after compatible ones.
	"(A(1|2) x) => (B(1|2) x)\n(A(1|2) x) => (B(1|2|3) x)\n(C(1|2)) => (D)\n",
	// 4: empty.
	"// nothing\n",
	// 5: the text of 1 with one operator changed, of the same length.
	"(Xor8 x y) => (Xor8 y x)\n(Xor16 a b) => (Xor16 b a)\n(Sub32 x (Com32 y)) => (Add32 x y)\n(Sub64 _ x) => (Frob x)\n(Or_64 select _) => select\n",
	// 6: refused by SMT generation, each in its own way.
	"(Add8 x) => x\n(Neg16 x x) => x\n(Frob x) => x\n(Grob8 y) => y\n(Add8 x y) => (Add16 x y)\n(Add64 x y) => (Neg32 x)\nx => x\ny => z\n(Sub8 x y) && c => x\n(Sub8 x y) && d => @b x\n(And32 x (Add16 y z)) => x\n(Add8 f(x) y) => x\n(Or8 <t> x y) => x\n(Xor8 [c] x y) => x\n(Com8 x ...) => x\n",
	// 7: groups of other sizes that do not fit.
	"(P(a|b|c) x) => (Q(1|2) x)\n(R) => (S)\n",
}

// badTexts are rejected, in various places and ways.
var badTexts = []string{
	"(A {f(}) => x", "(A [1.]) => x", "(A [c+]) => x", "(A) && c == => x", "x => y\n(B <t", "x => @ y", "(C) =>", "\n\n  (D (E) ...", "(A [func(){}]) => x", "(A) && a[0] => x",
}

func newWorld() *world {
	w := &world{}
	for _, t := range worldTexts {
		f, err := parse.String(t)
		if err != nil {
			panic(fmt.Sprintf("a file of the pool is rejected: %v", err))
		}
		w.files = append(w.files, f)
	}
	w.finish()
	return w
}

// finish adds file 8, which holds rules of other files, and gives all lists room.
func (w *world) finish() {
	for _, f := range w.files {
		model.Roomy(f)
	}
	var rs []*ast.Rule
	for _, i := range []int{0, 2, 1} {
		rs = append(rs, w.files[i].Rules...)
	}
	w.files = append(w.files, &ast.File{Rules: rs})
}

// call is one call of an exported function.
type call struct {
	name string
	file int // the file it works on, or -1
	// expands marks the calls that change their file.
	expands bool
	// often marks the calls that are repeated most often.
	often bool
	// run makes the call. keep is what the call returned: a tree or a text.
	run func(w *world) (result string, keep interface{})
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

func parseCall(name, text string) call {
	return call{name: fmt.Sprintf("parse %.40q", text), file: -1, run: func(w *world) (string, interface{}) {
		f, err := parse.Reader(name, strings.NewReader(text))
		if f == nil {
			return parseOutcome(f, err, ""), nil
		}
		return parseOutcome(f, err, ""), f
	}}
}

func rulesOfFile(w *world, i, k int) *ast.Rule { return w.files[i].Rules[k] }

func nodeCalls(file int, what string, node func(w *world) ast.Node) []call {
	return []call{
		{name: "print " + what, file: file, run: func(w *world) (string, interface{}) {
			b, err := printer.Bytes(node(w))
			return errText(err) + "\n" + string(b), b
		}},
		{name: "dump " + what, file: file, run: func(w *world) (string, interface{}) {
			s, err := ast.Dump(node(w))
			return errText(err) + "\n" + s, s
		}},
		{name: "walk " + what, file: file, run: func(w *world) (string, interface{}) {
			var b strings.Builder
			ast.Inspect(node(w), func(n ast.Node) bool {
				if n == nil {
					b.WriteString(")")
					return true
				}
				fmt.Fprintf(&b, "(%T", n)
				return true
			})
			return b.String(), nil
		}},
	}
}

func generateCall(file, k int) call {
	return call{name: fmt.Sprintf("generate %d.%d", file, k), file: file, run: func(w *world) (string, interface{}) {
		b, err := smt2.Generate(rulesOfFile(w, file, k))
		return errText(err) + "\n" + string(b), b
	}}
}

func predicatesCall(file int) call {
	return call{name: fmt.Sprintf("predicates %d", file), file: file, run: func(w *world) (string, interface{}) {
		var b strings.Builder
		for _, r := range w.files[file].Rules {
			for _, p := range predicates {
				fmt.Fprintf(&b, "%v ", p.impl(r))
			}
		}
		return b.String(), nil
	}}
}

func expandCall(file int) call {
	return call{name: fmt.Sprintf("expand %d", file), file: file, expands: true, run: func(w *world) (string, interface{}) {
		err := pass.ExpandAlternates(w.files[file])
		return errText(err) + "\n" + model.Full(w.files[file]), w.files[file].Rules
	}}
}

type failAfter struct{ n int }

func (f *failAfter) Write(b []byte) (int, error) {
	if f.n--; f.n < 0 {
		return 0, errWrite
	}
	return len(b), nil
}

// pool are the calls of the histories. The first short of them are the core.
var pool = func() []call {
	file := func(i int) (int, string, func(w *world) ast.Node) {
		return i, fmt.Sprintf("file %d", i), func(w *world) ast.Node { return w.files[i] }
	}
	var cs []call
	cs = append(cs, expandCall(0))
	cs = append(cs, nodeCalls(file(0))...)
	cs = append(cs, nodeCalls(file(2))[:2]...)
	cs = append(cs, generateCall(0, 0), generateCall(1, 0), generateCall(1, 1), generateCall(1, 2), generateCall(1, 3), generateCall(1, 4), generateCall(5, 0), generateCall(2, 0))
	cs = append(cs, predicatesCall(2), expandCall(2), expandCall(3))
	cs = append(cs,
		parseCall("string", worldTexts[1]), parseCall("string", worldTexts[5]), parseCall("string", worldTexts[2]),
		parseCall("string", "(A x) => (B"), parseCall("string", "(A [08]) => (B)"), parseCall("a.rules", "(A x) => (B"), parseCall("string", "(A) => (B)\n\xff"),
		call{name: "parse a failing reader", file: -1, run: func(w *world) (string, interface{}) {
			f, err := parse.Reader("string", &planned{data: worldTexts[1], steps: []readStep{{len(worldTexts[1]), nil}, {0, errRead}}})
			return parseOutcome(f, err, ""), nil
		}},
		call{name: "print to a failing writer", file: 2, run: func(w *world) (string, interface{}) {
			return errText(printer.Fprint(&failAfter{5}, w.files[2])), nil
		}},
		call{name: "dump to a failing writer", file: 2, run: func(w *world) (string, interface{}) {
			return errText(ast.Fprint(&failAfter{5}, w.files[2])), nil
		}},
	)
	return append(cs, morePool()...)
}()

const core = 28

func morePool() (cs []call) {
	for _, i := range []int{1, 3, 4, 5, 6, 7, 8} {
		i := i
		cs = append(cs, nodeCalls(i, fmt.Sprintf("file %d", i), func(w *world) ast.Node { return w.files[i] })...)
		cs = append(cs, predicatesCall(i), expandCall(i))
	}
	cs = append(cs, nodeCalls(2, "file 2", func(w *world) ast.Node { return w.files[2] })[2], predicatesCall(0))
	for i, t := range worldTexts {
		for k := range strings.Split(strings.TrimSpace(t), "\n") {
			k, i := k, i
			if i == 4 {
				continue
			}
			cs = append(cs, nodeCalls(i, fmt.Sprintf("rule %d.%d", i, k), func(w *world) ast.Node { return w.files[i].Rules[k] })...)
			cs = append(cs, nodeCalls(i, fmt.Sprintf("match %d.%d", i, k), func(w *world) ast.Node { return w.files[i].Rules[k].Match })...)
			cs = append(cs, generateCall(i, k))
		}
	}
	for _, t := range append(append([]string{}, longerTexts...), shortTexts(99)...) {
		cs = append(cs, parseCall("string", t))
	}
	for _, t := range badTexts {
		cs = append(cs, parseCall("bad.rules", t))
	}
	cs = append(cs,
		call{name: "parse a missing file", file: -1, run: func(w *world) (string, interface{}) {
			f, err := parse.File("/nonexistent/a.rules")
			return parseOutcome(f, err, ""), nil
		}},
		call{name: "parse a corpus file", file: -1, run: func(w *world) (string, interface{}) {
			f, err := parse.File(filepath.Join(Repo, "internal/testdata/dec64.rules"))
			return parseOutcome(f, err, ""), f
		}},
		call{name: "print an unsupported node", file: -1, run: func(w *world) (string, interface{}) {
			b, err := printer.Bytes(ast.OpcodeAlt{"a"})
			return errText(err) + string(b), nil
		}},
		call{name: "print into nothing", file: 1, run: func(w *world) (string, interface{}) {
			return errText(printer.Fprint(io.Discard, w.files[1])), nil
		}},
		call{name: "contains", file: 2, run: func(w *world) (string, interface{}) {
			n := 0
			r := ast.Contains(w.files[2], func(m ast.Node) bool { n++; _, ok := m.(ast.OpcodeAlt); return ok })
			return fmt.Sprint(r, n), nil
		}},
	)
	return append(cs, callbackCalls()...)
}

// guarded is what f does: return, panic or end its goroutine.
func guarded(f func() string) (result string) {
	done := make(chan bool)
	go func() {
		defer close(done)
		result = "ended"
		defer func() {
			if e := recover(); e != nil {
				result = fmt.Sprintf("panic %v", e)
			}
		}()
		result = f()
	}()
	<-done
	return result
}

type readerFunc func(b []byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

type writerFunc func(b []byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }

type visitorFunc func(n ast.Node) ast.Visitor

func (f visitorFunc) Visit(n ast.Node) ast.Visitor { return f(n) }

// callbackUses are the operations that call back, each of them calling back at least 3
// times for a file, with f being called with the number of the callback.
var callbackUses = []struct {
	name string
	run  func(w *world, file int, f func(n int)) string
}{
	{"printing", func(w *world, file int, f func(n int)) string {
		var b strings.Builder
		k := 0
		err := printer.Fprint(writerFunc(func(p []byte) (int, error) { k++; f(k); return b.Write(p) }), w.files[file])
		return errText(err) + b.String()
	}},
	{"dumping", func(w *world, file int, f func(n int)) string {
		var b strings.Builder
		k := 0
		err := ast.Fprint(writerFunc(func(p []byte) (int, error) { k++; f(k); return b.Write(p) }), w.files[file])
		return errText(err) + b.String()
	}},
	{"parsing", func(w *world, file int, f func(n int)) string {
		text := worldTexts[file]
		k := 0
		t, err := parse.Reader("string", readerFunc(func(p []byte) (int, error) {
			k++
			f(k)
			n := copy(p[:min(len(p), len(worldTexts[file])/3+1)], text)
			text = text[n:]
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}))
		return parseOutcome(t, err, "")
	}},
	{"inspecting", func(w *world, file int, f func(n int)) string {
		k := 0
		ast.Inspect(w.files[file], func(n ast.Node) bool {
			if n != nil {
				k++
				f(k)
			}
			return true
		})
		return fmt.Sprint(k)
	}},
	{"walking", func(w *world, file int, f func(n int)) string {
		k := 0
		var v visitorFunc
		v = func(n ast.Node) ast.Visitor {
			if n != nil {
				k++
				f(k)
			}
			return v
		}
		ast.Walk(v, w.files[file])
		return fmt.Sprint(k)
	}},
	{"searching", func(w *world, file int, f func(n int)) string {
		k := 0
		r := ast.Contains(w.files[file], func(n ast.Node) bool {
			k++
			f(k)
			return false
		})
		return fmt.Sprint(r, k)
	}},
}

// callbackCalls are calls whose callbacks panic, end their goroutine or make calls.
func callbackCalls() (cs []call) {
	for _, u := range callbackUses {
		u := u
		for _, at := range []int{1, 3} {
			at := at
			cs = append(cs,
				call{name: fmt.Sprintf("%s with a panic in callback %d", u.name, at), file: 2, often: true, run: func(w *world) (string, interface{}) {
					return guarded(func() string {
						return u.run(w, 2, func(n int) {
							if n == at {
								panic("of the callback")
							}
						})
					}), nil
				}},
			)
		}
		cs = append(cs,
			call{name: u.name + " with an exit in a callback", file: 1, often: true, run: func(w *world) (string, interface{}) {
				return guarded(func() string {
					return u.run(w, 1, func(n int) {
						if n == 2 {
							runtime.Goexit()
						}
					})
				}), nil
			}},
			call{name: u.name + " with calls in callbacks", file: 1, run: func(w *world) (string, interface{}) {
				var out strings.Builder
				r := u.run(w, 1, func(n int) {
					if n > 4 {
						return
					}
					for _, v := range callbackUses {
						fmt.Fprintln(&out, hash2(v.run(w, 1, func(n int) {})))
					}
					g := &ast.File{Rules: []*ast.Rule{w.files[6].Rules[0]}}
					b, err := smt2.Generate(w.files[1].Rules[0])
					fmt.Fprintln(&out, string(b), err, pass.ExpandAlternates(g), predicates[0].impl(w.files[2].Rules[0]))
				})
				return r + out.String(), nil
			}},
		)
	}
	return cs
}

// Fresh evaluates one call in this process, which has made no call before except for
// building the world, and writes its result and the state of all files after it.
type freshResult struct {
	Result string   `json:"result"`
	Before []string `json:"before"`
	After  []string `json:"after"`
}

func snapshots(w *world) []string {
	var s []string
	for _, f := range w.files {
		s = append(s, model.Full(f))
	}
	return s
}

// FreshCall evaluates call i, on an expanded file if expanded is set.
func FreshCall(i int, expanded bool) interface{} {
	w := newWorld()
	c := pool[i]
	if expanded {
		pass.ExpandAlternates(w.files[c.file])
	}
	var r freshResult
	r.Before = snapshots(w)
	r.Result, _ = c.run(w)
	r.After = snapshots(w)
	return r
}
