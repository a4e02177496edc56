package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	All["C18"] = &Prop{
		Level:   "model_checking",
		NoLimit: true,
		States:  "distinct histories (sequences of calls with their results); the model's state is which files have been expanded",
		Bounds:  "histories: every sequence of up to 3 (thorough 4) of the 28 core calls on eight shared files; pairs: every sequence of 2 of all calls of the pool (about 380), thorough 3 with the middle one from the core; edits: for every rule with at most 1 (thorough 2) feature deviations from 10 skeletons, and 5 SMT rules, and every single change to it: all calls on the tree, on the tree changed in place, and changed back; repeat: every call 1100 times (larger ones 300 or 40; those whose callback panics or ends its goroutine 66000), with calls in callbacks, and the state checked for 42 of them; many: thousands of calls on distinct inputs, then all again in four other orders; names: all calls for 15 inputs with a name, for each of 134 pairs of easily confused or hash-colliding names one after the other, each against a fresh process; owned: every call that returns a text or a tree with itself and 24 (thorough all) others, the first result changed in place, then both again; large: a call on an input of 70, 300 or 1100 (4200) elements in one of the dimensions of C01, another one on another such input, and the first again; sources: 17 texts from 10 kinds of source (buffers, readers, files), which is then overwritten; parts: every node and list of three parsed and expanded files, with all the rest dropped and garbage collected and its memory used again; kept: the same for the result of every call",
		Assume:  []string{"a call in a fresh process (other directory and environment) is the reference for its result"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "pairs", Share: 2, Run: func(x *explore.X) {
					if tier == "thorough" {
						history(x, []int{len(pool), core, len(pool)})
						return
					}
					history(x, []int{len(pool), len(pool)})
				}},
				{Name: "histories", Share: 4, Run: func(x *explore.X) {
					if tier == "thorough" {
						history(x, []int{core, core, core, core})
						return
					}
					history(x, []int{core, core, core})
				}},
				{Name: "edits", Share: 2, Bound: pick(tier, 1, 2), Run: c18Edits},
				{Name: "repeat", Run: c18Repeat},
				{Name: "names", Run: c18Names},
				{Name: "owned", Run: func(x *explore.X) { c18Owned(x, tier) }},
				{Name: "sources", Run: c18Sources},
				{Name: "parts", Run: c18Parts},
				{Name: "kept", Run: c18Kept},
				{Name: "large", Run: func(x *explore.X) { c18Large(x, tier) }},
				{Name: "many", Split: 1, Run: func(x *explore.X) { c18Many(x, tier) }},
			}
		},
	}
}

var freshCache = map[[2]int]*freshResult{}

// fresh returns the reference result of call i.
func fresh(x *explore.X, i int, expanded bool) *freshResult {
	k := [2]int{i, 0}
	in := "plain"
	if expanded {
		k[1], in = 1, "expanded"
	}
	if r, ok := freshCache[k]; ok {
		return r
	}
	out, errs, err := elsewhere("-mode", "fresh", "-prop", "C18", "-root", Root, "-index", fmt.Sprint(i), "-in", in)
	if err != nil {
		x.Fail("call %q ends its process when it is the first one: %v: %s", pool[i].name, err, clip(errs))
	}
	r := &freshResult{}
	if err := json.Unmarshal(out, r); err != nil {
		panic(err)
	}
	freshCache[k] = r
	return r
}

var errLate = errors.New("does not end in time")

// elsewhere runs the checker in a fresh process, in another directory and environment.
func elsewhere(args ...string) (out []byte, errs string, err error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Dir = "/"
	cmd.Env = []string{"PATH=/bin", "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "GORACE=" + os.Getenv("GORACE")}
	// Names of variables that the code may look at.
	for _, w := range dict().Words {
		if len(w) > 1 && w == strings.ToUpper(w) && w[0] >= 'A' && w[0] <= 'Z' && w != "PATH" && w != "GORACE" {
			cmd.Env = append(cmd.Env, w+"=1")
		}
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var outb, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &outb, &errb
	if err = cmd.Start(); err != nil {
		return nil, "", err
	}
	var late int32
	timer := time.AfterFunc(80*time.Second, func() {
		atomic.StoreInt32(&late, 1)
		cmd.Process.Kill()
	})
	err = cmd.Wait()
	timer.Stop()
	if err != nil && atomic.LoadInt32(&late) == 1 {
		err = errLate
	}
	return outb.Bytes(), errb.String(), err
}

// nameTexts are inputs with a name.
var nameTexts = []string{
	"(O%s x) => (B)\n", "(A %s) => x\n", "%s:(A x) => (B %s)\n", "(A [%s]) && c > %s => (B)\n", "(Sub8 %s x) => %s\n", "(P(O%s|b) x) => (Q)\n",
	"(A <%s> {%s(1)}) => @%s x\n", "(A %s) => )\n", "(A {%s +}) => x\n", "(A x) => (O%s x)\n", "(Add16 _ %s) => (And16 _ _)\n", "(A) => %s(x)\n", "(P(a|b)(O%s|d|e)) => x\n", "// %s\n", "(Frob%s x) => x\n",
}

// nameCalls is what all calls give for each of the inputs with a name.
func nameCalls(name string) (out []string) {
	for _, t := range nameTexts {
		text := strings.ReplaceAll(t, "%s", name)
		f, err := parse.String(text)
		if err != nil {
			out = append(out, err.Error())
			continue
		}
		s := model.Full(f)
		for _, r := range f.Rules {
			s += manyCall(model.FromRule(r), text)
		}
		out = append(out, s)
	}
	return out
}

// NamesRun is nameCalls in a process that has made no call before.
func NamesRun(name string) interface{} { return nameCalls(name) }

// c18Names makes the calls for one name and then for another one, which is easily
// confused with it.
func c18Names(x *explore.X) {
	all := append(confusables[:len(confusables):len(confusables)], collisions...)
	p := all[x.Free(len(all))]
	if !goName(p[0]) || !goName(p[1]) {
		return
	}
	x.Describe(func() string { return fmt.Sprintf("the same inputs with the name %s, then %s", clip(p[0]), clip(p[1])) })
	x.Key(p[0], p[1])
	var want [2][]string
	for i, n := range p {
		out, errs, err := elsewhere("-mode", "names", "-prop", "C18", "-root", Root, "-in", n)
		if err != nil {
			x.Fail("calls with the name %s end their process: %v: %s", clip(n), err, clip(errs))
		}
		if err := json.Unmarshal(out, &want[i]); err != nil {
			panic(err)
		}
	}
	for _, i := range []int{0, 1, 0, 1} {
		for k, got := range nameCalls(p[i]) {
			same(x, fmt.Sprintf("calls for %q in %q, against a fresh process", clip(p[i]), nameTexts[k]), got, want[i][k])
			x.Validated(1)
		}
	}
}

type kept struct {
	from string
	v    interface{}
	full string
	// spare is what was stored beyond the ends of its lists, where that matters.
	spare string
}

func fullOf(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return model.Full(v)
}

type historian struct {
	x        *explore.X
	w        *world
	expanded []bool
	snaps    []string // expected
	spares   []string
	kept     []kept
	names    []string
}

func newHistorian(x *explore.X) *historian {
	h := &historian{x: x, w: newWorld()}
	h.expanded = make([]bool, len(h.w.files))
	h.snaps = append([]string{}, fresh(x, 0, false).Before...)
	for _, f := range h.w.files {
		h.spares = append(h.spares, model.Spare(f))
	}
	h.checkFiles("parsing the pool")
	return h
}

func (h *historian) checkFiles(after string) {
	for i, f := range h.w.files {
		if got := model.Full(f); got != h.snaps[i] {
			h.x.Fail("after %s, file %d is\n%s\ninstead of\n%s", after, i, around(got, h.snaps[i]), around(h.snaps[i], got))
		}
		if len(h.spares) == 0 {
			continue
		}
		if got := model.Spare(f); got != h.spares[i] {
			h.x.Fail("after %s, what is stored beyond the ends of the lists of file %d is\n%s\ninstead of\n%s", after, i, around(got, h.spares[i]), around(h.spares[i], got))
		}
	}
}

func (h *historian) do(i int) {
	c := pool[i]
	h.names = append(h.names, c.name)
	expanded := c.file >= 0 && h.expanded[c.file]
	ref := fresh(h.x, i, expanded)
	if c.expands {
		old := h.w.files[c.file].Rules
		h.kept = append(h.kept, kept{"the rule list before " + c.name, old, fullOf(old), model.Spare(old)})
	}
	got, keep := c.run(h.w)
	after := strings.Join(h.names, ", ")
	if got != ref.Result {
		h.x.Fail("%s gives\n%s\nbut in a fresh process\n%s", after, around(got, ref.Result), around(ref.Result, got))
	}
	if c.expands {
		h.expanded[c.file] = true
		h.snaps[c.file] = ref.After[c.file]
		for _, k := range h.kept {
			if rs, ok := k.v.([]*ast.Rule); ok && k.spare != "" && model.Spare(rs) != k.spare {
				h.x.Fail("%s changes what is stored beyond the ends of lists in %s", after, k.from)
			}
		}
		h.spares[c.file] = model.Spare(h.w.files[c.file])
	}
	h.checkFiles(after)
	if keep != nil {
		h.kept = append(h.kept, kept{c.name, keep, fullOf(keep), ""})
	}
	h.x.Validated(1)
}

func (h *historian) checkKept() {
	for _, k := range h.kept {
		if got := fullOf(k.v); got != k.full {
			h.x.Fail("after %s, what %s returned has become\n%s\ninstead of\n%s", strings.Join(h.names, ", "), k.from, around(got, k.full), around(k.full, got))
		}
	}
}

func history(x *explore.X, choices []int) {
	var is []int
	for _, n := range choices {
		is = append(is, x.Free(n))
	}
	x.Describe(func() string {
		var ns []string
		for _, i := range is {
			ns = append(ns, pool[i].name)
		}
		return strings.Join(ns, ", ")
	})
	h := newHistorian(x)
	for _, i := range is {
		h.do(i)
		x.Key(fmt.Sprint(is), h.names[len(h.names)-1], fmt.Sprint(h.expanded))
	}
	h.checkKept()
	x.Outcome = fmt.Sprintf("expanded %v", h.expanded)
}

func c18Repeat(x *explore.X) {
	i := x.Free(len(pool))
	h := newHistorian(x)
	h.do(i)
	h.do(i)
	// Many times, with only the result checked.
	c := pool[i]
	ref := fresh(x, i, c.file >= 0 && h.expanded[c.file])
	times := 1100
	switch {
	case c.often:
		times = 66000
	case len(ref.Result) > 30000:
		times = 40
	case len(ref.Result) > 3000:
		times = 300
	}
	x.Describe(func() string { return fmt.Sprintf("%s %d times", c.name, times) })
	x.Key(fmt.Sprint(i))
	if c.expands {
		times = 40 // those which are kept
	}
	for k := 0; k < times; k++ {
		if got, _ := c.run(h.w); got != ref.Result {
			x.Fail("%s for the time %d gives\n%s\nbut in a fresh process\n%s", c.name, k+3, around(got, ref.Result), around(ref.Result, got))
		}
	}
	for k := 0; k < 40; k++ {
		h.do(i)
		if k > 1 {
			h.names = h.names[:2]
		}
	}
	h.checkKept()
}

// manyRule is the n-th of a family of distinct inputs.
func manyRule(family, n int) *model.Rule {
	v := func(s string) model.Value { return model.Var(fmt.Sprintf("%s%d", s, n)) }
	switch family {
	case 0: // other operators
		return rule(sx(fmt.Sprintf("Op%d", n), v("x")), sx(fmt.Sprintf("Res%d", n)))
	case 1: // the same operators, other variables
		return rule(sx("Add8", v("x"), sx("Neg8", v("y"))), sx("Sub8", v("x"), v("y")))
	case 2: // supported or not, all widths
		ws := []string{"8", "16", "32", "64"}
		w := ws[n%4]
		ops := []string{"Add", "Sub", "And", "Or", "Xor", "Mul"}
		return rule(sx(ops[n%len(ops)]+w, model.Var("x"), v("z")), sx(ops[n/4%len(ops)]+w, v("z"), model.Var("x")))
	case 3: // groups and features
		s := &model.S{Op: []model.Part{{Lit: fmt.Sprintf("G%d", n)}, {Alt: []string{"a", "b"}}}, Type: fmt.Sprintf("t%d", n), AuxInt: model.Int(fmt.Sprint(n)), Aux: model.Id(fmt.Sprintf("s%d", n))}
		r := rule(s, sx("B", v("x")))
		r.Cond, r.Block = model.Bin(model.Id("c"), "==", model.Int(fmt.Sprint(n))), fmt.Sprintf("blk%d", n)
		return r
	default: // the same length and operators
		return rule(sx("Sub16", model.Var(fmt.Sprintf("v%05d", n)), model.Var("x")), model.Var(fmt.Sprintf("v%05d", n)))
	}
}

// manyCall is what all calls give for a rule.
func manyCall(r *model.Rule, text string) string {
	var b strings.Builder
	f, err := parse.String(text)
	if err != nil {
		return err.Error()
	}
	b.WriteString(model.CanonAST(f))
	a := r.ToAST()
	p, err := printer.Bytes(a)
	fmt.Fprintf(&b, "\n%s %v\n", p, err)
	d, err := ast.Dump(a)
	fmt.Fprintf(&b, "%s %v\n", d, err)
	q, err := smt2.Generate(a)
	fmt.Fprintf(&b, "%s %v\n", q, err)
	for _, p := range predicates {
		fmt.Fprintf(&b, "%v ", p.impl(a))
	}
	err = pass.ExpandAlternates(f)
	fmt.Fprintf(&b, "%s %v\n", model.CanonAST(f), err)
	_, err = parse.String(text + " )")
	fmt.Fprintf(&b, "%v", err)
	return b.String()
}

// c18Many makes many calls on distinct inputs and then makes them again in other orders.
func c18Many(x *explore.X, tier string) {
	family := x.Free(5)
	sizes := []int{3, 17, 70, 300, 1100, 2600}
	if tier == "thorough" {
		sizes = append(sizes, 9000, 20000)
	}
	n := sizes[x.Free(len(sizes))]
	x.Describe(func() string { return fmt.Sprintf("%d inputs of family %d", n, family) })
	x.Key(fmt.Sprint(family, n))
	rs := make([]*model.Rule, n)
	texts := make([]string, n)
	hash := make([][2]uint64, n)
	for i := range rs {
		rs[i] = manyRule(family, i)
		texts[i] = rs[i].Print()
		s := manyCall(rs[i], texts[i])
		hash[i] = hash2(s)
		same(x, "parsed rule", strings.SplitN(s, "\n", 2)[0], model.CanonFile([]*model.Rule{rs[i]}))
		if p := strings.SplitN(s, "\n", 3)[1]; p != texts[i]+" <nil>" {
			x.Fail("rule %d of %d is printed as %s", i, n, p)
		}
	}
	for order := 0; order < 4; order++ {
		for k := 0; k < n; k++ {
			i := k
			switch order {
			case 0:
				i = n - 1 - k
			case 1:
				i = k * 7919 % n
			case 2:
				i = (k/2 + k%2*(n/2)) % n
			case 3:
				i = 0
				if k%2 == 1 {
					i = k
				}
			}
			if s := manyCall(rs[i], texts[i]); hash2(s) != hash[i] {
				x.Fail("the results for input %d of %d differ when they are computed again (order %d):\n%s", i, n, order, clip(s))
			}
			x.Validated(1)
		}
	}
}
