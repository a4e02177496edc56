package props

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/explore"
	"verif/mc/model"
	"verif/mc/sched"
)

// Calls on large inputs, one after the other and at the same time: code may share state
// for them that it does not share for small ones.

// largeOps are operations on a file. A result that the caller keeps comes second.
var largeOps = []struct {
	name    string
	changes bool
	run     func(f *ast.File, text string) (string, interface{})
}{
	{"parse", false, func(f *ast.File, text string) (string, interface{}) {
		g, err := parse.String(text)
		if g == nil {
			return parseOutcome(g, err, ""), nil
		}
		return parseOutcome(g, err, ""), g
	}},
	{"parse with a fault", false, func(f *ast.File, text string) (string, interface{}) {
		g, err := parse.String(text + "(A x) => )")
		return parseOutcome(g, err, ""), nil
	}},
	{"print", false, func(f *ast.File, text string) (string, interface{}) {
		b, err := printer.Bytes(f)
		return errText(err) + string(b), b
	}},
	{"dump", false, func(f *ast.File, text string) (string, interface{}) {
		s, err := ast.Dump(f)
		return errText(err) + s, s
	}},
	{"walk", false, func(f *ast.File, text string) (string, interface{}) {
		var b strings.Builder
		ast.Inspect(f, func(n ast.Node) bool { fmt.Fprintf(&b, "%T", n); return true })
		return b.String(), nil
	}},
	{"predicates", false, func(f *ast.File, text string) (string, interface{}) {
		var b strings.Builder
		for _, r := range f.Rules {
			for _, p := range predicates {
				fmt.Fprint(&b, p.impl(r))
			}
		}
		return b.String(), nil
	}},
	{"generate", false, func(f *ast.File, text string) (string, interface{}) {
		var b strings.Builder
		for _, r := range f.Rules {
			q, err := smt2.Generate(r)
			b.WriteString(errText(err) + string(q))
		}
		return b.String(), nil
	}},
	{"expand", true, func(f *ast.File, text string) (string, interface{}) {
		err := pass.ExpandAlternates(f)
		return errText(err) + model.Full(f), f
	}},
}

// largeRules chooses a dimension and one of the sizes, and makes two inputs of that size.
func largeRules(x *explore.X, ns []int) (a, b []*model.Rule, name string) {
	i := x.Free(len(dims) + 1)
	n := ns[x.Free(len(ns))]
	if i == len(dims) {
		// For the generator: deep, with many variables.
		name = fmt.Sprintf("query=%d", n)
		return []*model.Rule{largeQuery(n, "x")}, []*model.Rule{largeQuery(n, "y")}, name
	}
	d := dims[i]
	name = fmt.Sprintf("%s=%d", d.name, n)
	if n > d.max {
		return nil, nil, name
	}
	a, ok := d.make(n)
	if !ok {
		return nil, nil, name
	}
	b, _ = d.make(n)
	b[len(b)-1] = rule(sx("Other", model.Var("o")), model.Var("o"))
	return a, append(b, rule(sx("Other2", model.Var("o")), model.Var("o"))), name
}

func largeQuery(n int, name string) *model.Rule {
	var v model.Value = model.Var(name)
	for i := 0; i < n; i++ {
		v = sx("Add8", v, model.Var(fmt.Sprintf("%s%d", name, i)))
	}
	return rule(v, sx("Neg8", model.Var(name)))
}

// c18Large has two calls on large inputs, then the first one again.
func c18Large(x *explore.X, tier string) {
	a, b, name := largeRules(x, []int{70, 300, pick(tier, 1100, 4200)})
	if a == nil {
		return
	}
	p, q := largeOps[x.Free(len(largeOps))], largeOps[x.Free(len(largeOps))]
	x.Describe(func() string {
		return fmt.Sprintf("%s of %s, %s of another input of the size, the first one again", p.name, name, q.name)
	})
	x.Key(name, p.name, q.name)
	ta, tb := model.Text(a), model.Text(b)
	got, keep := p.run(model.FileAST(a), ta)
	var full string
	if keep != nil {
		full = fullOf(keep)
	}
	switch p.name {
	case "parse":
		same(x, "parsed tree", got, "file "+model.Full(model.FileAST(a)))
	case "print":
		same(x, "printed text", got, "ok"+ta)
	}
	q.run(model.FileAST(b), tb)
	if keep != nil {
		same(x, "what the first call returned", fullOf(keep), full)
	}
	again, _ := p.run(model.FileAST(a), ta)
	same(x, "result of the first call when it is made again", again, got)
	x.Outcome = p.name
}

var largeSteps = map[string][2]int{}

// c19Large has two calls on large inputs at the same time.
func c19Large(x *explore.X, tier string) {
	a, b, name := largeRules(x, []int{pick(tier, 270, 1100)})
	if a == nil {
		return
	}
	i := x.Free(len(largeOps))
	j := i
	one := false
	switch x.Free(3) {
	case 1:
		// On one tree.
		one = true
	case 2:
		j = (i + 1 + x.Free(len(largeOps)-1)) % len(largeOps)
	}
	p, q := largeOps[i], largeOps[j]
	if one && p.changes {
		return
	}
	onSync := x.Free(2) == 1
	ta, tb := model.Text(a), model.Text(b)
	files := func() (f, g *ast.File) {
		f = model.FileAST(a)
		if one {
			return f, f
		}
		return f, model.FileAST(b)
	}
	if one {
		tb = ta
	}
	f, g := files()
	wp, _ := p.run(f, ta)
	wq, _ := q.run(g, tb)
	runtime.GOMAXPROCS(1)
	k := fmt.Sprint(name, i)
	counts, ok := largeSteps[k]
	if !ok {
		f, _ := files()
		_, steps, syncs, _ := sched.Run([]func(){func() { p.run(f, ta) }}, []int{0}, nil, false, false)
		counts = [2]int{steps[0], syncs[0]}
		largeSteps[k] = counts
	}
	n := counts[0]
	if onSync {
		n = min(counts[1], 40)
	}
	var plan []sched.Preempt
	at := stepOf(x, n, pick(tier, 3, 12))
	if at > 0 {
		plan = []sched.Preempt{{Who: 0, At: at, To: 1, Low: true}}
	} else if onSync {
		return
	}
	x.Describe(func() string {
		return fmt.Sprintf("%s of %s, %s of an input of the size (the same tree: %v), preempted at %d of %d (synchronisation: %v)", p.name, name, q.name, one, at, n, onSync)
	})
	x.Key(name, fmt.Sprint(i, j, one, at, onSync))
	f, g = files()
	var gp, gq string
	var keep interface{}
	happened, _, _, ps := sched.Run([]func(){func() { gp, keep = p.run(f, ta) }, func() { gq, _ = q.run(g, tb) }}, []int{0, 1}, plan, onSync, false)
	for t, e := range ps {
		if e != nil {
			x.Fail("thread %d panics: %v", t, e)
		}
	}
	same(x, "result of the first call", gp, wp)
	same(x, "result of the second call", gq, wq)
	_ = keep
	x.Outcome = fmt.Sprintf("%s, %d preemptions", p.name, happened)
}
