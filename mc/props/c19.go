package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verif/mc/explore"
	"verif/mc/model"
	"verif/mc/sched"
)

func init() {
	All["C19"] = &Prop{
		Level:   "model_checking",
		NoLimit: true,
		States:  "distinct schedules (calls, order, preemption points)",
		Bounds:  "statement granularity, in a -race build of the instrumented library (so every schedule is also checked for data races by happens-before): pairs: all ordered pairs of 50 calls, thread 1 preempted once before each of its statements (long calls: at 100, thorough 1500 evenly spread ones) and thread 2 run to its end; twice: all ordered pairs of 10 calls, each preempted at up to 30 (thorough 160) evenly spread statements; three: all ordered triples of 8 calls with one or two preemptions, the first at up to 30 (thorough 200) evenly spread statements; sync: all ordered pairs and same-call triples, preempted up to twice at every synchronisation operation; waiting: each of 6 operations, with its first, second or third callback (write, read, visit) waiting until the other call has ended, with every other call, and with those which wait, too, in both orders; goroutines: a call that starts goroutines of its own is run with its goroutines in every order of up to two switches at synchronisation operations; large: 8 operations on inputs of 270 (1100) elements in one of the dimensions of C01, with themselves on other or the same input and with every other, preempted at 3 (12) statements or synchronisation operations; cold: all ordered pairs of the calls, and the preemptions of same-call pairs, each in a fresh process of its own",
		Assume:  []string{"the reference result of a call is that of a fresh process (C18)", "the Go race detector reports a race of two accesses unordered in the explored schedule", "where the library uses a construct the instrumentation cannot schedule (a blocking select, a channel type declared by name, time), only the race build is used: calls then run truly in parallel and the schedules are not enumerated"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "pairs", Share: 4, Split: 64, Run: func(x *explore.X) { c19Pairs(x, tier) }},
				{Name: "twice", Share: 3, Split: 64, Run: func(x *explore.X) { c19Twice(x, tier) }},
				{Name: "three", Share: 2, Split: 64, Run: func(x *explore.X) { c19Three(x, tier) }},
				{Name: "sync", Share: 2, Split: 64, Run: c19Sync},
				{Name: "waiting", Split: 64, Run: c19Waiting},
				{Name: "goroutines", Split: 64, Run: func(x *explore.X) { c19Goroutines(x, tier) }},
				{Name: "large", Share: 2, Split: 64, Run: func(x *explore.X) { c19Large(x, tier) }},
				{Name: "cold", Share: 3, Split: 64, Run: func(x *explore.X) { c19Cold(x, tier) }},
			}
		},
	}
}

// c19Calls are the calls that run concurrently.
var c19Calls = func() []int {
	names := []string{
		"print file 0", "print file 1", "print file 2", "print rule 1.0", "print match 2.0",
		"dump rule 1.0", "dump match 1.3",
		"walk file 2", "walk file 1", "predicates 2", "predicates 1",
		"generate 1.0", "generate 1.1", "generate 1.2", "generate 1.3", "generate 1.4", "generate 5.0", "generate 2.0",
		"expand 0", "expand 2", "expand 3", "print to a failing writer",
		`parse "x=>y"`, `parse "(A) => (B)"`, `parse "(A [c])=>x"`, `parse "x && a => y"`, `parse "(A|B)=>x"`, `parse "\xff"`, `parse "x"`, "contains",
		"generate 6.0", "generate 6.1", "generate 6.2", "generate 6.3", "generate 6.4", "generate 6.5", "generate 6.6", "generate 6.8",
		"expand 7", "expand 8", "print file 8", "dump to a failing writer", "parse a missing file", "print an unsupported node", "print file 6",
		`parse "(A {f(}) => x"`, `parse "(A [1.]) => x"`, `parse "x => @ y"`, `parse "(A [func(){}]) => x"`, `parse "\n\n  (D (E) ..."`,
	}
	var is []int
	for _, n := range names {
		ok := false
		for i, c := range pool {
			if c.name == n {
				is, ok = append(is, i), true
				break
			}
		}
		if !ok {
			panic("no call " + n)
		}
	}
	return is
}()

var worldModels [][]*model.Rule

// builtWorld is a world whose trees are not shared with another one. Its files are built
// without parsing.
func builtWorld() *world {
	if worldModels == nil {
		for _, f := range newWorld().files[:len(worldTexts)] {
			worldModels = append(worldModels, model.FromFile(f))
		}
	}
	w := &world{}
	for _, m := range worldModels {
		w.files = append(w.files, model.FileAST(m))
	}
	w.finish()
	return w
}

// schedule is a run of calls under the scheduler.
type schedule struct {
	Calls []int
	Order []int
	Plan  []sched.Preempt
	Sync  bool
	Rev   bool
}

func (s *schedule) String() string {
	var b strings.Builder
	for i, c := range s.Calls {
		fmt.Fprintf(&b, "thread %d: %s; ", i, pool[c].name)
	}
	unit := "step"
	if s.Sync {
		unit = "synchronisation"
	}
	fmt.Fprintf(&b, "order %v", s.Order)
	for _, p := range s.Plan {
		fmt.Fprintf(&b, "; thread %d yields to %d before its %s %d", p.Who, p.To, unit, p.At)
		if p.Low {
			b.WriteString(" and goes on last")
		}
	}
	if s.Rev {
		b.WriteString("; the previous one goes on when one is blocked")
	}
	return b.String()
}

// compatible reports whether the calls may run concurrently.
func compatible(calls []int) bool {
	for i, a := range calls {
		for j, b := range calls {
			if i != j && pool[a].expands && pool[a].file == pool[b].file {
				return false
			}
		}
	}
	return true
}

type ranResult struct {
	Results  []string
	Panics   []string
	Happened int
	Steps    []int
	Syncs    []int
	// What the calls returned, after their callers have changed it.
	kept []interface{}
	full []string
}

func runSchedule(s *schedule, w *world) *ranResult {
	runtime.GOMAXPROCS(1)
	r := &ranResult{Results: make([]string, len(s.Calls)), Panics: make([]string, len(s.Calls)), kept: make([]interface{}, len(s.Calls)), full: make([]string, len(s.Calls))}
	var fs []func()
	for i, c := range s.Calls {
		i, c := i, pool[c]
		fs = append(fs, func() {
			var keep interface{}
			r.Results[i], keep = c.run(w)
			// The result is the caller's to change.
			if !c.expands && ownable(keep) {
				model.Take(keep, fmt.Sprintf("<%d>", i))
				r.kept[i], r.full[i] = keep, fullOf(keep)
			}
		})
	}
	var ps []interface{}
	r.Happened, r.Steps, r.Syncs, ps = sched.Run(fs, s.Order, s.Plan, s.Sync, s.Rev)
	for i, p := range ps {
		if p != nil {
			r.Panics[i] = fmt.Sprint(p)
		}
	}
	return r
}

func verifyRun(x *explore.X, s *schedule, r *ranResult) {
	for i, c := range s.Calls {
		ref := fresh(x, c, false)
		if r.Panics[i] != "" {
			x.Fail("thread %d (%s) panics: %s", i, pool[c].name, r.Panics[i])
		}
		if got := r.Results[i]; got != ref.Result {
			x.Fail("thread %d (%s) gives\n%s\nbut alone\n%s", i, pool[c].name, around(got, ref.Result), around(ref.Result, got))
		}
	}
	for i, k := range r.kept {
		if k == nil {
			continue
		}
		if got := fullOf(k); got != r.full[i] {
			x.Fail("what thread %d (%s) returned, and its caller changed, is\n%s\ninstead of\n%s: it is shared with another thread", i, pool[s.Calls[i]].name, around(got, r.full[i]), around(r.full[i], got))
		}
	}
}

func checkSchedule(x *explore.X, s *schedule) *ranResult {
	x.Describe(s.String)
	w := builtWorld()
	before := snapshotsOf(s, w)
	r := runSchedule(s, w)
	x.Key(s.String())
	verifyRun(x, s, r)
	for i, f := range snapshotsOf(s, w) {
		if f != before[i] {
			x.Fail("the tree read by %s has changed to\n%s\nfrom\n%s", pool[s.Calls[i]].name, around(f, before[i]), around(before[i], f))
		}
	}
	return r
}

func snapshotsOf(s *schedule, w *world) []string {
	out := make([]string, len(s.Calls))
	for i, c := range s.Calls {
		if c := pool[c]; c.file >= 0 && !c.expands {
			out[i] = model.Full(w.files[c.file])
		}
	}
	return out
}

var soloCache = map[int]*ranResult{}

// solo measures a call that runs alone under the scheduler.
func solo(x *explore.X, c int) *ranResult {
	if r, ok := soloCache[c]; ok {
		return r
	}
	s := &schedule{Calls: []int{c}, Order: []int{0}}
	runSchedule(s, builtWorld()) // whatever happens once happens here
	r := runSchedule(s, builtWorld())
	soloCache[c] = r
	return r
}

// stepOf chooses a step in 1..n, at most max of them, or 0 for none.
func stepOf(x *explore.X, n, max int) int {
	if n <= max {
		return x.Free(n + 1)
	}
	k := x.Free(max + 1)
	if k == 0 {
		return 0
	}
	return 1 + (k-1)*(n-1)/(max-1)
}

func c19Pairs(x *explore.X, tier string) {
	a, b := c19Calls[x.Free(len(c19Calls))], c19Calls[x.Free(len(c19Calls))]
	if !compatible([]int{a, b}) {
		x.Outcome = "incompatible"
		return
	}
	s := &schedule{Calls: []int{a, b}, Order: []int{0, 1}}
	if p := stepOf(x, solo(x, a).Steps[0], pick(tier, 100, 1500)); p > 0 {
		s.Plan = []sched.Preempt{{Who: 0, At: p, To: 1, Low: true}}
	}
	r := checkSchedule(x, s)
	x.Outcome = fmt.Sprintf("%d preemptions", r.Happened)
	x.Validated(len(r.Steps) + r.Steps[0] + r.Steps[1])
}

func c19Twice(x *explore.X, tier string) {
	var cs []int
	for _, k := range []int{2, 3, 5, 7, 9, 11, 14, 16, 20, 29} {
		cs = append(cs, c19Calls[k])
	}
	a, b := cs[x.Free(len(cs))], cs[x.Free(len(cs))]
	if !compatible([]int{a, b}) {
		x.Outcome = "incompatible"
		return
	}
	s := &schedule{Calls: []int{a, b}, Order: []int{0, 1}}
	max := pick(tier, 30, 160)
	p := stepOf(x, solo(x, a).Steps[0], max)
	if p == 0 {
		return
	}
	q := stepOf(x, solo(x, b).Steps[0], max)
	if q == 0 {
		return
	}
	s.Plan = []sched.Preempt{{Who: 0, At: p, To: 1, Low: true}, {Who: 1, At: q, To: 0}}
	r := checkSchedule(x, s)
	x.Outcome = fmt.Sprintf("%d preemptions", r.Happened)
}

func c19Three(x *explore.X, tier string) {
	var cs []int
	for _, k := range []int{2, 4, 7, 9, 11, 14, 20, 23} {
		cs = append(cs, c19Calls[k])
	}
	is := []int{cs[x.Free(len(cs))], cs[x.Free(len(cs))], cs[x.Free(len(cs))]}
	if !compatible(is) {
		x.Outcome = "incompatible"
		return
	}
	s := &schedule{Calls: is, Order: []int{0, 1, 2}}
	if p := stepOf(x, solo(x, is[0]).Steps[0], pick(tier, 30, 200)); p > 0 {
		s.Plan = []sched.Preempt{{Who: 0, At: p, To: 1, Low: true}}
		if nb := solo(x, is[1]).Steps[0]; nb > 0 && x.Free(2) == 1 {
			s.Plan = append(s.Plan, sched.Preempt{Who: 1, At: 1 + nb/2, To: 2})
		}
	}
	r := checkSchedule(x, s)
	x.Outcome = fmt.Sprintf("%d preemptions", r.Happened)
}

// c19Sync preempts at synchronisation operations only, which is enough for code without
// data races.
func c19Sync(x *explore.X) {
	a := c19Calls[x.Free(len(c19Calls))]
	is := []int{a}
	if k := x.Free(len(c19Calls) + 1); k < len(c19Calls) {
		is = append(is, c19Calls[k])
	} else {
		is = append(is, a, a)
	}
	if !compatible(is) {
		x.Outcome = "incompatible"
		return
	}
	s := &schedule{Calls: is, Order: []int{0, 1, 2}[:len(is)], Sync: true}
	na, nb := solo(x, is[0]).Syncs[0], solo(x, is[1]).Syncs[0]
	if p := stepOf(x, min(na, 40), 40); p > 0 {
		low := x.Free(2) == 1
		s.Rev = x.Free(2) == 1
		s.Plan = []sched.Preempt{{Who: 0, At: p, To: 1, Low: low}}
		if q := stepOf(x, min(nb, 40), 40); q > 0 {
			to := 0
			if len(is) == 3 {
				to = 2
			}
			s.Plan = append(s.Plan, sched.Preempt{Who: 1, At: q, To: to, Low: low})
		}
	}
	r := checkSchedule(x, s)
	x.Outcome = fmt.Sprintf("%d preemptions", r.Happened)
	x.Validated(na + nb)
}

// c19Waiting runs a call whose callback waits until the other calls have ended, like the
// writer of a pipe.
func c19Waiting(x *explore.X) {
	u := callbackUses[x.Free(len(callbackUses))]
	at := 1 + x.Free(3)
	k := x.Free(len(c19Calls) + len(callbackUses))
	file := x.Free(2)
	want := u.run(builtWorld(), 1, func(int) {})
	w := builtWorld()
	var got, got2, want2 string
	fs := []func(){func() {
		got = u.run(w, 1, func(n int) {
			if n == at {
				sched.Patient()
			}
		})
	}}
	name := ""
	if k < len(c19Calls) {
		c := pool[c19Calls[k]]
		if c.file == 1 && c.expands {
			x.Outcome = "incompatible"
			return
		}
		name = c.name
		want2 = fresh(x, c19Calls[k], false).Result
		fs = append(fs, func() { got2, _ = c.run(w) })
	} else {
		// Both wait.
		v := callbackUses[k-len(c19Calls)]
		name = v.name + ", which waits, too"
		want2 = v.run(builtWorld(), 1+file, func(int) {})
		fs = append(fs, func() { got2 = v.run(w, 1+file, func(n int) { sched.Patient() }) })
	}
	order := []int{0, 1}
	if file == 1 {
		order = []int{1, 0}
	}
	x.Describe(func() string {
		return fmt.Sprintf("thread 0: %s file 1, where callback %d waits for the other thread; thread 1: %s; order %v", u.name, at, name, order)
	})
	x.Key(u.name, fmt.Sprint(at), name, fmt.Sprint(file))
	runtime.GOMAXPROCS(1)
	_, _, _, ps := sched.Run(fs, order, nil, false, false)
	for i, p := range ps {
		if p != nil {
			x.Fail("thread %d panics: %v", i, p)
		}
	}
	same(x, "result of "+u.name+" with a callback that waits", got, want)
	same(x, "result of "+name, got2, want2)
}

// c19Goroutines also preempts and resumes the goroutines that the calls start.
func c19Goroutines(x *explore.X, tier string) {
	a := c19Calls[x.Free(len(c19Calls))]
	if len(solo(x, a).Steps) < 2 {
		x.Outcome = "starts no goroutines"
		return
	}
	is := []int{a}
	// Alone, with itself, with another call.
	switch k := x.Free(6); k {
	case 0:
	case 1:
		is = append(is, a)
	default:
		is = append(is, c19Calls[[]int{23, 24, 11, 20}[k-2]])
	}
	if !compatible(is) {
		x.Outcome = "incompatible"
		return
	}
	s := &schedule{Calls: is, Order: []int{0, 1}[:len(is)], Sync: x.Free(2) == 1}
	// Measured once for all plans.
	base := runSchedule(&schedule{Calls: is, Order: s.Order, Sync: s.Sync}, builtWorld())
	counts := base.Steps
	if s.Sync {
		counts = base.Syncs
	}
	n := min(len(counts), 5)
	if n < 2 {
		return
	}
	low := x.Free(2) == 1
	s.Rev = x.Free(2) == 1
	for k := 0; k < 2; k++ {
		who := x.Free(n)
		at := stepOf(x, min(counts[who], 400), pick(tier, 12, 60))
		if at == 0 {
			break
		}
		s.Plan = append(s.Plan, sched.Preempt{Who: who, At: at, To: (who + 1 + x.Free(n-1)) % n, Low: low})
	}
	r := checkSchedule(x, s)
	x.Outcome = fmt.Sprintf("%d threads, %d preemptions", len(r.Steps), r.Happened)
}

// ColdRun runs one schedule in this process, which has done nothing before.
func ColdRun(b []byte) interface{} {
	var s schedule
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	var w *world
	for _, c := range s.Calls {
		if pool[c].file >= 0 && w == nil {
			w = newWorld()
		}
	}
	if w == nil {
		w = &world{}
	}
	return runSchedule(&s, w)
}

// c19Cold runs a schedule in a process of its own, where everything happens for the
// first time.
func c19Cold(x *explore.X, tier string) {
	a := x.Free(len(c19Calls))
	b := a
	p := 0
	same := x.Free(2) == 1
	ca := c19Calls[a]
	if same {
		if !compatible([]int{ca, ca}) {
			x.Outcome = "incompatible"
			return
		}
		p = stepOf(x, solo(x, ca).Steps[0], pick(tier, 40, 400))
	} else {
		b = x.Free(len(c19Calls))
	}
	s := &schedule{Calls: []int{ca, c19Calls[b]}, Order: []int{0, 1}}
	if p > 0 {
		s.Plan = []sched.Preempt{{Who: 0, At: p, To: 1, Low: true}}
	}
	if !compatible(s.Calls) {
		x.Outcome = "incompatible"
		return
	}
	x.Describe(func() string { return "in a fresh process: " + s.String() })
	x.Key("cold", s.String())
	in, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Args[0], "-mode", "cold", "-prop", "C19", "-root", Root, "-in", string(in))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Run()
	timer.Stop()
	if err != nil {
		x.Fail("the process ends with %v: %s", err, clip(errb.String()))
	}
	var r ranResult
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		panic(fmt.Sprintf("%v: %s", err, out.String()))
	}
	verifyRun(x, s, &r)
	x.Outcome = fmt.Sprintf("%d preemptions", r.Happened)
}
