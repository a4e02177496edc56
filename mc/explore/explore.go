// Package explore is a small stateless model checker: it enumerates, without
// repetition, every execution of a driver whose nondeterminism is expressed as
// calls to Choose and Free, up to a bound on the number of deviations (choices
// other than the default) per execution.
package explore

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Sub is one sub-exploration of a property: a driver and its bound.
type Sub struct {
	Name  string
	Bound int // maximal number of deviations per execution
	Run   func(x *X)
	Hang  time.Duration // an execution longer than this is a hang (default 30s)
	// Share is the part of the property's time this sub-exploration may use, relative
	// to the others (default 1). What a sub-exploration leaves goes to the later ones.
	Share int
	// Serial sub-explorations are run by one worker process.
	Serial bool
	// Split is the number of pending executions at which the workers divide the rest
	// among them (default 4096, or 200 after 200 executions).
	Split int
}

type point struct {
	n    int // number of alternatives
	free bool
}

// X is one execution.
type X struct {
	prefix  []uint16
	choices []uint16
	points  []point

	keys     []uint64
	desc     func() string
	known    []string
	diverged bool
	late     bool
	Outcome  string // free-form class of what was observed
	evals    uint64

	// Unkeyed makes Key do nothing: the execution stands for many inputs, which are counted
	// as comparisons only.
	Unkeyed bool
}

type failure struct{ msg string }

// Result is what an execution in a process of its own gives.
type Result struct {
	Failed  bool
	Late    bool // did not end in time
	Message string
	Outcome string
	Evals   uint64
	Keys    []uint64
	Known   []string
}

// RunApart runs the execution with these choices of a sub-exploration in a process of its
// own. Without it, Apart runs it in this process.
var RunApart func(sub string, choices []uint16) *Result

var current string

// Apart runs f, which makes no choices, in a process of its own, as the last part of the
// execution. If that does not end in time, the execution decides nothing: it may be that
// the code takes time that is not in proportion to the size of a large input, which is
// no violation.
func (x *X) Apart(f func()) {
	if RunApart == nil {
		f()
		return
	}
	r := RunApart(current, x.choices)
	if r.Late {
		x.Outcome, x.late = "(not decided in time)", true
		return
	}
	x.Outcome, x.evals = r.Outcome, r.Evals
	x.keys, x.known = append(x.keys, r.Keys...), append(x.known, r.Known...)
	if r.Failed {
		panic(failure{r.Message})
	}
}

// Result describes the execution.
func (x *X) Result(msg string, failed bool) *Result {
	return &Result{Failed: failed, Late: x.late, Message: msg, Outcome: x.Outcome, Evals: x.evals, Keys: x.keys, Known: x.known}
}

// Undecided ends the execution without an answer.
func (x *X) Undecided() {
	x.Outcome, x.late = "(not decided in time)", true
	panic(undecided{})
}

type undecided struct{}

// divergence means that an execution does not have the choices it had before: the code
// explored is not deterministic in a way the driver does not control. The execution is
// dropped, and the exploration is not exhaustive.
type divergence struct{}

// Choose returns a value in [0,n). 0 is the default, anything else a deviation.
func (x *X) Choose(n int) int { return x.choose(n, false) }

// Free returns a value in [0,n) without counting a deviation.
func (x *X) Free(n int) int { return x.choose(n, true) }

// Bool is Choose(2)==1.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

func (x *X) choose(n int, free bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: choose(%d)", n))
	}
	i := len(x.choices)
	v := 0
	if i < len(x.prefix) {
		v = int(x.prefix[i])
		if v >= n {
			panic(divergence{})
		}
	}
	if n > 1 || i < len(x.prefix) {
		x.choices = append(x.choices, uint16(v))
		x.points = append(x.points, point{n, free})
	} else {
		x.choices = append(x.choices, 0)
		x.points = append(x.points, point{1, free})
	}
	return v
}

// Key records the canonical form of a model state visited by this execution.
func (x *X) Key(parts ...string) {
	if x.Unkeyed {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	x.keys = append(x.keys, h.Sum64())
}

// Validated counts a comparison of the implementation with the model beyond the
// first one of the execution.
func (x *X) Validated(n int) { x.evals += uint64(n) }

// Describe sets the lazily evaluated description of the execution's input.
func (x *X) Describe(f func() string) { x.desc = f }

// Fail reports a violation and ends the execution.
func (x *X) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Listed are the ids of the findings recorded for the property being checked.
var Listed = map[string]bool{}

// Known reports that a recorded finding was observed. It is a violation if the
// finding is not listed.
func (x *X) Known(id string, format string, args ...interface{}) {
	if !Listed[id] {
		x.Fail(format, args...)
	}
	x.known = append(x.known, id)
}

// Choices returns the choices taken so far.
func (x *X) Choices() []uint16 { return x.choices }

// Violation is a failed execution.
type Violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Tier     string   `json:"tier"`
	Choices  []uint16 `json:"choices"`
	Cost     int      `json:"deviations"`
	Message  string   `json:"message"`
	Input    string   `json:"input"`
	Replays  string   `json:"replays,omitempty"`
	Result   *Result  `json:"result,omitempty"`
	// Worker and Workers identify the (deterministic) worker history, for violations
	// which need the executions before them.
	Worker  int  `json:"worker"`
	Workers int  `json:"workers"`
	History bool `json:"needs_history,omitempty"`
}

// Stats are the measured counts of an exploration.
type Stats struct {
	Executions  uint64            `json:"executions"`
	Transitions uint64            `json:"transitions"`
	Validated   uint64            `json:"validated"`
	Outcomes    map[string]uint64 `json:"outcomes"`
	ByCost      map[int]uint64    `json:"by_deviations"`
	Capped      bool              `json:"capped"`
	MaxLen      int               `json:"max_choices"`
	Longest     float64           `json:"longest_execution_s"`
	Samples     []string          `json:"samples"`
	Known       map[string]uint64 `json:"known"`
	KnownInput  map[string]string `json:"known_input"`
}

// NewStats returns empty statistics.
func NewStats() *Stats {
	return &Stats{Outcomes: map[string]uint64{}, ByCost: map[int]uint64{}, Known: map[string]uint64{}, KnownInput: map[string]string{}}
}

// Add accumulates t into s.
func (s *Stats) Add(t *Stats) {
	s.Executions += t.Executions
	s.Transitions += t.Transitions
	s.Validated += t.Validated
	for k, v := range t.Outcomes {
		s.Outcomes[k] += v
	}
	for k, v := range t.ByCost {
		s.ByCost[k] += v
	}
	for k, v := range t.Known {
		s.Known[k] += v
	}
	for k, v := range t.KnownInput {
		if old, ok := s.KnownInput[k]; !ok || len(v) < len(old) || (len(v) == len(old) && v < old) {
			s.KnownInput[k] = v
		}
	}
	if t.Longest > s.Longest {
		s.Longest = t.Longest
	}
	if t.MaxLen > s.MaxLen {
		s.MaxLen = t.MaxLen
	}
	s.Capped = s.Capped || t.Capped
	s.Samples = append(s.Samples, t.Samples...)
}

// Slot is a memory-mapped record of the execution a worker is in, which survives
// the death of the worker.
type Slot struct {
	mem []byte
}

// SlotSize is the size of a slot file.
const SlotSize = 1 << 20

// OpenSlot maps the slot file.
func OpenSlot(path string) (*Slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(SlotSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, SlotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slot{mem: mem}, nil
}

func (s *Slot) u32(i int) *uint32 { return (*uint32)(unsafe.Pointer(&s.mem[4*i])) }

// Set records the sub index and choice prefix of the execution about to start.
func (s *Slot) Set(sub int, prefix []uint16) {
	if s == nil {
		return
	}
	*s.u32(0) = 0
	n := len(prefix)
	if 2*n+16 > len(s.mem) {
		n = (len(s.mem) - 16) / 2
	}
	*s.u32(1) = uint32(sub)
	*s.u32(2) = uint32(n)
	for i := 0; i < n; i++ {
		s.mem[16+2*i] = byte(prefix[i])
		s.mem[16+2*i+1] = byte(prefix[i] >> 8)
	}
	*s.u32(0) = 1
}

// Clear records that no execution is running.
func (s *Slot) Clear() {
	if s != nil {
		*s.u32(0) = 0
	}
}

// Get returns the recorded execution, if one was running.
func (s *Slot) Get() (sub int, prefix []uint16, ok bool) {
	if *s.u32(0) != 1 {
		return 0, nil, false
	}
	sub = int(*s.u32(1))
	n := int(*s.u32(2))
	for i := 0; i < n; i++ {
		prefix = append(prefix, uint16(s.mem[16+2*i])|uint16(s.mem[16+2*i+1])<<8)
	}
	return sub, prefix, true
}

// RunOne runs a single execution and returns its failure, if any.
func RunOne(run func(*X), prefix []uint16) (x *X, msg string, failed bool) {
	x = &X{prefix: prefix}
	defer func() {
		if e := recover(); e != nil {
			failed = true
			if f, ok := e.(failure); ok {
				msg = f.msg
				return
			}
			if _, ok := e.(undecided); ok {
				failed = false
				return
			}
			if _, ok := e.(divergence); ok {
				x.diverged, failed = true, false
				return
			}
			st := debug.Stack()
			if len(st) > 6000 {
				st = st[:6000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(st))
		}
	}()
	run(x)
	return x, "", false
}

func trimStack(st []byte) []byte {
	// Drop addresses, which differ between runs.
	var out [][]byte
	for _, l := range bytes.Split(st, []byte("\n")) {
		if i := bytes.Index(l, []byte(" +0x")); i >= 0 {
			l = l[:i]
		}
		if bytes.HasPrefix(l, []byte("goroutine ")) {
			continue
		}
		if i := bytes.LastIndexByte(l, '('); i > 0 && bytes.HasSuffix(l, []byte(")")) && !bytes.HasPrefix(l, []byte("\t")) {
			l = l[:i]
		}
		out = append(out, l)
	}
	return bytes.Join(out, []byte("\n"))
}

// Description returns the description of the execution's input.
func (x *X) Description() (s string) {
	if x.desc == nil {
		return ""
	}
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("(no description: %v)", e)
		}
	}()
	return x.desc()
}

func (x *X) cost(upto int) int {
	c := 0
	for i := 0; i < upto; i++ {
		if !x.points[i].free && x.choices[i] != 0 {
			c++
		}
	}
	return c
}

// Worker explores its share of a sub-exploration.
type Worker struct {
	Property string
	Tier     string
	Index    int // of this worker
	N        int // number of workers
	Deadline time.Time
	Slot     *Slot
	SubIndex int
	Keys     map[uint64]struct{}
	MaxKeys  int
	Start    *int64 // unix nano of the current execution's start, for the watchdog
}

type pending struct {
	prefix []uint16
	cost   int
}

const splitAt = 4096

// Explore enumerates the executions of sub that belong to this worker.
func (w *Worker) Explore(sub *Sub) (*Stats, []Violation) {
	st := NewStats()
	current = sub.Name
	var viols []Violation
	// One bucket per cost; lower costs first, so that the first counterexample found
	// has the fewest deviations.
	buckets := make([][]pending, sub.Bound+1)
	buckets[0] = []pending{{nil, 0}}
	npend := 1
	split := w.N <= 1
	shared := !split // in the shared phase, every worker runs the same executions
	pop := func() (pending, bool) {
		for c := range buckets {
			n := len(buckets[c])
			if n == 0 {
				continue
			}
			npend--
			if shared { // breadth first
				p := buckets[c][0]
				buckets[c] = buckets[c][1:]
				return p, true
			}
			p := buckets[c][n-1]
			buckets[c] = buckets[c][:n-1]
			return p, true
		}
		return pending{}, false
	}
	for iter := 0; ; iter++ {
		if shared && (npend >= splitAt || sub.Split > 0 && npend >= sub.Split || iter >= 200 && npend >= 200) {
			shared = false
			i := 0
			for c := range buckets {
				var mine []pending
				for _, p := range buckets[c] {
					if i%w.N == w.Index {
						mine = append(mine, p)
					}
					i++
				}
				// Depth first from the simplest one.
				for a, b := 0, len(mine)-1; a < b; a, b = a+1, b-1 {
					mine[a], mine[b] = mine[b], mine[a]
				}
				buckets[c] = mine
			}
			npend = 0
			for c := range buckets {
				npend += len(buckets[c])
			}
		}
		p, ok := pop()
		if !ok {
			break
		}
		if (iter%16 == 0 || sub.Hang != 0) && !w.Deadline.IsZero() && time.Now().After(w.Deadline) {
			st.Capped = true
			break
		}
		credit := !shared || w.Index == 0
		w.Slot.Set(w.SubIndex, p.prefix)
		if w.Start != nil {
			atomic.StoreInt64(w.Start, time.Now().UnixNano())
		}
		began := time.Now()
		x, msg, failed := RunOne(sub.Run, p.prefix)
		if d := time.Since(began).Seconds(); d > st.Longest {
			st.Longest = d
		}
		if x.late {
			st.Capped = true
		}
		if w.Start != nil {
			atomic.StoreInt64(w.Start, 0)
		}
		w.Slot.Clear()
		if len(x.choices) < len(p.prefix) && !failed {
			x.diverged = true
		}
		if x.diverged {
			st.Capped = true
			st.Outcomes["(not deterministic)"]++
			continue
		}
		if failed && credit {
			v := Violation{Property: w.Property, Sub: sub.Name, Tier: w.Tier, Choices: append([]uint16{}, x.choices...),
				Cost: x.cost(len(x.choices)), Message: msg, Input: x.Description(), Worker: w.Index, Workers: w.N}
			same := 0
			for k := 0; k < 5; k++ {
				_, m, f := RunOne(sub.Run, v.Choices)
				if f && m == msg {
					same++
				}
			}
			v.Replays = fmt.Sprintf("%d/5 identical in-process replays", same)
			viols = append(viols, v)
			if len(viols) >= 8 {
				st.Capped = true
				break
			}
		}
		if credit {
			st.Executions++
			st.ByCost[p.cost]++
			st.Validated += 1 + x.evals
			if x.Outcome != "" {
				st.Outcomes[x.Outcome]++
			}
			for _, k := range x.known {
				st.Known[k]++
				d := x.Description()
				if old, ok := st.KnownInput[k]; !ok || len(d) < len(old) {
					st.KnownInput[k] = d
				}
			}
			if len(x.choices) > st.MaxLen {
				st.MaxLen = len(x.choices)
			}
			if w.Keys != nil && len(w.Keys) < w.MaxKeys {
				for _, k := range x.keys {
					w.Keys[k] = struct{}{}
				}
			}
			if n := st.Executions; n == 2 || n == 40 || n == 3000 || n == 50000 {
				if d := x.Description(); d != "" && len(st.Samples) < 4 {
					st.Samples = append(st.Samples, d)
				}
			}
		}
		if failed {
			continue
		}
		// Branch at every later choice point.
		for i := len(p.prefix); i < len(x.choices); i++ {
			pt := x.points[i]
			c := x.cost(i)
			if !pt.free {
				c++
			}
			if c > sub.Bound {
				continue
			}
			for alt := pt.n - 1; alt >= 1; alt-- {
				np := make([]uint16, i+1)
				copy(np, x.choices[:i])
				np[i] = uint16(alt)
				buckets[c] = append(buckets[c], pending{np, c})
				npend++
				if credit {
					st.Transitions++
				}
			}
		}
	}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Cost != viols[j].Cost {
			return viols[i].Cost < viols[j].Cost
		}
		return len(viols[i].Input) < len(viols[j].Input)
	})
	return st, viols
}

// WriteJSON writes v to path.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
