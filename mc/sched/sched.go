// Package sched is a cooperative scheduler for goroutines whose code calls P before
// every statement. Exactly one of the controlled goroutines runs at a time, and control
// passes between them only where the plan says so, where one is blocked, and where one
// ends. The handover is invisible to the race detector (no happens-before edges), so that
// in a build with -race every explored schedule is also checked for data races.
//
// The main goroutine is thread 0 and runs from the start. Run makes it wait for the
// threads it starts. Goroutines started by the code under test (with Go) are threads, too;
// those which are blocked when Run ends stay for the next one.
package sched

import (
	"fmt"
	"os"
	"runtime"
	"sync"
)

// Preempt is a planned preemption: thread Who is stopped before its At-th step (from 1)
// and thread To goes on. Threads are numbered from 0 in the order given to Run; the
// goroutines started by the code follow, the older ones first. With Low, it goes on only
// when every other thread has ended or is blocked.
type Preempt struct {
	Who, At, To int
	Low         bool
}

const (
	maxThreads = 4096
	maxLogical = 64
)

const (
	free = iota
	live
	ended   // a thread of the current run that has ended
	waiting // the main thread during a run
)

var (
	turn  int // the thread that runs
	state [maxThreads]int
	high  = 1 // all threads have numbers below this

	// The current run.
	running  bool
	n        int // threads given to Run
	known    int // threads with a number
	thread   [maxLogical]int
	number   [maxThreads]int // in the plan, or -1
	steps    [maxLogical]int
	syncs    [maxLogical]int
	order    [maxLogical]int
	left     int
	plan     []Preempt
	next     int
	onSync   bool // plan positions count synchronisation operations instead of steps
	draining bool // only goroutines started by the code are left
	low      [maxThreads]bool
	patient  [maxThreads]bool
	reverse  bool // the order in which threads go on when one is blocked

	idle   int // Blocked calls without progress
	streak int // Sync calls without a change of threads
)

func init() { state[0] = live; number[0] = -1 }

// P is a scheduling point.
//
//go:norace
func P() {
	if !running {
		idle = 0
		return
	}
	idle = 0
	me := turn
	k := number[me]
	if k < 0 {
		return
	}
	steps[k]++
	if !onSync {
		maybe(me, k, steps[k])
	}
}

// Sync is called before every synchronisation operation.
//
//go:norace
func Sync() {
	me := turn
	if streak++; streak > 1000 {
		// A loop that waits for something.
		rotate(me, true)
	}
	if !running {
		return
	}
	k := number[me]
	if k < 0 {
		return
	}
	syncs[k]++
	if onSync {
		maybe(me, k, syncs[k])
	}
}

//go:norace
func maybe(me, k, at int) {
	if next < len(plan) && plan[next].Who == k && plan[next].At == at {
		to := plan[next].To
		next++
		if to < known {
			if t := thread[to]; t != me && state[t] == live {
				low[me] = plan[next-1].Low
				give(me, t)
			}
		}
	}
}

//go:norace
func give(me, to int) {
	turn = to
	streak = 0
	low[to] = false
	await(me)
}

//go:norace
func await(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

// rotate lets the next live thread go on, if there is one; a low one only if all is true
// or if the running one has ended.
//
//go:norace
func rotate(me int, all bool) {
	streak = 0
	for k := 1; k < high; k++ {
		t := (me + k) % high
		if reverse {
			t = (me + high - k) % high
		}
		if state[t] == live && (all || !low[t]) {
			give(me, t)
			return
		}
	}
}

//go:norace
func lives() (k int) {
	for t := 0; t < high; t++ {
		if state[t] == live {
			k++
		}
	}
	return k
}

// Blocked is called when the running goroutine cannot proceed: another one goes on.
//
//go:norace
func Blocked() {
	me := turn
	if idle++; idle > 4*lives() {
		if draining {
			idle = 0
			draining = false
			state[0] = live
			give(me, 0)
			return
		}
		fmt.Fprintln(os.Stderr, "deadlock: every goroutine is blocked")
		os.Exit(95)
	}
	rotate(me, idle > lives())
}

// Patient waits until every other thread given to Run has ended or waits so, too.
//
//go:norace
func Patient() {
	me := turn
	if !running || number[me] < 0 {
		return
	}
	patient[me] = true
	for {
		others := false
		for i := 0; i < n; i++ {
			if t := thread[i]; t != me && state[t] == live && !patient[t] {
				others = true
			}
		}
		if !others {
			break
		}
		Blocked()
	}
	Progress()
	patient[me] = false
}

// Progress is called when a blocking operation has succeeded.
//
//go:norace
func Progress() { idle = 0 }

//go:norace
func enlist() int {
	for t := 1; t < maxThreads; t++ {
		if state[t] == free {
			state[t] = live
			number[t] = -1
			if t >= high {
				high = t + 1
			}
			return t
		}
	}
	fmt.Fprintln(os.Stderr, "too many goroutines")
	os.Exit(96)
	return 0
}

//go:norace
func numbered(t int) {
	if running && known < maxLogical {
		number[t] = known
		thread[known] = t
		steps[known], syncs[known] = 0, 0
		known++
	}
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	Sync()
	t := enlist()
	numbered(t)
	go func() {
		await(t)
		defer end(t)
		f()
	}()
	Sync()
}

//go:norace
func end(me int) {
	idle, streak = 0, 0
	if k := number[me]; running && k >= 0 && k < n {
		state[me] = ended
		left--
	} else {
		state[me] = free
	}
	if running && left > 0 {
		for pass := 0; pass < 2; pass++ {
			for k := 0; k < known; k++ {
				i := k
				if k < n {
					i = order[k]
				} else if pass == 1 {
					break
				}
				if t := thread[i]; t != me && state[t] == live && (pass == 1 || !low[t]) {
					low[t] = false
					turn = t
					return
				}
			}
		}
	}
	if running && left == 0 {
		draining = true
	}
	for k := 1; k <= high; k++ {
		if t := (me + k) % high; state[t] == live {
			turn = t
			return
		}
	}
	draining = false
	state[0] = live
	turn = 0
}

//go:norace
func start(fs int, ord []int, p []Preempt, sync, rev bool) {
	reverse = rev
	for t := range low {
		low[t], patient[t] = false, false
	}
	n, plan, next, idle, streak, onSync = fs, p, 0, 0, 0, sync
	known, left, draining = 0, fs, false
	old := high
	for i := 0; i < fs; i++ {
		t := enlist()
		thread[i], number[t] = t, i
		steps[i], syncs[i] = 0, 0
		order[i] = ord[i]
	}
	known = fs
	running = true
	for t := 1; t < old; t++ {
		if state[t] == live && (number[t] < 0 || number[t] >= fs || thread[number[t]] != t) {
			numbered(t)
		}
	}
	state[0] = waiting
	turn = thread[order[0]]
}

//go:norace
func stop() (used int, total, nsync []int) {
	await(0)
	running = false
	for i := 0; i < known; i++ {
		total = append(total, steps[i])
		nsync = append(nsync, syncs[i])
	}
	for t := 1; t < high; t++ {
		number[t] = -1
		if state[t] == ended {
			state[t] = free
		}
	}
	for high > 1 && state[high-1] == free {
		high--
	}
	return next, total, nsync
}

//go:norace
func slot(i int) int { return thread[i] }

// Run runs the functions as controlled goroutines, in the order given when they are not
// preempted, and returns how many planned preemptions happened, how many steps each took
// and how many synchronisation operations (those of the goroutines they started follow).
// panics holds what they panicked with.
func Run(fs []func(), ord []int, p []Preempt, onSync, rev bool) (happened int, steps, syncs []int, panics []interface{}) {
	var wg sync.WaitGroup
	panics = make([]interface{}, len(fs))
	wg.Add(len(fs))
	start(len(fs), ord, p, onSync, rev)
	for i, f := range fs {
		i, f, t := i, f, slot(i)
		go func() {
			await(t)
			defer end(t)
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[i] = e
				}
			}()
			f()
		}()
	}
	wg.Wait()
	happened, steps, syncs = stop()
	return happened, steps, syncs, panics
}
