package vsync

import (
	"sync"

	"verif/mc/sched"
)

// Map is sync.Map with scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	sched.Sync()
	return m.m.Load(k)
}

func (m *Map) Store(k, v interface{}) {
	sched.Sync()
	m.m.Store(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (actual interface{}, loaded bool) {
	sched.Sync()
	return m.m.LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k interface{}) (v interface{}, loaded bool) {
	sched.Sync()
	return m.m.LoadAndDelete(k)
}

func (m *Map) Delete(k interface{}) {
	sched.Sync()
	m.m.Delete(k)
}

func (m *Map) Swap(k, v interface{}) (old interface{}, loaded bool) {
	sched.Sync()
	return m.m.Swap(k, v)
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	sched.Sync()
	return m.m.CompareAndSwap(k, old, new)
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	sched.Sync()
	return m.m.CompareAndDelete(k, old)
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	sched.Sync()
	m.m.Range(f)
}

func (m *Map) Clear() {
	sched.Sync()
	m.m.Range(func(k, _ interface{}) bool { m.m.Delete(k); return true })
}

// WaitGroup is sync.WaitGroup whose Wait lets others go on.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) count(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	sched.Sync()
	w.wg.Add(d)
	w.count(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sched.Sync()
	for w.count(0) > 0 {
		sched.Blocked()
	}
	sched.Progress()
	w.wg.Wait()
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L Locker

	mu             sync.Mutex
	next, notified int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.next++; return c.next }

//go:norace
func (c *Cond) waits(t int) bool { return c.notified < t }

//go:norace
func (c *Cond) notify(all bool) {
	if all {
		c.notified = c.next
	} else if c.notified < c.next {
		c.notified++
	}
}

func (c *Cond) Wait() {
	sched.Sync()
	t := c.ticket()
	c.L.Unlock()
	for c.waits(t) {
		sched.Blocked()
	}
	sched.Progress()
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

func (c *Cond) wake(all bool) {
	sched.Sync()
	c.mu.Lock()
	c.mu.Unlock()
	c.notify(all)
	sched.Sync()
}

func (c *Cond) Signal() { c.wake(false) }

func (c *Cond) Broadcast() { c.wake(true) }
