// Package vsync stands in for package sync in code under controlled scheduling: blocking
// operations let another controlled goroutine go on.
package vsync

import (
	"sync"
	"sync/atomic"

	"verif/mc/sched"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	sched.Sync()
	for !m.mu.TryLock() {
		sched.Blocked()
	}
	sched.Progress()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	sched.Sync()
}

func (m *Mutex) TryLock() bool {
	sched.Sync()
	return m.mu.TryLock()
}

type RWMutex struct {
	mu      sync.RWMutex
	writers int // waiting, they exclude new readers
}

//go:norace
func (m *RWMutex) waiting(d int) int { m.writers += d; return m.writers }

func (m *RWMutex) Lock() {
	sched.Sync()
	if !m.mu.TryLock() {
		m.waiting(1)
		for !m.mu.TryLock() {
			sched.Blocked()
		}
		m.waiting(-1)
	}
	sched.Progress()
}

func (m *RWMutex) RLock() {
	sched.Sync()
	for m.waiting(0) > 0 || !m.mu.TryRLock() {
		sched.Blocked()
	}
	sched.Progress()
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	sched.Sync()
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	sched.Sync()
}

func (m *RWMutex) TryLock() bool {
	sched.Sync()
	return m.mu.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	sched.Sync()
	return m.mu.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Sync()
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if atomic.LoadUint32(&o.done) == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

type item struct {
	v  interface{}
	mu *sync.Mutex
}

// Pool keeps everything, and gives back what was put last. As with sync.Pool, putting
// an object happens before getting it, and nothing else is ordered.
type Pool struct {
	New   func() interface{}
	items []item
}

//go:norace
func (p *Pool) push(i item) { p.items = append(p.items, i) }

//go:norace
func (p *Pool) pop() (i item, ok bool) {
	n := len(p.items)
	if n == 0 {
		return item{}, false
	}
	i = p.items[n-1]
	p.items = p.items[:n-1]
	return i, true
}

func (p *Pool) Put(v interface{}) {
	sched.Sync()
	if v == nil {
		return
	}
	i := item{v, new(sync.Mutex)}
	i.mu.Lock()
	i.mu.Unlock()
	p.push(i)
}

func (p *Pool) Get() interface{} {
	sched.Sync()
	i, ok := p.pop()
	if ok {
		i.mu.Lock()
		i.mu.Unlock()
		return i.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
