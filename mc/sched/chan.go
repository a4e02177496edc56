//go:build go1.24

package sched

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"unsafe"
	"weak"
)

// Channels. Blocking operations are made by polling. Unbuffered channels are made with
// one place in the buffer, and the sender waits until what it sent has been received.

type rendezvous struct {
	ch             uintptr
	alive          weak.Pointer[byte]
	sent, received int
	mu             sync.Mutex
}

const chanTable = 1 << 16

// unbuffered is a hash table of the channels that were made without places. It does not
// keep them from being collected.
var (
	unbuffered  [chanTable]*rendezvous
	unbufferedN int
)

//go:norace
func register(p unsafe.Pointer) {
	if unbufferedN++; unbufferedN > chanTable/2 {
		runtime.GC()
		old := unbuffered
		unbuffered = [chanTable]*rendezvous{}
		unbufferedN = 1
		for _, r := range old {
			if r != nil && r.alive.Value() != nil {
				enter(r)
				unbufferedN++
			}
		}
		if unbufferedN > chanTable/2 {
			fmt.Fprintln(os.Stderr, "too many channels")
			os.Exit(96)
		}
	}
	enter(&rendezvous{ch: uintptr(p), alive: weak.Make((*byte)(p))})
}

//go:norace
func enter(r *rendezvous) {
	i := r.ch >> 4 % chanTable
	for unbuffered[i] != nil {
		i = (i + 1) % chanTable
	}
	unbuffered[i] = r
}

//go:norace
func lookup(p unsafe.Pointer) *rendezvous {
	if p == nil || unbufferedN == 0 {
		return nil
	}
	i := uintptr(p) >> 4 % chanTable
	for unbuffered[i] != nil {
		if r := unbuffered[i]; r.ch == uintptr(p) && unsafe.Pointer(r.alive.Value()) == p {
			return r
		}
		i = (i + 1) % chanTable
	}
	return nil
}

//go:norace
func (r *rendezvous) ticket() int { r.sent++; return r.sent }

//go:norace
func (r *rendezvous) took() { r.received++ }

//go:norace
func (r *rendezvous) pending(t int) bool { return r.received < t }

func (r *rendezvous) edge() { r.mu.Lock(); r.mu.Unlock() }

// Unbuffered registers a channel that was made with one place instead of none.
func Unbuffered[T any](ch chan T) chan T {
	register(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	return ch
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		Sync()
		r := lookup(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		for done := false; !done; {
			select {
			case ch <- v:
				done = true
			default:
				Blocked()
			}
		}
		Progress()
		if r != nil {
			for t := r.ticket(); r.pending(t); {
				Blocked()
			}
			Progress()
			r.edge()
		}
		Sync()
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	Sync()
	r := lookup(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	for {
		if r != nil {
			r.edge()
		}
		select {
		case v, ok = <-ch:
			Progress()
			if r != nil && ok {
				r.took()
			}
			Sync()
			return v, ok
		default:
		}
		Blocked()
	}
}
