// Package shimsync stands in for package sync in instrumented code: blocking goes through the scheduler, while the real
// primitives underneath give the race detector the real happens-before edges.
package shimsync

import (
	"sync"
	"unsafe"

	"verif.local/sched"
)

// Unchanged parts of package sync.
type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
	Cond   = sync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) obj() uintptr { return uintptr(unsafe.Pointer(m)) }

// Lock locks m.
func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		if !sched.BlockOn(m.obj()) {
			m.m.Lock()
			return
		}
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Release(m.obj())
}

// RWMutex is sync.RWMutex; a waiting writer keeps new readers out, as in the real one.
type RWMutex struct {
	m       sync.RWMutex
	writers int
}

func (m *RWMutex) obj() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *RWMutex) waiting(d int) bool {
	m.writers += d
	return m.writers > 0
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if m.m.TryLock() {
		return
	}
	if !sched.Controlled() {
		m.m.Lock()
		return
	}
	m.waiting(1)
	for !m.m.TryLock() {
		sched.BlockOn(m.obj())
	}
	m.waiting(-1)
	sched.Release(m.obj())
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks m.
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Release(m.obj())
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.m.RLock()
		return
	}
	for m.waiting(0) || !m.m.TryRLock() {
		sched.BlockOn(m.obj())
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool { return !m.waiting(0) && m.m.TryRLock() }

// RUnlock unlocks m.
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Release(m.obj())
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the reading side of m.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	w sync.WaitGroup
	n int
	m sync.Mutex
}

func (w *WaitGroup) obj() uintptr { return uintptr(unsafe.Pointer(w)) }

//go:norace
func (w *WaitGroup) add(d int) int {
	sched.Hidden(w.m.Lock)
	w.n += d
	n := w.n
	sched.Hidden(w.m.Unlock)
	return n
}

// Add adds d.
func (w *WaitGroup) Add(d int) {
	w.w.Add(d)
	if w.add(d) == 0 {
		sched.Release(w.obj())
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	for w.add(0) != 0 {
		if !sched.BlockOn(w.obj()) {
			break
		}
	}
	w.w.Wait()
}

// Once is sync.Once.
type Once struct {
	r    sync.Once
	busy bool
}

//go:norace
func (o *Once) set(b bool) { o.busy = b }

//go:norace
func (o *Once) running() bool { return o.busy }

// Do calls f at most once; others wait for it.
func (o *Once) Do(f func()) {
	for o.running() {
		if !sched.BlockOn(uintptr(unsafe.Pointer(o))) {
			break
		}
	}
	o.r.Do(func() {
		o.set(true)
		defer func() {
			o.set(false)
			sched.Release(uintptr(unsafe.Pointer(o)))
		}()
		f()
	})
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}
