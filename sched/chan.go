package sched

import (
	"runtime"
	"time"
	"unsafe"
)

// Hidden runs f without the race detector seeing its synchronisation.
//
//go:norace
func Hidden(f func()) {
	raceOff()
	f()
	raceOn()
}

// waiters counts the threads parked in a channel operation on obj.
//
//go:norace
func waiters(obj uintptr) int {
	e := ex
	n := 0
	if e == nil {
		return 0
	}
	for i := 0; i < e.nth; i++ {
		if e.th[i].state == stExternal && e.th[i].obj == obj {
			n++
		}
	}
	return n
}

// try repeats op for a moment while a partner is about to park on the channel, and then waits until the partner it
// released is ready, so that executions are repeatable.
func try(obj uintptr, op func() bool) bool {
	w := waiters(obj)
	ok := op()
	for end := time.Now().Add(time.Millisecond); !ok && w > 0 && time.Now().Before(end); {
		runtime.Gosched()
		ok = op()
	}
	if ok && w > 0 {
		for end := time.Now().Add(5 * time.Millisecond); waiters(obj) >= w && time.Now().Before(end); {
			runtime.Gosched()
		}
	}
	return ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	if !Controlled() {
		ch <- v
		return
	}
	obj := *(*uintptr)(unsafe.Pointer(&ch))
	if !try(obj, func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}) {
		ExtBegin(obj)
		ch <- v
		ExtEnd()
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !Controlled() {
		close(ch)
		return
	}
	try(*(*uintptr)(unsafe.Pointer(&ch)), func() bool { close(ch); return true })
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var v T
	var ok bool
	if !Controlled() {
		v, ok = <-ch
		return v, ok
	}
	obj := *(*uintptr)(unsafe.Pointer(&ch))
	if try(obj, func() bool {
		select {
		case v, ok = <-ch:
			return true
		default:
			return false
		}
	}) {
		return v, ok
	}
	ExtBegin(obj)
	v, ok = <-ch
	ExtEnd()
	return v, ok
}
