// Package sched runs the goroutines of instrumented code one at a time and enumerates their interleavings.
//
// Instrumented code calls P before every statement. During an execution exactly one registered thread holds the token;
// at each point the explorer may hand the token to another enabled thread (a preemption when the holder could go on).
// Hand-offs are hidden from the race detector, so that it sees only the synchronisation of the code under test.
package sched

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"
)

const (
	stReady = iota
	stBlocked
	stExternal // blocked in something the scheduler does not control
	stDone
)

const maxThreads = 64

type thread struct {
	id     int
	g      uintptr
	goid   int64
	state  int
	obj    uintptr
	wake   chan struct{}
	visits []uint32 // per location: execution number and count
}

type decision struct {
	n, chosen int
	preempt   bool // option 0 is the running thread: any other costs one preemption
	loc       uint32
	tid       int
}

// exec is the state of the running execution (only one at a time in a process).
type exec struct {
	mu       sync.Mutex
	th       [maxThreads]*thread
	nth      int
	cur      *thread
	steps    uint64
	budget   int
	used     int
	visitCap uint32
	quantum  int
	tick     int
	epoch    uint32
	prefix   []int
	trace    []decision
	ntrace   int
	diverged int
	over     bool
	ended    bool
	done     chan struct{}
	dead     string
	kids     sync.WaitGroup
}

// Stamp is a logical clock of the running execution, invisible to the race detector.
//
//go:norace
func Stamp() uint64 {
	clock++
	return clock
}

var clock uint64

const numLocs = 1 << 17

var (
	active bool
	ex     *exec
	epochs uint32
	visits [maxThreads][]uint32
)

func getg() uintptr

// P is the point before a statement.
//
//go:norace
func P(loc uint32) {
	if !active {
		return
	}
	point(loc)
}

//go:norace
func point(loc uint32) {
	e := ex
	if e == nil {
		return
	}
	t := e.cur
	if t == nil || t.g != getg() {
		t = e.enter(getg())
		if t == nil {
			return
		}
	}
	e.steps++
	if e.quantum > 0 {
		if e.tick++; e.tick%e.quantum == 0 {
			e.turn(t)
		}
		return
	}
	if e.used >= e.budget {
		return
	}
	if e.visitCap > 0 {
		v := &t.visits[loc%numLocs]
		if *v>>8 != e.epoch {
			*v = e.epoch << 8
		}
		if *v&0xff >= e.visitCap {
			return
		}
		*v++
	}
	e.choose(t, loc, true)
}

// turn gives the next thread its turn.
//
//go:norace
func (e *exec) turn(t *thread) {
	for i := 1; i < e.nth; i++ {
		if o := e.th[(t.id+i)%e.nth]; o.state == stReady {
			e.used++
			e.handTo(t, o)
			return
		}
	}
}

// choose picks who goes on; t is the token holder.
//
//go:norace
func (e *exec) choose(t *thread, loc uint32, canStay bool) {
	n := 0
	var opts [maxThreads]*thread
	if canStay {
		opts[0] = t
		n = 1
	}
	for i := 0; i < e.nth; i++ {
		if o := e.th[i]; o != t && o.state == stReady {
			opts[n] = o
			n++
		}
	}
	if n == 0 {
		e.none(t)
		return
	}
	k := 0
	if n > 1 {
		k = e.decide(n, canStay, loc, t.id)
	}
	if opts[k] == t {
		return
	}
	if canStay {
		e.used++
	}
	e.handTo(t, opts[k])
}

//go:norace
func (e *exec) decide(n int, preempt bool, loc uint32, tid int) int {
	i := e.ntrace
	if i >= len(e.trace) {
		e.over = true
		return 0
	}
	k := 0
	if i < len(e.prefix) {
		k = e.prefix[i]
		if k >= n {
			e.diverged++
			k = 0
		}
	}
	d := &e.trace[i]
	d.n, d.chosen, d.preempt, d.loc, d.tid = n, k, preempt, loc, tid
	e.ntrace++
	return k
}

// handTo gives the token to o and waits until t has it again (unless t is done or external).
//
//go:norace
func (e *exec) handTo(t, o *thread) {
	wait := t.state == stReady || t.state == stBlocked
	w := t.wake
	e.cur = o
	raceOff()
	o.wake <- struct{}{}
	if wait {
		<-w
	}
	raceOn()
}

// none: t cannot go on and nobody else can now.
//
//go:norace
func (e *exec) none(t *thread) {
	raceOff()
	e.mu.Lock()
	ext, alive := 0, 0
	for i := 0; i < e.nth; i++ {
		switch e.th[i].state {
		case stExternal:
			ext++
			alive++
		case stBlocked:
			alive++
		case stReady:
			alive++
		}
	}
	// an external thread may have become ready meanwhile
	for i := 0; i < e.nth; i++ {
		if o := e.th[i]; o != t && o.state == stReady {
			e.mu.Unlock()
			raceOn()
			e.handTo(t, o)
			return
		}
	}
	e.cur = nil
	if alive == 0 || ext == 0 {
		if alive > 0 && e.dead == "" {
			e.dead = "deadlock: every goroutine waits"
		}
		e.end()
	}
	e.mu.Unlock()
	if t.state == stBlocked {
		<-t.wake
	}
	raceOn()
}

// end wakes the harness; the caller holds mu.
//
//go:norace
func (e *exec) end() {
	if !e.ended {
		e.ended = true
		close(e.done)
	}
}

// enter is called by a goroutine that runs instrumented code without holding the token.
//
//go:norace
func (e *exec) enter(g uintptr) *thread {
	raceOff()
	e.mu.Lock()
	if e != ex || e.dead != "" {
		e.mu.Unlock()
		raceOn()
		return nil
	}
	var t *thread
	for i := 0; i < e.nth; i++ {
		if e.th[i].g == g && e.th[i].state != stDone {
			t = e.th[i]
		}
	}
	if t == nil {
		t = e.add()
		if t == nil {
			e.mu.Unlock()
			raceOn()
			return nil
		}
		t.g, t.goid = g, goid()
	}
	t.state = stReady
	if e.cur == nil {
		e.cur = t
		e.mu.Unlock()
		raceOn()
		return t
	}
	if e.cur == t {
		e.mu.Unlock()
		raceOn()
		return t
	}
	e.mu.Unlock()
	<-t.wake
	raceOn()
	return t
}

//go:norace
func (e *exec) add() *thread {
	if e.nth >= maxThreads {
		e.over = true
		return nil
	}
	t := &thread{id: e.nth, wake: make(chan struct{}, 1)}
	if e.visitCap > 0 {
		if visits[t.id] == nil {
			visits[t.id] = make([]uint32, numLocs)
		}
		t.visits = visits[t.id]
	}
	e.th[e.nth] = t
	e.nth++
	return t
}

// me is the calling thread when it holds the token of the running execution.
//
//go:norace
func me() (*exec, *thread) {
	if !active {
		return nil, nil
	}
	e := ex
	if e == nil {
		return nil, nil
	}
	t := e.cur
	if t == nil || t.g != getg() {
		t = e.enter(getg())
	}
	if t == nil {
		return nil, nil
	}
	return e, t
}

// Controlled tells whether the caller is a thread of the running execution.
//
//go:norace
func Controlled() bool {
	_, t := me()
	return t != nil
}

// BlockOn parks the calling thread until Release(obj); it returns false outside an execution.
//
//go:norace
func BlockOn(obj uintptr) bool {
	e, t := me()
	if t == nil {
		return false
	}
	t.state, t.obj = stBlocked, obj
	e.choose(t, 0, false)
	return true
}

// Release makes the threads parked on obj ready.
//
//go:norace
func Release(obj uintptr) {
	e, t := me()
	if t == nil {
		return
	}
	for i := 0; i < e.nth; i++ {
		if o := e.th[i]; o.state == stBlocked && o.obj == obj {
			o.state = stReady
		}
	}
}

// ExtBegin releases the token before an operation that may block outside the scheduler's control; ExtEnd follows it.
//
//go:norace
func ExtBegin(obj uintptr) bool {
	e, t := me()
	if t == nil {
		return false
	}
	raceOff()
	e.mu.Lock()
	t.state, t.obj = stExternal, obj
	e.mu.Unlock()
	raceOn()
	e.choose(t, 0, false)
	return true
}

// ExtEnd takes the token again.
//
//go:norace
func ExtEnd() { _, _ = me() }

// Go starts a goroutine of the code under test.
func Go(f func()) {
	e, _ := me()
	if e == nil {
		go f()
		return
	}
	t := register(e)
	if t == nil {
		go f()
		return
	}
	e.kids.Add(1)
	go func() {
		defer e.kids.Done()
		run(e, t, f)
	}()
}

//go:norace
func register(e *exec) *thread {
	raceOff()
	e.mu.Lock()
	t := e.add()
	e.mu.Unlock()
	raceOn()
	return t
}

//go:norace
func run(e *exec, t *thread, f func()) {
	raceOff()
	t.g, t.goid = getg(), goid()
	<-t.wake
	raceOn()
	defer finish(e, t)
	f()
}

//go:norace
func finish(e *exec, t *thread) {
	// the token may have been taken away while the thread was blocked elsewhere
	if e.cur != t {
		if e.enter(getg()) == nil {
			return
		}
	}
	t.state = stDone
	e.choose(t, 0, false)
}

// goid of the calling goroutine.
func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return parseGoid(b[:n])
}

func parseGoid(b []byte) int64 {
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	i := bytes.IndexByte(b, ' ')
	if i < 0 {
		return -1
	}
	v, _ := strconv.ParseInt(string(b[:i]), 10, 64)
	return v
}

// watch frees the token when its holder is blocked (or gone) outside the scheduler's control.
//
//go:norace
func watch(stop chan struct{}) {
	var lastE *exec
	var last uint64
	var lastT *thread
	since := time.Now()
	tick := time.NewTicker(5 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		e := ex
		if e == nil {
			lastE = nil
			continue
		}
		if e != lastE || e.steps != last || e.cur != lastT {
			lastE, last, lastT, since = e, e.steps, e.cur, time.Now()
			continue
		}
		if time.Since(since) > 20*time.Second {
			raceOff()
			e.mu.Lock()
			if e.dead == "" {
				e.dead = "no progress for 20 s"
				e.end()
			}
			e.mu.Unlock()
			raceOn()
			continue
		}
		t := e.cur
		if t == nil || t.goid == 0 {
			continue
		}
		st := goStatus(t.goid)
		if st == "run" || e.steps != last || e.cur != t {
			continue
		}
		e.seize(t, last, st == "")
	}
}

// seize takes the token from its holder, which is blocked elsewhere or gone.
//
//go:norace
func (e *exec) seize(t *thread, steps uint64, gone bool) {
	raceOff()
	defer raceOn()
	e.mu.Lock()
	if e.cur != t || e.steps != steps || t.state != stReady {
		e.mu.Unlock()
		return
	}
	t.state, t.obj = stExternal, 0
	if gone {
		t.state = stDone
	}
	var o *thread
	alive := 0
	for i := 0; i < e.nth; i++ {
		if e.th[i].state == stReady && o == nil {
			o = e.th[i]
		}
		if e.th[i].state != stDone {
			alive++
		}
	}
	e.cur = o
	if o == nil && alive == 0 {
		e.end()
	}
	e.mu.Unlock()
	if o != nil {
		o.wake <- struct{}{}
	}
}

var dump []byte

func goStatus(id int64) string {
	if dump == nil {
		dump = make([]byte, 4<<20)
	}
	b := dump[:runtime.Stack(dump, true)]
	for len(b) == len(dump) { // cut off
		dump = make([]byte, 2*len(dump))
		b = dump[:runtime.Stack(dump, true)]
	}
	k := []byte(fmt.Sprintf("goroutine %d [", id))
	i := bytes.Index(b, k)
	if i < 0 {
		return ""
	}
	b = b[i+len(k):]
	j := bytes.IndexAny(b, ",]")
	if j < 0 {
		return "run"
	}
	switch s := string(b[:j]); s {
	case "running", "runnable", "copystack", "preempted", "GC assist wait", "GC assist marking", "GC sweep wait":
		return "run"
	default:
		return s
	}
}

// Config bounds an exploration.
type Config struct {
	Preemptions int    // most preemptions of one execution
	VisitCap    uint32 // a thread is preempted only at its first VisitCap visits of a location (0: always)
	Quantum     int    // instead of that: the threads take turns of so many statements
	MaxExecs    int
	MaxDepth    int
	Deadline    time.Time
}

// Stats of an exploration.
type Stats struct {
	Execs, Diverged, Deepest int
	Steps                    uint64
	Switches                 int
	Truncated                bool
}

// Run is one execution's programme: threads start together; Check runs after all ended and returns a complaint or "".
type Run struct {
	Threads []func()
	Check   func() string
}

// Explore runs every interleaving within the bounds. It returns at the first complaint.
func Explore(c Config, mk func() *Run) (st Stats, complaint string, schedule []int) {
	if c.MaxDepth == 0 {
		c.MaxDepth = 1 << 16
	}
	trace := make([]decision, c.MaxDepth)
	stop, watching := make(chan struct{}), make(chan struct{})
	go func() { watch(stop); close(watching) }()
	defer func() { close(stop); <-watching }()
	var prefix []int
	for {
		r := mk()
		e := &exec{budget: c.Preemptions, visitCap: c.VisitCap, quantum: c.Quantum, prefix: prefix, trace: trace, done: make(chan struct{})}
		e.start(r)
		st.Execs++
		st.Steps += e.steps
		st.Switches += e.used
		st.Diverged += e.diverged
		if e.ntrace > st.Deepest {
			st.Deepest = e.ntrace
		}
		if e.over {
			st.Truncated = true
		}
		if e.dead != "" {
			return st, e.dead, choices(trace[:e.ntrace])
		}
		if m := r.Check(); m != "" {
			return st, m, choices(trace[:e.ntrace])
		}
		prefix = next(trace[:e.ntrace], c.Preemptions)
		if prefix == nil {
			return st, "", nil
		}
		if (c.MaxExecs > 0 && st.Execs >= c.MaxExecs) || (!c.Deadline.IsZero() && time.Now().After(c.Deadline)) {
			st.Truncated = true
			return st, "", nil
		}
	}
}

// Replay runs one schedule.
func Replay(c Config, mk func() *Run, schedule []int) string {
	r := mk()
	e := &exec{budget: c.Preemptions, visitCap: c.VisitCap, quantum: c.Quantum, prefix: schedule, trace: make([]decision, 1<<16), done: make(chan struct{})}
	e.start(r)
	if e.dead != "" {
		return e.dead
	}
	return r.Check()
}

func choices(tr []decision) []int {
	out := make([]int, len(tr))
	for i := range tr {
		out[i] = tr[i].chosen
	}
	return out
}

// next is the next unexplored branch in depth-first order.
func next(tr []decision, budget int) []int {
	used := make([]int, len(tr)+1)
	for i := range tr {
		used[i+1] = used[i]
		if tr[i].preempt && tr[i].chosen != 0 {
			used[i+1]++
		}
	}
	for i := len(tr) - 1; i >= 0; i-- {
		d := tr[i]
		if d.chosen+1 < d.n && (!d.preempt || used[i]+1 <= budget) {
			return append(choices(tr[:i]), d.chosen+1)
		}
	}
	return nil
}

func (e *exec) start(r *Run) {
	var wg sync.WaitGroup
	for _, f := range r.Threads {
		f := f
		t := register(e)
		wg.Add(1)
		go func() {
			// Done comes after the thread has left the execution: it is the only synchronisation with the harness.
			defer wg.Done()
			run(e, t, f)
		}()
	}
	e.launch()
	raceOff()
	<-e.done
	raceOn()
	e.halt()
	if e.dead == "" {
		wg.Wait()
		e.kids.Wait()
	}
}

//go:norace
func (e *exec) launch() {
	epochs = (epochs + 1) & 0xffffff
	e.epoch = epochs
	ex, active = e, true
	// the harness plays the part of a thread that ends at once
	t := &thread{id: -1, state: stDone}
	e.cur = t
	e.choose(t, 0, false)
}

//go:norace
func (e *exec) halt() { active, ex = false, nil }
