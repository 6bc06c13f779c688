// Package h is the exhaustive-enumeration engine shared by all property harnesses.
//
// A property harness registers one or more families of cases. A case is one bounded
// execution of the real vc-go code (an input shape, an operation history, a fault
// sequence, a schedule), together with the oracle that decides it. The engine runs every
// case of the enumeration, counts what it covered, turns failures (oracle failures,
// panics, crashes of the worker process, hangs) into violations and never samples.
package h

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one execution.
type Case struct {
	Key string
	Fn  func(t *T)
}

// Env is handed to a property's generator.
type Env struct {
	Tier string
	emit func(Case)
	// Notes are copied to the evidence file.
	mu    sync.Mutex
	notes map[string]any
	stop  func() bool
}

// Thorough tells if the deep tier is requested.
func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Pick returns q for quick and th for thorough.
func (e *Env) Pick(q, th int) int {
	if e.Thorough() {
		return th
	}
	return q
}

// Case emits one case.
func (e *Env) Case(key string, fn func(t *T)) { e.emit(Case{Key: key, Fn: fn}) }

// Casef emits one case with formatted key.
func (e *Env) Casef(fn func(t *T), format string, a ...any) {
	e.emit(Case{Key: fmt.Sprintf(format, a...), Fn: fn})
}

// Stopped reports that the deadline passed: generators may return early.
func (e *Env) Stopped() bool { return e.stop() }

// Note records a bound or a measured number in the evidence.
func (e *Env) Note(k string, v any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.notes[k] = v
}

// Prop is a registered property.
type Prop struct {
	ID      string
	Rule    string // how cases are made, what is a state
	Assume  []string
	Level   string
	Workers int // 0: NumCPU
	Gen     func(e *Env)
	Finish  func(e *Env) // after the last case
	// HangAfter bounds a single case; generous, only to detect divergence.
	HangAfter time.Duration
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	if p.HangAfter == 0 {
		p.HangAfter = 240 * time.Second
	}
	props[p.ID] = p
}

// Get finds a property.
func Get(id string) *Prop { return props[id] }

// IDs lists properties.
func IDs() []string {
	var out []string
	for k := range props {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// T is the per-case recorder.
type T struct {
	Key    string
	steps  int64
	states []string
	outc   string
	log    []string
	fails  []fail
	logged bool
}

type fail struct{ sig, msg string }

type failNow struct{}

// Step counts one executed operation (transition).
func (t *T) Step(format string, a ...any) {
	t.steps++
	if t.logged || len(t.log) < 40 {
		t.log = append(t.log, fmt.Sprintf(format, a...))
	}
}

// Steps counts n executed operations at once.
func (t *T) Steps(n int64) { t.steps += n }

// State records an abstract state reached (canonical form).
func (t *T) State(s string) { t.states = append(t.states, s) }

// Statef records an abstract state reached.
func (t *T) Statef(f string, a ...any) { t.states = append(t.states, fmt.Sprintf(f, a...)) }

// Outcome records what was observed.
func (t *T) Outcome(f string, a ...any) { t.outc = fmt.Sprintf(f, a...) }

// Fail records a violation of the property by this case and continues. The finding
// signature is the case key.
func (t *T) Fail(format string, a ...any) {
	t.fails = append(t.fails, fail{t.Key, fmt.Sprintf(format, a...)})
}

// Failf with sub-signature: signature is key + "#" + sub.
func (t *T) FailSub(sub, format string, a ...any) {
	t.fails = append(t.fails, fail{t.Key + "#" + sub, fmt.Sprintf(format, a...)})
}

// Fatal records a violation and stops the case.
func (t *T) Fatal(format string, a ...any) {
	t.Fail(format, a...)
	panic(failNow{})
}

// Failed reports if the case failed already.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Must stops the case with a harness failure (a step that the property requires to succeed).
func (t *T) Must(err error, what string) {
	if err != nil {
		t.Fatal("%s: unexpected error: %v", what, err)
	}
}

// Violation is what goes into the replay file.
type Violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key"`
	Sig      string   `json:"sig"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Known    string   `json:"known,omitempty"`
}

// Result is written by the worker for the parent.
type Result struct {
	Cases       int64          `json:"cases"`
	Steps       int64          `json:"steps"`
	States      int64          `json:"states"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []any          `json:"samples"`
	Violations  []Violation    `json:"violations"`
	NumViol     int64          `json:"num_violations"`
	Exhaustive  bool           `json:"exhaustive"`
	DupKeys     int64          `json:"dup_keys"`
	Notes       map[string]any `json:"notes"`
	HarnessErrs []string       `json:"harness_errs"`
}

// Worker runs property p, writing progress to slots.
func Worker(p *Prop, tier, only string, deadline time.Time, slots Slots) *Result {
	res := &Result{Outcomes: map[string]int{}, Notes: map[string]any{}, Exhaustive: true}
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if only != "" {
		nw = 1
	}
	ch := make(chan Case, 4*nw)
	var stopped atomic.Bool
	env := &Env{Tier: tier, notes: res.Notes, stop: func() bool { return stopped.Load() || time.Now().After(deadline) }}
	var mu sync.Mutex
	states := map[uint64]struct{}{}
	keys := map[uint64]struct{}{}
	perSig := map[string]int{}
	var wg sync.WaitGroup
	sampleEvery := int64(1)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for c := range ch {
				if only != "" && c.Key != only {
					continue
				}
				if only == "" && time.Now().After(deadline) {
					mu.Lock()
					res.Exhaustive = false
					mu.Unlock()
					continue
				}
				slots.Begin(w, c.Key)
				t := &T{Key: c.Key, logged: only != ""}
				runCase(t, c.Fn)
				slots.End(w)
				mu.Lock()
				res.Cases++
				res.Steps += t.steps
				kh := hash(c.Key)
				if _, dup := keys[kh]; dup {
					res.DupKeys++
				}
				keys[kh] = struct{}{}
				for _, s := range t.states {
					states[hash(s)] = struct{}{}
				}
				if t.outc != "" && (len(res.Outcomes) < 200 || res.Outcomes[t.outc] > 0) {
					res.Outcomes[t.outc]++
				}
				if len(res.Samples) < 6 && res.Cases%sampleEvery == 0 {
					res.Samples = append(res.Samples, map[string]any{"case": c.Key, "steps": head(t.log, 12), "outcome": t.outc})
					sampleEvery *= 7
				}
				if len(t.fails) > 0 {
					res.NumViol += int64(len(t.fails))
					for _, f := range t.fails {
						perSig[f.sig]++
						if perSig[f.sig] <= 2 && len(res.Violations) < 50000 {
							res.Violations = append(res.Violations, Violation{
								Property: p.ID, Tier: tier, Key: t.Key, Sig: f.sig, Message: f.msg, Trace: head(t.log, 60),
							})
						}
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	env.emit = func(c Case) {
		if only != "" && c.Key != only {
			return
		}
		ch <- c
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				res.HarnessErrs = append(res.HarnessErrs, fmt.Sprintf("generator: %v\n%s", r, debug.Stack()))
				mu.Unlock()
			}
		}()
		p.Gen(env)
	}()
	close(ch)
	wg.Wait()
	if p.Finish != nil {
		p.Finish(env)
	}
	if only == "" && time.Now().After(deadline) {
		res.Exhaustive = false
	}
	res.States = int64(len(states))
	return res
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runCase(t *T, fn func(t *T)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failNow); ok {
				return
			}
			t.fails = append(t.fails, fail{t.Key, fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))})
		}
	}()
	fn(t)
}

// Guard runs fn and returns the panic (if any) as an error string.
func Guard(fn func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failNow); ok {
				panic(r)
			}
			p = fmt.Sprintf("panic: %v at %s", r, panicSite(debug.Stack()))
		}
	}()
	fn()
	return ""
}

func panicSite(b []byte) string {
	lines := strings.Split(string(b), "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "vc-go") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hash(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Slots is crash-surviving progress memory.
type Slots interface {
	Begin(w int, key string)
	End(w int)
}

// JSON is compact JSON of v.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

// Canon re-marshals JSON canonically.
func Canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	b, _ = json.Marshal(x)
	return string(b)
}

// Root is the /verif directory.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Data reads a committed data file under /verif/data.
func Data(name string) []byte {
	b, err := os.ReadFile(filepath.Join(Root(), "data", name))
	if err != nil {
		panic(err)
	}
	return b
}

// Subsets enumerates all subsets of 0..n-1 as bitmasks.
func Subsets(n int) []int {
	out := make([]int, 0, 1<<n)
	for i := 0; i < 1<<n; i++ {
		out = append(out, i)
	}
	return out
}

// Product enumerates the cartesian product of dimension sizes.
func Product(dims []int, f func(idx []int)) {
	idx := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(idx)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < dims[i] {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
