// Package schild runs groups of scheduled scenarios in processes of their own: each starts cold, and the race detector or
// a crash of the code under test ends only that group.
package schild

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/zz_verifmc/h"
	"verif.local/sched"
)

const mark = "MCRESULT "

// Result of a group.
type Result struct {
	Scenarios, Execs, Diverged, Deepest, Switches int
	Steps                                         uint64
	Truncated                                     bool
	Outcomes                                      map[string]int
	Complaints                                    []Complaint
}

// Complaint about one scenario.
type Complaint struct {
	Scenario, Message string
	Schedule          []int
}

// Group explores scenarios.
type Group struct {
	R    Result
	Tier string
	name string
}

// Explore explores one scenario.
func (g *Group) Explore(name string, c sched.Config, mk func() *sched.Run) {
	g.name = name
	fmt.Fprintln(os.Stderr, "SCENARIO "+name)
	st, msg, schedule := sched.Explore(c, mk)
	g.R.Scenarios++
	g.R.Execs += st.Execs
	g.R.Diverged += st.Diverged
	g.R.Steps += st.Steps
	g.R.Switches += st.Switches
	g.R.Truncated = g.R.Truncated || st.Truncated
	if st.Deepest > g.R.Deepest {
		g.R.Deepest = st.Deepest
	}
	if msg != "" {
		g.R.Complaints = append(g.R.Complaints, Complaint{name, msg, schedule})
	}
}

// Outcome counts a distinct outcome.
func (g *Group) Outcome(s string) { g.R.Outcomes[s]++ }

// Main runs the group named in the environment, if any, and exits.
func Main(run func(g *Group, name string)) {
	name := os.Getenv("MC_GROUP")
	if name == "" {
		return
	}
	g := &Group{Tier: os.Getenv("MC_GROUP_TIER"), R: Result{Outcomes: map[string]int{}}}
	runtime.GOMAXPROCS(1) // one thread runs at a time anyway
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	run(g, name)
	pprof.StopCPUProfile()
	b, _ := json.Marshal(g.R)
	fmt.Println("\n" + mark + string(b))
	os.Exit(0)
}

// Totals adds up the groups for the evidence.
type Totals struct {
	mu sync.Mutex
	R  Result
}

// Run runs a group in a child process and reports what it found; groups named race... are watched by the race detector.
func (tt *Totals) Run(t *h.T, tier, group string) {
	self, err := os.Executable()
	t.Must(err, "executable")
	if strings.HasPrefix(group, "race") {
		self += ".race"
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "MC_GROUP="+group, "MC_GROUP_TIER="+tier)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	var r Result
	i := strings.LastIndex(out.String(), mark)
	if i >= 0 {
		t.Must(json.Unmarshal([]byte(out.String()[i+len(mark):]), &r), "group result")
	}
	t.Steps(int64(r.Steps))
	var oc []string
	for o := range r.Outcomes {
		t.State(group + "|" + o)
		oc = append(oc, o)
	}
	sort.Strings(oc)
	if len(r.Complaints) == 0 {
		t.Outcome("%d outcomes", len(oc))
	}
	tt.mu.Lock()
	tt.R.Scenarios += r.Scenarios
	tt.R.Execs += r.Execs
	tt.R.Diverged += r.Diverged
	tt.R.Steps += r.Steps
	tt.R.Switches += r.Switches
	tt.R.Truncated = tt.R.Truncated || r.Truncated
	if r.Deepest > tt.R.Deepest {
		tt.R.Deepest = r.Deepest
	}
	tt.mu.Unlock()
	for _, c := range r.Complaints {
		t.FailSub(c.Scenario, "%s\nschedule %v", c.Message, short(c.Schedule))
	}
	if err != nil || i < 0 {
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == -1 {
			fmt.Fprintln(os.Stderr, "group", group, "was killed:", err, tail(errb.String()))
			os.Exit(3)
		}
		e := errb.String()
		scen := ""
		if k := strings.LastIndex(e, "SCENARIO "); k >= 0 {
			scen = strings.SplitN(e[k+len("SCENARIO "):], "\n", 2)[0]
			e = e[k:]
		}
		for _, m := range []string{"WARNING: DATA RACE", "fatal error:", "panic:"} {
			if k := strings.Index(e, m); k >= 0 {
				e = e[k:]
				break
			}
		}
		if len(e) > 2500 {
			e = e[:2500]
		}
		t.FailSub(scen, "%v: %s", err, e)
	}
}

// Note writes the totals into the evidence.
func (tt *Totals) Note(e *h.Env) {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	e.Note("scenarios", tt.R.Scenarios)
	e.Note("schedules", tt.R.Execs)
	e.Note("preemptions_taken", tt.R.Switches)
	e.Note("schedules_diverged", tt.R.Diverged)
	e.Note("deepest_schedule", tt.R.Deepest)
	e.Note("truncated", tt.R.Truncated)
}

func short(s []int) string {
	x := fmt.Sprint(s)
	if len(x) > 600 {
		x = x[:600] + "…"
	}
	return x
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}
