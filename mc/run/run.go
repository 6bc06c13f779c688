// Package run is the checker's command line: a parent process supervises a worker process.
package run

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

const (
	slotSize = 8192
	numSlots = 64
)

type slots struct{ m []byte }

func (s *slots) Begin(w int, key string) {
	b := s.m[w*slotSize : (w+1)*slotSize]
	if len(key) > slotSize-64 {
		key = key[:slotSize-64]
	}
	copy(b[32:], key)
	put(b[8:16], uint64(len(key)))
	put(b[0:8], uint64(time.Now().UnixNano()))
}
func (s *slots) End(w int) { put(s.m[w*slotSize:w*slotSize+8], 0) }
func put(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * i))
	}
}
func get(b []byte) uint64 {
	var v uint64
	for i := 0; i < 8; i++ {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

func mapSlots(path string) *slots {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	die(err)
	die(f.Truncate(slotSize * numSlots))
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*numSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	die(err)
	return &slots{m}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// Main runs the command line.
func Main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "case key")
	worker := flag.String("worker", "", "scratch dir (internal)")
	secs := flag.Int("secs", 0, "internal deadline")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		die(err)
		var v h.Violation
		die(json.Unmarshal(b, &v))
		*prop, *tier, *only = v.Property, v.Tier, v.Key
	}
	p := h.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop, h.IDs())
		os.Exit(3)
	}
	if *secs == 0 {
		*secs = 420
		if *tier == "thorough" {
			*secs = 3600
		}
	}
	if *worker != "" {
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(8 << 30)
		s := mapSlots(filepath.Join(*worker, "slots"))
		r := h.Worker(p, *tier, *only, time.Now().Add(time.Duration(*secs)*time.Second), s)
		b, err := json.Marshal(r)
		die(err)
		die(os.WriteFile(filepath.Join(*worker, "result.json"), b, 0o600))
		return
	}
	os.Exit(parent(p, *tier, *only, *secs))
}

func parent(p *h.Prop, tier, only string, secs int) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	die(err)
	defer os.RemoveAll(dir)
	s := mapSlots(filepath.Join(dir, "slots"))
	self, err := os.Executable()
	die(err)
	args := []string{"-prop", p.ID, "-tier", tier, "-worker", dir, "-secs", strconv.Itoa(secs)}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(self, args...)
	errFile, err := os.Create(filepath.Join(dir, "stderr"))
	die(err)
	cmd.Stderr = errFile
	cmd.Stdout = errFile
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	die(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	hang := ""
	tick := time.NewTicker(500 * time.Millisecond)
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			for w := 0; w < numSlots; w++ {
				b := s.m[w*slotSize : (w+1)*slotSize]
				if st := get(b[0:8]); st != 0 && time.Since(time.Unix(0, int64(st))) > p.HangAfter {
					hang = string(b[32 : 32+get(b[8:16])])
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
					time.Sleep(2 * time.Second)
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
					break loop
				}
			}
		}
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errFile.Close()
	stderr, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	res := &h.Result{Outcomes: map[string]int{}, Notes: map[string]any{}}
	rb, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	if rerr == nil {
		die(json.Unmarshal(rb, res))
	}
	if hang != "" {
		res.NumViol++
		res.Violations = append(res.Violations, h.Violation{Property: p.ID, Tier: tier, Key: hang, Sig: hang,
			Message: "execution does not terminate (no progress)\n" + tail(stderr, 3000)})
	} else if rerr != nil || werr != nil {
		var ee *exec.ExitError
		if errors.As(werr, &ee) {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				fmt.Fprintln(os.Stderr, "worker was killed (memory?)")
				return 3
			}
			if ee.ExitCode() == 3 {
				os.Stderr.Write(stderr)
				return 3
			}
		}
		// crash of the code under test: fatal error, unrecovered panic in a goroutine, data race.
		var keys []string
		for w := 0; w < numSlots; w++ {
			b := s.m[w*slotSize : (w+1)*slotSize]
			if get(b[0:8]) != 0 {
				keys = append(keys, string(b[32:32+get(b[8:16])]))
			}
		}
		sort.Strings(keys)
		key := "?"
		if len(keys) > 0 {
			key = keys[0]
		}
		// find which in-flight case crashes alone
		if only == "" && len(keys) > 1 {
			for _, k := range keys {
				sub := exec.Command(self, "-prop", p.ID, "-tier", tier, "-worker", mkdir(dir), "-secs", "60", "-only", k)
				sub.Env = cmd.Env
				if sub.Run() != nil {
					key = k
					break
				}
			}
		}
		res.NumViol++
		res.Violations = append(res.Violations, h.Violation{Property: p.ID, Tier: tier, Key: key, Sig: key,
			Message: fmt.Sprintf("process crash (%v): %s", werr, crashHead(stderr))})
	}
	if len(res.HarnessErrs) > 0 {
		fmt.Fprintln(os.Stderr, "harness errors:", res.HarnessErrs)
		return 3
	}
	if only == "" && rerr == nil && (res.Cases == 0) {
		fmt.Fprintln(os.Stderr, "no cases")
		return 3
	}
	if res.DupKeys > 0 {
		fmt.Fprintf(os.Stderr, "note: %d duplicate case keys\n", res.DupKeys)
	}

	known := loadKnown(p.ID)
	usedKnown := map[string]int{}
	var fresh []h.Violation
	for _, v := range res.Violations {
		matched := false
		for k := range known {
			if k == v.Sig || (strings.HasSuffix(k, "*") && strings.HasPrefix(v.Sig, strings.TrimSuffix(k, "*"))) {
				usedKnown[k]++
				matched = true
				break
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	var kk []string
	for k := range usedKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, known[k], k)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return len(fresh[i].Key) < len(fresh[j].Key) })
	rdir := filepath.Join(h.Root(), "evidence", "replays")
	_ = os.MkdirAll(rdir, 0o755)
	if only == "" {
		for i := 0; i < 400; i++ {
			_ = os.Remove(filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, i)))
		}
	}
	limit := 10
	if n, err := strconv.Atoi(os.Getenv("MC_REPLAYS")); err == nil {
		limit = n
	}
	for i, v := range fresh {
		if i >= limit {
			fmt.Printf("... and %d more violations\n", len(fresh)-i)
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, i))
		b, _ := json.MarshalIndent(v, "", "  ")
		die(os.WriteFile(path, b, 0o644))
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %s\n  %s\n", p.ID, path, v.Key, firstLines(v.Message, 6))
	}
	wall := time.Since(start).Seconds()
	fmt.Printf("%s %s: cases=%d steps=%d states=%d outcomes=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n", p.ID, tier,
		res.Cases, res.Steps, res.States, len(res.Outcomes), len(fresh), len(res.Violations)-len(fresh), res.Exhaustive, wall)
	if only == "" {
		writeEvidence(p, tier, res, len(fresh), wall)
	}
	if os.Getenv("MC_OUTCOMES") != "" {
		b, _ := json.MarshalIndent(res.Outcomes, "", " ")
		fmt.Println(string(b))
	}
	if len(fresh) > 0 {
		return 1
	}
	return 0
}

func mkdir(d string) string {
	x, err := os.MkdirTemp(d, "sub")
	die(err)
	return x
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func crashHead(b []byte) string {
	s := string(b)
	for _, m := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "runtime:"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// KNOWN_FINDINGS.txt lines:
//
//	finding: property=P01 sig=<signature, may end in *> | <what fails>
func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(h.Root(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" ")
		parts := strings.SplitN(l, " | ", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "sig=") {
			die(fmt.Errorf("bad known finding line %q", l))
		}
		out[strings.TrimPrefix(parts[0], "sig=")] = parts[1]
	}
	return out
}

func writeEvidence(p *h.Prop, tier string, r *h.Result, fresh int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": r.States, "transitions": r.Steps, "traces_validated_against_impl": r.Cases,
		"samples": r.Samples, "rule": p.Rule, "exhaustive": r.Exhaustive,
		"distinct_outcomes": len(r.Outcomes), "outcomes": topOutcomes(r.Outcomes),
	}
	if p.Level == "exploration" || p.Level == "fault_enumeration" {
		delete(cov, "traces_validated_against_impl")
		cov["evaluations"] = r.Cases
		cov["distinct_nontrivial"] = r.States
	}
	for k, v := range r.Notes {
		cov[k] = v
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": fresh,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	die(os.MkdirAll(filepath.Join(h.Root(), "evidence"), 0o755))
	die(os.WriteFile(filepath.Join(h.Root(), "evidence", p.ID+".json"), append(b, '\n'), 0o644))
}

func topOutcomes(m map[string]int) map[string]int {
	type kv struct {
		k string
		v int
	}
	var s []kv
	for k, v := range m {
		s = append(s, kv{k, v})
	}
	sort.Slice(s, func(i, j int) bool { return s[i].v > s[j].v || (s[i].v == s[j].v && s[i].k < s[j].k) })
	out := map[string]int{}
	for i, e := range s {
		if i >= 25 {
			break
		}
		out[e.k] = e.v
	}
	return out
}
