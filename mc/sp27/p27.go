// Package sp27 decides P27: interleavings of operations on the in-memory store.
package sp27

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/legacy/mock/storage"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
	"github.com/trustbloc/vc-go/zz_verifmc/schild"
	"verif.local/sched"
)

// world is one provider with two open stores.
type world struct {
	p    *mem.Provider
	s    spi.Store
	mock *storage.MockStore
}

func newWorld() *world {
	w := &world{p: mem.NewProvider()}
	w.s, _ = w.p.OpenStore("s")
	_ = w.s.Put("k1", []byte("v1"), spi.Tag{Name: "t", Value: "a"})
	_ = w.s.Put("k2", []byte("v2"), spi.Tag{Name: "t", Value: "b"}, spi.Tag{Name: "u", Value: "a"})
	_ = w.p.SetStoreConfig("s", spi.StoreConfiguration{TagNames: []string{"t", "u"}})
	o, _ := w.p.OpenStore("o")
	_ = o.Put("k1", []byte("o1"), spi.Tag{Name: "t", Value: "a"})
	w.mock = &storage.MockStore{Store: map[string]storage.DBEntry{}}
	_ = w.mock.Put("k1", []byte("v1"), spi.Tag{Name: "t", Value: "a"})
	return w
}

// thr is what a thread keeps between its operations.
type thr struct{ last spi.Store }

// res is an operation's result: text plus the stores it returned (named only after the execution).
type res struct {
	text   string
	stores []spi.Store
}

type op struct {
	name string
	run  func(w *world, t *thr) res
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

func val(b []byte, err error) res {
	if err != nil {
		return res{text: errs(err)}
	}
	if b == nil {
		return res{text: "nil"}
	}
	return res{text: string(b)}
}

func tagsText(ts []spi.Tag) string {
	var o []string
	for _, t := range ts {
		o = append(o, t.Name+"="+t.Value)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func queryText(it spi.Iterator, err error) string {
	if err != nil {
		return errs(err)
	}
	var o []string
	for {
		more, err := it.Next()
		if err != nil {
			return errs(err)
		}
		if !more {
			break
		}
		k, e1 := it.Key()
		v, e2 := it.Value()
		ts, e3 := it.Tags()
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Sprint("iterator: ", e1, e2, e3)
		}
		o = append(o, k+"="+string(v)+"["+tagsText(ts)+"]")
	}
	_ = it.Close()
	sort.Strings(o)
	return strings.Join(o, " ")
}

func tg(s string) []spi.Tag {
	var o []spi.Tag
	for _, p := range strings.Split(s, ",") {
		kv := strings.Split(p, "=")
		o = append(o, spi.Tag{Name: kv[0], Value: kv[1]})
	}
	return o
}

func storeOp(name string, f func(s spi.Store) res) op {
	return op{name, func(w *world, _ *thr) res { return f(w.s) }}
}

func put(k, v, tags string) op {
	return storeOp("put "+k+" "+v+" "+tags, func(s spi.Store) res { return res{text: errs(s.Put(k, []byte(v), tg(tags)...))} })
}

func get(k string) op {
	return storeOp("get "+k, func(s spi.Store) res { return val(s.Get(k)) })
}

func query(q string) op {
	return storeOp("query "+q, func(s spi.Store) res { return res{text: queryText(s.Query(q))} })
}

func del(k string) op {
	return storeOp("delete "+k, func(s spi.Store) res { return res{text: errs(s.Delete(k))} })
}

func batch(name string, ops ...spi.Operation) op {
	return storeOp("batch "+name, func(s spi.Store) res { return res{text: errs(s.Batch(ops))} })
}

func bulk(ks ...string) op {
	return storeOp("bulk "+strings.Join(ks, " "), func(s spi.Store) res {
		vs, err := s.GetBulk(ks...)
		if err != nil {
			return res{text: errs(err)}
		}
		var o []string
		for _, v := range vs {
			o = append(o, val(v, nil).text)
		}
		return res{text: strings.Join(o, " ")}
	})
}

func open(n string) op {
	return op{"open " + n, func(w *world, t *thr) res {
		s, err := w.p.OpenStore(n)
		if err != nil {
			return res{text: errs(err)}
		}
		t.last = s
		return res{stores: []spi.Store{s}}
	}}
}

func setCfg(n string, names ...string) op {
	return op{"setconfig " + n + " " + strings.Join(names, ","), func(w *world, _ *thr) res {
		return res{text: errs(w.p.SetStoreConfig(n, spi.StoreConfiguration{TagNames: names}))}
	}}
}

func getCfg(n string) op {
	return op{"getconfig " + n, func(w *world, _ *thr) res {
		c, err := w.p.GetStoreConfig(n)
		if err != nil {
			return res{text: errs(err)}
		}
		return res{text: strings.Join(c.TagNames, ",")}
	}}
}

func mockOp(name string, f func(s *storage.MockStore) res) op {
	return op{"mock " + name, func(w *world, _ *thr) res { return f(w.mock) }}
}

func lastOp(name string, f func(s spi.Store) res) op {
	return op{"opened: " + name, func(w *world, t *thr) res {
		if t.last == nil {
			return res{text: "none"}
		}
		return f(t.last)
	}}
}

var ops = []op{
	put("k1", "w1", "t=b"), put("k3", "w3", "t=a,u=a"), put("k1", "x1", "u=a"),
	get("k1"), get("k3"),
	storeOp("tags k1", func(s spi.Store) res {
		ts, err := s.GetTags("k1")
		if err != nil {
			return res{text: errs(err)}
		}
		return res{text: tagsText(ts)}
	}),
	bulk("k1", "k2", "k3"), bulk("k3", "k1"),
	query("t"), query("t:a"), query("t:b&&u:a"), query("u"),
	del("k1"), del("k2"),
	batch("k1 -k2 k3", spi.Operation{Key: "k1", Value: []byte("b1"), Tags: tg("t=b,u=a")}, spi.Operation{Key: "k2"}, spi.Operation{Key: "k3", Value: []byte("b3"), Tags: tg("t=a")}),
	batch("k3 k1", spi.Operation{Key: "k3", Value: []byte("c3"), Tags: tg("t=b")}, spi.Operation{Key: "k1", Value: []byte("c1"), Tags: tg("u=a")}),
	batch("invalid", spi.Operation{Key: "k3", Value: []byte("d3")}, spi.Operation{Key: ""}),
	storeOp("close", func(s spi.Store) res { return res{text: errs(s.Close())} }),
	open("s"), open("n"), open("N"),
	setCfg("s", "x"), setCfg("n", "y"), getCfg("s"), getCfg("n"),
	{"open stores", func(w *world, _ *thr) res { return res{stores: w.p.GetOpenStores()} }},
	{"close provider", func(w *world, _ *thr) res { return res{text: errs(w.p.Close())} }},
}

var follow = []op{
	lastOp("put", func(s spi.Store) res { return res{text: errs(s.Put("k9", []byte("v9"), tg("t=a")...))} }),
	lastOp("get", func(s spi.Store) res { return val(s.Get("k9")) }),
	lastOp("close", func(s spi.Store) res { return res{text: errs(s.Close())} }),
}

var mockOps = []op{
	mockOp("put", func(s *storage.MockStore) res { return res{text: errs(s.Put("k1", []byte("w1"), tg("t=b")...))} }),
	mockOp("put2", func(s *storage.MockStore) res { return res{text: errs(s.Put("k2", []byte("w2"), tg("t=b")...))} }),
	mockOp("get", func(s *storage.MockStore) res { return val(s.Get("k1")) }),
	mockOp("query", func(s *storage.MockStore) res { return res{text: queryText(s.Query("t"))} }),
	mockOp("query b", func(s *storage.MockStore) res { return res{text: queryText(s.Query("t:b"))} }),
	mockOp("delete", func(s *storage.MockStore) res { return res{text: errs(s.Delete("k1"))} }),
	mockOp("batch", func(s *storage.MockStore) res {
		return res{text: errs(s.Batch([]spi.Operation{{Key: "k1", Value: []byte("b1"), Tags: tg("t=b")}, {Key: "k2", Value: []byte("b2"), Tags: tg("t=a")}}))}
	}),
}

func byName(ns ...string) []op {
	var out []op
	for _, n := range ns {
		found := false
		for _, l := range [][]op{ops, follow, mockOps} {
			for _, o := range l {
				if o.name == n {
					out, found = append(out, o), true
				}
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	return out
}

// final reads everything back.
func (w *world) final() res {
	var r res
	var b strings.Builder
	dump := func(s spi.Store) {
		vs, err := s.GetBulk("k1", "k2", "k3", "k9")
		if err != nil {
			b.WriteString(errs(err))
		}
		for i, v := range vs {
			ts, _ := s.GetTags([]string{"k1", "k2", "k3", "k9"}[i])
			b.WriteString(val(v, nil).text + "[" + tagsText(ts) + "] ")
		}
		b.WriteString(queryText(s.Query("t")) + ";" + queryText(s.Query("u")) + "|")
	}
	dump(w.s)
	for _, n := range []string{"s", "n", "o"} {
		c, err := w.p.GetStoreConfig(n)
		b.WriteString(n + " " + errs(err) + " " + strings.Join(c.TagNames, ",") + "|")
	}
	r.stores = append(r.stores, w.p.GetOpenStores()...)
	for _, n := range []string{"s", "n", "o"} {
		s, err := w.p.OpenStore(n)
		b.WriteString(errs(err) + " ")
		if err == nil {
			r.stores = append(r.stores, nil, s)
			dump(s)
		}
	}
	b.WriteString(queryText(w.mock.Query("t")))
	r.text = b.String()
	return r
}

// naming gives stores the order of their first appearance in the results as names.
func outcome(w *world, rs [][]res, fin res) string {
	names := map[spi.Store]string{w.s: "s"}
	name := func(s spi.Store) string {
		if s == nil {
			return "/"
		}
		if names[s] == "" {
			names[s] = fmt.Sprintf("h%d", len(names))
		}
		return names[s]
	}
	var b strings.Builder
	one := func(r res) {
		b.WriteString(r.text + "<")
		// a list of open stores is a set: name the known ones first
		var unk []spi.Store
		var kn []string
		group := func() {
			sort.Strings(kn)
			b.WriteString(strings.Join(kn, ",") + fmt.Sprintf("+%d", len(unk)))
			kn, unk = nil, nil
		}
		single := len(r.stores) == 1
		for _, s := range r.stores {
			if s == nil {
				group()
				single = true
				continue
			}
			if names[s] == "" && !single {
				unk = append(unk, s)
			} else {
				kn = append(kn, name(s))
			}
		}
		group()
		b.WriteString(">\n")
	}
	for _, l := range rs {
		for _, r := range l {
			one(r)
		}
		b.WriteString("--\n")
	}
	one(fin)
	return b.String()
}

// orders are the merges of sequences of the given lengths.
func orders(lens []int) [][]int {
	total := 0
	for _, n := range lens {
		total += n
	}
	var out [][]int
	var rec func(cur []int, left []int)
	rec = func(cur, left []int) {
		if len(cur) == total {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				l := append([]int(nil), left...)
				l[i]--
				rec(append(cur, i), l)
			}
		}
	}
	rec(nil, lens)
	return out
}

// race: in the build watched by the race detector, whose verdict depends little on the schedule, fewer preemptions do.
var race bool

func scenario(g *schild.Group, pb int, threads [][]op) {
	if race {
		pb = 1
		if len(threads[0]) > 1 {
			pb = 0
		}
	}
	var names, lens = []string{}, []int{}
	for _, l := range threads {
		var n []string
		for _, o := range l {
			n = append(n, o.name)
		}
		names = append(names, strings.Join(n, "; "))
		lens = append(lens, len(l))
	}
	ords := orders(lens)
	var want []string
	for _, ord := range ords {
		w := newWorld()
		at := make([]int, len(threads))
		ths := make([]thr, len(threads))
		rs := make([][]res, len(threads))
		for _, i := range ord {
			rs[i] = append(rs[i], threads[i][at[i]].run(w, &ths[i]))
			at[i]++
		}
		want = append(want, outcome(w, rs, w.final()))
	}
	g.Explore(strings.Join(names, " || "), sched.Config{Preemptions: pb, MaxExecs: 400000}, func() *sched.Run {
		w := newWorld()
		rs := make([][]res, len(threads))
		type span struct{ call, ret uint64 }
		spans := make([][]span, len(threads))
		r := &sched.Run{}
		for i := range threads {
			i := i
			rs[i] = make([]res, len(threads[i]))
			spans[i] = make([]span, len(threads[i]))
			r.Threads = append(r.Threads, func() {
				t := &thr{}
				for j, o := range threads[i] {
					spans[i][j].call = sched.Stamp()
					rs[i][j] = o.run(w, t)
					spans[i][j].ret = sched.Stamp()
				}
			})
		}
		r.Check = func() string {
			got := outcome(w, rs, w.final())
			var near []string
		ord:
			for n, ord := range ords {
				if want[n] != got {
					continue
				}
				near = append(near, fmt.Sprint(ord))
				// the order must respect calls that ended before others began
				at := make([]int, len(threads))
				var seq []span
				for _, i := range ord {
					seq = append(seq, spans[i][at[i]])
					at[i]++
				}
				for a := range seq {
					for b := a + 1; b < len(seq); b++ {
						if seq[b].ret < seq[a].call {
							continue ord
						}
					}
				}
				g.Outcome(got)
				return ""
			}
			if near != nil {
				return fmt.Sprintf("the outcome fits only the orders %v, in which a call takes effect before it began or after it returned:\n%s", near, got)
			}
			return "no order of the operations explains the outcome:\n" + got + "orders give:\n" + strings.Join(uniq(want), "or\n")
		}
		return r
	})
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var o []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			o = append(o, s)
		}
	}
	return o
}

// groups: name -> scenarios.
type groupDef struct {
	name string
	run  func(g *schild.Group)
}

func groups(tier string) []groupDef {
	th := tier == "thorough"
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	var gs []groupDef
	for i, a := range ops {
		a, i := a, i
		gs = append(gs, groupDef{"2x1/" + a.name, func(g *schild.Group) {
			for _, b := range ops[i:] {
				scenario(g, pick(2, 3), [][]op{{a}, {b}})
			}
		}})
	}
	for i, a := range mockOps {
		a, i := a, i
		gs = append(gs, groupDef{"mock/" + a.name, func(g *schild.Group) {
			for _, b := range mockOps[i:] {
				scenario(g, pick(2, 3), [][]op{{a}, {b}})
			}
		}})
	}
	two := byName("put k1 w1 t=b", "get k1", "bulk k1 k2 k3", "query t:b&&u:a", "delete k1", "batch k1 -k2 k3", "close", "open s", "setconfig s x", "getconfig s", "open stores", "close provider")
	var seqs [][]op
	for _, a := range two {
		for _, b := range two {
			seqs = append(seqs, []op{a, b})
		}
	}
	for _, f := range follow {
		seqs = append(seqs, []op{open("n"), f}, []op{open("s"), f})
	}
	for i, a := range seqs {
		a, i := a, i
		gs = append(gs, groupDef{"2x2/" + a[0].name + "; " + a[1].name, func(g *schild.Group) {
			for _, b := range seqs[i:] {
				scenario(g, 1, [][]op{a, b})
			}
		}})
	}
	three := two
	if th {
		three = ops
	}
	for i, a := range three {
		for j := i; j < len(three); j++ {
			a, b, j := a, three[j], j
			gs = append(gs, groupDef{"3x1/" + a.name + " | " + b.name, func(g *schild.Group) {
				for _, c := range three[j:] {
					scenario(g, 1, [][]op{{a}, {b}, {c}})
				}
			}})
		}
	}
	return gs
}

// Child is the child process's entry.
func Child() {
	schild.Main(func(g *schild.Group, name string) {
		race = strings.HasPrefix(name, "race/")
		for _, d := range groups(g.Tier) {
			if d.name == strings.TrimPrefix(name, "race/") {
				d.run(g)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no group", name)
		os.Exit(3)
	})
}

var totals schild.Totals

func init() {
	h.Register(&h.Prop{
		ID:    "P27",
		Level: "enumerated",
		Rule: "a scenario is two threads with one operation each (all pairs of 27 operations of provider and stores, 7 of the mock store), two with two each, or three with one; " +
			"every interleaving of their statements with at most 2/1/1 preemptions (quick; 3/1/1 thorough, with all operations in threes) is executed on the real code under the controlled scheduler, in a build watched by the race detector; " +
			"each outcome (results, store identities and everything readable afterwards) must be that of an order of the operations that respects which call ended before which began; states are outcomes",
		Assume: []string{"a statement is atomic for the enumeration; what happens inside one is left to the race detector",
			"synchronisation is by package sync or channels"},
		HangAfter: 800 * time.Second,
		Gen: func(e *h.Env) {
			for _, d := range groups(e.Tier) {
				if !strings.HasPrefix(d.name, "3x1/") {
					e.Case("race/"+d.name, func(t *h.T) { totals.Run(t, e.Tier, "race/"+d.name) })
				}
				e.Case(d.name, func(t *h.T) { totals.Run(t, e.Tier, d.name) })
			}
		},
		Finish: func(e *h.Env) { totals.Note(e) },
	})
}
