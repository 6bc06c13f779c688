package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

// Reference model of the in-memory storage provider: plain maps.
type sEntry struct {
	val  string
	tags []spi.Tag
}

type sStore map[string]sEntry

func (s sStore) clone() sStore {
	o := sStore{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

func tagStr(tags []spi.Tag) string {
	var p []string
	for _, t := range tags {
		p = append(p, t.Name+"="+t.Value)
	}
	return strings.Join(p, ",")
}

func (s sStore) canon() string {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%s[%s];", k, s[k].val, tagStr(s[k].tags))
	}
	return b.String()
}

// query evaluates an "A:1&&B" expression on the model.
func (s sStore) query(expr string) (map[string]sEntry, bool) {
	if expr == "" {
		return nil, false
	}
	out := map[string]sEntry{}
	crit := strings.Split(expr, "&&")
	for _, c := range crit {
		if strings.Count(c, ":") > 1 {
			return nil, false
		}
	}
	for k, e := range s {
		all := true
		for _, c := range crit {
			name, val, _ := strings.Cut(c, ":")
			hit := false
			for _, t := range e.tags {
				if t.Name == name && (val == "" || t.Value == val) {
					hit = true
				}
			}
			if !hit {
				all = false
			}
		}
		if all {
			out[k] = e
		}
	}
	return out, true
}

func resCanon(m map[string]sEntry) string { return sStore(m).canon() }

func drain(it spi.Iterator) (string, error) {
	out := map[string]sEntry{}
	n := 0
	for {
		ok, err := it.Next()
		if err != nil {
			return "", err
		}
		if !ok {
			break
		}
		k, err := it.Key()
		if err != nil {
			return "", err
		}
		v, err := it.Value()
		if err != nil {
			return "", err
		}
		tg, err := it.Tags()
		if err != nil {
			return "", err
		}
		if _, dup := out[k]; dup {
			return "", fmt.Errorf("key %q iterated twice", k)
		}
		out[k] = sEntry{string(v), tg}
		n++
		if n > 64 {
			return "", errors.New("iterator does not end")
		}
	}
	tot, err := it.TotalItems()
	if err != nil {
		return "", err
	}
	if tot != n {
		return "", fmt.Errorf("TotalItems=%d but %d items iterated", tot, n)
	}
	if ok, err := it.Next(); ok || err != nil {
		return "", fmt.Errorf("Next after exhaustion: %v %v", ok, err)
	}
	if _, err := it.Key(); err == nil {
		return "", errors.New("Key after exhaustion succeeded")
	}
	if _, err := it.Value(); err == nil {
		return "", errors.New("Value after exhaustion succeeded")
	}
	if err := it.Close(); err != nil {
		return "", err
	}
	return resCanon(out), nil
}

var storeKeys = []string{"k1", "k2", "k3"}

var storeQueries = []string{
	"A", "A:1", "A:2", "A:", "B", "B:1", "A&&B", "A:1&&B:1", "B:1&&A:1", "A:1&&A:2", "A:2&&A:1", "A:1&&A", "A&&A:1",
	"B:2", "A:2&&B", "A:1&&A:2&&B:2", "B&&A", "&&", "A&&", ":1", ":", "A:1&&:1",
	"A&&A:2", "A:1&&A:1", "C", "A&&C", "A:1&&B&&A:2", "a", "A:1:2", "A&&B:1:1", "",
}

// observeStore compares every read of the real store with the model.
func observeStore(t *h.T, st spi.Store, m sStore) {
	for _, k := range storeKeys {
		e, ok := m[k]
		v, err := st.Get(k)
		if ok && (err != nil || string(v) != e.val) {
			t.Fatal("Get(%s) = %q, %v; model has %q", k, v, err, e.val)
		}
		if !ok && !errors.Is(err, spi.ErrDataNotFound) {
			t.Fatal("Get(%s) = %q, %v; model has no entry", k, v, err)
		}
		tg, err := st.GetTags(k)
		if ok && (err != nil || tagStr(tg) != tagStr(e.tags)) {
			t.Fatal("GetTags(%s) = %v, %v; model has %v", k, tg, err, e.tags)
		}
		if !ok && !errors.Is(err, spi.ErrDataNotFound) {
			t.Fatal("GetTags(%s) = %v, %v; model has no entry", k, tg, err)
		}
	}
	for _, ks := range [][]string{{"k1"}, {"k2", "k1", "k3"}, {"k1", "k1"}} {
		vs, err := st.GetBulk(ks...)
		if err != nil || len(vs) != len(ks) {
			t.Fatal("GetBulk(%v) = %v, %v", ks, vs, err)
		}
		for i, k := range ks {
			e, ok := m[k]
			if ok != (vs[i] != nil) || string(vs[i]) != e.val {
				t.Fatal("GetBulk(%v)[%d] = %q; model %q present=%v", ks, i, vs[i], e.val, ok)
			}
		}
	}
	for _, q := range storeQueries {
		want, ok := m.query(q)
		it, err := st.Query(q)
		if ok != (err == nil) {
			t.Fatal("Query(%q) error=%v; model valid=%v", q, err, ok)
		}
		if err != nil {
			continue
		}
		got, err := drain(it)
		if err != nil || got != resCanon(want) {
			t.Fatal("Query(%q) = %s, %v; model %s", q, got, err, resCanon(want))
		}
	}
	for _, ks := range [][]string{{}, {""}, {"k1", ""}} {
		if _, err := st.GetBulk(ks...); err == nil {
			t.Fatal("GetBulk(%q) accepted", ks)
		}
	}
	if _, err := st.Get(""); err == nil {
		t.Fatal("Get(empty) accepted")
	}
	if _, err := st.GetTags(""); err == nil {
		t.Fatal("GetTags(empty) accepted")
	}
}

type storeOp struct {
	name string
	real func(st spi.Store) error
	// model returns an error flag; mutates m
	model func(m sStore) bool
}

func tg(s string) []spi.Tag {
	if s == "" {
		return nil
	}
	var out []spi.Tag
	for _, p := range strings.Split(s, ",") {
		n, v, _ := strings.Cut(p, "=")
		out = append(out, spi.Tag{Name: n, Value: v})
	}
	return out
}

func storeOps() []storeOp {
	var ops []storeOp
	put := func(k, v, tags string, valid bool) {
		ops = append(ops, storeOp{
			name: fmt.Sprintf("Put(%s,%s,%s)", k, v, tags),
			real: func(st spi.Store) error {
				var b []byte
				if v != "<nil>" {
					b = []byte(v)
				}
				return st.Put(k, b, tg(tags)...)
			},
			model: func(m sStore) bool {
				if valid {
					m[k] = sEntry{v, tg(tags)}
				}
				return valid
			},
		})
	}
	put("k1", "v1", "A=1", true)
	put("k1", "v2", "A=2,B=1", true)
	put("k1", "", "", true)
	put("k2", "v3", "B=1,A=1", true)
	put("k2", "v4", "A=", true)
	put("k2", "v5", "A=1,A=2,B=2", true)
	put("", "v", "", false)
	put("k1", "<nil>", "", false)
	put("k2", "v", "A:x=1", false)
	put("k2", "v", "A=1:2", false)
	for _, k := range []string{"k1", "k2"} {
		ops = append(ops, storeOp{"Delete(" + k + ")", func(st spi.Store) error { return st.Delete(k) },
			func(m sStore) bool { delete(m, k); return true }})
	}
	ops = append(ops, storeOp{"Delete()", func(st spi.Store) error { return st.Delete("") }, func(m sStore) bool { return false }})
	batch := func(name string, os []spi.Operation, valid bool) {
		ops = append(ops, storeOp{"Batch(" + name + ")", func(st spi.Store) error { return st.Batch(os) }, func(m sStore) bool {
			if !valid {
				return false
			}
			for _, o := range os {
				if o.Value == nil {
					delete(m, o.Key)
				} else {
					m[o.Key] = sEntry{string(o.Value), o.Tags}
				}
			}
			return true
		}})
	}
	batch("k1=b1{A=1};k2=b2{B=1}", []spi.Operation{{Key: "k1", Value: []byte("b1"), Tags: tg("A=1")}, {Key: "k2", Value: []byte("b2"), Tags: tg("B=1")}}, true)
	batch("del k1;k1=b3{A=2}", []spi.Operation{{Key: "k1"}, {Key: "k1", Value: []byte("b3"), Tags: tg("A=2")}}, true)
	batch("k1=b4;del k1;k3=b5{A=1,B=1}", []spi.Operation{{Key: "k1", Value: []byte("b4")}, {Key: "k1"}, {Key: "k3", Value: []byte("b5"), Tags: tg("A=1,B=1")}}, true)
	batch("k3=;k2=c1{A=2,A=1};k3=c2{B=2};del k1;k2=c3", []spi.Operation{{Key: "k3", Value: []byte("")}, {Key: "k2", Value: []byte("c1"), Tags: tg("A=2,A=1")}, {Key: "k3", Value: []byte("c2"), Tags: tg("B=2")}, {Key: "k1"}, {Key: "k2", Value: []byte("c3")}}, true)
	batch("k1={B=1}", []spi.Operation{{Key: "k1", Value: []byte{}, Tags: tg("B=1")}}, true)
	batch("del k2", []spi.Operation{{Key: "k2"}}, true)
	batch("k1=x;''=y", []spi.Operation{{Key: "k1", Value: []byte("x")}, {Key: "", Value: []byte("y")}}, false)
	batch("k1=x;k2{A:=1}", []spi.Operation{{Key: "k1", Value: []byte("x")}, {Key: "k2", Value: []byte("y"), Tags: tg("A:=1")}}, false)
	batch("k2{A=1:};k1=x", []spi.Operation{{Key: "k2", Value: []byte("y"), Tags: tg("A=1:")}, {Key: "k1", Value: []byte("x")}}, false)
	batch("", nil, false)
	return ops
}

// --- provider level ---

type pModel struct {
	names   map[string]int // lower name -> store id
	stores  []sStore
	configs []string
	handles []int // handle -> store id
}

func p26Provider(e *h.Env) {
	depth := e.Pick(5, 6)
	names := []string{"s", "S", "t"}
	ops := []string{"open:s", "open:S", "open:t", "open:", "close:0", "close:1", "close:2", "put:0", "put:1", "put:2", "cfg:s", "cfg:T", "badcfg:s", "pclose"}
	_ = names
	seq := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if e.Stopped() {
			return
		}
		if len(seq) == depth {
			s := append([]int(nil), seq...)
			var nm []string
			for _, i := range s {
				nm = append(nm, ops[i])
			}
			e.Case("provider/"+strings.Join(nm, "/"), func(t *h.T) { runProviderHistory(t, nm) })
			return
		}
		// prune: operations on handles that cannot exist yet
		opens := 0
		for _, i := range seq {
			if strings.HasPrefix(ops[i], "open:") && ops[i] != "open:" {
				opens++
			}
		}
		for i, o := range ops {
			var n int
			if k, _ := fmt.Sscanf(o, "close:%d", &n); k == 1 && n >= opens {
				continue
			}
			if k, _ := fmt.Sscanf(o, "put:%d", &n); k == 1 && n >= opens {
				continue
			}
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

func runProviderHistory(t *h.T, nm []string) {
	p := mem.NewProvider()
	m := &pModel{names: map[string]int{}}
	var hs []spi.Store
	for step, o := range nm {
		t.Step("%s", o)
		kind, arg, _ := strings.Cut(o, ":")
		switch kind {
		case "open":
			st, err := p.OpenStore(arg)
			if (err == nil) != (arg != "") {
				t.Fatal("OpenStore(%q) err=%v", arg, err)
			}
			if err == nil {
				ln := strings.ToLower(arg)
				id, ok := m.names[ln]
				if !ok {
					id = len(m.stores)
					m.stores = append(m.stores, sStore{})
					m.configs = append(m.configs, "")
					m.names[ln] = id
				}
				hs = append(hs, st)
				m.handles = append(m.handles, id)
			}
		case "close":
			i := int(arg[0] - '0')
			if err := hs[i].Close(); err != nil {
				t.Fatal("Close: %v", err)
			}
			// closing releases the store this handle belongs to, no other
			for n, id := range m.names {
				if id == m.handles[i] {
					delete(m.names, n)
				}
			}
		case "put":
			i := int(arg[0] - '0')
			k, v := "k1", fmt.Sprintf("v%d", step)
			if err := hs[i].Put(k, []byte(v), spi.Tag{Name: "A", Value: "1"}); err != nil {
				t.Fatal("Put: %v", err)
			}
			m.stores[m.handles[i]][k] = sEntry{v, tg("A=1")}
		case "cfg", "badcfg":
			tn := "tag" + fmt.Sprint(step)
			if kind == "badcfg" {
				tn = "a:b"
			}
			err := p.SetStoreConfig(arg, spi.StoreConfiguration{TagNames: []string{tn}})
			id, ok := m.names[strings.ToLower(arg)]
			if kind == "badcfg" {
				if err == nil {
					t.Fatal("SetStoreConfig accepted tag name with ':'")
				}
				break
			}
			if ok != (err == nil) || (!ok && !errors.Is(err, spi.ErrStoreNotFound)) {
				t.Fatal("SetStoreConfig(%s) err=%v, model open=%v", arg, err, ok)
			}
			if ok {
				m.configs[id] = tn
			}
		case "pclose":
			t.Must(p.Close(), "provider close")
			m.names = map[string]int{}
		}
		// observe
		for i, st := range hs {
			mm := m.stores[m.handles[i]]
			v, err := st.Get("k1")
			e, ok := mm["k1"]
			if ok != (err == nil) || string(v) != e.val {
				t.Fatal("after %s handle %d Get=%q,%v model %q,%v", o, i, v, err, e.val, ok)
			}
		}
		for _, n := range []string{"s", "T"} {
			c, err := p.GetStoreConfig(n)
			id, ok := m.names[strings.ToLower(n)]
			if ok != (err == nil) || (!ok && !errors.Is(err, spi.ErrStoreNotFound)) {
				t.Fatal("after %s GetStoreConfig(%s) err=%v, model open=%v", o, n, err, ok)
			}
			if ok && strings.Join(c.TagNames, ",") != m.configs[id] {
				t.Fatal("after %s GetStoreConfig(%s)=%v, model %q", o, n, c.TagNames, m.configs[id])
			}
		}
		op := p.GetOpenStores()
		if len(op) != len(m.names) {
			t.Fatal("after %s GetOpenStores has %d stores, model %d", o, len(op), len(m.names))
		}
		for _, st := range op {
			if st == nil {
				t.Fatal("after %s GetOpenStores holds a nil store", o)
			}
		}
		// an open name must still be the store that its live handles see
		for i, st := range hs {
			open := false
			for _, id := range m.names {
				if id == m.handles[i] {
					open = true
				}
			}
			found := false
			for _, x := range op {
				if x == st {
					found = true
				}
			}
			if open != found {
				t.Fatal("after %s handle %d open in model=%v, listed by GetOpenStores=%v", o, i, open, found)
			}
		}
		var ids []string
		for n, id := range m.names {
			ids = append(ids, fmt.Sprintf("%s=%d%s", n, id, m.stores[id].canon()))
		}
		sort.Strings(ids)
		t.Statef("prov:%v:%v", ids, m.handles)
	}
	t.Outcome("open=%d handles=%d", len(m.names), len(hs))
}

func p26(e *h.Env) {
	ops := storeOps()
	depth := e.Pick(3, 4)
	e.Note("store_ops", len(ops))
	e.Note("store_depth", depth)
	var seq []int
	var rec func()
	rec = func() {
		if e.Stopped() {
			return
		}
		if len(seq) == depth {
			s := append([]int(nil), seq...)
			var key []string
			for _, i := range s {
				key = append(key, ops[i].name)
			}
			e.Case("store/"+strings.Join(key, "/"), func(t *h.T) {
				p := mem.NewProvider()
				st, err := p.OpenStore("db")
				t.Must(err, "open")
				m := sStore{}
				var its []spi.Iterator
				var want []string
				for _, i := range s {
					t.Step("%s", ops[i].name)
					it, err := st.Query("A")
					t.Must(err, "query")
					its = append(its, it)
					w, _ := m.query("A")
					want = append(want, resCanon(w))
					err = ops[i].real(st)
					before := m.clone()
					ok := ops[i].model(m)
					if !ok {
						m = before
					}
					if ok != (err == nil) {
						t.Fatal("%s: err=%v, model accepts=%v", ops[i].name, err, ok)
					}
					observeStore(t, st, m)
					t.State("store:" + m.canon())
				}
				// iterators opened before the later writes are snapshots
				for j, it := range its {
					got, err := drain(it)
					if err != nil || got != want[j] {
						t.Fatal("iterator opened before op %d yields %s, %v; snapshot was %s", j, got, err, want[j])
					}
				}
				t.Outcome("%s", m.canon())
			})
			return
		}
		for i := range ops {
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
	p26Contents(e)
	p26Provider(e)
}

// p26Contents: every store content over three keys and a menu of tag lists, written singly or in one
// batch, and stores of up to 70 entries.
func p26Contents(e *h.Env) {
	menu := []string{"-", "", "A=1", "A=2", "A=", "B=1", "A=1,B=1", "B=2,A=2", "A=1,A=2", "A=2,A=1", "A=1,A=1", "A=,A=1", "=1", "B=1,A=1,B=2"}
	if !e.Thorough() {
		menu = menu[:11]
	}
	h.Product([]int{len(menu), len(menu), len(menu), 2}, func(ix []int) {
		ix = append([]int{}, ix...)
		e.Casef(func(t *h.T) {
			st, err := mem.NewProvider().OpenStore("s")
			t.Must(err, "open")
			m := sStore{}
			var ops []spi.Operation
			for i, k := range storeKeys {
				if menu[ix[i]] == "-" {
					continue
				}
				v := fmt.Sprint("v", i)
				m[k] = sEntry{v, tg(menu[ix[i]])}
				if ix[3] == 0 {
					t.Must(st.Put(k, []byte(v), tg(menu[ix[i]])...), "put")
				} else {
					ops = append(ops, spi.Operation{Key: k, Value: []byte(v), Tags: tg(menu[ix[i]])})
				}
			}
			if ops != nil {
				t.Must(st.Batch(ops), "batch")
			}
			t.Step("%s", m.canon())
			t.State(m.canon())
			observeStore(t, st, m)
		}, "contents/%v", ix)
	})
	for n := 0; n <= e.Pick(70, 300); n++ {
		n := n
		e.Casef(func(t *h.T) {
			st, err := mem.NewProvider().OpenStore("s")
			t.Must(err, "open")
			m := sStore{}
			keys := []string{"absent"}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("key%d", i)
				keys = append(keys, k)
				tags := fmt.Sprintf("A=%d,B=%d", i%3, i%2)
				t.Must(st.Put(k, []byte(k), tg(tags)...), "put")
				m[k] = sEntry{k, tg(tags)}
			}
			t.Step("%d entries", n)
			for _, q := range storeQueries {
				want, ok := m.query(q)
				it, err := st.Query(q)
				if (err == nil) != ok {
					t.Fatal("Query(%s): %v", q, err)
				}
				if !ok {
					continue
				}
				got := map[string]sEntry{}
				for {
					more, err := it.Next()
					t.Must(err, "next")
					if !more || len(got) > n {
						break
					}
					k, _ := it.Key()
					v, _ := it.Value()
					tgs, _ := it.Tags()
					got[k] = sEntry{string(v), tgs}
				}
				if resCanon(got) != resCanon(want) {
					t.Fatal("Query(%s) over %d entries gave %d entries, model %d", q, n, len(got), len(want))
				}
			}
			vs, err := st.GetBulk(keys...)
			t.Must(err, "bulk")
			for i, k := range keys {
				if e, ok := m[k]; ok != (vs[i] != nil) || ok && e.val != string(vs[i]) {
					t.Fatal("GetBulk: %s = %q", k, vs[i])
				}
			}
		}, "large/%d", n)
	}
}

func init() {
	h.Register(&h.Prop{ID: "P26", Gen: p26,
		Rule:   "every sequence of store operations (valid and invalid puts, deletes, batches) up to the depth bound, and every provider history (open/close/config/put through up to three handles), is run on the real in-memory store; after every operation all reads, bulk reads, 22 query expressions, tags, open-store lists and configurations are compared with a map model. A state is the canonical model content.",
		Assume: []string{"callers do not modify byte slices they passed to or got from the store"},
	})
}
