package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	jsonutil "github.com/trustbloc/vc-go/util/json"
	"github.com/trustbloc/vc-go/util/maphelpers"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

type p29In struct {
	X string `json:"x,omitempty"`
	Y []int  `json:"y,omitempty"`
}

type p29S struct {
	A string         `json:"a"`
	B string         `json:"b,omitempty"`
	C *p29In         `json:"c,omitempty"`
	D float64        `json:"d,omitempty"`
	E map[string]any `json:"e,omitempty"`
	F *string        `json:"f"`
	G []int          `json:"g"`
}

func jclone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, e := range x {
			o[k] = jclone(e)
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i, e := range x {
			o[i] = jclone(e)
		}
		return o
	}
	return v
}

func jmap(v map[string]any) map[string]any { return jclone(v).(map[string]any) }

// mutateDeep writes into every container reachable from v.
func mutateTop(m map[string]any) {
	for k := range m {
		m[k] = "overwritten"
	}
	m["added"] = true
}

func init() {
	h.Register(&h.Prop{
		ID:     "P29",
		Rule:   "structures (2^6 field states, null among them) x custom-field maps of up to three names over {a..g,x,A,z,@context,''} and eight value shapes; all JSON objects of the same alphabet x all name lists for split/select/except/copy helpers; oracle: plain map model and input snapshots",
		Assume: []string{"numbers are within the exact range of float64"},
		Gen:    genP29,
	})
}

func genP29(e *h.Env) {
	vals := []any{nil, "", "s", float64(0), 1.5, true, []any{}, []any{"p", map[string]any{"q": 1.0}}, map[string]any{}, map[string]any{"x": "in", "n": map[string]any{"m": 2.0}}}
	names := []string{"a", "b", "c", "d", "e", "f", "g", "x", "A", "z", "@context", ""}
	var structs []p29S
	for m := 0; m < 64; m++ {
		s := p29S{}
		if m&1 != 0 {
			s.A = "va"
		}
		if m&2 != 0 {
			s.B = "vb"
		}
		if m&4 != 0 {
			s.C = &p29In{X: "i", Y: []int{1, 2}}
		}
		if m&8 != 0 {
			s.D = 2.5
		}
		if m&16 != 0 {
			s.E = map[string]any{"k": map[string]any{"l": "deep"}}
		}
		if m&32 != 0 {
			f := ""
			s.F, s.G = &f, []int{}
		}
		structs = append(structs, s)
	}
	// custom maps: all with up to width entries
	width := e.Pick(2, 3)
	var objs []map[string]any
	var rec func(i int, cur map[string]any)
	rec = func(i int, cur map[string]any) {
		objs = append(objs, jmap(cur))
		if len(cur) == width {
			return
		}
		for j := i; j < len(names); j++ {
			for _, v := range vals {
				cur[names[j]] = v
				rec(j+1, cur)
				delete(cur, names[j])
			}
		}
	}
	rec(0, map[string]any{})
	e.Note("structures", len(structs))
	e.Note("objects", len(objs))
	const chunk = 64
	for si := range structs {
		for o := 0; o < len(objs); o += chunk {
			si, o := si, o
			e.Casef(func(t *h.T) {
				for i := o; i < o+chunk && i < len(objs); i++ {
					p29Custom(t, structs[si], objs[i])
					if t.Failed() {
						return
					}
				}
			}, "custom/s%d/o%d", si, o)
		}
	}
	// helpers
	lists := [][]string{{}, {"a"}, {"a", "b"}, {"a", "a"}, {"z", "@context"}, {"nope"}, {"a", "nope", "e"}, {"A", ""}}
	for o := 0; o < len(objs); o += chunk {
		o := o
		e.Casef(func(t *h.T) {
			for i := o; i < o+chunk && i < len(objs); i++ {
				for _, l := range lists {
					p29Helpers(t, objs[i], l)
					if t.Failed() {
						return
					}
				}
			}
		}, "helpers/o%d", o)
	}
}

func p29Custom(t *h.T, s p29S, cf map[string]any) {
	in := jmap(cf)
	desc := h.JSON(s) + " + " + h.JSON(cf)
	t.Step("marshal %s", desc)
	sj := map[string]any{}
	b, _ := json.Marshal(s)
	_ = json.Unmarshal(b, &sj)
	want := jmap(sj)
	for k, v := range cf {
		if _, ok := sj[k]; !ok {
			want[k] = jclone(v)
		}
	}
	out, err := jsonutil.MarshalWithCustomFields(s, in)
	if err != nil {
		t.Fail("marshal %s: %v", desc, err)
		return
	}
	var got map[string]any
	if json.Unmarshal(out, &got) != nil || !reflect.DeepEqual(got, want) {
		t.Fail("marshal %s gives %s, expected %s", desc, out, h.JSON(want))
	}
	if !reflect.DeepEqual(in, cf) {
		t.Fail("marshal %s changed the custom fields to %s", desc, h.JSON(in))
	}
	mg, err := jsonutil.MergeCustomFields(s, in)
	if err != nil || !reflect.DeepEqual(mg, want) {
		t.Fail("merge %s gives %s %v", desc, h.JSON(mg), err)
	}
	if mg != nil {
		mutateTop(mg)
	}
	if !reflect.DeepEqual(in, cf) {
		t.Fail("merge %s shares its result with the custom fields", desc)
	}
	base := jmap(sj)
	jsonutil.AddCustomFields(base, in)
	if !reflect.DeepEqual(base, want) || !reflect.DeepEqual(in, cf) {
		t.Fail("add %s gives %s", desc, h.JSON(base))
	}
	// back
	var s2 p29S
	cf2 := map[string]any{"kept": 1.0}
	if bad := json.Unmarshal(out, &p29S{}); bad != nil {
		if err := jsonutil.UnmarshalWithCustomFields(out, &s2, cf2); err == nil {
			t.Fail("unmarshal of %s accepted", out)
		}
		t.State("reject")
		return
	}
	if err := jsonutil.UnmarshalWithCustomFields(out, &s2, cf2); err != nil {
		t.Fail("unmarshal %s: %v", out, err)
		return
	}
	var refS p29S
	_ = json.Unmarshal(out, &refS)
	if !reflect.DeepEqual(s2, refS) {
		t.Fail("unmarshal %s gives %+v", out, s2)
	}
	rb, _ := json.Marshal(refS)
	rm := map[string]any{}
	_ = json.Unmarshal(rb, &rm)
	wantCF := map[string]any{"kept": 1.0}
	for k, v := range want {
		if _, ok := rm[k]; !ok {
			wantCF[k] = v
		}
	}
	if !reflect.DeepEqual(cf2, wantCF) {
		t.Fail("unmarshal %s: custom fields %s, expected %s", out, h.JSON(cf2), h.JSON(wantCF))
	}
	// when no custom name belongs to the structure, the structure comes back as it was
	coll := false
	for k := range cf {
		for _, n := range []string{"a", "b", "c", "d", "e", "f", "g"} {
			if strings.EqualFold(k, n) {
				coll = true
			}
		}
	}
	if !coll {
		delete(cf2, "kept")
		if !reflect.DeepEqual(s2, s) || !reflect.DeepEqual(cf2, cf) {
			t.Fail("round trip of %s gives %s + %s", desc, h.JSON(s2), h.JSON(cf2))
		}
	}
	ks := make([]string, 0)
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t.State(fmt.Sprint(ks))
}

func p29Helpers(t *h.T, obj map[string]any, l []string) {
	t.Step("helpers %s %v", h.JSON(obj), l)
	has := map[string]bool{}
	for _, n := range l {
		has[n] = true
	}
	sel, rest := map[string]any{}, map[string]any{}
	for k, v := range obj {
		if has[k] {
			sel[k] = v
		} else {
			rest[k] = v
		}
	}
	in := jmap(obj)
	chk := func(what string, got, want map[string]any, lenient bool) {
		g := jmap(got)
		if lenient {
			for k, v := range g {
				if _, ok := obj[k]; !ok && v == nil {
					delete(g, k) // an absent name may be reported as null
				}
			}
		}
		if !reflect.DeepEqual(g, want) {
			t.Fail("%s(%s,%v) = %s, expected %s", what, h.JSON(obj), l, h.JSON(got), h.JSON(want))
		}
		if got != nil {
			mutateTop(got)
		}
		if !reflect.DeepEqual(in, obj) {
			t.Fail("%s(%s,%v) shares its result with the input or changed it: %s", what, h.JSON(obj), l, h.JSON(in))
		}
	}
	a, b := jsonutil.SplitJSONObj(in, l...)
	chk("split-rest", b, rest, false)
	chk("split", a, sel, false)
	chk("except", jsonutil.CopyExcept(in, l...), rest, false)
	chk("select", jsonutil.Select(in, l...), sel, true)
	chk("shallow", jsonutil.ShallowCopyObj(in), obj, false)
	tm, err := jsonutil.ToMap(in)
	if err != nil {
		t.Fail("ToMap: %v", err)
	}
	chk("tomap", tm, obj, false)
	for _, cp := range []struct {
		n string
		f func(map[string]any) map[string]any
	}{{"maphelpers.copymap", maphelpers.CopyMap}} {
		c := cp.f(in)
		if !reflect.DeepEqual(c, obj) {
			t.Fail("%s(%s) = %s", cp.n, h.JSON(obj), h.JSON(c))
		}
		// nested maps are copies too
		var deep func(m map[string]any)
		deep = func(m map[string]any) {
			for _, v := range m {
				if vm, ok := v.(map[string]any); ok {
					deep(vm)
				}
			}
			m["zz-added"] = 1
		}
		deep(c)
		if !reflect.DeepEqual(in, obj) {
			t.Fail("%s(%s) shares a nested object with its input", cp.n, h.JSON(obj))
			return
		}
	}
	t.Statef("%d/%d", len(sel), len(rest))
}
