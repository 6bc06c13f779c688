package props

import (
	"encoding/json"
	"fmt"
	"sort"
)

// parseAny decodes JSON bytes (nil if they are none).
func parseAny(b []byte) any {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return nil
	}
	return v
}

// deepCopy copies a JSON value.
func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, e := range x {
			a[i] = deepCopy(e)
		}
		return a
	}
	return v
}

func copyObj(m map[string]any) map[string]any { return deepCopy(m).(map[string]any) }

func parseObj(s string) map[string]any {
	m, ok := parseAny([]byte(s)).(map[string]any)
	if !ok {
		panic("bad JSON object " + s)
	}
	return m
}

// jmut is one changed copy of a JSON value.
type jmut struct {
	what string
	doc  any
}

// semMutations returns every single change of a JSON value that alters what it says also under
// JSON-LD equivalence (no re-ordering, no wrapping in arrays): every leaf changed, every member
// or element removed, a member added to every object, an element added to every array.
func semMutations(v any) []jmut {
	var out []jmut
	walkMut(v, "", func(x any) any { return x }, func(what string, doc any) { out = append(out, jmut{what, doc}) })
	return out
}

// walkMut visits node x at path; rebuild puts a replacement of the node in a copy of the root.
func walkMut(x any, path string, rebuild func(any) any, emit func(string, any)) {
	switch n := x.(type) {
	case map[string]any:
		for _, k := range sortedKeys(n) {
			k := k
			del := copyObj(n)
			delete(del, k)
			emit("remove "+path+"/"+k, rebuild(del))
			walkMut(n[k], path+"/"+k, func(r any) any {
				m := copyObj(n)
				m[k] = r
				return rebuild(m)
			}, emit)
		}
		add := copyObj(n)
		add["xmut"] = "added"
		emit("add member to "+path, rebuild(add))
	case []any:
		for i := range n {
			i := i
			del := append(append([]any{}, n[:i]...), n[i+1:]...)
			emit(fmt.Sprintf("remove %s/%d", path, i), rebuild(del))
			walkMut(n[i], fmt.Sprintf("%s/%d", path, i), func(r any) any {
				a := append([]any{}, n...)
				a[i] = r
				return rebuild(a)
			}, emit)
		}
		var e any = "urn:xmut"
		if len(n) > 0 {
			if o, ok := n[0].(map[string]any); ok {
				oo := copyObj(o)
				oo["xmut"] = "added"
				e = oo
			}
		}
		emit("add element to "+path, rebuild(append(append([]any{}, n...), e)))
	case string:
		emit("change "+path, rebuild(n+"x"))
		if n != "" {
			emit("empty "+path, rebuild(""))
		}
	case bool:
		emit("flip "+path, rebuild(!n))
	case float64:
		emit("increase "+path, rebuild(n+1))
	case nil:
		emit("set "+path, rebuild("was null"))
	default:
		emit("replace "+path, rebuild("replaced"))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// longLists are lists of n elements: all good, and with one bad element at the beginning, in the middle, and at and
// next to the end. good and bad are indices of elements.
func longLists(n int, good, bad []int) (out [][]int) {
	mk := func() []int {
		l := make([]int, n)
		for i := range l {
			l[i] = good[i%len(good)]
		}
		return l
	}
	out = append(out, mk())
	for _, b := range bad {
		for _, p := range []int{0, n / 2, n - 2, n - 1} {
			l := mk()
			l[p] = b
			out = append(out, l)
		}
	}
	return
}
