package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P01", Level: "enumerated", Gen: genP01,
		Rule:   "all assignments of descriptors to groups x all lists and trees of submission requirements over the leaf alphabet (all; pick with every count/min/max up to a bound) x every subset of satisfiable descriptors, run through CreateVP, CreateVPArray and MatchSubmissionRequirement; the oracle searches all sets of satisfiable descriptors",
		Assume: []string{"rule pick with count means exactly that many, min and max bound it from below and above, absent bounds do not restrict", "a presentation needs at least one credential"}})
}

// p01Cred satisfies the descriptors in set: it carries one claim for each.
func p01Cred(t *h.T, id string, set ...int) *verifiable.Credential {
	sub := map[string]any{"id": "did:ex:s"}
	for _, i := range set {
		sub[fmt.Sprintf("c%d", i)] = "v"
	}
	vc, err := verifiable.ParseCredentialJSON(map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX}, "id": id, "type": []any{"VerifiableCredential"}, "issuer": "did:ex:i",
		"issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": sub}, verifiable.WithCredDisableValidation())
	t.Must(err, "credential")
	return vc
}

func p01Desc(i int, groups ...string) *presexch.InputDescriptor {
	return &presexch.InputDescriptor{ID: fmt.Sprintf("d%d", i), Group: groups, Constraints: &presexch.Constraints{Fields: []*presexch.Field{{Path: []string{fmt.Sprintf("$.credentialSubject.c%d", i)}}}}}
}

// refReq is the meaning of a requirement: is it met by a set of chosen descriptors.
func refReq(r *presexch.SubmissionRequirement, pd *presexch.PresentationDefinition, chosen map[string]bool) bool {
	n, total := 0, 0
	if r.From != "" {
		seen := map[string]bool{}
		for _, d := range pd.InputDescriptors {
			for _, g := range d.Group {
				if g == r.From && !seen[d.ID] {
					seen[d.ID] = true
					total++
					if chosen[d.ID] {
						n++
					}
				}
			}
		}
	} else {
		for _, c := range r.FromNested {
			total++
			if refReq(c, pd, chosen) {
				n++
			}
		}
	}
	if r.Rule == presexch.All {
		return n == total
	}
	return (r.Count == 0 || n == r.Count) && (r.Min == 0 || n >= r.Min) && (r.Max == 0 || n <= r.Max)
}

func refMet(pd *presexch.PresentationDefinition, chosen map[string]bool) bool {
	if len(pd.SubmissionRequirements) == 0 {
		for _, d := range pd.InputDescriptors {
			if !chosen[d.ID] {
				return false
			}
		}
		return true
	}
	for _, r := range pd.SubmissionRequirements {
		if !refReq(r, pd, chosen) {
			return false
		}
	}
	return true
}

// refFroms lists groups that the requirements name.
func refFroms(rs []*presexch.SubmissionRequirement, m map[string]bool) map[string]bool {
	for _, r := range rs {
		if r.From != "" {
			m[r.From] = true
		}
		refFroms(r.FromNested, m)
	}
	return m
}

func p01Name(rs []*presexch.SubmissionRequirement) string {
	var o []string
	for _, r := range rs {
		s := string(r.Rule)
		if r.Count != 0 {
			s += fmt.Sprintf("=%d", r.Count)
		}
		if r.Min != 0 {
			s += fmt.Sprintf(">%d", r.Min)
		}
		if r.Max != 0 {
			s += fmt.Sprintf("<%d", r.Max)
		}
		if r.From != "" {
			s += " " + r.From
		} else {
			s += p01Name(r.FromNested)
		}
		o = append(o, s)
	}
	return "(" + strings.Join(o, ", ") + ")"
}

// p01Check runs one definition with every subset of satisfiable descriptors.
// p01IDs are the usual ids of descriptors.
var p01IDs = []string{"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"}

func p01Check(t *h.T, ids []string, groups [][]string, reqs []*presexch.SubmissionRequirement, sets []int, creds []*verifiable.Credential) {
	n := len(groups)
	pd := &presexch.PresentationDefinition{ID: "pd", SubmissionRequirements: reqs}
	for i := 0; i < n; i++ {
		d := p01Desc(i, groups[i]...)
		d.ID = ids[i]
		pd.InputDescriptors = append(pd.InputDescriptors, d)
	}
	present := map[string]bool{}
	for _, gs := range groups {
		for _, g := range gs {
			present[g] = true
		}
	}
	undefined := false
	for g := range refFroms(reqs, map[string]bool{}) {
		undefined = undefined || !present[g]
	}
	froms := refFroms(reqs, map[string]bool{})
	used := 0 // the descriptors that requirements refer to
	for i, gs := range groups {
		for _, g := range gs {
			if froms[g] {
				used |= 1 << i
			}
		}
		if len(reqs) == 0 {
			used |= 1 << i
		}
	}
	for _, set := range sets {
		var in []*verifiable.Credential
		for i := 0; i < n; i++ {
			if set>>i&1 == 1 {
				in = append(in, creds[i])
			}
		}
		solvable := false
		for m := 1; m < 1<<n; m++ {
			if m&^(set&used) != 0 {
				continue
			}
			c := map[string]bool{}
			for i := 0; i < n; i++ {
				c[ids[i]] = m>>i&1 == 1
			}
			if refMet(pd, c) {
				solvable = true
				break
			}
		}
		vp, err := pd.CreateVP(in, fx.Loader())
		t.Step("%b: %v", set, err == nil)
		t.State(fmt.Sprintf("%v %s %b", groups, p01Name(reqs), set))
		switch {
		case undefined:
			if err == nil {
				t.FailSub("undefined", "requirement on an undefined group accepted with credentials for %b", set)
			}
			continue
		case err == nil && !solvable:
			t.FailSub("created", "presentation created from credentials for descriptors %b although the requirements cannot be met: %s", set, h.JSON(vp.CustomFields))
		case err != nil && solvable:
			t.FailSub("refused", "no presentation from credentials for descriptors %b although the requirements can be met: %v", set, err)
		case err != nil && !errors.Is(err, presexch.ErrNoCredentials):
			t.FailSub("error", "credentials for %b: unexpected error %v", set, err)
		}
		if err != nil {
			continue
		}
		sub, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		if sub == nil || sub.DefinitionID != "pd" {
			t.FailSub("submission", "no submission: %s", h.JSON(vp.CustomFields))
			continue
		}
		chosen := map[string]bool{}
		used := map[string]bool{}
		for _, d := range sub.DescriptorMap {
			chosen[d.ID] = true
			for i, id := range ids {
				if id == d.ID {
					used[fmt.Sprintf("c%d", i)] = true
				}
			}
		}
		var have []string
		for _, c := range vp.Credentials() {
			have = append(have, c.Contents().ID)
		}
		sort.Strings(have)
		if h.JSON(have) != h.JSON(sortedKeys(used)) {
			t.FailSub("credentials", "the submission maps %v but the presentation holds %v", sortedKeys(used), have)
		}
		if !refMet(pd, chosen) {
			t.FailSub("chosen", "the chosen descriptors %v do not meet the requirements", sortedKeys(chosen))
		}
	}
	if undefined {
		return
	}
	// the matcher reports the same tree with the matching credentials of each descriptor
	got, err := pd.MatchSubmissionRequirement(creds[:n], fx.Loader())
	if err != nil {
		t.FailSub("match", "MatchSubmissionRequirement: %v", err)
		return
	}
	var want []any
	var conv func(r *presexch.SubmissionRequirement) any
	leaf := func(from string) (l []any) {
		for i := 0; i < n; i++ {
			for _, g := range groups[i] {
				if g == from || from == "" {
					l = append(l, []any{ids[i], []string{fmt.Sprintf("c%d", i)}})
					break
				}
			}
			if from == "" && len(groups[i]) == 0 {
				l = append(l, []any{ids[i], []string{fmt.Sprintf("c%d", i)}})
			}
		}
		return
	}
	conv = func(r *presexch.SubmissionRequirement) any {
		var ds, ns []any
		if r.From != "" {
			ds = leaf(r.From)
		}
		for _, c := range r.FromNested {
			ns = append(ns, conv(c))
		}
		cnt := r.Count
		if r.Rule == presexch.All {
			cnt = len(ds) + len(ns)
		}
		return []any{r.Rule, cnt, r.Min, r.Max, ds, ns}
	}
	if len(reqs) == 0 {
		l := leaf("")
		want = append(want, []any{presexch.All, len(l), 0, 0, l, nil})
	}
	for _, r := range reqs {
		want = append(want, conv(r))
	}
	var back func(m *presexch.MatchedSubmissionRequirement) any
	back = func(m *presexch.MatchedSubmissionRequirement) any {
		var ds, ns []any
		for _, d := range m.Descriptors {
			var ids []string
			for _, c := range d.MatchedVCs {
				ids = append(ids, c.Contents().ID)
			}
			ds = append(ds, []any{d.ID, ids})
		}
		for _, c := range m.Nested {
			ns = append(ns, back(c))
		}
		return []any{m.Rule, m.Count, m.Min, m.Max, ds, ns}
	}
	var have []any
	for _, m := range got {
		have = append(have, back(m))
	}
	if h.JSON(have) != h.JSON(want) {
		t.FailSub("match", "MatchSubmissionRequirement gives %s, want %s", h.JSON(have), h.JSON(want))
	}
}

func genP01(e *h.Env) {
	type sr = presexch.SubmissionRequirement
	bounds := [][3]int{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, 2, 0}, {0, 0, 1}, {0, 0, 2}, {0, 1, 1}, {0, 1, 2}, {0, 2, 3}, {3, 0, 0}}
	if e.Thorough() {
		bounds = append(bounds, [3]int{0, 3, 0}, [3]int{0, 2, 2}, [3]int{0, 0, 3}, [3]int{1, 1, 2}, [3]int{0, 2, 1}, [3]int{2, 0, 1})
	}
	rules := func(f func(r sr)) {
		f(sr{Rule: presexch.All})
		for _, b := range bounds {
			f(sr{Rule: presexch.Pick, Count: b[0], Min: b[1], Max: b[2]})
		}
	}
	var leaves []*sr
	for _, g := range []string{"A", "B"} {
		rules(func(r sr) { r.From = g; leaves = append(leaves, &r) })
	}
	var trees [][]*sr
	trees = append(trees, nil)
	for _, l := range leaves {
		trees = append(trees, []*sr{l})
	}
	for _, a := range leaves {
		for _, b := range leaves {
			trees = append(trees, []*sr{a, b})
		}
	}
	small := func(l []*sr) []*sr { // all, count 1, count 2, min 1, max 1 of both groups
		var o []*sr
		for _, r := range l {
			if r.Rule == presexch.All || r.Count+r.Min+r.Max == 1 || r.Count == 2 {
				o = append(o, r)
			}
		}
		return o
	}(leaves)
	var nested []*sr
	for _, a := range small {
		rules(func(r sr) {
			if r.Count <= 1 && r.Min <= 1 && r.Max <= 1 {
				r.FromNested = []*sr{a}
				nested = append(nested, &r)
			}
		})
		for _, b := range small {
			rules(func(r sr) {
				if r.Count <= 2 && r.Min <= 2 && r.Max <= 2 {
					r.FromNested = []*sr{a, b}
					nested = append(nested, &r)
				}
			})
		}
	}
	var assign [][][]string
	gm := [][]string{nil, {"A"}, {"B"}, {"A", "B"}}
	maxN := 3
	for n := 1; n <= maxN; n++ {
		for _, ix := range lists(4, n) {
			var a [][]string
			for _, i := range ix {
				a = append(a, gm[i])
			}
			assign = append(assign, a)
		}
	}
	runIDs := func(ids []string, a [][]string, reqs []*sr, what string) {
		e.Casef(func(t *h.T) {
			var sets []int
			for m := 0; m < 1<<len(a); m++ {
				sets = append(sets, m)
			}
			cs := make([]*verifiable.Credential, len(a))
			for i := range cs {
				cs[i] = p01Cred(t, fmt.Sprintf("c%d", i), i)
			}
			p01Check(t, ids, a, reqs, sets, cs)
		}, "%s %v %s", what, a, p01Name(reqs))
	}
	run := func(a [][]string, reqs []*sr, what string) { runIDs(p01IDs, a, reqs, what) }
	for _, a := range assign {
		for _, tr := range trees {
			if len(tr) == 2 && !e.Thorough() && (!sortedGroups(a) || !inSmall(small, tr[0]) || !inSmall(small, tr[1])) {
				continue
			}
			run(a, tr, "flat")
		}
		if e.Stopped() {
			return
		}
	}
	A, B, AB := []string{"A"}, []string{"B"}, []string{"A", "B"}
	mixed := [][][]string{{A, AB, B}}
	if e.Thorough() {
		mixed = [][][]string{{A, AB, B}, {A, B, AB}, {AB, A, B}, {A, A, B}, {B, A, A}, {A, B}, {AB, AB}, {A, nil, B}, {AB, AB, A}}
	}
	for _, a := range mixed {
		for i, r := range nested {
			run(a, []*sr{r}, "nested")
			if e.Thorough() {
				run(a, []*sr{small[i%len(small)], r}, "nested after leaf")
				run(a, []*sr{{Rule: presexch.Pick, Min: 1, FromNested: []*sr{r, small[i%len(small)]}}}, "nested twice")
			}
		}
		if e.Stopped() {
			return
		}
	}
	// longer lists of descriptors: the search order, exclusion and its carries
	long := [][][]string{{A, A, A, A, A}, {A, B, A, B, A}, {B, B, AB, A, A}, {AB, A, nil, B, AB}}
	if e.Thorough() {
		long = append(long, [][]string{A, A, A, A, A, A}, [][]string{A, B, AB, A, B, AB}, [][]string{AB, AB, AB, B, B, A}, [][]string{A, A, B, B, A, A, B})
	}
	for _, a := range long {
		for _, tr := range [][]*sr{nil, {leaves[0]}, {leaves[1]}, {leaves[2]}, {leaves[3]}, {leaves[4]}, {leaves[5]}, {leaves[6]}, {leaves[8]}, {leaves[9]}, {leaves[10]}} {
			run(a, tr, "long")
			if len(tr) == 1 {
				run(a, []*sr{tr[0], small[len(small)-1]}, "long")
				run(a, []*sr{tr[0], {Rule: presexch.Pick, Count: 2, From: "B"}}, "long")
				run(a, []*sr{{Rule: presexch.Pick, Count: 1, FromNested: []*sr{tr[0], {Rule: presexch.All, From: "B"}}}}, "long")
			}
		}
	}
	// names of groups and descriptors that are nearly the same
	for _, g := range [][2]string{{"A", "a"}, {"g", "g1"}, {"1", "01"}, {"A", "A "}, {"A", "A,B"}, {"é", "e\u0301"}, {"a.b", "a"}, {"*", "A"}} {
		for k := 0; k < 2; k++ {
			x, y := []string{g[k]}, []string{g[1-k]}
			both := []string{g[1-k], g[k]}
			for _, a := range [][][]string{{x, y}, {y, x, y}, {both, y}, {x, both, y}} {
				for _, r := range []sr{{Rule: presexch.All}, {Rule: presexch.Pick, Count: 1}, {Rule: presexch.Pick, Min: 1}, {Rule: presexch.Pick, Max: 1}, {Rule: presexch.Pick, Min: 2}} {
					r.From = g[k]
					run(a, []*sr{&r}, "near names")
					run(a, []*sr{&r, {Rule: presexch.All, From: g[1-k]}}, "near names")
					run(a, []*sr{{Rule: presexch.Pick, Count: 1, FromNested: []*sr{&r, {Rule: presexch.All, From: g[1-k]}}}}, "near names")
				}
			}
		}
	}
	for _, ids := range [][]string{{"d", "D", "d "}, {"1", "10", "01"}, {"a", "a,b", "b"}, {"a|b", "a", "b"}, {"x", "x/x", "x.x"}, {"é", "e\u0301", "e"}, {"*", "**", "$"}} {
		for _, a := range [][][]string{{A, A, A}, {A, B, A}, {AB, B, A}} {
			for i, tr := range trees {
				if len(tr) < 2 || i%7 == 0 {
					runIDs(ids, a, tr, fmt.Sprintf("ids %q", ids))
				}
			}
		}
	}
	// definitions with repeated descriptor ids
	for _, a := range [][][]string{{nil, nil}, {A, A}, {A, B}, {A, nil, A}} {
		for _, tr := range [][]*sr{nil, {leaves[0]}, {leaves[2]}} {
			e.Casef(func(t *h.T) {
				pd := &presexch.PresentationDefinition{ID: "pd", SubmissionRequirements: tr}
				for _, g := range a {
					pd.InputDescriptors = append(pd.InputDescriptors, p01Desc(0, g...))
				}
				_, err := pd.CreateVP([]*verifiable.Credential{p01Cred(t, "c0", 0)}, fx.Loader())
				t.Step("%v", err)
				_, err = pd.CreateVP(nil, fx.Loader())
				if err == nil {
					t.Fail("presentation created without credentials")
				}
			}, "repeated ids %v %s", a, p01Name(tr))
		}
	}
}

func sortedGroups(a [][]string) bool {
	for i := 1; i < len(a); i++ {
		if fmt.Sprint(a[i-1]) > fmt.Sprint(a[i]) {
			return false
		}
	}
	return true
}

func inSmall(s []*presexch.SubmissionRequirement, r *presexch.SubmissionRequirement) bool {
	for _, x := range s {
		if x == r {
			return true
		}
	}
	return false
}
