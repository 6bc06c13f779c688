package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P03", Level: "enumerated", Gen: genP03,
		Rule:   "every presentation that the definitions of the alphabet produce (plain, JWT, CWT, list with a merged submission, straight and after serialisation) is matched again; every submission of up to a number of entries over descriptor ids (known, unknown) x targets (every credential, missing elements, other values, other presentation) x path styles, and all submission requirements, decided by a reference; every single change of definition id, context and type",
		Assume: []string{"formats are not part of matching (they are labels of the submission)"}})
}

// p03Match is one accepted mapping: descriptor, credential, presentation.
type p03Match struct{ desc, mark, vp string }

func p03Got(l []*presexch.MatchValue) (o []string) {
	for _, m := range l {
		o = append(o, fmt.Sprint(p03Match{m.DescriptorID, pxMark(m.Credential), m.PresentationID}))
	}
	sort.Strings(o)
	return
}

func p03Str(l []p03Match) (o []string) {
	for _, m := range l {
		o = append(o, fmt.Sprint(m))
	}
	sort.Strings(o)
	return
}

func presParse(t *h.T, s string) *verifiable.Presentation {
	vp, err := verifiable.ParsePresentation([]byte(s), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader()), verifiable.WithDisabledJSONLDChecks())
	t.Must(err, "parse presentation")
	return vp
}

// p03VPForms turns a created presentation into what a verifier may receive.
func p03VPForms(t *h.T, k pxKeys, vp *verifiable.Presentation, jwt bool) map[string]*verifiable.Presentation {
	b, err := vp.MarshalJSON()
	t.Must(err, "marshal presentation")
	if jwt {
		s := credForm{name: "jwt", family: "jwt"}.secureVP(t, k.k, parseObj(string(b)))
		return map[string]*verifiable.Presentation{"jwt": presParse(t, s)}
	}
	o := map[string]*verifiable.Presentation{"direct": vp, "json": presParse(t, string(b))}
	// the legacy path style also works on JWT presentations
	o["jwt-legacy"] = presParse(t, credForm{name: "jwt", family: "jwt"}.secureVP(t, k.k, parseObj(string(b))))
	o["cwt-legacy"] = presParse(t, credForm{name: "cwt", family: "cwt"}.secureVP(t, k.k, parseObj(string(b))))
	return o
}

func p03RoundTrip(t *h.T, k pxKeys, name string, def map[string]any, items []pxItem, met func(d string, it pxItem) bool) {
	pd := pxPD(t, def)
	var creds []*verifiable.Credential
	for _, it := range items {
		creds = append(creds, it.vc)
	}
	ids := func(vpID string) (w []string) {
		var l []p03Match
		for _, d := range pd.InputDescriptors {
			for _, it := range items {
				if met(d.ID, it) {
					l = append(l, p03Match{d.ID, it.mark, vpID})
				}
			}
		}
		return p03Str(l)
	}
	for _, format := range []string{"", presexch.FormatJWTVP} {
		opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(pxOpts()...)}
		if format != "" {
			opts = append(opts, presexch.WithDefaultPresentationFormat(format))
		}
		vp, err := pd.CreateVP(creds, fx.Loader(), opts...)
		if err != nil {
			return
		}
		forms := p03VPForms(t, k, vp, format != "")
		for _, f := range sortedKeys(forms) {
			got, err := pd.Match([]*verifiable.Presentation{forms[f]}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
			t.Step("%s %s", name, f)
			if err != nil {
				t.FailSub("own-"+f, "%s: a presentation made for the definition is refused: %v", name, err)
				continue
			}
			want := ids(forms[f].ID)
			t.Statef("%s %s %v", name, f, len(want))
			if h.JSON(p03Got(got)) != h.JSON(want) {
				t.FailSub("own-result-"+f, "%s: matched %v, want %v", name, p03Got(got), want)
			}
		}
	}
	vps, sub, err := pd.CreateVPArray(creds, fx.Loader(), presexch.WithSDCredentialOptions(pxOpts()...))
	if err != nil {
		return
	}
	var m map[string]any
	t.Must(json.Unmarshal([]byte(h.JSON(sub)), &m), "submission")
	for i, o := range []presexch.MatchOption{presexch.WithMergedSubmission(sub), presexch.WithMergedSubmissionMap(m)} {
		got, err := pd.Match(vps, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), o)
		t.Step("%s merged %d", name, i)
		if err != nil {
			t.FailSub("own-merged", "%s: presentations made for the definition are refused: %v", name, err)
			continue
		}
		var have, want []string
		for _, x := range got {
			have = append(have, x.DescriptorID+" "+pxMark(x.Credential))
			found := false
			for _, vp := range vps {
				found = found || vp.ID == x.PresentationID && pxMark(vp.Credentials()[0]) == pxMark(x.Credential)
			}
			if !found {
				t.FailSub("own-merged-vp", "%s: credential %s is not in the reported presentation", name, pxMark(x.Credential))
			}
		}
		for _, d := range pd.InputDescriptors {
			for _, it := range items {
				if met(d.ID, it) {
					want = append(want, d.ID+" "+it.mark)
				}
			}
		}
		sort.Strings(have)
		sort.Strings(want)
		if h.JSON(have) != h.JSON(want) {
			t.FailSub("own-merged-result", "%s: matched %v, want %v", name, have, want)
		}
	}
}

// p03Target is what a submission entry points at.
type p03Target struct {
	name  string
	entry map[string]any // without id
	vp    int            // index of the presentation it names, or -1
	cred  int            // index of the credential there, -1 when it names none
}

func p03Entry(steps ...string) map[string]any {
	var m map[string]any
	for i := len(steps) - 1; i >= 0; i-- {
		n := map[string]any{"path": steps[i], "format": "ldp_vp"}
		if m != nil {
			n["path_nested"] = m
		}
		m = n
	}
	return m
}

func p03Submission(defID any, ids []string, ts []p03Target) map[string]any {
	l := []any{}
	for i, tg := range ts {
		m := copyObj(tg.entry)
		for c := m; c != nil; {
			c["id"] = ids[i]
			c, _ = c["path_nested"].(map[string]any)
		}
		l = append(l, m)
	}
	s := map[string]any{"id": "sub", "descriptor_map": l}
	if defID != nil {
		s["definition_id"] = defID
	}
	return s
}

func p03VP(id string, creds []any, sub any, form string) map[string]any {
	m := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1", presexch.PresentationSubmissionJSONLDContextIRI}, "id": id, "type": []any{"VerifiablePresentation", "PresentationSubmission"},
		"holder": pxIssuer, "verifiableCredential": creds}
	if sub != nil {
		m["presentation_submission"] = sub
	}
	return m
}

func (k pxKeys) wrapVP(t *h.T, form string, vp map[string]any) *verifiable.Presentation {
	switch form {
	case "jwt":
		return presParse(t, credForm{name: "jwt", family: "jwt"}.secureVP(t, k.k, vp))
	case "cwt":
		return presParse(t, credForm{name: "cwt", family: "cwt"}.secureVP(t, k.k, vp))
	}
	return presParse(t, h.JSON(vp))
}

func genP03(e *h.Env) {
	keys := newPxKeys()
	// round trips
	fields := []pxField{
		{[]pxPath{pxPaths[0]}, nil, false}, {[]pxPath{pxPaths[0]}, pxFilters[7], false}, {[]pxPath{pxPaths[0]}, pxFilters[7], true}, {[]pxPath{pxPaths[0]}, pxFilters[23], false},
		{[]pxPath{pxPaths[1]}, pxFilters[18], false}, {[]pxPath{pxPaths[4]}, pxFilters[8], false}, {[]pxPath{pxPaths[5]}, pxFilters[25], false},
		{[]pxPath{pxPaths[15]}, pxFilters[1], false}, {[]pxPath{pxPaths[21]}, pxFilters[1], true}, {[]pxPath{pxPaths[16]}, nil, false},
	}
	for i, a := range fields {
		e.Casef(func(t *h.T) {
			for _, forms := range [][]string{{"json"}, {"jwt"}, {"sdjwt2"}, {"sdjwt5"}, {"cwt"}, {"ld"}, {"json", "jwt", "sdjwt5", "cwt"}} {
				var items []pxItem
				for _, f := range forms {
					l := pxItems(t, keys, f)
					if len(forms) > 1 {
						l = l[:2]
					}
					items = append(items, l...)
				}
				var sets [][]pxField
				sets = append(sets, []pxField{a}, []pxField{})
				for j, b := range fields {
					if j > i {
						sets = append(sets, []pxField{a, b})
					}
				}
				for _, fs := range sets { // as fields of one descriptor and as separate descriptors
					p03RoundTrip(t, keys, fmt.Sprint(forms, fs), pxDef(pxDesc("d0", fs...)), items, func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
					if len(fs) == 2 {
						p03RoundTrip(t, keys, fmt.Sprint(forms, fs[0], "|", fs[1]), pxDef(pxDesc("d0", fs[0]), pxDesc("d1", fs[1])), items, func(d string, it pxItem) bool { return fieldsMet(fs[int(d[1]-'0'):int(d[1]-'0')+1], it) })
					}
				}
			}
		}, "round trip %v", a)
	}
	// limited disclosure and predicates
	disclosing := []pxField{fields[0], fields[1], fields[2], fields[4], fields[5], fields[7], {[]pxPath{pxPaths[6]}, pxFilters[4], true}, {[]pxPath{pxPaths[2]}, pxFilters[4], false}, {[]pxPath{pxPaths[7], pxPaths[15]}, nil, false}}
	for _, form := range []string{"json", "jwt", "sdjwt2", "sdjwt5", "cwt", "ld"} {
		for i, a := range disclosing {
			e.Casef(func(t *h.T) {
				items := pxItems(t, keys, form)
				for j, b := range disclosing {
					for flags := 0; flags < 16; flags++ { // predicate on a, on b; limited disclosure in the first, in the second descriptor
						if j == i && flags > 3 || !e.Thorough() && (i+j+flags)%6 != 0 && j != i {
							continue
						}
						mk := func(fs []pxField, pred []bool, limit bool, id string) map[string]any {
							d := pxDesc(id, fs...)
							for n, x := range d["constraints"].(map[string]any)["fields"].([]any) {
								if pred[n] {
									x.(map[string]any)["predicate"] = "required"
								}
							}
							if limit {
								d["constraints"].(map[string]any)["limit_disclosure"] = "required"
							}
							return d
						}
						pa, pb, la, lb := flags&1 != 0, flags&4 != 0, flags&2 != 0, flags&8 != 0
						if pa && a.structural() || pb && b.structural() {
							continue
						}
						can := func(limit, pred bool) bool { return !limit || pred || strings.HasPrefix(form, "sdjwt") }
						name := fmt.Sprintf("%s %v | %v %04b", form, a, b, flags)
						if j == i {
							p03RoundTrip(t, keys, name, pxDef(mk([]pxField{a}, []bool{pa}, la, "d0")), items, func(_ string, it pxItem) bool { return fieldsMet([]pxField{a}, it) && can(la, pa) })
							continue
						}
						p03RoundTrip(t, keys, name, pxDef(mk([]pxField{a}, []bool{pa}, la, "d0"), mk([]pxField{b}, []bool{pb}, lb, "d1")), items, func(d string, it pxItem) bool {
							if d == "d0" {
								return fieldsMet([]pxField{a}, it) && can(la, pa)
							}
							return fieldsMet([]pxField{b}, it) && can(lb, pb)
						})
						if pa != pb && a.paths[0].path == b.paths[0].path {
							continue // one field wants the value, the other forbids it
						}
						p03RoundTrip(t, keys, name+" together", pxDef(mk([]pxField{a, b}, []bool{pa, pb}, la, "d0")), items, func(_ string, it pxItem) bool { return fieldsMet([]pxField{a, b}, it) && can(la, pa || pb) })
					}
				}
			}, "disclosing %s %v", form, a)
		}
	}
	// submissions made by hand: credential 0 satisfies d0, 1 satisfies d1, 2 both, 3 none
	has := [][]bool{{true, false}, {false, true}, {true, true}, {false, false}}
	credDoc := func(i int) map[string]any {
		sub := map[string]any{"id": "did:ex:s"}
		if has[i][0] {
			sub["name"] = "Ann"
		}
		if has[i][1] {
			sub["age"] = float64(20)
		}
		return pxDoc(fmt.Sprintf("m%d", i), sub, nil)
	}
	credJSON := func(t *h.T, i int, form string) any {
		if form == "json" {
			return credDoc(i)
		}
		b, err := keys.cred(t, form, credDoc(i)).MarshalJSON()
		t.Must(err, "marshal")
		return parseAny(b)
	}
	sat := func(d string, c int) bool {
		switch d {
		case "d0":
			return has[c][0]
		case "d1":
			return has[c][1]
		}
		return false
	}
	def := func(reqs []any) map[string]any {
		d := pxDef(pxDesc("d0", pxField{[]pxPath{pxPaths[0]}, nil, false}), pxDesc("d1", pxField{[]pxPath{pxPaths[1]}, nil, false}))
		if reqs != nil {
			d["submission_requirements"] = reqs
			d["input_descriptors"].([]any)[0].(map[string]any)["group"] = []any{"A"}
			d["input_descriptors"].([]any)[1].(map[string]any)["group"] = []any{"A", "B"}
		}
		return d
	}
	reqSets := []struct {
		name string
		reqs []any
		ok   func(d0, d1 bool) bool
	}{
		{"none", nil, func(a, b bool) bool { return a && b }},
		{"all A", []any{map[string]any{"rule": "all", "from": "A"}}, func(a, b bool) bool { return a && b }},
		{"all B", []any{map[string]any{"rule": "all", "from": "B"}}, func(a, b bool) bool { return b }},
		{"pick 1 of A", []any{map[string]any{"rule": "pick", "count": 1, "from": "A"}}, func(a, b bool) bool { return a != b }},
		{"pick min 1 of A", []any{map[string]any{"rule": "pick", "min": 1, "from": "A"}}, func(a, b bool) bool { return a || b }},
		{"pick max 1 of A", []any{map[string]any{"rule": "pick", "max": 1, "from": "A"}}, func(a, b bool) bool { return !(a && b) }},
		{"pick 1 of A and all B", []any{map[string]any{"rule": "pick", "count": 1, "from": "A"}, map[string]any{"rule": "all", "from": "B"}}, func(a, b bool) bool { return b && !a }},
		{"nested", []any{map[string]any{"rule": "pick", "count": 1, "from_nested": []any{map[string]any{"rule": "all", "from": "A"}, map[string]any{"rule": "all", "from": "B"}}}}, func(a, b bool) bool { return b && !a }},
	}
	ids := []string{"d0", "d1", "dx", ""}
	judge := func(t *h.T, what string, pd *presexch.PresentationDefinition, vps []*verifiable.Presentation, ts []p03Target, entryIDs []string, reqOK func(a, b bool) bool, place func(vp, cred int) int, opts ...presexch.MatchOption) {
		ok := true
		sub := map[string]bool{}
		var want []p03Match
		for i, tg := range ts {
			c := -1
			if tg.vp >= 0 && tg.cred >= 0 {
				c = place(tg.vp, tg.cred)
			}
			if c < 0 || !sat(entryIDs[i], c) {
				ok = false
				continue
			}
			sub[entryIDs[i]] = true
			want = append(want, p03Match{entryIDs[i], fmt.Sprintf("m%d", c), vps[tg.vp].ID})
		}
		ok = ok && reqOK(sub["d0"], sub["d1"])
		got, err := pd.Match(vps, fx.Loader(), append(opts, presexch.WithCredentialOptions(pxOpts()...))...)
		t.Step("%s: %v", what, err == nil)
		t.Statef("%s %v", what, ok)
		if err == nil && !ok {
			t.FailSub("accepted", "%s: accepted as %v", what, p03Got(got))
		}
		if err != nil && ok {
			t.FailSub("refused", "%s: refused: %v", what, err)
		}
		if err == nil && ok && h.JSON(p03Got(got)) != h.JSON(p03Str(want)) {
			t.FailSub("result", "%s: matched %v, want %v", what, p03Got(got), p03Str(want))
		}
	}
	// one presentation with its own submission
	single := func(form string) (l []p03Target) {
		root := "$"
		if form == "jwt" {
			root = "$.vp"
		}
		for i := 0; i < 4; i++ {
			l = append(l, p03Target{fmt.Sprintf("c%d", i), p03Entry("$", fmt.Sprintf("%s.verifiableCredential[%d]", root, i)), 0, i})
		}
		l = append(l, p03Target{"direct c2", p03Entry(root + ".verifiableCredential[2]"), 0, 2},
			p03Target{"missing element", p03Entry("$", root+".verifiableCredential[4]"), 0, -1},
			p03Target{"the list", p03Entry("$", root+".verifiableCredential"), 0, -1},
			p03Target{"the holder", p03Entry(root + ".holder"), 0, -1},
			p03Target{"missing member", p03Entry(root + ".absent"), 0, -1},
			p03Target{"the submission", p03Entry(root + ".presentation_submission"), 0, -1},
			p03Target{"a subject", p03Entry("$", root+".verifiableCredential[2].credentialSubject"), 0, -1},
			p03Target{"bad path", p03Entry("$["), 0, -1},
			p03Target{"no path", p03Entry(""), 0, -1})
		if e.Thorough() {
			l = append(l, p03Target{"nested thrice", p03Entry("$", root, "$.verifiableCredential[2]"), 0, 2}, p03Target{"direct c3", p03Entry(root + ".verifiableCredential[3]"), 0, 3}, p03Target{"wildcard", p03Entry("$", root+".verifiableCredential[*]"), 0, -1})
		}
		return
	}
	for _, form := range []string{"json", "jwt", "cwt"} {
		ts := single(form)
		for _, cform := range []string{"json", "jwt", "sdjwt5", "cwt"} {
			if !e.Thorough() && cform != "json" && form != "json" {
				continue
			}
			for a := range ts {
				for ia, id := range ids {
					e.Casef(func(t *h.T) {
						var creds []any
						for i := range has {
							creds = append(creds, credJSON(t, i, cform))
						}
						try := func(idx []int, eids []string) {
							var sel []p03Target
							var names []string
							for n, i := range idx {
								sel = append(sel, ts[i])
								names = append(names, eids[n]+"->"+ts[i].name)
							}
							for _, rs := range reqSets {
								if !e.Thorough() && cform != "json" && rs.reqs != nil {
									continue
								}
								vp := keys.wrapVP(t, form, p03VP("urn:vp", creds, p03Submission("pd", eids, sel), form))
								judge(t, fmt.Sprint(names, " with ", rs.name), pxPD(t, def(rs.reqs)), []*verifiable.Presentation{vp}, sel, eids, rs.ok, func(vp, c int) int { return c })
							}
						}
						try([]int{a}, []string{id})
						for b := range ts {
							for ib, id2 := range ids {
								if ib > 1 && ia > 1 {
									continue
								}
								try([]int{a, b}, []string{id, id2})
							}
						}
						if a < 4 && ia < 2 { // three entries over the credentials
							for b := 0; b < 4; b++ {
								for c := 0; c < 4; c++ {
									for _, x := range ids[:2] {
										for _, y := range ids[:3] {
											if (e.Thorough() || cform == "json" && form == "json") && (e.Thorough() || b != a) {
												try([]int{a, b, c}, []string{id, x, y})
											}
										}
									}
								}
							}
						}
					}, "submission %s %s %s->%s", form, cform, id, ts[a].name)
				}
			}
		}
	}
	// lists of presentations with a merged submission
	var mts []p03Target
	for v := 0; v < 2; v++ {
		for c := 0; c < 2; c++ {
			mts = append(mts, p03Target{fmt.Sprintf("vp%d c%d", v, c), p03Entry(fmt.Sprintf("$[%d]", v), fmt.Sprintf("$.verifiableCredential[%d]", c)), v, c})
		}
	}
	mts = append(mts, p03Target{"direct vp1 c0", p03Entry("$[1].verifiableCredential[0]"), 1, 0}, p03Target{"root first vp1 c0", p03Entry("$", "$[1]", "$.verifiableCredential[0]"), 1, 0},
		p03Target{"missing vp", p03Entry("$[2]", "$.verifiableCredential[0]"), 2, -1}, p03Target{"far vp", p03Entry("$[99].verifiableCredential[0]"), 2, -1}, p03Target{"missing element", p03Entry("$[1]", "$.verifiableCredential[2]"), 1, -1},
		p03Target{"no vp", p03Entry("$.verifiableCredential[0]"), -1, -1}, p03Target{"all vps", p03Entry("$[*]", "$.verifiableCredential[0]"), -1, -1}, p03Target{"last vp", p03Entry("$[-1]", "$.verifiableCredential[0]"), -1, -1},
		p03Target{"other vp inside", p03Entry("$", "$[0]", "$[1].verifiableCredential[0]"), -1, -1}, p03Target{"the list", p03Entry("$[0]", "$.verifiableCredential"), 0, -1})
	// many presentations: indices of several digits
	for _, n := range []int{12, 101, 1001}[:e.Pick(2, 3)] {
		form := "json"
		var idx []int
		for _, v := range []int{0, 1, 2, 8, 9, 10, 11, 12, 99, 100, 101, 110, 999, 1000, 1001} {
			if v <= n {
				idx = append(idx, v)
			}
		}
		for _, v := range idx {
			e.Casef(func(t *h.T) {
				var vps []*verifiable.Presentation
				for i := 0; i < n; i++ {
					vps = append(vps, keys.wrapVP(t, form, p03VP(fmt.Sprintf("urn:vp%d", i), []any{credDoc(i % 4), credDoc((i/10 + 1) % 4)}, nil, form)))
				}
				place := func(v, c int) int { return []int{v % 4, (v/10 + 1) % 4}[c] }
				target := func(v, c int, direct bool) p03Target {
					en := p03Entry(fmt.Sprintf("$[%d]", v), fmt.Sprintf("$.verifiableCredential[%d]", c))
					if direct {
						en = p03Entry(fmt.Sprintf("$[%d].verifiableCredential[%d]", v, c))
					}
					if v >= n {
						c = -1
					}
					return p03Target{fmt.Sprintf("vp%d c%d", v, c), en, v, c}
				}
				for _, direct := range []bool{true, false} {
					for c := 0; c < 2; c++ {
						for _, id := range ids[:2] {
							try := func(sel []p03Target, eids []string) {
								for i := range sel {
									if sel[i].cred < 0 {
										sel[i].vp = -1
									}
								}
								// the matches are reported by presentation
								if len(sel) == 2 && sel[0].vp > sel[1].vp {
									sel[0], sel[1], eids[0], eids[1] = sel[1], sel[0], eids[1], eids[0]
								}
								judge(t, fmt.Sprint(n, sel, eids), pxPD(t, def(nil)), vps, sel, eids, reqSets[0].ok, place, presexch.WithMergedSubmissionMap(p03Submission("pd", eids, sel)))
							}
							try([]p03Target{target(v, c, direct)}, []string{id})
							for _, w := range idx {
								if e.Thorough() || n < 50 || w%10 == v%10 || w/10 == v/10 {
									try([]p03Target{target(v, c, direct), target(w, 1-c, direct)}, []string{id, map[string]string{ids[0]: ids[1], ids[1]: ids[0]}[id]})
								}
							}
						}
					}
				}
			}, "presentation %d of %d", v, n)
		}
	}
	layouts := [][2][]int{{{0, 1}, {2, 3}}, {{2, 3}, {1, 0}}, {{3, 0}, {3, 1}}, {{0, 3}, {1, 2}}}
	for _, lay := range layouts {
		for _, form := range []string{"json", "jwt"} {
			for a := range mts {
				for ia, id := range ids[:3] {
					e.Casef(func(t *h.T) {
						var vps []*verifiable.Presentation
						for v := 0; v < 2; v++ {
							var creds []any
							for _, c := range lay[v] {
								creds = append(creds, credDoc(c))
							}
							doc := p03VP(fmt.Sprintf("urn:vp%d", v), creds, nil, form)
							vps = append(vps, keys.wrapVP(t, form, doc))
						}
						place := func(v, c int) int { return lay[v][c] }
						try := func(idx []int, eids []string) {
							var sel []p03Target
							var names []string
							for n, i := range idx {
								tg := mts[i]
								if form == "jwt" {
									tg.entry = parseObj(strings.ReplaceAll(h.JSON(tg.entry), ".verifiableCredential", ".vp.verifiableCredential"))
								}
								sel = append(sel, tg)
								names = append(names, eids[n]+"->"+tg.name)
							}
							rs := reqSets[0]
							for _, rs = range reqSets[:e.Pick(1, len(reqSets))] {
								sm := p03Submission("pd", eids, sel)
								typed := &presexch.PresentationSubmission{}
								t.Must(json.Unmarshal([]byte(h.JSON(sm)), typed), "submission")
								for oi, o := range []presexch.MatchOption{presexch.WithMergedSubmission(typed), presexch.WithMergedSubmissionMap(sm)} {
									judge(t, fmt.Sprint("merged", oi, names, " with ", rs.name), pxPD(t, def(rs.reqs)), vps, sel, eids, rs.ok, place, o)
								}
							}
						}
						try([]int{a}, []string{id})
						for b := range mts {
							for _, id2 := range ids[:2] {
								try([]int{a, b}, []string{id, id2})
							}
						}
						if a < 4 && ia < 2 {
							for b := range mts {
								for c := range mts {
									if e.Thorough() || b < 4 && c >= 4 {
										try([]int{a, b, c}, []string{id, ids[1-ia], ids[(b+c)%2]})
									}
								}
							}
						}
					}, "merged %v %s %s->%s", lay, form, id, mts[a].name)
				}
			}
		}
	}
	// lists of presentations, each with its own submission
	for _, lay := range layouts {
		for _, form := range []string{"json", "jwt", "cwt"} {
			all := single(form)
			own := []p03Target{all[0], all[1], {"c1 directly", all[4].entry, 0, 1}, all[6]}
			own[2].entry = parseObj(strings.ReplaceAll(h.JSON(own[2].entry), "[2]", "[1]"))
			own[3] = p03Target{"missing element", parseObj(strings.ReplaceAll(h.JSON(all[1].entry), "[1]", "[2]")), 0, -1}
			// what one presentation can say: up to two entries
			type saying struct {
				ts  []p03Target
				ids []string
			}
			sayings := []saying{{}}
			for a := range own {
				for _, id := range ids[:3] {
					sayings = append(sayings, saying{[]p03Target{own[a]}, []string{id}})
				}
				for b := range own[:3] {
					for m := 0; m < 4; m++ {
						sayings = append(sayings, saying{[]p03Target{own[a], own[b]}, []string{ids[m&1], ids[m>>1]}})
					}
				}
			}
			for si, s0 := range sayings {
				e.Casef(func(t *h.T) {
					for sj, s1 := range sayings {
						if !e.Thorough() && len(s0.ts)+len(s1.ts) > 2 && (si+sj)%4 != 0 {
							continue
						}
						for ri, rs := range reqSets {
							if !e.Thorough() && ri > 0 && (si+sj+ri)%5 != 0 {
								continue
							}
							var vps []*verifiable.Presentation
							for v, s := range []saying{s0, s1} {
								var creds []any
								for _, c := range lay[v] {
									creds = append(creds, credDoc(c))
								}
								vps = append(vps, keys.wrapVP(t, form, p03VP(fmt.Sprintf("urn:vp%d", v), creds, p03Submission("pd", s.ids, s.ts), form)))
							}
							var sel []p03Target
							var eids []string
							var names []string
							for v, s := range []saying{s0, s1} {
								for n, tg := range s.ts {
									tg.vp = v
									sel, eids, names = append(sel, tg), append(eids, s.ids[n]), append(names, fmt.Sprintf("vp%d: %s->%s", v, s.ids[n], tg.name))
								}
							}
							judge(t, fmt.Sprint("own submissions ", names, " with ", rs.name), pxPD(t, def(rs.reqs)), vps, sel, eids, rs.ok, func(v, c int) int {
								return lay[v][c]
							})
						}
					}
				}, "own submissions %v %s %d", lay, form, si)
			}
		}
	}
	// what surrounds the descriptor map
	good := func(t *h.T) ([]any, []string, []p03Target) {
		ts := single("json")
		return []any{credDoc(0), credDoc(1)}, []string{"d0", "d1"}, []p03Target{ts[0], ts[1]}
	}
	for _, form := range []string{"json", "jwt", "cwt"} {
		for _, defID := range []any{"pd", "pd2", "", nil, float64(5)} {
			e.Casef(func(t *h.T) {
				creds, eids, ts := good(t)
				if form == "jwt" {
					all := single("jwt")
					ts = all[:2]
				}
				vp := keys.wrapVP(t, form, p03VP("urn:vp", creds, p03Submission(defID, eids, ts), form))
				_, err := pxPD(t, def(nil)).Match([]*verifiable.Presentation{vp}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
				t.Step("own %v: %v", defID, err == nil)
				if (err == nil) != (defID == "pd") {
					t.FailSub("definition", "submission for definition %v: %v", defID, err)
				}
				sm := p03Submission(defID, eids, ts)
				opts := []presexch.MatchOption{presexch.WithMergedSubmissionMap(sm)}
				typed := &presexch.PresentationSubmission{}
				if json.Unmarshal([]byte(h.JSON(sm)), typed) == nil {
					opts = append(opts, presexch.WithMergedSubmission(typed))
				}
				for i, o := range opts {
					_, err = pxPD(t, def(nil)).Match([]*verifiable.Presentation{vp}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), o)
					t.Step("merged %v: %v", defID, err == nil)
					if (err == nil) != (defID == "pd") {
						t.FailSub("definition-merged", "merged submission %d for definition %v: %v", i, defID, err)
					}
				}
			}, "definition %s %v", form, defID)
		}
		ctxs := [][]any{{"https://www.w3.org/2018/credentials/v1", presexch.PresentationSubmissionJSONLDContextIRI}, {"https://www.w3.org/2018/credentials/v1", presexch.CredentialApplicationJSONLDContextIRI}, {"https://www.w3.org/2018/credentials/v1"}}
		typs := [][]any{{"VerifiablePresentation", "PresentationSubmission"}, {"VerifiablePresentation", "CredentialApplication"}, {"VerifiablePresentation"}}
		for ci, ctx := range ctxs {
			for ti, ty := range typs {
				e.Casef(func(t *h.T) {
					creds, eids, ts := good(t)
					if form == "jwt" {
						ts = single("jwt")[:2]
					}
					d := p03VP("urn:vp", creds, p03Submission("pd", eids, ts), form)
					d["@context"], d["type"] = ctx, ty
					_, err := pxPD(t, def(nil)).Match([]*verifiable.Presentation{keys.wrapVP(t, form, d)}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
					t.Step("%v", err == nil)
					if (err == nil) != (ci < 2 && ti < 2) {
						t.Fail("context %v and type %v: %v", ctx, ty, err)
					}
				}, "surroundings %s %d %d", form, ci, ti)
			}
		}
	}
	// schemas of version 1 definitions
	vcS, vpS := "https://www.w3.org/2018/credentials#VerifiableCredential", "https://www.w3.org/2018/credentials#VerifiablePresentation"
	for _, uris := range [][]any{{vcS}, {vpS}, {vcS, vpS}, {"urn:unknown"}} {
		for _, req := range []bool{false, true} {
			for _, off := range []bool{false, true} {
				e.Casef(func(t *h.T) {
					creds, eids, ts := good(t)
					d := def(nil)
					for _, x := range d["input_descriptors"].([]any) {
						var l []any
						for _, u := range uris {
							l = append(l, map[string]any{"uri": u, "required": req})
						}
						x.(map[string]any)["schema"] = l
					}
					var opts []presexch.MatchOption
					if off {
						opts = append(opts, presexch.WithDisableSchemaValidation())
					}
					vp := keys.wrapVP(t, "json", p03VP("urn:vp", creds, p03Submission("pd", eids, ts), "json"))
					ok := off || uris[0] == vcS && (len(uris) == 1 || !req)
					_, err := pxPD(t, d).Match([]*verifiable.Presentation{vp}, fx.Loader(), append(opts, presexch.WithCredentialOptions(pxOpts()...))...)
					t.Step("%v", err == nil)
					if (err == nil) != ok {
						t.Fail("schemas %v required %v (disabled %v): %v", uris, req, off, err)
					}
				}, "schemas %v %v %v", uris, req, off)
			}
		}
	}
}

// structural fields cannot be replaced by true.
func (f pxField) structural() bool {
	for _, p := range f.paths {
		if strings.HasPrefix(p.path, "$.type") || p.path == "$.issuer" || strings.HasSuffix(p.path, ".type") || p.path == "$.credentialSubject" || strings.HasSuffix(p.path, "credentialSubject.id") {
			return true
		}
	}
	return false
}
