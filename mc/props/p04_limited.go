package props

import (
	"crypto"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P04", Level: "enumerated", Gen: genP04,
		Rule:   "all combinations of up to two (thorough: three) requested fields over a path alphabet x predicates x limited disclosure x credential forms (plain, JWT, CWT, SD-JWT with every kind of disclosure structure), each created twice and matched once on the same credentials, and pairs of descriptors that share one credential; the revealed claims or disclosures are compared with a reference and the caller's credentials with a snapshot",
		Assume: []string{"a selected value is revealed with everything below it; an SD-JWT reveals what the disclosures on the way to a selected value contain", "elements of an array that are not selected are left out and the others close up"}})
}

type descendSel string

// locate lists the places that steps select.
func locate(v any, steps []any, at []any) (out [][]any) {
	if len(steps) == 0 {
		return [][]any{append([]any{}, at...)}
	}
	rest := steps[1:]
	sub := func(x any, k any, r []any) { out = append(out, locate(x, r, append(append([]any{}, at...), k))...) }
	switch s := steps[0].(type) {
	case string:
		if m, ok := v.(map[string]any); ok {
			if s == "*" {
				for _, k := range sortedKeys(m) {
					sub(m[k], k, rest)
				}
			} else if x, has := m[s]; has {
				sub(x, s, rest)
			}
		}
		if l, ok := v.([]any); ok && s == "*" {
			for i, x := range l {
				sub(x, i, rest)
			}
		}
	case int:
		if l, ok := v.([]any); ok && s < len(l) {
			sub(l[s], s, rest)
		}
	case descendSel:
		switch x := v.(type) {
		case map[string]any:
			if y, ok := x[string(s)]; ok {
				sub(y, string(s), rest)
			}
			for _, k := range sortedKeys(x) {
				sub(x[k], k, steps)
			}
		case []any:
			for i, y := range x {
				sub(y, i, steps)
			}
		}
	}
	return
}

func getAt(v any, loc []any) any {
	for _, k := range loc {
		switch s := k.(type) {
		case string:
			v = v.(map[string]any)[s]
		case int:
			v = v.([]any)[s]
		}
	}
	return v
}

type p04Path struct {
	str   string
	steps []any
	viaVC bool // understood by JWT credentials only
	// a credential with true in this place is not well formed
	structural bool
}

func subj(steps ...any) []any { return append([]any{"credentialSubject"}, steps...) }

var p04Paths = []p04Path{
	{str: "$.credentialSubject.name", steps: subj("name")},
	{str: "$.credentialSubject.age", steps: subj("age")},
	{str: "$.credentialSubject.degree", steps: subj("degree")},
	{str: "$.credentialSubject.degree.type", steps: subj("degree", "type")},
	{str: "$.credentialSubject.degree.gpa", steps: subj("degree", "gpa")},
	{str: "$.credentialSubject.tags", steps: subj("tags")},
	{str: "$.credentialSubject.tags[0]", steps: subj("tags", 0)},
	{str: "$.credentialSubject.tags[1]", steps: subj("tags", 1)},
	{str: "$.credentialSubject.tags[*]", steps: subj("tags", "*")},
	{str: "$.credentialSubject.list[*].n", steps: subj("list", "*", "n")},
	{str: "$.credentialSubject.list[1].m", steps: subj("list", 1, "m")},
	{str: "$.credentialSubject.list[1]", steps: subj("list", 1)},
	{str: "$.credentialSubject", steps: subj(), structural: true},
	{str: "$.credentialSubject.id", steps: subj("id"), structural: true},
	{str: "$.note", steps: []any{"note"}},
	{str: "$.more.x", steps: []any{"more", "x"}},
	{str: "$..n", steps: []any{descendSel("n")}},
	{str: "$.type", steps: []any{"type"}, structural: true},
	{str: "$.credentialSubject.absent", steps: subj("absent")},
	{str: "$['credentialSubject']['name']", steps: subj("name")},
	{str: "$.credentialSubject['a.b']", steps: subj("a.b")},
	{str: "$.credentialSubject.a-b", steps: subj("a-b")},
	{str: "$.credentialSubject.deep.one.two", steps: subj("deep", "one", "two")},
	{str: "$.vc.credentialSubject.age", steps: subj("age"), viaVC: true},
}

type p04Field struct {
	p    p04Path
	pred bool
}

func (f p04Field) json() map[string]any {
	o := map[string]any{"path": []any{f.p.str}}
	if !f.pred {
		o["optional"] = true // not allowed next to a predicate
	} else {
		o["predicate"] = "required"
		o["filter"] = map[string]any{"not": map[string]any{"const": "no such value"}}
	}
	return o
}

// p04Limited is the document with only the selected claims (or, without limit, the whole document), predicates answered by true.
func p04Limited(doc map[string]any, form string, fs []p04Field, limit bool) map[string]any {
	type sel struct {
		loc  []any
		pred bool
	}
	var sels []sel
	for _, f := range fs {
		if f.p.viaVC && !isJWTForm(form) {
			continue
		}
		for _, l := range locate(doc, f.p.steps, nil) {
			sels = append(sels, sel{l, f.pred})
		}
	}
	mask := func(loc []any) string { return h.JSON(loc) }
	whole, under, pred := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, s := range sels {
		if s.pred {
			pred[mask(s.loc)] = true
		} else {
			whole[mask(s.loc)] = true
		}
		for i := range s.loc {
			under[mask(s.loc[:i])] = true
		}
	}
	var copyPart func(v any, loc []any, all bool) (any, bool)
	copyPart = func(v any, loc []any, all bool) (any, bool) {
		k := mask(loc)
		if pred[k] {
			return true, true
		}
		all = all || whole[k]
		if !all && !under[k] {
			return nil, false
		}
		switch x := v.(type) {
		case map[string]any:
			o := map[string]any{}
			for kk, y := range x {
				if z, ok := copyPart(y, append(append([]any{}, loc...), kk), all); ok {
					o[kk] = z
				}
			}
			return o, true
		case []any:
			o := []any{}
			for i, y := range x {
				if z, ok := copyPart(y, append(append([]any{}, loc...), i), all); ok {
					o = append(o, z)
				}
			}
			return o, true
		}
		return v, true
	}
	r, ok := copyPart(doc, []any{}, !limit)
	out, _ := r.(map[string]any)
	if !ok {
		out = map[string]any{}
	}
	if limit {
		for _, k := range []string{"id", "type", "@context", "issuer", "issuanceDate"} {
			if _, has := out[k]; !has && doc[k] != nil {
				out[k] = doc[k]
			}
		}
		if subs, several := doc["credentialSubject"].([]any); several && !whole[mask([]any{"credentialSubject"})] {
			l := []any{}
			for i, s := range subs { // every subject keeps its place and its id
				x, _ := copyPart(s, subj(i), false)
				o, isObj := x.(map[string]any)
				if src, ok := s.(map[string]any); ok && (isObj || x == nil) {
					if !isObj {
						o = map[string]any{}
					}
					if src["id"] != nil && o["id"] == nil {
						o["id"] = src["id"]
					}
					x = o
				} else if x == nil {
					x = s
				}
				l = append(l, x)
			}
			out["credentialSubject"] = l
			return out
		}
		sub, isObj := out["credentialSubject"].(map[string]any)
		if !isObj && out["credentialSubject"] == nil {
			sub = map[string]any{}
			out["credentialSubject"] = sub
		}
		if src, ok := doc["credentialSubject"].(map[string]any); ok && sub != nil && sub["id"] == nil && src["id"] != nil {
			sub["id"] = src["id"]
		}
	}
	return out
}

// p04Disclosures are the disclosures on the way to the selected places and those below them.
func p04Disclosures(c *p08Cred, fs []p04Field, display map[string]any) (out []string) {
	r, err := newRefSD(c.hash, c.ds)
	if err != nil {
		panic(err)
	}
	take := map[string]bool{}
	var below func(v any)
	below = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			if sd, ok := x["_sd"].([]any); ok {
				for _, dg := range sd {
					if d := r.disc[dg.(string)]; d != nil {
						take[d.raw] = true
						below(d.val)
					}
				}
			}
			for k, y := range x {
				if k != "_sd" {
					below(y)
				}
			}
		case []any:
			for _, y := range x {
				if m, ok := y.(map[string]any); ok && len(m) == 1 && m["..."] != nil {
					if d := r.disc[m["..."].(string)]; d != nil {
						take[d.raw] = true
						below(d.val)
					}
					continue
				}
				below(y)
			}
		}
	}
	var walk func(v any, loc []any)
	walk = func(v any, loc []any) {
		if len(loc) == 0 {
			below(v)
			return
		}
		switch k := loc[0].(type) {
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return
			}
			if y, has := m[k]; has {
				walk(y, loc[1:])
				return
			}
			sd, _ := m["_sd"].([]any)
			for _, dg := range sd {
				if d := r.disc[dg.(string)]; d != nil && d.name == k {
					take[d.raw] = true
					walk(d.val, loc[1:])
				}
			}
		case int:
			l, _ := v.([]any)
			n := 0
			for _, y := range l {
				var d *refDisc
				m, ok := y.(map[string]any)
				dg, hidden := m["..."].(string)
				if hidden = ok && hidden && len(m) == 1; hidden {
					if d = r.disc[dg]; d == nil {
						continue
					}
					y = d.val
				}
				if n == k {
					if d != nil {
						take[d.raw] = true
					}
					walk(y, loc[1:])
					return
				}
				n++
			}
		}
	}
	for _, f := range fs {
		for _, l := range locate(display, f.p.steps, nil) {
			walk(c.vcMap, l)
		}
	}
	for _, d := range c.ds {
		if take[d] {
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return
}

// p04Norm is the canonical contents of a credential document.
func p04Norm(doc map[string]any) string {
	vc, err := verifiable.ParseCredentialJSON(parseObj(h.JSON(doc)), verifiable.WithCredDisableValidation())
	if err != nil {
		return "unparsable: " + err.Error()
	}
	m := parseObj(h.JSON(vc.ToRawJSON()))
	delete(m, "proof")
	if id, ok := m["credentialSubject"].(string); ok {
		m["credentialSubject"] = map[string]any{"id": id}
	}
	return h.Canon(m)
}

type p04Cred struct {
	form string
	doc  map[string]any
	vc   *verifiable.Credential
	sd   *p08Cred
	self bool // the subject is the issuer
}

// p04Check compares a credential of a presentation with what the fields ask for.
func (c *p04Cred) check(t *h.T, sub, name string, vc *verifiable.Credential, fs []p04Field, limit bool) {
	if c.sd != nil {
		b, err := vc.MarshalJSON()
		t.Must(err, "marshal presented credential")
		comb, _ := parseAny(b).(string)
		parts := strings.Split(comb, "~")
		var got []string
		for _, p := range parts[1:] {
			if p != "" {
				got = append(got, p)
			}
		}
		sort.Strings(got)
		want := append([]string(nil), c.sd.ds...)
		sort.Strings(want)
		if limit {
			want = p04Disclosures(c.sd, fs, c.doc)
		}
		if parts[0] != c.sd.jwt {
			t.FailSub(sub+"-jwt", "%s: the signed part changed", name)
		}
		if h.JSON(got) != h.JSON(want) {
			dec := func(l []string) (o []string) {
				for _, d := range l {
					r, err := refDecode(d)
					if err == nil {
						o = append(o, r.name+"="+h.JSON(r.val))
					}
				}
				return
			}
			t.FailSub(sub+"-disclosures", "%s: disclosed %v, want %v", name, dec(got), dec(want))
		}
		return
	}
	pred := false
	for _, f := range fs {
		pred = pred || f.pred
	}
	var got map[string]any
	b, err := vc.MarshalAsJSONLD()
	t.Must(err, "marshal presented credential")
	got = parseObj(string(b))
	want := c.doc
	if limit || pred {
		want = p04Limited(c.doc, c.form, fs, limit)
	}
	if g, w := p04Norm(got), p04Norm(want); g != w {
		t.FailSub(sub, "%s: presented %s, want %s", name, g, w)
	}
}

var p04SDOpts = map[string]p08Opts{
	"sdjwt2": {hash: crypto.SHA256}, "sdjwt5": {hash: crypto.SHA256, v5: true},
	"sdjwt5-rec":    {hash: crypto.SHA256, v5: true, rec: []string{"degree", "deep", "deep.one"}},
	"sdjwt5-always": {hash: crypto.SHA384, v5: true, always: []string{"degree", "list"}},
	"sdjwt5-nonsd":  {hash: crypto.SHA512, v5: true, nonSD: []string{"name", "tags"}},
	"sdjwt2-nonsd":  {hash: crypto.SHA512, nonSD: []string{"name", "degree"}},
}

func newP04Cred(t *h.T, k pxKeys, form string, self bool) *p04Cred {
	sub := map[string]any{"id": "did:ex:s", "name": "Ann", "age": float64(20), "degree": map[string]any{"type": "Bachelor", "gpa": 3.5}, "tags": []any{"a", "b", "c"},
		"list": []any{map[string]any{"n": float64(1), "m": "x"}, map[string]any{"n": float64(2), "m": "y"}, map[string]any{"n": float64(3), "m": "z"}}, "a.b": "dotted", "a-b": "dash",
		"deep": map[string]any{"one": map[string]any{"two": "2", "three": float64(3)}, "n": float64(9)}}
	if self {
		sub["id"] = pxIssuer
	}
	c := &p04Cred{form: form, self: self, doc: pxDoc("m0", sub, map[string]any{"note": "N", "more": map[string]any{"x": "y", "z": []any{"w"}}})}
	delete(c.doc, "mark")
	if o, ok := p04SDOpts[form]; ok {
		c.sd = p08Issue(t, k.k, c.doc, o)
		vc, err := verifiable.ParseCredential([]byte(c.sd.combined), pxOpts()...)
		t.Must(err, "parse SD-JWT")
		c.vc = vc
		return c
	}
	c.vc = k.cred(t, form, c.doc)
	return c
}

// p04Subjects are credential subjects of other shapes; in most of them one is the issuer.
var p04Subjects = []struct {
	name string
	v    any
	self bool
}{
	{"three, one without id", []any{map[string]any{"id": pxIssuer, "name": "Ann", "age": float64(20)}, map[string]any{"name": "Bob", "age": float64(7), "tags": []any{"a", "b"}}, map[string]any{"id": "did:ex:t", "name": "Cid", "tags": []any{"c"}}}, true},
	{"without id first", []any{map[string]any{"name": "Bob", "tags": []any{"a", "b"}}, map[string]any{"id": pxIssuer, "name": "Ann", "age": float64(20)}}, true},
	{"two with ids", []any{map[string]any{"id": "did:ex:t", "name": "Bob", "age": float64(7)}, map[string]any{"id": pxIssuer, "name": "Ann", "age": float64(20), "tags": []any{"a", "b"}}}, true},
	{"the same id twice", []any{map[string]any{"id": pxIssuer, "name": "Bob"}, map[string]any{"id": pxIssuer, "age": float64(20)}}, true},
	{"ids only", []any{map[string]any{"id": "did:ex:t"}, map[string]any{"id": pxIssuer}}, true},
	{"nobody is the issuer", []any{map[string]any{"name": "Bob"}, map[string]any{"id": "did:ex:t", "name": "Ann"}}, false},
	{"nobody has an id", []any{map[string]any{"name": "Bob", "age": float64(7)}, map[string]any{"name": "Ann", "tags": []any{"x"}}}, false},
	{"one without id", map[string]any{"name": "Bob", "age": float64(7), "tags": []any{"a"}}, false},
	{"one with only an id", map[string]any{"id": pxIssuer}, true},
}

var p04SubjectPaths = []p04Path{
	{str: "$.credentialSubject[*].name", steps: subj("*", "name")},
	{str: "$.credentialSubject[0].name", steps: subj(0, "name")},
	{str: "$.credentialSubject[1].age", steps: subj(1, "age")},
	{str: "$.credentialSubject[*].tags", steps: subj("*", "tags")},
	{str: "$.credentialSubject[1].tags[1]", steps: subj(1, "tags", 1)},
	{str: "$.credentialSubject[1]", steps: subj(1), structural: true},
	{str: "$.credentialSubject[0].id", steps: subj(0, "id"), structural: true},
	{str: "$.credentialSubject", steps: subj(), structural: true},
	{str: "$.credentialSubject.name", steps: subj("name")},
	{str: "$..name", steps: []any{descendSel("name")}},
	{str: "$.note", steps: []any{"note"}},
	{str: "$.absent", steps: []any{"absent"}},
}

func newP04Subjects(t *h.T, k pxKeys, form string, i int) *p04Cred {
	s := p04Subjects[i]
	c := &p04Cred{form: form, self: s.self, doc: pxDoc("m0", map[string]any{}, map[string]any{"note": "N"})}
	delete(c.doc, "mark")
	c.doc["credentialSubject"] = parseAny([]byte(h.JSON(s.v)))
	c.vc = k.cred(t, form, c.doc)
	return c
}

func (c *p04Cred) offered(fs []p04Field, limit bool) bool {
	pred := false
	for _, f := range fs {
		pred = pred || f.pred
		if f.pred && (f.p.viaVC && !isJWTForm(c.form) || len(locate(c.doc, f.p.steps, nil)) == 0) {
			return false
		}
	}
	return !limit || pred || c.self || c.sd != nil
}

func p04Desc(id string, fs []p04Field, limit any) map[string]any {
	l := []any{}
	for _, f := range fs {
		l = append(l, f.json())
	}
	m := map[string]any{"fields": l}
	if limit != nil {
		m["limit_disclosure"] = limit
	}
	return map[string]any{"id": id, "constraints": m}
}

func p04Name(fs []p04Field) string {
	s := ""
	for _, f := range fs {
		s += f.p.str
		if f.pred {
			s += "?"
		}
		s += " "
	}
	return s
}

// p04Run: descriptors over one credential.
func p04Run(t *h.T, c *p04Cred, sets [][]p04Field, limits []any) {
	var ds []map[string]any
	name := c.form
	ok := true
	for i, fs := range sets {
		ds = append(ds, p04Desc(fmt.Sprintf("d%d", i), fs, limits[i]))
		name += fmt.Sprintf(" [%s limit=%v]", p04Name(fs), limits[i])
		ok = ok && c.offered(fs, limits[i] == "required")
	}
	pd := pxPD(t, pxDef(ds...))
	snap := p08Snap(c.vc)
	opt := presexch.WithSDCredentialOptions(pxOpts()...)
	for round := 0; round < 2; round++ {
		vp, err := pd.CreateVP([]*verifiable.Credential{c.vc}, fx.Loader(), opt)
		t.Step("%s round %d: %v", name, round, err == nil)
		if (err == nil) != ok {
			t.FailSub("create", "%s: %v, can be presented: %v", name, err, ok)
			return
		}
		if err == nil {
			s, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
			if len(s.DescriptorMap) != len(sets) {
				t.FailSub("entries", "%s: submission %s", name, h.JSON(s))
				return
			}
			for _, m := range s.DescriptorMap {
				var i, n int
				fmt.Sscanf(m.ID, "d%d", &i)
				if _, err := fmt.Sscanf(m.PathNested.Path, "$.verifiableCredential[%d]", &n); err != nil || n >= len(vp.Credentials()) {
					t.FailSub("entries", "%s: submission %s", name, h.JSON(s))
					continue
				}
				c.check(t, "presented", name+" "+m.ID, vp.Credentials()[n], sets[i], limits[i] == "required")
			}
			t.Statef("%s %d", name, len(vp.Credentials()))
		}
	}
	if ok {
		ms, err := pd.MatchSubmissionRequirement([]*verifiable.Credential{c.vc}, fx.Loader(), opt, presexch.WithSelectiveDisclosureApply())
		if err != nil {
			t.FailSub("match", "%s: %v", name, err)
			return
		}
		for i, d := range ms[0].Descriptors {
			if len(d.MatchedVCs) != 1 {
				t.FailSub("match", "%s: %d credentials matched for d%d", name, len(d.MatchedVCs), i)
				continue
			}
			c.check(t, "matched", name, d.MatchedVCs[0], sets[i], limits[i] == "required")
		}
	}
	if p08Snap(c.vc) != snap {
		t.FailSub("input", "%s: the holder's credential changed", name)
	}
}

func genP04(e *h.Env) {
	keys := newPxKeys()
	type fk struct {
		form string
		self bool
	}
	forms := []fk{{"json", true}, {"json", false}, {"jwt", true}, {"jwt", false}, {"cwt", true}, {"ld", false}}
	for _, f := range sortedKeys(p04SDOpts) {
		forms = append(forms, fk{f, false})
	}
	for fi, f := range forms {
		for i := range p04Paths {
			e.Casef(func(t *h.T) {
				c := newP04Cred(t, keys, f.form, f.self)
				for _, limit := range []any{nil, "required", "preferred"} {
					for _, pi := range []bool{false, true} {
						if pi && (c.sd != nil || p04Paths[i].structural) {
							continue
						}
						a := p04Field{p04Paths[i], pi}
						p04Run(t, c, [][]p04Field{{a}}, []any{limit})
						if limit == "preferred" {
							continue
						}
						for j := range p04Paths {
							if !e.Thorough() && (i+j+fi)%6 != 0 {
								continue
							}
							for _, pj := range []bool{false, true} {
								if pj && (c.sd != nil || p04Paths[j].structural) {
									continue
								}
								b := p04Field{p04Paths[j], pj}
								p04Run(t, c, [][]p04Field{{a, b}}, []any{limit})
								p04Run(t, c, [][]p04Field{{a}, {b}}, []any{limit, "required"})
								if e.Thorough() && j > i && !pj && limit != nil {
									for n := 0; n < len(p04Paths); n += 3 {
										p04Run(t, c, [][]p04Field{{a, b, {p04Paths[(n+i+j)%len(p04Paths)], false}}}, []any{limit})
									}
								}
							}
						}
					}
				}
			}, "%s self=%v %s", f.form, f.self, p04Paths[i].str)
		}
		e.Casef(func(t *h.T) {
			c := newP04Cred(t, keys, f.form, f.self)
			for _, limit := range []any{nil, "required"} {
				p04Run(t, c, [][]p04Field{{}}, []any{limit})
			}
		}, "%s self=%v no fields", f.form, f.self)
	}
	// subjects of other shapes
	for _, form := range []string{"json", "jwt", "cwt", "ld"} {
		for si := range p04Subjects {
			if _, several := p04Subjects[si].v.([]any); (several || p04Subjects[si].name == "one without id") && (form == "jwt" || form == "cwt") {
				continue // they name one subject
			}
			for i := range p04SubjectPaths {
				e.Casef(func(t *h.T) {
					c := newP04Subjects(t, keys, form, si)
					for _, limit := range []any{nil, "required"} {
						for _, pi := range []bool{false, true} {
							if pi && p04SubjectPaths[i].structural {
								continue
							}
							a := p04Field{p04SubjectPaths[i], pi}
							p04Run(t, c, [][]p04Field{{a}}, []any{limit})
							for j := range p04SubjectPaths {
								if !e.Thorough() && (i+j+si)%3 != 0 {
									continue
								}
								for _, pj := range []bool{false, true} {
									if pj && p04SubjectPaths[j].structural {
										continue
									}
									b := p04Field{p04SubjectPaths[j], pj}
									p04Run(t, c, [][]p04Field{{a, b}}, []any{limit})
									p04Run(t, c, [][]p04Field{{a}, {b}}, []any{limit, "required"})
								}
							}
						}
					}
				}, "subjects %s %s %s", form, p04Subjects[si].name, p04SubjectPaths[i].str)
			}
		}
	}
}
