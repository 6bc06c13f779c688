package props

import (
	"errors"
	"fmt"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P02", Level: "enumerated", Gen: genP02,
		Rule:   "all paths x filters x optional; path lists and field and descriptor combinations; schemas with required flags; formats; issuer relation; all small credential lists including equal and missing ids - each against credentials in every form, through CreateVP, CreateVPArray and MatchSubmissionRequirement; every submission entry is resolved and compared with a reference that evaluates paths and filters itself",
		Assume: []string{"a field is met when one of its paths selects a value that passes the filter", "where a format list allows several classes the credentials of the first class (ldp, ldp_vc, ldp_vp, jwt, jwt_vc, jwt_vp) that has a satisfying one are offered"}})
}

type pxItem struct {
	mark, form string
	doc        map[string]any
	vc         *verifiable.Credential
}

func pxItems(t *h.T, k pxKeys, form string) (l []pxItem) {
	for i, c := range pxContents {
		sub := deepCopy(any(c)).(map[string]any)
		sub["id"] = "did:ex:s"
		d := pxDoc(fmt.Sprintf("%s%d", form, i), sub, deepCopy(any(pxExtras[i])).(map[string]any))
		l = append(l, pxItem{d["mark"].(string), form, d, k.cred(t, form, d)})
	}
	return
}

// p02Run makes the presentation in every way and compares it with what each descriptor must be given.
func p02Run(t *h.T, name string, pd *presexch.PresentationDefinition, items []pxItem, met func(desc string, it pxItem) bool, opts ...presexch.MatchRequirementsOpt) {
	var creds []*verifiable.Credential
	for _, it := range items {
		creds = append(creds, it.vc)
	}
	want := map[string][]string{}
	none := false
	for _, d := range pd.InputDescriptors {
		want[d.ID] = nil
		for _, it := range items {
			if met(d.ID, it) {
				want[d.ID] = append(want[d.ID], it.mark)
			}
		}
		none = none || len(want[d.ID]) == 0
	}
	t.Statef("%s %s", name, h.JSON(want))
	judge := func(how string, err error) bool {
		if err == nil && none {
			t.FailSub(how+"-created", "%s: presentation created although a descriptor is not satisfied: %s", name, h.JSON(want))
		}
		if err != nil && !none {
			t.FailSub(how+"-refused", "%s: refused (%v) although every descriptor is satisfied: %s", name, err, h.JSON(want))
		}
		if err != nil && none && !errors.Is(err, presexch.ErrNoCredentials) {
			t.FailSub(how+"-error", "%s: %v", name, err)
		}
		return err == nil
	}
	vp, err := pd.CreateVP(creds, fx.Loader(), opts...)
	if judge("vp", err) && !none {
		s, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		if s == nil {
			t.Fail("no submission")
			return
		}
		t.Step("%s vp", name)
		pxSubmission(t, "vp", []*verifiable.Presentation{vp}, s, false, want)
		all := map[string]bool{}
		for _, l := range want {
			for _, m := range l {
				all[m] = true
			}
		}
		held := map[string]bool{}
		for _, m := range pxMarks(vp.Credentials()) {
			held[m] = true
		}
		got := sortedKeys(held)
		if h.JSON(got) != h.JSON(sortedKeys(all)) {
			t.FailSub("vp-content", "%s: the presentation holds %v, mapped are %v", name, got, sortedKeys(all))
		}
	}
	vps, s, err := pd.CreateVPArray(creds, fx.Loader(), opts...)
	if judge("array", err) && !none {
		t.Step("%s array", name)
		pxSubmission(t, "array", vps, s, true, want)
	}
	ms, err := pd.MatchSubmissionRequirement(creds, fx.Loader(), opts...)
	if err != nil {
		t.FailSub("match-error", "%s: %v", name, err)
		return
	}
	for _, m := range ms {
		for _, d := range m.Descriptors {
			t.Step("%s match", name)
			if g := pxMarks(d.MatchedVCs); h.JSON(g) != h.JSON(append([]string(nil), want[d.ID]...)) {
				t.FailSub("match", "%s: descriptor %s matched %v, satisfied by %v", name, d.ID, g, want[d.ID])
			}
		}
	}
}

func pxDef(descs ...map[string]any) map[string]any {
	var l []any
	for _, d := range descs {
		l = append(l, d)
	}
	return map[string]any{"id": "pd", "input_descriptors": l}
}

func pxDesc(id string, fields ...pxField) map[string]any {
	l := []any{}
	for _, f := range fields {
		l = append(l, f.json())
	}
	return map[string]any{"id": id, "constraints": map[string]any{"fields": l}}
}

func fieldsMet(fs []pxField, it pxItem) bool {
	for _, f := range fs {
		if !f.met(it.doc, it.form) {
			return false
		}
	}
	return true
}

func genP02(e *h.Env) {
	keys := newPxKeys()
	// one field: every path with every filter, optional or not
	for _, form := range pxForms {
		for _, p := range pxPaths {
			e.Casef(func(t *h.T) {
				items := pxItems(t, keys, form)
				for i, f := range pxFilters {
					if !e.Thorough() && form != "json" && form != "sdjwt5" && i%3 != 1 {
						continue
					}
					for _, opt := range []bool{false, true} {
						fs := []pxField{{[]pxPath{p}, f, opt}}
						p02Run(t, fs[0].String(), pxPD(t, pxDef(pxDesc("d0", fs...))), items, func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
					}
				}
			}, "field %s %s", form, p.path)
		}
	}
	e.Casef(func(t *h.T) {
		fs := []pxField{{[]pxPath{pxPaths[0]}, map[string]any{"type": "array", "allOf": []any{map[string]any{"type": "string"}}}, false}}
		p02Run(t, fs[0].String(), pxPD(t, pxDef(pxDesc("d0", fs...))), pxItems(t, keys, "json"), func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
	}, "type next to allOf")
	// several paths in one field
	multi := []int{0, 1, 4, 6, 12, 15, 21}
	for _, form := range pxForms {
		if !e.Thorough() && form != "json" {
			continue
		}
		for _, a := range multi {
			for _, b := range multi {
				e.Casef(func(t *h.T) {
					items := pxItems(t, keys, form)
					for _, fi := range []int{0, 1, 2, 7, 14, 18, 24, 28} {
						for _, opt := range []bool{false, true} {
							fs := []pxField{{[]pxPath{pxPaths[a], pxPaths[b]}, pxFilters[fi], opt}}
							p02Run(t, fs[0].String(), pxPD(t, pxDef(pxDesc("d0", fs...))), items, func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
						}
					}
				}, "paths %s %s %s", form, pxPaths[a].path, pxPaths[b].path)
			}
		}
	}
	// several fields and several descriptors over credentials of all forms together
	fields := []pxField{
		{[]pxPath{pxPaths[0]}, nil, false}, {[]pxPath{pxPaths[0]}, pxFilters[7], false}, {[]pxPath{pxPaths[0]}, pxFilters[7], true}, {[]pxPath{pxPaths[0]}, pxFilters[23], false},
		{[]pxPath{pxPaths[1]}, pxFilters[18], false}, {[]pxPath{pxPaths[1]}, pxFilters[19], false}, {[]pxPath{pxPaths[4]}, pxFilters[8], false}, {[]pxPath{pxPaths[5]}, pxFilters[25], false},
		{[]pxPath{pxPaths[14]}, nil, true}, {[]pxPath{pxPaths[15]}, pxFilters[1], false}, {[]pxPath{pxPaths[21]}, nil, false}, {[]pxPath{pxPaths[21]}, pxFilters[1], true}, {[]pxPath{pxPaths[16]}, nil, false},
	}
	fsets := [][]pxField{{}}
	for i := range fields {
		fsets = append(fsets, []pxField{fields[i]})
		for j := range fields {
			if i != j {
				fsets = append(fsets, []pxField{fields[i], fields[j]})
			}
		}
	}
	e.Casef(func(t *h.T) {
		var items []pxItem
		for _, form := range pxForms {
			items = append(items, pxItems(t, keys, form)...)
		}
		for _, fs := range fsets {
			p02Run(t, fmt.Sprint(fs), pxPD(t, pxDef(pxDesc("d0", fs...))), items, func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
		}
		p02Run(t, "no constraints", pxPD(t, pxDef(map[string]any{"id": "d0"})), items, func(string, pxItem) bool { return true })
	}, "fields of one descriptor")
	for i := range fields {
		e.Casef(func(t *h.T) {
			var items []pxItem
			for _, form := range []string{"json", "jwt", "sdjwt2"} {
				items = append(items, pxItems(t, keys, form)[:e.Pick(3, 5)]...)
			}
			for j := range fields {
				for k := range fields {
					if !e.Thorough() && k%6 != (i+j)%6 {
						continue
					}
					m := map[string]pxField{"d2": fields[i], "d0": fields[j], "d1": fields[k]}
					p02Run(t, fmt.Sprintf("%v | %v | %v", fields[i], fields[j], fields[k]), pxPD(t, pxDef(pxDesc("d2", fields[i]), pxDesc("d0", fields[j]), pxDesc("d1", fields[k]))), items,
						func(d string, it pxItem) bool { return fieldsMet([]pxField{m[d]}, it) })
				}
			}
		}, "descriptors %v", fields[i])
	}
	// many descriptors, and many fields of one descriptor, with at most one that nothing meets
	okF, badF := fields[:3], pxField{[]pxPath{pxPaths[0]}, map[string]any{"type": "string", "const": "nobody"}, false}
	for _, n := range []int{10, 12} {
		for bad := -1; bad < n; bad++ {
			e.Casef(func(t *h.T) {
				var items []pxItem
				for _, form := range []string{"json", "jwt", "sdjwt2"} {
					items = append(items, pxItems(t, keys, form)...)
				}
				var ds []map[string]any
				var fs []pxField
				m := map[string]pxField{}
				for i := 0; i < n; i++ {
					f := okF[i%len(okF)]
					if i == bad {
						f = badF
					}
					id := fmt.Sprintf("d%d", (i+7)%n)
					ds, m[id] = append(ds, pxDesc(id, f)), f
					fs = append(fs, f)
				}
				p02Run(t, "many descriptors", pxPD(t, pxDef(ds...)), items, func(d string, it pxItem) bool { return fieldsMet([]pxField{m[d]}, it) })
				p02Run(t, "many fields", pxPD(t, pxDef(pxDesc("d0", fs...))), items, func(_ string, it pxItem) bool { return fieldsMet(fs, it) })
			}, "many %d bad %d", n, bad)
		}
	}
	// credential lists with equal, missing and different ids
	type sk struct {
		id   any
		name string
		form string
	}
	var kinds []sk
	for _, id := range []any{"urn:same", nil, "urn:x"} {
		for _, n := range []string{"Ann", "Bob"} {
			kinds = append(kinds, sk{id, n, "json"})
		}
	}
	kinds = append(kinds, sk{"urn:same", "Ann", "jwt"}, sk{nil, "Ann", "sdjwt2"}, sk{"urn:same", "Bob", "sdjwt5"}, sk{"urn:same", "Ann", "cwt"})
	name := pxPaths[0]
	defs := [][]pxField{{{[]pxPath{name}, pxFilters[7], false}}, {{[]pxPath{name}, pxFilters[23], false}}, {{[]pxPath{name}, nil, false}}}
	upTo(len(kinds), e.Pick(3, 4), func(idx []int) {
		if len(idx) == 0 || !e.Thorough() && len(idx) == 3 && (idx[1] < idx[0] || idx[2] < idx[1]) {
			return
		}
		key := "list"
		for _, a := range idx {
			for _, b := range idx {
				if a != b && kinds[a].id == kinds[b].id && kinds[a].id != nil {
					key = "list same-id"
				}
			}
		}
		e.Casef(func(t *h.T) {
			var items []pxItem
			for _, i := range idx {
				s := kinds[i]
				d := pxDoc(fmt.Sprintf("m%d", i), map[string]any{"id": "did:ex:s", "name": s.name}, map[string]any{"id": s.id})
				items = append(items, pxItem{d["mark"].(string), s.form, d, keys.cred(t, s.form, d)})
			}
			for _, sel := range [][]int{{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {2, 2}, {0, 1, 2}} {
				var ds []map[string]any
				m := map[string]int{}
				for n, s := range sel {
					ds = append(ds, pxDesc(fmt.Sprintf("d%d", n), defs[s]...))
					m[fmt.Sprintf("d%d", n)] = s
				}
				p02Run(t, fmt.Sprint(sel), pxPD(t, pxDef(ds...)), items, func(d string, it pxItem) bool { return fieldsMet(defs[m[d]], it) })
			}
		}, "%s %v", key, idx)
	})
	// issuer relation
	subjects := []any{pxIssuer, map[string]any{"id": pxIssuer}, map[string]any{"id": pxIssuer, "name": "Ann"}, map[string]any{"id": "did:ex:s", "name": "Ann"}, map[string]any{"name": "Ann"},
		[]any{map[string]any{"id": "did:ex:s", "name": "Ann"}, map[string]any{"id": pxIssuer}}, []any{map[string]any{"id": "did:ex:s"}, map[string]any{"id": "did:ex:t"}}, "did:ex:s", []any{map[string]any{"id": pxIssuer, "name": "Ann"}, map[string]any{"id": "did:ex:s"}}}
	for _, form := range []string{"json", "jwt", "sdjwt2", "cwt"} {
		for _, rel := range []any{nil, "required", "preferred"} {
			for _, fs := range [][]pxField{{}, {fields[0]}, {fields[2]}} {
				for _, obj := range []bool{false, true} {
					e.Casef(func(t *h.T) {
						var items []pxItem
						var is []bool
						for i, s := range subjects {
							if m, ok := s.(map[string]any); form != "json" && (!ok || m["id"] == nil) {
								continue
							}
							d := pxDoc(fmt.Sprintf("m%d", i), s, nil)
							if obj {
								d["issuer"] = map[string]any{"id": pxIssuer, "name": "I"}
							}
							items = append(items, pxItem{d["mark"].(string), form, d, keys.cred(t, form, d)})
							is = append(is, i <= 2 || i == 5 || i == 8)
						}
						desc := pxDesc("d0", fs...)
						if rel != nil {
							desc["constraints"].(map[string]any)["subject_is_issuer"] = rel
						}
						isr := map[string]bool{}
						for i, it := range items {
							isr[it.mark] = is[i]
						}
						for i := range items {
							p02Run(t, fmt.Sprint(rel, fs, items[i].mark), pxPD(t, pxDef(desc)), items[i:i+1], func(_ string, it pxItem) bool {
								return fieldsMet(fs, it) && (rel != "required" || isr[it.mark])
							})
						}
						p02Run(t, fmt.Sprint(rel, fs), pxPD(t, pxDef(desc)), items, func(_ string, it pxItem) bool {
							return fieldsMet(fs, it) && (rel != "required" || isr[it.mark])
						})
					}, "relation %s %v %v %v", form, rel, fs, obj)
				}
			}
		}
	}
	genP02Schema(e, keys)
	genP02Format(e, keys)
}

// genP02Schema: version 1 definitions name schemas.
func genP02Schema(e *h.Env, keys pxKeys) {
	vcS, xS := "https://www.w3.org/2018/credentials#VerifiableCredential", "https://verif.example/ctx/v1#"
	_ = xS
	uris := []string{vcS, "https://www.w3.org/2018/credentials#VerifiablePresentation", "VerifiableCredential", "urn:unknown"}
	type schema struct {
		uri string
		req bool
	}
	var menu []schema
	for _, u := range uris {
		menu = append(menu, schema{u, false}, schema{u, true})
	}
	typeSets := [][]any{{"VerifiableCredential"}, {"VerifiableCredential", "VerifiablePresentation"}, {"VerifiablePresentation"}, {"Unknown"}}
	has := func(types []any, uri string) bool {
		for _, ty := range types {
			if ty == "VerifiableCredential" && (uri == uris[0] || uri == uris[2]) || ty == "VerifiablePresentation" && uri == uris[1] {
				return true
			}
		}
		return false
	}
	for _, form := range []string{"json", "jwt", "sdjwt5"} {
		upTo(len(menu), e.Pick(2, 3), func(idx []int) {
			if len(idx) == 0 {
				return
			}
			e.Casef(func(t *h.T) {
				var items []pxItem
				types := map[string][]any{}
				for i, ty := range typeSets {
					d := pxDoc(fmt.Sprintf("m%d", i), map[string]any{"id": "did:ex:s", "name": "Ann"}, map[string]any{"type": ty})
					items = append(items, pxItem{d["mark"].(string), form, d, keys.cred(t, form, d)})
					types[d["mark"].(string)] = ty
				}
				desc := map[string]any{"id": "d0", "constraints": map[string]any{"fields": []any{pxField{[]pxPath{pxPaths[0]}, nil, false}.json()}}}
				var l []any
				for _, i := range idx {
					s := map[string]any{"uri": menu[i].uri}
					if menu[i].req {
						s["required"] = true
					}
					l = append(l, s)
				}
				desc["schema"] = l
				for i := range items {
					for _, sel := range [][]pxItem{items[i : i+1], items} {
						p02Run(t, fmt.Sprint(h.JSON(l), len(sel)), pxPD(t, pxDef(desc)), sel, func(_ string, it pxItem) bool {
							some, all := false, true
							for _, i := range idx {
								ok := has(types[it.mark], menu[i].uri)
								some = some || ok
								all = all && (ok || !menu[i].req)
							}
							return some && all
						})
					}
				}
			}, "schema %s %v", form, idx)
		})
	}
}

// genP02Format: formats of the definition and of the descriptor.
func genP02Format(e *h.Env, keys pxKeys) {
	classes := []string{"ldp", "ldp_vc", "ldp_vp", "jwt", "jwt_vc", "jwt_vp"}
	type entry struct {
		class, val string
	}
	var formats [][]entry
	formats = append(formats, nil)
	var single []entry
	for _, c := range classes {
		if c[0] == 'l' {
			single = append(single, entry{c, "Ed25519Signature2018"}, entry{c, "Ed25519Signature2020"})
		} else {
			single = append(single, entry{c, "EdDSA"}, entry{c, "ES256"})
		}
	}
	for i, a := range single {
		formats = append(formats, []entry{a})
		for _, b := range single[i+1:] {
			if a.class != b.class {
				formats = append(formats, []entry{a, b})
			} else {
				formats = append(formats, []entry{a, b}) // both values in one list
			}
		}
	}
	toJSON := func(f []entry) map[string]any {
		o := map[string]any{}
		for _, x := range f {
			k := "alg"
			if x.class[0] == 'l' {
				k = "proof_type"
			}
			c, _ := o[x.class].(map[string]any)
			if c == nil {
				c = map[string]any{k: []any{}}
				o[x.class] = c
			}
			c[k] = append(c[k].([]any), x.val)
		}
		return o
	}
	val := map[string]string{"ld": "Ed25519Signature2018", "ld2020": "Ed25519Signature2020", "jwt": "EdDSA", "jwt-es": "ES256", "sdjwt2": "EdDSA", "json": "", "cwt": ""}
	forms := []string{"ld", "ld2020", "jwt", "jwt-es", "sdjwt2", "json", "cwt"}
	run := func(t *h.T, pdF, dF []entry, items []pxItem) {
		f := dF
		if f == nil {
			f = pdF
		}
		class := "" // the class whose credentials are offered
		inClass := func(c string, it pxItem) bool {
			for _, x := range f {
				if x.class == c && x.val == val[it.form] {
					return true
				}
			}
			return false
		}
		fld := []pxField{{[]pxPath{pxPaths[0]}, pxFilters[7], false}}
	find:
		for _, c := range classes {
			for _, it := range items {
				if inClass(c, it) && fieldsMet(fld, it) {
					class = c
					break find
				}
			}
		}
		desc := pxDesc("d0", fld...)
		if dF != nil {
			desc["format"] = toJSON(dF)
		}
		def := pxDef(desc)
		if pdF != nil {
			def["format"] = toJSON(pdF)
		}
		p02Run(t, fmt.Sprint(pdF, dF), pxPD(t, def), items, func(_ string, it pxItem) bool {
			return fieldsMet(fld, it) && (f == nil || inClass(class, it))
		})
	}
	var sets [][]int
	upTo(len(forms)*2, 2, func(idx []int) { // form and whether it satisfies the constraints
		for i := 1; i < len(idx); i++ {
			if idx[i] <= idx[i-1] {
				return
			}
		}
		if len(idx) > 0 {
			sets = append(sets, append([]int{}, idx...))
		}
	})
	for _, pdF := range formats {
		e.Casef(func(t *h.T) {
			all := map[int]pxItem{}
			for i := 0; i < 2*len(forms); i++ {
				n := []string{"Ann", "Bob"}[i%2]
				d := pxDoc(fmt.Sprintf("m%d", i), map[string]any{"id": "did:ex:s", "name": n}, nil)
				all[i] = pxItem{d["mark"].(string), forms[i/2], d, keys.cred(t, forms[i/2], d)}
			}
			dfs := formats[:1]
			if len(pdF) < 2 || e.Thorough() {
				dfs = append(dfs, []entry{single[2]}, []entry{single[9]}, []entry{single[1], single[8]})
			}
			for _, dF := range dfs {
				for _, s := range sets {
					var items []pxItem
					for _, i := range s {
						items = append(items, all[i])
					}
					if !e.Thorough() && len(s) == 2 && (len(pdF) == 2 && (s[0]%2 == s[1]%2 || s[1] >= 8) || dF != nil) {
						continue
					}
					run(t, pdF, dF, items)
				}
				var items []pxItem
				for i := range all {
					_ = i
				}
				for i := 0; i < len(all); i++ {
					items = append(items, all[i])
				}
				run(t, pdF, dF, items)
			}
		}, "format %v", pdF)
	}
}
