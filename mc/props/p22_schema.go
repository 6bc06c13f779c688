package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P22", Level: "enumerated", Gen: genP22, Workers: 16,
		Rule: "every list of up to two (thorough: three) schemas over (schema content x type x fault of the download) x documents x cache (none, model cache, ExpirableSchemaCache); every history of validations, content changes, faults and expiries up to a length; every securing form; every value length around the limits of the cache and every phase of the clock for expiry; verdicts are compared with predicates written for the schemas",
		Assume: []string{"credentials are validated in a mode that validates JSON schemas; a custom schema replaces the default one",
			"a schema fetched since the cache last expired may be decided by its content then"}})
}

// p22Schema is a schema and what it means.
type p22Schema struct {
	name string
	body string
	ok   func(subj map[string]any) bool
}

// p22Schemas are JSON schemas; ok is nil for bodies that are no schema.
var p22Schemas = []p22Schema{
	{"anything", `{}`, func(map[string]any) bool { return true }},
	{"needs x", `{"type":"object","properties":{"credentialSubject":{"type":"object","required":["x"]}}}`, func(s map[string]any) bool { _, ok := s["x"]; return ok }},
	{"x is text", `{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"credentialSubject":{"properties":{"x":{"type":"string"}}}}}`, func(s map[string]any) bool {
		v, ok := s["x"]
		if !ok {
			return true
		}
		_, ok = v.(string)
		return ok
	}},
	{"x over 5 by $ref", `{"properties":{"credentialSubject":{"$ref":"#/definitions/s"}},"definitions":{"s":{"properties":{"x":{"type":"number","exclusiveMinimum":5}}}}}`, func(s map[string]any) bool {
		v, ok := s["x"]
		if !ok {
			return true
		}
		n, ok := v.(float64)
		return ok && n > 5
	}},
	{"only id and x", `{"properties":{"credentialSubject":{"additionalProperties":false,"properties":{"id":{},"x":{}}}}}`, func(s map[string]any) bool {
		for n := range s {
			if n != "id" && n != "x" {
				return false
			}
		}
		return true
	}},
	{"nothing", `{"type":"array"}`, func(map[string]any) bool { return false }},
	{"not a schema: truncated", `{"type":"object"`, nil},
	{"not a schema: empty", ``, nil},
	{"not a schema: text", `"x"`, nil},
	{"not a schema: html", `<html></html>`, nil},
	{"not a schema: type 7", `{"type":7}`, nil},
	{"not a schema: wrong keyword", `{"required":"x"}`, nil},
}

var p22Docs = []struct {
	name string
	subj map[string]any
}{
	{"empty", map[string]any{"id": "urn:s"}}, {"text", map[string]any{"id": "urn:s", "x": "t"}}, {"7", map[string]any{"id": "urn:s", "x": 7.0}}, {"5", map[string]any{"id": "urn:s", "x": 5.0}},
	{"text and more", map[string]any{"id": "urn:s", "x": "t", "y": 1.0}}, {"7 and more", map[string]any{"id": "urn:s", "x": 7.0, "y": nil}},
}

var p22Faults = []struct {
	name string
	do   func(body string) (*http.Response, error)
}{
	{"ok", func(b string) (*http.Response, error) { return httpResp(200, []byte(b)), nil }},
	{"404", func(b string) (*http.Response, error) { return httpResp(404, []byte(b)), nil }},
	{"500", func(b string) (*http.Response, error) { return httpResp(500, []byte(b)), nil }},
	{"203", func(b string) (*http.Response, error) { return httpResp(203, []byte(b)), nil }},
	{"down", func(b string) (*http.Response, error) { return nil, errors.New("down") }},
	{"reset", func(b string) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = &p21BadBody{bytes.NewReader([]byte(b))}
		return r, nil
	}},
	{"in pieces", func(b string) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = io.NopCloser(iotestOneByte{strings.NewReader(b)})
		return r, nil
	}},
}

// p22FaultOK tells if fault i still gives the schema (nil: either way).
func p22FaultOK(i int) bool { return i == 0 || i == 6 }

// p22Cache is a model of a cache.
type p22Cache struct{ m map[string][]byte }

func (c *p22Cache) Put(k string, v []byte)      { c.m[k] = append([]byte{}, v...) }
func (c *p22Cache) Get(k string) ([]byte, bool) { v, ok := c.m[k]; return append([]byte{}, v...), ok }

var p22Real = sync.OnceValue(func() *verifiable.ExpirableSchemaCache {
	return verifiable.NewExpirableSchemaCache(64<<20, time.Hour)
})

func p22Loader(c verifiable.SchemaCache, f func(url string) (*http.Response, error)) *verifiable.CredentialSchemaLoader {
	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: httpFunc(func(r *http.Request) (*http.Response, error) { return f(r.URL.String()) })})
	if c != nil {
		b = b.SetCache(c)
	}
	return b.Build()
}

func p22Doc(dm int, subj map[string]any, schemas any) map[string]any {
	m := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX}, "id": "urn:vc", "type": []any{"VerifiableCredential", "XCred"}, "issuer": wIss, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": subj}
	if dm == 2 {
		m["@context"] = []any{"https://www.w3.org/ns/credentials/v2", fx.CtxX}
		delete(m, "issuanceDate")
	}
	if schemas != nil {
		m["credentialSchema"] = schemas
	}
	return m
}

// p22Modes are the validation modes that use JSON schemas.
func p22Mode(i int, dm int) []verifiable.CredentialOpt {
	base := "https://www.w3.org/2018/credentials/v1"
	if dm == 2 {
		base = "https://www.w3.org/ns/credentials/v2"
	}
	switch i {
	case 1:
		return []verifiable.CredentialOpt{verifiable.WithBaseContextExtendedValidation(base, []string{base, fx.CtxX}, []string{"VerifiableCredential", "XCred"})}
	case 2:
		return []verifiable.CredentialOpt{verifiable.WithBaseContextValidation(base)}
	}
	return nil
}

func genP22(e *h.Env) {
	p19Setup()
	p22Lists(e)
	p22Options(e)
	p22Histories(e)
	p22Near(e)
	p22Forms(e)
	p22Expiry(e)
	p22Alive(e)
	p22Faithful(e)
	p22Many(e)
}

// p22Many takes lists of more schemas than one digit counts, all satisfied except at most one.
func p22Many(e *h.Env) {
	for _, n := range []int{10, 13} {
		for dm := 1; dm <= 2; dm++ {
			for bad := -1; bad < n; bad++ {
				for f := range p22Faults {
					if bad < 0 && f > 0 {
						continue
					}
					e.Casef(func(t *h.T) {
						subj := map[string]any{"id": "did:ex:s", "x": "v"}
						var sch []any
						for i := 0; i < n; i++ {
							sch = append(sch, map[string]any{"id": fmt.Sprintf("https://s.example/n/%d", i), "type": []string{"JsonSchema", "JsonSchemaValidator2018"}[i%2]})
						}
						serve := func(u string) (*http.Response, error) {
							body, fault := `{"type":"object"}`, 0
							if bad >= 0 && u == fmt.Sprintf("https://s.example/n/%d", bad) {
								if fault = f; f == 0 {
									body = `{"type":"array"}`
								}
							}
							return p22Faults[fault].do(body)
						}
						for ci, c := range []verifiable.SchemaCache{nil, &p22Cache{map[string][]byte{}}} {
							for round := 0; round < 1+ci; round++ {
								t.Step("bad %d fault %d", bad, f)
								_, err := verifiable.ParseCredential([]byte(h.JSON(p22Doc(dm, subj, sch))), append(p22Mode(1, dm), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(p22Loader(c, serve)))...)
								want := bad < 0 || f > 0 && p22FaultOK(f)
								if want != (err == nil) {
									t.FailSub(fmt.Sprint(ci, round), "schema %d of %d is not met: %v, fault %s: %v", bad, n, !want, p22Faults[f].name, err)
								}
							}
						}
						t.Outcome("done")
					}, "many %d dm%d bad %d fault %s", n, dm, bad, p22Faults[f].name)
				}
			}
		}
	}
}

func p22Lists(e *h.Env) {
	type ent struct {
		schema, fault int
		typ           string
	}
	var ents []ent
	for s := range p22Schemas {
		ents = append(ents, ent{s, 0, "JsonSchema"})
	}
	for f := range p22Faults {
		ents = append(ents, ent{1, f, "JsonSchemaValidator2018"})
	}
	ents = append(ents, ent{1, 0, "JsonSchemaCredential"}, ent{5, 0, "JsonSchemaCredential"}, ent{5, 0, "OtherSchema"}, ent{6, 1, "OtherSchema"}, ent{5, 0, "jsonschema"})
	supported := func(x ent) bool { return x.typ == "JsonSchema" || x.typ == "JsonSchemaValidator2018" }
	lists := listsUpTo(len(ents), e.Pick(2, 3))
	byFirst := map[string][][]int{}
	var order []string
	for _, l := range lists {
		k := "none"
		if len(l) > 0 {
			x := ents[l[0]]
			k = fmt.Sprintf("%s/%s/%s, %d", p22Schemas[x.schema].name, x.typ, p22Faults[x.fault].name, len(l))
		}
		if byFirst[k] == nil {
			order = append(order, k)
		}
		byFirst[k] = append(byFirst[k], l)
	}
	for _, k := range order {
		for dm := 1; dm <= 2; dm++ {
			e.Casef(func(t *h.T) {
				n := 0
				for _, l := range byFirst[k] {
					for _, d := range p22Docs {
						if len(l) == 3 && d.name != "text" && d.name != "7 and more" {
							continue
						}
						want := true
						custom := false
						desc := ""
						var sch []any
						for i, x := range l {
							en := ents[x]
							desc += fmt.Sprintf("%s/%s/%s; ", p22Schemas[en.schema].name, en.typ, p22Faults[en.fault].name)
							sch = append(sch, map[string]any{"id": fmt.Sprintf("https://s.example/%d", i), "type": en.typ})
							if !supported(en) {
								continue
							}
							custom = true
							want = want && p22FaultOK(en.fault) && p22Schemas[en.schema].ok != nil && p22Schemas[en.schema].ok(d.subj)
						}
						_ = custom
						desc += "subject " + d.name
						serve := func(u string) (*http.Response, error) {
							i := int(u[len(u)-1] - '0')
							en := ents[l[i]]
							return p22Faults[en.fault].do(p22Schemas[en.schema].body)
						}
						var single any = sch
						if len(sch) == 0 {
							single = nil
						}
						shapes := []any{single}
						if len(sch) == 1 {
							shapes = append(shapes, sch[0])
						}
						for si, shape := range shapes {
							for ci, c := range []verifiable.SchemaCache{nil, &p22Cache{map[string][]byte{}}} {
								if len(l) == 3 && ci == 1 {
									continue
								}
								for round := 0; round < 1+ci; round++ { // with a cache: the second time from the cache
									n++
									t.Step("%s", desc)
									ldr := p22Loader(c, serve)
									_, err := verifiable.ParseCredential([]byte(h.JSON(p22Doc(dm, d.subj, shape))), append(p22Mode(1, dm), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(ldr))...)
									if want && err != nil {
										t.FailSub(fmt.Sprint(desc, si, ci, round), "%s: refused: %v", desc, err)
									}
									if !want && err == nil {
										t.FailSub(fmt.Sprint(desc, si, ci, round), "%s: accepted", desc)
									}
								}
							}
						}
					}
				}
				t.Outcome("validations done")
			}, "lists dm%d %s", dm, k)
		}
	}
}

// p22Options checks modes, options and other entry points.
func p22Options(e *h.Env) {
	serve := func(s string) func(string) (*http.Response, error) {
		return func(string) (*http.Response, error) { return httpResp(200, []byte(s)), nil }
	}
	for dm := 1; dm <= 2; dm++ {
		for mode := 0; mode < 3; mode++ {
			for _, s := range p22Schemas {
				for _, d := range p22Docs {
					e.Casef(func(t *h.T) {
						doc := p22Doc(dm, d.subj, []any{map[string]any{"id": "https://s.example/0", "type": "JsonSchema"}})
						if mode == 2 {
							doc["type"], doc["@context"] = doc["type"].([]any)[:1], doc["@context"].([]any)[:1]
						}
						b := []byte(h.JSON(doc))
						want := s.ok != nil && s.ok(d.subj)
						base := append(p22Mode(mode, dm), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
						check := func(what string, want bool, err error) {
							t.Step("%s", what)
							if want && err != nil {
								t.FailSub(what, "refused: %v", err)
							}
							if !want && err == nil {
								t.FailSub(what, "accepted")
							}
						}
						with := func(o ...verifiable.CredentialOpt) []verifiable.CredentialOpt {
							return append(append([]verifiable.CredentialOpt{}, base...), o...)
						}
						ldr := verifiable.WithCredentialSchemaLoader(p22Loader(nil, serve(s.body)))
						other := verifiable.WithCredentialSchemaLoader(p22Loader(nil, serve(`{"type":"array"}`)))
						_, err := verifiable.ParseCredential(b, with(ldr)...)
						check("parse", want, err)
						vc, err := verifiable.ParseCredential(b, with(verifiable.WithNoCustomSchemaCheck(), other)...)
						check("no custom schema", true, err)
						if vc == nil {
							return
						}
						check("validate", want, vc.ValidateCredential(with(ldr)...))
						check("validate no custom schema", true, vc.ValidateCredential(with(verifiable.WithNoCustomSchemaCheck(), other)...))
						_, err = verifiable.ParseCredentialJSON(parseObj(h.JSON(doc)), with(ldr)...)
						check("parse JSON", want, err)
						if s.body != "" {
							_, err = verifiable.ParseCredential(b, with(other, verifiable.WithSchema(s.body))...)
							check("schema option", want, err)
						}
						_, err = verifiable.ParseCredential(b, with(other, verifiable.WithCredDisableValidation())...)
						check("no validation", true, err)
						_, err = verifiable.ParseCredential(b, with(verifiable.WithCredentialSchemaLoader(p22Loader(nil, func(string) (*http.Response, error) { return nil, errors.New("down") })))...)
						check("down", false, err)
						t.Outcome(fmt.Sprint("want=", want))
					}, "options dm%d mode %d %s %s", dm, mode, s.name, d.name)
				}
			}
		}
	}
}

var p22Seq int
var p22SeqMu sync.Mutex

// p22Histories runs every history over one cache.
func p22Histories(e *h.Env) {
	v1, v2 := p22Schemas[2], p22Schemas[3] // x is text; x over 5
	type op struct {
		name string
		urls []string
		subj int
		do   string
	}
	ops := []op{
		{"a(text)", []string{"a"}, 1, ""}, {"a(7)", []string{"a"}, 2, ""}, {"b(text)", []string{"b"}, 1, ""}, {"a,b(text)", []string{"a", "b"}, 1, ""}, {"b,a(7)", []string{"b", "a"}, 2, ""}, {"A(7)", []string{"A"}, 2, ""},
		{"a changes", nil, 0, "change"}, {"a down or up", nil, 0, "downa"}, {"b down or up", nil, 0, "downb"}, {"a truncated or whole", nil, 0, "cut"}, {"expiry", nil, 0, "expiry"},
	}
	depth := e.Pick(5, 6)
	for _, kind := range []string{"none", "model", "expirable"} {
		for _, seq := range p21Seqs(len(ops), 2) {
			e.Casef(func(t *h.T) {
				n := 0
				run := func(hist []int) {
					p22SeqMu.Lock()
					p22Seq++
					pre := fmt.Sprintf("https://s.example/%d/", p22Seq)
					p22SeqMu.Unlock()
					ver := map[string]p22Schema{"a": v1, "b": v1, "A": v2}
					down := map[string]bool{}
					cut := false
					fetched := map[string][]p22Schema{}
					mc := &p22Cache{map[string][]byte{}}
					var cache verifiable.SchemaCache
					switch kind {
					case "model":
						cache = mc
					case "expirable":
						cache = p22Real()
					}
					ldr := p22Loader(cache, func(u string) (*http.Response, error) {
						k := strings.TrimPrefix(u, pre)
						switch {
						case down[k] && k == "a":
							return nil, errors.New("down")
						case down[k]:
							return httpResp(503, []byte(ver[k].body)), nil
						case cut && k == "a":
							r := httpResp(200, nil)
							r.Body = &p21BadBody{strings.NewReader(`{}`)}
							return r, nil
						}
						fetched[k] = append(fetched[k], ver[k])
						return httpResp(200, []byte(ver[k].body)), nil
					})
					desc := ""
					for _, i := range hist {
						o := ops[i]
						desc += o.name + "; "
						switch o.do {
						case "change":
							if ver["a"].name == v1.name {
								ver["a"] = v2
							} else {
								ver["a"] = v1
							}
							continue
						case "downa":
							down["a"] = !down["a"]
							continue
						case "downb":
							down["b"] = !down["b"]
							continue
						case "cut":
							cut = !cut
							continue
						case "expiry":
							if kind == "model" {
								mc.m = map[string][]byte{}
								fetched = map[string][]p22Schema{}
							}
							continue
						}
						subj := p22Docs[o.subj].subj
						may, must := true, true
						var sch []any
						for _, u := range o.urls {
							sch = append(sch, map[string]any{"id": pre + u, "type": "JsonSchema"})
							now := !down[u] && !(cut && u == "a") && ver[u].ok(subj)
							m, w := now, now
							if kind != "none" {
								for _, f := range fetched[u] {
									m, w = m || f.ok(subj), w && f.ok(subj)
								}
							}
							may, must = may && m, must && w
						}
						n++
						_, err := verifiable.ParseCredential([]byte(h.JSON(p22Doc(1, subj, sch))), append(p22Mode(1, 1), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(ldr))...)
						if must && err != nil {
							t.FailSub(desc, "history %s: refused: %v", desc, err)
							return
						}
						if !may && err == nil {
							t.FailSub(desc, "history %s: accepted", desc)
							return
						}
					}
				}
				var rec func(hist []int)
				rec = func(hist []int) {
					if len(hist) == depth {
						t.Step("%v", hist)
						run(hist)
						return
					}
					for i := range ops {
						if len(hist) == depth-1 && ops[i].do != "" {
							continue
						}
						rec(append(hist[:len(hist):len(hist)], i))
					}
				}
				rec(seq)
				t.Outcome("histories done")
			}, "cache %s, histories from %s; %s", kind, ops[seq[0]].name, ops[seq[1]].name)
		}
	}
}

// p22Forms checks secured credentials.
func p22Forms(e *h.Env) {
	schemas := []struct {
		name, body string
		ok         bool
	}{
		{"fits", `{"type":"object","required":["issuer","credentialSubject"],"properties":{"id":{"const":"urn:vc:1"}}}`, true},
		{"other id", `{"properties":{"id":{"const":"urn:vc:2"}}}`, false},
		{"more required", `{"required":["issuer","nothere"]}`, false},
		{"type", `{"properties":{"type":{"contains":{"const":"XCred"}}}}`, true},
		{"wrong type", `{"properties":{"type":{"contains":{"const":"YCred"}}}}`, false},
		{"broken", `{`, false},
	}
	for _, f := range credForms {
		w := newWorld(f)
		for _, dm := range f.dms() {
			for _, typ := range []string{"JsonSchema", "JsonSchemaValidator2018"} {
				for _, s := range schemas {
					e.Casef(func(t *h.T) {
						doc := f.vcDoc(dm, wIss)
						doc["credentialSchema"] = map[string]any{"id": "https://s.example/0", "type": typ}
						sec := f.secure(t, w.k1, doc)
						t.Step("parse")
						o := w.opts(verifiable.WithCredentialSchemaLoader(p22Loader(nil, func(string) (*http.Response, error) { return httpResp(200, []byte(s.body)), nil })))
						vc, err := verifiable.ParseCredential([]byte(sec), o...)
						if f.family == "jwt" { // these are validated on request
							t.Must(err, "parse")
							err = vc.ValidateCredential(o...)
						}
						if (err == nil) != s.ok {
							t.Fail("schema %s: %v", s.body, err)
						}
						t.Outcome(fmt.Sprint("ok=", s.ok))
					}, "form %s dm%d %s %s", f.name, dm, typ, s.name)
				}
			}
		}
	}
}

// p22Near checks every ordered pair of similar schema URLs with one cache.
func p22Near(e *h.Env) {
	v1, v2 := p22Schemas[2], p22Schemas[3] // x is text; x over 5
	for _, kind := range []string{"none", "expirable"} {
		for i := range nearURLs {
			e.Casef(func(t *h.T) {
				for j := range nearURLs {
					if i == j {
						continue
					}
					p22SeqMu.Lock()
					p22Seq++
					host := fmt.Sprintf("r%d.example", p22Seq) // the real cache is shared by all cases
					p22SeqMu.Unlock()
					a, b := strings.ReplaceAll(nearURLs[i], "r.example", host), strings.ReplaceAll(nearURLs[j], "r.example", host)
					t.Step("%s then %s", nearURLs[i], nearURLs[j])
					var cache verifiable.SchemaCache
					if kind == "expirable" {
						cache = p22Real()
					}
					ldr := p22Loader(cache, func(u string) (*http.Response, error) {
						switch u {
						case a:
							return httpResp(200, []byte(v1.body)), nil
						case b:
							return httpResp(200, []byte(v2.body)), nil
						}
						return httpResp(404, []byte(u)), nil
					})
					for n, s := range []struct {
						u    string
						subj int
					}{{a, 1}, {b, 1}, {b, 2}, {a, 2}, {a, 1}} {
						good := map[bool]p22Schema{true: v1, false: v2}[s.u == a].ok(p22Docs[s.subj].subj)
						doc := p22Doc(1, p22Docs[s.subj].subj, []any{map[string]any{"id": s.u, "type": "JsonSchema"}})
						_, err := verifiable.ParseCredential([]byte(h.JSON(doc)), append(p22Mode(1, 1), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(ldr))...)
						if (err == nil) != good {
							t.FailSub(fmt.Sprint(j, " ", n), "%s has the first schema, %s the second; step %d, schema %s, document %d: %v", a, b, n, s.u, s.subj, err)
						}
					}
				}
				t.Outcome("told apart")
			}, "near %s %d", kind, i)
		}
	}
}

// p22Alive runs every history of reads and writes within a lifetime: the entry ends when the last write says.
func p22Alive(e *h.Env) {
	const ttl = 600 * time.Millisecond
	points := []time.Duration{100, 320, 450, 560}
	n := 1
	for range points {
		n *= 3
	}
	for _, same := range []bool{true, false} {
		e.Casef(func(t *h.T) {
			c := verifiable.NewExpirableSchemaCache(1<<20, ttl)
			start := time.Now()
			put := make([]time.Time, n)
			first := make([]time.Time, n)
			cur := make([]string, n)
			key := func(i int) string { return fmt.Sprint("https://s.example/h", i) }
			write := func(i int, v string) {
				first[i] = time.Now()
				c.Put(key(i), []byte(v))
				cur[i], put[i] = v, time.Now()
			}
			hist := func(i int) (s string) {
				for range points {
					s += []string{"-", "g", "p"}[i%3]
					i /= 3
				}
				return s
			}
			for i := 0; i < n; i++ {
				write(i, "v")
			}
			look := func(i int, when string) {
				before := time.Now()
				v, ok := c.Get(key(i))
				after := time.Now()
				switch {
				case ok && string(v) != cur[i]:
					t.FailSub(hist(i)+when, "got %q, written was %q", v, cur[i])
				case ok && before.After(put[i].Add(ttl+2*time.Millisecond)):
					t.FailSub(hist(i)+when, "history %s: served %v after it was last written, it lives %v", hist(i), before.Sub(put[i]), ttl)
				case !ok && after.Before(first[i].Add(ttl-10*time.Millisecond)):
					t.FailSub(hist(i)+when, "history %s: gone %v after it was last written, it lives %v", hist(i), after.Sub(first[i]), ttl)
				}
			}
			div := 1
			for p, at := range points {
				time.Sleep(time.Until(start.Add(at * time.Millisecond)))
				for i := 0; i < n; i++ {
					switch i / div % 3 {
					case 1:
						look(i, fmt.Sprint(" at ", p))
					case 2:
						v := "v"
						if !same {
							v = fmt.Sprint("w", p)
						}
						write(i, v)
					}
				}
				div *= 3
			}
			for _, at := range []time.Duration{620, 720, 940, 1060, 1200, 1700} {
				time.Sleep(time.Until(start.Add(at * time.Millisecond)))
				for i := 0; i < n; i++ {
					look(i, fmt.Sprint(" later ", int(at)))
				}
				t.Step("%d ms", int(at))
			}
			t.Outcome("all gone in time")
		}, "lifetimes same=%v", same)
	}
}

// p22Expiry checks every phase of the clock: an expired entry is never served.
func p22Expiry(e *h.Env) {
	var mu sync.Mutex
	caches := map[time.Duration]*verifiable.ExpirableSchemaCache{}
	get := func(ttl time.Duration) *verifiable.ExpirableSchemaCache {
		mu.Lock()
		defer mu.Unlock()
		if caches[ttl] == nil {
			caches[ttl] = verifiable.NewExpirableSchemaCache(1<<20, ttl)
		}
		return caches[ttl]
	}
	for _, ttl := range []time.Duration{0, time.Millisecond, 50 * time.Millisecond, 400 * time.Millisecond, 999 * time.Millisecond, 1300 * time.Millisecond} {
		for phase := 0; phase < 10; phase++ {
			if ttl > 500*time.Millisecond && phase%e.Pick(3, 1) != 0 {
				continue
			}
			e.Casef(func(t *h.T) {
				c := get(ttl)
				now := time.Now()
				at := now.Truncate(time.Second).Add(time.Duration(phase) * 100 * time.Millisecond)
				for at.Before(now) {
					at = at.Add(time.Second)
				}
				time.Sleep(at.Sub(now))
				k := fmt.Sprint("https://s.example/e", phase)
				c.Put(k, []byte("v"))
				put := time.Now()
				t.Step("put at phase %d", phase)
				v, ok := c.Get(k)
				if ok && string(v) != "v" {
					t.FailSub("at once", "got %q", v)
				}
				if !ok && time.Since(put) < ttl-10*time.Millisecond {
					t.FailSub("missing", "entry is gone %v after it was put, it lives %v", time.Since(put), ttl)
				}
				for _, d := range []time.Duration{2, 150, 400} {
					time.Sleep(time.Until(put.Add(ttl + d*time.Millisecond)))
					if v, ok := c.Get(k); ok {
						t.FailSub(fmt.Sprint("after ", d), "served %q %v after it was put, it lives %v", v, time.Since(put), ttl)
					}
				}
				c.Put(k, []byte("w"))
				put = time.Now()
				if v, ok := c.Get(k); ok && string(v) != "w" || !ok && time.Since(put) < ttl-10*time.Millisecond {
					t.FailSub("again", "put again: got %q %v", v, ok)
				}
				t.Outcome("expired")
			}, "expiry %v phase %d", ttl, phase)
		}
	}
}

// p22Faithful checks what the cache gives back.
func p22Faithful(e *h.Env) {
	var lens []int
	for i := 0; i < 40; i++ {
		lens = append(lens, i)
	}
	for _, b := range []int{255, 4096, 65536 - 32, 65536 - 16, 65536, 1 << 17, 1 << 20} {
		for d := -20; d <= 20; d++ {
			lens = append(lens, b+d)
		}
	}
	keys := []string{"", "k", "K", "https://s.example/1", strings.Repeat("long", 300), strings.Repeat("x", 70000)}
	for ki, k := range keys {
		e.Casef(func(t *h.T) {
			c := p22Real()
			hits := 0
			for _, n := range lens {
				t.Step("%d bytes", n)
				v := bytes.Repeat([]byte{byte(n), byte(n >> 8), 'x'}, n/3+1)[:n]
				key := fmt.Sprintf("%s/%d", k, n)
				if n == 7 {
					key = k
				}
				if _, ok := c.Get(key + "?"); ok {
					t.FailSub(fmt.Sprint(n, " unknown"), "the cache has a key that was never put")
				}
				w := append([]byte{}, v...)
				c.Put(key, w)
				for i := range w { // the caller's slice is its own
					w[i] ^= 0xff
				}
				for round := 0; round < 2; round++ {
					got, ok := c.Get(key)
					if !ok {
						continue
					}
					hits++
					if !bytes.Equal(got, v) {
						t.FailSub(fmt.Sprint(n), "put %d bytes, got %d other ones", len(v), len(got))
						break
					}
					for i := range got {
						got[i] ^= 0xff
					}
				}
				c.Put(key, []byte("second"))
				if got, ok := c.Get(key); ok && string(got) != "second" {
					t.FailSub(fmt.Sprint(n, " overwritten"), "overwritten, got %d bytes", len(got))
				}
			}
			if hits == 0 && len(k) < 60000 {
				t.Fail("nothing is ever cached")
			}
			t.Outcome("faithful")
		}, "faithful key %d", ki)
	}
}
