package props

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

// helpers of the presentation exchange checks (P02, P03, P04)

var pxIssuer = "did:verif:issuer"

// pxDoc builds a credential document; extra replaces or (nil) removes members.
func pxDoc(mark string, subject any, extra map[string]any) map[string]any {
	d := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX}, "id": "urn:" + mark, "type": []any{"VerifiableCredential"},
		"issuer": pxIssuer, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": subject, "mark": mark}
	for k, v := range extra {
		if v == nil {
			delete(d, k)
		} else {
			d[k] = v
		}
	}
	return d
}

// pxForms are the forms in which a holder keeps credentials.
var pxForms = []string{"json", "jwt", "sdjwt2", "sdjwt5", "cwt", "ld"}

type pxKeys struct{ k, es *fx.Key }

func newPxKeys() pxKeys {
	return pxKeys{fx.NewKey("ed25519", pxIssuer, "k1"), fx.NewKey("p256", pxIssuer, "k2")}
}

// pxOpts parse without proof checks and validation: the checks are about matching.
func pxOpts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
}

func (p pxKeys) cred(t *h.T, form string, doc map[string]any) *verifiable.Credential {
	var b []byte
	switch form {
	case "json":
		b, _ = json.Marshal(doc)
	case "jwt":
		b = []byte(credForm{name: "jwt", family: "jwt"}.secure(t, p.k, doc))
	case "jwt-es":
		b = []byte(credForm{name: "jwt", family: "jwt"}.secureAlg(t, p.es, doc, verifiable.ECDSASecp256r1))
	case "sdjwt2", "sdjwt5":
		b = []byte(credForm{name: form, family: "jwt"}.secure(t, p.k, doc))
	case "cwt":
		b = []byte(credForm{name: "cwt", family: "cwt"}.secure(t, p.k, doc))
	case "ld":
		b = []byte(credForm{name: "ld2018", suite: "Ed25519Signature2018", family: "ld"}.secure(t, p.k, doc))
	case "ld2020":
		b = []byte(credForm{name: "ld2020", suite: "Ed25519Signature2020", family: "ld"}.secure(t, p.k, doc))
	}
	vc, err := verifiable.ParseCredential(b, pxOpts()...)
	t.Must(err, "parse "+form)
	return vc
}

func (f credForm) secureAlg(t *h.T, k *fx.Key, doc map[string]any, alg verifiable.JWSAlgorithm) string {
	vc, err := verifiable.ParseCredentialJSON(copyObj(doc), verifiable.WithCredDisableValidation())
	t.Must(err, "parse source")
	s, err := vc.CreateSignedJWTVC(false, alg, jwtAnySigner{k}, k.KID)
	t.Must(err, "jwt")
	out, err := s.ToJWTString()
	t.Must(err, "jwt")
	return out
}

func pxPD(t *h.T, v any) *presexch.PresentationDefinition {
	pd := &presexch.PresentationDefinition{}
	t.Must(json.Unmarshal([]byte(h.JSON(v)), pd), "definition")
	return pd
}

// pxMark tells which source document a credential is.
func pxMark(vc *verifiable.Credential) string {
	if m, _ := vc.CustomField("mark").(string); m != "" {
		return m
	}
	return strings.TrimPrefix(vc.Contents().ID, "urn:") // limited disclosure keeps the id only
}

func pxMarks(l []*verifiable.Credential) (o []string) {
	for _, c := range l {
		o = append(o, pxMark(c))
	}
	return
}

// --- reference for JSON schema filters (the keywords that a definition can express)

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case json.Number:
		f, err := x.Float64()
		return f, err == nil
	}
	return 0, false
}

func isType(t string, v any) bool {
	n, isNum := num(v)
	switch t {
	case "string":
		_, ok := v.(string)
		return ok
	case "number":
		return isNum
	case "integer":
		return isNum && n == math.Trunc(n)
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "array":
		_, ok := v.([]any)
		return ok
	case "object":
		_, ok := v.(map[string]any)
		return ok
	case "null":
		return v == nil
	}
	return false
}

func refFilter(f map[string]any, v any) bool {
	s, isStr := v.(string)
	n, isNum := num(v)
	for k, w := range f {
		ok := true
		wn, _ := num(w)
		switch k {
		case "type":
			ok = isType(w.(string), v)
		case "const":
			ok = h.Canon(w) == h.Canon(v)
		case "enum":
			ok = false
			for _, x := range w.([]any) {
				ok = ok || h.Canon(x) == h.Canon(v)
			}
		case "pattern":
			ok = !isStr || regexp.MustCompile(w.(string)).MatchString(s)
		case "minLength":
			ok = !isStr || float64(len([]rune(s))) >= wn
		case "maxLength":
			ok = !isStr || float64(len([]rune(s))) <= wn
		case "minimum":
			ok = !isNum || n >= wn
		case "maximum":
			ok = !isNum || n <= wn
		case "exclusiveMinimum":
			ok = !isNum || n > wn
		case "exclusiveMaximum":
			ok = !isNum || n < wn
		case "not":
			ok = !refFilter(w.(map[string]any), v)
		case "contains":
			if l, is := v.([]any); is {
				ok = false
				for _, x := range l {
					ok = ok || refFilter(w.(map[string]any), x)
				}
			}
		case "allOf":
			for _, x := range w.([]any) {
				ok = ok && refFilter(x.(map[string]any), v)
			}
		default:
			panic("no reference for " + k)
		}
		if !ok {
			return false
		}
	}
	return true
}

// --- reference for paths

type pxPath struct {
	path string
	get  func(d any, form string) []any
}

func at(keys ...any) func(any, string) []any {
	return func(d any, _ string) []any {
		cur := []any{d}
		for _, k := range keys {
			var next []any
			for _, c := range cur {
				switch x := k.(type) {
				case string:
					if m, ok := c.(map[string]any); ok && x == "*" {
						for _, kk := range sortedKeys(m) {
							next = append(next, m[kk])
						}
					} else if ok {
						if v, has := m[x]; has {
							next = append(next, v)
						}
					}
					if l, ok := c.([]any); ok && x == "*" {
						next = append(next, l...)
					}
				case int:
					if l, ok := c.([]any); ok {
						if x < 0 {
							x += len(l)
						}
						if x >= 0 && x < len(l) {
							next = append(next, l[x])
						}
					}
				case func(any) []any:
					next = append(next, x(c)...)
				}
			}
			cur = next
		}
		return cur
	}
}

// descend collects every value of a member called name at any depth.
func descend(name string) func(any) []any {
	var walk func(v any) []any
	walk = func(v any) (o []any) {
		switch x := v.(type) {
		case map[string]any:
			if y, ok := x[name]; ok {
				o = append(o, y)
			}
			for _, k := range sortedKeys(x) {
				o = append(o, walk(x[k])...)
			}
		case []any:
			for _, y := range x {
				o = append(o, walk(y)...)
			}
		}
		return
	}
	return walk
}

func slice(from int) func(any) []any {
	return func(v any) []any {
		if l, ok := v.([]any); ok && from < len(l) {
			return l[from:]
		}
		return nil
	}
}

func where(key string, val any) func(any) []any {
	return func(v any) (o []any) {
		l, _ := v.([]any)
		for _, e := range l {
			if m, ok := e.(map[string]any); ok {
				if x, has := m[key]; has && h.Canon(x) == h.Canon(val) {
					o = append(o, e)
				}
			}
		}
		return
	}
}

func isJWTForm(form string) bool {
	return strings.HasPrefix(form, "jwt") || strings.HasPrefix(form, "sdjwt")
}

// viaVC is a path with the legacy vc. prefix, which JWT credentials also understand.
func viaVC(keys ...any) func(any, string) []any {
	return func(d any, form string) []any {
		if !isJWTForm(form) {
			return nil
		}
		return at(keys...)(d, form)
	}
}

func cs(keys ...any) func(any, string) []any {
	return at(append([]any{"credentialSubject"}, keys...)...)
}

var pxPaths = []pxPath{
	{"$.credentialSubject.name", cs("name")},
	{"$.credentialSubject.age", cs("age")},
	{"$.credentialSubject.active", cs("active")},
	{"$.credentialSubject.degree", cs("degree")},
	{"$.credentialSubject.degree.type", cs("degree", "type")},
	{"$.credentialSubject.tags", cs("tags")},
	{"$.credentialSubject.tags[*]", cs("tags", "*")},
	{"$.credentialSubject.tags[0]", cs("tags", 0)},
	{"$.credentialSubject.tags[-1]", cs("tags", -1)},
	{"$.credentialSubject.tags[1:]", cs("tags", slice(1))},
	{"$.credentialSubject.list[*].n", cs("list", "*", "n")},
	{"$.credentialSubject.list[?@.n == 2].m", cs("list", where("n", 2), "m")},
	{"$..gpa", at(descend("gpa"))},
	{"$['credentialSubject']['name']", cs("name")},
	{"$.credentialSubject.a-b", cs("a-b")},
	{"$.note", at("note")},
	{"$.vc.credentialSubject.name", viaVC("credentialSubject", "name")},
	{"$.vc['note']", viaVC("note")},
	{"$.type", at("type")},
	{"$.type[1]", at("type", 1)},
	{"$.issuer", at("issuer")},
	{"$.credentialSubject.absent", cs("absent")},
}

var pxFilters = []map[string]any{
	nil,
	{"type": "string"}, {"type": "number"}, {"type": "integer"}, {"type": "boolean"}, {"type": "array"}, {"type": "object"},
	{"type": "string", "const": "Ann"}, {"const": "Bachelor"}, {"type": "boolean", "const": false}, {"type": "number", "const": 0}, {"type": "string", "const": ""},
	{"type": "string", "enum": []any{"Bob", "a", "y"}}, {"enum": []any{2, "a", true}},
	{"type": "string", "pattern": "^[AB]"}, {"pattern": "^$"},
	{"type": "string", "minLength": 4}, {"type": "string", "maxLength": 3},
	{"type": "number", "minimum": 18}, {"type": "integer", "maximum": 17}, {"minimum": 20, "type": "number"}, {"type": "number", "exclusiveMinimum": 17}, {"type": "number", "exclusiveMaximum": 20},
	{"type": "string", "not": map[string]any{"const": "Ann"}}, {"not": map[string]any{"type": "string"}},
	{"type": "array", "contains": map[string]any{"type": "string", "const": "a"}}, {"type": "array", "contains": map[string]any{"const": "VerifiableCredential"}, "not": map[string]any{"contains": map[string]any{"const": "Other"}}},
	{"allOf": []any{map[string]any{"type": "string"}, map[string]any{"pattern": "n$"}}, "type": "string"},
	{"allOf": []any{map[string]any{"minLength": 2}}, "type": "string", "const": "Ann"},
	{"allOf": []any{map[string]any{"type": "array", "contains": map[string]any{"const": "a"}}, map[string]any{"contains": map[string]any{"const": "b"}}}, "type": "array"},
}

// pxContents are the credential subjects the definitions are tried against.
var pxContents = []map[string]any{
	{"name": "Ann", "age": float64(20), "active": true, "degree": map[string]any{"type": "Bachelor", "gpa": 3.5}, "tags": []any{"a", "b"}, "list": []any{map[string]any{"n": float64(1), "m": "x"}, map[string]any{"n": float64(2), "m": "y"}}, "a-b": "dash"},
	{"name": "Bob", "age": float64(17), "active": false, "degree": map[string]any{"type": "Master", "gpa": float64(18)}, "tags": []any{"b", "c", "a"}, "list": []any{map[string]any{"n": float64(2), "m": "a"}}},
	{"name": float64(5), "age": "20", "active": "true", "degree": "Bachelor", "tags": "a", "list": map[string]any{"n": float64(2)}, "a-b": float64(2)},
	{"name": "", "age": float64(0), "degree": map[string]any{"type": []any{"Bachelor"}}, "tags": []any{"a"}, "list": []any{"n"}},
	{"nick": "Ann"},
}

var pxExtras = []map[string]any{{"note": "Ann"}, {"type": []any{"VerifiableCredential", "Other"}, "note": float64(17)}, {"note": true}, {"type": []any{"VerifiableCredential", "a"}}, {}}

// pxField is a field of a descriptor with its meaning.
type pxField struct {
	paths    []pxPath
	filter   map[string]any
	optional bool
}

func (f pxField) json() map[string]any {
	var ps []any
	for _, p := range f.paths {
		ps = append(ps, p.path)
	}
	o := map[string]any{"path": ps}
	if f.filter != nil {
		o["filter"] = f.filter
	}
	if f.optional {
		o["optional"] = true
	}
	return o
}

func (f pxField) String() string {
	s := ""
	for _, p := range f.paths {
		s += p.path + " "
	}
	if f.filter != nil {
		s += h.JSON(f.filter)
	}
	if f.optional {
		s += " optional"
	}
	return s
}

// met: some path selects a value (several values count as a list) that passes the filter; an optional field is also met when no path selects anything.
func (f pxField) met(doc map[string]any, form string) bool {
	found := false
	for _, p := range f.paths {
		l := p.get(doc, form)
		if len(l) == 0 {
			continue
		}
		found = true
		var v any = l
		if len(l) == 1 {
			v = l[0]
		}
		if f.filter == nil || refFilter(f.filter, v) {
			return true
		}
	}
	return !found && f.optional
}

// pxResolve finds the credential that a submission entry points at in the presentation (or list of presentations).
func pxResolve(t *h.T, vps []*verifiable.Presentation, m *presexch.InputDescriptorMapping, list bool) (string, error) {
	var root []any
	for _, vp := range vps {
		b, err := vp.MarshalJSON()
		if err != nil {
			return "", err
		}
		root = append(root, parseAny(b))
	}
	var cur any = root
	if !list {
		cur = root[0]
	}
	for s := m; s != nil; s = s.PathNested {
		p := s.Path
		if strings.HasPrefix(p, "$.vp") {
			cur = map[string]any{"vp": cur}
		}
		for _, tok := range regexp.MustCompile(`\.[A-Za-z]+|\[\d+\]`).FindAllString(strings.TrimPrefix(p, "$"), -1) {
			if tok[0] == '.' {
				o, ok := cur.(map[string]any)
				if !ok {
					return "", fmt.Errorf("%s: no object", p)
				}
				cur = o[tok[1:]]
			} else {
				var i int
				fmt.Sscanf(tok, "[%d]", &i)
				l, ok := cur.([]any)
				if !ok || i >= len(l) {
					return "", fmt.Errorf("%s: no element %d", p, i)
				}
				cur = l[i]
			}
		}
	}
	if cur == nil {
		return "", fmt.Errorf("nothing at the path")
	}
	vc, err := verifiable.ParseCredential([]byte(h.JSON(cur)), pxOpts()...)
	if err != nil {
		return "", err
	}
	return pxMark(vc), nil
}

// pxSubmission compares the entries of a submission with the credentials that each descriptor must be given.
func pxSubmission(t *h.T, sub string, vps []*verifiable.Presentation, s *presexch.PresentationSubmission, list bool, want map[string][]string) {
	got := map[string][]string{}
	for _, m := range s.DescriptorMap {
		if _, ok := want[m.ID]; !ok {
			t.FailSub(sub+"-descriptor", "entry for unknown descriptor %q", m.ID)
		}
		mk, err := pxResolve(t, vps, m, list)
		if err != nil {
			t.FailSub(sub+"-path", "entry %s does not resolve: %v", h.JSON(m), err)
			continue
		}
		got[m.ID] = append(got[m.ID], mk)
	}
	for id, w := range want {
		g := append([]string{}, got[id]...)
		w = append([]string{}, w...)
		sort.Strings(g)
		sort.Strings(w)
		if h.JSON(g) != h.JSON(w) {
			t.FailSub(sub, "descriptor %s is mapped to %v, satisfied by %v; submission %s", id, g, w, h.JSON(s.DescriptorMap))
		}
	}
}

// upTo calls f with every list over 0..m-1 of length 0 to n.
func upTo(m, n int, f func([]int)) {
	for i := 0; i <= n; i++ {
		for _, l := range lists(m, i) {
			f(l)
		}
	}
}
