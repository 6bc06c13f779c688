package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P14", Level: "enumerated", Gen: genP14,
		Rule: "every single and every pair of field variants over two data models x every chain of conversions (JSON, natural form, signed and unsecured JWT, minimized or not, CWT in three wrappings, envelope) up to a depth, and creation from the typed contents; at every step the claims, the typed contents and the JSON form are compared with a reference",
		Assume: []string{"numbers fit a double without loss (I-JSON)", "JWT forms keep issuance and expiration to the second and state them in UTC, as their numeric claims do",
			"a list of one proof and the proof alone, an issuer object with nothing but an id and the id alone are the same"}})
}

const v2ctx = "https://www.w3.org/ns/credentials/v2"

type variant struct {
	field string
	name  string
	set   func(d map[string]any)
}

func setField(field string, vals ...any) (o []variant) {
	for _, v := range vals {
		o = append(o, variant{field, h.JSON(v), func(d map[string]any) { d[field] = deepCopy(v) }})
	}
	return
}

func dropField(field string) variant {
	return variant{field, "absent", func(d map[string]any) { delete(d, field) }}
}

// p14Variants are the shapes that the fields of a credential take.
func p14Variants(v2 bool) (o []variant) {
	had := map[string]bool{}
	add := func(vs ...variant) {
		for _, v := range vs {
			if k := v.field + "=" + v.name; !had[k] {
				had[k] = true
				o = append(o, v)
			}
		}
	}
	add(dropField("id"))
	add(setField("id", "https://verif.example/credentials/1?a=<b>&c#d")...)
	add(setField("type", "VerifiableCredential", []any{"VerifiableCredential"}, []any{"VerifiableCredential", "T", "U"}, []any{"U", "VerifiableCredential"})...)
	add(setField("issuer", map[string]any{"id": wIss}, map[string]any{"id": wIss, "name": "I"}, map[string]any{"id": "https://issuer.example/1", "image": map[string]any{"id": "x", "type": "I"}}, "https://issuer.example/1", map[string]any{"id": wIss, "names": []any{"a", nil}, "x": map[string]any{}})...)
	add(setField("credentialSubject", "did:ex:s", map[string]any{"id": "did:ex:s"}, map[string]any{"a": "b"}, map[string]any{"id": "did:ex:s", "n": map[string]any{"id": "y", "l": []any{map[string]any{"id": "z"}, nil, []any{}}}, "type": "P"},
		[]any{map[string]any{"id": "did:ex:s", "a": "b"}}, []any{map[string]any{"id": "did:ex:s"}, map[string]any{"id": "did:ex:t", "b": true}}, []any{map[string]any{"id": "did:ex:s", "a": "b"}, map[string]any{"a": "b"}})...)
	times := []any{"2020-01-01T00:00:00Z", "2020-06-30T23:30:00+02:00", "2020-01-01T00:00:00.250Z", "2020-01-01T00:00:00.000Z", "2021-03-04T05:06:07-11:30", "1960-02-29T12:00:00Z"}
	issued, expires, oIssued, oExpires := "issuanceDate", "expirationDate", "validFrom", "validUntil"
	if v2 {
		issued, expires, oIssued, oExpires = oIssued, oExpires, issued, expires
		add(dropField(issued))
	}
	add(setField(issued, times[1:]...)...)
	add(setField(expires, times...)...)
	add(setField(oIssued, times[:2]...)...)
	add(setField(oExpires, times[:2]...)...)
	add(variant{issued, "only the other", func(d map[string]any) { delete(d, issued); d[oIssued] = times[1] }})
	st := func(id string) map[string]any {
		return map[string]any{"id": id, "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": "7", "statusListCredential": "https://verif.example/status/1"}
	}
	noID := st("")
	delete(noID, "id")
	add(setField("credentialStatus", st("urn:st:1"), []any{st("urn:st:1")}, []any{st("urn:st:1"), st("urn:st:2")}, noID, []any{noID, st("urn:st:2")}, []any{})...)
	typed := func(id string) map[string]any {
		return map[string]any{"id": id, "type": "JsonSchemaValidator2018", "x": []any{map[string]any{"y": "z"}}}
	}
	for _, f := range []string{"credentialSchema", "termsOfUse", "refreshService"} {
		add(setField(f, typed("urn:t:1"), []any{typed("urn:t:1")}, map[string]any{"type": "T"})...)
		if f != "refreshService" {
			add(setField(f, []any{typed("urn:t:1"), typed("urn:t:2")}, []any{})...)
		}
	}
	add(setField("evidence", map[string]any{"id": "urn:e", "type": []any{"DocumentVerification"}}, []any{map[string]any{"id": "urn:e1"}, map[string]any{"id": "urn:e2", "n": float64(1)}}, "urn:e", []any{})...)
	add(setField("relatedResource", []any{map[string]any{"id": "https://x.example/r", "digestSRI": "sha256-abc", "mediaType": "text/plain"}}, []any{map[string]any{"id": "https://x.example/r", "digestMultibase": "uabc"}, map[string]any{"id": "https://x.example/s", "digestSRI": "sha384-x", "extra": "kept"}})...)
	pr := map[string]any{"type": "Ed25519Signature2018", "created": "2020-01-01T00:00:00Z", "proofPurpose": "assertionMethod", "verificationMethod": "did:x#1", "jws": "a..b"}
	pr2 := map[string]any{"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2020-01-01T00:00:00+01:00", "proofPurpose": "authentication", "verificationMethod": map[string]any{"id": "did:x#1"}, "proofValue": "zAB", "challenge": "c", "n": float64(3)}
	add(setField("proof", pr, pr2, []any{pr}, []any{pr, pr2}, []any{pr2, pr})...)
	base := "https://www.w3.org/2018/credentials/v1"
	if v2 {
		base = v2ctx
	}
	// lists in which elements repeat, or differ in one member only
	res := map[string]any{"id": "https://x.example/r", "digestSRI": "sha256-abc", "mediaType": "text/plain"}
	for _, f := range []struct {
		name string
		el   map[string]any
	}{{"credentialStatus", st("urn:st:1")}, {"credentialStatus", noID}, {"credentialSchema", typed("urn:t:1")}, {"termsOfUse", typed("urn:t:1")}, {"termsOfUse", map[string]any{"type": "T", "x": "1"}},
		{"evidence", map[string]any{"id": "urn:e", "type": "E", "n": "1"}}, {"relatedResource", res}, {"credentialSubject", map[string]any{"id": "did:ex:s", "name": "Ann", "type": "P"}}, {"proof", pr2}} {
		add(setField(f.name, nearLists(f.el)...)...)
		var long []any
		for i := 0; i < 12; i++ {
			el := deepCopy(f.el).(map[string]any)
			for k, v := range el {
				if s, ok := v.(string); ok && k != "created" && k != "type" {
					el[k] = fmt.Sprint(s, i)
				}
			}
			long = append(long, el)
		}
		add(setField(f.name, long)...)
	}
	add(setField("type", []any{"VerifiableCredential", "T", "T"}, []any{"T", "VerifiableCredential", "T"}, []any{"VerifiableCredential", "VerifiableCredential"})...)
	inline := map[string]any{"@vocab": "https://verif.example/v#", "t": map[string]any{"@id": "urn:t", "@type": "@id"}}
	add(setField("@context", []any{base}, []any{base, fx.CtxX, inline}, []any{base, inline, fx.CtxX}, []any{base, inline, inline}, []any{base, fx.CtxX, fx.CtxX}, []any{base, base}, []any{base, fx.CtxX, inline, fx.CtxX})...)
	for i, v := range []any{nil, true, false, "", "<&>é\u2028\u0000\U0001F600\"\\/", float64(0), float64(-1), 1.5, 1e21, 1e-7, float64(9007199254740991), float64(-9007199254740991), []any{}, map[string]any{}, []any{[]any{}, map[string]any{}, nil, []any{float64(1), []any{"x"}}},
		map[string]any{"": "empty", "a.b": map[string]any{"c": []any{map[string]any{"d": nil}}}, "é": "x", "~": "y"}} {
		add(variant{"extra", h.JSON(v), func(d map[string]any) { d["extra"] = deepCopy(v) }})
		if i%3 == 0 {
			add(variant{"credentialSubject", "extra " + h.JSON(v), func(d map[string]any) {
				d["credentialSubject"] = map[string]any{"id": "did:ex:s", "extra": deepCopy(v)}
			}})
		}
	}
	var wide, deep any = map[string]any{}, "bottom"
	var many []any
	for i := 0; i < 40; i++ {
		wide.(map[string]any)[fmt.Sprint("k", i)] = float64(i)
		many = append(many, fmt.Sprint(i))
		if i < 8 { // the CBOR library refuses more than 32 levels
			deep = map[string]any{"in": []any{deep}}
		}
	}
	for i, v := range []any{wide, many, deep} {
		add(variant{"extra", fmt.Sprint("big ", i), func(d map[string]any) { d["extra"] = deepCopy(v) }})
	}
	for _, n := range []string{"vc", "vp", "iss", "jti", "sub", "aud", "nbf", "exp", "iat", "cti", "jwt", "name", "description", "holder", "ID", "Issuer", "ISSUER", "@id", "cnf", "subject", "verifiableCredential"} {
		for _, v := range []any{"text", float64(1700000000), map[string]any{"a": "b"}} {
			add(variant{n, h.JSON(v), func(d map[string]any) { d[n] = deepCopy(v) }})
		}
	}
	return
}

// nearLists are the lists of el and its neighbours: itself again, and copies that lack a member, have another value for
// it, or one member more.
func nearLists(el map[string]any) (o []any) {
	near := []map[string]any{deepCopy(el).(map[string]any)}
	for _, k := range sortedKeys(el) {
		n := deepCopy(el).(map[string]any)
		if s, ok := n[k].(string); ok {
			n[k] = s + "x"
			if k == "created" || k == "digestSRI" {
				delete(n, k)
			}
			near = append(near, n)
		}
		if k != "type" && k != "id" {
			n = deepCopy(el).(map[string]any)
			delete(n, k)
			near = append(near, n)
		}
	}
	more := deepCopy(el).(map[string]any)
	more["more"] = "m"
	for _, n := range append(near, more) {
		o = append(o, []any{el, n}, []any{n, el, n})
	}
	return
}

func p14Doc(v2 bool) map[string]any {
	d := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX}, "id": "urn:c1", "type": []any{"VerifiableCredential", "T"}, "issuer": wIss,
		"issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann"}}
	if v2 {
		d["@context"] = []any{v2ctx, fx.CtxX}
		d["validFrom"] = d["issuanceDate"]
		delete(d, "issuanceDate")
	}
	return d
}

// --- reference contents

func refTime(d map[string]any, keys ...string) any {
	for _, k := range keys {
		if s, ok := d[k].(string); ok {
			t, err := time.Parse(time.RFC3339Nano, s)
			if err != nil {
				panic(err)
			}
			return t.UTC().Format(time.RFC3339Nano)
		}
	}
	return nil
}

func refTyped(v any) any {
	one := func(x any) any {
		m := x.(map[string]any)
		rest := copyObj(m)
		delete(rest, "id")
		delete(rest, "type")
		id, _ := m["id"].(string)
		typ, _ := m["type"].(string)
		return []any{id, typ, rest}
	}
	out := []any{}
	switch x := v.(type) {
	case map[string]any:
		out = append(out, one(x))
	case []any:
		for _, y := range x {
			out = append(out, one(y))
		}
	}
	return out
}

func refIDRest(v any) any {
	switch x := v.(type) {
	case string:
		return []any{x, map[string]any{}}
	case map[string]any:
		rest := copyObj(x)
		delete(rest, "id")
		id, _ := x["id"].(string)
		return []any{id, rest}
	}
	return nil
}

// refContents are the typed contents of a credential document.
func refContents(d map[string]any) string {
	o := map[string]any{}
	str, cust := []any{}, []any{}
	switch c := d["@context"].(type) {
	case string:
		str = append(str, c)
	case []any:
		for i, x := range c {
			if _, ok := x.(string); !ok {
				cust = c[i:]
				break
			}
			str = append(str, x)
		}
	}
	o["ctx"], o["custom"] = str, cust
	o["id"], _ = d["id"].(string)
	o["types"] = d["type"]
	if s, ok := d["type"].(string); ok {
		o["types"] = []any{s}
	}
	o["issuer"] = refIDRest(d["issuer"])
	subs := []any{}
	if l, ok := d["credentialSubject"].([]any); ok {
		for _, s := range l {
			subs = append(subs, refIDRest(s))
		}
	} else if d["credentialSubject"] != nil {
		subs = append(subs, refIDRest(d["credentialSubject"]))
	}
	o["subjects"] = subs
	if len(str) > 0 && str[0] == v2ctx {
		o["issued"], o["expired"] = refTime(d, "validFrom", "issuanceDate"), refTime(d, "validUntil", "expirationDate")
	} else {
		o["issued"], o["expired"] = refTime(d, "issuanceDate", "validFrom"), refTime(d, "expirationDate", "validUntil")
	}
	o["status"], o["schemas"], o["terms"], o["refresh"] = refTyped(d["credentialStatus"]), refTyped(d["credentialSchema"]), refTyped(d["termsOfUse"]), refTyped(d["refreshService"])
	o["evidence"] = d["evidence"]
	rel := []any{}
	if l, ok := d["relatedResource"].([]any); ok {
		for _, x := range l {
			m := x.(map[string]any)
			r := []any{}
			for _, k := range []string{"id", "digestSRI", "digestMultibase", "mediaType"} {
				s, _ := m[k].(string)
				r = append(r, s)
			}
			rel = append(rel, r)
		}
	}
	o["related"] = rel
	return h.Canon(o)
}

func orEmpty(m verifiable.CustomFields) map[string]any {
	if m == nil {
		return map[string]any{}
	}
	return m
}

// contentsOf are the typed contents that the library returns.
func contentsOf(c verifiable.CredentialContents) string {
	o := map[string]any{"id": c.ID, "evidence": c.Evidence, "issued": nil, "expired": nil, "issuer": nil}
	strs := func(l []string) []any {
		r := []any{}
		for _, s := range l {
			r = append(r, s)
		}
		return r
	}
	o["ctx"], o["types"], o["custom"] = strs(c.Context), strs(c.Types), append([]any{}, c.CustomContext...)
	if c.Issuer != nil {
		o["issuer"] = []any{c.Issuer.ID, orEmpty(c.Issuer.CustomFields)}
	}
	subs := []any{}
	for _, s := range c.Subject {
		subs = append(subs, []any{s.ID, orEmpty(s.CustomFields)})
	}
	o["subjects"] = subs
	if c.Issued != nil {
		o["issued"] = c.Issued.UTC().Format(time.RFC3339Nano)
	}
	if c.Expired != nil {
		o["expired"] = c.Expired.UTC().Format(time.RFC3339Nano)
	}
	typed := func(l ...verifiable.TypedID) []any {
		r := []any{}
		for _, t := range l {
			r = append(r, []any{t.ID, t.Type, orEmpty(t.CustomFields)})
		}
		return r
	}
	sts := []any{}
	for _, s := range c.Status {
		sts = append(sts, typed(*s)...)
	}
	o["status"], o["schemas"], o["terms"], o["refresh"] = sts, typed(c.Schemas...), typed(c.TermsOfUse...), []any{}
	if c.RefreshService != nil {
		o["refresh"] = typed(*c.RefreshService)
	}
	rel := []any{}
	for _, r := range c.RelatedResources {
		rel = append(rel, []any{r.Id, r.DigestSRI, r.DigestMultiBase, r.MediaType})
	}
	o["related"] = rel
	return h.Canon(parseObj(h.JSON(o)))
}

// docNorm makes equivalent spellings equal.
func docNorm(d map[string]any) string {
	d = parseObj(h.JSON(d))
	if l, ok := d["proof"].([]any); ok && len(l) == 1 {
		d["proof"] = l[0]
	}
	if m, ok := d["issuer"].(map[string]any); ok && len(m) == 1 && m["id"] != nil {
		d["issuer"] = m["id"]
	}
	return h.Canon(d)
}

func toSecond(s string) string {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return time.Unix(t.Unix(), 0).UTC().Format(time.RFC3339)
}

// viaClaims is the document after its way through JWT or CWT claims.
func viaClaims(d map[string]any, v2 bool) map[string]any {
	d = copyObj(d)
	issued, expires, oIssued, oExpires := "issuanceDate", "expirationDate", "validFrom", "validUntil"
	if v2 {
		issued, expires, oIssued, oExpires = oIssued, oExpires, issued, expires
	}
	for _, p := range [][2]string{{issued, oIssued}, {expires, oExpires}} {
		if s, ok := d[p[0]].(string); ok {
			d[p[0]] = toSecond(s)
		} else if s, ok := d[p[1]].(string); ok {
			d[p[1]] = toSecond(s)
		}
	}
	return d
}

type p14Conv struct {
	name   string
	claims bool // dates pass through JWT claims; the form states some claims a second time
	run    func(vc *verifiable.Credential, k *fx.Key) (*verifiable.Credential, []byte, error)
}

func p14Convs() (o []p14Conv) {
	add := func(name string, claims bool, run func(vc *verifiable.Credential, k *fx.Key) (*verifiable.Credential, []byte, error)) {
		o = append(o, p14Conv{name, claims, run})
	}
	add("json", false, func(vc *verifiable.Credential, _ *fx.Key) (*verifiable.Credential, []byte, error) {
		b, err := vc.MarshalAsJSONLD()
		return vc, b, err
	})
	add("natural", false, func(vc *verifiable.Credential, _ *fx.Key) (*verifiable.Credential, []byte, error) {
		b, err := vc.MarshalJSON()
		return vc, b, err
	})
	for _, min := range []bool{false, true} {
		add(fmt.Sprintf("jwt min=%v", min), true, func(vc *verifiable.Credential, k *fx.Key) (*verifiable.Credential, []byte, error) {
			n, err := vc.CreateSignedJWTVC(min, verifiable.EdDSA, jwtAnySigner{k}, k.KID)
			if err != nil {
				return nil, nil, err
			}
			s, err := n.ToJWTString()
			return n, []byte(s), err
		})
		add(fmt.Sprintf("unsecured min=%v", min), true, func(vc *verifiable.Credential, _ *fx.Key) (*verifiable.Credential, []byte, error) {
			n, err := vc.CreateUnsecuredJWTVC(min)
			if err != nil {
				return nil, nil, err
			}
			b, err := n.MarshalJSON()
			return n, b, err
		})
	}
	add("jwt enveloped", true, func(vc *verifiable.Credential, k *fx.Key) (*verifiable.Credential, []byte, error) {
		n, err := vc.CreateSignedJWTVC(false, verifiable.EdDSA, jwtAnySigner{k}, k.KID)
		if err != nil {
			return nil, nil, err
		}
		s, err := n.ToJWTString()
		if err != nil {
			return nil, nil, err
		}
		e := &verifiable.Envelope{Context: []string{v2ctx}, Type: []string{verifiable.VCEnvelopedType}, ID: verifiable.NewDataURL(verifiable.VCMediaTypeJWT, "", s)}
		b, err := json.Marshal(e)
		return n, b, err
	})
	for _, w := range []string{"cwt", "cwt hex", "cwt natural"} {
		add(w, false, func(vc *verifiable.Credential, k *fx.Key) (*verifiable.Credential, []byte, error) {
			n, err := vc.CreateSignedCOSEVC(k.Cose, p10Signer{k}, k.KID)
			if err != nil {
				return nil, nil, err
			}
			var b []byte
			switch w {
			case "cwt":
				b, err = n.MarshalAsCWTLD()
			case "cwt hex":
				b, err = n.MarshalAsCWTLD()
				b = []byte(hex.EncodeToString(b))
			default:
				b, err = n.MarshalJSON()
			}
			return n, b, err
		})
	}
	return
}

func hasClaimsSubject(d map[string]any) bool {
	switch s := d["credentialSubject"].(type) {
	case string:
		return true
	case map[string]any:
		return s["id"] != nil
	case []any:
		return len(s) == 1 && s[0].(map[string]any)["id"] != nil
	}
	return false
}

func p14Opts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
}

// p14Chain converts vc by every chain of up to depth conversions.
func p14Chain(t *h.T, name string, vc *verifiable.Credential, doc map[string]any, v2 bool, k *fx.Key, convs []p14Conv, depth int, path string) {
	if depth == 0 {
		return
	}
	for _, c := range convs {
		p := path + " > " + c.name
		if vc.IsJWT() && c.name == "cwt natural" {
			continue // another form than the caller asked for
		}
		var n *verifiable.Credential
		var b []byte
		var err error
		ok := !c.claims && !strings.HasPrefix(c.name, "cwt") || hasClaimsSubject(doc)
		if pn := h.Guard(func() { n, b, err = c.run(vc, k) }); pn != "" {
			t.FailSub("panic", "%s%s: %s", name, p, pn)
			continue
		}
		t.Step("%s%s %v", name, p, err == nil)
		if (err == nil) != ok {
			t.FailSub("convert", "%s%s: %v", name, p, err)
			continue
		}
		if !ok {
			continue
		}
		p14Same(t, "converted", name+p, n, doc)
		want := doc
		if c.claims || c.name == "natural" && vc.IsJWT() {
			want = viaClaims(doc, v2)
		}
		back, err := verifiable.ParseCredential(b, p14Opts()...)
		if err != nil {
			t.FailSub("parse", "%s%s: %v", name, p, err)
			continue
		}
		t.Statef("%s%s", name, p)
		if p14Same(t, "parsed", name+p, back, want) {
			p14Chain(t, name, back, want, v2, k, convs, depth-1, p)
		}
	}
}

func p14Same(t *h.T, sub, name string, vc *verifiable.Credential, doc map[string]any) bool {
	ok := true
	if g, w := docNorm(vc.ToRawJSON()), docNorm(doc); g != w {
		t.FailSub(sub+"-json", "%s: got %s want %s", name, g, w)
		ok = false
	}
	if g, w := contentsOf(vc.Contents()), refContents(doc); g != w {
		t.FailSub(sub+"-contents", "%s: got %s want %s", name, g, w)
		ok = false
	}
	return ok
}

func genP14(e *h.Env) {
	k := fx.NewKey("ed25519", wIss, "k1")
	convs := p14Convs()
	for _, v2 := range []bool{false, true} {
		vs := p14Variants(v2)
		run := func(t *h.T, name string, depth int, chosen ...variant) {
			doc := p14Doc(v2)
			for _, v := range chosen {
				v.set(doc)
			}
			vc, err := verifiable.ParseCredential([]byte(h.JSON(doc)), p14Opts()...)
			t.Must(err, "parse "+name)
			if !p14Same(t, "read", name, vc, doc) {
				return
			}
			p14Chain(t, name, vc, doc, v2, k, convs, depth, "")
			// from the typed contents
			custom := verifiable.CustomFields{}
			for f, v := range doc {
				switch f {
				case "@context", "id", "type", "issuer", "credentialSubject", "issuanceDate", "expirationDate", "validFrom", "validUntil", "credentialStatus", "credentialSchema", "termsOfUse", "refreshService", "evidence", "relatedResource", "proof":
				default:
					custom[f] = v
				}
			}
			made, err := verifiable.CreateCredentialWithProofs(vc.Contents(), custom, vc.Proofs())
			t.Must(err, "create")
			for i := 0; i < 2; i++ {
				if g, w := contentsOf(made.Contents()), refContents(doc); g != w {
					t.FailSub("made-contents", "%s round %d: got %s want %s", name, i, g, w)
				}
				for f, v := range custom {
					if h.Canon(made.CustomField(f)) != h.Canon(v) {
						t.FailSub("made-custom", "%s round %d: %s is %v want %v", name, i, f, made.CustomField(f), v)
					}
				}
				if len(made.Proofs()) != len(vc.Proofs()) {
					t.FailSub("made-proofs", "%s round %d", name, i)
				}
				mb, err := made.MarshalJSON()
				t.Must(err, "marshal made")
				n, err := verifiable.ParseCredential(mb, p14Opts()...)
				t.Must(err, "parse made")
				made = n
			}
			// conversions of a credential that was made, not parsed
			made, err = verifiable.CreateCredentialWithProofs(vc.Contents(), custom, vc.Proofs())
			t.Must(err, "create")
			mdoc := parseObj(h.JSON(made.ToRawJSON()))
			p14Chain(t, name+" (made)", made, mdoc, v2, k, convs, 1, "")
		}
		e.Casef(func(t *h.T) { run(t, "plain", e.Pick(3, 4)) }, "v2=%v plain", v2)
		for i, a := range vs {
			e.Casef(func(t *h.T) {
				run(t, "", e.Pick(2, 3), a)
				for j := i + 1; j < len(vs); j++ {
					b := vs[j]
					if a.field == b.field || !e.Thorough() && (i*7+j)%11 != 0 {
						continue
					}
					run(t, b.field+"="+b.name, e.Pick(1, 2), a, b)
				}
			}, "v2=%v %s=%s", v2, a.field, a.name)
		}
	}
}
