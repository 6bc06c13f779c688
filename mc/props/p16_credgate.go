package props

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P16", Level: "enumerated", Gen: genP16,
		Rule: "every securing form x wrapping x (key that signed, key id named, issuer stated) x data model; every form x subset of available checkers; every single change of every node of a secured credential, at the parsing entry point; proof lists; every wrapping of every unproven credential; the verdict and the returned claims are compared with a reference policy",
		Assume: []string{"the issuer a credential states is the one it has after parsing (a JWT's iss claim replaces a vc.issuer that is not a DID)",
			"contexts define all terms of the documents"}})
}

// credForm is a way to secure a credential.
type credForm struct {
	name  string
	kind  string
	suite string
	// family is jwt, cwt, ld or di: the checker that decides.
	family string
}

var credForms = []credForm{
	{"jwt", "ed25519", "", "jwt"}, {"jwt-p256", "p256", "", "jwt"}, {"jwt-min", "ed25519", "", "jwt"},
	{"sdjwt2", "ed25519", "", "jwt"}, {"sdjwt5", "ed25519", "", "jwt"},
	{"cwt", "ed25519", "", "cwt"}, {"cwt-p256", "p256", "", "cwt"},
	{"ld2018", "ed25519", "Ed25519Signature2018", "ld"}, {"ld2020", "ed25519", "Ed25519Signature2020", "ld"}, {"jws2020", "p256", "JsonWebSignature2020", "ld"},
	{"secp", "secp256k1", "EcdsaSecp256k1Signature2019", "ld"},
	{"di-eddsa", "ed25519", "eddsa-rdfc-2022", "di"}, {"di-ecdsa", "p256", "ecdsa-rdfc-2019", "di"},
}

// world is the set of registered keys of one kind: two of the issuer, one of another party.
type world struct {
	f      credForm
	k1, k2 *fx.Key
	ev     *fx.Key
}

const (
	wIss  = "did:verif:issuer"
	wEvil = "did:verif:issuer2"
	wCase = "did:verif:Issuer"
)

func newWorld(f credForm) *world {
	return &world{f, fx.NewKey(f.kind, wIss, "k1"), fx.NewKey(f.kind, wIss, "k2"), fx.NewKey(f.kind, wEvil, "k1")}
}

func (w *world) keys() []*fx.Key { return []*fx.Key{w.k1, w.k2, w.ev} }

func (w *world) resolver() *fx.Resolver {
	r := fx.NewResolver(w.keys()...)
	if w.f.family == "ld" {
		for _, k := range w.keys() {
			r.Set(k.KID, ldVM(k, w.f.suite))
		}
	}
	return r
}

func (w *world) opts(extra ...verifiable.CredentialOpt) []verifiable.CredentialOpt {
	c := fx.CheckerR(w.resolver())
	o := []verifiable.CredentialOpt{verifiable.WithProofChecker(c), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
	if w.f.family == "di" {
		o = append(o, verifiable.WithDataIntegrityVerifier(diVerifier(diDoc(w.keys()...))), verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", ""))
	}
	return append(o, extra...)
}

// as returns key k pretending to be kid.
func as(k *fx.Key, kid string) *fx.Key {
	c := *k
	c.KID, c.DID = kid, strings.Split(kid, "#")[0]
	return &c
}

// vcDoc is a credential for a form.
func (f credForm) vcDoc(dm int, issuer any) map[string]any {
	m := map[string]any{"id": "urn:vc:1", "type": []any{"VerifiableCredential", "XCred"},
		"credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0, "o": map[string]any{"p": "deep"}}}
	if issuer != nil {
		m["issuer"] = issuer
	}
	ctx := []any{"https://www.w3.org/2018/credentials/v1"}
	m["issuanceDate"] = "2020-01-01T00:00:00Z"
	if dm == 2 {
		ctx = []any{"https://www.w3.org/ns/credentials/v2"}
		delete(m, "issuanceDate")
		m["validFrom"] = "2020-01-01T00:00:00Z"
	}
	switch {
	case f.name == "ld2020":
		ctx = append(ctx, "https://w3id.org/security/suites/ed25519-2020/v1")
	case strings.HasPrefix(f.name, "jws2020"):
		ctx = append(ctx, "https://w3id.org/security/suites/jws-2020/v1")
	case f.family == "di" && dm == 1:
		ctx = append(ctx, "https://w3id.org/security/data-integrity/v2")
	}
	m["@context"] = append(ctx, fx.CtxX)
	return m
}

func (f credForm) dms() []int {
	if f.family == "ld" {
		return []int{1}
	}
	return []int{1, 2}
}

// secure signs doc with k (whose KID is named in the proof). JSON forms give the JSON document.
func (f credForm) secure(t *h.T, k *fx.Key, doc map[string]any) string {
	switch f.family {
	case "ld":
		out, err := ldSigning{suite: f.suite, vm: k.KID, purpose: "assertionMethod"}.sign(k, doc)
		t.Must(err, "sign")
		return h.JSON(out)
	case "di":
		return h.JSON(diSign(t, diDoc(k), k, doc, diOpts(f.suite, k)))
	}
	vc, err := verifiable.ParseCredentialJSON(copyObj(doc), verifiable.WithCredDisableValidation())
	t.Must(err, "parse source")
	switch f.name {
	case "sdjwt2", "sdjwt5":
		v := common.SDJWTVersionV2
		if f.name == "sdjwt5" {
			v = common.SDJWTVersionV5
		}
		s, err := vc.MakeSDJWT(sdSigner{k: k}, k.KID, verifiable.MakeSDJWTWithVersion(v))
		t.Must(err, "sd-jwt")
		return s
	case "cwt", "cwt-p256", "cwt-p384":
		s, err := vc.CreateSignedCOSEVC(k.Cose, p10Signer{k}, k.KID)
		t.Must(err, "cose")
		hx, err := s.MarshalAsCWTLDHex()
		t.Must(err, "cose")
		return hx
	}
	s, err := vc.CreateSignedJWTVC(f.name == "jwt-min", verifiable.EdDSA, jwtAnySigner{k}, k.KID)
	if err != nil {
		t.Must(err, "jwt")
	}
	out, err := s.ToJWTString()
	t.Must(err, "jwt")
	return out
}

// jwtAnySigner signs JWTs with one key and its algorithm.
type jwtAnySigner struct{ k *fx.Key }

func (s jwtAnySigner) SignJWT(_ jwt.SignParameters, data []byte) ([]byte, error) {
	return signWith(s.k, data), nil
}

func (s jwtAnySigner) CreateJWTHeaders(p jwt.SignParameters) (jose.Headers, error) {
	return jose.Headers{"alg": s.k.JWTAlg, "kid": p.KeyID, "typ": "JWT"}, nil
}

// wraps lists the wrappings of a secured credential. legit wrappings must be transparent.
type wrapping struct {
	name  string
	legit bool
	data  []byte
}

func (f credForm) wraps(s string, doc map[string]any) []wrapping {
	env := func(media, data string) []byte {
		return []byte(h.JSON(map[string]any{"@context": []any{"https://www.w3.org/ns/credentials/v2"}, "type": "EnvelopedVerifiableCredential", "id": "data:" + media + "," + data,
			"issuer": wIss, "credentialSubject": map[string]any{"id": "forged"}}))
	}
	q := func(x string) []byte { return []byte(h.JSON(x)) }
	forged := copyObj(doc)
	forged["credentialSubject"] = map[string]any{"id": "did:ex:forged"}
	switch f.family {
	case "jwt":
		forged["jwt"] = s
		return []wrapping{{"raw", true, []byte(s)}, {"quoted", true, q(s)}, {"jwt-field", true, []byte(h.JSON(map[string]any{"jwt": s}))},
			{"jwt-field-forged", false, []byte(h.JSON(forged))}, {"env", true, env("application/vc-ld+jwt", s)}, {"env-sd", true, env("application/vc-ld+sd-jwt", s)},
			{"env-cose", false, env("application/vc-ld+cose", s)}, {"env-json", false, env("application/json", s)}, {"unsecured", false, []byte(unsecured(map[string]any{"iss": wIss, "vc": s}))}}
	case "cwt":
		b, _ := hex.DecodeString(s)
		return []wrapping{{"hex", true, []byte(s)}, {"quoted", true, q(s)}, {"raw", true, b}, {"env", true, env("application/vc-ld+cose", s)},
			{"env-jwt", false, env("application/vc-ld+jwt", s)}, {"jwt-field", false, []byte(h.JSON(map[string]any{"jwt": s}))}}
	}
	obj := parseObj(s)
	return []wrapping{{"json", true, []byte(s)}, {"spaced", true, []byte(" \n" + s + "\t")},
		{"unsecured", true, []byte(unsecured(map[string]any{"iss": obj2id(obj["issuer"]), "vc": obj}))},
		{"unsecured-quoted", true, q(unsecured(map[string]any{"iss": obj2id(obj["issuer"]), "vc": obj}))},
		{"env", false, env("application/vc-ld+jwt", s)}, {"env-json", false, env("application/vc", s)}, {"quoted", false, q(s)},
		{"jwt-field", false, []byte(h.JSON(map[string]any{"jwt": s}))}}
}

func obj2id(v any) string {
	if m, ok := v.(map[string]any); ok {
		v = m["id"]
	}
	s, _ := v.(string)
	return s
}

// unsecured is a JWT with alg none.
func unsecured(payload any) string {
	enc := base64.RawURLEncoding.EncodeToString
	return enc([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + enc([]byte(h.JSON(payload))) + "."
}

// p16Claims compares the returned credential with the signed document.
func p16Claims(t *h.T, f credForm, doc map[string]any, vc *verifiable.Credential, sub string) {
	raw := parseAny([]byte(h.JSON(vc.ToRawJSON()))).(map[string]any)
	delete(raw, "proof")
	want := parseAny([]byte(h.JSON(doc))).(map[string]any)
	if strings.HasPrefix(f.name, "sdjwt") {
		d, err := vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
		if err != nil {
			t.FailSub(sub+"-display", "%v", err)
			return
		}
		raw = parseAny([]byte(h.JSON(d))).(map[string]any)
	}
	if h.Canon(raw) != h.Canon(want) {
		t.FailSub(sub+"-claims", "returned claims %s differ from the signed ones %s", h.Canon(raw), h.Canon(want))
	}
	c := vc.Contents()
	if c.ID != "urn:vc:1" || c.Issuer == nil || c.Issuer.ID != obj2id(doc["issuer"]) || len(c.Subject) != 1 || c.Subject[0].ID != "did:ex:s" {
		t.FailSub(sub+"-contents", "returned contents %s", h.JSON(c))
	}
}

// p16Verdict parses and checks the verdict, twice: in one step, and by CheckProof afterwards.
func p16Verdict(t *h.T, w *world, in []byte, want bool, mustAccept bool, doc map[string]any, sub string) {
	vc, err := verifiable.ParseCredential(in, w.opts()...)
	t.Step("%s: %v", sub, err == nil)
	switch {
	case err == nil && !want:
		t.FailSub(sub, "unproven credential accepted: %s", h.JSON(vc.ToRawJSON()))
	case err != nil && mustAccept:
		t.FailSub(sub, "proven credential refused: %v", err)
	}
	if err == nil && doc != nil {
		p16Claims(t, w.f, doc, vc, sub)
	}
	if vc != nil && err != nil {
		t.FailSub(sub+"-returned", "a credential is returned together with the error %v", err)
	}
	vc2, err2 := verifiable.ParseCredential(in, w.opts(verifiable.WithDisabledProofCheck())...)
	if err2 == nil {
		err3 := vc2.CheckProof(w.opts()...)
		if (err3 == nil) != (err == nil) {
			t.FailSub(sub+"-later", "CheckProof after parsing without says %v, parsing with proof check %v", err3, err)
		}
	}
	vc4, err4 := verifiable.ParseCredential(in, w.opts(verifiable.WithCredDisableValidation())...)
	if err4 == nil && !want {
		t.FailSub(sub+"-novalidation", "unproven credential accepted without validation: %s", h.JSON(vc4.ToRawJSON()))
	}
}

func genP16(e *h.Env) {
	forms := credForms
	if e.Thorough() {
		for _, k := range []string{"p384", "p521", "secp256k1", "ps256", "rs256"} {
			forms = append(forms, credForm{"jwt-" + k, k, "", "jwt"})
			if k == "p384" {
				forms = append(forms, credForm{"cwt-" + k, k, "", "cwt"})
			}
			if k != "rs256" {
				forms = append(forms, credForm{"jws2020-" + k, k, "JsonWebSignature2020", "ld"})
			}
		}
		forms = append(forms, credForm{"jws2020-ed25519", "ed25519", "JsonWebSignature2020", "ld"}, credForm{"di-p384", "p384", "ecdsa-rdfc-2019", "di"})
	}
	for _, f := range forms {
		w := newWorld(f)
		kids := []string{w.k1.KID, w.k2.KID, w.ev.KID, wIss + "#k9", "did:verif:nobody#k1"}
		issuers := []any{wIss, map[string]any{"id": wIss, "name": "n"}, wEvil, map[string]any{"id": wEvil, "name": "n"}, "did:verif:nobody", wIss + "/x", wIss + "#k1", wCase, "https://issuer.example"}
		for _, dm := range f.dms() {
			for _, iss := range issuers {
				for ki, k := range w.keys() {
					for _, kid := range kids {
						e.Casef(func(t *h.T) {
							doc := f.vcDoc(dm, iss)
							s := f.secure(t, as(k, kid), doc)
							reg := map[string]*fx.Key{w.k1.KID: w.k1, w.k2.KID: w.k2, w.ev.KID: w.ev}[kid]
							want := reg == k && reg.DID == obj2id(iss)
							for _, x := range f.wraps(s, doc) {
								p16Verdict(t, w, x.data, want, want && x.legit, doc, x.name)
							}
							t.Outcome("%s %v", f.family, want)
							t.State(fmt.Sprintf("%s %d %v %d %s", f.name, dm, iss, ki, kid))
						}, "%s dm%d issuer %s signed by %s as %s", f.name, dm, h.JSON(iss), k.KID, kid)
					}
				}
				if e.Stopped() {
					return
				}
			}
			for _, obj := range []bool{false, true} {
				var iss any = wIss
				if obj {
					iss = map[string]any{"id": wIss, "name": "n"}
				}
				e.Casef(func(t *h.T) { p16Tamper(t, w, f.vcDoc(dm, iss)) }, "%s dm%d object=%v changes", f.name, dm, obj)
			}
			e.Casef(func(t *h.T) { p16Checkers(t, w, f.vcDoc(dm, wIss)) }, "%s dm%d checkers", f.name, dm)
			e.Casef(func(t *h.T) { p16Derived(t, w, f.vcDoc(dm, wIss)) }, "%s dm%d derived", f.name, dm)
			e.Casef(func(t *h.T) { p16Unproven(t, w, f.vcDoc(dm, wIss)) }, "%s dm%d unproven", f.name, dm)
			if f.family == "ld" || f.family == "di" {
				e.Casef(func(t *h.T) { p16Lists(t, w, f.vcDoc(dm, wIss)) }, "%s dm%d lists", f.name, dm)
				e.Casef(func(t *h.T) { p16External(t, w, f.vcDoc(dm, wIss)) }, "%s dm%d external context", f.name, dm)
			}
			if f.family == "jwt" {
				e.Casef(func(t *h.T) { p16Inner(t, w, dm) }, "%s dm%d embedded proof inside a token", f.name, dm)
				e.Casef(func(t *h.T) { p16Iss(t, w, dm) }, "%s dm%d iss claim", f.name, dm)
			}
		}
	}
}

// p16Tamper changes every node of a secured credential.
func p16Tamper(t *h.T, w *world, doc map[string]any) {
	f := w.f
	s := f.secure(t, w.k1, doc)
	p16Verdict(t, w, []byte(s), true, true, doc, "original")
	other := copyObj(doc)
	other["credentialSubject"] = map[string]any{"id": "did:ex:other", "name": "Bob"}
	o := f.secure(t, w.k1, other)
	try := func(what, in string) {
		if in != s {
			p16Verdict(t, w, []byte(in), false, false, nil, what)
		}
	}
	// trySD tries a token with disclosures in the issuance format, in the presentation format, and bound by a holder.
	trySD := func(what, in string) {
		try(what, in)
		in = strings.TrimSuffix(in, "~")
		try(what+", presented", in+"~")
		for _, k := range []*fx.Key{w.ev, w.k1} {
			kb := rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "kb+jwt"}, []byte(`{"nonce":"n","aud":"a","iat":1577836800}`), k)
			try(what+", bound by "+k.Name, in+"~"+kb)
		}
		base, _, _ := strings.Cut(in, "~")
		try(what+", bound by itself", in+"~"+base)
	}
	switch f.family {
	case "jwt":
		base, rest, _ := strings.Cut(s, "~")
		p := strings.Split(base, ".")
		ob, _, _ := strings.Cut(o, "~")
		q := strings.Split(ob, ".")
		sep := ""
		if strings.Contains(s, "~") {
			sep = "~" + rest
		}
		for m := 1; m < 7; m++ {
			x := [3]string{p[0], p[1], p[2]}
			for i := 0; i < 3; i++ {
				if m>>i&1 == 1 {
					x[i] = q[i]
				}
			}
			if y := strings.Join(x[:], "."); y != base && y != ob {
				try(fmt.Sprintf("mix %d", m), y+sep)
			}
		}
		pb, err := b64u.DecodeString(p[1])
		t.Must(err, "payload")
		for _, m := range semMutations(parseAny(pb)) {
			try("payload "+m.what, p[0]+"."+b64u.EncodeToString([]byte(h.JSON(m.doc)))+"."+p[2]+sep)
		}
		hb, err := b64u.DecodeString(p[0])
		t.Must(err, "header")
		for _, m := range semMutations(parseAny(hb)) {
			try("header "+m.what, b64u.EncodeToString([]byte(h.JSON(m.doc)))+"."+p[1]+"."+p[2]+sep)
		}
		try("no signature", p[0]+"."+p[1]+"."+sep)
		try("two parts", p[0]+"."+p[1]+sep)
		try("alg none", b64u.EncodeToString([]byte(`{"alg":"none"}`))+"."+p[1]+"."+sep)
		try("alg none signed", b64u.EncodeToString([]byte(`{"alg":"none"}`))+"."+p[1]+"."+p[2]+sep)
		if sep != "" {
			ds := strings.Split(rest, "~")
			od := strings.Split(o, "~")[1:]
			for i := range ds {
				for _, fl := range discFaults(ds[i]) {
					foreign := false
					for _, d := range fl.fn(ds, i) {
						foreign = foreign || d != "" && !strings.Contains("~"+rest+"~", "~"+d+"~")
					}
					if !foreign {
						continue // a selection or repetition of true disclosures
					}
					trySD(fmt.Sprintf("disclosure %d %s", i, fl.name), strings.Join(append([]string{base}, fl.fn(ds, i)...), "~"))
				}
			}
			trySD("foreign disclosures", strings.Join(append([]string{base}, od...), "~"))
			trySD("added disclosure", s+"~"+mkDisc("salt", "admin", true))
			trySD("added disclosure at the front", base+"~"+mkDisc("salt", "admin", true)+"~"+rest)
		} else {
			trySD("added disclosure", base+"~"+mkDisc("salt", "admin", true))
		}
	case "cwt":
		b, _ := hex.DecodeString(s)
		ob, _ := hex.DecodeString(o)
		m, n := splitCose(t, b), splitCose(t, ob)
		for i := 1; i < 7; i++ {
			if (i&2 == 0) == (i&4 == 0) {
				continue // the protected headers are equal
			}
			x := m
			if i&1 != 0 {
				x.prot = n.prot
			}
			if i&2 != 0 {
				x.payload = n.payload
			}
			if i&4 != 0 {
				x.sig = n.sig
			}
			if enc := hex.EncodeToString(x.bytes()); enc != o {
				try(fmt.Sprintf("mix %d", i), enc)
			}
		}
		for _, mu := range semMutations(parseAny([]byte(h.JSON(doc)))) {
			x := m
			x.payload = cb(map[string]any{"iss": wIss, "vc": mu.doc})
			try("payload "+mu.what, hex.EncodeToString(x.bytes()))
		}
		for _, sig := range [][]byte{nil, {}, {0}, make([]byte, len(m.sig)), m.sig[:len(m.sig)-1], append(append([]byte{}, m.sig...), 0)} {
			x := m
			x.sig = sig
			try(fmt.Sprintf("signature of %d", len(sig)), hex.EncodeToString(x.bytes()))
		}
	default:
		obj := parseObj(s)
		pr := obj["proof"]
		delete(obj, "proof")
		for _, m := range semMutations(obj) {
			md, ok := m.doc.(map[string]any)
			if !ok || md["proof"] != nil || strings.Contains(m.what, "/@context") {
				continue
			}
			md = copyObj(md)
			md["proof"] = pr
			try("document "+m.what, h.JSON(md))
			if md["issuer"] != nil && h.Canon(md["issuer"]) == h.Canon(obj["issuer"]) {
				try("document "+m.what+" unsecured", unsecured(map[string]any{"iss": wIss, "vc": md}))
			}
		}
		obj["proof"] = parseObj(o)["proof"]
		try("proof of another", h.JSON(obj))
		for _, x := range []any{nil, []any{}, map[string]any{}, "x", 1, []any{map[string]any{}}, []any{[]any{pr}}, []any{nil}, []any{"x"}} {
			obj["proof"] = x
			try("proof "+h.JSON(x), h.JSON(obj))
			try("proof "+h.JSON(x)+" unsecured", unsecured(map[string]any{"iss": wIss, "vc": obj}))
		}
		delete(obj, "proof")
		try("no proof", h.JSON(obj))
	}
}

func p16Checkers(t *h.T, w *world, doc map[string]any) {
	f := w.f
	good := f.secure(t, w.k1, doc)
	bad := f.secure(t, as(w.ev, w.k1.KID), doc)
	c := fx.CheckerR(w.resolver())
	di := diVerifier(diDoc(w.keys()...))
	fam := []string{"jwt", "cwt", "ld", "di"}
	for _, m := range h.Subsets(4) {
		o := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(fx.Loader())}
		have := map[string]bool{}
		for i, n := range fam {
			if m>>i&1 == 0 {
				continue
			}
			have[n] = true
			switch n {
			case "jwt":
				o = append(o, verifiable.WithJWTProofChecker(c))
			case "cwt":
				o = append(o, verifiable.WithCWTProofChecker(c))
			case "ld":
				o = append(o, verifiable.WithLDProofChecker(c))
			case "di":
				o = append(o, verifiable.WithDataIntegrityVerifier(di), verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", ""))
			}
		}
		for _, x := range f.wraps(good, doc) {
			if !x.legit {
				continue
			}
			_, err := verifiable.ParseCredential(x.data, o...)
			t.Step("%v %s: %v", have, x.name, err == nil)
			if (err == nil) != have[f.family] {
				t.FailSub("checkers", "%s with checkers %v: %v", x.name, sortedKeys(have), err)
			}
			vc, err := verifiable.ParseCredential(x.data, append(o, verifiable.WithDisabledProofCheck())...)
			if err != nil {
				t.FailSub("disabled", "%s with proof check disabled: %v", x.name, err)
			} else if err := vc.CheckProof(o...); (err == nil) != have[f.family] {
				t.FailSub("checkers-later", "%s CheckProof with checkers %v: %v", x.name, sortedKeys(have), err)
			}
		}
		for _, x := range f.wraps(bad, doc) {
			if _, err := verifiable.ParseCredential(x.data, o...); err == nil {
				t.FailSub("checkers", "forged %s accepted with checkers %v", x.name, sortedKeys(have))
			}
		}
	}
}

// p16Derived: modified copies and unsigned conversions of a proven credential are unproven.
func p16Derived(t *h.T, w *world, doc map[string]any) {
	s := w.f.secure(t, w.k1, doc)
	vc, err := verifiable.ParseCredential([]byte(s), w.opts()...)
	t.Must(err, "parse")
	none := func(what string, c *verifiable.Credential) {
		if c == nil {
			return
		}
		t.Step("%s", what)
		if err := c.CheckProof(w.opts()...); err == nil {
			t.FailSub(what, "CheckProof accepts the %s", what)
		}
		b, err := c.MarshalJSON()
		if err != nil {
			return
		}
		if got, err := verifiable.ParseCredential(b, w.opts()...); err == nil {
			t.FailSub(what, "%s accepted after serialisation: %s", what, h.JSON(got.ToRawJSON()))
		}
	}
	none("modified id", vc.WithModifiedID("urn:vc:1"))
	none("modified subject", vc.WithModifiedSubject([]verifiable.Subject{{ID: "did:ex:forged"}}))
	none("modified issuer", vc.WithModifiedIssuer(&verifiable.Issuer{ID: wIss}))
	none("modified context", vc.WithModifiedContext([]string{"https://www.w3.org/2018/credentials/v1"}))
	none("modified status", vc.WithModifiedStatus(nil))
	fresh, err := verifiable.CreateCredential(vc.Contents(), nil)
	if err == nil {
		none("created from contents", fresh)
	}
	if u, err := vc.CreateUnsecuredJWTVC(false); err == nil && (w.f.family == "jwt" || w.f.family == "cwt") {
		none("unsecured jwt", u)
	}
}

// p16Unproven feeds the bare credential in every wrapping.
// noProofs are values of the member "proof" that prove nothing.
var noProofs = []any{nil, []any{}, map[string]any{}, "x", "", 1, false, []any{map[string]any{}}, []any{nil}, []any{"x"}, []any{[]any{}}, map[string]any{"type": nil}, []any{map[string]any{"type": "DataIntegrityProof"}},
	map[string]any{"type": "DataIntegrityProof", "verificationMethod": "did:x#k"}, map[string]any{"type": "Ed25519Signature2018", "jws": ""}}

func p16Unproven(t *h.T, w *world, doc map[string]any) {
	j := h.JSON(doc)
	enc := base64.RawURLEncoding.EncodeToString
	var in []string
	toks := []string{unsecured(map[string]any{"iss": wIss, "vc": doc}), unsecured(doc), unsecured(map[string]any{"vc": doc, "iss": wIss, "proof": map[string]any{"type": "x"}}),
		enc([]byte(`{"alg":"EdDSA","kid":"`+w.k1.KID+`"}`)) + "." + enc([]byte(h.JSON(map[string]any{"iss": wIss, "vc": doc}))) + ".",
		enc([]byte(`{"alg":"EdDSA","kid":"`+w.k1.KID+`"}`)) + "." + enc([]byte(h.JSON(map[string]any{"iss": wIss, "vc": doc}))) + "." + enc(make([]byte, 64)),
		enc([]byte(`{"kid":"`+w.k1.KID+`"}`)) + "." + enc([]byte(h.JSON(map[string]any{"iss": wIss, "vc": doc}))) + ".",
		enc([]byte(`{"alg":"NONE"}`)) + "." + enc([]byte(h.JSON(map[string]any{"iss": wIss, "vc": doc}))) + ".",
		enc([]byte(`{"alg":"none"}`)) + "." + enc([]byte(h.JSON(map[string]any{"iss": wIss, "vc": doc}))) + "." + enc([]byte("x"))}
	for _, x := range toks {
		in = append(in, x, `"`+x+`"`, h.JSON(map[string]any{"jwt": x}), x+"~", x+"~"+mkDisc("s", "n", "v"), h.JSON(map[string]any{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + x}),
			h.JSON(map[string]any{"type": []string{"VerifiableCredential", "EnvelopedVerifiableCredential"}, "id": "data:application/vc-ld+sd-jwt," + x}))
		d := copyObj(doc)
		d["jwt"] = x
		in = append(in, h.JSON(d))
	}
	for _, pr := range noProofs {
		d := copyObj(doc)
		d["proof"] = deepCopy(pr)
		x := unsecured(map[string]any{"iss": wIss, "vc": d})
		in = append(in, h.JSON(d), h.JSON(h.JSON(d)), x, h.JSON(map[string]any{"jwt": x}), unsecured(d), unsecured(map[string]any{"vc": doc, "iss": wIss, "proof": pr}), hex.EncodeToString(cb(d)),
			h.JSON(map[string]any{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + x}), h.JSON(map[string]any{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + h.JSON(d)}))
	}
	msg := coseMsg{prot: cb(map[any]any{}), payload: cb(map[string]any{"iss": wIss, "vc": doc})}
	in = append(in, j, h.JSON(j), string(msg.bytes()), hex.EncodeToString(msg.bytes()), string(cb(doc)), hex.EncodeToString(cb(doc)), string(msg.payload.([]byte)),
		h.JSON(map[string]any{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+cose," + hex.EncodeToString(msg.bytes())}),
		h.JSON(map[string]any{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + j}),
		h.JSON(map[string]any{"vc": doc}))
	for i, x := range in {
		p16Verdict(t, w, []byte(x), false, false, nil, fmt.Sprintf("input %d", i))
	}
}

// p16Lists: a proof list is accepted only if all its proofs are valid proofs of the issuer.
func p16Lists(t *h.T, w *world, doc map[string]any) {
	signed := func(k *fx.Key) any {
		p := parseObj(w.f.secure(t, k, doc))["proof"]
		if l, ok := p.([]any); ok {
			p = l[0]
		}
		return p
	}
	broken := copyObj(signed(w.k1).(map[string]any))
	for _, f := range []string{"proofValue", "jws"} {
		if s, ok := broken[f].(string); ok {
			broken[f] = strings.Replace(s, s[len(s)-9:len(s)-4], "AAAAA", 1)
		}
	}
	items := []struct {
		n  string
		v  any
		ok bool
	}{{"valid", signed(w.k1), true}, {"valid2", signed(w.k2), true}, {"evil", signed(w.ev), false}, {"forged", signed(as(w.ev, w.k1.KID)), false}, {"broken", broken, false}, {"odd", "x", false},
		{"unknown", map[string]any{"type": "Unknown"}, false}}
	for n := 1; n <= 3; n++ {
		for _, ix := range lists(len(items), n) {
			var l []any
			want := true
			name := ""
			for _, i := range ix {
				l = append(l, deepCopy(items[i].v))
				want = want && items[i].ok
				name += " " + items[i].n
			}
			d := copyObj(doc)
			d["proof"] = l
			vc, err := verifiable.ParseCredential([]byte(h.JSON(d)), w.opts()...)
			t.Step("%s: %v", name, err == nil)
			if (err == nil) != want {
				t.FailSub("list", "proofs%s: %v", name, err)
			}
			if err == nil {
				p16Claims(t, w.f, doc, vc, "list")
			}
		}
	}
}

// p16External: external contexts are used for the check but do not become part of the credential.
func p16External(t *h.T, w *world, doc map[string]any) {
	s := w.f.secure(t, w.k1, doc)
	for _, ext := range [][]string{{fx.CtxX}, {"https://verif.example/ctx/v2"}} {
		vc, err := verifiable.ParseCredential([]byte(s), w.opts(verifiable.WithExternalJSONLDContext(ext...))...)
		t.Step("%v: %v", ext, err == nil)
		if err != nil {
			t.Outcome("external refused")
			continue
		}
		p16Claims(t, w.f, doc, vc, "external")
	}
	// Contexts that the document lacks: signed with them, distributed without.
	bare := copyObj(doc)
	bare["@context"] = bare["@context"].([]any)[:len(bare["@context"].([]any))-1]
	x := parseObj(s)
	x["@context"] = bare["@context"]
	vc, err := verifiable.ParseCredential([]byte(h.JSON(x)), w.opts(verifiable.WithExternalJSONLDContext(fx.CtxX), verifiable.WithCredDisableValidation())...)
	if err != nil {
		t.FailSub("external-bare", "a credential signed with an external context is refused: %v", err)
		return
	}
	p16Claims(t, w.f, bare, vc, "external-bare")
	x["credentialSubject"].(map[string]any)["name"] = "Forged"
	if _, err := verifiable.ParseCredential([]byte(h.JSON(x)), w.opts(verifiable.WithExternalJSONLDContext(fx.CtxX), verifiable.WithCredDisableValidation())...); err == nil {
		t.FailSub("external-forged", "changed credential accepted with an external context")
	}
}

// p16Inner: a proof embedded in a token does not make up for the token's signature.
func p16Inner(t *h.T, w *world, dm int) {
	for _, g := range credForms {
		if g.family != "ld" && g.family != "di" || g.family == "ld" && dm == 2 {
			continue
		}
		gw := newWorld(g)
		doc := g.vcDoc(dm, wIss)
		inner := parseObj(g.secure(t, gw.k1, doc))
		var keys []*fx.Key
		keys = append(append(keys, w.keys()...), gw.keys()...)
		r := fx.NewResolver(keys...)
		c := fx.CheckerR(r)
		o := []verifiable.CredentialOpt{verifiable.WithProofChecker(c), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithDataIntegrityVerifier(diVerifier(diDoc(gw.keys()...))),
			verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", "")}
		for _, k := range []*fx.Key{w.ev, as(w.ev, w.k1.KID)} {
			for _, iss := range []string{wIss, "", wEvil} {
				pl := map[string]any{"iss": iss, "vc": inner}
				if iss == "" {
					pl = map[string]any{"nbf": 1577836800, "vc": inner}
				}
				tok := rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID}, []byte(h.JSON(pl)), k)
				for _, in := range []string{tok, `"` + tok + `"`, h.JSON(map[string]any{"jwt": tok}), tok + "~"} {
					vc, err := verifiable.ParseCredential([]byte(in), o...)
					t.Step("%s %s %q: %v", g.name, k.KID, iss, err == nil)
					if err == nil {
						t.FailSub("inner", "token signed by another party accepted because of the embedded proof: %s", h.JSON(vc.ToRawJSON()))
					}
				}
			}
		}
	}
}

// p16Iss: all combinations of iss claim, vc.issuer and signer.
func p16Iss(t *h.T, w *world, dm int) {
	vals := []any{nil, "", wIss, wEvil, "https://issuer.example", "did:verif:nobody", wCase, wIss + "/x", wIss + " ", 7, map[string]any{}, map[string]any{"id": wIss}, map[string]any{"id": wEvil}, map[string]any{"id": 7}, []any{wIss}}
	for _, iss := range vals {
		for _, vi := range vals {
			for _, k := range []*fx.Key{w.k1, w.ev, as(w.ev, w.k1.KID)} {
				for _, flat := range []bool{false, true} {
					doc := w.f.vcDoc(dm, vi)
					pl := map[string]any{"vc": doc, "nbf": 1577836800}
					if flat {
						pl = doc
						pl["nbf"] = 1577836800
					}
					if iss != nil {
						pl["iss"] = iss
					}
					tok := rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID}, []byte(h.JSON(pl)), k)
					vc, err := verifiable.ParseCredential([]byte(tok), w.opts()...)
					t.Step("iss %v issuer %v %s: %v", iss, vi, k.KID, err == nil)
					forged := k != w.k1 && k != w.ev
					is, _ := iss.(string)
					idOf := obj2id(vi)
					if err != nil {
						_, simple := vi.(string)
						if !forged && is == k.DID && (vi == nil || simple && idOf == k.DID) {
							t.FailSub("iss", "token with iss %v issuer %v signed by %s refused: %v", iss, vi, k.DID, err)
						}
						continue
					}
					if strings.HasPrefix(is, "did:") && strings.HasPrefix(idOf, "did:") && is != idOf {
						t.FailSub("iss-contradicts", "token with iss %v accepted although its credential names the issuer %v", iss, vi)
					}
					got := vc.Contents().Issuer
					if got == nil || got.ID != k.DID || forged {
						t.FailSub("iss", "token with iss %v issuer %v signed by %s (%s) returns issuer %v", iss, vi, k.KID, k.Name, got)
					}
					if g := obj2id(vc.ToRawJSON()["issuer"]); g != k.DID {
						t.FailSub("iss-raw", "token with iss %v issuer %v signed by %s returns issuer %q in its JSON", iss, vi, k.KID, g)
					}
				}
			}
		}
	}
}

// splitCose takes a COSE_Sign1 message apart.
func splitCose(t *h.T, b []byte) coseMsg {
	var arr cbor.Tag
	t.Must(cbor.Unmarshal(b, &arr), "cose")
	p := arr.Content.([]any)
	return coseMsg{prot: p[0].([]byte), payload: p[2].([]byte), sig: p[3].([]byte)}
}
