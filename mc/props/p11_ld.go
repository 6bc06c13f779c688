package props

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/ld/proof"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:   "P11",
		Rule: "documents really signed with every suite, key kind, signature representation and context set, checked through the document verifier and through credential parsing: every single change of the document, every change of every proof attribute, every bit position and length of the signature, every proof list up to three over {valid, second valid, foreign key, other document, wrong suite, not an object, unsigned}, every verification method form x suite x key kind, every expected issuer",
		Assume: []string{
			"documents use contexts that define all their terms, or verification asks for valid RDF (as all parsing entry points do): undefined terms are refused when signing",
			"signed proof attributes are type, creator, created, verificationMethod, proofPurpose, domain, challenge, capabilityChain, and nonce in the JWS representation; id, nonce (proofValue representation) and unknown members are outside the signature by the suites' definition",
			"an ECDSA signature and its encoding variants are one signature: only changes of signature bytes that alter r or s are enumerated",
		},
		Gen: genP11,
	})
}

// ldSuites: suite -> the key kinds that it signs with.
var ldSuites = []struct {
	name, ctx string
	kinds     []string
}{
	{"Ed25519Signature2018", "", []string{"ed25519"}},
	{"Ed25519Signature2020", "https://w3id.org/security/suites/ed25519-2020/v1", []string{"ed25519"}},
	{"EcdsaSecp256k1Signature2019", "", []string{"secp256k1"}},
	{"JsonWebSignature2020", "https://w3id.org/security/suites/jws-2020/v1", []string{"ed25519", "secp256k1", "p256", "p384", "p521", "ps256"}},
	{"BbsBlsSignature2020", "https://w3id.org/security/bbs/v1", []string{"bbs"}},
}

func ldVM(k *fx.Key, suite string) *vermethod.VerificationMethod {
	switch {
	case suite == "JsonWebSignature2020":
		return k.JWKVM()
	case suite == "Ed25519Signature2020":
		return &vermethod.VerificationMethod{Type: "Ed25519VerificationKey2020", Value: k.Raw}
	case suite == "BbsBlsSignature2020":
		return &vermethod.VerificationMethod{Type: "Bls12381G2Key2020", Value: k.Raw}
	}
	return k.RawVMethod()
}

func ldDoc(ctx string) map[string]any {
	c := []any{"https://www.w3.org/2018/credentials/v1"}
	if ctx != "" {
		c = append(c, ctx)
	}
	return map[string]any{"@context": append(c, fx.CtxX), "id": "urn:vc:1", "type": []any{"VerifiableCredential", "XCred"}, "issuer": "did:ex:issuer",
		"issuanceDate":      "2020-01-01T00:00:00Z",
		"credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0, "ok": true, "list": []any{"a", "b"}, "o": map[string]any{"p": map[string]any{"q": "deep"}}}}
}

func ldOpts() []processor.Opts {
	return []processor.Opts{processor.WithDocumentLoader(fx.Loader()), processor.WithValidateRDF()}
}

type ldSigning struct {
	suite, repr, created, vm, creator, domain, challenge, purpose string
	chain                                                         []any
	nonce                                                         string
}

func (s ldSigning) sign(k *fx.Key, doc map[string]any) (map[string]any, error) {
	d := copyObj(doc)
	c := &lddocument.SigningContext{SignatureType: s.suite, Creator: s.creator, KeyType: k.KT, Domain: s.domain, Challenge: s.challenge, Purpose: s.purpose, VerificationMethod: s.vm, CapabilityChain: s.chain, Nonce: []byte(s.nonce)}
	if s.repr == "jws" {
		c.SignatureRepresentation = proof.SignatureJWS
	}
	ts := time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
	if s.created != "" {
		ts, _ = time.Parse(time.RFC3339, s.created)
	}
	c.Created = &ts
	if err := lddocument.NewDocumentSigner(k.Creator()).Sign(c, d, processor.WithDocumentLoader(fx.Loader())); err != nil {
		return nil, err
	}
	return parseObj(h.JSON(d)), nil
}

// ldCheck verifies a document; issuer "-" stands for no expected issuer.
func ldCheck(r *fx.Resolver, doc any, issuer string) error {
	var p *string
	if issuer != "-" {
		p = &issuer
	}
	return lddocument.NewDocumentVerifier(fx.CheckerR(r)).Verify([]byte(h.JSON(doc)), p, ldOpts()...)
}

// ldParse parses a credential with proof check.
func ldParse(r *fx.Resolver, doc any) error {
	_, err := verifiable.ParseCredential([]byte(h.JSON(doc)), verifiable.WithProofChecker(fx.CheckerR(r)), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
	return err
}

func ldSigOf(p map[string]any) (sig []byte, put func([]byte) map[string]any) {
	if s, ok := p["jws"].(string); ok {
		parts := strings.Split(s, ".")
		sig, _ = base64.RawURLEncoding.DecodeString(parts[2])
		return sig, func(b []byte) map[string]any {
			m := copyObj(p)
			m["jws"] = parts[0] + ".." + base64.RawURLEncoding.EncodeToString(b)
			return m
		}
	}
	s := p["proofValue"].(string)
	if p["type"] == "Ed25519Signature2020" {
		_, sig, _ = multibase.Decode(s)
		return sig, func(b []byte) map[string]any {
			m := copyObj(p)
			m["proofValue"], _ = multibase.Encode(multibase.Base58BTC, b)
			return m
		}
	}
	sig, _ = base64.RawURLEncoding.DecodeString(s)
	return sig, func(b []byte) map[string]any {
		m := copyObj(p)
		m["proofValue"] = base64.RawURLEncoding.EncodeToString(b)
		return m
	}
}

func genP11(e *h.Env) {
	const iss = "did:ex:issuer"
	for _, su := range ldSuites {
		for _, kind := range su.kinds {
			for _, repr := range []string{"value", "jws"} {
				if repr == "jws" && (kind == "bbs" || su.name == "Ed25519Signature2020") {
					continue // these suites have no JWS form
				}
				for ci, ctx := range []string{su.ctx, ""} {
					if ci == 1 && su.ctx == "" {
						continue
					}
					su, kind, repr, ctx := su, kind, repr, ctx
					k := fx.NewKey(kind, iss, "k1")
					r := fx.NewResolver().Set(k.KID, ldVM(k, su.name))
					name := fmt.Sprintf("%s/%s/%s/ctx=%v", su.name, kind, repr, ctx != "")
					base := ldSigning{suite: su.name, repr: repr, vm: k.KID}
					e.Case("options/"+name, func(t *h.T) { p11Options(t, base, k, r, ldDoc(ctx)) })
					e.Case("mutate-doc/"+name, func(t *h.T) { p11MutateDoc(t, base, k, r, ldDoc(ctx)) })
					e.Case("mutate-proof/"+name, func(t *h.T) { p11MutateProof(t, base, k, r, ldDoc(ctx)) })
					if ci == 0 || e.Thorough() {
						e.Case("signature/"+name, func(t *h.T) { p11Signature(t, base, k, r, ldDoc(ctx), e.Pick(5, 1)) })
						if repr != "jws" || e.Thorough() {
							for _, idx := range append(longLists(12, []int{0, 1}, []int{2, 4, 7}), longLists(34, []int{0}, []int{4})...) {
								e.Casef(func(t *h.T) { p11List(t, base, k, ldDoc(ctx), idx, false) }, "list/%s/%v", name, idx)
							}
						}
						for n := 0; n <= 3; n++ {
							if n == 3 && !e.Thorough() && (repr == "jws" || kind != "p256") || n == 2 && !e.Thorough() && (repr == "jws" && kind != "ed25519" || kind == "p384" || kind == "p521" || kind == "ps256") {
								continue
							}
							for _, idx := range lists(len(ldElems), n) {
								idx := idx
								e.Casef(func(t *h.T) { p11List(t, base, k, ldDoc(ctx), idx, false) }, "list/%s/%v", name, idx)
								if n == 2 {
									e.Casef(func(t *h.T) { p11List(t, base, k, ldDoc(ctx), idx, true) }, "list-same-time/%s/%v", name, idx)
								}
							}
						}
					}
				}
			}
		}
	}
	// verification method forms
	for _, su := range ldSuites {
		for _, kind := range su.kinds {
			for _, vk := range append([]string{"bbs"}, fx.Kinds...) {
				su, kind, vk := su, kind, vk
				e.Casef(func(t *h.T) { p11Methods(t, su.name, su.ctx, kind, vk) }, "method/%s/%s/%s", su.name, kind, vk)
			}
		}
	}
	// what cannot be signed is refused
	for _, su := range ldSuites {
		for _, c := range []string{"no-type", "unknown-type", "undefined-term", "no-context", "unloadable-context"} {
			su, c := su, c
			e.Casef(func(t *h.T) {
				k := fx.NewKey(su.kinds[0], iss, "k1")
				s := ldSigning{suite: su.name, repr: "value", vm: k.KID}
				d := ldDoc(su.ctx)
				switch c {
				case "no-type":
					s.suite = ""
				case "unknown-type":
					s.suite = su.name + "X"
				case "undefined-term":
					d["@context"] = []any{"https://www.w3.org/2018/credentials/v1", su.ctx}
				case "no-context":
					delete(d, "@context")
				case "unloadable-context":
					d["@context"] = append(d["@context"].([]any), "https://verif.example/absent")
				}
				signed, err := s.sign(k, d)
				t.Step("%v", err)
				if err != nil {
					return
				}
				r := fx.NewResolver().Set(k.KID, ldVM(k, su.name))
				if err := ldCheck(r, signed, iss); err == nil && c != "no-context" {
					t.Fail("%s: signed and verified", c)
				}
			}, "unsignable/%s/%s", su.name, c)
		}
	}
}

func p11Options(t *h.T, s ldSigning, k *fx.Key, r *fx.Resolver, doc map[string]any) {
	for _, purpose := range []string{"", "assertionMethod", "authentication", "capabilityInvocation"} {
		for _, domain := range []string{"", "d1"} {
			for _, challenge := range []string{"", "c1"} {
				for _, created := range []string{"", "2021-02-03T04:05:06.123Z", "2021-02-03T04:05:06+02:00"} {
					s := s
					s.purpose, s.domain, s.challenge, s.created = purpose, domain, challenge, created
					what := fmt.Sprintf("%q/%q/%q/%q", purpose, domain, challenge, created)
					signed, err := s.sign(k, doc)
					if err != nil {
						t.FailSub(what, "signing refused: %v", err)
						return
					}
					body := copyObj(signed)
					delete(body, "proof")
					if h.Canon(body) != h.Canon(doc) {
						t.FailSub(what, "signing changed the document")
					}
					p := signed["proof"]
					if a, ok := p.([]any); ok {
						p = a[0]
					}
					pm := p.(map[string]any)
					wantPurpose := purpose
					if purpose == "" {
						wantPurpose = "assertionMethod"
					}
					get := func(n string) string { s, _ := pm[n].(string); return s }
					if get("proofPurpose") != wantPurpose || get("domain") != domain || get("challenge") != challenge || get("verificationMethod") != s.vm || get("type") != s.suite {
						t.FailSub(what, "proof %v does not say what was asked", pm)
					}
					for _, iss := range []string{k.DID, "-", "did:ex:other", ""} {
						err := ldCheck(r, signed, iss)
						t.Step("%s issuer %q: %v", what, iss, err)
						want := iss == k.DID || iss == "-"
						t.Statef("%v %s %s", want, domain, challenge)
						if (err == nil) != want {
							t.FailSub(what+"/"+iss, "expected issuer %q: got %v, want accept=%v", iss, err, want)
						}
					}
					if err := ldParse(r, signed); err != nil {
						t.FailSub(what, "credential refused: %v", err)
					}
				}
			}
		}
	}
}

func p11Signed(t *h.T, s ldSigning, k *fx.Key, doc map[string]any) (map[string]any, map[string]any) {
	s.domain, s.challenge, s.purpose = "d1", "c1", "assertionMethod"
	signed, err := s.sign(k, doc)
	t.Must(err, "sign")
	if a, ok := signed["proof"].([]any); ok && len(a) == 1 {
		signed["proof"] = a[0]
	}
	return signed, signed["proof"].(map[string]any)
}

func p11Reject(t *h.T, r *fx.Resolver, what string, doc any) {
	t.Step("%s", what)
	if ldCheck(r, doc, "did:ex:issuer") == nil {
		t.FailSub(what, "%s: still accepted", what)
	}
	if ldCheck(r, doc, "-") == nil {
		t.FailSub(what+"/any", "%s: still accepted without expected issuer", what)
	}
	if ldParse(r, doc) == nil {
		t.FailSub(what+"/parse", "%s: still parsed", what)
	}
}

func p11MutateDoc(t *h.T, s ldSigning, k *fx.Key, r *fx.Resolver, doc map[string]any) {
	signed, pr := p11Signed(t, s, k, doc)
	if err := ldCheck(r, signed, k.DID); err != nil {
		t.Fatal("signed document refused: %v", err)
	}
	body := copyObj(signed)
	delete(body, "proof")
	for _, m := range semMutations(body) {
		d, ok := m.doc.(map[string]any)
		if !ok || strings.Contains(m.what, "/@context") {
			// contexts matter through the terms that they define: removed or replaced below
			continue
		}
		d = copyObj(d)
		d["proof"] = pr
		p11Reject(t, r, m.what, d)
	}
	for _, c := range []any{[]any{"https://www.w3.org/2018/credentials/v1"}, "https://www.w3.org/ns/credentials/v2", nil, []any{}} {
		d := copyObj(signed)
		d["@context"] = c
		p11Reject(t, r, fmt.Sprintf("context %v", c), d)
	}
	// member order does not matter, and verification leaves the caller's object alone
	obj := copyObj(signed)
	before := h.Canon(obj)
	iss := k.DID
	if err := lddocument.NewDocumentVerifier(fx.CheckerR(r)).VerifyObject(obj, &iss, ldOpts()...); err != nil {
		t.Fail("object form refused: %v", err)
	}
	if h.Canon(obj) != before {
		t.Fail("verification changed the caller's document")
	}
}

func p11MutateProof(t *h.T, s ldSigning, k *fx.Key, r *fx.Resolver, doc map[string]any) {
	s.nonce = "some nonce"
	signed, pr := p11Signed(t, s, k, doc)
	reject := func(what string, p any) {
		d := copyObj(signed)
		d["proof"] = p
		p11Reject(t, r, what, d)
	}
	for _, name := range sortedKeys(pr) {
		if name == "nonce" && s.repr != "jws" {
			continue
		}
		str, _ := pr[name].(string)
		vals := []any{"absent", nil, "", 5.0, "x", []any{pr[name]}, map[string]any{"v": pr[name]}}
		switch name {
		case "created":
			ts, _ := time.Parse(time.RFC3339, str)
			vals = append(vals, ts.Add(time.Second).Format(time.RFC3339), ts.Add(-time.Hour).Format(time.RFC3339), ts.AddDate(1, 0, 0).Format(time.RFC3339), ts.Add(300*time.Millisecond).Format(time.RFC3339Nano), "2020-13-01T00:00:00Z")
		case "type":
			for _, o := range ldSuites {
				if o.name != s.suite {
					vals = append(vals, o.name)
				}
			}
			vals = append(vals, str+"x", "DataIntegrityProof", "BbsBlsSignatureProof2020")
		case "proofPurpose":
			vals = append(vals, "authentication", "capabilityInvocation", str+"x")
		case "verificationMethod":
			vals = append(vals, k.DID, k.DID+"#k2", "#k1", "did:ex:other#k1", k.KID+"#k1", k.DID+"?x#k1", str+"x")
		case "nonce":
			vals = append(vals, base64.RawURLEncoding.EncodeToString([]byte("other")))
		case "jws":
			parts := strings.Split(str, ".")
			hd := func(m map[string]any) string { return base64.RawURLEncoding.EncodeToString([]byte(h.JSON(m))) }
			vals = append(vals, parts[0]+"."+parts[2], parts[0]+"..", ".."+parts[2], parts[2], hd(map[string]any{"alg": "none"})+".."+parts[2], hd(map[string]any{"alg": "EdDSA", "b64": false})+".."+parts[2], str+".", "."+str)
		case "proofValue":
			vals = append(vals, "z", "u", "!!")
		default:
			vals = append(vals, str+"x", strings.ToUpper(str))
		}
		for _, v := range vals {
			p := copyObj(pr)
			if v == "absent" {
				delete(p, name)
			} else {
				p[name] = v
			}
			reject(fmt.Sprintf("proof %s = %v", name, v), p)
		}
	}
	// attributes that were not signed
	for name, v := range map[string]any{"creator": "did:ex:issuer#k1", "capabilityChain": []any{"urn:x"}} {
		p := copyObj(pr)
		p[name] = v
		reject("added "+name, p)
	}
	s2 := s
	s2.suite = s.suite
	plain, err := ldSigning{suite: s.suite, repr: s.repr, vm: s.vm}.sign(k, doc)
	t.Must(err, "sign")
	pp := plain["proof"]
	if a, ok := pp.([]any); ok {
		pp = a[0]
	}
	for name, v := range map[string]any{"domain": "d9", "challenge": "c9"} {
		p := copyObj(pp.(map[string]any))
		p[name] = v
		reject("added "+name, p)
	}
	for _, v := range []any{nil, []any{}, "x", 5.0, map[string]any{}, []any{[]any{pr}}, []any{nil}, []any{"x"}, true, []any{pr, nil}, []any{pr, "x"}} {
		reject("proof list "+h.JSON(v)[:min(20, len(h.JSON(v)))], v)
	}
	// a proof with both representations: the signature must hold for what is checked
	both := copyObj(pr)
	if _, ok := both["jws"]; ok {
		both["proofValue"] = base64.RawURLEncoding.EncodeToString(make([]byte, 64))
	}
	if _, ok := pr["jws"]; ok {
		reject("both representations", both)
	}
}

func p11Signature(t *h.T, s ldSigning, k *fx.Key, r *fx.Resolver, doc map[string]any, step int) {
	signed, pr := p11Signed(t, s, k, doc)
	sig, put := ldSigOf(pr)
	d := copyObj(signed)
	d["proof"] = put(sig)
	if err := ldCheck(r, d, k.DID); err != nil {
		t.Fatal("re-encoded signature refused: %v", err)
	}
	try := func(b []byte, what string) {
		d := copyObj(signed)
		d["proof"] = put(b)
		t.Step("%s", what)
		if ldCheck(r, d, k.DID) == nil {
			t.Fail("signature with %s is accepted", what)
		}
	}
	for i := range sig {
		for bit := 0; bit < 8; bit++ {
			if (i*8+bit)%step != 0 && k.Name != "bbs" || k.Name == "bbs" && (bit != i%8) {
				continue
			}
			b := append([]byte{}, sig...)
			b[i] ^= 1 << bit
			try(b, fmt.Sprintf("bit %d.%d flipped", i, bit))
		}
	}
	for n := 0; n < len(sig); n += step {
		try(sig[:n], fmt.Sprintf("%d of %d bytes", n, len(sig)))
	}
	try(append(append([]byte{}, sig...), 0), "one more byte")
	// signature over the same document by another key, and over another document
	for _, o := range []struct {
		k  *fx.Key
		id string
	}{{fx.NewKey(k.Name, k.DID, "k2-b"), "urn:vc:1"}, {k, "urn:vc:2"}} {
		dd := copyObj(doc)
		dd["id"] = o.id
		_, p2 := p11Signed(t, s, o.k, dd)
		sg, _ := ldSigOf(p2)
		try(sg, "signature of "+o.k.KID+" over "+o.id)
	}
}

var ldElems = []struct {
	name string
	good bool
}{{"valid", true}, {"valid-2", true}, {"other-issuer", false}, {"other-doc", false}, {"wrong-key", false}, {"string", false}, {"other-suite", true}, {"tampered", false}, {"unsigned", false}}

func p11List(t *h.T, s ldSigning, k *fx.Key, doc map[string]any, idx []int, sameTime bool) {
	k2, ko, kw := fx.NewKey(k.Name, k.DID, "k2"), fx.NewKey(k.Name, "did:ex:other", "k1"), fx.NewKey(k.Name, k.DID, "w-b")
	okind, osuite := "p256", "JsonWebSignature2020"
	if s.suite == osuite {
		okind, osuite = "ed25519", "Ed25519Signature2018"
	}
	ks := fx.NewKey(okind, k.DID, "ks")
	r := fx.NewResolver().Set(k.KID, ldVM(k, s.suite)).Set(k2.KID, ldVM(k2, s.suite)).Set(ko.KID, ldVM(ko, s.suite)).Set(ks.KID, ldVM(ks, osuite))
	all, any_ := true, true // any_: accepted without expected issuer
	var ps []any
	for n, i := range idx {
		el := ldElems[i]
		all = all && el.good
		any_ = any_ && (el.good || el.name == "other-issuer")
		s := s
		if !sameTime {
			s.created = time.Date(2021, 2, 3, 4, n, 6, 0, time.UTC).Format(time.RFC3339)
		}
		mk := func(s ldSigning, k *fx.Key, d map[string]any) any {
			signed, err := s.sign(k, d)
			t.Must(err, "sign")
			if a, ok := signed["proof"].([]any); ok {
				return a[0]
			}
			return signed["proof"]
		}
		var p any
		switch el.name {
		case "valid":
			p = mk(s, k, doc)
		case "valid-2":
			s.vm = k2.KID
			p = mk(s, k2, doc)
		case "other-issuer":
			s.vm = ko.KID
			p = mk(s, ko, doc)
		case "other-doc":
			d := copyObj(doc)
			d["id"] = "urn:vc:2"
			p = mk(s, k, d)
		case "wrong-key":
			p = mk(s, kw, doc)
		case "string":
			p = "proof"
		case "other-suite":
			s.suite, s.vm, s.repr = osuite, ks.KID, "value"
			p = mk(s, ks, doc)
		case "tampered":
			m := mk(s, k, doc).(map[string]any)
			m["challenge"] = "cx"
			p = m
		case "unsigned":
			m := mk(s, k, doc).(map[string]any)
			delete(m, "jws")
			delete(m, "proofValue")
			p = m
		}
		ps = append(ps, p)
	}
	if ps == nil {
		ps = []any{}
	}
	d := copyObj(doc)
	d["proof"] = ps
	wantIss, wantAny := all && len(idx) > 0, any_ && len(idx) > 0
	var names []string
	for _, i := range idx {
		names = append(names, ldElems[i].name)
	}
	t.Statef("%d %v", len(idx), wantIss)
	for _, c := range []struct {
		how  string
		err  error
		want bool
	}{{"expected issuer", ldCheck(r, d, k.DID), wantIss}, {"no expected issuer", ldCheck(r, d, "-"), wantAny}, {"parse", ldParse(r, d), wantIss}} {
		t.Step("%v %s: %v", names, c.how, c.err)
		if (c.err == nil) != c.want {
			t.FailSub(c.how, "proofs %v with %s: got %v, want accept=%v", names, c.how, c.err, c.want)
		}
	}
}

// p11Methods: sign with kind, resolve to a method of kind vk in every form.
func p11Methods(t *h.T, suite, ctx, kind, vk string) {
	const iss = "did:ex:issuer"
	k := fx.NewKey(kind, iss, "k1")
	s := ldSigning{suite: suite, repr: "value", vm: k.KID}
	signed, _ := p11Signed(t, s, k, ldDoc(ctx))
	v := fx.NewKey(vk, iss, "k1")
	good := map[string]map[string]bool{ // suite -> forms "type/jwk?" usable for its kind
		"Ed25519Signature2018":        {"Ed25519VerificationKey2018/raw": true, "Ed25519VerificationKey2018/jwk": true, "JsonWebKey2020/jwk": true},
		"Ed25519Signature2020":        {"Ed25519VerificationKey2020/raw": true, "Ed25519VerificationKey2020/jwk": true, "Ed25519VerificationKey2018/raw": true, "Ed25519VerificationKey2018/jwk": true, "JsonWebKey2020/jwk": true},
		"EcdsaSecp256k1Signature2019": {"EcdsaSecp256k1VerificationKey2019/raw": true, "EcdsaSecp256k1VerificationKey2019/jwk": true, "JsonWebKey2020/jwk": true},
		"JsonWebSignature2020":        {"JsonWebKey2020/jwk": true},
		"BbsBlsSignature2020":         {"Bls12381G2Key2020/raw": true},
	}
	for _, typ := range []string{"Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "EcdsaSecp256k1VerificationKey2019", "JsonWebKey2020", "Bls12381G2Key2020", "RsaVerificationKey2018", "", "Multikey"} {
		for _, form := range []string{"raw", "jwk", "none"} {
			vm := &vermethod.VerificationMethod{Type: typ}
			switch form {
			case "raw":
				vm.Value = v.Raw
			case "jwk":
				if v.JWK == nil {
					continue
				}
				vm.JWK = v.JWK
			}
			r := fx.NewResolver().Set(k.KID, vm)
			want := strings.TrimPrefix(strings.TrimPrefix(vk, "rs"), "ps") == strings.TrimPrefix(kind, "ps") && good[suite][typ+"/"+form]
			var err error
			if g := h.Guard(func() { err = ldCheck(r, signed, iss) }); g != "" {
				t.FailSub(typ+"/"+form, "verification panics: %.200s", g)
				continue
			}
			t.Step("%s %s: %v", typ, form, err)
			t.Statef("%v", want)
			if (err == nil) != want {
				t.FailSub(typ+"/"+form, "%s proof by %s checked with a %s method (%s) of a %s key: got %v, want accept=%v", suite, kind, typ, form, vk, err, want)
			}
		}
	}

}
