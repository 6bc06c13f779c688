package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:   "P12",
		Rule: "documents signed by the library with every suite name and key, then: the cross product of signing options (purpose, created, expires, domain, challenge) with expected options; every verification method kind x suite; every set of DID document relationships x purpose; every single change of the document and of the proof; every bit and length of the signature; every proof list up to three over {valid, tampered, foreign, expired, wrong purpose, wrong type, not an object}; every pair of verifications sharing one options object",
		Assume: []string{
			"the proof options that a proof binds are type, cryptosuite, verificationMethod, proofPurpose, created, expires, domain and challenge; other members of a proof object are ignored by the library",
			"the contexts of the document define its terms and the terms of Data Integrity proofs (the opposite is a listed known finding)",
		},
		Gen: genP12,
	})
}

// diDIDs is a resolver over DID documents.
type diDIDs map[string]*did.Doc

func (d diDIDs) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if doc := d[id]; doc != nil {
		return &did.DocResolution{DIDDocument: doc}, nil
	}
	return nil, errors.New("unknown did " + id)
}

var diRel = []struct {
	purpose string
	rel     did.VerificationRelationship
}{{"assertionMethod", did.AssertionMethod}, {"authentication", did.Authentication}, {"capabilityDelegation", did.CapabilityDelegation},
	{"capabilityInvocation", did.CapabilityInvocation}, {"keyAgreement", did.KeyAgreement}, {"general", did.VerificationRelationshipGeneral}}

func didVM(k *fx.Key) did.VerificationMethod {
	if k.JWK == nil {
		return *did.NewVerificationMethodFromBytes(k.KID, k.RawVM, k.DID, k.Raw)
	}
	vm, err := did.NewVerificationMethodFromJWK(k.KID, "JsonWebKey2020", k.DID, k.JWK)
	if err != nil {
		panic(err)
	}
	return *vm
}

// addVM puts a verification method in a DID document under a set (bits over diRel).
func (d diDIDs) addVM(id string, vm did.VerificationMethod, set int) diDIDs {
	doc := d[id]
	if doc == nil {
		doc = &did.Doc{ID: id}
		d[id] = doc
	}
	for i, r := range diRel {
		if set>>i&1 == 0 {
			continue
		}
		v := did.Verification{VerificationMethod: vm, Relationship: r.rel}
		switch r.rel {
		case did.AssertionMethod:
			doc.AssertionMethod = append(doc.AssertionMethod, v)
		case did.Authentication:
			doc.Authentication = append(doc.Authentication, v)
		case did.CapabilityDelegation:
			doc.CapabilityDelegation = append(doc.CapabilityDelegation, v)
		case did.CapabilityInvocation:
			doc.CapabilityInvocation = append(doc.CapabilityInvocation, v)
		case did.KeyAgreement:
			doc.KeyAgreement = append(doc.KeyAgreement, v)
		default:
			doc.VerificationMethod = append(doc.VerificationMethod, vm)
		}
	}
	return d
}

func diDoc(keys ...*fx.Key) diDIDs {
	d := diDIDs{}
	for _, k := range keys {
		d.addVM(k.DID, didVM(k), 0b101111)
	}
	return d
}

func diSigner(r diDIDs, k *fx.Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: r},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: fx.Loader(), SignerGetter: func(*jwk.JWK) (ecdsa2019.Signer, error) { return k.Signer, nil }}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: fx.Loader(), SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k.Signer, nil }}))
	if err != nil {
		panic(err)
	}
	return s
}

func diVerifier(r diDIDs) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: r},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: fx.Loader()}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: fx.Loader()}))
	if err != nil {
		panic(err)
	}
	return v
}

var diSuites = map[string][]string{ // suite name -> key kinds
	"ecdsa-2019": {"p256", "p384"}, "ecdsa-rdfc-2019": {"p256", "p384"}, "eddsa-2022": {"ed25519"}, "eddsa-rdfc-2022": {"ed25519"},
}

func diVC(variant string) map[string]any {
	m := map[string]any{"id": "urn:vc:1", "type": []any{"VerifiableCredential", "XCred"}, "issuer": "did:ex:issuer",
		"credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0, "ok": true, "list": []any{"a", "b"}, "o": map[string]any{"p": map[string]any{"q": "deep"}}}}
	switch variant {
	case "v2":
		m["@context"] = []any{"https://www.w3.org/ns/credentials/v2", fx.CtxX}
		m["validFrom"] = "2020-01-01T00:00:00Z"
	case "v1di":
		m["@context"] = []any{"https://www.w3.org/2018/credentials/v1", "https://w3id.org/security/data-integrity/v2", fx.CtxX}
		m["issuanceDate"] = "2020-01-01T00:00:00Z"
	case "v1":
		m["@context"] = []any{"https://www.w3.org/2018/credentials/v1"}
		m["issuanceDate"] = "2020-01-01T00:00:00Z"
		m["type"] = []any{"VerifiableCredential"}
		m["credentialSubject"] = map[string]any{"id": "did:ex:s"}
	}
	return m
}

var diCreated = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)

func diOpts(suite string, k *fx.Key) *models.ProofOptions {
	return &models.ProofOptions{Purpose: "assertionMethod", VerificationMethodID: k.KID, ProofType: models.DataIntegrityProof, SuiteType: suite, Created: diCreated}
}

func diSign(t *h.T, r diDIDs, k *fx.Key, doc map[string]any, o *models.ProofOptions) map[string]any {
	b, err := diSigner(r, k).AddProof([]byte(h.JSON(doc)), o)
	t.Must(err, "add proof")
	return parseObj(string(b))
}

func diCheck(r diDIDs, doc any, o models.ProofOptions) error {
	o.ProofType = models.DataIntegrityProof
	if o.Purpose == "" {
		o.Purpose = "assertionMethod"
	}
	return diVerifier(r).VerifyProof([]byte(h.JSON(doc)), &o)
}

func genP12(e *h.Env) {
	const iss = "did:ex:issuer"
	variants := []string{"v2", "v1di"}
	for _, suite := range sortedKeys(diSuites) {
		for _, kind := range diSuites[suite] {
			for _, variant := range variants {
				suite, kind, variant := suite, kind, variant
				k := fx.NewKey(kind, iss, "k1")
				r := diDoc(k)
				// 1. options signed x options expected
				type sg struct{ purpose, domain, challenge, expires string }
				var signs []sg
				for _, p := range []string{"assertionMethod", "authentication", "capabilityDelegation", "capabilityInvocation"} {
					for _, d := range []string{"", "d1"} {
						for _, c := range []string{"", "c1"} {
							for _, x := range []string{"", "past", "future", "just past", "a minute past", "soon"} {
								if (strings.Contains(x, " ") || x == "soon") && (p != "assertionMethod" || d != c[:min(1, len(c))]) && !e.Thorough() {
									continue
								}
								if p != "assertionMethod" && !e.Thorough() && (x != "" || d != c[:min(1, len(c))]) && variant != "v2" {
									continue
								}
								signs = append(signs, sg{p, d, c, x})
							}
						}
					}
				}
				for _, s := range signs {
					s := s
					e.Casef(func(t *h.T) {
						o := diOpts(suite, k)
						o.Purpose, o.Domain, o.Challenge = s.purpose, s.domain, s.challenge
						switch s.expires {
						case "past":
							o.Expires = time.Now().Add(-48 * time.Hour)
						case "future":
							o.Expires = time.Now().Add(48 * time.Hour)
						case "just past":
							o.Expires = time.Now().Add(-2 * time.Second)
						case "a minute past":
							o.Expires = time.Now().Add(-61 * time.Second)
						case "soon":
							o.Expires = time.Now().Add(100 * time.Second)
						}
						doc := diVC(variant)
						signed := diSign(t, r, k, doc, o)
						rest := copyObj(signed)
						delete(rest, "proof")
						if h.Canon(rest) != h.Canon(doc) {
							t.Fail("signing changed the document: %v", rest)
						}
						p := signed["proof"].(map[string]any)
						if p["cryptosuite"] != suite || p["verificationMethod"] != k.KID || p["proofPurpose"] != s.purpose {
							t.Fail("proof %v does not say what was asked for", p)
						}
						for _, ep := range []string{"assertionMethod", "authentication", "capabilityDelegation", "capabilityInvocation", "keyAgreement"} {
							for _, ed := range []string{"", "d1", "d2"} {
								for _, ec := range []string{"", "c1", "c2"} {
									want := ep == s.purpose && (ed == "" || ed == s.domain) && (ec == "" || ec == s.challenge) && !strings.HasSuffix(s.expires, "past")
									err := diCheck(r, signed, models.ProofOptions{Purpose: ep, Domain: ed, Challenge: ec})
									t.Step("expect %s %q %q: %v", ep, ed, ec, err)
									t.Statef("%v", want)
									if (err == nil) != want {
										t.FailSub(fmt.Sprintf("%s/%s/%s", ep, ed, ec), "signed with %+v, expected %s/%q/%q: got %v, want accept=%v", s, ep, ed, ec, err, want)
									}
								}
							}
						}
					}, "options/%s/%s/%s/%v", suite, kind, variant, s)
				}
				// 1b. domains and challenges that are almost the expected ones, and an expected suite
				near := []string{"d1", "D1", "d1/", "d1 ", " d1", "d", "d1,d2", "d2,d1", "https://d1", "d1.", "www.d1", "d1\n", "*"}
				for _, what := range []string{"domain", "challenge"} {
					e.Casef(func(t *h.T) {
						for _, sv := range near {
							o := diOpts(suite, k)
							if what == "domain" {
								o.Domain = sv
							} else {
								o.Challenge = sv
							}
							signed := diSign(t, r, k, diVC(variant), o)
							for _, x := range append([]string{""}, near...) {
								ex := models.ProofOptions{Domain: x}
								if what == "challenge" {
									ex = models.ProofOptions{Challenge: x}
								}
								err := diCheck(r, signed, ex)
								t.Step("signed %q expect %q: %v", sv, x, err)
								if want := x == "" || x == sv; (err == nil) != want {
									t.FailSub(fmt.Sprintf("%q/%q", sv, x), "%s signed %q, expected %q: %v", what, sv, x, err)
								}
							}
						}
					}, "near %s/%s/%s/%s", what, suite, kind, variant)
				}
				e.Casef(func(t *h.T) {
					signed := diSign(t, r, k, diVC(variant), diOpts(suite, k))
					for _, ps := range append([]string{suite, "absent", "", "other"}, sortedKeys(diSuites)...) {
						for _, xs := range append([]string{"", "other"}, sortedKeys(diSuites)...) {
							d := copyObj(signed)
							pr := copyObj(signed["proof"].(map[string]any))
							pr["cryptosuite"] = ps
							if ps == "absent" {
								delete(pr, "cryptosuite")
							}
							d["proof"] = pr
							err := diCheck(r, d, models.ProofOptions{SuiteType: xs})
							t.Step("suite %q expect %q: %v", ps, xs, err)
							want := ps == suite && (xs == "" || xs == suite)
							if (err == nil) != want {
								t.FailSub(fmt.Sprintf("%q/%q", ps, xs), "signed by %s, says %q, expected %q: %v", suite, ps, xs, err)
							}
						}
					}
				}, "expected suite/%s/%s/%s", suite, kind, variant)
				e.Casef(func(t *h.T) {
					times := []string{"1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:01Z", "1960-02-29T12:00:00Z", "0001-01-01T00:00:01Z", "2038-01-19T03:14:08Z", "2106-02-07T06:28:16Z", "9999-12-31T23:59:59Z", "2024-02-29T00:00:00Z"}
					for _, c := range times {
						o := diOpts(suite, k)
						o.Created, _ = time.Parse(time.RFC3339, c)
						signed := diSign(t, r, k, diVC(variant), o)
						if err := diCheck(r, signed, models.ProofOptions{}); err != nil {
							t.FailSub("ok "+c, "created %s: refused: %v", c, err)
						}
						for _, x := range append([]string{"absent"}, times...) {
							if x == c {
								continue
							}
							d := copyObj(signed)
							pr := copyObj(signed["proof"].(map[string]any))
							pr["created"] = x
							if x == "absent" {
								delete(pr, "created")
							}
							d["proof"] = pr
							t.Step("created %v for %s", x, c)
							if diCheck(r, d, models.ProofOptions{}) == nil {
								t.FailSub(fmt.Sprint(c, x), "created %s changed to %v: accepted", c, x)
							}
						}
					}
				}, "created/%s/%s/%s", suite, kind, variant)
				// 2. every single change
				for set := 7; set >= 0; set-- {
					set := set
					if set < 7 && variant != "v2" && !e.Thorough() {
						continue
					}
					e.Casef(func(t *h.T) {
						o := diOpts(suite, k)
						if set&1 != 0 {
							o.Domain = "d1"
						}
						if set&2 != 0 {
							o.Challenge = "c1"
						}
						if set&4 != 0 {
							o.Expires = time.Now().Add(100 * time.Hour)
						}
						signed := diSign(t, r, k, diVC(variant), o)
						proof := signed["proof"].(map[string]any)
						if err := diCheck(r, signed, models.ProofOptions{}); err != nil {
							t.Fatal("signed document refused: %v", err)
						}
						reject := func(what string, doc any) {
							t.Step("%s", what)
							for _, ex := range []models.ProofOptions{{}, {Domain: o.Domain, Challenge: o.Challenge}, {VerificationMethodID: k.KID}, {SuiteType: suite, Domain: o.Domain}, {Created: o.Created}, {Expires: o.Expires},
								{VerificationMethodID: k.KID, SuiteType: suite, Created: o.Created, Expires: o.Expires, Domain: o.Domain, Challenge: o.Challenge}} {
								if err := diCheck(r, doc, ex); err == nil {
									t.FailSub(what, "%s: still accepted", what)
								}
							}
						}
						body := copyObj(signed)
						delete(body, "proof")
						for _, m := range semMutations(body) {
							if set < 7 {
								break
							}
							d, ok := m.doc.(map[string]any)
							if !ok {
								continue
							}
							d = copyObj(d)
							d["proof"] = proof
							reject(m.what, d)
						}
						for _, name := range sortedKeys(proof) {
							vals := []any{"absent", nil, "", 5.0, "x", []any{proof[name]}, map[string]any{"v": proof[name]}}
							if s, ok := proof[name].(string); ok {
								vals = append(vals, s+"x", strings.ToUpper(s))
							}
							switch name {
							case "created", "expires":
								ts, _ := time.Parse(time.RFC3339, proof[name].(string))
								vals = append(vals, ts.Add(time.Second).Format(time.RFC3339), ts.In(time.FixedZone("x", 3600)).Format(time.RFC3339),
									ts.Add(time.Millisecond*300).Format(time.RFC3339Nano), ts.Add(-time.Hour).Format(time.RFC3339), "2020-13-01T00:00:00Z", ts.Add(24*time.Hour).Format(time.RFC3339))
							case "cryptosuite":
								for _, s := range sortedKeys(diSuites) {
									if s != suite {
										vals = append(vals, s)
									}
								}
							case "proofPurpose":
								vals = append(vals, "authentication", "capabilityInvocation")
							case "verificationMethod":
								vals = append(vals, iss, iss+"#k2", "#k1", "did:ex:other#k1", iss+"?x#k1", iss+"#k1#k1")
							}
							for _, v := range vals {
								p := copyObj(proof)
								if v == "absent" {
									delete(p, name)
								} else {
									p[name] = v
								}
								if h.Canon(p) == h.Canon(proof) || strings.ToUpper(fmt.Sprint(v)) == fmt.Sprint(proof[name]) && name == "created" {
									continue
								}
								d := copyObj(signed)
								d["proof"] = p
								if name == "cryptosuite" && v == "ecdsa-2019x" {
									continue
								}
								reject(fmt.Sprintf("proof %s = %v", name, v), d)
							}
						}
						for name, v := range map[string]any{"domain": "d9", "challenge": "c9", "expires": time.Now().Add(time.Hour).UTC().Format(time.RFC3339)} {
							if _, has := proof[name]; !has {
								p := copyObj(proof)
								p[name] = v
								d := copyObj(signed)
								d["proof"] = p
								reject("added "+name, d)
							}
						}
						if set < 7 {
							return
						}
						for _, pr := range []any{nil, []any{}, "x", 5.0, map[string]any{}, []any{[]any{proof}}, []any{nil}, []any{"x"}, true} {
							d := copyObj(signed)
							d["proof"] = pr
							reject(fmt.Sprintf("proof list %s", h.JSON(pr)), d)
						}
						// signature bytes
						_, sig, err := multibase.Decode(proof["proofValue"].(string))
						t.Must(err, "proof value")
						try := func(b []byte, what string) {
							s, _ := multibase.Encode(multibase.Base58BTC, b)
							p := copyObj(proof)
							p["proofValue"] = s
							d := copyObj(signed)
							d["proof"] = p
							t.Step("%s", what)
							if diCheck(r, d, models.ProofOptions{}) == nil {
								t.Fail("signature with %s is accepted", what)
							}
						}
						for i := range sig {
							for _, m := range []byte{1, 0x80} {
								if !e.Thorough() && (i+int(m))%3 != 0 {
									continue
								}
								b := append([]byte{}, sig...)
								b[i] ^= m
								try(b, fmt.Sprintf("byte %d ^ %x", i, m))
							}
						}
						for n := 0; n < len(sig); n += e.Pick(7, 1) {
							try(sig[:n], fmt.Sprintf("%d bytes", n))
						}
					}, "mutate/%s/%s/%s/%03b", suite, kind, variant, set)
				}
				// 3. proof lists
				if variant == "v2" {
					for _, idx := range append(longLists(12, []int{0, 1}, []int{2, 4, 5}), longLists(34, []int{0}, []int{2})...) {
						e.Casef(func(t *h.T) { p12List(t, suite, kind, variant, idx, false) }, "list/%s/%s/%s/%v", suite, kind, variant, idx)
					}
				}
				for n := 0; n <= 3; n++ {
					if n == 3 && (variant != "v2" || suite != "ecdsa-rdfc-2019" && suite != "eddsa-rdfc-2022" || kind == "p384") && !e.Thorough() {
						continue
					}
					for _, idx := range lists(len(diElems), n) {
						idx := idx
						e.Casef(func(t *h.T) { p12List(t, suite, kind, variant, idx, false) }, "list/%s/%s/%s/%v", suite, kind, variant, idx)
						if n == 2 && variant == "v2" {
							e.Casef(func(t *h.T) { p12List(t, suite, kind, variant, idx, true) }, "list-same-time/%s/%s/%s/%v", suite, kind, variant, idx)
						}
					}
				}
				// 4. pairs of calls with shared options
				for i := range diShared {
					for j := range diShared {
						i, j := i, j
						e.Casef(func(t *h.T) { p12Shared(t, suite, kind, variant, i, j) }, "shared/%s/%s/%s/%d-%d", suite, kind, variant, i, j)
					}
				}
				// 5. relationships of the method in the DID document
				if variant == "v2" {
					for set := 0; set < 64; set++ {
						for _, purpose := range []string{"assertionMethod", "authentication", "capabilityDelegation", "capabilityInvocation"} {
							set, purpose := set, purpose
							e.Casef(func(t *h.T) {
								o := diOpts(suite, k)
								o.Purpose = purpose
								signed := diSign(t, diDoc(k), k, diVC(variant), o)
								// another key of the same DID has every relationship
								r := diDIDs{}.addVM(iss, didVM(fx.NewKey(kind, iss, "k9-b")), 63).addVM(iss, didVM(k), set)
								want := set>>0&1 == 1 && purpose == "assertionMethod" || set>>5&1 == 1 && purpose == "assertionMethod"
								for b, x := range diRel[1:4] {
									want = want || purpose == x.purpose && set>>(b+1)&1 == 1
								}
								err := diCheck(r, signed, models.ProofOptions{Purpose: purpose})
								t.Step("set %b purpose %s: %v", set, purpose, err)
								if (err == nil) != want {
									t.Fail("method under %06b for %s: got %v, want accept=%v", set, purpose, err, want)
								}
								_, serr := diSigner(r, k).AddProof([]byte(h.JSON(diVC(variant))), func() *models.ProofOptions { o := diOpts(suite, k); o.Purpose = purpose; return o }())
								if (serr == nil) != want {
									t.Fail("signing with the method under %06b for %s: %v, want accept=%v", set, purpose, serr, want)
								}
							}, "relation/%s/%s/%06b/%s", suite, kind, set, purpose)
						}
					}
				}
			}
		}
	}
	// 6. method kind x suite
	for _, suite := range sortedKeys(diSuites) {
		for _, kind := range []string{"ed25519", "p256", "p384", "p521", "secp256k1"} {
			for _, form := range []string{"jwk", "raw", "multikey", "other", "empty", "unresolvable"} {
				suite, kind, form := suite, kind, form
				e.Casef(func(t *h.T) {
					k := fx.NewKey(kind, iss, "k1")
					home := map[string]string{"ed25519": "eddsa-rdfc-2022"}[kind]
					if home == "" {
						home = "ecdsa-rdfc-2019"
					}
					vm := didVM(k)
					ok := false
					for _, kk := range diSuites[suite] {
						ok = ok || kk == kind
					}
					switch form {
					case "raw":
						if kind != "ed25519" {
							return
						}
						vm = *did.NewVerificationMethodFromBytes(k.KID, "Ed25519VerificationKey2018", iss, k.Raw)
					case "multikey":
						hdr := map[string][]byte{"p256": {0x80, 0x24}, "p384": {0x81, 0x24}}[kind]
						if hdr == nil {
							return
						}
						n := (len(k.Raw) - 1) / 2
						comp := append([]byte{2 + k.Raw[len(k.Raw)-1]&1}, k.Raw[1:1+n]...)
						vm = *did.NewVerificationMethodFromBytes(k.KID, "Multikey", iss, append(hdr, comp...))
					case "other":
						vm = didVM(fx.NewKey(kind, iss, "zz-b"))
						vm.ID = k.KID
						ok = false
					case "empty":
						vm = *did.NewVerificationMethodFromBytes(k.KID, "Multikey", iss, nil)
						ok = false
					}
					// the message does not depend on the key for matching suites: sign with the
					// library where it agrees to, else the proof cannot exist
					o := diOpts(suite, k)
					b, err := diSigner(diDoc(k), k).AddProof([]byte(h.JSON(diVC("v2"))), o)
					t.Step("sign: %v", err)
					if err != nil {
						if ok {
							t.Fail("signing refused: %v", err)
						}
						return
					}
					r := diDIDs{}.addVM(iss, vm, 63)
					if form == "unresolvable" {
						r, ok = diDIDs{}, false
					}
					err = diCheck(r, parseAny(b), models.ProofOptions{})
					t.Step("verify: %v", err)
					if (err == nil) != ok {
						t.Fail("suite %s with a %s key as %s: got %v, want accept=%v", suite, kind, form, err, ok)
					}
				}, "method/%s/%s/%s", suite, kind, form)
			}
		}
	}
	// 7. documents whose contexts do not define the terms of the proof
	for _, name := range []string{"challenge", "domain", "created"} {
		name := name
		e.Casef(func(t *h.T) {
			k := fx.NewKey("p256", iss, "k1")
			o := diOpts("ecdsa-rdfc-2019", k)
			o.Domain, o.Challenge = "d1", "c1"
			signed := diSign(t, diDoc(k), k, diVC("v1"), o)
			p := signed["proof"].(map[string]any)
			p[name] = map[string]string{"challenge": "c2", "domain": "d2", "created": "2022-01-01T00:00:00Z"}[name]
			err := diCheck(diDoc(k), signed, models.ProofOptions{})
			t.Step("%s changed: %v", name, err)
			if err == nil {
				t.Fail("proof on a document whose contexts do not define proof terms: changed %s is accepted", name)
			}
		}, "undefined-terms/%s", name)
	}
}

// lists are all sequences of length n over 0..m-1.
func lists(m, n int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, p := range out {
			for x := 0; x < m; x++ {
				next = append(next, append(append([]int{}, p...), x))
			}
		}
		out = next
	}
	return out
}

// diElems are the elements of proof lists: a name and if it is good.
var diElems = []struct {
	name string
	good bool
}{{"valid", true}, {"valid-other-key", true}, {"tampered", false}, {"other-doc", false}, {"expired", false}, {"purpose", false}, {"ld-type", false}, {"string", false}, {"other-suite", true}, {"with-domain", true}, {"expires-later", true}}

func p12List(t *h.T, suite, kind, variant string, idx []int, sameTime bool) {
	const iss = "did:ex:issuer"
	k, k2, ke := fx.NewKey(kind, iss, "k1"), fx.NewKey(kind, "did:ex:other", "k1"), fx.NewKey("ed25519", iss, "ke")
	ks := ke
	osuite := "eddsa-2022"
	if strings.HasPrefix(suite, "eddsa") {
		ks, osuite = fx.NewKey("p256", iss, "kp"), "ecdsa-rdfc-2019"
	}
	r := diDoc(k, k2, ke, ks)
	doc := diVC(variant)
	all := true
	var ps []any
	for n, i := range idx {
		el := diElems[i]
		all = all && el.good
		var p any
		o := diOpts(suite, k)
		if !sameTime {
			o.Created = diCreated.Add(time.Duration(n) * time.Hour)
		}
		switch el.name {
		case "valid":
			p = diSign(t, r, k, doc, o)["proof"]
		case "valid-other-key":
			o.VerificationMethodID = k2.KID
			p = diSign(t, r, k2, doc, o)["proof"]
		case "tampered":
			m := copyObj(diSign(t, r, k, doc, o)["proof"].(map[string]any))
			m["created"] = "2021-02-03T04:05:59Z"
			p = m
		case "other-doc":
			d := copyObj(doc)
			d["id"] = "urn:vc:2"
			p = diSign(t, r, k, d, o)["proof"]
		case "expired":
			o.Expires = time.Now().Add(-time.Hour)
			p = diSign(t, r, k, doc, o)["proof"]
		case "expires-later":
			o.Expires = time.Now().Add(time.Hour)
			p = diSign(t, r, k, doc, o)["proof"]
		case "purpose":
			o.Purpose = "authentication"
			p = diSign(t, r, k, doc, o)["proof"]
		case "ld-type":
			m := copyObj(diSign(t, r, k, doc, o)["proof"].(map[string]any))
			m["type"] = "JsonWebSignature2020"
			p = m
		case "string":
			p = "proof"
		case "other-suite":
			o.SuiteType, o.VerificationMethodID = osuite, ks.KID
			p = diSign(t, r, ks, doc, o)["proof"]
		case "with-domain":
			o.Domain = "d1"
			p = diSign(t, r, k, doc, o)["proof"]
		}
		ps = append(ps, p)
	}
	if ps == nil {
		ps = []any{}
	}
	doc["proof"] = ps
	want := all && len(idx) > 0
	err := diCheck(r, doc, models.ProofOptions{})
	t.Step("%v: %v", idx, err)
	t.Statef("%d %v", len(idx), want)
	if (err == nil) != want {
		var names []string
		for _, i := range idx {
			names = append(names, diElems[i].name)
		}
		t.Fail("proofs %v: got %v, want accept=%v", names, err, want)
	}
	if len(ps) == 1 {
		doc["proof"] = ps[0]
		if err := diCheck(r, doc, models.ProofOptions{}); (err == nil) != want {
			t.Fail("single proof %s: got %v, want accept=%v", diElems[idx[0]].name, err, want)
		}
	}
}

// diShared are documents for calls sharing one options object.
var diShared = []string{"plain", "other-created", "expires", "other-key", "other-suite", "domain", "tampered", "no-proof", "created-tampered"}

func p12Shared(t *h.T, suite, kind, variant string, i, j int) {
	const iss = "did:ex:issuer"
	k, k2 := fx.NewKey(kind, iss, "k1"), fx.NewKey(kind, "did:ex:other", "k1")
	ks, osuite := fx.NewKey("ed25519", iss, "ke"), "eddsa-2022"
	if strings.HasPrefix(suite, "eddsa") {
		ks, osuite = fx.NewKey("p256", iss, "kp"), "ecdsa-rdfc-2019"
	}
	r := diDoc(k, k2, ks)
	mk := func(what string) map[string]any {
		o, key := diOpts(suite, k), k
		switch what {
		case "other-created":
			o.Created = diCreated.Add(24 * time.Hour)
		case "expires":
			o.Expires = time.Now().Add(time.Hour)
		case "other-key":
			o.VerificationMethodID, key = k2.KID, k2
		case "other-suite":
			o.SuiteType, o.VerificationMethodID, key = osuite, ks.KID, ks
		case "domain":
			o.Domain = "d1"
		}
		d := diSign(t, r, key, diVC(variant), o)
		switch what {
		case "tampered":
			d["id"] = "urn:vc:3"
		case "no-proof":
			delete(d, "proof")
		case "created-tampered":
			d["proof"].(map[string]any)["created"] = "2021-02-04T04:05:06Z"
		}
		return d
	}
	v := diVerifier(r)
	shared := &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof}
	for _, x := range []string{diShared[i], diShared[j]} {
		d := mk(x)
		want := diCheck(r, d, models.ProofOptions{}) == nil
		if want != (x != "tampered" && x != "no-proof" && x != "created-tampered") {
			t.Fail("%s alone: accept=%v", x, want)
		}
		b := []byte(h.JSON(d))
		err := v.VerifyProof(b, shared)
		t.Step("%s: %v", x, err)
		if (err == nil) != want {
			t.Fail("%s after %s with shared options: got %v, alone accept=%v", x, diShared[i], err, want)
		}
		var back any
		if json.Unmarshal(b, &back) != nil || h.Canon(back) != h.Canon(d) {
			t.Fail("verification changed the caller's document")
		}
	}
}
