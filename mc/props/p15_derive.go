package props

import (
	"crypto"
	"fmt"
	"strings"
	"time"

	util "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P15", Level: "enumerated", Gen: genP15,
		Rule:   "every sequence of up to two (a selection of operations: three, thorough: four) operations on a credential and on everything derived from it, for plain credentials with zero to four proofs over two data models, JWT, CWT and SD-JWT credentials, and for presentations; after every operation every other credential and presentation is compared with its snapshot and a derived one with a reference",
		Assume: []string{"callers do not write into the typed contents or nested values that accessors return", "adding a proof changes the credential it is added to and nothing else"}})
}

// p15Node is a credential or a presentation in the family.
type p15Node struct {
	vc   *verifiable.Credential
	vp   *verifiable.Presentation
	doc  map[string]any // without proofs; for plain credentials
	snap string
	name string
}

func vcSnap(vc *verifiable.Credential) string {
	b, err := vc.MarshalJSON()
	s := fmt.Sprintf("%s %v\n", b, err)
	if len(b) > 0 && b[0] == '{' {
		s = h.Canon(parseAny(b)) + "\n"
	}
	s += h.Canon(parseAny([]byte(h.JSON(vc.ToRawJSON())))) + "\n" + contentsOf(vc.Contents()) + "\n" + h.Canon(parseAny([]byte(h.JSON(vc.Proofs())))) + "\n" + h.JSON(vc.JWTHeaders())
	for _, d := range vc.SDJWTDisclosures() {
		s += fmt.Sprintf("\n%s %s %s", d.Disclosure, d.Name, h.Canon(parseAny([]byte(h.JSON(d.Value)))))
	}
	if vc.CWTEnvelope != nil {
		s += fmt.Sprintf("\n%x", vc.CWTEnvelope.Sign1MessageRaw)
	}
	return s
}

func vpSnap(vp *verifiable.Presentation) string {
	b, err := vp.MarshalJSON()
	s := fmt.Sprintf("%v %v\n", parseAny(b), err)
	if len(b) > 0 && b[0] == '{' {
		s = h.Canon(parseAny(b)) + "\n"
	}
	s += h.JSON([]any{vp.Context, vp.CustomContext, vp.ID, vp.Type, vp.Holder, vp.JWT}) + h.Canon(parseAny([]byte(h.JSON(vp.CustomFields)))) + h.Canon(parseAny([]byte(h.JSON(vp.Proofs)))) + "\n"
	for _, c := range vp.Credentials() {
		s += fmt.Sprintf("%p\n", c)
	}
	return s
}

func (n *p15Node) snapshot() string {
	if n.vp != nil {
		return vpSnap(n.vp)
	}
	return vcSnap(n.vc)
}

type p15Op struct {
	name string
	vp   bool
	// run returns what it derived and whether the node itself may change.
	run func(x *p15World, n *p15Node) (*p15Node, bool, error)
	// deep operations are combined in longer sequences.
	deep bool
}

type p15World struct {
	t     *h.T
	k     *fx.Key
	nodes []*p15Node
	n     int
}

func ldCtx(k *fx.Key) *verifiable.LinkedDataProofContext {
	ts := time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
	return &verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", ProofCreator: k.Creator(), KeyType: k.KT, SignatureRepresentation: verifiable.SignatureProofValue, Created: &ts, VerificationMethod: k.KID, Purpose: "assertionMethod"}
}

func p15TypedID(id, typ string, extra map[string]any) *verifiable.TypedID {
	return &verifiable.TypedID{ID: id, Type: typ, CustomFields: extra}
}

func p15Ops() (ops []p15Op) {
	add := func(name string, deep bool, run func(x *p15World, n *p15Node) (*p15Node, bool, error)) {
		ops = append(ops, p15Op{name: name, run: run, deep: deep})
	}
	addVP := func(name string, deep bool, run func(x *p15World, n *p15Node) (*p15Node, bool, error)) {
		ops = append(ops, p15Op{name: name, vp: true, run: run, deep: deep})
	}
	// modified copies
	mod := func(name string, deep bool, make func(vc *verifiable.Credential) *verifiable.Credential, change func(d map[string]any)) {
		add("with "+name, deep, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			c := make(n.vc)
			r := &p15Node{vc: c}
			doc := parseObj(h.JSON(n.vc.ToRawJSON()))
			delete(doc, "proof")
			change(doc)
			r.doc = doc
			p14Same(x.t, "modified", name, c, doc)
			if len(c.Proofs()) != 0 || c.IsJWT() || c.IsCWT() {
				x.t.FailSub("modified-proof", "%s: the copy has a proof of the original", name)
			}
			b, err := c.MarshalJSON()
			x.t.Must(err, "marshal copy")
			back, err := verifiable.ParseCredential(b, p14Opts()...)
			if err != nil {
				x.t.FailSub("modified-parse", "%s: %v", name, err)
			} else {
				p14Same(x.t, "modified-parsed", name, back, doc)
			}
			return r, false, nil
		})
	}
	set := func(f string, v any) func(map[string]any) { return func(d map[string]any) { d[f] = deepCopy(v) } }
	drop := func(f string) func(map[string]any) { return func(d map[string]any) { delete(d, f) } }
	mod("id", true, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedID("urn:other") }, set("id", "urn:other"))
	mod("no id", false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedID("") }, drop("id"))
	isV2 := func(d map[string]any) bool { return d["@context"].([]any)[0] == v2ctx }
	for _, s := range []string{"2031-05-06T07:08:09Z", "2031-05-06T07:08:09.120+01:00"} {
		tm := func() *util.TimeWrapper {
			w, err := util.ParseTimeWrapper(s)
			if err != nil {
				panic(err)
			}
			return w
		}
		mod("issued "+s, false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedIssued(tm()) }, func(d map[string]any) {
			if isV2(d) {
				d["validFrom"] = s
			} else {
				d["issuanceDate"] = s
			}
		})
		mod("expired "+s, false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedExpired(tm()) }, func(d map[string]any) {
			if isV2(d) {
				d["validUntil"] = s
			} else {
				d["expirationDate"] = s
			}
		})
		mod("validFrom "+s, false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedValidFrom(tm()) }, set("validFrom", s))
		mod("validUntil "+s, false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedValidUntil(tm()) }, set("validUntil", s))
	}
	mod("context", true, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedContext(append(append([]string{}, vc.Contents().Context...), "urn:ctx"))
	}, func(d map[string]any) {
		var s, c []any
		for _, x := range d["@context"].([]any) {
			if _, ok := x.(string); ok && len(c) == 0 {
				s = append(s, x)
			} else {
				c = append(c, x)
			}
		}
		d["@context"] = append(append(s, "urn:ctx"), c...)
	})
	sts := func(n int, id bool) (l []*verifiable.TypedID, raw []any) {
		for i := 0; i < n; i++ {
			o := map[string]any{"type": "StatusList2021Entry", "statusListIndex": fmt.Sprint(i), "nested": map[string]any{"a": []any{"b"}}}
			st := p15TypedID("", "StatusList2021Entry", map[string]any{"statusListIndex": fmt.Sprint(i), "nested": map[string]any{"a": []any{"b"}}})
			if id {
				o["id"] = fmt.Sprintf("urn:st:%d", i)
				st.ID = fmt.Sprintf("urn:st:%d", i)
			}
			l, raw = append(l, st), append(raw, o)
		}
		return
	}
	for _, n := range []int{0, 1, 2, 3} {
		for _, id := range []bool{true, false} {
			_, raw := sts(n, id)
			mod(fmt.Sprintf("%d statuses id=%v", n, id), n == 2 && id, func(vc *verifiable.Credential) *verifiable.Credential {
				l, _ := sts(n, id)
				return vc.WithModifiedStatus(l...)
			}, func(d map[string]any) {
				switch n {
				case 0:
					delete(d, "credentialStatus")
				case 1:
					d["credentialStatus"] = raw[0]
				default:
					d["credentialStatus"] = deepCopy(raw)
				}
			})
		}
	}
	mod("nil status between", false, func(vc *verifiable.Credential) *verifiable.Credential {
		l, _ := sts(2, true)
		return vc.WithModifiedStatus(nil, l[0], nil, l[1])
	}, func(d map[string]any) { _, raw := sts(2, true); d["credentialStatus"] = raw })
	mod("refresh", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedRefreshService(p15TypedID("urn:r", "R", map[string]any{"x": "y"}))
	}, set("refreshService", map[string]any{"id": "urn:r", "type": "R", "x": "y"}))
	mod("refresh without id", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedRefreshService(p15TypedID("", "R", nil))
	}, set("refreshService", map[string]any{"type": "R"}))
	mod("no refresh", false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedRefreshService(nil) }, drop("refreshService"))
	mod("issuer", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedIssuer(&verifiable.Issuer{ID: "did:ex:other"})
	}, set("issuer", "did:ex:other"))
	mod("named issuer", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedIssuer(&verifiable.Issuer{ID: "did:ex:other", CustomFields: map[string]any{"name": "O"}})
	}, set("issuer", map[string]any{"id": "did:ex:other", "name": "O"}))
	mod("no issuer", false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedIssuer(nil) }, drop("issuer"))
	mod("subject", true, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedSubject([]verifiable.Subject{{ID: "did:ex:x", CustomFields: map[string]any{"a": map[string]any{"b": "c"}}}})
	}, set("credentialSubject", map[string]any{"id": "did:ex:x", "a": map[string]any{"b": "c"}}))
	mod("subject id", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedSubject([]verifiable.Subject{{ID: "did:ex:x"}})
	}, set("credentialSubject", map[string]any{"id": "did:ex:x"}))
	mod("two subjects", false, func(vc *verifiable.Credential) *verifiable.Credential {
		return vc.WithModifiedSubject([]verifiable.Subject{{ID: "did:ex:x"}, {CustomFields: map[string]any{"n": float64(1)}}})
	}, set("credentialSubject", []any{map[string]any{"id": "did:ex:x"}, map[string]any{"n": float64(1)}}))
	mod("no subject", false, func(vc *verifiable.Credential) *verifiable.Credential { return vc.WithModifiedSubject(nil) }, drop("credentialSubject"))
	// secured and converted forms
	for _, min := range []bool{false, true} {
		add(fmt.Sprintf("sign jwt min=%v", min), true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			c, err := n.vc.CreateSignedJWTVC(min, verifiable.EdDSA, jwtAnySigner{x.k}, x.k.KID)
			return &p15Node{vc: c}, false, err
		})
		add(fmt.Sprintf("unsecured jwt min=%v", min), false, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			c, err := n.vc.CreateUnsecuredJWTVC(min)
			return &p15Node{vc: c}, false, err
		})
		add(fmt.Sprintf("claims min=%v", min), false, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			c, err := n.vc.JWTClaims(min)
			if err == nil {
				c.VC["written"] = true
			}
			return nil, false, nil
		})
	}
	add("sign cwt", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		c, err := n.vc.CreateSignedCOSEVC(x.k.Cose, p10Signer{x.k}, x.k.KID)
		return &p15Node{vc: c}, false, err
	})
	for _, v := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
		for _, o := range []int{0, 1, 2} {
			add(fmt.Sprintf("sd-jwt v%d %d", v, o), o == 0, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
				opts := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(v), verifiable.MakeSDJWTWithHash(crypto.SHA384)}
				switch {
				case o == 1 && v == common.SDJWTVersionV5:
					opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"deep"}), verifiable.MakeSDJWTWithAlwaysIncludeObjects([]string{"other"}))
				case o == 2:
					opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"name"}))
				}
				s, err := n.vc.MakeSDJWT(sdSigner{k: x.k}, x.k.KID, opts...)
				if err != nil {
					return nil, false, err
				}
				c, err := verifiable.ParseCredential([]byte(s), p14Opts()...)
				return &p15Node{vc: c}, false, err
			})
		}
	}
	// reading
	add("marshal", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		n.vc.MarshalJSON()
		n.vc.MarshalAsJSONLD()
		n.vc.ToUniversalForm()
		n.vc.Contents()
		raw := n.vc.ToRawJSON()
		raw["written"] = true
		delete(raw, "proof")
		raw = n.vc.ToRawClaimsMap()
		delete(raw, "id")
		return nil, false, nil
	})
	add("display all", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		c, err := n.vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
		return &p15Node{vc: c}, false, err
	})
	add("display some", false, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		c, err := n.vc.CreateDisplayCredential(verifiable.DisplayGivenDisclosures([]string{"name", "deep"}))
		return &p15Node{vc: c}, false, err
	})
	add("display map", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		m, err := n.vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
		if err == nil {
			m["written"] = true
			delete(m, "id")
		}
		return nil, false, err
	})
	add("disclose", false, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		if n.vc.Contents().SDJWTHashAlg == nil {
			n.vc.MarshalWithDisclosure(verifiable.DiscloseAll())
			return nil, false, nil
		}
		s, err := n.vc.MarshalWithDisclosure(verifiable.DiscloseGivenRequired([]string{"name"}))
		if err != nil {
			return nil, false, nil
		}
		c, err := verifiable.ParseCredential([]byte(s), p14Opts()...)
		return &p15Node{vc: c}, false, err
	})
	add("validate", false, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		n.vc.ValidateCredential(verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithStrictValidation())
		n.vc.CheckProof(verifiable.WithProofChecker(fx.Checker(x.k)), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithDataIntegrityVerifier(diVerifier(diDoc(x.k))))
		return nil, false, nil
	})
	// adding proofs
	proved := func(name string, f func(x *p15World, n *p15Node) error) {
		add(name, true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			before := n.vc.Proofs()
			was := h.Canon(parseAny([]byte(h.JSON(before))))
			doc := parseObj(h.JSON(n.vc.ToRawJSON()))
			err := f(x, n)
			if err != nil {
				return nil, false, nil // the credential has to be unchanged then
			}
			now := n.vc.Proofs()
			if len(now) != len(before)+1 || len(before) > 0 && h.Canon(parseAny([]byte(h.JSON(now[:len(before)])))) != was {
				x.t.FailSub("add-proof", "%s: proofs were %s, are %s", name, was, h.JSON(now))
			}
			after := parseObj(h.JSON(n.vc.ToRawJSON()))
			delete(doc, "proof")
			delete(after, "proof")
			if h.Canon(doc) != h.Canon(after) {
				x.t.FailSub("add-proof", "%s: claims were %s, are %s", name, h.Canon(doc), h.Canon(after))
			}
			return nil, true, nil
		})
	}
	proved("add ld proof", func(x *p15World, n *p15Node) error {
		return n.vc.AddLinkedDataProof(ldCtx(x.k), processor.WithDocumentLoader(fx.Loader()))
	})
	proved("add di proof", func(x *p15World, n *p15Node) error {
		ts := time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
		return n.vc.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: x.k.KID, CryptoSuite: "eddsa-rdfc-2022", Created: &ts}, diSigner(diDoc(x.k), x.k))
	})
	// presentations
	add("present", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(n.vc, n.vc, n.vc))
		if err != nil {
			return nil, false, err
		}
		vp.ID, vp.Holder, vp.CustomFields = "urn:vp", "did:ex:h", map[string]any{"c": map[string]any{"d": "e"}}
		return &p15Node{vp: vp}, false, nil
	})
	addVP("clone", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		c := &p15Node{vp: n.vp.Clone()}
		if c.snapshot() != n.snap {
			x.t.FailSub("clone", "the clone differs: %s and %s", c.snapshot(), n.snap)
		}
		return c, false, nil
	})
	addVP("add credential", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		x.n++
		vc, err := verifiable.ParseCredential([]byte(h.JSON(map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": "VerifiableCredential", "id": fmt.Sprintf("urn:added:%d", x.n), "issuer": "did:ex:i", "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:s"}})), p14Opts()...)
		x.t.Must(err, "parse")
		n.vp.AddCredentials(vc)
		return nil, true, nil
	})
	addVP("add vp proof", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		return nil, true, n.vp.AddLinkedDataProof(ldCtx(x.k), processor.WithDocumentLoader(fx.Loader()))
	})
	addVP("set custom field", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		x.n++
		n.vp.CustomFields["presentation_submission"] = fmt.Sprint(x.n)
		return nil, true, nil
	})
	addVP("append context and type", true, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
		x.n++
		n.vp.Context = append(n.vp.Context, fmt.Sprintf("https://verif.example/%d", x.n))
		n.vp.Type = append(n.vp.Type, fmt.Sprintf("T%d", x.n))
		n.vp.Proofs = append(n.vp.Proofs, verifiable.Proof{"type": fmt.Sprint(x.n)})
		return nil, true, nil
	})
	for _, min := range []bool{false, true} {
		addVP(fmt.Sprintf("vp claims min=%v", min), min, func(x *p15World, n *p15Node) (*p15Node, bool, error) {
			c, err := n.vp.JWTClaims([]string{"aud"}, min)
			if err != nil {
				return nil, false, err
			}
			_, err = c.MarshalJWS(verifiable.EdDSA, jwtAnySigner{x.k}, x.k.KID)
			x.t.Must(err, "sign vp")
			_, err = n.vp.CWTClaims([]string{"aud"}, min)
			_, err2 := c.MarshalUnsecuredJWT()
			x.t.Must(err2, "unsecured vp")
			n.vp.MarshalJSON()
			n.vp.MarshalCBOR()
			n.vp.MarshalledCredentials()
			return nil, false, err
		})
	}
	return
}

func (x *p15World) start(t *h.T, form string, proofs int, k *fx.Key) {
	v2 := strings.HasPrefix(form, "v2")
	doc := p14Doc(v2)
	sub := doc["credentialSubject"].(map[string]any)
	sub["deep"] = map[string]any{"one": map[string]any{"two": "2"}, "l": []any{"a", map[string]any{"m": "n"}}}
	sub["other"] = map[string]any{"p": "q"}
	doc["issuer"] = map[string]any{"id": wIss, "name": "I", "more": map[string]any{"a": "b"}}
	doc["credentialStatus"] = []any{map[string]any{"id": "urn:st:a", "type": "S", "x": map[string]any{"y": "z"}}, map[string]any{"id": "urn:st:b", "type": "S"}}
	doc["evidence"] = []any{map[string]any{"id": "urn:e", "n": map[string]any{"o": "p"}}}
	doc["termsOfUse"] = []any{map[string]any{"id": "urn:tou", "type": "U", "x": []any{"y"}}}
	doc["refreshService"] = map[string]any{"id": "urn:rs", "type": "R", "x": map[string]any{"y": "z"}}
	doc["credentialSchema"] = []any{map[string]any{"id": "urn:sch", "type": "S1"}}
	doc["extra"] = map[string]any{"l": []any{"a", map[string]any{"b": "c"}}}
	doc["@context"] = append(doc["@context"].([]any), map[string]any{"t": "urn:t"})
	if proofs > 0 {
		l := []any{}
		for i := 0; i < proofs; i++ {
			l = append(l, map[string]any{"type": "Ed25519Signature2018", "created": fmt.Sprintf("2020-01-0%dT00:00:00Z", i+1), "proofPurpose": "assertionMethod", "verificationMethod": "did:x#1", "proofValue": "AAAA"})
		}
		doc["proof"] = l
	}
	b := []byte(h.JSON(doc))
	switch form {
	case "jwt", "v2-jwt":
		b = []byte(credForm{name: "jwt", family: "jwt"}.secure(t, k, doc))
	case "sdjwt2", "sdjwt5":
		b = []byte(credForm{name: form, family: "jwt"}.secure(t, k, doc))
	case "cwt":
		b = []byte(credForm{name: "cwt", family: "cwt"}.secure(t, k, doc))
	}
	vc, err := verifiable.ParseCredential(b, p14Opts()...)
	t.Must(err, "parse")
	if form == "made" {
		var c verifiable.CredentialContents = vc.Contents()
		vc, err = verifiable.CreateCredentialWithProofs(c, verifiable.CustomFields{"extra": doc["extra"]}, vc.Proofs())
		t.Must(err, "create")
	}
	n := &p15Node{vc: vc, name: "original"}
	n.snap = n.snapshot()
	x.nodes = []*p15Node{n}
}

// apply performs an operation on a node and compares all others with their snapshots.
func (x *p15World) apply(op p15Op, i int, path string) bool {
	n := x.nodes[i]
	path += fmt.Sprintf(" > %s of %d", op.name, i)
	var d *p15Node
	var changes bool
	var err error
	if p := h.Guard(func() { d, changes, err = op.run(x, n) }); p != "" {
		x.t.FailSub("panic", "%s: %s", path, p)
		return false
	}
	x.t.Step("%s %v", path, err == nil)
	for j, m := range x.nodes {
		s := m.snapshot()
		if j == i && changes {
			m.snap = s
			continue
		}
		if s != m.snap && !(changes && m.vp != nil && n.vc != nil) { // presentations show the proofs added to their credentials
			x.t.FailSub("changed", "%s: changed %d (%s): was %s, is %s", path, j, m.name, m.snap, s)
			return false
		}
		m.snap = s
	}
	if err == nil && d != nil && (d.vp != nil || d.vc != n.vc) {
		d.name, d.snap = op.name, d.snapshot()
		x.nodes = append(x.nodes, d)
	}
	return true
}

func genP15(e *h.Env) {
	k := fx.NewKey("ed25519", wIss, "k1")
	ops := p15Ops()
	var deep []p15Op
	few := map[string]bool{}
	for _, n := range []string{"with id", "sign jwt min=false", "sign cwt", "display map", "add ld proof", "add di proof", "present", "clone", "add credential", "set custom field"} {
		few[n] = true
	}
	for _, o := range ops {
		if o.deep && (e.Thorough() || few[o.name]) {
			deep = append(deep, o)
		}
	}
	type st struct {
		form   string
		proofs int
	}
	starts := []st{{"v1", 0}, {"v1", 1}, {"v1", 2}, {"v1", 3}, {"v1", 4}, {"v2", 0}, {"v2", 3}, {"made", 0}, {"made", 3}, {"jwt", 0}, {"jwt", 3}, {"v2-jwt", 0}, {"cwt", 0}, {"cwt", 3}, {"sdjwt2", 0}, {"sdjwt5", 0}}
	pairs := map[st]int{{"v1", 3}: 1, {"v2", 3}: 1, {"jwt", 3}: 1}
	for _, s := range starts {
		// replay performs a sequence of operations (index of the operation, of the node) from the start.
		type mv struct{ op, node int }
		var explore func(t *h.T, set []p15Op, seq []mv, depth int)
		replay := func(t *h.T, set []p15Op, seq []mv) (*p15World, bool) {
			x := &p15World{t: t, k: k}
			x.start(t, s.form, s.proofs, k)
			path := ""
			for _, m := range seq {
				if m.node >= len(x.nodes) || (x.nodes[m.node].vp != nil) != set[m.op].vp {
					return nil, false
				}
				if !x.apply(set[m.op], m.node, path) {
					return nil, false
				}
				path += " > " + set[m.op].name
			}
			return x, true
		}
		explore = func(t *h.T, set []p15Op, seq []mv, depth int) {
			x, ok := replay(t, set, seq)
			if !ok {
				return
			}
			t.Statef("%v %v %d %d", s, seq, len(x.nodes), len(set))
			if depth == 0 || e.Stopped() {
				return
			}
			for o := range set {
				for n := range x.nodes {
					if (x.nodes[n].vp != nil) == set[o].vp {
						explore(t, set, append(append([]mv{}, seq...), mv{o, n}), depth-1)
					}
				}
			}
		}
		for o := range ops {
			if ops[o].vp {
				continue
			}
			e.Casef(func(t *h.T) { explore(t, ops, []mv{{o, 0}}, e.Pick(pairs[s], 1)) }, "%s %d proofs: %s", s.form, s.proofs, ops[o].name)
		}
		longer := e.Thorough() || s == st{"v1", 1}
		for o := range deep {
			if deep[o].vp || !longer {
				continue
			}
			for p := range deep {
				e.Casef(func(t *h.T) {
					for n := 0; n < 2; n++ {
						explore(t, deep, []mv{{o, 0}, {p, n}}, e.Pick(1, 1))
					}
				}, "%s %d proofs: %s, %s ...", s.form, s.proofs, deep[o].name, deep[p].name)
			}
		}
	}
}
