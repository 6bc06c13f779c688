package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"github.com/hashicorp/golang-lru/v2/expirable"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/kms-go/doc/jose"
	"verif.local/sched"

	josejwt "github.com/go-jose/go-jose/v3/jwt"

	"github.com/trustbloc/vc-go/dataintegrity"
	dicver "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
	"github.com/trustbloc/vc-go/zz_verifmc/schild"
)

// p28Static is what was made before: keys and secured documents (only those an operation needs).
type p28Static struct {
	rel      *verifiable.RelatedResourceValidator
	relCache *expirable.LRU[string, *verifiable.CachedResource]
	t        *h.T
	k, k2    *fx.Key
	k3       *fx.Key // of another issuer
	hk       *fx.Key
	mu       sync.Mutex
	toks     map[string]string
}

// p28World is made anew for every execution; its objects are shared by the goroutines.
type p28World struct {
	s       *p28Static
	chk     *checker.ProofChecker
	opts    []verifiable.CredentialOpt
	popts   []verifiable.PresentationOpt
	dic     []dicver.DIDConfigurationOpt
	di      *dataintegrity.Verifier
	dis     *dataintegrity.Signer
	schema  *verifiable.CredentialSchemaLoader
	rel     *verifiable.RelatedResourceValidator
	client  *status.Client
	pd, pdr *presexch.PresentationDefinition
	vcs     map[string]*verifiable.Credential // lazily parsed before the goroutines start
	vps     map[string]*verifiable.Presentation
	claims  map[string]any
	sdOpts  []issuer.NewOpt
	cfi     string
}

type p28Op struct {
	name string
	need []string // credentials to have in vcs
	run  func(w *p28World) any
	norm func(w *p28World, v any) string
}

// p28Err carries an error through an operation.
func p28Err(v any, err error) any {
	if err != nil {
		return err
	}
	return v
}

func (s *p28Static) form(name string) credForm {
	for _, f := range credForms {
		if f.name == name {
			return f
		}
	}
	panic(name)
}

// tok is a secured credential or presentation.
func (s *p28Static) tok(name string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if v, ok := s.toks[name]; ok {
		return v
	}
	v := s.make(name)
	s.toks[name] = v
	return v
}

func (s *p28Static) make(name string) string {
	what, form, _ := strings.Cut(name, " ")
	switch what {
	case "vc", "bad":
		if form == "plain" {
			return h.JSON(s.form("jwt").vcDoc(1, wIss))
		}
		f := s.form(form)
		k := s.k
		if f.family == "ld" {
			k = s.k2
		}
		out := f.secure(s.t, k, f.vcDoc(f.dms()[0], wIss))
		if what == "bad" {
			switch f.family {
			case "jwt":
				out = strings.Split(out, "~")[0]
				i := strings.LastIndexByte(out, '.') + 10
				c := "A"
				if out[i] == 'A' {
					c = "B"
				}
				out = out[:i] + c + out[i+1:]
			default:
				out = strings.Replace(out, "deep", "deeq", 1)
			}
		}
		return out
	case "other": // by the other issuer
		f := s.form(form)
		return f.secure(s.t, s.k3, f.vcDoc(f.dms()[0], s.k3.DID))
	case "dm2":
		f := s.form(form)
		return f.secure(s.t, s.k, f.vcDoc(2, wIss))
	case "env":
		return h.JSON(map[string]any{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + s.make("dm2 "+form)})
	case "vp":
		f := s.form(form)
		k := s.k
		if f.family == "ld" {
			k = s.k2
		}
		doc := f.vpDoc(1, wIss, []any{s.make("vc jwt"), parseAny([]byte(s.make("vc ld2018")))})
		return f.secureVP(s.t, k, doc)
	case "sdvc":
		c := p08Issue(s.t, s.k, s.form("jwt").vcDoc(1, wIss), p08Opts{})
		return c.combined
	case "status":
		return h.JSON(statusListJSON(stIssuer, map[string]any{"id": stURI + "#list", "type": "StatusList2021", "statusPurpose": "revocation", "encodedList": b64u.EncodeToString(gz(6, []byte{0x01, 0x80}))}))
	}
	panic(name)
}

func p28New() *p28Static {
	return &p28Static{t: &h.T{}, k: fx.NewKey("ed25519", wIss, "k1"), k2: fx.NewKey("ed25519", wIss, "k2"), k3: fx.NewKey("p256", "did:verif:other", "k1"), hk: fx.NewKey("ed25519", "did:verif:holder", "k1"), toks: map[string]string{}}
}

func (s *p28Static) world(need ...string) *p28World {
	w := &p28World{s: s, vcs: map[string]*verifiable.Credential{}, vps: map[string]*verifiable.Presentation{}}
	r := fx.NewResolver(s.k, s.k2, s.k3)
	r.Set(s.k2.KID, ldVM(s.k2, "Ed25519Signature2018"))
	w.chk = fx.CheckerR(r)
	dd := diDoc(s.k, s.k2)
	w.di, w.dis = diVerifier(dd), diSigner(dd, s.k)
	w.opts = append(make([]verifiable.CredentialOpt, 0, 16), verifiable.WithProofChecker(w.chk), verifiable.WithJSONLDDocumentLoader(fx.Loader()),
		verifiable.WithDataIntegrityVerifier(w.di), verifiable.WithExpectedDataIntegrityFields("assertionMethod", "", ""))
	w.popts = append(make([]verifiable.PresentationOpt, 0, 16), verifiable.WithPresProofChecker(w.chk), verifiable.WithPresJSONLDDocumentLoader(fx.Loader()),
		verifiable.WithPresDataIntegrityVerifier(w.di), verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""))
	w.schema = p22Loader(nil, func(u string) (*http.Response, error) {
		if strings.HasSuffix(u, "/strict") {
			return httpResp(200, []byte(`{"type":"object","properties":{"credentialSubject":{"required":["nope"]}}}`)), nil
		}
		return httpResp(200, []byte(`{"type":"object","properties":{"credentialSubject":{"required":["name"]}}}`)), nil
	})
	if s.rel == nil { // one for all executions, emptied each time: each cache keeps a goroutine for ever
		s.relCache = expirable.NewLRU[string, *verifiable.CachedResource](100, nil, time.Minute)
		s.rel = verifiable.NewRelatedResourceValidator(verifiable.WithCache(s.relCache), verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
			if strings.HasSuffix(u, "/gone") {
				return httpResp(404, nil), nil
			}
			return httpResp(200, []byte("content of "+u)), nil
		})))
	}
	s.relCache.Purge()
	w.rel = s.rel
	list := ""
	for _, n := range need {
		what, _, _ := strings.Cut(n, " ")
		switch what {
		case "vc", "sdvc":
			vc, err := verifiable.ParseCredential([]byte(s.tok(n)), pxOpts()...)
			s.must(err, n)
			w.vcs[n] = vc
		case "doc": // not validated before
			f := s.form("jwt")
			vc, err := verifiable.ParseCredentialJSON(f.vcDoc(map[string]int{"doc 1": 1, "doc 2": 2}[n], wIss), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
			s.must(err, n)
			w.vcs[n] = vc
		case "rel", "rel-gone", "rel-bad":
			a, b := p21Res("a", []byte("content of https://r.example/a")), p21Res("b", []byte("content of https://r.example/b"))
			switch what {
			case "rel-gone":
				a = p21Res("gone", []byte("x"))
			case "rel-bad":
				b = p21Res("b", []byte("other"))
			}
			w.vcs[n] = p21VC(s.t, a, b)
		case "st":
			list = s.tok("status x")
			vc, err := statusVC(stIssuer, statusEntry("StatusList2021Entry", "revocation", strings.TrimPrefix(n, "st ")))
			s.must(err, n)
			w.vcs[n] = vc
		case "pd":
			w.pd = pxPD(s.t, map[string]any{"id": "pd", "input_descriptors": []any{
				map[string]any{"id": "d1", "schema": nil, "constraints": map[string]any{"limit_disclosure": "required", "fields": []any{map[string]any{"id": "f1", "path": []any{"$.credentialSubject.name", "$.vc.credentialSubject.name"}, "filter": map[string]any{"type": "string"}}}}},
				map[string]any{"id": "d2", "constraints": map[string]any{"fields": []any{map[string]any{"path": []any{"$.credentialSubject.age"}, "predicate": "required", "filter": map[string]any{"type": "integer", "minimum": 5}}}}},
			}})
			w.pdr = pxPD(s.t, map[string]any{"id": "pdr", "submission_requirements": []any{map[string]any{"rule": "pick", "count": 1, "from": "A"}}, "input_descriptors": []any{
				map[string]any{"id": "d1", "group": []any{"A"}, "constraints": map[string]any{"fields": []any{map[string]any{"path": []any{"$.credentialSubject.name"}}}}},
				map[string]any{"id": "d2", "group": []any{"A"}, "constraints": map[string]any{"fields": []any{map[string]any{"path": []any{"$.credentialSubject.nope"}}}}},
			}})
		case "px":
			for i := range 2 {
				n := fmt.Sprint("px", i)
				doc := pxDoc(n, map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0 + float64(i), "o": map[string]any{"p": "q"}}, nil)
				if s.toks[n] == "" {
					s.toks[n] = h.JSON(doc)
					if i == 0 {
						s.toks[n] = s.form("sdjwt5").secure(s.t, s.k, doc)
					}
				}
				vc, err := verifiable.ParseCredential([]byte(s.toks[n]), pxOpts()...)
				s.must(err, n)
				w.vcs[n] = vc
			}
		case "pres":
			vp, err := w.pd.CreateVP([]*verifiable.Credential{w.vcs["px0"], w.vcs["px1"]}, fx.Loader(), presexch.WithSDCredentialOptions(pxOpts()...))
			s.must(err, "vp")
			w.vps["pres"] = vp
		case "sd":
			w.claims = map[string]any{"given_name": "Ann", "address": map[string]any{"street": "s", "city": "c"}, "list": []any{"x", map[string]any{"y": "z"}}, "id": "did:ex:s"}
			w.sdOpts = append(make([]issuer.NewOpt, 0, 8), issuer.WithSDJWTVersion(common.SDJWTVersionV5), issuer.WithStructuredClaims(true), issuer.WithAlwaysIncludeObjects([]string{"address"}),
				issuer.WithRecursiveClaimsObjects([]string{"address"}), issuer.WithNonSelectivelyDisclosableClaims([]string{"id"}), issuer.WithDecoyDigests(true), issuer.WithHolderPublicKey(s.hk.JWK))
		case "cfi":
			if s.toks[n] == "" {
				tk, err := issuer.New(wIss, w.claims, nil, sdSigner{k: s.k}, w.sdOpts...)
				s.must(err, "issue")
				s.toks[n], err = tk.Serialize(false)
				s.must(err, "issue")
			}
			w.cfi = s.toks[n]
		case "dic":
			w.dic = p25Get().opts()
		}
	}
	w.client = &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: httpFunc(func(*http.Request) (*http.Response, error) {
		return httpResp(200, []byte(list)), nil
	})}, &didRegistry{}, "tok")}
	return w
}

// p28VC is a credential's content as text.
func p28VC(vc *verifiable.Credential) string {
	return h.Canon(vc.ToRawJSON()) + fmt.Sprint(len(vc.Proofs()), vc.JWTHeaders())
}

func p28Norm(w *p28World, v any) string {
	switch x := v.(type) {
	case error:
		return "error " + x.Error()
	case *verifiable.Credential:
		return p28VC(x)
	case []*verifiable.Credential:
		var o []string
		for _, c := range x {
			o = append(o, p28VC(c))
		}
		return strings.Join(o, "\n")
	case *verifiable.Presentation:
		var o []string
		for _, c := range x.Credentials() {
			o = append(o, p28VC(c))
		}
		return x.ID + x.Holder + h.Canon(x.CustomFields) + strings.Join(o, "\n")
	case []byte:
		return string(x)
	case string:
		return x
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%T %v", v, err)
	}
	return h.Canon(parseAny(b))
}

var p28TS = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)

func p28Ops() (ops []p28Op) {
	add := func(name string, need string, run func(w *p28World) any, norm ...func(*p28World, any) string) {
		n := p28Norm
		if len(norm) > 0 {
			n = norm[0]
		}
		var nd []string
		if need != "" {
			nd = strings.Split(need, ",")
		}
		ops = append(ops, p28Op{name, nd, run, n})
	}
	parse := func(form string) {
		for _, what := range []string{"vc", "bad"} {
			if form == "cwt" && what == "bad" {
				continue
			}
			n := what + " " + form
			add("parse "+n, "", func(w *p28World) any {
				vc, err := verifiable.ParseCredential([]byte(w.s.toks[n]), w.opts...)
				return p28Err(vc, err)
			})
		}
	}
	for _, f := range []string{"jwt", "sdjwt5", "sdjwt2", "cwt", "ld2018", "di-eddsa"} {
		parse(f)
	}
	for _, n := range []string{"other jwt", "dm2 jwt", "dm2 di-eddsa", "env jwt"} {
		add("parse "+n, "", func(w *p28World) any {
			vc, err := verifiable.ParseCredential([]byte(w.s.toks[n]), w.opts...)
			return p28Err(vc, err)
		})
	}
	for _, f := range []string{"jwt", "ld2018", "di-eddsa"} {
		n := "vp " + f
		add("parse "+n, "", func(w *p28World) any {
			vp, err := verifiable.ParsePresentation([]byte(w.s.toks[n]), w.popts...)
			return p28Err(vp, err)
		})
	}
	// issuing from one shared source credential
	add("sign jwt", "vc plain", func(w *p28World) any {
		vc, err := w.vcs["vc plain"].CreateSignedJWTVC(false, verifiable.EdDSA, jwtAnySigner{w.s.k}, w.s.k.KID)
		if err != nil {
			return err
		}
		s, err := vc.ToJWTString()
		return p28Err(s, err)
	})
	add("sign jwt minimized", "vc plain", func(w *p28World) any {
		vc, err := w.vcs["vc plain"].CreateSignedJWTVC(true, verifiable.EdDSA, jwtAnySigner{w.s.k}, w.s.k.KID)
		if err != nil {
			return err
		}
		s, err := vc.ToJWTString()
		return p28Err(s, err)
	})
	add("sign cwt", "vc plain", func(w *p28World) any {
		vc, err := w.vcs["vc plain"].CreateSignedCOSEVC(w.s.k.Cose, p10Signer{w.s.k}, w.s.k.KID)
		if err != nil {
			return err
		}
		s, err := vc.MarshalAsCWTLDHex()
		return p28Err(s, err)
	}, func(w *p28World, v any) string { // map order is not fixed in CBOR: compare what it says
		s, ok := v.(string)
		if !ok {
			return p28Norm(w, v)
		}
		vc, err := verifiable.ParseCredential([]byte(s), w.opts...)
		return p28Norm(w, p28Err(vc, err))
	})
	add("sign sdjwt", "vc plain", func(w *p28World) any {
		s, err := w.vcs["vc plain"].MakeSDJWT(sdSigner{k: w.s.k}, w.s.k.KID, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))
		return p28Err(s, err)
	}, func(w *p28World, v any) string { // salts and decoys are random: compare what it discloses
		s, ok := v.(string)
		if !ok {
			return p28Norm(w, v)
		}
		vc, err := verifiable.ParseCredential([]byte(s), w.opts...)
		if err != nil {
			return "error " + err.Error()
		}
		m, err := vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
		if err != nil {
			return "error " + err.Error()
		}
		return h.Canon(m)
	})
	add("sign ld", "vc plain", func(w *p28World) any {
		vc := w.vcs["vc plain"].WithModifiedID("urn:vc:1")
		if err := vc.AddLinkedDataProof(ldCtx(w.s.k2), processor.WithDocumentLoader(fx.Loader())); err != nil {
			return err
		}
		return vc
	})
	add("sign di", "vc plain", func(w *p28World) any {
		vc := w.vcs["vc plain"].WithModifiedContext([]string{"https://www.w3.org/2018/credentials/v1", "https://w3id.org/security/data-integrity/v2", fx.CtxX})
		ts := p28TS
		if err := vc.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: w.s.k.KID, CryptoSuite: "eddsa-rdfc-2022", Created: &ts}, w.dis); err != nil {
			return err
		}
		return vc
	})
	// reading one shared credential
	add("read", "vc plain,vc jwt", func(w *p28World) any {
		var out []any
		for _, n := range []string{"vc plain", "vc jwt"} {
			vc := w.vcs[n]
			c := vc.Contents()
			raw, err := vc.MarshalJSON()
			if err != nil {
				return err
			}
			u, err := vc.ToUniversalForm()
			if err != nil {
				return err
			}
			out = append(out, c.ID, c.Types, len(c.Subject), string(raw), u, vc.ToRawClaimsMap())
		}
		return out
	})
	add("validate", "vc plain", func(w *p28World) any { return p28Err("valid", w.vcs["vc plain"].ValidateCredential(w.opts...)) })
	for _, dm := range []int{1, 2} {
		add(fmt.Sprint("validate dm", dm), fmt.Sprint("doc ", dm), func(w *p28World) any {
			return p28Err("valid", w.vcs[fmt.Sprint("doc ", dm)].ValidateCredential(verifiable.WithJSONLDDocumentLoader(fx.Loader())))
		})
		add(fmt.Sprint("base contexts dm", dm), fmt.Sprint("doc ", dm), func(w *p28World) any {
			base := []string{"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/ns/credentials/v2"}[dm-1]
			vc := w.vcs[fmt.Sprint("doc ", dm)]
			e1 := vc.ValidateCredential(verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithBaseContextValidation(base))
			e2 := vc.ValidateCredential(verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithBaseContextExtendedValidation(base, []string{fx.CtxX}, []string{"XCred"}))
			return fmt.Sprint(e1, e2)
		})
	}
	add("present", "vc plain,vc jwt", func(w *p28World) any {
		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(w.vcs["vc plain"], w.vcs["vc jwt"]))
		if err != nil {
			return err
		}
		s, err := vp.CreateJWTVP([]string{"a"}, verifiable.EdDSA, jwtAnySigner{w.s.k}, w.s.k.KID, false)
		return p28Err(s, err)
	})
	add("check proof", "vc ld2018,vc jwt", func(w *p28World) any {
		return p28Err("ok", errors.Join(w.vcs["vc ld2018"].CheckProof(w.opts...), w.vcs["vc jwt"].CheckProof(w.opts...)))
	})
	add("derive", "vc plain", func(w *p28World) any {
		vc := w.vcs["vc plain"].WithModifiedIssuer(&verifiable.Issuer{ID: "did:ex:other"}).WithModifiedStatus(&verifiable.TypedID{ID: "urn:st", Type: "T"})
		vc.SetCustomField("added", 1)
		return vc
	})
	// selective disclosure
	add("display sd credential", "sdvc x", func(w *p28World) any {
		return p28Err(w.vcs["sdvc x"].CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()))
	})
	add("display part", "sdvc x", func(w *p28World) any {
		vc, err := w.vcs["sdvc x"].CreateDisplayCredential(verifiable.DisplayGivenDisclosures([]string{"name"}))
		return p28Err(vc, err)
	})
	add("disclose part", "sdvc x", func(w *p28World) any {
		s, err := w.vcs["sdvc x"].MarshalWithDisclosure(verifiable.DiscloseGivenRequired([]string{"name"}))
		return p28Err(s, err)
	})
	add("issue sd-jwt", "sd", func(w *p28World) any {
		tk, err := issuer.New(wIss, w.claims, nil, sdSigner{k: w.s.k}, w.sdOpts...)
		if err != nil {
			return err
		}
		s, err := tk.Serialize(false)
		return p28Err(s, err)
	}, p28SDIssued)
	add("hold sd-jwt", "sd,cfi", func(w *p28World) any {
		cl, err := holder.Parse(w.cfi, holder.WithSignatureVerifier(w.chk))
		if err != nil {
			return err
		}
		var ds []string
		for _, c := range cl {
			if c.Name != "given_name" {
				ds = append(ds, c.Disclosure)
			}
		}
		s, err := holder.CreatePresentation(w.cfi, ds, holder.WithHolderVerification(&holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a", IssuedAt: josejwt.NewNumericDate(p28TS)}, Signer: sdSigner{k: w.s.hk}}))
		return p28Err(s, err)
	})
	add("verify sd-jwt", "sd,cfi", func(w *p28World) any {
		m, err := verifier.Parse(w.cfi, verifier.WithSignatureVerifier(w.chk), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
		return p28Err(m, err)
	})
	add("jwt", "", func(w *p28World) any {
		_, cl, err := jwt.ParseAndCheckProof(w.s.toks["vc jwt"], w.chk, true)
		return p28Err(string(cl), err)
	})
	add("jwt other", "", func(w *p28World) any {
		_, cl, err := jwt.ParseAndCheckProof(w.s.toks["other jwt"], w.chk, true)
		return p28Err(string(cl), err)
	})
	add("jwt sign", "sd", func(w *p28World) any {
		tk, err := jwt.NewSigned(w.claims, jwt.SignParameters{KeyID: w.s.k.KID, JWTAlg: "EdDSA", AdditionalHeaders: jose.Headers{"typ": "JWT"}}, jwtAnySigner{w.s.k})
		if err != nil {
			return err
		}
		s, err := tk.Serialize(false)
		return p28Err(s, err)
	})
	// presentation exchange
	add("px create", "pd,px", func(w *p28World) any {
		vp, err := w.pd.CreateVP([]*verifiable.Credential{w.vcs["px0"], w.vcs["px1"]}, fx.Loader(), presexch.WithSDCredentialOptions(pxOpts()...))
		if err != nil {
			return err
		}
		return vp.Credentials()
	})
	add("px create from jwt", "pd,px,vc jwt", func(w *p28World) any {
		vp, err := w.pd.CreateVP([]*verifiable.Credential{w.vcs["vc jwt"], w.vcs["px1"]}, fx.Loader(), presexch.WithSDCredentialOptions(pxOpts()...))
		if err != nil {
			return err
		}
		return vp.Credentials()
	})
	add("px requirements", "pd,px", func(w *p28World) any {
		m, err := w.pdr.MatchSubmissionRequirement([]*verifiable.Credential{w.vcs["px0"], w.vcs["px1"]}, fx.Loader())
		if err != nil {
			return err
		}
		var o []string
		for _, r := range m {
			for _, d := range r.Descriptors {
				o = append(o, fmt.Sprint(r.Name, r.Rule, r.Count, d.ID, len(d.MatchedVCs), d.MatchedVCs))
			}
		}
		return len(o)
	})
	add("px match", "pd,px,pres", func(w *p28World) any {
		m, err := w.pd.Match([]*verifiable.Presentation{w.vps["pres"]}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
		if err != nil {
			return err
		}
		o := map[string]string{}
		for _, v := range m {
			o[v.DescriptorID] = p28VC(v.Credential)
		}
		return o
	})
	// things fetched through shared loaders with caches
	for _, n := range []string{"rel", "rel-gone", "rel-bad"} {
		add(n, n, func(w *p28World) any { return p28Err("ok", w.rel.Validate([]*verifiable.Credential{w.vcs[n]})) })
	}
	for _, sch := range []string{"lax", "strict"} {
		doc := h.JSON(p22Doc(1, map[string]any{"id": "did:ex:s", "name": "Ann"}, map[string]any{"id": "https://s.example/" + sch, "type": "JsonSchemaValidator2018"}))
		add("schema "+sch, "", func(w *p28World) any {
			vc, err := verifiable.ParseCredential([]byte(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(w.schema))
			return p28Err(vc, err)
		})
	}
	add("default schema", "", func(w *p28World) any {
		vc, err := verifiable.ParseCredential([]byte(h.JSON(p22Doc(1, map[string]any{"id": "did:ex:s"}, nil))), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
		return p28Err(vc, err)
	})
	for _, i := range []string{"0", "1", "8", "100"} {
		n := "st " + i
		add("status "+i, n, func(w *p28World) any { return p28Err("ok", w.client.VerifyStatus(w.vcs[n])) })
	}
	add("did configuration", "dic", func(w *p28World) any {
		s := p25Get()
		return p28Err("ok", dicver.VerifyDIDAndDomain([]byte(h.JSON(p25Conf(s.entries[0]))), s.a.DID, p25Dom, w.dic...))
	})
	return ops
}

// p28SDIssued is what an issued SD-JWT discloses to its holder.
func p28SDIssued(w *p28World, v any) string {
	s, ok := v.(string)
	if !ok {
		return p28Norm(w, v)
	}
	cl, err := holder.Parse(s, holder.WithSignatureVerifier(w.chk))
	if err != nil {
		return "error " + err.Error()
	}
	m := map[string]int{}
	for _, c := range cl {
		m[c.Name+"="+h.Canon(c.Value)]++
	}
	if len(w.claims["address"].(map[string]any)) != 2 {
		return "the claims given to the issuer were changed"
	}
	return fmt.Sprint(m)
}

// p28Pair explores one pair.
func p28Pair(g *schild.Group, s *p28Static, a, b p28Op, c sched.Config, warm ...p28Op) {
	for _, o := range []p28Op{a, b} {
		if n, ok := strings.CutPrefix(o.name, "parse "); ok {
			s.tok(n)
		}
		if o.name == "jwt" {
			s.tok("vc jwt")
		}
		if o.name == "jwt other" {
			s.tok("other jwt")
		}
	}
	need := append(append([]string{}, a.need...), b.need...)
	var want [2]string
	solo := false
	ab := []p28Op{a, b}
	name := a.name + " || " + b.name
	for _, o := range warm {
		name = o.name + "; " + name
	}
	g.Explore(name, c, func() *sched.Run {
		w := s.world(need...)
		for _, o := range warm {
			o.run(w)
		}
		var res [2]any
		r := &sched.Run{}
		for i := range ab {
			r.Threads = append(r.Threads, func() { res[i] = ab[i].run(w) })
		}
		r.Check = func() string {
			if !solo { // only now: the first execution found everything cold
				for i := range ab {
					w := s.world(need...)
					want[i] = ab[i].norm(w, ab[i].run(w))
				}
				solo = true
			}
			out := ""
			for i := range ab {
				got := ab[i].norm(w, res[i])
				if got != want[i] {
					return fmt.Sprintf("%s gives\n%s\nalone it gives\n%s", ab[i].name, got, want[i])
				}
				if len(got) > 60 {
					got = got[:60]
				}
				out += got + "|"
			}
			g.Outcome(out)
			return ""
		}
		return r
	})
}

// p28Family: operations of one family share more than the loader.
func p28Family(n string) string {
	switch {
	case strings.HasPrefix(n, "px"):
		return "px"
	case strings.HasPrefix(n, "rel"), strings.HasPrefix(n, "schema"), strings.HasPrefix(n, "status"), strings.HasPrefix(n, "default"), strings.HasPrefix(n, "did conf"):
		return "fetch " + strings.Fields(n)[0][:3]
	}
	return "vc"
}

// P28Child is the child process's entry.
func P28Child() {
	schild.Main(func(g *schild.Group, name string) {
		mode, what, _ := strings.Cut(name, "/")
		c := sched.Config{Preemptions: 1, VisitCap: 1, Deadline: time.Now().Add(700 * time.Second)}
		if g.Tier == "thorough" {
			c.VisitCap = 2
		}
		race := strings.HasPrefix(mode, "race")
		if race {
			c.Preemptions = 0
			_, _ = fmt.Sscanf(mode, "race turns of %d", &c.Quantum)
		}
		find := func(n string) p28Op {
			for _, o := range p28Ops() {
				if o.name == n {
					return o
				}
			}
			fmt.Fprintln(os.Stderr, "no group", name)
			os.Exit(3)
			return p28Op{}
		}
		st := p28New()
		if an, ok := strings.CutPrefix(what, "all "); ok {
			for _, b := range p28Ops() {
				for _, q := range p28Turns[:map[bool]int{false: 2, true: 4}[g.Tier == "thorough"]] {
					c.Quantum = q
					p28Pair(g, st, find(an), b, c)
				}
			}
			return
		}
		an, bn, _ := strings.Cut(what, " || ")
		if mode == "warm" { // what they share has been used by the first before
			p28Pair(g, st, find(an), find(bn), c, find(an))
			return
		}
		p28Pair(g, st, find(an), find(bn), c)
	})
}

// p28Turns are the lengths of turns, in statements, when both goroutines run in turn (0: one after the other): between two turns nothing orders them, so that a race is seen.
var p28Turns = []int{0, 1, 7, 40}

var p28Totals schild.Totals

// p28Warm are pairs that use the same shared thing for different purposes.
var p28Warm = [][2]string{{"jwt", "jwt other"}, {"parse vc jwt", "parse other jwt"}, {"parse vc sdjwt5", "parse other jwt"}, {"parse vc cwt", "jwt other"}, {"parse vc ld2018", "jwt other"}, {"schema lax", "schema strict"}, {"status 0", "status 1"}, {"verify sd-jwt", "jwt other"}, {"display sd credential", "display part"}, {"px create", "px match"}, {"validate dm1", "validate dm2"}}

func init() {
	h.Register(&h.Prop{ID: "P28", Level: "enumerated", HangAfter: 850 * time.Second,
		Rule: "every pair (and each operation with itself) of some fifty operations that issue, sign, present, parse, verify, display, match, fetch and check, run by two goroutines on shared checkers, verifiers, signers, loaders, caches, definitions and credentials; " +
			"each pair runs under the race detector, one after the other and in turns of one statement (thorough, and an operation with itself: 7 and 40 as well), those of an operation with itself in a fresh process where everything is cold; each operation with itself and with a neighbour of its family (thorough: all pairs) runs with every single preemption at the first (thorough: first two) visits of every statement of the repository; 13 pairs (thorough: each operation with itself as well) are also run after the first has used what they share; results equal those of the operation alone; states are outcomes",
		Assume: []string{"a statement is atomic for the enumeration; what happens inside one, and in dependencies, is left to the race detector", "callers do not modify what they share"},
		Gen: func(e *h.Env) {
			ops := p28Ops()
			run := func(n string) { e.Case(n, func(t *h.T) { p28Totals.Run(t, e.Tier, n) }) }
			for _, a := range ops {
				for _, q := range p28Turns { // each finds everything cold
					run(fmt.Sprintf("race turns of %d/%s || %s", q, a.name, a.name))
				}
				run("race/all " + a.name)
			}
			for i, a := range ops {
				fam := 0
				for _, b := range ops[i:] {
					same := p28Family(a.name) == p28Family(b.name)
					if same {
						fam++
					}
					if e.Thorough() || same && fam <= 2 {
						run("pair/" + a.name + " || " + b.name)
					}
				}
			}
			for _, p := range p28Warm {
				run("warm/" + p[0] + " || " + p[1])
				run("warm/" + p[1] + " || " + p[0])
			}
			if e.Thorough() {
				for _, a := range ops {
					run("warm/" + a.name + " || " + a.name)
				}
			}
		},
		Finish: func(e *h.Env) { p28Totals.Note(e) },
	})
}

func (s *p28Static) must(err error, what string) {
	if err != nil {
		panic(what + ": " + err.Error())
	}
}
