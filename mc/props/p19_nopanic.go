package props

import (
	"crypto"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"sort"
	"strings"
	"sync"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	sdverifier "github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P19", Level: "enumerated", Gen: genP19,
		Rule:   "every node of every seed document (credentials and presentations of all forms, claims and headers of tokens, disclosures, CBOR claims, definitions, submissions, frames, status lists and entries, DID configurations, DID documents, schemas) x every replacement of an alphabet of JSON (CBOR) values and strings, re-signed and with digests recomputed so that it reaches the code behind the checks; every truncation and single-byte change of a menu of serialized forms; no call may panic",
		Assume: []string{"resolvers, loaders and clients given by the caller do not panic themselves"}})
}

var p19Deleted = new(int)

// p19Paths calls f with every node of v: its path and a function that gives v with the node replaced.
func p19Paths(v any, f func(path string, old any, with func(any) any)) {
	var walk func(path string, x any, with func(any) any)
	walk = func(path string, x any, with func(any) any) {
		f(path, x, with)
		switch x := x.(type) {
		case map[string]any:
			for _, k := range sortedKeys(x) {
				walk(path+"/"+k, x[k], func(n any) any {
					o := make(map[string]any, len(x))
					for kk, vv := range x {
						o[kk] = vv
					}
					if n == any(p19Deleted) {
						delete(o, k)
					} else {
						o[k] = n
					}
					return with(o)
				})
			}
		case map[any]any:
			var ks []string
			byS := map[string]any{}
			for k := range x {
				s := fmt.Sprintf("%T:%v", k, k)
				ks = append(ks, s)
				byS[s] = k
			}
			sort.Strings(ks)
			for _, s := range ks {
				k := byS[s]
				walk(path+"/"+s, x[k], func(n any) any {
					o := make(map[any]any, len(x))
					for kk, vv := range x {
						o[kk] = vv
					}
					if n == any(p19Deleted) {
						delete(o, k)
					} else {
						o[k] = n
					}
					return with(o)
				})
			}
		case []any:
			for i := range x {
				walk(fmt.Sprintf("%s/%d", path, i), x[i], func(n any) any {
					o := append([]any{}, x...)
					if n == any(p19Deleted) {
						o = append(o[:i], o[i+1:]...)
					} else {
						o[i] = n
					}
					return with(o)
				})
			}
		}
	}
	walk("", v, func(n any) any { return n })
}

type p19Repl struct {
	name string
	f    func(old any) any
}

func p19Const(v any) func(any) any { return func(any) any { return v } }

// p19Small are the replacements of two-node changes.
func p19Small() []p19Repl {
	return []p19Repl{
		{"removed", p19Const(p19Deleted)}, {"null", p19Const(nil)}, {"7", p19Const(7.0)}, {"empty string", p19Const("")}, {"x", p19Const("x")},
		{"{}", p19Const(map[string]any{})}, {"[]", p19Const([]any{})}, {"[null]", p19Const([]any{nil})},
	}
}

func p19Repls(e *h.Env, strs []string) []p19Repl {
	r := append(p19Small(),
		p19Repl{"true", p19Const(true)}, p19Repl{"0", p19Const(0.0)}, p19Repl{"-1", p19Const(-1.0)}, p19Repl{"1.5e300", p19Const(1.5e300)},
		p19Repl{"2^64", p19Const(18446744073709551616.0)},
		p19Repl{"[\"\"]", p19Const([]any{""})}, p19Repl{"[[]]", p19Const([]any{[]any{}})}, p19Repl{"[{}]", p19Const([]any{map[string]any{}})},
		p19Repl{"[7,x]", p19Const([]any{7.0, "x"})},
		p19Repl{"{id:null}", p19Const(map[string]any{"id": nil, "type": nil})}, p19Repl{"{id:7}", p19Const(map[string]any{"id": 7.0, "type": 7.0})},
		p19Repl{"{id:x}", p19Const(map[string]any{"id": "x", "type": "x"})},
		p19Repl{"{\"\":null}", p19Const(map[string]any{"": nil})},
		p19Repl{"{...:}", p19Const(map[string]any{"...": "x", "_sd": []any{nil, 7.0, ""}})},
		p19Repl{"wrapped", func(o any) any { return []any{o} }}, p19Repl{"twice", func(o any) any { return []any{o, o} }},
		p19Repl{"nested", func(o any) any { return map[string]any{"x": o} }},
		p19Repl{"with null", func(o any) any {
			switch x := o.(type) {
			case []any:
				return append(append([]any{}, x...), nil)
			case map[string]any:
				c := map[string]any{"x": nil}
				for k, v := range x {
					c[k] = v
				}
				return c
			case string:
				return x + "\x00"
			}
			return []any{o, nil}
		}},
		p19Repl{"unwrapped", func(o any) any {
			switch x := o.(type) {
			case []any:
				if len(x) > 0 {
					return x[0]
				}
			case map[string]any:
				for _, k := range sortedKeys(x) {
					return x[k]
				}
			case string:
				if x != "" {
					return x[:len(x)-1]
				}
			}
			return nil
		}},
	)
	for _, s := range strs {
		r = append(r, p19Repl{fmt.Sprintf("%.20q", s), p19Const(s)})
	}
	return r
}

var (
	p19Common = []string{" ", "\x00", "did:", "did:example:a", "#", "did:example:a#", "http://", "https://a.example/x", "data:,", "urn:x", "2020", "2020-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "-1", "a.b", "a.b.c", "..", "~", "%", "\xff", "JsonSchema", "..."}
	p19Path   = []string{"$", "$.", "$[", "$..", "$..*", "$[0]", "$[-1]", "$[0:1:0]", "$[::-1]", "$[99999999999999999999]", "$[?(@.x)]", "$[?@.x==1]", "$[?length(@)>1]", "$['']", "$.credentialSubject", "$.vc.credentialSubject.id", "$.type", "$.type[*]", "$.credentialSubject.tags[1:]", "$..id", "$.verifiableCredential[0]", "$[0][0]", "@", "x", "$.*.*"}
	p19Enc    = []string{"!", "A", "AA", "AAA", "AAAA", "z", "zz", "u", "uA", "m", "f", "z0", "sha256-", "sha-256-", "sha256-uEiA", "sha384-zA", "data:application/json;base64,", "data:application/json;base64,e30", "data:x;base64,!", "EiA", "EiAA", "eyJ9", "e30", "bnVsbA", "NQ", "H4sIAAAA", "uH4sIAAAA", "H4sIAAAAAAAA_wMAAAAAAAAAAAA", "uH4sIAAAAAAAA_wMAAAAAAAAAAAA"}
)

// p19Walk makes a case for each node of the seed.
func p19Walk(e *h.Env, name string, seed any, strs []string, sink func(t *h.T, g func(what string, f func()), v any)) {
	repls := p19Repls(e, strs)
	p19Paths(seed, func(path string, old any, with func(any) any) {
		e.Casef(func(t *h.T) {
			run := func(sub string, v any) {
				t.Step("%s", sub)
				if v == any(p19Deleted) {
					return
				}
				seen := map[string]bool{}
				sink(t, func(what string, f func()) {
					if p := h.Guard(f); p != "" && !seen[p] {
						seen[p] = true
						t.FailSub(sub+" "+what, "%s", p)
					}
				}, v)
			}
			if path == "" {
				run("unchanged", seed)
			}
			rs := repls
			if _, isStr := old.(string); !isStr && !e.Thorough() { // strings in place of other values: two of them
				rs = repls[:len(repls)-len(strs)+min(2, len(strs))]
			}
			for _, r := range rs {
				run(r.name, with(r.f(old)))
			}
			if e.Thorough() {
				for _, a := range p19Small() {
					w := with(a.f(old))
					p19Paths(w, func(path2 string, old2 any, with2 func(any) any) {
						if path2 <= path || strings.HasPrefix(path2, path+"/") {
							return
						}
						for _, b := range p19Small()[:5] {
							run(a.name+" and "+path2+" "+b.name, with2(b.f(old2)))
						}
					})
				}
			}
			t.Outcome("survived")
		}, "%s %s", name, path)
	})
}

// p19Pairs changes every two nodes of a small seed.
func p19Pairs(e *h.Env, name string, seed any, sink func(t *h.T, g func(what string, f func()), v any)) {
	p19Paths(seed, func(path string, old any, with func(any) any) {
		e.Casef(func(t *h.T) {
			for _, a := range p19Small() {
				p19Paths(with(a.f(old)), func(path2 string, old2 any, with2 func(any) any) {
					if path2 <= path || strings.HasPrefix(path2, path+"/") {
						return
					}
					for _, b := range p19Small() {
						sub := a.name + " and " + path2 + " " + b.name
						t.Step("%s", sub)
						sink(t, func(what string, f func()) {
							if p := h.Guard(f); p != "" {
								t.FailSub(sub+" "+what, "%s", p)
							}
						}, with2(b.f(old2)))
					}
				})
			}
			t.Outcome("survived")
		}, "%s pairs %s", name, path)
	})
}

// p19Tiny gives every short string over an alphabet to everything that reads serialized forms.
func p19Tiny(e *h.Env) {
	k := fx.NewKey("ed25519", wIss, "k1")
	pc := fx.Checker(k)
	w := newWorld(credForms[0])
	ps := p25Get()
	toks := []string{"\"", "'", "~", ".", "{", "}", "[", "]", ",", ":", "\\", "0", "-", "e", "y", "n", " ", "\n", "\x00", "\xff", "\x80", "\xa0", "\xd2", "\x84", "\xc3", "null", "true", "e30", "data:", "{}", "ey", "sha256-", "$", "#", "/", "%"}
	noProof := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
	noPres := []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}
	all := func(g func(string, func()), s string) {
		for i, o := range [][]verifiable.CredentialOpt{noProof, w.opts()} {
			var vc *verifiable.Credential
			g(fmt.Sprint("ParseCredential ", i), func() { vc, _ = verifiable.ParseCredential([]byte(s), o...) })
			if vc != nil {
				p19Cred(g, vc, k, o)
			}
		}
		for i, o := range [][]verifiable.PresentationOpt{noPres, w.presOpts()} {
			var vp *verifiable.Presentation
			g(fmt.Sprint("ParsePresentation ", i), func() { vp, _ = verifiable.ParsePresentation([]byte(s), o...) })
			if vp != nil {
				p19Pres(g, vp, k)
			}
		}
		g("jwt.Parse", func() {
			_, _, _ = jwt.Parse(s)
			_, _, _ = jwt.Parse(s, jwt.WithJWTDetachedPayload([]byte(s)))
			_, _ = jwt.IsJWS(s), jwt.IsJWTUnsecured(s)
			_, _, _ = jwt.ParseAndCheckProof(s, pc, true)
		})
		g("cwt.Parse", func() {
			_, _ = cwt.Parse([]byte(s))
			_, _, _ = cwt.ParseAndCheckProof([]byte(s), pc, true)
		})
		g("holder.Parse", func() {
			_, _ = holder.Parse(s, holder.WithSignatureVerifier(pc))
			_, _ = holder.CreatePresentation(s, []string{"x"})
		})
		g("verifier.Parse", func() {
			_, _ = sdverifier.Parse(s, sdverifier.WithSignatureVerifier(pc))
		})
		g("common", func() {
			f := common.ParseCombinedFormatForIssuance(s)
			_ = f.Serialize()
			_, _ = common.GetDisclosureClaims(f.Disclosures, crypto.SHA256)
			p := common.ParseCombinedFormatForPresentation(s)
			_ = p.Serialize()
		})
		g("ParseDataURL", func() { _, _, _, _ = verifiable.ParseDataURL(s) })
		g("VerifyDIDAndDomain", func() {
			_ = verifier.VerifyDIDAndDomain([]byte(s), ps.a.DID, p25Dom, ps.opts()...)
			_ = verifier.VerifyDIDAndDomain([]byte(`{"linked_dids":[`+s+`]}`), ps.a.DID, p25Dom, ps.opts()...)
		})
		g("models", func() {
			_ = json.Unmarshal([]byte(s), &presexch.PresentationDefinition{})
			_ = json.Unmarshal([]byte(s), &presexch.PresentationSubmission{})
			_ = json.Unmarshal([]byte(s), &verifiable.Issuer{})
			_ = json.Unmarshal([]byte(s), &verifiable.TypedID{})
		})
	}
	each := func(n string, t *h.T, s string) {
		t.Step("%q", s)
		for _, x := range []string{s, s + k.KID, "eyJhbGciOiJub25lIn0." + s, "eyJhbGciOiJub25lIn0." + s + ".", "eyJhbGciOiJub25lIn0.e30." + s} {
			t.Step("%.60q", x)
			all(func(what string, f func()) {
				if p := h.Guard(f); p != "" {
					t.FailSub(fmt.Sprintf("%q %s", x, what), "%s", p)
				}
			}, x)
			if !e.Thorough() && len(s) > 2 {
				break
			}
		}
	}
	e.Casef(func(t *h.T) { each("", t, ""); t.Outcome("survived") }, "tiny")
	for i, a := range toks {
		e.Casef(func(t *h.T) {
			each("", t, a)
			for _, b := range toks {
				each("", t, a+b)
				if e.Thorough() {
					for _, c := range toks {
						each("", t, a+b+c)
					}
				}
			}
			t.Outcome("survived")
		}, "tiny %d", i)
	}
}

// p19Bytes makes cases for every truncation and single-byte change.
func p19Bytes(e *h.Env, name string, b []byte, step int, sink func(t *h.T, g func(what string, f func()), b []byte)) {
	const chunk = 64
	for from := 0; from < len(b); from += chunk {
		e.Casef(func(t *h.T) {
			for i := from; i < from+chunk && i < len(b); i++ {
				run := func(sub string, c []byte) {
					sink(t, func(what string, f func()) {
						if p := h.Guard(f); p != "" {
							t.FailSub(sub+" "+what, "%s", p)
						}
					}, c)
				}
				if (i-from)%step != 0 {
					continue
				}
				t.Step("byte %d", i)
				run(fmt.Sprintf("cut at %d", i), b[:i])
				for _, c := range []byte{0, 0xff, '"', '.', '~', b[i] ^ 1, b[i] ^ 0x80, b[i] ^ 0x20} {
					if c != b[i] {
						x := append([]byte{}, b...)
						x[i] = c
						run(fmt.Sprintf("byte %d is %02x", i, c), x)
					}
				}
			}
			t.Outcome("survived")
		}, "%s bytes from %d", name, from)
	}
}

// p19Setup keeps the process away from the network.
var p19Setup = sync.OnceFunc(func() {
	http.DefaultTransport = httpFunc(func(*http.Request) (*http.Response, error) { return nil, errors.New("no network") })
	verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(&http.Client{Transport: httpFunc(func(*http.Request) (*http.Response, error) {
		return httpResp(200, []byte("resource")), nil
	})}))
})

func p19SchemaLoader(body string) *verifiable.CredentialSchemaLoader {
	return verifiable.NewCredentialSchemaLoaderBuilder().
		SetSchemaDownloadClient(&http.Client{Transport: httpFunc(func(*http.Request) (*http.Response, error) { return httpResp(200, []byte(body)), nil })}).
		Build()
}

// p19Cred is what a program does with a credential that it has parsed.
func p19Cred(g func(string, func()), vc *verifiable.Credential, k *fx.Key, opts []verifiable.CredentialOpt) {
	g("Contents", func() { _ = vc.Contents(); _ = vc.Proofs(); _ = vc.JWTHeaders(); _ = vc.SDJWTDisclosures() })
	g("ToRawJSON", func() { _ = vc.ToRawJSON() })
	g("ToRawClaimsMap", func() { _ = vc.ToRawClaimsMap() })
	g("MarshalJSON", func() { _, _ = json.Marshal(vc) })
	g("MarshalAsJSONLD", func() { _, _ = vc.MarshalAsJSONLD() })
	g("ToUniversalForm", func() { _, _ = vc.ToUniversalForm() })
	g("ToJWTString", func() { _, _ = vc.ToJWTString() })
	for _, min := range []bool{false, true} {
		g("JWTClaims", func() { _, _ = vc.JWTClaims(min) })
		g("CreateUnsecuredJWTVC", func() {
			u, err := vc.CreateUnsecuredJWTVC(min)
			if err == nil {
				_, _ = u.ToJWTString()
			}
		})
		g("CreateSignedJWTVC", func() { _, _ = vc.CreateSignedJWTVC(min, verifiable.EdDSA, jwtAnySigner{k}, k.KID) })
	}
	g("CWTClaims", func() { _, _ = vc.CWTClaims() })
	g("MarshalAsCWTLD", func() { _, _ = vc.MarshalAsCWTLD() })
	g("CreateSignedCOSEVC", func() {
		c, err := vc.CreateSignedCOSEVC(k.Cose, p10Signer{k}, k.KID)
		if err == nil {
			_, _ = c.MarshalAsCWTLDHex()
		}
	})
	g("MarshalWithDisclosure", func() { _, _ = vc.MarshalWithDisclosure(verifiable.DiscloseAll()) })
	g("MarshalWithDisclosure given", func() {
		_, _ = vc.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable([]string{"name", "id", ""}))
	})
	g("CreateDisplayCredential", func() {
		_, _ = vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
		_, _ = vc.CreateDisplayCredential(verifiable.DisplayGivenDisclosures([]string{"name", ""}))
	})
	g("CreateDisplayCredentialMap", func() { _, _ = vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()) })
	for _, v := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
		g("MakeSDJWT", func() {
			_, _ = vc.MakeSDJWT(sdSigner{k: k}, k.KID, verifiable.MakeSDJWTWithVersion(v), verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"o", "credentialSubject.o"}),
				verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"id", "o.p"}))
		})
	}
	g("ValidateCredential", func() { _ = vc.ValidateCredential(opts...) })
	g("CheckProof", func() { _ = vc.CheckProof(opts...) })
	g("WithModified", func() {
		_ = vc.WithModifiedID("urn:y")
		_ = vc.WithModifiedIssued(nil)
		_ = vc.WithModifiedExpired(nil)
		_ = vc.WithModifiedContext([]string{"x"})
		_ = vc.WithModifiedStatus()
		_ = vc.WithModifiedStatus(&verifiable.TypedID{ID: "x"})
		_ = vc.WithModifiedIssuer(&verifiable.Issuer{ID: "x"})
		_ = vc.WithModifiedSubject([]verifiable.Subject{{ID: "x"}})
		c := vc.WithModifiedRefreshService(nil)
		c.SetCustomField("y", 1)
		c.ResetProofs(nil)
		_, _ = json.Marshal(c)
	})
	g("GenerateBBSSelectiveDisclosure", func() {
		_, _ = vc.GenerateBBSSelectiveDisclosure(map[string]any{"@context": vc.Contents().Context, "type": vc.Contents().Types, "@explicit": true, "issuer": map[string]any{}}, []byte("n"), p30Get().creator(), opts...)
	})
	g("NewPresentation", func() {
		vp, err := verifiable.NewPresentation(verifiable.WithCredentials(vc, vc))
		if err == nil {
			p19Pres(func(w string, f func()) { g("NewPresentation "+w, f) }, vp, k)
		}
	})
	g("VerifyStatus", func() {
		c := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(string) (*verifiable.Credential, error) { return vc, nil })}
		_ = c.VerifyStatus(vc)
	})
	g("presexch", func() {
		pd := p19Def()
		_, _ = pd.MatchSubmissionRequirement([]*verifiable.Credential{vc, vc}, fx.Loader(), presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(opts...), presexch.WithSDBBSProofCreator(p30Get().creator()))
		vp, err := pd.CreateVP([]*verifiable.Credential{vc}, fx.Loader(), presexch.WithSDCredentialOptions(opts...), presexch.WithSDBBSProofCreator(p30Get().creator()))
		if err == nil {
			_, _ = pd.Match([]*verifiable.Presentation{vp}, fx.Loader(), presexch.WithCredentialOptions(opts...))
		}
	})
}

func p19Pres(g func(string, func()), vp *verifiable.Presentation, k *fx.Key) {
	g("Credentials", func() { _ = vp.Credentials() })
	g("MarshalJSON", func() { _, _ = json.Marshal(vp) })
	g("MarshalCBOR", func() { _, _ = vp.MarshalCBOR() })
	g("MarshalledCredentials", func() { _, _ = vp.MarshalledCredentials() })
	g("Clone", func() { _ = vp.Clone() })
	for _, min := range []bool{false, true} {
		g("JWTClaims", func() {
			c, err := vp.JWTClaims([]string{"a"}, min)
			if err == nil {
				_, _ = c.MarshalUnsecuredJWT()
			}
		})
		g("CreateJWTVP", func() { _, _ = vp.CreateJWTVP([]string{"a"}, verifiable.EdDSA, jwtAnySigner{k}, k.KID, min) })
		g("CWTClaims", func() { _, _ = vp.CWTClaims(nil, min) })
		g("CreateCWTVP", func() { _, _ = vp.CreateCWTVP([]string{"a"}, k.Cose, p10Signer{k}, k.KID, min) })
	}
	g("Match", func() {
		_, _ = p19Def().Match([]*verifiable.Presentation{vp, vp}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), presexch.WithMergedSubmissionMap(p19Submission()))
		_, _ = p19Def().Match([]*verifiable.Presentation{vp}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
	})
}

func p19DefJSON() map[string]any {
	return map[string]any{"id": "pd", "name": "n", "purpose": "p",
		"frame": nil,
		"submission_requirements": []any{
			map[string]any{"rule": "pick", "count": 1.0, "from": "A"},
			map[string]any{"rule": "all", "from_nested": []any{map[string]any{"rule": "pick", "min": 1.0, "max": 2.0, "from": "A"}, map[string]any{"rule": "all", "from": "B"}}}},
		"input_descriptors": []any{
			map[string]any{"id": "d1", "group": []any{"A"}, "constraints": map[string]any{"limit_disclosure": "required", "subject_is_issuer": "preferred", "is_holder": []any{map[string]any{"field_id": []any{"f"}, "directive": "preferred"}},
				"fields": []any{map[string]any{"id": "f", "path": []any{"$.credentialSubject.name", "$.vc.credentialSubject.name"}, "filter": map[string]any{"type": "string", "minLength": 1.0}}}}},
			map[string]any{"id": "d2", "group": []any{"A", "B"}, "constraints": map[string]any{
				"fields": []any{map[string]any{"path": []any{"$.credentialSubject.age"}, "predicate": "required", "filter": map[string]any{"type": "integer", "minimum": 1.0, "enum": []any{7.0}, "$id": "urn:f", "anyOf": []any{map[string]any{"$ref": "#/definitions/x"}}, "definitions": map[string]any{"x": map[string]any{"not": map[string]any{"const": 8.0}}}}}}}},
		}}
}

var p19PD *presexch.PresentationDefinition

var p19PDOnce sync.Once

// p19Def is a definition without groups.
func p19Def() *presexch.PresentationDefinition {
	p19PDOnce.Do(func() {
		d := p19DefJSON()
		delete(d, "submission_requirements")
		delete(d, "frame")
		for _, x := range d["input_descriptors"].([]any) {
			delete(x.(map[string]any), "group")
			c := x.(map[string]any)["constraints"].(map[string]any)
			delete(c, "subject_is_issuer")
			delete(c, "is_holder")
		}
		p19PD = &presexch.PresentationDefinition{}
		if err := json.Unmarshal([]byte(h.JSON(d)), p19PD); err != nil {
			panic(err)
		}
	})
	c := *p19PD
	return &c
}

func p19Submission() map[string]any {
	return map[string]any{"id": "s", "definition_id": "pd", "descriptor_map": []any{
		map[string]any{"id": "d1", "format": "ldp_vp", "path": "$[0]", "path_nested": map[string]any{"id": "d1", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}},
		map[string]any{"id": "d2", "format": "ldp_vc", "path": "$[1].verifiableCredential[0]"}}}
}

// p19Doc has all members of a credential.
func p19Doc(dm int) map[string]any {
	m := map[string]any{"id": "urn:vc:1", "type": []any{"VerifiableCredential", "XCred"},
		"issuer":            map[string]any{"id": wIss, "name": "I"},
		"credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0, "tags": []any{"a", "b"}, "o": map[string]any{"p": "deep"}},
		"credentialStatus":  statusEntry("StatusList2021Entry", "revocation", "1"),
		"credentialSchema":  []any{map[string]any{"id": "https://s.example/1", "type": "JsonSchemaValidator2018"}},
		"termsOfUse":        []any{map[string]any{"id": "urn:t", "type": "T", "x": 1.0}},
		"evidence":          []any{map[string]any{"id": "urn:e", "type": []any{"E"}}},
		"refreshService":    map[string]any{"id": "urn:r", "type": "R"},
		"note":              "n",
	}
	if dm == 1 {
		m["@context"] = []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX}
		m["issuanceDate"], m["expirationDate"] = "2020-01-01T00:00:00Z", "2040-01-01T00:00:00Z"
	} else {
		m["@context"] = []any{"https://www.w3.org/ns/credentials/v2", fx.CtxX, map[string]any{"zz": "urn:zz"}}
		m["validFrom"], m["validUntil"] = "2020-01-01T00:00:00Z", "2040-01-01T00:00:00Z"
		m["name"], m["description"] = "N", map[string]any{"en": "D"}
		m["relatedResource"] = []any{map[string]any{"id": "https://r.example/x", "mediaType": "text/plain", "digestSRI": "sha256-x", "digestMultibase": "uEiA"}}
		m["credentialStatus"] = []any{statusEntry("BitstringStatusListEntry", "revocation", "1")}
		m["credentialSchema"] = map[string]any{"id": "https://s.example/1", "type": "JsonSchema"}
	}
	return m
}

func genP19(e *h.Env) {
	p19Setup()
	k := fx.NewKey("ed25519", wIss, "k1")
	strs := append([]string{}, p19Common...)
	w := newWorld(credForms[0])
	noProof := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
	optSets := [][]verifiable.CredentialOpt{
		noProof,
		{verifiable.WithDisabledProofCheck(), verifiable.WithNoCustomSchemaCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithStrictValidation(), verifiable.WithEnabledJSONLDTypesCheck()},
		{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(p19SchemaLoader(`{"type":"object"}`)), verifiable.WithBaseContextExtendedValidation("https://www.w3.org/2018/credentials/v1", []string{fx.CtxX}, []string{"XCred"})},
		w.opts(),
	}
	for dm := 1; dm <= 2; dm++ {
		p19Walk(e, fmt.Sprintf("credential %d", dm), p19Doc(dm), append(strs, p19Enc...), func(t *h.T, g func(string, func()), v any) {
			b := []byte(h.JSON(v))
			parsed := false
			for i, o := range optSets {
				if i == 1 && !parsed && !e.Thorough() {
					continue
				}
				var vc *verifiable.Credential
				g(fmt.Sprintf("ParseCredential %d", i), func() { vc, _ = verifiable.ParseCredential(b, o...) })
				parsed = parsed || vc != nil
				if vc != nil && i == 0 {
					p19Cred(g, vc, k, o)
				}
			}
			if m, ok := v.(map[string]any); ok {
				g("ParseCredentialJSON", func() { _, _ = verifiable.ParseCredentialJSON(copyObj(m), noProof...) })
				g("ParseCredentialJSON checked", func() { _, _ = verifiable.ParseCredentialJSON(copyObj(m), optSets[3]...) })
			}
		})
		inner := p19Doc(dm)
		for _, n := range []string{"termsOfUse", "evidence", "refreshService", "credentialSchema", "credentialStatus"} {
			delete(inner, n)
		}
		vp := map[string]any{"@context": inner["@context"], "id": "urn:vp", "type": []any{"VerifiablePresentation", "XPres"}, "holder": wIss, "more": map[string]any{"x": "y"},
			"verifiableCredential":    []any{inner, unsecured(map[string]any{"vc": inner, "iss": wIss})},
			"presentation_submission": map[string]any{"id": "s", "definition_id": "pd", "descriptor_map": []any{map[string]any{"id": "d1", "format": "ldp_vp", "path": "$", "path_nested": map[string]any{"id": "d1", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}}}}}
		p19Walk(e, fmt.Sprintf("presentation %d", dm), vp, append(strs, p19Path...), func(t *h.T, g func(string, func()), v any) {
			b := []byte(h.JSON(v))
			for i, o := range [][]verifiable.PresentationOpt{
				{verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())},
				append(w.presOpts(), verifiable.WithPresHolderCheck(true), verifiable.WithPresStrictValidation(), verifiable.WithPresRelatedResourceCheck(true)),
			} {
				var vp *verifiable.Presentation
				g(fmt.Sprintf("ParsePresentation %d", i), func() { vp, _ = verifiable.ParsePresentation(b, o...) })
				if vp != nil && i == 0 {
					p19Pres(g, vp, k)
				}
			}
		})
	}
	p19Tiny(e)
	p19PairForms(e)
	p19Secured(e, strs)
	p19Tokens(e, strs)
	p19SD(e, strs)
	p19CBOR(e, strs)
	p19Exchange(e, strs)
	p19Others(e, strs)
}

// p19PairForms changes every two nodes of small credentials in every form without a check of signatures.
func p19PairForms(e *h.Env) {
	k := fx.NewKey("ed25519", wIss, "k1")
	hdr := map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT"}
	noProof := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
	vc := map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": []any{"VerifiableCredential"}, "issuer": map[string]any{"id": wIss},
		"credentialSubject": []any{map[string]any{"id": "did:ex:s", "name": "Ann"}}, "issuanceDate": "2020-01-01T00:00:00Z"}
	sub := func(d map[string]any, more map[string]any) map[string]any {
		c := deepCopy(d).(map[string]any)
		for n, v := range more {
			c[n] = v
		}
		return c
	}
	parse := func(g func(string, func()), s string) {
		var c *verifiable.Credential
		g("ParseCredential", func() { c, _ = verifiable.ParseCredential([]byte(s), noProof...) })
		if c != nil {
			p19Cred(g, c, k, noProof)
		}
	}
	jws := func(v any) string { return rawJWS(hdr, []byte(h.JSON(v)), k) }
	disc := b64u.EncodeToString([]byte(h.JSON([]any{"salt1", "name", "Ann"})))
	dig := sdDigest(crypto.SHA256, disc)
	vc2 := sub(vc, map[string]any{"@context": []any{"https://www.w3.org/ns/credentials/v2"}, "validFrom": "2020-01-01T00:00:00Z"})
	delete(vc2, "issuanceDate")
	sdVC := sub(vc, map[string]any{"credentialSubject": map[string]any{"id": "did:ex:s", "_sd": []any{dig}}})
	for _, f := range []struct {
		name string
		seed any
		ser  func(any) string
	}{
		{"json 1", vc, h.JSON},
		{"json 2", vc2, h.JSON},
		{"jwt", map[string]any{"iss": wIss, "sub": "did:ex:s", "vc": sub(vc, nil)}, jws},
		{"unsecured", map[string]any{"iss": wIss, "nbf": 1.0, "vc": sub(vc, nil)}, unsecured},
		{"sd-jwt", map[string]any{"iss": wIss, "_sd_alg": "sha-256", "vc": sdVC}, func(v any) string { return jws(v) + "~" + disc + "~" }},
		{"sd-jwt algorithm in vc", map[string]any{"iss": wIss, "vc": sub(sdVC, map[string]any{"_sd_alg": "sha-256"})}, func(v any) string { return jws(v) + "~" + disc + "~" }},
		{"sd-jwt nothing hidden", map[string]any{"iss": wIss, "_sd_alg": "sha-256", "vc": vc}, func(v any) string { return jws(v) + "~" }},
		{"sd-jwt without disclosures", map[string]any{"iss": wIss, "_sd_alg": "sha-256", "vc": sdVC}, func(v any) string { return jws(v) + "~" }},
	} {
		p19Pairs(e, f.name, f.seed, func(t *h.T, g func(string, func()), v any) {
			parse(g, f.ser(v))
			if m, ok := v.(map[string]any); ok && strings.HasPrefix(f.name, "json") {
				g("CreateCredential", func() {
					c, err := verifiable.ParseCredentialJSON(copyObj(m), noProof...)
					if err == nil {
						_, _ = verifiable.CreateCredential(c.Contents(), verifiable.CustomFields{"x": 1})
						_, _ = verifiable.CreateCredentialWithProofs(c.Contents(), verifiable.CustomFields{"x": 1}, c.Proofs())
					}
				})
			}
		})
	}
}

// p19Secured changes proofs of credentials and presentations.
func p19Secured(e *h.Env, strs []string) {
	strs = append(strs, p19Enc...)
	for _, f := range credForms {
		if f.family != "ld" && f.family != "di" {
			continue
		}
		w := newWorld(f)
		for _, pres := range []bool{false, true} {
			var doc map[string]any
			name := f.name + " credential"
			if pres {
				name = f.name + " presentation"
			}
			var once sync.Once
			secured := func(t *h.T) map[string]any {
				once.Do(func() {
					if pres {
						doc = parseObj(f.secureVP(t, w.k1, f.vpDoc(1, wIss, nil)))
					} else {
						doc = parseObj(f.secure(t, w.k1, f.vcDoc(1, wIss)))
					}
				})
				return doc
			}
			seed := map[string]any{}
			if p := h.Guard(func() { seed = copyObj(secured(nil)) }); p != "" {
				panic(p)
			}
			small := map[string]any{"proof": seed["proof"], "issuer": seed["issuer"], "type": seed["type"], "@context": seed["@context"], "id": seed["id"]}
			if pres {
				small["holder"] = seed["holder"]
				delete(small, "issuer")
			}
			p19Walk(e, name, small, strs, func(t *h.T, g func(string, func()), v any) {
				m, ok := v.(map[string]any)
				if !ok {
					return
				}
				x := copyObj(seed)
				for n := range small {
					delete(x, n)
				}
				for n, y := range m {
					x[n] = y
				}
				b := []byte(h.JSON(x))
				if pres {
					g("ParsePresentation", func() { _, _ = verifiable.ParsePresentation(b, w.presOpts()...) })
					return
				}
				g("ParseCredential", func() { _, _ = verifiable.ParseCredential(b, w.opts()...) })
			})
		}
	}
}

// p19Tokens changes claims and headers of signed tokens.
func p19Tokens(e *h.Env, strs []string) {
	w := newWorld(credForms[0])
	k := w.k1
	doc := credForms[0].vcDoc(1, wIss)
	small := map[string]any{"@context": doc["@context"], "type": doc["type"], "credentialSubject": map[string]any{"id": "did:ex:s", "name": "Ann"}}
	hdr := map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT", "cty": "vc", "crit": []any{"x"}, "b64": true, "jwk": map[string]any{"kty": "OKP"}}
	delete(hdr, "crit")
	delete(hdr, "b64")
	claims := map[string]any{"iss": wIss, "sub": "did:ex:s", "jti": "urn:1", "nbf": 1577836800.0, "iat": 1577836800.0, "exp": 2208988800.0, "aud": []any{"a"}, "cnf": map[string]any{"jwk": map[string]any{"kty": "OKP", "crv": "Ed25519", "x": "AA"}}, "_sd_alg": "sha-256"}
	creds := func(g func(string, func()), tok string) {
		b := []byte(tok)
		for i, o := range [][]verifiable.CredentialOpt{w.opts(), {verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}, {verifiable.WithJWTProofChecker(fx.CheckerR(w.resolver())), verifiable.WithNoCustomSchemaCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}} {
			var vc *verifiable.Credential
			g(fmt.Sprintf("ParseCredential %d", i), func() { vc, _ = verifiable.ParseCredential(b, o...) })
			if vc != nil && i == 1 {
				p19Cred(g, vc, k, o)
			}
		}
	}
	press := func(g func(string, func()), tok string) {
		for i, o := range [][]verifiable.PresentationOpt{append(w.presOpts(), verifiable.WithPresHolderCheck(true)), {verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}} {
			var vp *verifiable.Presentation
			g(fmt.Sprintf("ParsePresentation %d", i), func() { vp, _ = verifiable.ParsePresentation([]byte(tok), o...) })
			if vp != nil && i == 1 {
				p19Pres(g, vp, k)
			}
		}
	}
	toks := func(g func(string, func()), tok string) {
		g("jwt.Parse", func() { _, _, _ = jwt.Parse(tok) })
		g("jwt.Parse detached", func() { _, _, _ = jwt.Parse(tok, jwt.WithJWTDetachedPayload([]byte("{}"))) })
		g("ParseAndCheckProof", func() {
			_, _, _ = jwt.ParseAndCheckProof(tok, fx.CheckerR(w.resolver()), true)
			_, _, _ = jwt.ParseAndCheckProof(tok, fx.CheckerR(w.resolver()), false)
		})
		g("IsJWS", func() { _ = jwt.IsJWS(tok); _ = jwt.IsJWTUnsecured(tok) })
	}
	vcClaims := copyObj(claims)
	vcClaims["vc"] = small
	vpClaims := copyObj(claims)
	inner := unsecured(map[string]any{"iss": wIss, "vc": small})
	vpClaims["vp"] = map[string]any{"@context": doc["@context"], "type": []any{"VerifiablePresentation"}, "id": "urn:vp", "holder": wIss, "verifiableCredential": []any{inner}}
	p19Walk(e, "jwt vc claims", vcClaims, strs, func(t *h.T, g func(string, func()), v any) {
		p := []byte(h.JSON(v))
		tok := rawJWS(hdr, p, k)
		toks(g, tok)
		creds(g, tok)
		creds(func(n string, f func()) { g("unsecured "+n, f) }, unsecured(v))
		creds(func(n string, f func()) { g("sd-jwt "+n, f) }, tok+"~WyJzIiwibiIsMV0~")
	})
	p19Walk(e, "jwt vp claims", vpClaims, strs, func(t *h.T, g func(string, func()), v any) {
		tok := rawJWS(hdr, []byte(h.JSON(v)), k)
		press(g, tok)
		press(func(n string, f func()) { g("unsecured "+n, f) }, unsecured(v))
	})
	// claims that are no vc: the whole payload is the credential (VC-JOSE)
	joseDoc := credForms[0].vcDoc(2, wIss)
	p19Walk(e, "jose claims", joseDoc, strs[:8], func(t *h.T, g func(string, func()), v any) {
		creds(g, rawJWS(hdr, []byte(h.JSON(v)), k))
	})
	env := map[string]any{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + rawJWS(hdr, []byte(h.JSON(joseDoc)), k)}
	p19Walk(e, "enveloped", env, append(strs, p19Enc...), func(t *h.T, g func(string, func()), v any) { creds(g, h.JSON(v)) })
	envP := map[string]any{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiablePresentation", "id": "data:application/vp-ld+jwt," + rawJWS(hdr, []byte(h.JSON(vpClaims)), k)}
	p19Walk(e, "enveloped presentation", envP, append(strs, p19Enc...), func(t *h.T, g func(string, func()), v any) { press(g, h.JSON(v)) })
	p19Walk(e, "jwt header", hdr, append(strs, "none", "ES256", "RS256", "vc+sd-jwt", "kb+jwt"), func(t *h.T, g func(string, func()), v any) {
		for _, pl := range []map[string]any{vcClaims, vpClaims} {
			tok := rawJWS(v, []byte(h.JSON(pl)), k)
			toks(g, tok)
			creds(g, tok)
			press(g, tok)
		}
	})
	tok := rawJWS(hdr, []byte(h.JSON(map[string]any{"iss": wIss, "vc": small})), k)
	p19Bytes(e, "jwt vc", []byte(tok), e.Pick(4, 1), func(t *h.T, g func(string, func()), b []byte) {
		toks(g, string(b))
		g("ParseCredential", func() { _, _ = verifiable.ParseCredential(b, w.opts()...) })
		g("ParsePresentation", func() { _, _ = verifiable.ParsePresentation(b, w.presOpts()...) })
	})
}

// p19SD changes payloads and disclosures of SD-JWTs; digests are recomputed.
func p19SD(e *h.Env, strs []string) {
	k := fx.NewKey("ed25519", wIss, "k1")
	hk := fx.NewKey("ed25519", "did:verif:holder", "k1")
	pc := fx.Checker(k, hk)
	b64 := func(v any) string { return b64u.EncodeToString([]byte(h.JSON(v))) }
	parse := func(g func(string, func()), c string) {
		for _, v5 := range []bool{false, true} {
			g("holder.Parse", func() {
				_, _ = holder.Parse(c, holder.WithSignatureVerifier(pc), holder.WithSDJWTV5Validation(v5))
			})
		}
		g("holder.CreatePresentation", func() { _, _ = holder.CreatePresentation(c, []string{"x", ""}) })
		g("verifier.Parse", func() { _, _ = sdverifier.Parse(c, sdverifier.WithSignatureVerifier(pc)) })
		g("verifier.Parse bound", func() {
			_, _ = sdverifier.Parse(c, sdverifier.WithSignatureVerifier(pc), sdverifier.WithHolderVerificationRequired(true), sdverifier.WithExpectedTypHeader("x"))
		})
		g("common", func() {
			f := common.ParseCombinedFormatForIssuance(c)
			_ = f.Serialize()
			p := common.ParseCombinedFormatForPresentation(c)
			_ = p.Serialize()
			_, _ = common.GetDisclosureClaims(f.Disclosures, crypto.SHA256)
		})
		var vc *verifiable.Credential
		o := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
		g("ParseCredential", func() { vc, _ = verifiable.ParseCredential([]byte(c), o...) })
		if vc != nil {
			p19Cred(g, vc, k, o)
		}
	}
	build := func(ds []any, mod func(map[string]any) any) string {
		var strs []string
		var digs []any
		for _, d := range ds {
			s := b64(d)
			strs = append(strs, s)
			digs = append(digs, sdDigest(crypto.SHA256, s))
		}
		pl := map[string]any{"iss": wIss, "_sd_alg": "sha-256", "_sd": digs, "list": []any{map[string]any{"...": digs[len(digs)-1]}},
			"vc": map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": []any{"VerifiableCredential"}, "issuer": wIss, "credentialSubject": map[string]any{"id": "did:ex:s", "_sd": digs, "tags": []any{map[string]any{"...": digs[len(digs)-1]}}}}}
		return rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT"}, []byte(h.JSON(mod(pl))), k) + "~" + strings.Join(strs, "~") + "~"
	}
	same := func(m map[string]any) any { return m }
	ds := []any{[]any{"salt1", "name", "Ann"}, []any{"salt2", "o", map[string]any{"_sd": []any{"x"}, "p": []any{map[string]any{"...": "y"}}}}, []any{"salt3", "elem"}}
	p19Walk(e, "disclosures", ds, append(strs, "_sd", "vc", "credentialSubject", "__proto__"), func(t *h.T, g func(string, func()), v any) {
		l, ok := v.([]any)
		if !ok || len(l) == 0 {
			return
		}
		parse(g, build(l, same))
	})
	var digs []any
	for _, d := range ds {
		digs = append(digs, sdDigest(crypto.SHA256, b64(d)))
	}
	pl := map[string]any{"iss": wIss, "_sd_alg": "sha-256", "_sd": []any{digs[0]}, "list": []any{map[string]any{"...": digs[2]}}, "cnf": map[string]any{"jwk": parseAny([]byte(h.JSON(hk.JWK)))}, "exp": 2208988800.0, "nbf": 1.0, "iat": 1.0,
		"vc": map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": []any{"VerifiableCredential"}, "issuer": wIss, "credentialSubject": map[string]any{"id": "did:ex:s", "_sd": []any{digs[1]}}}}
	kb := rawJWS(map[string]any{"alg": hk.JWTAlg, "typ": "kb+jwt"}, []byte(h.JSON(map[string]any{"nonce": "n", "aud": "a", "iat": 1577836800.0})), hk)
	p19Walk(e, "sd-jwt payload", pl, append(strs, "sha-384", "sha-1", "SHA-256"), func(t *h.T, g func(string, func()), v any) {
		parse(g, build(ds, func(map[string]any) any { return v }))
		g("verifier.Parse kb", func() {
			_, _ = sdverifier.Parse(build(ds, func(map[string]any) any { return v })+kb, sdverifier.WithSignatureVerifier(pc), sdverifier.WithHolderVerificationRequired(true),
				sdverifier.WithExpectedAudienceForHolderVerification("a"), sdverifier.WithExpectedNonceForHolderVerification("n"))
		})
	})
	for _, part := range []string{"header", "payload"} {
		seed := map[string]any{"alg": hk.JWTAlg, "typ": "kb+jwt"}
		if part == "payload" {
			seed = map[string]any{"nonce": "n", "aud": "a", "iat": 1577836800.0, "exp": 2208988800.0, "sd_hash": "x"}
		}
		p19Walk(e, "key binding "+part, seed, strs, func(t *h.T, g func(string, func()), v any) {
			var hd, p any = map[string]any{"alg": hk.JWTAlg, "typ": "kb+jwt"}, v
			if part == "header" {
				hd, p = v, map[string]any{"nonce": "n", "aud": "a", "iat": 1577836800.0}
			}
			tok := rawJWS(hd, []byte(h.JSON(p)), hk)
			for _, alg := range []string{"sha-256", ""} {
				g("verifier.Parse "+alg, func() {
					_, _ = sdverifier.Parse(build(ds, func(map[string]any) any { return pl })+tok, sdverifier.WithSignatureVerifier(pc), sdverifier.WithHolderVerificationRequired(true),
						sdverifier.WithExpectedAudienceForHolderVerification("a"), sdverifier.WithExpectedNonceForHolderVerification("n"))
				})
			}
			g("verifier.Parse optional", func() {
				_, _ = sdverifier.Parse(build(ds, func(map[string]any) any { return pl })+tok, sdverifier.WithSignatureVerifier(pc))
			})
		})
	}
	claims := map[string]any{"name": "Ann", "o": map[string]any{"p": []any{"a", map[string]any{"q": 1.0}}}, "tags": []any{"a", []any{"b"}}}
	p19Walk(e, "claims to issue", claims, strs, func(t *h.T, g func(string, func()), v any) {
		for _, ver := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
			for i, o := range [][]issuer.NewOpt{nil, {issuer.WithStructuredClaims(true), issuer.WithDecoyDigests(true)}, {issuer.WithRecursiveClaimsObjects([]string{"o", "tags"}), issuer.WithAlwaysIncludeObjects([]string{"o.p", "name"}), issuer.WithNonSelectivelyDisclosableClaims([]string{"o.p[1].q", "tags[0]", ""})}} {
				g(fmt.Sprint("issuer.New ", ver, i), func() {
					s, err := issuer.New(wIss, v, nil, sdSigner{k: k}, append(o, issuer.WithSDJWTVersion(ver))...)
					if err == nil {
						_, _ = s.Serialize(false)
						_ = s.DecodeClaims(&map[string]any{})
					}
				})
				if m, ok := v.(map[string]any); ok {
					g(fmt.Sprint("issuer.NewFromVC ", ver, i), func() {
						_, _ = issuer.NewFromVC(map[string]any{"credentialSubject": copyObj(m)}, nil, sdSigner{k: k}, append(o, issuer.WithSDJWTVersion(ver))...)
						_, _ = issuer.NewFromVC(map[string]any{"vc": map[string]any{"credentialSubject": copyObj(m)}}, nil, sdSigner{k: k}, append(o, issuer.WithSDJWTVersion(ver))...)
						_, _ = issuer.NewFromVC(copyObj(m), nil, sdSigner{k: k}, append(o, issuer.WithSDJWTVersion(ver))...)
					})
				}
			}
		}
	})
	p19Bytes(e, "sd-jwt", []byte(build(ds, same)+kb), e.Pick(8, 1), func(t *h.T, g func(string, func()), b []byte) {
		g("holder.Parse", func() { _, _ = holder.Parse(string(b), holder.WithSignatureVerifier(pc)) })
		g("verifier.Parse", func() { _, _ = sdverifier.Parse(string(b), sdverifier.WithSignatureVerifier(pc)) })
		g("ParseCredential", func() {
			_, _ = verifiable.ParseCredential(b, verifiable.WithProofChecker(pc), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
		})
	})
}

// p19CBOR changes claims and headers of CWTs.
func p19CBOR(e *h.Env, strs []string) {
	var f credForm
	for _, x := range credForms {
		if x.name == "cwt" {
			f = x
		}
	}
	w := newWorld(f)
	k := w.k1
	extra := []p19Repl{
		{"bytes", p19Const([]byte{1, 2})}, {"no bytes", p19Const([]byte{})}, {"NaN", p19Const(math.NaN())}, {"inf", p19Const(math.Inf(1))}, {"-2^63", p19Const(int64(math.MinInt64))}, {"2^64-1", p19Const(uint64(math.MaxUint64))},
		{"int keys", p19Const(map[any]any{1: "x", 2: nil})}, {"mixed keys", p19Const(map[any]any{1: "x", "1": nil, true: 1})},
		{"tag 0", p19Const(cbor.Tag{Number: 0, Content: "2020-01-01T00:00:00Z"})}, {"tag 0 junk", p19Const(cbor.Tag{Number: 0, Content: 5})}, {"tag 1", p19Const(cbor.Tag{Number: 1, Content: 5})}, {"tag 1 x", p19Const(cbor.Tag{Number: 1, Content: "x"})}, {"tag 2", p19Const(cbor.Tag{Number: 2, Content: []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}})}, {"tag 24", p19Const(cbor.Tag{Number: 24, Content: []byte{0xa0}})}, {"tag 99", p19Const(cbor.Tag{Number: 99, Content: map[string]any{}})},
		{"undefined", p19Const(cbor.RawMessage{0xf7})}, {"simple", p19Const(cbor.RawMessage{0xf8, 0x63})},
	}
	doc := f.vcDoc(1, wIss)
	enc := func(v any) (b []byte) {
		defer func() { _ = recover() }() // values CBOR can't encode
		return cb(v)
	}
	creds := func(g func(string, func()), b []byte) {
		g("cwt.Parse", func() { _, _ = cwt.Parse(b) })
		g("cwt.ParseAndCheckProof", func() { _, _, _ = cwt.ParseAndCheckProof(b, fx.CheckerR(w.resolver()), true) })
		for i, o := range [][]verifiable.CredentialOpt{w.opts(), {verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader())}} {
			for _, in := range [][]byte{b, []byte(hex.EncodeToString(b))} {
				var vc *verifiable.Credential
				g(fmt.Sprintf("ParseCredential %d", i), func() { vc, _ = verifiable.ParseCredential(in, o...) })
				if vc != nil && i == 1 {
					p19Cred(g, vc, k, o)
				}
			}
		}
		for _, o := range [][]verifiable.PresentationOpt{w.presOpts(), {verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}} {
			var vp *verifiable.Presentation
			g("ParsePresentation", func() { vp, _ = verifiable.ParsePresentation([]byte(hex.EncodeToString(b)), o...) })
			if vp != nil {
				p19Pres(g, vp, k)
			}
		}
	}
	walk := func(name string, seed any, sink func(g func(string, func()), v any)) {
		p19Walk(e, name, seed, strs[:6], func(t *h.T, g func(string, func()), v any) { sink(g, v) })
		p19Paths(seed, func(path string, old any, with func(any) any) {
			e.Casef(func(t *h.T) {
				for _, r := range extra {
					t.Step("%s", r.name)
					sink(func(what string, f func()) {
						if p := h.Guard(f); p != "" {
							t.FailSub(r.name+" "+what, "%s", p)
						}
					}, with(r.f(old)))
				}
				t.Outcome("survived")
			}, "%s cbor %s", name, path)
		})
	}
	prot := map[any]any{1: int64(k.Cose), 4: []byte(k.KID)}
	pl := map[any]any{"iss": wIss, "jti": "urn:1", "nbf": 1577836800, "exp": 2208988800, "iat": 1577836800, "vc": doc, 1: wIss, 2: "did:ex:s", 3: "aud", 4: 2208988800, 5: 1577836800, 6: 1577836800, 7: []byte("x")}
	walk("cwt claims", pl, func(g func(string, func()), v any) {
		b := enc(v)
		if b == nil {
			return
		}
		creds(g, mkCose(prot, nil, b, k).bytes())
	})
	vp := map[any]any{"iss": wIss, "vp": map[string]any{"@context": doc["@context"], "type": []any{"VerifiablePresentation"}, "holder": wIss, "verifiableCredential": []any{doc, []byte{1}, "x"}}}
	walk("cwt vp claims", vp, func(g func(string, func()), v any) {
		b := enc(v)
		if b == nil {
			return
		}
		creds(g, mkCose(prot, nil, b, k).bytes())
	})
	walk("cwt headers", map[any]any{"p": map[any]any{1: int64(k.Cose), 4: []byte(k.KID), 3: "application/x", 16: "x", "COSE_Key": []byte{0xa0}}, "u": map[any]any{4: []byte(k.KID), "x": 1}}, func(g func(string, func()), v any) {
		m, ok := v.(map[any]any)
		if !ok {
			return
		}
		p, u := enc(m["p"]), enc(m["u"])
		if p == nil || u == nil {
			return
		}
		body := cb(map[string]any{"iss": wIss, "vc": doc})
		msg := cb(cbor.Tag{Number: 18, Content: []any{p, cbor.RawMessage(u), body, signWith(k, coseTBS(p, body))}})
		creds(g, msg)
	})
	walk("cose message", []any{cb(prot), map[any]any{}, cb(map[string]any{"iss": wIss, "vc": doc}), []byte("sig")}, func(g func(string, func()), v any) {
		for _, tag := range []uint64{0, 18, 61, 98} {
			b := enc(cbor.Tag{Number: tag, Content: v})
			if b != nil {
				creds(g, b)
			}
		}
		if b := enc(v); b != nil {
			creds(g, b)
		}
	})
	p19Bytes(e, "cwt", mkCose(prot, nil, cb(map[string]any{"iss": wIss, "vc": doc}), k).bytes(), e.Pick(8, 1), func(t *h.T, g func(string, func()), b []byte) {
		g("cwt.ParseAndCheckProof", func() { _, _, _ = cwt.ParseAndCheckProof(b, fx.CheckerR(w.resolver()), true) })
		g("ParseCredential", func() { _, _ = verifiable.ParseCredential([]byte(hex.EncodeToString(b)), w.opts()...) })
		g("ParsePresentation", func() { _, _ = verifiable.ParsePresentation([]byte(hex.EncodeToString(b)), w.presOpts()...) })
	})
}

// p19Exchange changes presentation definitions and submissions.
func p19Exchange(e *h.Env, strs []string) {
	keys := newPxKeys()
	type set struct {
		creds []*verifiable.Credential
		vps   []*verifiable.Presentation
	}
	var once sync.Once
	var s set
	get := func() *set {
		once.Do(func() {
			subj := map[string]any{"id": "did:ex:s", "name": "Ann", "age": 7.0, "tags": []any{"a", "b"}}
			for i, f := range []string{"json", "sdjwt5", "jwt", "sdjwt2", "ld"}[:e.Pick(2, 5)] {
				s.creds = append(s.creds, keys.cred(nil, f, pxDoc(fmt.Sprint("c", i), subj, nil)))
			}
			bbs := p30Docs()[0].doc
			w := p30Get()
			s.creds = append(s.creds, p30Parse(nil, w.sign(nil, w.k, bbs)))
			vp, err := p19Def().CreateVP(s.creds, fx.Loader(), presexch.WithSDCredentialOptions(pxOpts()...), presexch.WithSDBBSProofCreator(w.creator()))
			if err != nil {
				panic(err)
			}
			s.vps = []*verifiable.Presentation{vp, vp}
		})
		return &s
	}
	v1 := p19DefJSON()
	delete(v1, "frame")
	v2 := p19DefJSON()
	delete(v2, "submission_requirements")
	for _, d := range v2["input_descriptors"].([]any) {
		delete(d.(map[string]any), "group")
	}
	fld := v2["input_descriptors"].([]any)[1].(map[string]any)["constraints"].(map[string]any)["fields"].([]any)[0].(map[string]any)
	delete(fld, "predicate")
	fld["optional"], fld["intent_to_retain"], fld["name"], fld["purpose"] = true, true, "n", "p"
	v2["format"] = map[string]any{"ldp_vc": map[string]any{"proof_type": []any{"Ed25519Signature2018"}}, "jwt_vc": map[string]any{"alg": []any{"EdDSA"}}, "ldp": map[string]any{"proof_type": []any{"X"}}}
	v2["frame"] = map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "type": "VerifiableCredential", "@explicit": true, "credentialSubject": map[string]any{}}
	v3 := p19DefJSON()
	delete(v3, "frame")
	v3["input_descriptors"].([]any)[0].(map[string]any)["schema"] = []any{map[string]any{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential", "required": true}}
	v3["input_descriptors"].([]any)[1].(map[string]any)["schema"] = []any{map[string]any{"uri": "x"}}
	v3["input_descriptors"].([]any)[1].(map[string]any)["format"] = map[string]any{"jwt_vc": map[string]any{"alg": []any{"EdDSA"}}}
	v3["input_descriptors"].([]any)[0].(map[string]any)["constraints"].(map[string]any)["statuses"] = map[string]any{"active": map[string]any{"directive": "required"}}
	for i, d := range []map[string]any{v1, v2, v3} {
		p19Walk(e, fmt.Sprint("definition ", i+1), d, append(append(append([]string{}, "required", "preferred", "all", "pick", "A", "date-time", "integer"), p19Path...), strs[:4]...), func(t *h.T, g func(string, func()), v any) {
			var pd *presexch.PresentationDefinition
			g("Unmarshal", func() {
				p := &presexch.PresentationDefinition{}
				if json.Unmarshal([]byte(h.JSON(v)), p) == nil {
					pd = p
				}
			})
			if pd == nil {
				t.Outcome("refused")
				return
			}
			s := get()
			creds := s.creds
			if i != 1 && !e.Thorough() { // the BBS+ credential costs the most
				creds = creds[:len(creds)-1]
			}
			o := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(pxOpts()...), presexch.WithSDBBSProofCreator(p30Get().creator())}
			valid := false
			g("ValidateSchema", func() { valid = pd.ValidateSchema() == nil })
			g("Match", func() {
				_, _ = pd.Match(s.vps, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), presexch.WithMergedSubmissionMap(p19Submission()))
			})
			g("Match one", func() {
				_, _ = pd.Match(s.vps[:1], fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), presexch.WithDisableSchemaValidation())
			})
			g("MatchSubmissionRequirement", func() { _, _ = pd.MatchSubmissionRequirement(creds, fx.Loader(), o...) })
			g("CreateVP", func() { _, _ = pd.CreateVP(creds, fx.Loader(), o...) })
			if !valid && !e.Thorough() {
				return
			}
			g("MatchSubmissionRequirement apply", func() {
				_, _ = pd.MatchSubmissionRequirement(creds, fx.Loader(), append(o, presexch.WithSelectiveDisclosureApply())...)
			})
			g("CreateVPArray", func() { _, _, _ = pd.CreateVPArray(creds, fx.Loader(), o...) })
		})
	}
	p19Walk(e, "submission", p19Submission(), append(append([]string{"ldp_vp", "jwt_vp", "jwt_vc", "ldp_vc", "sd_jwt", "cwt_vc", "d1", "d2"}, p19Path...), strs...), func(t *h.T, g func(string, func()), v any) {
		s := get()
		m, _ := v.(map[string]any)
		g("Match merged map", func() {
			_, _ = p19Def().Match(s.vps, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), presexch.WithMergedSubmissionMap(m))
		})
		var ps *presexch.PresentationSubmission
		_ = json.Unmarshal([]byte(h.JSON(v)), &ps)
		g("Match merged", func() {
			_, _ = p19Def().Match(s.vps, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...), presexch.WithMergedSubmission(ps))
		})
		g("Match own", func() {
			vp := s.vps[0].Clone()
			cf := verifiable.CustomFields{}
			for n, x := range vp.CustomFields {
				cf[n] = x
			}
			cf["presentation_submission"] = v
			vp.CustomFields = cf
			_, _ = p19Def().Match([]*verifiable.Presentation{vp}, fx.Loader(), presexch.WithCredentialOptions(pxOpts()...))
		})
	})
}

func p19StatusResolver(d *did.Doc, body []byte) *resolver.Resolver {
	reg := &didRegistry{docs: map[string]*did.Doc{"did:example:keys": d}}
	return resolver.NewResolver(&http.Client{Transport: httpFunc(func(*http.Request) (*http.Response, error) { return httpResp(200, body), nil })}, reg, "")
}

type p19VDR struct{ doc *did.DocResolution }

func (r p19VDR) Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if r.doc == nil {
		return nil, errors.New("no such DID")
	}
	return r.doc, nil
}

// p19Others changes status lists and entries, DID configurations, DID documents, schemas and frames.
func p19Others(e *h.Env, strs []string) {
	encStrs := append(append([]string{}, strs...), p19Enc...)
	statusOf := func(g func(string, func()), entry, list any) {
		var vc, lc *verifiable.Credential
		g("parse", func() {
			vc, _ = statusVC(stIssuer, entry)
			if m, ok := list.(map[string]any); ok {
				lc, _ = parseStatusList(m)
			}
		})
		if vc == nil || lc == nil {
			return
		}
		for _, r := range []statusResolver{func(string) (*verifiable.Credential, error) { return lc, nil }} {
			g("VerifyStatus", func() {
				_ = (&status.Client{ValidatorGetter: validator.GetValidator, Resolver: r}).VerifyStatus(vc)
			})
		}
	}
	for _, typ := range []string{"StatusList2021Entry", "RevocationList2021Status", "BitstringStatusListEntry"} {
		entry := statusEntry(typ, "revocation", "3")
		entry["revocationListIndex"], entry["revocationListCredential"] = "3", stURI
		entry["statusSize"], entry["statusMessage"] = 1.0, []any{map[string]any{"status": "0x0", "message": "m"}}
		l := statusListJSON(stIssuer, map[string]any{"id": stURI + "#list", "type": "StatusList2021", "statusPurpose": "revocation", "encodedList": stEncodings()[0].f(make([]byte, 16))})
		p19Walk(e, "status entry "+typ, entry, append(strs, "3", "127", "128", "-3", "+3", "99999999999", "9223372036854775807", "9223372036854775808", "0x1", "1e3", "suspension"), func(t *h.T, g func(string, func()), v any) { statusOf(g, v, l) })
		p19Walk(e, "status list "+typ, l, encStrs, func(t *h.T, g func(string, func()), v any) { statusOf(g, entry, v) })
	}
	// DID configurations
	ps := p25Get()
	for _, form := range []string{"ld", "jwt"} {
		ent, _ := ps.build(form, ps.a, p25Dom)
		seed := parseObj(h.JSON(p25Conf(ent)))
		p19Walk(e, "did configuration "+form, seed, encStrs, func(t *h.T, g func(string, func()), v any) {
			b := []byte(h.JSON(v))
			g("VerifyDIDAndDomain", func() { _ = verifier.VerifyDIDAndDomain(b, ps.a.DID, p25Dom, ps.opts()...) })
			g("VerifyDIDAndDomain other", func() { _ = verifier.VerifyDIDAndDomain(b, "", "", ps.opts()...) })
		})
		if form == "jwt" {
			hdr, pl := p25JWT(p25Doc(ps.a.DID, p25Dom), ps.a, ps.a.DID)
			for _, part := range []string{"header", "payload"} {
				s := hdr
				if part == "payload" {
					s = pl
				}
				p19Walk(e, "did configuration token "+part, parseAny([]byte(h.JSON(s))), strs, func(t *h.T, g func(string, func()), v any) {
					var x, y any = v, pl
					if part == "payload" {
						x, y = hdr, v
					}
					b := []byte(h.JSON(map[string]any{"@context": seed["@context"], "linked_dids": []any{rawJWS(x, []byte(h.JSON(y)), ps.a)}}))
					g("VerifyDIDAndDomain", func() { _ = verifier.VerifyDIDAndDomain(b, ps.a.DID, p25Dom, ps.opts()...) })
				})
			}
		}
	}
	// verification methods
	for _, kind := range fx.Kinds {
		k := fx.NewKey(kind, "did:example:keys", "k1")
		tok := rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT"}, []byte(`{"iss":"did:example:keys"}`), k)
		var jwkJSON any
		if b, err := json.Marshal(k.JWK); err == nil {
			jwkJSON = parseAny(b)
		}
		for _, vmType := range []string{"JsonWebKey2020", "Ed25519VerificationKey2018", "Multikey"} {
			vm := map[string]any{"id": k.KID, "type": vmType, "controller": k.DID}
			if vmType == "JsonWebKey2020" {
				vm["publicKeyJwk"] = jwkJSON
			} else {
				vm["publicKeyBase58"] = "2vFnV3UdtSBJcYZRKwvkoSn6PmYLzQYVgTSrtJ5Uh8hd"
			}
			if vmType == "Multikey" {
				delete(vm, "publicKeyBase58")
				vm["publicKeyMultibase"] = "z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK"
			}
			doc := map[string]any{"@context": []any{"https://www.w3.org/ns/did/v1"}, "id": k.DID, "verificationMethod": []any{vm}, "assertionMethod": []any{k.KID}, "authentication": []any{vm}, "service": []any{map[string]any{"id": "#s", "type": "IdentityHub", "serviceEndpoint": map[string]any{"instances": []any{"https://hub.example"}}}}}
			cwtTok := []byte(nil)
			if k.Cose != 0 {
				cwtTok = mkCose(map[any]any{1: int64(k.Cose), 4: []byte(k.KID)}, nil, cb(map[string]any{"iss": k.DID}), k).bytes()
			}
			p19Walk(e, "did document "+kind+" "+vmType, doc, append(strs[:8:8], "P-256", "secp256k1", "OKP", "EC", "RSA", "AQAB", "AA", "z", "z6Mk", "zQ3s", "u", "#k1"), func(t *h.T, g func(string, func()), v any) {
				var d *did.Doc
				if p := h.Guard(func() { d, _ = did.ParseDocument([]byte(h.JSON(v))) }); p != "" || d == nil { // did-go's own
					return
				}
				r := vermethod.NewVDRResolver(p19VDR{&did.DocResolution{DIDDocument: d}})
				g("ResolveVerificationMethod", func() { _, _ = r.ResolveVerificationMethod(k.KID, k.DID) })
				c := defaults.NewDefaultProofChecker(r)
				g("CheckJWTProof", func() { _, _, _ = jwt.ParseAndCheckProof(tok, c, true) })
				if cwtTok != nil {
					g("CheckCWTProof", func() { _, _, _ = cwt.ParseAndCheckProof(cwtTok, c, true) })
				}
				g("status DID URL", func() {
					_, _ = p19StatusResolver(d, []byte("{}")).Resolve(k.DID + "?service=IdentityHub&queries=W3sibWV0aG9kIjoiQ29sbGVjdGlvbnNRdWVyeSJ9XQ")
				})
			})
		}
	}
	// responses of an identity hub
	p19Walk(e, "hub response", map[string]any{"requestId": "r", "status": map[string]any{"code": 200.0, "message": "m"}, "replies": []any{map[string]any{"messageId": "m", "status": map[string]any{"code": 200.0}, "entries": []any{map[string]any{"descriptor": map[string]any{}, "data": base64.StdEncoding.EncodeToString([]byte(h.JSON(statusListJSON(stIssuer, map[string]any{"id": "x", "encodedList": "x"}))))}}}}}, encStrs,
		func(t *h.T, g func(string, func()), v any) {
			d, err := did.ParseDocument([]byte(`{"@context":["https://www.w3.org/ns/did/v1"],"id":"did:example:keys","service":[{"id":"#s","type":"IdentityHub","serviceEndpoint":{"instances":["https://hub.example"]}}]}`))
			if err != nil {
				panic(err)
			}
			g("Resolve", func() {
				_, _ = p19StatusResolver(d, []byte(h.JSON(v))).Resolve("did:example:keys?service=IdentityHub&queries=W3sibWV0aG9kIjoiQ29sbGVjdGlvbnNRdWVyeSJ9XQ")
			})
		})
	// schemas that the network gives
	schema := map[string]any{"$schema": "https://json-schema.org/draft/2020-12/schema", "$id": "https://s.example/1", "type": "object", "required": []any{"issuer"}, "properties": map[string]any{"credentialSubject": map[string]any{"type": "object", "properties": map[string]any{"name": map[string]any{"type": "string", "pattern": "^A", "$ref": "#/definitions/x"}}}}, "definitions": map[string]any{"x": map[string]any{"minLength": 1.0}}}
	doc := p19Doc(1)
	p19Walk(e, "schema", schema, append(strs, "#/definitions/y", "http://other.example/s", "(", "^(a+)+$"), func(t *h.T, g func(string, func()), v any) {
		for _, typ := range []string{"JsonSchemaValidator2018", "JsonSchema"} {
			x := copyObj(doc)
			x["credentialSchema"] = map[string]any{"id": "https://s.example/1", "type": typ}
			g("ParseCredential "+typ, func() {
				_, _ = verifiable.ParseCredential([]byte(h.JSON(x)), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(p19SchemaLoader(h.JSON(v))))
			})
		}
		g("WithSchema", func() {
			_, _ = verifiable.ParseCredential([]byte(h.JSON(doc)), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithSchema(h.JSON(v)))
		})
	})
	// digests of related resources
	p19Walk(e, "related resource", []any{map[string]any{"id": "https://r.example/x", "mediaType": "text/plain", "digestSRI": "sha256-uEiA", "digestMultibase": "uEiA"}}, append(append(encStrs, "sha256-uEg", "sha256-uEiAA", "uEg", "uEiAA", "uAA", "zQm", "zQmX", "sha512-u", "sha384-m", "md5-u"), strs...), func(t *h.T, g func(string, func()), v any) {
		for _, drop := range []string{"", "digestSRI", "digestMultibase"} {
			l, ok := deepCopy(v).([]any)
			if ok && drop != "" {
				for _, x := range l {
					if m, ok := x.(map[string]any); ok {
						delete(m, drop)
					}
				}
			}
			x := p19Doc(2)
			if x["relatedResource"] = v; ok {
				x["relatedResource"] = l
			}
			g("ParseCredential "+drop, func() {
				_, _ = verifiable.ParseCredential([]byte(h.JSON(x)), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
			})
		}
	})
	// frames
	w := p30Get()
	bbs := p30Docs()[1].doc
	frame := p30Sel{"issuer": true, "issuanceDate": true, "credentialSubject": p30Sel{"name": true, "deg": p30Sel{"by": true}}}.frame(bbs)
	frame["@context"] = p30Ctx()
	var once sync.Once
	var vc *verifiable.Credential
	p19Walk(e, "frame", parseAny([]byte(h.JSON(frame))), append([]string{"@never", "@always", "_:b", "_:c14n0", "urn:bnid:_:c14n0"}, strs[:e.Pick(0, 8)]...), func(t *h.T, g func(string, func()), v any) {
		once.Do(func() { vc = p30Parse(t, w.sign(t, w.k, bbs)) })
		m, _ := v.(map[string]any)
		g("GenerateBBSSelectiveDisclosure", func() { _, _ = w.derive(vc, m, []byte("n")) })
	})
	for i, s := range append(append(append([]string{"", "http"}, encStrs...), "data:a/b;base64;x,y", "data:a/b", "data:;,", "data:a/b;c=d,e"), strs...) {
		e.Casef(func(t *h.T) {
			t.Step("%q", s)
			t.Outcome("survived")
			if p := h.Guard(func() { _, _, _, _ = verifiable.ParseDataURL(s) }); p != "" {
				t.Fail("ParseDataURL: %s", p)
			}
		}, "data url %d", i)
	}
}
