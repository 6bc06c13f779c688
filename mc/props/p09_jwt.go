package props

import (
	"encoding/asn1"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"

	cec "github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	ced "github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	crsa "github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:   "P09",
		Rule: "the cross product of algorithm header x signing key x resolver entry, of key id x issuer x expected-issuer option x signing key, of typ/cty headers, every single-bit and length change of signature, header and payload bytes of a valid token per algorithm, every segment splice of two valid tokens; oracle: accept exactly when the reference policy (table of algorithm, method type, key type, curve; controller equality; signer identity) does",
		Gen:  genP09,
	})
}

var b64u = base64.RawURLEncoding

// rawJWS signs header.payload as given.
func rawJWS(hdr any, payload []byte, k *fx.Key) string {
	in := b64u.EncodeToString([]byte(h.JSON(hdr))) + "." + b64u.EncodeToString(payload)
	return in + "." + b64u.EncodeToString(signWith(k, []byte(in)))
}

func signWith(k *fx.Key, in []byte) []byte {
	sig, err := k.Signer(in)
	if err != nil {
		panic(err)
	}
	return sig
}

// jwtAlgTable is the reference policy: algorithm -> key kind, method type for raw keys.
var jwtAlgTable = map[string]struct {
	kind, rawType, kty, crv string
}{
	"EdDSA":  {"ed25519", "Ed25519VerificationKey2018", "OKP", "Ed25519"},
	"ES256":  {"p256", "", "EC", "P-256"},
	"ES384":  {"p384", "", "EC", "P-384"},
	"ES521":  {"p521", "", "EC", "P-521"},
	"ES256K": {"secp256k1", "EcdsaSecp256k1VerificationKey2019", "EC", "secp256k1"},
	"RS256":  {"rs256", "RsaVerificationKey2018", "RSA", ""},
	"PS256":  {"ps256", "RsaVerificationKey2018", "RSA", ""},
}

type vmCase struct {
	name string
	vm   func(k *fx.Key) *vermethod.VerificationMethod // nil: not applicable
	raw  bool                                          // raw method type
	ok   bool                                          // carries the signer's key in a usable form
	jwk  bool
}

func vmMenu() []vmCase {
	other := func(k *fx.Key) *fx.Key { return fx.NewKey(k.Name, k.DID, "zz-b") }
	return []vmCase{
		{"jwk", func(k *fx.Key) *vermethod.VerificationMethod { return k.JWKVM() }, false, true, true},
		{"raw", func(k *fx.Key) *vermethod.VerificationMethod { return k.RawVMethod() }, true, true, false},
		{"jwk-in-raw-type", func(k *fx.Key) *vermethod.VerificationMethod {
			if k.RawVM == "" {
				return nil
			}
			return &vermethod.VerificationMethod{Type: k.RawVM, JWK: k.JWK}
		}, true, true, true},
		{"unknown-type", func(k *fx.Key) *vermethod.VerificationMethod {
			return &vermethod.VerificationMethod{Type: "OtherKey2030", JWK: k.JWK, Value: k.Raw}
		}, false, false, true},
		{"no-type", func(k *fx.Key) *vermethod.VerificationMethod {
			return &vermethod.VerificationMethod{JWK: k.JWK, Value: k.Raw}
		}, false, false, true},
		{"jwk-type-raw-value", func(k *fx.Key) *vermethod.VerificationMethod {
			return &vermethod.VerificationMethod{Type: "JsonWebKey2020", Value: k.Raw}
		}, false, false, false},
		{"other-key", func(k *fx.Key) *vermethod.VerificationMethod { return other(k).JWKVM() }, false, false, true},
		{"other-raw", func(k *fx.Key) *vermethod.VerificationMethod { return other(k).RawVMethod() }, true, false, false},
		{"short-raw", func(k *fx.Key) *vermethod.VerificationMethod {
			if k.RawVM == "" {
				return nil
			}
			return &vermethod.VerificationMethod{Type: k.RawVM, Value: k.Raw[:len(k.Raw)-1]}
		}, true, false, false},
		{"empty-raw", func(k *fx.Key) *vermethod.VerificationMethod {
			if k.RawVM == "" {
				return nil
			}
			return &vermethod.VerificationMethod{Type: k.RawVM}
		}, true, false, false},
	}
}

func genP09(e *h.Env) {
	const iss, oth = "did:ex:issuer", "did:ex:other"
	payload := func(m map[string]any) []byte { return []byte(h.JSON(m)) }
	algs := []any{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "none", "", "HS256", "ES512", "eddsa", nil, 5.0, "absent"}
	// 1. algorithm x key x resolver entry
	for _, alg := range algs {
		for _, kind := range fx.Kinds {
			for _, vc := range vmMenu() {
				alg, kind, vc := alg, kind, vc
				k := fx.NewKey(kind, iss, "k1")
				vm := vc.vm(k)
				if vm == nil {
					continue
				}
				e.Casef(func(t *h.T) {
					hdr := map[string]any{"alg": alg, "kid": k.KID}
					if alg == "absent" {
						delete(hdr, "alg")
					}
					tok := rawJWS(hdr, payload(map[string]any{"iss": iss, "x": 1}), k)
					pc := fx.CheckerR(fx.NewResolver().Set(k.KID, vm))
					algS, _ := alg.(string)
					row, known := jwtAlgTable[algS]
					want := known && row.kind == kind && vc.ok
					p09Both(t, tok, pc, want, iss)
					// the same key embedded in the token or known otherwise
					emb := checker.NewEmbeddedVMProofChecker(vm, checker.WithJWTAlg(eddsa.New(), es256.New(), rs256.New()),
						checker.WithSignatureVerifiers(ced.New(), cec.NewES256(), crsa.NewRS256()))
					wantEmb := want && (algS == "EdDSA" || algS == "ES256" || algS == "RS256")
					err := jwt.CheckProof(tok, emb, nil, nil)
					t.Step("embedded method: %v", err)
					if (err == nil) != wantEmb {
						t.Fail("embedded verification method: got %v, policy says accept=%v", err, wantEmb)
					}
					if vm.JWK != nil && vm.Type == "JsonWebKey2020" {
						emb := checker.NewEmbeddedJWKProofChecker(vm.JWK, checker.WithJWTAlg(eddsa.New(), es256.New(), rs256.New()),
							checker.WithSignatureVerifiers(ced.New(), cec.NewES256(), crsa.NewRS256()))
						if err := jwt.CheckProof(tok, emb, nil, nil); (err == nil) != wantEmb {
							t.Fail("embedded JWK: got %v, policy says accept=%v", err, wantEmb)
						}
					}
				}, "alg/%v/%s/%s", alg, kind, vc.name)
			}
		}
	}
	// 2. key id x issuer claim x expectation x signer
	kids := []any{"iss#k1", "iss#k2", "other#k1", "iss#nokey", "nobody#k1", "iss", "#k1", "", "absent", nil, 7.0, []any{"x"}, "iss#k1#k1", "iss?x#k1"}
	iss1 := []any{iss, oth, "", nil, 5.0, "absent", iss + "#k1", iss + " ", strings.ToUpper(iss), []any{iss}, map[string]any{"id": iss}}
	modes := []string{"checkIssuer", "noIssuer", "expect-iss", "expect-other", "expect-empty", "expect-nil"}
	for _, kind := range fx.Kinds {
		for _, signer := range []string{"iss#k1", "iss#k2", "other#k1"} {
			for _, kid := range kids {
				for _, is := range iss1 {
					for _, mode := range modes {
						if kind != "ed25519" && kind != "p256" && !e.Thorough() && (mode != "checkIssuer" || signer == "iss#k2") {
							continue
						}
						kind, signer, kid, is, mode := kind, signer, kid, is, mode
						e.Casef(func(t *h.T) {
							keys := map[string]*fx.Key{"iss#k1": fx.NewKey(kind, iss, "k1"), "iss#k2": fx.NewKey(kind, iss, "k2-b"), "other#k1": fx.NewKey(kind, oth, "k1")}
							sub := func(v any) any {
								s, ok := v.(string)
								if !ok {
									return v
								}
								if k := keys[s]; k != nil {
									return k.KID
								}
								s = strings.Replace(s, "iss", iss, 1)
								return strings.Replace(s, "nobody", "did:ex:nobody", 1)
							}
							hdr := map[string]any{"alg": keys["iss#k1"].JWTAlg, "kid": sub(kid)}
							if kid == "absent" {
								delete(hdr, "kid")
							}
							pl := map[string]any{"iss": is, "x": 1}
							if is == "absent" {
								delete(pl, "iss")
							}
							tok := rawJWS(hdr, payload(pl), keys[signer])
							res := fx.NewResolver(keys["iss#k1"], keys["iss#k2"], keys["other#k1"])
							pc := fx.CheckerR(res)
							var err error
							expected := ""
							haveExp := false
							kidS, kidOK := hdr["kid"].(string)
							kidDID := strings.Split(kidS, "#")[0]
							switch mode {
							case "checkIssuer":
								_, _, err = jwt.ParseAndCheckProof(tok, pc, true)
								s, ok := is.(string)
								if ok && is != "absent" {
									expected, haveExp = s, true
								}
							case "noIssuer":
								_, _, err = jwt.ParseAndCheckProof(tok, pc, false)
								expected, haveExp = kidDID, true
							case "expect-nil":
								err = jwt.CheckProof(tok, pc, nil, nil)
								expected, haveExp = kidDID, true
							default:
								expected = map[string]string{"expect-iss": iss, "expect-other": oth, "expect-empty": ""}[mode]
								haveExp = true
								ex := expected
								err = jwt.CheckProof(tok, pc, &ex, nil)
							}
							// reference: the named key is registered, belongs to the expected issuer and signed
							want := kidOK && haveExp && expected != "" && kidDID == expected && keys[fmt.Sprint(kid)] != nil && samePub(keys[fmt.Sprint(kid)], keys[signer])
							t.Step("signer %s kid %v iss %v mode %s: %v", signer, hdr["kid"], is, mode, err)
							t.Statef("%s %v", mode, err == nil)
							if (err == nil) != want {
								t.Fail("got %v, policy says accept=%v", err, want)
							}
						}, "issuer/%s/%s/%s/%s/%s", kind, signer, h.JSON(kid), h.JSON(is), mode)
					}
				}
			}
		}
	}
	// 3. typ and cty headers
	typs := []any{"absent", "JWT", "jwt", "vc+jwt", "vc+JWT", "vc+sd-jwt", "vc+SD-JWT", "vp+jwt", "a+b", "SD-JWT", "JWS", "", "+jwt", "vc+jwt+x", "vc+x+jwt", nil, 3.0, []any{"JWT"}}
	ctys := []any{"absent", "JWT", "jwt", "json", nil}
	for _, typ := range typs {
		for _, cty := range ctys {
			typ, cty := typ, cty
			e.Casef(func(t *h.T) {
				k := fx.NewKey("ed25519", iss, "k1")
				hdr := map[string]any{"alg": "EdDSA", "kid": k.KID, "typ": typ, "cty": cty}
				if typ == "absent" {
					delete(hdr, "typ")
				}
				if cty == "absent" {
					delete(hdr, "cty")
				}
				want := cty != "JWT"
				switch x := typ.(type) {
				case string:
					if p := strings.Split(x, "+"); len(p) > 1 {
						want = want && (strings.EqualFold(p[1], "JWT") || strings.EqualFold(p[1], "SD-JWT"))
					} else {
						want = want && (x == "JWT" || x == "absent")
					}
				default:
					want = false
				}
				tok := rawJWS(hdr, payload(map[string]any{"iss": iss}), k)
				_, _, err := jwt.ParseAndCheckProof(tok, fx.Checker(k), true)
				t.Step("typ %v cty %v: %v", typ, cty, err)
				if (err == nil) != want {
					t.Fail("typ %v cty %v: got %v, want accept=%v", typ, cty, err, want)
				}
			}, "typ/%s/%s", h.JSON(typ), h.JSON(cty))
		}
	}
	// 4. mutations of valid tokens
	for _, kind := range fx.Kinds {
		kind := kind
		k := fx.NewKey(kind, iss, "k1")
		k2 := fx.NewKey(kind, iss, "k2-b")
		mk := func() []string {
			return strings.Split(rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT"}, payload(map[string]any{"iss": iss, "sub": "s", "n": 12, "nested": map[string]any{"a": []any{true, nil, "z"}}}), k), ".")
		}
		pc := fx.Checker(k, k2)
		reject := func(t *h.T, tok, what string) {
			t.Step("%s", what)
			if _, _, err := jwt.ParseAndCheckProof(tok, pc, true); err == nil {
				t.Fail("token with %s is accepted", what)
			}
			if err := jwt.CheckProof(tok, pc, nil, nil); err == nil {
				t.Fail("token with %s passes the proof check", what)
			}
		}
		for seg := 0; seg < 3; seg++ {
			seg := seg
			e.Casef(func(t *h.T) {
				parts := mk()
				if _, _, err := jwt.ParseAndCheckProof(strings.Join(parts, "."), pc, true); err != nil {
					t.Fatal("valid token refused: %v", err)
				}
				raw, _ := b64u.DecodeString(parts[seg])
				masks := []byte{1, 2, 4, 8, 16, 32, 64, 128}
				if !e.Thorough() && (kind == "p521" || kind == "p384") {
					masks = []byte{1, 128}
				}
				for i := range raw {
					for _, m := range masks {
						b := append([]byte{}, raw...)
						b[i] ^= m
						p := append([]string{}, parts...)
						p[seg] = b64u.EncodeToString(b)
						reject(t, strings.Join(p, "."), fmt.Sprintf("bit %x of byte %d of segment %d flipped", m, i, seg))
					}
				}
				for n := 0; n < len(raw); n++ {
					p := append([]string{}, parts...)
					p[seg] = b64u.EncodeToString(raw[:n])
					reject(t, strings.Join(p, "."), fmt.Sprintf("segment %d cut to %d bytes", seg, n))
					p[seg] = b64u.EncodeToString(raw[n+1:])
					if seg != 2 || n+1 < len(raw) {
						reject(t, strings.Join(p, "."), fmt.Sprintf("segment %d without its first %d bytes", seg, n+1))
					}
				}
				for _, x := range [][]byte{{0}, {' '}, {1, 2, 3, 4}} {
					p := append([]string{}, parts...)
					p[seg] = b64u.EncodeToString(append(append([]byte{}, raw...), x...))
					reject(t, strings.Join(p, "."), fmt.Sprintf("segment %d with %d bytes appended", seg, len(x)))
				}
				for _, c := range []string{"", "%", "=", "\x00"} {
					p := append([]string{}, parts...)
					p[seg] = c
					reject(t, strings.Join(p, "."), fmt.Sprintf("segment %d replaced by %q", seg, c))
				}
			}, "mutate/%s/%d", kind, seg)
		}
		if n := len(rawSig(mk()[2])); kind != "ed25519" && kind != "rs256" && kind != "ps256" {
			// ECDSA signatures in their other form, ASN.1 DER, which is taken too
			e.Casef(func(t *h.T) {
				parts := mk()
				raw := rawSig(parts[2])
				der, err := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(raw[:n/2]), new(big.Int).SetBytes(raw[n/2:])})
				t.Must(err, "der")
				with := func(b []byte) string { return parts[0] + "." + parts[1] + "." + b64u.EncodeToString(b) }
				_, _, err = jwt.ParseAndCheckProof(with(der), pc, true)
				t.Outcome("DER taken: %v", err == nil)
				for i := range der {
					for b := 0; b < 8; b++ {
						m := append([]byte{}, der...)
						m[i] ^= 1 << b
						reject(t, with(m), fmt.Sprintf("bit %d of byte %d of the DER signature flipped", b, i))
					}
					reject(t, with(der[:i]), fmt.Sprintf("DER signature cut to %d bytes", i))
				}
				for _, x := range [][]byte{{0}, {' '}, {5, 0}, {0xff, 0xff, 0xff, 0xff}, der, raw} {
					reject(t, with(append(append([]byte{}, der...), x...)), fmt.Sprintf("DER signature with %d bytes appended", len(x)))
					reject(t, with(append(append([]byte{}, x...), der...)), fmt.Sprintf("DER signature with %d bytes put before", len(x)))
				}
				in, _ := asn1.Marshal(struct{ R, S, T *big.Int }{new(big.Int).SetBytes(raw[:n/2]), new(big.Int).SetBytes(raw[n/2:]), big.NewInt(1)})
				reject(t, with(in), "DER signature of three numbers")
			}, "mutate DER/%s", kind)
		}
		e.Casef(func(t *h.T) {
			a := mk()
			b := strings.Split(rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID}, payload(map[string]any{"iss": iss, "sub": "other"}), k), ".")
			c := strings.Split(rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k2.KID, "typ": "JWT"}, payload(map[string]any{"iss": iss, "sub": "s"}), k2), ".")
			all := [][]string{a, b, c}
			h.Product([]int{3, 3, 3}, func(ix []int) {
				if ix[0] == ix[1] && ix[1] == ix[2] {
					return
				}
				reject(t, all[ix[0]][0]+"."+all[ix[1]][1]+"."+all[ix[2]][2], fmt.Sprint("segments of tokens ", ix))
			})
			for _, s := range []string{a[0] + "." + a[1], strings.Join(a, ".") + ".", "." + strings.Join(a, "."), strings.Join(a, ".") + "." + a[2], a[1] + "." + a[0] + "." + a[2], "", ".", "..", strings.Join(a, ".") + "~"} {
				reject(t, s, "wrong number or order of segments")
			}
		}, "splice/%s", kind)
		// re-signed or stripped with other algorithm names
		e.Casef(func(t *h.T) {
			for _, alg := range algs {
				for _, sig := range []string{"", "own", "kid"} {
					hdr := map[string]any{"alg": alg, "kid": k.KID}
					in := b64u.EncodeToString([]byte(h.JSON(hdr))) + "." + b64u.EncodeToString(payload(map[string]any{"iss": iss}))
					s := ""
					switch sig {
					case "own":
						if alg == k.JWTAlg {
							continue
						}
						s = b64u.EncodeToString(signWith(k, []byte(in)))
						if (kind == "rs256" && alg == "RS256") || (kind == "ps256" && alg == "PS256") {
							continue
						}
					case "kid":
						s = b64u.EncodeToString(k.Raw) // the public key as "signature"
					}
					reject(t, in+"."+s, fmt.Sprintf("alg %v signature %q", alg, sig))
				}
			}
			un, err := jwt.NewUnsecured(map[string]any{"iss": iss})
			t.Must(err, "unsecured")
			s, err := un.Serialize(false)
			t.Must(err, "serialize")
			reject(t, s, "no signature")
			reject(t, s+"AAAA", "alg none and a signature")
		}, "strip/%s", kind)
		// 5. signing and checking round trip, detached payload
		e.Casef(func(t *h.T) {
			claims := map[string]any{"iss": iss, "big": "9007199254740993", "o": map[string]any{"a": []any{"x", false, nil}}, "unicode": "é\u2028<&>"}
			tok, err := jwt.NewSigned(claims, jwt.SignParameters{KeyID: k.KID, JWTAlg: k.JWTAlg, AdditionalHeaders: jose.Headers{"typ": "JWT", "extra": "e"}}, k.Creator())
			t.Must(err, "sign")
			s, err := tok.Serialize(false)
			t.Must(err, "serialize")
			got, pl, err := jwt.ParseAndCheckProof(s, pc, true)
			t.Must(err, "parse")
			if h.Canon(got.Payload) != h.Canon(claims) {
				t.Fail("payload %v, signed %v", got.Payload, claims)
			}
			if h.Canon(pl) != h.Canon([]byte(h.JSON(claims))) && len(pl) == 0 {
				t.Fail("no payload bytes")
			}
			if got.LookupStringHeader("kid") != k.KID || got.LookupStringHeader("alg") != k.JWTAlg || got.LookupStringHeader("extra") != "e" || got.LookupStringHeader("none") != "" {
				t.Fail("headers %v", got.Headers)
			}
			var dst map[string]any
			if err := got.DecodeClaims(&dst); err != nil || h.Canon(dst) != h.Canon(claims) {
				t.Fail("decoded claims %v %v", dst, err)
			}
			again, err := got.Serialize(false)
			if err != nil || !sameSegments(again, s) {
				t.Fail("parsed token serialises to %s, was %s (%v)", again, s, err)
			}
			det, err := tok.Serialize(true)
			t.Must(err, "detached")
			t.Step("detached %s", det)
			if strings.Split(det, ".")[1] != "" {
				t.Fail("detached token carries its payload")
			}
			if _, _, err := jwt.ParseAndCheckProof(det, pc, true, jwt.WithJWTDetachedPayload(pl)); err != nil {
				t.Fail("detached payload refused: %v", err)
			}
			bad := append([]byte{}, pl...)
			bad[len(bad)-2] ^= 1
			if _, _, err := jwt.ParseAndCheckProof(det, pc, true, jwt.WithJWTDetachedPayload(bad)); err == nil {
				t.Fail("another detached payload is accepted")
			}
			if _, _, err := jwt.ParseAndCheckProof(s, pc, true, jwt.WithJWTDetachedPayload(bad)); err == nil {
				t.Fail("another detached payload is accepted for an attached token")
			}
			var into map[string]any
			if _, _, err := jwt.ParseAndCheckProof(s, pc, true, jwt.DecodeClaimsTo(&into), jwt.WithIgnoreClaimsMapDecoding(true)); err != nil || h.Canon(into) != h.Canon(claims) {
				t.Fail("decode to destination: %v %v", into, err)
			}
			if !jwt.IsJWS(s) || jwt.IsJWTUnsecured(s) {
				t.Fail("signed token is not recognised as JWS")
			}
		}, "roundtrip/%s", kind)
	}
	// duplicate members decide one way for proof and claims
	for i, pl := range []string{`{"iss":"did:ex:other","iss":"did:ex:issuer"}`, `{"iss":"did:ex:issuer","iss":"did:ex:other"}`, `{"iss":"did:ex:other","\u0069ss":"did:ex:issuer"}`} {
		pl := pl
		e.Casef(func(t *h.T) {
			k := fx.NewKey("ed25519", oth, "k1")
			tok := rawJWS(map[string]any{"alg": "EdDSA", "kid": k.KID}, []byte(pl), k)
			got, _, err := jwt.ParseAndCheckProof(tok, fx.Checker(k), true)
			t.Step("%s: %v", pl, err)
			if err == nil && got.Payload["iss"] != oth {
				t.Fail("token signed by %s is accepted with issuer %v", oth, got.Payload["iss"])
			}
		}, "duplicate/%d", i)
	}
}

// samePub: two RSA key ids of the fixtures may share one key pair.
func rawSig(seg string) []byte { b, _ := b64u.DecodeString(seg); return b }

func samePub(a, b *fx.Key) bool { return string(a.Raw) == string(b.Raw) }

func sameSegments(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	if len(x) != 3 || len(y) != 3 || x[2] != y[2] {
		return false
	}
	for i := 0; i < 2; i++ {
		p, _ := b64u.DecodeString(x[i])
		q, _ := b64u.DecodeString(y[i])
		if !reflect.DeepEqual(parseAny(p), parseAny(q)) {
			return false
		}
	}
	return true
}

func p09Both(t *h.T, tok string, pc *checker.ProofChecker, want bool, iss string) {
	_, _, err := jwt.ParseAndCheckProof(tok, pc, true)
	t.Step("parse and check: %v", err)
	t.Statef("%v", err == nil)
	if (err == nil) != want {
		t.Fail("got %v, policy says accept=%v", err, want)
	}
	err = jwt.CheckProof(tok, pc, &iss, nil)
	t.Step("check: %v", err)
	if (err == nil) != want {
		t.Fail("CheckProof: got %v, policy says accept=%v", err, want)
	}
}
