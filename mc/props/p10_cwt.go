package props

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/fxamacker/cbor/v2"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/verifiable"
	vcwt "github.com/trustbloc/vc-go/verifiable/cwt"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:   "P10",
		Rule: "the cross product of COSE algorithm header x signing key x resolver entry, of key id x COSE_Key x issuer claim x expected-issuer option x signing key, every placement of alg/kid/key in protected or unprotected headers, every single-bit and length change of protected header, payload and signature bytes, every splice of two valid messages, for tokens and for CBOR credentials; oracle: accept exactly when the reference policy does",
		Gen:  genP10,
	})
}

// coseMsg is a COSE_Sign1 message in parts.
type coseMsg struct {
	prot      []byte // content of the protected bstr
	unprot    map[any]any
	payload   any
	sig       []byte
	untagged  bool
	tag       uint64
	emptyProt bool
}

var cborDet = func() cbor.EncMode {
	m, err := cbor.EncOptions{Sort: cbor.SortCoreDeterministic}.EncMode()
	if err != nil {
		panic(err)
	}
	return m
}()

func cb(v any) []byte {
	b, err := cborDet.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// coseTBS is the Sig_structure of RFC 9052.
func coseTBS(prot, payload []byte) []byte {
	return cb([]any{"Signature1", prot, []byte{}, payload})
}

func (m coseMsg) bytes() []byte {
	u := m.unprot
	if u == nil {
		u = map[any]any{}
	}
	arr := []any{m.prot, u, m.payload, m.sig}
	if m.untagged {
		return cb(arr)
	}
	tag := uint64(18)
	if m.tag != 0 {
		tag = m.tag
	}
	return cb(cbor.Tag{Number: tag, Content: arr})
}

func mkCose(prot map[any]any, unprot map[any]any, payload []byte, k *fx.Key) coseMsg {
	p := cb(prot)
	return coseMsg{prot: p, unprot: unprot, payload: payload, sig: signWith(k, coseTBS(p, payload))}
}

var coseAlgTable = map[int64]string{ // algorithm -> key kind
	-8: "ed25519", -7: "p256", -35: "p384", -257: "rs256", -37: "ps256",
}

func coseKeyHex(k *fx.Key) string {
	ck, err := cose.NewKeyFromPublic(k.Pub)
	if err != nil {
		return ""
	}
	b, err := ck.MarshalCBOR()
	if err != nil {
		return ""
	}
	return hex.EncodeToString(b)
}

// cwtAll runs every entry point that checks a COSE proof; they must agree with want. The
// token entry point additionally demands a COSE_Key member.
func cwtParse(data []byte, pc cwt.ProofChecker, checkIss bool) error {
	_, _, err := cwt.ParseAndCheckProof(data, pc, checkIss)
	return err
}

func cwtCheck(data []byte, pc cwt.ProofChecker, iss *string) error {
	m, err := cwt.Parse(data)
	if err != nil {
		return err
	}
	pv, err := vcwt.GetProofValue(m)
	if err != nil {
		return err
	}
	return cwt.CheckProof(m, pc, iss, pv, m.Signature)
}

func genP10(e *h.Env) {
	const iss, oth = "did:ex:issuer", "did:ex:other"
	pl := func(is any) []byte {
		m := map[any]any{2: "sub", 300: "x"}
		if is != "absent" {
			m[1] = is
		}
		return cb(m)
	}
	// 1. algorithm x key x resolver entry
	algs := []any{int64(-8), int64(-7), int64(-35), int64(-36), int64(-257), int64(-37), int64(-47), int64(0), int64(5), "ES256", "EdDSA", "absent", "unprotected", nil, []byte("x")}
	for _, alg := range algs {
		for _, kind := range fx.Kinds {
			for _, vc := range vmMenu() {
				alg, kind, vc := alg, kind, vc
				k := fx.NewKey(kind, iss, "k1")
				vm := vc.vm(k)
				if vm == nil {
					continue
				}
				e.Casef(func(t *h.T) {
					prot := map[any]any{1: alg, 4: []byte(k.KID), "COSE_Key": ""}
					un := map[any]any{}
					switch alg {
					case "absent":
						delete(prot, 1)
					case "unprotected":
						delete(prot, 1)
						un[1] = int64(k.Cose)
					}
					d := mkCose(prot, un, pl(iss), k).bytes()
					pc := fx.CheckerR(fx.NewResolver().Set(k.KID, vm))
					n, _ := alg.(int64)
					kn, known := coseAlgTable[n]
					want := known && kn == kind && vc.ok
					is := iss
					for i, err := range []error{cwtParse(d, pc, true), cwtParse(d, pc, false), cwtCheck(d, pc, &is), cwtCheck(d, pc, nil)} {
						t.Step("%d: %v", i, err)
						if (err == nil) != want {
							t.Fail("entry %d: got %v, policy says accept=%v", i, err, want)
						}
					}
					t.Statef("%v %v", alg, want)
				}, "alg/%v/%s/%s", alg, kind, vc.name)
			}
		}
	}
	// 2. key id x issuer x key material x expectation x signer
	kids := []any{"iss#k1", "iss#k2", "other#k1", "iss#nokey", "nobody#k1", "iss", "#k1", "", "absent", "string:iss#k1", nil, int64(7), "iss#k1#k1", "iss?x#k1", "unprotected:iss#k1"}
	isss := []any{iss, oth, "", nil, int64(5), "absent", iss + "#k1", strings.ToUpper(iss), []any{iss}}
	mats := []any{"", "absent", "signer", "other", "zz", int64(3), "raw:signer", "upper:signer", "unprotected:signer", "odd:signer"}
	modes := []string{"checkIssuer", "noIssuer", "expect-iss", "expect-other", "expect-empty", "expect-nil"}
	for _, kind := range []string{"ed25519", "p256", "p384", "rs256", "ps256"} {
		for _, signer := range []string{"iss#k1", "iss#k2", "other#k1"} {
			for _, kid := range kids {
				for _, is := range isss {
					for _, mat := range mats {
						if kind != "p256" && !e.Thorough() && ((mat != "" && mat != "signer" && kid != "absent") || signer == "iss#k2") {
							continue
						}
						kind, signer, kid, is, mat := kind, signer, kid, is, mat
						e.Casef(func(t *h.T) {
							keys := map[string]*fx.Key{"iss#k1": fx.NewKey(kind, iss, "k1"), "iss#k2": fx.NewKey(kind, iss, "k2-b"), "other#k1": fx.NewKey(kind, oth, "k1")}
							sk := keys[signer]
							sub := func(s string) string {
								if k := keys[s]; k != nil {
									return k.KID
								}
								return strings.Replace(strings.Replace(s, "iss", iss, 1), "nobody", "did:ex:nobody", 1)
							}
							prot, un := map[any]any{1: int64(sk.Cose)}, map[any]any{}
							kidS := ""
							switch x := kid.(type) {
							case string:
								if r, ok := strings.CutPrefix(x, "string:"); ok {
									prot[4] = sub(r)
								} else if r, ok := strings.CutPrefix(x, "unprotected:"); ok {
									un[4] = []byte(sub(r))
								} else if x != "absent" {
									kidS = sub(x)
									prot[4] = []byte(kidS)
								}
							default:
								prot[4] = x
							}
							// key material
							matOK, matUsable, matPresent := true, false, false
							var matKey *fx.Key
							set := func(v any) { prot["COSE_Key"] = v }
							switch x := mat.(type) {
							case string:
								switch x {
								case "":
									set("")
								case "absent":
									matOK = false
								case "signer":
									set(coseKeyHex(sk))
									matKey, matPresent = sk, true
								case "upper:signer":
									set(strings.ToUpper(coseKeyHex(sk)))
									matKey, matPresent = sk, true
								case "other":
									o := fx.NewKey(kind, "did:ex:mallory", "k")
									set(coseKeyHex(o))
									matPresent = true
								case "zz":
									set("zz")
									matPresent = true
								case "odd:signer":
									set(coseKeyHex(sk) + "0")
									matPresent = true
								case "raw:signer":
									hx, _ := hex.DecodeString(coseKeyHex(sk))
									set(hx)
									matOK = false
								case "unprotected:signer":
									un["COSE_Key"] = coseKeyHex(sk)
									matOK = false
								}
							default:
								set(x)
								matOK = false
							}
							_ = matPresent
							matUsable = matKey != nil && (kind == "ed25519" || kind == "p256" || kind == "p384")
							msg := mkCose(prot, un, pl(is), sk)
							d := msg.bytes()
							pc := fx.CheckerR(fx.NewResolver(keys["iss#k1"], keys["iss#k2"], keys["other#k1"]))
							kidDID := strings.Split(kidS, "#")[0]
							named := keys[fmt.Sprint(kid)]
							wellFormed := !strings.HasPrefix(fmt.Sprint(kid), "string:") && kid != nil && kid != int64(7)
							for _, mode := range modes {
								var err error
								expected, haveExp, token := "", true, false
								switch mode {
								case "checkIssuer":
									err = cwtParse(d, pc, true)
									s, ok := is.(string)
									haveExp = ok && is != "absent"
									if haveExp {
										expected = s
									}
									token = true
								case "noIssuer":
									err = cwtParse(d, pc, false)
									token = true
								case "expect-nil":
									err = cwtCheck(d, pc, nil)
								default:
									expected = map[string]string{"expect-iss": iss, "expect-other": oth, "expect-empty": ""}[mode]
									ex := expected
									err = cwtCheck(d, pc, &ex)
								}
								eff := expected
								if eff == "" {
									eff = kidDID // no issuer is stated: the key's controller
								}
								want := haveExp && (!token || matOK)
								if kidS != "" {
									want = want && kidDID == eff && named != nil && samePub(named, sk)
								} else {
									want = want && expected == "" && matUsable
								}
								t.Step("%s: %v", mode, err)
								t.Statef("%s %v", mode, err == nil)
								if err != nil && !wellFormed {
									continue // a kid that is not a bstr is not well-formed COSE
								}
								if (err == nil) != want {
									t.FailSub(mode, "%s: got %v, policy says accept=%v", mode, err, want)
								}
							}
						}, "key/%s/%s/%v/%v/%v", kind, signer, kid, h.JSON(is), mat)
					}
				}
			}
		}
	}
	// 3. mutations of valid messages
	for _, kind := range []string{"ed25519", "p256", "p384", "rs256", "ps256"} {
		kind := kind
		k, k2 := fx.NewKey(kind, iss, "k1"), fx.NewKey(kind, iss, "k2-b")
		pc := fx.Checker(k, k2)
		mk := func() coseMsg {
			return mkCose(map[any]any{1: int64(k.Cose), 4: []byte(k.KID), "COSE_Key": "", 3: "text/x"}, map[any]any{16: "t"}, pl(iss), k)
		}
		reject := func(t *h.T, d []byte, what string) {
			t.Step("%s", what)
			is := iss
			for i, err := range []error{cwtParse(d, pc, true), cwtParse(d, pc, false), cwtCheck(d, pc, &is), cwtCheck(d, pc, nil)} {
				if err == nil {
					t.Fail("message with %s is accepted by entry %d", what, i)
				}
			}
		}
		for part := 0; part < 3; part++ {
			part := part
			e.Casef(func(t *h.T) {
				m := mk()
				if err := cwtParse(m.bytes(), pc, true); err != nil {
					t.Fatal("valid message refused: %v", err)
				}
				raw := [][]byte{m.prot, m.payload.([]byte), m.sig}[part]
				put := func(b []byte) []byte {
					n := m
					switch part {
					case 0:
						n.prot = b
					case 1:
						n.payload = b
					case 2:
						n.sig = b
					}
					return n.bytes()
				}
				masks := []byte{1, 2, 4, 8, 16, 32, 64, 128}
				if kind == "p384" && !e.Thorough() {
					masks = []byte{1, 128}
				}
				for i := range raw {
					for _, x := range masks {
						b := append([]byte{}, raw...)
						b[i] ^= x
						reject(t, put(b), fmt.Sprintf("bit %x of byte %d of part %d flipped", x, i, part))
					}
				}
				for n := 0; n < len(raw); n++ {
					reject(t, put(raw[:n]), fmt.Sprintf("part %d cut to %d bytes", part, n))
					if part != 2 || n+1 < len(raw) {
						reject(t, put(raw[n+1:]), fmt.Sprintf("part %d without its first %d bytes", part, n+1))
					}
				}
				for _, x := range [][]byte{{0}, {0xf6}, {1, 2, 3, 4}} {
					if part == 2 && (kind == "p256" || kind == "p384") {
						continue
					}
					reject(t, put(append(append([]byte{}, raw...), x...)), fmt.Sprintf("part %d with %d bytes appended", part, len(x)))
				}
			}, "mutate/%s/%d", kind, part)
		}
		e.Casef(func(t *h.T) {
			a := mk()
			b := mkCose(map[any]any{1: int64(k.Cose), 4: []byte(k.KID), "COSE_Key": ""}, nil, cb(map[any]any{1: iss, 2: "y"}), k)
			c := mkCose(map[any]any{1: int64(k.Cose), 4: []byte(k2.KID), "COSE_Key": ""}, nil, cb(map[any]any{1: iss, 2: "z"}), k2)
			all := []coseMsg{a, b, c}
			h.Product([]int{3, 3, 3}, func(ix []int) {
				if ix[0] == ix[1] && ix[1] == ix[2] {
					return
				}
				m := coseMsg{prot: all[ix[0]].prot, payload: all[ix[1]].payload, sig: all[ix[2]].sig}
				reject(t, m.bytes(), fmt.Sprint("parts of messages ", ix))
			})
			for _, m := range []coseMsg{
				{prot: a.prot, payload: nil, sig: a.sig}, {prot: a.prot, payload: a.payload, sig: nil}, {prot: []byte{}, payload: a.payload, sig: a.sig},
				{prot: a.prot, payload: a.payload, sig: a.sig, untagged: true}, {prot: a.prot, payload: a.payload, sig: a.sig, tag: 98},
				{prot: a.prot, payload: "text", sig: a.sig}, {prot: a.prot, payload: a.payload, sig: []byte{}}, {prot: a.prot, payload: a.payload, sig: make([]byte, len(a.sig))},
			} {
				reject(t, m.bytes(), "a missing or retyped part")
			}
			reject(t, append(a.bytes(), 0), "trailing data")
			reject(t, nil, "nothing")
			reject(t, []byte{0xf6}, "null")
			// signed as another structure
			for _, tbs := range [][]byte{
				cb([]any{"Signature", a.prot, []byte{}, a.payload}), cb([]any{"MAC0", a.prot, []byte{}, a.payload}), cb([]any{"Signature1", a.prot, []byte{1}, a.payload}),
				cb([]any{"Signature1", []byte{}, []byte{}, a.payload}), cb([]any{"Signature1", a.prot, a.payload}), a.payload.([]byte), a.prot,
				cb([]any{"Signature1", a.prot, []byte{}, []byte{}}), cb([]any{"CounterSignature0", a.prot, []byte{}, a.payload}),
			} {
				m := a
				m.sig = signWith(k, tbs)
				reject(t, m.bytes(), "a signature over another structure")
			}
			// every other algorithm named and re-signed with the same key
			for n := range coseAlgTable {
				if n == int64(k.Cose) {
					continue
				}
				reject(t, mkCose(map[any]any{1: n, 4: []byte(k.KID), "COSE_Key": ""}, nil, pl(iss), k).bytes(), fmt.Sprint("alg ", n))
			}
			// the unprotected header is not covered
			for _, un := range []map[any]any{nil, {16: "t"}, {99: []any{1}}} {
				m := a
				m.unprot = un
				if err := cwtParse(m.bytes(), pc, true); err != nil {
					t.Fail("unprotected header %v: %v", un, err)
				}
			}
		}, "splice/%s", kind)
		// 4. credentials
		e.Casef(func(t *h.T) { p10Cred(t, e, k, k2) }, "credential/%s", kind)
		for _, ik := range []string{iss, oth} {
			for _, signer := range []string{"iss#k1", "other#k1"} {
				for _, kid := range []string{"iss#k1", "other#k1", "iss#nokey", "", "absent"} {
					ik, signer, kid := ik, signer, kid
					e.Casef(func(t *h.T) {
						keys := map[string]*fx.Key{"iss#k1": k, "other#k1": fx.NewKey(kind, oth, "k1")}
						kidS := iss + "#nokey"
						if kk := keys[kid]; kk != nil {
							kidS = kk.KID
						}
						prot := map[any]any{1: int64(k.Cose), 4: []byte(kidS)}
						if kid == "" {
							prot[4] = []byte{}
						} else if kid == "absent" {
							delete(prot, 4)
						}
						// the claim "iss" names the signer: the credential's issuer decides
						vcm := p10VC(ik)
						for _, claim := range []string{iss, oth} {
							d := mkCose(prot, nil, cb(map[string]any{"iss": claim, "vc": vcm}), keys[signer]).bytes()
							want := kid == signer && keys[kid].DID == ik
							r := fx.NewResolver(keys["iss#k1"], keys["other#k1"])
							for _, in := range [][]byte{d, []byte(hex.EncodeToString(d)), []byte(`"` + hex.EncodeToString(d) + `"`)} {
								_, err := verifiable.ParseCredential(in, verifiable.WithProofChecker(fx.CheckerR(r)), verifiable.WithCWTProofChecker(fx.CheckerR(r)), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
								t.Step("claim %s: %v", claim, err)
								if (err == nil) != want {
									t.Fail("claim iss %s: got %v, policy says accept=%v", claim, err, want)
								}
							}
						}
					}, "credential-issuer/%s/%s/%s/%s", kind, ik, signer, kid)
				}
			}
		}
	}
}

func p10VC(iss string) map[string]any {
	return map[string]any{"@context": []any{"https://www.w3.org/2018/credentials/v1"}, "id": "urn:vc", "type": []any{"VerifiableCredential"},
		"issuer": iss, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": map[string]any{"id": "did:ex:s"}}
}

// p10Cred: a credential signed by the library verifies, in all encodings, and does not after
// any bit change of a signed part.
func p10Cred(t *h.T, e *h.Env, k, k2 *fx.Key) {
	pc := fx.Checker(k, k2)
	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(pc), verifiable.WithCWTProofChecker(pc), verifiable.WithJSONLDDocumentLoader(fx.Loader())}
	vc, err := verifiable.ParseCredentialJSON(p10VC(k.DID), verifiable.WithCredDisableValidation())
	t.Must(err, "credential")
	s, err := vc.CreateSignedCOSEVC(k.Cose, p10Signer{k}, k.KID)
	t.Must(err, "sign")
	raw, err := s.MarshalAsCWTLD()
	t.Must(err, "marshal")
	hx, err := s.MarshalAsCWTLDHex()
	t.Must(err, "marshal hex")
	for _, in := range [][]byte{raw, []byte(hx), []byte(`"` + hx + `"`)} {
		got, err := verifiable.ParseCredential(in, opts...)
		t.Step("signed credential: %v", err)
		if err != nil {
			t.Fatal("credential signed by the library is refused: %v", err)
		}
		if got.Contents().Issuer.ID != k.DID || got.Contents().ID != "urn:vc" || !got.IsCWT() {
			t.Fail("parsed credential is %v", got.Contents())
		}
		if err := got.CheckProof(opts...); err != nil {
			t.Fail("proof of the parsed credential: %v", err)
		}
	}
	var arr cbor.Tag
	if err := cbor.Unmarshal(raw, &arr); err != nil {
		t.Fatal("tag: %v", err)
	}
	parts := arr.Content.([]any)
	m := coseMsg{prot: parts[0].([]byte), payload: parts[2].([]byte), sig: parts[3].([]byte)}
	step := 1
	if !e.Thorough() {
		step = 3
	}
	for part := 0; part < 3; part++ {
		src := [][]byte{m.prot, m.payload.([]byte), m.sig}[part]
		for i := 0; i < len(src); i += step {
			for _, x := range []byte{1, 0x20, 0x80} {
				b := append([]byte{}, src...)
				b[i] ^= x
				n := m
				switch part {
				case 0:
					n.prot = b
				case 1:
					n.payload = b
				case 2:
					n.sig = b
				}
				t.Step("part %d byte %d ^ %x", part, i, x)
				if _, err := verifiable.ParseCredential(n.bytes(), opts...); err == nil {
					t.Fail("credential with part %d byte %d ^ %x is accepted", part, i, x)
				}
			}
		}
	}
}

// p10Signer signs whatever algorithm is asked for with one key.
type p10Signer struct{ k *fx.Key }

func (s p10Signer) SignCWT(_ cwt.SignParameters, data []byte) ([]byte, error) {
	return signWith(s.k, data), nil
}
