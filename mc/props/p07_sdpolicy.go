package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P07", Level: "enumerated", Gen: genP07,
		Rule: "the product of issuer-token features and verifier options, the product of holder-binding features and options, and pairs of features across the two; the verdict of the real verifier is compared with a reference policy",
		Assume: []string{"times are at least 30 s away from the boundary, so the wall clock does not matter",
			"sd_hash of later drafts is not part of the implemented drafts"}})
}

const p07Iss = "did:verif:issuer"

// tclaim is a time claim: absent, an offset from now, or a raw value.
type tclaim struct {
	name string
	set  bool
	off  time.Duration
	raw  any
}

func (c tclaim) put(m map[string]any, k string, now time.Time) {
	switch {
	case c.raw != nil:
		m[k] = c.raw
	case c.set:
		m[k] = now.Add(c.off).Unix()
	}
}

var (
	tAbsent = tclaim{name: "-"}
	tPast   = tclaim{name: "-2h", set: true, off: -2 * time.Hour}
	tFut    = tclaim{name: "+2h", set: true, off: 2 * time.Hour}
	tNearP  = tclaim{name: "-30s", set: true, off: -30 * time.Second}
	tNearF  = tclaim{name: "+30s", set: true, off: 30 * time.Second}
	tMidP   = tclaim{name: "-3m", set: true, off: -3 * time.Minute}
	tMidF   = tclaim{name: "+3m", set: true, off: 3 * time.Minute}
	tMenu   = []tclaim{tAbsent, tPast, tMidP, tNearP, tNearF, tMidF, tFut}
)

// timeOK is the reference policy for time claims.
func timeOK(exp, nbf, iat tclaim, lee time.Duration) bool {
	if exp.set && exp.off+lee < 0 {
		return false
	}
	if nbf.set && nbf.off-lee > 0 {
		return false
	}
	return !(iat.set && iat.off-lee > 0)
}

type p07Tok struct {
	key           *fx.Key // signing key
	alg           string  // header alg, "" = the key's
	kid           string  // header kid, "" = the key's
	sig           string  // ok, flip, none, strip, swap
	iss           string  // "-" = absent
	typ           string
	exp, nbf, iat tclaim
	cnf           any // nil = absent
	cnfInVC       bool
	vcCnf         any // a second cnf, in the vc
	elsewhere     any // a cnf at other places
}

func (p p07Tok) build(now time.Time) string {
	hdr := map[string]any{"alg": p.key.JWTAlg, "kid": p.key.KID}
	if p.alg != "" {
		hdr["alg"] = p.alg
	}
	if p.kid != "" {
		hdr["kid"] = p.kid
	}
	if p.typ != "" {
		hdr["typ"] = p.typ
	}
	pl := map[string]any{"_sd_alg": "sha-256", "sub": "x"}
	if p.iss != "-" {
		pl["iss"] = p.iss
	}
	p.exp.put(pl, "exp", now)
	p.nbf.put(pl, "nbf", now)
	p.iat.put(pl, "iat", now)
	if p.cnf != nil {
		if p.cnfInVC {
			pl["vc"] = map[string]any{"cnf": p.cnf}
		} else {
			pl["cnf"] = p.cnf
		}
	}
	if p.vcCnf != nil {
		pl["vc"] = map[string]any{"cnf": p.vcCnf}
	}
	if p.elsewhere != nil {
		pl["sub_jwk"], pl["jwk"], pl["Cnf"], pl["credentialSubject"], pl["l"] = p.elsewhere.(map[string]any)["jwk"], p.elsewhere.(map[string]any)["jwk"], p.elsewhere, map[string]any{"cnf": p.elsewhere}, []any{map[string]any{"cnf": p.elsewhere}}
	}
	return sigTamper(hdr, pl, p.key, p.sig)
}

func sigTamper(hdr, pl map[string]any, k *fx.Key, sig string) string {
	if sig == "none" {
		hdr["alg"] = "none"
	}
	s := rawJWS(hdr, []byte(h.JSON(pl)), k)
	p := strings.Split(s, ".")
	switch sig {
	case "flip":
		b := []byte(p[2])
		if b[3] == 'A' {
			b[3] = 'B'
		} else {
			b[3] = 'A'
		}
		return p[0] + "." + p[1] + "." + string(b)
	case "none", "strip":
		return p[0] + "." + p[1] + "."
	case "swap":
		pl["sub"] = "other"
		return p[0] + "." + b64u.EncodeToString([]byte(h.JSON(pl))) + "." + p[2]
	}
	return s
}

type p07Hold struct {
	absent        bool
	key           *fx.Key
	alg, sig, typ string
	nonce, aud    any
	exp, nbf, iat tclaim
	garbage       string
}

func (p p07Hold) build(now time.Time) string {
	if p.absent {
		return ""
	}
	if p.garbage != "" {
		return p.garbage
	}
	hdr := map[string]any{"alg": p.key.JWTAlg}
	if p.alg != "" {
		hdr["alg"] = p.alg
	}
	if p.typ != "" {
		hdr["typ"] = p.typ
	}
	pl := map[string]any{"sub": "x"}
	if p.nonce != nil {
		pl["nonce"] = p.nonce
	}
	if p.aud != nil {
		pl["aud"] = p.aud
	}
	p.exp.put(pl, "exp", now)
	p.nbf.put(pl, "nbf", now)
	p.iat.put(pl, "iat", now)
	return sigTamper(hdr, pl, p.key, p.sig)
}

type p07Opt struct {
	algs     []string // nil = default
	halgs    []string
	typ      string
	lee      time.Duration // <0 = default (1 min)
	required bool
	nonce    string
	aud      string
}

func (o p07Opt) leeway() time.Duration {
	if o.lee < 0 {
		return time.Minute
	}
	return o.lee
}

func (o p07Opt) list() []verifier.ParseOpt {
	out := []verifier.ParseOpt{}
	if o.algs != nil {
		out = append(out, verifier.WithIssuerSigningAlgorithms(o.algs))
	}
	if o.halgs != nil {
		out = append(out, verifier.WithHolderSigningAlgorithms(o.halgs))
	}
	if o.typ != "" {
		out = append(out, verifier.WithExpectedTypHeader(o.typ))
	}
	if o.lee >= 0 {
		out = append(out, verifier.WithLeewayForClaimsValidation(o.lee))
	}
	if o.required {
		out = append(out, verifier.WithHolderVerificationRequired(true))
	}
	if o.nonce != "" {
		out = append(out, verifier.WithExpectedNonceForHolderVerification(o.nonce))
	}
	if o.aud != "" {
		out = append(out, verifier.WithExpectedAudienceForHolderVerification(o.aud))
	}
	return out
}

func inAlgs(a string, l []string) bool {
	if l == nil {
		l = []string{"EdDSA", "RS256"}
	}
	for _, x := range l {
		if x == a {
			return a != "none"
		}
	}
	return false
}

// wantIssuer is the reference verdict on the issuer-signed part.
func (p p07Tok) wantIssuer(o p07Opt) bool {
	return p.sig == "ok" && (p.alg == "" || p.alg == p.key.JWTAlg) && (p.kid == "" || p.kid == p.key.KID) && p.key.DID == p07Iss && p.iss == p07Iss &&
		inAlgs(p.key.JWTAlg, o.algs) && timeOK(p.exp, p.nbf, p.iat, o.leeway()) && (o.typ == "" || o.typ == p.typ)
}

// wantHolder is the reference verdict on the holder binding. hk is the key confirmed by the issuer.
func (p p07Hold) wantHolder(o p07Opt, hk *fx.Key) bool {
	if p.absent {
		return !o.required
	}
	if p.garbage != "" || hk == nil || p.sig != "ok" || !samePub(p.key, hk) || !(p.alg == "" || p.alg == p.key.JWTAlg) {
		return false
	}
	if o.nonce != "" && p.nonce != o.nonce || o.aud != "" && p.aud != o.aud {
		return false
	}
	return inAlgs(p.key.JWTAlg, o.halgs) && timeOK(p.exp, p.nbf, p.iat, o.leeway())
}

func cnfOf(k *fx.Key) map[string]any {
	b, err := k.JWK.MarshalJSON()
	if err != nil {
		panic(err)
	}
	var m map[string]any
	_ = json.Unmarshal(b, &m)
	return map[string]any{"jwk": m}
}

func genP07(e *h.Env) {
	ik := map[string]*fx.Key{}
	for _, kind := range []string{"ed25519", "p256", "rs256", "ps256", "p384", "p521", "secp256k1"} {
		ik[kind] = fx.NewKey(kind, p07Iss, "k1")
	}
	ed := ik["ed25519"]
	mallory := fx.NewKey("ed25519", "did:verif:mallory", "k1")
	holderK := fx.NewKey("ed25519", "did:verif:holder", "h1")
	// judge runs one token; verdict nil means not judged beyond "no panic".
	judge := func(t *h.T, tok p07Tok, hd p07Hold, o p07Opt, want bool, keys ...*fx.Key) {
		now := time.Now()
		d := mkDisc("s", "n", "v")
		s := tok.build(now) + "~" + hd.build(now)
		_ = d
		res, err := verifier.Parse(s, append(o.list(), verifier.WithSignatureVerifier(fx.Checker(keys...)))...)
		if (err == nil) != want {
			t.Fail("accepted=%v, expected %v (%v) %s", err == nil, want, err, h.JSON(res))
		}
		t.Step("verdict %v", err == nil)
		t.Outcome("ok=%v", want)
		t.Statef("%v %v", want, err)
	}
	algOpts := [][]string{nil, {}, {"none"}, {"ES256", "PS256", "ES384", "ES521", "ES256K"}, {"EdDSA", "none"}, {"eddsa"}, {"RS256"}}
	lees := []time.Duration{-1, 0, time.Hour, 5 * time.Minute}
	noH := p07Hold{absent: true}
	base := p07Tok{key: ed, sig: "ok", iss: p07Iss}

	// 1. Issuer signature x algorithm policy x header algorithm x issuer x required.
	for _, kind := range sortedKeys(ik) {
		k := ik[kind]
		for _, sig := range []string{"ok", "flip", "none", "strip", "swap"} {
			for _, alg := range []string{"", "none", "None", "EdDSA", "ES256", "RS256", "PS256", "HS256"} {
				for ai, ao := range algOpts {
					for _, iss := range []string{p07Iss, "-", "", "did:verif:mallory", p07Iss + "x", "did:verif"} {
						for _, req := range []bool{false, true} {
							tok := p07Tok{key: k, sig: sig, alg: alg, iss: iss}
							o := p07Opt{algs: ao, lee: -1, required: req}
							e.Case(fmt.Sprintf("issuer %s sig=%s alg=%s algs=%d iss=%s req=%v", kind, sig, alg, ai, iss, req), func(t *h.T) {
								judge(t, tok, noH, o, tok.wantIssuer(o) && !req, k, mallory)
							})
						}
					}
				}
			}
		}
	}
	// Another key under the issuer's name or its own.
	for _, kid := range []string{"", ed.KID, "did:verif:mallory#k1", p07Iss + "#nokey", p07Iss} {
		for _, iss := range []string{p07Iss, "did:verif:mallory", "-"} {
			for _, sk := range []*fx.Key{mallory, ed} {
				tok := p07Tok{key: sk, kid: kid, sig: "ok", iss: iss}
				want := sk == ed && iss == p07Iss && (kid == "" || kid == ed.KID) || sk == mallory && iss == "did:verif:mallory" && (kid == "" || kid == mallory.KID)
				e.Casef(func(t *h.T) { judge(t, tok, noH, p07Opt{lee: -1}, want, ed, mallory) }, "signer %s kid=%s iss=%s", sk.DID, kid, iss)
			}
		}
	}
	// 2. Times x leeway.
	for _, exp := range tMenu {
		for _, nbf := range tMenu {
			for _, iat := range tMenu {
				for _, lee := range lees {
					for _, where := range []string{"issuer", "holder", "holder-kb"} {
						o := p07Opt{lee: lee}
						e.Case(fmt.Sprintf("time %s exp=%s nbf=%s iat=%s lee=%s", where, exp.name, nbf.name, iat.name, lee), func(t *h.T) {
							tok, hd := base, noH
							if where == "issuer" {
								tok.exp, tok.nbf, tok.iat = exp, nbf, iat
							} else {
								tok.cnf = cnfOf(holderK)
								hd = p07Hold{key: holderK, sig: "ok", exp: exp, nbf: nbf, iat: iat}
								if where == "holder-kb" {
									hd.typ = "kb+jwt"
								}
							}
							judge(t, tok, hd, o, timeOK(exp, nbf, iat, o.leeway()), ed)
						})
					}
				}
			}
		}
	}
	// Unusual values of the time claims: a value that is not a time must not be taken for an acceptable one.
	far := time.Now().Add(2 * time.Hour).Unix()
	past := time.Now().Add(-2 * time.Hour).Unix()
	type odd struct {
		name string
		v    any
		want map[string]bool // per claim; missing = must be rejected
	}
	odds := []odd{
		{"float future", float64(far) + 0.5, map[string]bool{"exp": true}},
		{"float past", float64(past) + 0.5, map[string]bool{"nbf": true, "iat": true}},
		{"exponent future", json.RawMessage("9.9e9"), map[string]bool{"exp": true}},
		{"exponent past", json.RawMessage("1e3"), map[string]bool{"nbf": true, "iat": true}},
		{"negative", json.RawMessage("-5"), map[string]bool{"nbf": true, "iat": true}},
		{"text", "tomorrow", nil}, {"object", map[string]any{"x": 1}, nil}, {"list", []any{past, far}, nil},
		{"huge", json.RawMessage("1e300"), map[string]bool{"exp": true}},
		{"int64+", json.RawMessage("18446744073709551616"), map[string]bool{"exp": true}},
		{"2^63", json.RawMessage("9223372036854775808"), map[string]bool{"exp": true}},
		{"minus huge", json.RawMessage("-1e300"), map[string]bool{"nbf": true, "iat": true}},
		{"big", json.RawMessage("99999999999999"), map[string]bool{"exp": true}},
	}
	for _, od := range odds {
		for _, cl := range []string{"exp", "nbf", "iat"} {
			for _, where := range []string{"issuer", "holder"} {
				e.Casef(func(t *h.T) {
					tok, hd := base, noH
					c := tclaim{raw: od.v}
					if where == "issuer" {
						switch cl {
						case "exp":
							tok.exp = c
						case "nbf":
							tok.nbf = c
						default:
							tok.iat = c
						}
					} else {
						tok.cnf = cnfOf(holderK)
						hd = p07Hold{key: holderK, sig: "ok"}
						switch cl {
						case "exp":
							hd.exp = c
						case "nbf":
							hd.nbf = c
						default:
							hd.iat = c
						}
					}
					now := time.Now()
					_, err := verifier.Parse(tok.build(now)+"~"+hd.build(now), verifier.WithSignatureVerifier(fx.Checker(ed)))
					if err == nil && !od.want[cl] {
						t.Fail("accepted %s=%s", cl, h.JSON(od.v))
					}
					if err != nil && od.want[cl] && od.name != "huge" && od.name != "int64+" && od.name != "2^63" && od.name != "minus huge" {
						t.Fail("rejected %s=%s: %v", cl, h.JSON(od.v), err)
					}
				}, "odd time %s %s %s", where, cl, od.name)
			}
		}
	}
	// 3. typ.
	for _, typ := range []string{"", "JWT", "SD-JWT", "vc+sd-jwt", "kb+jwt", "VC+SD-JWT"} {
		for _, exp := range []string{"", "vc+sd-jwt", "JWT", "SD-JWT"} {
			tok := base
			tok.typ = typ
			o := p07Opt{typ: exp, lee: -1}
			e.Casef(func(t *h.T) {
				now := time.Now()
				_, err := verifier.Parse(tok.build(now), append(o.list(), verifier.WithSignatureVerifier(fx.Checker(ed)))...)
				if err == nil && !tok.wantIssuer(o) {
					t.Fail("accepted")
				}
				// A type the JWT layer does not know may be rejected; a known one must pass.
				if err != nil && tok.wantIssuer(o) && typ != "VC+SD-JWT" && typ != "SD-JWT" {
					t.Fail("rejected: %v", err)
				}
			}, "typ %s expected %s", typ, exp)
		}
	}
	// 4. Holder binding.
	hks := map[string]*fx.Key{"ed25519": holderK}
	for _, kind := range []string{"p256", "rs256", "ps256", "secp256k1", "p384", "p521"} {
		hks[kind] = fx.NewKey(kind, "did:verif:holder", "h1")
	}
	other := fx.NewKey("ed25519", "did:verif:mallory", "h1")
	for _, kind := range sortedKeys(hks) {
		hk := hks[kind]
		ok2 := fx.NewKey(kind, "did:verif:mallory", "h1")
		cnfs := map[string]struct {
			v  any
			k  *fx.Key
			vc bool
		}{
			"own": {cnfOf(hk), hk, false}, "own-in-vc": {cnfOf(hk), hk, true}, "other": {cnfOf(ok2), ok2, false},
			"absent": {nil, nil, false}, "empty": {map[string]any{}, nil, false}, "kid": {map[string]any{"kid": hk.KID}, nil, false},
			"string": {"x", nil, false}, "jwk-string": {map[string]any{"jwk": "x"}, nil, false}, "jwk-empty": {map[string]any{"jwk": map[string]any{}}, nil, false},
			"own, other in vc": {cnfOf(hk), hk, false}, "other, own in vc": {cnfOf(ok2), ok2, false}, "own, other elsewhere": {cnfOf(hk), hk, false}, "elsewhere": {nil, nil, false}, "own in vc, other elsewhere": {cnfOf(hk), hk, true},
			"jwk-null": {map[string]any{"jwk": nil}, nil, false}, "list": {[]any{cnfOf(hk)}, nil, false},
		}
		for _, cn := range sortedKeys(cnfs) {
			c := cnfs[cn]
			for _, sig := range []string{"ok", "flip", "none", "strip", "swap"} {
				for _, sk := range []*fx.Key{hk, ok2, ed} {
					for hi, halgs := range [][]string{nil, {}, {"none"}, {hk.JWTAlg}, {"EdDSA", "none"}} {
						for _, req := range []bool{true, false} {
							for _, alg := range []string{"", "EdDSA", "ES256", "none"} {
								tok := base
								tok.cnf, tok.cnfInVC = c.v, c.vc
								switch {
								case cn == "other, own in vc":
									tok.vcCnf = cnfOf(hk)
								case strings.HasSuffix(cn, "other in vc"):
									tok.vcCnf = cnfOf(ok2)
								case cn == "elsewhere":
									tok.elsewhere = cnfOf(hk)
								case strings.HasSuffix(cn, "other elsewhere"):
									tok.elsewhere = cnfOf(ok2)
								}
								hd := p07Hold{key: sk, sig: sig, alg: alg}
								o := p07Opt{lee: -1, required: req, halgs: halgs}
								e.Case(fmt.Sprintf("holder %s cnf=%s sig=%s by=%s halgs=%d req=%v alg=%s", kind, cn, sig, sk.KID+sk.Name, hi, req, alg), func(t *h.T) {
									judge(t, tok, hd, o, hd.wantHolder(o, c.k), ed, other)
								})
							}
						}
					}
				}
			}
		}
	}
	// Nonce, audience, typ, requirement.
	vals := []any{nil, "n1", "n2", "", "N1", "n1 "}
	for _, nonce := range vals {
		for _, aud := range vals {
			for _, en := range []string{"", "n1"} {
				for _, ea := range []string{"", "n1"} {
					for _, typ := range []string{"", "kb+jwt", "JWT"} {
						for _, req := range []bool{true, false} {
							for _, ht := range []tclaim{tAbsent, tPast, tFut} {
								for _, sig := range []string{"ok", "flip"} {
									tok := base
									tok.cnf = cnfOf(holderK)
									hd := p07Hold{key: holderK, sig: sig, nonce: nonce, aud: aud, typ: typ, exp: ht}
									o := p07Opt{lee: -1, required: req, nonce: en, aud: ea}
									e.Case(fmt.Sprintf("nonce=%v aud=%v expn=%s expa=%s typ=%s req=%v exp=%s sig=%s", nonce, aud, en, ea, typ, req, ht.name, sig), func(t *h.T) {
										judge(t, tok, hd, o, hd.wantHolder(o, holderK), ed)
									})
								}
							}
						}
					}
				}
			}
		}
	}
	for _, v := range []any{[]any{"n2"}, []any{}, map[string]any{"n1": "n1"}, true, []any{"n1x", "n2"}, 1} {
		for _, f := range []string{"nonce", "aud"} {
			for _, typ := range []string{"", "kb+jwt"} {
				tok := base
				tok.cnf = cnfOf(holderK)
				hd := p07Hold{key: holderK, sig: "ok", nonce: "n1", aud: "n1", typ: typ}
				if f == "nonce" {
					hd.nonce = v
				} else {
					hd.aud = v
				}
				e.Casef(func(t *h.T) { judge(t, tok, hd, p07Opt{lee: -1, nonce: "n1", aud: "n1"}, false, ed) }, "odd %s %s %s", f, h.JSON(v), typ)
			}
		}
	}
	for _, g := range []string{"x", "a.b.c", ".", "..", "e30.e30.", "e30.e30.AA", " ", "~", "null"} {
		for _, req := range []bool{true, false} {
			tok := base
			tok.cnf = cnfOf(holderK)
			e.Casef(func(t *h.T) { judge(t, tok, p07Hold{garbage: g}, p07Opt{lee: -1, required: req}, false, ed) }, "garbage binding %q req=%v", g, req)
		}
	}
	// The required flag with no binding segment in every serialisation.
	for _, suffix := range []string{"", "~", "~~"} {
		for _, req := range []bool{true, false} {
			e.Casef(func(t *h.T) {
				tok := base
				tok.cnf = cnfOf(holderK)
				opts := []verifier.ParseOpt{verifier.WithSignatureVerifier(fx.Checker(ed)), verifier.WithHolderVerificationRequired(req),
					verifier.WithExpectedNonceForHolderVerification("n"), verifier.WithExpectedAudienceForHolderVerification("a")}
				_, err := verifier.Parse(tok.build(time.Now())+suffix, opts...)
				if req && err == nil {
					t.Fail("accepted without a binding")
				}
				if !req && err != nil && suffix != "~~" {
					t.Fail("rejected: %v", err)
				}
			}, "no binding %q req=%v", suffix, req)
		}
	}
	// 5. Pairs: every issuer-side deviation with every holder-side deviation and option.
	toks := map[string]p07Tok{"ok": base}
	for n, f := range map[string]func(p *p07Tok){
		"flip": func(p *p07Tok) { p.sig = "flip" }, "none": func(p *p07Tok) { p.sig = "none" }, "swap": func(p *p07Tok) { p.sig = "swap" },
		"noiss": func(p *p07Tok) { p.iss = "-" }, "iss": func(p *p07Tok) { p.iss = "did:verif:mallory" }, "exp": func(p *p07Tok) { p.exp = tPast },
		"nbf": func(p *p07Tok) { p.nbf = tFut }, "iat": func(p *p07Tok) { p.iat = tFut }, "key": func(p *p07Tok) { p.key = mallory },
		"typ": func(p *p07Tok) { p.typ = "JWT" }, "times": func(p *p07Tok) { p.exp, p.nbf, p.iat = tFut, tPast, tPast },
	} {
		x := base
		f(&x)
		toks[n] = x
	}
	okH := p07Hold{key: holderK, sig: "ok", nonce: "n1", aud: "a1", iat: tPast}
	holds := map[string]p07Hold{"ok": okH, "absent": noH}
	for n, f := range map[string]func(p *p07Hold){
		"flip": func(p *p07Hold) { p.sig = "flip" }, "none": func(p *p07Hold) { p.sig = "none" }, "swap": func(p *p07Hold) { p.sig = "swap" },
		"key": func(p *p07Hold) { p.key = other }, "issuerkey": func(p *p07Hold) { p.key = ed }, "nonce": func(p *p07Hold) { p.nonce = "x" },
		"aud": func(p *p07Hold) { p.aud = "x" }, "exp": func(p *p07Hold) { p.exp = tPast }, "iat": func(p *p07Hold) { p.iat = tFut }, "nbf": func(p *p07Hold) { p.nbf = tFut },
		"kb": func(p *p07Hold) { p.typ = "kb+jwt" },
	} {
		x := okH
		f(&x)
		holds[n] = x
	}
	opts := map[string]p07Opt{}
	for _, req := range []bool{true, false} {
		for _, n := range []string{"", "n1"} {
			for _, a := range []string{"", "a1"} {
				for _, ty := range []string{"", "JWT"} {
					opts[fmt.Sprintf("%v,%s,%s,%s", req, n, a, ty)] = p07Opt{lee: -1, required: req, nonce: n, aud: a, typ: ty}
				}
			}
		}
	}
	for _, tn := range sortedKeys(toks) {
		for _, hn := range sortedKeys(holds) {
			for _, on := range sortedKeys(opts) {
				for _, cnf := range []*fx.Key{holderK, other, nil} {
					tok, hd, o := toks[tn], holds[hn], opts[on]
					cn := "-"
					if cnf != nil {
						cn = cnf.DID
						tok.cnf = cnfOf(cnf)
					}
					e.Case(fmt.Sprintf("pair issuer=%s holder=%s opts=%s cnf=%s", tn, hn, on, cn), func(t *h.T) {
						judge(t, tok, hd, o, tok.wantIssuer(o) && hd.wantHolder(o, cnf), ed, mallory)
					})
				}
			}
		}
	}
	// 6. The holder's own parsing under the version 5 rules.
	for _, tn := range sortedKeys(toks) {
		for ai, ao := range [][]string{{"EdDSA"}, {}, {"RS256"}, {"none"}} {
			for _, et := range []string{"", "JWT"} {
				for _, kb := range []string{"", "good", "unsecured"} {
					tok := toks[tn]
					e.Casef(func(t *h.T) {
						now := time.Now()
						s := tok.build(now)
						switch kb {
						case "good":
							s += "~" + okH.build(now)
						case "unsecured":
							u := okH
							u.sig = "none"
							s += "~" + u.build(now)
						}
						o := p07Opt{algs: ao, typ: et, lee: 0}
						want := kb == "" && tok.wantIssuer(o)
						_, err := holder.Parse(s, holder.WithSignatureVerifier(fx.Checker(ed, mallory)), holder.WithSDJWTV5Validation(true),
							holder.WithIssuerSigningAlgorithms(ao), holder.WithExpectedTypHeader(et), holder.WithLeewayForClaimsValidation(0))
						if (err == nil) != want {
							t.Fail("accepted=%v, expected %v (%v)", err == nil, want, err)
						}
					}, "holder-v5 %s algs=%d typ=%s kb=%s", tn, ai, et, kb)
				}
			}
		}
	}
	// 7. No proof checker at all must not mean accepted.
	for _, tn := range sortedKeys(toks) {
		tok := toks[tn]
		e.Casef(func(t *h.T) {
			if _, err := verifier.Parse(tok.build(time.Now())); err == nil {
				t.Fail("accepted without a signature verifier")
			}
		}, "no verifier %s", tn)
	}
}
