package props

import (
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P06", Level: "enumerated", Gen: genP06,
		Rule: "every fault of the menu at every disclosure and digest position of every base token (and pairs of faults), every pair of places for a repeated digest, every hash algorithm value; verifier, holder and credential parser run on each and compared with an independent processor",
		Assume: []string{"payloads are validly signed: tampering with the signed part is P07 and P09",
			"array elements of the form {\"...\": x} with further members are not judged"}})
}

// sdTok is a hand-made SD-JWT.
type sdTok struct {
	payload map[string]any
	ds      []string
}

func mkDisc(v ...any) string { return b64u.EncodeToString([]byte(h.JSON(v))) }

func (s *sdTok) combined(k *fx.Key) string {
	return rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID}, []byte(h.JSON(s.payload)), k)
}

// sdBase builds base tokens with digests in every kind of place. Disclosure order is parents first.
func sdBase(hash crypto.Hash) map[string]func() *sdTok {
	dg := func(d string) string { return sdDigest(hash, d) }
	alg := strings.ToLower(hash.String())
	pl := func(m map[string]any) map[string]any {
		m["iss"], m["_sd_alg"] = "did:verif:issuer", alg
		return m
	}
	return map[string]func() *sdTok{
		"many": func() *sdTok { // more disclosures than one digit counts, in an object, a list and a nested object
			var ds []string
			var top, in, list []any
			for i := 0; i < 6; i++ {
				a, b, c := mkDisc(fmt.Sprint("salt-a", i), fmt.Sprint("a", i), fmt.Sprint("va", i)), mkDisc(fmt.Sprint("salt-b", i), fmt.Sprint("vb", i)), mkDisc(fmt.Sprint("salt-c", i), fmt.Sprint("c", i), i)
				ds = append(ds, a, b, c)
				top, list, in = append(top, dg(a)), append(list, map[string]any{"...": dg(b)}), append(in, dg(c))
			}
			return &sdTok{pl(map[string]any{"_sd": top, "l": list, "o": map[string]any{"_sd": in}}), ds}
		},
		"flat": func() *sdTok {
			a, b := mkDisc("salt-a", "a", "va"), mkDisc("salt-b", "b", map[string]any{"x": 1, "y": []any{"z"}})
			return &sdTok{pl(map[string]any{"_sd": []any{dg(a), dg(b), dg("decoy")}, "c": "vc"}), []string{a, b}}
		},
		"nested": func() *sdTok {
			a, b := mkDisc("salt-a", "a", "va"), mkDisc("salt-b", "a", "vb")
			return &sdTok{pl(map[string]any{"_sd": []any{dg(a)}, "o": map[string]any{"_sd": []any{dg(b)}, "b": "q", "p": map[string]any{"_sd": []any{dg("d2")}}}}), []string{a, b}}
		},
		"array": func() *sdTok {
			a, b := mkDisc("salt-a", "va"), mkDisc("salt-b", map[string]any{"x": "vb"})
			return &sdTok{pl(map[string]any{"l": []any{"p", map[string]any{"...": dg(a)}, map[string]any{"...": dg(b)}, map[string]any{"...": dg("decoy")}}}), []string{a, b}}
		},
		"recursive": func() *sdTok {
			b, c := mkDisc("salt-b", "b", "vb"), mkDisc("salt-c", "vc")
			a := mkDisc("salt-a", "a", map[string]any{"_sd": []any{dg(b)}, "l": []any{map[string]any{"...": dg(c)}, "e"}, "k": "v"})
			return &sdTok{pl(map[string]any{"_sd": []any{dg(a)}}), []string{a, b, c}}
		},
		"elemobj": func() *sdTok {
			a, b := mkDisc("salt-a", "a", "va"), mkDisc("salt-b", "vb")
			return &sdTok{pl(map[string]any{"l": []any{map[string]any{"_sd": []any{dg(a)}, "k": "v"}, []any{map[string]any{"...": dg(b)}}}}), []string{a, b}}
		},
		"elemdeep": func() *sdTok {
			b := mkDisc("salt-b", "b", "vb")
			a := mkDisc("salt-a", map[string]any{"_sd": []any{dg(b)}})
			return &sdTok{pl(map[string]any{"o": map[string]any{"l": []any{map[string]any{"...": dg(a)}}}}), []string{a, b}}
		},
	}
}

// p06Judge runs the parsers on the token and compares them with the reference.
func p06Judge(t *h.T, k *fx.Key, hash crypto.Hash, tok *sdTok, wantReject bool) {
	payload := parseAny([]byte(h.JSON(tok.payload))).(map[string]any)
	exp, rerr := refVerify(hash, payload, tok.ds)
	if wantReject && rerr == nil {
		t.Fatal("harness: the reference accepts this fault")
	}
	jws := tok.combined(k)
	pres := jws + "~" + strings.Join(append(append([]string{}, tok.ds...), ""), "~")
	if len(tok.ds) == 0 {
		pres = jws
	}
	pc := fx.Checker(k)
	res, err := verifier.Parse(pres, verifier.WithSignatureVerifier(pc), verifier.WithIssuerSigningAlgorithms([]string{k.JWTAlg}))
	switch {
	case rerr != nil && err == nil:
		t.FailSub("verifier", "accepted although %v: %s", rerr, h.JSON(res))
	case rerr == nil && err != nil:
		t.FailSub("verifier-rejects", "rejected a proper token: %v", err)
	case rerr == nil:
		if got := h.Canon(parseAny([]byte(h.JSON(res)))); got != h.Canon(exp) {
			t.FailSub("claims", "claims %s, expected %s", got, h.Canon(exp))
		}
	}
	dup := map[string]bool{}
	isDup := false
	for _, d := range tok.ds {
		isDup = isDup || dup[d]
		dup[d] = true
	}
	issuance := jws
	for _, d := range tok.ds {
		issuance += "~" + d
	}
	_, herr := holder.Parse(issuance, holder.WithSignatureVerifier(pc))
	if rerr != nil && herr == nil && !isDup {
		t.FailSub("holder", "holder accepted although %v", rerr)
	}
	if rerr == nil && herr != nil {
		t.FailSub("holder-rejects", "holder rejected a proper token: %v", herr)
	}
	t.Outcome("ref=%v", rerr)
	t.Step("judge %v", rerr)
	t.State(fmt.Sprint(rerr))
}

// p06Cred runs the same fault inside a credential's subject.
func p06Cred(t *h.T, k *fx.Key, hash crypto.Hash, tok *sdTok) {
	sub := copyObj(tok.payload)
	alg, hasAlg := sub["_sd_alg"]
	delete(sub, "iss")
	delete(sub, "_sd_alg")
	vc := p10VC("did:verif:issuer")
	sub["id"] = "did:verif:subject"
	vc["credentialSubject"] = sub
	if hasAlg {
		vc["_sd_alg"] = alg
	}
	payload := map[string]any{"iss": "did:verif:issuer", "vc": vc}
	_, rerr := refVerify(hash, parseAny([]byte(h.JSON(vc))).(map[string]any), tok.ds)
	jws := rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID}, []byte(h.JSON(payload)), k)
	dup := map[string]bool{}
	isDup := false
	for _, d := range tok.ds {
		isDup = isDup || dup[d]
		dup[d] = true
	}
	for _, form := range []string{"issuance", "presentation"} {
		s := jws
		for _, d := range tok.ds {
			s += "~" + d
		}
		if form == "presentation" {
			s += "~"
		} else if strings.HasSuffix(s, "~") {
			continue // reads as a presentation
		}
		vcp, err := verifiable.ParseCredential([]byte(s), verifiable.WithProofChecker(fx.Checker(k)),
			verifiable.WithJSONLDDocumentLoader(fx.Loader()))
		if rerr != nil && err == nil && !isDup && len(tok.ds) > 0 {
			t.FailSub("cred-"+form, "ParseCredential accepted although %v", rerr)
		}
		if rerr == nil && err != nil && len(tok.ds) > 0 {
			t.FailSub("cred-"+form+"-rejects", "ParseCredential rejected a proper token: %v", err)
		}
		if err == nil && rerr == nil {
			if n := len(vcp.SDJWTDisclosures()); n != len(tok.ds) {
				t.FailSub("cred-"+form+"-count", "%d disclosures, expected %d", n, len(tok.ds))
			}
		}
	}
}

type discFault struct {
	name string
	fn   func(ds []string, i int) []string
}

func repl(ds []string, i int, v ...string) []string {
	out := append([]string{}, ds[:i]...)
	out = append(out, v...)
	return append(out, ds[i+1:]...)
}

func reenc(d string, f func(a []any) any) string {
	b, _ := base64.RawURLEncoding.DecodeString(d)
	a := parseAny(b).([]any)
	return b64u.EncodeToString([]byte(h.JSON(f(a))))
}

// discFaults is the menu of faults on one disclosure; all of them must be rejected.
func discFaults(d string) []discFault {
	var out []discFault
	put := func(n string, v ...string) {
		out = append(out, discFault{n, func(ds []string, i int) []string { return repl(ds, i, v...) }})
	}
	const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	for p := 0; p < len(d); p++ {
		n := strings.IndexByte(b64, d[p])
		for _, x := range []int{1, 32} { // lowest bit (padding bits at the end) and highest bit
			put(fmt.Sprintf("flip%d.%d", p, x), d[:p]+string(b64[n^x])+d[p+1:])
		}
	}
	put("pad=", d+"=")
	put("pad==", d+"==")
	put("nl", d+"\n")
	put("space", " "+d)
	put("cut", d[:len(d)-1])
	put("empty", "")
	put("dot", d+".")
	dec, _ := base64.RawURLEncoding.DecodeString(d)
	put("ws", b64u.EncodeToString(append([]byte(" "), dec...)))
	put("ws-end", b64u.EncodeToString(append(append([]byte{}, dec...), '\n')))
	put("std-b64", base64.StdEncoding.EncodeToString(dec)+"=")
	put("plain", string(dec))
	put("salt", reenc(d, func(a []any) any { a[0] = "other"; return a }))
	put("value", reenc(d, func(a []any) any { a[len(a)-1] = "forged"; return a }))
	put("value-null", reenc(d, func(a []any) any { a[len(a)-1] = nil; return a }))
	put("name", reenc(d, func(a []any) any { a[1] = "forged"; return a }))
	put("grow", reenc(d, func(a []any) any { return append(a, "x") }))
	put("shrink", reenc(d, func(a []any) any { return a[:len(a)-1] }))
	put("object", b64u.EncodeToString([]byte(`{"0":"salt","1":"n","2":"v"}`)))
	put("null", b64u.EncodeToString([]byte(`null`)))
	put("emptyarr", b64u.EncodeToString([]byte(`[]`)))
	put("notjson", b64u.EncodeToString([]byte(`["salt","n"`)))
	put("trailing", b64u.EncodeToString(append(append([]byte{}, dec...), `["x"]`...)))
	out = append(out,
		discFault{"dup-adjacent", func(ds []string, i int) []string { return repl(ds, i, ds[i], ds[i]) }},
		discFault{"dup-end", func(ds []string, i int) []string { return append(append([]string{}, ds...), ds[i]) }},
		discFault{"invent3", func(ds []string, i int) []string { return repl(ds, i, mkDisc("s", "forged", "v"), ds[i]) }},
		discFault{"invent2", func(ds []string, i int) []string { return repl(ds, i, ds[i], mkDisc("s", "v")) }},
		discFault{"invent-wraps", func(ds []string, i int) []string {
			// An invented parent that references an existing disclosure.
			return repl(ds, i, mkDisc("s", "w", map[string]any{"_sd": []any{sdDigest(crypto.SHA256, ds[i])}}), ds[i])
		}},
		discFault{"invent-empty", func(ds []string, i int) []string { return repl(ds, i, "", ds[i]) }},
		discFault{"invent-decoy", func(ds []string, i int) []string { return repl(ds, i, "decoy", ds[i]) }})
	return out
}

func genP06(e *h.Env) {
	k := fx.NewKey("ed25519", "did:verif:issuer", "k1")
	hashes := []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}
	for _, hs := range hashes {
		bases := sdBase(hs)
		for _, name := range sortedKeys(bases) {
			mk := bases[name]
			n := len(mk().ds)
			hn := hs.String()
			// Every subset and order of the true disclosures.
			masks := h.Subsets(n % 18) // the 18 of "many" are not taken in all subsets
			if n == 18 {
				full := 1<<n - 1
				masks = []int{0, full, full &^ 1, full &^ (1 << 17), 0x2a5a5 & full}
			}
			for _, m := range masks {
				for _, rev := range []bool{false, true} {
					e.Casef(func(t *h.T) {
						b := mk()
						var sel []string
						for i, d := range b.ds {
							if m>>i&1 == 1 {
								if rev {
									sel = append([]string{d}, sel...)
								} else {
									sel = append(sel, d)
								}
							}
						}
						b.ds = sel
						p06Judge(t, k, hs, b, false)
						p06Cred(t, k, hs, b)
					}, "subset %s %s %b rev=%v", name, hn, m, rev)
				}
			}
			for i := 0; i < n; i++ {
				for _, f := range discFaults(mk().ds[i]) {
					e.Casef(func(t *h.T) {
						b := mk()
						b.ds = f.fn(b.ds, i)
						p06Judge(t, k, hs, b, true)
						if !strings.HasPrefix(f.name, "flip") || e.Thorough() {
							p06Cred(t, k, hs, b)
						}
					}, "fault %s %s d%d %s", name, hn, i, f.name)
				}
			}
			// Pairs of faults on two disclosures.
			if name == "many" {
				continue
			}
			if hs == crypto.SHA256 || e.Thorough() {
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						for _, f := range discFaults(mk().ds[i]) {
							for _, g := range discFaults(mk().ds[j]) {
								if strings.HasPrefix(f.name, "flip") || strings.HasPrefix(g.name, "flip") {
									continue
								}
								e.Casef(func(t *h.T) {
									b := mk()
									b.ds = f.fn(g.fn(b.ds, j), i)
									p06Judge(t, k, hs, b, false)
								}, "pair %s %s d%d %s d%d %s", name, hn, i, f.name, j, g.name)
							}
						}
					}
				}
			}
			// Disclosures of another token.
			for _, other := range sortedKeys(bases) {
				for i, d := range bases[other]().ds {
					e.Casef(func(t *h.T) {
						b := mk()
						b.ds = append(b.ds, d)
						p06Judge(t, k, hs, b, false)
						p06Cred(t, k, hs, b)
					}, "foreign %s %s %s d%d", name, hn, other, i)
				}
			}
		}
	}
	p06Malformed(e, k)
	p06Places(e, k)
	p06Names(e, k)
	p06Hash(e, k)
}

// p06Malformed signs digests of disclosures that are themselves wrong.
func p06Malformed(e *h.Env, k *fx.Key) {
	hs := crypto.SHA256
	discs := map[string]string{
		"salt-number": mkDisc(5, "n", "v"), "salt-null": mkDisc(nil, "n", "v"), "salt-obj": mkDisc(map[string]any{}, "v"), "name-number": mkDisc("s", 5, "v"), "name-null": mkDisc("s", nil, "v"),
		"name-array": mkDisc("s", []any{"n"}, "v"), "four": mkDisc("s", "n", "v", "w"), "five": mkDisc("s", "n", "v", "w", "x"),
		"one": mkDisc("s"), "zero": mkDisc(), "two": mkDisc("s", "v"), "three": mkDisc("s", "n", "v"), "obj": b64u.EncodeToString([]byte(`{}`)), "str": b64u.EncodeToString([]byte(`"x"`)),
		"notjson": b64u.EncodeToString([]byte(`[`)), "notb64": "!!!", "empty-name": mkDisc("s", "", "v"), "name-_sd": mkDisc("s", "_sd", "v"),
		"name-...": mkDisc("s", "...", "v"), "name-_sd-list": mkDisc("s", "_sd", []any{"x"}),
		"collide-c": mkDisc("s", "c", "v"), "collide-null": mkDisc("s", "z", "v"), "collide-iss": mkDisc("s", "iss", "did:other"),
		"bad-sd": mkDisc("s", "n", map[string]any{"_sd": "x"}), "bad-sd2": mkDisc("s", "n", map[string]any{"_sd": []any{1}}),
		"sd-null": mkDisc("s", "n", map[string]any{"_sd": nil}), "trail": b64u.EncodeToString([]byte(`["s","n","v"] `)), "dupkey": b64u.EncodeToString([]byte(`["s","n",{"a":1,"a":2}]`)),
	}
	for _, dn := range sortedKeys(discs) {
		d := discs[dn]
		dg := sdDigest(hs, d)
		places := map[string]map[string]any{
			"top":    {"_sd": []any{dg}, "c": "x", "z": nil},
			"nested": {"o": map[string]any{"_sd": []any{dg}, "c": "x", "iss": "y", "z": nil}},
			"elem":   {"l": []any{map[string]any{"...": dg}}},
		}
		for _, pn := range sortedKeys(places) {
			e.Casef(func(t *h.T) {
				p := copyObj(places[pn])
				p["iss"], p["_sd_alg"] = "did:verif:issuer", "sha-256"
				tok := &sdTok{p, []string{d}}
				reserved := strings.HasPrefix(dn, "name-_sd") || dn == "name-..."
				if reserved {
					jws := tok.combined(k)
					_, err := verifier.Parse(jws+"~"+d+"~", verifier.WithSignatureVerifier(fx.Checker(k)))
					if err == nil {
						t.Fail("a disclosure with a reserved claim name was accepted")
					}
					return
				}
				p06Judge(t, k, hs, tok, false)
				p06Cred(t, k, hs, tok)
			}, "malformed %s in %s", dn, pn)
		}
	}
	// Two disclosures with one name at one level, in both orders.
	for _, lvl := range []string{"top", "nested"} {
		e.Casef(func(t *h.T) {
			a, b := mkDisc("s1", "n", "v"), mkDisc("s2", "n", "w")
			sd := map[string]any{"_sd": []any{sdDigest(hs, a), sdDigest(hs, b)}}
			p := sd
			if lvl == "nested" {
				p = map[string]any{"o": sd}
			}
			p["iss"], p["_sd_alg"] = "did:verif:issuer", "sha-256"
			p06Judge(t, k, hs, &sdTok{p, []string{a, b}}, true)
			p06Judge(t, k, hs, &sdTok{p, []string{b, a}}, true)
			p06Judge(t, k, hs, &sdTok{p, []string{b}}, false)
		}, "same name twice %s", lvl)
	}
	// Digests in places that do not count.
	d := mkDisc("s", "n", "v")
	dg := sdDigest(hs, d)
	for name, p := range map[string]map[string]any{
		"string claim": {"x": dg}, "sd string": {"x": map[string]any{"y": dg}}, "plain array": {"x": []any{dg}},
		"upper": {"_SD": []any{dg}}, "sd prefix": {"_sd2": []any{dg}}, "dots in object": {"x": map[string]any{"...": dg}},
		"sd in string": {"x": `{"_sd":["` + dg + `"]}`}, "trimmed": {"_sd": []any{dg[:len(dg)-1]}}, "padded": {"_sd": []any{dg + "="}},
		"case": {"_sd": []any{strings.ToUpper(dg)}}, "hex": {"_sd": []any{fmt.Sprintf("%x", dg)}}, "nested list": {"_sd": []any{[]any{dg}}},
		"raw disclosure": {"_sd": []any{d}}, "none": {},
	} {
		e.Casef(func(t *h.T) {
			p := copyObj(p)
			p["iss"], p["_sd_alg"] = "did:verif:issuer", "sha-256"
			p06Judge(t, k, hs, &sdTok{p, []string{d}}, true)
			p06Cred(t, k, hs, &sdTok{p, []string{d}})
		}, "not a digest place: %s", name)
	}
	// Malformed digest lists.
	for _, v := range []any{"x", 5, true, map[string]any{}, []any{1}, []any{nil}, []any{"a", []any{}}, []any{map[string]any{"...": "x"}}} {
		for _, lvl := range []string{"top", "nested", "elem"} {
			e.Casef(func(t *h.T) {
				p := map[string]any{"_sd": v}
				switch lvl {
				case "nested":
					p = map[string]any{"o": p}
				case "elem":
					p = map[string]any{"l": []any{p}}
				}
				p["iss"], p["_sd_alg"] = "did:verif:issuer", "sha-256"
				p06Judge(t, k, hs, &sdTok{p, nil}, true)
			}, "digest list %s %s", lvl, h.JSON(v))
		}
	}
}

// p06Places repeats one digest at every pair of places.
func p06Places(e *h.Env, k *fx.Key) {
	hs := crypto.SHA256
	for _, kind := range []string{"obj", "elem"} {
		for _, shown := range []bool{true, false} {
			d := mkDisc("s", "n", "v")
			if kind == "elem" {
				d = mkDisc("s", "v")
			}
			dg := sdDigest(hs, d)
			el := map[string]any{"...": dg}
			// Each place adds the digest somewhere; extra disclosures are the carriers.
			type place struct {
				name string
				put  func(p map[string]any, ds *[]string)
			}
			addSD := func(p map[string]any, g ...any) {
				l, _ := p["_sd"].([]any)
				p["_sd"] = append(l, g...)
			}
			carrier := func(p map[string]any, ds *[]string, nm string, v any) {
				c := mkDisc("salt-"+nm, nm, v)
				addSD(p, sdDigest(hs, c))
				*ds = append(*ds, c)
			}
			sub := func(p map[string]any, nm string) map[string]any {
				m, ok := p[nm].(map[string]any)
				if !ok {
					m = map[string]any{}
					p[nm] = m
				}
				return m
			}
			places := []place{
				{"top", func(p map[string]any, ds *[]string) { addSD(p, dg) }},
				{"nested", func(p map[string]any, ds *[]string) { addSD(sub(p, "o"), dg) }},
				{"deep", func(p map[string]any, ds *[]string) { addSD(sub(sub(p, "o"), "q"), dg) }},
				{"elem", func(p map[string]any, ds *[]string) { p["l"] = append(asList(p["l"]), el) }},
				{"nested-elem", func(p map[string]any, ds *[]string) {
					o := sub(p, "o2")
					o["l"] = append(asList(o["l"]), el)
				}},
				{"elem-elem", func(p map[string]any, ds *[]string) { p["ll"] = append(asList(p["ll"]), []any{el}) }},
				{"elem-obj", func(p map[string]any, ds *[]string) {
					p["lo"] = append(asList(p["lo"]), map[string]any{"_sd": []any{dg}})
				}},
				{"disc-obj", func(p map[string]any, ds *[]string) {
					carrier(p, ds, fmt.Sprintf("c%d", len(*ds)), map[string]any{"_sd": []any{dg}})
				}},
				{"disc-list", func(p map[string]any, ds *[]string) { carrier(p, ds, fmt.Sprintf("c%d", len(*ds)), []any{el}) }},
				{"disc-list-obj", func(p map[string]any, ds *[]string) {
					carrier(p, ds, fmt.Sprintf("c%d", len(*ds)), []any{map[string]any{"_sd": []any{dg}}})
				}},
				{"disc-elem", func(p map[string]any, ds *[]string) {
					c := mkDisc("salt-el", map[string]any{"_sd": []any{dg}, "n": len(*ds)})
					p["le"] = append(asList(p["le"]), map[string]any{"...": sdDigest(hs, c)})
					*ds = append(*ds, c)
				}},
			}
			for i, a := range places {
				for j := -1; j < len(places); j++ {
					if j >= 0 && j < i {
						continue
					}
					nm := "single"
					if j >= 0 {
						nm = places[j].name
					}
					for _, first := range []bool{true, false} {
						e.Casef(func(t *h.T) {
							p := map[string]any{"iss": "did:verif:issuer", "_sd_alg": "sha-256"}
							var ds []string
							a.put(p, &ds)
							if j >= 0 {
								places[j].put(p, &ds)
							}
							if shown {
								if first {
									ds = append([]string{d}, ds...)
								} else {
									ds = append(ds, d)
								}
							}
							p06Judge(t, k, hs, &sdTok{p, ds}, j >= 0)
							p06Cred(t, k, hs, &sdTok{p, ds})
						}, "places %s shown=%v first=%v %s+%s", kind, shown, first, a.name, nm)
					}
				}
			}
		}
	}
}

// p06Names gives one level two claims of the same name, of every pair of values and from every pair of sources.
func p06Names(e *h.Env, k *fx.Key) {
	hs := crypto.SHA256
	hidden := []any{map[string]any{"...": sdDigest(hs, "undisclosed")}}
	values := []any{nil, false, 0, "", []any{}, map[string]any{}, "v", true, 1, []any{nil}, hidden, map[string]any{"_sd": []any{sdDigest(hs, "other")}}}
	// where the level is
	levels := []string{"top", "object", "element", "disclosed object", "disclosed element"}
	for _, lv := range levels {
		for i, v := range values {
			for j, w := range values {
				for _, clear := range []bool{true, false} {
					for _, rev := range []bool{false, true} {
						for _, other := range []string{"n", "N"} {
							e.Casef(func(t *h.T) {
								a, b := mkDisc("salt-1", "n", v), mkDisc("salt-2", other, w)
								obj := map[string]any{"_sd": []any{sdDigest(hs, a)}}
								ds := []string{a}
								if clear {
									obj[other] = w
								} else {
									obj["_sd"] = []any{sdDigest(hs, a), sdDigest(hs, b)}
									ds = append(ds, b)
								}
								p := map[string]any{"x": "y"}
								switch lv {
								case "top":
									p = obj
								case "object":
									p["o"] = obj
								case "element":
									p["l"] = []any{obj}
								case "disclosed object":
									c := mkDisc("salt-3", "o", obj)
									p["_sd"] = []any{sdDigest(hs, c)}
									ds = append(ds, c)
								default:
									c := mkDisc("salt-3", obj)
									p["l"] = []any{map[string]any{"...": sdDigest(hs, c)}}
									ds = append(ds, c)
								}
								p["iss"], p["_sd_alg"] = "did:verif:issuer", "sha-256"
								if rev {
									for x, y := 0, len(ds)-1; x < y; x, y = x+1, y-1 {
										ds[x], ds[y] = ds[y], ds[x]
									}
								}
								p06Judge(t, k, hs, &sdTok{p, ds}, other == "n")
								p06Cred(t, k, hs, &sdTok{p, ds})
							}, "names %s %d %d clear=%v rev=%v %s", lv, i, j, clear, rev, other)
						}
					}
				}
			}
		}
	}
}

func asList(v any) []any {
	l, _ := v.([]any)
	return l
}

// p06Hash tries every kind of _sd_alg value.
func p06Hash(e *h.Env, k *fx.Key) {
	good := map[string]crypto.Hash{"sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512}
	algs := []any{nil, "", "none", "md5", "md2", "md4", "sha-1", "sha1", "sha-224", "sha256", "sha-2", "sha-256 ", " sha-256", "sha-256\x00", "sha-512/256",
		"sha3-256", "sha-3", "blake2s-256", "ripemd-160", 5, true, []any{"sha-256"}, map[string]any{"alg": "sha-256"}, "sha-256", "sha-384", "sha-512", "absent"}
	for _, alg := range algs {
		for _, used := range []crypto.Hash{crypto.SHA1, crypto.MD5, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA512_256} {
			for _, show := range []bool{true, false} {
				for _, nested := range []bool{false, true} {
					e.Casef(func(t *h.T) {
						d := mkDisc("s", "n", "v")
						p := map[string]any{"_sd": []any{sdDigest(used, d)}}
						if nested {
							p = map[string]any{"o": p}
						}
						p["iss"] = "did:verif:issuer"
						if alg != "absent" {
							p["_sd_alg"] = alg
						}
						tok := &sdTok{payload: p}
						if show {
							tok.ds = []string{d}
						}
						s, _ := alg.(string)
						hs, ok := good[s]
						if ok {
							p06Judge(t, k, hs, tok, show && hs != used)
							return
						}
						pres := tok.combined(k)
						if show {
							pres += "~" + d + "~"
						}
						pc := fx.Checker(k)
						if res, err := verifier.Parse(pres, verifier.WithSignatureVerifier(pc)); err == nil {
							t.FailSub("verifier", "accepted: %s", h.JSON(res))
						}
						if _, err := holder.Parse(strings.TrimSuffix(pres, "~"), holder.WithSignatureVerifier(pc)); err == nil {
							t.FailSub("holder", "accepted")
						}
						p06Cred(t, k, crypto.Hash(0), tok)
					}, "alg %s used %s shown=%v nested=%v", h.JSON(alg), used, show, nested)
				}
			}
		}
	}
}
