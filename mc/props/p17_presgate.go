package props

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P17", Level: "enumerated", Gen: genP17,
		Rule: "every securing form x wrapping x (key that signed, key id named, holder stated) x data model; every list of up to two (thorough: three) inner credentials over the menu of proven and unproven ones x form; every single change of every node of a secured presentation; form x subset of available checkers; expected and actual Data Integrity options; all holder-check tables; the verdict and the returned contents are compared with a reference policy",
		Assume: []string{"JSON-LD credentials inside a presentation are not proof-checked by parsing the presentation (they are covered by the presentation's proof)",
			"an LD or Data Integrity presentation may be presented by another party than its holder unless the holder check is requested"}})
}

var presForms = []credForm{
	{"jwt", "ed25519", "", "jwt"}, {"jwt-p256", "p256", "", "jwt"},
	{"cwt", "ed25519", "", "cwt"}, {"cwt-p256", "p256", "", "cwt"},
	{"ld2018", "ed25519", "Ed25519Signature2018", "ld"}, {"ld2020", "ed25519", "Ed25519Signature2020", "ld"}, {"jws2020", "p256", "JsonWebSignature2020", "ld"},
	{"di-eddsa", "ed25519", "eddsa-rdfc-2022", "di"}, {"di-ecdsa", "p256", "ecdsa-rdfc-2019", "di"},
}

func (w *world) presOpts(extra ...verifiable.PresentationOpt) []verifiable.PresentationOpt {
	return append(w.presOptsKeys(nil), extra...)
}

func (w *world) presOptsKeys(more []*fx.Key) []verifiable.PresentationOpt {
	r := w.resolver()
	for _, k := range more {
		if k.KID != w.k1.KID {
			r.Set(k.KID, k.JWKVM())
		}
	}
	o := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(fx.CheckerR(r)), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}
	if w.f.family == "di" {
		o = append(o, verifiable.WithPresDataIntegrityVerifier(diVerifier(diDoc(w.keys()...))), verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""))
	}
	return o
}

// vpDoc is a presentation for a form.
func (f credForm) vpDoc(dm int, holder any, creds []any) map[string]any {
	ctx := f.vcDoc(dm, nil)["@context"]
	m := map[string]any{"@context": ctx, "id": "urn:vp:1", "type": []any{"VerifiablePresentation", "XPres"}, "note": "n", "more": map[string]any{"x": "y"}}
	if holder != nil {
		m["holder"] = holder
	}
	if creds != nil {
		m["verifiableCredential"] = creds
	}
	return m
}

// secureVP signs the presentation with k.
func (f credForm) secureVP(t *h.T, k *fx.Key, doc map[string]any) string {
	switch f.family {
	case "ld":
		out, err := ldSigning{suite: f.suite, vm: k.KID, purpose: "authentication"}.sign(k, doc)
		t.Must(err, "sign")
		return h.JSON(out)
	case "di":
		return h.JSON(diSign(t, diDoc(k), k, doc, diOpts(f.suite, k)))
	case "cwt":
		pl := map[string]any{"vp": doc}
		if s := obj2id(doc["holder"]); s != "" {
			pl["iss"] = s
		}
		return hex.EncodeToString(mkCose(map[any]any{1: int64(k.Cose), 4: []byte(k.KID)}, nil, cb(pl), k).bytes())
	}
	pl := map[string]any{"vp": doc, "jti": "urn:vp:1"}
	if s := obj2id(doc["holder"]); s != "" {
		pl["iss"] = s
	}
	return rawJWS(map[string]any{"alg": k.JWTAlg, "kid": k.KID, "typ": "JWT"}, []byte(h.JSON(pl)), k)
}

func (f credForm) vpWraps(s string, doc map[string]any) []wrapping {
	env := func(media, data string) []byte {
		return []byte(h.JSON(map[string]any{"@context": []any{"https://www.w3.org/ns/credentials/v2"}, "type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:" + media + "," + data,
			"holder": wIss, "verifiableCredential": []any{map[string]any{"id": "forged"}}}))
	}
	q := func(x string) []byte { return []byte(h.JSON(x)) }
	switch f.family {
	case "jwt":
		forged := copyObj(doc)
		forged["jwt"] = s
		forged["id"] = "data:application/vp-ld+jwt," + s
		return []wrapping{{"raw", true, []byte(s)}, {"quoted", true, q(s)}, {"env", true, env("application/vp-ld+jwt", s)},
			{"jwt-field", false, []byte(h.JSON(forged))}, {"env-cose", false, env("application/vp-ld+cose", s)}, {"env-json", false, env("application/json", s)},
			{"unsecured", false, []byte(unsecured(map[string]any{"iss": wIss, "vp": s}))}}
	case "cwt":
		b, _ := hex.DecodeString(s)
		return []wrapping{{"hex", true, []byte(s)}, {"quoted", true, q(s)}, {"raw", true, b}, {"env", true, env("application/vp-ld+cose", s)}, {"env-jwt", false, env("application/vp-ld+jwt", s)}}
	}
	obj := parseObj(s)
	pl := map[string]any{"vp": obj}
	if s := obj2id(obj["holder"]); s != "" {
		pl["iss"] = s
	}
	return []wrapping{{"json", true, []byte(s)}, {"spaced", true, []byte(" \n" + s + "\t")}, {"unsecured", false, []byte(unsecured(pl))}, {"unsecured-bare", true, []byte(unsecured(map[string]any{"vp": obj}))},
		{"env", false, env("application/vp-ld+jwt", s)}, {"env-json", false, env("application/vp", s)}, {"quoted", false, q(s)}}
}

// p17Claims compares a returned presentation with the secured document.
func p17Claims(t *h.T, doc map[string]any, vp *verifiable.Presentation, sub string) {
	if vp.ID != "urn:vp:1" || vp.Holder != obj2id(doc["holder"]) || h.JSON(vp.Type) != h.JSON(doc["type"]) || h.JSON(vp.Context) != h.JSON(doc["@context"]) ||
		vp.CustomFields["note"] != doc["note"] || h.Canon(vp.CustomFields["more"]) != h.Canon(doc["more"]) || len(vp.CustomFields) != 2 {
		t.FailSub(sub+"-contents", "returned presentation id %q holder %q types %v contexts %v custom %s for %s", vp.ID, vp.Holder, vp.Type, vp.Context, h.JSON(vp.CustomFields), h.JSON(doc))
	}
	l, _ := doc["verifiableCredential"].([]any)
	if len(vp.Credentials()) != len(l) {
		t.FailSub(sub+"-creds", "%d credentials returned, %d secured", len(vp.Credentials()), len(l))
	}
}

func p17Verdict(t *h.T, w *world, in []byte, want, mustAccept bool, doc map[string]any, sub string) {
	vp, err := verifiable.ParsePresentation(in, w.presOpts()...)
	t.Step("%s: %v", sub, err == nil)
	switch {
	case err == nil && !want:
		t.FailSub(sub, "unproven presentation accepted: %s", h.JSON(vp))
	case err != nil && mustAccept:
		t.FailSub(sub, "proven presentation refused: %v", err)
	}
	if err == nil && doc != nil {
		p17Claims(t, doc, vp, sub)
	}
	if vp != nil && err != nil {
		t.FailSub(sub+"-returned", "a presentation is returned together with the error %v", err)
	}
	if v2, err := verifiable.ParsePresentation(in, w.presOpts(verifiable.WithDisabledJSONLDChecks())...); err == nil && !want {
		t.FailSub(sub+"-nojsonld", "unproven presentation accepted without JSON-LD checks: %s", h.JSON(v2))
	}
}

func genP17(e *h.Env) {
	forms := presForms
	if e.Thorough() {
		for _, k := range []string{"p384", "p521", "secp256k1", "ps256", "rs256"} {
			forms = append(forms, credForm{"jwt-" + k, k, "", "jwt"})
			if k == "p384" || k == "ps256" {
				forms = append(forms, credForm{"cwt-" + k, k, "", "cwt"})
			}
			if k != "rs256" {
				forms = append(forms, credForm{"jws2020-" + k, k, "JsonWebSignature2020", "ld"})
			}
		}
		forms = append(forms, credForm{"di-p384", "p384", "ecdsa-rdfc-2019", "di"}, credForm{"secp", "secp256k1", "EcdsaSecp256k1Signature2019", "ld"})
	}
	for _, f := range forms {
		w := newWorld(f)
		kids := []string{w.k1.KID, w.k2.KID, w.ev.KID, wIss + "#k9", "did:verif:nobody#k1"}
		holders := []any{nil, wIss, map[string]any{"id": wIss, "name": "n"}, wEvil, "did:verif:nobody", wIss + "/x", wCase, "https://holder.example"}
		for _, dm := range f.dms() {
			for _, hd := range holders {
				for ki, k := range w.keys() {
					for _, kid := range kids {
						e.Casef(func(t *h.T) {
							doc := f.vpDoc(dm, hd, nil)
							s := f.secureVP(t, as(k, kid), doc)
							reg := map[string]*fx.Key{w.k1.KID: w.k1, w.k2.KID: w.k2, w.ev.KID: w.ev}[kid]
							want := reg == k
							if hid := obj2id(hd); hid != "" && want && reg.DID != hid {
								if f.family == "jwt" || f.family == "cwt" {
									want = false // a token is issued by its holder
								}
							}
							if f.family == "jwt" && reg == k && !want {
								return // see the case about the holder of a token
							}
							for _, x := range f.vpWraps(s, doc) {
								p17Verdict(t, w, x.data, want, want && x.legit, doc, x.name)
							}
							t.Outcome("%s %v", f.family, want)
							t.State(fmt.Sprintf("%s %d %v %d %s", f.name, dm, hd, ki, kid))
						}, "%s dm%d holder %s signed by %s as %s", f.name, dm, h.JSON(hd), k.KID, kid)
					}
				}
				if e.Stopped() {
					return
				}
			}
			if f.family == "jwt" {
				e.Casef(func(t *h.T) {
					for _, hd := range []string{wEvil, "did:verif:nobody", wIss + "/x", wCase, "https://holder.example"} {
						vp, err := verifiable.ParsePresentation([]byte(f.secureVP(t, w.k1, f.vpDoc(dm, hd, nil))), w.presOpts()...)
						t.Step("%s: %v", hd, err == nil)
						if err == nil {
							t.Fail("token of holder %s signed by %s accepted with holder %q", hd, w.k1.KID, vp.Holder)
						}
					}
				}, "JWT presentation signed by another party than its iss: %s dm%d", f.name, dm)
			}
			e.Casef(func(t *h.T) { p17Tamper(t, w, dm) }, "%s dm%d changes", f.name, dm)
			e.Casef(func(t *h.T) { p17Unproven(t, w, dm) }, "%s dm%d unproven", f.name, dm)
			e.Casef(func(t *h.T) { p17Checkers(t, w, dm) }, "%s dm%d checkers", f.name, dm)
			if f.family == "ld" || f.family == "di" {
				e.Casef(func(t *h.T) { p17Lists(t, w, dm) }, "%s dm%d proof lists", f.name, dm)
				e.Casef(func(t *h.T) { p17Swap(t, w, dm) }, "%s over %s", map[int]string{1: "embedded proof not covering credential tokens:", 2: "embedded proof covering enveloped credentials:"}[dm], f.name)
				e.Casef(func(t *h.T) { p17Holder(t, w, dm) }, "%s dm%d holder check", f.name, dm)
			}
			if f.family == "di" {
				e.Casef(func(t *h.T) { p17Expected(t, w, dm) }, "%s dm%d expected options", f.name, dm)
			}
			p17Inner(e, w, dm)
		}
	}
}

// innerItem is a credential put into a presentation.
type innerItem struct {
	name string
	v    any
	ok   bool
	// opaque: ok is not decided (JSON-LD credentials are not checked here).
	opaque bool
	id     string
}

func p17Menu(t *h.T, e *h.Env, w *world, dm int) ([]innerItem, []*fx.Key) {
	var out []innerItem
	var keys []*fx.Key
	for _, g := range []credForm{{"jwt", "ed25519", "", "jwt"}, {"sdjwt5", "ed25519", "", "jwt"}, {"cwt", "ed25519", "", "cwt"}} {
		k := fx.NewKey(g.kind, "did:verif:vcissuer", "k1")
		bad := fx.NewKey(g.kind, "did:verif:mallory", "k1")
		keys = append(keys, k, bad)
		doc := g.vcDoc(dm, k.DID)
		doc["id"] = "urn:vc:" + g.name
		s := g.secure(t, k, doc)
		forged := g.secure(t, as(bad, k.KID), doc)
		foreign := g.secure(t, bad, doc)
		out = append(out, innerItem{g.name, s, true, false, "urn:vc:" + g.name}, innerItem{g.name + "-forged", forged, false, false, ""}, innerItem{g.name + "-foreign", foreign, false, false, ""})
		media := map[string]string{"jwt": "application/vc-ld+jwt", "sdjwt5": "application/vc-ld+sd-jwt", "cwt": "application/vc-ld+cose"}[g.name]
		env := func(x string) any {
			return map[string]any{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential", "id": "data:" + media + "," + x}
		}
		out = append(out, innerItem{g.name + "-env", env(s), true, false, "urn:vc:" + g.name}, innerItem{g.name + "-env-forged", env(forged), false, false, ""}, innerItem{g.name + "-env-foreign", env(foreign), false, false, ""})
		if g.name == "jwt" {
			out = append(out, innerItem{"env-text", h.JSON(env(s)), true, false, "urn:vc:jwt"}, innerItem{"env-text-forged", h.JSON(env(forged)), false, false, ""})
			p := strings.Split(s, ".")
			out = append(out, innerItem{"jwt-stripped", p[0] + "." + p[1] + ".", false, false, ""}, innerItem{"unsecured", unsecured(map[string]any{"iss": k.DID, "vc": doc}), false, false, ""},
				innerItem{"unsecured-env", env(unsecured(map[string]any{"iss": k.DID, "vc": doc})), false, false, ""},
				innerItem{"jwt-field", map[string]any{"jwt": s}, true, true, ""}, innerItem{"jwt-field-forged", map[string]any{"jwt": forged}, false, false, ""},
				innerItem{"text", h.JSON(doc), false, false, ""}, innerItem{"odd-7", 7.0, false, false, ""}, innerItem{"odd-list", []any{s}, false, false, ""}, innerItem{"empty", "", false, false, ""})
		}
		if g.name == "sdjwt5" {
			out = append(out, innerItem{"sd-added", s + mkDisc("salt", "admin", true) + "~", false, false, ""}, innerItem{"sd-env-added", env(s + mkDisc("salt", "admin", true) + "~"), false, false, ""})
		}
	}
	return out, keys
}

func p17Inner(e *h.Env, w *world, dm int) {
	f := w.f
	n := e.Pick(1, 2)
	if f.name == "jwt" || f.name == "cwt" || f.name == "di-eddsa" {
		n = e.Pick(2, 3)
		if !e.Thorough() && dm == 1 {
			n = 1
		}
	}
	if n == 3 && (f.name != "jwt" || dm == 1) {
		n = 2
	}
	var menu []innerItem
	var keys []*fx.Key
	names := 31 // checked below
	for k := 1; k <= n+1; k++ {
		ixs := lists(names, min(k, n))
		if k == n+1 { // long lists
			ixs = nil
			if f.family == "jwt" || f.family == "cwt" {
				bad := []int{1, 2, 4, 10, 11, 16}
				ixs = append(longLists(12, []int{0, 3, 17}, bad), longLists(40, []int{0}, bad[:1])...)
			}
		}
		for _, ix := range ixs {
			e.Casef(func(t *h.T) {
				if menu == nil {
					m, ks := p17Menu(t, e, w, dm)
					if len(m) != names {
						t.Fatal("menu has %d items", len(m))
					}
					menu, keys = m, ks
				}
				var l []any
				want, must := true, true
				name := ""
				var ids []string
				for _, i := range ix {
					it := menu[i]
					l = append(l, deepCopy(it.v))
					want = want && (it.ok || it.opaque)
					must = must && it.ok && !it.opaque
					name += " " + it.name
					ids = append(ids, it.id)
				}
				p17InnerOne(t, w, dm, l, want, must, name, ids, keys)
				if _, isList := l[0].([]any); len(l) == 1 && !isList {
					p17InnerOne(t, w, dm, l[0], want, must, name+" (single)", ids, keys)
				}
			}, "%s dm%d credentials %v", f.name, dm, ix)
		}
		if e.Stopped() {
			return
		}
	}
}

func p17InnerOne(t *h.T, w *world, dm int, creds any, want, must bool, name string, ids []string, keys []*fx.Key) {
	f := w.f
	doc := f.vpDoc(dm, wIss, nil)
	doc["verifiableCredential"] = creds
	// the first version's context cannot describe envelopes
	ldOK := (f.family == "jwt" || f.family == "cwt") && (dm == 2 || !strings.Contains(name, "-env"))
	if dm == 1 && (f.family == "ld" || f.family == "di") && strings.Contains(name, "-env") {
		return
	}
	if (f.family == "ld" || f.family == "di") && (strings.Contains(name, "odd-") || dm == 2 && h.JSON(creds) != "null" && !p17Objects(creds)) {
		return // JSON-LD cannot sign these
	}
	s := f.secureVP(t, w.k1, doc)
	for _, ld := range []bool{true, false} {
		o := w.presOptsKeys(keys)
		if !ld {
			o = append(o, verifiable.WithDisabledJSONLDChecks())
		}
		vp, err := verifiable.ParsePresentation([]byte(s), o...)
		t.Step("%s json-ld %v: %v", name, ld, err == nil)
		t.Outcome("inner %v", err == nil)
		if err == nil && !want {
			t.FailSub("unproven", "presentation with credentials%s accepted", name)
		}
		if err != nil && must && (!ld || ldOK) {
			t.FailSub("refused", "presentation with proven credentials%s refused: %v", name, err)
		}
		if err == nil && must {
			var got []string
			for _, c := range vp.Credentials() {
				got = append(got, c.Contents().ID)
			}
			if h.JSON(got) != h.JSON(ids) {
				t.FailSub("credentials", "credentials%s: returned %v", name, got)
			}
		}
		bad := f.secureVP(t, as(w.ev, w.k1.KID), doc)
		if _, err := verifiable.ParsePresentation([]byte(bad), o...); err == nil {
			t.FailSub("forged", "forged presentation of credentials%s accepted", name)
		}
		if vp, err := verifiable.ParsePresentation([]byte(bad), append(o, verifiable.WithPresDisabledProofCheck())...); err != nil && must && (!ld || ldOK) {
			t.FailSub("disabled", "presentation of credentials%s with proof checks disabled: %v", name, err)
		} else if err == nil && must && len(vp.Credentials()) != len(ids) {
			t.FailSub("disabled", "%d credentials%s returned", len(vp.Credentials()), name)
		}
	}
}

// p17Objects says whether all credentials are objects.
func p17Objects(creds any) bool {
	l, ok := creds.([]any)
	if !ok {
		l = []any{creds}
	}
	for _, c := range l {
		if _, ok := c.(map[string]any); !ok {
			return false
		}
	}
	return true
}

// p17Swap: the proof of a JSON-LD presentation covers token-form credentials as well.
func p17Swap(t *h.T, w *world, dm int) {
	f := w.f
	gk := fx.NewKey("ed25519", "did:verif:vcissuer", "k1")
	g := credForm{"jwt", "ed25519", "", "jwt"}
	cred := func(id string) string {
		d := g.vcDoc(dm, gk.DID)
		d["id"] = id
		return g.secure(t, gk, d)
	}
	env := func(s string) any {
		if dm == 1 {
			return s
		}
		return map[string]any{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt," + s}
	}
	c := []any{env(cred("urn:vc:1")), env(cred("urn:vc:2")), env(cred("urn:vc:3"))}
	opts := w.presOptsKeys([]*fx.Key{gk})
	all := append([][]int{nil}, append(lists(3, 1), lists(3, 2)...)...)
	pick := func(ix []int) (l []any) {
		for _, i := range ix {
			l = append(l, c[i])
		}
		return
	}
	for _, a := range all {
		s := parseObj(f.secureVP(t, w.k1, f.vpDoc(dm, wIss, pick(a))))
		for _, b := range all {
			d := copyObj(s)
			delete(d, "verifiableCredential")
			if b != nil {
				d["verifiableCredential"] = pick(b)
			}
			_, err := verifiable.ParsePresentation([]byte(h.JSON(d)), append(opts, verifiable.WithDisabledJSONLDChecks())...)
			set := func(x []int) string {
				m := map[string]bool{}
				for _, i := range x {
					m[fmt.Sprint(i)] = true
				}
				return strings.Join(sortedKeys(m), "")
			}
			same := set(a) == set(b)
			t.Step("%v -> %v: %v", a, b, err == nil)
			if err == nil && !same {
				t.FailSub("swap-"+map[int]string{1: "tokens", 2: "envelopes"}[dm], "presentation signed with credentials %v is accepted with %v", a, b)
			}
			if err != nil && h.JSON(a) == h.JSON(b) {
				t.FailSub("swap-original", "presentation with credentials %v refused: %v", a, err)
			}
		}
	}
}

// p17Tamper changes every node of a secured presentation.
func p17Tamper(t *h.T, w *world, dm int) {
	f := w.f
	gk := fx.NewKey("ed25519", "did:verif:vcissuer", "k1")
	g := credForm{"jwt", "ed25519", "", "jwt"}
	cred := func(id string) any {
		d := g.vcDoc(dm, gk.DID)
		d["id"] = id
		if f.family == "ld" || f.family == "di" {
			return d
		}
		return g.secure(t, gk, d)
	}
	doc := f.vpDoc(dm, wIss, []any{cred("urn:vc:1"), cred("urn:vc:2")})
	odoc := f.vpDoc(dm, wIss, []any{cred("urn:vc:2"), cred("urn:vc:3")})
	odoc["note"] = "other"
	s, o := f.secureVP(t, w.k1, doc), f.secureVP(t, w.k1, odoc)
	opts := w.presOptsKeys([]*fx.Key{gk})
	vp, err := verifiable.ParsePresentation([]byte(s), opts...)
	if err != nil {
		t.FailSub("original", "proven presentation refused: %v", err)
		return
	}
	p17Claims(t, doc, vp, "original")
	try := func(what, in string) {
		if in == s || in == o {
			return
		}
		for _, x := range [][]verifiable.PresentationOpt{opts, append(opts, verifiable.WithDisabledJSONLDChecks())} {
			vp, err := verifiable.ParsePresentation([]byte(in), x...)
			t.Step("%s: %v", what, err == nil)
			if err == nil {
				t.FailSub(what, "changed presentation accepted: %s", h.JSON(vp))
			}
		}
	}
	switch f.family {
	case "jwt":
		p, q := strings.Split(s, "."), strings.Split(o, ".")
		for m := 1; m < 7; m++ {
			x := [3]string{p[0], p[1], p[2]}
			for i := 0; i < 3; i++ {
				if m>>i&1 == 1 {
					x[i] = q[i]
				}
			}
			try(fmt.Sprintf("mix %d", m), strings.Join(x[:], "."))
		}
		pb, err := b64u.DecodeString(p[1])
		t.Must(err, "payload")
		for _, m := range semMutations(parseAny(pb)) {
			try("payload "+m.what, p[0]+"."+b64u.EncodeToString([]byte(h.JSON(m.doc)))+"."+p[2])
		}
		hb, err := b64u.DecodeString(p[0])
		t.Must(err, "header")
		for _, m := range semMutations(parseAny(hb)) {
			try("header "+m.what, b64u.EncodeToString([]byte(h.JSON(m.doc)))+"."+p[1]+"."+p[2])
		}
		try("no signature", p[0]+"."+p[1]+".")
		try("two parts", p[0]+"."+p[1])
		try("alg none", b64u.EncodeToString([]byte(`{"alg":"none"}`))+"."+p[1]+".")
		try("alg none signed", b64u.EncodeToString([]byte(`{"alg":"none"}`))+"."+p[1]+"."+p[2])
	case "cwt":
		b, _ := hex.DecodeString(s)
		ob, _ := hex.DecodeString(o)
		m, n := splitCose(t, b), splitCose(t, ob)
		for _, i := range []int{2, 4} {
			x := m
			if i == 2 {
				x.payload = n.payload
			} else {
				x.sig = n.sig
			}
			try(fmt.Sprintf("mix %d", i), hex.EncodeToString(x.bytes()))
		}
		for _, mu := range semMutations(parseAny([]byte(h.JSON(doc)))) {
			x := m
			x.payload = cb(map[string]any{"iss": wIss, "vp": mu.doc})
			try("payload "+mu.what, hex.EncodeToString(x.bytes()))
		}
		for _, sig := range [][]byte{nil, {}, {0}, make([]byte, len(m.sig)), m.sig[:len(m.sig)-1], append(append([]byte{}, m.sig...), 0)} {
			x := m
			x.sig = sig
			try(fmt.Sprintf("signature of %d", len(sig)), hex.EncodeToString(x.bytes()))
		}
	default:
		obj := parseObj(s)
		pr := obj["proof"]
		delete(obj, "proof")
		for _, m := range semMutations(obj) {
			md, ok := m.doc.(map[string]any)
			if !ok || md["proof"] != nil || strings.Contains(m.what, "/@context") {
				continue
			}
			md = copyObj(md)
			md["proof"] = pr
			try("document "+m.what, h.JSON(md))
			try("document "+m.what+" unsecured", unsecured(map[string]any{"vp": md}))
		}
		obj["proof"] = parseObj(o)["proof"]
		try("proof of another", h.JSON(obj))
		for _, x := range []any{nil, []any{}, map[string]any{}, "x", 1, []any{map[string]any{}}, []any{[]any{pr}}, []any{nil}, []any{"x"}} {
			obj["proof"] = x
			try("proof "+h.JSON(x), h.JSON(obj))
		}
		delete(obj, "proof")
		try("no proof", h.JSON(obj))
		// claims that the holder did not sign, given by the token around the document
		full := parseObj(s)
		try("token iss", unsecured(map[string]any{"iss": wEvil, "vp": full}))
		try("token jti", unsecured(map[string]any{"jti": "urn:other", "vp": full}))
	}
}

// p17Unproven feeds the bare presentation in every wrapping.
func p17Unproven(t *h.T, w *world, dm int) {
	doc := w.f.vpDoc(dm, wIss, nil)
	j := h.JSON(doc)
	enc := base64.RawURLEncoding.EncodeToString
	pl := enc([]byte(h.JSON(map[string]any{"iss": wIss, "vp": doc})))
	hd := func(s string) string { return enc([]byte(s)) + "." + pl + "." }
	var in []string
	for _, x := range []string{unsecured(map[string]any{"iss": wIss, "vp": doc}), unsecured(doc), unsecured(map[string]any{"vp": doc, "proof": map[string]any{"type": "x"}}),
		hd(`{"alg":"EdDSA","kid":"` + w.k1.KID + `"}`), hd(`{"alg":"EdDSA","kid":"`+w.k1.KID+`"}`) + enc(make([]byte, 64)), hd(`{"kid":"` + w.k1.KID + `"}`), hd(`{"alg":"NONE"}`), hd(`{"alg":"none"}`) + enc([]byte("x")),
		hd(`{"alg":"none","kid":"` + w.k1.KID + `"}`), hd(`{}`)} {
		in = append(in, x, `"`+x+`"`, h.JSON(map[string]any{"jwt": x}), x+"~", h.JSON(map[string]any{"type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + x}),
			h.JSON(map[string]any{"type": []string{"VerifiablePresentation", "EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + x}))
	}
	for _, pr := range noProofs {
		d := copyObj(doc)
		d["proof"] = deepCopy(pr)
		x := unsecured(map[string]any{"iss": wIss, "vp": d})
		in = append(in, h.JSON(d), h.JSON(h.JSON(d)), x, h.JSON(map[string]any{"jwt": x}), unsecured(d), unsecured(map[string]any{"vp": doc, "iss": wIss, "proof": pr}), hex.EncodeToString(cb(d)),
			h.JSON(map[string]any{"type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + x}), h.JSON(map[string]any{"type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + h.JSON(d)}))
	}
	kid := []byte(w.k1.KID)
	for _, msg := range []coseMsg{{prot: cb(map[any]any{}), payload: cb(map[string]any{"iss": wIss, "vp": doc})}, {prot: cb(map[any]any{1: -8, 4: kid}), payload: cb(map[string]any{"iss": wIss, "vp": doc})},
		{prot: cb(map[any]any{1: -8, 4: kid}), payload: cb(map[string]any{"vp": doc}), sig: make([]byte, 64)}, {prot: cb(map[any]any{1: -8}), unprot: map[any]any{4: kid}, payload: cb(map[string]any{"vp": doc}), sig: make([]byte, 64)}} {
		in = append(in, string(msg.bytes()), hex.EncodeToString(msg.bytes()), h.JSON(map[string]any{"type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+cose," + hex.EncodeToString(msg.bytes())}),
			string(msg.payload.([]byte)))
	}
	in = append(in, j, h.JSON(j), string(cb(doc)), hex.EncodeToString(cb(doc)), h.JSON(map[string]any{"type": []any{"EnvelopedVerifiablePresentation"}, "id": "data:application/vp-ld+jwt," + j}), h.JSON(map[string]any{"vp": doc}))
	for i, x := range in {
		p17Verdict(t, w, []byte(x), false, false, nil, fmt.Sprintf("input %d", i))
	}
}

func p17Checkers(t *h.T, w *world, dm int) {
	f := w.f
	doc := f.vpDoc(dm, wIss, nil)
	good, bad := f.secureVP(t, w.k1, doc), f.secureVP(t, as(w.ev, w.k1.KID), doc)
	for _, m := range h.Subsets(3) {
		o := []verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}
		if m&1 != 0 {
			o = append(o, verifiable.WithPresProofChecker(fx.CheckerR(w.resolver())))
		}
		if m&2 != 0 {
			o = append(o, verifiable.WithPresDataIntegrityVerifier(diVerifier(diDoc(w.keys()...))), verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "", ""))
		}
		off := m&4 != 0
		if off {
			o = append(o, verifiable.WithPresDisabledProofCheck())
		}
		want := off || f.family == "di" && m&2 != 0 || f.family != "di" && m&1 != 0
		for _, x := range f.vpWraps(good, doc) {
			if !x.legit {
				continue
			}
			_, err := verifiable.ParsePresentation(x.data, o...)
			t.Step("%d %s: %v", m, x.name, err == nil)
			if (err == nil) != want {
				t.FailSub("checkers", "%s with options %d: %v", x.name, m, err)
			}
		}
		for _, x := range f.vpWraps(bad, doc) {
			if _, err := verifiable.ParsePresentation(x.data, o...); x.legit && (err == nil) != off {
				t.FailSub("checkers", "forged %s with options %d: %v", x.name, m, err)
			}
		}
	}
}

// p17Lists: a proof list is accepted only if all its proofs are valid.
func p17Lists(t *h.T, w *world, dm int) {
	doc := w.f.vpDoc(dm, wIss, nil)
	signed := func(k *fx.Key) any {
		p := parseObj(w.f.secureVP(t, k, doc))["proof"]
		if l, ok := p.([]any); ok {
			p = l[0]
		}
		return p
	}
	broken := copyObj(signed(w.k1).(map[string]any))
	for _, f := range []string{"proofValue", "jws"} {
		if s, ok := broken[f].(string); ok {
			broken[f] = strings.Replace(s, s[len(s)-9:len(s)-4], "AAAAA", 1)
		}
	}
	items := []struct {
		n  string
		v  any
		ok bool
	}{{"valid", signed(w.k1), true}, {"valid2", signed(w.k2), true}, {"other", signed(w.ev), true}, {"forged", signed(as(w.ev, w.k1.KID)), false}, {"broken", broken, false}, {"odd", "x", false},
		{"unknown", map[string]any{"type": "Unknown"}, false}}
	for n := 1; n <= 3; n++ {
		for _, ix := range lists(len(items), n) {
			var l []any
			want := true
			name := ""
			for _, i := range ix {
				l = append(l, deepCopy(items[i].v))
				want = want && items[i].ok
				name += " " + items[i].n
			}
			d := copyObj(doc)
			d["proof"] = l
			vp, err := verifiable.ParsePresentation([]byte(h.JSON(d)), w.presOpts()...)
			t.Step("%s: %v", name, err == nil)
			if (err == nil) != want {
				t.FailSub("list", "proofs%s: %v", name, err)
			}
			if err == nil {
				p17Claims(t, doc, vp, "list")
				if len(vp.Proofs) != n {
					t.FailSub("list-proofs", "%d proofs returned of %d", len(vp.Proofs), n)
				}
			}
		}
	}
}

// p17Holder: the holder check over all combinations of holder, presenter, issuers, signers and subjects.
func p17Holder(t *h.T, w *world, dm int) {
	f := w.f
	type c struct {
		issuer, signer, subject string
	}
	dids := []string{wIss, wEvil}
	var menu []c
	for _, i := range dids {
		for _, s := range append(dids, "") {
			for _, sub := range []string{"did:ex:s", "did:ex:t"} {
				menu = append(menu, c{i, s, sub})
			}
		}
	}
	byDID := map[string]*fx.Key{wIss: w.k1, wEvil: w.ev}
	credOf := func(x c) any {
		d := f.vcDoc(dm, x.issuer)
		d["credentialSubject"].(map[string]any)["id"] = x.subject
		if x.signer == "" {
			return d
		}
		return parseObj(f.secure(t, byDID[x.signer], d))
	}
	made := make([]any, len(menu))
	for i := range menu {
		made[i] = credOf(menu[i])
	}
	var sel [][]int
	sel = append(sel, nil)
	sel = append(sel, lists(len(menu), 1)...)
	sel = append(sel, lists(len(menu), 2)...)
	for _, ix := range sel {
		for _, holder := range []any{nil, wIss, wEvil, map[string]any{"id": wIss, "x": "y"}} {
			var l []any
			subs := map[string]bool{}
			for _, i := range ix {
				l = append(l, deepCopy(made[i]))
				subs[menu[i].subject] = true
			}
			doc := f.vpDoc(dm, holder, l)
			if len(ix) == 2 && ix[0] != 0 && ix[1] != 0 && ix[0] != 7 && ix[1] != 7 {
				continue // the pairs with one of two items
			}
			s := parseObj(f.secureVP(t, w.k1, doc))
			want := true
			if len(subs) == 1 {
				for _, i := range ix {
					if menu[i].signer == w.k1.DID && obj2id(holder) != menu[i].issuer {
						want = false
					}
				}
			}
			for _, on := range []bool{true, false} {
				_, err := verifiable.ParsePresentation([]byte(h.JSON(s)), w.presOpts(verifiable.WithPresHolderCheck(on), verifiable.WithDisabledJSONLDChecks())...)
				t.Step("%v holder %v on %v: %v", ix, holder, on, err == nil)
				t.Outcome("holder %v", err == nil)
				if (err == nil) != (want || !on) {
					t.FailSub("holder", "holder %v, credentials %v, check %v: %v", holder, h.JSON(func() (o []c) {
						for _, i := range ix {
							o = append(o, menu[i])
						}
						return
					}()), on, err)
				}
			}
		}
	}
}

// p17Expected: purpose, domain and challenge of the proof against the expected ones.
func p17Expected(t *h.T, w *world, dm int) {
	doc := w.f.vpDoc(dm, wIss, nil)
	purposes := []string{"assertionMethod", "authentication"}
	vals := []string{"", "a", "b"}
	for _, p := range purposes {
		for _, d := range vals {
			for _, c := range vals {
				o := &models.ProofOptions{Purpose: p, VerificationMethodID: w.k1.KID, ProofType: models.DataIntegrityProof, SuiteType: w.f.suite, Created: diCreated, Domain: d, Challenge: c}
				s := h.JSON(diSign(t, diDoc(w.k1), w.k1, doc, o))
				for _, ep := range append(purposes, "") {
					for _, ed := range vals {
						for _, ec := range vals {
							_, err := verifiable.ParsePresentation([]byte(s), w.presOpts(verifiable.WithPresExpectedDataIntegrityFields(ep, ed, ec))...)
							exp := ep
							if exp == "" {
								exp = "assertionMethod"
							}
							want := p == exp && (ed == "" || ed == d) && (ec == "" || ec == c)
							t.Step("%s %s %s expected %s %s %s: %v", p, d, c, ep, ed, ec, err == nil)
							if (err == nil) != want {
								t.FailSub("expected", "proof purpose %s domain %q challenge %q, expected %q %q %q: %v", p, d, c, ep, ed, ec, err)
							}
						}
					}
				}
			}
		}
	}
}
