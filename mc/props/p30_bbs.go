package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:    "P30",
		Level: "enumerated",
		Rule:  "A case is one BBS+ signed credential and one reveal frame (every subset of the subject's members, of the members of nested nodes and of the optional top-level members; with and without explicit; with frames that omit a mandatory member), or one change of a derived credential. The derived credential must verify with the issuer's key, equal the frame's selection computed by the harness, contain no value of an unselected member, carry the nonce, and fail to verify after every change of any node of it or with another key.",
		Assume: []string{
			"nodes without id may get an id of the form urn:bnid:...; node ids and types are always revealed (JSON-LD framing)",
			"the BBS+ scheme itself is trusted: the library's calls to it are checked, not its mathematics",
		},
		Gen: p30Gen,
	})
}

const p30Iss = "did:example:bbsissuer"

type p30World struct {
	k, k2, other *fx.Key
	ed           *fx.Key
}

var (
	p30Once sync.Once
	p30W    p30World
)

func p30Get() *p30World {
	p30Once.Do(func() {
		p30W = p30World{k: fx.NewKey("bbs", p30Iss, "b1"), k2: fx.NewKey("bbs", p30Iss, "b2"), other: fx.NewKey("bbs", "did:example:otherissuer", "b1"), ed: fx.NewKey("ed25519", p30Iss, "e1")}
	})
	return &p30W
}

func (w *p30World) resolver() *fx.Resolver {
	r := fx.NewResolver(w.ed)
	for _, k := range []*fx.Key{w.k, w.k2, w.other} {
		r.Set(k.KID, k.RawVMethod())
	}
	return r
}

func (w *p30World) creator() *verifiable.BBSProofCreator {
	return &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(), VerificationMethodResolver: w.resolver()}
}

func p30Ctx() []any {
	return []any{"https://www.w3.org/2018/credentials/v1", fx.CtxX, "https://w3id.org/security/bbs/v1"}
}

// p30Docs are the credentials; member values are unique, so that a leak shows in the text.
func p30Docs() []struct {
	name string
	doc  map[string]any
} {
	base := func(subject any) map[string]any {
		return map[string]any{"@context": p30Ctx(), "id": "urn:vc:bbs", "type": []any{"VerifiableCredential", "XCred"}, "issuer": p30Iss,
			"issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2040-01-01T00:00:00Z", "note": "topnote", "serial": 4711.0, "credentialSubject": subject}
	}
	flat := map[string]any{"id": "did:ex:subject", "type": "XPerson", "name": "vname", "age": 777.0, "tags": []any{"vtagone", "vtagtwo"}, "ok": true, "same": "vname", "score": 6.25}
	nest := map[string]any{"id": "did:ex:subject", "type": "XPerson", "name": "vname",
		"addr": map[string]any{"type": "XAddr", "street": "vstreet", "city": "vcity"},
		"deg":  map[string]any{"id": "urn:deg:1", "type": "XDeg", "level": "vlevel", "by": map[string]any{"type": "XSchool", "title": "vtitle", "rank": 31.0}}}
	anon := map[string]any{"type": "XPerson", "name": "vname", "age": 777.0, "tags": []any{"vtagone", "vtagtwo"}, "friend": map[string]any{"id": "did:ex:friend", "type": "XPerson", "nick": "vnick"}}
	inner := map[string]any{"type": "XPerson", "name": "vname", "addr": map[string]any{"type": "XAddr", "street": "vstreet", "city": "vcity"}, "home": map[string]any{"type": "XAddr", "street": "vhomestreet", "city": "vhomecity"}}
	twins := map[string]any{"id": "did:ex:subject", "type": "XPerson", "a": map[string]any{"type": "XAddr", "street": "vstreet"}, "b": map[string]any{"type": "XAddr", "street": "vstreet"}, "l": []any{map[string]any{"type": "XAddr", "x": "vx1"}, map[string]any{"type": "XAddr", "x": "vx2"}}}
	noID := base(flat)
	delete(noID, "id")
	web := base(deepCopy(twins))
	web["id"] = "https://issuer.example/c/1"
	return []struct {
		name string
		doc  map[string]any
	}{{"flat", base(flat)}, {"nested", base(nest)}, {"anonymous", base(anon)}, {"blank in blank", base(inner)}, {"no id", noID}, {"web id", web}, {"twins", base(twins)}}
}

// p30Sel is a selection: true for the whole value, a map of selections for an explicit node.
type p30Sel map[string]any

// p30Sels lists all selections of a node: each member is absent, whole, or (for nodes) explicit in every way.
func p30Sels(node map[string]any, deep bool) []p30Sel {
	out := []p30Sel{{}}
	for _, k := range sortedKeys(node) {
		if k == "id" || k == "type" || k == "@context" {
			continue
		}
		var alts []any
		alts = append(alts, nil, true)
		if m, ok := node[k].(map[string]any); ok && deep {
			for _, s := range p30Sels(m, deep) {
				alts = append(alts, s)
			}
		}
		var next []p30Sel
		for _, s := range out {
			for _, a := range alts {
				n := p30Sel{}
				for kk, v := range s {
					n[kk] = v
				}
				if a != nil {
					n[k] = a
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

func (s p30Sel) String() string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	for i, k := range l {
		if m, ok := s[k].(p30Sel); ok {
			l[i] = k + m.String()
		}
	}
	return "{" + strings.Join(l, ",") + "}"
}

// frame is the reveal document of a selection of node.
func (s p30Sel) frame(node map[string]any) map[string]any {
	f := map[string]any{"@explicit": true}
	if t, ok := node["type"]; ok {
		f["type"] = t
	}
	for k, v := range s {
		if m, ok := v.(p30Sel); ok {
			f[k] = m.frame(node[k].(map[string]any))
		} else {
			f[k] = map[string]any{}
		}
	}
	return f
}

// pick is what the selection reveals.
func (s p30Sel) pick(node map[string]any) map[string]any {
	o := map[string]any{}
	for _, k := range []string{"id", "type"} {
		if v, ok := node[k]; ok {
			o[k] = v
		}
	}
	for k, v := range s {
		if m, ok := v.(p30Sel); ok {
			o[k] = m.pick(node[k].(map[string]any))
		} else {
			o[k] = node[k]
		}
	}
	return o
}

// p30Norm removes ids given to blank nodes, proof and context, and makes lists of one single values.
func p30Norm(v any) any {
	switch x := v.(type) {
	case map[string]any:
		if v, ok := x["@value"].(string); ok && (strings.HasPrefix(obj2s(x["type"]), "http://www.w3.org/2001/XMLSchema#") || strings.HasPrefix(obj2s(x["type"]), "xsd:")) {
			var p any
			if json.Unmarshal([]byte(v), &p) == nil {
				return p
			}
		}
		o := map[string]any{}
		for k, e := range x {
			if s, ok := e.(string); ok && k == "id" && strings.HasPrefix(s, "urn:bnid:") {
				continue
			}
			o[k] = p30Norm(e)
		}
		return o
	case []any:
		if len(x) == 1 {
			return p30Norm(x[0])
		}
		var l []string
		m := map[string]any{}
		for _, e := range x {
			n := p30Norm(e)
			c := h.Canon(n)
			l = append(l, c)
			m[c] = n
		}
		sort.Strings(l)
		var o []any
		for _, c := range l {
			o = append(o, m[c])
		}
		return o
	}
	return v
}

func obj2s(v any) string {
	s, _ := v.(string)
	return s
}

func p30Leaves(v any, f func(string)) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			if k != "id" && k != "type" && k != "@context" {
				p30Leaves(e, f)
			}
		}
	case []any:
		for _, e := range x {
			p30Leaves(e, f)
		}
	case string:
		f(x)
	case float64, bool:
		f(h.JSON(x))
	}
}

func (w *p30World) sign(t *h.T, k *fx.Key, doc map[string]any) map[string]any {
	out, err := ldSigning{suite: "BbsBlsSignature2020", vm: k.KID, purpose: "assertionMethod"}.sign(k, doc)
	t.Must(err, "sign")
	return out
}

// p30Purposes derives from credentials signed for other purposes and at other times.
func p30Purposes(e *h.Env, w *p30World, doc map[string]any, frame func() map[string]any) {
	for _, purpose := range []string{"assertionMethod", "authentication", "capabilityInvocation", "capabilityDelegation"} {
		e.Casef(func(t *h.T) {
			out, err := ldSigning{suite: "BbsBlsSignature2020", vm: w.k.KID, purpose: purpose}.sign(w.k, doc)
			t.Must(err, "sign")
			if w.verify([]byte(h.JSON(out))) != nil {
				t.Outcome("signed one refused")
				return
			}
			d, err := w.derive(p30Parse(t, out), frame(), []byte("nonce"))
			if err != nil {
				t.FailSub("derive", "signed for %s: %v", purpose, err)
				return
			}
			t.Step("%s", purpose)
			t.Outcome("derived")
			if err := w.verify([]byte(h.JSON(d))); err != nil {
				t.FailSub("verify", "signed for %s, derived: %v", purpose, err)
			}
			pr, ok := parseObj(h.JSON(d))["proof"].(map[string]any)
			if !ok {
				pr = parseObj(h.JSON(d))["proof"].([]any)[0].(map[string]any)
			}
			// (the frame's own vocabulary may spell the term out)
			if !strings.HasSuffix(fmt.Sprint(pr["proofPurpose"]), purpose) {
				t.FailSub("purpose", "signed for %s, derived for %v", purpose, pr["proofPurpose"])
			}
		}, "purpose %s", purpose)
	}
}

func p30Parse(t *h.T, doc map[string]any) *verifiable.Credential {
	vc, err := verifiable.ParseCredential([]byte(h.JSON(doc)), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
	t.Must(err, "parse signed")
	return vc
}

func (w *p30World) verify(doc []byte, more ...verifiable.CredentialOpt) error {
	_, err := verifiable.ParseCredential(doc, append([]verifiable.CredentialOpt{verifiable.WithProofChecker(fx.CheckerR(w.resolver())), verifiable.WithJSONLDDocumentLoader(fx.Loader())}, more...)...)
	return err
}

func (w *p30World) derive(vc *verifiable.Credential, frame map[string]any, nonce []byte) (*verifiable.Credential, error) {
	return vc.GenerateBBSSelectiveDisclosure(frame, nonce, w.creator(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
}

var p30Mandatory = []string{"issuer", "issuanceDate", "credentialSubject"}

// check derives and compares.
// part: 0 everything; 1 that the derivation works and has what the frame selects; 2 everything else.
func (w *p30World) check(t *h.T, vc *verifiable.Credential, doc map[string]any, sel p30Sel, nonce []byte, part int) []byte {
	frame := sel.frame(doc)
	frame["@context"] = p30Ctx()
	before := h.Canon(frame)
	snap := h.Canon(parseObj(h.JSON(vc)))
	d, err := w.derive(vc, frame, nonce)
	t.Step("derive %s: %v", sel, err)
	ok := true
	for _, m := range p30Mandatory {
		if _, has := sel[m]; !has {
			ok = false
		}
	}
	sub := sel.String()
	if !ok {
		t.Outcome("error")
		if err == nil {
			t.FailSub(sub, "a frame without a mandatory member was accepted")
		}
		return nil
	}
	t.Outcome("derived")
	if err != nil {
		if part != 2 {
			t.FailSub(sub, "derivation failed: %v", err)
		}
		return nil
	}
	if h.Canon(frame) != before {
		t.FailSub(sub, "the frame was changed")
	}
	if h.Canon(parseObj(h.JSON(vc))) != snap {
		t.FailSub(sub, "the source credential was changed")
	}
	b, err := json.Marshal(d)
	t.Must(err, "marshal derived")
	if err := w.verify(b); err != nil && part != 1 {
		t.FailSub(sub, "the derived credential does not verify: %v", err)
	}
	got := parseObj(string(b))
	t.Step("derived: %s", b)
	proofs, ok := got["proof"].([]any)
	if !ok {
		proofs = []any{got["proof"]}
	}
	for _, p := range proofs {
		m, _ := p.(map[string]any)
		if m["type"] != "BbsBlsSignatureProof2020" || m["nonce"] != base64.StdEncoding.EncodeToString(nonce) {
			t.FailSub(sub, "unexpected proof: %s", h.JSON(m))
		}
	}
	if len(proofs) != 1 {
		t.FailSub(sub, "%d proofs", len(proofs))
	}
	delete(got, "proof")
	if !strings.Contains(h.JSON(got["@context"]), "credentials/v1") {
		t.FailSub(sub, "context lost: %s", h.JSON(got["@context"]))
	}
	delete(got, "@context")
	shownText := h.JSON(got) // (a proof is random: a short value may occur in it by chance)
	want := sel.pick(doc)
	if g, x := h.Canon(p30Norm(got)), h.Canon(p30Norm(parseObj(h.JSON(want)))); g != x && part != 2 {
		t.FailSub(sub, "the derived credential has\n%s\nwant\n%s", g, x)
	}
	if part == 1 {
		return b
	}
	shown := map[string]bool{}
	p30Leaves(want, func(s string) { shown[s] = true })
	p30Leaves(doc, func(s string) {
		if !shown[s] && len(s) > 3 && (strings.Contains(shownText, s) || len(s) > 11 && strings.Contains(string(b), s)) {
			t.FailSub(sub, "hidden value %q is in the derived credential", s)
		}
	})
	return b
}

func p30Gen(e *h.Env) {
	w := p30Get()
	nonce := []byte("nonce of the verifier")
	full := p30Sel{"issuer": true, "issuanceDate": true, "credentialSubject": true}
	with := func(s p30Sel, k string, v any) p30Sel {
		n := p30Sel{}
		for kk, vv := range s {
			n[kk] = vv
		}
		if v == nil {
			delete(n, k)
		} else {
			n[k] = v
		}
		return n
	}
	docs := map[string]map[string]any{}
	for _, d := range p30Docs() {
		docs[d.name] = d.doc
		subj := d.doc["credentialSubject"].(map[string]any)
		parts := []int{0}
		if d.name == "no id" || d.name == "blank in blank" {
			parts = []int{1, 2} // known finding: these are not derived properly
		}
		run := func(s p30Sel, what string) {
			for _, part := range parts {
				name := d.name + what + s.String()
				if part == 1 {
					name = "unnamed " + name
				}
				e.Casef(func(t *h.T) {
					vc := p30Parse(t, w.sign(t, w.k, d.doc))
					sel := s
					if what == " subject " {
						sel = with(full, "credentialSubject", s)
					}
					w.check(t, vc, d.doc, sel, nonce, part)
				}, "%s", name)
			}
		}
		// every selection of subject members
		for _, s := range p30Sels(subj, true) {
			run(s, " subject ")
		}
		// every selection of top-level members, whole subject
		for _, s := range p30Sels(d.doc, false) {
			run(s, " top ")
		}
	}
	// wide subjects: members, nodes with and without id, more of each than one digit counts
	for _, n := range []int{12, e.Pick(24, 110)} {
		wide := map[string]any{"id": "did:ex:subject", "type": "XPerson"}
		var anon, named []any
		for i := 0; i < n; i++ {
			wide[fmt.Sprintf("m%d", i)] = fmt.Sprintf("v-m%d-x", i)
			wide[fmt.Sprintf("n%d", i)] = map[string]any{"type": "XAddr", "street": fmt.Sprintf("v-s%d-x", i), "city": fmt.Sprintf("v-c%d-x", i)}
			anon = append(anon, map[string]any{"type": "XAddr", "street": fmt.Sprintf("v-a%d-x", i)})
			named = append(named, map[string]any{"id": fmt.Sprintf("urn:n:%d", i), "type": "XAddr", "street": fmt.Sprintf("v-n%d-x", i)})
		}
		wide["anon"], wide["named"] = anon, named
		doc := copyObj(docs["flat"])
		doc["credentialSubject"] = wide
		var sels []p30Sel
		all := p30Sel{}
		for k := range wide {
			if k != "id" && k != "type" {
				all[k] = true
			}
		}
		sels = append(sels, p30Sel{}, all)
		for i, k := range sortedKeys(map[string]any(all)) {
			if n > 24 && i%16 != 0 && k != "anon" && k != "named" {
				continue
			}
			sels = append(sels, p30Sel{k: true}, with(all, k, nil))
			if k[0] == 'n' && k != "named" {
				sels = append(sels, p30Sel{k: p30Sel{"city": true}})
			}
		}
		for i, s := range sels {
			e.Casef(func(t *h.T) {
				w.check(t, p30Parse(t, w.sign(t, w.k, doc)), doc, with(full, "credentialSubject", s), nonce, 0)
			}, "wide %d, selection %d of %d members", n, i, len(s))
		}
	}
	// other ways to write a frame
	flat := docs["flat"]
	frames := []struct {
		name string
		f    map[string]any
		want p30Sel // nil: an error
	}{
		{"not explicit", map[string]any{"type": flat["type"]}, p30Sel{"issuer": true, "issuanceDate": true, "expirationDate": true, "note": true, "serial": true, "credentialSubject": true}},
		{"explicit top, whole subject", map[string]any{"type": flat["type"], "@explicit": true, "issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{"@explicit": false}}, full},
		{"one type", map[string]any{"type": []any{"VerifiableCredential"}, "@explicit": true, "issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{}}, full},
		{"by id", map[string]any{"id": "urn:vc:bbs", "type": flat["type"], "@explicit": true, "issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{}}, full},
		{"other type", map[string]any{"type": []any{"YCred"}, "@explicit": true, "issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{}}, nil},
		{"other id", map[string]any{"id": "urn:vc:other", "type": flat["type"], "@explicit": true, "issuer": map[string]any{}, "issuanceDate": map[string]any{}, "credentialSubject": map[string]any{}}, nil},
		{"empty", map[string]any{}, nil},
		{"nil", nil, nil},
	}
	for _, fr := range frames {
		e.Casef(func(t *h.T) {
			vc := p30Parse(t, w.sign(t, w.k, flat))
			if fr.f != nil {
				fr.f["@context"] = p30Ctx()
			}
			d, err := w.derive(vc, fr.f, nonce)
			t.Step("%v", err)
			if fr.want == nil {
				t.Outcome("error")
				if err == nil && fr.name != "empty" {
					t.Fail("derived: %s", h.JSON(d))
				}
				return
			}
			t.Outcome("derived")
			t.Must(err, "derive")
			if err := w.verify([]byte(h.JSON(d))); err != nil {
				t.Fail("does not verify: %v", err)
			}
			got := parseObj(h.JSON(d))
			delete(got, "proof")
			delete(got, "@context")
			if g, x := h.Canon(p30Norm(got)), h.Canon(p30Norm(parseObj(h.JSON(fr.want.pick(flat))))); g != x {
				t.Fail("the derived credential has\n%s\nwant\n%s", g, x)
			}
		}, "frame %s", fr.name)
	}
	// nonces
	for _, n := range [][]byte{nil, {}, {0}, []byte("x"), []byte("a long nonce with \xff bytes \x00 and more than thirty-two of them")} {
		e.Casef(func(t *h.T) {
			w.check(t, p30Parse(t, w.sign(t, w.k, flat)), flat, full, n, 0)
		}, "nonce %x", n)
	}
	// which keys and proofs the source has
	sources := []struct {
		name   string
		keys   []*fx.Key
		proofs int // BBS+ proofs; 0: an error
	}{
		{"none", nil, 0}, {"ed25519", []*fx.Key{w.ed}, 0}, {"bbs", []*fx.Key{w.k}, 1}, {"ed25519, bbs", []*fx.Key{w.ed, w.k}, 1}, {"bbs, ed25519", []*fx.Key{w.k, w.ed}, 1}, {"bbs, bbs2", []*fx.Key{w.k, w.k2}, 2}, {"bbs, ed25519, bbs2", []*fx.Key{w.k, w.ed, w.k2}, 2},
	}
	for _, src := range sources {
		e.Casef(func(t *h.T) {
			doc := copyObj(flat)
			var proofs []any
			for _, k := range src.keys {
				suite := "BbsBlsSignature2020"
				if k == w.ed {
					suite = "Ed25519Signature2018"
				}
				out, err := ldSigning{suite: suite, vm: k.KID, purpose: "assertionMethod"}.sign(k, flat)
				t.Must(err, "sign")
				p := out["proof"]
				if l, ok := p.([]any); ok {
					p = l[0]
				}
				proofs = append(proofs, p)
			}
			if proofs != nil {
				doc["proof"] = proofs
			}
			vc := p30Parse(t, doc)
			fr := full.frame(flat)
			fr["@context"] = p30Ctx()
			d, err := w.derive(vc, fr, nonce)
			t.Step("%v", err)
			if src.proofs == 0 {
				t.Outcome("error")
				if err == nil {
					t.Fail("derived without a BBS+ signature")
				}
				return
			}
			t.Outcome("derived")
			t.Must(err, "derive")
			if n := len(d.Proofs()); n != src.proofs {
				t.Fail("%d proofs", n)
			}
			if err := w.verify([]byte(h.JSON(d))); err != nil {
				t.Fail("does not verify: %v", err)
			}
		}, "source proofs [%s]", src.name)
	}
	// changes of a derived credential
	type target struct {
		doc string
		sel p30Sel
	}
	targets := []target{
		{"flat", with(full, "credentialSubject", p30Sel{"name": true, "age": true, "tags": true})},
		{"nested", with(full, "credentialSubject", p30Sel{"addr": p30Sel{"city": true}, "deg": true})},
		{"anonymous", with(with(full, "credentialSubject", p30Sel{"name": true, "friend": true}), "note", true)},
	}
	for ti, tg := range targets {
		doc := docs[tg.doc]
		get := func(t *h.T, k *fx.Key, d map[string]any, sel p30Sel, n []byte) map[string]any {
			fr := sel.frame(d)
			fr["@context"] = p30Ctx()
			vc, err := w.derive(p30Parse(t, w.sign(t, k, d)), fr, n)
			t.Must(err, "derive")
			return parseObj(h.JSON(vc))
		}
		if ti == 0 {
			p30Purposes(e, w, doc, func() map[string]any { fr := tg.sel.frame(doc); fr["@context"] = p30Ctx(); return fr })
		}
		reject := func(t *h.T, what string, d map[string]any) {
			t.Step("%s", what)
			if w.verify([]byte(h.JSON(d))) == nil {
				t.FailSub(what, "accepted: %s", h.JSON(d))
			}
		}
		e.Casef(func(t *h.T) {
			d := get(t, w.k, doc, tg.sel, nonce)
			t.Must(w.verify([]byte(h.JSON(d))), "verify")
			body := copyObj(d)
			delete(body, "proof")
			delete(body, "@context")
			for _, m := range semMutations(body) {
				x := copyObj(m.doc.(map[string]any))
				if h.Canon(p30Norm(x)) == h.Canon(p30Norm(body)) {
					continue // the id given to a blank node
				}
				x["proof"], x["@context"] = d["proof"], d["@context"]
				reject(t, m.what, x)
			}
			// a hidden value is added
			full := doc["credentialSubject"].(map[string]any)
			for _, k := range sortedKeys(full) {
				if _, ok := tg.sel["credentialSubject"].(p30Sel)[k]; ok || k == "id" || k == "type" {
					continue
				}
				x := parseObj(h.JSON(d))
				x["credentialSubject"].(map[string]any)[k] = full[k]
				reject(t, "hidden member "+k+" put back", x)
			}
		}, "changes of the claims of %s", tg.doc)
		e.Casef(func(t *h.T) {
			d := get(t, w.k, doc, tg.sel, nonce)
			pr, ok := d["proof"].(map[string]any)
			if !ok {
				pr = d["proof"].([]any)[0].(map[string]any)
			}
			set := func(what string, p any) {
				x := copyObj(d)
				x["proof"] = p
				reject(t, what, x)
			}
			for _, name := range sortedKeys(pr) {
				vals := []any{"absent", nil, "", 7.0, "x", []any{pr[name]}, map[string]any{"v": pr[name]}}
				switch name {
				case "created":
					vals = append(vals, "2021-02-03T04:05:07Z", "2020-13-01T00:00:00Z")
				case "nonce":
					vals = append(vals, base64.StdEncoding.EncodeToString([]byte("another nonce")), base64.RawURLEncoding.EncodeToString([]byte("nonce of the verifie")))
				case "type":
					vals = append(vals, "BbsBlsSignature2020", "Ed25519Signature2018", "DataIntegrityProof")
				case "verificationMethod":
					vals = append(vals, w.k2.KID, w.other.KID, w.ed.KID, p30Iss, p30Iss+"#none")
				case "proofPurpose":
					vals = append(vals, "authentication")
				case "proofValue":
					b, _ := base64.StdEncoding.DecodeString(pr[name].(string))
					for i := 0; i < len(b); i += e.Pick(16, 1) {
						c := append([]byte{}, b...)
						c[i] ^= 1
						vals = append(vals, base64.StdEncoding.EncodeToString(c))
					}
					for _, n := range []int{0, 1, 2, 3, 10, 100, len(b) - 32, len(b) - 1} {
						vals = append(vals, base64.StdEncoding.EncodeToString(b[:n]))
					}
				}
				for i, v := range vals {
					p := copyObj(pr)
					if v == "absent" {
						delete(p, name)
					} else {
						p[name] = v
					}
					set(fmt.Sprintf("proof %s change %d", name, i), p)
				}
			}
			for name, v := range map[string]any{"domain": "d", "challenge": "c", "creator": w.k.KID} {
				p := copyObj(pr)
				p[name] = v
				set("proof with "+name, p)
			}
			delete(d, "proof")
			reject(t, "no proof", d)
		}, "changes of the proof of %s", tg.doc)
		e.Casef(func(t *h.T) {
			d := get(t, w.k, doc, tg.sel, nonce)
			swap := func(what string, o map[string]any) {
				x := copyObj(d)
				x["proof"] = o["proof"]
				reject(t, what, x)
			}
			swap("proof of another selection", get(t, w.k, doc, with(tg.sel, "credentialSubject", p30Sel{"name": true}), nonce))
			swap("proof of the whole", get(t, w.k, doc, with(tg.sel, "credentialSubject", true), nonce))
			o := parseObj(h.JSON(doc))
			o["credentialSubject"].(map[string]any)["name"] = "another"
			if _, ok := tg.sel["credentialSubject"].(p30Sel)["name"]; !ok {
				o["note"] = "shown" // a difference that is revealed
				swap("proof of another credential", get(t, w.k, o, with(tg.sel, "note", true), nonce))
				o["issuanceDate"] = "2021-01-01T00:00:00Z"
			}
			swap("proof of another credential", get(t, w.k, o, tg.sel, nonce))
			swap("proof by another DID", get(t, w.other, doc, tg.sel, nonce))
			swap("signature instead of proof", w.sign(t, w.k, doc))
			x := parseObj(h.JSON(get(t, w.other, doc, tg.sel, nonce)))
			reject(t, "signed by another DID", x)
			o = parseObj(h.JSON(doc))
			o["issuer"] = "did:example:otherissuer"
			reject(t, "other issuer with the key of this one", get(t, w.k, o, tg.sel, nonce))
			l := copyObj(d)
			bad := copyObj(d["proof"].(map[string]any))
			bad["nonce"] = "AAAA"
			for i, p := range []any{[]any{d["proof"], bad}, []any{bad, d["proof"]}} {
				l["proof"] = p
				reject(t, fmt.Sprint("one bad proof of two ", i), l)
			}
			ok := copyObj(d)
			ok["proof"] = []any{d["proof"], get(t, w.k, doc, tg.sel, []byte("n2"))["proof"]}
			t.Must(w.verify([]byte(h.JSON(ok))), "two good proofs")
		}, "proofs of others for %s", tg.doc)
	}
	p30Definitions(e, w, docs)
}

// p30Definitions reveals with presentation definitions that limit disclosure.
func p30Definitions(e *h.Env, w *p30World, docs map[string]map[string]any) {
	fields := map[string][]string{
		"flat":      {"credentialSubject.name", "credentialSubject.age", "credentialSubject.tags", "credentialSubject.ok", "note", "expirationDate"},
		"nested":    {"credentialSubject.name", "credentialSubject.addr", "credentialSubject.deg.level", "credentialSubject.deg.by", "credentialSubject.deg.by.title", "note"},
		"anonymous": {"credentialSubject.name", "credentialSubject.friend", "credentialSubject.friend.nick", "serial"},
		"self":      {"credentialSubject.name", "credentialSubject.age", "note", "issuer"},
	}
	for _, name := range []string{"flat", "nested", "anonymous", "self"} {
		doc := docs[name]
		if name == "self" { // issuer and subject are the same node
			doc = parseObj(h.JSON(docs["flat"]))
			doc["credentialSubject"].(map[string]any)["id"] = p30Iss
		}
		for mask := 1; mask < 1<<len(fields[name]); mask++ {
			var set []int
			for i := range fields[name] {
				if mask>>i&1 == 1 {
					set = append(set, i)
				}
			}
			e.Casef(func(t *h.T) {
				want := map[string]any{}
				var fs []any
				for _, i := range set {
					p := fields[name][i]
					fs = append(fs, map[string]any{"path": []any{"$." + p}})
					parts := strings.Split(p, ".")
					src, dst := doc, want
					for j, k := range parts {
						if j == len(parts)-1 {
							dst[k] = deepCopy(src[k])
							break
						}
						n, ok := dst[k].(map[string]any)
						if !ok {
							n = map[string]any{}
							dst[k] = n
						}
						src, dst = src[k].(map[string]any), n
					}
				}
				// what is always revealed: mandatory members, ids and types of the revealed nodes
				subj, _ := want["credentialSubject"].(map[string]any)
				if subj == nil {
					subj = map[string]any{}
					want["credentialSubject"] = subj
				}
				for _, k := range []string{"id", "type", "issuer", "issuanceDate"} {
					want[k] = doc[k]
				}
				var fill func(src, dst map[string]any)
				fill = func(src, dst map[string]any) {
					for _, k := range []string{"id", "type"} {
						if v, ok := src[k]; ok {
							dst[k] = v
						}
					}
					for k, v := range dst {
						if m, ok := v.(map[string]any); ok {
							fill(src[k].(map[string]any), m)
						}
					}
				}
				fill(doc, want)
				pd := pxPD(t, map[string]any{"id": "pd", "input_descriptors": []any{map[string]any{"id": "d", "schema": []any{map[string]any{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential"}}, "constraints": map[string]any{"limit_disclosure": "required", "fields": fs}}}})
				vc := p30Parse(t, w.sign(t, w.k, doc))
				vp, err := pd.CreateVP([]*verifiable.Credential{vc}, fx.Loader(),
					presexch.WithSDBBSProofCreator(w.creator()), presexch.WithSDCredentialOptions(verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithProofChecker(fx.CheckerR(w.resolver()))))
				t.Must(err, "create presentation")
				if len(vp.Credentials()) != 1 {
					t.Fatal("%d credentials", len(vp.Credentials()))
				}
				b := []byte(h.JSON(vp.Credentials()[0]))
				t.Step("derived %s", b)
				t.Outcome("derived")
				if err := w.verify(b); err != nil {
					t.Fail("the limited credential does not verify: %v", err)
				}
				got := parseObj(string(b))
				delete(got, "proof")
				delete(got, "@context")
				if g, x := h.Canon(p30Norm(got)), h.Canon(p30Norm(parseObj(h.JSON(want)))); g != x {
					t.Fail("the limited credential has\n%s\nwant\n%s", g, x)
				}
			}, "definition %s %v", name, set)
		}
	}
}
