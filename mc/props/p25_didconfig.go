package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"

	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:    "P25",
		Level: "enumerated",
		Rule:  "A case is one did-configuration document and one request (DID, domain). Entries are built and signed by the harness; each carries the reference decision computed from how it was built (which DID and origin it links, which single rule it breaks). VerifyDIDAndDomain must succeed exactly when the document is well formed and some entry is a good one for the request.",
		Assume: []string{
			"the validity period of a linkage credential is not enforced: the repository's own tests accept an expired one; entries state both dates",
			"an entry that is neither a string nor an object makes the whole configuration malformed (existing test)",
			"not decided: default ports, host letter case, paths in origins, a token without sub or iss, token claims that contradict the vc claim other than sub, SD-JWT/CWT/enveloped entries",
		},
		Gen: p25Gen,
	})
}

const (
	p25Ctx  = "https://identity.foundation/.well-known/did-configuration/v1"
	p25Dom  = "https://shop.example"
	p25Dom2 = "https://other.example"
)

// p25Entry is an entry of linked_dids: the value, and the DID and the domain it links ("" if it links nothing).
type p25Entry struct {
	name      string
	val       any
	did, dom  string
	malformed bool
}

type p25Set struct {
	a, b, c *fx.Key // c is unknown to the resolver
	res     diDIDs
	entries []p25Entry
	ld, jwt []p25Dev
}

var (
	p25Once sync.Once
	p25S    *p25Set
)

// p25Dev is a rule-breaking change of the unsigned credential (or token); late changes are made after signing.
type p25Dev struct {
	name string
	form string // "ld", "jwt" or "" for both
	doc  func(d map[string]any)
	hdr  func(m map[string]any)
	pay  func(m map[string]any)
	late func(d map[string]any)
	key  func(s *p25Set) *fx.Key // signing key
	sig  func(tok string) string
	harm bool   // harmless: the entry stays good
	dom  string // the domain it links instead
}

func p25Subj(d map[string]any) map[string]any {
	m, _ := d["credentialSubject"].(map[string]any)
	if l, _ := d["credentialSubject"].([]any); len(l) > 0 {
		m, _ = l[len(l)-1].(map[string]any)
	}
	if m == nil {
		m = map[string]any{}
	}
	return m
}

func p25Proof(d map[string]any) map[string]any {
	switch p := d["proof"].(type) {
	case map[string]any:
		return p
	case []any:
		if len(p) > 0 {
			return p[0].(map[string]any)
		}
	}
	return map[string]any{}
}

func p25Doc(did, dom string) map[string]any {
	return map[string]any{
		"@context":          []any{"https://www.w3.org/2018/credentials/v1", p25Ctx},
		"issuer":            did,
		"issuanceDate":      "2024-01-02T03:04:05Z",
		"expirationDate":    "2044-01-02T03:04:05Z",
		"type":              []any{"VerifiableCredential", "DomainLinkageCredential"},
		"credentialSubject": map[string]any{"id": did, "origin": dom},
	}
}

func p25Devs(s *p25Set) []p25Dev {
	set := func(k string, v any) func(map[string]any) {
		return func(d map[string]any) { d[k] = v }
	}
	del := func(k string) func(map[string]any) { return func(d map[string]any) { delete(d, k) } }
	sub := func(k string, v any) func(map[string]any) {
		return func(d map[string]any) { p25Subj(d)[k] = v }
	}
	l := []p25Dev{
		{name: "plain type", doc: set("type", []any{"VerifiableCredential"})},
		{name: "other type", doc: set("type", []any{"VerifiableCredential", "LinkedDomains"})},
		{name: "has id", doc: set("id", "urn:uuid:25252525-0000-4000-8000-000000000001")},
		{name: "no issuance date", doc: del("issuanceDate")},
		{name: "no expiration date", doc: del("expirationDate")},
		{name: "no subject", doc: del("credentialSubject")},
		{name: "empty subjects", doc: set("credentialSubject", []any{})},
		{name: "two subjects", doc: func(d map[string]any) {
			d["credentialSubject"] = []any{deepCopy(p25Subj(d)), deepCopy(p25Subj(d))}
		}},
		{name: "subject twice, other first", doc: func(d map[string]any) {
			o := deepCopy(p25Subj(d)).(map[string]any)
			o["origin"] = p25Dom2
			d["credentialSubject"] = []any{o, deepCopy(p25Subj(d))}
		}},
		{name: "subject in a list", harm: true, doc: func(d map[string]any) { d["credentialSubject"] = []any{d["credentialSubject"]} }},
		{name: "no subject id", doc: func(d map[string]any) { delete(p25Subj(d), "id") }},
		{name: "subject a url", doc: sub("id", "https://shop.example/subject")},
		{name: "subject other DID", doc: sub("id", s.b.DID)},
		{name: "subject DID prefix", doc: sub("id", s.a.DID[:len(s.a.DID)-1])},
		{name: "subject DID longer", doc: sub("id", s.a.DID+"x")},
		{name: "subject DID url", doc: sub("id", s.a.DID+"#k1")},
		{name: "subject DID query", doc: sub("id", s.a.DID+"?a=b")},
		{name: "subject DID path", doc: sub("id", s.a.DID+"/x")},
		{name: "subject DID blank", doc: sub("id", s.a.DID+" ")},
		{name: "subject DID case", doc: sub("id", strings.ToUpper(s.a.DID))},
		{name: "no origin", doc: func(d map[string]any) { delete(p25Subj(d), "origin") }},
		{name: "origin a list", doc: sub("origin", []any{p25Dom})},
		{name: "origin a number", doc: sub("origin", 7.0)},
		{name: "origin empty", doc: sub("origin", "")},
		{name: "origin other host", dom: p25Dom2, doc: sub("origin", p25Dom2)},
		{name: "origin subdomain", doc: sub("origin", "https://www.shop.example")},
		{name: "origin longer host", doc: sub("origin", p25Dom+".evil.example")},
		{name: "origin in userinfo", doc: sub("origin", p25Dom+"@evil.example")},
		{name: "origin other scheme", doc: sub("origin", "http://shop.example")},
		{name: "origin other port", doc: sub("origin", p25Dom+":8443")},
		{name: "origin without scheme", doc: sub("origin", "shop.example")},
		{name: "issuer other DID", doc: set("issuer", s.b.DID)},
		{name: "issuer DID prefix", doc: set("issuer", s.a.DID[:len(s.a.DID)-1])},
		{name: "issuer object", harm: true, doc: func(d map[string]any) { d["issuer"] = map[string]any{"id": d["issuer"]} }},
		{name: "issuer object other DID", doc: set("issuer", map[string]any{"id": s.b.DID})},
		{name: "issuer object with no id", doc: set("issuer", map[string]any{"name": "x"})},
		{name: "no issuer", doc: del("issuer")},
		{name: "signed by other DID", key: func(s *p25Set) *fx.Key { return s.b }},
		{name: "signed by unknown DID", key: func(s *p25Set) *fx.Key { return s.c }},
		{name: "unknown property", form: "ld", doc: set("unknownTerm", "x")},
		{name: "no proof", form: "ld", late: del("proof")},
		{name: "empty proof list", form: "ld", late: set("proof", []any{})},
		{name: "proof null", form: "ld", late: set("proof", nil)},
		{name: "changed origin", form: "ld", doc: sub("origin", p25Dom2), late: sub("origin", p25Dom)},
		{name: "changed expiration", form: "ld", late: set("expirationDate", "2045-01-02T03:04:05Z")},
		{name: "changed type", form: "ld", doc: set("type", []any{"VerifiableCredential"}), late: set("type", []any{"VerifiableCredential", "DomainLinkageCredential"})},
		{name: "proof names other DID's key", form: "ld", late: func(d map[string]any) {
			p25Proof(d)["verificationMethod"] = s.b.KID
		}},
		{name: "proof names unknown key", form: "ld", late: func(d map[string]any) {
			p25Proof(d)["verificationMethod"] = s.a.DID + "#none"
		}},
		{name: "proof value cut", form: "ld", late: func(d map[string]any) {
			p := p25Proof(d)
			for _, k := range []string{"jws", "proofValue"} {
				if v, ok := p[k].(string); ok {
					p[k] = v[:len(v)-8]
				}
			}
		}},
	}
	hdr := func(k string, v any) func(map[string]any) { return set(k, v) }
	flip := func(part int) func(string) string {
		return func(tok string) string {
			ps := strings.Split(tok, ".")
			b := []byte(ps[part])
			if b[10] == 'A' {
				b[10] = 'B'
			} else {
				b[10] = 'A'
			}
			ps[part] = string(b)
			return strings.Join(ps, ".")
		}
	}
	l = append(l,
		p25Dev{name: "typ JWT", form: "jwt", harm: true, hdr: hdr("typ", "JWT")},
		p25Dev{name: "typ other", form: "jwt", hdr: hdr("typ", "vc+jwt")},
		p25Dev{name: "extra header", form: "jwt", hdr: hdr("cty", "vc")},
		p25Dev{name: "critical header", form: "jwt", hdr: hdr("crit", []any{"exp"})},
		p25Dev{name: "no kid", form: "jwt", hdr: del("kid")},
		p25Dev{name: "kid of other DID", form: "jwt", hdr: hdr("kid", s.b.KID)},
		p25Dev{name: "kid unknown", form: "jwt", hdr: hdr("kid", s.a.DID+"#none")},
		p25Dev{name: "alg none", form: "jwt", hdr: hdr("alg", "none"), sig: func(tok string) string {
			return tok[:strings.LastIndex(tok, ".")+1]
		}},
		p25Dev{name: "alg other", form: "jwt", hdr: hdr("alg", "ES256")},
		p25Dev{name: "no alg", form: "jwt", hdr: del("alg")},
		p25Dev{name: "extra payload claim", form: "jwt", pay: set("extra", "x")},
		p25Dev{name: "audience claim", form: "jwt", pay: set("aud", "x")},
		p25Dev{name: "jti claim", form: "jwt", pay: set("jti", "urn:x:1")},
		p25Dev{name: "iat claim", form: "jwt", harm: true, pay: set("iat", 1704164645)},
		p25Dev{name: "sub other", form: "jwt", pay: set("sub", s.b.DID)},
		p25Dev{name: "no vc claim", form: "jwt", pay: del("vc")},
		p25Dev{name: "vc claim a string", form: "jwt", pay: set("vc", "x")},
		p25Dev{name: "signature empty", form: "jwt", sig: func(tok string) string { return tok[:strings.LastIndex(tok, ".")+1] }},
		p25Dev{name: "signature flipped", form: "jwt", sig: flip(2)},
		p25Dev{name: "payload of another token", form: "jwt", sig: func(tok string) string {
			o := strings.Split(p25Tok(s.a, s.a.DID, p25Dom, "nbf"), ".")
			ps := strings.Split(tok, ".")
			return ps[0] + "." + o[1] + "." + ps[2]
		}, pay: set("iat", 1704164645)},
		p25Dev{name: "two parts", form: "jwt", sig: func(tok string) string { return tok[:strings.LastIndex(tok, ".")] }},
	)
	return l
}

// p25Tok is a good token; diff makes it different from the others.
func p25Tok(k *fx.Key, did, dom, diff string) string {
	hd, pl := p25JWT(p25Doc(did, dom), k, did)
	if diff == "nbf" {
		pl["nbf"] = 1704164646
		pl["vc"].(map[string]any)["issuanceDate"] = "2024-01-02T03:04:06Z"
	}
	return rawJWS(hd, []byte(h.JSON(pl)), k)
}

func p25JWT(d map[string]any, k *fx.Key, did string) (map[string]any, map[string]any) {
	pl := map[string]any{"vc": d, "iss": did, "sub": did}
	if _, ok := d["issuer"]; !ok {
		delete(pl, "iss")
	}
	if v, ok := d["issuer"].(string); ok {
		pl["iss"] = v
	}
	if m, ok := d["issuer"].(map[string]any); ok {
		if v, ok := m["id"]; ok {
			pl["iss"] = v
		} else {
			delete(pl, "iss")
		}
	}
	if m, ok := d["credentialSubject"].(map[string]any); ok {
		if v, ok := m["id"]; ok {
			pl["sub"] = v
		} else {
			delete(pl, "sub")
		}
	}
	if _, ok := d["issuanceDate"]; ok {
		pl["nbf"] = 1704164645
	}
	if _, ok := d["expirationDate"]; ok {
		pl["exp"] = 2335316645
	}
	if v, ok := d["id"]; ok {
		pl["jti"] = v
	}
	return map[string]any{"alg": k.JWTAlg, "kid": k.KID}, pl
}

// build makes an entry with the given deviations.
func (s *p25Set) build(form string, k *fx.Key, dom string, devs ...p25Dev) (p25Entry, bool) {
	did := k.DID
	ent := p25Entry{did: did, dom: dom, name: form + " " + k.DID + " " + dom}
	d := p25Doc(did, dom)
	sk := k
	for _, v := range devs {
		if v.form != "" && v.form != form {
			return ent, false
		}
		ent.name = form + ": " + v.name
		if v.dom != "" {
			ent.dom = v.dom
		} else if !v.harm {
			ent.did, ent.dom = "", ""
		}
		if v.doc != nil {
			v.doc(d)
		}
		if v.key != nil {
			sk = v.key(s)
		}
	}
	if form == "ld" {
		vm := k.KID
		if sk == s.c {
			vm = sk.KID
		}
		out, err := ldSigning{suite: "Ed25519Signature2018", vm: vm, purpose: "assertionMethod"}.sign(sk, d)
		if err != nil {
			panic(fmt.Sprint(ent.name, err))
		}
		for _, v := range devs {
			if v.late != nil {
				v.late(out)
			}
		}
		ent.val = out
		return ent, true
	}
	hd, pl := p25JWT(d, k, did)
	if sk == s.c {
		hd["kid"] = sk.KID
	}
	for _, v := range devs {
		if v.hdr != nil {
			v.hdr(hd)
		}
		if v.pay != nil {
			v.pay(pl)
		}
	}
	tok := rawJWS(hd, []byte(h.JSON(pl)), sk)
	for _, v := range devs {
		if v.sig != nil {
			tok = v.sig(tok)
		}
	}
	ent.val = tok
	return ent, true
}

func p25Get() *p25Set {
	p25Once.Do(func() {
		s := &p25Set{
			a: fx.NewKey("ed25519", "did:example:linker", "k1"),
			b: fx.NewKey("ed25519", "did:example:linker2", "k1"),
			c: fx.NewKey("ed25519", "did:example:nobody", "k1"),
		}
		s.res = diDoc(s.a, s.b)
		for _, v := range p25Devs(s) {
			for _, form := range []string{"ld", "jwt"} {
				if ent, ok := s.build(form, s.a, p25Dom, v); ok {
					s.entries = append(s.entries, ent)
				}
			}
		}
		for _, form := range []string{"ld", "jwt"} {
			for _, k := range []*fx.Key{s.a, s.b} {
				for _, dom := range []string{p25Dom, p25Dom2} {
					ent, _ := s.build(form, k, dom)
					s.entries = append(s.entries, ent)
				}
			}
		}
		for i, v := range []any{"", "x", "a.b.c", "{}", "{", "null", "0", "[]", map[string]any{}, map[string]any{"type": "DomainLinkageCredential"}, map[string]any{"proof": []any{nil}}} {
			s.entries = append(s.entries, p25Entry{name: fmt.Sprintf("junk %d", i), val: v})
		}
		for i, v := range []any{nil, 7, true, []any{}, []any{p25Tok(s.a, s.a.DID, p25Dom, "")}} {
			s.entries = append(s.entries, p25Entry{name: fmt.Sprintf("malformed %d", i), val: v, malformed: true})
		}
		p25S = s
	})
	return p25S
}

func (s *p25Set) opts() []verifier.DIDConfigurationOpt {
	return []verifier.DIDConfigurationOpt{verifier.WithJSONLDDocumentLoader(fx.Loader()), verifier.WithVDRegistry(s.res)}
}

func p25Conf(ents ...p25Entry) map[string]any {
	l := []any{}
	for _, e := range ents {
		l = append(l, e.val)
	}
	return map[string]any{"@context": p25Ctx, "linked_dids": l}
}

func p25Want(did, dom string, ents ...p25Entry) bool {
	ok := false
	for _, e := range ents {
		if e.malformed {
			return false
		}
		ok = ok || e.did == did && e.dom == dom && did != ""
	}
	return ok
}

func p25Check(t *h.T, sub string, err error, want bool) {
	t.Step("verify")
	t.Outcome(fmt.Sprint(want))
	if want && err != nil {
		t.FailSub(sub, "the configuration links the DID and the domain, but verification failed: %v", err)
	}
	if !want && err == nil {
		t.FailSub(sub, "verification succeeded although no entry links the DID and the domain")
	}
}

// p25Origins are origins and the (scheme, host, port) they name; anything with ok=false names none.
var p25Origins = []struct {
	s, scheme, host, port string
}{
	{"https://shop.example", "https", "shop.example", ""},
	{"http://shop.example", "http", "shop.example", ""},
	{"https://shop.example:8443", "https", "shop.example", "8443"},
	{"https://shop.example:8444", "https", "shop.example", "8444"},
	{"http://shop.example:8443", "http", "shop.example", "8443"},
	{"https://www.shop.example", "https", "www.shop.example", ""},
	{"https://shop.example.org", "https", "shop.example.org", ""},
	{"https://xshop.example", "https", "xshop.example", ""},
	{"https://shop.exampl", "https", "shop.exampl", ""},
	{"https://shop.example@evil.example", "https", "evil.example", ""},
	{"https://evil.example", "https", "evil.example", ""},
	{"https://[::1]", "https", "[::1]", ""},
	{"https://[::1]:8443", "https", "[::1]", "8443"},
	{"https://127.0.0.1", "https", "127.0.0.1", ""},
	{"https://127.0.0.1:8443", "https", "127.0.0.1", "8443"},
	{"shop.example", "", "shop.example", ""},
	{"other.example", "", "other.example", ""},
	{"//shop.example", "//", "shop.example", ""},
	{"mailto:shop", "mailto", "opaque shop", ""},
	{"mailto:other", "mailto", "opaque other", ""},
	{"urn:shop:1", "urn", "opaque shop:1", ""},
	{"/shop", "", "path /shop", ""},
	{"/other", "", "path /other", ""},
}

type p25HTTP struct {
	status int
	body   []byte
	err    error // from Do
	cut    int   // the body fails after cut bytes; -1 never
	reqs   []string
}

type p25Body struct {
	r   io.Reader
	err error
}

func (b *p25Body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if errors.Is(err, io.EOF) && b.err != nil {
		err = b.err
	}
	return n, err
}

func (b *p25Body) Close() error { return nil }

func (c *p25HTTP) Do(r *http.Request) (*http.Response, error) {
	c.reqs = append(c.reqs, r.Method+" "+r.URL.String())
	if c.err != nil {
		return nil, c.err
	}
	b := c.body
	body := &p25Body{}
	if c.cut >= 0 {
		b = b[:c.cut]
		body.err = io.ErrUnexpectedEOF
	}
	body.r = bytes.NewReader(b)
	return &http.Response{StatusCode: c.status, Body: body, Header: http.Header{}, Request: r}, nil
}

func p25Gen(e *h.Env) {
	s := p25Get()
	verify := func(conf any, did, dom string) error {
		return verifier.VerifyDIDAndDomain([]byte(h.JSON(conf)), did, dom, s.opts()...)
	}
	n := len(s.entries)
	// the empty list and single entries, for each request
	reqs := [][2]string{}
	for _, did := range []string{s.a.DID, s.b.DID, s.c.DID, s.a.DID[:len(s.a.DID)-1], ""} {
		for _, dom := range []string{p25Dom, p25Dom2, "https://third.example", "", "://"} {
			reqs = append(reqs, [2]string{did, dom})
		}
	}
	single := func(name string, ents ...p25Entry) {
		e.Casef(func(t *h.T) {
			for _, r := range reqs {
				if len(ents) == 1 && r[1] == "" && strings.HasSuffix(ents[0].name, "origin empty") {
					continue // an origin that is no origin
				}
				var err error
				if p := h.Guard(func() { err = verify(p25Conf(ents...), r[0], r[1]) }); p != "" {
					t.FailSub(fmt.Sprintf("%s at %s", r[0], r[1]), "panic: %s", p)
					continue
				}
				p25Check(t, fmt.Sprintf("%s at %s", r[0], r[1]), err, p25Want(r[0], r[1], ents...))
			}
		}, "%s", name)
	}
	single("no entries")
	for _, ent := range s.entries {
		single("entry "+ent.name, ent)
	}
	// two deviations
	devs := p25Devs(s)
	for i := range devs {
		for j := i + 1; j < len(devs); j++ {
			e.Casef(func(t *h.T) {
				for _, form := range []string{"ld", "jwt"} {
					var ent p25Entry
					ok := false
					if p := h.Guard(func() { ent, ok = s.build(form, s.a, p25Dom, devs[i], devs[j]) }); p != "" || !ok {
						continue // the two changes do not go together
					}
					if devs[i].harm && devs[j].harm {
						continue
					}
					if devs[i].name == "no issuance date" && devs[j].name == "iat claim" {
						continue // the token states it with iat
					}
					var err error
					if p := h.Guard(func() { err = verify(p25Conf(ent), s.a.DID, p25Dom) }); p != "" {
						t.FailSub(form, "panic: %s", p)
						continue
					}
					// two changes of the same member leave only the later one
					p25Check(t, form, err, false)
				}
			}, "both %s, %s", devs[i].name, devs[j].name)
		}
	}
	// lists
	lists := func(pool []int, k int) {
		for _, l := range lists(len(pool), k) {
			var ents []p25Entry
			var name []string
			for _, i := range l {
				ents = append(ents, s.entries[pool[i]])
				name = append(name, s.entries[pool[i]].name)
			}
			e.Casef(func(t *h.T) {
				p25Check(t, "", verify(p25Conf(ents...), s.a.DID, p25Dom), p25Want(s.a.DID, p25Dom, ents...))
			}, "list [%s]", strings.Join(name, ", "))
		}
	}
	var all, core []int
	for i := 0; i < n; i++ {
		all = append(all, i)
		switch nm := s.entries[i].name; {
		case strings.HasPrefix(nm, "ld "), strings.HasPrefix(nm, "jwt "), nm == "junk 1", nm == "junk 8", nm == "malformed 1",
			nm == "ld: changed origin", nm == "jwt: signed by other DID", nm == "ld: no proof", nm == "jwt: signature flipped",
			nm == "ld: plain type", nm == "jwt: origin other host":
			core = append(core, i)
		}
	}
	// long lists: one good entry among others, at each end and in the middle
	for _, n := range []int{11, 60} {
		for _, i := range core {
			if p25Want(s.a.DID, p25Dom, s.entries[i]) {
				continue
			}
			for j := range s.entries {
				if nm := s.entries[j].name; nm != "ld good" && nm != "jwt good" && !p25Want(s.a.DID, p25Dom, s.entries[j]) || n > 11 && j%2 == 0 {
					continue
				}
				for _, p := range []int{-1, 0, n / 2, n - 2, n - 1} {
					e.Casef(func(t *h.T) {
						ents := make([]p25Entry, n)
						for x := range ents {
							ents[x] = s.entries[i]
						}
						if p >= 0 {
							ents[p] = s.entries[j]
						}
						p25Check(t, "", verify(p25Conf(ents...), s.a.DID, p25Dom), p25Want(s.a.DID, p25Dom, ents...))
					}, "%d times %s, at %d %s", n, s.entries[i].name, p, s.entries[j].name)
				}
			}
		}
	}
	lists(all, 2)
	lists(core, 3)
	if e.Thorough() {
		lists(core, 4)
	}
	// origins and domains
	for _, o := range p25Origins {
		for _, d := range p25Origins {
			e.Casef(func(t *h.T) {
				want := o.scheme == d.scheme && o.host == d.host && o.port == d.port
				for _, form := range []string{"ld", "jwt"} {
					doc := p25Dev{name: "x", doc: func(m map[string]any) { p25Subj(m)["origin"] = o.s }}
					ent, _ := s.build(form, s.a, p25Dom, doc)
					p25Check(t, form, verify(p25Conf(ent), s.a.DID, d.s), want)
				}
			}, "origin %s, domain %s", o.s, d.s)
		}
	}
	// shape of the document
	good, _ := s.build("jwt", s.a, p25Dom)
	shapes := []struct {
		name string
		doc  string
		want bool
	}{
		{"good", h.JSON(p25Conf(good)), true},
		{"empty", "", false}, {"null", "null", false}, {"list", "[]", false}, {"string", `"x"`, false}, {"number", "7", false},
		{"object", "{}", false}, {"cut", strings.TrimSuffix(h.JSON(p25Conf(good)), "}"), false},
		{"trailing", h.JSON(p25Conf(good)) + "x", false},
		{"no context", h.JSON(map[string]any{"linked_dids": []any{good.val}}), false},
		{"no list", h.JSON(map[string]any{"@context": p25Ctx}), false},
		{"null list", h.JSON(map[string]any{"@context": p25Ctx, "linked_dids": nil}), false},
		{"list is a string", h.JSON(map[string]any{"@context": p25Ctx, "linked_dids": good.val}), false},
		{"list is an object", h.JSON(map[string]any{"@context": p25Ctx, "linked_dids": map[string]any{"0": good.val}}), false},
		{"extra", h.JSON(map[string]any{"@context": p25Ctx, "linked_dids": []any{good.val}, "extra": 1}), false},
		{"context a number", h.JSON(map[string]any{"@context": 7, "linked_dids": []any{good.val}}), false},
	}
	for _, sh := range shapes {
		e.Casef(func(t *h.T) {
			var err error
			if p := h.Guard(func() { err = verifier.VerifyDIDAndDomain([]byte(sh.doc), s.a.DID, p25Dom, s.opts()...) }); p != "" {
				t.Fail("panic: %s", p)
				return
			}
			p25Check(t, "", err, sh.want)
		}, "document %s", sh.name)
	}
	// the client: every status class, transport failure and cut body
	goodB := []byte(h.JSON(p25Conf(good)))
	bad, _ := s.build("jwt", s.b, p25Dom)
	badB := []byte(h.JSON(p25Conf(bad)))
	get := func(t *h.T, c *p25HTTP, did, dom string) error {
		cl := client.New(client.WithHTTPClient(c), client.WithJSONLDDocumentLoader(fx.Loader()), client.WithVDRegistry(s.res))
		err := cl.VerifyDIDAndDomain(did, dom)
		if len(c.reqs) != 1 || c.reqs[0] != "GET "+dom+"/.well-known/did-configuration.json" {
			t.FailSub("request", "requests made: %v", c.reqs)
		}
		return err
	}
	for st := 100; st < 600; st++ {
		e.Casef(func(t *h.T) {
			for i, b := range [][]byte{goodB, badB, nil} {
				p25Check(t, fmt.Sprint("body ", i), get(t, &p25HTTP{status: st, body: b, cut: -1}, s.a.DID, p25Dom), st == 200 && i == 0)
			}
		}, "client status %d", st)
	}
	e.Casef(func(t *h.T) {
		p25Check(t, "", get(t, &p25HTTP{err: errors.New("no route"), cut: -1}, s.a.DID, p25Dom), false)
		for _, r := range reqs[:3] {
			p25Check(t, r[1], get(t, &p25HTTP{status: 200, body: goodB, cut: -1}, r[0], r[1]), r[0] == s.a.DID && r[1] == p25Dom)
		}
	}, "client transport error and requests")
	for cut := 0; cut <= len(goodB); cut += e.Pick(13, 1) {
		e.Casef(func(t *h.T) {
			p25Check(t, "cut", get(t, &p25HTTP{status: 200, body: goodB, cut: cut}, s.a.DID, p25Dom), false)
			p25Check(t, "short", get(t, &p25HTTP{status: 200, body: goodB[:cut], cut: -1}, s.a.DID, p25Dom), cut == len(goodB))
		}, "client body cut at %d", cut)
	}
}
