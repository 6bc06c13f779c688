package props

import (
	"encoding/hex"
	"fmt"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P18", Level: "enumerated", Gen: genP18,
		Rule:   "presentations built from every combination of values of two fields (thorough: three) and a default for the others, with sequences of up to two (three) credentials of every form, parsed or created; each is taken through every chain of two (three) conversions: JSON, JWT, unsecured JWT, CWT, minimised or not, clone, added credential; every result is compared field by field with a reference document",
		Assume: []string{"JSON numbers are I-JSON numbers", "a holder given as an object is exposed by its id, and kept in JSON", "a single context, type, credential or proof is the same as a list of one"}})
}

const p18Holder = "did:verif:issuer"

// p18Field lists the values of a field; nil means absent.
type p18Field struct {
	name string
	vals []any
}

func p18Fields(v2 bool) []p18Field {
	base := "https://www.w3.org/2018/credentials/v1"
	if v2 {
		base = v2ctx
	}
	return []p18Field{
		{"@context", []any{[]any{base}, []any{base, fx.CtxX}, []any{base, map[string]any{"t": "urn:t"}}, []any{base, fx.CtxX, map[string]any{"t": "urn:t"}, map[string]any{"u": map[string]any{"@id": "urn:u"}}}, []any{base, map[string]any{"t": "urn:t"}, fx.CtxX}}},
		{"id", []any{"urn:vp", nil, "did:verif:vp#1"}},
		{"type", []any{[]any{"VerifiablePresentation"}, "VerifiablePresentation", []any{"VerifiablePresentation", "X"}, []any{"Y", "VerifiablePresentation", "X"}, []any{"VerifiablePresentation", "X", "X"}}},
		{"holder", []any{p18Holder, nil, map[string]any{"id": p18Holder}, map[string]any{"id": p18Holder, "name": "Ann", "more": map[string]any{"a": []any{"b"}}}, "https://holder.example/1"}},
		{"proof", []any{nil, p18Proof(1), []any{p18Proof(1)}, []any{p18Proof(1), p18Proof(2)}, []any{p18Proof(1), p18Proof(1)}}},
		{"presentation_submission", []any{nil, map[string]any{"id": "s", "descriptor_map": []any{map[string]any{"id": "d", "path": "$"}}}, "text", float64(1.5), float64(7), false, []any{}, []any{"a", map[string]any{"b": []any{"c"}}}, ""}},
		{"x", []any{nil, map[string]any{"id": "urn:x", "holder": "h"}, map[string]any{}, float64(-3), "https://x.example/?a=b&c=<d>"}},
	}
}

func p18Proof(i int) map[string]any {
	return map[string]any{"type": "Ed25519Signature2018", "created": fmt.Sprintf("2020-01-0%dT00:00:00Z", i), "proofPurpose": "authentication", "verificationMethod": p18Holder + "#k1", "proofValue": "AAAA", "extra": map[string]any{"a": "b"}}
}

// p18Cred is a credential as it appears in a presentation.
type p18Cred struct {
	name string
	raw  any
}

var (
	p18Once sync.Once
	p18List []p18Cred
	p18Name = func() (l []string) {
		for _, dm := range []string{"v1 ", "v2 "} {
			for _, f := range []string{"plain", "with proofs", "jwt", "jwt-min", "sdjwt2", "sdjwt5", "cwt"} {
				l = append(l, dm+f)
			}
		}
		return
	}()
)

func p18Creds(t *h.T, k *fx.Key) []p18Cred {
	p18Once.Do(func() { p18List = p18MakeCreds(t, k) })
	return p18List
}

func p18MakeCreds(t *h.T, k *fx.Key) (l []p18Cred) {
	for _, v2 := range []bool{false, true} {
		doc := p14Doc(v2)
		dm := "v1 "
		if v2 {
			dm = "v2 "
		}
		doc["credentialSubject"].(map[string]any)["deep"] = map[string]any{"one": "1", "l": []any{"a"}}
		l = append(l, p18Cred{dm + "plain", copyObj(doc)})
		proved := copyObj(doc)
		proved["proof"] = []any{p18Proof(1), p18Proof(2)}
		l = append(l, p18Cred{dm + "with proofs", proved})
		for _, f := range []string{"jwt", "jwt-min", "sdjwt2", "sdjwt5", "cwt"} {
			s := credForm{name: f, family: "jwt"}.secure(t, k, copyObj(doc))
			var raw any = s
			if v2 {
				mt := map[string]string{"sdjwt2": "vc-ld+sd-jwt", "sdjwt5": "vc-ld+sd-jwt", "cwt": "vc-ld+cose"}[f]
				if mt == "" {
					mt = "vc-ld+jwt"
				}
				raw = map[string]any{"@context": []any{v2ctx}, "type": []any{"EnvelopedVerifiableCredential"}, "id": "data:application/" + mt + "," + s}
			}
			l = append(l, p18Cred{dm + f, raw})
		}
	}
	return
}

func p18Opts() []verifiable.PresentationOpt {
	return []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(fx.Loader())}
}

func vpList(v any) []any {
	switch v := v.(type) {
	case nil:
		return []any{}
	case []any:
		return v
	default:
		return []any{v}
	}
}

// p18Norm brings a document into the form in which presentations are compared.
func p18Norm(doc map[string]any) map[string]any {
	n := copyObj(doc)
	for _, f := range []string{"@context", "type", "verifiableCredential", "proof"} {
		n[f] = vpList(n[f])
	}
	if o, ok := n["holder"].(map[string]any); ok && len(o) == 1 {
		n["holder"] = o["id"]
	}
	for i, c := range n["verifiableCredential"].([]any) {
		n["verifiableCredential"].([]any)[i] = p18NormCred(c)
	}
	return n
}

func p18NormCred(c any) any {
	if o, ok := c.(map[string]any); ok {
		o = parseObj(docNorm(o))
		if id, ok := o["id"].(string); ok && strings.HasPrefix(id, "data:") {
			o["type"], o["@context"] = vpList(o["type"]), vpList(o["@context"])
		}
		if id, ok := o["id"].(string); ok && strings.HasPrefix(id, "data:") {
			o["id"] = strings.TrimSuffix(id, "~") // ends disclosures, may be left out in an early draft
		}
		return o
	}
	if s, ok := c.(string); ok {
		return strings.TrimSuffix(s, "~")
	}
	return c
}

// p18Same compares a presentation and its JSON with the document it stands for.
func p18Same(t *h.T, path string, vp *verifiable.Presentation, doc map[string]any, parsed bool) bool {
	n := p18Norm(doc)
	str, obj := []any{}, []any{}
	for _, c := range n["@context"].([]any) {
		if _, ok := c.(string); ok && len(obj) == 0 {
			str = append(str, c)
		} else {
			obj = append(obj, c)
		}
	}
	ok := true
	cmp := func(what string, got, want any) {
		g, w := h.Canon(parseAny([]byte(h.JSON(got)))), h.Canon(parseAny([]byte(h.JSON(want))))
		if g != w {
			ok = false
			t.FailSub(what, "%s: %s is %s, expected %s", path, what, g, w)
		}
	}
	list := func(n int, f func(i int) any) []any {
		l := []any{}
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return l
	}
	cmp("context", list(len(vp.Context), func(i int) any { return vp.Context[i] }), str)
	cmp("custom-context", list(len(vp.CustomContext), func(i int) any { return vp.CustomContext[i] }), obj)
	id, _ := n["id"].(string)
	cmp("id", vp.ID, id)
	cmp("type", list(len(vp.Type), func(i int) any { return vp.Type[i] }), n["type"])
	cmp("holder", vp.Holder, obj2id(n["holder"]))
	cmp("proofs", list(len(vp.Proofs), func(i int) any { return vp.Proofs[i] }), n["proof"])
	custom := map[string]any{}
	for f, v := range n {
		switch f {
		case "@context", "id", "type", "holder", "proof", "verifiableCredential":
		default:
			custom[f] = v
		}
	}
	got := map[string]any{}
	for f, v := range vp.CustomFields {
		got[f] = v
	}
	cmp("custom-fields", got, custom)
	creds := list(len(vp.Credentials()), func(i int) any {
		u, err := vp.Credentials()[i].ToUniversalForm()
		t.Must(err, "universal form")
		return p18NormCred(parseAny([]byte(h.JSON(u))))
	})
	cmp("credentials", creds, n["verifiableCredential"])
	if !vp.IsJWT() && !vp.IsCWT() {
		b, err := vp.MarshalJSON()
		t.Must(err, "marshal")
		cmp("json", p18Norm(parseObj(string(b))), n)
	}
	return ok
}

type p18Conv struct {
	name string
	// run returns the converted presentation as returned by the conversion (or nil) and in serialised forms.
	run func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte)
	// change is applied to the document.
	change func(doc map[string]any)
}

func p18Convs(extra *verifiable.Credential, extraRaw any) []p18Conv {
	l := []p18Conv{
		{name: "json", run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
			b, err := vp.MarshalJSON()
			t.Must(err, "marshal")
			return nil, [][]byte{b}
		}},
		{name: "clone", run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
			return vp.Clone(), nil
		}},
	}
	for _, min := range []bool{false, true} {
		aud, aud2, aud3 := []string{"aud"}, []string(nil), []string{"aud", "aud2"}
		if min {
			aud, aud2, aud3 = []string{"aud", "aud2"}, []string{"aud"}, []string{"a", "b", "c"}
		}
		l = append(l,
			p18Conv{name: fmt.Sprintf("jwt min=%v", min), run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
				c, err := vp.CreateJWTVP(aud, verifiable.EdDSA, jwtAnySigner{k}, k.KID, min)
				t.Must(err, "jwt")
				b, err := c.MarshalJSON()
				t.Must(err, "marshal jwt")
				return c, [][]byte{b, []byte(c.JWT)}
			}},
			p18Conv{name: fmt.Sprintf("unsecured jwt min=%v", min), run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
				c, err := vp.JWTClaims(aud2, min)
				t.Must(err, "claims")
				s, err := c.MarshalUnsecuredJWT()
				t.Must(err, "unsecured")
				return nil, [][]byte{[]byte(s)}
			}},
			p18Conv{name: fmt.Sprintf("cwt min=%v", min), run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
				c, err := vp.CreateCWTVP(aud3, k.Cose, p10Signer{k}, k.KID, min)
				t.Must(err, "cwt")
				b, err := c.MarshalCBOR()
				t.Must(err, "marshal cwt")
				j, err := c.MarshalJSON()
				t.Must(err, "marshal cwt")
				return c, [][]byte{b, []byte(hex.EncodeToString(b)), j}
			}})
	}
	return append(l, p18Conv{name: "add credential", run: func(t *h.T, vp *verifiable.Presentation, k *fx.Key) (*verifiable.Presentation, [][]byte) {
		if vp.IsJWT() || vp.IsCWT() {
			return nil, nil // what the token says cannot change
		}
		c := vp.Clone()
		c.AddCredentials(extra)
		return c, nil
	}, change: func(doc map[string]any) {
		doc["verifiableCredential"] = append(append([]any{}, vpList(doc["verifiableCredential"])...), extraRaw)
	}})
}

func p18Chain(t *h.T, k *fx.Key, convs []p18Conv, vp *verifiable.Presentation, doc map[string]any, depth int, path string) {
	t.State(path + fmt.Sprint(depth))
	if depth == 0 {
		return
	}
	for _, c := range convs {
		p := path + " > " + c.name
		var conv *verifiable.Presentation
		var forms [][]byte
		if s := h.Guard(func() { conv, forms = c.run(t, vp, k) }); s != "" {
			t.FailSub("panic", "%s: %s", p, s)
			return
		}
		t.Step("%s", p)
		d := copyObj(doc)
		if c.change != nil {
			c.change(d)
		}
		if !p18Same(t, path+" (left as it was)", vp, doc, false) || conv != nil && !p18Same(t, p, conv, d, false) {
			return
		}
		next := conv
		for i, b := range forms {
			back, err := verifiable.ParsePresentation(b, p18Opts()...)
			if err != nil {
				t.FailSub("parse", "%s: form %d: %v", p, i, err)
				return
			}
			if !p18Same(t, fmt.Sprintf("%s > parse form %d", p, i), back, d, true) {
				return
			}
			if i == 0 {
				next = back
			}
		}
		if next != nil {
			p18Chain(t, k, convs, next, d, depth-1, p)
		}
	}
}

// p18Create builds a presentation through its constructor and fields.
func p18Create(t *h.T, doc map[string]any, creds []*verifiable.Credential) *verifiable.Presentation {
	n := p18Norm(doc)
	opts := []verifiable.CreatePresentationOpt{}
	if len(creds) > 0 {
		opts = append(opts, verifiable.WithCredentials(creds...))
	}
	vp, err := verifiable.NewPresentation(append(opts, verifiable.WithBaseContext(n["@context"].([]any)[0].(string)))...)
	t.Must(err, "create")
	for _, c := range n["@context"].([]any)[1:] {
		if s, ok := c.(string); ok && len(vp.CustomContext) == 0 {
			vp.Context = append(vp.Context, s)
		} else {
			vp.CustomContext = append(vp.CustomContext, c)
		}
	}
	vp.Type = nil
	for _, x := range n["type"].([]any) {
		vp.Type = append(vp.Type, x.(string))
	}
	vp.ID, _ = n["id"].(string)
	vp.Holder = obj2id(n["holder"])
	for _, p := range n["proof"].([]any) {
		vp.Proofs = append(vp.Proofs, verifiable.Proof(p.(map[string]any)))
	}
	for f, v := range n {
		switch f {
		case "@context", "id", "type", "holder", "proof", "verifiableCredential":
		default:
			if vp.CustomFields == nil {
				vp.CustomFields = verifiable.CustomFields{}
			}
			vp.CustomFields[f] = v
		}
	}
	return vp
}

func listsUpTo(m, n int) (out [][]int) {
	for i := 0; i <= n; i++ {
		out = append(out, lists(m, i)...)
	}
	return
}

func genP18(e *h.Env) {
	k := fx.NewKey("ed25519", wIss, "k1")
	parseCred := func(t *h.T, c p18Cred) *verifiable.Credential {
		b := []byte(h.JSON(c.raw))
		if s, ok := c.raw.(string); ok {
			b = []byte(s)
		}
		vc, err := verifiable.ParseCredential(b, p14Opts()...)
		t.Must(err, "parse credential")
		return vc
	}
	run := func(t *h.T, doc map[string]any, seq []int, depth int, variants bool) {
		var cs []p18Cred
		for _, i := range seq {
			cs = append(cs, p18Creds(t, k)[i])
		}
		if len(cs) > 0 {
			raw := []any{}
			for _, c := range cs {
				raw = append(raw, deepCopy(c.raw))
			}
			doc["verifiableCredential"] = raw
		}
		extra := p18Creds(t, k)[1]
		convs := p18Convs(parseCred(t, extra), extra.raw)
		starts := []map[string]any{doc}
		if variants && len(cs) == 1 { // a single credential need not be in a list
			d := copyObj(doc)
			d["verifiableCredential"] = deepCopy(cs[0].raw)
			starts = append(starts, d)
		}
		if len(cs) == 0 {
			d := copyObj(doc)
			d["verifiableCredential"] = []any{}
			starts = append(starts, d)
		}
		for i, d := range starts {
			vp, err := verifiable.ParsePresentation([]byte(h.JSON(d)), p18Opts()...)
			if err != nil {
				t.FailSub("parse", "%v", err)
				return
			}
			if !p18Same(t, "parse", vp, d, true) {
				return
			}
			dep := depth
			if i > 0 {
				dep = 1
			}
			p18Chain(t, k, convs, vp, d, dep, fmt.Sprintf("parse %d", i))
		}
		created := copyObj(doc)
		if o, ok := created["holder"].(map[string]any); ok {
			created["holder"] = o["id"]
		}
		var l []*verifiable.Credential
		for _, c := range cs {
			l = append(l, parseCred(t, c))
		}
		vp := p18Create(t, created, l)
		if p18Same(t, "create", vp, created, false) {
			p18Chain(t, k, convs, vp, created, depth, "create")
		}
	}
	for _, v2 := range []bool{false, true} {
		fields := p18Fields(v2)
		start := func() map[string]any {
			d := map[string]any{}
			for _, f := range fields {
				if f.vals[0] != nil {
					d[f.name] = deepCopy(f.vals[0])
				}
			}
			return d
		}
		setv := func(d map[string]any, f p18Field, i int) {
			delete(d, f.name)
			if f.vals[i] != nil {
				d[f.name] = deepCopy(f.vals[i])
			}
		}
		// combinations of fields
		n := len(fields)
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				for c := b; c < e.Pick(b+1, n); c++ {
					for i := range fields[a].vals {
						for j := range fields[b].vals {
							for l := range fields[c].vals {
								if c == b && l > 0 {
									break
								}
								e.Casef(func(t *h.T) {
									d := start()
									if c != b {
										setv(d, fields[c], l)
									}
									setv(d, fields[a], i)
									setv(d, fields[b], j)
									if c == b {
										run(t, d, []int{2}, e.Pick(1, 2), e.Thorough())
									} else {
										run(t, d, []int{2}, 1, false)
									}
								}, "v2=%v %s %d %s %d %s %d", v2, fields[a].name, i, fields[b].name, j, fields[c].name, l)
							}
						}
					}
				}
			}
		}
		// long lists of credentials
		for _, n := range []int{11, 40} {
			for i := range p18Name {
				e.Casef(func(t *h.T) {
					var seq []int
					for x := 0; x < n; x++ {
						seq = append(seq, (i+x%3)%len(p18Name))
					}
					run(t, start(), seq, 1, false)
				}, "v2=%v %d credentials from %s", v2, n, p18Name[i])
			}
		}
		// sequences of credentials
		for _, seq := range listsUpTo(len(p18Name), e.Pick(2, 3)) {
			var name []string
			for _, i := range seq {
				name = append(name, p18Name[i])
			}
			e.Casef(func(t *h.T) {
				d := start()
				depth := 2
				if len(seq) > e.Pick(1, 2) {
					depth = 1
				}
				run(t, d, seq, depth, true)
			}, "v2=%v credentials [%s]", v2, strings.Join(name, ", "))
		}
	}
}
