package props

import (
	"crypto"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P08", Level: "enumerated", Gen: genP08,
		Rule:   "all subject shapes x issuing options x all subsets of disclosure names x selection styles x sequences of operations on one credential object; compared with an independent disclosure processor",
		Assume: []string{"empty objects of the subject may be left out of the display form (documented clean-up of the library)"}})
}

const p08Iss = "did:verif:issuer"

type p08Opts struct {
	v5          bool
	hash        crypto.Hash
	rec, always []string
	nonSD       []string
}

func (o p08Opts) String() string {
	return fmt.Sprintf("v5=%v %s rec=%v always=%v nonsd=%v", o.v5, o.hash, o.rec, o.always, o.nonSD)
}

func (o p08Opts) list() []verifiable.MakeSDJWTOption {
	out := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV2)}
	if o.v5 {
		out[0] = verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5)
	}
	if o.hash != crypto.SHA256 {
		out = append(out, verifiable.MakeSDJWTWithHash(o.hash))
	}
	if o.rec != nil {
		out = append(out, verifiable.MakeSDJWTWithRecursiveClaimsObjects(o.rec))
	}
	if o.always != nil {
		out = append(out, verifiable.MakeSDJWTWithAlwaysIncludeObjects(o.always))
	}
	if o.nonSD != nil {
		out = append(out, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(o.nonSD))
	}
	return out
}

// noEmpty drops empty objects, bottom up.
func noEmpty(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	out := map[string]any{}
	for k, x := range m {
		y := noEmpty(x)
		if ym, ok := y.(map[string]any); ok && len(ym) == 0 {
			continue
		}
		out[k] = y
	}
	return out
}

// refSelect processes vc with the given disclosures, ignoring unreachable ones.
func refSelect(hash crypto.Hash, vc map[string]any, ds []string) (out map[string]any, unreachable bool, err error) {
	r, err := newRefSD(hash, ds)
	if err != nil {
		return nil, false, err
	}
	v, err := r.process(vc)
	if err != nil {
		return nil, false, err
	}
	for _, d := range r.disc {
		unreachable = unreachable || !d.used
	}
	return v.(map[string]any), unreachable, nil
}

type p08Cred struct {
	combined string
	jwt      string
	ds       []string
	vcMap    map[string]any // the credential part of the signed payload
	hash     crypto.Hash
	names    []string // name of each disclosure
}

func p08Issue(t *h.T, k *fx.Key, vcj map[string]any, o p08Opts) *p08Cred {
	src, err := verifiable.ParseCredentialJSON(copyObj(vcj), verifiable.WithCredDisableValidation())
	t.Must(err, "source credential")
	before := h.Canon(src.ToRawJSON())
	comb, err := src.MakeSDJWT(sdSigner{k: k}, k.KID, o.list()...)
	if err != nil {
		t.FailSub("issue", "MakeSDJWT: %v", err)
		return nil
	}
	if h.Canon(src.ToRawJSON()) != before {
		t.FailSub("issue-mutates", "MakeSDJWT changed the credential")
	}
	return p08Split(t, comb, o)
}

func p08Split(t *h.T, comb string, o p08Opts) *p08Cred {
	parts := strings.Split(comb, "~")
	c := &p08Cred{combined: comb, jwt: parts[0], ds: parts[1:], hash: o.hash}
	seg := strings.Split(parts[0], ".")
	pb, err := b64u.DecodeString(seg[1])
	t.Must(err, "payload")
	pl := parseAny(pb).(map[string]any)
	if o.v5 {
		c.vcMap = pl
	} else {
		c.vcMap, _ = pl["vc"].(map[string]any)
	}
	for _, d := range c.ds {
		r, err := refDecode(d)
		t.Must(err, "disclosure")
		c.names = append(c.names, r.name)
	}
	return c
}

func (c *p08Cred) pick(names map[string]bool) (out []string) {
	for i, d := range c.ds {
		if names[c.names[i]] {
			out = append(out, d)
		}
	}
	return
}

func (c *p08Cred) distinct() []string {
	m := map[string]bool{}
	for _, n := range c.names {
		m[n] = true
	}
	return sortedKeys(m)
}

func p08Parse(k *fx.Key, s string) (*verifiable.Credential, error) {
	return verifiable.ParseCredential([]byte(s), verifiable.WithProofChecker(fx.Checker(k)), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
}

// snap is everything observable of an SD-JWT credential that must not change.
func p08Snap(vc *verifiable.Credential) string {
	s := h.Canon(parseAny([]byte(h.JSON(vc.ToRawJSON()))))
	for _, d := range vc.SDJWTDisclosures() {
		s += fmt.Sprintf("|%s %s %s", d.Disclosure, d.Name, h.Canon(parseAny([]byte(h.JSON(d.Value)))))
	}
	if vc.JWTEnvelope != nil {
		s += "|" + vc.JWTEnvelope.JWT + "|" + vc.JWTEnvelope.SDHolderBinding
	}
	c := vc.Contents()
	return s + h.JSON(c.Subject) + h.JSON(c.Issuer)
}

// scribble changes everything reachable from v.
func scribble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			scribble(y)
			if _, ok := y.(string); ok {
				x[k] = "scribbled"
			}
		}
		x["scribble"] = true
	case []any:
		for i, y := range x {
			scribble(y)
			x[i] = "scribbled"
		}
	}
}

// p08Display checks the display forms for the named disclosures (nil = all).
func p08Display(t *h.T, c *p08Cred, vc *verifiable.Credential, names []string, all bool, sub string) {
	sel := c.ds
	opts := []verifiable.DisplayCredentialOption{verifiable.DisplayAllDisclosures()}
	if !all {
		m := map[string]bool{}
		for _, n := range names {
			m[n] = true
		}
		sel = c.pick(m)
		opts = []verifiable.DisplayCredentialOption{verifiable.DisplayGivenDisclosures(names)}
	}
	want, _, err := refSelect(c.hash, c.vcMap, sel)
	t.Must(err, "reference")
	wantSub := h.Canon(noEmpty(want["credentialSubject"]))
	dm, err := vc.CreateDisplayCredentialMap(opts...)
	if err != nil {
		t.FailSub(sub+"display-map", "CreateDisplayCredentialMap(%v): %v", names, err)
		return
	}
	dmj := parseAny([]byte(h.JSON(dm))).(map[string]any)
	if got := h.Canon(noEmpty(dmj["credentialSubject"])); got != wantSub {
		t.FailSub(sub+"display-map", "display map of %v (all=%v) shows subject %s, expected %s", names, all, got, wantSub)
	}
	if a := artefacts(dmj, ""); len(a) > 0 {
		t.FailSub(sub+"display-map", "artefacts %v in the display map", a)
	}
	dc, err := vc.CreateDisplayCredential(opts...)
	if err != nil {
		t.FailSub(sub+"display", "CreateDisplayCredential(%v): %v", names, err)
		return
	}
	raw := parseAny([]byte(h.JSON(dc.ToRawJSON()))).(map[string]any)
	if got := h.Canon(noEmpty(raw["credentialSubject"])); got != wantSub {
		t.FailSub(sub+"display", "display credential of %v (all=%v) shows subject %s, expected %s", names, all, got, wantSub)
	}
	if a := artefacts(raw, ""); len(a) > 0 {
		t.FailSub(sub+"display", "artefacts %v in the display credential", a)
	}
	for _, f := range []string{"id", "issuer", "issuanceDate", "validFrom", "validUntil", "credentialStatus", "custom", "type", "@context"} {
		if h.Canon(raw[f]) != h.Canon(want[f]) {
			t.FailSub(sub+"display-"+f, "display credential has %s %s, expected %s", f, h.Canon(raw[f]), h.Canon(want[f]))
		}
	}
	defer scribble(dm)
	// The typed contents agree with the raw form.
	cs := dc.Contents().Subject
	if len(cs) == 1 {
		flat := map[string]any{}
		for k, v := range cs[0].CustomFields {
			flat[k] = v
		}
		if cs[0].ID != "" {
			flat["id"] = cs[0].ID
		}
		if got := h.Canon(noEmpty(parseAny([]byte(h.JSON(flat))))); got != wantSub {
			t.FailSub(sub+"display-contents", "contents subject %s, expected %s", got, wantSub)
		}
	}
}

// p08Marshal checks one selection.
func p08Marshal(t *h.T, k *fx.Key, c *p08Cred, vc *verifiable.Credential, opts []verifiable.MarshalDisclosureOption, want []string, hb bool, sub string) {
	out, err := vc.MarshalWithDisclosure(opts...)
	if err != nil {
		t.FailSub(sub+"marshal", "MarshalWithDisclosure: %v", err)
		return
	}
	p := strings.Split(out, "~")
	var got []string
	last := ""
	if len(p) > 1 {
		got, last = p[1:len(p)-1], p[len(p)-1]
	}
	if p[0] != c.jwt {
		t.FailSub(sub+"marshal-jwt", "the issuer-signed part changed")
	}
	if strings.Join(got, "~") != strings.Join(want, "~") {
		t.FailSub(sub+"marshal", "discloses %d %v, expected %d %v", len(got), got, len(want), want)
	}
	if (last != "") != hb {
		t.FailSub(sub+"marshal-binding", "holder binding %q, expected %v", last, hb)
	}
	_, unreachable, err := refSelect(c.hash, c.vcMap, want)
	t.Must(err, "reference")
	re, err := p08Parse(k, out)
	if unreachable {
		if err == nil {
			t.FailSub(sub+"reparse", "a selection without its parent was accepted")
		}
		return
	}
	if err != nil {
		t.FailSub(sub+"reparse", "re-parse: %v", err)
		return
	}
	var rd []string
	for _, d := range re.SDJWTDisclosures() {
		rd = append(rd, d.Disclosure)
	}
	if strings.Join(rd, "~") != strings.Join(want, "~") {
		t.FailSub(sub+"reparse", "re-parsed credential carries %v, expected %v", rd, want)
	}
	if last != "" && re.JWTEnvelope.SDHolderBinding != last {
		t.FailSub(sub+"reparse", "holder binding lost")
	}
	again, err := re.MarshalWithDisclosure(verifiable.DiscloseAll())
	if err != nil || again != out {
		if len(c.ds) > 0 {
			t.FailSub(sub+"again", "marshalling again gives %v %s, expected %s", err, again, out)
		}
	}
	if len(c.ds) > 0 {
		c2 := p08Split(t, strings.Join(append([]string{c.jwt}, want...), "~"), p08Opts{hash: c.hash})
		c2.vcMap, c2.hash = c.vcMap, c.hash
		p08Display(t, c2, re, nil, true, sub+"re-")
	}
}

func toAny(s []string) []string { return append([]string{}, s...) }

func genP08(e *h.Env) {
	k := fx.NewKey("ed25519", p08Iss, "k1")
	hk := fx.NewKey("ed25519", "did:verif:holder", "h1")
	subs := []map[string]any{
		{"id": "did:s", "a": "va"},
		{"id": "did:s", "a": "va", "b": "vb", "c": 3},
		{"id": "did:s", "a": map[string]any{"b": "vb", "c": "vc"}},
		{"id": "did:s", "a": map[string]any{"a": "va", "b": "vb"}, "b": "top"},
		{"id": "did:s", "a": map[string]any{"b": map[string]any{"c": "vc"}, "d": "vd"}},
		{"id": "did:s", "l": []any{"x", "y"}},
		{"id": "did:s", "l": []any{map[string]any{"a": "x"}, "y"}, "a": map[string]any{"l": []any{"z"}}},
		{"id": "did:s", "n": nil, "e": []any{}, "f": false},
		{"id": "did:s", "o": map[string]any{}, "a": "x"},
		{"id": "did:s", "a": map[string]any{"id": "inner", "b": "vb"}},
		{"id": "did:s", "type": "T", "name": "n"},
		{"id": "did:s"},
	}
	// claims of equal names and values at several places
	subs = append(subs, map[string]any{"id": "did:s", "a": map[string]any{"c": "v"}, "b": map[string]any{"c": "v"}, "c": "v"},
		map[string]any{"id": "did:s", "l": []any{"v", "v"}, "a": map[string]any{"l": []any{"v", "v"}}})
	for _, x := range sdTrees([]any{"s"}, 2, true) {
		if !e.Thorough() {
			n := 0
			m := map[string]any{"id": "did:s", "a": x}
			subs = append(subs, markers(m, &n).(map[string]any))
			if n > 1 {
				subs = append(subs, m)
			}
		}
	}
	if e.Thorough() {
		for _, x := range sdTrees([]any{"s", false}, 2, false) {
			for _, y := range sdTrees([]any{"s"}, 1, true) {
				n := 0
				m := map[string]any{"id": "did:s", "a": x, "b": y}
				subs = append(subs, markers(m, &n).(map[string]any))
				if n > 1 {
					subs = append(subs, m)
				}
			}
		}
	}
	many, mem, list := map[string]any{"id": "did:s"}, map[string]any{}, []any{}
	for i := 0; i < 14; i++ {
		many[fmt.Sprintf("m%d", i)] = fmt.Sprintf("val wide %d.", i)
		mem[fmt.Sprintf("k%d", i)] = fmt.Sprintf("val mem %d.", i)
		list = append(list, fmt.Sprintf("val elem %d.", i))
	}
	subs = append(subs, many, map[string]any{"id": "did:s", "a": mem, "b": list})
	optsFor := func(sub map[string]any) []p08Opts {
		out := []p08Opts{{hash: crypto.SHA256}, {hash: crypto.SHA384}, {hash: crypto.SHA512, nonSD: []string{"a"}}, {hash: crypto.SHA256, v5: true}, {hash: crypto.SHA512, v5: true}}
		var all []string
		for _, p := range sdPaths("", sub) {
			if p != "id" {
				all = append(all, p)
			}
		}
		if len(all) > 1 {
			out = append(out, p08Opts{hash: crypto.SHA256, v5: true, always: all}, p08Opts{hash: crypto.SHA256, v5: true, rec: all}, p08Opts{hash: crypto.SHA384, v5: true, always: all[:1], rec: all[1:]}, p08Opts{hash: crypto.SHA384, v5: true, always: all[1:], rec: all[:1]})
		}
		for i, p := range all {
			if len(all) > 12 && i%6 != 5 {
				continue
			}
			out = append(out, p08Opts{hash: crypto.SHA256, v5: true, rec: []string{p}}, p08Opts{hash: crypto.SHA256, v5: true, always: []string{p}},
				p08Opts{hash: crypto.SHA256, v5: true, nonSD: []string{p}}, p08Opts{hash: crypto.SHA256, nonSD: []string{p}})
		}
		return append(out, p08Opts{hash: crypto.SHA256, v5: true, rec: []string{"a", "a.b"}})
	}
	type item struct {
		sub map[string]any
		dm2 bool
	}
	var items []item
	for _, sub := range subs {
		items = append(items, item{sub, false}, item{sub, true})
	}
	for _, it := range items {
		sub := it.sub
		vcj := p10VC(p08Iss)
		vcj["credentialSubject"] = sub
		if it.dm2 {
			vcj["@context"] = []any{"https://www.w3.org/ns/credentials/v2"}
			delete(vcj, "issuanceDate")
			vcj["validFrom"] = "2020-01-01T00:00:00Z"
			vcj["issuer"] = map[string]any{"id": p08Iss, "name": "Issuer"}
		}
		vcj["custom"] = map[string]any{"x": "y"}
		for _, o := range optsFor(sub) {
			e.Case(fmt.Sprintf("subject %s dm2=%v %s", h.JSON(sub), it.dm2, o), func(t *h.T) {
				c := p08Issue(t, k, vcj, o)
				if c == nil {
					return
				}
				// All names together show the original subject.
				full, un, err := refSelect(c.hash, c.vcMap, c.ds)
				t.Must(err, "reference")
				if un || h.Canon(noEmpty(full["credentialSubject"])) != h.Canon(noEmpty(parseAny([]byte(h.JSON(sub))))) {
					t.FailSub("issued", "all disclosures give %s", h.Canon(full["credentialSubject"]))
				}
				vc, err := p08Parse(k, c.combined)
				if err != nil {
					t.FailSub("parse", "issued credential rejected: %v", err)
					return
				}
				if len(c.ds) == 0 {
					t.Outcome("no disclosures")
					return
				}
				snap := p08Snap(vc)
				names := c.distinct()
				if len(names) > 6 {
					names = append(append([]string{}, names[:3]...), names[len(names)-3:]...)
				}
				check := func(what string) {
					if s := p08Snap(vc); s != snap {
						t.FailSub("mutated", "%s changed the credential\n%s\n%s", what, snap, s)
					}
				}
				for _, m := range h.Subsets(len(names)) {
					var sel []string
					set := map[string]bool{}
					for i, n := range names {
						if m>>i&1 == 1 {
							sel = append(sel, n)
							set[n] = true
						}
					}
					want := c.pick(set)
					t.Step("select %v", sel)
					// Selection styles.
					half := len(sel) / 2
					rev := append([]string{}, sel...)
					sort.Sort(sort.Reverse(sort.StringSlice(rev)))
					dup := append(append([]string{}, sel...), sel...)
					p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenIfAvailable(toAny(sel))}, want, false, "avail-")
					p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenRequired(toAny(rev))}, want, false, "req-")
					p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenRequired(sel[:half]), verifiable.DiscloseGivenIfAvailable(append(append([]string{}, sel[half:]...), "missing", "iss"))}, want, false, "mix-")
					p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenRequired(dup)}, want, false, "dup-")
					p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseGivenIfAvailable(toAny(sel)),
						verifiable.DisclosureHolderBinding(&holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: sdSigner{k: hk}})}, want, true, "hb-")
					for _, bad := range []string{"missing", "Credential", " "} {
						if out, err := vc.MarshalWithDisclosure(verifiable.DiscloseGivenRequired(append(toAny(sel), bad))); err == nil {
							t.FailSub("required", "a missing required name %q was ignored: %s", bad, out)
						}
					}
					if len(sel) > 0 {
						if _, err := vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DiscloseGivenRequired(sel)); err == nil {
							t.FailSub("incompatible", "incompatible options accepted")
						}
						if _, err := vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DiscloseGivenIfAvailable(sel)); err == nil {
							t.FailSub("incompatible", "incompatible options accepted")
						}
						if _, err := vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures(), verifiable.DisplayGivenDisclosures(sel)); err == nil {
							t.FailSub("incompatible", "incompatible display options accepted")
						}
					}
					p08Display(t, c, vc, sel, false, "")
					check(fmt.Sprintf("operations with %v", sel))
					// A second display after the first must not see its effects.
					p08Display(t, c, vc, nil, true, "then-all-")
					p08Display(t, c, vc, nil, false, "then-none-")
					check("display")
					if t.Failed() {
						return
					}
				}
				p08Marshal(t, k, c, vc, []verifiable.MarshalDisclosureOption{verifiable.DiscloseAll()}, c.ds, false, "all-")
				p08Marshal(t, k, c, vc, nil, nil, false, "none-")
				check("marshalling everything")
				// Display with fresh objects in the opposite order of operations.
				for _, n := range names {
					f, err := p08Parse(k, c.combined)
					t.Must(err, "parse")
					p08Display(t, c, f, []string{n}, false, "fresh-")
					p08Display(t, c, f, names, false, "fresh-")
				}
				t.Outcome("d%d names%d", len(c.ds), len(names))
				t.State(h.Canon(full["credentialSubject"]))
			})
		}
		// A credential that is not an SD-JWT yet: presented through the signer option.
		for _, v := range []common.SDJWTVersion{2, 5} {
			e.Casef(func(t *h.T) {
				src, err := verifiable.ParseCredentialJSON(copyObj(vcj), verifiable.WithCredDisableValidation())
				t.Must(err, "source")
				if _, err := src.MarshalWithDisclosure(verifiable.DiscloseAll()); err == nil {
					t.FailSub("nosigner", "an SD-JWT was made without a signer")
				}
				before := h.Canon(src.ToRawJSON())
				names := sortedKeys(sub)
				for _, m := range h.Subsets(min(len(names), 4)) {
					set := map[string]bool{}
					var sel []string
					for i, n := range names {
						if i < 4 && m>>i&1 == 1 {
							set[n] = true
							sel = append(sel, n)
						}
					}
					out, err := src.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(sel), verifiable.DisclosureSigner(sdSigner{k: k}, k.KID), verifiable.MarshalWithSDJWTVersion(v))
					if err != nil {
						if strings.Contains(err.Error(), "no disclosures found") {
							continue
						}
						t.FailSub("make", "MarshalWithDisclosure: %v", err)
						return
					}
					p := strings.Split(out, "~")
					for _, d := range p[1:] {
						if d == "" {
							continue
						}
						r, err := refDecode(d)
						t.Must(err, "disclosure")
						if !set[r.name] {
							t.FailSub("make", "%q disclosed without being asked for", r.name)
						}
					}
					if h.Canon(src.ToRawJSON()) != before {
						t.FailSub("mutated", "MarshalWithDisclosure changed the credential")
					}
				}
			}, "unsigned %s dm2=%v v%d", h.JSON(sub), it.dm2, v)
		}
		if e.Stopped() {
			return
		}
	}
}
