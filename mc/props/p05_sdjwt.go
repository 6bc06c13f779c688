package props

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P05", Level: "enumerated", Gen: genP05,
		Rule:   "all claim trees up to the size bound x issuer options x assignments of per-path modes x all subsets of the disclosures; the real issuer, holder and verifier are run and compared with an independent disclosure processor and a visibility model",
		Assume: []string{"claim names do not collide with the reserved names _sd, ..., _sd_alg or with registered claims set by issuer options"}})
}

// sdSigner signs compact JWS with a fixture key.
type sdSigner struct {
	k   *fx.Key
	typ string
	alg string
}

func (s sdSigner) Sign(b []byte) ([]byte, error) { return signWith(s.k, b), nil }
func (s sdSigner) Headers() jose.Headers {
	hd := jose.Headers{"alg": s.k.JWTAlg, "kid": s.k.KID}
	if s.alg != "" {
		hd["alg"] = s.alg
	}
	if s.typ != "" {
		hd["typ"] = s.typ
	}
	return hd
}

func sdDigest(hash crypto.Hash, d string) string {
	if hash == 0 {
		return "" // unknown algorithm: nothing matches
	}
	x := hash.New()
	x.Write([]byte(d))
	return base64.RawURLEncoding.EncodeToString(x.Sum(nil))
}

// refDisc is a disclosure decoded by the reference processor.
type refDisc struct {
	raw, salt, name string
	elem            bool
	val             any
	used            bool
}

func refDecode(d string) (*refDisc, error) {
	b, err := base64.RawURLEncoding.DecodeString(d)
	if err != nil {
		return nil, err
	}
	a, ok := parseAny(b).([]any)
	if !ok || len(a) < 2 || len(a) > 3 {
		return nil, fmt.Errorf("not a 2 or 3 element array")
	}
	salt, ok := a[0].(string)
	if !ok {
		return nil, fmt.Errorf("salt")
	}
	r := &refDisc{raw: d, salt: salt}
	if len(a) == 2 {
		r.elem, r.val = true, a[1]
		return r, nil
	}
	if r.name, ok = a[1].(string); !ok {
		return nil, fmt.Errorf("name")
	}
	r.val = a[2]
	return r, nil
}

// refSD is the reference processing of a signed payload with disclosures (draft 05, section 6.1):
// every digest may be referenced once, every disclosure must be reachable, claim names are unique.
type refSD struct {
	disc map[string]*refDisc
	seen map[string]bool
}

func newRefSD(hash crypto.Hash, ds []string) (*refSD, error) {
	r := &refSD{disc: map[string]*refDisc{}, seen: map[string]bool{}}
	for _, d := range ds {
		rd, err := refDecode(d)
		if err != nil {
			return nil, err
		}
		dg := sdDigest(hash, d)
		if r.disc[dg] != nil {
			return nil, fmt.Errorf("duplicate disclosure")
		}
		r.disc[dg] = rd
	}
	return r, nil
}

func (r *refSD) take(dg string, elem bool) (*refDisc, error) {
	if r.seen[dg] {
		return nil, fmt.Errorf("digest twice")
	}
	r.seen[dg] = true
	d := r.disc[dg]
	if d == nil {
		return nil, nil
	}
	if d.elem != elem {
		return nil, fmt.Errorf("wrong kind of disclosure")
	}
	d.used = true
	return d, nil
}

var errDrop = fmt.Errorf("drop")

// process returns the disclosed value of v.
func (r *refSD) process(v any) (any, error) {
	switch x := v.(type) {
	case []any:
		out := []any{}
		for _, el := range x {
			if m, ok := el.(map[string]any); ok && len(m) == 1 {
				if dg, isStr := m["..."].(string); isStr {
					d, err := r.take(dg, true)
					if err != nil {
						return nil, err
					}
					if d == nil {
						continue
					}
					nv, err := r.process(d.val)
					if err != nil {
						return nil, err
					}
					out = append(out, nv)
					continue
				}
			}
			nv, err := r.process(el)
			if err != nil {
				return nil, err
			}
			out = append(out, nv)
		}
		return out, nil
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(x) {
			if k == "_sd" || k == "_sd_alg" {
				continue
			}
			nv, err := r.process(x[k])
			if err != nil {
				return nil, err
			}
			// An array all of whose elements stay hidden is left out (library convention).
			if a, ok := x[k].([]any); ok && len(a) > 0 {
				if b, _ := nv.([]any); len(b) == 0 {
					continue
				}
			}
			out[k] = nv
		}
		if sd, ok := x["_sd"]; ok && sd != nil {
			list, ok := sd.([]any)
			if !ok {
				return nil, fmt.Errorf("_sd")
			}
			for _, e := range list {
				dg, ok := e.(string)
				if !ok {
					return nil, fmt.Errorf("_sd entry")
				}
				d, err := r.take(dg, false)
				if err != nil {
					return nil, err
				}
				if d == nil {
					continue
				}
				if _, dup := x[d.name]; dup && d.name != "_sd" {
					return nil, fmt.Errorf("name exists")
				}
				if _, dup := out[d.name]; dup {
					return nil, fmt.Errorf("name exists")
				}
				nv, err := r.process(d.val)
				if err != nil {
					return nil, err
				}
				out[d.name] = nv
			}
		}
		return out, nil
	}
	return v, nil
}

// refVerify processes the payload with the disclosures.
func refVerify(hash crypto.Hash, payload map[string]any, ds []string) (map[string]any, error) {
	r, err := newRefSD(hash, ds)
	if err != nil {
		return nil, err
	}
	out, err := r.process(payload)
	if err != nil {
		return nil, err
	}
	for _, d := range r.disc {
		if !d.used {
			return nil, fmt.Errorf("unreachable disclosure")
		}
	}
	return out.(map[string]any), nil
}

// artefacts lists the paths of digest artefacts left in a value.
func artefacts(v any, path string) (out []string) {
	switch x := v.(type) {
	case []any:
		for i, e := range x {
			out = append(out, artefacts(e, fmt.Sprintf("%s[%d]", path, i))...)
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if k == "_sd" || k == "..." || k == "_sd_alg" {
				out = append(out, path+"."+k)
			}
			out = append(out, artefacts(x[k], path+"."+k)...)
		}
	}
	return out
}

// Modes a path can be given by the issuer options.
const (
	mPlain = iota
	mNonSD
	mAlways
	mRec
	mAlwaysRec
	mNonSDAlways
	nModes
)

type sdOpts struct {
	v5, structured, decoys bool
	hash                   crypto.Hash
	mode                   map[string]int
}

func (o sdOpts) is(p string, ms ...int) bool {
	for _, m := range ms {
		if o.mode[p] == m {
			return true
		}
	}
	return false
}
func (o sdOpts) nonSD(p string) bool  { return o.is(p, mNonSD, mNonSDAlways) }
func (o sdOpts) always(p string) bool { return o.is(p, mAlways, mAlwaysRec, mNonSDAlways) }
func (o sdOpts) rec(p string) bool    { return o.is(p, mRec, mAlwaysRec) }

func (o sdOpts) list() []issuer.NewOpt {
	var n, a, r []string
	for _, p := range sortedKeys(o.mode) {
		if o.nonSD(p) {
			n = append(n, p)
		}
		if o.always(p) {
			a = append(a, p)
		}
		if o.rec(p) {
			r = append(r, p)
		}
	}
	out := []issuer.NewOpt{issuer.WithStructuredClaims(o.structured), issuer.WithHashAlgorithm(o.hash),
		issuer.WithDecoyDigests(o.decoys)}
	if o.v5 {
		out = append(out, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	}
	if n != nil {
		out = append(out, issuer.WithNonSelectivelyDisclosableClaims(n))
	}
	if a != nil {
		out = append(out, issuer.WithAlwaysIncludeObjects(a))
	}
	if r != nil {
		out = append(out, issuer.WithRecursiveClaimsObjects(r))
	}
	return out
}

func (o sdOpts) String() string {
	s := "v2"
	if o.v5 {
		s = "v5"
	}
	if o.structured {
		s += "+str"
	}
	if o.decoys {
		s += "+decoy"
	}
	s += "+" + strings.TrimPrefix(o.hash.String(), "SHA-")
	for _, p := range sortedKeys(o.mode) {
		s += fmt.Sprintf("|%s:%d", p, o.mode[p])
	}
	return s
}

// visible is the model of what the signed payload shows without any disclosure.
func (o sdOpts) visible(path string, claims map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range claims {
		p := k
		if path != "" {
			p = path + "." + k
		}
		switch x := v.(type) {
		case map[string]any:
			switch {
			case !o.v5 && o.structured:
				out[k] = o.visible(p, x)
			case o.nonSD(p):
				out[k] = x
			case !o.v5:
			case o.rec(p) && !o.always(p):
			case o.always(p) || o.structured:
				out[k] = o.visible(p, x)
			}
		case []any:
			switch {
			case o.nonSD(p):
				out[k] = x
			case !o.v5:
			case o.always(p) || o.structured:
				el := []any{}
				for i, e := range x {
					if o.nonSD(fmt.Sprintf("%s[%d]", p, i)) {
						el = append(el, e)
					}
				}
				if len(el) > 0 || len(x) == 0 {
					out[k] = el
				}
			}
		default:
			if o.nonSD(p) {
				out[k] = v
			}
		}
	}
	return out
}

// sdPaths lists every path options can name.
func sdPaths(path string, claims map[string]any) (out []string) {
	for _, k := range sortedKeys(claims) {
		p := k
		if path != "" {
			p = path + "." + k
		}
		if p == "" {
			continue
		}
		out = append(out, p)
		switch x := claims[k].(type) {
		case map[string]any:
			out = append(out, sdPaths(p, x)...)
		case []any:
			for i := range x {
				out = append(out, fmt.Sprintf("%s[%d]", p, i))
			}
		}
	}
	return out
}

// markers replaces every string leaf by a unique marker.
func markers(v any, n *int) any {
	switch x := v.(type) {
	case string:
		*n++
		return fmt.Sprintf("mark-%d-%s", *n, x)
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = markers(e, n)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(x) {
			out[k] = markers(x[k], n)
		}
		return out
	}
	return v
}

// p05Digest matches a digest (and any long token).
var p05Digest = regexp.MustCompile(`[A-Za-z0-9_-]{40,}`)

func strLeaves(v any) (out []string) {
	switch x := v.(type) {
	case string:
		return []string{x}
	case []any:
		for _, e := range x {
			out = append(out, strLeaves(e)...)
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			out = append(out, strLeaves(x[k])...)
		}
	}
	return out
}

// sdTrees builds values of the given depth over the keys a, b.
func sdTrees(base []any, depth int, pairs bool) []any {
	out := append([]any{}, base...)
	if depth == 0 {
		return out
	}
	sub := sdTrees(base, depth-1, pairs)
	out = append(out, map[string]any{}, []any{})
	for _, x := range sub {
		out = append(out, map[string]any{"a": x}, []any{x})
	}
	if pairs {
		for _, x := range sub {
			for _, y := range sub {
				out = append(out, map[string]any{"a": x, "b": y}, []any{x, y})
			}
		}
	}
	return out
}

// p05Forms are the Go representations of the claims handed to the issuer.
var p05Forms = []string{"num", "float", "bytes", "string", "raw"}

func p05Form(claims map[string]any, form string) any {
	switch form {
	case "float":
		var m map[string]any
		_ = json.Unmarshal([]byte(h.JSON(claims)), &m)
		return m
	case "bytes":
		return []byte(h.JSON(claims))
	case "string":
		return h.JSON(claims)
	case "raw":
		return json.RawMessage(h.JSON(claims))
	}
	return claims
}

func p05Check(t *h.T, claims map[string]any, o sdOpts, k *fx.Key, maxSub int, form string) {
	before := h.Canon(claims)
	const iss = "did:verif:issuer"
	tok, err := issuer.New(iss, p05Form(claims, form), nil, sdSigner{k: k}, o.list()...)
	if err != nil {
		t.FailSub("issue", "issuing failed: %v", err)
		return
	}
	if h.Canon(claims) != before {
		t.FailSub("mutated", "issuing changed the caller's claims to %s", h.JSON(claims))
	}
	cfi, err := tok.Serialize(false)
	if err != nil {
		t.FailSub("serialize", "serialize: %v", err)
		return
	}
	parts := strings.Split(cfi, "~")
	ds := parts[1:]
	pb, err := base64.RawURLEncoding.DecodeString(strings.Split(parts[0], ".")[1])
	if err != nil {
		t.Fatal("payload: %v", err)
	}
	payload, _ := parseAny(pb).(map[string]any)
	if payload["_sd_alg"] != strings.ToLower(o.hash.String()) || payload["iss"] != iss {
		t.FailSub("header-claims", "payload %s", pb)
	}
	claimsJ := parseAny([]byte(h.JSON(claims))).(map[string]any)
	withIss := func(m map[string]any) map[string]any {
		c := map[string]any{"iss": iss}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	// 1. What the payload shows.
	vis, err := refVerify(o.hash, payload, nil)
	if err != nil {
		t.FailSub("visible", "payload malformed: %v in %s", err, pb)
		return
	}
	wantVis := withIss(o.visible("", claimsJ))
	if h.Canon(vis) != h.Canon(wantVis) {
		t.FailSub("visible", "always visible claims are %s, expected %s", h.Canon(vis), h.Canon(wantVis))
	}
	shown := map[string]bool{}
	for _, s := range strLeaves(wantVis) {
		shown[s] = true
	}
	// (a digest is random: a short value may occur in one by chance)
	noDigests := p05Digest.ReplaceAllString(string(pb), "")
	for _, s := range strLeaves(claimsJ) {
		in := string(pb)
		if len(s) < 12 {
			in = noDigests
		}
		if !shown[s] && strings.Contains(in, s) {
			t.FailSub("leak", "the signed payload shows the value %q: %s", s, pb)
		}
	}
	// 2. All disclosures give the original claims, salts are fresh.
	salts := map[string]bool{}
	for _, d := range ds {
		rd, derr := refDecode(d)
		if derr != nil {
			t.FailSub("disclosure", "issued disclosure %q malformed: %v", d, derr)
			return
		}
		if salts[rd.salt] || len(rd.salt) < 22 {
			t.FailSub("salt", "salt %q is short or used twice", rd.salt)
		}
		salts[rd.salt] = true
	}
	all, err := refVerify(o.hash, payload, ds)
	if err != nil || h.Canon(all) != h.Canon(withIss(claimsJ)) {
		t.FailSub("roundtrip", "with all disclosures: %v %s, expected %s", err, h.Canon(all), h.Canon(withIss(claimsJ)))
	}
	pc := fx.Checker(k)
	// 3. The holder sees every disclosure with its value.
	hc, err := holder.Parse(cfi, holder.WithSignatureVerifier(pc))
	if err != nil {
		t.FailSub("holder", "holder.Parse: %v", err)
		return
	}
	var got, want []string
	for _, c := range hc {
		got = append(got, fmt.Sprintf("%s %q %s", c.Disclosure, c.Name, h.Canon(c.Value)))
	}
	for i, d := range ds {
		rd, _ := refDecode(d)
		r, _ := newRefSD(o.hash, append(append([]string{}, ds[:i]...), ds[i+1:]...))
		nv, _ := r.process(rd.val)
		want = append(want, fmt.Sprintf("%s %q %s", d, rd.name, h.Canon(nv)))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.FailSub("holder", "holder.Parse gives %v, expected %v", got, want)
	}
	// 4. Every subset of the disclosures.
	n := len(ds)
	var masks []int
	if n <= maxSub {
		masks = h.Subsets(n)
	} else {
		full := 1<<n - 1
		masks = append(masks, 0, full)
		for i := 0; i < n; i++ {
			masks = append(masks, 1<<i, full&^(1<<i))
			for j := 0; j < i && n <= 24; j++ {
				masks = append(masks, 1<<i|1<<j)
			}
		}
	}
	okN := 0
	for _, m := range masks {
		var sel []string
		for i, d := range ds {
			if m>>i&1 == 1 {
				sel = append(sel, d)
			}
		}
		pres := cfi
		if n > 0 {
			pres, err = holder.CreatePresentation(cfi, sel)
			if err != nil {
				t.FailSub("present", "CreatePresentation: %v", err)
				return
			}
		}
		exp, rerr := refVerify(o.hash, payload, sel)
		res, verr := verifier.Parse(pres, verifier.WithSignatureVerifier(pc), verifier.WithIssuerSigningAlgorithms([]string{k.JWTAlg}))
		switch {
		case rerr != nil && verr == nil:
			t.FailSub("unreachable", "subset %b accepted although %v", m, rerr)
		case rerr == nil && verr != nil:
			t.FailSub("verify", "subset %b rejected: %v", m, verr)
		case rerr == nil:
			okN++
			resJ := parseAny([]byte(h.JSON(res)))
			if h.Canon(resJ) != h.Canon(exp) {
				t.FailSub("claims", "subset %b (%d disclosures) gives %s, expected %s", m, len(sel), h.Canon(resJ), h.Canon(exp))
			}
			if a := artefacts(resJ, ""); len(a) > 0 {
				t.FailSub("artefact", "artefacts %v", a)
			}
		}
		t.Step("subset %b", m)
		if t.Failed() {
			return
		}
	}
	t.Outcome("d%d ok%d", min(n, 9), min(okN, 32))
	if len(ds) == 0 && !o.decoys {
		if sd, ok := payload["_sd"].([]any); ok && len(sd) > 0 {
			t.FailSub("digests", "digests without disclosures")
		}
	}
	t.State(h.Canon(vis))
}

func genP05(e *h.Env) {
	k := fx.NewKey("ed25519", "did:verif:issuer", "k1")
	hashes := []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}
	maxSub := e.Pick(6, 9)

	var trees []map[string]any
	known := map[string]bool{}
	add := func(m map[string]any) {
		n := 0
		if mm := markers(m, &n).(map[string]any); !known[h.Canon(mm)] {
			known[h.Canon(mm)] = true
			trees = append(trees, mm)
		}
	}
	// All leaf kinds, alone and in each container.
	leaves := []any{"s", "", json.Number("7"), json.Number("-0.5"), json.Number("123456789012"), true, false, nil}
	for _, l := range leaves {
		for _, w := range []any{l, []any{l}, map[string]any{"a": l}, []any{l, l}, []any{[]any{l}}, []any{map[string]any{"a": l}},
			map[string]any{"a": []any{l}}, map[string]any{"a": map[string]any{"b": l}}} {
			add(map[string]any{"a": w})
		}
	}
	// Unusual names.
	for _, n := range []string{"", "A", "é", "a b", "_sdx", "__proto__", "~", "[0]", "\"", "vc", "name\n", "<&>"} {
		add(map[string]any{n: "x"})
		add(map[string]any{n: []any{"x", "y"}, "z": map[string]any{n: "y"}})
	}
	nSmall := len(trees)
	// Structure.
	t1 := sdTrees([]any{"s", nil}, 1, true)
	t2 := sdTrees([]any{"s"}, 2, true)
	for _, x := range t1 {
		for _, y := range t1 {
			if e.Thorough() || h.Canon(x) <= h.Canon(y) {
				add(map[string]any{"a": x, "b": y})
			}
		}
	}
	for _, x := range t2 {
		if e.Thorough() {
			break // the larger alphabet below includes these
		}
		add(map[string]any{"a": x})
	}
	for _, x := range sdTrees([]any{"s"}, e.Pick(3, 4), false) {
		add(map[string]any{"a": x, "c": "t"})
	}
	if e.Thorough() {
		t2b := sdTrees([]any{"s", nil}, 2, true)
		for _, x := range t2b {
			add(map[string]any{"a": x})
		}
	}

	for ti, claims := range trees {
		paths := sdPaths("", claims)
		var modes []map[string]int
		modes = append(modes, nil)
		depth2 := ti < nSmall || e.Thorough() || len(paths) <= 3
		for i, p := range paths {
			for m := 1; m < nModes; m++ {
				modes = append(modes, map[string]int{p: m})
				if !depth2 {
					continue
				}
				for _, q := range paths[i+1:] {
					for m2 := 1; m2 < nModes; m2++ {
						modes = append(modes, map[string]int{p: m, q: m2})
					}
				}
			}
		}
		allN := map[string]int{}
		for _, p := range paths {
			allN[p] = mNonSD
		}
		modes = append(modes, allN)
		for mi, mode := range modes {
			for cfg := 0; cfg < 4; cfg++ {
				o := sdOpts{v5: cfg&1 == 1, structured: cfg&2 == 2, mode: mode, hash: hashes[0]}
				if !o.v5 {
					// Version 2 knows only the non-disclosable option.
					skip := false
					for _, m := range mode {
						if m != mNonSD {
							skip = true
						}
					}
					if skip {
						continue
					}
				}
				run := func(o sdOpts, form string) {
					e.Case(fmt.Sprintf("tree=%s opts=%s form=%s", h.JSON(claims), o, form), func(t *h.T) { p05Check(t, copyObj(claims), o, k, maxSub, form) })
				}
				run(o, "num")
				if ti < nSmall && mi < 2 {
					for _, form := range p05Forms[1:] {
						run(o, form)
					}
				}
				if mi == 0 || ti < nSmall && mi < 4 {
					for _, hs := range hashes {
						for _, dc := range []bool{false, true} {
							if hs == hashes[0] && !dc {
								continue
							}
							o2 := o
							o2.hash, o2.decoys = hs, dc
							run(o2, "num")
						}
					}
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	// Wide claims: objects and lists of more elements than one digit counts, with one mode for all paths.
	for _, n := range []int{11, 14} {
		wide := map[string]any{}
		var list, objs []any
		in := map[string]any{}
		for i := 0; i < n; i++ {
			wide[fmt.Sprintf("m%d", i)] = fmt.Sprintf("val wide %d.", i)
			in[fmt.Sprintf("k%d", i)] = json.Number(fmt.Sprint(77000100 + i))
			list = append(list, fmt.Sprintf("val elem %d.", i))
			objs = append(objs, map[string]any{"x": fmt.Sprintf("val obj %d.", i)})
		}
		for _, claims := range []map[string]any{wide, {"o": in}, {"l": list}, {"objs": objs}, {"o": in, "l": list, "m": "val m."}, {"a": map[string]any{"b": map[string]any{"c": in}}}, {"ll": []any{list, list}}} {
			for m := 0; m < nModes; m++ {
				for cfg := 0; cfg < 8; cfg++ {
					o := sdOpts{v5: cfg&1 == 1, structured: cfg&2 == 2, decoys: cfg&4 == 4, hash: hashes[0]}
					if m > 0 && !o.v5 && m != mNonSD {
						continue
					}
					if m > 0 {
						o.mode = map[string]int{}
						for i, p := range sdPaths("", claims) {
							if i%2 == cfg>>1&1 { // every other path
								o.mode[p] = m
							}
						}
					}
					e.Casef(func(t *h.T) { p05Check(t, copyObj(claims), o, k, maxSub, "num") }, "wide %d %v %s", n, sortedKeys(claims), o)
				}
			}
		}
	}
	// Reserved names must not be accepted as claims.
	for _, c := range []map[string]any{{"_sd": "x"}, {"a": map[string]any{"_sd": []any{}}}, {"a": map[string]any{"b": map[string]any{"_sd": nil}}}} {
		for _, v := range []common.SDJWTVersion{2, 5} {
			e.Casef(func(t *h.T) {
				if _, err := issuer.New("did:verif:issuer", c, nil, sdSigner{k: k}, issuer.WithSDJWTVersion(v)); err == nil {
					t.Fail("claims with a reserved name were issued")
				}
			}, "reserved v%d %s", v, h.JSON(c))
		}
	}
}
