package props

import (
	"encoding/json"
	"strings"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P20", Level: "enumerated", Gen: genP20, Workers: 16,
		Rule: "every value of every field of a credential (absent, null, well and ill formed of every JSON type), every pair of such edits (thorough: with all values; triples of the mandatory fields), in both data models, every validation mode (default, JSON-LD only, base context, allowed contexts and types; strict; type check; default schema with every set of requirements switched off) and entry point; undefined terms at every place of a credential; verdicts are compared with predicates written from the data models",
		Assume: []string{"values the data models leave open (null for an absent optional field, empty lists, relative URLs, dates without a zone) may go either way",
			"JSON-LD-only validation does not promise to find missing or ill-formed fields", "strict validation may also refuse well-formed values that JSON-LD processing drops or rewrites, such as null"}})
}

const p20T = "https://verif.example/ctx/v2" // defines xdegree and XCredential, no @vocab

// p20Val is a value of a field; ok1 and ok2 tell if it conforms to data model 1 and 2: y, n or ? (either way).
// parse marks values no mode may accept.
type p20Val struct {
	name     string
	v        any
	ok1, ok2 byte
	no       string // modes (see p20Mode.tag) in which a conforming value is not allowed
	maybe    string // modes in which it may go either way
}

type p20Abs struct{}

type p20Field struct {
	name1, name2 string // field in data model 1 and 2 ("" if none)
	vals         []p20Val
}

type p20Mode struct {
	name string
	tag  string
	ld   bool // JSON-LD only
	opts func(base string) []verifiable.CredentialOpt
}

type co = verifiable.CredentialOpt

var p20Modes = []p20Mode{
	{"default", "d", false, func(string) []co { return nil }},
	{"strict", "ds", false, func(string) []co { return []co{verifiable.WithStrictValidation()} }},
	{"strict with diff", "ds", false, func(string) []co {
		return []co{verifiable.WithStrictValidation(), verifiable.WithJSONLDIncludeDetailedStructureDiffOnError()}
	}},
	{"types", "dt", false, func(string) []co { return []co{verifiable.WithEnabledJSONLDTypesCheck()} }},
	{"jsonld", "j", true, func(string) []co { return []co{verifiable.WithJSONLDValidation()} }},
	{"jsonld strict types", "jst", true, func(string) []co {
		return []co{verifiable.WithJSONLDValidation(), verifiable.WithStrictValidation(), verifiable.WithEnabledJSONLDTypesCheck()}
	}},
	{"base", "b", false, func(b string) []co { return []co{verifiable.WithBaseContextValidation(b)} }},
	{"extended", "e", false, func(b string) []co {
		return []co{verifiable.WithBaseContextExtendedValidation(b, []string{p20T}, []string{"XCredential"})}
	}},
	{"no custom schema", "d", false, func(string) []co { return []co{verifiable.WithNoCustomSchemaCheck()} }},
}

func p20Fields() []p20Field {
	const u = "urn:x:1"
	b1, b2 := verifiable.V1ContextURI, verifiable.V2ContextURI
	o := func(kv ...any) map[string]any {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	l := func(v ...any) []any { return append([]any{}, v...) }
	bad := func(vs ...any) []p20Val { // of no well-formed type
		var out []p20Val
		for _, v := range vs {
			out = append(out, p20Val{name: h.JSON(v), v: v, ok1: 'n', ok2: 'n'})
		}
		return out
	}
	B := map[string]any{"$base": true} // stands for the base context
	ctx := p20Field{"@context", "@context", []p20Val{
		{name: "[base,T]", v: l(B, p20T), ok1: 'y', ok2: 'y', no: "b"},
		{name: "[base]", v: l(B), ok1: 'y', ok2: 'y'},
		{name: "base", v: B, ok1: 'y', ok2: 'n'},
		{name: "[base,T,X]", v: l(B, p20T, fx.CtxX), ok1: 'y', ok2: 'y', no: "be"},
		{name: "[base,X]", v: l(B, fx.CtxX), ok1: 'y', ok2: 'y', no: "be"},
		{name: "[base,{}]", v: l(B, o("zterm", "https://verif.example/t#z")), ok1: 'y', ok2: 'y', no: "be"},
		{name: "[base,{},X]", v: l(B, o("zterm", "https://verif.example/t#z"), fx.CtxX), ok1: 'y', ok2: 'y', no: "be"},
		{name: "[base,T,{}]", v: l(B, p20T, o("zterm", "https://verif.example/t#z")), ok1: 'y', ok2: 'y', no: "be"},
		{name: "[T,base]", v: l(p20T, B), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[{},base]", v: l(o("zterm", "https://verif.example/t#z"), B), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[T]", v: l(p20T), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "T", v: p20T, ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[base slash]", v: l(b1 + "/"), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[BASE]", v: l(strings.ToUpper(b1)), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[base2 slash]", v: l(b2 + "/"), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[]", v: l(), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[base,5]", v: l(B, 5.0), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[base,true]", v: l(B, true), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[[base]]", v: l(l(B)), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "absent", v: p20Abs{}, ok1: 'n', ok2: 'n', no: "dj"},
		{name: "null", v: nil, ok1: 'n', ok2: 'n', no: "dj"},
		{name: "5", v: 5.0, ok1: 'n', ok2: 'n', no: "dj"},
		{name: "empty", v: "", ok1: 'n', ok2: 'n', no: "dj"},
		{name: "{}", v: o("a", "urn:b"), ok1: 'n', ok2: 'n', no: "dj"},
	}}
	typ := p20Field{"type", "type", []p20Val{
		{name: "[VC,X]", v: l("VerifiableCredential", "XCredential"), ok1: 'y', ok2: 'y', no: "b"},
		{name: "[VC]", v: l("VerifiableCredential"), ok1: 'y', ok2: 'y'},
		{name: "VC", v: "VerifiableCredential", ok1: 'y', ok2: 'y'},
		{name: "[X,VC]", v: l("XCredential", "VerifiableCredential"), ok1: 'y', ok2: 'y', no: "b"},
		{name: "[VC,Other]", v: l("VerifiableCredential", "Other"), ok1: 'y', ok2: 'y', no: "bet"},
		{name: "[VC,X,Other]", v: l("VerifiableCredential", "XCredential", "Other"), ok1: 'y', ok2: 'y', no: "bet"},
		{name: "[Other,X,VC]", v: l("Other", "XCredential", "VerifiableCredential"), ok1: 'y', ok2: 'y', no: "bet"},
		{name: "[VC,https]", v: l("VerifiableCredential", "https://verif.example/t#Any"), ok1: 'y', ok2: 'y', no: "be"},
		{name: "X", v: "XCredential", ok1: 'n', ok2: 'n'},
		{name: "[X]", v: l("XCredential"), ok1: 'n', ok2: 'n'},
		{name: "[VCX]", v: l("VerifiableCredentialX"), ok1: 'n', ok2: 'n'},
		{name: "[XVC]", v: l("XVerifiableCredential"), ok1: 'n', ok2: 'n'},
		{name: "vc", v: "verifiablecredential", ok1: 'n', ok2: 'n'},
		{name: "VC newline", v: "VerifiableCredential\n", ok1: 'n', ok2: 'n'},
		{name: "[]", v: l(), ok1: 'n', ok2: 'n'},
		{name: "[VC,5]", v: l("VerifiableCredential", 5.0), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[5]", v: l(5.0), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "[[VC]]", v: l(l("VerifiableCredential")), ok1: 'n', ok2: 'n', no: "dj"},
		{name: "absent", v: p20Abs{}, ok1: 'n', ok2: 'n'},
		{name: "null", v: nil, ok1: 'n', ok2: 'n'},
		{name: "5", v: 5.0, ok1: 'n', ok2: 'n'},
		{name: "{}", v: o("VerifiableCredential", "x"), ok1: 'n', ok2: 'n'},
		{name: "empty", v: "", ok1: 'n', ok2: 'n'},
	}}
	id := p20Field{"id", "id", append([]p20Val{
		{name: "urn", v: "urn:vc:1", ok1: 'y', ok2: 'y'},
		{name: "https", v: "https://verif.example/vc/1?a=b#c", ok1: 'y', ok2: 'y'},
		{name: "absent", v: p20Abs{}, ok1: 'y', ok2: 'y'},
		{name: "null", v: nil, ok1: '?', ok2: '?'},
		{name: "relative", v: "abc", ok1: '?', ok2: '?'},
	}, bad(5.0, true, l("urn:vc:1"), l(), o(), o("id", "urn:vc:1"))...)}
	iss := p20Field{"issuer", "issuer", append([]p20Val{
		{name: "did", v: "did:ex:issuer", ok1: 'y', ok2: 'y'},
		{name: "{id}", v: o("id", "did:ex:issuer"), ok1: 'y', ok2: 'y'},
		{name: "{id,more}", v: o("id", "did:ex:issuer", "xdegree", "x"), ok1: 'y', ok2: 'y', maybe: "s"},
		{name: "https", v: "https://verif.example/issuer", ok1: 'y', ok2: 'y'},
		{name: "no uri", v: "not a uri", ok1: 'n', ok2: '?'},
		{name: "{id no uri}", v: o("id", "not a uri"), ok1: 'n', ok2: '?'},
		{name: "absent", v: p20Abs{}, ok1: 'n', ok2: 'n'},
		{name: "null", v: nil, ok1: 'n', ok2: 'n'},
	}, bad("", 5.0, true, l(), l("did:ex:issuer"), o(), o("name", "x"), o("id", 5.0), o("id", ""), o("id", nil), o("id", l("did:ex:issuer")))...)}
	dates := func(rest ...p20Val) []p20Val {
		good := func(s string) p20Val { return p20Val{name: s, v: s, ok1: 'y', ok2: 'y'} }
		vs := append(rest, good("2020-01-01T00:00:00Z"), good("2020-02-29T23:59:59.123456789Z"), good("2020-01-01T00:00:00+02:00"), good("2020-01-01T00:00:00.5-11:30"), good("0001-01-01T00:00:00Z"))
		return append(vs, bad("", "2020", "2020-01-01", "yesterday", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01 00:00:00", "20200101T000000Z", "2020-01-01T00:00:00Zx", "x2020-01-01T00:00:00Z", "00:00:00Z", "12020-01-01T00:00:00Z",
			5.0, 1577836800.0, true, l("2020-01-01T00:00:00Z"), l(), o(), o("@value", "2020-01-01T00:00:00Z"))...)
	}
	from := p20Field{"issuanceDate", "validFrom", dates(p20Val{name: "first", v: "2020-01-01T00:00:00Z", ok1: 'y', ok2: 'y'}, p20Val{name: "absent", v: p20Abs{}, ok1: 'n', ok2: 'y'}, p20Val{name: "null", v: nil, ok1: 'n', ok2: '?'})}
	until := p20Field{"expirationDate", "validUntil", dates(p20Val{name: "absent", v: p20Abs{}, ok1: 'y', ok2: 'y'}, p20Val{name: "null", v: nil, ok1: 'y', ok2: '?', maybe: "s"})}
	subj := p20Field{"credentialSubject", "credentialSubject", append([]p20Val{
		{name: "{id,term}", v: o("id", "did:ex:s", "xdegree", "x"), ok1: 'y', ok2: 'y'},
		{name: "{id}", v: o("id", "did:ex:s"), ok1: 'y', ok2: 'y'},
		{name: "{term}", v: o("xdegree", "x"), ok1: 'y', ok2: 'y'},
		{name: "[{}]", v: l(o("id", "did:ex:s")), ok1: 'y', ok2: 'y'},
		{name: "[{},{}]", v: l(o("id", "did:ex:s", "xdegree", "x"), o("id", "did:ex:t", "xdegree", "y")), ok1: 'y', ok2: 'y'},
		{name: "string", v: "did:ex:s", ok1: 'y', ok2: 'n'},
		{name: "{}", v: o(), ok1: '?', ok2: 'n'},
		{name: "[]", v: l(), ok1: '?', ok2: 'n'},
		{name: "[{},empty]", v: l(o("id", "did:ex:s"), o()), ok1: '?', ok2: 'n'},
		{name: "[string]", v: l("did:ex:s"), ok1: '?', ok2: 'n'},
		{name: "absent", v: p20Abs{}, ok1: 'n', ok2: 'n'},
		{name: "null", v: nil, ok1: 'n', ok2: 'n'},
	}, bad(5.0, true, l(5.0), l(nil), l(o("id", "did:ex:s"), 5.0), l(l(o("id", "did:ex:s"))), o("id", 5.0), o("id", l("did:ex:s")), l(o("id", 5.0)))...)}
	absent := p20Val{name: "absent", v: p20Abs{}, ok1: 'y', ok2: 'y'}
	null := p20Val{name: "null", v: nil, ok1: 'y', ok2: '?', maybe: "s"}
	g := o("id", "urn:f:1", "type", "Other")
	// a typed id: id1, id2 tell if data model 1 and 2 need an id
	typed := func(id1, id2, list1 byte) []p20Val {
		return append([]p20Val{absent,
			{name: "{id,type}", v: g, ok1: 'y', ok2: 'y', maybe: "s"},
			{name: "{id,type,term}", v: o("id", u, "type", "Other", "xdegree", "x"), ok1: 'y', ok2: 'y', maybe: "s"},
			null,
			{name: "[{}]", v: l(g), ok1: list1, ok2: 'y', maybe: "s"},
			{name: "[{},{}]", v: l(g, o("id", "urn:f:2", "type", "Other")), ok1: list1, ok2: 'y', maybe: "s"},
			{name: "[]", v: l(), ok1: '?', ok2: '?'},
			{name: "no id", v: o("type", "Other", "xdegree", "x"), ok1: id1, ok2: id2, maybe: "s"},
			{name: "no type", v: o("id", u, "xdegree", "x"), ok1: 'n', ok2: 'n'},
			{name: "[{},no type]", v: l(g, o("id", u)), ok1: 'n', ok2: 'n'},
			{name: "[no type,{}]", v: l(o("id", u), g), ok1: 'n', ok2: 'n'},
			{name: "id no uri", v: o("id", "not a uri", "type", "Other"), ok1: 'n', ok2: '?'},
			{name: "types", v: o("id", u, "type", l("Other", "More")), ok1: '?', ok2: '?'},
		}, bad(5.0, true, "x", "", l(5.0), l(g, "x"), l(nil), o(), o("id", 5.0, "type", "Other"), o("id", u, "type", 5.0), o("id", u, "type", nil), o("id", u, "type", o()))...)
	}
	fix := func(vs []p20Val, name string, ok1, ok2 byte) []p20Val {
		for i := range vs {
			if vs[i].name == name {
				vs[i].ok1, vs[i].ok2 = ok1, ok2
			}
		}
		return vs
	}
	status := p20Field{"credentialStatus", "credentialStatus", typed('n', '?', '?')}
	schema := p20Field{"credentialSchema", "credentialSchema", typed('n', 'n', 'y')}
	// the texts of data model 1 leave the id of evidence open, and say little about its terms of use
	evidence := p20Field{"evidence", "evidence", typed('?', 'y', 'y')}
	evidence.vals = fix(evidence.vals, h.JSON(l(nil)), '?', 'n')
	refresh := p20Field{"refreshService", "refreshService", typed('n', '?', '?')}
	terms := p20Field{"termsOfUse", "termsOfUse", typed('?', 'y', 'y')}
	for _, n := range []string{"no type", "[{},no type]", "[no type,{}]", "id no uri", "{}", h.JSON(o("id", u, "type", nil))} {
		terms.vals = fix(terms.vals, n, '?', '?')
	}
	for _, n := range []string{"no type", "[{},no type]", "[no type,{}]", "{}", h.JSON(o("id", u, "type", nil))} {
		terms.vals = fix(terms.vals, n, '?', 'n')
	}
	pr := func() map[string]any {
		return o("type", "Ed25519Signature2018", "proofPurpose", "assertionMethod", "verificationMethod", "did:ex:issuer#k", "created", "2020-01-01T00:00:00Z", "jws", "eyJhbGciOiJFZERTQSJ9..AA")
	}
	without := func(k string) map[string]any { m := pr(); delete(m, k); return m }
	with := func(k string, v any) map[string]any { m := pr(); m[k] = v; return m }
	proof := p20Field{"proof", "proof", append([]p20Val{absent,
		{name: "proof", v: pr(), ok1: 'y', ok2: 'y', maybe: "s"},
		null,
		{name: "[proof]", v: l(pr()), ok1: 'y', ok2: 'y', maybe: "s"},
		{name: "[proof,proof]", v: l(pr(), with("created", "2021-01-01T00:00:00Z")), ok1: 'y', ok2: 'y', maybe: "s"},
		{name: "[]", v: l(), ok1: '?', ok2: '?'},
		{name: "no type", v: without("type"), ok1: 'n', ok2: 'n'},
		{name: "[proof,no type]", v: l(pr(), without("type")), ok1: 'n', ok2: 'n'},
		{name: "no purpose", v: without("proofPurpose"), ok1: '?', ok2: 'n'},
		{name: "no method", v: without("verificationMethod"), ok1: '?', ok2: 'n'},
		{name: "[proof,no method]", v: l(pr(), without("verificationMethod")), ok1: '?', ok2: 'n'},
		{name: "purpose 5", v: with("proofPurpose", 5.0), ok1: '?', ok2: 'n'},
		{name: "method 5", v: with("verificationMethod", 5.0), ok1: '?', ok2: 'n'},
		{name: "type 5", v: with("type", 5.0), ok1: 'n', ok2: 'n'},
		{name: "created 5", v: with("created", 5.0), ok1: '?', ok2: 'n'},
	}, bad(5.0, true, "x", l(5.0), l(nil), l(pr(), 5.0), o())...)}
	extra := p20Field{"zz", "zz", []p20Val{absent,
		{name: "undefined", v: "x", ok1: 'y', ok2: 'y', no: "s", maybe: "b"},
		{name: "undefined {}", v: o("xdegree", "x"), ok1: 'y', ok2: 'y', no: "s", maybe: "b"},
		{name: "undefined []", v: l("x", 5.0), ok1: 'y', ok2: 'y', no: "s", maybe: "b"}}}
	defined := p20Field{"xdegree", "xdegree", []p20Val{absent, {name: "defined", v: "x", ok1: 'y', ok2: 'y', maybe: "b"}}}
	return []p20Field{ctx, typ, id, iss, from, until, subj, status, schema, evidence, refresh, terms, proof, extra, defined}
}

// p20Subst replaces the stand-in for the base context.
func p20Subst(v any, base string) any {
	switch x := v.(type) {
	case map[string]any:
		if x["$base"] == true {
			return base
		}
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = p20Subst(x[i], base)
		}
		return out
	}
	return v
}

type p20World struct {
	fields []p20Field
	schema *verifiable.CredentialSchemaLoader
}

func p20Base(dm int) string {
	if dm == 2 {
		return verifiable.V2ContextURI
	}
	return verifiable.V1ContextURI
}

func (f *p20Field) name(dm int) string {
	if dm == 2 {
		return f.name2
	}
	return f.name1
}

func (v *p20Val) ok(dm int) byte {
	if dm == 2 {
		return v.ok2
	}
	return v.ok1
}

// doc builds the document with the values chosen (index per field) and tells what the mode has to say: y, n or ?.
func (w *p20World) doc(dm int, idx []int, m *p20Mode) (map[string]any, byte) {
	d := map[string]any{}
	verdict := byte('y')
	lower := func(b byte) {
		if b == 'n' || b == '?' && verdict == 'y' {
			verdict = b
		}
	}
	hasT, hasX := false, false
	for i := range w.fields {
		f := &w.fields[i]
		v := &f.vals[idx[i]]
		if _, abs := v.v.(p20Abs); !abs {
			d[f.name(dm)] = p20Subst(p20Copy(v.v), p20Base(dm))
		}
		ok := v.ok(dm)
		if ok == 'n' && m.ld && !strings.Contains(v.no, "j") {
			ok = '?'
		}
		if ok != 'n' && strings.ContainsAny(v.maybe, m.tag) {
			lower('?')
		}
		if ok != 'n' && f.name1 != "zz" && f.name1 != "type" && strings.ContainsAny(v.no, m.tag) {
			ok = 'n'
		}
		lower(ok)
		if i == 0 && ok != 'n' {
			hasT, hasX = strings.Contains(v.name, "T"), strings.Contains(v.name, "X")
		}
	}
	has := func(tag string) bool { return strings.Contains(m.tag, tag) }
	tn := w.fields[1].vals[idx[1]]
	if verdict != 'n' {
		if (has("b") || has("e")) && strings.ContainsAny(tn.no, strings.Trim(m.tag, "t")) {
			verdict = 'n'
		}
		// with the type check every type has to be defined by a context; @vocab defines all
		if has("t") && !hasX && (strings.Contains(tn.name, "Other") || (!hasT && (strings.Contains(tn.name, "X]") || strings.Contains(tn.name, "[X") || tn.name == "X" || strings.Contains(tn.name, "X,")))) {
			if m.ld || verdict == 'y' {
				verdict = 'n'
			}
		}
		if has("s") && !hasX {
			e := w.fields[len(w.fields)-2].vals[idx[len(w.fields)-2]]
			if e.name != "absent" {
				verdict = 'n'
			}
			if !hasT && verdict == 'y' { // the term of the defaults is undefined then
				b, _ := json.Marshal(d)
				if strings.Contains(string(b), `"xdegree"`) {
					verdict = 'n'
					if l, ok := d["credentialSubject"].([]any); ok && len(l) > 1 {
						verdict = '?' // a finding of its own: p20Undefined
					}
				}
			}
		}
	}
	return d, verdict
}

func (w *p20World) opts(dm int, m *p20Mode) []co {
	return append([]co{verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()), verifiable.WithCredentialSchemaLoader(w.schema)}, m.opts(p20Base(dm))...)
}

var p20Entries = []string{"bytes", "object", "validate"}

func (w *p20World) run(d map[string]any, entry int, opts []co) (bool, string) {
	var err error
	switch entry {
	case 0:
		_, err = verifiable.ParseCredential([]byte(h.JSON(d)), opts...)
	case 1:
		_, err = verifiable.ParseCredentialJSON(p20Copy(d).(map[string]any), opts...)
	default:
		var vc *verifiable.Credential
		vc, err = verifiable.ParseCredentialJSON(p20Copy(d).(map[string]any), append(append([]co{}, opts...), verifiable.WithCredDisableValidation())...)
		if err == nil {
			err = vc.ValidateCredential(opts...)
		}
	}
	if err != nil {
		return false, err.Error()
	}
	return true, ""
}

func p20Copy(v any) any {
	var out any
	_ = json.Unmarshal([]byte(h.JSON(v)), &out)
	return out
}

func (w *p20World) check(t *h.T, dm int, idx []int, mi, entry int) {
	m := &p20Modes[mi]
	d, want := w.doc(dm, idx, m)
	t.Step("%s", p20Entries[entry])
	got, msg := w.run(d, entry, w.opts(dm, m))
	t.Statef("%v|%c|%s", idx, want, m.tag)
	if want == '?' {
		t.Outcome("either: %v", got)
		return
	}
	t.Outcome("%c", want)
	if got != (want == 'y') {
		t.FailSub(p20Entries[entry], "%s says %v (%s), want %v:\n%s", m.name, got, msg, want == 'y', h.JSON(d))
	}
}

func genP20(e *h.Env) {
	p19Setup()
	w := &p20World{fields: p20Fields(), schema: p22Loader(nil, nil)}
	n := len(w.fields)
	for dm := 1; dm <= 2; dm++ {
		// one and two edits
		for i := 0; i < n; i++ {
			for a := range w.fields[i].vals {
				if i > 0 && a == 0 {
					continue
				}
				for mi := range p20Modes {
					e.Casef(func(t *h.T) {
						for entry := range p20Entries {
							idx := make([]int, n)
							idx[i] = a
							w.check(t, dm, idx, mi, entry)
						}
					}, "dm%d %s %s=%s", dm, p20Modes[mi].name, w.fields[i].name1, w.fields[i].vals[a].name)
				}
			}
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				for a := range w.fields[i].vals {
					if a == 0 || !e.Thorough() && i > 1 && a > 8 {
						continue
					}
					for mi := range p20Modes {
						if p20Modes[mi].name == "strict with diff" || p20Modes[mi].name == "no custom schema" {
							continue
						}
						if e.Stopped() {
							return
						}
						e.Casef(func(t *h.T) {
							for b := range w.fields[j].vals {
								if b == 0 || !e.Thorough() && b > 8 {
									continue
								}
								idx := make([]int, n)
								idx[i], idx[j] = a, b
								entry := (a + b) % 3
								w.check(t, dm, idx, mi, entry)
							}
						}, "dm%d %s %s=%s and %s", dm, p20Modes[mi].name, w.fields[i].name1, w.fields[i].vals[a].name, w.fields[j].name1)
					}
				}
			}
		}
	}
	p20Required(e, w)
	p20Undefined(e, w)
}

// p20Required: default schemas with requirements switched off.
func p20Required(e *h.Env, w *p20World) {
	for dm := 1; dm <= 2; dm++ {
		req := []string{"type", "credentialSubject", "issuer"}
		if dm == 1 {
			req = append(req, "issuanceDate")
		}
		for _, off := range h.Subsets(len(req)) {
			for _, gone := range h.Subsets(len(req)) {
				for how := 0; how < 2; how++ {
					e.Casef(func(t *h.T) {
						var so []verifiable.SchemaOpt
						is := map[string]bool{}
						for i := range req {
							if off>>i&1 == 0 {
								continue
							}
							so = append(so, verifiable.WithDisableRequiredField(req[i]))
							is[req[i]] = true
						}
						mk := func() string {
							if dm == 2 {
								return verifiable.JSONSchemaLoaderV2(so...)
							}
							return verifiable.JSONSchemaLoaderV1(so...)
						}
						d, _ := w.doc(dm, make([]int, len(w.fields)), &p20Modes[0])
						want := true
						for i := range req {
							if gone>>i&1 == 0 {
								continue
							}
							delete(d, req[i])
							if req[i] == "type" || !is[req[i]] { // without types a credential cannot be parsed
								want = false
							}
						}
						opts := w.opts(dm, &p20Modes[0])
						if how == 0 {
							opts = append(opts, verifiable.WithSchema(mk()))
						} else {
							opts = append(opts, verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return mk() }))
						}
						for entry := range p20Entries {
							t.Step("%s", p20Entries[entry])
							got, msg := w.run(d, entry, opts)
							t.Outcome("%v", got)
							if got != want {
								t.FailSub(p20Entries[entry], "got %v (%s), want %v for %s", got, msg, want, h.JSON(d))
							}
						}
					}, "dm%d not required %b, missing %b, %d", dm, off, gone, how)
				}
			}
		}
	}
}

// p20Undefined: one undefined term (or a defined one) at each place of a document, strict modes.
func p20Undefined(e *h.Env, w *p20World) {
	type place struct {
		name string
		set  func(d map[string]any, k string, v any)
	}
	o := func(d map[string]any, path ...string) map[string]any {
		for _, p := range path {
			if _, ok := d[p].(map[string]any); !ok {
				d[p] = map[string]any{"id": "urn:place:" + p}
			}
			d = d[p].(map[string]any)
		}
		return d
	}
	places := []place{
		{"top", func(d map[string]any, k string, v any) { d[k] = v }},
		{"subject", func(d map[string]any, k string, v any) { o(d, "credentialSubject")[k] = v }},
		{"in subject", func(d map[string]any, k string, v any) { o(d, "credentialSubject", "xdegree")[k] = v }},
		{"deep in subject", func(d map[string]any, k string, v any) { o(d, "credentialSubject", "xdegree", "xdegree")[k] = v }},
		{"issuer", func(d map[string]any, k string, v any) { d["issuer"] = map[string]any{"id": "did:ex:issuer", k: v} }},
		{"list of one subject", func(d map[string]any, k string, v any) {
			d["credentialSubject"] = []any{map[string]any{"id": "did:ex:s", k: v}}
		}},
		{"list of subjects, first", func(d map[string]any, k string, v any) {
			d["credentialSubject"] = []any{map[string]any{"id": "did:ex:s", k: v}, map[string]any{"id": "did:ex:t"}}
		}},
		{"list of subjects, last", func(d map[string]any, k string, v any) {
			d["credentialSubject"] = []any{map[string]any{"id": "did:ex:s"}, map[string]any{"id": "did:ex:t", k: v}}
		}},
		{"list in subject", func(d map[string]any, k string, v any) {
			o(d, "credentialSubject")["xdegree"] = []any{map[string]any{"xdegree": "a"}, map[string]any{"xdegree": "b", k: v}}
		}},
	}
	for dm := 1; dm <= 2; dm++ {
		for _, p := range places {
			for _, term := range []string{"xdegree", "zz", "https://verif.example/t#iri", "urn:a:b", "XDEGREE", "xdegree "} {
				for vi, val := range []any{"x", 5.0, true, map[string]any{"xdegree": "y"}, map[string]any{"id": "urn:o", "zz": "y"}, []any{"a", "b"}} {
					if term == "xdegree" && (p.name == "in subject" || p.name == "deep in subject") && vi == 4 {
						continue
					}
					for mi := range p20Modes {
						if m := p20Modes[mi]; m.tag == "b" || m.tag == "e" {
							continue
						}
						undefined := term == "zz" || term == "XDEGREE" || term == "xdegree " || vi == 4
						want := !(undefined && strings.Contains(p20Modes[mi].tag, "s"))
						what := ""
						if !want && strings.HasPrefix(p.name, "list") && !strings.HasPrefix(p.name, "list of one") {
							what = "undefined in a list of several: "
						}
						e.Casef(func(t *h.T) {
							idx := make([]int, len(w.fields))
							idx[6] = 1 // subject with an id only
							d, _ := w.doc(dm, idx, &p20Modes[mi])
							p.set(d, term, p20Copy(val))
							got, msg := w.run(d, vi%3, w.opts(dm, &p20Modes[mi]))
							t.Step("validate")
							t.Statef("%d %s %s %d %d", dm, p.name, term, vi, mi)
							t.Outcome("%v", want)
							if got != want {
								t.Fail("%s says %v (%s), want %v:\n%s", p20Modes[mi].name, got, msg, want, h.JSON(d))
							}
						}, "%sdm%d term %q %d at %s, %s", what, dm, term, vi, p.name, p20Modes[mi].name)
					}
				}
			}
		}
	}
}
