package props

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/did/endpoint"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{
		ID:   "P24",
		Rule: "all single and pairwise deviations of status entry, status list credential and resolver answer (HTTP, DID-relative, in process) from a valid baseline; all sequences of up to three entries over {valid, revoked, suspended, each single deviation}; oracle: nil exactly when every entry is intact and unset, revoked/suspended only if a readable entry says so",
		Gen:  genP24,
	})
}

type stDev struct {
	name string
	f    func(m map[string]any)
	ok   bool // still acceptable
}

// stField names the entry member a deviation touches.
func stField(n string) string {
	n = strings.TrimPrefix(n, "no-")
	n = strings.SplitN(n, "-", 2)[0]
	switch n {
	case "index":
		return "statusListIndex"
	case "url":
		return "statusListCredential"
	}
	return n
}

func genP24(e *h.Env) {
	types := []string{"StatusList2021Entry", "BitstringStatusListEntry"}
	set := func(k string, v any) func(map[string]any) { return func(m map[string]any) { m[k] = v } }
	del := func(k string) func(map[string]any) { return func(m map[string]any) { delete(m, k) } }
	wrong := []struct {
		n string
		v any
	}{{"null", nil}, {"num", 5.0}, {"true", true}, {"false", false}, {"arr", []any{}}, {"obj", map[string]any{}}, {"empty", ""}}
	var entryDevs []stDev
	entryDevs = append(entryDevs, stDev{"none", func(map[string]any) {}, true})
	for _, f := range []string{"statusPurpose", "statusListIndex", "statusListCredential", "type"} {
		entryDevs = append(entryDevs, stDev{"no-" + f, del(f), false})
		for _, w := range wrong {
			if f == "statusPurpose" && w.v != nil {
				continue // an unset bit needs no purpose to be understood; checked below for set bits
			}
			entryDevs = append(entryDevs, stDev{f + "-" + w.n, set(f, w.v), false})
		}
	}
	entryDevs = append(entryDevs,
		stDev{"type-unknown", set("type", "RevocationList2020Status"), false},
		stDev{"type-case", set("type", "statuslist2021entry"), false},
		stDev{"index-neg", set("statusListIndex", "-1"), false},
		stDev{"index-end", set("statusListIndex", "16"), false},
		stDev{"index-huge", set("statusListIndex", "99999999999999999999"), false},
		stDev{"index-hex", set("statusListIndex", "0x0"), false},
		stDev{"url-other", set("statusListCredential", "https://status.example/other"), false},
		stDev{"url-bad", set("statusListCredential", "://"), false},
		stDev{"no-id", del("id"), true},
	)
	bitDevs := []stDev{
		{"size-str", set("statusSize", "1"), false}, {"size-0", set("statusSize", 0), false}, {"size-neg", set("statusSize", -1), false},
		{"size-2-nomsg", set("statusSize", 2), false}, {"size-2-shortmsg", func(m map[string]any) { m["statusSize"] = 2; m["statusMessage"] = []any{"a"} }, false},
		{"size-2-longmsg", func(m map[string]any) { m["statusSize"] = 2; m["statusMessage"] = []any{"a", "b", "c", "d", "e"} }, false},
		{"size-2-msg-str", func(m map[string]any) { m["statusSize"] = 2; m["statusMessage"] = "abc" }, false},
		{"size-3-msg-of-2", func(m map[string]any) { m["statusSize"] = 3; m["statusMessage"] = []any{"a", "b", "c"} }, false},
		{"size-obj", set("statusSize", map[string]any{"a": 1}), false}, {"size-bool", set("statusSize", true), false},
		{"size-1", set("statusSize", 1), true},
	}
	good := func(typ string, bits []byte) string {
		if typ == "StatusList2021Entry" {
			return base64.RawURLEncoding.EncodeToString(gz(6, bits))
		}
		return mb(multibase.Base64url, gz(6, bits))
	}
	type listDev struct {
		name string
		f    func(typ string, m map[string]any)
		ok   bool
	}
	subj := func(m map[string]any) map[string]any { return m["credentialSubject"].(map[string]any) }
	listDevs := []listDev{
		{"none", func(string, map[string]any) {}, true},
		{"issuer-obj", func(_ string, m map[string]any) { m["issuer"] = map[string]any{"id": stIssuer, "name": "x"} }, true},
		{"issuer-other", func(_ string, m map[string]any) { m["issuer"] = "did:example:mallory" }, false},
		{"issuer-case", func(_ string, m map[string]any) { m["issuer"] = "did:example:Issuer" }, false},
		{"issuer-prefix", func(_ string, m map[string]any) { m["issuer"] = stIssuer + "2" }, false},
		{"issuer-none", func(_ string, m map[string]any) { delete(m, "issuer") }, false},
		{"issuer-null", func(_ string, m map[string]any) { m["issuer"] = nil }, false},
		{"issuer-empty", func(_ string, m map[string]any) { m["issuer"] = "" }, false},
		{"issuer-obj-noid", func(_ string, m map[string]any) { m["issuer"] = map[string]any{"name": "x"} }, false},
		{"issuer-num", func(_ string, m map[string]any) { m["issuer"] = 5 }, false},
		{"subject-none", func(_ string, m map[string]any) { delete(m, "credentialSubject") }, false},
		{"subject-null", func(_ string, m map[string]any) { m["credentialSubject"] = nil }, false},
		{"subject-empty-array", func(_ string, m map[string]any) { m["credentialSubject"] = []any{} }, false},
		{"subject-string", func(_ string, m map[string]any) { m["credentialSubject"] = "did:x:y" }, false},
		{"list-none", func(_ string, m map[string]any) { delete(subj(m), "encodedList") }, false},
		{"list-null", func(_ string, m map[string]any) { subj(m)["encodedList"] = nil }, false},
		{"list-num", func(_ string, m map[string]any) { subj(m)["encodedList"] = 0 }, false},
		{"list-array", func(_ string, m map[string]any) { subj(m)["encodedList"] = []any{subj(m)["encodedList"]} }, false},
		{"list-empty", func(_ string, m map[string]any) { subj(m)["encodedList"] = "" }, false},
		{"list-garbage", func(_ string, m map[string]any) { subj(m)["encodedList"] = "%%%" }, false},
		{"list-notgzip", func(typ string, m map[string]any) {
			x := base64.RawURLEncoding.EncodeToString(make([]byte, 64))
			if typ != "StatusList2021Entry" {
				x = "u" + x
			}
			subj(m)["encodedList"] = x
		}, false},
		{"list-wrong-base", func(typ string, m map[string]any) {
			subj(m)["encodedList"] = "?" + subj(m)["encodedList"].(string)
		}, false},
		{"list-zero-bits", func(typ string, m map[string]any) { subj(m)["encodedList"] = good(typ, nil) }, false},
	}
	for cut := 1; cut < 30; cut++ {
		listDevs = append(listDevs, listDev{fmt.Sprintf("list-truncated-%d", cut), func(typ string, m map[string]any) {
			z := gz(0, make([]byte, 2))
			if cut >= len(z) {
				cut := len(z) - 1
				_ = cut
			}
			n := len(z) - cut
			if n < 0 {
				n = 0
			}
			x := base64.RawURLEncoding.EncodeToString(z[:n])
			if typ != "StatusList2021Entry" {
				x = "u" + x
			}
			subj(m)["encodedList"] = x
		}, false})
	}
	// every single-byte corruption of the compressed list that gzip can notice (length and checksum trailer, header)
	for pos := 0; pos < 25; pos++ {
		if pos >= 4 && pos < 10 {
			continue // mtime, flags and OS bytes do not change the content
		}
		listDevs = append(listDevs, listDev{fmt.Sprintf("list-corrupt-%d", pos), func(typ string, m map[string]any) {
			z := gz(0, make([]byte, 2))
			if pos < len(z) {
				z[pos] ^= 0xff
			} else {
				z = z[:3]
			}
			x := base64.RawURLEncoding.EncodeToString(z)
			if typ != "StatusList2021Entry" {
				x = "u" + x
			}
			subj(m)["encodedList"] = x
		}, false})
	}
	type resDev struct {
		name string
		f    func(list []byte) func(*http.Request) (*http.Response, error)
		ok   bool
	}
	code := func(c int) func([]byte) func(*http.Request) (*http.Response, error) {
		return func(l []byte) func(*http.Request) (*http.Response, error) {
			return func(*http.Request) (*http.Response, error) { return httpResp(c, l), nil }
		}
	}
	resDevs := []resDev{{"none", code(200), true}, {"dial", func([]byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) { return nil, errors.New("connection refused") }
	}, false}, {"empty", func([]byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) { return httpResp(200, nil), nil }
	}, false}, {"null", func([]byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) { return httpResp(200, []byte("null")), nil }
	}, false}, {"array", func(l []byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) {
			return httpResp(200, append(append([]byte("["), l...), ']')), nil
		}
	}, false}, {"halfbody", func(l []byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) {
			r := httpResp(200, nil)
			r.Body = io.NopCloser(io.MultiReader(strings.NewReader(string(l[:len(l)/2])), errReader{}))
			return r, nil
		}
	}, false}, {"fullbody-then-error", func(l []byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) {
			r := httpResp(200, nil)
			r.Body = io.NopCloser(io.MultiReader(strings.NewReader(string(l)), errReader{}))
			return r, nil
		}
	}, false}, {"truncated", func(l []byte) func(*http.Request) (*http.Response, error) {
		return func(*http.Request) (*http.Response, error) { return httpResp(200, l[:len(l)-1]), nil }
	}, false}}
	for _, c := range []int{201, 202, 204, 206, 301, 400, 401, 403, 404, 410, 429, 500, 502, 503} {
		resDevs = append(resDevs, resDev{fmt.Sprintf("http%d", c), code(c), false})
	}

	run := func(t *h.T, typ string, ed, ed2 stDev, ld listDev, rd resDev, credIssuer any) error {
		en := statusEntry(typ, "revocation", "0")
		ed.f(en)
		ed2.f(en)
		vc, err := statusVC(credIssuer, en)
		if err != nil {
			t.Step("credential refused: %v", err)
			return err
		}
		l := statusListJSON(stIssuer, map[string]any{"id": stURI + "#list", "encodedList": good(typ, make([]byte, 2))})
		ld.f(typ, l)
		body := []byte(h.JSON(l))
		tr := rd.f(body)
		client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: httpFunc(func(r *http.Request) (*http.Response, error) {
			if r.URL.String() != stURI {
				return httpResp(404, nil), nil
			}
			return tr(r)
		})}, &didRegistry{}, "tok")}
		err = client.VerifyStatus(vc)
		t.Step("%s entry %s+%s list %s answer %s: %v", typ, ed.name, ed2.name, ld.name, rd.name, err)
		return err
	}
	none := entryDevs[0]
	for _, typ := range types {
		devs := append([]stDev{}, entryDevs...)
		if typ == types[1] {
			devs = append(devs, bitDevs...)
		}
		for i, ed := range devs {
			for j, ed2 := range devs {
				if j < i && j != 0 {
					continue
				}
				if j == 0 && i != 0 {
					continue
				}
				if i != 0 && stField(ed.name) == stField(ed2.name) {
					continue // the second would undo the first
				}
				typ, ed, ed2 := typ, ed, ed2
				e.Casef(func(t *h.T) {
					got := run(t, typ, ed, ed2, listDevs[0], resDevs[0], stIssuer)
					p24Check(t, got, ed.ok && ed2.ok, ed.name == ed2.name || ed.name == "none" || ed2.name == "none")
				}, "entry/%s/%s+%s", typ, ed.name, ed2.name)
			}
		}
		for _, ld := range listDevs {
			for _, rd := range resDevs {
				for _, ed := range []stDev{none, devs[1], {"index-1", set("statusListIndex", "1"), true}} {
					typ, ld, rd, ed := typ, ld, rd, ed
					e.Casef(func(t *h.T) {
						got := run(t, typ, ed, none, ld, rd, stIssuer)
						p24Check(t, got, ld.ok && rd.ok && ed.ok, true)
					}, "list/%s/%s/%s/%s", typ, ed.name, ld.name, rd.name)
				}
			}
			for _, ci := range []any{nil, "", map[string]any{"id": stIssuer}, map[string]any{"name": "n"}, "did:example:mallory"} {
				typ, ld, ci := typ, ld, ci
				e.Casef(func(t *h.T) {
					got := run(t, typ, none, none, ld, resDevs[0], ci)
					ok := ld.ok && h.JSON(ci) == `{"id":"`+stIssuer+`"}`
					if ld.name == "issuer-other" && ci == "did:example:mallory" {
						ok = true
					}
					p24Check(t, got, ok, true)
				}, "issuer/%s/%s/%s", typ, ld.name, h.JSON(ci))
			}
		}
		// set bits and purposes
		for _, p := range []any{"revocation", "suspension", "message", "refresh", "", nil, 1.0, []any{"revocation"}, "Revocation"} {
			typ, p := typ, p
			e.Casef(func(t *h.T) {
				en := statusEntry(typ, "", "1")
				en["statusPurpose"] = p
				vc, err := statusVC(stIssuer, en)
				t.Must(err, "cred")
				list, err := parseStatusList(statusListJSON(stIssuer, map[string]any{"encodedList": good(typ, []byte{2})}))
				t.Must(err, "list")
				got := (&status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(string) (*verifiable.Credential, error) { return list, nil })}).VerifyStatus(vc)
				t.Step("purpose %v: %v", p, got)
				if got == nil || errors.Is(got, status.ErrRevoked) != (p == "revocation") || errors.Is(got, status.ErrSuspended) != (p == "suspension") {
					t.Fail("set bit with purpose %v gives %v", p, got)
				}
			}, "purpose/%s/%s", typ, h.JSON(p))
		}
	}
	// sequences of entries: every entry counts, whatever its position
	type seqItem struct {
		name string
		typ  string
		idx  string
		p    string
		dev  func(map[string]any)
		uri  string
		kind int // 0 ok 1 revoked 2 suspended 3 faulty
	}
	items := []seqItem{}
	for _, typ := range types {
		items = append(items,
			seqItem{"ok-" + typ, typ, "0", "revocation", nil, stURI, 0},
			seqItem{"revoked-" + typ, typ, "1", "revocation", nil, stURI, 1},
			seqItem{"suspended-" + typ, typ, "1", "suspension", nil, stURI, 2})
	}
	items = append(items,
		seqItem{"ok-msg", types[1], "0", "message", nil, stURI, 0},
		seqItem{"nolist", types[0], "0", "revocation", nil, "https://status.example/gone", 3},
		seqItem{"noindex", types[0], "0", "revocation", del("statusListIndex"), stURI, 3},
		seqItem{"unknown-type", "OtherStatus", "0", "revocation", nil, stURI, 3},
		seqItem{"out-of-range", types[1], "16", "suspension", nil, stURI, 3},
		seqItem{"other-issuer", types[0], "0", "revocation", nil, "https://status.example/other-issuer", 3},
		seqItem{"ok-second-list", types[0], "1", "revocation", nil, "https://status.example/zero", 0},
	)
	depth := 3
	var seqs [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			seqs = append(seqs, append([]int{}, cur...))
		}
		if len(cur) == depth {
			return
		}
		for i := range items {
			rec(append(cur, i))
		}
	}
	rec(nil)
	for _, n := range []int{11, 40, 300} {
		seqs = append(seqs, longLists(n, []int{0, 3, len(items) - 1}, []int{1, 2, 4, 5, 7, 8})...)
	}
	for _, sq := range seqs {
		sq := sq
		var nm []string
		for _, i := range sq {
			nm = append(nm, items[i].name)
		}
		e.Casef(func(t *h.T) {
			var entries []any
			first := -1
			for _, i := range sq {
				it := items[i]
				en := statusEntry(it.typ, it.p, it.idx)
				en["statusListCredential"] = it.uri
				if it.dev != nil {
					it.dev(en)
				}
				entries = append(entries, en)
				if first < 0 && it.kind != 0 {
					first = it.kind
				}
			}
			vc, err := statusVC(stIssuer, entries...)
			t.Must(err, "cred")
			lists := func(u string) (*verifiable.Credential, error) {
				typ := types[0]
				iss := stIssuer
				bits := []byte{2, 0}
				switch u {
				case "https://status.example/other-issuer":
					iss = "did:example:mallory"
				case "https://status.example/zero":
					bits = []byte{0, 0}
				case stURI:
				default:
					return nil, errors.New("not found")
				}
				_ = typ
				return parseStatusList(statusListJSON(iss, map[string]any{"encodedList": good(types[0], bits)}))
			}
			// both encodings are served according to the entry asking; the resolver sees only the URI, so serve per call order
			k := 0
			client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(u string) (*verifiable.Credential, error) {
				c, err := lists(u)
				if err != nil {
					return nil, err
				}
				cc := c.Contents()
				_ = cc
				k++
				return c, nil
			})}
			// one encoding that both decoders accept does not exist: give bitstring entries their own URI
			for i, en := range entries {
				m := en.(map[string]any)
				if m["type"] == types[1] && m["statusListCredential"] == stURI {
					m["statusListCredential"] = stURI + "?bitstring"
				}
				entries[i] = m
			}
			vc, err = statusVC(stIssuer, entries...)
			t.Must(err, "cred")
			base := client.Resolver
			client.Resolver = statusResolver(func(u string) (*verifiable.Credential, error) {
				if u == stURI+"?bitstring" {
					return parseStatusList(statusListJSON(stIssuer, map[string]any{"encodedList": good(types[1], []byte{2, 0})}))
				}
				return base.Resolve(u)
			})
			got := client.VerifyStatus(vc)
			t.Step("%v: %v", nm, got)
			if (got == nil) != (first < 0) {
				t.Fail("entries %v give %v", nm, got)
			}
			anyKind := func(k int) bool {
				for _, i := range sq {
					if items[i].kind == k {
						return true
					}
				}
				return false
			}
			if errors.Is(got, status.ErrRevoked) && !anyKind(1) || errors.Is(got, status.ErrSuspended) && !anyKind(2) {
				t.Fail("entries %v give %v although no entry says so", nm, got)
			}
			if !anyKind(3) && (anyKind(1) || anyKind(2)) && !errors.Is(got, status.ErrRevoked) && !errors.Is(got, status.ErrSuspended) {
				t.Fail("entries %v give %v instead of the status", nm, got)
			}
			t.State(fmt.Sprint(first))
		}, "entries/%s", strings.Join(nm, ","))
	}
	e.Case("entries/none", func(t *h.T) {
		vc, err := statusVC(stIssuer)
		t.Must(err, "cred")
		t.Step("no entries")
		if (&status.Client{ValidatorGetter: validator.GetValidator}).VerifyStatus(vc) == nil {
			t.Fail("credential without status entry is accepted")
		}
	})
	for _, v := range []any{[]any{}, nil, []any{nil}, "x", []any{"x"}, 5, []any{[]any{}}} {
		v := v
		e.Case("entries/malformed/"+h.JSON(v), func(t *h.T) {
			m := map[string]any{"@context": []any{"https://www.w3.org/ns/credentials/v2"}, "type": []any{"VerifiableCredential"}, "issuer": stIssuer, "credentialSubject": map[string]any{"id": "x"}, "credentialStatus": v}
			vc, err := verifiable.ParseCredential([]byte(h.JSON(m)), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
			t.Step("parse: %v", err)
			if err == nil && (&status.Client{ValidatorGetter: validator.GetValidator}).VerifyStatus(vc) == nil {
				t.Fail("credential with status %v is accepted", v)
			}
		})
	}
	genP24DID(e, good)
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

func p24Check(t *h.T, got error, ok, exact bool) {
	if errors.Is(got, status.ErrRevoked) || errors.Is(got, status.ErrSuspended) {
		t.Fail("reported %v although no bit is set", got)
	}
	if !ok && got == nil {
		t.Fail("accepted as not revoked")
	}
	if ok && exact && got != nil {
		t.Fail("intact status refused: %v", got)
	}
	if got == nil {
		t.State("ok")
	} else {
		t.State("err " + strings.SplitN(got.Error(), ":", 2)[0])
	}
}

// genP24DID: the list behind a DID-relative URL (identity hub).
func genP24DID(e *h.Env, good func(string, []byte) string) {
	const hubDID = "did:x:hub"
	b64 := base64.StdEncoding.EncodeToString
	q := func(v any) string {
		return hubDID + "?service=IdentityHub&queries=" + strings.NewReplacer("+", "%2B", "=", "%3D", "/", "%2F").Replace(b64([]byte(h.JSON(v))))
	}
	goodQ := []any{map[string]any{"method": "CollectionsQuery", "objectId": "o1"}}
	svcs := []struct {
		n  string
		d  func() *did.Doc
		ok bool
	}{
		{"core-uri", func() *did.Doc {
			return &did.Doc{ID: hubDID, Service: []did.Service{{ID: "s", Type: "IdentityHub", ServiceEndpoint: endpoint.NewDIDCommV1Endpoint("https://hub.example")}}}
		}, true},
		{"core-map", func() *did.Doc {
			return &did.Doc{ID: hubDID, Service: []did.Service{{ID: "x", Type: "Other", ServiceEndpoint: endpoint.NewDIDCommV1Endpoint("https://bad.example")}, {ID: "s", Type: "IdentityHub", ServiceEndpoint: endpoint.NewDIDCoreEndpoint(map[string]any{"instances": []string{"https://hub.example"}})}}}
		}, true},
		{"no-service", func() *did.Doc { return &did.Doc{ID: hubDID} }, false},
		{"empty-core", func() *did.Doc {
			return &did.Doc{ID: hubDID, Service: []did.Service{{ID: "s", Type: "IdentityHub", ServiceEndpoint: endpoint.NewDIDCoreEndpoint(map[string]any{})}}}
		}, false},
		{"zero-endpoint", func() *did.Doc { return &did.Doc{ID: hubDID, Service: []did.Service{{ID: "s", Type: "IdentityHub"}}} }, false},
		{"unknown-did", nil, false},
	}
	urls := []struct {
		n, u string
		ok   bool
	}{
		{"good", q(goodQ), true}, {"no-query", hubDID, false}, {"no-queries", hubDID + "?service=x", false}, {"not-b64", hubDID + "?queries=@@", false},
		{"null", q(nil), false}, {"empty", q([]any{}), false}, {"wrong-method", q([]any{map[string]any{"method": "x", "objectId": "o1"}}), false},
		{"no-object", q([]any{map[string]any{"method": "CollectionsQuery"}}), false}, {"null-object", q([]any{nil}), false}, {"second", q([]any{map[string]any{"method": "x"}, map[string]any{"method": "CollectionsQuery", "objectId": "o1"}}), true},
		{"other-object", q([]any{map[string]any{"method": "CollectionsQuery", "objectId": "o9"}}), false},
	}
	typ := "StatusList2021Entry"
	list := h.JSON(statusListJSON(stIssuer, map[string]any{"encodedList": good(typ, []byte{0})}))
	ent := func(id any, data string) map[string]any {
		return map[string]any{"descriptor": map[string]any{"objectId": id}, "data": data}
	}
	okS := map[string]any{"code": 200}
	bad := map[string]any{"code": 404, "message": "m"}
	resps := []struct {
		n  string
		v  any
		ok bool
	}{
		{"good", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", b64([]byte(list)))}}}}, true},
		{"nostatus", map[string]any{"replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", b64([]byte(list)))}}}}, true},
		{"bad-status", map[string]any{"status": bad, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", b64([]byte(list)))}}}}, false},
		{"bad-reply", map[string]any{"status": okS, "replies": []any{map[string]any{"status": bad, "entries": []any{ent("o1", b64([]byte(list)))}}}}, false},
		{"bad-second-reply", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", b64([]byte(list)))}}, map[string]any{"status": bad}}}, false},
		{"no-replies", map[string]any{"status": okS}, false},
		{"null-replies", map[string]any{"status": okS, "replies": nil}, false},
		{"null-entry", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{nil}}}}, false},
		{"other-object", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o2", b64([]byte(list)))}}}}, false},
		{"num-object", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent(1, b64([]byte(list)))}}}}, false},
		{"bad-data", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", "@@@")}}}}, false},
		{"empty-data", map[string]any{"status": okS, "replies": []any{map[string]any{"status": okS, "entries": []any{ent("o1", "")}}}}, false},
		{"null", nil, false}, {"string", "x", false},
	}
	for _, s := range svcs {
		for _, u := range urls {
			for _, r := range resps {
				for _, code := range []int{200, 500} {
					s, u, r, code := s, u, r, code
					e.Casef(func(t *h.T) {
						reg := &didRegistry{docs: map[string]*did.Doc{}}
						if s.d != nil {
							reg.docs[hubDID] = s.d()
						}
						en := statusEntry(typ, "revocation", "0")
						en["statusListCredential"] = u.u
						vc, err := statusVC(stIssuer, en)
						t.Must(err, "cred")
						client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: httpFunc(func(rq *http.Request) (*http.Response, error) {
							if rq.URL.Host != "hub.example" || rq.Method != http.MethodPost {
								return httpResp(404, nil), nil
							}
							return httpResp(code, []byte(h.JSON(r.v))), nil
						})}, reg, "")}
						got := client.VerifyStatus(vc)
						t.Step("%s %s %s %d: %v", s.n, u.n, r.n, code, got)
						p24Check(t, got, s.ok && u.ok && r.ok && code == 200, true)
					}, "did/%s/%s/%s/%d", s.n, u.n, r.n, code)
				}
			}
		}
	}
}
