package props

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"net/http"
	"strconv"
	"strings"

	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func gz(level int, b []byte) []byte {
	var buf bytes.Buffer
	w, err := gzip.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	_, _ = w.Write(b)
	_ = w.Close()
	return buf.Bytes()
}

func mb(enc multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(enc, b)
	if err != nil {
		panic(err)
	}
	return s
}

type statusResolver func(uri string) (*verifiable.Credential, error)

func (f statusResolver) Resolve(uri string) (*verifiable.Credential, error) { return f(uri) }

const (
	stIssuer = "did:example:issuer"
	stURI    = "https://status.example/list/1"
)

// statusVC is a credential with the given status entries (as JSON objects), as a verifier gets it.
func statusVC(issuer any, entries ...any) (*verifiable.Credential, error) {
	m := map[string]any{
		"@context":          []any{"https://www.w3.org/2018/credentials/v1"},
		"type":              []any{"VerifiableCredential"},
		"id":                "urn:uuid:c",
		"credentialSubject": map[string]any{"id": "did:example:s"},
		"issuanceDate":      "2020-01-01T00:00:00Z",
	}
	if issuer != nil {
		m["issuer"] = issuer
	}
	if len(entries) == 1 {
		m["credentialStatus"] = entries[0]
	} else if len(entries) > 1 {
		m["@context"] = []any{"https://www.w3.org/ns/credentials/v2"}
		delete(m, "issuanceDate")
		m["credentialStatus"] = entries
	}
	return verifiable.ParseCredential([]byte(h.JSON(m)), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
}

func statusListJSON(issuer any, subject any) map[string]any {
	m := map[string]any{
		"@context":     []any{"https://www.w3.org/2018/credentials/v1", "https://w3id.org/vc/status-list/2021/v1"},
		"type":         []any{"VerifiableCredential", "StatusList2021Credential"},
		"id":           stURI,
		"issuanceDate": "2020-01-01T00:00:00Z",
	}
	if issuer != nil {
		m["issuer"] = issuer
	}
	if subject != nil {
		m["credentialSubject"] = subject
	}
	return m
}

func parseStatusList(m map[string]any) (*verifiable.Credential, error) {
	return verifiable.ParseCredential([]byte(h.JSON(m)), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
}

func statusEntry(typ, purpose string, index any) map[string]any {
	return map[string]any{"id": "urn:uuid:e", "type": typ, "statusPurpose": purpose, "statusListIndex": index, "statusListCredential": stURI}
}

type httpFunc func(*http.Request) (*http.Response, error)

func (f httpFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func httpResp(code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

func init() {
	h.Register(&h.Prop{
		ID:   "P23",
		Rule: "every bit pattern of one-byte lists and every one- and two-bit pattern (and complement) of longer lists, in every encoding of both status types, x every index string of the list plus out-of-range and malformed ones; oracle: boolean array (bit i is bit i mod 8, least significant first, of byte i div 8, the convention of the library's issuers)",
		Gen:  genP23,
	})
}

type stEnc struct {
	name, typ string
	f         func(b []byte) string
}

func stEncodings() []stEnc {
	out := []stEnc{
		{"sl2021", "StatusList2021Entry", func(b []byte) string { return base64.RawURLEncoding.EncodeToString(gz(6, b)) }},
		{"sl2021-stored", "StatusList2021Entry", func(b []byte) string { return base64.RawURLEncoding.EncodeToString(gz(0, b)) }},
		{"sl2021-members", "StatusList2021Entry", func(b []byte) string {
			return base64.RawURLEncoding.EncodeToString(append(gz(9, b[:len(b)/2]), gz(9, b[len(b)/2:])...))
		}},
	}
	for _, m := range []struct {
		n string
		e multibase.Encoding
	}{{"u", multibase.Base64url}, {"U", multibase.Base64urlPad}, {"m", multibase.Base64}, {"z", multibase.Base58BTC}, {"f", multibase.Base16}, {"b", multibase.Base32}} {
		out = append(out, stEnc{"bitstring-" + m.n, "BitstringStatusListEntry", func(b []byte) string { return mb(m.e, gz(6, b)) }})
	}
	return out
}

func genP23(e *h.Env) {
	var lists [][]byte
	for i := 0; i < 256; i++ {
		lists = append(lists, []byte{byte(i)})
	}
	pat := func(n int, bits ...int) []byte {
		b := make([]byte, n)
		for _, x := range bits {
			b[x/8] |= 1 << (x % 8)
		}
		return b
	}
	inv := func(b []byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[i] = ^b[i]
		}
		return o
	}
	for _, n := range []int{2, 3} {
		for i := 0; i < 8*n; i++ {
			lists = append(lists, pat(n, i), inv(pat(n, i)))
			for j := 0; j < i; j++ {
				if e.Thorough() || n == 2 {
					lists = append(lists, pat(n, i, j))
				}
			}
		}
	}
	big := []int{64, 2048, 16383, 16384, 16385, 32769, 131072 + 1}
	if e.Thorough() {
		big = append(big, 4096, 8192, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 262145, 1<<20+1)
	}
	for _, n := range big {
		for _, x := range []int{0, 1, 7, 8, 255, 256, 8*n/2 - 1, 8*n - 8, 8*n - 1, 8*2048 - 1, 8 * 2048, 8*16384 - 1, 8 * 16384, 8*32768 - 1, 8 * 32768, 65536, 1 << 20} {
			if n > 16384 && !e.Thorough() && (x == 1 || x == 7 || x == 8 || x == 255) {
				continue
			}
			if x < 8*n {
				lists = append(lists, pat(n, x), inv(pat(n, x)))
			}
		}
	}
	odd := []any{"-1", "-8", "+1", "01", "-0", "", " 1", "1 ", "1.0", "0x1", "1e0", "abc", "99999999999999999999999", "9223372036854775807", "18446744073709551616", float64(1), nil, true, []any{"1"}, map[string]any{}}
	purposes := []struct {
		p    string
		want error
	}{{"revocation", status.ErrRevoked}, {"suspension", status.ErrSuspended}}
	e.Note("lists", len(lists))
	seen := map[string]bool{}
	for li, l := range lists {
		if seen[string(l)] {
			continue
		}
		seen[string(l)] = true
		for ei, enc := range stEncodings() {
			if !e.Thorough() && ei != 0 && ei != 3 && (len(l) >= 64 || li%5 != 0) {
				continue
			}
			l, enc, ei := l, enc, ei
			e.Casef(func(t *h.T) {
				encoded := enc.f(l)
				list, err := parseStatusList(statusListJSON(stIssuer, map[string]any{"id": stURI + "#list", "type": "StatusList2021", "statusPurpose": "revocation", "encodedList": encoded}))
				t.Must(err, "parse list")
				client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(u string) (*verifiable.Credential, error) {
					if u != stURI {
						return nil, fmt.Errorf("asked for %q", u)
					}
					return list, nil
				})}
				n := 8 * len(l)
				step := max(997, n/e.Pick(20, 100)+1)
				var idx []any
				for i := 0; i < n+17; i++ {
					if n > 512 && i > 20 && i < n-20 && i != 255 && i != 256 && i != n/2-1 && i != n/2 && i%step != 0 && bits.OnesCount(uint(i)) > 1 && bits.OnesCount(uint(i+1)) > 1 {
						continue
					}
					idx = append(idx, strconv.Itoa(i))
				}
				idx = append(idx, odd...)
				for _, ix := range idx {
					for pi, p := range purposes {
						if pi == 1 && ei > 0 && ei != 3 && !e.Thorough() {
							continue // quick: both purposes for one encoding of each status type
						}
						en := statusEntry(enc.typ, p.p, ix)
						if ix == nil {
							delete(en, "statusListIndex")
						}
						vc, err := statusVC(stIssuer, en)
						t.Must(err, "parse credential")
						got := client.VerifyStatus(vc)
						t.Step("%s index %v of %d-bit list: %v", p.p, ix, n, got)
						s, isStr := ix.(string)
						v, perr := strconv.Atoi(s)
						canon := isStr && perr == nil && v >= 0 && strconv.Itoa(v) == s
						bit := func(v int) bool { return v >= 0 && v < n && l[v/8]&(1<<(v%8)) != 0 }
						switch {
						case canon && v < n && bit(v):
							if !errors.Is(got, p.want) {
								t.Fail("bit %v of %x is set, purpose %s, but status is %v", ix, head16(l), p.p, got)
							}
							t.State("set")
						case canon && v < n:
							if got != nil {
								t.Fail("bit %v of %x is unset, but status is %v", ix, head16(l), got)
							}
							t.State("unset")
						default:
							if got == nil && !(isStr && perr == nil && v >= 0 && v < n && !bit(v)) {
								t.Fail("index %q of a %d-bit list is accepted as not revoked", ix, n)
							}
							if errors.Is(got, status.ErrRevoked) || errors.Is(got, status.ErrSuspended) {
								if !(isStr && perr == nil && bit(v)) {
									t.Fail("index %q of a %d-bit list is reported as %v", ix, n, got)
								}
							}
							t.State("bad")
						}
					}
				}
			}, "list/%s/%d/%x", enc.name, len(l), fnv(l))
		}
	}
	// one client, changing lists: the decision follows the list that is resolved now
	for _, enc := range stEncodings() {
		enc := enc
		for seq := 0; seq < 256; seq++ {
			seq := seq
			e.Casef(func(t *h.T) {
				var cur *verifiable.Credential
				client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(string) (*verifiable.Credential, error) { return cur, nil })}
				vc, err := statusVC(stIssuer, statusEntry(enc.typ, "revocation", "3"))
				t.Must(err, "cred")
				for i := 0; i < 4; i++ {
					b := byte(seq>>(2*i)) & 3
					l := []byte{0xF7 * (b & 1), 0}
					if b&2 != 0 {
						l[0] |= 8
					}
					cur, err = parseStatusList(statusListJSON(stIssuer, map[string]any{"encodedList": enc.f(l)}))
					t.Must(err, "list")
					got := client.VerifyStatus(vc)
					t.Step("list %x: %v", l, got)
					if (b&2 != 0) != errors.Is(got, status.ErrRevoked) || (b&2 == 0 && got != nil) {
						t.Fail("after %d earlier checks list %x gives %v", i, l, got)
					}
				}
			}, "history/%s/%d", enc.name, seq)
		}
	}
	// multi-bit entries: the entry at index i occupies bits [i*size, (i+1)*size)
	for i := 0; i < 4; i++ {
		for v := 0; v < 4; v++ {
			e.Casef(func(t *h.T) {
				l := []byte{byte(v) << (2 * i)}
				list, err := parseStatusList(statusListJSON(stIssuer, map[string]any{"encodedList": mb(multibase.Base64url, gz(6, l))}))
				t.Must(err, "list")
				client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: statusResolver(func(string) (*verifiable.Credential, error) { return list, nil })}
				for j := 0; j < 4; j++ {
					en := statusEntry("BitstringStatusListEntry", "revocation", strconv.Itoa(j))
					en["statusSize"] = 2
					en["statusMessage"] = []any{"a", "b", "c"}
					vc, err := statusVC(stIssuer, en)
					t.Must(err, "cred")
					got := client.VerifyStatus(vc)
					t.Step("two-bit entry %d of %08b: %v", j, l[0], got)
					want := j == i && v != 0
					if want && got == nil {
						t.FailSub(fmt.Sprintf("entry%d-missed", j), "two-bit entry %d has value %d but is reported as not revoked", j, v)
					}
					if !want && got != nil {
						t.FailSub(fmt.Sprintf("entry%d-false", j), "two-bit entry %d has value 0 but is reported as %v", j, got)
					}
				}
			}, "multibit/entry%d/value%d", i, v)
		}
	}
	// through the HTTP resolver
	for _, enc := range stEncodings() {
		enc := enc
		for b := 0; b < 16; b++ {
			b := b
			e.Casef(func(t *h.T) {
				l := pat(2, b)
				body := []byte(h.JSON(statusListJSON(stIssuer, map[string]any{"encodedList": enc.f(l)})))
				client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: httpFunc(func(r *http.Request) (*http.Response, error) {
					if r.URL.String() != stURI || r.Method != http.MethodGet {
						return httpResp(404, nil), nil
					}
					return httpResp(200, body), nil
				})}, &didRegistry{}, "")}
				for i := 0; i < 18; i++ {
					vc, err := statusVC(map[string]any{"id": stIssuer, "name": "n"}, statusEntry(enc.typ, "suspension", strconv.Itoa(i)))
					t.Must(err, "cred")
					got := client.VerifyStatus(vc)
					t.Step("bit %d: %v", i, got)
					switch {
					case i >= 16 && (got == nil || errors.Is(got, status.ErrSuspended)), i == b && !errors.Is(got, status.ErrSuspended), i < 16 && i != b && got != nil:
						t.Fail("bit %d with only bit %d set: %v", i, b, got)
					}
				}
			}, "http/%s/%d", enc.name, b)
		}
	}
}

func head16(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

func fnv(b []byte) uint64 {
	var x uint64 = 14695981039346656037
	for _, c := range b {
		x = (x ^ uint64(c)) * 1099511628211
	}
	return x
}

var _ = strings.TrimSpace
