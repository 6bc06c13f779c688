package props

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

func init() {
	h.Register(&h.Prop{ID: "P21", Level: "enumerated", Gen: genP21,
		Rule: "every digest form (algorithm x multibase encoding x multihash header x right, foreign and damaged digests, alone and in pairs) x every outcome of the fetch; every order in which the fetches of up to three (thorough: four) resources finish x their outcomes; every history of validations, faults, content changes and expiries up to a length over one cache; every securing form of credentials and presentations x outcomes at the parsing entry points; the verdict is compared with the digests computed from the served content",
		Assume: []string{"digests are written as this repository writes them: multibase, plain or (SHA-256) as multihash, after the algorithm name in digestSRI; an empty resource is not fetched",
			"a resource that was fetched since the cache last expired may be decided by its content then"}})
}

// p21Fetch is an outcome of fetching a resource.
type p21Fetch struct {
	name string
	ok   bool
	do   func(content []byte) (*http.Response, error)
}

type p21BadBody struct{ r io.Reader }

func (b *p21BadBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func (*p21BadBody) Close() error { return nil }

var p21Fetches = []p21Fetch{
	{"ok", true, func(c []byte) (*http.Response, error) { return httpResp(200, c), nil }},
	{"ok in pieces", true, func(c []byte) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = io.NopCloser(iotestOneByte{bytes.NewReader(c)})
		return r, nil
	}},
	{"status 404 with body", false, func(c []byte) (*http.Response, error) { return httpResp(404, c), nil }},
	{"status 201", false, func(c []byte) (*http.Response, error) { return httpResp(201, c), nil }},
	{"status 206", false, func(c []byte) (*http.Response, error) { return httpResp(206, c), nil }},
	{"status 500", false, func(c []byte) (*http.Response, error) { return httpResp(500, c), nil }},
	{"status 304", false, func(c []byte) (*http.Response, error) { return httpResp(304, c), nil }},
	{"no connection", false, func(c []byte) (*http.Response, error) { return nil, errors.New("no connection") }},
	{"reset after the content", false, func(c []byte) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = &p21BadBody{bytes.NewReader(c)}
		return r, nil
	}},
	{"reset at once", false, func(c []byte) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = &p21BadBody{bytes.NewReader(nil)}
		return r, nil
	}},
	{"no body", false, func(c []byte) (*http.Response, error) {
		r := httpResp(200, nil)
		r.Body = nil
		return r, nil
	}},
	{"empty body", false, func(c []byte) (*http.Response, error) { return httpResp(200, nil), nil }},
}

type iotestOneByte struct{ r io.Reader }

func (o iotestOneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// p21Client is a client of the validator.
type p21Client func(url string) (*http.Response, error)

func (c p21Client) Do(r *http.Request) (*http.Response, error) { return c(r.URL.String()) }

func p21Hash(alg string, c []byte) []byte {
	switch alg {
	case "sha256":
		x := sha256.Sum256(c)
		return x[:]
	case "sha384":
		x := sha512.Sum384(c)
		return x[:]
	case "sha512":
		x := sha512.Sum512(c)
		return x[:]
	}
	panic(alg)
}

var p21Encs = []struct {
	name string
	e    multibase.Encoding
}{{"base64url", multibase.Base64url}, {"base64pad", multibase.Base64pad}, {"base64", multibase.Base64}, {"base58", multibase.Base58BTC}, {"hex", multibase.Base16}, {"base32", multibase.Base32}, {"base64urlpad", multibase.Base64urlPad}}

func p21MB(e multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(e, b)
	if err != nil {
		panic(err)
	}
	return s
}

// p21Damage damages a digest.
var p21Damage = []struct {
	name string
	f    func(d []byte) []byte
}{
	{"right", func(d []byte) []byte { return d }},
	{"first byte changed", func(d []byte) []byte { d[0] ^= 1; return d }},
	{"last byte changed", func(d []byte) []byte { d[len(d)-1] ^= 0x80; return d }},
	{"one byte short", func(d []byte) []byte { return d[:len(d)-1] }},
	{"one byte long", func(d []byte) []byte { return append(d, 0) }},
	{"first byte missing", func(d []byte) []byte { return d[1:] }},
	{"first half", func(d []byte) []byte { return d[:len(d)/2] }},
	{"empty", func(d []byte) []byte { return nil }},
}

type p21Digest struct {
	name  string
	value string // without the algorithm
	alg   string
	right bool
}

// p21Digests lists digests for content.
func p21Digests(content, other []byte) (out []p21Digest) {
	for _, alg := range []string{"sha256", "sha384", "sha512"} {
		for _, enc := range p21Encs {
			for _, mh := range []bool{false, true} {
				if mh && alg != "sha256" {
					continue
				}
				hdr := []byte(nil)
				n := ""
				if mh {
					hdr, n = []byte{0x12, 0x20}, " multihash"
				}
				for _, d := range p21Damage {
					v := append(append([]byte{}, hdr...), d.f(p21Hash(alg, content))...)
					out = append(out, p21Digest{fmt.Sprintf("%s %s%s %s", alg, enc.name, n, d.name), p21MB(enc.e, v), alg, d.name == "right"})
				}
				out = append(out, p21Digest{fmt.Sprintf("%s %s%s of other content", alg, enc.name, n), p21MB(enc.e, append(append([]byte{}, hdr...), p21Hash(alg, other)...)), alg, false})
			}
		}
		for i, hdr := range [][]byte{{0x12, 0x14}, {0x12, 0x21}, {0x12, 0}, {0x13, 0x20}, {0x20, 0x12}, {0x12}, {0x20}, {0x12, 0x20, 0x12, 0x20}, {0, 0}, {0, 0x20}, {0x20, 0x30}, {0x13, 0x40}} {
			out = append(out, p21Digest{fmt.Sprintf("%s behind header %d", alg, i), p21MB(multibase.Base58BTC, append(append([]byte{}, hdr...), p21Hash(alg, content)...)), alg, false})
		}
		ok, bad := p21MB(multibase.Base64url, p21Hash(alg, content)), p21MB(multibase.Base64url, p21Hash(alg, other))
		for i, v := range []string{ok + " " + alg + "-" + bad, bad + " " + alg + "-" + ok, ok + " x", ok + "?x", ok + "," + bad, ok + "-" + bad, bad + "-" + ok, "x-" + ok} {
			out = append(out, p21Digest{fmt.Sprintf("%s text after %d", alg, i), v, alg, false})
		}
		for _, a := range []string{"sha256", "sha384", "sha512"} {
			if a != alg {
				out = append(out, p21Digest{alg + " is " + a, p21MB(multibase.Base64url, p21Hash(a, content)), alg, false})
			}
		}
	}
	return out
}

func p21VC(t *h.T, rs ...verifiable.RelatedResource) *verifiable.Credential {
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{RelatedResources: rs}, nil)
	t.Must(err, "create")
	return vc
}

func genP21(e *h.Env) {
	p21Single(e)
	p21Orders(e)
	p21Histories(e)
	p21Near(e)
	p21Entry(e)
}

// nearURLs are different resources, by pairs similar in all but one part.
var nearURLs = []string{"https://r.example/x", "http://r.example/x", "https://r.example:8443/x", "https://s.r.example/x", "https://r.example/X", "https://r.example/x/", "https://r.example/x/y", "https://r.example/y/x", "https://r.example/x?a=1", "https://r.example/x?a=2",
	"https://r.example/x?a=1&b=2", "https://r.example/x?b=2&a=1", "https://r.example/x?", "https://r.example/x%2Fy", "https://r.example//x", "https://r.example/x.json", "https://u@r.example/x", "https://r.example/" + strings.Repeat("long/", 60) + "1", "https://r.example/" + strings.Repeat("long/", 60) + "2"}

// p21Near checks every ordered pair of similar URLs with one cache, and two fragments of one.
func p21Near(e *h.Env) {
	for i, a := range nearURLs {
		e.Casef(func(t *h.T) {
			for j, b := range nearURLs {
				if i == j {
					continue
				}
				t.Step("%s then %s", a, b)
				ca, cb := []byte("content of a"), []byte("content of b")
				ra, rb := p21Res("", ca), p21Res("", cb)
				ra.Id, rb.Id = a, b
				aAsB, bAsA := p21Res("", cb), p21Res("", ca)
				aAsB.Id, bAsA.Id = a, b
				for _, seq := range [][][]verifiable.RelatedResource{
					{{ra}, {rb}, {bAsA}, {aAsB}, {ra, rb}, {rb, ra}},
					{{ra}, {bAsA}, {rb}, {ra}},
					{{bAsA}, {aAsB}, {rb}, {ra}},
					{{ra, rb}, {aAsB, bAsA}},
					{{ra, bAsA}, {ra, rb}},
				} {
					v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
						switch u {
						case a:
							return httpResp(200, ca), nil
						case b:
							return httpResp(200, cb), nil
						}
						return httpResp(404, []byte(u)), nil
					})))
					for n, rs := range seq {
						good := true
						for _, r := range rs {
							good = good && (r.Id == a) == (r.DigestSRI == ra.DigestSRI)
						}
						if err := v.Validate([]*verifiable.Credential{p21VC(t, rs...)}); (err == nil) != good {
							t.FailSub(fmt.Sprint(j, " ", n), "%s has content a, %s content b; step %d of %v: %v", a, b, n, seq, err)
						}
					}
				}
			}
			// what one of them has does not stand in for the other one that cannot be fetched
			for j, b := range nearURLs {
				for _, f := range p21Fetches {
					if i == j || f.ok {
						continue
					}
					ca := []byte("content of a")
					ra, rb := p21Res("", ca), p21Res("", ca)
					ra.Id, rb.Id = a, b
					v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
						if u == a {
							return httpResp(200, ca), nil
						}
						return f.do(ca)
					})))
					t.Step("%s then %s: %s", a, b, f.name)
					for n, rs := range [][]verifiable.RelatedResource{{ra}, {rb}, {ra, rb}, {rb}} {
						if err := v.Validate([]*verifiable.Credential{p21VC(t, rs...)}); (err == nil) != (n == 0) {
							t.FailSub(fmt.Sprint(j, " ", f.name, n), "%s is there, %s: %s; step %d: %v", a, b, f.name, n, err)
						}
					}
				}
			}
			t.Outcome("told apart")
		}, "near %d", i)
	}
}

func p21Single(e *h.Env) {
	contents := map[string][]byte{"short": []byte("a"), "json": []byte(`{"a":1}`), "binary": {0, 0xff, 0x12, 0x20}, "big": bytes.Repeat([]byte("0123456789abcdef"), 5000)}
	// digests with dashes in base64url
	for i := 0; ; i++ {
		c := []byte(fmt.Sprint("dash", i))
		if d := p21MB(multibase.Base64url, p21Hash("sha256", c)); strings.Count(d, "-") > 1 {
			contents["dashes"] = c
			break
		}
	}
	validate := func(t *h.T, c []byte, f p21Fetch, r verifiable.RelatedResource) error {
		v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(string) (*http.Response, error) { return f.do(c) })))
		return v.Validate([]*verifiable.Credential{p21VC(t, r)})
	}
	for cn, c := range contents {
		ds := p21Digests(c, []byte("other"))
		for _, f := range p21Fetches {
			if !f.ok && cn != "short" {
				continue
			}
			e.Casef(func(t *h.T) {
				n := 0
				for _, d := range ds {
					if !f.ok && !d.right {
						continue
					}
					t.Step("%s", d.name)
					n++
					check := func(how string, want bool, r verifiable.RelatedResource) {
						r.Id = "https://r.example/x"
						err := validate(t, c, f, r)
						if want && err != nil {
							t.FailSub(d.name+" "+how, "digest %s matches but: %v", d.name, err)
						}
						if !want && err == nil {
							t.FailSub(d.name+" "+how, "accepted although %s / %s", f.name, d.name)
						}
					}
					good := p21MB(multibase.Base58BTC, p21Hash("sha256", c))
					bad := p21MB(multibase.Base58BTC, p21Hash("sha256", []byte("zzz")))
					check("sri", f.ok && d.right, verifiable.RelatedResource{DigestSRI: d.alg + "-" + d.value})
					check("sri upper", f.ok && d.right, verifiable.RelatedResource{DigestSRI: strings.ToUpper(d.alg) + "-" + d.value})
					check("sri with right multibase", f.ok && d.right, verifiable.RelatedResource{DigestSRI: d.alg + "-" + d.value, DigestMultiBase: good})
					check("sri with wrong multibase", false, verifiable.RelatedResource{DigestSRI: d.alg + "-" + d.value, DigestMultiBase: bad})
					check("sri without algorithm", false, verifiable.RelatedResource{DigestSRI: d.value})
					check("sri of unknown algorithm", false, verifiable.RelatedResource{DigestSRI: "md5-" + d.value})
					if d.alg == "sha256" {
						check("multibase", f.ok && d.right, verifiable.RelatedResource{DigestMultiBase: d.value})
						check("multibase with media type", f.ok && d.right, verifiable.RelatedResource{DigestMultiBase: d.value, MediaType: "text/plain"})
						check("multibase with wrong sri", false, verifiable.RelatedResource{DigestMultiBase: d.value, DigestSRI: "sha512-" + bad})
					}
				}
				err := validate(t, c, f, verifiable.RelatedResource{Id: "https://r.example/x"})
				if err == nil {
					t.FailSub("no digest", "accepted without any digest")
				}
				t.Outcome(fmt.Sprintf("%s x %d digests", f.name, n))
			}, "digests of %s, fetch %s", cn, f.name)
		}
	}
	// many resources, in one credential or one in each, of which one is not as its digest says
	for _, n := range []int{12, 70} {
		e.Casef(func(t *h.T) {
			for bad := -1; bad < n; bad++ {
				if n > 12 && bad%23 > 1 {
					continue
				}
				for _, same := range []bool{false, true} { // one resource named again and again
					t.Step("%d %v", bad, same)
					var all []verifiable.RelatedResource
					var each []*verifiable.Credential
					for i := 0; i < n; i++ {
						id := fmt.Sprintf("https://r.example/%d", i)
						if same {
							id = "https://r.example/same"
						}
						c := id
						if i == bad {
							c = "else"
						}
						r := verifiable.RelatedResource{Id: id, DigestMultiBase: p21MB(multibase.Base58BTC, p21Hash("sha256", []byte(c)))}
						all = append(all, r)
						each = append(each, p21VC(t, r))
					}
					for how, l := range [][]*verifiable.Credential{{p21VC(t, all...)}, each} {
						v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) { return httpResp(200, []byte(u)), nil })))
						for round := 0; round < 2; round++ {
							if err := v.Validate(l); (err == nil) != (bad < 0) {
								t.FailSub(fmt.Sprint(bad, same, how, round), "wrong digest at %d of %d (same URL %v, one credential each %v): %v", bad, n, same, how == 1, err)
							}
						}
					}
				}
			}
			t.Outcome("many resources")
		}, "%d resources", n)
	}
	e.Casef(func(t *h.T) {
		for _, id := range []string{"", ":", "http://%zz"} {
			t.Step("%q", id)
			v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
				if u == "" {
					return nil, errors.New("no url")
				}
				return httpResp(200, []byte("a")), nil
			})))
			if v.Validate([]*verifiable.Credential{p21VC(t, verifiable.RelatedResource{Id: id, DigestMultiBase: p21MB(multibase.Base58BTC, p21Hash("sha256", []byte("a")))})}) == nil {
				t.FailSub(id, "resource %q accepted", id)
			}
		}
		t.Outcome("unusable URLs")
	}, "unusable URLs")
	e.Casef(func(t *h.T) {
		v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) { return nil, errors.New("no") })))
		t.Step("none")
		t.Must(v.Validate(nil), "no credentials")
		t.Must(v.Validate([]*verifiable.Credential{p21VC(t), p21VC(t)}), "no resources")
		t.Outcome("nothing to check")
	}, "nothing to check")
}

func p21Res(name string, content []byte) verifiable.RelatedResource {
	return verifiable.RelatedResource{Id: "https://r.example/" + name, DigestSRI: "sha384-" + p21MB(multibase.Base64url, p21Hash("sha384", content))}
}

func perms(n int) (out [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// p21Orders controls the order in which fetches finish.
func p21Orders(e *h.Env) {
	kinds := []string{"ok", "wrong content", "404", "no connection"}
	n := e.Pick(3, 4)
	for k := 1; k <= n; k++ {
		dims := make([]int, k)
		for i := range dims {
			dims[i] = len(kinds)
		}
		h.Product(dims, func(ix []int) {
			ks := append([]int{}, ix...)
			e.Casef(func(t *h.T) {
				good := true
				for _, x := range ks {
					good = good && x == 0
				}
				for _, split := range []bool{false, true} {
					for _, p := range perms(k) {
						var rs []verifiable.RelatedResource
						gate := map[string]chan struct{}{}
						arrived := map[string]chan struct{}{}
						closed := map[string]chan struct{}{}
						outcome := map[string]int{}
						for i, x := range ks {
							r := p21Res(fmt.Sprint(i), []byte(fmt.Sprint("content", i)))
							rs = append(rs, r)
							gate[r.Id], arrived[r.Id], closed[r.Id], outcome[r.Id] = make(chan struct{}), make(chan struct{}), make(chan struct{}), x
						}
						v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
							close(arrived[u])
							<-gate[u]
							switch kinds[outcome[u]] {
							case "ok":
								return httpResp(200, []byte("content"+u[len(u)-1:])), nil
							case "wrong content":
								return httpResp(200, []byte("forged")), nil
							case "404":
								return httpResp(404, []byte("content"+u[len(u)-1:])), nil
							}
							return nil, errors.New("no connection")
						})))
						done := make(chan error, 1)
						go func() {
							if !split {
								done <- v.Validate([]*verifiable.Credential{p21VC(t, rs...)})
								return
							}
							var vcs []*verifiable.Credential
							for _, r := range rs {
								vcs = append(vcs, p21VC(t, r))
							}
							done <- v.Validate(vcs)
						}()
						t.Step("order %v", p)
						all := true
						for _, i := range p { // all fetches under way, unless they are made one after the other
							select {
							case <-arrived[rs[i].Id]:
							case <-time.After(100 * time.Millisecond):
								all = false
							}
						}
						var err error
						fin := false
						for j, i := range p {
							close(gate[rs[i].Id])
							if all && !fin && j < len(p)-1 {
								select { // let the fetch finish; an early verdict must be a refusal
								case err = <-done:
									fin = true
								case <-time.After(50 * time.Microsecond):
								}
							}
						}
						if !fin {
							err = <-done
						}
						if good && err != nil {
							t.FailSub(fmt.Sprint(p, split), "all resources match, order %v: %v", p, err)
						}
						if !good && err == nil {
							t.FailSub(fmt.Sprint(p, split), "accepted with outcomes %v, order %v", ks, p)
						}
					}
				}
				t.Outcome(fmt.Sprint("good=", good))
			}, "orders %v", ks)
		})
	}
}

// p21Histories runs every history over one cache.
func p21Histories(e *h.Env) {
	c1, c2 := []byte("version 1"), []byte("version 2")
	r1, r1b, r2 := p21Res("a", c1), p21Res("a", c2), p21Res("b", c1)
	r1u := r1
	r1u.Id = "https://r.example/A"
	mbForm := verifiable.RelatedResource{Id: r1.Id, DigestMultiBase: p21MB(multibase.Base58BTC, p21Hash("sha256", c1))}
	type op struct {
		name string
		rs   []verifiable.RelatedResource // validate
		do   string
	}
	ops := []op{
		{"validate a@1", []verifiable.RelatedResource{r1}, ""},
		{"validate a@2", []verifiable.RelatedResource{r1b}, ""},
		{"validate a@1 by multibase", []verifiable.RelatedResource{mbForm}, ""},
		{"validate b@1", []verifiable.RelatedResource{r2}, ""},
		{"validate a@1 and b@1", []verifiable.RelatedResource{r1, r2}, ""},
		{"validate a@1 and a@2", []verifiable.RelatedResource{r1, r1b}, ""},
		{"validate A@1", []verifiable.RelatedResource{r1u}, ""},
		{"a changes", nil, "a"},
		{"a down or up", nil, "downa"},
		{"b answers 500 or 200", nil, "downb"},
		{"expiry", nil, "expiry"},
	}
	depth := e.Pick(5, 6)
	for _, size := range []int{100, 1} {
		for _, seq := range p21Seqs(len(ops), 2) {
			e.Casef(func(t *h.T) {
				var rec func(hist []int)
				run := func(hist []int) {
					cache := expirable.NewLRU[string, *verifiable.CachedResource](size, nil, time.Hour)
					ver := map[string][]byte{r1.Id: c1, r2.Id: c1}
					down := map[string]bool{}
					seen := map[string][][]byte{} // content of fetches since the last expiry
					var mu sync.Mutex
					v := verifiable.NewRelatedResourceValidator(verifiable.WithCache(cache), verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
						mu.Lock()
						defer mu.Unlock()
						if ver[u] == nil {
							return httpResp(404, []byte("none")), nil
						}
						if down[u] && u == r1.Id {
							return nil, errors.New("down")
						}
						if down[u] {
							return httpResp(500, ver[u]), nil
						}
						seen[u] = append(seen[u], ver[u])
						return httpResp(200, ver[u]), nil
					})))
					desc := ""
					for _, i := range hist {
						o := ops[i]
						desc += o.name + "; "
						switch o.do {
						case "a":
							if string(ver[r1.Id]) == string(c1) {
								ver[r1.Id] = c2
							} else {
								ver[r1.Id] = c1
							}
							continue
						case "downa":
							down[r1.Id] = !down[r1.Id]
							continue
						case "downb":
							down[r2.Id] = !down[r2.Id]
							continue
						case "expiry":
							cache.Purge()
							seen = map[string][][]byte{}
							continue
						}
						may, must := true, true // accepted in some, in every allowed way
						for _, r := range o.rs {
							matches := func(c []byte) bool {
								if r.DigestSRI == "" {
									return r.DigestMultiBase == p21MB(multibase.Base58BTC, p21Hash("sha256", c))
								}
								return r.DigestSRI == p21Res("x", c).DigestSRI
							}
							now := ver[r.Id] != nil && !down[r.Id] && matches(ver[r.Id])
							m, u := now, now
							for _, c := range seen[r.Id] {
								m, u = m || matches(c), u && matches(c)
							}
							may, must = may && m, must && u
						}
						if len(o.rs) == 2 && o.rs[0].Id == o.rs[1].Id { // digests of different versions cannot both match a state
							must = false
							if len(seen[o.rs[0].Id]) == 0 {
								may = false
							}
						}
						err := v.Validate([]*verifiable.Credential{p21VC(t, o.rs...)})
						if must && err != nil {
							t.FailSub(desc, "history %s: refused: %v", desc, err)
							return
						}
						if !may && err == nil {
							t.FailSub(desc, "history %s: accepted", desc)
							return
						}
					}
				}
				n := 0
				rec = func(hist []int) {
					if len(hist) == depth {
						n++
						run(hist)
						return
					}
					for i := range ops {
						if len(hist) == depth-1 && ops[i].do != "" { // the last step decides something
							continue
						}
						rec(append(hist[:len(hist):len(hist)], i))
					}
				}
				t.Step("prefix %v", seq)
				rec(seq)
				t.Outcome(fmt.Sprintf("%d histories", n))
			}, "cache of %d, histories from %s; %s", size, ops[seq[0]].name, ops[seq[1]].name)
		}
	}
}

// p21Seqs lists all sequences of length n over m symbols.
func p21Seqs(m, n int) (out [][]int) {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = m
	}
	h.Product(dims, func(ix []int) { out = append(out, append([]int{}, ix...)) })
	return out
}

var p21Default = sync.OnceFunc(func() {
	verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(p21Client(func(u string) (*http.Response, error) {
		if strings.HasSuffix(u, "down") {
			return nil, errors.New("down")
		}
		return httpResp(200, []byte("content of "+u)), nil
	})))
})

// p21Entry checks the parsing entry points.
func p21Entry(e *h.Env) {
	p21Default()
	right := func(n string) map[string]any {
		u := "https://r.example/" + n
		return map[string]any{"id": u, "digestSRI": "sha512-" + p21MB(multibase.Base58BTC, p21Hash("sha512", []byte("content of "+u)))}
	}
	mbase := func(n string) map[string]any {
		u := "https://r.example/" + n
		return map[string]any{"id": u, "mediaType": "text/plain", "digestMultibase": p21MB(multibase.Base64url, append([]byte{0x12, 0x20}, p21Hash("sha256", []byte("content of "+u))...))}
	}
	wrong := func(n string) map[string]any {
		return map[string]any{"id": "https://r.example/" + n, "digestSRI": right("other")["digestSRI"]}
	}
	menus := []struct {
		name string
		l    []any
		ok   bool
	}{
		{"none", nil, true}, {"empty", []any{}, true}, {"right", []any{right("a")}, true}, {"two right", []any{right("a"), mbase("b")}, true}, {"twice", []any{right("a"), mbase("a")}, true},
		{"wrong", []any{wrong("a")}, false}, {"right, wrong", []any{right("a"), wrong("b")}, false}, {"wrong, right", []any{wrong("a"), right("b")}, false},
		{"down", []any{right("down")}, false}, {"right, down", []any{mbase("a"), right("down")}, false}, {"no digest", []any{map[string]any{"id": "https://r.example/a"}}, false},
		{"no id", []any{map[string]any{"digestSRI": right("a")["digestSRI"]}}, false}, {"right and wrong for one", []any{right("a"), wrong("a")}, false},
		{"wrong multibase beside right sri", []any{map[string]any{"id": "https://r.example/a", "digestSRI": right("a")["digestSRI"], "digestMultibase": mbase("b")["digestMultibase"]}}, false},
		{"null entry", []any{right("a"), nil}, false}, {"text entry", []any{"https://r.example/a"}, false},
	}
	for _, f := range credForms {
		dms := f.dms()
		dm := dms[len(dms)-1]
		w := newWorld(f)
		for _, m := range menus {
			doc := f.vcDoc(dm, wIss)
			if m.l != nil {
				doc["relatedResource"] = m.l
			}
			if f.family == "ld" {
				for _, x := range m.l {
					if mm, ok := x.(map[string]any); ok {
						mm["type"] = "XRes"
					}
				}
				doc["@context"] = append(doc["@context"].([]any), map[string]any{"relatedResource": "urn:rel", "digestSRI": "urn:sri", "digestMultibase": "urn:mb", "mediaType": "urn:mt", "XRes": "urn:xres"})
			}
			e.Casef(func(t *h.T) {
				if !m.ok && strings.Contains(m.name, "entry") {
					t.Outcome("structure")
					b := []byte(h.JSON(doc))
					if _, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation()); err == nil {
						t.Fail("accepted")
					}
					return
				}
				sec := f.secure(t, w.k1, doc)
				forms := [][2]any{{"parsed", []byte(sec)}}
				if b, err := json.Marshal(sec); err == nil && f.family == "jwt" {
					forms = append(forms, [2]any{"quoted", b})
				}
				var vc *verifiable.Credential
				for _, fm := range forms {
					t.Step("%s", fm[0])
					got, err := verifiable.ParseCredential(fm[1].([]byte), w.opts()...)
					if m.ok && err != nil {
						t.FailSub(fm[0].(string), "refused: %v", err)
					}
					if !m.ok && err == nil {
						t.FailSub(fm[0].(string), "accepted")
					}
					got2, err := verifiable.ParseCredential(fm[1].([]byte), w.opts(verifiable.WithDisabledRelatedResourceCheck())...)
					if err != nil {
						t.FailSub(fm[0].(string)+" without check", "refused without the check: %v", err)
						return
					}
					if m.ok {
						vc = got
					} else {
						vc = got2
					}
				}
				if vc == nil {
					return
				}
				t.Outcome(fmt.Sprint("ok=", m.ok))
				if err := verifiable.DefaultRelatedResourceValidator.Validate([]*verifiable.Credential{vc}); (err == nil) != m.ok {
					t.FailSub("validator", "the validator says %v", err)
				}
			}, "credential %s %s", f.name, m.name)
		}
	}
	// credentials made from contents
	for _, f := range credForms[:1] {
		for _, m := range menus[1:14] {
			e.Casef(func(t *h.T) {
				var rs []verifiable.RelatedResource
				for _, x := range m.l {
					mm := x.(map[string]any)
					str := func(n string) string { s, _ := mm[n].(string); return s }
					rs = append(rs, verifiable.RelatedResource{Id: str("id"), DigestSRI: str("digestSRI"), DigestMultiBase: str("digestMultibase"), MediaType: str("mediaType")})
				}
				w := newWorld(f)
				vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: []string{"https://www.w3.org/ns/credentials/v2"}, Types: []string{"VerifiableCredential"}, Issuer: &verifiable.Issuer{ID: wIss}, Subject: []verifiable.Subject{{ID: "urn:s"}}, RelatedResources: rs}, nil)
				t.Must(err, "create")
				t.Step("plain")
				b, err := vc.MarshalJSON()
				t.Must(err, "marshal")
				_, err = verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(fx.Loader()))
				if (err == nil) != m.ok {
					t.FailSub("plain", "parsed: %v", err)
				}
				j, err := vc.CreateSignedJWTVC(true, verifiable.EdDSA, jwtAnySigner{w.k1}, w.k1.KID)
				t.Must(err, "sign")
				s, err := j.ToJWTString()
				t.Must(err, "sign")
				t.Step("jwt")
				_, err = verifiable.ParseCredential([]byte(s), w.opts()...)
				if (err == nil) != m.ok {
					t.FailSub("jwt", "parsed: %v", err)
				}
				t.Step("di")
				di := vc
				for _, x := range []string{"eddsa-rdfc-2022"} {
					k := w.k1
					ts := time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
					err = di.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: k.KID, CryptoSuite: x, Created: &ts}, diSigner(diDoc(k), k))
					if err != nil {
						t.FailSub("di add", "%v", err)
						continue
					}
					b, err := di.MarshalJSON()
					t.Must(err, "marshal")
					wd := newWorld(credForms[11])
					_, err = verifiable.ParseCredential(b, wd.opts()...)
					if (err == nil) != m.ok {
						t.FailSub("di", "parsed: %v", err)
					}
				}
				t.Outcome(fmt.Sprint("contents ok=", m.ok))
			}, "contents %s", m.name)
		}
	}
	// presentations
	for _, f := range presForms {
		dms := f.dms()
		dm := dms[0]
		w := newWorld(f)
		for _, m := range menus[:12] {
			e.Casef(func(t *h.T) {
				ik := fx.NewKey("ed25519", "did:verif:vci", "k1")
				inner := credForms[0].vcDoc(2, ik.DID)
				if m.l != nil {
					inner["relatedResource"] = m.l
				}
				plain := credForms[0].secure(t, ik, credForms[0].vcDoc(2, ik.DID))
				jwtVC := credForms[0].secure(t, ik, inner)
				for i, l := range [][]any{{jwtVC}, {plain, jwtVC}, {jwtVC, plain}} {
					t.Step("%d", i)
					sec := f.secureVP(t, w.k1, f.vpDoc(dm, wIss, l))
					more := []*fx.Key{ik}
					_, err := verifiable.ParsePresentation([]byte(sec), append(w.presOptsKeys(more), verifiable.WithPresRelatedResourceCheck(true))...)
					if (err == nil) != m.ok {
						t.FailSub(fmt.Sprint(i), "with the check: %v", err)
					}
					if m.ok {
						_, err = verifiable.ParsePresentation([]byte(sec), w.presOptsKeys(more)...)
						if err != nil {
							t.FailSub(fmt.Sprint(i, " unchecked"), "without the check: %v", err)
						}
					}
				}
				t.Outcome(fmt.Sprint("presentation ok=", m.ok))
			}, "presentation %s %s", f.name, m.name)
		}
	}
}
