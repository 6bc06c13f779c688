package props

import (
	"crypto/ed25519"
	"errors"
	"fmt"
	"strings"

	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zz_verifmc/fx"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

// didRegistry is a registry whose answers the harness decides.
type didRegistry struct {
	docs  map[string]*did.Doc
	err   error
	asked []string
}

func (r *didRegistry) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	r.asked = append(r.asked, id)
	if r.err != nil {
		return nil, r.err
	}
	d := r.docs[id]
	if d == nil {
		return nil, vdrapi.ErrNotFound
	}
	return &did.DocResolution{DIDDocument: d}, nil
}
func (r *didRegistry) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("no")
}
func (r *didRegistry) Update(*did.Doc, ...vdrapi.DIDMethodOption) error   { return errors.New("no") }
func (r *didRegistry) Deactivate(string, ...vdrapi.DIDMethodOption) error { return errors.New("no") }
func (r *didRegistry) Close() error                                       { return nil }

var p13rels = []did.VerificationRelationship{did.VerificationRelationshipGeneral, did.Authentication, did.AssertionMethod, did.KeyAgreement, did.CapabilityInvocation, did.CapabilityDelegation}

type p13slot struct {
	id   string
	rels int
	key  int
}

func init() {
	h.Register(&h.Prop{
		ID:   "P13",
		Rule: "every DID document with up to two (thorough: three over reduced relationship sets) methods: id x subset of the six relationships x key form (raw bytes, JWK), x requested key id x expected controller x registry answer; oracle: set of methods of the controller's document with exactly that id under a relationship other than key agreement",
		Gen:  genP13,
	})
}

func genP13(e *h.Env) {
	const me, other = "did:x:me", "did:x:other"
	ids := []string{me + "#k1", me + "#k2", "#k1", other + "#k1", me + "#K1", "k1"}
	reqs := []string{me + "#k1", me + "#k2", "#k1", "k1", me, "", other + "#k1", me + "#k1 ", me + "?x=1#k1"}
	keys := []*fx.Key{fx.NewKey("ed25519", me, "k1"), fx.NewKey("p256", me, "k1"), fx.NewKey("ed25519", me, "k2")}
	vm := func(s p13slot) did.VerificationMethod {
		k := keys[s.key]
		if k.Name == "ed25519" && s.key == 0 {
			v := did.NewVerificationMethodFromBytes(s.id, "Ed25519VerificationKey2018", me, []byte(k.Pub.(ed25519.PublicKey)))
			return *v
		}
		v, err := did.NewVerificationMethodFromJWK(s.id, "JsonWebKey2020", me, k.JWK)
		if err != nil {
			panic(err)
		}
		return *v
	}
	mkDoc := func(id string, slots []p13slot) *did.Doc {
		d := &did.Doc{ID: id}
		for _, s := range slots {
			for i, rel := range p13rels {
				if s.rels&(1<<i) == 0 {
					continue
				}
				ver := did.Verification{VerificationMethod: vm(s), Relationship: rel, Embedded: true}
				switch rel {
				case did.VerificationRelationshipGeneral:
					d.VerificationMethod = append(d.VerificationMethod, vm(s))
				case did.Authentication:
					d.Authentication = append(d.Authentication, ver)
				case did.AssertionMethod:
					d.AssertionMethod = append(d.AssertionMethod, ver)
				case did.KeyAgreement:
					d.KeyAgreement = append(d.KeyAgreement, ver)
				case did.CapabilityInvocation:
					d.CapabilityInvocation = append(d.CapabilityInvocation, ver)
				case did.CapabilityDelegation:
					d.CapabilityDelegation = append(d.CapabilityDelegation, ver)
				}
			}
		}
		return d
	}
	check := func(t *h.T, slots []p13slot) {
		doc := mkDoc(me, slots)
		// the other controller's document has every id
		all := []p13slot{{me + "#k1", 63, 2}, {other + "#k1", 63, 2}, {"#k1", 63, 2}}
		for _, ctl := range []string{me, other, "did:x:none", ""} {
			for _, req := range reqs {
				reg := &didRegistry{docs: map[string]*did.Doc{me: doc, other: mkDoc(other, all)}}
				t.Step("resolve %q of %q in %v", req, ctl, slots)
				got, err := vermethod.NewVDRResolver(reg).ResolveVerificationMethod(req, ctl)
				var allowed []p13slot
				src := slots
				if ctl == other {
					src = all
				}
				if ctl == me || ctl == other {
					for _, s := range src {
						if s.id == req && s.rels&^(1<<3) != 0 {
							allowed = append(allowed, s)
						}
					}
				}
				if len(reg.asked) != 1 || reg.asked[0] != ctl {
					t.Fail("registry asked for %q, expected %q", reg.asked, ctl)
				}
				if len(allowed) == 0 {
					if err == nil {
						t.Fail("key %q of controller %q resolved though document %+v does not offer it", req, ctl, slots)
					}
					t.State("none")
					continue
				}
				if err != nil {
					t.Fail("key %q of controller %q not resolved in %+v: %v", req, ctl, slots, err)
					continue
				}
				ok := false
				for _, s := range allowed {
					w := vm(s)
					if got.Type == w.Type && string(got.Value) == string(w.Value) && (got.JWK == nil) == (w.JSONWebKey() == nil) {
						if got.JWK == nil || h.JSON(got.JWK) == h.JSON(w.JSONWebKey()) {
							ok = true
						}
					}
				}
				if !ok {
					t.Fail("key %q of %q in %+v resolved to a different method: %+v", req, ctl, slots, got)
				}
				t.Statef("%d", len(allowed))
			}
		}
	}
	for i, a := range ids {
		for j, b := range ids {
			for ra := 0; ra < 64; ra++ {
				e.Casef(func(t *h.T) {
					step := 1
					if !e.Thorough() {
						step = 3 // quick: the second method's relationship sets in a fixed sub-lattice plus the singletons
					}
					for rb := 0; rb < 64; rb++ {
						if step != 1 && rb%step != 0 && rb&(rb-1) != 0 && rb != 63 {
							continue
						}
						check(t, []p13slot{{a, ra, 0}, {b, rb, 1}})
						if t.Failed() {
							return
						}
					}
				}, "two/%d/%d/%02x", i, j, ra)
			}
		}
	}
	// faults
	for _, fault := range []error{errors.New("registry down"), vdrapi.ErrNotFound} {
		for _, req := range reqs {
			e.Casef(func(t *h.T) {
				reg := &didRegistry{docs: map[string]*did.Doc{me: mkDoc(me, []p13slot{{req, 63, 0}})}, err: fault}
				t.Step("resolve %q with fault", req)
				if got, err := vermethod.NewVDRResolver(reg).ResolveVerificationMethod(req, me); err == nil {
					t.Fail("resolved %+v although the registry failed", got)
				}
			}, "fault/%s/%s", strings.ReplaceAll(fault.Error(), " ", "-"), fmt.Sprintf("%q", req))
		}
	}
}
