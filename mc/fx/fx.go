// Package fx holds deterministic fixtures shared by the property harnesses: keys, resolvers,
// proof checkers and an offline JSON-LD loader.
package fx

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	ldcontext "github.com/trustbloc/did-go/doc/ld/context"
	"github.com/trustbloc/did-go/doc/ld/documentloader"
	ldtest "github.com/trustbloc/did-go/doc/ld/testutil"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zz_verifmc/h"
)

// Signer signs messages (hashing included).
type Signer func(msg []byte) ([]byte, error)

// Sign implements the signer interfaces of the repo.
func (s Signer) Sign(msg []byte) ([]byte, error) { return s(msg) }

// Key is one signing key of one controller.
type Key struct {
	Name   string
	DID    string
	KID    string
	JWTAlg string
	Cose   cose.Algorithm
	KT     kms.KeyType
	Signer Signer
	Pub    any
	JWK    *jwk.JWK
	Raw    []byte // raw public key bytes
	RawVM  string // verification method type used with raw bytes
}

// JWKVM is the verification method with a JWK.
func (k *Key) JWKVM() *vermethod.VerificationMethod {
	return &vermethod.VerificationMethod{Type: "JsonWebKey2020", JWK: k.JWK}
}

// RawVMethod is the verification method with raw bytes (nil if the kind has none).
func (k *Key) RawVMethod() *vermethod.VerificationMethod {
	if k.RawVM == "" {
		return nil
	}
	return &vermethod.VerificationMethod{Type: k.RawVM, Value: k.Raw}
}

// Creator signs with this key for every proof kind, whatever algorithm is asked.
func (k *Key) Creator() *creator.ProofCreator {
	return creator.New(
		creator.WithLDProofType(bbsblssignature2020.New(), k.Signer),
		creator.WithLDProofType(ecdsasecp256k1signature2019.New(), k.Signer),
		creator.WithLDProofType(ed25519signature2018.New(), k.Signer),
		creator.WithLDProofType(ed25519signature2020.New(), k.Signer),
		creator.WithLDProofType(jsonwebsignature2020.New(), k.Signer),
		creator.WithJWTAlg(eddsa.New(), k.Signer),
		creator.WithJWTAlg(es256.New(), k.Signer),
		creator.WithJWTAlg(es256k.New(), k.Signer),
		creator.WithJWTAlg(es384.New(), k.Signer),
		creator.WithJWTAlg(es521.New(), k.Signer),
		creator.WithJWTAlg(rs256.New(), k.Signer),
		creator.WithJWTAlg(ps256.New(), k.Signer))
}

func seed(s string) []byte { b := sha256.Sum256([]byte("vc-go model checking " + s)); return b[:] }

func ecSign(priv *ecdsa.PrivateKey, hash crypto.Hash) Signer {
	return func(msg []byte) ([]byte, error) {
		hh := hash.New()
		hh.Write(msg)
		r, s, err := ecdsa.Sign(rand.Reader, priv, hh.Sum(nil))
		if err != nil {
			return nil, err
		}
		n := (priv.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out, nil
	}
}

// Kinds of keys: ed25519, p256, p384, p521, secp256k1, rs256, ps256, bbs.
var Kinds = []string{"ed25519", "p256", "p384", "p521", "secp256k1", "rs256", "ps256"}

var keyMu sync.Mutex
var keyCache = map[string]*Key{}

// NewKey returns the deterministic key of a kind for a controller DID and fragment.
func NewKey(kind, did, frag string) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	id := kind + " " + did + "#" + frag
	if k := keyCache[id]; k != nil {
		return k
	}
	k := makeKey(kind, did, frag)
	keyCache[id] = k
	return k
}

func makeKey(kind, did, frag string) *Key {
	k := &Key{Name: kind, DID: did, KID: did + "#" + frag}
	sd := seed(kind + did + frag)
	ec := func(c elliptic.Curve, hash crypto.Hash) {
		n := c.Params().N
		d := new(big.Int).SetBytes(append(append([]byte{}, sd...), sd...))
		d.Mod(d, new(big.Int).Sub(n, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
		priv := &ecdsa.PrivateKey{D: d}
		priv.Curve = c
		priv.X, priv.Y = c.ScalarBaseMult(d.Bytes())
		k.Signer = ecSign(priv, hash)
		k.Pub = &priv.PublicKey
		k.Raw = elliptic.Marshal(c, priv.X, priv.Y)
	}
	switch kind {
	case "ed25519":
		priv := ed25519.NewKeyFromSeed(sd)
		k.JWTAlg, k.Cose, k.KT = "EdDSA", cose.AlgorithmEd25519, kms.ED25519Type
		k.Signer = func(m []byte) ([]byte, error) { return ed25519.Sign(priv, m), nil }
		k.Pub = priv.Public()
		k.Raw, k.RawVM = []byte(priv.Public().(ed25519.PublicKey)), "Ed25519VerificationKey2018"
	case "p256":
		k.JWTAlg, k.Cose, k.KT = "ES256", cose.AlgorithmES256, kms.ECDSAP256TypeIEEEP1363
		ec(elliptic.P256(), crypto.SHA256)
	case "p384":
		k.JWTAlg, k.Cose, k.KT = "ES384", cose.AlgorithmES384, kms.ECDSAP384TypeIEEEP1363
		ec(elliptic.P384(), crypto.SHA384)
	case "p521":
		k.JWTAlg, k.KT = "ES521", kms.ECDSAP521TypeIEEEP1363
		ec(elliptic.P521(), crypto.SHA512)
	case "secp256k1":
		k.JWTAlg, k.KT = "ES256K", kms.ECDSASecp256k1TypeIEEEP1363
		ec(btcec.S256(), crypto.SHA256)
		k.RawVM = "EcdsaSecp256k1VerificationKey2019"
	case "rs256", "ps256":
		priv := rsaKey(0)
		if strings.HasSuffix(frag, "-b") || strings.Contains(did, "mallory") || strings.Contains(did, "other") {
			priv = rsaKey(1)
		} else if frag == "k2" {
			priv = rsaKey(2)
		} else if strings.HasSuffix(did, "2") {
			priv = rsaKey(3)
		}
		k.Pub = &priv.PublicKey
		k.Raw, k.RawVM = x509.MarshalPKCS1PublicKey(&priv.PublicKey), "RsaVerificationKey2018"
		if kind == "rs256" {
			k.JWTAlg, k.Cose, k.KT = "RS256", cose.AlgorithmRS256, kms.RSARS256Type
			k.Signer = func(m []byte) ([]byte, error) {
				d := sha256.Sum256(m)
				return rsa.SignPKCS1v15(rand.Reader, priv, crypto.SHA256, d[:])
			}
		} else {
			k.JWTAlg, k.Cose, k.KT = "PS256", cose.AlgorithmPS256, kms.RSAPS256Type
			k.Signer = func(m []byte) ([]byte, error) {
				d := sha256.Sum256(m)
				return rsa.SignPSS(rand.Reader, priv, crypto.SHA256, d[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
			}
		}
	case "bbs":
		pub, priv, err := bbs12381g2pub.GenerateKeyPair(sha256.New, sd)
		must(err)
		pb, err := pub.Marshal()
		must(err)
		pv, err := priv.Marshal()
		must(err)
		k.KT, k.Raw, k.RawVM, k.Pub = kms.BLS12381G2Type, pb, "Bls12381G2Key2020", pub
		k.Signer = func(m []byte) ([]byte, error) {
			var lines [][]byte
			for _, l := range strings.Split(string(m), "\n") {
				if strings.TrimSpace(l) != "" {
					lines = append(lines, []byte(l))
				}
			}
			return bbs12381g2pub.New().Sign(lines, pv)
		}
		return k
	default:
		panic("kind " + kind)
	}
	j, err := jwksupport.JWKFromKey(k.Pub)
	must(err)
	k.JWK = j
	return k
}

func rsaKey(i int) *rsa.PrivateKey {
	b, _ := pem.Decode(h.Data(fmt.Sprintf("rsa%d.pem", i)))
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	must(err)
	return k
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Resolver resolves key ids, strictly: the key must be registered for exactly that controller.
type Resolver struct {
	VMs map[string]*vermethod.VerificationMethod // by key id
}

// NewResolver registers keys with their JWK (raw bytes for keys without JWK).
func NewResolver(keys ...*Key) *Resolver {
	r := &Resolver{VMs: map[string]*vermethod.VerificationMethod{}}
	for _, k := range keys {
		if k.JWK != nil {
			r.VMs[k.KID] = k.JWKVM()
		} else {
			r.VMs[k.KID] = k.RawVMethod()
		}
	}
	return r
}

// Set registers one verification method.
func (r *Resolver) Set(kid string, vm *vermethod.VerificationMethod) *Resolver {
	r.VMs[kid] = vm
	return r
}

// ResolveVerificationMethod implements the resolver.
func (r *Resolver) ResolveVerificationMethod(kid, controller string) (*vermethod.VerificationMethod, error) {
	did, _, _ := strings.Cut(kid, "#")
	if did == "" || did != controller {
		return nil, fmt.Errorf("fx: key %q does not belong to %q", kid, controller)
	}
	vm := r.VMs[kid]
	if vm == nil {
		return nil, fmt.Errorf("fx: no key %q", kid)
	}
	return vm, nil
}

// Checker is the default proof checker over these keys.
func Checker(keys ...*Key) *checker.ProofChecker {
	return defaults.NewDefaultProofChecker(NewResolver(keys...))
}

// CheckerR is the default proof checker over a resolver.
func CheckerR(r *Resolver) *checker.ProofChecker { return defaults.NewDefaultProofChecker(r) }

var (
	ldOnce sync.Once
	ld     *documentloader.DocumentLoader
)

// CtxX is an extra context with a few terms and an @vocab for everything else.
const CtxX = "https://verif.example/ctx/v1"

// Loader is an offline JSON-LD document loader.
func Loader() *documentloader.DocumentLoader {
	ldOnce.Do(func() {
		var extra []ldcontext.Document
		add := func(url string, content []byte) {
			extra = append(extra, ldcontext.Document{URL: url, Content: content})
		}
		add("https://w3id.org/citizenship/v2", h.Data("ctx/citizenship_v2.jsonld"))
		add("https://w3id.org/citizenship/v4rc1", h.Data("ctx/citizenship_v4rc1.jsonld"))
		add("https://identity.foundation/.well-known/did-configuration/v1", h.Data("ctx/did_configuration_v1.jsonld"))
		add(CtxX, []byte(`{"@context":{"@version":1.1,"@vocab":"https://verif.example/vocab#"}}`))
		add("https://verif.example/ctx/v2", []byte(`{"@context":{"@version":1.1,"xdegree":"https://verif.example/t#xdegree","XCredential":"https://verif.example/t#XCredential"}}`))
		l, err := ldtest.DocumentLoader(extra...)
		must(err)
		ld = l
	})
	return ld
}
