package vh

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"
)

// Key is a signing key with its key id.
type Key struct {
	Kid  string
	Priv *rsa.PrivateKey
}

var (
	keyPool   []*rsa.PrivateKey
	keyPoolMu sync.Mutex
	keyNext   int
)

// PreKeys generates n RSA keys in parallel for NewKey to hand out.
func PreKeys(n, bits int) {
	var wg sync.WaitGroup
	ks := make([]*rsa.PrivateKey, n)
	for i := range ks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			k, err := rsa.GenerateKey(rand.Reader, bits)
			if err != nil {
				panic(err)
			}
			ks[i] = k
		}(i)
	}
	wg.Wait()
	keyPoolMu.Lock()
	keyPool = append(keyPool, ks...)
	keyPoolMu.Unlock()
}

// NewKey returns a fresh key under the given id.
func NewKey(kid string) *Key {
	keyPoolMu.Lock()
	if keyNext < len(keyPool) {
		k := keyPool[keyNext]
		keyNext++
		keyPoolMu.Unlock()
		return &Key{Kid: kid, Priv: k}
	}
	keyPoolMu.Unlock()
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	return &Key{Kid: kid, Priv: k}
}

// B64 is base64url without padding.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// JWK renders the public part.
func (k *Key) JWK() map[string]interface{} {
	return map[string]interface{}{"kty": "RSA", "use": "sig", "alg": "RS256", "kid": k.Kid,
		"n": B64(k.Priv.N.Bytes()), "e": B64(big.NewInt(int64(k.Priv.E)).Bytes())}
}

// Claims of a token.
type Claims map[string]interface{}

// With returns a copy with one claim set.
func (c Claims) With(k string, v interface{}) Claims {
	n := Claims{}
	for a, b := range c {
		n[a] = b
	}
	n[k] = v
	return n
}

// Without returns a copy lacking one claim.
func (c Claims) Without(k string) Claims {
	n := Claims{}
	for a, b := range c {
		if a != k {
			n[a] = b
		}
	}
	return n
}

// BaseClaims are the claims of an ordinary token in date.
func BaseClaims(sub string) Claims {
	now := time.Now().Unix()
	return Claims{"sub": sub, "iss": "https://idp.example", "iat": now - 10, "exp": now + 36000}
}

func hashFor(alg string) crypto.Hash {
	switch alg[len(alg)-3:] {
	case "384":
		return crypto.SHA384
	case "512":
		return crypto.SHA512
	}
	return crypto.SHA256
}

// SignInput signs an encoded header.payload.
func (k *Key) SignInput(alg, input string) []byte {
	h := hashFor(alg)
	hh := h.New()
	hh.Write([]byte(input))
	sum := hh.Sum(nil)
	var sig []byte
	var err error
	if strings.HasPrefix(alg, "PS") {
		sig, err = rsa.SignPSS(rand.Reader, k.Priv, h, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
	} else {
		sig, err = rsa.SignPKCS1v15(rand.Reader, k.Priv, h, sum)
	}
	if err != nil {
		panic(err)
	}
	return sig
}

// Sign mints a compact JWT.
func (k *Key) Sign(c Claims) string { return k.SignAlg("RS256", nil, c) }

// SignAlg mints a compact JWT with the given algorithm and extra header fields.
func (k *Key) SignAlg(alg string, hdr map[string]interface{}, c interface{}) string {
	h := map[string]interface{}{"alg": alg, "typ": "JWT", "kid": k.Kid}
	for a, b := range hdr {
		if b == nil {
			delete(h, a)
		} else {
			h[a] = b
		}
	}
	in := B64(MustJSON(h)) + "." + B64(MustJSON(c))
	return in + "." + B64(k.SignInput(alg, in))
}

// SignRaw mints a token over raw header and payload bytes.
func (k *Key) SignRaw(alg string, header, payload []byte) string {
	in := B64(header) + "." + B64(payload)
	return in + "." + B64(k.SignInput(alg, in))
}

// HMACToken mints an HS token with the given secret.
func HMACToken(alg, kid string, secret []byte, c Claims) string {
	in := B64(MustJSON(map[string]interface{}{"alg": alg, "typ": "JWT", "kid": kid})) + "." + B64(MustJSON(c))
	m := hmac.New(hashFor(alg).New, secret)
	m.Write([]byte(in))
	return in + "." + B64(m.Sum(nil))
}

// MustJSON marshals or panics.
func MustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(fmt.Sprint(err))
	}
	return b
}
