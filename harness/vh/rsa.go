package vh

import (
	"crypto/rand"
	"crypto/rsa"
	"math/big"
)

// NewKeyE generates a key of the given size and public exponent.
func NewKeyE(kid string, bits, e int) *Key {
	one := big.NewInt(1)
	be := big.NewInt(int64(e))
	for {
		p, err := rand.Prime(rand.Reader, bits/2)
		if err != nil {
			panic(err)
		}
		q, err := rand.Prime(rand.Reader, bits-bits/2)
		if err != nil {
			panic(err)
		}
		n := new(big.Int).Mul(p, q)
		if p.Cmp(q) == 0 || n.BitLen() != bits {
			continue
		}
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(be, phi)
		if d == nil {
			continue
		}
		k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: e}, D: d, Primes: []*big.Int{p, q}}
		k.Precompute()
		if k.Validate() != nil {
			continue
		}
		return &Key{Kid: kid, Priv: k}
	}
}
