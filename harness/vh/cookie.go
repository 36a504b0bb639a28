package vh

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/gob"
	"fmt"
	"strconv"
	"time"

	"gopkg.in/mgo.v2/bson"
)

// Cookie keys of a world.
const (
	HashKey  = "0123456789abcdef0123456789abcdef"
	BlockKey = "fedcba9876543210"
)

// StateCookie is the content of a state cookie.
type StateCookie struct {
	TS    int64 // when it was sealed
	Value string
	Exp   time.Time
}

type oidcCookie struct {
	Value      string
	Expiration time.Time
}

func seal(name string, ts int64, inner []byte, hash, block string) string {
	var buf bytes.Buffer
	gob.NewEncoder(&buf).Encode(inner)
	b := buf.Bytes()
	if block != "" {
		bl, err := aes.NewCipher([]byte(block))
		if err != nil {
			panic(err)
		}
		iv := make([]byte, bl.BlockSize())
		rand.Read(iv)
		ct := make([]byte, len(b))
		cipher.NewCTR(bl, iv).XORKeyStream(ct, b)
		b = append(iv, ct...)
	}
	v := base64.URLEncoding.EncodeToString(b)
	m := hmac.New(sha256.New, []byte(hash))
	fmt.Fprintf(m, "%s|%d|%s", name, ts, v)
	out := append([]byte(fmt.Sprintf("%d|%s|", ts, v)), m.Sum(nil)...)
	return base64.URLEncoding.EncodeToString(out)
}

// SealState writes a state cookie as the adapter does.
func SealState(name string, c StateCookie, hash, block string) string {
	inner, err := bson.Marshal(&oidcCookie{c.Value, c.Exp})
	if err != nil {
		panic(err)
	}
	return seal(name, c.TS, inner, hash, block)
}

// OpenState reads a state cookie; it fails where the adapter uses another format.
func OpenState(name, value, hash, block string) (c StateCookie, err error) {
	b, err := base64.URLEncoding.DecodeString(value)
	if err != nil {
		return c, err
	}
	parts := bytes.SplitN(b, []byte("|"), 3)
	if len(parts) != 3 {
		return c, fmt.Errorf("%d parts", len(parts))
	}
	m := hmac.New(sha256.New, []byte(hash))
	fmt.Fprintf(m, "%s|%s|%s", name, parts[0], parts[1])
	if !hmac.Equal(m.Sum(nil), parts[2]) {
		return c, fmt.Errorf("mac differs")
	}
	if c.TS, err = strconv.ParseInt(string(parts[0]), 10, 64); err != nil {
		return c, err
	}
	v, err := base64.URLEncoding.DecodeString(string(parts[1]))
	if err != nil || len(v) < 16 {
		return c, fmt.Errorf("bad value")
	}
	bl, err := aes.NewCipher([]byte(block))
	if err != nil {
		return c, err
	}
	pt := make([]byte, len(v)-16)
	cipher.NewCTR(bl, v[:16]).XORKeyStream(pt, v[16:])
	var inner []byte
	if err := gob.NewDecoder(bytes.NewReader(pt)).Decode(&inner); err != nil {
		return c, err
	}
	var o oidcCookie
	if err := bson.Unmarshal(inner, &o); err != nil {
		return c, err
	}
	c.Value, c.Exp = o.Value, o.Expiration
	return c, nil
}
