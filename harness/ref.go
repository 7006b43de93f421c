package main

// The reference implementation of the formats: independent of the code under
// test, it uses only the cryptographic libraries.

import (
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/ed25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

func refB64(b []byte) []byte {
	return []byte(stdb64.StdEncoding.EncodeToString(b))
}

// breakText inserts line breaks: brk is a list of line lengths, repeated.
func breakText(t []byte, brk []int) []byte {
	if len(brk) == 0 {
		return append([]byte(nil), t...)
	}
	var out []byte
	i, zeros := 0, 0
	for len(t) > 0 {
		n := brk[i%len(brk)]
		i++
		if n == 0 {
			if zeros++; zeros > 3 {
				n = 1
			}
		} else {
			zeros = 0
		}
		if n > len(t) {
			n = len(t)
		}
		out = append(out, t[:n]...)
		out = append(out, '\n')
		t = t[n:]
	}
	return out
}

// ---- keys ------------------------------------------------------------------

type refKey struct {
	seed [32]byte
	priv [64]byte
	pub  [32]byte
	num  [8]byte
}

func keyFromSeed(seed []byte, num []byte) *refKey {
	k := &refKey{}
	copy(k.seed[:], seed)
	p := ed25519.NewKeyFromSeed(seed)
	copy(k.priv[:], p)
	copy(k.pub[:], p[32:])
	copy(k.num[:], num)
	return k
}

func newKey(r io.Reader) *refKey {
	b := make([]byte, 40)
	if _, err := io.ReadFull(r, b); err != nil {
		fatal("%v", err)
	}
	// Key numbers may begin or end with anything.
	num := b[32:]
	if b[1]%3 == 0 {
		v := oddBytes[int(num[7])%len(oddBytes)]
		for i := byte(0); i < 1+num[6]%4; i++ {
			if num[5]%2 == 0 {
				num[i] = v
			} else {
				num[7-i] = v
			}
		}
	}
	return keyFromSeed(b[:32], num)
}

var oddBytes = []byte("\x00\x00 \n\r\t=.-+/\\\"'%\x0b\x0c\x1a\x1b\x7f\x80\x85\xa0\xffEdBKeb01ioOl,;:#@!*\x01\xc2\xe2\xef")

func (k *refKey) pubPayload() []byte {
	return append(append([]byte("Ed"), k.num[:]...), k.pub[:]...)
}

// secPayload is the secret key record; it is masked if rounds > 0.
func (k *refKey) secPayload(pass []byte, rounds int, salt []byte) []byte {
	b := []byte("EdBK")
	b = append(b, byte(rounds>>24), byte(rounds>>16), byte(rounds>>8), byte(rounds))
	b = append(b, salt[:16]...)
	sum := sha512.Sum512(k.priv[:])
	b = append(b, sum[:8]...)
	b = append(b, k.num[:]...)
	key := append([]byte(nil), k.priv[:]...)
	if rounds > 0 {
		mask := refKDF(pass, salt[:16], rounds)
		for i := range key {
			key[i] ^= mask[i]
		}
	}
	return append(b, key...)
}

var kdfCache sync.Map

func refKDF(pass, salt []byte, rounds int) []byte {
	id := fmt.Sprintf("%x/%x/%d", pass, salt, rounds)
	if v, ok := kdfCache.Load(id); ok {
		return v.([]byte)
	}
	m, err := bcrypt_pbkdf.Key(pass, salt, rounds, 64)
	if err != nil {
		return nil
	}
	kdfCache.Store(id, m)
	return m
}

func (k *refKey) sigPayload(msg []byte) []byte {
	s := ed25519.Sign(ed25519.PrivateKey(k.priv[:]), msg)
	return append(append([]byte("Ed"), k.num[:]...), s...)
}

func refFile(comment string, payload []byte) []byte {
	return []byte("untrusted comment: " + comment + "\n" + string(refB64(payload)) + "\n")
}

// ---- conversion to Curve25519 ----------------------------------------------

var (
	fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	bigOne    = big.NewInt(1)
	curveD    = func() *big.Int { // -121665/121666
		d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, fieldP)
	}()
)

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func leBytes(v *big.Int) [32]byte {
	var out [32]byte
	b := v.Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// refYBytes: y of an encoded point, as a reduced number.
func refY(pub []byte) *big.Int {
	b := append([]byte(nil), pub...)
	b[31] &= 127
	y := leInt(b)
	return y.Mod(y, fieldP)
}

func refBoxPub(pub []byte) [32]byte {
	y := refY(pub)
	n := new(big.Int).Add(bigOne, y)
	d := new(big.Int).Sub(bigOne, y)
	d.Mod(d, fieldP)
	if d.Sign() == 0 {
		return [32]byte{}
	}
	d.ModInverse(d, fieldP)
	n.Mul(n, d)
	n.Mod(n, fieldP)
	return leBytes(n)
}

func refBoxPriv(seed []byte) [32]byte {
	h := sha512.Sum512(seed)
	var out [32]byte
	copy(out[:], h[:32])
	out[0] &= 248
	out[31] &= 127
	out[31] |= 64
	return out
}

// ---- sealed files ------------------------------------------------------------

const (
	refChunk  = 16385
	refSealed = refChunk + 16
)

func refNonce(i uint64) *[24]byte {
	var n [24]byte
	binary.BigEndian.PutUint64(n[16:], i)
	return &n
}

type refCipher struct {
	header [72]byte
	chunks [][]byte
}

func (c *refCipher) bytes() []byte {
	out := append([]byte(nil), c.header[:]...)
	for _, ch := range c.chunks {
		out = append(out, ch...)
	}
	return out
}

func refShared(k *refKey, eph []byte) [32]byte {
	priv := refBoxPriv(k.seed[:])
	var e, s [32]byte
	copy(e[:], eph)
	box.Precompute(&s, &e, &priv)
	return s
}

func refSealMsg(pub []byte, msg []byte, r io.Reader) *refCipher {
	c := &refCipher{}
	epub, epriv, err := box.GenerateKey(r)
	if err != nil {
		fatal("%v", err)
	}
	var shared [32]byte
	bp := refBoxPub(pub)
	box.Precompute(&shared, &bp, epriv)
	n := (len(msg) + refChunk - 1) / refChunk
	binary.BigEndian.PutUint64(c.header[:8], uint64(n))
	copy(c.header[8:40], epub[:])
	tag := auth.Sum(c.header[:40], &shared)
	copy(c.header[40:], tag[:])
	for i := 0; i < n; i++ {
		end := (i + 1) * refChunk
		if end > len(msg) {
			end = len(msg)
		}
		c.chunks = append(c.chunks, box.SealAfterPrecomputation(nil, msg[i*refChunk:end], refNonce(uint64(i)), &shared))
	}
	return c
}

const encComment = "untrusted comment: psignify encrypted file\n"

func refEncText(raw []byte, width int) []byte {
	t := refB64(raw)
	if width <= 0 {
		return append(t, '\n')
	}
	out := breakText(t, []int{width})
	if len(raw) == 0 {
		return []byte("\n")
	}
	return out
}

func refEncFile(raw []byte) []byte {
	return append([]byte(encComment), refEncText(raw, 72)...)
}
