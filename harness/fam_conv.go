package main

import (
	"crypto/sha512"
	"encoding/hex"
	"math/big"
	"math/rand"
	"path/filepath"

	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/curve25519"
)

func init() {
	families["convpub"] = famConvPub
	families["convpair"] = famConvPair
}

func leInts(v *big.Int) []int {
	b := v.Bytes()
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return ints(b)
}

func le32(v *big.Int) []int {
	b := leBytes(v)
	return ints(b[:])
}

// modWitness: n = q p + r
func modWitness(n *big.Int) (Ev, *big.Int) {
	q, r := new(big.Int).DivMod(n, fieldP, new(big.Int))
	return Ev{"q": leInts(q), "r": le32(r)}, r
}

func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// curveWitness is the witness that the specification checks.
func curveWitness(y *big.Int, u []byte) Ev {
	w := Ev{}
	var y2, dy, x2 *big.Int
	w["y2"], y2 = modWitness(mul(y, y))
	w["dy"], dy = modWitness(mul(curveD, y2))
	yr := new(big.Int).Mod(y, fieldP)
	point := isPoint(yr)
	v := refX2(yr)
	f := int64(1)
	if !point {
		f = 2
		v = new(big.Int).Mod(mul(v, big.NewInt(2)), fieldP)
	}
	x := new(big.Int).ModSqrt(v, fieldP)
	if x == nil {
		fatal("no witness for %v", y)
	}
	w["x"] = le32(x)
	w["x2"], x2 = modWitness(mul(x, x))
	w["rhs"], _ = modWitness(mul(x2, add(dy, bigOne)))
	w["lhs"], _ = modWitness(mul(add(y2, sub(fieldP, bigOne)), big.NewInt(f)))
	w["point"] = point
	zero, _ := modWitness(new(big.Int))
	w["u1"], w["u2"] = zero, zero
	if u != nil {
		n := sub(add(add(fieldP, fieldP), bigOne), y)
		w["u1"], _ = modWitness(mul(leInt(u), n))
		w["u2"], _ = modWitness(add(y, bigOne))
	}
	return w
}

func isSmallOrder(b []byte) bool {
	y := refY(b)
	for _, e := range smallOrderEncodings() {
		if refY(e).Cmp(y) == 0 {
			return true
		}
	}
	return false
}

// specialY makes numbers that are unusual for arithmetic.
func specialY(kind string, i int, r *rand.Rand) []byte {
	var y *big.Int
	switch kind {
	case "low":
		y = big.NewInt(int64(i))
	case "high": // p - 1 - i
		y = sub(fieldP, big.NewInt(int64(i)+1))
	case "beyond": // p + i, up to 2^255 - 1
		y = add(fieldP, big.NewInt(int64(i)%19))
	case "power": // around powers of 2
		y = new(big.Int).Lsh(bigOne, uint(i/3)%255)
		y = add(y, big.NewInt(int64(i%3)-1))
	case "ones": // a run of ones
		a, b := uint(r.Intn(255)), uint(r.Intn(255))
		if a > b {
			a, b = b, a
		}
		y = sub(new(big.Int).Lsh(bigOne, b+1), new(big.Int).Lsh(bigOne, a))
	case "limbs": // limbs of 25 and 26 bits at their limits
		y = new(big.Int)
		for j := 9; j >= 0; j-- {
			bits := uint(26 - j%2)
			y.Lsh(y, bits)
			var v int64
			switch r.Intn(6) {
			case 0:
				v = 0
			case 1:
				v = 1<<bits - 1
			case 2:
				v = 1 << (bits - 1)
			case 3:
				v = 1<<(bits-1) - 1
			case 4:
				v = 1
			default:
				v = r.Int63n(1 << bits)
			}
			y.Add(y, big.NewInt(v))
		}
	case "edges": // limbs from -2^25 or -2^24 up at their limits
		y = new(big.Int)
		for j := 9; j >= 0; j-- {
			bits := uint(26 - j%2)
			y.Lsh(y, bits)
			y.Add(y, big.NewInt([]int64{0, -1, 1, 1 << (bits - 1), -1 << (bits - 1), 1<<(bits-1) - 1, 1 - 1<<(bits-1)}[r.Intn(7)]))
		}
		if i%3 == 0 {
			y = add(new(big.Int).Lsh(bigOne, 254), big.NewInt(int64(i/3%40)-20))
		}
	case "square": // y^2, or y^2 - 1, is special
		for {
			s := leInt(specialY([]string{"edges", "limbs", "ones", "power"}[i%4], r.Intn(765), r))
			if i/4%2 == 0 {
				s = add(s, bigOne)
			}
			if y = new(big.Int).ModSqrt(s.Mod(s, fieldP), fieldP); y != nil && (r.Intn(20) == 0 || isPoint(y)) {
				break
			}
		}
	case "inverse": // (1 - y) or (1 + y) is special
		s := leInt(specialY("limbs", i, r))
		y = sub(bigOne, s)
		if i%2 == 0 {
			y = sub(s, bigOne)
		}
	case "result": // u is special: y = (u - 1) / (u + 1)
		u := leInt(specialY([]string{"limbs", "ones", "low", "high", "power"}[i%5], i/5, r))
		u.Mod(u, fieldP)
		inv := new(big.Int).ModInverse(add(u, bigOne), fieldP)
		if inv == nil {
			inv = big.NewInt(3)
		}
		y = mul(sub(u, bigOne), inv)
	default:
		b := make([]byte, 32)
		r.Read(b)
		y = leInt(b)
	}
	if kind != "beyond" {
		y.Mod(y, fieldP)
	}
	b := leBytes(y)
	return b[:]
}

func famConvPub(c *Ctx) {
	var k struct {
		Kind string `json:"kind"`
		I    int    `json:"i"`
		Sign int    `json:"sign"`
		Hex  string `json:"hex"`
	}
	c.Parse(&k)
	b := specialY(k.Kind, k.I, c.Rng)
	if k.Hex != "" {
		b, _ = hex.DecodeString(k.Hex)
	}
	b[31] = b[31]&127 | byte(k.Sign<<7)
	payload := append([]byte("Ed12345678"), b...)
	p := filepath.Join(c.Dir, "k.pub")
	writeFile(p, refFile("x", payload), 0644)
	var u1, u2 *[32]byte
	var pub *signify.Public
	res := guard(func() (err error) {
		if pub, err = signify.LoadPublicKey(p); err != nil {
			return err
		}
		u1, err = pub.ToBox()
		return err
	})
	hang(res)
	e := Ev{"res": res.Class, "key": ints(b), "small": isSmallOrder(b), "u": []int{}, "again": true, "msg": res.Msg}
	if pub != nil {
		// Conversion does not change the key.
		r2 := guard(func() (err error) { u2, err = pub.ToBox(); return err })
		e["again"] = r2.Class == res.Class && (u1 == nil) == (u2 == nil) && (u1 == nil || *u1 == *u2)
	}
	y := append([]byte(nil), b...)
	y[31] &= 127
	var u []byte
	if u1 != nil && res.Class == "ok" {
		u = u1[:]
		e["u"] = ints(u)
	}
	e["w"] = curveWitness(leInt(y), u)
	c.Emit("pub", e)
}

// famConvPair converts a key pair.
func famConvPair(c *Ctx) {
	var k struct {
		Seed string `json:"seed"` // hexadecimal; random if empty
		Gen  bool   `json:"gen"`  // made by GenerateKeypair
		Prot bool   `json:"prot"`
	}
	c.Parse(&k)
	base := filepath.Join(c.Dir, "k")
	var pass []byte
	if k.Prot {
		pass = []byte("pw")
	}
	var priv *signify.Private
	var pub *signify.Public
	var s, u *[32]byte
	seed := make([]byte, 32)
	c.Rng.Read(seed)
	if k.Seed != "" {
		seed, _ = hex.DecodeString(k.Seed)
	}
	if k.Gen {
		res := guard(func() error {
			return signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1})
		})
		hang(res)
		if p := strictPayload(readFile(base+".sec"), 104); res.Class == "ok" && p != nil {
			_, m := unlocks(p, pass)
			copy(seed, m)
		}
	} else {
		kk := keyFromSeed(seed, []byte("abcdefgh"))
		rounds := 0
		if k.Prot {
			rounds = 1
		}
		writeFile(base+".sec", refFile("x", kk.secPayload(pass, rounds, seed[:16])), 0600)
		writeFile(base+".pub", refFile("x", kk.pubPayload()), 0644)
	}
	same := true
	res := guard(func() (err error) {
		setPrompt(pass, nil)
		if priv, err = signify.LoadPrivateKey(base + ".sec"); err != nil {
			return err
		}
		if pub, err = signify.LoadPublicKey(base + ".pub"); err != nil {
			return err
		}
		if s, err = priv.ToBox(); err != nil {
			return err
		}
		if u, err = pub.ToBox(); err != nil {
			return err
		}
		s2, u2 := *s, *u
		// What is returned is not part of the key.
		for i := range s {
			s[i], u[i] = 0xaa, 0x55
		}
		setPrompt(pass, nil)
		s3, err := priv.ToBox()
		if err != nil {
			return err
		}
		u3, err := pub.ToBox()
		if err != nil {
			return err
		}
		same = *s3 == s2 && *u3 == u2 && priv.Check() == nil
		s, u = &s2, &u2
		return nil
	})
	hang(res)
	e := Ev{"res": res.Class, "msg": res.Msg, "same": same, "s": []int{}, "u": []int{}, "su": []int{}}
	h := sha512.Sum512(seed)
	e["half"] = ints(h[:32])
	if res.Class == "ok" {
		var su [32]byte
		curve25519.ScalarBaseMult(&su, s)
		e["s"], e["u"], e["su"] = ints(s[:]), ints(u[:]), ints(su[:])
	}
	c.Emit("convert", e)
}
