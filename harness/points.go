package main

import (
	"math/big"
	"math/rand"
)

// refX2: x^2 of the point with the given y: (y^2-1)/(d*y^2+1).
func refX2(y *big.Int) *big.Int {
	y2 := new(big.Int).Mul(y, y)
	n := new(big.Int).Sub(y2, bigOne)
	d := new(big.Int).Mul(curveD, y2)
	d.Add(d, bigOne)
	d.Mod(d, fieldP)
	d.ModInverse(d, fieldP)
	n.Mul(n, d)
	return n.Mod(n, fieldP)
}

func isPoint(y *big.Int) bool {
	x2 := refX2(y)
	return x2.Sign() == 0 || big.Jacobi(x2, fieldP) == 1
}

// nonPoint is the canonical encoding of a y that no point has.
func nonPoint(r *rand.Rand) [32]byte {
	for {
		b := make([]byte, 32)
		r.Read(b)
		b[31] &= 127
		y := leInt(b)
		if y.Cmp(fieldP) < 0 && !isPoint(y) {
			if r.Intn(2) == 0 {
				b[31] |= 128
			}
			var out [32]byte
			copy(out[:], b)
			return out
		}
	}
}

// smallOrderEncodings are the canonical encodings of the points whose order
// divides 8.
func smallOrderEncodings() [][]byte {
	var out [][]byte
	add := func(y *big.Int, signs ...byte) {
		for _, s := range signs {
			b := leBytes(y)
			b[31] |= s << 7
			out = append(out, append([]byte(nil), b[:]...))
		}
	}
	add(big.NewInt(1), 0)                    // order 1
	add(new(big.Int).Sub(fieldP, bigOne), 0) // order 2
	add(big.NewInt(0), 0, 1)                 // order 4
	// Order 8: doubling gives y = 0, that is x^2 + y^2 = 0 with
	// -x^2 + y^2 = 1 + d x^2 y^2: y^2 = s with 2s = 1 - d s^2,
	// d s^2 + 2 s - 1 = 0, s = (-1 +- sqrt(1 + d)) / d.
	r := new(big.Int).ModSqrt(new(big.Int).Mod(new(big.Int).Add(bigOne, curveD), fieldP), fieldP)
	if r == nil {
		fatal("1+d has no root")
	}
	for _, sg := range []int64{1, -1} {
		s := new(big.Int).Mul(r, big.NewInt(sg))
		s.Sub(s, bigOne)
		s.Mod(s, fieldP)
		s.Mul(s, new(big.Int).ModInverse(curveD, fieldP))
		s.Mod(s, fieldP)
		y := new(big.Int).ModSqrt(s, fieldP)
		if y == nil {
			continue
		}
		for _, v := range []*big.Int{y, new(big.Int).Sub(fieldP, y)} {
			if isPoint(v) {
				add(v, 0, 1)
			}
		}
	}
	if len(out) != 8 {
		fatal("%d points of small order", len(out))
	}
	return out
}
