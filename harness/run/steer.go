package main

import (
	"math/big"
	"math/bits"

	"verifharness/mon"
	"verifharness/ref"
)

// The word by word Montgomery reduction of a double-length number t adds, in
// round i, a multiple k of the modulus m that clears word i, and carries one
// word into t[i+w] on top of the carry left by the round before. Two carries
// meet there. That one of them propagates has probability 2^-64 for chosen
// operands that are merely random or extreme, so the operands are constructed:
// these functions run the same reduction and set the words of t so that the
// sum lands where it is wanted.

// redc is the state of such a reduction.
type redc struct {
	w    int
	m    []uint64
	minv uint64 // -1/m mod 2^64
}

func words(v *big.Int, n int) []uint64 {
	l := make([]uint64, n)
	t := new(big.Int).Set(v)
	lowBits := new(big.Int).SetUint64(^uint64(0))
	for i := range l {
		l[i] = new(big.Int).And(t, lowBits).Uint64()
		t.Rsh(t, 64)
	}
	return l
}

func newRedc(m *big.Int, w int) redc {
	inv := new(big.Int).ModInverse(m, pow2(64))
	inv.Sub(pow2(64), inv)
	return redc{w, words(m, w), inv.Uint64()}
}

var redcQ, redcR = newRedc(ref.P, 6), newRedc(ref.R, 4)

// round clears word i of t and returns the carry into word i+w, which is not
// yet added.
func (r redc) round(t []uint64, i int) uint64 {
	k := t[i] * r.minv
	var carry uint64
	for j := 0; j < r.w; j++ {
		hi, lo := bits.Mul64(k, r.m[j])
		var c uint64
		lo, c = bits.Add64(lo, t[i+j], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		t[i+j], carry = lo, hi
	}
	return carry
}

// target picks the word x for which x + carry lands on or beside an edge.
func target(c *mon.Rng, carry, over uint64) uint64 {
	switch c.Intn(6) {
	case 0, 1:
		return ^uint64(0) - carry // with the carry left over it wraps
	case 2:
		return ^uint64(0) - carry - over
	case 3:
		return -carry
	case 4:
		return ^uint64(0)
	}
	return c.Word()
}

// reduction builds a t below m * 2^(64w) with sums on the edges in as many
// rounds as possible, and reports how many rounds saw the carry left over
// meet an all-ones sum.
func reduction(c *mon.Rng, r redc) (*big.Int, int) {
	t := make([]uint64, 2*r.w)
	out := make([]uint64, 2*r.w)
	for i := 0; i < r.w; i++ {
		if t[i] = c.U64(); c.OneIn(4) {
			t[i] = c.Word()
		}
	}
	copy(out, t)
	var over uint64
	met := 0
	for i := 0; i < r.w; i++ {
		carry := r.round(t, i)
		x := target(c, carry, over)
		if i == r.w-1 {
			x = c.U64() % r.m[i] // t stays below m * 2^(64w)
		}
		out[i+r.w] = x
		s, c1 := bits.Add64(t[i+r.w]+x, carry, 0)
		if s == ^uint64(0) && over == 1 {
			met++
		}
		s, c2 := bits.Add64(s, over, 0)
		t[i+r.w], over = s, c1+c2
	}
	return fromLimbs(out), met
}

// carryProduct finds a and b below the modulus whose product meets, in round
// i > 0 of its reduction, a carry left over and a sum of all ones; in a third
// of the cases it is the word alone that is all ones.
func carryProduct(c *mon.Rng, r redc, i int) (a, b *big.Int, ok bool) {
	w := r.w
	top := r.m[w-1]
	A, B := make([]uint64, w), make([]uint64, w)
	word := c.OneIn(3)
	for try := 0; try < 4000; try++ {
		for j := range A {
			A[j], B[j] = 0, c.U64()
			if j > i {
				A[j] = c.U64()
			}
		}
		A[0] = 1
		A[w-1] %= top
		B[w-1] %= top
		A[i+1] |= 1
		if A[w-1] >= top {
			continue
		}
		// 1/A[i+1] mod 2^64
		inv := A[i+1]
		for n := 0; n < 6; n++ {
			inv *= 2 - A[i+1]*inv
		}
		for fix := 0; fix < 5; fix++ {
			t := make([]uint64, 2*w)
			for x := 0; x < w; x++ {
				var carry uint64
				for y := 0; y < w; y++ {
					hi, lo := bits.Mul64(A[x], B[y])
					var cc uint64
					lo, cc = bits.Add64(lo, t[x+y], 0)
					hi += cc
					lo, cc = bits.Add64(lo, carry, 0)
					hi += cc
					t[x+y], carry = lo, hi
				}
				t[x+w] = carry
			}
			var over uint64
			for n := 0; n < i; n++ {
				carry := r.round(t, n)
				s, c1 := bits.Add64(t[n+w], carry, 0)
				s, c2 := bits.Add64(s, over, 0)
				t[n+w], over = s, c1+c2
			}
			if over == 0 {
				break
			}
			carry := r.round(t, i)
			want := ^uint64(0) - carry
			if word {
				want = ^uint64(0)
			}
			if t[i+w] == want {
				return fromLimbs(A), fromLimbs(B), true
			}
			B[w-1] += (want - t[i+w]) * inv
			if B[w-1] >= top {
				break
			}
		}
	}
	return nil, nil, false
}
