// Package ref is the executable reference model: textbook arithmetic on
// math/big integers, affine curve formulas, schoolbook tower arithmetic, a
// naive Miller loop and the hash-to-curve draft the library follows. It shares
// no code with the library under test and aims at being obvious, not fast.
package ref

import (
	"fmt"
	"math/big"
)

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

// Field characteristic and group order of BLS12-381, and |x|.
var (
	P     = hexInt("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	R     = hexInt("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	X     = hexInt("d201000000010000")
	H1    = hexInt("396c8c005555e1568c00aaab0000aaab")
	H2    = hexInt("5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5")
	Zero  = big.NewInt(0)
	One   = big.NewInt(1)
	halfP = new(big.Int).Rsh(P, 1) // (p-1)/2
	pq4   = new(big.Int).Rsh(new(big.Int).Add(P, One), 2)
	Rinv  = new(big.Int).ModInverse(new(big.Int).Lsh(One, 384), P) // 2^-384 mod p
	RinvR = new(big.Int).ModInverse(new(big.Int).Lsh(One, 256), R) // 2^-256 mod r
)

// --- Fp ---

func Add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func Neg(a *big.Int) *big.Int    { return mod(new(big.Int).Neg(a)) }
func mod(a *big.Int) *big.Int    { return a.Mod(a, P) }

// Inv returns 1/a, or 0 for 0.
func Inv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, P)
}

// Sqrt returns a root of a mod p, or nil.
func Sqrt(a *big.Int) *big.Int {
	r := new(big.Int).Exp(a, pq4, P)
	if Mul(r, r).Cmp(a) != 0 {
		return nil
	}
	return r
}

// Larger reports whether a, in [0,p), is larger than -a mod p.
func Larger(a *big.Int) bool { return a.Cmp(halfP) > 0 }

// --- Fp2 = Fp[u]/(u^2+1) ---

type F2 struct{ A, B *big.Int }

func NewF2(a, b *big.Int) F2 { return F2{a, b} }
func F2i(a, b int64) F2 {
	return F2{mod(big.NewInt(a)), mod(big.NewInt(b))}
}

var (
	F2Zero = F2i(0, 0)
	F2One  = F2i(1, 0)
	Xi     = F2i(1, 1)
)

func (a F2) Add(b F2) F2  { return F2{Add(a.A, b.A), Add(a.B, b.B)} }
func (a F2) Sub(b F2) F2  { return F2{Sub(a.A, b.A), Sub(a.B, b.B)} }
func (a F2) Neg() F2      { return F2{Neg(a.A), Neg(a.B)} }
func (a F2) Conj() F2     { return F2{a.A, Neg(a.B)} }
func (a F2) IsZero() bool { return a.A.Sign() == 0 && a.B.Sign() == 0 }
func (a F2) Eq(b F2) bool { return a.A.Cmp(b.A) == 0 && a.B.Cmp(b.B) == 0 }
func (a F2) Mul(b F2) F2 {
	if a.B.Sign() == 0 && b.B.Sign() == 0 {
		return F2{Mul(a.A, b.A), new(big.Int)}
	}
	re := new(big.Int).Mul(a.A, b.A)
	re.Sub(re, new(big.Int).Mul(a.B, b.B))
	im := new(big.Int).Mul(a.A, b.B)
	im.Add(im, new(big.Int).Mul(a.B, b.A))
	return F2{mod(re), mod(im)}
}
func (a F2) Sq() F2 { return a.Mul(a) }
func (a F2) MulI(k int64) F2 {
	return a.Mul(F2i(k, 0))
}
func (a F2) Norm() *big.Int { return Add(Mul(a.A, a.A), Mul(a.B, a.B)) }
func (a F2) Inv() F2 {
	n := Inv(a.Norm())
	return F2{Mul(a.A, n), Neg(Mul(a.B, n))}
}
func (a F2) Exp(e *big.Int) F2 {
	r := F2One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Sq()
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

// Sqrt by the norm method.
func (a F2) Sqrt() (F2, bool) {
	if a.B.Sign() == 0 {
		if r := Sqrt(a.A); r != nil {
			return F2{r, new(big.Int)}, true
		}
		r := Sqrt(Neg(a.A)) // -1 is a non-residue
		return F2{new(big.Int), r}, true
	}
	n := Sqrt(a.Norm())
	if n == nil {
		return F2{}, false
	}
	half := Inv(big.NewInt(2))
	x := Sqrt(Mul(Add(a.A, n), half))
	if x == nil {
		x = Sqrt(Mul(Sub(a.A, n), half))
	}
	if x == nil {
		return F2{}, false
	}
	y := Mul(a.B, Inv(Add(x, x)))
	r := F2{x, y}
	if !r.Sq().Eq(a) {
		panic("ref: F2 sqrt")
	}
	return r, true
}

// Cmp orders by the u coefficient, then the constant one.
func (a F2) Cmp(b F2) int {
	if c := a.B.Cmp(b.B); c != 0 {
		return c
	}
	return a.A.Cmp(b.A)
}

// Larger reports whether a is larger than -a in that order.
func (a F2) Larger() bool { return a.Cmp(a.Neg()) > 0 }
func (a F2) String() string {
	return fmt.Sprintf("(%x,%x)", a.A, a.B)
}

// --- Fp6 = Fp2[v]/(v^3-xi) ---

type F6 [3]F2

func (a F6) Add(b F6) F6 { return F6{a[0].Add(b[0]), a[1].Add(b[1]), a[2].Add(b[2])} }
func (a F6) Sub(b F6) F6 { return F6{a[0].Sub(b[0]), a[1].Sub(b[1]), a[2].Sub(b[2])} }
func (a F6) Neg() F6     { return F6{a[0].Neg(), a[1].Neg(), a[2].Neg()} }
func (a F6) Eq(b F6) bool {
	return a[0].Eq(b[0]) && a[1].Eq(b[1]) && a[2].Eq(b[2])
}
func (a F6) IsZero() bool { return a[0].IsZero() && a[1].IsZero() && a[2].IsZero() }

var F6Zero = F6{F2Zero, F2Zero, F2Zero}
var F6One = F6{F2One, F2Zero, F2Zero}

// Mul is schoolbook.
func (a F6) Mul(b F6) F6 {
	r := F6Zero
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			t := a[i].Mul(b[j])
			k := i + j
			if k >= 3 {
				k -= 3
				t = t.Mul(Xi)
			}
			r[k] = r[k].Add(t)
		}
	}
	return r
}
func (a F6) Exp(e *big.Int) F6 {
	r := F6One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

// --- Fp12 = Fp2[w]/(w^6-xi); in the tower, v = w^2 ---

type F12 [6]F2

var F12One = F12{F2One, F2Zero, F2Zero, F2Zero, F2Zero, F2Zero}
var F12Zero = F12{F2Zero, F2Zero, F2Zero, F2Zero, F2Zero, F2Zero}

// FromTower builds a0 + a1*w.
func FromTower(a0, a1 F6) F12 {
	return F12{a0[0], a1[0], a0[1], a1[1], a0[2], a1[2]}
}

// Tower splits into a0 + a1*w.
func (a F12) Tower() (F6, F6) {
	return F6{a[0], a[2], a[4]}, F6{a[1], a[3], a[5]}
}
func (a F12) Mul(b F12) F12 {
	r := F12Zero
	for i := 0; i < 6; i++ {
		if a[i].IsZero() {
			continue
		}
		for j := 0; j < 6; j++ {
			if b[j].IsZero() {
				continue
			}
			t := a[i].Mul(b[j])
			k := i + j
			if k >= 6 {
				k -= 6
				t = t.Mul(Xi)
			}
			r[k] = r[k].Add(t)
		}
	}
	return r
}
func (a F12) Add(b F12) F12 {
	var r F12
	for i := range r {
		r[i] = a[i].Add(b[i])
	}
	return r
}
func (a F12) Sub(b F12) F12 {
	var r F12
	for i := range r {
		r[i] = a[i].Sub(b[i])
	}
	return r
}
func (a F12) Neg() F12 {
	var r F12
	for i := range r {
		r[i] = a[i].Neg()
	}
	return r
}
func (a F12) Eq(b F12) bool {
	for i := range a {
		if !a[i].Eq(b[i]) {
			return false
		}
	}
	return true
}
func (a F12) IsZero() bool { return a.Eq(F12Zero) }
func (a F12) Exp(e *big.Int) F12 {
	r := F12One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

// Conj is the p^6-power map (w -> -w).
func (a F12) Conj() F12 {
	r := a
	for i := 1; i < 6; i += 2 {
		r[i] = a[i].Neg()
	}
	return r
}

var frobGamma = func() [6]F2 { // xi^(i(p-1)/6)
	e := new(big.Int).Div(new(big.Int).Sub(P, One), big.NewInt(6))
	g := Xi.Exp(e)
	var r [6]F2
	r[0] = F2One
	for i := 1; i < 6; i++ {
		r[i] = r[i-1].Mul(g)
	}
	return r
}()

// Frob is a^(p^n).
func (a F12) Frob(n int) F12 {
	r := a
	for ; n > 0; n-- {
		for i := range r {
			r[i] = r[i].Conj().Mul(frobGamma[i])
		}
	}
	return r
}

// Inv is 1/a through the norm to Fp2 by Frobenius conjugates, 0 for 0.
func (a F12) Inv() F12 {
	// product of the other five conjugates over Fp2
	c := F12One
	for k := 2; k <= 10; k += 2 {
		c = c.Mul(a.Frob(k))
	}
	n := a.Mul(c) // in Fp2
	ni := n[0].Inv()
	var r F12
	for i := range r {
		r[i] = c[i].Mul(ni)
	}
	return r
}
func (a F6) Inv() F6 {
	r, _ := FromTower(a, F6Zero).Inv().Tower()
	return r
}
func (a F6) Frob(n int) F6 {
	r, _ := FromTower(a, F6Zero).Frob(n).Tower()
	return r
}
