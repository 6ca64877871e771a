package main

// C11: the prime fields. C12: the extension tower. C13: integers. C14: limb
// primitives. Oracle: math/big.

import (
	"bytes"
	"hash"
	"math/big"

	bls "github.com/phoreproject/bls"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C23"] = func(c *C) { // on a build with freshly generated assembly
		c14(c)
		c.Count("generated primitives", 1)
		c.Scale /= 10
		c11(c)
	}
}

// partner picks a second operand related to the first one.
func partner(c *mon.Rng, a, m *big.Int, gen func(*mon.Rng) *big.Int, specials []*big.Int) *big.Int {
	b := new(big.Int)
	switch c.Intn(9) {
	case 0:
		return a
	case 1: // a + b on a boundary
		b.Sub(specials[c.Intn(len(specials))], a)
	case 2: // a * b on a boundary
		if a.Sign() == 0 {
			return gen(c)
		}
		b.ModInverse(a, m)
		b.Mul(b, specials[c.Intn(len(specials))])
	case 3: // a - b on a boundary
		b.Sub(a, specials[c.Intn(len(specials))])
	case 4:
		b.Neg(a)
	case 5: // neighbours
		b.Add(a, bi(int64(c.Between(-2, 2))))
	default:
		return gen(c)
	}
	return b.Mod(b, m)
}

type fixedHash struct{ sum []byte }

func (h fixedHash) Write(p []byte) (int, error) { return len(p), nil }
func (h fixedHash) Sum(b []byte) []byte         { return append(b, h.sum...) }
func (h fixedHash) Reset()                      {}
func (h fixedHash) Size() int                   { return len(h.sum) }
func (h fixedHash) BlockSize() int              { return 64 }

var _ hash.Hash = fixedHash{}

// bytesNumber reads bytes in the order MulBytes consumes them: first byte most
// significant, bits inside a byte reversed.
func bytesNumber(b []byte) *big.Int {
	v := new(big.Int)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			v.Lsh(v, 1)
			if x>>i&1 == 1 {
				v.SetBit(v, 0, 1)
			}
		}
	}
	return v
}

func c11(c *C) {
	// checkQ: the element must be the canonical one of value v
	checkQ := func(got bls.FQ, v *big.Int, what string) {
		if g := ofq(got); g.Cmp(v) != 0 {
			c.Fail("FQ %s gave %v, want %v", what, g, v)
		}
		c.Check(got.IsValid() && got.Equals(fq(v)), "FQ %s: the result %v is not in canonical form", what, v)
	}
	checkR := func(got *bls.FR, v *big.Int, what string) {
		if got == nil {
			c.Fail("FR %s gave nil, want %v", what, v)
			return
		}
		if g := ofr(got); g.Cmp(v) != 0 {
			c.Fail("FR %s gave %v, want %v", what, g, v)
		}
		c.Check(got.IsValid() && got.Equals(fr(v)), "FR %s: the result %v is not in canonical form", what, v)
	}
	mod := func(v, m *big.Int) *big.Int { return v.Mod(v, m) }
	leg := func(a, m *big.Int) bls.LegendreSymbol {
		switch big.Jacobi(a, m) {
		case 0:
			return bls.LegendreZero
		case 1:
			return bls.LegendreQuadraticResidue
		}
		return bls.LegendreQuadraticNonResidue
	}
	cmpWant := func(a, b *big.Int) int { return a.Cmp(b) }
	R384 := pow2(384)
	R384inv := ref.Rinv
	_ = R384

	pairQ := func(a, b *big.Int) {
		c.Case("FQ add/sub/mul/square/double/neg/cmp", a, b)
		A, B := fq(a), fq(b)
		checkQ(A, a, "conversion")
		x := A.Copy()
		x.AddAssign(B)
		checkQ(x, mod(new(big.Int).Add(a, b), ref.P), "+")
		x = A.Copy()
		x.SubAssign(B)
		checkQ(x, mod(new(big.Int).Sub(a, b), ref.P), "-")
		x = A.Copy()
		x.MulAssign(B)
		checkQ(x, mod(new(big.Int).Mul(a, b), ref.P), "*")
		x = A.Copy()
		x.SquareAssign()
		checkQ(x, mod(new(big.Int).Mul(a, a), ref.P), "square")
		x = A.Copy()
		x.DoubleAssign()
		checkQ(x, mod(new(big.Int).Add(a, a), ref.P), "double")
		x = A.Copy()
		x.NegAssign()
		checkQ(x, ref.Neg(a), "negate")
		c.Check(A.Cmp(B) == cmpWant(a, b), "FQ Cmp of %v and %v gave %d", a, b, A.Cmp(B))
		c.Check(A.Equals(B) == (a.Cmp(b) == 0), "FQ Equals of %v and %v", a, b)
		c.Check(A.IsZero() == (a.Sign() == 0), "FQ IsZero of %v", a)
		c.Check(A.Parity() == ref.Larger(a), "FQ Parity of %v", a)
		checkQ(A, a, "operand after use")
		checkQ(B, b, "operand after use")
	}
	slowQ := func(a, b, e *big.Int) {
		c.Case("FQ inverse/div/exp/sqrt/legendre/mulbits", a, b, e)
		A, B := fq(a), fq(b)
		inv, ok := A.Inverse()
		if c.Check(ok == (a.Sign() != 0), "FQ Inverse of %v reported %v", a, ok); ok {
			checkQ(inv, ref.Inv(a), "inverse")
		}
		if b.Sign() != 0 {
			x := A.Copy()
			x.DivAssign(B)
			checkQ(x, ref.Mul(a, ref.Inv(b)), "/")
		}
		checkQ(A.Exp(qrep(e)), new(big.Int).Exp(a, e, ref.P), "exponentiation")
		l := A.Legendre()
		c.Check(l == leg(a, ref.P), "FQ Legendre of %v gave %d", a, l)
		s, ok := A.Sqrt()
		want := big.Jacobi(a, ref.P) >= 0
		if c.Check(ok == want, "FQ Sqrt of %v reported %v", a, ok); ok {
			v := ofq(s)
			c.Check(ref.Mul(v, v).Cmp(a) == 0 && s.IsValid(), "FQ Sqrt of %v gave %v", a, v)
		}
		r := qrep(e)
		checkQ(A.MulBits(&r), mod(new(big.Int).Mul(a, e), ref.P), "MulBits")
	}
	pairR := func(a, b *big.Int) {
		c.Case("FR add/sub/mul/square/double/neg/cmp", a, b)
		A, B := fr(a), fr(b)
		checkR(A, a, "conversion")
		x := A.Copy()
		x.AddAssign(B)
		checkR(x, mod(new(big.Int).Add(a, b), ref.R), "+")
		x = A.Copy()
		x.SubAssign(B)
		checkR(x, mod(new(big.Int).Sub(a, b), ref.R), "-")
		x = A.Copy()
		x.MulAssign(B)
		checkR(x, mod(new(big.Int).Mul(a, b), ref.R), "*")
		x = A.Copy()
		x.SquareAssign()
		checkR(x, mod(new(big.Int).Mul(a, a), ref.R), "square")
		x = A.Copy()
		x.DoubleAssign()
		checkR(x, mod(new(big.Int).Add(a, a), ref.R), "double")
		x = A.Copy()
		x.NegAssign()
		checkR(x, mod(new(big.Int).Neg(a), ref.R), "negate")
		// an element combined with itself
		x = A.Copy()
		x.AddAssign(x)
		checkR(x, mod(new(big.Int).Add(a, a), ref.R), "x+x")
		x = A.Copy()
		x.SubAssign(x)
		checkR(x, new(big.Int), "x-x")
		x = A.Copy()
		x.MulAssign(x)
		checkR(x, mod(new(big.Int).Mul(a, a), ref.R), "x*x")
		c.Check(A.Cmp(B) == cmpWant(a, b), "FR Cmp of %v and %v gave %d", a, b, A.Cmp(B))
		c.Check(A.Equals(B) == (a.Cmp(b) == 0), "FR Equals of %v and %v", a, b)
		c.Check(A.IsZero() == (a.Sign() == 0), "FR IsZero of %v", a)
		c.Check(A.Parity() == (a.Cmp(new(big.Int).Rsh(ref.R, 1)) > 0), "FR Parity of %v", a)
		by := A.Bytes()
		c.Check(new(big.Int).SetBytes(by[:]).Cmp(a) == 0, "FR Bytes of %v gave %v", a, by[:])
		checkR(A, a, "operand after use")
		checkR(B, b, "operand after use")
	}
	slowR := func(a, b, e *big.Int) {
		c.Case("FR inverse/exp/sqrt/legendre/mulbits", a, b, e)
		A := fr(a)
		inv := A.Inverse()
		if a.Sign() == 0 {
			c.Check(inv == nil, "FR Inverse of zero gave %v", inv)
		} else {
			checkR(inv, new(big.Int).ModInverse(a, ref.R), "inverse")
		}
		checkR(A.Exp(rrep(e)), new(big.Int).Exp(a, e, ref.R), "exponentiation")
		l := A.Legendre()
		c.Check(l == leg(a, ref.R), "FR Legendre of %v gave %d", a, l)
		checkR(A.MulBits(rrep(e)), mod(new(big.Int).Mul(a, e), ref.R), "MulBits")
		s := A.Sqrt()
		if big.Jacobi(a, ref.R) < 0 {
			c.Check(s == nil, "FR Sqrt of the non-residue %v gave a value", a)
		} else if c.Check(s != nil, "FR Sqrt of the residue %v gave nil", a) {
			v := ofr(s)
			c.Check(mod(new(big.Int).Mul(v, v), ref.R).Cmp(a) == 0 && s.IsValid(), "FR Sqrt of %v gave %v", a, v)
		}
		checkR(A, a, "operand after use")
	}

	// every pair of the sharpest values, then every special value in the slow
	// operations, then random ones
	core := append([]*big.Int{}, fpSpecials[:72]...)
	coreR := append([]*big.Int{}, frSpecials[:72]...)
	k := 0
	for _, a := range core {
		for _, b := range core {
			if k++; c.Mine(k) {
				pairQ(a, b)
			}
		}
	}
	for _, a := range coreR {
		for _, b := range coreR {
			if k++; c.Mine(k) {
				pairR(a, b)
			}
		}
	}
	for i, a := range fpSpecials {
		if c.Mine(i) && (c.Tier != "quick" || c.Scale >= 1 || c.OneIn(3)) {
			pairQ(a, partner(c.Rng, a, ref.P, fp, fpSpecials))
			slowQ(a, fp(c.Rng), scalar(c.Rng, 384))
		}
	}
	for i, a := range frSpecials {
		if c.Mine(i) && (c.Tier != "quick" || c.Scale >= 1 || c.OneIn(3)) {
			pairR(a, partner(c.Rng, a, ref.R, frv, frSpecials))
			slowR(a, frv(c.Rng), scalar(c.Rng, 256))
		}
	}
	for i := c.N(500000); i > 0; i-- {
		a := fp(c.Rng)
		pairQ(a, partner(c.Rng, a, ref.P, fp, fpSpecials))
		a = frv(c.Rng)
		pairR(a, partner(c.Rng, a, ref.R, frv, frSpecials))
	}
	// operands whose product meets two carries in one round of its reduction
	// (a and b are the Montgomery forms)
	for i := c.N(4000); i > 0; i-- {
		if a, b, ok := carryProduct(c.Rng, redcQ, c.Between(1, 4)); ok {
			pairQ(ref.Mul(a, ref.Rinv), ref.Mul(b, ref.Rinv))
			c.Count("constructed carries in FQ", 1)
		}
		if a, b, ok := carryProduct(c.Rng, redcR, c.Between(1, 2)); ok {
			a.Mul(a, ref.RinvR)
			b.Mul(b, ref.RinvR)
			pairR(a.Mod(a, ref.R), b.Mod(b, ref.R))
			c.Count("constructed carries in FR", 1)
		}
	}
	for i := c.N(40000); i > 0; i-- {
		a := fp(c.Rng)
		if c.Bool() {
			a = ref.Mul(a, a)
		}
		slowQ(a, partner(c.Rng, a, ref.P, fp, fpSpecials), scalar(c.Rng, 384))
		a = frv(c.Rng)
		if c.Bool() {
			a = mod(new(big.Int).Mul(a, a), ref.R)
		}
		slowR(a, frv(c.Rng), scalar(c.Rng, 256))
	}
	// squares of elements of 2-power order: the long loop of the square root in FR
	z := new(big.Int).Exp(bi(7), new(big.Int).Rsh(subInt(ref.R, 1), 32), ref.R)
	for i := 0; i <= 32; i++ {
		if c.Mine(i) {
			v := new(big.Int).Exp(z, pow2(uint(i)), ref.R)
			slowR(v, v, bi(3))
			slowR(mod(new(big.Int).Mul(v, bi(25)), ref.R), v, bi(0))
		}
	}
	// Montgomery-form limbs given directly
	for i := c.N(100000); i > 0; i-- {
		n := mod(c.Limbs(6), ref.P)
		v := ref.Mul(n, R384inv)
		c.Case("FQ from raw Montgomery limbs", n)
		raw := bls.FQReprToFQRaw(qrep(n))
		c.Check(raw.IsValid(), "FQ %v is reported invalid", n)
		checkQ(raw, v, "raw conversion")
		raw.SquareAssign()
		checkQ(raw, ref.Mul(v, v), "raw square")
	}
	for i := c.N(4000); i > 0; i-- {
		b := message(c.Rng, -1)
		if len(b) > 100 {
			b = b[:100]
		}
		a, s := fp(c.Rng), frv(c.Rng)
		n := bytesNumber(b)
		c.Case("MulBytes/HashFQ/HashFR/HashFQ2", b, a, s)
		checkQ(fq(a).MulBytes(b), mod(new(big.Int).Mul(a, n), ref.P), "MulBytes")
		checkR(fr(s).MulBytes(b), mod(new(big.Int).Mul(s, n), ref.R), "MulBytes")
		checkQ(bls.HashFQ(fixedHash{b}), mod(new(big.Int).Set(n), ref.P), "HashFQ")
		checkR(bls.HashFR(fixedHash{b}), mod(new(big.Int).Set(n), ref.R), "HashFR")
	}
	// conversion of out-of-range integers
	for i := c.N(20000); i > 0; i-- {
		v := c.Limbs(4)
		if c.OneIn(4) {
			v.Add(ref.R, bi(int64(c.Between(-5, 5))))
		}
		c.Case("FR conversion at the edge of the range", v)
		r := rrep(v)
		f := bls.FRReprToFR(r)
		if v.Cmp(ref.R) >= 0 {
			c.Check(f == nil, "FRReprToFR accepted %v, which is not less than the modulus", v)
		} else {
			checkR(f, v, "conversion")
		}
		c.Check(bigR(r).Cmp(v) == 0, "FRReprToFR changed its argument %v", v)
	}
}

func c12(c *C) {
	check2 := func(got bls.FQ2, v ref.F2, what string) {
		if g := ofq2(got); !g.Eq(v) {
			c.Fail("FQ2 %s gave %v, want %v", what, g, v)
		}
		c.Check(got.Equals(fq2(v)), "FQ2 %s: %v is not in canonical form", what, v)
	}
	check6 := func(got *bls.FQ6, v ref.F6, what string) {
		if g := ofq6(got); !g.Eq(v) {
			c.Fail("FQ6 %s gave %v, want %v", what, g, v)
		}
		c.Check(got.Equals(fq6(v)), "FQ6 %s: %v is not in canonical form", what, v)
	}
	check12 := func(got *bls.FQ12, v ref.F12, what string) {
		if g := ofq12(got); !g.Eq(v) {
			c.Fail("FQ12 %s gave %v, want %v", what, g, v)
		}
		c.Check(got.Equals(fq12(v)), "FQ12 %s: %v is not in canonical form", what, v)
	}
	do2 := func(a, b ref.F2) {
		c.Case("FQ2 operations", a.A, a.B, b.A, b.B)
		A, B := fq2(a), fq2(b)
		op := func(f func(x *bls.FQ2)) bls.FQ2 { x := A.Copy(); f(&x); return x }
		check2(op(func(x *bls.FQ2) { x.AddAssign(B) }), a.Add(b), "+")
		check2(op(func(x *bls.FQ2) { x.SubAssign(B) }), a.Sub(b), "-")
		check2(op(func(x *bls.FQ2) { x.MulAssign(B) }), a.Mul(b), "*")
		check2(op(func(x *bls.FQ2) { x.SquareAssign() }), a.Sq(), "square")
		check2(op(func(x *bls.FQ2) { x.DoubleAssign() }), a.Add(a), "double")
		check2(op(func(x *bls.FQ2) { x.NegAssign() }), a.Neg(), "negate")
		check2(op(func(x *bls.FQ2) { x.MultiplyByNonresidueAssign() }), a.Mul(ref.Xi), "times 1+u")
		check2(op(func(x *bls.FQ2) { x.AddAssign(*x) }), a.Add(a), "x+x")
		check2(op(func(x *bls.FQ2) { x.SubAssign(*x) }), ref.F2Zero, "x-x")
		check2(op(func(x *bls.FQ2) { x.MulAssign(*x) }), a.Sq(), "x*x")
		n := A.Norm()
		c.Check(ofq(n).Cmp(a.Norm()) == 0, "FQ2 Norm of %v", a)
		c.Check(A.Cmp(B) == a.Cmp(b), "FQ2 Cmp of %v and %v gave %d", a, b, A.Cmp(B))
		c.Check(A.Equals(B) == a.Eq(b), "FQ2 Equals of %v and %v", a, b)
		c.Check(A.IsZero() == a.IsZero(), "FQ2 IsZero of %v", a)
		c.Check(A.Parity() == a.Larger(), "FQ2 Parity of %v", a)
		pow := c.Intn(256)
		if c.Bool() {
			pow = c.Intn(5)
		}
		want := a
		if pow%2 == 1 {
			want = a.Conj()
		}
		check2(op(func(x *bls.FQ2) { x.FrobeniusMapAssign(uint8(pow)) }), want, "Frobenius")
		check2(A, a, "operand after use")
		check2(B, b, "operand after use")
	}
	slow2 := func(a, b ref.F2, e *big.Int) {
		c.Case("FQ2 inverse/div/exp/sqrt/legendre", a.A, a.B, b.A, b.B, e)
		A := fq2(a)
		x := A.Copy()
		ok := x.InverseAssign()
		if c.Check(ok == !a.IsZero(), "FQ2 inverse of %v reported %v", a, ok); ok {
			check2(x, a.Inv(), "inverse")
		}
		if !b.IsZero() {
			x = A.Copy()
			x.DivAssign(fq2(b))
			check2(x, a.Mul(b.Inv()), "/")
		}
		check2(A.Exp(qrep(e)), a.Exp(e), "exponentiation")
		be := new(big.Int).Set(e)
		if c.Bool() {
			be.Mul(be, c.Limbs(c.Between(1, 8)))
		}
		k := ref.F2{A: new(big.Int).Mod(be, ref.P), B: new(big.Int)}
		check2(A.MulBits(be), a.Mul(k), "MulBits")
		_, square := a.Sqrt()
		l := A.Legendre()
		wl := bls.LegendreQuadraticNonResidue
		if a.IsZero() {
			wl = bls.LegendreZero
		} else if square {
			wl = bls.LegendreQuadraticResidue
		}
		c.Check(l == wl, "FQ2 Legendre of %v gave %d", a, l)
		s, ok := A.Sqrt()
		if c.Check(ok == square, "FQ2 Sqrt of %v reported %v", a, ok); ok {
			v := ofq2(s)
			c.Check(v.Sq().Eq(a), "FQ2 Sqrt of %v gave %v", a, v)
		}
	}
	exp6 := false
	do6 := func(a, b ref.F6) {
		args := []any{}
		for i := range a {
			args = append(args, a[i].A, a[i].B, b[i].A, b[i].B)
		}
		c.Case("FQ6 operations", args...)
		A, B := fq6(a), fq6(b)
		op := func(f func(x *bls.FQ6)) *bls.FQ6 { x := A.Copy(); f(x); return x }
		v := ref.F6{ref.F2Zero, ref.F2One, ref.F2Zero}
		check6(op(func(x *bls.FQ6) { x.AddAssign(B) }), a.Add(b), "+")
		check6(op(func(x *bls.FQ6) { x.SubAssign(B) }), a.Sub(b), "-")
		check6(op(func(x *bls.FQ6) { x.MulAssign(B) }), a.Mul(b), "*")
		check6(op(func(x *bls.FQ6) { x.SquareAssign() }), a.Mul(a), "square")
		check6(op(func(x *bls.FQ6) { x.DoubleAssign() }), a.Add(a), "double")
		check6(op(func(x *bls.FQ6) { x.NegAssign() }), a.Neg(), "negate")
		check6(op(func(x *bls.FQ6) { x.MulByNonresidueAssign() }), a.Mul(v), "times v")
		check6(op(func(x *bls.FQ6) { x.MulBy1Assign(fq2(b[1])) }), a.Mul(ref.F6{ref.F2Zero, b[1], ref.F2Zero}), "MulBy1")
		check6(op(func(x *bls.FQ6) { x.MulBy01Assign(fq2(b[0]), fq2(b[1])) }), a.Mul(ref.F6{b[0], b[1], ref.F2Zero}), "MulBy01")
		check6(op(func(x *bls.FQ6) { x.AddAssign(x) }), a.Add(a), "x+x")
		check6(op(func(x *bls.FQ6) { x.SubAssign(x) }), ref.F6Zero, "x-x")
		check6(op(func(x *bls.FQ6) { x.MulAssign(x) }), a.Mul(a), "x*x")
		pow := c.Intn(256)
		if c.Bool() {
			pow = c.Intn(8)
		}
		check6(op(func(x *bls.FQ6) { x.FrobeniusMapAssign(uint8(pow)) }), a.Frob(pow%6), "Frobenius")
		c.Check(A.Equals(B) == a.Eq(b), "FQ6 Equals")
		c.Check(A.IsZero() == a.IsZero(), "FQ6 IsZero")
		x := A.Copy()
		ok := x.InverseAssign()
		if c.Check(ok == !a.IsZero(), "FQ6 inverse reported %v", ok); ok {
			check6(x, a.Inv(), "inverse")
		}
		if c.OneIn(20) || exp6 && c.OneIn(4) {
			e := scalar(c.Rng, 384)
			if c.OneIn(2) {
				e = scalar(c.Rng, 64)
			}
			r := qrep(e)
			check6(A.Exp(&r), a.Exp(e), "exponentiation")
		}
		check6(A, a, "operand after use")
		check6(B, b, "operand after use")
	}
	often := false
	do12 := func(a, b ref.F12) {
		args := []any{}
		for i := range a {
			args = append(args, a[i].A, a[i].B, b[i].A, b[i].B)
		}
		c.Case("FQ12 operations", args...)
		A, B := fq12(a), fq12(b)
		op := func(f func(x *bls.FQ12)) *bls.FQ12 { x := A.Copy(); f(x); return x }
		check12(op(func(x *bls.FQ12) { x.AddAssign(B) }), a.Add(b), "+")
		check12(op(func(x *bls.FQ12) { x.SubAssign(B) }), a.Sub(b), "-")
		check12(op(func(x *bls.FQ12) { x.MulAssign(B) }), a.Mul(b), "*")
		check12(op(func(x *bls.FQ12) { x.SquareAssign() }), a.Mul(a), "square")
		check12(op(func(x *bls.FQ12) { x.DoubleAssign() }), a.Add(a), "double")
		check12(op(func(x *bls.FQ12) { x.NegAssign() }), a.Neg(), "negate")
		check12(op(func(x *bls.FQ12) { x.ConjugateAssign() }), a.Conj(), "conjugate")
		sp := ref.F12Zero // c0 + c1 v + c4 v w
		sp[0], sp[2], sp[3] = b[0], b[2], b[3]
		check12(op(func(x *bls.FQ12) { x.MulBy014Assign(fq2(b[0]), fq2(b[2]), fq2(b[3])) }), a.Mul(sp), "MulBy014")
		check12(op(func(x *bls.FQ12) { x.AddAssign(x) }), a.Add(a), "x+x")
		check12(op(func(x *bls.FQ12) { x.SubAssign(x) }), ref.F12Zero, "x-x")
		check12(op(func(x *bls.FQ12) { x.MulAssign(x) }), a.Mul(a), "x*x")
		pow := c.Intn(256)
		if c.Bool() {
			pow = c.Intn(13)
		}
		check12(op(func(x *bls.FQ12) { x.FrobeniusMapAssign(uint8(pow)) }), a.Frob(pow%12), "Frobenius")
		c.Check(A.Equals(B) == a.Eq(b), "FQ12 Equals")
		c.Check(A.IsZero() == a.IsZero(), "FQ12 IsZero")
		x := A.Copy()
		ok := x.InverseAssign()
		if c.Check(ok == !a.IsZero(), "FQ12 inverse reported %v", ok); ok {
			check12(x, a.Inv(), "inverse")
		}
		if c.OneIn(30) || often && c.OneIn(4) {
			e := scalar(c.Rng, 384)
			if c.OneIn(2) {
				e = scalar(c.Rng, 64)
			}
			check12(A.Exp(qrep(e)), a.Exp(e), "exponentiation")
		}
		check12(A, a, "operand after use")
		check12(B, b, "operand after use")
	}

	small := fpSpecials[:24]
	k := 0
	for _, a := range small {
		for _, b := range small {
			if k++; c.Mine(k) {
				do2(ref.F2{A: a, B: b}, ref.F2{A: b, B: fp(c.Rng)})
				slow2(ref.F2{A: a, B: b}, fp2(c.Rng), scalar(c.Rng, 384))
			}
		}
	}
	for i := c.N(60000); i > 0; i-- {
		a, b := fp2(c.Rng), fp2(c.Rng)
		switch c.Intn(10) {
		case 0:
			b = a
		case 1:
			b = a.Neg()
		case 2:
			b = a.Conj()
		case 3:
			b = ref.F2{A: a.A, B: fp(c.Rng)}
		case 4:
			b = ref.F2{A: fp(c.Rng), B: a.B}
		}
		do2(a, b)
	}
	for i := c.N(6000); i > 0; i-- {
		a := fp2(c.Rng)
		if c.Bool() {
			a = a.Sq()
		}
		slow2(a, fp2(c.Rng), scalar(c.Rng, 384))
	}
	for i := c.N(12000); i > 0; i-- {
		a, b := fp6(c.Rng), fp6(c.Rng)
		switch c.Intn(10) {
		case 0:
			b = a
		case 1: // differ in one coefficient
			b = a
			b[c.Intn(3)] = fp2(c.Rng)
		case 2:
			b = a.Neg()
		}
		do6(a, b)
	}
	for i := c.N(5000); i > 0; i-- {
		a, b := fp12(c.Rng), fp12(c.Rng)
		switch c.Intn(10) {
		case 0:
			b = a
		case 1:
			b = a
			b[c.Intn(6)] = fp2(c.Rng)
		case 2:
			b = a.Conj()
		}
		do12(a, b)
	}
	// elements with relations of their own, and between each other
	often, exp6 = true, true
	for i := c.N(1500); i > 0; i-- {
		a, b := structured12(c.Rng), structured12(c.Rng)
		switch c.Intn(6) {
		case 0:
			b = a.Frob(c.Intn(12))
		case 1:
			b = a.Mul(a)
		case 2:
			if !a.IsZero() {
				b = a.Inv()
			}
		}
		do12(a, b)
		x, y := structured6(c.Rng), structured6(c.Rng)
		switch c.Intn(6) {
		case 0:
			y = x.Frob(c.Intn(6))
		case 1:
			y = x.Mul(x)
		case 2:
			if !x.IsZero() {
				y = x.Inv()
			}
		}
		do6(x, y)
		d, e := structured2(c.Rng), structured2(c.Rng)
		do2(d, e)
		if c.OneIn(3) {
			slow2(d, e, scalar(c.Rng, 384))
		}
		c.Count("elements of subfields and of norm one", 3)
	}
	often, exp6 = false, false
	// all Frobenius powers, and all zero patterns
	for p := 0; p < 256; p++ {
		if c.Mine(p) {
			a := fp12(c.Rng)
			c.Case("Frobenius powers", p, a[1].A)
			x := fq12(a)
			x.FrobeniusMapAssign(uint8(p))
			check12(x, a.Frob(p%12), "Frobenius")
			b, _ := a.Tower()
			y := fq6(b)
			y.FrobeniusMapAssign(uint8(p))
			check6(y, b.Frob(p%6), "Frobenius")
		}
	}
	for m := 0; m < 64; m++ {
		if c.Mine(m) {
			a := ref.F12Zero
			for i := range a {
				if m>>i&1 == 1 {
					a[i] = fp2(c.Rng)
				}
			}
			do12(a, fp12(c.Rng))
			lo, hi := a.Tower()
			do6(lo, fp6(c.Rng))
			do6(hi, lo)
		}
	}
	// histories of in-place operations on one element
	for i := c.N(400); i > 0; i-- {
		a := fp12(c.Rng)
		x := fq12(a)
		var ops []byte
		for j := c.Between(4, 20); j > 0; j-- {
			b := fp12(c.Rng)
			o := byte(c.Intn(9))
			ops = append(ops, o)
			c.Case("FQ12 history", a[0].A, b[0].A, append([]byte(nil), ops...))
			switch o {
			case 0:
				x.AddAssign(fq12(b))
				a = a.Add(b)
			case 1:
				x.SubAssign(fq12(b))
				a = a.Sub(b)
			case 2:
				x.MulAssign(fq12(b))
				a = a.Mul(b)
			case 3:
				x.SquareAssign()
				a = a.Mul(a)
			case 4:
				x.ConjugateAssign()
				a = a.Conj()
			case 5:
				x.FrobeniusMapAssign(byte(len(ops)))
				a = a.Frob(len(ops) % 12)
			case 6:
				x.NegAssign()
				a = a.Neg()
			case 7:
				if x.InverseAssign() {
					a = a.Inv()
				}
			case 8:
				x = x.Copy()
				x.DoubleAssign()
				a = a.Add(a)
			}
			check12(x, a, "history")
		}
	}
	for i := c.N(2000); i > 0; i-- {
		b := c.Bytes(c.Intn(70))
		c.Case("HashFQ2", b)
		v := new(big.Int).SetBytes(b)
		check2(bls.HashFQ2(fixedHash{b}), ref.F2{A: v.Mod(v, ref.P), B: new(big.Int)}, "HashFQ2")
	}
}

func c13(c *C) {
	M384, M256 := pow2(384), pow2(256)
	max64 := subInt(pow2(64), 1)
	_ = max64
	gen := func(n int) *big.Int {
		switch c.Intn(4) {
		case 0:
			return scalar(c.Rng, uint(64*n))
		case 1:
			if n == 6 {
				return fpSpecials[c.Intn(len(fpSpecials))]
			}
			return frSpecials[c.Intn(len(frSpecials))]
		default:
			return c.Limbs(n)
		}
	}
	wantCmp := func(a, b *big.Int) int { return a.Cmp(b) }
	shifts := func(bits int) uint {
		switch c.Intn(4) {
		case 0:
			return uint(c.Intn(4) * 64)
		case 1:
			return uint(c.Intn(bits/64+2)*64 + c.Between(0, 1))
		case 2:
			return uint(bits + c.Between(-3, 200))
		}
		return uint(c.Intn(bits + 2))
	}
	doQ := func(a, b *big.Int, n uint) {
		c.Case("FQRepr operations", a, b, int(n))
		A, B := qrep(a), qrep(b)
		eq := func(r bls.FQRepr, v *big.Int, what string) {
			if bigQ(r).Cmp(v) != 0 {
				c.Fail("FQRepr %s gave %v, want %v", what, bigQ(r), v)
			}
		}
		x := A.Copy()
		x.Lsh(n)
		v := new(big.Int).Lsh(a, n)
		eq(x, v.Mod(v, M384), "Lsh")
		x = A.Copy()
		x.Rsh(n)
		eq(x, new(big.Int).Rsh(a, n), "Rsh")
		x = A.Copy()
		x.Div2()
		eq(x, new(big.Int).Rsh(a, 1), "Div2")
		x = A.Copy()
		x.Mul2()
		v = new(big.Int).Lsh(a, 1)
		eq(x, v.Mod(v, M384), "Mul2")
		x = A.Copy()
		x.AddNoCarry(B)
		v = new(big.Int).Add(a, b)
		eq(x, v.Mod(v, M384), "AddNoCarry")
		x = A.Copy()
		x.SubNoBorrow(B)
		v = new(big.Int).Sub(a, b)
		eq(x, v.Mod(v, M384), "SubNoBorrow")
		x = A.Copy()
		x.AddNoCarry(x)
		v = new(big.Int).Add(a, a)
		eq(x, v.Mod(v, M384), "x+x")
		x = A.Copy()
		x.SubNoBorrow(x)
		eq(x, new(big.Int), "x-x")
		c.Check(A.Cmp(B) == wantCmp(a, b) && B.Cmp(A) == wantCmp(b, a), "FQRepr Cmp of %v and %v", a, b)
		c.Check(A.Equals(B) == (a.Cmp(b) == 0), "FQRepr Equals of %v and %v", a, b)
		c.Check(A.IsZero() == (a.Sign() == 0), "FQRepr IsZero of %v", a)
		c.Check(A.IsOdd() == (a.Bit(0) == 1) && A.IsEven() == (a.Bit(0) == 0), "FQRepr parity of %v", a)
		c.Check(int(A.BitLen()) == a.BitLen(), "FQRepr BitLen of %v gave %d", a, A.BitLen())
		if n < 384 {
			c.Check(A.Bit(n) == (a.Bit(int(n)) == 1), "FQRepr Bit %d of %v", n, a)
		}
		by := A.Bytes()
		var wb [48]byte
		a.FillBytes(wb[:])
		c.Check(by == wb, "FQRepr Bytes of %v gave %v", a, by[:])
		eq(bls.FQReprFromBytes(wb), a, "FromBytes")
		c.Check(A.ToBig().Cmp(a) == 0, "FQRepr ToBig of %v", a)
		r, err := bls.FQReprFromBigInt(a)
		c.Check(err == nil, "FQReprFromBigInt rejected %v", a)
		eq(r, a, "FromBigInt")
		c.Check(A.String() == zpad(a, 96), "FQRepr String of %v gave %s", a, A.String())
		base := []int{2, 8, 10, 16, 36}[c.Intn(5)]
		r, err = bls.FQReprFromString(a.Text(base), uint(base))
		c.Check(err == nil, "FQReprFromString rejected %s in base %d", a.Text(base), base)
		eq(r, a, "FromString")
		eq(A, a, "operand after use")
		eq(B, b, "operand after use")
	}
	doR := func(a, b *big.Int, n uint) {
		c.Case("FRRepr operations", a, b, int(n))
		A, B := rrep(a), rrep(b)
		eq := func(r *bls.FRRepr, v *big.Int, what string) {
			if bigR(r).Cmp(v) != 0 {
				c.Fail("FRRepr %s gave %v, want %v", what, bigR(r), v)
			}
		}
		x := A.Copy()
		x.Lsh(n)
		v := new(big.Int).Lsh(a, n)
		eq(x, v.Mod(v, M256), "Lsh")
		x = A.Copy()
		x.Rsh(n)
		eq(x, new(big.Int).Rsh(a, n), "Rsh")
		x = A.Copy()
		x.Div2()
		eq(x, new(big.Int).Rsh(a, 1), "Div2")
		x = A.Copy()
		x.Mul2()
		v = new(big.Int).Lsh(a, 1)
		eq(x, v.Mod(v, M256), "Mul2")
		x = A.Copy()
		x.AddNoCarry(B)
		v = new(big.Int).Add(a, b)
		eq(x, v.Mod(v, M256), "AddNoCarry")
		x = A.Copy()
		x.SubNoBorrow(B)
		v = new(big.Int).Sub(a, b)
		eq(x, v.Mod(v, M256), "SubNoBorrow")
		x = A.Copy()
		x.AddNoCarry(x)
		v = new(big.Int).Add(a, a)
		eq(x, v.Mod(v, M256), "x+x")
		x = A.Copy()
		x.SubNoBorrow(x)
		eq(x, new(big.Int), "x-x")
		c.Check(A.Cmp(B) == wantCmp(a, b) && B.Cmp(A) == wantCmp(b, a), "FRRepr Cmp of %v and %v", a, b)
		c.Check(A.Equals(B) == (a.Cmp(b) == 0), "FRRepr Equals of %v and %v", a, b)
		c.Check(A.IsZero() == (a.Sign() == 0), "FRRepr IsZero of %v", a)
		c.Check(A.IsOdd() == (a.Bit(0) == 1) && A.IsEven() == (a.Bit(0) == 0), "FRRepr parity of %v", a)
		c.Check(int(A.BitLen()) == a.BitLen(), "FRRepr BitLen of %v gave %d", a, A.BitLen())
		if n < 256 {
			c.Check(A.Bit(n) == (a.Bit(int(n)) == 1), "FRRepr Bit %d of %v", n, a)
		}
		by := A.Bytes()
		var wb [32]byte
		a.FillBytes(wb[:])
		c.Check(by == wb, "FRRepr Bytes of %v gave %v", a, by[:])
		eq(bls.FRReprFromBytes(wb), a, "FromBytes")
		c.Check(A.ToBig().Cmp(a) == 0, "FRRepr ToBig of %v", a)
		r, err := bls.FRReprFromBigInt(a)
		if c.Check(err == nil, "FRReprFromBigInt rejected %v", a) {
			eq(r, a, "FromBigInt")
		}
		c.Check(bigQ(A.ToFQ()).Cmp(a) == 0, "FRRepr ToFQ of %v", a)
		c.Check(A.String() == zpad(a, 64), "FRRepr String of %v gave %s", a, A.String())
		base := []int{2, 8, 10, 16, 36}[c.Intn(5)]
		r, err = bls.FRReprFromString(a.Text(base), uint(base))
		if c.Check(err == nil, "FRReprFromString rejected %s in base %d", a.Text(base), base) {
			eq(r, a, "FromString")
		}
		eq(A, a, "operand after use")
		eq(B, b, "operand after use")
	}
	rel := func(a *big.Int, n int) *big.Int {
		m := pow2(uint(64 * n))
		b := new(big.Int)
		switch c.Intn(6) {
		case 0:
			return a
		case 1:
			b.Add(a, bi(int64(c.Between(-2, 2))))
		case 2:
			b.Neg(a)
			b.Add(b, bi(int64(c.Between(-1, 1))))
		case 3: // differ in one limb
			b.Xor(a, new(big.Int).Lsh(new(big.Int).SetUint64(c.Word()), uint(64*c.Intn(n))))
		default:
			return gen(n)
		}
		return b.Mod(b, m)
	}
	// all shift counts
	for n := uint(0); n < 460; n++ {
		if c.Mine(int(n)) {
			for j := 0; j < 4; j++ {
				a := gen(6)
				doQ(a, rel(a, 6), n)
				a = gen(4)
				doR(a, rel(a, 4), n)
			}
		}
	}
	// amounts where a sum or product of the amount leaves 8, 16 or 32 bits
	huge := []uint{1 << 20, 1 << 31, 1<<32 - 1}
	for _, e := range []uint{8, 9, 16, 31} {
		for d := uint(0); d < 3; d++ {
			huge = append(huge, 1<<e+d, 1<<e-d, 1<<e+64*d)
		}
	}
	for i := 0; i < 60; i++ {
		huge = append(huge, 1<<32-1-uint(c.Intn(512)), 1<<31-1-uint(c.Intn(512)), uint(c.U64())>>uint(c.Intn(23)))
	}
	for _, n := range huge {
		c.Case("huge shift", int(n))
		for k, x := range [2]bls.FQRepr{qrep(gen(6)), qrep(gen(6))} {
			a := bigQ(x)
			if k == 0 {
				x.Lsh(n)
				a.Lsh(a, n%1024)
			} else {
				x.Rsh(n)
				a.Rsh(a, n%1024)
			}
			if n >= 1024 {
				a.SetInt64(0)
			}
			a.Mod(a, M384)
			c.Check(bigQ(x).Cmp(a) == 0, "shift of an FQRepr by %d gave %v", n, bigQ(x))
		}
		for k, x := range [2]*bls.FRRepr{rrep(gen(4)), rrep(gen(4))} {
			a := bigR(x)
			if k == 0 {
				x.Lsh(n)
				a.Lsh(a, n%1024)
			} else {
				x.Rsh(n)
				a.Rsh(a, n%1024)
			}
			if n >= 1024 {
				a.SetInt64(0)
			}
			a.Mod(a, M256)
			c.Check(bigR(x).Cmp(a) == 0, "shift of an FRRepr by %d gave %v", n, bigR(x))
		}
	}
	for i := c.N(150000); i > 0; i-- {
		a := gen(6)
		doQ(a, rel(a, 6), shifts(384))
		a = gen(4)
		doR(a, rel(a, 4), shifts(256))
	}
	// integers that do not fit, and text that is no number
	for i := c.N(20000); i > 0; i-- {
		var v *big.Int
		switch c.Intn(5) {
		case 0:
			v = new(big.Int).Add(M384, bi(int64(c.Intn(3))))
		case 1:
			v = c.Limbs(c.Between(4, 9))
		case 2:
			v = new(big.Int).Neg(c.Limbs(c.Between(1, 7)))
		case 3:
			v = new(big.Int).Add(M256, bi(int64(c.Intn(3))))
		default:
			v = new(big.Int).Mul(M384, c.Limbs(c.Between(1, 3)))
		}
		c.Case("conversion of big integers", v)
		keep := new(big.Int).Set(v)
		q, err := bls.FQReprFromBigInt(v)
		if fits := v.Sign() >= 0 && v.BitLen() <= 384; c.Check((err == nil) == fits, "FQReprFromBigInt of %v: error %v", v, err) && fits {
			c.Check(bigQ(q).Cmp(v) == 0, "FQReprFromBigInt of %v", v)
		}
		r, err := bls.FRReprFromBigInt(v)
		if fits := v.Sign() >= 0 && v.BitLen() <= 256; c.Check((err == nil) == fits, "FRReprFromBigInt of %v: error %v", v, err) && fits {
			c.Check(bigR(r).Cmp(v) == 0, "FRReprFromBigInt of %v", v)
		}
		c.Check(v.Cmp(keep) == 0, "conversion changed its argument %v", keep)
		base := []int{2, 10, 16}[c.Intn(3)]
		s := v.Text(base)
		_, err = bls.FQReprFromString(s, uint(base))
		c.Check((err == nil) == (v.Sign() >= 0 && v.BitLen() <= 384), "FQReprFromString of %s base %d: error %v", s, base, err)
		_, err = bls.FRReprFromString(s, uint(base))
		c.Check((err == nil) == (v.Sign() >= 0 && v.BitLen() <= 256), "FRReprFromString of %s base %d: error %v", s, base, err)
	}
	for i, s := range []string{"", " ", "x", "0x", "12z", "--1", "1 2", "1.5", "\x00", "g", "１"} {
		if c.Mine(i) {
			c.Case("conversion of malformed text", s)
			_, err := bls.FQReprFromString(s, 10)
			c.Check(err != nil, "FQReprFromString accepted %q", s)
			_, err = bls.FRReprFromString(s, 10)
			c.Check(err != nil, "FRReprFromString accepted %q", s)
		}
	}
	// any text: digits of the base are the number, one foreign character is none
	for i := c.N(20000); i > 0; i-- {
		base := []int{2, 3, 8, 10, 10, 16, 16, 32, 36}[c.Intn(9)]
		v := gen(c.Between(1, 6))
		if c.Bool() {
			v = c.Big(pow2(uint(c.Between(1, 40))))
		}
		t := []byte(v.Text(base))
		if c.OneIn(4) {
			t = bytes.ToUpper(t)
		}
		if c.OneIn(4) {
			t = append(bytes.Repeat([]byte("0"), c.Between(1, 130)), t...)
		}
		c.Case("conversion of text", string(t), base)
		q, err := bls.FQReprFromString(string(t), uint(base))
		c.Check(err == nil && bigQ(q).Cmp(v) == 0, "FQReprFromString of %q in base %d: %v, error %v", t, base, bigQ(q), err)
		r, err := bls.FRReprFromString(string(t), uint(base))
		if fits := v.BitLen() <= 256; c.Check((err == nil) == fits, "FRReprFromString of %q in base %d: error %v", t, base, err) && fits {
			c.Check(bigR(r).Cmp(v) == 0, "FRReprFromString of %q in base %d: %v", t, base, bigR(r))
		}
		bad := []string{"_", "__", " ", "\n", "\t", ".", ",", "-", "+", "'", "/", ":", "\x00", "\xff", "٣"}
		if base < 36 { // digits of a larger base; in base 16 the prefix x
			bad = append(bad, string("0123456789abcdefghijklmnopqrstuvwxyz"[c.Between(base, 35)]), "z")
		}
		ins := bad[c.Intn(len(bad))]
		at := c.Intn(len(t) + 1)
		if c.OneIn(3) {
			at = []int{0, 1, len(t)}[c.Intn(3)]
		}
		if at == 0 && (ins == "-" || ins == "+") { // a sign
			at = len(t)
		}
		x := string(t[:at]) + ins + string(t[at:])
		c.Case("conversion of malformed text", x, base)
		c.Count("malformed texts", 1)
		_, err = bls.FQReprFromString(x, uint(base))
		c.Check(err != nil, "FQReprFromString accepted %q in base %d", x, base)
		_, err = bls.FRReprFromString(x, uint(base))
		c.Check(err != nil, "FRReprFromString accepted %q in base %d", x, base)
	}
	// bit iteration, most significant bit first
	for i := c.N(5000); i > 0; i-- {
		n := c.Intn(9)
		arr := make([]uint64, n)
		for j := range arr {
			arr[j] = c.Word()
		}
		keep := append([]uint64(nil), arr...)
		v := fromLimbs(arr)
		c.Case("BitIterator", v, n)
		it := bls.NewBitIterator(arr)
		for b := 64*n - 1; b >= 0; b-- {
			bit, done := it.Next()
			if done || bit != (v.Bit(b) == 1) {
				c.Fail("BitIterator over %v: bit %d came as %v, done %v", v, b, bit, done)
				break
			}
		}
		for j := 0; j < 3; j++ {
			_, done := it.Next()
			c.Check(done, "BitIterator over %d words does not end", n)
		}
		for j := range arr {
			c.Check(arr[j] == keep[j], "BitIterator changed its input")
		}
	}
}

func zpad(v *big.Int, n int) string {
	s := v.Text(16)
	return string(bytes.Repeat([]byte("0"), n-len(s))) + s
}

func c14(c *C) {
	M384 := pow2(384)
	M64 := pow2(64)
	u := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	hl := func(hi, lo [6]uint64) *big.Int {
		return new(big.Int).Or(new(big.Int).Lsh(fromLimbs(hi[:]), 384), fromLimbs(lo[:]))
	}
	small := func(a, b, d uint64) {
		c.Case("64-bit primitives", a, b, d)
		// add with carry
		for _, cy := range []uint64{0, 1, d} {
			lo, co := bls.AddWithCarry(a, b, cy)
			v := new(big.Int).Add(u(a), u(b))
			v.Add(v, u(cy))
			got := new(big.Int).Add(u(lo), new(big.Int).Lsh(u(co), 64))
			c.Check(got.Cmp(v) == 0, "AddWithCarry(%#x,%#x,%#x) = %#x,%#x", a, b, cy, lo, co)
		}
		for _, bo := range []uint64{0, 1} {
			lo, bout := bls.SubWithBorrow(a, b, bo)
			v := new(big.Int).Sub(u(a), u(b))
			v.Sub(v, u(bo))
			var wb uint64
			if v.Sign() < 0 {
				wb = 1
				v.Add(v, M64)
			}
			c.Check(v.Cmp(u(lo)) == 0 && bout == wb, "SubWithBorrow(%#x,%#x,%d) = %#x,%d", a, b, bo, lo, bout)
		}
	}
	mac := func(a, b, d, cy uint64) {
		c.Case("MACWithCarry", a, b, d, cy)
		lo, co := bls.MACWithCarry(a, b, d, cy)
		v := new(big.Int).Mul(u(b), u(d))
		v.Add(v, u(a))
		v.Add(v, u(cy))
		got := new(big.Int).Add(u(lo), new(big.Int).Lsh(u(co), 64))
		c.Check(got.Cmp(v) == 0, "MACWithCarry(%#x,%#x,%#x,%#x) = %#x,%#x", a, b, d, cy, lo, co)
	}
	wide := func(a, b *big.Int) {
		la, lb := limbs6(a), limbs6(b)
		c.Case("384-bit primitives", la, lb)
		hi, lo := bls.MultiplyFQRepr(la, lb)
		c.Check(hl(hi, lo).Cmp(new(big.Int).Mul(a, b)) == 0, "MultiplyFQRepr(%v,%v) = %v", a, b, hl(hi, lo))
		v := new(big.Int).Add(a, b)
		s := bls.AddNoCarry(la, lb)
		c.Check(fromLimbs(s[:]).Cmp(v.Mod(v, M384)) == 0, "AddNoCarry(%v,%v) = %v", a, b, fromLimbs(s[:]))
		v = new(big.Int).Sub(a, b)
		s = bls.SubNoBorrow(la, lb)
		c.Check(fromLimbs(s[:]).Cmp(v.Mod(v, M384)) == 0, "SubNoBorrow(%v,%v) = %v", a, b, fromLimbs(s[:]))
		c.Check(la == limbs6(a) && lb == limbs6(b), "operands changed")
	}
	// Montgomery reduction of t < P * 2^384: the result is t/2^384 mod P,
	// below 2P (callers subtract P once at most).
	twoP := new(big.Int).Lsh(ref.P, 1)
	limit := new(big.Int).Mul(ref.P, M384)
	mont := func(t *big.Int) {
		lo := limbs6(new(big.Int).Mod(t, M384))
		hi := limbs6(new(big.Int).Rsh(t, 384))
		c.Case("MontReduce", hi, lo)
		out := bls.MontReduce(hi, lo)
		v := fromLimbs(out[:])
		d := new(big.Int).Mod(v, ref.P)
		c.Check(d.Cmp(ref.Mul(t, ref.Rinv)) == 0, "MontReduce(%v) = %v", t, v)
		c.Check(v.Cmp(twoP) < 0, "MontReduce(%v) = %v is not below twice the modulus", t, v)
	}
	ws := []uint64{0, 1, 2, 3, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 0x89f3fffcfffcfffd, 0xb9feffffffffaaab}
	k := 0
	for _, a := range ws {
		for _, b := range ws {
			for _, d := range ws {
				if k++; c.Mine(k) {
					small(a, b, d)
					for _, cy := range ws {
						mac(a, b, d, cy)
					}
				}
			}
		}
	}
	// all combinations of extreme limbs in one operand, against extreme others
	ex := []uint64{0, 1, ^uint64(0)}
	comb := func(i int) *big.Int {
		l := make([]uint64, 6)
		for j := range l {
			l[j] = ex[i%3]
			i /= 3
		}
		return fromLimbs(l)
	}
	for i := 0; i < 729; i++ {
		if !c.Mine(i) {
			continue
		}
		a := comb(i)
		wide(a, a)
		wide(a, new(big.Int).Sub(subInt(M384, 1), a))
		n := 40
		if c.Scale < 0.5 {
			n = 6
		}
		if c.Tier != "quick" && c.Scale >= 1 {
			n = 729
		}
		for j := 0; j < n; j++ {
			o := j
			if n < 729 {
				o = c.Intn(729)
			}
			wide(a, comb(o))
		}
		wide(a, ref.P)
		wide(ref.P, a)
	}
	for i := c.N(1000000); i > 0; i-- {
		small(c.Word(), c.Word(), c.Word())
		mac(c.Word(), c.Word(), c.Word(), c.Word())
	}
	for i := c.N(800000); i > 0; i-- {
		a, b := c.Limbs(6), c.Limbs(6)
		if c.OneIn(6) {
			b = new(big.Int).Sub(M384, a)
			b.Add(b, bi(int64(c.Between(-2, 2))))
			b.Mod(b, M384)
		}
		wide(a, b)
	}
	kinds := 0
	for i := c.N(800000); i > 0; i-- {
		t := new(big.Int)
		switch kinds++; kinds % 8 {
		case 0: // a product of elements
			t.Mul(fp(c.Rng), fp(c.Rng))
		case 1: // extreme limbs everywhere
			t.Mod(c.Limbs(12), limit)
		case 2: // multiples of the modulus, and neighbours
			t.Mul(ref.P, c.Limbs(6))
			t.Add(t, bi(int64(c.Between(-1, 1))))
		case 3: // near the top
			t.Sub(limit, bi(1))
			t.Sub(t, c.Big(pow2(uint(c.Between(1, 760)))))
		case 4: // k*2^384 for conversions out of Montgomery form
			t.Lsh(c.Limbs(6), 384)
		case 5:
			t = c.Limbs(6)
		case 6: // result on a boundary: t = v * 2^384 mod P plus a multiple of P
			t.Mul(fpSpecials[c.Intn(len(fpSpecials))], M384)
			t.Mod(t, ref.P)
			t.Add(t, new(big.Int).Mul(ref.P, c.Limbs(6)))
		case 7: // low half all ones or sparse
			t.Lsh(fp(c.Rng), 384)
			t.Or(t, c.Limbs(6))
		}
		if t.Sign() < 0 || t.Cmp(limit) >= 0 {
			t.Mod(t.Abs(t), limit)
		}
		mont(t)
	}
	// sums on the edges of a word in every round of the reduction
	for i := c.N(60000); i > 0; i-- {
		t, met := reduction(c.Rng, redcQ)
		if t.Cmp(limit) < 0 {
			mont(t)
			c.Count("constructed carries", int64(met))
		}
	}
	// the limbs of FR values use the same primitives; nothing else is exported
}
