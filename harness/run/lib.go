package main

// Conversions between the library's types and the reference model's, through
// the exported API only.

import (
	"math/big"
	"regexp"

	bls "github.com/phoreproject/bls"

	"verifharness/ref"
)

func bi(n int64) *big.Int { return big.NewInt(n) }
func pow2(n uint) *big.Int {
	return new(big.Int).Lsh(ref.One, n)
}

func limbs6(v *big.Int) (r [6]uint64) {
	var b [48]byte
	v.FillBytes(b[:])
	for i := range r {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(b[47-8*i-j]) << (8 * j)
		}
	}
	return
}
func limbs4(v *big.Int) (r [4]uint64) {
	var b [32]byte
	v.FillBytes(b[:])
	for i := range r {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(b[31-8*i-j]) << (8 * j)
		}
	}
	return
}
func fromLimbs(l []uint64) *big.Int {
	b := make([]byte, 8*len(l))
	for i, w := range l {
		for j := 0; j < 8; j++ {
			b[len(b)-1-8*i-j] = byte(w >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b)
}
func qrep(v *big.Int) bls.FQRepr  { return bls.FQRepr(limbs6(v)) }
func rrep(v *big.Int) *bls.FRRepr { r := bls.FRRepr(limbs4(v)); return &r }
func bigQ(r bls.FQRepr) *big.Int  { return fromLimbs(r[:]) }
func bigR(r *bls.FRRepr) *big.Int { return fromLimbs(r[:]) }
func fq(v *big.Int) bls.FQ        { return bls.FQReprToFQ(qrep(v)) }
func fr(v *big.Int) *bls.FR       { return bls.FRReprToFR(rrep(v)) }
func ofq(f bls.FQ) *big.Int       { return bigQ(f.ToRepr()) }
func ofr(f *bls.FR) *big.Int      { return bigR(f.ToRepr()) }
func fq2(v ref.F2) bls.FQ2        { return bls.NewFQ2(fq(v.A), fq(v.B)) }
func fq6(v ref.F6) *bls.FQ6       { return bls.NewFQ6(fq2(v[0]), fq2(v[1]), fq2(v[2])) }
func fq12(v ref.F12) *bls.FQ12    { a, b := v.Tower(); return bls.NewFQ12(fq6(a), fq6(b)) }
func ofq2(f bls.FQ2) ref.F2 {
	b := bls.NewG2Affine(f, f).SerializeBytes()
	return ref.F2{A: new(big.Int).SetBytes(b[:48]), B: new(big.Int).SetBytes(b[48:96])}
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

func hexes(s string, n int) []*big.Int {
	m := hexRe.FindAllString(s, -1)
	if len(m) != n {
		panic("library: cannot read the coefficients of " + s)
	}
	r := make([]*big.Int, n)
	for i, h := range m {
		r[i], _ = new(big.Int).SetString(h[2:], 16)
	}
	return r
}
func ofq6(f *bls.FQ6) ref.F6 {
	h := hexes(f.String(), 6)
	return ref.F6{{A: h[0], B: h[1]}, {A: h[2], B: h[3]}, {A: h[4], B: h[5]}}
}
func ofq12(f *bls.FQ12) ref.F12 {
	h := hexes(f.String(), 12)
	var a, b ref.F6
	for i := 0; i < 3; i++ {
		a[i] = ref.F2{A: h[2*i], B: h[2*i+1]}
		b[i] = ref.F2{A: h[6+2*i], B: h[7+2*i]}
	}
	return ref.FromTower(a, b)
}

func g1a(p ref.Pt) *bls.G1Affine {
	if p.Inf {
		return bls.G1AffineZero.Copy()
	}
	return bls.NewG1Affine(fq(p.X.A), fq(p.Y.A))
}
func g2a(p ref.Pt) *bls.G2Affine {
	if p.Inf {
		return bls.G2AffineZero.Copy()
	}
	return bls.NewG2Affine(fq2(p.X), fq2(p.Y))
}
func og1a(g *bls.G1Affine) ref.Pt {
	if g.IsZero() {
		return ref.Inf
	}
	b := g.SerializeBytes()
	return ref.Pt{X: ref.F2{A: new(big.Int).SetBytes(b[:48]), B: new(big.Int)}, Y: ref.F2{A: new(big.Int).SetBytes(b[48:]), B: new(big.Int)}}
}
func og2a(g *bls.G2Affine) ref.Pt {
	if g.IsZero() {
		return ref.Inf
	}
	b := g.SerializeBytes()
	v := func(i int) *big.Int { return new(big.Int).SetBytes(b[48*i : 48*i+48]) }
	return ref.Pt{X: ref.F2{A: v(0), B: v(1)}, Y: ref.F2{A: v(2), B: v(3)}}
}
func og1(g *bls.G1Projective) ref.Pt { return og1a(g.ToAffine()) }
func og2(g *bls.G2Projective) ref.Pt { return og2a(g.ToAffine()) }

// g1z builds a projective representation with the given z.
func g1z(p ref.Pt, z *big.Int) *bls.G1Projective {
	if p.Inf {
		return bls.NewG1Projective(fq(z), fq(ref.One), fq(ref.Zero))
	}
	z2 := ref.Mul(z, z)
	return bls.NewG1Projective(fq(ref.Mul(p.X.A, z2)), fq(ref.Mul(p.Y.A, ref.Mul(z2, z))), fq(z))
}
func g2z(p ref.Pt, z ref.F2) *bls.G2Projective {
	if p.Inf {
		return bls.NewG2Projective(fq2(z), fq2(ref.F2One), fq2(ref.F2Zero))
	}
	z2 := z.Sq()
	return bls.NewG2Projective(fq2(p.X.Mul(z2)), fq2(p.Y.Mul(z2.Mul(z))), fq2(z))
}
