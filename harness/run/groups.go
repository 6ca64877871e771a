package main

import (
	"math/big"

	bls "github.com/phoreproject/bls"

	"verifharness/ref"
)

type aff any
type proj any

// group gives one view of the two groups' APIs.
type group struct {
	name   string
	g2     bool
	e      ref.Curve
	g      ref.Pt
	h      *big.Int
	size   int
	A      func(ref.Pt) aff
	P      func(ref.Pt, ref.F2) proj
	oA     func(aff) ref.Pt
	oP     func(proj) ref.Pt
	add    func(p, q proj) proj
	addA   func(p proj, q aff) proj
	dbl    func(proj) proj
	negA   func(aff)
	negP   func(proj)
	eqA    func(a, b aff) bool
	eqP    func(a, b proj) bool
	zA     func(aff) bool
	zP     func(proj) bool
	toA    func(proj) aff
	toP    func(aff) proj
	cpA    func(aff) aff
	cpP    func(proj) proj
	on     func(aff) bool
	sub    func(aff) bool
	mulA   func(aff, bls.FQRepr) proj
	mulP   func(proj, bls.FQRepr) proj
	frA    func(aff, *bls.FRRepr) proj
	frP    func(proj, *bls.FRRepr) proj
	cof    func(aff) proj
	comp   func(aff) []byte
	dec    func([]byte) (aff, error)
	decU   func([]byte) (aff, error)
	raw    func(aff) []byte
	setRaw func(aff, []byte) error
	fromX  func(ref.F2, bool) (aff, error)
	strA   func(aff) string
	strP   func(proj) string
}

var groups = []*group{grpG1, grpG2}

var grpG1 = &group{
	name: "G1", g2: false, e: ref.E1, g: ref.G1, h: ref.H1, size: 48,
	A:    func(p ref.Pt) aff { return g1a(p) },
	P:    func(p ref.Pt, z ref.F2) proj { return g1z(p, z.A) },
	oA:   func(a aff) ref.Pt { return og1a(a.(*bls.G1Affine)) },
	oP:   func(a proj) ref.Pt { return og1(a.(*bls.G1Projective)) },
	add:  func(p, q proj) proj { return p.(*bls.G1Projective).Add(q.(*bls.G1Projective)) },
	addA: func(p proj, q aff) proj { return p.(*bls.G1Projective).AddAffine(q.(*bls.G1Affine)) },
	dbl:  func(p proj) proj { return p.(*bls.G1Projective).Double() },
	negA: func(a aff) { a.(*bls.G1Affine).NegAssign() },
	negP: func(a proj) { a.(*bls.G1Projective).NegAssign() },
	eqA:  func(a, b aff) bool { return a.(*bls.G1Affine).Equals(b.(*bls.G1Affine)) },
	eqP:  func(a, b proj) bool { return a.(*bls.G1Projective).Equal(b.(*bls.G1Projective)) },
	zA:   func(a aff) bool { return a.(*bls.G1Affine).IsZero() },
	zP:   func(a proj) bool { return a.(*bls.G1Projective).IsZero() },
	toA:  func(a proj) aff { return a.(*bls.G1Projective).ToAffine() },
	toP:  func(a aff) proj { return a.(*bls.G1Affine).ToProjective() },
	cpA:  func(a aff) aff { return a.(*bls.G1Affine).Copy() },
	cpP:  func(a proj) proj { return a.(*bls.G1Projective).Copy() },
	on:   func(a aff) bool { return a.(*bls.G1Affine).IsOnCurve() },
	sub:  func(a aff) bool { return a.(*bls.G1Affine).IsInCorrectSubgroupAssumingOnCurve() },
	mulA: func(a aff, k bls.FQRepr) proj { return a.(*bls.G1Affine).Mul(k) },
	mulP: func(a proj, k bls.FQRepr) proj { return a.(*bls.G1Projective).Mul(k) },
	frA:  func(a aff, k *bls.FRRepr) proj { return a.(*bls.G1Affine).MulFR(k) },
	frP:  func(a proj, k *bls.FRRepr) proj { return a.(*bls.G1Projective).MulFR(k) },
	cof:  func(a aff) proj { return a.(*bls.G1Affine).ScaleByCofactor() },
	comp: func(a aff) []byte { b := bls.CompressG1(a.(*bls.G1Affine)); return b[:] },
	dec: func(b []byte) (aff, error) {
		var x [48]byte
		copy(x[:], b)
		a, err := bls.DecompressG1(x)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	decU: func(b []byte) (aff, error) {
		var x [48]byte
		copy(x[:], b)
		a, err := bls.DecompressG1Unchecked(x)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	raw: func(a aff) []byte { b := a.(*bls.G1Affine).SerializeBytes(); return b[:] },
	setRaw: func(a aff, b []byte) error {
		var x [2 * 48]byte
		copy(x[:], b)
		a.(*bls.G1Affine).SetRawBytes(x)
		return nil
	},
	fromX: func(x ref.F2, greatest bool) (aff, error) {
		a, err := bls.GetG1PointFromX(fq(x.A), greatest)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	strA: func(a aff) string { return a.(*bls.G1Affine).String() },
	strP: func(a proj) string { return a.(*bls.G1Projective).String() },
}

var grpG2 = &group{
	name: "G2", g2: true, e: ref.E2, g: ref.G2, h: ref.H2, size: 96,
	A:    func(p ref.Pt) aff { return g2a(p) },
	P:    func(p ref.Pt, z ref.F2) proj { return g2z(p, z) },
	oA:   func(a aff) ref.Pt { return og2a(a.(*bls.G2Affine)) },
	oP:   func(a proj) ref.Pt { return og2(a.(*bls.G2Projective)) },
	add:  func(p, q proj) proj { return p.(*bls.G2Projective).Add(q.(*bls.G2Projective)) },
	addA: func(p proj, q aff) proj { return p.(*bls.G2Projective).AddAffine(q.(*bls.G2Affine)) },
	dbl:  func(p proj) proj { return p.(*bls.G2Projective).Double() },
	negA: func(a aff) { a.(*bls.G2Affine).NegAssign() },
	negP: nil, // not offered
	eqA:  func(a, b aff) bool { return a.(*bls.G2Affine).Equals(b.(*bls.G2Affine)) },
	eqP:  func(a, b proj) bool { return a.(*bls.G2Projective).Equals(b.(*bls.G2Projective)) },
	zA:   func(a aff) bool { return a.(*bls.G2Affine).IsZero() },
	zP:   func(a proj) bool { return a.(*bls.G2Projective).IsZero() },
	toA:  func(a proj) aff { return a.(*bls.G2Projective).ToAffine() },
	toP:  func(a aff) proj { return a.(*bls.G2Affine).ToProjective() },
	cpA:  func(a aff) aff { return a.(*bls.G2Affine).Copy() },
	cpP:  func(a proj) proj { return a.(*bls.G2Projective).Copy() },
	on:   func(a aff) bool { return a.(*bls.G2Affine).IsOnCurve() },
	sub:  func(a aff) bool { return a.(*bls.G2Affine).IsInCorrectSubgroupAssumingOnCurve() },
	mulA: func(a aff, k bls.FQRepr) proj { return a.(*bls.G2Affine).Mul(k) },
	mulP: func(a proj, k bls.FQRepr) proj { return a.(*bls.G2Projective).Mul(k) },
	frA:  func(a aff, k *bls.FRRepr) proj { return a.(*bls.G2Affine).MulFR(k) },
	frP:  func(a proj, k *bls.FRRepr) proj { return a.(*bls.G2Projective).MulFR(k) },
	cof:  func(a aff) proj { return a.(*bls.G2Affine).ScaleByCofactor() },
	comp: func(a aff) []byte { b := bls.CompressG2(a.(*bls.G2Affine)); return b[:] },
	dec: func(b []byte) (aff, error) {
		var x [96]byte
		copy(x[:], b)
		a, err := bls.DecompressG2(x)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	decU: func(b []byte) (aff, error) {
		var x [96]byte
		copy(x[:], b)
		a, err := bls.DecompressG2Unchecked(x)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	raw: func(a aff) []byte { b := a.(*bls.G2Affine).SerializeBytes(); return b[:] },
	setRaw: func(a aff, b []byte) error {
		var x [2 * 96]byte
		copy(x[:], b)
		return a.(*bls.G2Affine).SetRawBytes(x)
	},
	fromX: func(x ref.F2, greatest bool) (aff, error) {
		a, err := bls.GetG2PointFromX(fq2(x), greatest)
		if err != nil {
			return nil, err
		}
		return a, nil
	},
	strA: func(a aff) string { return a.(*bls.G2Affine).String() },
	strP: func(a proj) string { return a.(*bls.G2Projective).String() },
}
