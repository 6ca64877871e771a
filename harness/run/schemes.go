package main

import (
	"io"
	"math/big"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/ref"
)

type skT any
type pkT any
type sgT any

// scheme gives one view of the two signature packages.
type scheme struct {
	name    string
	pkG     *group
	sgG     *group
	hash    func([]byte) ref.Pt
	skey    func(*big.Int) skT
	skParse func([]byte) skT
	skBytes func(skT) []byte
	skFR    func(skT) *bls.FR
	skStr   func(skT) string
	derive  func([32]byte) skT
	rand    func(io.Reader) (skT, error)
	pub     func(skT) pkT
	sign    func([]byte, skT) sgT
	verify  func([]byte, pkT, sgT) bool
	pkBytes func(pkT) []byte
	pkParse func([]byte) (pkT, error)
	pkEq    func(a, b pkT) bool
	pkCopy  func(pkT) pkT
	pkStr   func(pkT) string
	pkZero  func() pkT
	pkAgg   func(a, b pkT)
	pkSum   func([]pkT) pkT
	pkPt    func(pkT) proj
	pkFrom  func(aff) pkT
	sgBytes func(sgT) []byte
	sgParse func([]byte) (sgT, error)
	sgCopy  func(sgT) sgT
	sgStr   func(sgT) string
	sgZero  func() sgT
	sgAgg   func(a, b sgT)
	sgSum   func([]sgT) sgT
	sgPt    func(sgT) proj
	sgFrom  func(aff) sgT
	verAgg  func(sgT, []pkT, [][]byte) bool
	verCom  func(sgT, []pkT, []byte) bool
}

var schemes = []*scheme{sch1, sch2}

var sch1 = &scheme{
	name: "g1pubs", pkG: grpG1, sgG: grpG2, hash: ref.HashG2,
	skey: func(k *big.Int) skT {
		s := g1pubs.KeyFromFQRepr(rrep(k))
		if s == nil {
			return nil
		}
		return s
	},
	skParse: func(b []byte) skT {
		var x [32]byte
		copy(x[:], b)
		s := g1pubs.DeserializeSecretKey(x)
		if s == nil {
			return nil
		}
		return s
	},
	skBytes: func(s skT) []byte { b := s.(*g1pubs.SecretKey).Serialize(); return b[:] },
	skFR:    func(s skT) *bls.FR { return s.(*g1pubs.SecretKey).GetFRElement() },
	skStr:   func(s skT) string { return s.(*g1pubs.SecretKey).String() },
	derive:  func(b [32]byte) skT { return g1pubs.DeriveSecretKey(b) },
	rand: func(r io.Reader) (skT, error) {
		s, err := g1pubs.RandKey(r)
		if err != nil || s == nil {
			return nil, err
		}
		return s, nil
	},
	pub:  func(s skT) pkT { return g1pubs.PrivToPub(s.(*g1pubs.SecretKey)) },
	sign: func(m []byte, s skT) sgT { return g1pubs.Sign(m, s.(*g1pubs.SecretKey)) },
	verify: func(m []byte, p pkT, s sgT) bool {
		return g1pubs.Verify(m, p.(*g1pubs.PublicKey), s.(*g1pubs.Signature))
	},
	pkBytes: func(p pkT) []byte { b := p.(*g1pubs.PublicKey).Serialize(); return b[:] },
	pkParse: func(b []byte) (pkT, error) {
		var x [48]byte
		copy(x[:], b)
		p, err := g1pubs.DeserializePublicKey(x)
		if err != nil {
			return nil, err
		}
		return p, nil
	},
	pkEq:    func(a, b pkT) bool { return a.(*g1pubs.PublicKey).Equals(*b.(*g1pubs.PublicKey)) },
	pkCopy:  func(p pkT) pkT { return p.(*g1pubs.PublicKey).Copy() },
	pkStr:   func(p pkT) string { return p.(*g1pubs.PublicKey).String() },
	pkZero:  func() pkT { return g1pubs.NewAggregatePubkey() },
	pkAgg:   func(a, b pkT) { a.(*g1pubs.PublicKey).Aggregate(b.(*g1pubs.PublicKey)) },
	pkSum:   func(l []pkT) pkT { return g1pubs.AggregatePublicKeys(pks1(l)) },
	pkPt:    func(p pkT) proj { return p.(*g1pubs.PublicKey).GetPoint() },
	pkFrom:  func(a aff) pkT { return g1pubs.NewPublicKeyFromG1(a.(*bls.G1Affine)) },
	sgBytes: func(s sgT) []byte { b := s.(*g1pubs.Signature).Serialize(); return b[:] },
	sgParse: func(b []byte) (sgT, error) {
		var x [96]byte
		copy(x[:], b)
		s, err := g1pubs.DeserializeSignature(x)
		if err != nil {
			return nil, err
		}
		return s, nil
	},
	sgCopy: func(s sgT) sgT { return s.(*g1pubs.Signature).Copy() },
	sgStr:  func(s sgT) string { return s.(*g1pubs.Signature).String() },
	sgZero: func() sgT { return g1pubs.NewAggregateSignature() },
	sgAgg:  func(a, b sgT) { a.(*g1pubs.Signature).Aggregate(b.(*g1pubs.Signature)) },
	sgSum: func(l []sgT) sgT {
		var r []*g1pubs.Signature
		for _, s := range l {
			r = append(r, s.(*g1pubs.Signature))
		}
		return g1pubs.AggregateSignatures(r)
	},
	sgPt:   func(s sgT) proj { return s.(*g1pubs.Signature).GetPoint() },
	sgFrom: func(a aff) sgT { return g1pubs.NewSignatureFromG2(a.(*bls.G2Affine)) },
	verAgg: func(s sgT, p []pkT, m [][]byte) bool {
		return s.(*g1pubs.Signature).VerifyAggregate(pks1(p), m)
	},
	verCom: func(s sgT, p []pkT, m []byte) bool {
		return s.(*g1pubs.Signature).VerifyAggregateCommon(pks1(p), m)
	},
}

func pks1(l []pkT) []*g1pubs.PublicKey {
	r := make([]*g1pubs.PublicKey, 0, len(l))
	for _, p := range l {
		r = append(r, p.(*g1pubs.PublicKey))
	}
	return r
}

var sch2 = &scheme{
	name: "g2pubs", pkG: grpG2, sgG: grpG1, hash: ref.HashG1,
	skey: func(k *big.Int) skT {
		s := g2pubs.KeyFromFQRepr(rrep(k))
		if s == nil {
			return nil
		}
		return s
	},
	skParse: func(b []byte) skT {
		var x [32]byte
		copy(x[:], b)
		s := g2pubs.DeserializeSecretKey(x)
		if s == nil {
			return nil
		}
		return s
	},
	skBytes: func(s skT) []byte { b := s.(*g2pubs.SecretKey).Serialize(); return b[:] },
	skFR:    func(s skT) *bls.FR { return s.(*g2pubs.SecretKey).GetFRElement() },
	skStr:   func(s skT) string { return s.(*g2pubs.SecretKey).String() },
	derive:  func(b [32]byte) skT { return g2pubs.DeriveSecretKey(b) },
	rand: func(r io.Reader) (skT, error) {
		s, err := g2pubs.RandKey(r)
		if err != nil || s == nil {
			return nil, err
		}
		return s, nil
	},
	pub:  func(s skT) pkT { return g2pubs.PrivToPub(s.(*g2pubs.SecretKey)) },
	sign: func(m []byte, s skT) sgT { return g2pubs.Sign(m, s.(*g2pubs.SecretKey)) },
	verify: func(m []byte, p pkT, s sgT) bool {
		return g2pubs.Verify(m, p.(*g2pubs.PublicKey), s.(*g2pubs.Signature))
	},
	pkBytes: func(p pkT) []byte { b := p.(*g2pubs.PublicKey).Serialize(); return b[:] },
	pkParse: func(b []byte) (pkT, error) {
		var x [96]byte
		copy(x[:], b)
		p, err := g2pubs.DeserializePublicKey(x)
		if err != nil {
			return nil, err
		}
		return p, nil
	},
	pkEq:    func(a, b pkT) bool { return a.(*g2pubs.PublicKey).Equals(*b.(*g2pubs.PublicKey)) },
	pkCopy:  func(p pkT) pkT { return p.(*g2pubs.PublicKey).Copy() },
	pkStr:   func(p pkT) string { return p.(*g2pubs.PublicKey).String() },
	pkZero:  func() pkT { return g2pubs.NewAggregatePubkey() },
	pkAgg:   func(a, b pkT) { a.(*g2pubs.PublicKey).Aggregate(b.(*g2pubs.PublicKey)) },
	pkSum:   func(l []pkT) pkT { return g2pubs.AggregatePublicKeys(pks2(l)) },
	pkPt:    func(p pkT) proj { return p.(*g2pubs.PublicKey).GetPoint() },
	pkFrom:  func(a aff) pkT { return g2pubs.NewPublicKeyFromG2(a.(*bls.G2Affine)) },
	sgBytes: func(s sgT) []byte { b := s.(*g2pubs.Signature).Serialize(); return b[:] },
	sgParse: func(b []byte) (sgT, error) {
		var x [48]byte
		copy(x[:], b)
		s, err := g2pubs.DeserializeSignature(x)
		if err != nil {
			return nil, err
		}
		return s, nil
	},
	sgCopy: func(s sgT) sgT { return s.(*g2pubs.Signature).Copy() },
	sgStr:  func(s sgT) string { return s.(*g2pubs.Signature).String() },
	sgZero: func() sgT { return g2pubs.NewAggregateSignature() },
	sgAgg:  func(a, b sgT) { a.(*g2pubs.Signature).Aggregate(b.(*g2pubs.Signature)) },
	sgSum: func(l []sgT) sgT {
		var r []*g2pubs.Signature
		for _, s := range l {
			r = append(r, s.(*g2pubs.Signature))
		}
		return g2pubs.AggregateSignatures(r)
	},
	sgPt:   func(s sgT) proj { return s.(*g2pubs.Signature).GetPoint() },
	sgFrom: func(a aff) sgT { return g2pubs.NewSignatureFromG1(a.(*bls.G1Affine)) },
	verAgg: func(s sgT, p []pkT, m [][]byte) bool {
		return s.(*g2pubs.Signature).VerifyAggregate(pks2(p), m)
	},
	verCom: func(s sgT, p []pkT, m []byte) bool {
		return s.(*g2pubs.Signature).VerifyAggregateCommon(pks2(p), m)
	},
}

func pks2(l []pkT) []*g2pubs.PublicKey {
	r := make([]*g2pubs.PublicKey, 0, len(l))
	for _, p := range l {
		r = append(r, p.(*g2pubs.PublicKey))
	}
	return r
}
