package ref

import (
	"errors"
	"math/big"
)

// SelfTest checks the model's own algebra (not the library).
func SelfTest() error {
	if !E1.On(G1) || !E2.On(G2) || !E1.Mul(G1, R).Inf || !E2.Mul(G2, R).Inf {
		return errors.New("generators")
	}
	t1 := F2{hexInt("123456789abcdef0fedcba98765432100f"), Zero}
	t2 := F2{hexInt("deadbeef0123456789"), Zero}
	a, b := SSWU(Iso1, zG1, t1, true), SSWU(Iso1, zG1, t2, true)
	if !Iso1.On(a) || !E1.On(IsoMap(Iso11, a)) || !E1.Add(IsoMap(Iso11, a), IsoMap(Iso11, b)).Eq(IsoMap(Iso11, Iso1.Add(a, b))) {
		return errors.New("11-isogeny")
	}
	u1, u2 := F2{t1.A, t2.A}, F2{t2.A, t1.A}
	a, b = SSWU(Iso2, Xi, u1, false), SSWU(Iso2, Xi, u2, false)
	if !Iso2.On(a) || !E2.On(IsoMap(Iso3, a)) || !E2.Add(IsoMap(Iso3, a), IsoMap(Iso3, b)).Eq(IsoMap(Iso3, Iso2.Add(a, b))) {
		return errors.New("3-isogeny")
	}
	f := F12{u1, u2, u1.Mul(u2), u1.Add(u2), u2.Sq(), F2One}
	if !f.Exp(P).Eq(f.Frob(1)) || !f.Mul(f.Inv()).Eq(F12One) {
		return errors.New("Frobenius or inverse")
	}
	e := Pair(G1, G2)
	if e.Eq(F12One) || !e.Exp(R).Eq(F12One) {
		return errors.New("pairing degenerate")
	}
	k, l := big.NewInt(1234577), big.NewInt(765431)
	if !Pair(E1.Mul(G1, k), E2.Mul(G2, l)).Eq(e.Exp(new(big.Int).Mul(k, l))) {
		return errors.New("pairing not bilinear")
	}
	if !E1.Mul(HashG1([]byte("x")), R).Inf || !E2.Mul(HashG2([]byte("x")), R).Inf {
		return errors.New("hash subgroup")
	}
	return nil
}
