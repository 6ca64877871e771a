package ref

import (
	"crypto/sha256"
	"math/big"
)

// Pt is an affine point over Fp2 (points of E(Fp) have zero u parts).
type Pt struct {
	X, Y F2
	Inf  bool
}

// Curve is y^2 = x^3 + A x + B.
type Curve struct{ A, B F2 }

var (
	E1   = Curve{F2Zero, F2i(4, 0)}
	E2   = Curve{F2Zero, F2i(4, 4)}
	Inf  = Pt{F2Zero, F2One, true}
	G1   = Pt{X: F2{hexInt("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), Zero}, Y: F2{hexInt("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), Zero}}
	G2   = Pt{X: F2{hexInt("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), hexInt("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")}, Y: F2{hexInt("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), hexInt("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}}
	two  = big.NewInt(2)
	Beta = func() *big.Int { // a primitive cube root of unity mod p
		e := new(big.Int).Div(new(big.Int).Sub(P, One), big.NewInt(3))
		for g := int64(2); ; g++ {
			b := new(big.Int).Exp(big.NewInt(g), e, P)
			if b.Cmp(One) != 0 {
				return b
			}
		}
	}()
)

func (c Curve) RHS(x F2) F2 { return x.Sq().Mul(x).Add(c.A.Mul(x)).Add(c.B) }
func (c Curve) On(p Pt) bool {
	return p.Inf || p.Y.Sq().Eq(c.RHS(p.X))
}
func (p Pt) Neg() Pt {
	if p.Inf {
		return p
	}
	return Pt{X: p.X, Y: p.Y.Neg()}
}
func (p Pt) Eq(q Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Eq(q.X) && p.Y.Eq(q.Y)
}
func (c Curve) Add(p, q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l F2
	if p.X.Eq(q.X) {
		if !p.Y.Eq(q.Y) || p.Y.IsZero() {
			return Inf
		}
		l = p.X.Sq().MulI(3).Add(c.A).Mul(p.Y.MulI(2).Inv())
	} else {
		l = q.Y.Sub(p.Y).Mul(q.X.Sub(p.X).Inv())
	}
	x := l.Sq().Sub(p.X).Sub(q.X)
	return Pt{X: x, Y: l.Mul(p.X.Sub(x)).Sub(p.Y)}
}

// Mul is k*p for k >= 0, double-and-add from the top bit.
func (c Curve) Mul(p Pt, k *big.Int) Pt {
	r := Inf
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, p)
		}
	}
	return r
}

// MulS multiplies by any integer reduced mod r (for subgroup points).
func (c Curve) MulS(p Pt, k *big.Int) Pt {
	return c.Mul(p, new(big.Int).Mod(k, R))
}

// FromX returns the point with the given x and the larger or smaller y.
func (c Curve) FromX(x F2, greatest bool) (Pt, bool) {
	rhs := c.RHS(x)
	if x.B.Sign() == 0 && c.B.B.Sign() == 0 { // stay in Fp for E1
		y := Sqrt(rhs.A)
		if y == nil {
			return Pt{}, false
		}
		if Larger(y) != greatest {
			y = Neg(y)
		}
		return Pt{X: x, Y: F2{y, new(big.Int)}}, true
	}
	y, ok := rhs.Sqrt()
	if !ok {
		return Pt{}, false
	}
	if y.Larger() != greatest {
		y = y.Neg()
	}
	return Pt{X: x, Y: y}, true
}

// --- compressed encodings ---

func put48(b []byte, v *big.Int) { v.FillBytes(b[:48]) }

func Compress1(p Pt) (out [48]byte) {
	if p.Inf {
		out[0] = 0xc0
		return
	}
	put48(out[:], p.X.A)
	out[0] |= 0x80
	if Larger(p.Y.A) {
		out[0] |= 0x20
	}
	return
}
func Compress2(p Pt) (out [96]byte) {
	if p.Inf {
		out[0] = 0xc0
		return
	}
	put48(out[:48], p.X.B)
	put48(out[48:], p.X.A)
	out[0] |= 0x80
	if p.Y.Larger() {
		out[0] |= 0x20
	}
	return
}

// Decode decodes a compressed point of either group. checked demands the
// prime-order subgroup.
func Decode(b []byte, checked bool) (Pt, bool) {
	if b[0]&0x80 == 0 {
		return Pt{}, false
	}
	rest := append([]byte{b[0] & 0x1f}, b[1:]...)
	if b[0]&0x40 != 0 {
		if b[0]&0x20 != 0 {
			return Pt{}, false
		}
		for _, v := range rest {
			if v != 0 {
				return Pt{}, false
			}
		}
		return Inf, true
	}
	c := E1
	var x F2
	if len(b) == 48 {
		x = F2{new(big.Int).SetBytes(rest), new(big.Int)}
	} else {
		c = E2
		x = F2{new(big.Int).SetBytes(rest[48:]), new(big.Int).SetBytes(rest[:48])}
	}
	if x.A.Cmp(P) >= 0 || x.B.Cmp(P) >= 0 {
		return Pt{}, false
	}
	p, ok := c.FromX(x, b[0]&0x20 != 0)
	if !ok {
		return Pt{}, false
	}
	if checked && !c.Mul(p, R).Inf {
		return Pt{}, false
	}
	return p, true
}

// --- pairing: reduced optimal ate, naive ---

// Miller computes f_{|x|,Q}(P), conjugated because x < 0, with lines scaled by
// w^3 (killed by the final exponentiation).
func Miller(p, q Pt) F12 {
	if p.Inf || q.Inf {
		return F12One
	}
	line := func(t Pt, l F2) F12 {
		r := F12Zero
		r[0] = l.Mul(t.X).Sub(t.Y)
		r[2] = l.Mul(p.X).Neg()
		r[3] = p.Y
		return r
	}
	f := F12One
	t := q
	for i := X.BitLen() - 2; i >= 0; i-- {
		l := t.X.Sq().MulI(3).Mul(t.Y.MulI(2).Inv())
		f = f.Mul(f).Mul(line(t, l))
		t = E2.Add(t, t)
		if X.Bit(i) == 1 {
			l := q.Y.Sub(t.Y).Mul(q.X.Sub(t.X).Inv())
			f = f.Mul(line(t, l))
			t = E2.Add(t, q)
		}
	}
	return f.Conj()
}

var hardExp = func() *big.Int { // (p^4-p^2+1)/r
	p2 := new(big.Int).Mul(P, P)
	e := new(big.Int).Mul(p2, p2)
	e.Sub(e, p2)
	e.Add(e, One)
	q, m := new(big.Int).DivMod(e, R, new(big.Int))
	if m.Sign() != 0 {
		panic("ref: r does not divide p^4-p^2+1")
	}
	return q
}()

// FinalExp is f^(K (p^12-1)/r), K = 3: the multiple of the exponent that the
// library's addition chain computes, as in other BLS12-381 implementations.
func FinalExp(f F12) F12 {
	f = f.Conj().Mul(f.Inv())
	f = f.Frob(2).Mul(f)
	f = f.Exp(hardExp)
	return f.Mul(f).Mul(f)
}
func Pair(p, q Pt) F12 { return FinalExp(Miller(p, q)) }

// --- hashing (the 2019 draft the library implements) ---

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// hashToField: i-th component from SHA-256, two blocks, reduced mod m.
func hashToField(msg []byte, ctr []byte, i byte, m *big.Int) *big.Int {
	mp := append(sha(msg), ctr...)
	t := append(sha(mp, []byte{i, 1}), sha(mp, []byte{i, 2})...)
	v := new(big.Int).SetBytes(t)
	return v.Mod(v, m)
}

func DeriveSecret(b []byte) *big.Int { return hashToField(b, []byte{0}, 1, R) }

func suite(msg []byte) []byte { return append([]byte{1}, msg...) }

// sgn: is a "negative" (larger than its negation)?
func neg1(a *big.Int) bool { return Larger(a) }

// SSWU maps t to the curve c (which has A, B != 0) with non-residue z.
// fp says that everything lives in Fp.
func SSWU(c Curve, z, t F2, fp bool) Pt {
	zt2 := z.Mul(t.Sq())
	d := zt2.Sq().Add(zt2)
	var x F2
	if d.IsZero() {
		x = c.B.Mul(z.Mul(c.A).Inv())
	} else {
		x = c.B.Neg().Mul(c.A.Inv()).Mul(F2One.Add(d.Inv()))
	}
	sqrt := func(v F2) (F2, bool) {
		if fp {
			r := Sqrt(v.A)
			if r == nil {
				return F2{}, false
			}
			return F2{r, new(big.Int)}, true
		}
		return v.Sqrt()
	}
	y, ok := sqrt(c.RHS(x))
	if !ok {
		x = zt2.Mul(x)
		y, ok = sqrt(c.RHS(x))
		if !ok {
			panic("ref: SSWU")
		}
	}
	if y.Larger() != t.Larger() {
		y = y.Neg()
	}
	return Pt{X: x, Y: y}
}

var (
	// the 11-isogenous and 3-isogenous curves
	Iso1 = Curve{F2{hexInt("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"), Zero},
		F2{hexInt("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"), Zero}}
	Iso2 = Curve{F2i(0, 240), F2i(1012, 1012)}
)

func poly(cs []F2, x F2) F2 {
	r := F2Zero
	xn := F2One
	for _, c := range cs {
		r = r.Add(c.Mul(xn))
		xn = xn.Mul(x)
	}
	return r
}

// IsoMap applies the rational map given by xnum, xden, ynum, yden.
func IsoMap(m [4][]F2, p Pt) Pt {
	if p.Inf {
		return p
	}
	xd, yd := poly(m[1], p.X), poly(m[3], p.X)
	if xd.IsZero() || yd.IsZero() {
		return Inf
	}
	return Pt{X: poly(m[0], p.X).Mul(xd.Inv()), Y: p.Y.Mul(poly(m[2], p.X)).Mul(yd.Inv())}
}

var (
	heff1 = new(big.Int).Add(X, One)
	// 3 (x^2-1) h2
	heff2 = func() *big.Int {
		e := new(big.Int).Mul(X, X)
		e.Sub(e, One)
		e.Mul(e, big.NewInt(3))
		return e.Mul(e, H2)
	}()
	zG1 = F2{Sub(Zero, One), Zero}
)

func HashG1(msg []byte) Pt {
	s := suite(msg)
	var p [2]Pt
	for i := range p {
		t := F2{hashToField(s, []byte{byte(i)}, 1, P), Zero}
		p[i] = SSWU(Iso1, zG1, t, true)
	}
	return E1.Mul(IsoMap(Iso11, Iso1.Add(p[0], p[1])), heff1)
}

func HashG2(msg []byte) Pt {
	s := suite(msg)
	var p [2]Pt
	for i := range p {
		t := F2{hashToField(s, []byte{byte(i)}, 1, P), hashToField(s, []byte{byte(i)}, 2, P)}
		p[i] = SSWU(Iso2, Xi, t, false)
	}
	return E2.Mul(IsoMap(Iso3, Iso2.Add(p[0], p[1])), heff2)
}

func HashG2Domain(m [32]byte, d [8]byte) Pt {
	x := F2{new(big.Int).SetBytes(sha(m[:], d[:], []byte{1})), new(big.Int).SetBytes(sha(m[:], d[:], []byte{2}))}
	for {
		if p, ok := E2.FromX(x, true); ok {
			return E2.Mul(p, H2)
		}
		x = x.Add(F2One)
	}
}
