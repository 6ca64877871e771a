package main

// C05 strict decoding, C06 round trips, C07 hashing, C08 group law, C09
// scalar multiplication, C20 equality and order, C22 field-to-curve maps.

import (
	"bytes"
	"fmt"
	"math/big"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C08"] = c08
	props["C09"] = c09
	props["C20"] = c20
	props["C22"] = c22
}

func ptArgs(p ref.Pt) []byte {
	if p.Inf {
		return []byte{0}
	}
	var b [192]byte
	p.X.A.FillBytes(b[:48])
	p.X.B.FillBytes(b[48:96])
	p.Y.A.FillBytes(b[96:144])
	p.Y.B.FillBytes(b[144:])
	if p.X.B.Sign() == 0 && p.Y.B.Sign() == 0 {
		return append(append([]byte{}, b[:48]...), b[96:144]...)
	}
	return b[:]
}

// zval is a nonzero projective denominator.
func zval(c *mon.Rng, g *group) ref.F2 {
	for {
		z := fp2(c)
		if !g.g2 {
			z.B = new(big.Int)
		}
		switch c.Intn(4) {
		case 0:
			z = ref.F2One
		case 1:
			z = ref.F2One.Neg()
		}
		if !z.IsZero() {
			return z
		}
	}
}

// mkP builds a projective representation of p. Representations of infinity have
// any x and y.
func mkP(c *mon.Rng, g *group, p ref.Pt) (proj, ref.F2) {
	z := zval(c, g)
	if p.Inf && c.OneIn(3) {
		return g.toP(g.A(ref.Inf)), ref.F2Zero
	}
	return g.P(p, z), z
}

func phi(p ref.Pt, n int) ref.Pt {
	if p.Inf {
		return p
	}
	for ; n > 0; n-- {
		p.X = p.X.Mul(ref.F2{A: ref.Beta, B: new(big.Int)})
	}
	return p
}

type ptPool struct {
	g    *group
	subs []kpt
	offs []ref.Pt // outside the subgroup, including small order
}

func newPool(c *mon.Rng, g *group, n int) *ptPool {
	pp := &ptPool{g: g, subs: pool(c, g.e, g.g, n)}
	for _, l := range torsionOrders[g.g2] {
		pp.offs = append(pp.offs, torsion(c, g.g2, l))
	}
	t := pp.offs[0]
	pp.offs = append(pp.offs, g.e.Add(t, g.g), g.e.Add(t, pp.offs[1]))
	for i := 0; i < 8; i++ {
		pp.offs = append(pp.offs, curvePt(c, g.e))
	}
	for n := 0; n < 6; { // y real or imaginary, or near the middle of the field
		y := ref.F2{A: fp(c), B: new(big.Int)}
		if n >= 3 {
			y.A = new(big.Int).Add(new(big.Int).Rsh(ref.P, 1), bi(int64(c.Between(-1, 2))))
		}
		if g.g2 && n%2 == 1 {
			y.A, y.B = y.B, y.A
		} else if g.g2 && n == 4 {
			y.B = fp(c)
		}
		if p, ok := g.e.FromY(y); ok {
			pp.offs = append(pp.offs, p)
			n++
		} else if n >= 3 && c.OneIn(20) { // too few candidates
			n++
		}
	}
	if !g.g2 { // x = 0 is on the curve
		two := ref.F2i(2, 0)
		pp.offs = append(pp.offs, ref.Pt{X: ref.F2Zero, Y: two}, ref.Pt{X: ref.F2Zero, Y: two.Neg()})
	}
	return pp
}

// fresh draws a point: subgroup, whole curve, or infinity; and keeps the pool
// moving by random additions.
func (pp *ptPool) fresh(c *mon.Rng) ref.Pt {
	switch c.Intn(12) {
	case 0:
		return ref.Inf
	case 1, 2:
		return pp.offs[c.Intn(len(pp.offs))]
	case 3:
		return phi(pp.subs[c.Intn(len(pp.subs))].P, c.Between(1, 2))
	}
	i, j := c.Intn(len(pp.subs)), c.Intn(len(pp.subs))
	s := addK(pp.subs[i], pp.subs[j], pp.g.e)
	if !s.P.Inf && i > 2 {
		pp.subs[i] = s
	}
	return s.P
}

func (pp *ptPool) related(c *mon.Rng, p ref.Pt) ref.Pt {
	switch c.Intn(12) {
	case 0:
		return p
	case 1:
		return p.Neg()
	case 2:
		return phi(p, c.Between(1, 2)) // same y
	case 3:
		return phi(p.Neg(), c.Between(1, 2))
	case 4:
		return pp.g.e.Add(p, p)
	case 5:
		return pp.g.e.Add(p, p).Neg()
	case 6:
		return ref.Inf
	}
	return pp.fresh(c)
}

func c08(c *C) {
	for gi, g := range groups {
		pp := newPool(c.Rng, g, 16)
		checkP := func(r proj, want ref.Pt, what string) {
			if got := g.oP(r); !got.Eq(want) {
				c.Fail("%s %s: got %x, want %x", g.name, what, ptArgs(got), ptArgs(want))
				return
			}
			c.Check(g.zP(r) == want.Inf, "%s %s: IsZero is %v", g.name, what, g.zP(r))
		}
		checkA := func(r aff, want ref.Pt, what string) {
			if got := g.oA(r); !got.Eq(want) {
				c.Fail("%s %s: got %x, want %x", g.name, what, ptArgs(got), ptArgs(want))
				return
			}
			c.Check(g.zA(r) == want.Inf, "%s %s: IsZero is %v", g.name, what, g.zA(r))
			c.Check(g.on(r), "%s %s: the result is not on the curve", g.name, what)
		}
		n := c.N([]int{60000, 25000}[gi])
		for ; n > 0; n-- {
			p := pp.fresh(c.Rng)
			q := pp.related(c.Rng, p)
			P, z1 := mkP(c.Rng, g, p)
			Q, z2 := mkP(c.Rng, g, q)
			switch c.Intn(6) { // equal or opposite denominators
			case 0:
				if !q.Inf && !z1.IsZero() {
					Q, z2 = g.P(q, z1), z1
				}
			case 1:
				if !q.Inf && !z1.IsZero() {
					z2 = z1.Neg()
					Q = g.P(q, z2)
				}
			}
			c.Case(g.name+" group law", ptArgs(p), ptArgs(q), z1.A, z2.A)
			sum := g.e.Add(p, q)
			checkP(g.add(P, Q), sum, "P+Q")
			checkP(g.add(Q, P), sum, "Q+P")
			A, B := g.A(p), g.A(q)
			checkP(g.addA(P, B), sum, "P+Q mixed")
			checkP(g.addA(Q, A), sum, "Q+P mixed")
			checkP(g.dbl(P), g.e.Add(p, p), "2P")
			checkA(A, p, "affine")
			checkA(g.toA(P), p, "ToAffine")
			checkP(g.toP(A), p, "ToProjective")
			checkP(P, p, "operand after use")
			checkP(Q, q, "operand after use")
			g.negA(A)
			checkA(A, p.Neg(), "-P affine")
			if g.negP != nil {
				N := g.cpP(P)
				g.negP(N)
				checkP(N, p.Neg(), "-P")
				checkP(g.add(N, P), ref.Inf, "P-P")
			}
			checkP(g.addA(P, A), ref.Inf, "P-P mixed")
			checkP(g.add(P, P), g.e.Add(p, p), "P+P, same object")
			checkP(g.addA(P, g.A(p)), g.e.Add(p, p), "P+P mixed")
			if c.OneIn(8) { // results feed back as operands
				R := g.add(P, Q)
				S := g.add(R, g.dbl(Q))
				want := g.e.Add(sum, g.e.Add(q, q))
				checkP(S, want, "(P+Q)+2Q")
				T := g.add(S, g.toP(g.toA(R)))
				checkP(T, g.e.Add(want, sum), "chain")
				checkP(g.cpP(T), g.e.Add(want, sum), "copy")
				checkA(g.cpA(g.toA(T)), g.e.Add(want, sum), "affine copy")
			}
		}
		// points that are not on the curve are recognised
		for n := c.N(4000); n > 0; n-- {
			x, y := fp2(c.Rng), fp2(c.Rng)
			if !g.g2 {
				x.B, y.B = new(big.Int), new(big.Int)
			}
			p := ref.Pt{X: x, Y: y}
			if c.Bool() { // one coordinate off
				p = pp.fresh(c.Rng)
				if p.Inf {
					continue
				}
				d := ref.F2i(1, 0)
				if g.g2 && c.Bool() {
					d = ref.F2i(0, 1)
				}
				switch c.Intn(3) {
				case 0:
					p.X = p.X.Add(d)
				case 1:
					p.Y = p.Y.Add(d)
				case 2:
					if g.g2 {
						p.Y = p.Y.Conj()
					} else {
						p.Y = p.Y.Add(p.Y)
					}
				}
			}
			c.Case(g.name+" on-curve test", ptArgs(p))
			c.Check(g.on(g.A(p)) == g.e.On(p), "%s IsOnCurve of %x gave %v", g.name, ptArgs(p), !g.e.On(p))
		}
	}
}

func c09(c *C) {
	for gi, g := range groups {
		pp := newPool(c.Rng, g, 12)
		check := func(r proj, want ref.Pt, what string) {
			if got := g.oP(r); !got.Eq(want) {
				c.Fail("%s %s: got %x, want %x", g.name, what, ptArgs(got), ptArgs(want))
			}
		}
		pick := func() ref.Pt {
			if c.OneIn(3) {
				return pp.offs[c.Intn(len(pp.offs))]
			}
			return pp.fresh(c.Rng)
		}
		// small scalars against every kind of point: 0..40, r-20..r+20
		p := pick()
		acc := ref.Inf
		for k := int64(0); k <= 40; k++ {
			if c.Mine(int(k)) {
				c.Case(g.name+" small multiple", ptArgs(p), int(k))
				check(g.mulA(g.A(p), bls.NewFQRepr(uint64(k))), acc, "small multiple")
				check(g.frA(g.A(p), bls.NewFRRepr(uint64(k))), acc, "small multiple")
			}
			acc = g.e.Add(acc, p)
		}
		for d := int64(-20); d <= 20; d++ {
			if c.Mine(int(d) + 20) {
				s := pp.subs[c.Intn(len(pp.subs))].P
				k := new(big.Int).Add(ref.R, bi(d))
				c.Case(g.name+" multiple near the order", ptArgs(s), k)
				var want ref.Pt
				if d >= 0 {
					want = g.e.Mul(s, bi(d))
				} else {
					want = g.e.Mul(s, bi(-d)).Neg()
				}
				check(g.frA(g.A(s), rrep(k)), want, "multiple near the order")
				check(g.mulA(g.A(s), qrep(k)), want, "multiple near the order")
			}
		}
		for n := c.N([]int{5000, 2200}[gi]); n > 0; n-- {
			p := pick()
			k := scalar(c.Rng, 256)
			if c.OneIn(3) {
				k = scalar(c.Rng, 64)
			}
			c.Case(g.name+" scalar multiplication", ptArgs(p), k)
			want := g.e.Mul(p, k)
			A := g.A(p)
			P, _ := mkP(c.Rng, g, p)
			check(g.frA(A, rrep(k)), want, "affine MulFR")
			check(g.frP(P, rrep(k)), want, "projective MulFR")
			check(g.mulA(A, qrep(k)), want, "affine Mul")
			check(g.mulP(P, qrep(k)), want, "projective Mul")
			if g.g2 {
				check(A.(*bls.G2Affine).MulBig(*k), want, "MulBig")
			}
			c.Check(g.oA(A).Eq(p) && g.oP(P).Eq(p), "%s: the point changed", g.name)
		}
		for n := c.N([]int{1200, 600}[gi]); n > 0; n-- { // long scalars
			p := pick()
			k := scalar(c.Rng, 384)
			c.Case(g.name+" 384-bit scalar", ptArgs(p), k)
			want := g.e.Mul(p, k)
			P, _ := mkP(c.Rng, g, p)
			check(g.mulA(g.A(p), qrep(k)), want, "affine Mul")
			check(g.mulP(P, qrep(k)), want, "projective Mul")
			if g.g2 && c.OneIn(3) {
				k = scalar(c.Rng, uint(c.Between(1, 700)))
				check(bls.G2Affine(*g.A(p).(*bls.G2Affine)).MulBig(*k), g.e.Mul(p, k), "MulBig")
			}
		}
		// cofactor and subgroup membership
		for n := c.N([]int{1500, 500}[gi]); n > 0; n-- {
			p := pick()
			if c.OneIn(4) {
				p = curvePt(c.Rng, g.e)
			}
			if c.OneIn(5) { // a subgroup point plus small-order noise
				p = g.e.Add(pp.subs[c.Intn(len(pp.subs))].P, pp.offs[c.Intn(5)])
			}
			c.Case(g.name+" cofactor and subgroup", ptArgs(p))
			r := g.cof(g.A(p))
			check(r, g.e.Mul(p, g.h), "cofactor multiplication")
			in := g.e.Mul(p, ref.R).Inf
			c.Check(g.sub(g.A(p)) == in, "%s subgroup test of %x gave %v", g.name, ptArgs(p), !in)
			c.Check(g.sub(g.toA(r)), "%s: cofactor multiple of %x is outside the subgroup", g.name, ptArgs(p))
			if !g.g2 {
				q := og1a(bls.ClearH(g1a(p)))
				want := g.e.Mul(p, new(big.Int).Add(ref.X, ref.One))
				c.Check(q.Eq(want), "ClearH of %x gave %x", ptArgs(p), ptArgs(q))
			}
		}
		// linearity in the scalar, with results used as operands
		for n := c.N([]int{1500, 600}[gi]); n > 0; n-- {
			p := pp.subs[c.Intn(len(pp.subs))]
			a, b := scalar(c.Rng, 255), scalar(c.Rng, 255)
			c.Case(g.name+" nested multiplication", ptArgs(p.P), a, b)
			x := g.frP(g.frA(g.A(p.P), rrep(a)), rrep(b))
			y := g.frP(g.frA(g.A(p.P), rrep(b)), rrep(a))
			ab := new(big.Int).Mul(a, b)
			z := g.frA(g.A(p.P), rrep(ab.Mod(ab, ref.R)))
			c.Check(g.eqP(x, y) && g.eqP(x, z), "%s: a(bP), b(aP) and (ab)P differ", g.name)
			s := new(big.Int).Add(a, b)
			u := g.add(g.frA(g.A(p.P), rrep(a)), g.frA(g.A(p.P), rrep(b)))
			c.Check(g.eqP(u, g.mulA(g.A(p.P), qrep(s))), "%s: aP + bP and (a+b)P differ", g.name)
		}
	}
}

// decodeCases yields encodings of one group with how they were made.
func encoding(c *C, g *group, pp *ptPool) (string, []byte) {
	comp := func(p ref.Pt) []byte {
		if g.g2 {
			b := ref.Compress2(p)
			return b[:]
		}
		b := ref.Compress1(p)
		return b[:]
	}
	withX := func(hi, lo *big.Int, flags byte) []byte { // hi is the u coefficient
		b := make([]byte, g.size)
		if g.g2 {
			hi.FillBytes(b[:48])
			lo.FillBytes(b[48:])
		} else {
			lo.FillBytes(b)
		}
		b[0] |= flags
		return b
	}
	sub := func() ref.Pt { return pp.subs[c.Intn(len(pp.subs))].P }
	switch c.Intn(17) {
	case 0, 1:
		p := pp.fresh(c.Rng)
		if p.Inf {
			p = sub()
		}
		return "valid or off-subgroup point", comp(p)
	case 2:
		return "off-subgroup point", comp(pp.offs[c.Intn(len(pp.offs))])
	case 3:
		return "subgroup plus torsion", comp(g.e.Add(sub(), pp.offs[c.Intn(5)]))
	case 4: // flags replaced
		b := comp(sub())
		b[0] = b[0]&0x1f | byte(c.Intn(8))<<5
		return "point with other flags", b
	case 5:
		b := make([]byte, g.size)
		b[0] = byte(c.Intn(8)) << 5
		return "zero body with any flags", b
	case 6: // infinity with one stray bit
		b := make([]byte, g.size)
		b[0] = 0xc0
		b[c.Intn(g.size)] ^= 1 << c.Intn(8)
		return "infinity with a stray bit", b
	case 7:
		b := make([]byte, g.size)
		b[0] = 0xc0
		for i := c.Between(1, 3); i > 0; i-- {
			b[c.Intn(g.size)] = byte(c.U64())
		}
		return "infinity with stray bytes", b
	case 8, 9: // x + p: the same residue, not canonical
		lim := new(big.Int).Sub(pow2(381), ref.P)
		for i := 0; i < 400; i++ {
			x := ref.F2{A: c.Big(lim), B: new(big.Int)}
			if c.OneIn(4) {
				x.A = bi(int64(c.Intn(1000)))
			}
			if g.g2 {
				x.B = c.Big(ref.P)
				if c.Bool() {
					x.B = c.Big(lim)
				}
				if c.Bool() && x.B.Cmp(lim) < 0 {
					x.A = c.Big(ref.P)
				}
			}
			if _, ok := g.e.FromX(x, false); !ok {
				continue
			}
			hi, lo := new(big.Int).Set(x.B), new(big.Int).Set(x.A)
			if g.g2 && hi.Cmp(lim) < 0 && (c.Bool() || lo.Cmp(lim) >= 0) {
				hi.Add(hi, ref.P)
				if c.OneIn(4) && lo.Cmp(lim) < 0 {
					lo.Add(lo, ref.P)
				}
			} else if lo.Cmp(lim) < 0 {
				lo.Add(lo, ref.P)
			}
			if lo.BitLen() > 384 || hi.BitLen() > 381 {
				continue
			}
			return "x not reduced", withX(hi, lo, 0x80|byte(c.Intn(2))<<5)
		}
		fallthrough
	case 10: // coordinates around the modulus and above
		pickHigh := func(bits uint) *big.Int {
			switch c.Intn(4) {
			case 0:
				return new(big.Int).Add(ref.P, bi(int64(c.Between(-3, 3))))
			case 1:
				v := new(big.Int).Sub(pow2(bits), bi(int64(c.Between(1, 4))))
				return v
			case 2: // one limb above the modulus's
				v := limbs6(ref.P)
				v[c.Intn(6)] += uint64(c.Between(1, 3))
				r := fromLimbs(v[:])
				if r.BitLen() > int(bits) {
					return ref.P
				}
				return r
			}
			v := new(big.Int).Sub(pow2(bits), ref.P)
			return new(big.Int).Add(ref.P, c.Big(v))
		}
		hi, lo := fp(c.Rng), fp(c.Rng)
		if g.g2 {
			switch c.Intn(3) {
			case 0:
				hi = pickHigh(381)
			case 1:
				lo = pickHigh(384)
			default:
				hi, lo = pickHigh(381), pickHigh(384)
			}
		} else {
			lo = pickHigh(381)
		}
		return "x not below the modulus", withX(hi, lo, 0x80|byte(c.Intn(2))<<5)
	case 11: // x alone, half of them not on the curve
		x := fp2(c.Rng)
		if !g.g2 {
			x.B = new(big.Int)
		}
		return "any x", withX(x.B, x.A, 0x80|byte(c.Intn(2))<<5)
	case 12: // small x
		return "small x", withX(bi(int64(c.Intn(4))), bi(int64(c.Intn(300))), 0x80|byte(c.Intn(2))<<5)
	case 13: // one bit flipped
		b := comp(sub())
		b[c.Intn(len(b))] ^= 1 << c.Intn(8)
		return "bit flip", b
	case 14:
		b := c.Bytes(g.size)
		return "random bytes", b
	case 15:
		b := c.Bytes(g.size)
		b[0] = b[0]&0x1f | 0x80 | byte(c.Intn(2))<<5
		if g.g2 {
			b[0] &^= 0x18
			b[48] &= 0x0f
		}
		return "random x", b
	default:
		return "valid point", comp(sub())
	}
}

func c05(c *C) {
	type des struct {
		name string
		f    func([]byte) ([]byte, bool)
	}
	keyDec := map[*group][]des{
		grpG1: {
			{"g1pubs.DeserializePublicKey", func(b []byte) ([]byte, bool) {
				var x [48]byte
				copy(x[:], b)
				k, err := g1pubs.DeserializePublicKey(x)
				if err != nil {
					return nil, false
				}
				o := k.Serialize()
				return o[:], true
			}},
			{"g2pubs.DeserializeSignature", func(b []byte) ([]byte, bool) {
				var x [48]byte
				copy(x[:], b)
				k, err := g2pubs.DeserializeSignature(x)
				if err != nil {
					return nil, false
				}
				o := k.Serialize()
				return o[:], true
			}},
		},
		grpG2: {
			{"g2pubs.DeserializePublicKey", func(b []byte) ([]byte, bool) {
				var x [96]byte
				copy(x[:], b)
				k, err := g2pubs.DeserializePublicKey(x)
				if err != nil {
					return nil, false
				}
				o := k.Serialize()
				return o[:], true
			}},
			{"g1pubs.DeserializeSignature", func(b []byte) ([]byte, bool) {
				var x [96]byte
				copy(x[:], b)
				k, err := g1pubs.DeserializeSignature(x)
				if err != nil {
					return nil, false
				}
				o := k.Serialize()
				return o[:], true
			}},
		},
	}
	one := func(g *group, what string, b []byte) {
		in := append([]byte(nil), b...)
		c.Case(g.name+" "+what, in)
		wantU, okU := ref.Decode(b, false)
		a, err := g.decU(b)
		if (err == nil) != okU {
			c.Fail("%s unchecked decoding: accepted is %v, should be %v (%v)", g.name, err == nil, okU, err)
			return
		}
		if okU {
			if got := g.oA(a); !got.Eq(wantU) {
				c.Fail("%s unchecked decoding gave %x, want %x", g.name, ptArgs(got), ptArgs(wantU))
			}
			c.Check(bytes.Equal(g.comp(a), in), "%s: re-encoding gives %x", g.name, g.comp(a))
			c.Count("accepted unchecked", 1)
		}
		okC := okU && (wantU.Inf || g.e.Mul(wantU, ref.R).Inf)
		a, err = g.dec(b)
		if (err == nil) != okC {
			c.Fail("%s decoding: accepted is %v, should be %v (%v)", g.name, err == nil, okC, err)
			return
		}
		if okC {
			if got := g.oA(a); !got.Eq(wantU) {
				c.Fail("%s decoding gave %x, want %x", g.name, ptArgs(got), ptArgs(wantU))
			}
			c.Check(bytes.Equal(g.comp(a), in), "%s: re-encoding gives %x", g.name, g.comp(a))
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		for _, d := range keyDec[g] {
			out, ok := d.f(b)
			if ok != okC {
				c.Fail("%s: accepted is %v, should be %v", d.name, ok, okC)
			} else if ok {
				c.Check(bytes.Equal(out, in), "%s: re-encoding gives %x", d.name, out)
			}
		}
		c.Check(bytes.Equal(b, in), "input changed")
	}
	for gi, g := range groups {
		pp := newPool(c.Rng, g, 24)
		// each flag combination with each kind of body, and each position of a
		// single stray bit in the encoding of infinity
		k := 0
		for f := 0; f < 8; f++ {
			for kind := 0; kind < 7; kind++ {
				if k++; !c.Mine(k) {
					continue
				}
				b := make([]byte, g.size)
				switch kind {
				case 0:
				case 1:
					copy(b, g.comp(g.A(g.g)))
				case 2:
					copy(b, g.comp(g.A(pp.offs[c.Intn(len(pp.offs))])))
				case 3:
					b[g.size-1] = 1
				case 4:
					ref.P.FillBytes(b[g.size-48:])
				case 5:
					copy(b, c.Bytes(g.size))
				case 6:
					for i := range b {
						b[i] = 0xff
					}
				}
				b[0] = b[0]&0x1f | byte(f)<<5
				one(g, "flags and body", b)
			}
		}
		for bit := 0; bit < 8*g.size; bit++ {
			if c.Mine(bit) {
				b := make([]byte, g.size)
				b[0] = 0xc0
				b[bit/8] ^= 0x80 >> (bit % 8)
				one(g, "infinity with each bit flipped", b)
			}
		}
		n := c.N([]int{9000, 5200}[gi])
		for ; n > 0; n-- {
			what, b := encoding(c, g, pp)
			one(g, what, b)
		}
	}
}

func c06(c *C) {
	for gi, g := range groups {
		pp := newPool(c.Rng, g, 24)
		for n := c.N([]int{20000, 9000}[gi]); n > 0; n-- {
			p := pp.fresh(c.Rng)
			// points whose coordinates sit on boundaries
			if c.OneIn(6) {
				p = curvePt(c.Rng, g.e)
			}
			c.Case(g.name+" encodings", ptArgs(p))
			A := g.A(p)
			b := g.comp(A)
			var want []byte
			if g.g2 {
				w := ref.Compress2(p)
				want = w[:]
			} else {
				w := ref.Compress1(p)
				want = w[:]
			}
			c.Check(bytes.Equal(b, want), "%s compressed form is %x, want %x", g.name, b, want)
			d, err := g.decU(b)
			if c.Check(err == nil, "%s: own encoding rejected: %v", g.name, err) {
				c.Check(g.oA(d).Eq(p) && g.eqA(d, A), "%s: compressed round trip gave %x", g.name, ptArgs(g.oA(d)))
			}
			P, _ := mkP(c.Rng, g, p)
			c.Check(bytes.Equal(g.comp(g.toA(P)), b), "%s: encoding depends on the representation", g.name)
			if c.OneIn(4) && g.e.Mul(p, ref.R).Inf {
				d, err := g.dec(b)
				c.Check(err == nil && g.oA(d).Eq(p), "%s: checked round trip of a subgroup point", g.name)
			}
			c.Check(g.strA(A) == g.strA(g.cpA(A)) && g.strP(P) == g.strP(g.cpP(P)), "%s: a copy prints differently", g.name)
			if !p.Inf { // raw form: no infinity
				r := g.raw(A)
				var wr []byte
				for _, v := range []ref.F2{p.X, p.Y} {
					var t [48]byte
					v.A.FillBytes(t[:])
					wr = append(wr, t[:]...)
					if g.g2 {
						v.B.FillBytes(t[:])
						wr = append(wr, t[:]...)
					}
				}
				c.Check(bytes.Equal(r, wr), "%s raw form is %x, want %x", g.name, r, wr)
				var dst aff // a fresh or a used receiver
				switch c.Intn(4) {
				case 0:
					dst = g.A(ref.Inf)
				case 1:
					dst = g.A(g.g)
				case 2:
					if g.g2 {
						dst = &bls.G2Affine{}
					} else {
						dst = &bls.G1Affine{}
					}
				default:
					dst = g.A(pp.fresh(c.Rng))
				}
				err := g.setRaw(dst, r)
				c.Check(err == nil, "%s: own raw form rejected: %v", g.name, err)
				c.Check(!g.zA(dst) && g.oA(dst).Eq(p) && g.eqA(dst, A), "%s: raw round trip gave %x", g.name, ptArgs(g.oA(dst)))
				c.Check(bytes.Equal(g.comp(dst), b), "%s: raw round trip compresses to %x", g.name, g.comp(dst))
				// the string form shows the coordinates
				s := g.strA(A)
				for _, h := range []*big.Int{p.X.A, p.Y.A} {
					c.Check(bytes.Contains([]byte(s), []byte(zpad(h, 96))), "%s: string form %s lacks a coordinate", g.name, s)
				}
				c.Check(g.strP(P) == s, "%s: string form depends on the representation", g.name)
			}
		}
	}
	// the raw form carries any coordinates, on the curve or not
	for gi, g := range groups {
		for n := c.N([]int{6000, 6000}[gi]); n > 0; n-- {
			co := func() *big.Int {
				switch c.Intn(3) {
				case 0:
					return new(big.Int)
				case 1:
					return bi(int64(c.Intn(3)))
				}
				return fp(c.Rng)
			}
			p := ref.Pt{X: ref.F2{A: co(), B: new(big.Int)}, Y: ref.F2{A: co(), B: new(big.Int)}}
			cs := []*big.Int{p.X.A, p.Y.A}
			if g.g2 {
				p.X.B, p.Y.B = co(), co()
				cs = []*big.Int{p.X.A, p.X.B, p.Y.A, p.Y.B}
			}
			var raw []byte
			for _, v := range cs {
				var t [48]byte
				v.FillBytes(t[:])
				raw = append(raw, t[:]...)
			}
			A := g.A(p)
			var dst aff
			switch c.Intn(5) {
			case 0, 1:
				dst = g.A(ref.Inf)
				if c.Bool() {
					dst = g.toA(g.P(ref.Inf, ref.F2One))
				}
			case 2:
				dst = g.A(g.g)
			case 3:
				if g.g2 {
					dst = &bls.G2Affine{}
				} else {
					dst = &bls.G1Affine{}
				}
			default:
				dst = A
			}
			c.Case(g.name+" raw form of any coordinates", raw)
			c.Count("raw forms of any coordinates", 1)
			c.Check(bytes.Equal(g.raw(A), raw), "%s: raw form is %x, want %x", g.name, g.raw(A), raw)
			err := g.setRaw(dst, raw)
			c.Check(err == nil, "%s: own raw form rejected: %v", g.name, err)
			c.Check(!g.zA(dst), "%s: the point read from raw form %x is infinity", g.name, raw)
			c.Check(bytes.Equal(g.raw(dst), raw), "%s: raw round trip of %x gives %x", g.name, raw, g.raw(dst))
			c.Check(g.eqA(dst, A) && g.eqA(A, dst), "%s: raw round trip of %x differs", g.name, raw)
			c.Check(g.strA(dst) == g.strA(A), "%s: raw round trip of %x prints differently", g.name, raw)
		}
	}
	// a raw form with a coordinate outside the field is refused, G2 only
	for n := c.N(2000); n > 0; n-- {
		var b [192]byte
		for i := 0; i < 4; i++ {
			fp(c.Rng).FillBytes(b[48*i : 48*i+48])
		}
		i := c.Intn(4)
		v := new(big.Int).Add(ref.P, c.Big(new(big.Int).Sub(pow2(384), ref.P)))
		if c.OneIn(3) {
			v = new(big.Int).Add(ref.P, bi(int64(c.Intn(3))))
		}
		v.FillBytes(b[48*i : 48*i+48])
		c.Case("G2 raw form out of range", b[:])
		var p bls.G2Affine
		c.Check(p.SetRawBytes(b) != nil, "G2 SetRawBytes accepted coordinate %d = %v", i, v)
	}
	// keys and signatures
	for _, s := range schemes {
		for n := c.N(900); n > 0; n-- {
			k := secret(c.Rng)
			c.Case(s.name+" key and signature encodings", k)
			sk := s.skey(k)
			kb := s.skBytes(sk)
			c.Check(new(big.Int).SetBytes(kb).Cmp(k) == 0 && len(kb) == 32, "secret key %v encodes as %x", k, kb)
			sk2 := s.skParse(kb)
			if c.Check(sk2 != nil, "own secret key encoding rejected") {
				c.Check(bytes.Equal(s.skBytes(sk2), kb), "secret key round trip")
			}
			pk := s.pub(sk)
			pb := s.pkBytes(pk)
			pk2, err := s.pkParse(pb)
			if c.Check(err == nil, "%s: own public key rejected: %v", s.name, err) {
				c.Check(s.pkEq(pk, pk2) && s.pkEq(pk2, pk) && bytes.Equal(s.pkBytes(pk2), pb), "%s: public key round trip", s.name)
				c.Check(s.pkStr(pk) == s.pkStr(pk2), "%s: public key prints differently after a round trip", s.name)
			}
			c.Check(bytes.Equal(s.pkBytes(s.pkCopy(pk)), pb), "%s: public key copy", s.name)
			sg := s.sign(message(c.Rng, -1), sk)
			sb := s.sgBytes(sg)
			sg2, err := s.sgParse(sb)
			if c.Check(err == nil, "%s: own signature rejected: %v", s.name, err) {
				c.Check(bytes.Equal(s.sgBytes(sg2), sb), "%s: signature round trip", s.name)
				c.Check(s.sgStr(sg) == s.sgStr(sg2), "%s: signature prints differently after a round trip", s.name)
			}
			c.Check(bytes.Equal(s.sgBytes(s.sgCopy(sg)), sb), "%s: signature copy", s.name)
		}
		// blank aggregates
		c.Case(s.name + " blank aggregate encodings")
		b := s.pkBytes(s.pkZero())
		k, err := s.pkParse(b)
		c.Check(err == nil && bytes.Equal(s.pkBytes(k), b) && s.pkEq(k, s.pkZero()), "%s: blank public key round trip", s.name)
		b = s.sgBytes(s.sgZero())
		g, err := s.sgParse(b)
		c.Check(err == nil && bytes.Equal(s.sgBytes(g), b), "%s: blank signature round trip", s.name)
	}
}

func c07(c *C) {
	hashOne := func(m []byte) {
		c.Case("HashG1", m)
		in := append([]byte(nil), m...)
		p := bls.HashG1(m)
		got, want := og1a(p), ref.HashG1(m)
		if !got.Eq(want) {
			c.Fail("HashG1 gave %x, want %x", ptArgs(got), ptArgs(want))
		}
		c.Check(!p.IsZero() && p.IsOnCurve() && p.IsInCorrectSubgroupAssumingOnCurve(), "HashG1 left the group")
		c.Check(p.Equals(bls.HashG1(in)), "HashG1 is not a function of the message")
		c.Case("HashG2", m)
		q := bls.HashG2(m)
		got, want = og2a(q), ref.HashG2(m)
		if !got.Eq(want) {
			c.Fail("HashG2 gave %x, want %x", ptArgs(got), ptArgs(want))
		}
		c.Check(!q.IsZero() && q.IsOnCurve() && q.IsInCorrectSubgroupAssumingOnCurve(), "HashG2 left the group")
		c.Check(bytes.Equal(in, m), "hashing changed the message")
	}
	for i := 0; i < 300+len(msgLens); i++ {
		if c.Mine(i) && (c.Scale >= 0.5 || c.OneIn(4)) {
			hashOne(message(c.Rng, i))
		}
	}
	for _, n := range []int{65535, 65536, 100000, 1 << 20, 1<<22 + 1, 1 << 24, 1<<24 + 1, 1<<25 + 3} {
		if c.Mine(n) || c.Shard == n%3 {
			hashOne(c.Bytes(n))
		}
	}
	last := []byte{0}
	for n := c.N(7000); n > 0; n-- {
		m := message(c.Rng, -1)
		if c.OneIn(3) { // resembling the one before
			m = mutateMsg(c.Rng, last)
		}
		hashOne(m)
		if len(m) < 5000 {
			last = m
		}
	}
	var lm [32]byte
	var ld [8]byte
	for n := c.N(5000); n > 0; n-- {
		var m [32]byte
		var d [8]byte
		copy(m[:], message(c.Rng, 32))
		switch c.Intn(6) {
		case 0:
		case 1:
			d[c.Intn(8)] = byte(1 << c.Intn(8))
		case 2, 3: // resembling the ones before
			m, d = collideMD(c.Rng, lm, ld, c.Intn(5))
		default:
			c.Fill(d[:])
		}
		lm, ld = m, d
		c.Case("HashG2WithDomain", m[:], d[:])
		p := bls.HashG2WithDomain(m, d)
		got, want := og2(p), ref.HashG2Domain(m, d)
		if !got.Eq(want) {
			c.Fail("HashG2WithDomain gave %x, want %x", ptArgs(got), ptArgs(want))
		}
		a := p.ToAffine()
		c.Check(!p.IsZero() && a.IsOnCurve() && a.IsInCorrectSubgroupAssumingOnCurve(), "HashG2WithDomain left the group")
	}
	for n := c.N(4000); n > 0; n-- {
		var b [32]byte
		copy(b[:], message(c.Rng, 32))
		if c.OneIn(3) {
			copy(b[:], collide(c.Rng, lm[:]))
		}
		lm = b
		c.Case("HashSecretKey", b[:])
		c.Check(ofr(bls.HashSecretKey(b)).Cmp(ref.DeriveSecret(b[:])) == 0, "HashSecretKey of %x", b[:])
	}
}

func c20(c *C) {
	for gi, g := range groups {
		pp := newPool(c.Rng, g, 24)
		for n := c.N([]int{60000, 40000}[gi]); n > 0; n-- {
			p := pp.fresh(c.Rng)
			q := pp.related(c.Rng, p)
			P, z1 := mkP(c.Rng, g, p)
			Q, z2 := mkP(c.Rng, g, q)
			A, B := g.A(p), g.A(q)
			c.Case(g.name+" equality", ptArgs(p), ptArgs(q), z1.A, z2.A)
			want := p.Eq(q)
			c.Check(g.eqP(P, Q) == want && g.eqP(Q, P) == want, "%s projective equality is not %v", g.name, want)
			c.Check(g.eqA(A, B) == want && g.eqA(B, A) == want, "%s affine equality is not %v", g.name, want)
			c.Check(g.eqP(P, P) && g.eqA(A, A) && g.eqP(P, g.cpP(P)) && g.eqA(A, g.cpA(A)), "%s equality is not reflexive", g.name)
			P2, _ := mkP(c.Rng, g, p)
			c.Check(g.eqP(P, P2), "%s: two representations of a point differ", g.name)
			c.Check(g.zP(P) == p.Inf && g.zA(A) == p.Inf, "%s IsZero is not %v", g.name, p.Inf)
			if c.OneIn(4) {
				c.Check(bytes.Equal(g.comp(A), g.comp(B)) == want, "%s: equality and encoding disagree", g.name)
				c.Check((g.strP(P) == g.strP(Q)) == want, "%s: equality and string form disagree", g.name)
				c.Check((g.strA(A) == g.strA(B)) == want, "%s: equality and affine string form disagree", g.name)
			}
			if g.g2 {
				x, y := g2pubs.NewPublicKeyFromG2(A.(*bls.G2Affine)), g2pubs.NewPublicKeyFromG2(B.(*bls.G2Affine))
				c.Check(x.Equals(*y) == want && y.Equals(*x) == want, "g2pubs public key equality is not %v", want)
				sx := g1pubs.NewSignatureFromG2(A.(*bls.G2Affine))
				c.Check(sx.GetPoint().Equals(P.(*bls.G2Projective)), "g1pubs signature point")
			} else {
				x, y := g1pubs.NewPublicKeyFromG1(A.(*bls.G1Affine)), g1pubs.NewPublicKeyFromG1(B.(*bls.G1Affine))
				c.Check(x.Equals(*y) == want && y.Equals(*x) == want, "g1pubs public key equality is not %v", want)
				sx := g2pubs.NewSignatureFromG1(A.(*bls.G1Affine))
				c.Check(sx.GetPoint().Equal(P.(*bls.G1Projective)), "g2pubs signature point")
			}
		}
	}
	// order and parity of field elements
	for n := c.N(200000); n > 0; n-- {
		a := fp2(c.Rng)
		b := fp2(c.Rng)
		switch c.Intn(8) {
		case 0:
			b = a
		case 1:
			b = a.Neg()
		case 2:
			b = a.Conj()
		case 3:
			b.B = a.B
		case 4:
			b.A = a.A
		case 5:
			b.A, b.B = partner(c.Rng, a.A, ref.P, fp, fpSpecials), a.B
		}
		c.Case("field order", a.A, a.B, b.A, b.B)
		A, B := fq2(a), fq2(b)
		c.Check(A.Cmp(B) == a.Cmp(b) && B.Cmp(A) == b.Cmp(a), "FQ2 Cmp of %v and %v", a, b)
		c.Check(A.Equals(B) == a.Eq(b) && B.Equals(A) == a.Eq(b), "FQ2 Equals of %v and %v", a, b)
		c.Check(A.Parity() == a.Larger(), "FQ2 Parity of %v", a)
		c.Check(A.IsZero() == a.IsZero(), "FQ2 IsZero of %v", a)
		x, y := fq(a.A), fq(b.A)
		c.Check(x.Cmp(y) == a.A.Cmp(b.A) && x.Equals(y) == (a.A.Cmp(b.A) == 0), "FQ Cmp of %v and %v", a.A, b.A)
		c.Check(x.Parity() == ref.Larger(a.A), "FQ Parity of %v", a.A)
		s := frv(c.Rng)
		t := partner(c.Rng, s, ref.R, frv, frSpecials)
		u, v := fr(s), fr(t)
		c.Check(u.Cmp(v) == s.Cmp(t) && u.Equals(v) == (s.Cmp(t) == 0), "FR Cmp of %v and %v", s, t)
		c.Check(u.Parity() == (s.Cmp(new(big.Int).Rsh(ref.R, 1)) > 0), "FR Parity of %v", s)
	}
	for n := c.N(10000); n > 0; n-- {
		a := fp12(c.Rng)
		b := a
		switch c.Intn(4) {
		case 0:
			b = fp12(c.Rng)
		case 1, 2: // one coefficient apart
			i := c.Intn(6)
			d := ref.F2i(int64(c.Intn(2)), 1)
			if c.Bool() {
				d = ref.F2i(1, 0)
			}
			b[i] = b[i].Add(d)
		}
		c.Case("tower equality", a[0].A, a[3].B, b[0].A, b[5].B)
		want := a.Eq(b)
		A, B := fq12(a), fq12(b)
		c.Check(A.Equals(B) == want && B.Equals(A) == want, "FQ12 Equals is not %v", want)
		c.Check((A.String() == B.String()) == want, "FQ12 string form and equality disagree")
		la, ha := a.Tower()
		lb, hb := b.Tower()
		c.Check(fq6(la).Equals(fq6(lb)) == la.Eq(lb) && fq6(ha).Equals(fq6(hb)) == ha.Eq(hb), "FQ6 Equals")
		c.Check((fq6(la).String() == fq6(lb).String()) == la.Eq(lb), "FQ6 string form and equality disagree")
	}
}

func c22(c *C) {
	// x-coordinate to point
	for gi, g := range groups {
		for n := c.N([]int{20000, 8000}[gi]); n > 0; n-- {
			x := fp2(c.Rng)
			if !g.g2 {
				x.B = new(big.Int)
			}
			if c.OneIn(4) {
				x = curvePt(c.Rng, g.e).X
			}
			gr := c.Bool()
			c.Case(fmt.Sprintf("Get%sPointFromX", g.name), x.A, x.B, gr)
			want, ok := g.e.FromX(x, gr)
			a, err := g.fromX(x, gr)
			if c.Check((err == nil) == ok, "%s: x=%v accepted is %v", g.name, x, err == nil) && ok {
				if got := g.oA(a); !got.Eq(want) {
					c.Fail("%s point from x: got %x, want %x", g.name, ptArgs(got), ptArgs(want))
				}
			}
		}
	}
	edge := []ref.F2{}
	for _, a := range []int64{0, 1, -1, 2, -2} {
		for _, b := range []int64{0, 1, -1, 2, -2} {
			edge = append(edge, ref.F2i(a, b))
		}
	}
	// t with xi t^2 = -1: the exceptional denominator, and t^2 + b + 1 = 0
	if s, ok := ref.Xi.Inv().Neg().Sqrt(); ok {
		edge = append(edge, s, s.Neg())
	}
	w0 := ref.F2i(4, 4).Add(ref.F2One).Neg()
	if s, ok := w0.Sqrt(); ok {
		edge = append(edge, s, s.Neg())
		c.Count("Shallue-van de Woestijne exceptional inputs", 2)
	}
	swu := func(t ref.F2) {
		c.Case("OptimizedSWU2MapHelper", t.A, t.B)
		p := bls.OptimizedSWU2MapHelper(fq2(t))
		if !c.Check(p != nil, "no point for t=%v", t) {
			return
		}
		got := og2a(p)
		want := ref.SSWU(ref.Iso2, ref.Xi, t, false)
		// the sign convention at t = 0 is free
		c.Check(got.Eq(want) || (t.IsZero() && got.Eq(want.Neg())), "t=%v maps to %x, want %x", t, ptArgs(got), ptArgs(want))
		c.Check(ref.Iso2.On(got), "t=%v maps off the isogenous curve", t)
	}
	sqrtM3 := ref.Sqrt(ref.Neg(bi(3)))
	if sqrtM3.Cmp(new(big.Int).Rsh(ref.P, 1)) > 0 {
		sqrtM3 = ref.Neg(sqrtM3)
	}
	svdw := func(t ref.F2) {
		c.Case("SWEncodeG2", t.A, t.B)
		got := og2a(bls.SWEncodeG2(fq2(t)))
		want := refSWEncode(t, sqrtM3)
		c.Check(got.Eq(want), "t=%v maps to %x, want %x", t, ptArgs(got), ptArgs(want))
		c.Check(ref.E2.On(got), "t=%v maps off the curve", t)
		if !t.IsZero() {
			n := og2a(bls.SWEncodeG2(fq2(t.Neg())))
			c.Check(n.Eq(got.Neg()), "SWEncodeG2 is not odd at t=%v", t)
		}
	}
	for i, t := range edge {
		if c.Mine(i) {
			swu(t)
			svdw(t)
		}
	}
	for n := c.N(8000); n > 0; n-- {
		swu(swuInput(c.Rng))
		svdw(svdwInput(c.Rng, sqrtM3))
	}
}

// refSWEncode is the Shallue-van de Woestijne encoding of Fouque and Tibouchi
// on E2, with the sign of y given by the parity of t.
func refSWEncode(t ref.F2, sqrtM3 *big.Int) ref.Pt {
	if t.IsZero() {
		return ref.Inf
	}
	par := t.Larger()
	w := t.Sq().Add(ref.F2i(4, 4)).Add(ref.F2One)
	if w.IsZero() {
		if par {
			return ref.G2.Neg()
		}
		return ref.G2
	}
	s := ref.F2{A: sqrtM3, B: new(big.Int)}
	half := ref.F2{A: ref.Inv(bi(2)), B: new(big.Int)}
	w = w.Inv().Mul(s).Mul(t)
	x1 := s.Sub(ref.F2One).Mul(half).Sub(t.Mul(w))
	x2 := ref.F2One.Neg().Sub(x1)
	x3 := ref.F2One.Add(w.Sq().Inv())
	for _, x := range []ref.F2{x1, x2, x3} {
		if p, ok := ref.E2.FromX(x, par); ok {
			return p
		}
	}
	panic("ref: SvdW has no point")
}
