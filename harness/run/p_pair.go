package main

// C10: the pairing.

import (
	"math/big"

	bls "github.com/phoreproject/bls"

	"verifharness/ref"
)

func init() { props["C10"] = c10 }

// gtTable holds gt^(2^i) for gt = e(G1, G2) as the reference model computes it.
type gtTable []ref.F12

func newGT() gtTable {
	t := gtTable{ref.Pair(ref.G1, ref.G2)}
	for len(t) < 255 {
		l := t[len(t)-1]
		t = append(t, l.Mul(l))
	}
	return t
}
func (t gtTable) exp(k *big.Int) ref.F12 {
	k = new(big.Int).Mod(k, ref.R)
	r := ref.F12One
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.Mul(t[i])
		}
	}
	return r
}

type pairIn struct {
	p, q kpt
	prep *bls.G2Prepared // shared between items
}

var infK = kpt{new(big.Int), ref.Inf}

func c10(c *C) {
	p1 := pool(c.Rng, ref.E1, ref.G1, 14)
	p2 := pool(c.Rng, ref.E2, ref.G2, 14)
	gt := newGT()
	draw := func(l []kpt, e ref.Curve) kpt {
		if c.OneIn(8) {
			return infK
		}
		i, j := c.Intn(len(l)), c.Intn(len(l))
		s := addK(l[i], l[j], e)
		if i > 4 && !s.P.Inf {
			l[i] = s
		}
		return s
	}
	finite := func(l []kpt, e ref.Curve) kpt {
		for {
			if s := draw(l, e); !s.P.Inf {
				return s
			}
		}
	}
	z1 := func() ref.F2 { return zval(c.Rng, grpG1) }
	z2 := func() ref.F2 { return zval(c.Rng, grpG2) }
	same := func(got *bls.FQ12, want ref.F12, what string) {
		if got == nil {
			c.Fail("%s: nil", what)
			return
		}
		if w := ofq12(got); !w.Eq(want) {
			c.Fail("%s is not the value of the reference pairing", what)
		}
		if !got.Equals(fq12(want)) {
			c.Fail("%s does not compare equal to the value of the reference pairing", what)
		}
	}

	// the pairing of the two generators, in full
	for i, v := range []struct {
		k1, k2 int64
	}{{1, 1}, {2, 1}, {1, -1}, {-1, 1}, {-1, -1}, {3, 5}, {0, 1}, {1, 0}} {
		if !c.Mine(i) {
			continue
		}
		a, b := ref.E1.MulS(ref.G1, bi(v.k1)), ref.E2.MulS(ref.G2, bi(v.k2))
		c.Case("pairing-generators", int(v.k1), int(v.k2))
		want := ref.F12One
		if v.k1*v.k2 != 0 {
			want = ref.Pair(a, b)
		}
		same(bls.Pairing(g1a(a).ToProjective(), g2a(b).ToProjective()), want, "the pairing")
	}
	// independently computed pairings of random points
	for i := c.N(24); i > 0; i-- {
		a, b := finite(p1, ref.E1), finite(p2, ref.E2)
		c.Case("pairing-direct", ptArgs(a.P), ptArgs(b.P))
		same(bls.Pairing(g1z(a.P, z1().A), g2z(b.P, z2())), ref.Pair(a.P, b.P), "the pairing")
	}
	// bilinearity against known logarithms
	for i := c.N(1200); i > 0; i-- {
		a, b := draw(p1, ref.E1), draw(p2, ref.E2)
		za, zb := z1(), z2()
		c.Case("pairing", ptArgs(a.P), ptArgs(b.P), za.A, zb.A, zb.B)
		if a.P.Inf || b.P.Inf {
			c.Count("pairings with infinity", 1)
		}
		A, B := g1z(a.P, za.A), g2z(b.P, zb)
		got := bls.Pairing(A, B)
		same(got, gt.exp(new(big.Int).Mul(a.K, b.K)), "the pairing")
		if c.OneIn(8) {
			same(bls.Pairing(A, B), gt.exp(new(big.Int).Mul(a.K, b.K)), "the pairing, computed a second time from the same objects,")
		}
	}
	// products of pairings
	long := 4
	if c.Arch != "amd64" { // too slow
		long = 1
	}
	for i := c.N(700); i > 0; i-- {
		n := c.Intn(6)
		if c.OneIn(10) {
			n = c.Between(6, 14)
		}
		if long > 0 && i%15 == 0 { // long products
			long--
			n = []int{c.Between(15, 140), []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 130}[c.Intn(10)]}[c.Intn(2)]
			if long == 0 && c.Arch == "amd64" {
				n = []int{257, 256, 513, 300, 1025, 200, 512, 150}[c.Shard%8]
			}
			c.Count("products of more than 14 pairs", 1)
		}
		var items []pairIn
		var mli []bls.MillerLoopItem
		sum := new(big.Int)
		args := []any{n}
		for j := 0; j < n; j++ {
			it := pairIn{p: draw(p1, ref.E1), q: draw(p2, ref.E2)}
			if j > 0 {
				o := items[c.Intn(j)]
				switch c.Intn(8) {
				case 0: // same prepared point, used again
					it.q, it.prep = o.q, o.prep
					c.Count("prepared points shared within a loop", 1)
				case 1:
					it.p = o.p
				case 2: // the inverse pair
					it.q, it.prep = o.q, o.prep
					it.p = kpt{new(big.Int).Sub(ref.R, o.p.K), o.p.P.Neg()}
					if o.p.P.Inf {
						it.p = infK
					}
				case 3: // the same pair
					it = o
				}
			}
			if j > 14 && it.prep == nil && !c.OneIn(4) { // spare the work
				o := items[c.Intn(j)]
				it.q, it.prep = o.q, o.prep
			}
			if it.prep == nil {
				it.prep = bls.G2AffineToPrepared(g2a(it.q.P))
			}
			if it.prep.IsZero() != it.q.P.Inf {
				c.Case("prepared", ptArgs(it.q.P))
				c.Fail("a prepared point says IsZero = %v", it.prep.IsZero())
			}
			items = append(items, it)
			mli = append(mli, bls.MillerLoopItem{P: g1a(it.p.P), Q: it.prep})
			sum.Add(sum, new(big.Int).Mul(it.p.K, it.q.K))
			args = append(args, ptArgs(it.p.P), ptArgs(it.q.P))
		}
		c.Case("product", args...)
		c.Count("pairs in products", int64(n))
		want := gt.exp(sum)
		f := bls.MillerLoop(mli)
		same(bls.FinalExponentiation(f), want, "the final exponentiation of the Miller loop")
		if n > 1 && c.OneIn(2) {
			// split the same loop in two, reusing the prepared points
			k := c.Between(0, n)
			a, b := bls.MillerLoop(mli[:k]), bls.MillerLoop(mli[k:])
			a.MulAssign(b)
			same(bls.FinalExponentiation(a), want, "the final exponentiation of a product of two Miller loops over the same prepared points")
		}
		if n > 1 && c.OneIn(4) {
			c.Shuffle(n, func(a, b int) { mli[a], mli[b] = mli[b], mli[a] })
			same(bls.FinalExponentiation(bls.MillerLoop(mli)), want, "the final exponentiation of the reordered Miller loop")
		}
		if n > 0 && n < 15 && c.OneIn(8) { // the last factors of the target group value
			f := bls.FinalExponentiation(f)
			if f != nil {
				p := bls.FQ12One.Copy()
				for _, it := range items {
					p.MulAssign(bls.Pairing(g1a(it.p.P).ToProjective(), g2a(it.q.P).ToProjective()))
				}
				c.Check(p.Equals(f), "the product of the pairings is not the pairing product")
			}
		}
	}
	// comparing two pairings
	for i := c.N(900); i > 0; i-- {
		a, b := draw(p1, ref.E1), draw(p2, ref.E2)
		var d, e kpt
		ab := new(big.Int).Mul(a.K, b.K)
		ab.Mod(ab, ref.R)
		switch c.Intn(9) {
		case 0: // the same points
			d, e = a, b
		case 1: // both negated
			d = kpt{new(big.Int).Mod(new(big.Int).Neg(a.K), ref.R), a.P.Neg()}
			e = kpt{new(big.Int).Mod(new(big.Int).Neg(b.K), ref.R), b.P.Neg()}
		case 2: // one negated
			d = kpt{new(big.Int).Mod(new(big.Int).Neg(a.K), ref.R), a.P.Neg()}
			e = b
		case 3: // logarithms swapped
			d = kpt{b.K, ref.E1.Mul(ref.G1, b.K)}
			e = kpt{a.K, ref.E2.Mul(ref.G2, a.K)}
		case 4, 5: // another factorisation of the same product
			d = finite(p1, ref.E1)
			k := new(big.Int).ModInverse(d.K, ref.R)
			k.Mul(k, ab).Mod(k, ref.R)
			e = kpt{k, ref.E2.Mul(ref.G2, k)}
		case 6: // off by one
			d = finite(p1, ref.E1)
			k := new(big.Int).ModInverse(d.K, ref.R)
			k.Mul(k, ab).Mod(k, ref.R)
			e = addK(kpt{k, ref.E2.Mul(ref.G2, k)}, p2[0], ref.E2)
		default:
			d, e = draw(p1, ref.E1), draw(p2, ref.E2)
		}
		de := new(big.Int).Mul(d.K, e.K)
		want := de.Mod(de, ref.R).Cmp(ab) == 0
		c.Case("compare", ptArgs(a.P), ptArgs(b.P), ptArgs(d.P), ptArgs(e.P))
		if want {
			c.Count("comparisons that hold", 1)
		}
		A, B, D, E := g1z(a.P, z1().A), g2z(b.P, z2()), g1z(d.P, z1().A), g2z(e.P, z2())
		if got := bls.CompareTwoPairings(A, B, D, E); got != want {
			c.Fail("CompareTwoPairings = %v", got)
		}
		if c.OneIn(4) {
			if got := bls.CompareTwoPairings(D, E, A, B); got != want {
				c.Fail("CompareTwoPairings = %v with the sides swapped", got)
			}
		}
	}
	// the final exponentiation of any element
	for i := c.N(120); i > 0; i-- {
		f := fp12(c.Rng)
		switch c.Intn(10) {
		case 0:
			f = ref.F12Zero
		case 1: // a subfield element
			a, _ := f.Tower()
			z := ref.F6{ref.F2Zero, ref.F2Zero, ref.F2Zero}
			f = ref.FromTower(a, z)
		case 2:
			f = ref.F12{ref.F2{A: fp(c.Rng), B: new(big.Int)}, ref.F2Zero, ref.F2Zero, ref.F2Zero, ref.F2Zero, ref.F2Zero}
		case 3, 4, 5:
			f = structured12(c.Rng)
		}
		a, b := f.Tower()
		var args []any
		for _, t := range []ref.F6{a, b} {
			for _, x := range t {
				args = append(args, x.A, x.B)
			}
		}
		c.Case("final-exponentiation", args...)
		in := fq12(f)
		got := bls.FinalExponentiation(in)
		if f.IsZero() {
			c.Check(got == nil, "the final exponentiation of zero is not nil")
			continue
		}
		same(got, ref.FinalExp(f), "the final exponentiation")
		c.Check(in.Equals(fq12(f)), "the final exponentiation changed its argument")
	}
	// the target group has order r
	for i := c.N(16); i > 0; i-- {
		a, b := finite(p1, ref.E1), finite(p2, ref.E2)
		c.Case("order", ptArgs(a.P), ptArgs(b.P))
		e := bls.Pairing(g1a(a.P).ToProjective(), g2a(b.P).ToProjective())
		c.Check(!e.Equals(bls.FQ12One), "the pairing of two nonzero points is 1")
		c.Check(e.Exp(qrep(ref.R)).Equals(bls.FQ12One), "a pairing value does not have order r")
	}
}
