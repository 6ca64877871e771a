package main

import (
	"math/big"

	"verifharness/mon"
	"verifharness/ref"
)

var swuRoots []ref.F2 // x on the isogenous curve, with a remarkable y

// swuInput draws an element for the simplified SWU map to the second curve: as
// it comes, or so that something on the way to the point is remarkable.
func swuInput(c *mon.Rng) ref.F2 {
	const kinds = 7
	a, b := ref.Iso2.A, ref.Iso2.B
	quad := func(p, q ref.F2) (ref.F2, bool) { // a root of v^2 + pv + q
		s, ok := p.Sq().Sub(q.MulI(4)).Sqrt()
		if !ok {
			return p, false
		}
		if c.Bool() {
			s = s.Neg()
		}
		return s.Sub(p).Mul(ref.F2{A: ref.Inv(bi(2)), B: new(big.Int)}), true
	}
	fromD := func(d ref.F2) (ref.F2, bool) { return quad(ref.F2One, d.Neg()) }
	fromX0 := func(x ref.F2) (ref.F2, bool) { // x = -b/a (1 + 1/d)
		n := a.Mul(x).Add(b)
		if n.IsZero() {
			return n, false
		}
		return fromD(b.Neg().Mul(n.Inv()))
	}
	fromX1 := func(x ref.F2) (ref.F2, bool) { // x = -b/a (v + 1/(v+1))
		k := a.Mul(x).Mul(b.Inv()).Add(ref.F2One)
		return quad(k, k)
	}
	for kind := c.Intn(kinds); ; {
		s := fp2(c)
		var v ref.F2 // xi t^2
		ok := true
		switch kind {
		case 0:
			return s
		case 1:
			v = ref.Xi.Mul(s)
		case 2:
			v = s
		case 3: // the denominator, its real or its imaginary part
			v, ok = fromD(s)
		case 4:
			v, ok = fromX0(s)
		case 5:
			v, ok = fromX1(s)
		case 6: // y
			if len(swuRoots) < 12 || c.OneIn(40) {
				y := curveY(c)
				x, found := ref.Root(a, b.Sub(y.Sq()))
				if !found {
					continue
				}
				swuRoots = append(swuRoots, x)
			}
			if v, ok = fromX0(swuRoots[c.Intn(len(swuRoots))]); c.Bool() {
				v, ok = fromX1(swuRoots[c.Intn(len(swuRoots))])
			}
		}
		if !ok {
			continue
		}
		if t, ok := v.Mul(ref.Xi.Inv()).Sqrt(); ok {
			if c.Bool() {
				t = t.Neg()
			}
			return t
		}
	}
}

// svdwInput does the same for the Shallue-van de Woestijne map.
func svdwInput(c *mon.Rng, sqrtM3 *big.Int) ref.F2 {
	s3 := ref.F2{A: sqrtM3, B: new(big.Int)}
	half := ref.F2{A: ref.Inv(bi(2)), B: new(big.Int)}
	b1 := ref.F2i(5, 4)
	for kind := c.Intn(6); ; {
		s := fp2(c)
		var t2 ref.F2
		switch kind {
		case 0:
			return s
		case 1:
			t2 = s
		case 2: // the denominator
			t2 = s.Sub(b1)
		case 3, 4: // one of the first two candidates, or its y
			if c.Bool() {
				s = curvePt(c, ref.E2).X
			}
			if kind == 4 {
				s = ref.F2One.Neg().Sub(s)
			}
			k := s3.Sub(ref.F2One).Mul(half).Sub(s) // t w = s3 t^2 / (t^2 + b1)
			if k.Eq(s3) {
				continue
			}
			t2 = k.Mul(b1).Mul(s3.Sub(k).Inv())
		case 5: // the third, 1 + 1/w^2
			if s.IsZero() {
				continue
			}
			p := s3.Mul(s.Inv()).Neg() // t^2 + p t + b1 = 0
			r, ok := p.Sq().Sub(b1.MulI(4)).Sqrt()
			if !ok {
				continue
			}
			return r.Sub(p).Mul(half)
		}
		if t, ok := t2.Sqrt(); ok {
			if c.Bool() {
				t = t.Neg()
			}
			return t
		}
	}
}
