package ref

import "math/big"

// cuber finds cube roots in a cyclic group of order 3^s * t.
type cuber struct {
	s    int
	t    *big.Int
	u, w *big.Int // 3u = 1 + t*w
	pow  []F2     // pow[i] = c^(3^i), c of order 3^s
}

func newCuber(n *big.Int, g F2) *cuber {
	k := &cuber{t: new(big.Int).Set(n)}
	three := big.NewInt(3)
	for new(big.Int).Mod(k.t, three).Sign() == 0 {
		k.t.Div(k.t, three)
		k.s++
	}
	k.u = new(big.Int).ModInverse(three, k.t)
	k.w = new(big.Int).Mul(k.u, three)
	k.w.Sub(k.w, One).Div(k.w, k.t)
	for third := new(big.Int).Div(n, three); g.Exp(third).Eq(F2One); {
		g = g.Add(F2One)
	}
	c := g.Exp(k.t)
	for i := 0; i < k.s; i++ {
		k.pow = append(k.pow, c)
		c = c.Mul(c).Mul(c)
	}
	return k
}

func (k *cuber) root(a F2) (F2, bool) {
	if a.IsZero() {
		return a, true
	}
	b := a.Exp(k.t)
	// b = c^e, digit by digit from the lowest
	e := new(big.Int)
	three := big.NewInt(3)
	low := k.pow[k.s-1] // of order 3
	for i := 0; i < k.s; i++ {
		r := b
		for j := 0; j < k.s-1-i; j++ {
			r = r.Mul(r).Mul(r)
		}
		d := int64(0)
		for !r.Eq(F2One) {
			r = r.Mul(low.Sq()) // times low^-1
			d++
		}
		if i == 0 && d != 0 {
			return F2{}, false
		}
		for j := int64(0); j < d; j++ {
			b = b.Mul(k.pow[i].Inv())
		}
		e.Add(e, new(big.Int).Mul(big.NewInt(d), new(big.Int).Exp(three, big.NewInt(int64(i)), nil)))
	}
	e.Div(e, three).Mul(e, k.w)
	x := a.Exp(k.u).Mul(k.pow[0].Exp(e).Inv())
	if !x.Sq().Mul(x).Eq(a) {
		panic("cube root")
	}
	return x, true
}

var (
	cube1 = newCuber(new(big.Int).Sub(P, One), F2i(2, 0))
	cube2 = newCuber(new(big.Int).Sub(new(big.Int).Mul(P, P), One), F2i(1, 1))
)

// FromY finds a point of E1 or E2 with the given y.
func (c Curve) FromY(y F2) (Pt, bool) {
	k := cube2
	if c.B.B.Sign() == 0 {
		k = cube1
	}
	x, ok := k.root(y.Sq().Sub(c.B))
	p := Pt{X: x, Y: y}
	if !ok || !c.On(p) {
		return Pt{}, false
	}
	return p, true
}

// poly2 is a polynomial of degree at most 2.
type poly2 [3]F2

// mulMod multiplies modulo x^3 + a x + b.
func (f poly2) mulMod(g poly2, a, b F2) poly2 {
	var p [5]F2
	for i := range p {
		p[i] = F2Zero
	}
	for i := range f {
		for j := range g {
			if !f[i].IsZero() && !g[j].IsZero() {
				p[i+j] = p[i+j].Add(f[i].Mul(g[j]))
			}
		}
	}
	for i := 4; i >= 3; i-- { // x^i = -a x^(i-2) - b x^(i-3)
		p[i-2] = p[i-2].Sub(a.Mul(p[i]))
		p[i-3] = p[i-3].Sub(b.Mul(p[i]))
	}
	return poly2{p[0], p[1], p[2]}
}

// Root returns a root of x^3 + a x + b, if there is exactly one.
func Root(a, b F2) (F2, bool) {
	q := new(big.Int).Mul(P, P)
	x := poly2{F2Zero, F2One, F2Zero}
	f := x
	for i := q.BitLen() - 2; i >= 0; i-- {
		f = f.mulMod(f, a, b)
		if q.Bit(i) == 1 {
			f = f.mulMod(x, a, b)
		}
	}
	f[1] = f[1].Sub(F2One) // x^q - x
	// the greatest common divisor with x^3 + a x + b, by remainders
	u := []F2{b, a, F2Zero, F2One}
	v := []F2{f[0], f[1], f[2]}
	trim := func(p []F2) []F2 {
		for len(p) > 0 && p[len(p)-1].IsZero() {
			p = p[:len(p)-1]
		}
		return p
	}
	for v = trim(v); len(v) > 0; u, v = v, trim(u) {
		for u = trim(append([]F2(nil), u...)); len(u) >= len(v); u = trim(u[:len(u)-1]) {
			k := u[len(u)-1].Mul(v[len(v)-1].Inv())
			for i := range v[:len(v)-1] {
				j := len(u) - len(v) + i
				u[j] = u[j].Sub(k.Mul(v[i]))
			}
		}
	}
	if len(u) != 2 {
		return F2Zero, false
	}
	return u[0].Neg().Mul(u[1].Inv()), true
}
