package main

// Input generators: hostile values first, uniform ones for the rest.

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"hash/crc64"
	"math/big"

	"verifharness/mon"
	"verifharness/ref"
)

func subInt(m *big.Int, k int64) *big.Int { return new(big.Int).Sub(m, bi(k)) }

// fieldSpecials are values of a prime field that sit on boundaries, both as
// integers and in Montgomery form (as k/R mod m).
func fieldSpecials(m, rinv *big.Int, bits uint) []*big.Int {
	var vs []*big.Int
	add := func(v *big.Int) {
		if v.Sign() >= 0 && v.Cmp(m) < 0 {
			vs = append(vs, v)
			vs = append(vs, new(big.Int).Mod(new(big.Int).Mul(v, rinv), m))
		}
	}
	for k := int64(0); k < 12; k++ {
		add(bi(k))
		add(subInt(m, k+1))
		add(subInt(new(big.Int).Rsh(m, 1), k-5))
	}
	for b := uint(1); b <= bits; b++ {
		for _, d := range []int64{-1, 0, 1} {
			add(new(big.Int).Add(pow2(b), bi(d)))
		}
		add(new(big.Int).Sub(m, pow2(b)))
	}
	// limbs of the modulus, kept or cleared
	n := int(bits+63) / 64
	for mask := 0; mask < 1<<n; mask++ {
		v := new(big.Int)
		o := new(big.Int)
		for i := 0; i < n; i++ {
			limb := new(big.Int).And(new(big.Int).Rsh(m, uint(64*i)), subInt(pow2(64), 1))
			if mask>>i&1 == 1 {
				v.Or(v, new(big.Int).Lsh(limb, uint(64*i)))
				o.Or(o, new(big.Int).Lsh(subInt(pow2(64), 1), uint(64*i)))
			}
		}
		add(v)
		add(new(big.Int).Mod(o, m))
	}
	// R mod m, R^2 mod m and neighbours
	r := new(big.Int).Mod(pow2(uint(64*n)), m)
	for d := int64(-2); d <= 2; d++ {
		add(new(big.Int).Add(r, bi(d)))
		add(new(big.Int).Sub(m, new(big.Int).Add(r, bi(d))))
	}
	return vs
}

var (
	fpSpecials = fieldSpecials(ref.P, ref.Rinv, 381)
	frSpecials = fieldSpecials(ref.R, ref.RinvR, 255)
)

func fieldVal(c *mon.Rng, m, rinv *big.Int, limbs int, specials []*big.Int) *big.Int {
	switch c.Intn(8) {
	case 0, 1:
		return specials[c.Intn(len(specials))]
	case 2:
		v := c.Limbs(limbs)
		return v.Mod(v, m)
	case 3: // extreme limbs in Montgomery form
		v := c.Limbs(limbs)
		v.Mul(v, rinv)
		return v.Mod(v, m)
	case 4: // modulus minus something of any size
		v := c.Big(pow2(uint(c.Between(1, m.BitLen()-1))))
		v.Sub(m, v)
		v.Mod(v, m)
		if c.Bool() {
			v.Mul(v, rinv)
			v.Mod(v, m)
		}
		return v
	case 5: // a fraction of the modulus, nearly: ties in approximations
		v := fraction(c, m)
		if c.Bool() {
			v.Mul(v, rinv)
			v.Mod(v, m)
		}
		return v
	default:
		return c.Big(m)
	}
}

// fraction is i m/j plus a deviation of any size below the square root of m,
// with j small or of the form 2^k or 2^k +- 1.
func fraction(c *mon.Rng, m *big.Int) *big.Int {
	j := bi(2)
	switch c.Intn(4) {
	case 0:
		j = bi(int64(c.Between(3, 20)))
	case 1:
		j = new(big.Int).Add(pow2(uint(c.Between(2, 130))), bi(int64(c.Intn(3)-1)))
	case 2:
		j = new(big.Int).Add(pow2(uint(c.Between(2, 12))), bi(int64(c.Intn(3)-1)))
	}
	v := bi(1)
	if c.OneIn(3) {
		v = c.Big(j)
	}
	v.Mul(v, m).Div(v, j)
	d := c.Big(pow2(uint(c.Between(1, m.BitLen()/2))))
	if c.Bool() {
		v.Add(v, d)
	} else {
		v.Sub(v, d)
	}
	return v.Mod(v, m)
}
func fp(c *mon.Rng) *big.Int  { return fieldVal(c, ref.P, ref.Rinv, 6, fpSpecials) }
func frv(c *mon.Rng) *big.Int { return fieldVal(c, ref.R, ref.RinvR, 4, frSpecials) }
func fp2(c *mon.Rng) ref.F2 {
	switch c.Intn(8) {
	case 0:
		return ref.F2{A: fp(c), B: new(big.Int)}
	case 1:
		return ref.F2{A: new(big.Int), B: fp(c)}
	case 2:
		a := fp(c)
		return ref.F2{A: a, B: a}
	case 3:
		a := fp(c)
		return ref.F2{A: a, B: ref.Neg(a)}
	default:
		return ref.F2{A: fp(c), B: fp(c)}
	}
}
func fp6(c *mon.Rng) ref.F6 {
	v := ref.F6{fp2(c), fp2(c), fp2(c)}
	switch c.Intn(8) {
	case 0: // some zero coefficients
		m := c.Intn(8)
		for i := range v {
			if m>>i&1 == 1 {
				v[i] = ref.F2Zero
			}
		}
	case 1:
		v[c.Intn(3)] = ref.F2One
	case 2: // equal coefficients
		v[c.Intn(3)] = v[c.Intn(3)]
	}
	return v
}
func fp12(c *mon.Rng) ref.F12 {
	v := ref.FromTower(fp6(c), fp6(c))
	switch c.Intn(8) {
	case 0:
		m := c.Intn(64)
		for i := range v {
			if m>>i&1 == 1 {
				v[i] = ref.F2Zero
			}
		}
	case 1:
		a, _ := v.Tower()
		v = ref.FromTower(a, a)
	case 2:
		a, _ := v.Tower()
		v = ref.FromTower(a, a.Neg())
	}
	return v
}

// structured12 gives elements with algebraic relations of their own, on which
// special-purpose formulas are valid, or nearly valid: elements of norm one
// over every subfield, of every subfield, of the cyclotomic subgroup, and of
// small order.
func structured12(c *mon.Rng) ref.F12 {
	a := fp12(c)
	if a.IsZero() {
		return a
	}
	ks := []int{1, 2, 3, 4, 6, 6, 6}
	k := ks[c.Intn(len(ks))]
	switch c.Intn(5) {
	case 0, 1: // norm one over the field fixed by the k-th Frobenius power
		return a.Frob(k).Mul(a.Inv())
	case 2: // in that subfield
		s := a
		for j := k; j < 12; j += k {
			s = s.Add(a.Frob(j))
		}
		return s
	case 3: // the cyclotomic subgroup
		u := a.Conj().Mul(a.Inv())
		return u.Frob(2).Mul(u)
	}
	// a root of unity: x^((p^2 - 1) / n) embedded in a power of w
	n := []int64{2, 3, 4, 6, 8, 12, 24}[c.Intn(7)]
	x := fp2(c)
	if x.IsZero() {
		x = ref.F2One
	}
	e := new(big.Int).Mul(ref.P, ref.P)
	e.Sub(e, bi(1))
	v := ref.F12Zero
	v[0] = x.Exp(e.Div(e, bi(n)))
	return v
}

func structured6(c *mon.Rng) ref.F6 {
	a := fp6(c)
	if a.IsZero() {
		return a
	}
	k := c.Between(1, 3)
	if c.Bool() {
		return a.Frob(k).Mul(a.Inv())
	}
	s := a
	for j := k; j < 6; j += k {
		s = s.Add(a.Frob(j))
	}
	return s
}

func structured2(c *mon.Rng) ref.F2 {
	a := fp2(c)
	if a.IsZero() {
		return a
	}
	switch c.Intn(3) {
	case 0:
		return a.Conj().Mul(a.Inv())
	case 1:
		v, _ := structured12(c).Tower()
		return v[0]
	}
	n := []int64{2, 3, 4, 6, 8, 12, 24}[c.Intn(7)]
	e := new(big.Int).Mul(ref.P, ref.P)
	e.Sub(e, bi(1))
	return a.Exp(e.Div(e, bi(n)))
}

// scalar below 2^bits, of many shapes.
func scalar(c *mon.Rng, bits uint) *big.Int {
	lim := pow2(bits)
	v := new(big.Int)
	switch c.Intn(9) {
	case 0:
		v = bi(int64(c.Intn(20)))
	case 1: // near r, 2r, ...
		k := int64(c.Between(1, 2))
		v.Mul(ref.R, bi(k))
		v.Add(v, bi(int64(c.Between(-6, 6))))
	case 2: // near 2^k
		v.Add(pow2(uint(c.Intn(int(bits)+1))), bi(int64(c.Between(-2, 2))))
	case 3: // sparse
		for i := c.Between(1, 4); i > 0; i-- {
			v.SetBit(v, c.Intn(int(bits)), 1)
		}
	case 4: // extreme limbs
		v = c.Limbs(int(bits+63) / 64)
	case 5: // near the top
		v.Sub(lim, bi(int64(c.Between(1, 6))))
	case 6: // any length
		v = c.Big(pow2(uint(c.Between(1, int(bits)))))
	case 7: // runs of zero bytes or limbs
		v = c.Big(lim)
		sh := uint(c.Between(1, int(bits)-1))
		if c.Bool() {
			v.Rsh(v, sh)
			v.Lsh(v, sh)
		} else {
			v.Rsh(v, sh)
		}
	default:
		v = c.Big(lim)
	}
	if v.Sign() < 0 || v.Cmp(lim) >= 0 {
		return c.Big(lim)
	}
	return v
}

// secret is a secret key in [1, r).
func secret(c *mon.Rng) *big.Int {
	var v *big.Int
	if c.OneIn(3) {
		v = c.Big(ref.R)
	} else {
		v = new(big.Int).Mod(scalar(c, 255), ref.R)
		if c.OneIn(4) {
			v = new(big.Int).Set(frv(c))
		}
	}
	if v.Sign() == 0 {
		return bi(1)
	}
	return v
}

var msgLens = []int{0, 1, 2, 3, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 34, 40, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65, 96, 118, 119, 120, 127, 128, 129, 192, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537}

// message draws a message; i, when >= 0, walks the lengths.
func message(c *mon.Rng, i int) []byte {
	var n int
	switch {
	case i >= 0 && i < 300:
		n = i
	case i >= 300 && i < 300+len(msgLens):
		n = msgLens[i-300]
	case c.OneIn(3):
		n = msgLens[c.Intn(len(msgLens))]
	case c.OneIn(40):
		n = c.Intn(70000)
	case c.OneIn(400):
		n = 1<<20 + c.Intn(3) - 1
	default:
		n = c.Intn(200)
	}
	if c.OneIn(10) {
		k := n
		if i < 0 {
			k = -1
		}
		if m := drawTwin(c, k); m != nil {
			return m
		}
	}
	m := make([]byte, n)
	switch c.Intn(7) {
	case 0: // zeros
	case 1:
		for i := range m {
			m[i] = 0xff
		}
	case 2:
		b := byte(c.U64())
		for i := range m {
			m[i] = b
		}
	case 3:
		c.Fill(m)
		if n > 0 { // zero head or tail
			k := c.Intn(n) + 1
			if c.Bool() {
				clear(m[:k])
			} else {
				clear(m[n-k:])
			}
		}
	case 4:
		for i := range m {
			m[i] = byte(' ' + c.Intn(95))
		}
	default:
		c.Fill(m)
	}
	return m
}

// collide returns a different message of the same length that has the same
// value under one of the usual checksums and hash functions for tables.
func collide(c *mon.Rng, m []byte) []byte {
	if t := twinOf(m); t != nil && !c.OneIn(4) {
		return append([]byte(nil), t...)
	}
	o := append([]byte(nil), m...)
	xor := func(p []byte) {
		at := c.Intn(len(o) - len(p) + 1)
		for i, b := range p {
			o[at+i] ^= b
		}
	}
	// a reflected generator polynomial as a pattern: 2p + 1 in 5 or 9 bytes
	poly := func(p uint64, n int) []byte {
		b := make([]byte, n)
		for i := range b[:n-1] {
			b[i] = byte((p<<1 | 1) >> (8 * i))
		}
		b[n-1] = byte(p >> (8*(n-1) - 1))
		return b
	}
	switch k := c.Intn(10); {
	case k < 3 && len(o) >= 5: // CRC-32: IEEE (twice), Castagnoli
		xor(poly([]uint64{crc32.IEEE, crc32.IEEE, crc32.Castagnoli}[k], 5))
	case k < 5 && len(o) >= 9: // CRC-64
		xor(poly([]uint64{crc64.ISO, crc64.ECMA}[k-3], 9))
	case k == 5 && len(o) >= 12: // FNV-1a with 32 bits: meet in the middle
		at := c.Intn(len(o) - 7)
		const prime, inv = uint32(16777619), uint32(899433627)
		h := uint32(2166136261)
		for _, b := range o[:at] {
			h = (h ^ uint32(b)) * prime
		}
		g := h
		for _, b := range o[at : at+8] {
			g = (g ^ uint32(b)) * prime
		}
		fwd := make(map[uint32]uint32, 1<<17)
		for i := 0; i < 1<<17; i++ {
			v := uint32(c.U64())
			x := h
			for j := 0; j < 4; j++ {
				x = (x ^ uint32(byte(v>>(8*j)))) * prime
			}
			fwd[x] = v
		}
		for i := 0; i < 1<<19; i++ {
			v := uint32(c.U64())
			x := g
			for j := 3; j >= 0; j-- {
				x = x*inv ^ uint32(byte(v>>(8*j)))
			}
			if u, ok := fwd[x]; ok {
				binary.LittleEndian.PutUint32(o[at:], u)
				binary.LittleEndian.PutUint32(o[at+4:], v)
				break
			}
		}
	case k == 6 && len(o) >= 2: // h = 31h + b and h = 33h + b
		at := c.Intn(len(o) - 1)
		d := byte([]int{31, 33}[c.Intn(2)])
		if o[at] < 255 && o[at+1] >= d {
			o[at]++
			o[at+1] -= d
		} else if o[at] > 0 && o[at+1] < 255-d {
			o[at]--
			o[at+1] += d
		}
	case k == 7 && len(o) >= 3: // sums, and sums of sums (Adler, Fletcher)
		at := c.Intn(len(o) - 2)
		if x := o[at : at+3]; x[0] < 255 && x[1] > 1 && x[2] < 255 {
			x[0]++
			x[1] -= 2
			x[2]++
		} else if x[0] > 0 && x[1] < 254 && x[2] > 0 {
			x[0]--
			x[1] += 2
			x[2]--
		}
	case len(o) >= 16: // exclusive or of words of 8, 4 or 1 bytes
		w := []int{8, 4, 1}[c.Intn(3)]
		at := c.Intn(len(o) - 2*w + 1)
		b := byte(c.Between(1, 255))
		o[at] ^= b
		o[at+w] ^= b
	}
	if bytes.Equal(o, m) {
		if len(o) == 0 {
			return []byte{0}
		}
		o[c.Intn(len(o))] ^= 1
	}
	return o
}

// collideMD alters a message and a domain: the message (how = 0: one bit, 1: to
// one with the same checksum), the domain (2, 3), or both as one string (4).
func collideMD(c *mon.Rng, m [32]byte, d [8]byte, how int) ([32]byte, [8]byte) {
	switch how {
	case 0:
		m[c.Intn(32)] ^= 1 << c.Intn(8)
	case 1:
		copy(m[:], collide(c, m[:]))
	case 2:
		d[c.Intn(8)] ^= 1 << c.Intn(8)
	case 3:
		copy(d[:], collide(c, d[:]))
	case 4:
		if b := append(append([]byte(nil), m[:]...), d[:]...); c.Bool() {
			b = collide(c, b)
			copy(m[:], b)
			copy(d[:], b[32:])
		} else {
			b = collide(c, append(append([]byte(nil), d[:]...), m[:]...))
			copy(d[:], b)
			copy(m[:], b[8:])
		}
	}
	return m, d
}

// mutateMsg returns a different message, close to m.
func mutateMsg(c *mon.Rng, m []byte) []byte {
	if c.OneIn(4) {
		return collide(c, m)
	}
	o := append([]byte(nil), m...)
	if len(o) == 0 {
		return []byte{byte(c.Intn(3))}
	}
	pos := c.Intn(len(o))
	switch c.Intn(4) {
	case 0:
		pos = 0
	case 1:
		pos = len(o) - 1
	}
	switch c.Intn(8) {
	case 0: // one more byte at the end
		o = append(o, []byte{0, 1, 0x80, 0xff}[c.Intn(4)])
	case 1: // one less at the end
		o = o[:len(o)-1]
	case 2: // one more in front
		o = append([]byte{[]byte{0, 1, 0x80, 0xff}[c.Intn(4)]}, o...)
	case 3: // one less in front
		o = o[1:]
	case 4: // swap two unequal bytes
		q := c.Intn(len(o))
		if o[q] == o[pos] {
			o[pos] ^= 1
		} else {
			o[q], o[pos] = o[pos], o[q]
		}
	default:
		o[pos] ^= 1 << c.Intn(8)
	}
	return o
}

// --- points with known discrete logarithm ---

type kpt struct {
	K *big.Int // P = K * generator
	P ref.Pt
}

// pool builds n points of the group with known logarithms, small and large.
func pool(c *mon.Rng, e ref.Curve, g ref.Pt, n int) []kpt {
	r := []kpt{{bi(1), g}}
	for k := int64(2); k <= 4 && len(r) < n; k++ {
		r = append(r, kpt{bi(k), e.Mul(g, bi(k))})
	}
	r = append(r, kpt{subInt(ref.R, 1), g.Neg()})
	for i := 0; i < 3; i++ {
		k := c.Big(ref.R)
		r = append(r, kpt{k, e.Mul(g, k)})
	}
	for len(r) < n {
		a, b := r[c.Intn(len(r))], r[len(r)-1-c.Intn(3)]
		k := new(big.Int).Add(a.K, b.K)
		k.Mod(k, ref.R)
		if k.Sign() == 0 {
			continue
		}
		p := e.Add(a.P, b.P)
		if c.Bool() {
			k.Sub(ref.R, k)
			p = p.Neg()
		}
		r = append(r, kpt{k, p})
	}
	return r
}
func addK(a, b kpt, e ref.Curve) kpt {
	k := new(big.Int).Add(a.K, b.K)
	return kpt{k.Mod(k, ref.R), e.Add(a.P, b.P)}
}

// curveY draws a remarkable y: real, imaginary, near the middle, ...
func curveY(c *mon.Rng) ref.F2 {
	y := fp2(c)
	if c.OneIn(3) { // the sign is decided in the last words
		m := new(big.Int).Add(new(big.Int).Rsh(ref.P, 1), bi(int64(c.Between(-1, 2))))
		if d := c.Big(pow2(uint(c.Between(1, 330)))); c.Bool() {
			m.Add(m, d)
		} else {
			m.Sub(m, d)
		}
		switch m.Mod(m, ref.P); c.Intn(4) {
		case 0:
			y.B = m
		case 1:
			y = ref.F2{A: m, B: new(big.Int)}
		default:
			y.A = m
		}
	}
	return y
}

// curvePt is a random point of the whole curve group, in general outside the
// prime-order subgroup.
func curvePt(c *mon.Rng, e ref.Curve) ref.Pt {
	for byY := c.OneIn(4); ; {
		x := fp2(c)
		if byY {
			x = curveY(c)
			if isG1(e) {
				x.B = new(big.Int)
			}
			if p, ok := e.FromY(x); ok {
				return p
			}
			continue
		}
		if e.B.B.Sign() == 0 {
			x.B = new(big.Int)
		}
		if p, ok := e.FromX(x, c.Bool()); ok {
			return p
		}
	}
}

var torsionOrders = map[bool][]int64{
	false: {3, 11, 10177, 859267, 52437899},
	true:  {13, 23, 2713, 11953, 262069},
}

// torsion finds a point of small prime order; g2 says which curve.
func torsion(c *mon.Rng, g2 bool, l int64) ref.Pt {
	e, h := ref.E1, ref.H1
	if g2 {
		e, h = ref.E2, ref.H2
	}
	k := new(big.Int).Mul(h, ref.R)
	for new(big.Int).Mod(k, bi(l)).Sign() == 0 {
		k.Div(k, bi(l))
	}
	for {
		p := e.Mul(curvePt(c, e), k)
		if p.Inf {
			continue
		}
		for { // down to order l exactly
			q := e.Mul(p, bi(l))
			if q.Inf {
				return p
			}
			p = q
		}
	}
}
func isG1(e ref.Curve) bool { return e.B.B.Sign() == 0 }
