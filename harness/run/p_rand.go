package main

// C18: randomness.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strings"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
	"verifharness/ref"
)

func init() { props["C18"] = c18 }

var errEntropy = errors.New("entropy source failed")

// source is an entropy source that counts, chops and fails.
type source struct {
	pre   []byte
	rng   *mon.Rng
	used  int
	limit int // fail after this many bytes; -1 never
	chop  *mon.Rng
	one   bool
	err   error
	late  bool // report the error together with the last bytes
	once  bool // fail one time only, and go on when asked again
	idle  int  // empty reads in a row
}

func (s *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if s.chop != nil && s.idle < 3 && s.chop.OneIn(8) {
		s.idle++
		return 0, nil // nothing yet
	}
	s.idle = 0
	if s.one {
		n = 1
	} else if s.chop != nil {
		n = s.chop.Between(1, n)
	}
	if s.limit >= 0 && s.used+n > s.limit {
		n = s.limit - s.used
		if n == 0 {
			if s.once {
				s.limit = -1
			}
			return 0, s.err
		}
	}
	for i := 0; i < n; i++ {
		if s.used < len(s.pre) {
			b[i] = s.pre[s.used]
		} else {
			b[i] = byte(s.rng.U64() >> 13)
		}
		s.used++
	}
	if s.late && s.limit >= 0 && s.used == s.limit {
		return n, s.err
	}
	return n, nil
}

// sampler is one source-driven generator.
type sampler struct {
	name  string
	heavy bool
	draw  func(io.Reader) (any, error)
	// values are the field elements of the result, as numbers with their modulus
	values func(any) ([]*big.Int, *big.Int)
}

func nilable(v any) any {
	if r := reflect.ValueOf(v); r.Kind() == reflect.Pointer && r.IsNil() {
		return nil
	}
	return v
}
func f2v(v ref.F2) []*big.Int { return []*big.Int{v.A, v.B} }

var samplers = []*sampler{
	{"RandFQ", false, func(r io.Reader) (any, error) { v, e := bls.RandFQ(r); return v, e },
		func(v any) ([]*big.Int, *big.Int) { return []*big.Int{ofq(v.(bls.FQ))}, ref.P }},
	{"RandFR", false, func(r io.Reader) (any, error) { v, e := bls.RandFR(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) { return []*big.Int{ofr(v.(*bls.FR))}, ref.R }},
	{"RandFQ2", false, func(r io.Reader) (any, error) { v, e := bls.RandFQ2(r); return v, e },
		func(v any) ([]*big.Int, *big.Int) { return f2v(ofq2(v.(bls.FQ2))), ref.P }},
	{"RandFQ6", false, func(r io.Reader) (any, error) { v, e := bls.RandFQ6(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) { return hexes(v.(*bls.FQ6).String(), 6), ref.P }},
	{"RandFQ12", false, func(r io.Reader) (any, error) { v, e := bls.RandFQ12(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) { return hexes(v.(*bls.FQ12).String(), 12), ref.P }},
	{"g1pubs.RandKey", false, func(r io.Reader) (any, error) { v, e := g1pubs.RandKey(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) {
			return []*big.Int{ofr(v.(*g1pubs.SecretKey).GetFRElement())}, ref.R
		}},
	{"g2pubs.RandKey", false, func(r io.Reader) (any, error) { v, e := g2pubs.RandKey(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) {
			return []*big.Int{ofr(v.(*g2pubs.SecretKey).GetFRElement())}, ref.R
		}},
	{"RandG1", true, func(r io.Reader) (any, error) { v, e := bls.RandG1(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) {
			p := og1(v.(*bls.G1Projective))
			return []*big.Int{p.X.A, p.Y.A}, ref.P
		}},
	{"RandG2", true, func(r io.Reader) (any, error) { v, e := bls.RandG2(r); return nilable(v), e },
		func(v any) ([]*big.Int, *big.Int) {
			p := og2(v.(*bls.G2Projective))
			return append(f2v(p.X), f2v(p.Y)...), ref.P
		}},
}

// valid checks what every result must be.
func (s *sampler) valid(c *C, v any) {
	if v == nil {
		c.Fail("%s returned nothing and no error", s.name)
		return
	}
	switch x := v.(type) {
	case *bls.G1Projective:
		p := og1(x)
		c.Check(!x.IsZero() && !p.Inf, "RandG1 returned the point at infinity")
		c.Check(ref.E1.On(p), "RandG1 left the curve")
		c.Check(ref.E1.Mul(p, ref.R).Inf, "RandG1 left the prime-order subgroup")
		return
	case *bls.G2Projective:
		p := og2(x)
		c.Check(!x.IsZero() && !p.Inf, "RandG2 returned the point at infinity")
		c.Check(ref.E2.On(p), "RandG2 left the curve")
		c.Check(ref.E2.Mul(p, ref.R).Inf, "RandG2 left the prime-order subgroup")
		return
	}
	l, m := s.values(v)
	for _, w := range l {
		c.Check(w.Sign() >= 0 && w.Cmp(m) < 0, "%s returned %v, outside the field", s.name, w)
	}
	switch x := v.(type) {
	case bls.FQ:
		c.Check(x.IsValid(), "RandFQ returned an invalid element")
	case *bls.FR:
		c.Check(x.IsValid(), "RandFR returned an invalid element")
	case *g1pubs.SecretKey:
		b := x.Serialize()
		c.Check(new(big.Int).SetBytes(b[:]).Cmp(l[0]) == 0, "the bytes of a random key are not its value")
		y := g1pubs.DeserializeSecretKey(b)
		if y == nil {
			c.Fail("a random key does not survive its own encoding")
		} else {
			c.Check(y.Serialize() == b, "a random key does not survive its own encoding")
		}
	case *g2pubs.SecretKey:
		b := x.Serialize()
		c.Check(new(big.Int).SetBytes(b[:]).Cmp(l[0]) == 0, "the bytes of a random key are not its value")
		y := g2pubs.DeserializeSecretKey(b)
		if y == nil {
			c.Fail("a random key does not survive its own encoding")
		} else {
			c.Check(y.Serialize() == b, "a random key does not survive its own encoding")
		}
	}
}

// chi keeps the counts of one statistic.
type chi struct {
	name string
	n    []int64
	p    []float64 // expected share; nil for uniform
}

func (h *chi) judge(c *C, total int64) {
	var x float64
	dof := len(h.n) - 1
	for i, k := range h.n {
		e := float64(total) / float64(len(h.n))
		if h.p != nil {
			e = float64(total) * h.p[i]
		}
		x += (float64(k) - e) * (float64(k) - e) / e
	}
	// Wilson-Hilferty: a standard normal, far beyond 6.5 only by a defect
	d := float64(dof)
	z := (math.Cbrt(x/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
	c.Count("distributions tested", 1)
	if z > 6.5 {
		c.Case("distribution "+h.name, int(total))
		c.Fail("the values are far from uniform: %s has chi-square %.1f with %d degrees of freedom over %d samples (z = %.1f)", h.name, x, dof, total, z)
	}
}

func c18(c *C) {
	const none = -1
	// preludes that steer the generator into rare branches; what they do depends
	// on how the bytes are used, what must hold does not
	var preludes [][]byte
	for _, n := range []int{31, 32, 33, 47, 48, 49, 64, 96, 97, 200} {
		preludes = append(preludes, bytes.Repeat([]byte{0xff}, n), make([]byte, n))
	}
	for _, m := range []*big.Int{ref.P, ref.R} {
		n := (m.BitLen() + 7) / 8
		for d := int64(-1); d <= 1; d++ {
			preludes = append(preludes, new(big.Int).Add(m, bi(d)).FillBytes(make([]byte, n)))
		}
	}
	for _, g2 := range []bool{false, true} {
		e, r, h := ref.E1, ref.R, ref.H1
		if g2 {
			e, h = ref.E2, ref.H2
		}
		pts := []ref.Pt{}
		for _, l := range torsionOrders[g2] {
			pts = append(pts, torsion(c.Rng, g2, l))
		}
		for i := 0; i < 2; i++ { // a point of cofactor order
			pts = append(pts, e.Mul(curvePt(c.Rng, e), r))
		}
		_ = h
		for _, p := range pts {
			if p.Inf {
				continue
			}
			var b [97]byte
			p.X.A.FillBytes(b[1:49])
			p.X.B.FillBytes(b[49:])
			n := 49
			if g2 {
				n = 97
			}
			for k := 0; k < 2; k++ {
				b[0] = byte(k)
				preludes = append(preludes, append([]byte{}, b[:n]...))
				if g2 { // the other order of the coefficients
					o := append([]byte{}, b[:1]...)
					o = append(o, b[49:97]...)
					preludes = append(preludes, append(o, b[1:49]...))
				}
			}
		}
	}

	for si, s := range samplers {
		n := c.N(500)
		if s.heavy {
			n = c.N(120)
		}
		for i := 0; i < n; i++ {
			var pre []byte
			if i < len(preludes) && c.Mine(i+si) {
				pre = preludes[i]
			} else if c.OneIn(4) {
				pre = preludes[c.Intn(len(preludes))]
			}
			seed := c.U64()
			c.Case(s.name, pre, seed)
			mk := func() *source { return &source{pre: pre, rng: mon.NewRng(seed), limit: none} }
			a := mk()
			v, err := s.draw(a)
			if err != nil {
				c.Fail("%s fails on a working source: %v", s.name, err)
				continue
			}
			s.valid(c, v)
			text := snap(reflect.ValueOf(v))
			if a.used < 32 {
				c.Fail("%s took only %d bytes from its source", s.name, a.used)
			}
			c.Count("bytes drawn", int64(a.used))
			// the same bytes in other pieces
			b := mk()
			if i%2 == 0 {
				b.one = true
			} else {
				b.chop = mon.NewRng(seed + 1)
			}
			w, err := s.draw(b)
			if err != nil {
				c.Fail("%s fails on a source that reads short: %v", s.name, err)
			} else if t := snap(reflect.ValueOf(w)); t != text {
				c.Fail("%s gives %s and %s for the same bytes read in different pieces", s.name, short(text), short(t))
			}
			// another stream gives another value
			o := &source{rng: mon.NewRng(seed ^ 0xabcdef), limit: none}
			if x, err := s.draw(o); err == nil && snap(reflect.ValueOf(x)) == text {
				c.Fail("%s gives the same value for different sources", s.name)
			}
			// a source that fails
			cuts := []int{c.Intn(a.used), 0, a.used - 1}
			if i < 2 { // after every byte
				cuts = cuts[:0]
				for k := 0; k < a.used && k < 700; k++ {
					if s.heavy && k > 3 && k%11 != 0 {
						continue
					}
					cuts = append(cuts, k)
				}
			} else if s.heavy {
				cuts = cuts[:1]
			}
			for _, k := range cuts {
				for mode := 0; mode < 2; mode++ {
					d := mk()
					d.limit = k
					d.err = errEntropy
					if mode == 1 {
						d.err = io.EOF
					}
					d.one = c.OneIn(3)
					if d.once = c.OneIn(2); !d.once {
						d.late = c.Bool()
					}
					c.Count("failing sources", 1)
					x, err := s.draw(d)
					if err == nil {
						c.Fail("%s reports no error when its source fails after %d of %d bytes", s.name, k, a.used)
					}
					switch x.(type) {
					case nil, bls.FQ, bls.FQ2:
					default:
						c.Fail("%s returns a value although its source failed after %d of %d bytes", s.name, k, a.used)
					}
				}
			}
			// a source that has just enough
			d := mk()
			d.limit = a.used
			d.err = errEntropy
			d.late = i%2 == 0
			if x, err := s.draw(d); err != nil {
				c.Fail("%s fails although its source has all the %d bytes", s.name, a.used)
			} else if t := snap(reflect.ValueOf(x)); t != text {
				c.Fail("%s gives %s and %s for the same bytes", s.name, short(text), short(t))
			}
		}
	}

	// sources that offer long runs of values outside the field or off the curve
	// before the first usable one. The runs are random themselves, so that no two
	// results may coincide, whatever a generator makes of them.
	for si, s := range samplers {
		m := ref.P
		if strings.Contains(s.name, "FR") || strings.Contains(s.name, "Key") {
			m = ref.R
		}
		size := (m.BitLen() + 7) / 8
		seen := map[string]bool{}
		for i, k := range []int{4, 9, 17, 33, 41, 65, 101, 129, 257, 300, 520, 1030} {
			if !c.Mine(i + si) {
				continue
			}
			for rep := 0; rep < 2; rep++ {
				var pre []byte
				for n := 0; n < k; n++ {
					var x []byte
					if s.heavy && rep == 0 { // a candidate off the curve
						for {
							e, v := ref.E1, ref.F2{A: c.Big(ref.P), B: new(big.Int)}
							if s.name == "RandG2" {
								e, v.B = ref.E2, c.Big(ref.P)
							}
							if _, ok := e.FromX(v, false); ok {
								continue
							}
							x = append([]byte{byte(c.U64())}, v.A.FillBytes(make([]byte, 48))...)
							if s.name == "RandG2" {
								x = append(x, v.B.FillBytes(make([]byte, 48))...)
							}
							break
						}
					} else { // between the modulus and the next power of two
						gap := new(big.Int).Sub(pow2(uint(m.BitLen())), m)
						x = new(big.Int).Add(m, c.Big(gap)).FillBytes(make([]byte, size))
						x[0] |= byte(c.U64()) << uint((m.BitLen()-1)%8+1)
						if s.heavy && n == 0 {
							x = append([]byte{byte(c.U64())}, x...)
						}
					}
					pre = append(pre, x...)
				}
				c.Case("long run of candidates outside, "+s.name, k, rep, pre[:16])
				v, err := s.draw(&source{pre: pre, rng: mon.NewRng(c.U64()), limit: none})
				if err != nil {
					c.Fail("%s fails on a working source: %v", s.name, err)
					continue
				}
				s.valid(c, v)
				vals, _ := s.values(v)
				key := vals[0].String()
				if seen[key] || vals[0].Sign() == 0 {
					c.Fail("%s: the value %s came from two random sources that begin with %d candidates outside", s.name, key, k)
				}
				if len(vals) == 2 && vals[0].Cmp(ref.G1.X.A) == 0 || len(vals) == 4 && vals[0].Cmp(ref.G2.X.A) == 0 {
					c.Fail("%s: the generator came from a random source that begins with %d candidates outside", s.name, k)
				}
				seen[key] = true
				c.Count("long runs of rejected candidates", 1)
			}
		}
	}

	// distributions: a long stream for each generator
	for _, s := range samplers {
		n := int64(60000)
		if s.heavy {
			n = 1600
		}
		if c.Tier == "thorough" {
			n *= 4
		}
		src := &source{rng: mon.NewRng(c.U64()), limit: none}
		n = int64(c.N(int(n)))
		var hs []*chi
		var parity *chi
		seen := map[string]bool{}
		var nv int
		for i := int64(0); i < n; i++ {
			if i%64 == 0 {
				c.Case("stream "+s.name, int(i), c.Shard)
			}
			v, err := s.draw(src)
			if err != nil {
				c.Fail("%s fails on a working source: %v", s.name, err)
				break
			}
			vals, m := s.values(v)
			if len(vals) > 4 && n > 4000 { // enough values in each
				n = 4000
			}
			if hs == nil {
				nv = len(vals)
				for j := range vals {
					hs = append(hs,
						&chi{name: fmt.Sprintf("%s value %d, position in the field", s.name, j), n: make([]int64, 32)},
						&chi{name: fmt.Sprintf("%s value %d, lowest bits", s.name, j), n: make([]int64, 32)})
					for k := 5; k+12 < m.BitLen(); k += 4 {
						hs = append(hs, &chi{name: fmt.Sprintf("%s value %d, bits %d to %d", s.name, j, k, k+3), n: make([]int64, 16)})
					}
				}
				for j := 1; j < nv; j++ {
					hs = append(hs, &chi{name: fmt.Sprintf("%s values %d and %d together", s.name, j-1, j), n: make([]int64, 64)})
				}
				parity = &chi{name: s.name + ", sign of the last value", n: make([]int64, 2)}
			}
			// the x-coordinate or value repeats only by a defect
			key := vals[0].String()
			if seen[key] {
				c.Fail("%s repeated the value %s within %d draws", s.name, key, i+1)
			}
			seen[key] = true
			for j := 1; j < nv; j++ {
				for k := 0; k < j; k++ {
					if vals[j].Cmp(vals[k]) == 0 {
						c.Fail("%s returned two equal coefficients", s.name)
					}
				}
			}
			k := 0
			hit := func(b int) { hs[k].n[b]++; k++ }
			for j := range vals {
				q := new(big.Int).Lsh(vals[j], 5)
				hit(int(q.Div(q, m).Int64()))
				hit(low(vals[j], 0, 5))
				for b := 5; b+12 < m.BitLen(); b += 4 {
					hit(low(vals[j], b, 4))
				}
			}
			for j := 1; j < nv; j++ {
				hit(low(vals[j-1], 0, 3)<<3 | low(vals[j], 0, 3))
			}
			if ref.Larger(vals[nv-1]) {
				parity.n[1]++
			} else {
				parity.n[0]++
			}
		}
		c.Count("values in distributions", n*int64(nv))
		if nv == 0 {
			continue
		}
		for _, h := range hs {
			var t int64
			for _, k := range h.n {
				t += k
			}
			h.judge(c, t)
		}
		if s.heavy {
			parity.judge(c, parity.n[0]+parity.n[1])
		}
	}
}

func low(v *big.Int, from, n int) int {
	r := 0
	for i := 0; i < n; i++ {
		r |= int(v.Bit(from+i)) << i
	}
	return r
}
