package mon

import (
	"math/big"
	"math/bits"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) Intn(n int) int {
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}
func (r *Rng) Bool() bool           { return r.U64()&1 == 1 }
func (r *Rng) OneIn(n int) bool     { return r.Intn(n) == 0 }
func (r *Rng) Between(a, b int) int { return a + r.Intn(b-a+1) }
func (r *Rng) Fill(b []byte) {
	for i := range b {
		b[i] = byte(r.U64() >> 24)
	}
}
func (r *Rng) Bytes(n int) []byte { b := make([]byte, n); r.Fill(b); return b }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Big is uniform below m.
func (r *Rng) Big(m *big.Int) *big.Int {
	n := (m.BitLen() + 7) / 8
	v := new(big.Int).SetBytes(r.Bytes(n + 8))
	return v.Mod(v, m)
}

// Word is a 64-bit limb with a bias to extreme values.
func (r *Rng) Word() uint64 {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return uint64(r.Intn(4))
	case 3:
		return -uint64(1 + r.Intn(4))
	case 4:
		return 1 << r.Intn(64)
	case 5:
		return 1<<r.Intn(64) - 1
	case 6:
		return []uint64{1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, 0xffffffff00000000, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}[r.Intn(7)]
	default:
		return r.U64()
	}
}

// Limbs is an n-limb integer below 2^(64n) with a bias to extreme limbs.
func (r *Rng) Limbs(n int) *big.Int {
	v := new(big.Int)
	all := r.Intn(3)
	for i := 0; i < n; i++ {
		v.Lsh(v, 64)
		w := r.Word()
		if all == 0 {
			w = r.U64()
		}
		v.Or(v, new(big.Int).SetUint64(w))
	}
	return v
}

// Shuffle permutes n elements.
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
