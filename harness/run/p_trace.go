package main

// C24: calls leave nothing behind. Each operation is called many times with
// inputs that are new every time; afterwards the heap (after collection), the
// goroutines, the open files and the standard streams are as before. Growth is
// judged over long runs only, so that caches of a bounded size are no violation.

import (
	"errors"
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
)

func init() { props["C24"] = c24 }

type life struct {
	name string
	cost int // in units of about 10 microseconds
	run  func(r *mon.Rng)
}

// liveHeap is what is reachable, in bytes.
func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what pools have kept through the first
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// settled is the number of goroutines or files once it no longer exceeds want,
// or after some time.
func settled(count func() int, want int) int {
	n := count()
	for i := 0; n > want && i < 200; i++ {
		time.Sleep(time.Duration(i+1) * time.Millisecond)
		n = count()
	}
	return n
}
func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

// quiet sends the standard streams to a file and returns a function that puts
// them back and says what has been written.
func quiet(c *C) func() string {
	name := c.Out() + ".std"
	f, err := os.Create(name)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var saved [3]int
	for fd := 1; fd <= 2; fd++ {
		if saved[fd], err = syscall.Dup(fd); err == nil {
			err = syscall.Dup2(int(f.Fd()), fd)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	var once sync.Once
	var text []byte
	return func() string {
		once.Do(func() {
			for fd := 1; fd <= 2; fd++ {
				syscall.Dup2(saved[fd], fd)
				syscall.Close(saved[fd])
			}
			f.Close()
			text, _ = os.ReadFile(name)
		})
		return string(text)
	}
}

type failing struct {
	r *mon.Rng
	n int
}

func (f *failing) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("no more")
	}
	if len(b) > f.n {
		b = b[:f.n]
	}
	f.n -= len(b)
	f.r.Fill(b)
	return len(b), nil
}

// lives are the operations of the schemes with their ways of failing.
func lives() []life {
	r32 := func(r *mon.Rng) (b [32]byte) { r.Fill(b[:]); b[0] &= 0x3f; return }
	dom := func(r *mon.Rng) (d [8]byte) { r.Fill(d[:]); return }
	msg := func(r *mon.Rng) []byte { return r.Bytes(r.Between(0, 200)) }
	k1 := func(r *mon.Rng) *g1pubs.SecretKey { return g1pubs.DeserializeSecretKey(r32(r)) }
	k2 := func(r *mon.Rng) *g2pubs.SecretKey { return g2pubs.DeserializeSecretKey(r32(r)) }
	frp := func(r *mon.Rng) *bls.FRRepr { return &bls.FRRepr{r.U64(), r.U64(), r.U64(), r.U64() >> 2} }
	p1 := func(r *mon.Rng) *bls.G1Projective { return bls.G1AffineOne.MulFR(frp(r)) }
	p2 := func(r *mon.Rng) *bls.G2Projective { return bls.G2AffineOne.MulFR(frp(r)) }
	// sums of a few points are new points for little
	var s1 *bls.G1Projective
	var s2 *bls.G2Projective
	n1 := func(r *mon.Rng) *bls.G1Projective {
		if s1 == nil {
			s1 = p1(r)
		}
		s1 = s1.Add(s1.Double())
		return s1.Copy()
	}
	n2 := func(r *mon.Rng) *bls.G2Projective {
		if s2 == nil {
			s2 = p2(r)
		}
		s2 = s2.Add(s2.Double())
		return s2.Copy()
	}
	pub1 := func(r *mon.Rng) *g1pubs.PublicKey { return g1pubs.NewPublicKeyFromG1(n1(r).ToAffine()) }
	pub2 := func(r *mon.Rng) *g2pubs.PublicKey { return g2pubs.NewPublicKeyFromG2(n2(r).ToAffine()) }
	sig1 := func(r *mon.Rng) *g1pubs.Signature { return g1pubs.NewSignatureFromG2(n2(r).ToAffine()) }
	sig2 := func(r *mon.Rng) *g2pubs.Signature { return g2pubs.NewSignatureFromG1(n1(r).ToAffine()) }
	list := func(r *mon.Rng) (ms [][]byte, a []*g1pubs.PublicKey, b []*g2pubs.PublicKey) {
		for i := r.Between(2, 3); i > 0; i-- {
			ms = append(ms, append(msg(r), byte(i)))
			a, b = append(a, pub1(r)), append(b, pub2(r))
		}
		switch r.Intn(4) {
		case 0:
			ms[1] = ms[0]
		case 1:
			ms = ms[1:]
		}
		return
	}
	return []life{
		{"g1pubs sign and verify", 1000, func(r *mon.Rng) {
			k, m := k1(r), msg(r)
			g1pubs.Verify(m, g1pubs.PrivToPub(k), g1pubs.Sign(m, k))
		}},
		{"g2pubs sign and verify", 1000, func(r *mon.Rng) {
			k, m := k2(r), msg(r)
			g2pubs.Verify(m, g2pubs.PrivToPub(k), g2pubs.Sign(m, k))
		}},
		{"g1pubs sign and verify with a domain", 1000, func(r *mon.Rng) {
			k, m, d := k1(r), r32(r), dom(r)
			g1pubs.VerifyWithDomain(m, g1pubs.PrivToPub(k), g1pubs.SignWithDomain(m, k, d), d)
		}},
		{"g1pubs refused signatures", 600, func(r *mon.Rng) { g1pubs.Verify(msg(r), pub1(r), sig1(r)) }},
		{"g2pubs refused signatures", 600, func(r *mon.Rng) { g2pubs.Verify(msg(r), pub2(r), sig2(r)) }},
		{"g1pubs refused signatures with a domain", 600, func(r *mon.Rng) { g1pubs.VerifyWithDomain(r32(r), pub1(r), sig1(r), dom(r)) }},
		{"g1pubs aggregate verification", 1200, func(r *mon.Rng) {
			ms, a, _ := list(r)
			sig1(r).VerifyAggregate(a, ms)
		}},
		{"g2pubs aggregate verification", 1200, func(r *mon.Rng) {
			ms, _, b := list(r)
			sig2(r).VerifyAggregate(b, ms)
		}},
		{"g1pubs genuine aggregates", 2000, func(r *mon.Rng) {
			k, l, m := k1(r), k1(r), msg(r)
			n := append(m[:len(m):len(m)], 1)
			s := g1pubs.AggregateSignatures([]*g1pubs.Signature{g1pubs.Sign(m, k), g1pubs.Sign(n, l)})
			s.VerifyAggregate([]*g1pubs.PublicKey{g1pubs.PrivToPub(k), g1pubs.PrivToPub(l)}, [][]byte{m, n})
		}},
		{"g2pubs genuine aggregates", 2000, func(r *mon.Rng) {
			k, l, m := k2(r), k2(r), msg(r)
			n := append(m[:len(m):len(m)], 1)
			s := g2pubs.AggregateSignatures([]*g2pubs.Signature{g2pubs.Sign(m, k), g2pubs.Sign(n, l)})
			s.VerifyAggregate([]*g2pubs.PublicKey{g2pubs.PrivToPub(k), g2pubs.PrivToPub(l)}, [][]byte{m, n})
		}},
		{"g1pubs aggregate verification with a domain", 1200, func(r *mon.Rng) {
			ms, a, _ := list(r)
			var l [][32]byte
			for range ms {
				l = append(l, r32(r))
			}
			sig1(r).VerifyAggregateWithDomain(a, l, dom(r))
		}},
		{"g1pubs verification of a common message", 1000, func(r *mon.Rng) {
			_, a, _ := list(r)
			sig1(r).VerifyAggregateCommon(a, msg(r))
			sig1(r).VerifyAggregateCommonWithDomain(a, r32(r), dom(r))
		}},
		{"g2pubs verification of a common message", 600, func(r *mon.Rng) {
			_, _, b := list(r)
			sig2(r).VerifyAggregateCommon(b, msg(r))
		}},
		{"aggregating", 30, func(r *mon.Rng) {
			a, b := pub1(r), pub2(r)
			a.Aggregate(pub1(r))
			b.Aggregate(pub2(r))
			s, t := sig1(r), sig2(r)
			s.Aggregate(sig1(r))
			t.Aggregate(sig2(r))
			g1pubs.AggregatePublicKeys([]*g1pubs.PublicKey{a, a.Copy()})
			g2pubs.AggregatePublicKeys([]*g2pubs.PublicKey{b, b.Copy()})
			g1pubs.AggregateSignatures([]*g1pubs.Signature{s, s.Copy()})
			g2pubs.AggregateSignatures([]*g2pubs.Signature{t, t.Copy()})
		}},
		{"encoding and decoding", 200, func(r *mon.Rng) {
			a, b := n1(r).ToAffine(), n2(r).ToAffine()
			c1, c2 := bls.CompressG1(a), bls.CompressG2(b)
			g1pubs.DeserializePublicKey(c1)
			g2pubs.DeserializePublicKey(c2)
			g1pubs.DeserializeSignature(c2)
			g2pubs.DeserializeSignature(c1)
			x, y := &bls.G1Affine{}, &bls.G2Affine{}
			x.SetRawBytes(a.SerializeBytes())
			y.SetRawBytes(b.SerializeBytes())
			_, _ = a.String(), b.String()
		}},
		{"refused encodings", 80, func(r *mon.Rng) {
			var b1 [48]byte
			var b2 [96]byte
			r.Fill(b1[:])
			r.Fill(b2[:])
			if b1[0] |= 0x80; r.Bool() {
				b1[0] &= 0x9f
			}
			if b2[0] |= 0x80; r.Bool() {
				b2[0] &= 0x8f
				b2[48] &= 0xf
			}
			g1pubs.DeserializePublicKey(b1)
			g2pubs.DeserializeSignature(b1)
			g2pubs.DeserializePublicKey(b2)
			g1pubs.DeserializeSignature(b2)
			bls.DecompressG1Unchecked(b1)
			bls.DecompressG2Unchecked(b2)
			k := [32]byte{0xff, byte(r.U64()), byte(r.U64()), byte(r.U64())}
			g1pubs.DeserializeSecretKey(k)
			g2pubs.DeserializeSecretKey(k)
			var raw [192]byte
			r.Fill(raw[:])
			(&bls.G2Affine{}).SetRawBytes(raw)
		}},
		{"hashing", 300, func(r *mon.Rng) {
			bls.HashG1(msg(r))
			bls.HashG2(msg(r))
		}},
		{"hashing with a domain", 250, func(r *mon.Rng) { bls.HashG2WithDomain(r32(r), dom(r)) }},
		{"secret keys", 30, func(r *mon.Rng) {
			a, b := g1pubs.DeriveSecretKey(r32(r)), g2pubs.DeriveSecretKey(r32(r))
			a.Serialize()
			b.Serialize()
			_, _ = a.String(), b.String()
			g1pubs.KeyFromFQRepr(frp(r))
			g2pubs.KeyFromFQRepr(frp(r))
			g1pubs.RandKey(&failing{r, 500})
			g2pubs.RandKey(&failing{r, 500})
		}},
		{"public keys", 150, func(r *mon.Rng) {
			g1pubs.PrivToPub(k1(r))
			g2pubs.PrivToPub(k2(r))
		}},
		{"random elements", 400, func(r *mon.Rng) {
			bls.RandG1(&failing{r, 2000})
			bls.RandG2(&failing{r, 2000})
			bls.RandFQ12(&failing{r, 2000})
		}},
		{"failing sources", 10, func(r *mon.Rng) {
			n := r.Intn(40)
			g1pubs.RandKey(&failing{r, n})
			g2pubs.RandKey(&failing{r, n})
			bls.RandG1(&failing{r, n})
			bls.RandG2(&failing{r, n})
			bls.RandFQ6(&failing{r, n})
		}},
		{"pairings", 700, func(r *mon.Rng) {
			bls.Pairing(n1(r), n2(r))
			bls.CompareTwoPairings(n1(r), n2(r), n1(r), n2(r))
		}},
		{"prepared points", 150, func(r *mon.Rng) {
			q := bls.G2AffineToPrepared(n2(r).ToAffine())
			bls.MillerLoop([]bls.MillerLoopItem{{P: n1(r).ToAffine(), Q: q}, {P: n1(r).ToAffine(), Q: q}})
		}},
		{"multiplication of points", 300, func(r *mon.Rng) {
			a, b, k := n1(r).ToAffine(), n2(r).ToAffine(), bls.FQRepr{r.U64(), r.U64(), r.U64()}
			a.Mul(k)
			b.Mul(k)
			a.ScaleByCofactor()
			n1(r).MulFR(frp(r))
			n2(r).MulFR(frp(r))
		}},
		{"maps to the curve", 150, func(r *mon.Rng) {
			t := n2(r).ToAffine().SerializeBytes()
			x := bls.FQReprToFQ(bls.FQReprFromBytes([48]byte(t[:48])))
			y := bls.FQReprToFQ(bls.FQReprFromBytes([48]byte(t[48:96])))
			f := bls.NewFQ2(x, y)
			bls.GetG1PointFromX(x, r.Bool())
			bls.GetG2PointFromX(f, r.Bool())
			bls.SWEncodeG2(f)
			bls.OptimizedSWU2MapHelper(f)
		}},
	}
}

func c24(c *C) {
	mon.CaseCPU = 8 * time.Minute // a history is one case
	put := quiet(c)
	defer func() { fmt.Fprint(os.Stderr, put()) }() // when the workload ends early
	f := newFixtures(c.Rng)
	ops := lives()
	all := apiOps()
	for _, o := range all { // every exported operation with the arguments of C15 to C17
		if strings.Contains(o.name, "Verify") { // with lists of any length; see lives
			continue
		}
		o := o
		l := life{name: o.name, cost: 20, run: func(r *mon.Rng) {
			in := o.args(f, r.U64())
			out, p := o.call(in)
			_ = o.outcome(in, out, p)
		}}
		if o.heavy {
			l.cost = 2000
		}
		ops = append(ops, l)
	}
	budget := int(120000 * c.Scale)
	for i, l := range ops {
		if !c.Mine(i) {
			continue
		}
		n := budget / l.cost
		if n > 800 {
			n = 800
		}
		if n < 30 {
			n = 30
		}
		seed := c.U64()
		calls := 0
		r := mon.NewRng(seed)
		more := func(k int) {
			for j := 0; j < k; j++ {
				l.run(r)
			}
			calls += k
			c.Count("calls with new inputs", int64(k))
		}
		c.Case("history", l.name, seed)
		more(5)
		heap0, go0, fd0 := liveHeap(), runtime.NumGoroutine(), openFiles()
		more(n)
		heap1, go1, fd1 := liveHeap(), settled(runtime.NumGoroutine, go0), settled(openFiles, fd0)
		if go1 > go0 || fd1 > fd0 {
			c.Count("operations looked at for longer", 1)
			more(2 * n)
			go2, fd2 := settled(runtime.NumGoroutine, go1), settled(openFiles, fd1)
			more(4 * n)
			go3, fd3 := settled(runtime.NumGoroutine, go2), settled(openFiles, fd2)
			if go3 > go2 && go2 > go1 && go1 > go0 {
				c.Fail("%s: %d goroutines before, %d after %d calls, %d after %d, %d after %d", l.name, go0, go1, n+5, go2, 3*n+5, go3, 7*n+5)
				return
			}
			if fd3 > fd2 && fd2 > fd1 && fd1 > fd0 {
				c.Fail("%s: %d open files before, %d after %d calls, %d after %d, %d after %d", l.name, fd0, fd1, n+5, fd2, 3*n+5, fd3, 7*n+5)
				return
			}
			heap1 = liveHeap()
		}
		const perCall = 12                                             // bytes; less than any entry of any container
		if heap1-heap0 > int64(perCall*calls) && bits.UintSize == 64 { // the slow build is looked at for the rest only
			// over longer and longer histories, does it go on?
			c.Count("operations looked at for longer", 1)
			heaps, at := []int64{heap1}, []int{calls}
			last := 0
			for ; heaps[last]-heap0 > int64(perCall*calls) && (last < 2 || perCall*calls < 50000); last++ {
				c.Case("longer history", l.name, seed, calls)
				more(calls)
				heaps, at = append(heaps, liveHeap()), append(at, calls)
			}
			if heaps[last]-heap0 <= int64(perCall*calls) {
				continue
			}
			grown, on := heaps[last]-heaps[last-1], at[last]-at[last-1]
			if grown > int64(perCall*on) {
				c.Fail("%s keeps memory: reachable heap of %d bytes before, %d after %v calls with new inputs each", l.name, heap0, heaps, at)
				return
			}
		}
	}
	c.Count("operations", int64(len(ops)/c.Shards))
	c.Case("standard streams")
	if s := put(); s != "" {
		c.Fail("something was written to the standard streams: %s", short(s))
	}
}
