package main

// The library's exported API as a table of operations, driven through
// reflection: every exported method of every exported type and every exported
// function. C15, C16 and C17 share it.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash"
	"io"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strings"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
	"verifharness/ref"
)

type op struct {
	name    string
	fn      reflect.Value // receiver first, if there is one
	recv    reflect.Type  // nil for functions
	mutates bool          // the receiver is the output
	heavy   bool
	pkg     int // 1 g1pubs, 2 g2pubs
}

var (
	heavyRe   = regexp.MustCompile(`Verify|Pairing|Final|Miller|Hash(G|Secret)|Sign$|SignWith|FQ12\.Exp|Rand(G|Key)|Decompress|Deserialize(P|Si)|Scale|Subgroup|PrivToPub|G[12]\w+\.Mul|FQ2\.Sqrt|SWU|SWEnc|ToPrepared|ClearH|FQ6\.Exp|PointFromX`)
	mutatesRe = regexp.MustCompile(`Assign$|\.Aggregate$|\.Rsh$|\.Lsh$|\.Div2$|\.Mul2$|\.AddNoCarry$|\.SubNoBorrow$|\.SetRawBytes$|\.Next$`)
)

var apiTypes = []any{
	bls.FQ{}, bls.FQ2{}, bls.FQ6{}, bls.FQ12{}, bls.FQRepr{}, bls.FR{}, bls.FRRepr{},
	bls.G1Affine{}, bls.G1Projective{}, bls.G2Affine{}, bls.G2Projective{}, bls.G2Prepared{}, bls.BitIterator{},
	g1pubs.Signature{}, g1pubs.PublicKey{}, g1pubs.SecretKey{},
	g2pubs.Signature{}, g2pubs.PublicKey{}, g2pubs.SecretKey{},
}

var apiFuncs = map[string]any{
	"NewBitIterator": bls.NewBitIterator, "FQReprToFQ": bls.FQReprToFQ, "FQReprToFQRaw": bls.FQReprToFQRaw, "HashFQ": bls.HashFQ,
	"RandFQ": bls.RandFQ, "NewFQ12": bls.NewFQ12, "RandFQ12": bls.RandFQ12, "NewFQ2": bls.NewFQ2, "RandFQ2": bls.RandFQ2, "HashFQ2": bls.HashFQ2,
	"NewFQ6": bls.NewFQ6, "RandFQ6": bls.RandFQ6, "NewFQRepr": bls.NewFQRepr, "FQReprFromBytes": bls.FQReprFromBytes,
	"FQReprFromString": bls.FQReprFromString, "FQReprFromBigInt": bls.FQReprFromBigInt, "FRReprToFR": bls.FRReprToFR, "HashFR": bls.HashFR,
	"RandFR": bls.RandFR, "NewFRRepr": bls.NewFRRepr, "FRReprFromBytes": bls.FRReprFromBytes, "FRReprFromString": bls.FRReprFromString,
	"FRReprFromBigInt": bls.FRReprFromBigInt, "NewG1Affine": bls.NewG1Affine, "GetG1PointFromX": bls.GetG1PointFromX,
	"DecompressG1": bls.DecompressG1, "DecompressG1Unchecked": bls.DecompressG1Unchecked, "CompressG1": bls.CompressG1,
	"NewG1Projective": bls.NewG1Projective, "RandG1": bls.RandG1, "NewG2Affine": bls.NewG2Affine, "GetG2PointFromX": bls.GetG2PointFromX,
	"DecompressG2": bls.DecompressG2, "DecompressG2Unchecked": bls.DecompressG2Unchecked, "CompressG2": bls.CompressG2,
	"NewG2Projective": bls.NewG2Projective, "G2AffineToPrepared": bls.G2AffineToPrepared, "RandG2": bls.RandG2, "SWEncodeG2": bls.SWEncodeG2,
	"OptimizedSWU2MapHelper": bls.OptimizedSWU2MapHelper, "HashG2WithDomain": bls.HashG2WithDomain, "HashSecretKey": bls.HashSecretKey,
	"ClearH": bls.ClearH, "HashG1": bls.HashG1, "HashG2": bls.HashG2, "MillerLoop": bls.MillerLoop, "FinalExponentiation": bls.FinalExponentiation,
	"Pairing": bls.Pairing, "CompareTwoPairings": bls.CompareTwoPairings, "MultiplyFQRepr": bls.MultiplyFQRepr, "MontReduce": bls.MontReduce,
	"AddNoCarry": bls.AddNoCarry, "SubNoBorrow": bls.SubNoBorrow, "AddWithCarry": bls.AddWithCarry, "SubWithBorrow": bls.SubWithBorrow,
	"MACWithCarry":              bls.MACWithCarry,
	"g1pubs.NewSignatureFromG2": g1pubs.NewSignatureFromG2, "g1pubs.DeserializeSignature": g1pubs.DeserializeSignature,
	"g1pubs.NewPublicKeyFromG1": g1pubs.NewPublicKeyFromG1, "g1pubs.DeserializePublicKey": g1pubs.DeserializePublicKey,
	"g1pubs.DeserializeSecretKey": g1pubs.DeserializeSecretKey, "g1pubs.DeriveSecretKey": g1pubs.DeriveSecretKey, "g1pubs.Sign": g1pubs.Sign,
	"g1pubs.SignWithDomain": g1pubs.SignWithDomain, "g1pubs.PrivToPub": g1pubs.PrivToPub, "g1pubs.RandKey": g1pubs.RandKey,
	"g1pubs.KeyFromFQRepr": g1pubs.KeyFromFQRepr, "g1pubs.Verify": g1pubs.Verify, "g1pubs.VerifyWithDomain": g1pubs.VerifyWithDomain,
	"g1pubs.AggregateSignatures": g1pubs.AggregateSignatures, "g1pubs.AggregatePublicKeys": g1pubs.AggregatePublicKeys,
	"g1pubs.NewAggregateSignature": g1pubs.NewAggregateSignature, "g1pubs.NewAggregatePubkey": g1pubs.NewAggregatePubkey,
	"g2pubs.NewSignatureFromG1": g2pubs.NewSignatureFromG1, "g2pubs.DeserializeSignature": g2pubs.DeserializeSignature,
	"g2pubs.NewPublicKeyFromG2": g2pubs.NewPublicKeyFromG2, "g2pubs.DeserializePublicKey": g2pubs.DeserializePublicKey,
	"g2pubs.DeserializeSecretKey": g2pubs.DeserializeSecretKey, "g2pubs.DeriveSecretKey": g2pubs.DeriveSecretKey, "g2pubs.Sign": g2pubs.Sign,
	"g2pubs.PrivToPub": g2pubs.PrivToPub, "g2pubs.RandKey": g2pubs.RandKey, "g2pubs.KeyFromFQRepr": g2pubs.KeyFromFQRepr,
	"g2pubs.Verify": g2pubs.Verify, "g2pubs.AggregateSignatures": g2pubs.AggregateSignatures, "g2pubs.AggregatePublicKeys": g2pubs.AggregatePublicKeys,
	"g2pubs.NewAggregateSignature": g2pubs.NewAggregateSignature, "g2pubs.NewAggregatePubkey": g2pubs.NewAggregatePubkey,
}

func apiOps() []*op {
	var ops []*op
	for _, v := range apiTypes {
		t := reflect.TypeOf(v)
		p := reflect.PointerTo(t)
		pkg := strings.TrimPrefix(t.String(), "bls.")
		for i := 0; i < p.NumMethod(); i++ {
			m := p.Method(i)
			o := &op{name: pkg + "." + m.Name, fn: m.Func, recv: p}
			o.mutates = mutatesRe.MatchString(o.name)
			// FR.MulAssign has a value receiver that points to nothing shared;
			// its result does not depend on that
			ops = append(ops, o)
		}
	}
	for n, f := range apiFuncs {
		ops = append(ops, &op{name: n, fn: reflect.ValueOf(f)})
	}
	for _, o := range ops {
		o.heavy = heavyRe.MatchString(o.name)
		if strings.HasPrefix(o.name, "g1pubs") {
			o.pkg = 1
		} else if strings.HasPrefix(o.name, "g2pubs") {
			o.pkg = 2
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].name < ops[j].name })
	return ops
}

// --- fixtures, all of them from the reference model ---

const nKeys, nMsgs = 20, 20

type fixtures struct {
	p1, p2 []kpt
	keys   [nKeys]*big.Int
	pk1    [nKeys]ref.Pt // of g1pubs, in G1
	pk2    [nKeys]ref.Pt
	msgs   [nMsgs][]byte
	m32    [nMsgs][32]byte
	doms   [2][8]byte
	h1     [nMsgs]ref.Pt    // HashG1
	h2     [nMsgs]ref.Pt    // HashG2
	hd     [nMsgs][2]ref.Pt // HashG2 with domain
}

func newFixtures(c *mon.Rng) *fixtures {
	f := &fixtures{p1: pool(c, ref.E1, ref.G1, 16), p2: pool(c, ref.E2, ref.G2, 16)}
	for i := range f.keys {
		f.keys[i] = secret(c)
		f.pk1[i] = ref.E1.Mul(ref.G1, f.keys[i])
		f.pk2[i] = ref.E2.Mul(ref.G2, f.keys[i])
	}
	for i := range f.doms {
		c.Fill(f.doms[i][:])
	}
	for i := range f.msgs {
		f.msgs[i] = c.Bytes(5 + 20*(i%4) + i)
		c.Fill(f.m32[i][:])
		f.h1[i] = ref.HashG1(f.msgs[i])
		f.h2[i] = ref.HashG2(f.msgs[i])
		for d := range f.doms {
			f.hd[i][d] = ref.HashG2Domain(f.m32[i], f.doms[d])
		}
	}
	return f
}

// scenario is what the arguments of one verification have in common.
type scenario struct {
	keys   []int
	msgs   []int
	dom    int
	common bool // all keys sign the first message
	domain bool
	bad    bool
}

func (f *fixtures) scen(c *mon.Rng, o *op) *scenario {
	s := &scenario{dom: c.Intn(2), bad: c.OneIn(4)}
	n := 1
	if strings.Contains(o.name, "Aggregate") {
		n = c.Between(0, 5)
		if c.OneIn(6) {
			n = c.Between(6, nMsgs)
		}
		s.common = strings.Contains(o.name, "Common")
	}
	s.domain = strings.Contains(o.name, "Domain")
	kp, mp := c.Perm(nKeys), c.Perm(nMsgs)
	s.keys = kp[:n]
	s.msgs = mp[:max(n, 1)]
	return s
}
func (f *fixtures) sig(c *mon.Rng, s *scenario, pkg int) ref.Pt {
	e, h := ref.E2, f.h2[:]
	if pkg == 2 {
		e, h = ref.E1, f.h1[:]
	}
	sum := ref.Inf
	for i, k := range s.keys {
		m := s.msgs[0]
		if !s.common {
			m = s.msgs[i]
		}
		p := h[m]
		if s.domain {
			p = f.hd[m][s.dom]
		}
		sum = e.Add(sum, e.Mul(p, f.keys[k]))
	}
	if s.bad {
		if pkg == 2 {
			return e.Add(sum, f.p1[c.Intn(len(f.p1))].P)
		}
		return e.Add(sum, f.p2[c.Intn(len(f.p2))].P)
	}
	return sum
}

// reader is a deterministic entropy source.
type reader struct{ *mon.Rng }

func (r reader) Read(b []byte) (int, error) { r.Fill(b); return len(b), nil }

type gen struct {
	*mon.Rng
	f *fixtures
	o *op
	s *scenario
	n int // length of lists
}

func newGen(f *fixtures, o *op, seed uint64) *gen {
	g := &gen{Rng: mon.NewRng(seed), f: f, o: o}
	g.n = g.Intn(4)
	if g.OneIn(8) {
		g.n = g.Between(4, 40)
	}
	if strings.Contains(o.name, "Verify") {
		g.s = f.scen(g.Rng, o)
	}
	return g
}
func (g *gen) pt1() ref.Pt {
	if g.OneIn(10) {
		return ref.Inf
	}
	p := g.f.p1[g.Intn(len(g.f.p1))].P
	if g.Bool() {
		p = ref.E1.Add(p, g.f.p1[g.Intn(len(g.f.p1))].P)
	}
	return p
}
func (g *gen) pt2() ref.Pt {
	if g.OneIn(10) {
		return ref.Inf
	}
	p := g.f.p2[g.Intn(len(g.f.p2))].P
	if g.Bool() {
		p = ref.E2.Add(p, g.f.p2[g.Intn(len(g.f.p2))].P)
	}
	return p
}
func (g *gen) bytes(b []byte) []byte { // with spare capacity that must survive
	r := append(make([]byte, 0, len(b)+g.Intn(80)), b...)
	t := r[len(r):cap(r)]
	g.Fill(t)
	return r
}

var readerT = reflect.TypeOf((*io.Reader)(nil)).Elem()
var hashT = reflect.TypeOf((*hash.Hash)(nil)).Elem()

// arg makes one argument; the same seed makes an equal one again.
func (g *gen) arg(t reflect.Type) reflect.Value {
	v := g.arg1(t)
	if v == nil {
		if t.Kind() == reflect.Pointer { // a copy on the heap
			p := reflect.New(t.Elem())
			p.Elem().Set(g.arg(t.Elem()))
			return p
		}
		if t.Kind() == reflect.Slice {
			l := reflect.MakeSlice(t, 0, g.n)
			n := g.n
			if g.s != nil {
				n = len(g.s.keys)
			} else if t.Elem() == reflect.TypeOf(bls.MillerLoopItem{}) {
				n = min(n, 10)
			}
			for i := 0; i < n; i++ {
				if g.s != nil {
					l = reflect.Append(l, g.listItem(t.Elem(), i))
				} else {
					l = reflect.Append(l, g.arg(t.Elem()))
				}
			}
			return l
		}
		panic("harness: no generator for " + t.String() + " in " + g.o.name)
	}
	return reflect.ValueOf(v)
}
func (g *gen) listItem(t reflect.Type, i int) reflect.Value {
	switch t {
	case reflect.TypeOf((*g1pubs.PublicKey)(nil)):
		return reflect.ValueOf(g1pubs.NewPublicKeyFromG1(g1a(g.f.pk1[g.s.keys[i]])))
	case reflect.TypeOf((*g2pubs.PublicKey)(nil)):
		return reflect.ValueOf(g2pubs.NewPublicKeyFromG2(g2a(g.f.pk2[g.s.keys[i]])))
	case reflect.TypeOf([]byte(nil)):
		return reflect.ValueOf(g.bytes(g.f.msgs[g.s.msgs[i]]))
	case reflect.TypeOf([32]byte{}):
		return reflect.ValueOf(g.f.m32[g.s.msgs[i]])
	}
	panic("harness: no list generator for " + t.String())
}
func (g *gen) arg1(t reflect.Type) any {
	c := g.Rng
	switch t {
	case readerT:
		return reader{mon.NewRng(g.U64())}
	case hashT:
		h := sha256.New()
		h.Write(g.Bytes(g.Intn(100)))
		return h
	}
	switch reflect.Zero(t).Interface().(type) {
	case bls.FQ:
		return fq(fp(c))
	case bls.FQ2:
		return fq2(fp2(c))
	case *bls.FQ6:
		return fq6(fp6(c))
	case bls.FQ6:
		return *fq6(fp6(c))
	case *bls.FQ12:
		return fq12(fp12(c))
	case bls.FQ12:
		return *fq12(fp12(c))
	case bls.FQRepr:
		return qrep(g.Limbs(6))
	case *bls.FR:
		return fr(frv(c))
	case bls.FR:
		return *fr(frv(c))
	case bls.FRRepr:
		return *rrep(g.Limbs(4))
	case *bls.G1Affine:
		return g1a(g.pt1())
	case bls.G1Affine:
		return *g1a(g.pt1())
	case *bls.G1Projective:
		return g1z(g.pt1(), zval(c, grpG1).A)
	case bls.G1Projective:
		return *g1z(g.pt1(), zval(c, grpG1).A)
	case *bls.G2Affine:
		return g2a(g.pt2())
	case bls.G2Affine:
		return *g2a(g.pt2())
	case *bls.G2Projective:
		return g2z(g.pt2(), zval(c, grpG2))
	case bls.G2Projective:
		return *g2z(g.pt2(), zval(c, grpG2))
	case *bls.G2Prepared:
		return bls.G2AffineToPrepared(g2a(g.pt2()))
	case bls.G2Prepared:
		return *bls.G2AffineToPrepared(g2a(g.pt2()))
	case bls.MillerLoopItem:
		return bls.MillerLoopItem{P: g1a(g.pt1()), Q: bls.G2AffineToPrepared(g2a(g.pt2()))}
	case *bls.BitIterator:
		b := bls.NewBitIterator([]uint64{g.U64(), g.U64()})
		for i := g.Intn(130); i > 0; i-- {
			b.Next()
		}
		return &b
	case *g1pubs.Signature:
		if g.s != nil {
			return g1pubs.NewSignatureFromG2(g2a(g.f.sig(c, g.s, 1)))
		}
		return g1pubs.NewSignatureFromG2(g2a(g.pt2()))
	case *g2pubs.Signature:
		if g.s != nil {
			return g2pubs.NewSignatureFromG1(g1a(g.f.sig(c, g.s, 2)))
		}
		return g2pubs.NewSignatureFromG1(g1a(g.pt1()))
	case *g1pubs.PublicKey:
		if g.s != nil {
			return g1pubs.NewPublicKeyFromG1(g1a(g.f.pk1[g.s.keys[0]]))
		}
		return g1pubs.NewPublicKeyFromG1(g1a(g.pt1()))
	case g1pubs.PublicKey:
		return *g1pubs.NewPublicKeyFromG1(g1a(g.pt1()))
	case *g2pubs.PublicKey:
		if g.s != nil {
			return g2pubs.NewPublicKeyFromG2(g2a(g.f.pk2[g.s.keys[0]]))
		}
		return g2pubs.NewPublicKeyFromG2(g2a(g.pt2()))
	case g2pubs.PublicKey:
		return *g2pubs.NewPublicKeyFromG2(g2a(g.pt2()))
	case *g1pubs.SecretKey:
		return g1pubs.KeyFromFQRepr(rrep(secret(c)))
	case *g2pubs.SecretKey:
		return g2pubs.KeyFromFQRepr(rrep(secret(c)))
	case []byte:
		if g.s != nil {
			return g.bytes(g.f.msgs[g.s.msgs[0]])
		}
		m := message(c, -1)
		if len(m) > 300 {
			m = m[:300]
		}
		return g.bytes(m)
	case [32]byte:
		if g.s != nil {
			return g.f.m32[g.s.msgs[0]]
		}
		var b [32]byte
		g.Fill(b[:])
		if g.Bool() {
			secret(c).FillBytes(b[:])
		}
		return b
	case [8]byte:
		if g.s != nil {
			return g.f.doms[g.s.dom]
		}
		var b [8]byte
		g.Fill(b[:])
		return b
	case [48]byte:
		if g.OneIn(4) {
			var b [48]byte
			g.Fill(b[:])
			return b
		}
		return ref.Compress1(g.pt1())
	case [96]byte:
		if g.OneIn(4) {
			var b [96]byte
			g.Fill(b[:])
			return b
		}
		if strings.Contains(g.o.name, "RawBytes") {
			var b [96]byte
			fp(c).FillBytes(b[:48])
			fp(c).FillBytes(b[48:])
			return b
		}
		return ref.Compress2(g.pt2())
	case [192]byte:
		var b [192]byte
		for i := 0; i < 192; i += 48 {
			fp(c).FillBytes(b[i : i+48])
		}
		return b
	case [6]uint64:
		return limbs6(g.Limbs(6))
	case []uint64:
		r := make([]uint64, g.Intn(7))
		for i := range r {
			r[i] = g.Word()
		}
		return r
	case uint64:
		return g.Word()
	case uint:
		if strings.Contains(g.o.name, "FromString") {
			return uint([]int{2, 8, 10, 16, 36}[g.Intn(5)])
		}
		if strings.HasSuffix(g.o.name, ".Bit") {
			if strings.Contains(g.o.name, "FQRepr") {
				return uint(g.Intn(384))
			}
			return uint(g.Intn(256))
		}
		if g.OneIn(8) { // where sums and products of the amount leave a machine word
			return uint(g.Word() >> 32)
		}
		if g.OneIn(8) {
			return 1<<32 - 1 - uint(g.Intn(512))
		}
		return uint(g.Intn(400))
	case uint8:
		return uint8(g.Intn(256))
	case int:
		return g.Intn(400)
	case bool:
		return g.Bool()
	case string:
		s := strings.Repeat("1", g.Intn(60)) + []string{"0", "1", "01", "11"}[g.Intn(4)]
		if g.OneIn(8) {
			s = "x!"
		}
		return s
	case *big.Int:
		return g.Limbs(6)
	case big.Int:
		return *g.Limbs(6)
	}
	return nil
}

// args makes the full argument list, receiver first.
func (o *op) args(f *fixtures, seed uint64) []reflect.Value {
	g := newGen(f, o, seed)
	t := o.fn.Type()
	var in []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		in = append(in, g.arg(t.In(i)))
	}
	if o.name == "SubWithBorrow" { // a borrow is 0 or 1
		in[2] = reflect.ValueOf(in[2].Uint() & 1)
	}
	return in
}

// call runs the operation; a panic becomes an outcome.
func (o *op) call(in []reflect.Value) (out []reflect.Value, pan string) {
	pan = mon.Try(func() { out = o.fn.Call(in) })
	return
}

// --- observation ---

// snap renders everything a caller can observe of a value through the API.
func snap(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil() {
		return "nil"
	}
	switch x := v.Interface().(type) {
	case reader:
		return "reader"
	case hash.Hash:
		return hex.EncodeToString(x.Sum(nil))
	case error:
		return "error " + x.Error()
	case bls.FQ:
		return x.String()
	case *bls.FQ:
		return x.String()
	case bls.FQ2:
		return x.String()
	case *bls.FQ2:
		return x.String()
	case bls.FQ6:
		return x.String()
	case *bls.FQ6:
		return x.String()
	case bls.FQ12:
		return x.String()
	case *bls.FQ12:
		return x.String()
	case bls.FQRepr:
		return fmt.Sprintf("%x", [6]uint64(x))
	case *bls.FQRepr:
		return fmt.Sprintf("%x", [6]uint64(*x))
	case bls.FR:
		return x.String()
	case *bls.FR:
		return x.String()
	case bls.FRRepr:
		return fmt.Sprintf("%x", [4]uint64(x))
	case *bls.FRRepr:
		return fmt.Sprintf("%x", [4]uint64(*x))
	case bls.G1Affine:
		return fmt.Sprint(x.String(), x.IsZero())
	case *bls.G1Affine:
		return fmt.Sprint(x.String(), x.IsZero())
	case bls.G1Projective:
		return x.String()
	case *bls.G1Projective:
		return x.String()
	case bls.G2Affine:
		return fmt.Sprint(x.String(), x.IsZero())
	case *bls.G2Affine:
		return fmt.Sprint(x.String(), x.IsZero())
	case bls.G2Projective:
		return x.String()
	case *bls.G2Projective:
		return x.String()
	case *bls.G2Prepared:
		return fmt.Sprint(x.IsZero(), bls.MillerLoop([]bls.MillerLoopItem{{P: g1a(ref.G1), Q: x}}).String())
	case bls.MillerLoopItem:
		return snap(reflect.ValueOf(x.P)) + snap(reflect.ValueOf(x.Q))
	case bls.BitIterator:
		return snap(reflect.ValueOf(&x))
	case *bls.BitIterator:
		y := *x
		var b strings.Builder
		for i := 0; i < 1000; i++ {
			bit, ok := y.Next()
			if bit {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
			if !ok {
				break
			}
		}
		return b.String()
	case *g1pubs.Signature:
		return x.String()
	case *g2pubs.Signature:
		return x.String()
	case g1pubs.PublicKey:
		return x.String()
	case *g1pubs.PublicKey:
		return x.String()
	case g2pubs.PublicKey:
		return x.String()
	case *g2pubs.PublicKey:
		return x.String()
	case *g1pubs.SecretKey:
		b := x.Serialize()
		return hex.EncodeToString(b[:]) + x.String()
	case *g2pubs.SecretKey:
		b := x.Serialize()
		return hex.EncodeToString(b[:]) + x.String()
	case []byte:
		return fmt.Sprintf("%d:%x", len(x), x[:cap(x)])
	case *big.Int:
		return x.Text(16)
	case big.Int:
		return x.Text(16)
	}
	switch v.Kind() {
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, snap(v.Index(i)))
		}
		return fmt.Sprintf("%d[%s]", v.Len(), strings.Join(l, ";"))
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Interface())
		}
	case reflect.Pointer, reflect.Struct, reflect.Map, reflect.Func, reflect.Chan:
		panic("harness: no snapshot for " + v.Type().String())
	}
	return fmt.Sprintf("%v", v.Interface())
}
func snaps(vs []reflect.Value) string {
	var l []string
	for _, v := range vs {
		l = append(l, snap(v))
	}
	return strings.Join(l, " | ")
}

// resultSlack drops the spare capacity of byte results, which is not part of
// the result.
func snapOut(vs []reflect.Value) string {
	var l []string
	for _, v := range vs {
		if b, ok := v.Interface().([]byte); ok {
			l = append(l, hex.EncodeToString(b))
			continue
		}
		l = append(l, snap(v))
	}
	return strings.Join(l, " | ")
}

// outcome is the observable result of a call.
func (o *op) outcome(in, out []reflect.Value, pan string) string {
	if pan != "" {
		return pan
	}
	s := snapOut(out)
	if o.mutates {
		s += " -> " + snap(in[0])
	}
	return s
}

// mutate changes an object in place in every way the API offers.
func mutate(v reflect.Value) {
	if !v.IsValid() || ((v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface || v.Kind() == reflect.Slice) && v.IsNil()) {
		return
	}
	switch x := v.Interface().(type) {
	case *bls.FQ6:
		x.AddAssign(fq6(ref.F6{ref.F2i(3, 5), ref.F2i(7, 11), ref.F2i(13, 17)}))
	case *bls.FQ12:
		y := fq12(ref.F12{ref.F2i(3, 5), ref.F2i(7, 11), ref.F2i(13, 17), ref.F2i(19, 23), ref.F2i(29, 31), ref.F2i(37, 41)})
		x.AddAssign(y)
		x.MulAssign(y)
	case *bls.FR:
		x.AddAssign(fr(bi(12345)))
	case *bls.FRRepr:
		x.AddNoCarry(rrep(bi(12345)))
	case *bls.FQRepr:
		x.AddNoCarry(qrep(bi(12345)))
	case *bls.G1Affine:
		x.NegAssign()
		*x = *g1a(ref.E1.MulS(ref.G1, bi(12)))
	case *bls.G2Affine:
		x.NegAssign()
		*x = *g2a(ref.E2.MulS(ref.G2, bi(12)))
	case *bls.G1Projective:
		x.NegAssign()
		*x = *g1a(ref.E1.MulS(ref.G1, bi(12))).ToProjective()
	case *bls.G2Projective:
		*x = *g2a(ref.E2.MulS(ref.G2, bi(12))).ToProjective()
	case *bls.G2Prepared:
		*x = *bls.G2AffineToPrepared(g2a(ref.E2.MulS(ref.G2, bi(12))))
	case *g1pubs.Signature:
		x.Aggregate(g1pubs.NewSignatureFromG2(g2a(ref.E2.MulS(ref.G2, bi(12)))))
	case *g2pubs.Signature:
		x.Aggregate(g2pubs.NewSignatureFromG1(g1a(ref.E1.MulS(ref.G1, bi(12)))))
	case *g1pubs.PublicKey:
		x.Aggregate(g1pubs.NewPublicKeyFromG1(g1a(ref.E1.MulS(ref.G1, bi(12)))))
	case *g2pubs.PublicKey:
		x.Aggregate(g2pubs.NewPublicKeyFromG2(g2a(ref.E2.MulS(ref.G2, bi(12)))))
	case *big.Int:
		for i := range x.Bits() {
			x.Bits()[i] ^= 0x5a5a5a5
		}
		x.Add(x, bi(12345))
	case big.Int:
		for i := range x.Bits() {
			x.Bits()[i] ^= 0x5a5a5a5
		}
	case []byte:
		x = x[:cap(x)]
		for i := range x {
			x[i] ^= 0x5a
		}
	case []uint64:
		for i := range x {
			x[i] ^= 0x5a5a5a
		}
	case bls.MillerLoopItem:
		mutate(reflect.ValueOf(x.P))
		mutate(reflect.ValueOf(x.Q))
	default:
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				mutate(v.Index(i))
			}
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetZero()
			}
		}
	}
}

// globals are the exported package variables.
func globals() string {
	var b bytes.Buffer
	for _, v := range []any{bls.FQZero, bls.FQOne, bls.QFieldModulus, bls.FQR2, bls.FQ12Zero, bls.FQ12One, bls.FQ2Zero, bls.FQ2One,
		bls.FQ6Zero, bls.FQ6One, bls.RFieldModulus, bls.FRR, bls.FRR2, bls.G1AffineZero, bls.BCoeff, bls.G1AffineOne,
		bls.G1ProjectiveZero, bls.G1ProjectiveOne, bls.G2AffineZero, bls.BCoeffFQ2, bls.G2AffineOne, bls.G2ProjectiveZero, bls.G2ProjectiveOne} {
		b.WriteString(snap(reflect.ValueOf(v)))
		b.WriteByte('\n')
	}
	return b.String()
}
