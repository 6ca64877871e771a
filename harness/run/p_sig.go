package main

// C01 single signatures, C02 exact values, C03 aggregates over distinct
// messages, C04 aggregation histories, C19 hostile bytes, C21 secret keys.

import (
	"bytes"
	"fmt"
	"math/big"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C19"] = c19
	props["C21"] = c21
}

func mulSub(k *big.Int, e ref.Curve, g ref.Pt) ref.Pt { return e.MulS(g, k) }

func other(c *mon.Rng, k *big.Int) *big.Int { // a different nonzero key, close to k
	for {
		v := new(big.Int)
		switch c.Intn(7) {
		case 0:
			v.Add(k, bi(1))
		case 1:
			v.Sub(k, bi(1))
		case 2:
			v.Sub(ref.R, k)
		case 3:
			v.Lsh(k, 1)
		case 4:
			v.Xor(k, pow2(uint(c.Intn(255))))
		case 5:
			v.ModInverse(k, ref.R)
		default:
			v = secret(c)
		}
		v.Mod(v, ref.R)
		if v.Sign() != 0 && v.Cmp(k) != 0 {
			return v
		}
	}
}

func c01(c *C) {
	iter := 0
	one := func(s *scheme, k *big.Int, m []byte) {
		sk := s.skey(k)
		if !c.Check(sk != nil, "%s: key %v refused", s.name, k) {
			return
		}
		pk := s.pub(sk)
		sg := s.sign(m, sk)
		c.Case(s.name+" genuine", k, m)
		c.Check(s.verify(m, pk, sg), "%s: a genuine signature is rejected", s.name)
		c.Count("accepted", 1)
		no := func(what string, ok bool) {
			c.Count("rejected", 1)
			if ok {
				c.Fail("%s: accepted although %s", s.name, what)
			}
		}
		for n := 3; n > 0; n-- {
			kind := iter % 15
			iter++
			switch kind {
			case 0: // through the wire
				c.Case(s.name+" genuine, transported", k, m)
				pk2, err := s.pkParse(s.pkBytes(pk))
				if err != nil {
					c.Fail("%s: public key rejected: %v", s.name, err)
					continue
				}
				sg2, err := s.sgParse(s.sgBytes(sg))
				if err != nil {
					c.Fail("%s: signature rejected: %v", s.name, err)
					continue
				}
				c.Check(s.verify(append([]byte(nil), m...), pk2, sg2), "%s: a genuine signature is rejected after transport", s.name)
				c.Count("accepted", 1)
			case 1: // copies and other representations of the same values
				c.Case(s.name+" genuine, copied", k, m)
				sk2 := s.skParse(s.skBytes(sk))
				if sk2 == nil {
					c.Fail("%s: secret key lost in serialization", s.name)
					continue
				}
				pk2 := s.pkFrom(s.pkG.toA(s.pkPt(s.pkCopy(pk))))
				sg2 := s.sgSum([]sgT{s.sgZero(), s.sgCopy(s.sign(m, sk2))})
				c.Check(s.verify(m, pk2, sg2), "%s: a copied genuine signature is rejected", s.name)
				c.Count("accepted", 1)
			case 2, 3:
				m2 := mutateMsg(c.Rng, m)
				if bytes.Equal(m2, m) {
					continue
				}
				c.Case(s.name+" other message", k, m, m2)
				no("the message was altered", s.verify(m2, pk, sg))
			case 4, 5:
				k2 := other(c.Rng, k)
				c.Case(s.name+" other key", k, m, k2)
				no("the key is another", s.verify(m, s.pub(s.skey(k2)), sg))
			case 6: // signature moved
				c.Case(s.name+" signature moved", k, m)
				d := s.sgG.g
				if c.Bool() {
					d = d.Neg()
				}
				t := s.sgCopy(sg)
				s.sgAgg(t, s.sgFrom(s.sgG.A(d)))
				no("the signature was moved by the generator", s.verify(m, pk, t))
			case 7:
				a := s.sgG.toA(s.sgPt(sg))
				var t sgT
				what := ""
				switch c.Intn(4) {
				case 0:
					s.sgG.negA(a)
					t, what = s.sgFrom(a), "negated"
				case 1:
					t, what = s.sgSum([]sgT{sg, sg}), "doubled"
				case 2:
					t, what = s.sgZero(), "replaced by the identity"
				case 3: // same y, another subgroup point
					t, what = s.sgFrom(s.sgG.A(phi(s.sgG.oA(a), c.Between(1, 2)))), "replaced by its image under the endomorphism"
				}
				c.Case(s.name+" signature "+what, k, m)
				no("the signature was "+what, s.verify(m, pk, t))
			case 8:
				a := s.pkG.toA(s.pkPt(pk))
				var t pkT
				what := ""
				switch c.Intn(4) {
				case 0:
					s.pkG.negA(a)
					t, what = s.pkFrom(a), "negated"
				case 1:
					t, what = s.pkSum([]pkT{pk, pk}), "doubled"
				case 2:
					t, what = s.pkZero(), "replaced by the identity"
				case 3:
					t, what = s.pkFrom(s.pkG.A(phi(s.pkG.oA(a), c.Between(1, 2)))), "replaced by its image under the endomorphism"
				}
				c.Case(s.name+" public key "+what, k, m)
				no("the public key was "+what, s.verify(m, t, sg))
			case 9: // another key's or message's signature
				m2 := message(c.Rng, -1)
				if bytes.Equal(m, m2) {
					continue
				}
				c.Case(s.name+" signature of another message", k, m, m2)
				no("the signature is of another message", s.verify(m, pk, s.sign(m2, sk)))
			case 10: // bit flips in the encodings
				b := s.sgBytes(sg)
				i := c.Intn(8 * len(b))
				if c.OneIn(3) {
					i = 2 // the sign flag
				}
				b[i/8] ^= 0x80 >> (i % 8)
				c.Case(s.name+" signature bit flip", k, m, i)
				if t, err := s.sgParse(b); err == nil {
					no(fmt.Sprintf("bit %d of the signature was flipped", i), s.verify(m, pk, t))
				} else {
					c.Count("bit flips refused in decoding", 1)
				}
			case 11:
				b := s.pkBytes(pk)
				i := c.Intn(8 * len(b))
				if c.OneIn(3) {
					i = 2
				}
				b[i/8] ^= 0x80 >> (i % 8)
				c.Case(s.name+" public key bit flip", k, m, i)
				if t, err := s.pkParse(b); err == nil {
					no(fmt.Sprintf("bit %d of the public key was flipped", i), s.verify(m, t, sg))
				} else {
					c.Count("bit flips refused in decoding", 1)
				}
			case 12: // the key object itself changes, and changes back
				k2 := other(c.Rng, k)
				sum := new(big.Int).Add(k, k2)
				sum.Mod(sum, ref.R)
				if sum.Sign() == 0 {
					continue
				}
				c.Case(s.name+" key changed in place", k, m, k2)
				c.Count("objects changed in place", 1)
				d := s.pkG.toA(s.pkPt(s.pub(s.skey(k2))))
				s.pkAgg(pk, s.pkFrom(d))
				no("the key object was changed since", s.verify(m, pk, sg))
				c.Check(s.verify(m, pk, s.sign(m, s.skey(sum))), "%s: a genuine signature is rejected by a key that was aggregated", s.name)
				s.pkG.negA(d)
				s.pkAgg(pk, s.pkFrom(d))
				c.Check(s.verify(m, pk, sg), "%s: a genuine signature is rejected by a key changed and changed back", s.name)
				c.Count("accepted", 2)
			case 13: // the signature object
				c.Case(s.name+" signature changed in place", k, m)
				c.Count("objects changed in place", 1)
				d := s.sgG.A(s.sgG.g)
				if c.Bool() {
					d = s.sgG.toA(s.sgPt(s.sign(m, s.skey(other(c.Rng, k)))))
				}
				s.sgAgg(sg, s.sgFrom(d))
				no("the signature object was changed since", s.verify(m, pk, sg))
				s.sgG.negA(d)
				s.sgAgg(sg, s.sgFrom(d))
				c.Check(s.verify(m, pk, sg), "%s: a genuine signature is rejected once changed and changed back", s.name)
				c.Count("accepted", 1)
			case 14: // the message buffer
				if len(m) == 0 {
					continue
				}
				c.Case(s.name+" message changed in place", k, m)
				c.Count("objects changed in place", 1)
				buf := append([]byte(nil), m...)
				c.Check(s.verify(buf, pk, sg), "%s: a genuine signature is rejected", s.name)
				i := c.Intn(8 * len(buf))
				buf[i/8] ^= 1 << (i % 8)
				no("the message buffer was changed since", s.verify(buf, pk, sg))
				buf[i/8] ^= 1 << (i % 8)
				c.Check(s.verify(buf, pk, sg), "%s: a genuine signature is rejected once its message is restored", s.name)
				c.Count("accepted", 2)
			}
		}
		c.Check(s.verify(m, pk, sg), "%s: a genuine signature is rejected the second time", s.name)
	}
	domain := func(k *big.Int, m [32]byte, d [8]byte) {
		sk := g1pubs.KeyFromFQRepr(rrep(k))
		pk := g1pubs.PrivToPub(sk)
		sg := g1pubs.SignWithDomain(m, sk, d)
		c.Case("domain genuine", k, m[:], d[:])
		c.Check(g1pubs.VerifyWithDomain(m, pk, sg, d), "a genuine signature with a domain is rejected")
		c.Count("accepted", 1)
		c.Count("rejected", 1)
		switch iter++; iter % 8 {
		case 0:
			m2, d := collideMD(c.Rng, m, d, c.Intn(2))
			c.Case("domain other message", k, m[:], d[:], m2[:])
			c.Check(!g1pubs.VerifyWithDomain(m2, pk, sg, d), "accepted although the message was altered")
		case 1, 2:
			m2, d2 := collideMD(c.Rng, m, d, c.Between(2, 4))
			c.Case("other domain", k, m[:], d[:], m2[:], d2[:])
			c.Check(!g1pubs.VerifyWithDomain(m2, pk, sg, d2), "accepted although the domain was altered")
		case 3:
			k2 := other(c.Rng, k)
			c.Case("domain other key", k, m[:], d[:], k2)
			c.Check(!g1pubs.VerifyWithDomain(m, g1pubs.PrivToPub(g1pubs.KeyFromFQRepr(rrep(k2))), sg, d), "accepted although the key is another")
		case 4: // the two kinds of signature do not mix
			c.Case("domain and plain", k, m[:], d[:])
			c.Check(!g1pubs.Verify(m[:], pk, sg), "a signature with a domain is accepted as a plain one")
			c.Check(!g1pubs.VerifyWithDomain(m, pk, g1pubs.Sign(m[:], sk), d), "a plain signature is accepted as one with a domain")
		case 5: // bytes exchanged between message and domain
			m2, d2 := m, d
			copy(m2[24:], d[:])
			copy(d2[:], m[24:])
			if m2 == m && d2 == d {
				d2[7] ^= 1
			}
			c.Case("domain message exchanged", k, m[:], d[:])
			c.Check(!g1pubs.VerifyWithDomain(m2, pk, sg, d2), "accepted although message and domain were exchanged")
		case 6:
			k2 := other(c.Rng, k)
			c.Case("domain key changed in place", k, m[:], d[:], k2)
			c.Count("objects changed in place", 1)
			a := g1pubs.PrivToPub(g1pubs.KeyFromFQRepr(rrep(k2))).GetPoint().ToAffine()
			pk.Aggregate(g1pubs.NewPublicKeyFromG1(a))
			c.Check(!g1pubs.VerifyWithDomain(m, pk, sg, d), "accepted although the key object was changed since")
			a.NegAssign()
			pk.Aggregate(g1pubs.NewPublicKeyFromG1(a))
			c.Check(g1pubs.VerifyWithDomain(m, pk, sg, d), "a genuine signature with a domain is rejected by a key changed and changed back")
		case 7:
			c.Case("domain signature changed in place", k, m[:], d[:])
			c.Count("objects changed in place", 1)
			a := bls.G2AffineOne.Copy()
			sg.Aggregate(g1pubs.NewSignatureFromG2(a))
			c.Check(!g1pubs.VerifyWithDomain(m, pk, sg, d), "accepted although the signature object was changed since")
			a.NegAssign()
			sg.Aggregate(g1pubs.NewSignatureFromG2(a))
			c.Check(g1pubs.VerifyWithDomain(m, pk, sg, d), "a genuine signature with a domain is rejected once changed and changed back")
		}
	}
	for i := 0; i < 300+len(msgLens); i++ {
		if c.Mine(i) && (c.Scale >= 0.5 || c.OneIn(4)) {
			one(schemes[(i/c.Shards)%2], secret(c.Rng), message(c.Rng, i))
		}
	}
	if c.Shard < 2 {
		one(schemes[c.Shard], secret(c.Rng), c.Bytes(1<<20+c.Shard))
	}
	for n := c.N(2000); n > 0; n-- {
		one(schemes[n%2], secret(c.Rng), message(c.Rng, -1))
		if n%4 == 0 {
			var m [32]byte
			var d [8]byte
			copy(m[:], message(c.Rng, 32))
			switch c.Intn(4) {
			case 0:
			case 1:
				d[c.Intn(8)] = 1 << c.Intn(8)
			default:
				c.Fill(d[:])
			}
			domain(secret(c.Rng), m, d)
		}
	}
}

func compressRef(g *group, p ref.Pt) []byte {
	if g.g2 {
		b := ref.Compress2(p)
		return b[:]
	}
	b := ref.Compress1(p)
	return b[:]
}

func c02(c *C) {
	do := func(s *scheme, k *big.Int, m []byte) {
		c.Case(s.name+" public key and signature bytes", k, m)
		sk := s.skey(k)
		if !c.Check(sk != nil, "%s: key %v refused", s.name, k) {
			return
		}
		var kb [32]byte
		k.FillBytes(kb[:])
		c.Check(bytes.Equal(s.skBytes(sk), kb[:]), "%s: secret key bytes %x, want %x", s.name, s.skBytes(sk), kb[:])
		want := compressRef(s.pkG, s.pkG.e.Mul(s.pkG.g, k))
		got := s.pkBytes(s.pub(sk))
		c.Check(bytes.Equal(got, want), "%s: public key %x, want %x", s.name, got, want)
		want = compressRef(s.sgG, s.sgG.e.Mul(s.hash(m), k))
		got = s.sgBytes(s.sign(m, sk))
		c.Check(bytes.Equal(got, want), "%s: signature %x, want %x", s.name, got, want)
	}
	ks := []*big.Int{bi(1), bi(2), bi(3), subInt(ref.R, 1), subInt(ref.R, 2), new(big.Int).Rsh(ref.R, 1), pow2(254), subInt(pow2(254), 1), pow2(64), pow2(128), pow2(192)}
	for i, k := range ks {
		if c.Mine(i) {
			do(sch1, k, message(c.Rng, -1))
			do(sch2, k, message(c.Rng, -1))
		}
	}
	for i := 0; i < 300+len(msgLens); i++ {
		if c.Mine(i) && (c.Scale >= 0.5 || c.OneIn(4)) {
			m := message(c.Rng, i)
			do(sch2, secret(c.Rng), m)
			if i%3 == 0 || i > 290 {
				do(sch1, secret(c.Rng), m)
			}
		}
	}
	for n := c.N(3000); n > 0; n-- {
		do(sch2, secret(c.Rng), message(c.Rng, -1))
		if n%2 == 0 {
			do(sch1, secret(c.Rng), message(c.Rng, -1))
		}
	}
	for n := c.N(1500); n > 0; n-- {
		var m [32]byte
		var d [8]byte
		copy(m[:], message(c.Rng, 32))
		if !c.OneIn(4) {
			c.Fill(d[:])
		}
		k := secret(c.Rng)
		c.Case("domain signature bytes", k, m[:], d[:])
		got := g1pubs.SignWithDomain(m, g1pubs.KeyFromFQRepr(rrep(k)), d).Serialize()
		want := ref.Compress2(ref.E2.Mul(ref.HashG2Domain(m, d), k))
		c.Check(got == want, "signature with a domain %x, want %x", got[:], want[:])
	}
	for n := c.N(3000); n > 0; n-- {
		var b [32]byte
		copy(b[:], message(c.Rng, 32))
		want := ref.DeriveSecret(b[:])
		for _, s := range schemes {
			c.Case(s.name+" derived key", b[:])
			sk := s.derive(b)
			c.Check(new(big.Int).SetBytes(s.skBytes(sk)).Cmp(want) == 0, "%s: key derived from %x is %x, want %v", s.name, b[:], s.skBytes(sk), want)
			if n%4 == 0 {
				got := s.pkBytes(s.pub(sk))
				w := compressRef(s.pkG, s.pkG.e.Mul(s.pkG.g, want))
				c.Check(bytes.Equal(got, w), "%s: derived public key %x, want %x", s.name, got, w)
			}
		}
	}
	// aggregate values
	for _, s := range schemes {
		for n := c.N(500); n > 0; n-- {
			m := message(c.Rng, -1)
			num := c.Intn(6)
			sum := new(big.Int)
			var sgs []sgT
			var pks []pkT
			for i := 0; i < num; i++ {
				k := secret(c.Rng)
				sum.Add(sum, k)
				sgs = append(sgs, s.sign(m, s.skey(k)))
				pks = append(pks, s.pub(s.skey(k)))
			}
			c.Case(s.name+" aggregate bytes", m, sum, num)
			got := s.sgBytes(s.sgSum(sgs))
			want := compressRef(s.sgG, s.sgG.e.MulS(s.hash(m), sum))
			c.Check(bytes.Equal(got, want), "%s: aggregate of %d signatures %x, want %x", s.name, num, got, want)
			got = s.pkBytes(s.pkSum(pks))
			want = compressRef(s.pkG, s.pkG.e.MulS(s.pkG.g, sum))
			c.Check(bytes.Equal(got, want), "%s: aggregate of %d keys %x, want %x", s.name, num, got, want)
		}
	}
}

// --- C03 ---

type signed struct {
	k  *big.Int
	m  []byte
	pk pkT
	sg sgT
}

func sign1(s *scheme, k *big.Int, m []byte) signed {
	sk := s.skey(k)
	return signed{k, m, s.pub(sk), s.sign(m, sk)}
}

// aggExpected decides aggregate verification: the messages are distinct and, per
// message, the verified keys' logarithms sum to the signing keys'.
func aggExpected(vk []*big.Int, vm [][]byte, sigs []signed) bool {
	if len(vk) != len(vm) {
		return false
	}
	coef := map[string]*big.Int{}
	get := func(m []byte) *big.Int {
		if coef[string(m)] == nil {
			coef[string(m)] = new(big.Int)
		}
		return coef[string(m)]
	}
	seen := map[string]bool{}
	for i := range vk {
		if seen[string(vm[i])] {
			return false
		}
		seen[string(vm[i])] = true
		v := get(vm[i])
		v.Add(v, vk[i])
	}
	for _, s := range sigs {
		v := get(s.m)
		v.Sub(v, s.k)
	}
	for _, v := range coef {
		if v.Mod(v, ref.R).Sign() != 0 {
			return false
		}
	}
	return true
}

// aggExpectedRepeated is the same for an identity signature when messages may repeat.
func aggExpectedRepeated(vk []*big.Int, vm [][]byte) bool {
	if len(vk) != len(vm) {
		return false
	}
	coef := map[string]*big.Int{}
	for i, m := range vm {
		if coef[string(m)] == nil {
			coef[string(m)] = new(big.Int)
		}
		coef[string(m)].Add(coef[string(m)], vk[i])
	}
	for _, v := range coef {
		if new(big.Int).Mod(v, ref.R).Sign() != 0 {
			return false
		}
	}
	return true
}

// msgFamily makes messages that are easily confused.
func msgFamily(c *mon.Rng, n int) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(m []byte) {
		if !seen[string(m)] {
			seen[string(m)] = true
			out = append(out, m)
		}
	}
	base := c.Bytes(c.Between(1, 80))
	kind := c.Intn(9)
	for i := 0; len(out) < n; i++ {
		switch kind {
		case 0: // prefixes of one another, from the empty message on
			add(make([]byte, i))
		case 1: // counters, differing in the last byte(s)
			add(append(append([]byte(nil), base...), byte(i>>8), byte(i)))
		case 2: // differing in the first byte
			add(append([]byte{byte(i), byte(i >> 8)}, base...))
		case 3:
			m := append([]byte(nil), base...)
			for j := 0; j < i/8+1; j++ {
				m = append(m, base...)
			}
			m[i%len(m)] ^= 1 << (i % 8)
			add(m)
		case 4:
			add(mutateMsg(c, base))
			if i > 3*n {
				add(message(c, -1))
			}
		case 5: // same bytes, split differently
			m := append([]byte(nil), base...)
			add(append(m, bytes.Repeat([]byte{0}, i)...))
		case 8: // equal under checksums of all kinds
			if c.OneIn(3) {
				m := drawTwin(c, -1)
				add(m)
				add(append([]byte(nil), twinOf(m)...))
			}
			if len(base) < 16 {
				base = append(base, c.Bytes(16)...)
			}
			add(base)
			base = collide(c, base)
		case 6: // long, differing late
			m := make([]byte, 300+c.Intn(3)*500)
			m[len(m)-1-i%200] = byte(i)
			m[0] = byte(i / 200)
			m[len(m)-1]++
			add(m)
		default:
			add(message(c, -1))
		}
	}
	for i, j := range c.Perm(len(out)) {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func c03(c *C) {
	for si, s := range schemes {
		run := func(what string, vk []*big.Int, vp []pkT, vm [][]byte, sigs []signed) {
			var l []sgT
			for _, x := range sigs {
				l = append(l, x.sg)
			}
			agg := s.sgSum(l)
			if c.OneIn(4) {
				agg, _ = s.sgParse(s.sgBytes(agg))
			}
			want := aggExpected(vk, vm, sigs)
			args := []any{len(vp), len(vm)}
			for i := range vm {
				args = append(args, vm[i])
			}
			for i := range vk {
				args = append(args, vk[i])
			}
			c.Case(s.name+" aggregate: "+what, args...)
			// nothing was signed and nothing is claimed: left open
			if len(vp) == 0 && len(vm) == 0 && want {
				s.verAgg(agg, vp, vm)
				return
			}
			got := s.verAgg(agg, vp, vm)
			if got != want {
				c.Fail("%s VerifyAggregate over %d keys and %d messages is %v, should be %v (%s)", s.name, len(vp), len(vm), got, want, what)
			}
			if want {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
		}
		// a standing set of signers, partly renewed
		mkset := func(n int) []signed {
			ms := msgFamily(c.Rng, n)
			r := make([]signed, n)
			for i := range r {
				k := secret(c.Rng)
				if i > 0 && c.OneIn(8) {
					k = r[c.Intn(i)].k // the same signer on another message
				}
				r[i] = sign1(s, k, ms[i])
			}
			return r
		}
		split := func(set []signed) (vk []*big.Int, vp []pkT, vm [][]byte) {
			for _, x := range set {
				vk = append(vk, x.k)
				vp = append(vp, x.pk)
				vm = append(vm, append([]byte(nil), x.m...))
			}
			return
		}
		n := c.N(380)
		for it := 0; it < n; it++ {
			size := []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 11, 12, 13, 14, 17}[c.Intn(16)]
			if c.OneIn(12) {
				size = c.Between(18, 40)
			}
			set := mkset(size)
			vk, vp, vm := split(set)
			run("genuine", vk, vp, vm, set)
			if size > 0 && size < 8 {
				// any common order; then one more defect
				p := c.Perm(size)
				var k2 []*big.Int
				var p2 []pkT
				var m2 [][]byte
				for _, i := range p {
					k2 = append(k2, vk[i])
					p2 = append(p2, vp[i])
					m2 = append(m2, vm[i])
				}
				run("permuted", k2, p2, m2, set)
			}
			for t := 0; t < 3; t++ {
				vk, vp, vm := split(set)
				sg := append([]signed(nil), set...)
				i := 0
				if size > 0 {
					i = []int{0, size - 1, c.Intn(size)}[c.Intn(3)]
				}
				if size > 13 && t > 0 {
					break
				}
				switch c.Intn(13) {
				case 0:
					if size < 2 {
						continue
					}
					j := c.Intn(size)
					vm[i], vm[j] = vm[j], vm[i]
					run("messages exchanged", vk, vp, vm, sg)
				case 1:
					if size == 0 {
						continue
					}
					vm[i] = mutateMsg(c.Rng, vm[i])
					run("one message altered", vk, vp, vm, sg)
				case 2:
					if size == 0 {
						continue
					}
					vk[i] = other(c.Rng, vk[i])
					vp[i] = s.pub(s.skey(vk[i]))
					run("one key replaced", vk, vp, vm, sg)
				case 3:
					if size == 0 {
						continue
					}
					run("one signature missing", vk, vp, vm, append(sg[:i:i], sg[i+1:]...))
				case 4:
					run("one signature too many", vk, vp, vm, append(sg, sign1(s, secret(c.Rng), message(c.Rng, -1))))
				case 5:
					if size == 0 {
						continue
					}
					run("one signature twice", vk, vp, vm, append(sg, sg[i]))
				case 6: // lengths differ
					if size == 0 || c.Bool() {
						vm = append(vm, message(c.Rng, -1))
					} else {
						vm = vm[:size-1]
					}
					run("numbers of keys and messages differ", vk, vp, vm, sg)
				case 7:
					if size == 0 {
						continue
					}
					d := c.Between(1, size)
					if c.Bool() {
						d = 1
					}
					run("fewer keys than messages", vk[:size-d], vp[:size-d], vm, sg)
				case 8: // claimed pair removed on both sides
					if size == 0 {
						continue
					}
					run("one pair not claimed", append(vk[:i:i], vk[i+1:]...), append(vp[:i:i], vp[i+1:]...), append(vm[:i:i], vm[i+1:]...), sg)
				case 9: // claims never signed
					k := secret(c.Rng)
					run("a pair never signed", append(vk, k), append(vp, s.pub(s.skey(k))), append(vm, []byte(fmt.Sprint("never", it))), sg)
				case 10: // the identity as a key adds nothing
					run("with the identity as a key", append(vk, new(big.Int)), append(vp, s.pkZero()), append(vm, []byte(fmt.Sprint("id", it))), sg)
				case 11: // two keys exchanged: the same as messages exchanged
					if size < 2 {
						continue
					}
					j := c.Intn(size)
					vk[i], vk[j] = vk[j], vk[i]
					vp[i], vp[j] = vp[j], vp[i]
					run("keys exchanged", vk, vp, vm, sg)
				case 12: // nobody signed
					if size == 0 {
						continue
					}
					run("the identity as signature", vk, vp, vm, nil)
				}
			}
		}
		// duplicates: every signer really signed, so only distinctness can reject
		big := mkset(70)
		for n := c.N(2400); n > 0; n-- {
			size := c.Between(2, 70)
			if c.Bool() {
				size = c.Between(2, 14)
			}
			if n%50 == 0 { // another family of messages
				big = mkset(70)
			}
			if n%300 == 1 {
				size = c.Between(71, 300)
				big = mkset(size)
			}
			p := c.Perm(len(big))
			var set []signed
			for _, i := range p[:size-1] {
				set = append(set, big[i])
			}
			d := set[c.Intn(len(set))]
			dup := d
			if c.OneIn(3) { // by another signer
				dup = sign1(s, secret(c.Rng), d.m)
			}
			pos := c.Intn(size)
			set = append(set[:pos:pos], append([]signed{dup}, set[pos:]...)...)
			vk, vp, vm := split(set)
			run("a duplicated message", vk, vp, vm, set)
		}
		// long lists: genuine, then with one alteration
		sizes := []int{63, 64, 65, 100, 127, 128, 129, 257}
		n = c.N(22)
		if c.Arch != "amd64" { // too slow
			n = 0
		}
		for ; n > 0; n-- {
			size := sizes[(c.Shard+4*si+n-1)%len(sizes)]
			if n == 1 && c.Shard/2 == si {
				size = []int{513, 1025}[c.Shard%2]
			}
			set := mkset(size)
			vk, vp, vm := split(set)
			run("genuine", vk, vp, vm, set)
			c.Count("long lists", 1)
			i := []int{0, size - 1, c.Intn(size)}[c.Intn(3)]
			switch c.Intn(3) {
			case 0:
				vm[i] = mutateMsg(c.Rng, vm[i])
				run("one message altered", vk, vp, vm, set)
			case 1:
				vk[i] = other(c.Rng, vk[i])
				vp[i] = s.pub(s.skey(vk[i]))
				run("one key replaced", vk, vp, vm, set)
			case 2:
				run("one signature missing", vk, vp, vm, append(set[:i:i], set[i+1:]...))
			}
		}
		// a duplicate whose keys cancel: the rogue-key forgery
		for n := c.N(120); n > 0; n-- {
			victim := sign1(s, secret(c.Rng), message(c.Rng, -1))
			x := secret(c.Rng)
			rogue := s.pkFrom(func() aff { // xG - victim
				a := s.pkG.toA(s.pkPt(victim.pk))
				s.pkG.negA(a)
				return s.pkG.toA(s.pkG.addA(s.pkPt(s.pub(s.skey(x))), a))
			}())
			forged := sign1(s, x, victim.m)
			c.Case(s.name+" rogue key on one message", x, victim.k, victim.m)
			ok := s.verAgg(forged.sg, []pkT{victim.pk, rogue}, [][]byte{victim.m, append([]byte(nil), victim.m...)})
			c.Check(!ok, "%s: a rogue-key forgery over one repeated message is accepted", s.name)
			c.Count("rejected", 1)
		}
		// with a domain
		if si == 0 {
			for n := c.N(260); n > 0; n-- {
				size := []int{0, 1, 1, 2, 3, 4, 6, 9}[c.Intn(8)]
				var dom [8]byte
				if c.Bool() {
					c.Fill(dom[:])
				}
				var ks []*g1pubs.SecretKey
				var pks []*g1pubs.PublicKey
				var ms [][32]byte
				var sgs []*g1pubs.Signature
				for i := 0; i < size; i++ {
					k := secret(c.Rng)
					if i > 0 {
						for same := true; same; {
							same = false
							for _, o := range ks {
								if bigR(o.GetFRElement().ToRepr()).Cmp(k) == 0 {
									same = true
									k = c.Big(ref.R)
								}
							}
						}
					}
					sk := g1pubs.KeyFromFQRepr(rrep(k))
					var m [32]byte
					if c.Bool() {
						m[31-i%3] = byte(i + 1)
					} else if i > 0 && c.Bool() {
						m, _ = collideMD(c.Rng, ms[c.Intn(i)], dom, c.Intn(2))
					} else {
						c.Fill(m[:])
						m[0] = byte(i)
					}
					ks = append(ks, sk)
					pks = append(pks, g1pubs.PrivToPub(sk))
					ms = append(ms, m)
					sgs = append(sgs, g1pubs.SignWithDomain(m, sk, dom))
				}
				agg := g1pubs.AggregateSignatures(sgs)
				flat := []byte{}
				for _, m := range ms {
					flat = append(flat, m[:]...)
				}
				c.Case("aggregate with domain: genuine", size, dom[:], flat)
				distinct := map[[32]byte]bool{}
				for _, m := range ms {
					distinct[m] = true
				}
				if size > 0 && len(distinct) == size {
					c.Check(agg.VerifyAggregateWithDomain(pks, ms, dom), "a genuine aggregate with a domain is rejected")
					c.Count("accepted", 1)
				}
				c.Count("rejected", 1)
				switch c.Intn(6) {
				case 0:
					if size > 0 {
						_, d2 := collideMD(c.Rng, ms[0], dom, c.Between(2, 3))
						c.Case("aggregate with another domain", size, dom[:], d2[:], flat)
						c.Check(!agg.VerifyAggregateWithDomain(pks, ms, d2), "accepted although the domain was altered")
					}
				case 1:
					if size > 0 {
						m2 := append([][32]byte(nil), ms...)
						j := c.Intn(size)
						m2[j], _ = collideMD(c.Rng, m2[j], dom, c.Intn(2))
						c.Case("aggregate with domain: message altered", size, dom[:], flat, m2[j][:])
						c.Check(!agg.VerifyAggregateWithDomain(pks, m2, dom), "accepted although a message was altered")
					}
				case 2:
					c.Case("aggregate with domain: lengths differ", size, dom[:], flat)
					c.Check(!agg.VerifyAggregateWithDomain(pks, append(append([][32]byte(nil), ms...), [32]byte{9}), dom), "accepted although there is a message too many")
					if size > 0 {
						c.Check(!agg.VerifyAggregateWithDomain(pks, ms[:size-1], dom), "accepted although there is a key too many")
						c.Check(!agg.VerifyAggregateWithDomain(pks[:size-1], ms, dom), "accepted although there is a message too many")
					}
				case 3:
					if size > 1 && len(distinct) == size {
						m2 := append([][32]byte(nil), ms...)
						m2[0], m2[size-1] = m2[size-1], m2[0]
						c.Case("aggregate with domain: messages exchanged", size, dom[:], flat)
						c.Check(!agg.VerifyAggregateWithDomain(pks, m2, dom), "accepted although messages were exchanged")
					}
				case 4:
					if size > 0 {
						c.Case("aggregate with domain: signature missing", size, dom[:], flat)
						c.Check(!g1pubs.AggregateSignatures(sgs[1:]).VerifyAggregateWithDomain(pks, ms, dom), "accepted although a signature is missing")
					}
				case 5: // one message for all
					if size > 0 {
						var cs []*g1pubs.Signature
						for _, k := range ks {
							cs = append(cs, g1pubs.SignWithDomain(ms[0], k, dom))
						}
						a := g1pubs.AggregateSignatures(cs)
						c.Case("common message with domain", size, dom[:], ms[0][:])
						c.Check(a.VerifyAggregateCommonWithDomain(pks, ms[0], dom), "a genuine common-message aggregate with a domain is rejected")
						m2, d2 := collideMD(c.Rng, ms[0], dom, c.Intn(5))
						c.Check(!a.VerifyAggregateCommonWithDomain(pks, m2, d2), "accepted although message or domain was altered")
						if size > 1 {
							c.Check(!a.VerifyAggregateCommonWithDomain(pks[1:], ms[0], dom), "accepted although a key is missing")
						}
					}
				}
			}
		}
	}
}

// --- C04 ---

// listLen draws the length of a list: mostly short, sometimes not.
func listLen(c *C) int {
	if c.OneIn(8) {
		return c.Between(5, 70)
	}
	return c.Intn(5)
}

func c04(c *C) {
	const N = 96
	for si, s := range schemes {
		for h := c.N(160); h > 0; h-- {
			m := message(c.Rng, -1)
			var kb = bi(1)
			if c.Bool() {
				kb = secret(c.Rng)
			}
			base := s.pkG.e.Mul(s.pkG.g, kb)
			hm := s.sgG.oP(s.sgPt(s.sign(m, s.skey(kb))))
			if h%8 == 0 {
				hm = s.sgG.e.Mul(s.hash(m), kb)
			}
			// encodings of every multiple that can occur
			pt := make([][]byte, 2*N+1)
			st := make([][]byte, 2*N+1)
			pp, sp := ref.Inf, ref.Inf
			for k := 0; k <= N; k++ {
				pt[N+k], pt[N-k] = compressRef(s.pkG, pp), compressRef(s.pkG, pp.Neg())
				st[N+k], st[N-k] = compressRef(s.sgG, sp), compressRef(s.sgG, sp.Neg())
				pp, sp = s.pkG.e.Add(pp, base), s.sgG.e.Add(sp, hm)
			}
			type pobj struct {
				o pkT
				k int
			}
			type sobj struct {
				o sgT
				k int
			}
			keyOf := func(k int) skT {
				v := new(big.Int).Mul(kb, bi(int64(k)))
				return s.skey(v.Mod(v, ref.R))
			}
			var ps []*pobj
			var ss []*sobj
			newP := func(k int) *pobj { return &pobj{s.pub(keyOf(k)), k} }
			newS := func(k int) *sobj { return &sobj{s.sign(m, keyOf(k)), k} }
			for i := 0; i < 3; i++ {
				k := c.Between(-4, 5)
				if k == 0 {
					k = 1
				}
				ps, ss = append(ps, newP(k)), append(ss, newS(k))
			}
			var log []byte
			note := func(op string, a ...int) {
				log = append(log, []byte(fmt.Sprint(op, a, ";"))...)
				c.Case(s.name+" aggregation history", kb, m, append([]byte(nil), log...), string(log))
			}
			check := func() {
				for i, p := range ps {
					b := s.pkBytes(p.o)
					c.Check(bytes.Equal(b, pt[N+p.k]), "%s: public key %d should be %d times the base, after %s", s.name, i, p.k, log)
				}
				for i, x := range ss {
					b := s.sgBytes(x.o)
					c.Check(bytes.Equal(b, st[N+x.k]), "%s: signature %d should be %d times the base, after %s", s.name, i, x.k, log)
				}
			}
			fits := func(k int) bool { return k >= -N && k <= N }
			for step := c.Between(6, 26); step > 0; step-- {
				i, j := c.Intn(len(ps)), c.Intn(len(ps))
				a, b := c.Intn(len(ss)), c.Intn(len(ss))
				if c.OneIn(5) {
					j, b = i, a
				}
				switch op := c.Intn(13); op {
				case 0, 1:
					note("p+=", i, j)
					if k := ps[i].k + ps[j].k; fits(k) {
						s.pkAgg(ps[i].o, ps[j].o)
						ps[i].k = k
					}
				case 2, 3:
					note("s+=", a, b)
					if k := ss[a].k + ss[b].k; fits(k) {
						s.sgAgg(ss[a].o, ss[b].o)
						ss[a].k = k
					}
				case 4:
					n := listLen(c)
					var l []pkT
					k := 0
					var ix []int
					for ; n > 0; n-- {
						x := c.Intn(len(ps))
						ix = append(ix, x)
						l = append(l, ps[x].o)
						k += ps[x].k
					}
					note("p=sum", ix...)
					if o := s.pkSum(l); fits(k) {
						ps = append(ps, &pobj{o, k})
					}
				case 5:
					n := listLen(c)
					var l []sgT
					k := 0
					var ix []int
					for ; n > 0; n-- {
						x := c.Intn(len(ss))
						ix = append(ix, x)
						l = append(l, ss[x].o)
						k += ss[x].k
					}
					note("s=sum", ix...)
					if o := s.sgSum(l); fits(k) {
						ss = append(ss, &sobj{o, k})
					}
				case 6:
					note("copy", i, a)
					ps = append(ps, &pobj{s.pkCopy(ps[i].o), ps[i].k})
					ss = append(ss, &sobj{s.sgCopy(ss[a].o), ss[a].k})
				case 7:
					note("blank")
					ps = append(ps, &pobj{s.pkZero(), 0})
					ss = append(ss, &sobj{s.sgZero(), 0})
				case 8:
					note("transport", i, a)
					p, err := s.pkParse(s.pkBytes(ps[i].o))
					if c.Check(err == nil, "%s: public key %d does not decode: %v", s.name, i, err) {
						ps = append(ps, &pobj{p, ps[i].k})
					}
					x, err := s.sgParse(s.sgBytes(ss[a].o))
					if c.Check(err == nil, "%s: signature %d does not decode: %v", s.name, a, err) {
						ss = append(ss, &sobj{x, ss[a].k})
					}
				case 9: // the returned point belongs to the caller
					note("getpoint", i, a)
					p, x := s.pkPt(ps[i].o), s.sgPt(ss[a].o)
					ap, ax := s.pkG.toA(p), s.sgG.toA(x)
					s.pkG.negA(ap)
					s.sgG.negA(ax)
					if s.pkG.negP != nil {
						s.pkG.negP(p)
					}
					if s.sgG.negP != nil {
						s.sgG.negP(x)
					}
					ps = append(ps, &pobj{s.pkFrom(ap), -ps[i].k})
					ss = append(ss, &sobj{s.sgFrom(ax), -ss[a].k})
				case 10: // the point given to a constructor stays the caller's
					note("frompoint", i, a)
					ap, ax := s.pkG.toA(s.pkPt(ps[i].o)), s.sgG.toA(s.sgPt(ss[a].o))
					ps = append(ps, &pobj{s.pkFrom(ap), ps[i].k})
					ss = append(ss, &sobj{s.sgFrom(ax), ss[a].k})
					s.pkG.negA(ap)
					s.sgG.negA(ax)
				case 11:
					note("fresh")
					k := c.Between(-6, 6)
					if k == 0 {
						k = 2
					}
					ps, ss = append(ps, newP(k)), append(ss, newS(k))
				case 12: // verification over a common message
					n := listLen(c)
					var l []pkT
					k := 0
					var ix []int
					for ; n > 0; n-- {
						x := c.Intn(len(ps))
						ix = append(ix, x)
						l = append(l, ps[x].o)
						k += ps[x].k
					}
					t := a
					for z := range ss { // a matching signature when there is one
						if ss[z].k == k && c.Bool() {
							t = z
						}
					}
					note("verify", append(ix, t)...)
					ok := s.verCom(ss[t].o, l, m)
					if k != 0 || ss[t].k != 0 {
						c.Check(ok == (k == ss[t].k), "%s: common-message verification of keys %v (sum %d) against a signature of %d is %v", s.name, ix, k, ss[t].k, ok)
						c.Count("common-message verifications", 1)
						if k == ss[t].k {
							c.Count("accepted", 1)
						}
						if ok && c.OneIn(3) {
							m2 := mutateMsg(c.Rng, m)
							if !bytes.Equal(m, m2) {
								c.Check(!s.verCom(ss[t].o, l, m2), "%s: accepted over another message", s.name)
							}
						}
					}
				}
				if len(ps) > 8 {
					ps = ps[1:]
				}
				if len(ss) > 8 {
					ss = ss[1:]
				}
				c.Count("history steps", 1)
				check()
			}
		}
		// one message signed by many, in all orders of adding up
		for n := c.N(200); n > 0; n-- {
			m := message(c.Rng, -1)
			num := c.Between(1, 12)
			if n == 1 && c.Arch == "amd64" {
				num = []int{65537, 1025, 4097, 65536, 2049, 65535, 1024, 70000}[(c.Shard+4*si)%8]
			} else if c.OneIn(4) {
				num = c.Between(13, 70)
				if c.OneIn(4) {
					num = []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600}[c.Intn(13)]
				}
			}
			var pk []pkT
			var sg []sgT
			var ks []any
			sum := new(big.Int)
			var made []signed
			for i := 0; i < num; i++ {
				var x signed
				if i < 12 {
					x = sign1(s, secret(c.Rng), m)
					made = append(made, x)
				} else if x = made[c.Intn(len(made))]; c.Bool() {
					x.pk, x.sg = s.pkCopy(x.pk), s.sgCopy(x.sg)
				}
				pk, sg = append(pk, x.pk), append(sg, x.sg)
				sum.Add(sum, x.k)
				ks = append(ks, x.k)
			}
			var encs [][]byte
			for _, x := range made {
				encs = append(encs, s.pkBytes(x.pk), s.sgBytes(x.sg))
			}
			c.Case(s.name+" common message", append(ks, m)...)
			c.Count("aggregates of up to 70", 1)
			if num > 70 {
				c.Count("aggregates of more than 70", 1)
			}
			a := s.sgSum(sg)
			c.Check(bytes.Equal(s.sgBytes(a), compressRef(s.sgG, s.sgG.e.Mul(s.hash(m), new(big.Int).Mod(sum, ref.R)))), "%s: the aggregate of %d signatures is not their sum", s.name, num)
			c.Check(bytes.Equal(s.pkBytes(s.pkSum(pk)), compressRef(s.pkG, s.pkG.e.Mul(s.pkG.g, new(big.Int).Mod(sum, ref.R)))), "%s: the aggregate of %d keys is not their sum", s.name, num)
			acc := s.sgZero()
			for _, i := range c.Perm(num) {
				s.sgAgg(acc, sg[i])
			}
			c.Check(bytes.Equal(s.sgBytes(a), s.sgBytes(acc)), "%s: aggregates differ with the order", s.name)
			// pairwise, as a tree
			tree := append([]sgT(nil), sg...)
			for len(tree) > 1 {
				k := len(tree) - 1
				tree[k-1] = s.sgSum([]sgT{tree[k-1], tree[k]})
				tree = tree[:k]
			}
			c.Check(bytes.Equal(s.sgBytes(a), s.sgBytes(tree[0])), "%s: aggregates differ with the grouping", s.name)
			acp := s.pkZero()
			for _, i := range c.Perm(num) {
				s.pkAgg(acp, pk[i])
			}
			c.Check(s.pkEq(acp, s.pkSum(pk)), "%s: aggregate keys differ with the order", s.name)
			if sum.Mod(sum, ref.R).Sign() == 0 {
				continue
			}
			c.Check(s.verCom(a, pk, m) && s.verify(m, acp, a), "%s: a genuine common-message aggregate of %d is rejected", s.name, num)
			for i, x := range made {
				c.Check(bytes.Equal(s.pkBytes(x.pk), encs[2*i]) && bytes.Equal(s.sgBytes(x.sg), encs[2*i+1]), "%s: aggregating %d changed an operand", s.name, num)
			}
			c.Count("accepted", 1)
			if num > 1 {
				i := c.Intn(num)
				if c.Bool() { // the same list but for one place
					x := other(c.Rng, secret(c.Rng))
					l := append([]pkT(nil), pk...)
					l[i] = s.pub(s.skey(x))
					c.Check(s.pkEq(l[i], pk[i]) || !s.verCom(a, l, m), "%s: accepted although key %d of %d is another", s.name, i, num)
					y := s.pkZero()
					for _, k := range l {
						s.pkAgg(y, k)
					}
					c.Check(bytes.Equal(s.pkBytes(s.pkSum(l)), s.pkBytes(y)), "%s: after another list, the sum of %d keys is not their sum", s.name, num)
				}
				c.Check(!s.verCom(a, append(pk[:i:i], pk[i+1:]...), m), "%s: accepted although key %d is missing", s.name, i)
				if i > 0 {
					l := append([]sgT(nil), sg...)
					l[i] = l[0]
					if c.OneIn(4) {
						acc := s.sgZero()
						for _, x := range l {
							s.sgAgg(acc, x)
						}
						c.Check(bytes.Equal(s.sgBytes(s.sgSum(l)), s.sgBytes(acc)), "%s: after another list, the sum of %d signatures is not their sum", s.name, num)
					}
				}
			} else {
				c.Check(!s.verCom(a, append(pk, pk[0]), m), "%s: accepted although a key is repeated", s.name)
			}
		}
	}
}

// --- C19 ---

func c19(c *C) {
	for si, s := range schemes {
		ppk, psg := newPool(c.Rng, s.pkG, 12), newPool(c.Rng, s.sgG, 12)
		for n := c.N([]int{3500, 3500}[si]); n > 0; n-- {
			wp, bp := encoding(c, s.pkG, ppk)
			ws, bs := encoding(c, s.sgG, psg)
			if c.OneIn(4) { // identities
				bp = make([]byte, s.pkG.size)
				bp[0], wp = 0xc0, "identity"
			}
			if c.OneIn(4) {
				bs = make([]byte, s.sgG.size)
				bs[0], ws = 0xc0, "identity"
			}
			if c.Bool() {
				bp, wp = compressRef(s.pkG, ppk.subs[c.Intn(len(ppk.subs))].P), "valid"
			}
			if c.Bool() {
				bs, ws = compressRef(s.sgG, psg.subs[c.Intn(len(psg.subs))].P), "valid"
			}
			m := message(c.Rng, -1)
			c.Case(s.name+" hostile bytes: key "+wp+", signature "+ws, bp, bs, m)
			pk, e1 := s.pkParse(bp)
			sg, e2 := s.sgParse(bs)
			if e1 == nil {
				c.Count("keys decoded", 1)
				_ = s.pkStr(pk)
				s.pkBytes(pk)
				s.pkEq(pk, s.pkZero())
				x := s.pkCopy(pk)
				s.pkAgg(x, pk)
				s.pkSum([]pkT{pk, x, pk, s.pkZero()})
				s.pkPt(pk)
			}
			if e2 == nil {
				c.Count("signatures decoded", 1)
				_ = s.sgStr(sg)
				s.sgBytes(sg)
				x := s.sgCopy(sg)
				s.sgAgg(x, sg)
				s.sgSum([]sgT{sg, x, sg, s.sgZero()})
				s.sgPt(sg)
			}
			if e1 == nil && e2 == nil {
				c.Count("pairs verified", 1)
				zero := s.pkG.zP(s.pkPt(pk)) && s.sgG.zP(s.sgPt(sg))
				switch c.Intn(5) {
				case 0:
					ok := s.verify(m, pk, sg)
					c.Check(zero || !ok, "%s: verification of hostile bytes succeeds", s.name)
				case 1:
					ok := s.verCom(sg, []pkT{pk}, m)
					c.Check(zero || !ok, "%s: verification of hostile bytes succeeds", s.name)
				case 2:
					ok := s.verAgg(sg, []pkT{pk, s.pkZero()}, [][]byte{m, append([]byte{1}, m...)})
					c.Check(zero || !ok, "%s: verification of hostile bytes succeeds", s.name)
				case 3:
					s.verAgg(sg, nil, nil)
					s.verCom(sg, nil, m)
					s.verAgg(sg, []pkT{}, [][]byte{m})
					s.verAgg(sg, []pkT{pk}, [][]byte{nil})
				case 4:
					if p, ok := pk.(*g1pubs.PublicKey); ok {
						var d [8]byte
						var mm [32]byte
						c.Fill(d[:])
						g := sg.(*g1pubs.Signature)
						ok := g1pubs.VerifyWithDomain(mm, p, g, d)
						c.Check(zero || !ok, "verification of hostile bytes succeeds")
						g.VerifyAggregateWithDomain([]*g1pubs.PublicKey{p}, [][32]byte{mm}, d)
						g.VerifyAggregateCommonWithDomain([]*g1pubs.PublicKey{p, p}, mm, d)
					} else {
						s.verAgg(sg, []pkT{pk}, [][]byte{m})
					}
				}
			}
			// the library underneath: unvalidated points may be decoded and tested
			if a, err := s.pkG.decU(bp); err == nil && c.OneIn(4) {
				s.pkG.on(a)
				s.pkG.sub(a)
				s.pkG.cof(a)
				_ = s.pkG.strA(a)
				s.pkG.add(s.pkG.toP(a), s.pkG.toP(a))
				s.pkG.frA(a, rrep(c.Limbs(4)))
				s.pkG.comp(s.pkG.toA(s.pkG.dbl(s.pkG.toP(a))))
			}
		}
		// lists of decoded objects of any length, agreeing or not
		doms := 2 // the common-message and the distinct-message functions
		if si == 0 {
			doms = 4 // and those with a domain
		}
		for n := c.N(3000); n > 0; n-- {
			var vp []pkT
			var vk []*big.Int // nil when not known
			for i := c.Intn(5); i > 0; i-- {
				switch c.Intn(4) {
				case 0: // identity, decoded or made
					p := s.pkZero()
					if c.Bool() {
						b := make([]byte, s.pkG.size)
						b[0] = 0xc0
						q, err := s.pkParse(b)
						if !c.Check(err == nil, "%s: the identity does not decode: %v", s.name, err) {
							continue
						}
						p = q
					}
					vp, vk = append(vp, p), append(vk, new(big.Int))
				case 1: // the opposite of another
					if len(vp) == 0 {
						continue
					}
					j := c.Intn(len(vp))
					a := s.pkG.toA(s.pkPt(vp[j]))
					s.pkG.negA(a)
					k := new(big.Int).Neg(vk[j])
					vp, vk = append(vp, s.pkFrom(a)), append(vk, k.Mod(k, ref.R))
				default:
					k := secret(c.Rng)
					vp, vk = append(vp, s.pub(s.skey(k))), append(vk, k)
				}
			}
			var vm [][]byte
			for i := []int{len(vp), c.Intn(5)}[c.Intn(2)]; i > 0; i-- {
				switch {
				case c.OneIn(6):
					vm = append(vm, nil)
				case len(vm) > 0 && c.OneIn(3):
					vm = append(vm, vm[c.Intn(len(vm))])
				default:
					vm = append(vm, message(c.Rng, 32))
				}
			}
			var sg sgT
			wantS := "identity"
			if c.Bool() {
				sg = s.sgZero()
			} else {
				b := make([]byte, s.sgG.size)
				if b[0] = 0xc0; c.Bool() {
					b, wantS = compressRef(s.sgG, psg.subs[c.Intn(len(psg.subs))].P), "valid"
				}
				var err error
				if sg, err = s.sgParse(b); err != nil {
					c.Fail("%s: a valid signature does not decode: %v", s.name, err)
					continue
				}
			}
			id := s.sgG.zP(s.sgPt(sg))
			args := []any{len(vp), len(vm), wantS}
			for i := range vk {
				args = append(args, vk[i])
			}
			for i := range vm {
				args = append(args, vm[i])
			}
			form := n % doms
			c.Case(s.name+" lists of decoded objects, form "+fmt.Sprint(form), args...)
			c.Count("lists verified", 1)
			if len(vp) != len(vm) {
				c.Count("lists of different lengths", 1)
			}
			sum := new(big.Int)
			for _, k := range vk {
				sum.Add(sum, k)
			}
			m := message(c.Rng, -1)
			var got bool
			var can bool // whether acceptance could be right
			switch form {
			case 0:
				got = s.verAgg(sg, vp, vm)
				can = id && aggExpected(vk, vm, nil)
			case 1:
				if len(vm) > 0 {
					m = vm[0]
				}
				got = s.verCom(sg, vp, m)
				can = id && sum.Mod(sum, ref.R).Sign() == 0
			case 2, 3:
				var d [8]byte
				if c.Bool() {
					c.Fill(d[:])
				}
				var ms [][32]byte
				var mb [][]byte
				for _, x := range vm {
					var y [32]byte
					copy(y[:], x)
					ms = append(ms, y)
					mb = append(mb, append([]byte(nil), y[:]...))
				}
				if form == 2 {
					got = sg.(*g1pubs.Signature).VerifyAggregateWithDomain(pks1(vp), ms, d)
					can = id && aggExpectedRepeated(vk, mb)
				} else {
					var y [32]byte
					copy(y[:], m)
					got = sg.(*g1pubs.Signature).VerifyAggregateCommonWithDomain(pks1(vp), y, d)
					can = id && sum.Mod(sum, ref.R).Sign() == 0
				}
			}
			c.Check(can || !got, "%s: verification over %d keys and %d messages accepts a signature nobody made (form %d)", s.name, len(vp), len(vm), form)
		}
		// raw and secret key forms
		for n := c.N(3000); n > 0; n-- {
			raw := c.Bytes(2 * s.pkG.size)
			if c.Bool() {
				for i := 0; i+48 <= len(raw); i += 48 {
					switch c.Intn(3) {
					case 0:
						fp(c.Rng).FillBytes(raw[i : i+48])
					case 1:
						ref.P.FillBytes(raw[i : i+48])
					}
				}
			}
			c.Case(s.name+" hostile raw point", raw)
			a := s.pkG.cpA(s.pkG.A(ref.Inf))
			if s.pkG.setRaw(a, raw) == nil {
				s.pkG.on(a)
				s.pkG.raw(a)
				s.pkG.comp(a)
				_ = s.pkG.strA(a)
			}
			kb := c.Bytes(32)
			switch c.Intn(4) {
			case 0:
				scalar(c.Rng, 256).FillBytes(kb)
			case 1:
				new(big.Int).Add(ref.R, bi(int64(c.Between(-3, 3)))).FillBytes(kb)
			case 2:
				for i := range kb {
					kb[i] = 0xff
				}
				kb[c.Intn(32)] = byte(c.U64())
			}
			c.Case(s.name+" hostile secret key", kb)
			if sk := s.skParse(kb); sk != nil {
				_ = s.skStr(sk)
				s.skBytes(sk)
				if n%8 == 0 {
					s.pub(sk)
					s.sign(kb, sk)
				}
			}
		}
	}
}

// --- C21 ---

func c21(c *C) {
	for _, s := range schemes {
		try := func(v *big.Int) {
			var b [32]byte
			v.FillBytes(b[:])
			in := v.Cmp(ref.R) < 0
			c.Case(s.name+" secret key import", v)
			r := rrep(v)
			k1 := s.skey(v)
			k2 := s.skParse(b[:])
			c.Check((k1 != nil) == in, "%s: integer %v accepted is %v", s.name, v, k1 != nil)
			c.Check((k2 != nil) == in, "%s: bytes %x accepted is %v", s.name, b[:], k2 != nil)
			c.Check(bigR(r).Cmp(v) == 0, "%s: the argument changed", s.name)
			for _, k := range []skT{k1, k2} {
				if k == nil || !in {
					continue
				}
				out := s.skBytes(k)
				c.Check(bytes.Equal(out, b[:]), "%s: key %x serializes as %x", s.name, b[:], out)
				e := s.skFR(k)
				c.Check(e != nil && ofr(e).Cmp(v) == 0 && e.IsValid(), "%s: field element of key %v", s.name, v)
				c.Check(bytes.Contains([]byte(s.skStr(k)), []byte(zpad(v, 64))), "%s: string form %s of key %v", s.name, s.skStr(k), v)
			}
			if in && v.Sign() > 0 && c.OneIn(30) {
				want := compressRef(s.pkG, s.pkG.e.Mul(s.pkG.g, v))
				for _, k := range []skT{k1, k2} {
					if k != nil {
						c.Check(bytes.Equal(s.pkBytes(s.pub(k)), want), "%s: public key of imported %v", s.name, v)
						c.Check(bytes.Equal(s.skBytes(k), b[:]), "%s: key %v changed with use", s.name, v)
					}
				}
			}
		}
		for i, v := range frSpecials {
			if c.Mine(i) {
				try(v)
				w := new(big.Int).Add(v, ref.R)
				if w.BitLen() <= 256 {
					try(w)
				}
			}
		}
		for n := c.N(60000); n > 0; n-- {
			v := scalar(c.Rng, 256)
			switch c.Intn(6) {
			case 0:
				v = new(big.Int).Add(ref.R, bi(int64(c.Between(-40, 40))))
			case 1: // differing from r in one limb, or by a power of two
				l := limbs4(ref.R)
				if c.Bool() {
					l[c.Intn(4)] = c.Word()
					v = fromLimbs(l[:])
				} else {
					v = new(big.Int).Xor(ref.R, pow2(uint(c.Intn(256))))
				}
			case 2:
				v = c.Big(ref.R)
			}
			try(v)
		}
		for n := c.N(8000); n > 0; n-- {
			var b [32]byte
			copy(b[:], message(c.Rng, 32))
			if c.OneIn(4) { // one bit apart from another
				b[c.Intn(32)] ^= 1 << c.Intn(8)
			}
			c.Case(s.name+" secret key derivation", b[:])
			want := ref.DeriveSecret(b[:])
			k := s.derive(b)
			c.Check(new(big.Int).SetBytes(s.skBytes(k)).Cmp(want) == 0 && s.skFR(k).IsValid(), "%s: key derived from %x is %x, want %v", s.name, b[:], s.skBytes(k), want)
			c.Check(ofr(bls.HashSecretKey(b)).Cmp(want) == 0, "HashSecretKey of %x", b[:])
			c.Check(bytes.Equal(s.skBytes(s.derive(b)), s.skBytes(k)), "%s: derivation is not a function", s.name)
		}
	}
	// a key works after a round trip through either package, and no use of it
	// changes it: the same object keeps signing the same way
	for n := c.N(700); n > 0; n-- {
		v := scalar(c.Rng, 255)
		if v.Cmp(ref.R) >= 0 || c.OneIn(3) {
			v = secret(c.Rng)
		}
		var vb [32]byte
		v.FillBytes(vb[:])
		m := message(c.Rng, -1)
		if c.OneIn(3) {
			m = [][]byte{nil, {}, {0}}[c.Intn(3)]
		}
		c.Case("key used after import", v, m)
		for _, s := range schemes {
			a, b := s.skey(v), s.skParse(vb[:])
			if a == nil || b == nil {
				c.Fail("%s: key %v refused", s.name, v)
				continue
			}
			same := func(k skT, use string) {
				e := s.skFR(k)
				c.Check(bytes.Equal(s.skBytes(k), vb[:]) && ofr(e).Cmp(v) == 0 && e.IsValid(), "%s: key %v is %x after %s", s.name, v, s.skBytes(k), use)
			}
			sa := s.sgBytes(s.sign(m, a))
			same(a, "Sign")
			c.Check(bytes.Equal(sa, s.sgBytes(s.sign(m, b))), "%s: imported key signs differently", s.name)
			same(b, "Sign")
			pa := s.pkBytes(s.pub(a))
			same(a, "PrivToPub")
			c.Check(bytes.Equal(pa, s.pkBytes(s.pub(b))), "%s: imported key has another public key", s.name)
			if c.OneIn(3) {
				s.skStr(a)
				same(a, "String")
				if k, ok := a.(*g1pubs.SecretKey); ok {
					var h [32]byte
					copy(h[:], m)
					var d [8]byte
					copy(d[:], message(c.Rng, 8))
					x := g1pubs.SignWithDomain(h, k, d).Serialize()
					same(a, "SignWithDomain")
					y := g1pubs.SignWithDomain(h, b.(*g1pubs.SecretKey), d).Serialize()
					c.Check(x == y, "%s: imported key signs with a domain differently", s.name)
				}
				s.verify(m, s.pub(a), s.sign(m, a))
				same(a, "Verify")
				c.Check(bytes.Equal(s.sgBytes(s.sign(m, a)), sa), "%s: key %v signs differently the second time", s.name, v)
				c.Count("keys reused", 1)
			}
		}
	}
	_ = g2pubs.RandKey
}
