package main

// C17: concurrent use. Three phases in a fresh process: first use of everything
// by several goroutines at once (the inputs are bytes from the reference model,
// so that nothing has run before), then calls that share objects, then calls on
// private objects. Outcomes are compared with a later sequential run; the race
// detector, where it is built in, watches all of it.

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	bls "github.com/phoreproject/bls"
	"github.com/phoreproject/bls/g1pubs"
	"github.com/phoreproject/bls/g2pubs"

	"verifharness/mon"
	"verifharness/ref"
)

func init() { props["C17"] = c17 }

type task struct {
	name string
	run  func() string
}
type span struct {
	task       int
	start, end time.Duration
	out        string
}

// storm runs every task once on each of g goroutines, in different orders, and
// returns what each of them saw. Goroutines share no synchronisation except the
// start and the end.
func storm(c *C, tasks []task, g int, sameFirst int) [][]span {
	res := make([][]span, g)
	orders := make([][]int, g)
	gos := make([]*mon.Rng, g)
	for i := range orders {
		orders[i] = c.Perm(len(tasks))
		if sameFirst >= 0 {
			f := sameFirst % len(tasks)
			for k, v := range orders[i] {
				if v == f {
					orders[i][0], orders[i][k] = orders[i][k], orders[i][0]
				}
			}
		}
		gos[i] = mon.NewRng(c.U64())
		res[i] = make([]span, 0, len(tasks))
	}
	base := time.Now()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, t := range orders[i] {
				if gos[i].OneIn(4) {
					runtime.Gosched()
				}
				s := span{task: t, start: time.Since(base)}
				if p := tryAll(func() { s.out = tasks[t].run() }); p != "" {
					s.out = p
				}
				s.end = time.Since(base)
				res[i] = append(res[i], s)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	return res
}

// tryAll is mon.Try that keeps the harness's own panics, too, for the caller's
// goroutine to report.
func tryAll(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if mon.IsHarnessPanic(r) {
				p = "\x00" + fmt.Sprint(r)
			} else {
				p = fmt.Sprintf("panic: %v", r)
			}
		}
	}()
	f()
	return ""
}

// judge compares the outcomes with want, and counts the overlaps observed.
func judge(c *C, phase string, tasks []task, res [][]span, want func(int) string) {
	wants := make([]string, len(tasks))
	for i := range tasks {
		if p := tryAll(func() { wants[i] = want(i) }); p != "" {
			wants[i] = p
		}
		if strings.HasPrefix(wants[i], "\x00") {
			panic(wants[i][1:])
		}
	}
	var all []span
	who := map[int]int{}
	for g, l := range res {
		for _, s := range l {
			if strings.HasPrefix(s.out, "\x00") {
				panic(s.out[1:])
			}
			c.Case(phase, tasks[s.task].name, g, s.task)
			if s.out != wants[s.task] {
				c.Fail("%s gave %s on goroutine %d of %d, but %s when run alone", tasks[s.task].name, short(s.out), g, len(res), short(wants[s.task]))
			}
			who[len(all)] = g
			all = append(all, s)
		}
	}
	idx := make([]int, len(all))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return all[idx[a]].start < all[idx[b]].start })
	pairs := map[[2]string]bool{}
	var over, sameOver int64
	var open []int
	for _, i := range idx {
		k := open[:0]
		for _, j := range open {
			if all[j].end > all[i].start {
				k = append(k, j)
				over++
				a, b := tasks[all[i].task].name, tasks[all[j].task].name
				if a == b {
					sameOver++
				}
				if a > b {
					a, b = b, a
				}
				pairs[[2]string{a, b}] = true
			}
		}
		open = append(k, i)
	}
	c.Count("overlapping call pairs, "+phase, over)
	c.Count("overlapping calls of one operation, "+phase, sameOver)
	for p := range pairs {
		c.Case("overlap seen", p[0], p[1])
	}
}

func c17(c *C) {
	g := []int{8, 4, 16, 3, 6, 12}[c.Shard%6]
	procs := []int{8, 4, 2, 8, 16, 3, 1}[c.Shard%7]
	runtime.GOMAXPROCS(procs)
	if c.Shard%3 == 1 {
		debug.SetGCPercent(10)
	}
	mon.CaseCPU = 10 * time.Minute // a whole storm counts as one case
	f := newFixtures(c.Rng)        // the reference model only

	// --- first use ---
	var cold []task
	for k := 0; k < 1; k++ {
		k := k
		pk1, pk2 := ref.Compress1(f.pk1[k]), ref.Compress2(f.pk2[k])
		var sk [32]byte
		f.keys[k].FillBytes(sk[:])
		m, m32, dom := f.msgs[k], f.m32[k], f.doms[k]
		sg1 := ref.Compress2(ref.E2.Mul(f.h2[k], f.keys[k]))
		sg2 := ref.Compress1(ref.E1.Mul(f.h1[k], f.keys[k]))
		sgd := ref.Compress2(ref.E2.Mul(f.hd[k][k], f.keys[k]))
		h1, h2, hd := ref.Compress1(f.h1[k]), ref.Compress2(f.h2[k]), ref.Compress2(f.hd[k][k])
		sum1 := ref.Compress2(ref.E2.Add(ref.E2.Mul(f.h2[0], f.keys[0]), ref.E2.Mul(f.h2[1], f.keys[1])))
		sum2 := ref.Compress1(ref.E1.Add(ref.E1.Mul(f.h1[0], f.keys[0]), ref.E1.Mul(f.h1[1], f.keys[1])))
		pks1 := [2][48]byte{ref.Compress1(f.pk1[0]), ref.Compress1(f.pk1[1])}
		pks2 := [2][96]byte{ref.Compress2(f.pk2[0]), ref.Compress2(f.pk2[1])}
		ok := func(b bool, what string) string {
			if b {
				return "right"
			}
			return "wrong: " + what
		}
		cold = append(cold,
			task{"first g1pubs.Verify", func() string {
				p, e1 := g1pubs.DeserializePublicKey(pk1)
				s, e2 := g1pubs.DeserializeSignature(sg1)
				if e1 != nil || e2 != nil {
					return fmt.Sprint("wrong: ", e1, e2)
				}
				return ok(g1pubs.Verify(m, p, s), "valid signature rejected")
			}},
			task{"first g2pubs.Verify", func() string {
				p, e1 := g2pubs.DeserializePublicKey(pk2)
				s, e2 := g2pubs.DeserializeSignature(sg2)
				if e1 != nil || e2 != nil {
					return fmt.Sprint("wrong: ", e1, e2)
				}
				return ok(g2pubs.Verify(m, p, s), "valid signature rejected")
			}},
			task{"first g1pubs.VerifyWithDomain", func() string {
				p, e1 := g1pubs.DeserializePublicKey(pk1)
				s, e2 := g1pubs.DeserializeSignature(sgd)
				if e1 != nil || e2 != nil {
					return fmt.Sprint("wrong: ", e1, e2)
				}
				return ok(g1pubs.VerifyWithDomain(m32, p, s, dom), "valid signature rejected")
			}},
			task{"first g1pubs.Sign", func() string {
				return ok(g1pubs.Sign(m, g1pubs.DeserializeSecretKey(sk)).Serialize() == sg1, "signature bytes")
			}},
			task{"first g2pubs.Sign", func() string {
				return ok(g2pubs.Sign(m, g2pubs.DeserializeSecretKey(sk)).Serialize() == sg2, "signature bytes")
			}},
			task{"first g1pubs.SignWithDomain", func() string {
				return ok(g1pubs.SignWithDomain(m32, g1pubs.DeserializeSecretKey(sk), dom).Serialize() == sgd, "signature bytes")
			}},
			task{"first g1pubs.PrivToPub", func() string {
				return ok(g1pubs.PrivToPub(g1pubs.DeserializeSecretKey(sk)).Serialize() == pk1, "public key bytes")
			}},
			task{"first g2pubs.PrivToPub", func() string {
				return ok(g2pubs.PrivToPub(g2pubs.DeserializeSecretKey(sk)).Serialize() == pk2, "public key bytes")
			}},
			task{"first HashG1", func() string { return ok(bls.CompressG1(bls.HashG1(m)) == h1, "hash") }},
			task{"first HashG2", func() string { return ok(bls.CompressG2(bls.HashG2(m)) == h2, "hash") }},
			task{"first HashG2WithDomain", func() string {
				return ok(bls.CompressG2(bls.HashG2WithDomain(m32, dom).ToAffine()) == hd, "hash")
			}},
			task{"first g1pubs.VerifyAggregate", func() string {
				a := g1pubs.NewAggregateSignature()
				s, err := g1pubs.DeserializeSignature(sum1)
				if err != nil {
					return err.Error()
				}
				a.Aggregate(s)
				var l []*g1pubs.PublicKey
				for _, b := range pks1 {
					p, err := g1pubs.DeserializePublicKey(b)
					if err != nil {
						return err.Error()
					}
					l = append(l, p)
				}
				return ok(a.VerifyAggregate(l, [][]byte{f.msgs[0], f.msgs[1]}), "valid aggregate rejected")
			}},
			task{"first g2pubs.VerifyAggregate", func() string {
				a := g2pubs.NewAggregateSignature()
				s, err := g2pubs.DeserializeSignature(sum2)
				if err != nil {
					return err.Error()
				}
				a.Aggregate(s)
				var l []*g2pubs.PublicKey
				for _, b := range pks2 {
					p, err := g2pubs.DeserializePublicKey(b)
					if err != nil {
						return err.Error()
					}
					l = append(l, p)
				}
				return ok(a.VerifyAggregate(l, [][]byte{f.msgs[0], f.msgs[1]}), "valid aggregate rejected")
			}},
			task{"first RandKey", func() string {
				s, e1 := g1pubs.RandKey(bytes.NewReader(bytes.Repeat([]byte{byte(7 * (k + 1))}, 400)))
				t, e2 := g2pubs.RandKey(bytes.NewReader(bytes.Repeat([]byte{byte(7 * (k + 1))}, 400)))
				if e1 != nil || e2 != nil {
					return fmt.Sprint("wrong: ", e1, e2)
				}
				return ok(s.Serialize() == t.Serialize(), "the two packages disagree")
			}},
			task{"first DeriveSecretKey", func() string {
				s, t := g1pubs.DeriveSecretKey(m32), g2pubs.DeriveSecretKey(m32)
				return ok(s.Serialize() == t.Serialize(), "the two packages disagree")
			}},
			task{"first globals", func() string { return ok(globals() != "", "") }},
		)
	}
	first := -1
	if c.Shard%4 != 3 {
		first = c.Shard
	}
	res := storm(c, cold, g, first)
	judge(c, "first use", cold, res, func(i int) string { return "right" })

	// --- shared objects ---
	ops := apiOps()
	ri := map[string]bool{}
	for _, o := range ops { // entropy sources and running hashes are not for sharing
		for i := 0; i < o.fn.Type().NumIn(); i++ {
			if t := o.fn.Type().In(i); t == readerT || t == hashT {
				ri[o.name] = true
			}
		}
	}
	var shared []task
	var ins [][]reflect.Value
	var befores []string
	var sops []*op
	var seeds []uint64
	pool := map[string]reflect.Value{} // one object of each type, shared by every operation
	third := func(o *op) bool {        // the expensive operations, spread over three processes
		n := 0
		for _, b := range []byte(o.name) {
			n += int(b)
		}
		return !o.heavy || n%3 == c.Shard%3
	}
	for _, o := range schedule(c, ops, 8, 2) {
		if o.mutates || ri[o.name] || !third(o) {
			continue
		}
		seed := c.U64()
		in := o.args(f, seed)
		if !strings.Contains(o.name, "Verify") {
			for i := range in {
				k := in[i].Type().String()
				if in[i].Kind() != reflect.Pointer {
					continue
				}
				if p, ok := pool[k]; ok && c.Bool() {
					in[i] = p
				} else {
					pool[k] = in[i]
				}
			}
		}
		o1, in1 := o, in
		shared = append(shared, task{o.name, func() string {
			out := o1.fn.Call(in1)
			s := o1.outcome(in1, out, "")
			if !sharesArgs[o1.name] {
				for _, v := range out { // results belong to the caller
					mutate(v)
				}
			}
			return s
		}})
		ins, sops, seeds = append(ins, in), append(sops, o), append(seeds, seed)
		befores = append(befores, snaps(in))
	}
	glob := globals()
	res = storm(c, shared, g, -1)
	judge(c, "shared objects", shared, res, func(i int) string {
		return sops[i].outcome(ins[i], sops[i].fn.Call(ins[i]), "")
	})
	for i, in := range ins {
		if s := snaps(in); s != befores[i] {
			c.Case("shared objects after", sops[i].name, seeds[i])
			c.Fail("the shared arguments of %s changed from %s to %s", sops[i].name, short(befores[i]), short(s))
		}
	}
	if s := globals(); s != glob {
		c.Fail("an exported variable changed: %s", firstDiff(glob, s))
	}

	// --- private objects ---
	var private []task
	for _, o := range schedule(c, ops, 8, 2) {
		if !third(o) {
			continue
		}
		o, seed := o, c.U64()
		private = append(private, task{o.name, func() string {
			in := o.args(f, seed)
			out, p := o.call(in)
			s := o.outcome(in, out, p)
			if !sharesArgs[o.name] {
				for _, v := range append(out, in...) {
					mutate(v)
				}
			}
			return s
		}})
	}
	res = storm(c, private, g, -1)
	judge(c, "private objects", private, res, func(i int) string { return private[i].run() })
	if s := globals(); s != glob {
		c.Fail("an exported variable changed: %s", firstDiff(glob, s))
	}

	// --- one operation at a time, on all goroutines ---
	for k, o := range ops {
		if !c.Mine(k) {
			continue
		}
		n, rep := 6, 2
		if o.heavy {
			n, rep = 1, 1
		}
		o := o
		var same []task
		for i := 0; i < n; i++ {
			seed := c.U64()
			same = append(same, task{o.name, func() string {
				var all []string
				for r := 0; r < rep; r++ {
					in := o.args(f, seed+uint64(r))
					out, p := o.call(in)
					all = append(all, o.outcome(in, out, p))
				}
				return strings.Join(all, "; ")
			}})
		}
		res := storm(c, same, g, -1)
		judge(c, "one operation", same, res, func(i int) string { return same[i].run() })
	}
	if crowdBuild {
		for k, o := range ops {
			if c.Mine(k) {
				crowd(c, f, o, ri[o.name])
			}
		}
	}
	if yieldBuild {
		for k, o := range ops {
			if c.Mine(k) && !o.mutates && !ri[o.name] {
				hammer(c, f, o, g)
			}
		}
		if s := globals(); s != glob {
			c.Fail("an exported variable changed: %s", firstDiff(glob, s))
		}
	}
	c.Count("goroutines", int64(g))
	c.Count(fmt.Sprintf("processes with GOMAXPROCS=%d", procs), 1)
}

// hammer calls one operation from g goroutines with few different inputs again
// and again, each of them a few times in a row, so that state kept from one call
// to the next meets every interleaving of storing and finding it: what is torn
// between atomic operations is no data race, but gives a wrong result.
func hammer(c *C, f *fixtures, o *op, g int) {
	const inputs = 3
	rounds, calls := 60, 16
	if o.heavy {
		rounds, calls = 30, 4
	}
	if strings.Contains(o.name, "VerifyAggregate") {
		rounds, calls = 10, 3
	}
	if c.Tier == "thorough" {
		rounds *= 4
	}
	if g < 8 {
		g = 8
	}
	var seeds [inputs]uint64
	var wants [inputs]string
	for i := range seeds {
		seeds[i] = c.U64()
		in := o.args(f, seeds[i])
		out, p := o.call(in)
		wants[i] = o.outcome(in, out, p)
	}
	type bad struct {
		in  int
		got string
	}
	bads := make([][]bad, g)
	ran := make([][inputs]int64, g)
	args := make([][inputs][]reflect.Value, g)
	rngs := make([]*mon.Rng, g)
	for i := range args {
		rngs[i] = mon.NewRng(c.U64())
		for k := range seeds {
			args[i][k] = o.args(f, seeds[k])
		}
	}
	for n := 0; n < rounds; n++ {
		var ready atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for t := 0; ready.Load() < int32(g) && t < 1000; t++ { // so that equal calls end together
					runtime.Gosched()
				}
				r := rngs[i]
				k := r.Intn(inputs)
				for j := 0; j < calls; j++ {
					if j > 1 && r.Bool() { // the first two are the same
						k = r.Intn(inputs)
					}
					var got string
					if p := tryAll(func() { out, p := o.call(args[i][k]); got = o.outcome(args[i][k], out, p) }); p != "" {
						got = p
					}
					ran[i][k]++
					if got != wants[k] && len(bads[i]) < 3 {
						bads[i] = append(bads[i], bad{k, got})
					}
				}
			}(i)
		}
		wg.Wait()
	}
	for i := range bads {
		for k, n := range ran[i] {
			c.Case("hammer", o.name, i, seeds[k])
			c.Count("calls of one operation on few inputs, repeated by all goroutines", n)
		}
		for _, b := range bads[i] {
			if strings.HasPrefix(b.got, "\x00") {
				panic(b.got[1:])
			}
			c.Case("hammer", o.name, i, seeds[b.in])
			c.Fail("%s gave %s on goroutine %d of %d hammering it with %d inputs, but %s when run alone", o.name, short(b.got), i, g, inputs, short(wants[b.in]))
		}
	}
}

// crowd has very many goroutines call one operation at once, far more than there
// are processors, so that calls are interrupted half-way while many others run:
// what is reused in turn (rings, pools of a fixed size) is then reused too early.
func crowd(c *C, f *fixtures, o *op, private bool) {
	const inputs = 8
	n, rep := 160, 25
	if o.heavy {
		n, rep = 72, 1
	}
	if strings.Contains(o.name, "VerifyAggregate") {
		n = 40
	}
	if c.Tier == "thorough" {
		n *= 2
	}
	var seeds [inputs]uint64
	var args [inputs][]reflect.Value
	for i := range seeds {
		seeds[i] = c.U64()
		args[i] = o.args(f, seeds[i])
	}
	got := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		in := args[i%inputs]
		if o.mutates || private {
			in = o.args(f, seeds[i%inputs])
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for r := 0; r < rep; r++ {
				var g string
				if p := tryAll(func() { out, p := o.call(in); g = o.outcome(in, out, p) }); p != "" {
					g = p
				}
				if r == 0 {
					got[i] = g
				} else if o.mutates || private {
					break
				} else if g != got[i] {
					got[i] = "first " + got[i] + ", then " + g
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range got {
		if strings.HasPrefix(got[i], "\x00") {
			panic(got[i][1:])
		}
	}
	var wants [inputs]string
	for i := range wants {
		in := o.args(f, seeds[i])
		out, p := o.call(in)
		wants[i] = o.outcome(in, out, p)
	}
	c.Count("calls of one operation by a crowd of goroutines", int64(n*rep))
	for i := range got {
		c.Case("crowd", o.name, i, seeds[i%inputs])
		if got[i] != wants[i%inputs] {
			c.Fail("%s gave %s on goroutine %d of %d, but %s when run alone", o.name, short(got[i]), i, n, short(wants[i%inputs]))
		}
	}
}
