package main

// C15 the two builds agree, C16 purity.

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"strings"
)

func init() {
	props["C15"] = c15
	props["C16"] = c16
}

// schedule lists how often each operation runs.
func schedule(c *C, ops []*op, light, heavy int) []*op {
	var l []*op
	for _, o := range ops {
		n := light
		if o.heavy {
			n = heavy
		}
		for i := c.N(n); i > 0; i-- {
			l = append(l, o)
		}
	}
	c.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Results that are documented views of, or containers for, the caller's
// objects: the constructor keeps the pointers that it is given, the accessor
// returns the key's own element, and so on.
var sharesArgs = map[string]bool{
	"NewFQ12": true, "g1pubs.SecretKey.GetFRElement": true, "g2pubs.SecretKey.GetFRElement": true, "NewBitIterator": true,
}

func c16(c *C) {
	f := newFixtures(c.Rng)
	ops := apiOps()
	glob := globals()
	type past struct {
		o    *op
		seed uint64
		out  string
	}
	var hist []past
	run := func(o *op, seed uint64) string {
		in := o.args(f, seed)
		out, p := o.call(in)
		return o.outcome(in, out, p)
	}
	seenOp := map[string]bool{}
	for step, o := range schedule(c, ops, 240, 48) {
		seed := c.U64()
		c.Case("op "+o.name, seed)
		if !seenOp[o.name] {
			seenOp[o.name] = true
			c.Count("operations", 1)
		}
		a, b := o.args(f, seed), o.args(f, seed)
		before := snaps(a)
		if before != snaps(b) {
			c.Fail("%s: equal arguments print differently", o.name)
		}
		outA, p := o.call(a)
		res := o.outcome(a, outA, p)
		if p != "" {
			c.Count("panics observed as outcomes", 1)
		}
		// the arguments that are not the output are untouched
		keep := 0
		if o.mutates {
			keep = 1
		}
		argsKept := func(in []reflect.Value, when string) {
			for i := keep; i < len(in); i++ {
				if _, ok := in[i].Interface().(reader); ok {
					continue
				}
				if s, t := snap(in[i]), snap(b[i]); s != t {
					c.Fail("%s %s argument %d: %s became %s", o.name, when, i, short(t), short(s))
				}
			}
		}
		argsKept(a, "changed")
		// same call, same outcome, with twin arguments
		w := o.args(f, seed)
		outW, p := o.call(w)
		if r := o.outcome(w, outW, p); r != res {
			c.Fail("%s gave two outcomes for equal arguments: %s, then %s", o.name, short(res), short(r))
		}
		// and with the same objects again
		if !o.mutates && p == "" {
			a2 := append([]reflect.Value(nil), a...)
			for i := range a2 {
				if _, ok := a2[i].Interface().(reader); ok {
					a2[i] = o.args(f, seed)[i]
				}
			}
			out2, p := o.call(a2)
			if r := o.outcome(a2, out2, p); r != res {
				c.Fail("%s gave two outcomes for the same objects: %s, then %s", o.name, short(res), short(r))
			}
			argsKept(a, "changed, when called again,")
			c.Count("repeated calls", 1)
			// results of the two calls are separate objects
			if !sharesArgs[o.name] {
				for _, v := range out2 {
					mutate(v)
				}
				if r := o.outcome(a, outA, ""); r != res {
					c.Fail("%s returned an object that a later call returned too: changing one changed the other from %s to %s", o.name, short(res), short(r))
				}
				argsKept(a, "returned an object shared with its argument: changing the result changed")
			}
		}
		// the outcome does not follow later changes to the arguments
		if p == "" && !sharesArgs[o.name] {
			for i := keep; i < len(w); i++ {
				mutate(w[i])
			}
			if r := o.outcome(w, outW, ""); r != res {
				c.Fail("%s: changing an argument after the call changed the outcome from %s to %s", o.name, short(res), short(r))
			}
			// nor the arguments the later changes of the outcome
			if o.mutates {
				mutate(a[0])
				argsKept(a, "left the receiver sharing memory with")
			}
			for _, v := range outA {
				mutate(v)
			}
			argsKept(a, "returned an object shared with its argument: changing the result changed")
		}
		// the receiver used as argument as well
		for i := 1; i < len(w) && o.recv != nil; i++ {
			if w[i].Type() != o.recv && w[i].Type() != o.recv.Elem() {
				continue
			}
			x, y := o.args(f, seed), o.args(f, seed)
			z := o.args(f, seed)
			if w[i].Type() == o.recv {
				x[i] = x[0]
				y[i] = z[0] // a separate equal object
			} else {
				x[i] = x[0].Elem()
				y[i] = z[0].Elem()
			}
			ox, px := o.call(x)
			oy, py := o.call(y)
			if rx, ry := o.outcome(x, ox, px), o.outcome(y, oy, py); rx != ry {
				c.Fail("%s with the receiver as its own argument gave %s, with an equal object %s", o.name, short(rx), short(ry))
			}
			c.Count("aliased calls", 1)
		}
		if g := globals(); g != glob {
			c.Fail("%s changed an exported variable: %s", o.name, firstDiff(glob, g))
		}
		if len(hist) < 400 {
			hist = append(hist, past{o, seed, res})
		} else if step%5 == 0 {
			hist[c.Intn(len(hist))] = past{o, seed, res}
		}
		if step%7 == 0 { // an earlier call still has the outcome it had
			h := hist[c.Intn(len(hist))]
			if r := run(h.o, h.seed); r != h.out {
				c.Fail("after other calls (last %s), %s changed its outcome from %s to %s", o.name, h.o.name, short(h.out), short(r))
			}
			c.Count("replayed calls", 1)
		}
	}
	for _, i := range c.Perm(len(hist)) {
		h := hist[i]
		c.Case("replay "+h.o.name, h.seed)
		if r := run(h.o, h.seed); r != h.out {
			c.Fail("at the end of the run %s changed its outcome from %s to %s", h.o.name, short(h.out), short(r))
		}
		c.Count("replayed calls", 1)
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			return short(x[i]) + " became " + short(y[i])
		}
	}
	return "?"
}

// c15 writes one line for each call; the driver compares the files of the
// different builds.
func c15(c *C) {
	f := newFixtures(c.Rng)
	w, err := os.Create(c.Out() + ".trace")
	if err != nil {
		panic("harness: " + err.Error())
	}
	buf := bufio.NewWriterSize(w, 1<<20)
	hashes := map[uint64]bool{}
	ops := apiOps()
	for _, o := range schedule(c, ops, 4000, 64) {
		seed := c.U64()
		c.Case("op "+o.name, seed)
		in := o.args(f, seed)
		before := ""
		if !o.heavy || c.Intn(4) == 0 {
			before = snaps(in)
		}
		out, p := o.call(in)
		res := o.outcome(in, out, p)
		if p != "" {
			c.Count("panics observed as outcomes", 1)
		}
		h, g := sum64(res), sum64(before)
		hashes[h] = true
		fmt.Fprintf(buf, "%s\t%x\t%x\t%x\t%.60s\n", o.name, seed, g, h, res)
	}
	c.Count("distinct outcomes", int64(len(hashes)))
	if err := buf.Flush(); err == nil {
		err = w.Close()
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func sum64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
