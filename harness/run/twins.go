package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"sync"

	"verifharness/mon"
)

// Twins are pairs of different messages of one length with the same digest, or
// the same part of a digest: what a table with too short a key would confuse.
var twins struct {
	sync.Once
	all  map[int][][2][]byte // by length
	twin map[string][]byte
}

// fixedTwins have the same MD5; the same 64-bit FNV-1a (twice); SHA-256 digests
// that agree in their first 64 bits.
var fixedTwins = [][2]string{
	{"d131dd02c5e6eec4693d9a0698aff95c2fcab58712467eab4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70",
		"d131dd02c5e6eec4693d9a0698aff95c2fcab50712467eab4004583eb8fb7f8955ad340609f4b30283e4888325f1415a085125e8f7cdc99fd91dbd7280373c5bd8823e3156348f5bae6dacd436c919c6dd53e23487da03fd02396306d248cda0e99f33420f577ee8ce54b67080280d1ec69821bcb6a8839396f965ab6ff72a70"},
	{hex.EncodeToString([]byte("8yn0iYCKYHlIj4-BwPqk")), hex.EncodeToString([]byte("GReLUrM4wMqfg9yzV3KQ"))},
	{hex.EncodeToString([]byte("gMPflVXtwGDXbIhP73TX")), hex.EncodeToString([]byte("LtHf1prlU1bCeYZEdqWf"))},
	{"000000000000000000000000000000000000000000000000a862f7820a0cb7be", "000000000000000000000000000000000000000000000000c84111a37ce33420"},
}

func makeTwins() {
	twins.all, twins.twin = map[int][][2][]byte{}, map[string][]byte{}
	add := func(a, b []byte) {
		twins.all[len(a)] = append(twins.all[len(a)], [2][]byte{a, b})
		twins.twin[string(a)], twins.twin[string(b)] = b, a
	}
	for _, p := range fixedTwins {
		a, _ := hex.DecodeString(p[0])
		b, _ := hex.DecodeString(p[1])
		add(a, b)
	}
	head := func(h []byte) uint32 { return binary.BigEndian.Uint32(h) }
	parts := []func(m []byte) uint32{
		func(m []byte) uint32 { h := sha256.Sum256(m); return head(h[:]) },
		func(m []byte) uint32 { h := sha256.Sum256(m); return head(h[28:]) },
		func(m []byte) uint32 { h := sha256.Sum256(append(m, make([]byte, 8)...)); return head(h[:]) },
		func(m []byte) uint32 { h := sha512.Sum512(m); return head(h[:]) },
		func(m []byte) uint32 { h := sha1.Sum(m); return head(h[:]) },
		func(m []byte) uint32 { h := md5.Sum(m); return head(h[:]) },
	}
	for i, part := range parts { // a birthday for each
		n := 32
		if i > 0 && i%2 == 0 {
			n = 20
		}
		if i == 2 {
			n = 32
		}
		seen := make(map[uint32]uint32, 1<<16)
		m := make([]byte, n, n+8)
		for x := uint32(1); ; x++ {
			binary.LittleEndian.PutUint32(m[n-4:], x)
			h := part(m)
			if y, ok := seen[h]; ok {
				o := append([]byte(nil), m...)
				binary.LittleEndian.PutUint32(o[n-4:], y)
				add(append([]byte(nil), m...), o)
				break
			}
			seen[h] = x
		}
	}
}

// twinOf returns the twin of a message that has one.
func twinOf(m []byte) []byte {
	twins.Do(makeTwins)
	return twins.twin[string(m)]
}

// drawTwin draws a message that has a twin; of length n, or any when n < 0.
func drawTwin(c *mon.Rng, n int) []byte {
	twins.Do(makeTwins)
	if n < 0 {
		n = []int{20, 32, 128}[c.Intn(3)]
	}
	if t := twins.all[n]; len(t) > 0 {
		return append([]byte(nil), t[c.Intn(len(t))][c.Intn(2)]...)
	}
	return nil
}
