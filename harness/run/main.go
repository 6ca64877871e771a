// Command run executes the workload of one property in one process (a shard),
// against the library that it was built with.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"

	"verifharness/mon"
	"verifharness/ref"
)

type C = mon.C

var props = map[string]func(*C){}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	scale := flag.Float64("scale", 1, "workload multiplier")
	out := flag.String("out", "", "output path prefix")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	f := props[*prop]
	if f == nil || *out == "" {
		fmt.Fprintln(os.Stderr, "harness: unknown property or no -out")
		os.Exit(3)
	}
	if *shard == 0 {
		if err := ref.SelfTest(); err != nil {
			fmt.Fprintln(os.Stderr, "harness: reference model self-test failed:", err)
			os.Exit(3)
		}
	}
	c := mon.New(*prop, *tier, runtime.GOARCH, *seed, *shard, *shards, *scale, *out)
	c.Exec(f)
}
