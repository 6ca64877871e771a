// Package mon is the monitor core: it runs one property's workload in one
// process, counts what was observed, and records every violation with the case
// that produced it.
package mon

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C is the context of one shard (one process).
type C struct {
	*Rng
	Prop    string
	Seed    uint64
	Tier    string
	Arch    string
	Shard   int
	Shards  int
	Scale   float64 // multiplies every workload size
	evals   int64
	kinds   map[string]int64
	stats   map[string]int64
	seen    map[uint64]struct{}
	samples []string
	sampled map[string]int
	viol    []Violation
	mu      sync.Mutex
	cur     atomic.Pointer[caseRec]
	out     string
	done    atomic.Bool
}

type caseRec struct {
	kind string
	args []any
	cpu  time.Duration // process CPU time at the start, filled by the watchdog
}

type Violation struct {
	Kind   string   `json:"kind"`
	Args   []string `json:"args"`
	Msg    string   `json:"message"`
	Detail string   `json:"detail,omitempty"`
	N      int64    `json:"evaluation"`
}

type Result struct {
	Prop       string           `json:"prop"`
	Arch       string           `json:"arch"`
	Shard      int              `json:"shard"`
	Evals      int64            `json:"evaluations"`
	Kinds      map[string]int64 `json:"kinds"`
	Stats      map[string]int64 `json:"stats"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Complete   bool             `json:"complete"`
}

const maxSeen = 150000

func New(prop, tier, arch string, seed uint64, shard, shards int, scale float64, out string) *C {
	c := &C{Prop: prop, Seed: seed, Tier: tier, Arch: arch, Shard: shard, Shards: shards, Scale: scale,
		kinds: map[string]int64{}, stats: map[string]int64{}, seen: map[uint64]struct{}{}, sampled: map[string]int{}, out: out}
	// the random stream depends on property, seed and shard, not on the build,
	// so both builds of the library see the same inputs
	h := uint64(14695981039346656037)
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	c.Rng = NewRng(h ^ seed*0x9e3779b97f4a7c15 ^ uint64(shard)*0xd1342543de82ef95)
	return c
}

// N is this shard's share of a workload of n cases.
func (c *C) N(n int) int {
	v := int(float64(n)*c.Scale)/c.Shards + 1
	return v
}

// Mine spreads an enumerated list over the shards.
func (c *C) Mine(i int) bool { return i%c.Shards == c.Shard }

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}
func hashArg(h uint64, a any) uint64 {
	switch v := a.(type) {
	case *big.Int:
		b := v.Bits()
		if bits.UintSize == 32 { // same hash on every build
			for i := 0; i < len(b); i += 2 {
				w := uint64(b[i])
				if i+1 < len(b) {
					w |= uint64(b[i+1]) << 32
				}
				h = mix(h, w)
			}
		} else {
			for _, w := range b {
				h = mix(h, uint64(w))
			}
		}
		return mix(h, uint64(v.Sign())+3)
	case []byte:
		n := len(v)
		for len(v) >= 8 {
			h = mix(h, binary.LittleEndian.Uint64(v))
			v = v[8:]
		}
		for _, b := range v {
			h = mix(h, uint64(b))
		}
		return mix(h, uint64(n))
	case int:
		return mix(h, uint64(v)+0x1234567)
	case uint64:
		return mix(h, v+0x7654321)
	case string:
		for i := 0; i < len(v); i++ {
			h = mix(h, uint64(v[i]))
		}
		return mix(h, 77)
	case bool:
		if v {
			return mix(h, 5)
		}
		return mix(h, 6)
	case [6]uint64:
		for _, w := range v {
			h = mix(h, w+1)
		}
		return h
	case [4]uint64:
		for _, w := range v {
			h = mix(h, w+1)
		}
		return h
	default:
		return hashArg(h, fmt.Sprint(a))
	}
}
func show(a any) string {
	switch v := a.(type) {
	case *big.Int:
		return "0x" + v.Text(16)
	case []byte:
		if len(v) > 400 {
			return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(v[:400]), len(v))
		}
		return hex.EncodeToString(v)
	case [6]uint64:
		return fmt.Sprintf("%#x", v)
	case [4]uint64:
		return fmt.Sprintf("%#x", v)
	case uint64:
		return fmt.Sprintf("%#x", v)
	default:
		return fmt.Sprint(a)
	}
}

// Case opens a case; the oracle checks that follow are attributed to it.
// Distinctness is judged by kind and arguments.
func (c *C) Case(kind string, args ...any) {
	c.cur.Store(&caseRec{kind: kind, args: args})
	c.evals++
	c.kinds[kind]++
	if len(c.seen) < maxSeen {
		h := hashArg(0x51ed27, kind)
		for _, a := range args {
			h = hashArg(h, a)
		}
		c.seen[h] = struct{}{}
	}
	if n := c.sampled[kind]; n < 1 && len(c.samples) < 40 {
		c.sampled[kind] = n + 1
		c.samples = append(c.samples, c.describe())
	}
}
func (c *C) describe() string {
	r := c.cur.Load()
	if r == nil {
		return "start"
	}
	s := []string{r.kind}
	for _, a := range r.args {
		t := show(a)
		if len(t) > 200 {
			t = t[:200] + "..."
		}
		s = append(s, t)
	}
	return strings.Join(s, " ")
}

// Count adds to a named statistic.
func (c *C) Count(name string, n int64) { c.stats[name] += n }

type stop struct{}

func (c *C) addViolation(msg, detail string) {
	v := Violation{Msg: msg, Detail: detail, N: c.evals}
	if r := c.cur.Load(); r != nil {
		v.Kind = r.kind
		for _, a := range r.args {
			v.Args = append(v.Args, show(a))
		}
	}
	c.mu.Lock()
	c.viol = append(c.viol, v)
	c.mu.Unlock()
}

// Fail records a violation of the property in the current case. After a few the
// shard stops.
func (c *C) Fail(format string, args ...any) {
	for i, a := range args {
		switch a.(type) {
		case []byte, *big.Int:
			args[i] = show(a)
		}
	}
	c.addViolation(fmt.Sprintf(format, args...), "")
	if len(c.viol) >= 3 {
		panic(stop{})
	}
}

func (c *C) Check(ok bool, format string, args ...any) bool {
	if !ok {
		c.Fail(format, args...)
	}
	return ok
}

func (c *C) result(complete bool) Result {
	return Result{c.Prop, c.Arch, c.Shard, c.evals, c.kinds, c.stats, c.samples, c.viol, complete}
}
func (c *C) write(complete bool) {
	b, err := json.MarshalIndent(c.result(complete), "", " ")
	if err == nil {
		err = os.WriteFile(c.out+".json", b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot write result:", err)
		os.Exit(3)
	}
	keys := make([]uint64, 0, len(c.seen))
	for k := range c.seen {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	buf := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(buf[8*i:], k)
	}
	os.WriteFile(c.out+".seen", buf, 0o644)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// CaseCPU is how much processor time (not wall-clock) one case may take. The
// longest legitimate case takes a few seconds on the slowest build.
var CaseCPU = 150 * time.Second

const maxHeap = 3 << 30

func (c *C) watchdog() {
	var last *caseRec
	var start, prev time.Duration
	idle := 0
	for !c.done.Load() {
		time.Sleep(500 * time.Millisecond)
		cur := c.cur.Load()
		cpu := cpuTime()
		if cpu-prev > 5*time.Millisecond {
			idle = 0
		}
		idle++
		prev = cpu
		if cur != last {
			last, start, idle = cur, cpu, 0
			continue
		}
		var why string
		if idle > 240 { // two minutes of samples without work
			why = "the calls block each other for good"
		}
		if cpu-start > CaseCPU {
			why = fmt.Sprintf("the call does not return (%v of processor time)", cpu-start)
		} else {
			var ms runtime.MemStats
			if cpu-start > 5*time.Second {
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > maxHeap {
				why = "the call allocates without bound"
			}
		}
		if why != "" && !c.done.Load() {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			v := Violation{Msg: why, Detail: string(buf)}
			if cur != nil {
				v.Kind = cur.kind
				for _, a := range cur.args {
					v.Args = append(v.Args, show(a))
				}
			}
			r := Result{Prop: c.Prop, Arch: c.Arch, Shard: c.Shard, Violations: []Violation{v}}
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(c.out+".json", b, 0o644)
			os.WriteFile(c.out+".seen", nil, 0o644)
			os.Exit(0)
		}
	}
}

// Exec runs the workload, turning a panic of the code under test into a
// violation.
func (c *C) Exec(run func(*C)) {
	go c.watchdog()
	complete := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				st := string(debug.Stack())
				if IsHarnessPanic(r) {
					fmt.Fprintf(os.Stderr, "harness: %v\nin %s\n%s", r, c.describe(), st)
					os.Exit(3)
				}
				c.addViolation(fmt.Sprintf("panic: %v", r), st)
			}
		}()
		run(c)
		complete = true
	}()
	c.done.Store(true)
	c.write(complete)
}

// IsHarnessPanic recognises the harness's and the model's own failures.
func IsHarnessPanic(r any) bool {
	s := fmt.Sprint(r)
	return strings.HasPrefix(s, "ref:") || strings.HasPrefix(s, "harness:")
}

// Try runs f and reports a panic as text.
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok || IsHarnessPanic(r) {
				panic(r)
			}
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// Out is the path prefix of this shard's output files.
func (c *C) Out() string { return c.out }
