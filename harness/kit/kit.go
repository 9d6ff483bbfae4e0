// Package kit holds what every monitor shares: seeded cases, generators, the
// reference models, verdicts and the evidence counters.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/vsched"
	"verifharness/vtime"
)

// Violation is what refutes a property.
type Violation struct {
	Case    int    `json:"case"`
	Message string `json:"message"`
	Witness any    `json:"witness,omitempty"`
}

// Report is what one child process writes.
type Report struct {
	Prop         string           `json:"prop"`
	Cases        int64            `json:"cases"`
	Evaluations  int64            `json:"evaluations"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []any            `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	CutShort     bool             `json:"cut_short"`
	Points       []int            `json:"points"` // instrumentation points reached
	HarnessError string           `json:"harness_error,omitempty"`
}

// Ctx is one child's run of one property.
type Ctx struct {
	Prop, Tier     string
	Seed           uint64
	Shard, NShards int
	Only           int // replay a single case (-1: all)
	Out            string
	Dict           *Dict
	Scale          float64
	Clocks         bool // cases differ in how fast the clock of the code under test runs

	mu       sync.Mutex
	rep      Report
	hashes   map[uint64]struct{}
	cur      int
	deadline time.Time
	progress atomic.Int64
	opNow    atomic.Pointer[string]

	// Quiet is set while goroutines run under the race detector: the calls they
	// make here must not order them, or they would hide races.
	Quiet    bool
	quietOps int64
}

//go:norace
func (c *Ctx) quietTick() { c.quietOps++ }

//go:norace
func (c *Ctx) quietSeen() int64 { return c.quietOps }

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a number of cases to the tier.
func (c *Ctx) N(quick, thorough int) int {
	n := quick
	if c.Thorough() {
		n = thorough
	}
	n = int(float64(n) * c.Scale)
	if n < 1 {
		n = 1
	}
	return n
}

// NewCtx prepares a run.
func NewCtx(prop, tier string, seed uint64, shard, nshards, only int, out string, d *Dict, limit time.Duration) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Shard: shard, NShards: nshards, Only: only, Out: out, Dict: d,
		Scale: 1, hashes: map[uint64]struct{}{}, deadline: time.Now().Add(limit)}
	c.rep.Prop = prop
	c.rep.Counters = map[string]int64{}
	return c
}

// Count adds to an evidence counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.rep.Counters[name] += n
	c.mu.Unlock()
}

// Max keeps the largest value of a counter.
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.rep.Counters["max:"+name] {
		c.rep.Counters["max:"+name] = n
	}
	c.mu.Unlock()
}

// Eval counts oracle evaluations.
func (c *Ctx) Eval(n int) {
	if c.Quiet {
		c.quietTick()
		return
	}
	atomic.AddInt64(&c.rep.Evaluations, int64(n))
	c.progress.Add(1)
}

// Tick tells the watchdog that something completed.
func (c *Ctx) Tick() { c.progress.Add(1) }

// Nontrivial records a case as distinct by its hash.
func (c *Ctx) Nontrivial(h uint64) {
	c.mu.Lock()
	c.hashes[h] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.rep.Samples) < 3 {
		c.rep.Samples = append(c.rep.Samples, v)
	}
	c.mu.Unlock()
}

// WantSample reports whether another sample is welcome.
func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Samples) < 3
}

// Inconclusive records a run without verdict.
func (c *Ctx) Inconclusive(s string) {
	c.mu.Lock()
	c.rep.Counters["inconclusive_runs"]++
	if len(c.rep.Inconclusive) < 20 {
		c.rep.Inconclusive = append(c.rep.Inconclusive, fmt.Sprintf("case %d: %s", c.cur, s))
	}
	c.mu.Unlock()
}

// Fail records a violation and unwinds the current case.
func (c *Ctx) Fail(witness any, format string, args ...any) {
	c.Violate(witness, format, args...)
	panic(stop{})
}

// Violate records a violation.
func (c *Ctx) Violate(witness any, format string, args ...any) {
	c.mu.Lock()
	c.rep.Violations = append(c.rep.Violations, Violation{c.cur, fmt.Sprintf(format, args...), witness})
	c.mu.Unlock()
}

// Violated reports whether anything was found.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Violations) > 0
}

type stop struct{}

// IsStop tells the unwinding of Fail from a real panic.
func IsStop(e any) bool { _, ok := e.(stop); return ok }

// HarnessPanic ends the process: the harness itself is at fault.
func (c *Ctx) HarnessPanic(msg string) {
	c.mu.Lock()
	c.rep.HarnessError = msg
	c.mu.Unlock()
	c.Write()
	os.Exit(3)
}

// Cases runs this shard's share of n cases under a label; each case is a
// function of (seed, property, label, index) alone.
func (c *Ctx) Cases(label string, base, n int, f func(r *Rand, i int)) {
	for i := 0; i < n; i++ {
		id := base + i
		if c.Only >= 0 {
			if id != c.Only {
				continue
			}
		} else if id%c.NShards != c.Shard {
			continue
		}
		if c.Violated() {
			return
		}
		if c.Only < 0 && time.Now().After(c.deadline) {
			c.rep.CutShort = true
			return
		}
		if vsched.Poisoned.Load() {
			c.Inconclusive("process left with goroutines outside the scheduler; rest of the shard skipped")
			return
		}
		c.one(label, id, i, f)
	}
}

func (c *Ctx) one(label string, id, i int, f func(r *Rand, i int)) {
	c.cur = id
	debug.SetPanicOnFault(true)
	if c.Clocks {
		vtime.Set([]time.Duration{1, 40, 2000, 200_000}[id%4])
	}
	c.rep.Cases++
	c.rep.Counters["cases:"+label]++
	c.progress.Add(1)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				return
			}
			st := string(debug.Stack())
			if Blames(st) {
				c.Violate(map[string]any{"label": label, "stack": st}, "the code under test panicked: %v", e)
			} else {
				c.rep.HarnessError = fmt.Sprintf("%v\n%s", e, st)
				c.Write()
				os.Exit(3)
			}
		}
	}()
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", c.Prop, label, i)
	f(NewRand(c.Seed, h.Sum64(), c.Dict), i)
}

// Blames reports whether the innermost non-runtime frame chain of a panic stack
// goes through the code under test before it reaches the harness.
func Blames(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	s := stack
	if i >= 0 {
		s = stack[i:]
	}
	for _, line := range strings.Split(s, "\n") {
		if strings.HasPrefix(line, "\t") || line == "" {
			continue
		}
		if strings.HasPrefix(line, "github.com/sonirico/visigoth.") || strings.HasPrefix(line, "created by github.com/sonirico/visigoth.") {
			return true
		}
		if strings.HasPrefix(line, "verifharness/") && !strings.HasPrefix(line, "verifharness/vsched") {
			return false
		}
		if strings.HasPrefix(line, "main.") {
			return false
		}
	}
	return false
}

// Write stores the report.
func (c *Ctx) Write() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, n := range vsched.Cov {
		if n > 0 && i > 0 {
			c.rep.Points = append(c.rep.Points, i)
		}
	}
	b, err := json.Marshal(&c.rep)
	if err != nil {
		c.rep.Samples, c.rep.HarnessError = nil, err.Error()
		for i := range c.rep.Violations {
			c.rep.Violations[i].Witness = fmt.Sprint(c.rep.Violations[i].Witness)
		}
		b, _ = json.Marshal(&c.rep)
	}
	if err := os.WriteFile(c.Out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	hs := make([]byte, 0, 8*len(c.hashes))
	keys := make([]uint64, 0, len(c.hashes))
	for k := range c.hashes {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
	for _, k := range keys {
		hs = binary.LittleEndian.AppendUint64(hs, k)
	}
	_ = os.WriteFile(c.Out+".hash", hs, 0o644)
}

// Op names the operation in flight, for the watchdog's report.
func (c *Ctx) Op(format string, args ...any) {
	if c.Quiet {
		c.quietTick()
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	c.opNow.Store(&s)
	c.progress.Add(1)
}

func cpu() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Watchdog decides about operations that do not come back. It never judges by
// wall-clock time: an operation is reported as blocked when a stopped-world
// snapshot shows every goroutine of the code under test parked on a lock or
// channel, and as not terminating when it alone has burnt cpuLimit of processor
// time (three orders of magnitude above the largest legitimate operation).
func (c *Ctx) Watchdog(cpuLimit time.Duration) {
	last, lastCPU, idle := int64(-1), cpu(), 0
	var lastBusy time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		p := c.progress.Load() + c.quietSeen()
		now := cpu()
		if p != last {
			last, lastCPU, idle, lastBusy = p, now, 0, now
			continue
		}
		if now-lastBusy < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		lastBusy = now
		what := "(unknown)"
		if s := c.opNow.Load(); s != nil {
			what = *s
		}
		if idle >= 10 && vsched.Mode != vsched.ModeControlled {
			st := stacks()
			if blocked(st) {
				c.Violate(map[string]any{"stacks": st}, "operation never returns (every goroutine of the code under test is parked): %s", what)
				c.Write()
				os.Exit(4)
			}
			idle = 0
		}
		if now-lastCPU > cpuLimit {
			c.Violate(map[string]any{"stacks": stacks()}, "operation does not terminate (%v of processor time): %s", now-lastCPU, what)
			c.Write()
			os.Exit(4)
		}
	}
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func blocked(st string) bool {
	n := 0
	for _, g := range strings.Split(st, "\n\n") {
		if !strings.Contains(g, "github.com/sonirico/visigoth.") {
			continue
		}
		n++
		i, j := strings.Index(g, "["), strings.Index(g, "]")
		if i < 0 || j < i {
			return false
		}
		s := g[i+1 : j]
		if k := strings.IndexByte(s, ','); k >= 0 {
			s = s[:k]
		}
		switch s {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "sync.WaitGroup.Wait", "sync.Cond.Wait", "chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		default:
			return false
		}
	}
	return n > 0
}

// Hash hashes anything printable.
func Hash(v ...any) uint64 {
	h := fnv.New64a()
	for _, x := range v {
		fmt.Fprintf(h, "%v|", x)
	}
	return h.Sum64()
}

// Clip shortens a string for a witness.
func Clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Rand is the only source of choices in a case.
type Rand struct {
	*rand.Rand
	D *Dict
}

// NewRand makes a case's generator.
func NewRand(a, b uint64, d *Dict) *Rand {
	return &Rand{rand.New(rand.NewPCG(a*0x9e3779b97f4a7c15+1, b)), d}
}

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

// Pick chooses an element.
func Pick[T any](r *Rand, xs []T) T { return xs[r.IntN(len(xs))] }
