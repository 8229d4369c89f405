// Package mon is the runtime-monitoring core: deterministic case scheduling, violation and coverage recording, the
// journal which names the case a crashed worker was executing, and the per-worker watchdogs.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is a registered property check.
type Prop struct {
	ID   string
	Rule string
	Race bool // needs a binary built with -race
	Run  func(c *Ctx)
	// Serial makes the check run in one worker process (used where the workload itself uses all cores).
	Serial bool
	// Scale multiplies the case counts.
	Scale int
}

var props = map[string]*Prop{}

// Register adds a property check
func Register(p *Prop) { props[p.ID] = p }

// Get returns the check registered for the given id
func Get(id string) *Prop { return props[id] }

// IDs returns all registered ids
func IDs() []string {
	ids := make([]string, 0)
	for k := range props {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return ids
}

// Violation is one deviation seen by a monitor
type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Phase  string `json:"phase"`
	Case   int    `json:"case"`
}

// Result is what a worker process reports to its supervisor
type Result struct {
	Counters   map[string]int64 `json:"counters"`
	Evals      int64            `json:"evals"`
	Hashes     []uint64         `json:"hashes"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	KnownHits  map[string]int   `json:"known_hits"`
	Done       bool             `json:"done"`
}

// Ctx is the context of one worker process
type Ctx struct {
	PropID        string
	Tier          string
	Seed          int64
	Shard, Shards int
	Skip          map[string]bool
	Only          string

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	sigs     map[string]int
	journal  *os.File
	known    map[string]bool

	curPhase string
	curCase  int
	beat     int64 // incremented each case
}

// NewCtx creates a worker context
func NewCtx(id, tier string, seed int64, shard, shards int, journal string, skip []string, only string, known []string) *Ctx {
	c := &Ctx{PropID: id, Tier: tier, Seed: seed, Shard: shard, Shards: shards, Skip: map[string]bool{}, Only: only,
		distinct: map[uint64]struct{}{}, sigs: map[string]int{}, known: map[string]bool{}}
	c.res.Counters = map[string]int64{}
	c.res.KnownHits = map[string]int{}
	for _, s := range skip {
		c.Skip[s] = true
	}
	for _, s := range known {
		c.known[s] = true
	}
	if journal != `` {
		f, err := os.Create(journal)
		if err != nil {
			panic(err)
		}
		c.journal = f
	}
	return c
}

// Thorough returns true in the thorough tier
func (c *Ctx) Thorough() bool { return c.Tier == `thorough` }

// N selects a case count by tier. The counts are the ones of a small run. They are multiplied by the scale of the check.
func (c *Ctx) N(quick, thorough int) int {
	s := 1
	if p := props[c.PropID]; p != nil && p.Scale > 1 {
		s = p.Scale
	}
	if !c.Thorough() {
		return quick * s
	}
	if n := quick * s * 15; n > thorough {
		return n
	}
	return thorough
}

// Count adds to a named counter
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counters[name] += int64(n)
	c.mu.Unlock()
}

// Seen records a distinct non-trivial case by a canonical text
func (c *Ctx) Seen(canon string) bool {
	h := fnv.New64a()
	_, _ = h.Write([]byte(canon))
	return c.SeenHash(h.Sum64())
}

// SeenHash records a distinct non-trivial case by its hash
func (c *Ctx) SeenHash(x uint64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.distinct[x]; ok {
		return false
	}
	if len(c.distinct) < 400000 {
		c.distinct[x] = struct{}{}
	}
	return true
}

// Sample keeps a few written-out cases for the evidence
func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.res.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + `…`
		}
		c.res.Samples = append(c.res.Samples, s)
	}
	c.mu.Unlock()
}

// abort is the panic value used to leave a case after a violation has been recorded
type abort struct{}

// Violate records a violation without leaving the case. A signature is reported once per worker.
func (c *Ctx) Violate(sig, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known[sig] {
		c.res.KnownHits[sig]++
		return
	}
	c.sigs[sig]++
	if c.sigs[sig] > 1 || len(c.res.Violations) >= 40 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + `…`
	}
	c.res.Violations = append(c.res.Violations, Violation{Sig: sig, Detail: d, Phase: c.curPhase, Case: c.curCase})
}

// Fail records a violation and leaves the case
func (c *Ctx) Fail(sig, format string, args ...interface{}) {
	c.Violate(sig, format, args...)
	panic(abort{})
}

// IsAbort returns true if the recovered panic stems from Fail
func IsAbort(r interface{}) bool {
	_, ok := r.(abort)
	return ok
}

func (c *Ctx) seedFor(phase string, i int) int64 {
	h := fnv.New64a()
	_, _ = fmt.Fprintf(h, "%d/%s/%s/%d", c.Seed, c.PropID, phase, i)
	return int64(h.Sum64() >> 1)
}

// Run executes the cases of one phase which belong to this shard
func (c *Ctx) Run(phase string, n int, f func(r *rand.Rand, i int)) {
	for i := 0; i < n; i++ {
		if c.Only == `` && i%c.Shards != c.Shard {
			continue
		}
		key := fmt.Sprintf("%s:%d", phase, i)
		if c.Only != `` && c.Only != key || c.Skip[key] {
			continue
		}
		c.one(phase, i, key, f)
	}
}

func (c *Ctx) one(phase string, i int, key string, f func(r *rand.Rand, i int)) {
	c.mu.Lock()
	c.curPhase, c.curCase = phase, i
	c.res.Evals++
	c.mu.Unlock()
	atomic.AddInt64(&c.beat, 1)
	if c.journal != nil {
		b := make([]byte, 64)
		for k := range b {
			b[k] = ' '
		}
		copy(b, key)
		_, _ = c.journal.WriteAt(b, 0)
	}
	defer func() {
		if e := recover(); e != nil {
			if !IsAbort(e) {
				c.Violate(`unexpected panic: `+PanicClass(e), "case %s: unexpected panic: %v\n%s", key, e, trimStack(debug.Stack()))
			}
		}
	}()
	f(rand.New(rand.NewSource(c.seedFor(phase, i))), i)
}

// PanicClass abstracts a panic value to a class
func PanicClass(e interface{}) string {
	if re, ok := e.(runtime.Error); ok {
		s := re.Error()
		if strings.Contains(s, `index out of range`) {
			return `index out of range`
		}
		if strings.Contains(s, `slice bounds`) {
			return `slice bounds out of range`
		}
		if strings.Contains(s, `interface conversion`) {
			return `interface conversion`
		}
		return s
	}
	s := fmt.Sprint(e)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func trimStack(s []byte) string {
	ls := strings.Split(string(s), "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

// Catch runs f and returns the recovered panic value, or nil. Aborts pass through.
func Catch(f func()) (e interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if IsAbort(r) {
				panic(r)
			}
			e = r
		}
	}()
	f()
	return nil
}

// Result finalises and returns the result
func (c *Ctx) Result() *Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Hashes = make([]uint64, 0, len(c.distinct))
	for h := range c.distinct {
		c.res.Hashes = append(c.res.Hashes, h)
	}
	sort.Slice(c.res.Hashes, func(i, j int) bool { return c.res.Hashes[i] < c.res.Hashes[j] })
	return &c.res
}

// Save writes the result to a file
func (c *Ctx) Save(path string, done bool) {
	r := c.Result()
	r.Done = done
	bs, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(path+`.tmp`, bs, 0o644); err != nil {
		panic(err)
	}
	if err = os.Rename(path+`.tmp`, path); err != nil {
		panic(err)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Watchdog ends the process when a single case uses an absurd amount of CPU, memory or time. Cases are sized to take
// milliseconds, so a limit that is thousands of times larger separates "does not terminate" from "slow machine".
func (c *Ctx) Watchdog(cpuLimit, wallLimit time.Duration, memLimit uint64, out string) {
	debug.SetMaxStack(128 << 20)
	go func() {
		last := int64(-1)
		var cpu0 time.Duration
		var t0 time.Time
		for {
			time.Sleep(200 * time.Millisecond)
			b := atomic.LoadInt64(&c.beat)
			if b != last {
				last, cpu0, t0 = b, cpuTime(), time.Now()
				continue
			}
			if b == 0 {
				continue
			}
			var what string
			if cpuTime()-cpu0 > cpuLimit || time.Since(t0) > wallLimit {
				what = `does not terminate`
			} else {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > memLimit {
					what = `unbounded memory use`
				}
			}
			if what != `` {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				c.Violate(`watchdog: `+what, "case %s:%d %s\n%s", c.curPhase, c.curCase, what, trimStack(buf))
				c.Save(out, false)
				os.Exit(3)
			}
		}
	}()
}
