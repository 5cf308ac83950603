// Package checks holds the runtime monitors of wearelumenai/distclus: one Test per property.
//
// Framework: a property is explored by groups of cases. A case is identified by (seed, property,
// group, index): everything it does is drawn from a generator seeded by this identity. Cases run
// on a pool of workers. Monitors report violations with Failf/Errorf; a panic in a case is a
// violation; a case that stays blocked is analysed by the watchdog (see watchdog_test.go).
package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

type violation struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key"` // identifies what fails, for known findings
	Message  string `json:"message"`
	Trace    string `json:"trace,omitempty"`
}

// H is the state of the check of one property
type H struct {
	t        *testing.T
	id       string
	seed     int64
	tier     string
	out      string
	rule     string
	level    string
	assume   []string
	workers  int
	start    time.Time
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	maxima   map[string]int64
	sets     map[string]map[uint64]struct{}
	samples  []interface{}
	perGroup map[string]int
	viols    []violation
	errs     []string
	draining atomic.Bool
	active   map[*Case]struct{}
	onlyG    string
	onlyI    int
}

const maxViolations = 3

// start the check of a property
func newH(t *testing.T, id, rule string, assume ...string) *H {
	var h = &H{
		t: t, id: id, rule: rule, assume: assume, level: "exploration",
		tier: "quick", seed: 1, workers: runtime.NumCPU(), start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, maxima: map[string]int64{},
		sets: map[string]map[uint64]struct{}{}, perGroup: map[string]int{}, active: map[*Case]struct{}{}, onlyI: -1,
	}
	if s := os.Getenv("VERIF_TIER"); s != "" {
		h.tier = s
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		h.seed = s
	}
	h.out = os.Getenv("VERIF_OUT")
	if h.out == "" {
		h.out = t.TempDir()
	}
	if s := os.Getenv("VERIF_ONLY"); s != "" {
		var p = strings.LastIndex(s, ":")
		h.onlyG = s[:p]
		h.onlyI, _ = strconv.Atoi(s[p+1:])
	}
	go h.watchdog()
	t.Cleanup(h.finish)
	return h
}

// N is the number of cases: q for the quick tier, more for the thorough one
func (h *H) N(q, thorough int) int {
	if h.tier == "thorough" {
		return thorough
	}
	if f := cheap[h.id]; f > 0 {
		return min(q*f, thorough)
	}
	return q
}

// checks that take a few seconds do more than their nominal number of quick cases
var cheap = map[string]int{"C02": 2, "C04": 2, "C05": 2, "C07": 2, "C09": 2, "C10": 2, "C12": 3, "C13": 3, "C14": 4, "C15": 4, "C16": 5, "C17": 6, "C18": 6, "C19": 4,
	"C20": 3, "C21": 3, "C22": 2, "C23": 4, "C24": 3, "C25": 3, "C27": 3}

func (h *H) thorough() bool { return h.tier == "thorough" }

type onlyEvidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int64                  `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assume     []string               `json:"assumptions,omitempty"`
	WallS      float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func (h *H) finish() {
	h.mu.Lock()
	defer h.mu.Unlock()
	var cov = map[string]interface{}{
		"evaluations":         h.evals,
		"distinct_nontrivial": len(h.distinct),
		"rule":                h.rule,
		"samples":             h.samples,
	}
	var obs = map[string]int64{}
	for k, v := range h.counters {
		obs[k] = v
	}
	for k, v := range h.maxima {
		obs["max "+k] = v
	}
	for k, v := range h.sets {
		obs["distinct "+k] = int64(len(v))
	}
	cov["observed"] = obs
	cov["cases_per_group"] = h.perGroup
	var ev = onlyEvidence{h.id, h.tier, h.seed, h.level, cov, h.assume, time.Since(h.start).Seconds(), len(h.viols)}
	writeJSON(filepath.Join(h.out, "evidence.json"), ev)
	writeJSON(filepath.Join(h.out, "result.json"), map[string]interface{}{"violations": h.viols, "errors": h.errs})
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"errors\":[%q]}", err.Error()))
	}
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}

// Case is one execution
type Case struct {
	h       *H
	Group   string
	Index   int
	Rng     *rand.Rand
	trace   []string
	traceMu sync.Mutex
	failed  atomic.Bool
	ticks   int64        // watchdog ticks since the beginning
	limit   atomic.Int64 // ticks before analysis
	beats   atomic.Int64 // iterations (or distances) observed by the case
	from    int64        // progress at the first tick
	what    atomic.Value // what the case is doing
	ended   atomic.Bool
	t       *testing.T
	bubble  atomic.Int64 // number of the bubble of virtual time
	frozen  int          // successive samples in which virtual time is stopped
	try     int
	leave   func() // called by the watchdog when the case is abandoned
}

type abort struct{}

func caseSeed(parts ...interface{}) (uint64, uint64) {
	var f = fnv.New64a()
	fmt.Fprint(f, parts...)
	var a = f.Sum64()
	fmt.Fprint(f, "second")
	return a, f.Sum64()
}

// Cases runs n cases of a group on the worker pool
func (h *H) Cases(group string, n int, f func(c *Case)) { h.cases(group, n, h.workers, f) }

// CasesW is Cases with a given number of workers
func (h *H) CasesW(group string, n, workers int, f func(c *Case)) { h.cases(group, n, workers, f) }

func (h *H) cases(group string, n, workers int, f func(c *Case)) {
	if h.onlyG != "" && h.onlyG != group {
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	if workers > n {
		workers = n
	}
	var worker func(w, first, try int)
	worker = func(w, first, try int) { // first: a case to try again, or -1
		wg.Add(1)
		var once sync.Once
		var done = func() { once.Do(wg.Done) }
		go func() {
			defer done()
			h.t.Run(fmt.Sprintf("%s-%d", group, w), func(t *testing.T) {
				for {
					for h.draining.Load() { // the watchdog decides
						time.Sleep(50 * time.Millisecond)
					}
					var i = first
					if first >= 0 {
						first = -1
					} else {
						try = 0
						i = int(atomic.AddInt64(&next, 1))
					}
					if i >= n || h.tooMany() {
						return
					}
					if h.onlyI >= 0 && i != h.onlyI {
						continue
					}
					var try = try
					h.runCase(t, group, i, try, f, func() { // this worker is lost
						if try < 2 {
							worker(w, i, try+1)
						} else {
							worker(w, -1, 0)
						}
						done()
					})
				}
			})
		}()
	}
	for w := 0; w < workers; w++ {
		worker(w, -1, 0)
	}
	wg.Wait()
	for h.draining.Load() { // let the watchdog decide
		time.Sleep(50 * time.Millisecond)
	}
}

func (h *H) tooMany() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.viols) >= maxViolations
}

func (h *H) runCase(t *testing.T, group string, i, try int, f func(c *Case), leave func()) {
	var a, b = caseSeed(h.seed, h.id, group, i)
	var c = &Case{h: h, Group: group, Index: i, Rng: rand.New(rand.NewPCG(a, b)), t: t, try: try, leave: leave}
	c.limit.Store(150)
	h.mu.Lock()
	h.active[c] = struct{}{}
	h.perGroup[group]++
	h.evals++
	h.mu.Unlock()
	defer func() {
		h.mu.Lock()
		delete(h.active, c)
		if c.ticks > h.maxima["ticks (of 200 ms) of a case"] {
			h.maxima["ticks (of 200 ms) of a case"] = c.ticks
		}
		h.mu.Unlock()
	}()
	c.protect(func() { f(c) })
}

// protect turns a panic into a violation
func (c *Case) protect(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); !ok {
				c.ErrorKey("panic", "panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
}

// Bubble runs f in virtual time. A deadlock, or goroutines left blocked after f, are violations.
func (c *Case) Bubble(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			if !c.failed.Load() {
				c.ErrorKey("deadlock", "%v\n%s", r, bubbleStacks())
			}
		}
	}()
	synctest.Test(c.t, func(*testing.T) {
		var buf [200]byte
		var head, _, _ = strings.Cut(string(buf[:runtime.Stack(buf[:], false)]), "]")
		if k := strings.LastIndex(head, "bubble "); k >= 0 {
			var n, _ = strconv.ParseInt(head[k+len("bubble "):], 10, 64)
			c.bubble.Store(n)
		}
		defer c.bubble.Store(0)
		c.protect(f)
	})
}

func stacks() string {
	var buf = make([]byte, 1<<22)
	return string(buf[:runtime.Stack(buf, true)])
}

func bubbleStacks() string {
	var out []string
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "distclus/") && strings.Contains(strings.SplitN(g, "\n", 2)[0], "durable") {
			out = append(out, g)
		}
	}
	var s = strings.Join(out, "\n\n")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Tracef records a step of the case, written with a violation
func (c *Case) Tracef(format string, args ...interface{}) {
	c.traceMu.Lock()
	defer c.traceMu.Unlock()
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Errorf reports a violation and continues
func (c *Case) Errorf(format string, args ...interface{}) { c.ErrorKey("", format, args...) }

// ErrorKey is Errorf with an identification of what fails
func (c *Case) ErrorKey(key string, format string, args ...interface{}) {
	if c.failed.Swap(true) { // one violation per case
		return
	}
	c.traceMu.Lock()
	var trace = strings.Join(c.trace, "\n")
	c.traceMu.Unlock()
	if key == "" {
		key = c.Group
	}
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	var v = violation{c.h.id, c.Group, c.Index, c.h.seed, c.h.tier, key, fmt.Sprintf(format, args...), trace}
	c.h.viols = append(c.h.viols, v)
	fmt.Fprintf(os.Stderr, "FAIL %s %s:%d %s\n", v.Property, v.Group, v.Index, v.Message)
	if trace != "" {
		fmt.Fprintln(os.Stderr, trace)
	}
}

// Failf reports a violation and ends the case. Only from the goroutine of the case.
func (c *Case) Failf(format string, args ...interface{}) {
	c.Errorf(format, args...)
	panic(abort{})
}

// Check fails the case unless ok
func (c *Case) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Inconclusive records a problem of the check itself
func (h *H) Inconclusive(format string, args ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.errs) < 10 {
		h.errs = append(h.errs, fmt.Sprintf(format, args...))
	}
}

// Distinct tells that the case is non trivial and identified by the given signature
func (c *Case) Distinct(sig ...interface{}) {
	var a, _ = caseSeed(sig...)
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	c.h.distinct[a] = struct{}{}
}

// Count adds to a counter of observed events
func (c *Case) Count(name string, n int) {
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	c.h.counters[name] += int64(n)
}

// Eval adds evaluations: executions of the oracle inside this case, apart from the case itself
func (c *Case) Eval(n int) {
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	c.h.evals += int64(n)
}

// Max keeps a maximum
func (c *Case) Max(name string, n int64) {
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	if n > c.h.maxima[name] {
		c.h.maxima[name] = n
	}
}

// Seen counts distinct values
func (c *Case) Seen(set string, sig ...interface{}) {
	var a, _ = caseSeed(sig...)
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	if c.h.sets[set] == nil {
		c.h.sets[set] = map[uint64]struct{}{}
	}
	c.h.sets[set][a] = struct{}{}
}

// Sample keeps a few cases written out
func (c *Case) Sample(v interface{}) {
	c.h.mu.Lock()
	defer c.h.mu.Unlock()
	var n = 0
	for _, s := range c.h.samples {
		if m, ok := s.(map[string]interface{}); ok && m["group"] == c.Group {
			n++
		}
	}
	if n < 2 && len(c.h.samples) < 12 {
		c.h.samples = append(c.h.samples, map[string]interface{}{"group": c.Group, "index": c.Index, "case": fmt.Sprintf("%v", v)})
	}
}

// Require makes the check inconclusive if a counter of observed events is too low
func (h *H) Require(name string, min int64) {
	if h.onlyG != "" || h.draining.Load() {
		return
	}
	h.mu.Lock()
	var n = h.counters[name]
	if s, ok := h.sets[name]; ok {
		n = int64(len(s))
	}
	var failed = len(h.viols) > 0
	h.mu.Unlock()
	if n < min && !failed {
		h.Inconclusive("only %d %s observed, %d expected", n, name, min)
	}
}

// ---------- small helpers ----------

func (c *Case) intn(n int) int       { return c.Rng.IntN(n) }
func (c *Case) between(a, b int) int { return a + c.Rng.IntN(b-a+1) }

// rarely: between a and b with probability p, otherwise v
func (c *Case) rarely(v int, p float64, a, b int) int {
	if c.pick(p) {
		return c.between(a, b)
	}
	return v
}

// weight of an element in an average: positive, most often small
func (c *Case) weight() int {
	if c.pick(.15) {
		return int(math.Exp(c.Rng.Float64() * math.Log(1e6)))
	}
	return c.between(1, 5)
}
func (c *Case) flip() bool          { return c.Rng.IntN(2) == 0 }
func (c *Case) norm() float64       { return c.Rng.NormFloat64() }
func (c *Case) pick(p float64) bool { return c.Rng.Float64() < p }
func (c *Case) scale() float64      { return math.Pow(10, float64(c.between(-3, 3))) }

func near(a, b, rel float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= rel*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func sortedKeys(m map[int]int) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func sprintf(format string, args ...interface{}) string { return fmt.Sprintf(format, args...) }
