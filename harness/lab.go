package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Ctx collects what one check observed, and its verdict.
type Ctx struct {
	ID       string
	Seed     int64
	Thorough bool
	Rule     string
	Level    string
	Scratch  string

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	samples      []interface{}
	counters     map[string]int64
	viols        []Viol
	inconcl      []string
	assumptions  []string
	violKeys     map[string]int
	sampleLabels map[string]int
}

// Viol is one violation: Key identifies what failed (stable between runs), Msg explains it.
type Viol struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Detail interface{} `json:"detail,omitempty"`
}

// Result is what the child process hands to its supervisor.
type Result struct {
	Property     string                 `json:"property"`
	Level        string                 `json:"level"`
	Coverage     map[string]interface{} `json:"coverage"`
	Assumptions  []string               `json:"assumptions"`
	Violations   []Viol                 `json:"violations"`
	Inconclusive []string               `json:"inconclusive"`
	Complete     bool                   `json:"complete"`
}

func newCtx(id string, seed int64, thorough bool) *Ctx {
	return &Ctx{
		ID: id, Seed: seed, Thorough: thorough, Level: "exploration",
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, violKeys: map[string]int{},
		sampleLabels: map[string]int{},
	}
}

// Rand returns a PRNG determined by the run's seed, a label and a case number.
func (c *Ctx) Rand(label string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", c.Seed, label, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Case records one evaluated case; sig identifies it, nontrivial says whether it exercises the property.
func (c *Ctx) Case(sig string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if nontrivial {
		c.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a few written-out cases per label.
func (c *Ctx) Sample(label string, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleLabels[label] >= 2 || len(c.samples) > 24 {
		return
	}
	c.sampleLabels[label]++
	s := fmt.Sprintf(format, a...)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	c.samples = append(c.samples, label+": "+s)
}

// Count adds to a named event counter shown in the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// Require makes the run inconclusive if fewer than min events of a kind were observed.
func (c *Ctx) Require(name string, min int64) {
	if got := c.Counter(name); got < min {
		c.Inconclusive("observed only %d %q events, need %d", got, name, min)
	}
}

func (c *Ctx) Assume(s string) { c.mu.Lock(); c.assumptions = append(c.assumptions, s); c.mu.Unlock() }

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.inconcl) < 20 {
		c.inconcl = append(c.inconcl, fmt.Sprintf(format, a...))
	}
}

// Violate records a violation. At most three examples are kept per key.
func (c *Ctx) Violate(key string, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violKeys[key]++
	if c.violKeys[key] > 3 {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.viols = append(c.viols, Viol{Key: key, Msg: msg})
	fmt.Fprintf(os.Stderr, "violation %s [%s]: %s\n", c.ID, key, msg)
}

func (c *Ctx) Violated() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viols) > 0 }

// violatedBut tells whether there is a violation that is not a known finding.
func (c *Ctx) violatedBut(known map[string]bool) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.viols {
		if !known[v.Key] {
			return true
		}
	}
	return false
}

// Guard runs f; a panic raised by the code under test is a violation, one of the harness is re-raised.
func (c *Ctx) Guard(key, what string, f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if fn := sutFrame(st); fn != "" {
				c.Violate(key+":panic:"+fn, "%s: panic in the code under test: %v\n%s", what, r, st)
				panicked = true
				return
			}
			panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
		}
	}()
	f()
	return false
}

const sutPrefix = "gitlab.com/thorchain/tss/go-tss/"

// sutFrame returns the innermost go-tss function of a panic stack, or "" if the panic arose in the harness
// itself without any go-tss frame below the panic.
func sutFrame(stack string) string {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	rest := stack[i:]
	for _, l := range strings.Split(rest, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/harness.") {
			return "" // reached the harness first
		}
		if strings.HasPrefix(l, sutPrefix) {
			l = strings.TrimPrefix(l, sutPrefix)
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return ""
}

// Parallel runs f(0..n-1) on w workers.
func (c *Ctx) Parallel(n, w int, f func(i int)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Within runs f and reports whether it returned before the (generous) watchdog.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func (c *Ctx) result() Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
	}
	names := make([]string, 0)
	for k := range c.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	ev := map[string]int64{}
	for _, k := range names {
		ev[k] = c.counters[k]
	}
	cov["observed_events"] = ev
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	v := append([]Viol{}, c.viols...)
	return Result{Property: c.ID, Level: c.Level, Coverage: cov, Assumptions: c.assumptions, Violations: v, Inconclusive: c.inconcl}
}

func (c *Ctx) writeResult(path string, complete bool) {
	r := c.result()
	r.Complete = complete
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := ioutil.WriteFile(tmp, b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		panic(err)
	}
}

// ScratchDir makes a fresh directory inside the run's scratch area.
func (c *Ctx) ScratchDir(name string) string {
	d, err := ioutil.TempDir(c.Scratch, name)
	if err != nil {
		panic(err)
	}
	return d
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	e, _ := os.Executable()
	return filepath.Dir(filepath.Dir(e))
}
