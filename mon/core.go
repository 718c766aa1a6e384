package main

// Core of the monitor worker: a registry of checks, deterministic cases, coverage counting and
// verdicts. A check is a list of phases; a phase runs a fixed number of cases, and a case is
// determined by (seed, property, phase, index) alone, so that a violation can be replayed.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

type Check struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(ck *Check) { checks[ck.ID] = ck }

// maxViolations bounds how many violations one run records.
const maxViolations = 3

type Violation struct {
	Phase     string   `json:"phase"`
	Index     int      `json:"index"`
	Signature string   `json:"signature,omitempty"`
	Message   string   `json:"message"`
	Trace     []string `json:"trace,omitempty"`
}

type Ctx struct {
	Prop  string
	Tier  string
	Seed  uint64
	Quick bool

	replayPhase string // "" = all
	replayIndex int
	shard       int
	shards      int

	mu          sync.Mutex
	evaluations int
	distinct    map[uint64]struct{}
	counts      map[string]int
	sets        map[string]map[uint64]struct{}
	samples     []string
	violations  []Violation
	findings    map[string]string
	known       map[string]string // signature -> description
	progress    *os.File
}

// N gives the number of cases for a tier.
// scale multiplies the numbers of cases of a check, so that its quick tier takes about 10 s on an idle
// machine with eight cores.
var scale = map[string]int{
	"C02": 2, "C03": 3, "C04": 2, "C05": 3, "C06": 2, "C07": 6, "C08": 3, "C09": 12, "C10": 30, "C11": 30,
	"C12": 30, "C13": 10, "C14": 15, "C15": 10, "C19": 4, "C20": 12, "C21": 5, "C23": 6, "C24": 6, "C25": 6,
	"C26": 20, "C27": 10, "C28": 8, "C29": 10, "C30": 2, "C31": 15, "C32": 4, "C33": 2, "C35": 30,
}

// N is the number of cases of a phase in the tier that runs.
func (c *Ctx) N(quick, thorough int) int {
	n := thorough
	if c.Quick {
		n = quick
	}
	if f := scale[c.Prop]; f > 1 {
		n *= f
	}
	return n
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Case is one generated case.
type Case struct {
	*rand.Rand
	c     *Ctx
	phase string
	index int
	trace []string
	logMu sync.Mutex
	yes   bool     // the recording engine has everything
	share bool     // callers overwrite what they gave and got
	held  [][2]any // results kept by the caller
}

type caseAbort struct{}

// Logf adds a line to the case's trace, which is only shown with a violation.
func (t *Case) Logf(format string, args ...any) {
	t.logMu.Lock()
	defer t.logMu.Unlock()
	if len(t.trace) < 4000 {
		t.trace = append(t.trace, fmt.Sprintf(format, args...))
	}
}

// Failf reports a violation and ends the case.
func (t *Case) Failf(format string, args ...any) {
	t.FailSig("", format, args...)
}

// FailSig reports a violation with a signature by which it can be listed as a known finding.
func (t *Case) FailSig(sig, format string, args ...any) {
	t.report(sig, fmt.Sprintf(format, args...))
	panic(caseAbort{})
}

func (t *Case) report(sig, msg string) {
	c := t.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if sig != "" {
		if desc, ok := c.known[sig]; ok {
			c.findings[sig] = desc
			return
		}
	}
	if len(c.violations) < maxViolations {
		t.logMu.Lock()
		tr := append([]string(nil), t.trace...)
		t.logMu.Unlock()
		if len(tr) > 400 {
			tr = append(append(append([]string(nil), tr[:100]...), "..."), tr[len(tr)-300:]...)
		}
		c.violations = append(c.violations, Violation{
			Phase: t.phase, Index: t.index, Signature: sig, Message: msg, Trace: tr,
		})
	}
}

// Distinct records that the case (or a part of it) was non-trivial and what made it distinct.
func (t *Case) Distinct(key string) {
	h := hash64(t.phase + "\x00" + key)
	t.c.mu.Lock()
	t.c.distinct[h] = struct{}{}
	t.c.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (t *Case) Count(name string, n int) { t.c.Count(name, n) }

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += n
	c.mu.Unlock()
}

// Seen adds to a named set of distinct observed things (states, interleavings, ...).
func (t *Case) Seen(set, key string) {
	h := hash64(key)
	t.c.mu.Lock()
	m := t.c.sets[set]
	if m == nil {
		m = map[uint64]struct{}{}
		t.c.sets[set] = m
	}
	if len(m) < 2000000 {
		m[h] = struct{}{}
	}
	t.c.mu.Unlock()
}

func (t *Case) Sample(format string, args ...any) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	n := 0
	for _, s := range t.c.samples {
		if strings.HasPrefix(s, t.phase+":") {
			n++
		}
	}
	if n < 2 && len(t.c.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.c.samples = append(t.c.samples, t.phase+": "+s)
	}
}

// Phase runs n cases of a phase.
func (c *Ctx) Phase(name string, n int, fn func(t *Case)) {
	if c.replayPhase != "" && c.replayPhase != name {
		return
	}
	for i := 0; i < n; i++ {
		if c.replayPhase != "" && c.replayIndex >= 0 && i != c.replayIndex {
			continue
		}
		if i%c.shards != c.shard {
			continue
		}
		c.mu.Lock()
		full := len(c.violations) >= maxViolations
		c.mu.Unlock()
		if full {
			return
		}
		c.runCase(name, i, fn)
	}
}

func (c *Ctx) runCase(name string, i int, fn func(t *Case)) {
	t := &Case{
		Rand: rand.New(rand.NewPCG(c.Seed*1000003+uint64(i), hash64(c.Prop+"/"+name))),
		c:    c, phase: name, index: i,
	}
	if c.progress != nil {
		c.progress.WriteAt([]byte(fmt.Sprintf("%-200s\n", fmt.Sprintf("%s %d", name, i))), 0)
	}
	c.mu.Lock()
	c.evaluations++
	c.mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				return
			}
			t.report("", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
		}
	}()
	fn(t)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "runtime/") || strings.Contains(lines[i], "debug.Stack") {
			continue
		}
		out = append(out, lines[i])
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return strings.Join(out, "\n")
}

// Try runs fn and returns the value it panicked with, if it panicked. A harness abort passes.
func Try(fn func()) (pan any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			pan = r
		}
	}()
	fn()
	return nil
}

func isRuntimeError(p any) bool {
	_, ok := p.(runtime.Error)
	return ok
}

type result struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Rule        string         `json:"rule"`
	Counts      map[string]int `json:"counts"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Findings    []string       `json:"findings"`
}

func (c *Ctx) result(rule string) result {
	r := result{
		Property: c.Prop, Evaluations: c.evaluations, Rule: rule,
		Counts: c.counts, Samples: c.samples, Violations: c.violations,
	}
	for sig, d := range c.findings {
		r.Findings = append(r.Findings, sig+" "+d)
	}
	sort.Strings(r.Findings)
	return r
}

// writeHashes writes a set, so that the driver can join the sets of several workers.
func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, len(m)*8)
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}
