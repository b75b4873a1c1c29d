//go:build go1.22

// Package main is the runtime monitoring harness. It is compiled into the
// module under /repo through a build overlay, runs the real code under
// generated workloads and decides each property with oracles that observe
// those executions.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID      string
	Level   string // evidence level
	Rule    string // how cases are made and what is non-trivial
	Cases   func(tier string) int
	Run     func(c *Ctx)
	Hang    time.Duration // a case running longer than this is a violation
	Workers int           // parallel workers (0: 8)
	MemMB   int           // address space limit of a worker, not with -race (0: none)
	Assume  []string
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if p.Hang == 0 {
		p.Hang = 120 * time.Second
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

// Violation is what an oracle reports.
type Violation struct {
	Prop   string `json:"property"`
	Key    string `json:"key"` // what fails: stable signature
	Case   int    `json:"case"`
	Seed   int64  `json:"seed"`
	Tier   string `json:"tier"`
	Detail string `json:"detail"`
}

// Ctx is what one case of one property gets.
type Ctx struct {
	P       *Prop
	Tier    string
	Seed    int64
	Index   int
	R       *rand.Rand
	w       *worker
	trace   []string
	failed  bool
	scratch string
}

type stopCase struct{}

type worker struct {
	prop     *Prop
	tier     string
	seed     int64
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viol     []Violation
	dir      string
	cases    int64
}

// Count adds to a monitor counter.
func (c *Ctx) Count(name string, n int) { c.w.counters[name] += int64(n) }

// Distinct records a distinct non-trivial case signature.
func (c *Ctx) Distinct(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	c.w.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps a written-out case for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.w.samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.w.samples = append(c.w.samples, s)
	}
}

// Trace logs a step of the case, shown with a violation.
func (c *Ctx) Trace(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.trace = append(c.trace, s)
	if len(c.trace) > 400 {
		c.trace = c.trace[len(c.trace)-400:]
	}
}

// Violate reports a violation and ends the case.
func (c *Ctx) Violate(key string, format string, a ...interface{}) {
	c.report(key, fmt.Sprintf(format, a...))
	panic(stopCase{})
}

func (c *Ctx) report(key, detail string) {
	c.failed = true
	full := detail
	if len(c.trace) > 0 {
		full += "\n--- trace ---\n" + strings.Join(c.trace, "\n")
	}
	if len(full) > 20000 {
		full = full[:20000] + "\n[cut]"
	}
	if len(c.w.viol) < 20 {
		c.w.viol = append(c.w.viol, Violation{Prop: c.P.ID, Key: key, Case: c.Index, Seed: c.Seed, Tier: c.Tier, Detail: full})
	}
}

// Scratch returns a fresh directory for the case, removed afterwards.
func (c *Ctx) Scratch() string {
	if c.scratch == "" {
		c.scratch = filepath.Join(c.w.dir, fmt.Sprintf("case-%d", c.Index))
		if err := os.MkdirAll(c.scratch, 0777); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	return c.scratch
}

// Protect runs f and reports whether it panicked.
func Protect(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			panicked = true
			msg = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "zz_verif") || strings.Contains(l, "/runtime/") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// panicSite gives the first line of repository code on a panic's stack.
func panicSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "rodkina/") && strings.HasPrefix(l, "github.com") {
			if i := strings.LastIndex(l, "("); i > 0 {
				return l[strings.LastIndex(l[:i], "/")+1 : i]
			}
			return l
		}
	}
	return "?"
}

func caseSeed(prop string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return int64(h.Sum64())
}

func (w *worker) runCase(idx int) {
	c := &Ctx{P: w.prop, Tier: w.tier, Seed: w.seed, Index: idx, w: w,
		R: rand.New(rand.NewSource(caseSeed(w.prop.ID, w.seed, idx)))}
	defer func() {
		if c.scratch != "" {
			os.RemoveAll(c.scratch)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := trimStack(string(debug.Stack()))
			c.report("panic:"+panicSite(st), fmt.Sprintf("unexpected panic: %v\n%s", r, st))
		}
	}()
	w.cases++
	// what holds does not depend on where the machine is
	time.Local = zones[idx%len(zones)]
	w.prop.Run(c)
}

var zones = []*time.Location{time.UTC, time.FixedZone("EST", -5*3600), time.FixedZone("", 20700), time.UTC, time.FixedZone("LINT", 14*3600)}

type workerResult struct {
	Counters map[string]int64 `json:"counters"`
	Samples  []string         `json:"samples"`
	Viol     []Violation      `json:"violations"`
	Cases    int64            `json:"cases"`
}

// workerMain runs the shard of cases [from, to) with index % of == shard.
func workerMain(prop *Prop, tier string, seed int64, shard, of, from, to int, dir string) {
	w := &worker{prop: prop, tier: tier, seed: seed, counters: map[string]int64{}, distinct: map[uint64]struct{}{}, dir: dir}
	st, err := os.OpenFile(filepath.Join(dir, "status"), os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		panic(err)
	}
	buf := make([]byte, 16)
	budget := time.Duration(0)
	if tier == "thorough" {
		if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
			var n int
			fmt.Sscan(s, &n)
			budget = time.Duration(n) * time.Second
		}
	}
	start := time.Now()
	for i := from; i < to; i++ {
		if i%of != shard {
			continue
		}
		if budget > 0 && time.Since(start) > budget {
			break
		}
		binary.LittleEndian.PutUint64(buf, uint64(i))
		binary.LittleEndian.PutUint64(buf[8:], uint64(time.Now().UnixNano()))
		st.WriteAt(buf, 0)
		w.runCase(i)
		if len(w.viol) >= 5 {
			break
		}
	}
	w.finish()
}

func (w *worker) finish() {
	f, err := os.Create(filepath.Join(w.dir, "distinct"))
	if err != nil {
		panic(err)
	}
	keys := make([]uint64, 0, len(w.distinct))
	for k := range w.distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	b := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(b[8*i:], k)
	}
	f.Write(b)
	f.Close()
	js, _ := json.Marshal(workerResult{w.counters, w.samples, w.viol, w.cases})
	tmp := filepath.Join(w.dir, "result.tmp")
	os.WriteFile(tmp, js, 0666)
	os.Rename(tmp, filepath.Join(w.dir, "result"))
}
