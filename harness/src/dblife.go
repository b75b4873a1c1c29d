//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// Creations and deletions of several sessions at the same time: the results
// must be those of the same calls made one at a time, in some order.

func init() {
	register(&Prop{
		ID:    "D15",
		Rule:  "several application instances, in goroutines and processes (some with delays injected into their system calls), create, delete, find and open the same names at the same time; the log of each name is searched for an order of its calls, compatible with their times, in which each has the result it would have alone (linearizability), and the folder afterwards is the last state of such an order; every third case races creations only and the winner opens, writes and commits at once: one creation succeeds and nothing of the winner is lost; case 0 deletes a database in the middle of another session's commit; non-trivial: calls of different sessions on a name overlapped and both creations and refusals occurred; distinct: order of calls and outcomes",
		Cases: func(t string) int { return map[string]int{"quick": 6000, "thorough": 150000}[t] },
		Run: func(c *Ctx) {
			if c.Index == 0 {
				deleteDuringCommit(c)
				return
			}
			if c.Index%3 == 1 {
				raceCreation(c)
				return
			}
			raceLife(c)
		},
		Hang: 120 * time.Second,
	})
	helpers["dblife"] = func(args []string) {
		b, err := os.ReadFile(args[0])
		must(err)
		var p lifePlan
		must(json.Unmarshal(b, &p))
		js, _ := json.Marshal(lifeLoop(&p, func() int64 { return time.Now().UnixNano() }))
		must(os.WriteFile(p.Out, js, 0666))
	}
}

type lifePlan struct {
	Dir     string
	Names   []string
	Seed    int64
	ID      int
	Ops     int
	StartAt int64
	Out     string
}

type lifeEvent struct {
	Session    int
	Name       string
	Op         string // new, delete, exists, open
	OK         bool   // succeeded (exists: the answer)
	Start, End int64
	Bad        string
}

// lifeLoop is one session: random calls on the names, as fast as it can
func lifeLoop(p *lifePlan, now func() int64) []lifeEvent {
	r := rand.New(rand.NewSource(p.Seed))
	app := files.NewApplication(0, p.Dir, dbDst, dbBck, 1000)
	out := []lifeEvent{}
	if p.StartAt > 0 {
		if d := p.StartAt - time.Now().UnixNano(); d > 0 {
			time.Sleep(time.Duration(d))
		}
	}
	for i := 0; i < p.Ops; i++ {
		e := lifeEvent{Session: p.ID, Name: p.Names[r.Intn(len(p.Names))]}
		switch r.Intn(8) {
		case 0, 1, 2:
			e.Op = "new"
		case 3, 4:
			e.Op = "delete"
		case 5:
			e.Op = "exists"
		default:
			e.Op = "open"
		}
		pan, msg := Protect(func() {
			e.Start = now()
			switch e.Op {
			case "new":
				e.OK = app.New(e.Name) == nil
			case "delete":
				e.OK = app.Delete(e.Name) == nil
			case "exists":
				ok, err := app.Exists(e.Name)
				e.OK = ok
				if err != nil {
					e.Bad = err.Error()
				}
			case "open":
				id, err := app.Open(e.Name)
				e.OK = err == nil
				e.End = now()
				if err == nil {
					if _, err := app.Commits(*id); err == nil {
						e.Bad = "a database without any commit shows commits"
					}
					if err := app.Close(*id); err != nil {
						e.Bad = "close: " + err.Error()
					}
				}
				return
			}
			e.End = now()
		})
		if pan {
			e.Bad = msg
			if e.End == 0 {
				e.End = now()
			}
		}
		out = append(out, e)
	}
	return out
}

// linearize searches an order of the calls, compatible with their times, in
// which each has its result, and that ends in the final state. It returns the
// order, or nil.
func linearize(evs []lifeEvent, first, final bool) []int {
	n := len(evs)
	sort.Slice(evs, func(i, j int) bool { return evs[i].Start < evs[j].Start })
	type key struct {
		done  [4]uint64
		state bool
	}
	seen := map[key]bool{}
	order := []int{}
	var rec func(k key, left int) bool
	rec = func(k key, left int) bool {
		if left == 0 {
			return k.state == final
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		// a call can be next if no other that is left ended before it began
		minEnd := int64(1<<63 - 1)
		for i := 0; i < n; i++ {
			if k.done[i/64]&(1<<(i%64)) == 0 && evs[i].End < minEnd {
				minEnd = evs[i].End
			}
		}
		for i := 0; i < n; i++ {
			if k.done[i/64]&(1<<(i%64)) != 0 {
				continue
			}
			if evs[i].Start > minEnd {
				break
			}
			st, ok := k.state, false
			switch evs[i].Op {
			case "new":
				ok = evs[i].OK != st
				st = st || evs[i].OK
			case "delete":
				ok = evs[i].OK == st
				st = st && !evs[i].OK
			default:
				ok = evs[i].OK == st
			}
			if !ok {
				continue
			}
			nk := k
			nk.state = st
			nk.done[i/64] |= 1 << (i % 64)
			order = append(order, i)
			if rec(nk, left-1) {
				return true
			}
			order = order[:len(order)-1]
		}
		return false
	}
	if !rec(key{state: first}, n) {
		return nil
	}
	if n == 0 {
		return []int{}
	}
	return order
}

func raceLife(c *Ctx) {
	r := c.R
	root := c.Scratch()
	dir := filepath.Join(root, "db")
	if r.Intn(3) != 0 { // otherwise the first creation makes the folder
		must(os.MkdirAll(dir, 0777))
	}
	names := []string{"one", "two"}[:1+r.Intn(2)]
	sessions := 2 + r.Intn(5)
	ops := 3 + r.Intn(180/sessions/2)
	procs := 0
	if c.Index%40 == 2 {
		procs = 2 + r.Intn(3)
		ops = 3 + r.Intn(20)
	}
	evs := make([][]lifeEvent, sessions)
	fails := make([]string, sessions)
	var ctr atomic.Int64
	now := func() int64 { return ctr.Add(1) }
	start := int64(0)
	if procs > 0 {
		now = func() int64 { return time.Now().UnixNano() }
		start = time.Now().Add(40 * time.Millisecond).UnixNano()
	}
	self, _ := os.Executable()
	var wg sync.WaitGroup
	var ready atomic.Int64
	for i := 0; i < sessions; i++ {
		p := &lifePlan{Dir: dir, Names: names, Seed: r.Int63(), ID: i, Ops: ops, StartAt: start, Out: filepath.Join(root, fmt.Sprintf("out%d", i))}
		var cmd *exec.Cmd
		if i < procs {
			pf := filepath.Join(root, fmt.Sprintf("plan%d", i))
			js, _ := json.Marshal(p)
			must(os.WriteFile(pf, js, 0666))
			cmd = exec.Command(self, "dblife", pf)
			if r.Intn(3) != 0 {
				call := []string{"newfstatat", "openat", "unlinkat", "close"}[r.Intn(4)]
				cmd = exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:%s=%d:when=%d+%d", call, []string{"delay_enter", "delay_exit"}[r.Intn(2)], 100+r.Intn(2000), 3+r.Intn(6), 1+r.Intn(3)), self, "dblife", pf)
				c.Count("delayed_processes", 1)
			}
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if cmd == nil {
				ready.Add(1)
				for procs == 0 && ready.Load() < int64(sessions) {
					runtime.Gosched()
				}
				evs[i] = lifeLoop(p, now)
				return
			}
			o, err := cmd.CombinedOutput()
			if err != nil {
				fails[i] = fmt.Sprintf("%v: %s", err, tailStr(string(o), 1500))
			}
			b, _ := os.ReadFile(p.Out)
			json.Unmarshal(b, &evs[i])
		}(i)
	}
	wg.Wait()
	sig := ""
	overlaps, created, refused := 0, 0, 0
	for _, name := range names {
		l := []lifeEvent{}
		for i := range evs {
			if fails[i] != "" {
				c.Violate("life-crash", "session %d died: %s", i, fails[i])
			}
			for _, e := range evs[i] {
				if e.Bad != "" {
					c.Violate("life-bad", "session %d, %s of %s: %s", i, e.Op, e.Name, e.Bad)
				}
				if e.Name == name {
					l = append(l, e)
				}
			}
		}
		if len(l) > 250 {
			l = l[:250]
			panic("harness: too many events")
		}
		for i := range l {
			for j := range l {
				if i < j && l[i].Session != l[j].Session && l[i].Start < l[j].End && l[j].Start < l[i].End {
					overlaps++
				}
			}
			if l[i].Op == "new" {
				if l[i].OK {
					created++
				} else {
					refused++
				}
			}
		}
		info, err := os.Stat(filepath.Join(dir, name))
		final := err == nil
		if final && info.Size() != 0 {
			c.Violate("life-content", "a database nobody committed to contains %d bytes", info.Size())
		}
		order := linearize(l, false, final)
		if order == nil {
			sort.Slice(l, func(i, j int) bool { return l[i].Start < l[j].Start })
			for _, e := range l {
				c.Trace("%d..%d session %d: %s %v", e.Start, e.End, e.Session, e.Op, e.OK)
			}
			c.Violate("life-order", "no order of the %d calls on %s explains their results (at the end it exists: %v)", len(l), name, final)
		}
		for _, i := range order {
			sig += fmt.Sprintf("%d%s%v ", l[i].Session, l[i].Op[:1], l[i].OK)
		}
	}
	if es, err := os.ReadDir(dir); err == nil {
		for _, e := range es {
			if e.Name() != "one" && e.Name() != "two" {
				c.Violate("life-file", "the file %s was left in the folder", e.Name())
			}
		}
	}
	c.Count("overlapping_calls", overlaps)
	c.Count("creations", created)
	c.Count("creations_refused", refused)
	if overlaps > 0 && created > 0 && refused > 0 {
		c.Distinct(sig)
		c.Sample("order found (session, first letter of the call, result): %s", sig)
	}
}

func raceCreation(c *Ctx) {
	r := c.R
	dir := filepath.Join(c.Scratch(), "db")
	if r.Intn(3) != 0 {
		must(os.MkdirAll(dir, 0777))
	}
	mv := byte(r.Intn(256))
	rounds := 1 + r.Intn(4)
	st := &auditStats{}
	sig := ""
	for k := 0; k < rounds; k++ {
		name := fmt.Sprintf("race%d", k)
		n := 2 + r.Intn(6)
		type out struct {
			won bool
			m   *mDB
			bad string
			saw int
		}
		outs := make([]out, n)
		seeds := make([]int64, n)
		spin := make([]int, n)
		for i := range seeds {
			seeds[i] = r.Int63()
			if r.Intn(2) == 0 {
				spin[i] = r.Intn(3000)
			}
		}
		readers := 0
		if r.Intn(2) == 0 && n > 2 {
			readers = 1
		}
		var ready atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				o := &outs[i]
				rr := rand.New(rand.NewSource(seeds[i]))
				app := files.NewApplication(mv, dir, dbDst, dbBck, chunkSizes[8+rr.Intn(len(chunkSizes)-8)])
				ready.Add(1)
				for ready.Load() < int64(n) {
					runtime.Gosched()
				}
				for x := 0; x < spin[i]; x++ {
					ready.Load()
				}
				if i < readers { // looks at what there is, all the time
					for x := 0; x < 40; x++ {
						id, err := app.Open(name)
						if err != nil {
							continue
						}
						b, seen := selfConsistent(app, *id)
						if b != "" {
							o.bad = "a reader: " + b
						}
						if seen < o.saw {
							o.bad = fmt.Sprintf("a reader that saw %d contents then saw %d", o.saw, seen)
						}
						o.saw = seen
						app.Close(*id)
					}
					return
				}
				if app.New(name) != nil {
					return
				}
				o.won = true
				o.m, o.bad = commitSome(app, name, rr)
			}(i)
		}
		wg.Wait()
		won := -1
		for i := range outs {
			if outs[i].bad != "" {
				c.Violate("create-work", "session %d of %d that create %s at the same time: %s", i, n, name, outs[i].bad)
			}
			if !outs[i].won {
				continue
			}
			if won >= 0 {
				c.Violate("create-twice", "sessions %d and %d of %d both created %s", won, i, n, name)
			}
			won = i
		}
		if won < 0 {
			c.Violate("create-none", "none of %d sessions could create %s", n, name)
		}
		if e := auditFresh(dir, name, 1000, mv, outs[won].m, r, st); e != nil {
			c.Violate("create-"+e.kind, "session %d of %d created %s and committed, then: %s", won, n, name, e.detail)
		}
		c.Count("creation_races", 1)
		c.Count("creations_refused", n-readers-1)
		sig += fmt.Sprintf("%d/%d/%d ", won, n, len(outs[won].m.commits))
	}
	c.Count("reads_checked", st.reads)
	c.Distinct(fmt.Sprintf("create %s %x", sig, r.Int63()&0xff))
}

// commitSome opens the database and commits a few contents
func commitSome(app applications.Application, name string, r *rand.Rand) (*mDB, string) {
	m := &mDB{}
	id, err := app.Open(name)
	if err != nil {
		return m, "its creator cannot open it: " + err.Error()
	}
	defer app.Close(*id)
	for k := 1 + r.Intn(2); k > 0; k-- {
		mc := &mCommit{notBefore: time.Now().UTC()}
		for j := 1 + r.Intn(3); j > 0; j-- {
			d := make([]byte, 1+r.Intn(300))
			r.Read(d)
			w := mWrite{hashOf(d), d, uint(r.Intn(2))}
			if w.hash.String() == "" {
				continue
			}
			if err := app.Write(*id, w.hash, d, w.kind); err != nil {
				return m, "write: " + err.Error()
			}
			mc.writes = append(mc.writes, w)
		}
		if err := app.Commit(*id); err != nil {
			return m, "its creator cannot commit to it: " + err.Error()
		}
		mc.notAfter = time.Now().UTC()
		m.commits = append(m.commits, mc)
	}
	return m, ""
}

// deleteDuringCommit deletes a database while the commit of another session
// waits before it replaces the file.
func deleteDuringCommit(c *Ctx) {
	r := c.R
	root := c.Scratch()
	dir := filepath.Join(root, "db")
	must(os.MkdirAll(dir, 0777))
	app := files.NewApplication(0, dir, dbDst, dbBck, 1000)
	if err := app.New("victim"); err != nil {
		c.Violate("new", "%v", err)
	}
	d := genBytes(r, 100)
	plan := &commitPlan{Dir: dir, Name: "victim", Chunk: 1000, Writes: []planWrite{{hashOf(d).Bytes(), d, 0}}, FSize: -1, Result: filepath.Join(root, "result")}
	pf := filepath.Join(root, "plan")
	js, _ := json.Marshal(plan)
	must(os.WriteFile(pf, js, 0666))
	self, _ := os.Executable()
	calls := "rename,renameat,renameat2"
	cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace="+calls, "-e", "inject="+calls+":delay_enter=2000000", self, "dbcommit", pf)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	must(cmd.Start())
	// the destination is complete and closed once the backup is there
	bck := filepath.Join(dir, "victim."+dbBck)
	for i := 0; i < 1000; i++ {
		if _, err := os.Stat(bck); err == nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	derr := app.Delete("victim")
	gone, _ := app.Exists("victim")
	err := cmd.Wait()
	var res commitResult
	b, _ := os.ReadFile(plan.Result)
	json.Unmarshal([]byte(strings.TrimSpace(string(b))), &res)
	c.Trace("delete: %v; exists right after: %v; commit: %s %s %v", derr, gone, res.Stage, res.Err, err)
	ok, _ := app.Exists("victim")
	if derr == nil && !gone && ok {
		c.Violate("delete-during-commit", "a database deleted while another session commits to it exists again afterwards (the commit ended as: %s %s)", res.Stage, res.Err)
	}
	if derr != nil && !ok {
		c.Violate("delete-failed-gone", "a deletion that was refused removed the database")
	}
	c.Count("deletions_during_a_commit", 1)
	c.Distinct("delete during commit")
}
