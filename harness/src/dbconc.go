//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

func init() {
	register(&Prop{
		ID:    "D08",
		Rule:  "even cases: several application instances open, write and commit on one database in random sequential interleavings, against a model that knows which views are outdated; odd cases: processes and goroutines do the same truly in parallel, some with delays injected into their system calls, and the logs of all sessions are checked offline against the final database (exactly the successful commits, one chain, real-time order, all content); non-trivial: at least two sessions committed successfully and at least one commit was refused; distinct: interleaving (sequential) or order of outcomes (parallel)",
		Cases: func(t string) int { return map[string]int{"quick": 800, "thorough": 20000}[t] },
		Run: func(c *Ctx) {
			if c.Index%10 == 9 {
				runParallel(c)
			} else {
				runInterleaved(c)
			}
		},
		Hang: 300 * time.Second,
	})
	helpers["dbsession"] = dbSessionHelper
}

type sess struct {
	app   applications.Application
	id    uint
	open  bool
	base  int  // commits known when opened (or after its own last commit)
	of    *mDB // the database it was opened on
	pend  []mWrite
	chunk uint
}

func runInterleaved(c *Ctx) {
	r := c.R
	dir := c.Scratch()
	mv := byte(r.Intn(256))
	n := 2 + r.Intn(3)
	ss := []*sess{}
	for i := 0; i < n; i++ {
		ch := chunkSizes[4+r.Intn(len(chunkSizes)-4)]
		ss = append(ss, &sess{app: files.NewApplication(mv, dir, dbDst, dbBck, ch), chunk: ch})
	}
	name := "shared"
	if err := ss[0].app.New(name); err != nil {
		c.Violate("new", "%v", err)
	}
	m := &mDB{}
	st := &auditStats{}
	sig := strings.Builder{}
	okCommits, refused := 0, 0
	snapshot := func(s *sess) *mDB { return &mDB{commits: s.of.commits[:s.base]} }
	// twin puts a database of the same size in the place of this one
	twin := func() {
		app := files.NewApplication(mv, dir, dbDst, dbBck, 1000)
		c.Trace("another session deletes the database and makes one of the same size")
		must(app.Delete(name))
		must(app.New(name))
		p, err := app.Open(name)
		must(err)
		t := &mDB{}
		for _, cm := range m.commits {
			t0 := time.Now().UTC()
			list := []mWrite{}
			for _, w := range cm.writes {
				d := make([]byte, len(w.data))
				r.Read(d)
				x := mWrite{hashOf(append([]byte(fmt.Sprint(r.Int63())), d...)), d, w.kind}
				must(app.Write(*p, x.hash, d, x.kind))
				list = append(list, x)
			}
			must(app.Commit(*p))
			t.commits = append(t.commits, &mCommit{writes: list, notBefore: t0, notAfter: time.Now().UTC()})
		}
		must(app.Close(*p))
		m = t
		sig.WriteString("t")
		c.Count("databases_replaced_by_one_of_the_same_size", 1)
	}
	auditFinal := func() {
		if e := auditFresh(dir, name, ss[r.Intn(n)].chunk, mv, m, r, st); e != nil {
			c.Violate("conc-"+e.kind, "%s", e.detail)
		}
	}
	for step := 0; step < 12+r.Intn(30); step++ {
		i := r.Intn(n)
		s := ss[i]
		if len(m.commits) > 0 && r.Intn(30) == 0 {
			twin()
		}
		if !s.open {
			c.Trace("session %d opens", i)
			p, err := s.app.Open(name)
			if err != nil {
				c.Violate("conc-open", "session %d cannot open the database: %v", i, err)
			}
			s.id, s.open, s.base, s.pend, s.of = *p, true, len(m.commits), nil, m
			sig.WriteString(fmt.Sprintf("o%d", i))
		} else {
			switch r.Intn(10) {
			case 0, 1, 2, 3:
				d := genBytes(r, genSize(r, s.chunk, 2000))
				w := mWrite{hashOf(append([]byte(fmt.Sprint(r.Int63())), d...)), d, uint(r.Intn(3))}
				c.Trace("session %d writes %s", i, short(d))
				if err := s.app.Write(s.id, w.hash, d, w.kind); err != nil {
					c.Violate("conc-write", "%v", err)
				}
				s.pend = append(s.pend, w)
				sig.WriteString(fmt.Sprintf("w%d", i))
			case 4, 5, 6, 7:
				if len(s.pend) == 0 {
					continue
				}
				before := fileSum(filepath.Join(dir, name))
				stale := s.of != m || s.base != len(m.commits)
				c.Trace("session %d commits %d writes (view has %d of %d commits)", i, len(s.pend), s.base, len(m.commits))
				t0 := time.Now().UTC()
				err := s.app.Commit(s.id)
				if stale {
					if err == nil {
						c.Violate("lost-update", "session %d, whose view has %d of %d commits, committed successfully", i, s.base, len(m.commits))
					}
					if fileSum(filepath.Join(dir, name)) != before {
						c.Violate("conc-refused", "a refused commit changed the database")
					}
					refused++
					sig.WriteString(fmt.Sprintf("x%d", i))
				} else {
					if err != nil {
						c.Violate("conc-commit", "session %d, with an up to date view and nobody else committing, cannot commit: %v", i, err)
					}
					m.commits = append(m.commits, &mCommit{writes: s.pend, notBefore: t0, notAfter: time.Now().UTC()})
					s.base, s.pend = len(m.commits), nil
					okCommits++
					sig.WriteString(fmt.Sprintf("c%d", i))
				}
				auditFinal()
			case 8:
				c.Trace("session %d closes", i)
				if err := s.app.Close(s.id); err != nil {
					c.Violate("conc-close", "%v", err)
				}
				s.open = false
				sig.WriteString(fmt.Sprintf("k%d", i))
			case 9:
				if e := auditDB(s.app, s.id, snapshot(s), s.pend, mv, r, st); e != nil {
					c.Violate("conc-view", "session %d (view of %d of %d commits): %s", i, s.base, len(m.commits), e.detail)
				}
			}
		}
	}
	auditFinal()
	for _, s := range ss {
		if s.open {
			s.app.Close(s.id)
		}
	}
	c.Count("sequential_commits", okCommits)
	c.Count("sequential_refused", refused)
	c.Count("reads_checked", st.reads)
	if okCommits >= 2 && refused >= 1 {
		c.Distinct(sig.String())
		c.Sample("sequential interleaving (session after letter): %s", sig.String())
	}
}

type sessPlan struct {
	Dir, Name string
	Chunk     uint
	MV        byte
	Seed      int64
	ID        int
	Rounds    int
	Out       string
	StartAt   int64 // unix nano: all sessions start together
	MaxSleep  int   // microseconds
	Batches   bool
}

type sessEvent struct {
	Session, Round int
	Start, End     int64
	OK             bool
	Err            string
	Hashes         [][]byte
	Datas          [][]byte
	Kinds          []uint
	Bad            string // an inconsistency seen by the session itself
	Seen           int
}

// sessionLoop is one session's work: open, look, write, commit, close.
func sessionLoop(p *sessPlan) []sessEvent {
	r := rand.New(rand.NewSource(p.Seed))
	out := []sessEvent{}
	app := files.NewApplication(p.MV, p.Dir, dbDst, dbBck, p.Chunk)
	if d := p.StartAt - time.Now().UnixNano(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	nap := func() {
		if p.MaxSleep > 0 {
			time.Sleep(time.Duration(r.Intn(p.MaxSleep)) * time.Microsecond)
		}
	}
	for k := 0; k < p.Rounds; k++ {
		ev := sessEvent{Session: p.ID, Round: k}
		func() {
			if ok, err := app.Exists(p.Name); err != nil || !ok {
				ev.Bad = fmt.Sprintf("the database does not exist (%v)", err)
			}
			id, err := app.Open(p.Name)
			if err != nil {
				ev.Err = "open: " + err.Error()
				return
			}
			defer app.Close(*id)
			if b, n := selfConsistent(app, *id); b != "" {
				ev.Bad = b
			} else {
				ev.Seen = n
			}
			nap()
			commits := 1
			if p.Batches {
				commits += r.Intn(2)
			}
			for q := 0; q < commits; q++ {
				e2 := sessEvent{Session: p.ID, Round: k}
				for j := 1 + r.Intn(3); j > 0; j-- {
					d := make([]byte, 1+r.Intn(900))
					r.Read(d)
					d = append(d, []byte(fmt.Sprintf("%d/%d/%d/%d", p.ID, k, q, j))...)
					h := hashOf(d)
					kind := uint(r.Intn(2))
					if err := app.Write(*id, h, d, kind); err != nil {
						e2.Bad = "write: " + err.Error()
					}
					e2.Hashes = append(e2.Hashes, h.Bytes())
					e2.Datas = append(e2.Datas, d)
					e2.Kinds = append(e2.Kinds, kind)
				}
				nap()
				e2.Start = time.Now().UnixNano()
				err = app.Commit(*id)
				e2.End = time.Now().UnixNano()
				if err != nil {
					e2.Err = err.Error()
					out = append(out, e2)
					break
				}
				e2.OK = true
				if b, _ := selfConsistent(app, *id); b != "" {
					e2.Bad = b
				}
				out = append(out, e2)
			}
		}()
		if ev.Bad != "" || ev.Err != "" {
			out = append(out, ev)
		}
		nap()
	}
	return out
}

// selfConsistent reads everything a session shows: content is its own checksum.
func selfConsistent(app applications.Application, id uint) (string, int) {
	commits, err := app.Commits(id)
	if err != nil {
		return "", 0
	}
	n := 0
	prev := ""
	for i, cm := range commits.List() {
		if i > 0 && (!cm.HasParent() || cm.Parent().String() != prev) {
			return fmt.Sprintf("commit %d does not follow commit %d", i, i-1), n
		}
		prev = cm.Hash().String()
	}
	for kind := uint(0); kind < 2; kind++ {
		keys, err := app.ContentKeysByKind(id, kind)
		if err != nil {
			continue
		}
		for _, k := range keys.List() {
			d, err := app.Read(id, k.Content())
			if err != nil {
				return fmt.Sprintf("listed content is not readable: %v", err), n
			}
			if !bytes.Equal(hashOf(d).Bytes(), k.Hash().Bytes()) {
				return fmt.Sprintf("listed content reads %s, which is not what was committed under its hash", short(d)), n
			}
			n++
		}
	}
	return "", n
}

func dbSessionHelper(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	var p sessPlan
	if err := json.Unmarshal(b, &p); err != nil {
		panic(err)
	}
	evs := sessionLoop(&p)
	js, _ := json.Marshal(evs)
	if err := os.WriteFile(p.Out, js, 0666); err != nil {
		panic(err)
	}
}

func runParallel(c *Ctx) {
	r := c.R
	root := c.Scratch()
	dir := filepath.Join(root, "db")
	os.MkdirAll(dir, 0777)
	mv := byte(r.Intn(256))
	name := "shared"
	app := files.NewApplication(mv, dir, dbDst, dbBck, 1000)
	if err := app.New(name); err != nil {
		c.Violate("new", "%v", err)
	}
	procs := 2 + r.Intn(4)
	gor := r.Intn(3)
	rounds := 3 + r.Intn(6)
	start := time.Now().Add(60 * time.Millisecond).UnixNano()
	self, _ := os.Executable()
	type res struct {
		evs []sessEvent
		err string
	}
	results := make([]res, procs+gor)
	var wg sync.WaitGroup
	mk := func(i int) *sessPlan {
		p := &sessPlan{Dir: dir, Name: name, Chunk: chunkSizes[8+r.Intn(len(chunkSizes)-8)], MV: mv, Seed: r.Int63(), ID: i, Rounds: rounds,
			Out: filepath.Join(root, fmt.Sprintf("out%d", i)), StartAt: start, Batches: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			p.MaxSleep = 1 + r.Intn(3000)
		}
		return p
	}
	delays := 0
	for i := 0; i < procs; i++ {
		p := mk(i)
		pf := filepath.Join(root, fmt.Sprintf("plan%d", i))
		js, _ := json.Marshal(p)
		os.WriteFile(pf, js, 0666)
		var cmd *exec.Cmd
		if r.Intn(2) == 0 {
			calls := []string{"renameat", "openat", "flock", "unlinkat", "write", "pread64", "newfstatat", "copy_file_range", "close"}
			call := calls[r.Intn(len(calls))]
			pos := []string{"delay_enter", "delay_exit"}[r.Intn(2)]
			us := 200 + r.Intn(4000)
			cmd = exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:%s=%d:when=%d+%d", call, pos, us, 5+r.Intn(5), 1+r.Intn(3)), self, "dbsession", pf)
			delays++
		} else {
			cmd = exec.Command(self, "dbsession", pf)
		}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o, err := cmd.CombinedOutput()
			if err != nil {
				results[i].err = fmt.Sprintf("%v: %s", err, tailStr(string(o), 1500))
			}
			b, _ := os.ReadFile(p.Out)
			json.Unmarshal(b, &results[i].evs)
		}(i)
	}
	for i := procs; i < procs+gor; i++ {
		p := mk(i)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i].evs = sessionLoop(p)
		}(i)
	}
	wg.Wait()

	all := map[string]*sessEvent{}
	oks, fails, opens := 0, 0, 0
	order := []*sessEvent{}
	for i := range results {
		if results[i].err != "" {
			c.Violate("conc-crash", "session %d died: %s", i, results[i].err)
		}
		for k := range results[i].evs {
			e := &results[i].evs[k]
			if e.Bad != "" {
				c.Violate("conc-inconsistent", "session %d, round %d: %s", e.Session, e.Round, e.Bad)
			}
			if len(e.Hashes) == 0 {
				if e.Err != "" {
					opens++
				}
				continue
			}
			if e.OK {
				oks++
				all[string(e.Hashes[0])] = e
			} else {
				fails++
			}
			order = append(order, e)
		}
	}
	c.Count("parallel_commits", oks)
	c.Count("parallel_refused", fails)
	c.Count("parallel_open_errors", opens)
	c.Count("delayed_processes", delays)
	if oks == 0 {
		c.Violate("conc-progress", "none of %d commits by %d sessions succeeded", fails, procs+gor)
	}
	// offline: reconstruct the model from the database's own order
	a2 := files.NewApplication(mv, dir, dbDst, dbBck, 4096)
	id, err := a2.Open(name)
	if err != nil {
		c.Violate("conc-open", "the database cannot be opened afterwards: %v", err)
	}
	commits, err := a2.Commits(*id)
	if err != nil {
		c.Violate("conc-lost", "%d commits succeeded, the database has none: %v", oks, err)
	}
	m := &mDB{}
	seen := map[*sessEvent]bool{}
	chain := []*sessEvent{}
	for i, cm := range commits.List() {
		compact, err := hashtrees.NewAdapter().ToCompact(cm.Values())
		if err != nil {
			c.Violate("conc-values", "%v", err)
		}
		first := compact.Leaves().Leaves()[0].Head().Bytes()
		e := all[string(first)]
		if e == nil {
			c.Violate("conc-phantom", "commit %d of the database was never reported successful", i)
		}
		if seen[e] {
			c.Violate("conc-twice", "a commit of session %d is there twice", e.Session)
		}
		seen[e] = true
		chain = append(chain, e)
		mc := &mCommit{notBefore: time.Unix(0, e.Start), notAfter: time.Unix(0, e.End)}
		for k := range e.Hashes {
			mc.writes = append(mc.writes, mWrite{hash.Hash(e.Hashes[k]), e.Datas[k], e.Kinds[k]})
		}
		m.commits = append(m.commits, mc)
	}
	if len(chain) != oks {
		for _, e := range all {
			if !seen[e] {
				c.Violate("conc-lost", "%d commits succeeded, %d are in the database: the commit of session %d, round %d is lost", oks, len(chain), e.Session, e.Round)
			}
		}
	}
	for i := range chain {
		for j := i + 1; j < len(chain); j++ {
			if chain[j].End < chain[i].Start {
				c.Violate("conc-order", "commit %d ended before commit %d began, but comes after it", j, i)
			}
		}
	}
	for _, mc := range m.commits {
		mc.notBefore, mc.notAfter = time.Time{}, time.Time{}
	}
	st := &auditStats{}
	if e := auditDB(a2, *id, m, nil, mv, r, st); e != nil && e.detail != "" && !strings.Contains(e.detail, "dated") {
		c.Violate("conc-"+e.kind, "after all sessions ended: %s", e.detail)
	}
	a2.Close(*id)
	c.Count("reads_checked", st.reads)
	sort.Slice(order, func(i, j int) bool { return order[i].End < order[j].End })
	sig := ""
	for _, e := range order {
		sig += strconv.Itoa(e.Session)
		if !e.OK {
			sig += "x"
		}
		sig += " "
	}
	if oks >= 2 && fails >= 1 {
		c.Distinct("par/" + sig)
		c.Sample("parallel sessions, commits in order of completion (x: refused): %s", sig)
	}
}
