//go:build go1.22

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// The committer is a separate process: it opens a database, writes what its
// plan says, and commits between two marker system calls, so that a tracer can
// kill it or fail a system call at any point of the commit.

type commitPlan struct {
	Dir    string
	Name   string
	Chunk  uint
	MV     byte
	Writes []planWrite
	FSize  int64  // RLIMIT_FSIZE during the commit, -1: none
	Retry  bool   // commit again in the same context after an error
	Result string // file for the outcome
}

type planWrite struct {
	Hash []byte
	Data []byte
	Kind uint
}

type commitResult struct {
	Stage  string // open, write, committed, failed
	Err    string
	Retry  string // "", "ok" or an error
	Panic  string
	Verify string
	// descriptors on files of the database's directory
	FdsAfter, FdsRetry, FdsClosed []string
	CloseErr                      string
}

const (
	markOpen  = "/nonexistent-verif-open-begin"
	markBegin = "/nonexistent-verif-commit-begin"
	markEnd   = "/nonexistent-verif-commit-end"
)

func toPlan(ws []mWrite) []planWrite {
	out := []planWrite{}
	for _, w := range ws {
		out = append(out, planWrite{w.hash.Bytes(), w.data, w.kind})
	}
	return out
}

func init() {
	helpers["dbcommit"] = dbCommitHelper
	if len(os.Args) > 1 && os.Args[1] == "dbcommit" {
		runtime.LockOSThread()
	}
}

func dbCommitHelper(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		panic(err)
	}
	var p commitPlan
	if err := json.Unmarshal(b, &p); err != nil {
		panic(err)
	}
	res := commitResult{Stage: "open"}
	out, err := os.Create(p.Result)
	if err != nil {
		panic(err)
	}
	save := func() {
		js, _ := json.Marshal(res)
		out.WriteAt(js, 0)
	}
	defer save()
	signal.Ignore(syscall.SIGXFSZ)
	app := files.NewApplication(p.MV, p.Dir, dbDst, dbBck, p.Chunk)
	var st syscall.Stat_t
	syscall.Lstat(markOpen, &st)
	id, err := app.Open(p.Name)
	if err != nil {
		res.Err = err.Error()
		return
	}
	res.Stage = "write"
	for _, w := range p.Writes {
		if err := app.Write(*id, hash.Hash(w.Hash), w.Data, w.Kind); err != nil {
			res.Err = err.Error()
			return
		}
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	if p.FSize >= 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(p.FSize), Max: old.Max})
	}
	syscall.Lstat(markBegin, &st)
	pan, msg := Protect(func() { err = app.Commit(*id) })
	syscall.Lstat(markEnd, &st)
	if p.FSize >= 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	}
	res.FdsAfter = fdsUnder(p.Dir)
	res.FdsRetry = res.FdsAfter
	defer func() {
		if err := app.Close(*id); err != nil {
			res.CloseErr = err.Error()
		}
		res.FdsClosed = fdsUnder(p.Dir)
		save()
	}()
	if pan {
		res.Panic = msg
		res.Stage = "failed"
		return
	}
	if err == nil {
		res.Stage = "committed"
		return
	}
	res.Stage = "failed"
	res.Err = err.Error()
	if p.Retry {
		pan, msg := Protect(func() { err = app.Commit(*id) })
		switch {
		case pan:
			res.Retry = "panic: " + msg
		case err != nil:
			res.Retry = err.Error()
		default:
			res.Retry = "ok"
			res.FdsRetry = fdsUnder(p.Dir)
			// what the context shows must be what was committed
			for _, w := range p.Writes {
				d, err := app.ReadByHash(*id, hash.Hash(w.Hash))
				if err != nil {
					res.Verify = err.Error()
					break
				}
				_ = d
			}
		}
	}
}

// fScenario is a database with a few commits and a plan for one more.
type fScenario struct {
	base   string // directory with the state before
	name   string
	chunk  uint
	mv     byte
	model  *mDB
	writes []mWrite
}

func buildScenario(c *Ctx, base string) *fScenario {
	r := c.R
	s := &fScenario{base: base, name: "store", chunk: chunkSizes[4+r.Intn(len(chunkSizes)-4)], mv: byte(r.Intn(256)), model: &mDB{}}
	max := 3000
	if s.chunk < 64 {
		max = 500
	}
	app := files.NewApplication(s.mv, base, dbDst, dbBck, s.chunk)
	must := func(err error) {
		if err != nil {
			panic(stopErr("harness scenario: " + err.Error()))
		}
	}
	must(app.New(s.name))
	id, err := app.Open(s.name)
	must(err)
	gen := func(n int) []mWrite {
		out := []mWrite{}
		for i := 0; i < n; i++ {
			d := genBytes(r, genSize(r, s.chunk, max))
			out = append(out, mWrite{hashOf(append([]byte(fmt.Sprint(len(s.model.commits), i, r.Int63())), d...)), d, uint(r.Intn(3))})
		}
		return out
	}
	for k := r.Intn(4); k > 0; k-- {
		ws := gen(1 + r.Intn(3))
		for _, w := range ws {
			must(app.Write(*id, w.hash, w.data, w.kind))
		}
		t0 := time.Now().UTC()
		must(app.Commit(*id))
		s.model.commits = append(s.model.commits, &mCommit{writes: ws, notBefore: t0, notAfter: time.Now().UTC()})
	}
	// learn hashes
	if e := auditDB(app, *id, s.model, nil, s.mv, r, &auditStats{}); e != nil {
		panic(stopErr("the state before the commit is wrong already: " + e.Error()))
	}
	must(app.Close(*id))
	s.writes = gen(1 + r.Intn(4))
	return s
}

type stopErr string

func copyDir(from, to string) {
	os.MkdirAll(to, 0777)
	es, _ := os.ReadDir(from)
	for _, e := range es {
		src, err := os.Open(filepath.Join(from, e.Name()))
		if err != nil {
			panic("harness: " + err.Error())
		}
		dst, err := os.Create(filepath.Join(to, e.Name()))
		if err != nil {
			panic("harness: " + err.Error())
		}
		io.Copy(dst, src)
		src.Close()
		dst.Close()
	}
}

func (s *fScenario) after() *mDB {
	m := s.model.clone()
	m.commits = append(m.commits, &mCommit{writes: s.writes})
	return m
}

// state tells which of the two states the directory holds.
func (s *fScenario) state(dir string, r *rand.Rand, st *auditStats) (string, string) {
	e1 := s.tryAudit(dir, s.model.clone(), r, st)
	if e1 == nil {
		return "old", ""
	}
	e2 := s.tryAudit(dir, s.after(), r, st)
	if e2 == nil {
		return "new", ""
	}
	return "neither", fmt.Sprintf("against the state before the commit: %v; against the state after it: %v; directory: %s", e1, e2, dirNames(dir))
}

func (s *fScenario) tryAudit(dir string, m *mDB, r *rand.Rand, st *auditStats) (e *auditErr) {
	pan, msg := Protect(func() { e = auditFresh(dir, s.name, s.chunk, s.mv, m, r, st) })
	if pan {
		return aerr("panic", "%s", msg)
	}
	return e
}

// otherThan ends a case whose mismatch is the matter of another property
func (s *fScenario) otherThan(c *Ctx, id string) {
	if c.P.ID == id {
		c.Count("mismatches_of_other_properties", 1)
		panic(stopCase{})
	}
}

// usable commits once more in a new session and audits.
func (s *fScenario) usable(dir string, m *mDB, r *rand.Rand, st *auditStats) *auditErr {
	app := files.NewApplication(s.mv, dir, dbDst, dbBck, s.chunk)
	var e *auditErr
	pan, msg := Protect(func() { e = s.oneMore(app, m, r, st) })
	if pan {
		return aerr("panic", "%s", msg)
	}
	if e != nil {
		return e
	}
	return s.tryAudit(dir, m, r, st)
}

func (s *fScenario) oneMore(app applications.Application, m *mDB, r *rand.Rand, st *auditStats) *auditErr {
	id, err := app.Open(s.name)
	if err != nil {
		return aerr("open", "cannot be opened again: %v", err)
	}
	defer app.Close(*id)
	d := genBytes(r, 1+r.Intn(300))
	w := mWrite{hashOf(append([]byte("more"), d...)), d, 1}
	if err := app.Write(*id, w.hash, d, w.kind); err != nil {
		return aerr("write", "%v", err)
	}
	if err := app.Commit(*id); err != nil {
		return aerr("commit", "a later commit fails: %v", err)
	}
	m.commits = append(m.commits, &mCommit{writes: []mWrite{w}})
	return auditDB(app, *id, m, nil, s.mv, r, st)
}

type sysPoint struct {
	name string
	nth  int // ordinal among the calls of this name in the process' main thread
	line string
}

var sysLine = regexp.MustCompile(`^(\d+)\s+([a-z0-9_]+)\((.*)$`)

const tracedCalls = "openat,open,creat,read,pread64,readv,preadv,write,pwrite64,writev,pwritev,lseek,copy_file_range,sendfile,splice,close,unlink,unlinkat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,ftruncate,truncate,fallocate,fsync,fdatasync,sync_file_range,fstat,newfstatat,statx,lstat,stat,mkdir,mkdirat,rmdir,flock,fcntl,fchmod,fchmodat,utimensat,mmap,msync,getdents64,ioctl,dup,dup3"

func straceRun(plan *commitPlan, work, injectSpec string) (string, *commitResult, error) {
	planFile := filepath.Join(work, "plan.json")
	plan.Result = filepath.Join(work, "result.json")
	os.Remove(plan.Result)
	js, _ := json.Marshal(plan)
	if err := os.WriteFile(planFile, js, 0666); err != nil {
		panic("harness: " + err.Error())
	}
	self, _ := os.Executable()
	traceFile := filepath.Join(work, "strace.log")
	args := []string{"-f", "-o", traceFile, "-e", "trace=" + tracedCalls, "-e", "signal=none"}
	if injectSpec != "" {
		args = append(args, "-e", "inject="+injectSpec)
	}
	args = append(args, self, "dbcommit", planFile)
	cmd := exec.Command("strace", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	var errb strings.Builder
	cmd.Stderr = &errb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic("harness: strace: " + err.Error())
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		err = fmt.Errorf("hang")
	}
	tr, _ := os.ReadFile(traceFile)
	var res commitResult
	rb, rerr := os.ReadFile(plan.Result)
	var pres *commitResult
	if rerr == nil && json.Unmarshal(rb, &res) == nil {
		pres = &res
	}
	if len(tr) == 0 {
		panic("harness: strace produced nothing: " + errb.String())
	}
	return string(tr), pres, err
}

// pointsBetween lists the system calls of the marked section.
func pointsBetween(trace, markBegin, markEnd string) ([]sysPoint, bool) {
	counts := map[string]int{}
	pid := ""
	in, ended := false, false
	out := []sysPoint{}
	// find the committing thread
	sc := bufio.NewScanner(strings.NewReader(trace))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if strings.Contains(l, markBegin) {
			pid = strings.Fields(l)[0]
		}
	}
	if pid == "" {
		return nil, false
	}
	sc = bufio.NewScanner(strings.NewReader(trace))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		m := sysLine.FindStringSubmatch(l)
		if m == nil || m[1] != pid {
			continue
		}
		counts[m[2]]++
		if strings.Contains(l, markBegin) {
			in = true
			continue
		}
		if strings.Contains(l, markEnd) {
			ended = true
			break
		}
		if in {
			line := l
			if len(line) > 160 {
				line = line[:160]
			}
			out = append(out, sysPoint{m[2], counts[m[2]], line})
		}
	}
	return out, ended
}

func reached(trace, mark string) bool { return strings.Contains(trace, mark) }

func (s *fScenario) plan(dir string) *commitPlan {
	return &commitPlan{Dir: dir, Name: s.name, Chunk: s.chunk, MV: s.mv, Writes: toPlan(s.writes), FSize: -1}
}

func scenarioSetup(c *Ctx) (s *fScenario, work string, ok bool) {
	root := c.Scratch()
	base := filepath.Join(root, "base")
	work = filepath.Join(root, "work")
	os.MkdirAll(base, 0777)
	os.MkdirAll(work, 0777)
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(stopErr); is {
				// an ordinary commit fails already: other properties tell; this one has nothing to observe
				c.Count("scenarios_without_baseline", 1)
				c.Violate("baseline", "ordinary commits do not work: %s", string(e))
			}
			panic(r)
		}
	}()
	s = buildScenario(c, base)
	return s, work, true
}

func sizeOf(ws []mWrite) int {
	n := 0
	for _, w := range ws {
		n += len(w.data)
	}
	return n
}

func describe(s *fScenario) string {
	return fmt.Sprintf("%d commits before, %d writes (%d bytes) being committed, chunk size %d", len(s.model.commits), len(s.writes), sizeOf(s.writes), s.chunk)
}

func init() {
	register(&Prop{
		ID: "D06", Level: "fault_enumeration",
		Rule:  "for random databases, a separate process commits under a tracer and is killed (SIGKILL) on entering each system call the commit makes on files, in turn, and after the last; the database is then opened by a new process and compared with the complete states before and after; non-trivial: the kill happened inside the commit; distinct: database shape and kill point",
		Cases: func(t string) int { return map[string]int{"quick": 48, "thorough": 1600}[t] },
		Run:   runCrash,
		Hang:  300 * time.Second,
	})
	register(&Prop{
		ID: "D07", Level: "fault_enumeration",
		Rule:  "for random databases, each file system call that opening the database and a commit make is made to fail in turn (several errors, once or from then on), and file size limits cut writes at random offsets; result of the commit, database and a retry are compared with the model; non-trivial: the fault was injected inside the commit; distinct: database shape, fault point and error",
		Cases: func(t string) int { return map[string]int{"quick": 40, "thorough": 1600}[t] },
		Run:   runFaults,
		Hang:  300 * time.Second,
	})
}

func runCrash(c *Ctx) {
	s, work, _ := scenarioSetup(c)
	dir := filepath.Join(c.Scratch(), "db")
	st := &auditStats{}
	copyDir(s.base, dir)
	tr, res, err := straceRun(s.plan(dir), work, "")
	if res == nil || res.Stage != "committed" {
		c.Violate("baseline", "the commit fails without any fault: %+v %v", res, err)
	}
	pts, ok := pointsBetween(tr, markBegin, markEnd)
	if !ok {
		panic("harness: markers not found in the trace:\n" + tr)
	}
	if got, d := s.state(dir, c.R, st); got != "new" {
		c.Violate("baseline", "after a successful commit (%s) the database is %s: %s", describe(s), got, d)
	}
	os.RemoveAll(dir)
	c.Count("commit_syscalls_seen", len(pts))
	sig := fmt.Sprintf("%d/%d/%d", len(s.model.commits), len(s.writes), s.chunk)
	order := c.R.Perm(len(pts))
	maxPts := 24
	if c.Tier == "thorough" {
		maxPts = 100000
	}
	// always include the points that change directory entries
	chosen := map[int]bool{}
	for i, p := range pts {
		if strings.HasPrefix(p.name, "rename") || strings.HasPrefix(p.name, "unlink") || strings.HasPrefix(p.name, "link") {
			chosen[i] = true
			if i+1 < len(pts) {
				chosen[i+1] = true
			}
		}
	}
	for _, i := range order {
		if len(chosen) >= maxPts {
			break
		}
		chosen[i] = true
	}
	for i, p := range pts {
		if !chosen[i] {
			continue
		}
		copyDir(s.base, dir)
		tr, res, _ := straceRun(s.plan(dir), work, fmt.Sprintf("%s:signal=SIGKILL:when=%d", p.name, p.nth))
		inside := reached(tr, markBegin) && !reached(tr, markEnd)
		if inside {
			c.Count("kills_inside_commit", 1)
			c.Distinct(fmt.Sprintf("%s/%d/%s", sig, i, p.name))
		} else {
			c.Count("kills_elsewhere", 1)
		}
		committed := res != nil && res.Stage == "committed"
		got, d := s.state(dir, c.R, st)
		c.Count("state_"+got, 1)
		if got == "neither" {
			c.Trace("killed on entering %s", p.line)
			s.otherThan(c, "D16")
			c.Violate("crash", "killed during a commit (%s) at call %d of %d (%s #%d), the database is neither in the state before nor after: %s", describe(s), i, len(pts), p.name, p.nth, d)
		}
		if committed && got != "new" {
			s.otherThan(c, "D16")
			c.Violate("crash-acked", "the commit had succeeded, but the old state is found")
		}
		m := s.model.clone()
		if got == "new" {
			m = s.after()
		}
		if e := s.usable(dir, m, c.R, st); e != nil {
			c.Trace("killed on entering %s", p.line)
			s.otherThan(c, "D16")
			c.Violate("crash-usable", "killed during a commit (%s) at %s #%d, the database is in the %s state but not usable: %v", describe(s), p.name, p.nth, got, e)
		}
		if c.P.ID == "D16" {
			s.leftAfter(c, dir, fmt.Sprintf("killed during a commit at %s #%d", p.name, p.nth))
		}
		os.RemoveAll(dir)
	}
	c.Count("reads_checked", st.reads)
	if len(pts) > 0 {
		c.Sample("%s; %d system calls in the commit, among them: %s", describe(s), len(pts), pts[c.R.Intn(len(pts))].line)
	}
}

func runFaults(c *Ctx) {
	s, work, _ := scenarioSetup(c)
	dir := filepath.Join(c.Scratch(), "db")
	st := &auditStats{}
	sig := fmt.Sprintf("%d/%d/%d", len(s.model.commits), len(s.writes), s.chunk)
	copyDir(s.base, dir)
	tr, res, err := straceRun(s.plan(dir), work, "")
	if res == nil || res.Stage != "committed" {
		c.Violate("baseline", "the commit fails without any fault: %+v %v", res, err)
	}
	pts, ok := pointsBetween(tr, markBegin, markEnd)
	if !ok {
		panic("harness: markers not found in the trace:\n" + tr)
	}
	openPts, _ := pointsBetween(tr, markOpen, markBegin)
	newSize := int64(0)
	if fi, err := os.Stat(filepath.Join(dir, s.name)); err == nil {
		newSize = fi.Size()
	}
	os.RemoveAll(dir)

	check := func(what string, tr string, res *commitResult, retryMustWork bool) {
		if c.P.ID == "D12" {
			// a close that fails leaves its file open
			if res == nil || res.Stage == "open" || res.Stage == "write" || strings.HasPrefix(what, "close ") || !(strings.HasSuffix(what, " once") || tr == "") {
				return
			}
			for _, l := range [][]string{res.FdsAfter, res.FdsRetry} {
				if len(l) > 1 {
					c.Violate("fd-commit", "with %s the commit (%s) ends with %q (%s), one file at most should remain open, these are: %v", what, describe(s), res.Stage, res.Err, l)
				}
			}
			if res.CloseErr != "" || len(res.FdsClosed) != 0 {
				c.Violate("fd-close", "with %s the commit (%s) ends with %q (%s), closing gives the error %q and leaves files open: %v", what, describe(s), res.Stage, res.Err, res.CloseErr, res.FdsClosed)
			}
			c.Count("commits_with_a_fault_whose_files_were_counted", 1)
			return
		}
		if c.P.ID == "D16" {
			got, _ := s.state(dir, c.R, st)
			m := s.model.clone()
			if got == "new" {
				m = s.after()
			}
			if res == nil || got == "neither" || s.usable(dir, m, c.R, st) != nil {
				c.Count("mismatches_of_other_properties", 1)
				return
			}
			s.leftAfter(c, dir, "with "+what+" a commit ended with \""+res.Stage+"\"")
			return
		}
		if res == nil {
			c.Violate("fault-crash", "with %s the committing process ended without a result (%s)\n%s", what, describe(s), tailStr(tr, 1500))
		}
		if res.Panic != "" {
			c.Violate("fault-panic", "with %s the commit panics (%s): %s", what, describe(s), res.Panic)
		}
		got, d := s.state(dir, c.R, st)
		c.Count("outcome_"+res.Stage+"_"+got, 1)
		switch {
		case got == "neither":
			c.Violate("fault-corrupt", "with %s the commit (%s) ends with %q (%s), and the database is neither in the state before nor after: %s", what, describe(s), res.Stage, res.Err, d)
		case (res.Stage == "open" || res.Stage == "write") && got != "old":
			c.Violate("fault-open", "with %s the session ends before committing (%s), but the database holds the %s state", what, res.Err, got)
		case res.Stage == "committed" && got != "new":
			c.Violate("fault-silent", "with %s the commit (%s) reports success, but the database holds the %s state", what, describe(s), got)
		case res.Stage == "failed" && res.Retry == "" && got != "old":
			c.Violate("fault-partial", "with %s the commit (%s) reports the error %q, but the database holds the %s state", what, describe(s), res.Err, got)
		case res.Stage == "failed" && res.Retry == "ok":
			c.Count("retries", 1)
			if got != "new" {
				c.Violate("fault-retry", "with %s the commit (%s) fails with %q, committing again succeeds, but the database holds the %s state", what, describe(s), res.Err, got)
			}
			if res.Verify != "" {
				c.Violate("fault-retry", "with %s the commit (%s) fails with %q, committing again succeeds, but content is not readable: %s", what, describe(s), res.Err, res.Verify)
			}
		case res.Stage == "failed" && res.Retry != "" && retryMustWork:
			c.Violate("fault-retry", "with %s the commit (%s) fails with %q, and committing again without a fault fails with %q", what, describe(s), res.Err, res.Retry)
		}
		m := s.model.clone()
		if got == "new" {
			m = s.after()
		}
		if e := s.usable(dir, m, c.R, st); e != nil {
			c.Violate("fault-usable", "after %s the database holds the %s state but is not usable: %v", what, got, e)
		}
	}

	errs := []string{"EIO", "ENOSPC", "EACCES", "EDQUOT", "EMFILE"}
	maxPts := 22
	if c.Tier == "thorough" {
		maxPts = 400
	}
	n := 0
	for _, i := range c.R.Perm(len(pts)) {
		p := pts[i]
		switch p.name {
		case "fcntl", "mmap", "ioctl", "dup", "newfstatat", "lstat":
			if c.R.Intn(4) != 0 {
				continue
			}
		}
		if p.name == "mmap" {
			continue // memory of the runtime itself
		}
		if n++; n > maxPts {
			break
		}
		e := errs[c.R.Intn(len(errs))]
		when := fmt.Sprint(p.nth)
		mode := "once"
		if c.R.Intn(3) == 0 {
			when += "+"
			mode = "from then on"
		}
		copyDir(s.base, dir)
		plan := s.plan(dir)
		plan.Retry = mode == "once" && c.R.Intn(2) == 0
		spec := fmt.Sprintf("%s:error=%s:when=%s", p.name, e, when)
		if mode != "once" && (p.name == "read" || p.name == "write" || p.name == "close" || p.name == "fcntl") {
			// keep the fault within the commit: the result file is written afterwards with pwrite64
		}
		if mode != "once" && p.name == "pwrite64" {
			spec = fmt.Sprintf("%s:error=%s:when=%d..%d", p.name, e, p.nth, p.nth+3)
			mode = "4 times"
		}
		tr, res, _ := straceRun(plan, work, spec)
		if strings.Contains(tr, "(INJECTED)") {
			c.Count("faults_injected", 1)
			c.Distinct(fmt.Sprintf("%s/%d/%s/%s/%s", sig, i, p.name, e, mode))
		}
		c.Trace("%s failing with %s %s", p.line, e, mode)
		check(fmt.Sprintf("%s #%d failing with %s %s", p.name, p.nth, e, mode), tr, res, mode == "once" && p.name != "flock" && p.name != "close")
		os.RemoveAll(dir)
	}
	// opening
	for i, p := range openPts {
		if c.P.ID != "D07" {
			break
		}
		if p.name == "mmap" || (c.Tier != "thorough" && c.R.Intn(2) == 0) {
			continue
		}
		e := errs[c.R.Intn(len(errs))]
		copyDir(s.base, dir)
		tr, res, _ := straceRun(s.plan(dir), work, fmt.Sprintf("%s:error=%s:when=%d", p.name, e, p.nth))
		if strings.Contains(tr, "(INJECTED)") {
			c.Count("faults_injected_in_open", 1)
			c.Distinct(fmt.Sprintf("%s/open%d/%s/%s", sig, i, p.name, e))
		}
		c.Trace("%s failing with %s while opening", p.line, e)
		check(fmt.Sprintf("%s #%d failing with %s while opening", p.name, p.nth, e), tr, res, false)
		os.RemoveAll(dir)
	}
	// disk full at an offset
	k := 6
	if c.Tier == "thorough" {
		k = 20
	}
	for j := 0; j < k; j++ {
		copyDir(s.base, dir)
		plan := s.plan(dir)
		plan.FSize = int64(c.R.Intn(int(newSize) + 2))
		if c.R.Intn(3) == 0 {
			plan.FSize = newSize - int64(c.R.Intn(40))
			if plan.FSize < 0 {
				plan.FSize = 0
			}
		}
		plan.Retry = c.R.Intn(2) == 0
		c.Trace("file size limit %d", plan.FSize)
		res := plainRun(plan, work)
		c.Count("size_limits", 1)
		c.Distinct(fmt.Sprintf("%s/fsize/%d", sig, plan.FSize))
		check("files limited to "+strconv.FormatInt(plan.FSize, 10)+" bytes", "", res, true)
		os.RemoveAll(dir)
	}
	c.Count("reads_checked", st.reads)
	c.Sample("%s; %d system calls in the commit; last fault: %s", describe(s), len(pts), c.trace[len(c.trace)-1])
}

func plainRun(plan *commitPlan, work string) *commitResult {
	planFile := filepath.Join(work, "plan.json")
	plan.Result = filepath.Join(work, "result.json")
	os.Remove(plan.Result)
	js, _ := json.Marshal(plan)
	os.WriteFile(planFile, js, 0666)
	self, _ := os.Executable()
	cmd := exec.Command(self, "dbcommit", planFile)
	cmd.Run()
	rb, err := os.ReadFile(plan.Result)
	var res commitResult
	if err != nil || json.Unmarshal(rb, &res) != nil {
		return nil
	}
	return &res
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
