//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/juju/fslock"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// fdsUnder lists the open descriptors of this process on files of a directory.
func fdsUnder(dir string) []string {
	out := []string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return []string{"cannot list: " + err.Error()}
	}
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(to, dir+"/") {
			out = append(out, strings.TrimPrefix(to, dir+"/"))
		}
	}
	return out
}

// ------------------------------------------------------------------- D12

// countFiles: one file is open for each open context, and no other
func (w *dbWorld) countFiles() {
	if w.c.P.ID != "D12" {
		return
	}
	l := fdsUnder(w.dir)
	if len(l) > len(w.open) {
		w.c.Violate("fds", "after %s, %d contexts are open and so are the files %v (chunk size %d)", w.lastOp, len(w.open), l, w.chunk)
	}
	w.c.Count("times_open_files_were_counted", 1)
}

// doHostile: an operation that fails because of its surroundings
func (w *dbWorld) doHostile() {
	id, m, ok := w.pickCtx()
	if _, err := os.Stat(w.dir); err != nil {
		return // the application did not have to make its folder yet
	}
	switch w.r.Intn(6) {
	case 0: // no database at all
		name := filepath.Join(w.dir, "damaged")
		b := genBytes(w.r, 1+w.r.Intn(40))
		if w.r.Intn(2) == 0 {
			b = append([]byte{byte(w.r.Intn(60)), 0, 0, 0, 0, 0, 0, 0}, b...)
		}
		must(os.WriteFile(name, b, 0666))
		w.op("Open of damage")
		var p *uint
		var err error
		Protect(func() { p, err = w.app.Open("damaged") })
		if err == nil && p != nil {
			w.app.Close(*p)
		}
		must(os.Remove(name))
		w.c.Count("damaged databases opened", 1)
		return
	case 1:
		w.op("Open of nothing")
		w.app.Open("no such database")
		return
	}
	if !ok || m.gone || len(m.pending) == 0 || w.bck == dbDst {
		return
	}
	path := filepath.Join(w.dir, m.name)
	fails := func(what string, may bool) {
		w.op("Commit(%d %s) %s", id, m.name, what)
		var err error
		t0 := time.Now().UTC()
		if pan, msg := Protect(func() { err = w.app.Commit(id) }); pan {
			w.c.Violate("panic", "a commit %s panics: %s", what, msg)
		}
		w.c.Count("commits "+what, 1)
		if err == nil {
			if !may {
				w.c.Count("mismatches_of_other_properties", 1)
				panic(stopCase{})
			}
			w.dbs[m.name].commits = append(w.dbs[m.name].commits, &mCommit{writes: m.pending, notBefore: t0, notAfter: time.Now().UTC()})
			m.pending = nil
		}
	}
	w.sig.WriteString("h")
	switch w.r.Intn(6) {
	case 0:
		lock := fslock.New(path)
		must(lock.Lock())
		fails("while another holds the lock", false)
		must(lock.Unlock())
	case 1, 2:
		ext := []string{dbDst, dbBck}[w.r.Intn(2)]
		os.Remove(path + "." + ext)
		must(os.Mkdir(path+"."+ext, 0777))
		fails("with a folder in the way", true)
		os.Remove(path + "." + ext)
		w.clean(path)
	case 3, 4:
		ext := []string{dbDst, dbBck}[w.r.Intn(2)]
		os.Remove(path + "." + ext)
		must(os.Symlink("/dev/full", path+"."+ext))
		fails("on a full disk", true)
		os.Remove(path + "." + ext)
		w.clean(path)
	case 5: // another session replaced the database
		other := files.NewApplication(w.mv, w.dir, dbDst, dbBck, w.chunk)
		p, err := other.Open(m.name)
		must(err)
		x := w.genWrite()
		must(other.Write(*p, x.hash, x.data, x.kind))
		t0 := time.Now().UTC()
		must(other.Commit(*p))
		w.dbs[m.name].commits = append(w.dbs[m.name].commits, &mCommit{writes: []mWrite{x}, notBefore: t0, notAfter: time.Now().UTC()})
		must(other.Close(*p))
		fails("after another session's", false)
		w.countFiles()
		// this context can only be closed
		w.op("Close(%d %s)", id, m.name)
		must(w.app.Close(id))
		w.discard(m)
		delete(w.open, id)
		w.closed = append(w.closed, id)
	}
}

func (w *dbWorld) clean(path string) {
	if w.keepsTemp {
		return
	}
	os.Remove(path + "." + dbDst)
	os.Remove(path + "." + dbBck)
}

func runFds(c *Ctx) {
	if c.Index%100 == 99 {
		runFaults(c)
		return
	}
	w := newWorld(c)
	w.dir, _ = filepath.EvalSymlinks(w.dir)
	w.app = files.NewApplication(w.mv, w.dir, dbDst, w.bck, w.chunk)
	w.each = func() {
		w.countFiles()
		if w.r.Intn(6) == 0 {
			w.doHostile()
			w.countFiles()
		}
	}
	w.run(profile{steps: 14 + w.r.Intn(30), names: 2 + w.r.Intn(3), new_: 6, exists: 1, delete_: 3, open: 20, close_: 12, write: 20, commit: 14, cancel: 3, restart: 0, invalid: 5})
	w.open = map[uint]*mCtx{}
	w.lastOp = "closing all contexts"
	w.countFiles()
}

// ------------------------------------------------------------------- D13

// runReaders: several goroutines read the contexts of one application, while
// other sessions commit to the same databases.
func runReaders(c *Ctx) {
	r := c.R
	dir := c.Scratch()
	mv := byte(r.Intn(256))
	names := []string{"one", "two", "three"}[:1+r.Intn(3)]
	models := map[string]*mDB{}
	base := files.NewApplication(mv, dir, dbDst, dbBck, 4096)
	commit := func(app applications.Application, id uint, m *mDB, r *rand.Rand) {
		ws := []mWrite{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			d := genBytes(r, 1+r.Intn(300))
			w := mWrite{hashOf(d), d, uint(r.Intn(3))}
			must(app.Write(id, w.hash, d, w.kind))
			ws = append(ws, w)
		}
		t0 := time.Now().UTC()
		must(app.Commit(id))
		if m != nil {
			m.commits = append(m.commits, &mCommit{writes: ws, notBefore: t0, notAfter: time.Now().UTC()})
		}
	}
	for _, n := range names {
		must(base.New(n))
		models[n] = &mDB{}
		p, err := base.Open(n)
		must(err)
		for k := 1 + r.Intn(4); k > 0; k-- {
			commit(base, *p, models[n], r)
		}
		must(base.Close(*p))
	}
	app := files.NewApplication(mv, dir, dbDst, dbBck, chunkSizes[4+r.Intn(len(chunkSizes)-4)])
	ids := map[string]uint{}
	for _, n := range names {
		p, err := app.Open(n)
		must(err)
		ids[n] = *p
	}
	if coin(r) { // a context that committed itself
		n := names[r.Intn(len(names))]
		commit(app, ids[n], models[n], r)
	}
	const readers = 4
	bad := make(chan string, 64)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	var reads, commits int64
	protect := func(f func()) {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				bad <- fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
			}
		}()
		<-begin
		f()
	}
	for k := 0; k < readers; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		mine := map[string]*mDB{}
		for n, m := range models {
			mine[n] = m.clone()
		}
		wg.Add(1)
		go protect(func() {
			st := &auditStats{}
			for j := 0; j < 4; j++ {
				n := names[rr.Intn(len(names))]
				if e := auditDB(app, ids[n], mine[n], nil, mv, rr, st); e != nil {
					bad <- fmt.Sprintf("a reader sees of %s, with others reading and committing: %s", n, e)
					break
				}
			}
			atomic.AddInt64(&reads, int64(st.reads))
		})
	}
	writing := coin(r)
	later := models[names[0]].clone()
	if writing {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go protect(func() {
			other := files.NewApplication(mv, dir, dbDst, dbBck, 4096)
			for k := 0; k < 3; k++ {
				p, err := other.Open(names[0])
				must(err)
				commit(other, *p, later, rr)
				must(other.Close(*p))
				atomic.AddInt64(&commits, 1)
			}
		})
	}
	close(begin)
	wg.Wait()
	close(bad)
	for e := range bad {
		c.Violate("readers", "%s", e)
	}
	st := &auditStats{}
	for _, n := range names {
		m := models[n].clone()
		if e := auditDB(app, ids[n], m, nil, mv, r, st); e != nil {
			c.Violate("snapshot", "after others committed, a context on %s shows something else than when it was opened: %s", n, e)
		}
		must(app.Close(ids[n]))
	}
	if writing {
		if e := auditFresh(dir, names[0], 1000, mv, later, r, st); e != nil {
			c.Violate("later", "commits made while others read are not all there: %s", e)
		}
	}
	c.Count("reads_by_goroutines", int(reads))
	c.Count("commits_meanwhile", int(commits))
	sig := []string{fmt.Sprint(writing)}
	for _, n := range names {
		for _, cm := range models[n].commits {
			for _, w := range cm.writes {
				sig = append(sig, w.hash.String()[:8])
			}
		}
	}
	c.Distinct(strings.Join(sig, " "))
	c.Sample("%d goroutines read %d databases, others committing: %v", readers, len(names), writing)
}

// ------------------------------------------------------------------- D14

// peakOf runs f and gives the most memory in use by objects while it ran,
// above what was in use before.
func peakOf(f func()) int64 {
	old := debug.SetGCPercent(10)
	defer debug.SetGCPercent(old)
	runtime.GC()
	read := func() int64 {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(s)
		return int64(s[0].Value.Uint64())
	}
	before := read()
	stop := make(chan bool)
	done := make(chan int64)
	go func() {
		peak := int64(0)
		for {
			if x := read() - before; x > peak {
				peak = x
			}
			select {
			case <-stop:
				done <- peak
				return
			case <-time.After(300 * time.Microsecond):
			}
		}
	}()
	f()
	close(stop)
	peak := <-done
	if x := read() - before; x > peak {
		peak = x
	}
	return peak
}

func runMemory(c *Ctx) {
	r := c.R
	dir := c.Scratch()
	const mb = 1 << 20
	chunk := []uint{512, 4096, 65536, 100000, mb}[c.Index%5]
	total := int64(96 * mb)
	if chunk == 512 {
		total = 64 * mb
	}
	// contents of many sizes, made with large chunks
	app := files.NewApplication(7, dir, dbDst, dbBck, 4*mb)
	must(app.New("big"))
	p, err := app.Open("big")
	must(err)
	m := &mDB{}
	left := total
	block := genBytes(r, 8*mb)
	ws := []mWrite{}
	for left > 0 {
		n := int64(1 + r.Intn(8*mb))
		if r.Intn(3) == 0 {
			n = int64(1 + r.Intn(1000))
		}
		if n > left {
			n = left
		}
		left -= n
		at := r.Int63n(int64(len(block)) - n + 1)
		d := block[at : at+n]
		x := mWrite{genHash(r), d, uint(r.Intn(2))}
		must(app.Write(*p, x.hash, d, x.kind))
		ws = append(ws, x)
	}
	must(app.Commit(*p))
	m.commits = append(m.commits, &mCommit{writes: ws, notBefore: time.Unix(0, 0), notAfter: time.Now()})
	must(app.Close(*p))
	app = nil

	small := files.NewApplication(7, dir, dbDst, dbBck, chunk)
	limit := int64(24*mb) + 16*int64(chunk)
	var id uint
	// what is measured is retried: the collector may lag behind
	measure := func(what string, f func()) {
		var peak int64
		for k := 0; k < 3; k++ {
			if peak = peakOf(f); peak <= limit {
				break
			}
		}
		if peak > limit {
			c.Violate("memory", "%s with a read chunk size of %d takes %d MB of memory on a database of %d MB", what, chunk, peak/mb, total/mb)
		}
		c.Count("peaks_measured", 1)
		c.Count("peak_kb "+what, int(peak/1024))
	}
	opened := false
	measure("opening", func() {
		if opened {
			must(small.Close(id))
		}
		p, err := small.Open("big")
		must(err)
		id, opened = *p, true
	})
	measure("committing", func() {
		x := mWrite{genHash(r), genBytes(r, 1+r.Intn(1000)), 9}
		must(small.Write(id, x.hash, x.data, x.kind))
		must(small.Commit(id))
		m.commits = append(m.commits, &mCommit{writes: []mWrite{x}, notBefore: time.Unix(0, 0), notAfter: time.Now()})
	})
	measure("reading a small content", func() {
		last := m.commits[len(m.commits)-1].writes[0]
		d, err := small.ReadByHash(id, last.hash)
		if err != nil || string(d) != string(last.data) {
			c.Violate("content", "the content just committed reads as %s (%v), want %s", short(d), err, short(last.data))
		}
		for _, x := range ws {
			if len(x.data) <= 1000 {
				d, err := small.ReadByHash(id, x.hash)
				if err != nil || string(d) != string(x.data) {
					c.Violate("content", "a content committed before reads as %s (%v), want %s", short(d), err, short(x.data))
				}
			}
		}
	})
	must(small.Close(id))
	c.Distinct(fmt.Sprint(chunk, len(ws), total))
	c.Sample("chunk size %d: %d contents, %d MB", chunk, len(ws), total/mb)
}

func init() {
	register(&Prop{
		ID: "D12",
		Rule: "random operation histories, with operations that fail because of their surroundings (damaged files, locks held, folders in the way, a full disk, other sessions); after each operation the descriptors of the process on files of the databases' directory are listed and compared with the contexts open in the model; every hundredth case makes the system calls of a commit fail in turn and counts the descriptors of that process instead; " +
			"non-trivial: at least two commits survive to the end, or a fault was injected; distinct: chunk size and sequence of operation kinds, or fault point",
		Cases: func(t string) int { return map[string]int{"quick": 4000, "thorough": 80000}[t] },
		Run:   runFds,
		Hang:  300 * time.Second,
	})
	register(&Prop{
		ID:    "D13",
		Rule:  "a case builds one to three databases, opens them in one application and lets four goroutines read everything there is, under the race detector and against the model, in half of the cases while another session commits to the first of them; afterwards each context must still show the state it was opened on; distinct: contents of the databases",
		Cases: func(t string) int { return map[string]int{"quick": 300, "thorough": 6000}[t] },
		Run:   runReaders,
	})
	register(&Prop{
		ID:      "D14",
		Rule:    "a case makes a database of 64 or 96 MB and measures the memory in use (sampled every 0.3 ms) while it is opened, committed to and read with a small read chunk size; a peak above 24 MB and 16 chunks, three times in a row, is a violation; distinct: chunk size and contents",
		Cases:   func(t string) int { return map[string]int{"quick": 5, "thorough": 60}[t] },
		Run:     runMemory,
		Workers: 2,
		Hang:    300 * time.Second,
	})
}
