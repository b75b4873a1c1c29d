//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/juju/fslock"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// dbWorld runs one history of operations against the real application and a model.
type dbWorld struct {
	c         *Ctx
	r         *rand.Rand
	dir       string
	chunk     uint
	mv        byte
	bck       string
	app       applications.Application
	dbs       map[string]*mDB
	open      map[uint]*mCtx
	closed    []uint
	names     []string
	maxData   int
	budget    int
	recent    []mWrite
	st        auditStats
	each      func() // called before each step
	keepsTemp bool   // working files of failed commits stay where they are
	silent    bool   // no audits for now
	reuse     int    // how often a hash comes back
	scale     string // "large" contents, or "many" contents and commits
	sub       string // a folder next to the databases
	failed    bool   // the commit before the last operation was made to fail
	multi     bool   // more than one context was ever open at once
	sig       strings.Builder
	lastOp    string
}

type mCtx struct {
	name    string
	pending []mWrite
	// its database was deleted
	gone bool
}

type profile struct {
	steps                                                                        int
	names                                                                        int
	new_, exists, delete_, open, close_, write, commit, cancel, restart, invalid int
	fullAuditEvery                                                               int
}

// which properties contradict a mismatch of a kind
func (w *dbWorld) tags(kind string) string {
	t := map[string]string{
		"content":  "D01",
		"keys":     "D02 D10 D04",
		"kinds":    "D10 D02",
		"commits":  "D02 D03 D04",
		"chain":    "D03",
		"pending":  "D04",
		"file":     "D04",
		"missing":  "D09 D01",
		"open":     "D01 D09",
		"ctx":      "D05",
		"life":     "D09",
		"commitok": "D02 D01",
		"empty":    "D02",
		"batch":    "D01",
	}[kind]
	if w.multi && kind != "life" {
		t += " D05"
	}
	if strings.HasPrefix(w.lastOp, "New") || strings.HasPrefix(w.lastOp, "Delete") || strings.HasPrefix(w.lastOp, "Exists") || strings.HasPrefix(w.lastOp, "Open") {
		t += " D09"
	}
	if strings.Contains(w.lastOp, " writes with ") || w.failed {
		t += " D04"
	}
	if strings.HasPrefix(w.lastOp, "Cancel") || strings.HasPrefix(w.lastOp, "Write") || strings.HasPrefix(w.lastOp, "Close") || strings.HasPrefix(w.lastOp, "invalid") || strings.HasPrefix(w.lastOp, "empty Commit") {
		t += " D04"
	}
	return t
}

func (w *dbWorld) fail(kind, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	t := w.tags(kind)
	if strings.Contains(t, w.c.P.ID) {
		w.c.Violate(kind, "%s (chunk size %d, after %s)", msg, w.chunk, w.lastOp)
	}
	w.c.Count("mismatches_of_other_properties", 1)
	panic(stopCase{})
}

func (w *dbWorld) op(format string, a ...interface{}) {
	w.lastOp = fmt.Sprintf(format, a...)
	w.c.Trace("%s", w.lastOp)
	w.c.Count("operations", 1)
}

func newWorld(c *Ctx) *dbWorld {
	w := &dbWorld{c: c, r: c.R, dir: c.Scratch(), dbs: map[string]*mDB{}, open: map[uint]*mCtx{}}
	switch c.Index % 487 { // a prime: the cases are spread over all workers
	case 60, 180, 300, 420:
		w.scale = "large"
	case 239:
		w.scale = "many"
	}
	switch c.Index % 1949 {
	case 700:
		w.scale = "huge"
	case 1400:
		w.scale = "contexts"
	}
	w.chunk = w.anyChunk()
	w.mv = byte(w.r.Intn(256))
	w.maxData = 20000
	w.budget = 60000
	if w.chunk < 16 {
		w.maxData = 400
		w.budget = 4000
	}
	if w.scale == "many" && w.r.Intn(3) == 0 {
		// references of tens of thousands of chunks
		w.chunk = 1 + uint(w.r.Intn(3))
	}
	switch w.scale {
	case "large":
		w.maxData, w.budget = 300000, 1500000
		w.c.Count("histories_with_large_contents", 1)
	case "huge":
		w.maxData, w.budget = 1<<20, 48<<20
		w.c.Count("histories_with_huge_contents", 1)
	case "contexts":
		w.maxData, w.budget = 400, 60000
		w.c.Count("histories_with_many_contexts", 1)
	case "many":
		w.maxData, w.budget = 12, 60000
		w.c.Count("histories_with_many_contents", 1)
	}
	w.reuse = []int{8, 8, 4, 2}[w.r.Intn(4)]
	w.bck = dbBck
	if w.r.Intn(16) == 0 {
		w.bck = dbDst
	}
	w.st.want = func(kind string) bool { return strings.Contains(w.tags(kind), w.c.P.ID) }
	w.app = w.newApp()
	return w
}

// newApp gives a new session; its folder is spelled in several ways
func (w *dbWorld) newApp() applications.Application {
	dir := w.dir
	switch w.r.Intn(8) {
	case 0:
		dir += "/"
	case 1:
		dir = filepath.Dir(dir) + "/./" + filepath.Base(dir)
	case 2:
		if at, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(at, dir); err == nil {
				dir = rel
			}
		}
	}
	return files.NewApplication(w.mv, dir, dbDst, w.bck, w.chunk)
}

// anyChunk is a read chunk size, not one that needs a million reads
func (w *dbWorld) anyChunk() uint {
	if w.scale != "" {
		return chunkSizes[len(chunkSizes)-6+w.r.Intn(6)]
	}
	return chunkSizes[w.r.Intn(len(chunkSizes))]
}

// deep puts the databases in a folder that does not exist, nor the one it is in
func (w *dbWorld) deep() {
	for k := 1 + w.r.Intn(3); k > 0; k-- {
		w.dir = filepath.Join(w.dir, []string{"a", "data.base", "x y"}[w.r.Intn(3)])
	}
	w.app = w.newApp()
}

func (w *dbWorld) unchanged(before map[string]string) {
	if d := sumsDiff(before, allSums(w.dir)); d != "" {
		w.fail("file", "%s altered files: %s", w.lastOp, d)
	}
}

func (w *dbWorld) isOpen(name string) (uint, bool) {
	for id, m := range w.open {
		if m.name == name {
			return id, true
		}
	}
	return 0, false
}

func (w *dbWorld) pickCtx() (uint, *mCtx, bool) {
	ids := []uint{}
	for id := range w.open {
		ids = append(ids, id)
	}
	if len(ids) == 0 {
		return 0, nil, false
	}
	sortUints(ids)
	id := ids[w.r.Intn(len(ids))]
	return id, w.open[id], true
}

func sortUints(a []uint) {
	for i := range a {
		for j := i + 1; j < len(a); j++ {
			if a[j] < a[i] {
				a[i], a[j] = a[j], a[i]
			}
		}
	}
}

func (w *dbWorld) doNew(name string) {
	before := allSums(w.dir)
	w.op("New(%s)", name)
	err := w.app.New(name)
	if strings.HasSuffix(name, "."+dbDst) || strings.HasSuffix(name, "."+w.bck) {
		// these are the files a commit replaces and removes
		if err == nil {
			w.fail("life", "creating %s succeeded, commits on another database remove it", name)
		}
		w.unchanged(before)
		return
	}
	_, exists := w.dbs[name]
	if exists {
		if err == nil {
			w.fail("life", "creating the existing database %s succeeded", name)
		}
		w.unchanged(before)
		return
	}
	if err != nil {
		w.fail("life", "creating %s failed: %v", name, err)
	}
	w.dbs[name] = &mDB{}
	before[name] = fileSum(filepath.Join(w.dir, name))
	w.unchanged(before)
	w.sig.WriteString("n")
}

func (w *dbWorld) doExists(name string) {
	before := allSums(w.dir)
	w.op("Exists(%s)", name)
	ok, err := w.app.Exists(name)
	_, want := w.dbs[name]
	if err != nil || ok != want {
		w.fail("life", "Exists(%s) gives %v (%v), expected %v", name, ok, err, want)
	}
	w.unchanged(before)
}

func (w *dbWorld) doDelete(name string) {
	before := allSums(w.dir)
	w.op("Delete(%s)", name)
	err := w.app.Delete(name)
	if _, exists := w.dbs[name]; !exists {
		if err == nil {
			w.fail("life", "deleting the missing database %s succeeded", name)
		}
		w.unchanged(before)
		return
	}
	if err != nil {
		w.fail("life", "deleting %s failed: %v", name, err)
	}
	delete(w.dbs, name)
	delete(before, name)
	w.unchanged(before)
	w.sig.WriteString("d")
	if id, ok := w.isOpen(name); ok {
		w.open[id].gone = true
		w.c.Count("databases deleted while open", 1)
		w.sig.WriteString("!")
	}
}

func (w *dbWorld) doOpen(name string) {
	before := allSums(w.dir)
	w.op("Open(%s)", name)
	p, err := w.app.Open(name)
	m, exists := w.dbs[name]
	_, already := w.isOpen(name)
	if !exists {
		if err == nil {
			w.fail("life", "opening the missing database %s succeeded", name)
		}
		w.unchanged(before)
		return
	}
	if already {
		if err == nil {
			w.fail("ctx", "opening %s, already open, succeeded", name)
		}
		w.unchanged(before)
		return
	}
	if err != nil || p == nil {
		w.fail("open", "opening %s failed: %v", name, err)
	}
	if _, dup := w.open[*p]; dup {
		w.fail("ctx", "opening %s gives identifier %d, which the open context of %s has", name, *p, w.open[*p].name)
	}
	w.unchanged(before)
	w.open[*p] = &mCtx{name: name}
	for i, x := range w.closed {
		if x == *p {
			w.closed = append(w.closed[:i], w.closed[i+1:]...)
			break
		}
	}
	if len(w.open) > 1 {
		w.multi = true
	}
	w.sig.WriteString("o")
	_ = m
	w.audit(*p)
}

func (w *dbWorld) genWrite() mWrite {
	size := genSize(w.r, w.chunk, w.maxData)
	if w.scale == "large" && w.r.Intn(2) == 0 {
		size = largeSize(w.r)
	}
	if w.scale == "huge" {
		if size = 1 + w.r.Intn(1000); w.r.Intn(3) == 0 {
			size = 1<<uint(20+w.r.Intn(5)) + w.r.Intn(5) - 2
		}
	}
	data := genBytes(w.r, size)
	h := hashOf(data)
	switch w.r.Intn(w.reuse) {
	case 0: // another version under a hash used before
		if len(w.recent) > 0 {
			h = w.recent[w.r.Intn(len(w.recent))].hash
		}
	case 1: // the same content again
		if len(w.recent) > 0 {
			x := w.recent[w.r.Intn(len(w.recent))]
			h, data = x.hash, x.data
		}
	case 2: // a hash that differs from another one in a single byte
		if len(w.recent) > 0 {
			h = nearHash(w.r, w.recent[w.r.Intn(len(w.recent))].hash)
		}
	}
	kind := uint(w.r.Intn(3))
	switch w.r.Intn(12) {
	case 0:
		kind = ^uint(0)
	case 1:
		kind = uint(w.r.Uint64())
	}
	out := mWrite{h, append([]byte{}, data...), kind}
	w.recent = append(w.recent, out)
	return out
}

func (w *dbWorld) doWrite(id uint, m *mCtx) {
	x := w.genWrite()
	if w.budget < len(x.data) {
		return
	}
	w.budget -= len(x.data)
	before := allSums(w.dir)
	w.op("Write(%d %s, hash %s.., %s, kind %d)", id, m.name, x.hash.String()[:10], short(x.data), x.kind)
	buf := append([]byte{}, x.data...)
	if err := w.app.Write(id, x.hash, buf, x.kind); err != nil {
		w.fail("commitok", "writing failed: %v", err)
	}
	for i := range buf { // the caller reuses its buffer
		buf[i] = byte(w.r.Intn(256))
	}
	m.pending = append(m.pending, x)
	w.unchanged(before)
	w.sig.WriteString(fmt.Sprintf("w%d", len(x.data)*4/(int(w.chunk)+1)))
}

func (w *dbWorld) doCommit(id uint, m *mCtx) {
	before := allSums(w.dir)
	if m.gone {
		w.op("Commit(%d %s) of %d writes, deleted", id, m.name, len(m.pending))
		var err error
		if pan, msg := Protect(func() { err = w.app.Commit(id) }); pan {
			w.fail("life", "a commit on the deleted database %s panics: %s", m.name, msg)
		}
		if err == nil {
			w.fail("life", "a commit on the deleted database %s succeeds", m.name)
		}
		if d := sumsDiff(before, withoutTemp(allSums(w.dir), m.name)); d != "" {
			w.fail("life", "a commit on the deleted database %s altered files: %s", m.name, d)
		}
		return
	}
	if len(m.pending) == 0 {
		w.op("empty Commit(%d %s)", id, m.name)
		var err error
		if pan, msg := Protect(func() { err = w.app.Commit(id) }); pan {
			w.fail("empty", "a commit with nothing written panics: %s", msg)
		}
		if err == nil {
			w.fail("empty", "a commit with nothing written succeeds")
		}
		w.unchanged(before)
		w.sig.WriteString("e")
		w.audit(id)
		return
	}
	w.op("Commit(%d %s) of %d writes", id, m.name, len(m.pending))
	if w.bck == dbDst {
		// with one name for two files a commit can only be refused
		var err error
		if pan, msg := Protect(func() { err = w.app.Commit(id) }); pan {
			w.fail("commitok", "a commit with one extension for both files panics: %s", msg)
		}
		if err == nil {
			// or else it works in full
			w.dbs[m.name].commits = append(w.dbs[m.name].commits, &mCommit{writes: m.pending, notBefore: time.Unix(0, 0), notAfter: time.Now().UTC()})
			m.pending = nil
		} else if d := sumsDiff(before, withoutTemp(allSums(w.dir), m.name)); d != "" {
			w.fail("commitok", "a refused commit on %s altered files: %s", m.name, d)
		}
		w.audit(id)
		return
	}
	if w.r.Intn(10) == 0 {
		if w.failedCommit(id, m) {
			return
		}
		w.failed = true
		defer func() { w.failed = false }()
		w.op("Commit(%d %s) again of %d writes", id, m.name, len(m.pending))
	}
	// the caller holds the commits as they were, and extends its list
	var held []references.Commit
	if old, err := w.app.Commits(id); err == nil {
		held = append(old.List(), old.List()[0])
	}
	// and the keys, likewise
	var keys []references.ContentKey
	if db := w.dbs[m.name]; len(db.commits) > 0 && len(db.commits[0].writes) > 0 {
		if old, err := w.app.ContentKeysByKind(id, db.commits[0].writes[0].kind); err == nil {
			keys = append(old.List(), old.List()[0])
		}
	}
	t0 := time.Now().UTC()
	err := w.app.Commit(id)
	t1 := time.Now().UTC()
	if err != nil {
		w.fail("commitok", "committing failed: %v", err)
	}
	if len(held) > 0 {
		n := len(held) - 1
		if held[n] != held[0] {
			w.fail("chain", "a commit changed the list a caller made of the commits returned earlier")
		}
		_ = append(held[:n], held[0]) // and again, after
		w.c.Count("commit_lists_held_over_a_commit", 1)
	}
	if len(keys) > 0 {
		n := len(keys) - 1
		if keys[n] != keys[0] {
			w.fail("keys", "a commit changed the list a caller made of the keys returned earlier")
		}
		_ = append(keys[:n], keys[0])
	}
	db := w.dbs[m.name]
	db.commits = append(db.commits, &mCommit{writes: m.pending, notBefore: t0, notAfter: t1})
	m.pending = nil
	w.c.Count("commits", 1)
	w.sig.WriteString("c")
	delete(before, m.name)
	withoutTemp(before, m.name) // of an earlier commit, that failed
	after := allSums(w.dir)
	delete(after, m.name)
	if d := sumsDiff(before, after); d != "" {
		w.lastOp = "New/Exists check after " + w.lastOp
		w.fail("life", "a commit on %s left other files changed: %s", m.name, d)
	}
	w.audit(id)
}

// failedCommit makes a commit fail, which loses nothing; it tells whether the commit worked anyway
func (w *dbWorld) failedCommit(id uint, m *mCtx) bool {
	before := allSums(w.dir)
	path := filepath.Join(w.dir, m.name)
	var undo func()
	why := ""
	switch w.r.Intn(3) {
	case 0, 1:
		why = []string{dbDst, dbBck}[w.r.Intn(2)]
		at := path + "." + why
		if os.MkdirAll(filepath.Join(at, "in the way"), 0777) != nil {
			return false
		}
		why = "a folder named as its ." + why + " file"
		undo = func() { os.RemoveAll(at) }
	default:
		why = "the file locked by another program"
		lock := fslock.New(path)
		if lock.TryLock() != nil {
			return false
		}
		undo = func() { lock.Unlock() }
	}
	w.op("Commit(%d %s) of %d writes with %s", id, m.name, len(m.pending), why)
	t0 := time.Now().UTC()
	var err error
	pan, msg := Protect(func() { err = w.app.Commit(id) })
	t1 := time.Now().UTC()
	undo()
	if pan {
		w.fail("pending", "the commit panics: %s", msg)
	}
	db := w.dbs[m.name]
	if err == nil {
		db.commits = append(db.commits, &mCommit{writes: m.pending, notBefore: t0, notAfter: t1})
		m.pending = nil
	} else if d := sumsDiff(before, withoutTemp(allSums(w.dir), m.name)); d != "" {
		w.fail("file", "a failed commit on %s altered files: %s", m.name, d)
	}
	w.c.Count("commits_made_to_fail", 1)
	w.sig.WriteString("f")
	w.audit(id)
	return err == nil
}

func (w *dbWorld) doCancel(id uint, m *mCtx) {
	before := allSums(w.dir)
	w.op("Cancel(%d %s) of %d writes", id, m.name, len(m.pending))
	if err := w.app.Cancel(id); err != nil {
		w.fail("pending", "cancelling failed: %v", err)
	}
	w.discard(m)
	w.unchanged(before)
	w.sig.WriteString("x")
	w.audit(id)
}

func (w *dbWorld) doClose(id uint, m *mCtx) {
	before := allSums(w.dir)
	w.op("Close(%d %s) with %d pending", id, m.name, len(m.pending))
	if err := w.app.Close(id); err != nil {
		w.fail("ctx", "closing failed: %v", err)
	}
	w.discard(m)
	delete(w.open, id)
	w.closed = append(w.closed, id)
	w.unchanged(before)
	w.sig.WriteString("k")
	w.checkClosed(id)
	if w.r.Intn(2) == 0 {
		w.auditName(m.name)
	}
}

// checkClosed: every operation on a closed or unknown context is an error.
func (w *dbWorld) checkClosed(id uint) {
	if _, ok := w.open[id]; ok {
		return
	}
	before := allSums(w.dir)
	h := hashOf([]byte("closed"))
	p, _ := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
	bad := ""
	pan, msg := Protect(func() {
		if app := w.app; app != nil {
			if err := app.Write(id, h, []byte("x"), 1); err == nil {
				bad = "Write"
			}
			if err := app.Commit(id); err == nil {
				bad = "Commit"
			}
			if err := app.Cancel(id); err == nil {
				bad = "Cancel"
			}
			if err := app.Close(id); err == nil {
				bad = "Close"
			}
			if _, err := app.Read(id, p); err == nil {
				bad = "Read"
			}
			if _, err := app.ReadAll(id, []references.Pointer{p}); err == nil {
				bad = "ReadAll"
			}
			if _, err := app.ReadByHash(id, h); err == nil {
				bad = "ReadByHash"
			}
			if _, err := app.ReadAllByHashes(id, []hash.Hash{h}); err == nil {
				bad = "ReadAllByHashes"
			}
			if _, err := app.ContentKeysByKind(id, 0); err == nil {
				bad = "ContentKeysByKind"
			}
			if _, err := app.Commits(id); err == nil {
				bad = "Commits"
			}
			if _, err := app.CommitByHash(id, h); err == nil {
				bad = "CommitByHash"
			}
		}
	})
	w.c.Count("invalid_calls", 11)
	if pan {
		w.fail("ctx", "an operation on the closed context %d panics: %s", id, msg)
	}
	if bad != "" {
		w.fail("ctx", "%s on the closed or unknown context %d succeeds", bad, id)
	}
	w.unchanged(before)
}

func (w *dbWorld) doInvalid() {
	switch w.r.Intn(4) {
	case 0:
		id := uint(w.r.Intn(12))
		if w.r.Intn(3) == 0 {
			id = uint(w.r.Uint64())
		}
		if _, ok := w.open[id]; ok {
			return
		}
		w.op("invalid calls on context %d", id)
		w.checkClosed(id)
	case 1:
		if len(w.closed) > 0 {
			id := w.closed[w.r.Intn(len(w.closed))]
			if _, ok := w.open[id]; ok {
				return
			}
			w.op("invalid calls on closed context %d", id)
			w.checkClosed(id)
		}
	case 2: // an empty content is refused and changes nothing
		id, _, ok := w.pickCtx()
		if !ok {
			return
		}
		w.op("invalid empty Write(%d)", id)
		for _, d := range [][]byte{nil, {}} {
			if err := w.app.Write(id, hashOf([]byte("e")), d, 0); err == nil {
				w.fail("pending", "writing no data succeeds")
			}
		}
	case 3:
		id, _, ok := w.pickCtx()
		if !ok {
			return
		}
		w.op("invalid reads on %d", id)
		w.audit(id)
	}
}

// withoutTemp leaves out what a failed commit may leave
func withoutTemp(sums map[string]string, name string) map[string]string {
	delete(sums, name+"."+dbDst)
	delete(sums, name+"."+dbBck)
	return sums
}

// discard notes the pending writes of a context as discarded
func (w *dbWorld) discard(m *mCtx) {
	if db, ok := w.dbs[m.name]; ok && !m.gone {
		db.discarded = append(db.discarded, m.pending...)
	}
	m.pending = nil
}

func (w *dbWorld) audit(id uint) {
	m := w.open[id]
	if m.gone || w.silent {
		return
	}
	if e := auditDB(w.app, id, w.dbs[m.name], m.pending, w.mv, w.r, &w.st); e != nil {
		w.fail(e.kind, "context %d of %s: %s", id, m.name, e.detail)
	}
	w.c.Count("audits", 1)
}

func (w *dbWorld) auditName(name string) {
	if _, ok := w.dbs[name]; !ok {
		return
	}
	chunk := w.chunk
	if w.r.Intn(3) == 0 {
		chunk = w.anyChunk()
	}
	if e := auditFresh(w.dir, name, chunk, w.mv, w.dbs[name], w.r, &w.st); e != nil {
		w.fail(e.kind, "a later session on %s (chunk %d): %s", name, chunk, e.detail)
	}
	w.c.Count("audits_in_new_session", 1)
}

func (w *dbWorld) auditAll() {
	ids := []uint{}
	for id := range w.open {
		ids = append(ids, id)
	}
	sortUints(ids)
	for _, id := range ids {
		w.audit(id)
	}
	for _, n := range w.names {
		ok, err := w.app.Exists(n)
		_, want := w.dbs[n]
		if err != nil || ok != want {
			w.fail("life", "Exists(%s) gives %v (%v), expected %v", n, ok, err, want)
		}
		w.auditName(n)
	}
	for n := range w.dbs {
		if w.keepsTemp {
			break
		}
		for _, e := range []string{dbDst, dbBck} {
			if ok, _ := w.app.Exists(n + "." + e); ok {
				w.fail("life", "%s exists, it was never created", n+"."+e)
			}
		}
	}
}

func (w *dbWorld) restart() {
	w.op("restart")
	if w.r.Intn(2) == 0 {
		ids := []uint{}
		for id := range w.open {
			ids = append(ids, id)
		}
		sortUints(ids)
		for _, id := range ids {
			w.app.Close(id)
		}
	}
	for _, m := range w.open {
		w.discard(m)
	}
	w.open = map[uint]*mCtx{}
	w.closed = nil
	if w.r.Intn(3) == 0 {
		w.chunk = w.anyChunk()
	}
	w.app = w.newApp()
	w.sig.WriteString("r")
}

func (w *dbWorld) run(p profile) {
	// names that differ little, and names a file system or a format could treat apart
	pool := [][]string{
		{"alpha", "alpha.db", "d", "alph", "epsilon 5"},
		{"alpha", "Alpha", "ALPHA", "alpha ", " alpha"},
		{".alpha", "alpha", "alpha.", "alpha..", "alpha~"},
		{"%s", "%d%%", "a\tb", "a\nb", "a\\b"},
		{"\u00e9", "e\u0301", "\u65e5\u672c", "\xff\xfe", "-rf"},
		{strings.Repeat("n", 230), strings.Repeat("n", 229), strings.Repeat("n", 228) + "m", "0", "1"},
		{dbDst, w.bck, "a" + dbDst, dbDst + ".x", dbBck + "." + dbDst + "x"},
	}[[]int{0, 0, 1, 2, 3, 4, 5, 6}[w.r.Intn(8)]]
	w.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	if w.scale == "contexts" {
		pool = nil
		for i := 40 + w.r.Intn(260); i > 0; i-- {
			pool = append(pool, fmt.Sprintf("db%d", i))
		}
		p.names, p.fullAuditEvery, w.silent = len(pool), 0, true
	}
	for i := 0; i < p.names && i < len(pool); i++ {
		if i > 0 && contains(w.names, pool[i]) {
			continue
		}
		w.names = append(w.names, pool[i])
	}
	os.RemoveAll(w.dir)
	if w.each == nil && w.r.Intn(8) == 0 {
		w.deep()
	}
	if w.r.Intn(2) == 0 {
		os.MkdirAll(w.dir, 0777)
	}
	if w.r.Intn(4) == 0 {
		w.sub = "folder"
		if err := os.MkdirAll(filepath.Join(w.dir, w.sub), 0777); err != nil {
			panic(err)
		}
		if w.r.Intn(2) == 0 {
			os.WriteFile(filepath.Join(w.dir, w.sub, "inside"), []byte("x"), 0666)
		}
	}
	// most histories start with databases in place
	for _, n := range w.names {
		if w.r.Intn(4) != 0 {
			w.doNew(n)
			if w.r.Intn(4) != 0 {
				w.doOpen(n)
			}
		}
	}
	w.silent = false
	total := p.new_ + p.exists + p.delete_ + p.open + p.close_ + p.write + p.commit + p.cancel + p.restart + p.invalid
	for s := 0; s < p.steps; s++ {
		x := w.r.Intn(total)
		name := w.names[w.r.Intn(len(w.names))]
		if w.r.Intn(40) == 0 && !w.keepsTemp {
			name += "." + []string{dbDst, w.bck}[w.r.Intn(2)]
		}
		pick := func(n int) bool {
			if x < n {
				return true
			}
			x -= n
			return false
		}
		if w.sub != "" && w.r.Intn(12) == 0 {
			w.doFolder()
		}
		if w.each != nil {
			w.each()
		}
		if w.r.Intn(20) == 0 {
			w.chmod()
		}
		id, m, ok := w.pickCtx()
		switch {
		case pick(p.new_):
			w.doNew(name)
		case pick(p.exists):
			w.doExists(name)
		case pick(p.delete_):
			w.doDelete(name)
		case pick(p.open):
			w.doOpen(name)
		case pick(p.close_):
			if ok {
				w.doClose(id, m)
			}
		case pick(p.write):
			if ok {
				n := 1 + w.r.Intn(3)
				if w.scale == "many" && w.r.Intn(4) == 0 {
					n = 20 + w.r.Intn(280)
				}
				for k := n; k > 0; k-- {
					w.doWrite(id, m)
				}
			}
		case pick(p.commit):
			if !ok {
				break
			}
			if w.scale == "many" && !m.gone && w.r.Intn(4) == 0 {
				w.silent = true
				for k := 20 + w.r.Intn(130); k > 0; k-- {
					w.doWrite(id, m)
					w.doCommit(id, m)
				}
				w.silent = false
				w.audit(id)
				break
			}
			w.doCommit(id, m)
		case pick(p.cancel):
			if ok {
				w.doCancel(id, m)
			}
		case pick(p.restart):
			w.restart()
		case pick(p.invalid):
			w.doInvalid()
		}
		if p.fullAuditEvery > 0 && s%p.fullAuditEvery == p.fullAuditEvery-1 {
			w.auditAll()
		}
	}
	w.auditAll()
	commits := 0
	for _, d := range w.dbs {
		commits += len(d.commits)
	}
	w.c.Count("reads_checked", w.st.reads)
	w.c.Count("keys_checked", w.st.keys)
	w.c.Count("commits_checked", w.st.commits)
	w.c.Count("negative_reads_checked", w.st.negative)
	w.c.Count("mismatches_of_other_properties", w.st.others)
	if commits >= 2 {
		w.c.Distinct(fmt.Sprintf("%d/%s", w.chunk, w.sig.String()))
		if len(w.c.trace) > 6 {
			w.c.Sample("chunk %d: %s", w.chunk, strings.Join(w.c.trace, " | "))
		}
	}
	for id := range w.open {
		w.app.Close(id)
	}
}

func regHist(id string, quick int, rule string, mk func(r *rand.Rand) profile) {
	register(&Prop{
		ID: id,
		Rule: "random operation histories against the real application in a scratch directory, compared after each step with a model of databases, contexts, commits and pending writes; " + rule +
			"; non-trivial: at least two commits survive to the end; distinct: chunk size and sequence of operation kinds and relative sizes",
		Cases: func(tier string) int {
			if tier == "thorough" {
				return quick * 20
			}
			return quick
		},
		Run: func(c *Ctx) {
			w := newWorld(c)
			if os.MkdirAll(w.dir, 0777) == nil {
				switch {
				case c.Index%quick == 5003 && contains([]string{"D01", "D02", "D10"}, id):
					w.vastContents()
					return
				case c.Index%quick == 5021 && id == "D04":
					w.vastPending()
					return
				case c.Index%quick == 5013 && id == "D05":
					w.manyContexts()
					return
				case c.Index%quick == 5009 && contains([]string{"D02", "D03"}, id):
					w.vastCommits()
					return
				}
			}
			w.run(mk(c.R))
		},
	})
}

func init() {
	regHist("D01", 15000, "weights favour many writes and commits, contents around multiples of the chunk size, reopening with other chunk sizes", func(r *rand.Rand) profile {
		return profile{steps: 8 + r.Intn(30), names: 1 + r.Intn(3), new_: 2, delete_: 1, open: 6, close_: 4, write: 30, commit: 18, cancel: 2, restart: 3, invalid: 2, fullAuditEvery: 7}
	})
	regHist("D02", 15000, "weights favour several commits per context, with and without writes in between", func(r *rand.Rand) profile {
		return profile{steps: 8 + r.Intn(30), names: 1 + r.Intn(2), new_: 2, open: 6, close_: 3, write: 26, commit: 26, cancel: 5, restart: 3, invalid: 2, fullAuditEvery: 9}
	})
	regHist("D03", 13000, "weights favour long chains of small commits over sessions", func(r *rand.Rand) profile {
		return profile{steps: 10 + r.Intn(40), names: 1 + r.Intn(2), new_: 2, open: 6, close_: 4, write: 24, commit: 24, cancel: 2, restart: 4, invalid: 1, fullAuditEvery: 8}
	})
	regHist("D04", 15000, "weights favour cancels, closes with pending writes and failing calls", func(r *rand.Rand) profile {
		return profile{steps: 10 + r.Intn(30), names: 1 + r.Intn(3), new_: 2, delete_: 1, open: 9, close_: 8, write: 30, commit: 12, cancel: 12, restart: 4, invalid: 8, fullAuditEvery: 4}
	})
	regHist("D05", 15000, "weights favour opening and closing several databases in all orders", func(r *rand.Rand) profile {
		return profile{steps: 14 + r.Intn(40), names: 3 + r.Intn(3), new_: 6, exists: 1, delete_: 1, open: 24, close_: 16, write: 20, commit: 12, cancel: 4, restart: 1, invalid: 8, fullAuditEvery: 6}
	})
	regHist("D09", 15000, "weights favour creating, deleting, finding and opening databases that hold content", func(r *rand.Rand) profile {
		return profile{steps: 14 + r.Intn(40), names: 2 + r.Intn(4), new_: 14, exists: 8, delete_: 8, open: 16, close_: 8, write: 20, commit: 16, cancel: 1, restart: 3, invalid: 2, fullAuditEvery: 5}
	})
	regHist("D10", 13000, "weights favour many contents of few kinds over several commits", func(r *rand.Rand) profile {
		return profile{steps: 10 + r.Intn(30), names: 1 + r.Intn(2), new_: 2, open: 6, close_: 3, write: 40, commit: 16, cancel: 3, restart: 3, invalid: 1, fullAuditEvery: 6}
	})
}

// chmod: the permissions of a file, as others set them, say nothing of its existence
func (w *dbWorld) chmod() {
	for _, n := range w.names {
		if _, ok := w.dbs[n]; !ok || w.r.Intn(2) == 0 {
			continue
		}
		mode := []os.FileMode{0444, 0400, 0600, 0640, 0644, 0664, 0666, 0755, 0777}[w.r.Intn(9)]
		if mode&0200 == 0 && os.Getuid() != 0 {
			continue
		}
		if os.Chmod(filepath.Join(w.dir, n), mode) == nil {
			w.op("chmod(%s, %o)", n, mode)
			w.c.Count("files_given_other_permissions", 1)
			w.doExists(n)
		}
	}
}

// doFolder: a folder is not a database
func (w *dbWorld) doFolder() {
	before := allSums(w.dir)
	w.op("New/Exists/Delete/Open of the folder %s", w.sub)
	if ok, err := w.app.Exists(w.sub); ok || err != nil {
		w.fail("life", "the folder %s exists as a database (%v, %v)", w.sub, ok, err)
	}
	var bad string
	pan, msg := Protect(func() {
		switch w.r.Intn(3) {
		case 0:
			if w.app.New(w.sub) == nil {
				bad = "creating"
			}
		case 1:
			if w.app.Delete(w.sub) == nil {
				bad = "deleting"
			}
		case 2:
			if _, err := w.app.Open(w.sub); err == nil {
				bad = "opening"
			}
		}
	})
	if pan {
		w.fail("life", "an operation on a folder panics: %s", msg)
	}
	if bad != "" {
		w.fail("life", "%s a database named after a folder succeeded", bad)
	}
	if info, err := os.Stat(filepath.Join(w.dir, w.sub)); err != nil || !info.IsDir() {
		w.fail("life", "the folder %s is gone", w.sub)
	}
	w.c.Count("calls_on_a_folder", 1)
	w.unchanged(before)
}
