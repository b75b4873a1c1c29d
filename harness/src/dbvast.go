//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// Databases beyond what random histories reach: tens of thousands of contents
// in a commit, a thousand commits, gigabytes of data.

// vastContents commits tens of thousands of contents at once, and looks at a
// part of them, in the same and in a later session.
func (w *dbWorld) vastContents() {
	w.bck = dbBck
	r := w.r
	w.chunk = 1 << 20
	w.app = w.newApp()
	w.op("New, Open, %s", "a commit of tens of thousands of contents")
	if err := w.app.New("vast"); err != nil {
		w.fail("life", "creating failed: %v", err)
	}
	id, err := w.app.Open("vast")
	if err != nil {
		w.fail("open", "opening failed: %v", err)
	}
	total, writes := 0, []mWrite{}
	ends := []int{}
	for _, n := range []int{30000 + r.Intn(6000), 1 + r.Intn(40)} {
		for i := 0; i < n; i++ {
			d := []byte(fmt.Sprintf("%d.", total+i))
			x := mWrite{hashOf(d), d, 7}
			if r.Intn(8) == 0 {
				x.kind = uint(r.Intn(3))
			}
			writes = append(writes, x)
			if err := w.app.Write(*id, x.hash, x.data, x.kind); err != nil {
				w.fail("commitok", "the write %d fails: %v", total+i, err)
			}
		}
		total += n
		ends = append(ends, total)
		t0 := time.Now()
		w.op("Commit of %d writes", n)
		if err := w.app.Commit(*id); err != nil {
			w.fail("commitok", "a commit of %d contents fails: %v", n, err)
		}
		w.c.Count("seconds_of_vast_commits", int(time.Since(t0).Seconds()))
	}
	w.vastAudit(*id, writes, ends)
	w.lastOp = "a later session on " + w.lastOp
	w.app.Close(*id)
	w.app = w.newApp()
	if id, err = w.app.Open("vast"); err != nil {
		w.fail("open", "a later session cannot open the database of %d contents: %v", total, err)
	}
	w.vastAudit(*id, writes, ends)
	w.c.Count("contents_of_vast_databases", total)
	w.c.Distinct(fmt.Sprint("vast ", ends))
}

func (w *dbWorld) vastAudit(id uint, writes []mWrite, ends []int) {
	r := w.r
	commits, err := w.app.Commits(id)
	if err != nil || len(commits.List()) != len(ends) {
		w.fail("commits", "the commits of %d contents are not listed (%v)", len(writes), err)
	}
	cm := commits.List()
	from := 0
	for i, end := range ends {
		leaves := [][]byte{}
		for _, x := range writes[from:end] {
			leaves = append(leaves, refLeafHash(x.hash.Bytes()))
		}
		if !bytes.Equal(cm[i].Values().Head().Bytes(), refMerkleRoot(leaves)) {
			w.fail("chain", "the values root of commit %d is not the Merkle root of its %d hashes", i, len(leaves))
		}
		if i > 0 && (!cm[i].HasParent() || !cm[i].Parent().Compare(cm[i-1].Hash())) {
			w.fail("chain", "commit %d does not name the one before it", i)
		}
		from = end
	}
	at, off := map[uint]int{}, uint(0)
	lists := map[uint][]references.ContentKey{}
	for _, k := range []uint{7, 0, 1, 2} {
		keys, err := w.app.ContentKeysByKind(id, k)
		if err != nil {
			w.fail("kinds", "keys of kind %d are not available: %v", k, err)
		}
		lists[k] = keys.List()
	}
	c := 0
	pointers, want := []references.Pointer{}, [][]byte{}
	for i, x := range writes {
		if i >= ends[c] {
			c++
		}
		n := at[x.kind]
		at[x.kind]++
		if n >= len(lists[x.kind]) {
			w.fail("keys", "%d keys of kind %d are listed, more were committed", n, x.kind)
		}
		key := lists[x.kind][n]
		if key.Kind() != x.kind || !bytes.Equal(key.Hash().Bytes(), x.hash.Bytes()) {
			w.fail("keys", "key %d of kind %d is not the one of write %d", n, x.kind, i)
		}
		if h := cm[c].Hash(); !key.Commit().Compare(h) {
			w.fail("keys", "key %d of kind %d does not name its commit", n, x.kind)
		}
		if p := key.Content(); p.From() != off || p.Length() != uint(len(x.data)) {
			w.fail("kinds", "the content %d is at %d+%d, it was written at %d+%d", i, p.From(), p.Length(), off, len(x.data))
		}
		off += uint(len(x.data))
		w.st.keys++
		if i < 3 || i >= len(writes)-3 || r.Intn(100) == 0 {
			pointers, want = append(pointers, key.Content()), append(want, x.data)
			got, err := w.app.Read(id, key.Content())
			if err != nil || !bytes.Equal(got, x.data) {
				w.fail("content", "the content %d of %d reads %s (%v), %s was written", i, len(writes), short(got), err, short(x.data))
			}
			got, err = w.app.ReadByHash(id, x.hash)
			if err != nil || !bytes.Equal(got, x.data) {
				w.fail("content", "the content %d of %d reads %s (%v) by its hash, %s was written", i, len(writes), short(got), err, short(x.data))
			}
			w.st.reads += 2
		}
	}
	for k, l := range lists {
		if len(l) != at[k] {
			w.fail("keys", "%d keys of kind %d are listed, %d were committed", len(l), k, at[k])
		}
	}
	got, err := w.app.ReadAll(id, pointers)
	if err != nil || len(got) != len(want) {
		w.fail("content", "a batch of %d pointers gives %d contents (%v)", len(want), len(got), err)
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			w.fail("content", "result %d of a batch reads %s, %s was written", i, short(got[i]), short(want[i]))
		}
	}
}

// vastCommits makes more than a thousand commits, one after the other.
func (w *dbWorld) vastCommits() {
	w.bck = dbBck
	w.names, w.maxData, w.budget, w.reuse = []string{"chain"}, 12, 1<<20, 1<<30
	w.chunk = 1 << 16
	w.app = w.newApp()
	w.doNew("chain")
	w.doOpen("chain")
	n := 1030 + w.r.Intn(200)
	for i := 0; i < n; i++ {
		id, m, ok := w.pickCtx()
		if !ok {
			panic("harness: no context")
		}
		w.silent = true
		w.doWrite(id, m)
		w.doCommit(id, m)
		if w.r.Intn(200) == 0 {
			w.silent = false
			w.restart()
			w.doOpen("chain")
		}
	}
	w.silent = false
	w.auditAll()
	w.c.Count("commits_of_vast_chains", n)
	w.c.Distinct(fmt.Sprint("chain of ", n))
}

// farContent reads contents of a file of gigabytes, most of it a hole.
func farContent(c *Ctx) {
	r := c.R
	dir := c.Scratch()
	mv := byte(r.Intn(256))
	commit := genCommit(r, mv)
	type far struct {
		at   uint
		data []byte
		h    hash.Hash
	}
	list := []far{}
	keys := []references.ContentKey{}
	for _, base := range []uint{0, 1 << 16, 1 << 31, 1<<32 - 20, 1 << 32, 1<<32 + 1<<31, 5 << 30} {
		d := genBytes(r, 40+r.Intn(100))
		f := far{at: base + uint(r.Intn(1000)) + 200, data: d, h: hashOf(append([]byte(fmt.Sprint(base)), d...))}
		if base == 1<<32-20 {
			f.at = base // over the edge
		}
		list = append(list, f)
		p, err := references.NewPointerBuilder().Create().From(f.at).WithLength(uint(len(d))).Now()
		must(err)
		k, err := references.NewContentKeyBuilder().Create().WithHash(f.h).WithKind(1).WithContent(p).WithCommit(commit.Hash()).Now()
		must(err)
		keys = append(keys, k)
	}
	ck, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
	must(err)
	cs, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{commit}).Now()
	must(err)
	ref, err := references.NewBuilder().Create().WithContentKeys(ck).WithCommits(cs).Now()
	must(err)
	rb, err := references.NewAdapter(mv).ToContent(ref)
	must(err)
	head := make([]byte, 8)
	binary.LittleEndian.PutUint64(head, uint64(len(rb)))
	head = append(head, rb...)
	path := filepath.Join(dir, "far")
	fd, err := os.Create(path)
	must(err)
	defer os.Remove(path)
	_, err = fd.WriteAt(head, 0)
	must(err)
	if err := fd.Truncate(6 << 30); err != nil {
		c.Count("file systems without files of gigabytes (not judged)", 1)
		fd.Close()
		return
	}
	for _, f := range list {
		_, err = fd.WriteAt(f.data, int64(len(head))+int64(f.at))
		must(err)
	}
	must(fd.Close())
	for _, chunk := range []uint{0, 64, 1 << 16, 1 << 40} {
		app := files.NewApplication(mv, dir, dbDst, dbBck, chunk)
		id, err := app.Open("far")
		if err != nil {
			c.Violate("far-open", "a file of six gigabytes with a proper reference is not opened: %v", err)
		}
		pointers := []references.Pointer{}
		for i, f := range list {
			p := keys[i].Content()
			pointers = append(pointers, p)
			for name, read := range map[string]func() ([]byte, error){
				"pointer": func() ([]byte, error) { return app.Read(*id, p) },
				"hash":    func() ([]byte, error) { return app.ReadByHash(*id, f.h) },
			} {
				got, err := read()
				if err != nil || !bytes.Equal(got, f.data) {
					c.Violate("far-read", "the content at %d reads %s (%v) by its %s, the file holds %s (chunk size %d)", f.at, short(got), err, name, short(f.data), chunk)
				}
				c.Count("reads beyond gigabytes", 1)
			}
		}
		got, err := app.ReadAll(*id, pointers)
		if err != nil || len(got) != len(list) {
			c.Violate("far-read", "a batch of %d contents gives %d (%v)", len(list), len(got), err)
		}
		for i := range got {
			if !bytes.Equal(got[i], list[i].data) {
				c.Violate("far-read", "the content at %d reads %s in a batch, the file holds %s", list[i].at, short(got[i]), short(list[i].data))
			}
		}
		if err := app.Close(*id); err != nil {
			c.Violate("far-close", "closing failed: %v", err)
		}
	}
	c.Distinct(fmt.Sprint("far ", mv))
}

// manyContexts opens thousands of contexts at once, and opens and closes one
// tens of thousands of times: each open context stays itself.
func (w *dbWorld) manyContexts() {
	w.bck = dbBck
	r := w.r
	w.multi = true
	w.app = w.newApp()
	max := 1500 + r.Intn(1500)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil && lim.Cur < uint64(max)+5000 {
		max = int(lim.Cur / 4)
	}
	names, free := []string{}, []string{}
	for i := 0; i < max+40; i++ {
		names = append(names, fmt.Sprintf("db%d", i))
	}
	w.op("New, Open, %s", "thousands of contexts")
	for _, n := range names {
		if err := w.app.New(n); err != nil {
			w.fail("ctx", "creating failed: %v", err)
		}
	}
	free = append(free, names...)
	type ctx struct {
		id   uint
		name string
		data []byte
	}
	open, seen := []*ctx{}, map[uint]bool{}
	add := func() bool {
		at := r.Intn(len(free))
		n := free[at]
		id, err := w.app.Open(n)
		if err != nil {
			if len(open) > 400 {
				return false // the descriptors may be used up
			}
			w.fail("ctx", "with %d contexts open, %s cannot be opened: %v", len(open), n, err)
		}
		if seen[*id] {
			w.fail("ctx", "with %d contexts open, a new one is given the identifier %d of one of them", len(open), *id)
		}
		seen[*id] = true
		x := &ctx{*id, n, []byte(fmt.Sprintf("%s %d %d", n, *id, len(open)))}
		if err := w.app.Write(x.id, hashOf(x.data), x.data, 1+uint(len(open)%5)); err != nil {
			w.fail("ctx", "with %d contexts open, the new one cannot be written to: %v", len(open), err)
		}
		open = append(open, x)
		free[at] = free[len(free)-1]
		free = free[:len(free)-1]
		return true
	}
	drop := func(i int) {
		x := open[i]
		if err := w.app.Close(x.id); err != nil {
			w.fail("ctx", "context %d cannot be closed: %v", x.id, err)
		}
		delete(seen, x.id)
		free = append(free, x.name)
		open = append(open[:i], open[i+1:]...)
	}
	for len(open) < max {
		if !add() {
			break
		}
	}
	w.c.Count("contexts open at once", len(open))
	for k := 0; k < 400; k++ {
		drop(r.Intn(len(open)))
		if k%2 == 0 {
			add()
		}
	}
	for len(open) > 40 {
		drop(r.Intn(len(open)))
	}
	// many short contexts next to these
	for k := 0; k < 70000; k++ {
		n := free[r.Intn(len(free))]
		id, err := w.app.Open(n)
		if err != nil {
			w.fail("ctx", "after %d contexts, %s cannot be opened: %v", k, n, err)
		}
		if seen[*id] {
			w.fail("ctx", "after %d contexts, a new one is given the identifier %d of another that is open", k, *id)
		}
		if err := w.app.Close(*id); err != nil {
			w.fail("ctx", "after %d contexts, one cannot be closed: %v", k, err)
		}
	}
	w.c.Count("contexts opened next to others", 70000)
	// each commits what was written to it alone
	r.Shuffle(len(open), func(i, j int) { open[i], open[j] = open[j], open[i] })
	for _, x := range open {
		if err := w.app.Commit(x.id); err != nil {
			w.fail("ctx", "context %d cannot commit: %v", x.id, err)
		}
		head := refMerkleRoot([][]byte{refLeafHash(hashOf(x.data).Bytes())})
		later := w.newApp()
		id, err := later.Open(x.name)
		if err != nil {
			w.fail("ctx", "%s cannot be opened after its commit: %v", x.name, err)
		}
		for i, list := range []func() (references.Commits, error){func() (references.Commits, error) { return w.app.Commits(x.id) }, func() (references.Commits, error) { return later.Commits(*id) }} {
			cs, err := list()
			if err != nil || len(cs.List()) != 1 || !bytes.Equal(cs.List()[0].Values().Head().Bytes(), head) {
				w.fail("ctx", "the commit of context %d on %s does not hold what was written to it (%d)", x.id, x.name, i)
			}
		}
		later.Close(*id)
	}
	w.c.Distinct(fmt.Sprint("contexts ", max))
}

// vastPending leaves tens of thousands of writes pending, and drops them: by
// cancelling, by closing, or with a commit that fails and a cancel after it.
func (w *dbWorld) vastPending() {
	w.bck = dbBck
	r := w.r
	w.chunk = 1 << 20
	w.app = w.newApp()
	w.op("New, Open, %s", "tens of thousands of pending writes")
	if err := w.app.New("vast"); err != nil {
		w.fail("pending", "creating failed: %v", err)
	}
	commits := 0
	for round := 0; round < 3; round++ {
		id, err := w.app.Open("vast")
		if err != nil {
			w.fail("pending", "opening failed: %v", err)
		}
		size := func() int64 {
			info, err := os.Stat(filepath.Join(w.dir, "vast"))
			must(err)
			return info.Size()
		}
		before := size()
		n := 65536 + r.Intn(8000)
		for i := 0; i < n; i++ {
			d := []byte(fmt.Sprintf("%d %d.", round, i))
			if err := w.app.Write(*id, hashOf(d), d, 3); err != nil {
				w.fail("pending", "the write %d fails: %v", i, err)
			}
		}
		w.c.Count("writes that were dropped", n)
		how := []string{"cancelled", "closed", "not committed, for a folder was in the way, and cancelled"}[round]
		if round == 2 {
			in := filepath.Join(w.dir, "vast."+dbDst)
			must(os.Mkdir(in, 0777))
			if err := w.app.Commit(*id); err == nil {
				w.fail("pending", "a commit succeeds with a folder in the place of its destination")
			}
			must(os.Remove(in))
		}
		if round == 1 {
			if err := w.app.Close(*id); err != nil {
				w.fail("pending", "closing fails: %v", err)
			}
			if id, err = w.app.Open("vast"); err != nil {
				w.fail("pending", "opening again failed: %v", err)
			}
		} else if err := w.app.Cancel(*id); err != nil {
			w.fail("pending", "cancelling fails: %v", err)
		}
		if now := size(); now != before {
			w.fail("pending", "the file changed from %d to %d bytes by writes that were %s", before, now, how)
		}
		if err := w.app.Commit(*id); err == nil {
			w.fail("pending", "a commit succeeds after %d writes that were %s", n, how)
		}
		left := []mWrite{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			d := []byte(fmt.Sprintf("kept %d %d", round, i))
			left = append(left, mWrite{hashOf(d), d, 5})
			if err := w.app.Write(*id, hashOf(d), d, 5); err != nil {
				w.fail("pending", "a write fails: %v", err)
			}
		}
		if err := w.app.Commit(*id); err != nil {
			w.fail("pending", "committing after %d writes that were %s fails: %v", n, how, err)
		}
		commits++
		cs, err := w.app.Commits(*id)
		if err != nil || len(cs.List()) != commits {
			w.fail("pending", "after writes that were %s, %d commits are not listed (%v)", how, commits, err)
		}
		leaves := [][]byte{}
		for _, x := range left {
			leaves = append(leaves, refLeafHash(x.hash.Bytes()))
			if got, err := w.app.ReadByHash(*id, x.hash); err != nil || !bytes.Equal(got, x.data) {
				w.fail("pending", "after writes that were %s, what was committed is not read back: %v", how, err)
			}
		}
		if !bytes.Equal(cs.Latest().Values().Head().Bytes(), refMerkleRoot(leaves)) {
			w.fail("pending", "the commit after %d writes that were %s holds more than the %d writes made since", n, how, len(left))
		}
		if _, err := w.app.ContentKeysByKind(*id, 3); err == nil {
			w.fail("pending", "writes that were %s are found by their kind", how)
		}
		w.app.Close(*id)
	}
	w.c.Distinct(fmt.Sprint("pending ", commits))
}
