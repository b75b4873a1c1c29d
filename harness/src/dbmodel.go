//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

const (
	dbDst = "destination"
	dbBck = "backup"
)

// mWrite is one write in the model.
type mWrite struct {
	hash hash.Hash
	data []byte
	kind uint
}

// mCommit is one commit in the model.
type mCommit struct {
	writes      []mWrite
	hash        string // learned from the system after the commit
	created     time.Time
	notBefore   time.Time
	notAfter    time.Time
	learned     bool
	description string
}

// mDB is one database in the model.
type mDB struct {
	commits   []*mCommit
	discarded []mWrite // cancelled or closed without commit
}

func (m *mDB) kinds() []uint {
	seen := map[uint]bool{}
	out := []uint{}
	for _, c := range m.commits {
		for _, w := range c.writes {
			if !seen[w.kind] {
				seen[w.kind] = true
				out = append(out, w.kind)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (m *mDB) clone() *mDB {
	out := &mDB{}
	for _, c := range m.commits {
		cc := *c
		out.commits = append(out.commits, &cc)
	}
	return out
}

// expectation of reading by hash: any of the returned byte strings.
func (m *mDB) byHash(h string) [][]byte {
	for i := len(m.commits) - 1; i >= 0; i-- {
		out := [][]byte{}
		for _, w := range m.commits[i].writes {
			if w.hash.String() == h {
				out = append(out, w.data)
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return nil
}

func refMerkleRoot(leafHashes [][]byte) []byte {
	cur := [][]byte{}
	cur = append(cur, leafHashes...)
	empty := sha512.Sum512(nil)
	for len(cur) < 2 || len(cur)&(len(cur)-1) != 0 {
		cur = append(cur, empty[:])
	}
	for len(cur) > 1 {
		nxt := [][]byte{}
		for i := 0; i < len(cur); i += 2 {
			s := sha512.Sum512(append(append([]byte{}, cur[i]...), cur[i+1]...))
			nxt = append(nxt, append([]byte{}, s[:]...))
		}
		cur = nxt
	}
	return cur[0]
}

func refLeafHash(block []byte) []byte {
	if len(block) == hash.Size {
		return append([]byte{}, block...)
	}
	s := sha512.Sum512(block)
	return append([]byte{}, s[:]...)
}

// auditErr is a mismatch between a database and its model.
type auditErr struct {
	kind   string // content, keys, commits, chain, pending, kinds
	detail string
}

func (e *auditErr) Error() string { return e.kind + ": " + e.detail }

func aerr(kind, format string, a ...interface{}) *auditErr {
	return &auditErr{kind, fmt.Sprintf(format, a...)}
}

func short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%d:%x", len(b), b)
	}
	return fmt.Sprintf("%d:%x..%x", len(b), b[:12], b[len(b)-8:])
}

type auditStats struct {
	reads, keys, commits, negative int
	others                         int // mismatches that contradict other properties
	want                           func(kind string) bool
}

// auditDB compares everything the API shows of an open context with the model.
// pending is what must be invisible.
func auditDB(app applications.Application, ctx uint, m *mDB, pending []mWrite, miningValue byte, r *rand.Rand, st *auditStats) (res *auditErr) {
	defer func() {
		if e := recover(); e != nil {
			if ae, ok := e.(*auditErr); ok {
				res = ae
				return
			}
			panic(e)
		}
	}()
	// what contradicts none of the wanted kinds is left to the checks of other properties
	report := func(kind, format string, a ...interface{}) {
		if st.want != nil && !st.want(kind) {
			st.others++
			return
		}
		panic(aerr(kind, format, a...))
	}
	auditCommits(app, ctx, m, miningValue, st, report)
	allPointers, allData := auditKeys(app, ctx, m, r, st, report)
	auditHashes(app, ctx, m, pending, allPointers, allData, r, st, report)
	return nil
}

type reporter func(kind, format string, a ...interface{})

func auditCommits(app applications.Application, ctx uint, m *mDB, miningValue byte, st *auditStats, report reporter) {
	// commits
	commits, err := app.Commits(ctx)
	if len(m.commits) == 0 {
		if err == nil && commits != nil && len(commits.List()) > 0 {
			report("commits", "%d commits listed, none was made", len(commits.List()))
		}
	} else {
		if err != nil {
			report("commits", "commits are not available: %v", err)
			return
		}
		list := commits.List()
		if len(list) != len(m.commits) {
			report("commits", "%d commits listed, %d were made", len(list), len(m.commits))
		}
		prev := ""
		prevTime := time.Time{}
		for i, cm := range list {
			if i >= len(m.commits) {
				return
			}
			st.commits++
			mc := m.commits[i]
			h := cm.Hash().String()
			if mc.learned && (mc.hash != h || !mc.created.Equal(cm.CreatedOn())) {
				report("chain", "commit %d changed: hash %s.. date %v, was %s.. %v", i, h[:12], cm.CreatedOn(), mc.hash[:12], mc.created)
			}
			if !mc.learned {
				mc.learned, mc.hash, mc.created = true, h, cm.CreatedOn()
			}
			if i == 0 && cm.HasParent() {
				report("chain", "the first commit has a parent")
			}
			if i > 0 {
				if !cm.HasParent() || cm.Parent() == nil {
					report("chain", "commit %d has no parent", i)
				} else if cm.Parent().String() != prev {
					report("chain", "commit %d names parent %s.., the commit before it is %s..", i, cm.Parent().String()[:12], prev[:12])
				}
			}
			if cm.CreatedOn().Before(prevTime) {
				report("chain", "commit %d is dated %v, before its parent (%v)", i, cm.CreatedOn(), prevTime)
			}
			if !mc.notBefore.IsZero() && (cm.CreatedOn().Before(mc.notBefore) || cm.CreatedOn().After(mc.notAfter)) {
				report("chain", "commit %d is dated %v, it was made between %v and %v", i, cm.CreatedOn(), mc.notBefore, mc.notAfter)
			}
			leaves := [][]byte{}
			for _, w := range mc.writes {
				leaves = append(leaves, refLeafHash(w.hash.Bytes()))
			}
			if !bytes.Equal(cm.Values().Head().Bytes(), refMerkleRoot(leaves)) {
				report("chain", "the values root of commit %d is not the Merkle root of the %d hashes written in it", i, len(leaves))
			}
			compact, err := hashtrees.NewAdapter().ToCompact(cm.Values())
			if err != nil {
				report("chain", "the values of commit %d cannot be listed: %v", i, err)
				continue
			}
			got := compact.Leaves().Leaves()
			for k, l := range leaves {
				if k >= len(got) || !bytes.Equal(got[k].Head().Bytes(), l) {
					report("chain", "leaf %d of the values of commit %d is not the hash written", k, i)
				}
			}
			b := references.NewCommitBuilder(miningValue).Create().WithValues(cm.Values()).CreatedOn(cm.CreatedOn())
			if cm.HasParent() {
				b = b.WithParent(*cm.Parent())
			}
			if cm.HasMine() {
				b = b.WithProof(cm.Mine().Proof())
			}
			again, err := b.Now()
			if err != nil || again.Hash().String() != h {
				report("chain", "the hash of commit %d is not recomputable from its parts (%v)", i, err)
			}
			one, err := app.CommitByHash(ctx, cm.Hash())
			if err != nil || one.Hash().String() != h || one.Values().Head().String() != cm.Values().Head().String() {
				report("chain", "commit %d is not found by its hash: %v", i, err)
			}
			prev, prevTime = h, cm.CreatedOn()
		}
		if latest := commits.Latest(); latest.Hash().String() != m.commits[len(m.commits)-1].hash {
			report("chain", "the latest commit is not the last one made")
		}
		unknown, _ := hash.NewAdapter().FromBytes([]byte("unknown commit"))
		if _, err := app.CommitByHash(ctx, *unknown); err == nil {
			report("chain", "an unknown commit hash was found")
		}
	}
}

func auditKeys(app applications.Application, ctx uint, m *mDB, r *rand.Rand, st *auditStats, report reporter) ([]references.Pointer, [][]byte) {
	// keys by kind
	type span struct{ from, to uint }
	spans := []span{}
	allPointers := []references.Pointer{}
	allData := [][]byte{}
	total := uint(0)
	for _, kind := range m.kinds() {
		keys, err := app.ContentKeysByKind(ctx, kind)
		if err != nil {
			report("kinds", "keys of kind %d are not available: %v", kind, err)
			return allPointers, allData
		}
		type want struct {
			w mWrite
			c *mCommit
		}
		wants := []want{}
		for _, c := range m.commits {
			for _, w := range c.writes {
				if w.kind == kind {
					wants = append(wants, want{w, c})
				}
			}
		}
		list := keys.List()
		if len(list) != len(wants) {
			report("keys", "%d keys of kind %d are listed, %d were committed", len(list), kind, len(wants))
			return allPointers, allData
		}
		for i, k := range list {
			st.keys++
			w := wants[i]
			if k.Kind() != kind {
				report("kinds", "key %d of kind %d has kind %d", i, kind, k.Kind())
			}
			if k.Hash().String() != w.w.hash.String() {
				report("keys", "key %d of kind %d has hash %s.., %s.. was written", i, kind, k.Hash().String()[:12], w.w.hash.String()[:12])
			}
			if int(k.Content().Length()) != len(w.w.data) {
				report("keys", "key %d of kind %d has length %d, %d bytes were written", i, kind, k.Content().Length(), len(w.w.data))
				return allPointers, allData
			}
			if w.c.learned && k.Commit().String() != w.c.hash {
				report("keys", "key %d of kind %d names commit %s.., it was committed in %s..", i, kind, k.Commit().String()[:12], w.c.hash[:12])
			}
			found := false
			if cm, err := app.CommitByHash(ctx, k.Commit()); err != nil {
				report("keys", "the commit of key %d of kind %d is not found: %v", i, kind, err)
			} else if compact, err := hashtrees.NewAdapter().ToCompact(cm.Values()); err != nil {
				report("chain", "values: %v", err)
			} else {
				for _, l := range compact.Leaves().Leaves() {
					if l.Head().String() == k.Hash().String() {
						found = true
						break
					}
				}
			}
			if !found {
				report("keys", "the commit of key %d of kind %d does not hold its hash", i, kind)
			}
			spans = append(spans, span{k.Content().From(), k.Content().From() + k.Content().Length()})
			total += k.Content().Length()
			allPointers = append(allPointers, k.Content())
			allData = append(allData, w.w.data)
			data, err := app.Read(ctx, k.Content())
			if err != nil {
				report("content", "key %d of kind %d (%d..%d) cannot be read: %v", i, kind, k.Content().From(), k.Content().From()+k.Content().Length(), err)
			}
			st.reads++
			if !bytes.Equal(data, w.w.data) {
				report("content", "key %d of kind %d reads %s, %s was written", i, kind, short(data), short(w.w.data))
			}
			for x := range data { // the caller may do what it wants with the result
				data[x] ^= 0xff
			}
			if len(w.w.data) > 1 && r.Intn(3) == 0 {
				off := uint(r.Intn(len(w.w.data) - 1))
				ln := uint(1 + r.Intn(len(w.w.data)-int(off)))
				p, err := references.NewPointerBuilder().Create().From(k.Content().From() + off).WithLength(ln).Now()
				if err != nil {
					panic(err)
				}
				sub, err := app.Read(ctx, p)
				st.reads++
				if err != nil || !bytes.Equal(sub, w.w.data[off:off+ln]) {
					report("content", "part %d+%d of key %d of kind %d reads %s (%v), %s was written", off, ln, i, kind, short(sub), err, short(w.w.data[off:off+ln]))
				}
			}
		}
	}
	// a kind never used
	for tries := 0; tries < 2; tries++ {
		k := uint(r.Intn(7))
		if tries == 1 {
			k = uint(r.Uint64())
		}
		used := false
		for _, x := range m.kinds() {
			used = used || x == k
		}
		if used {
			continue
		}
		st.negative++
		if keys, err := app.ContentKeysByKind(ctx, k); err == nil {
			n := 0
			if keys != nil {
				n = len(keys.List())
			}
			report("kinds", "%d keys are listed for kind %d, which was never committed", n, k)
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].from < spans[j].from })
	at := uint(0)
	for _, s := range spans {
		if s.from != at {
			report("kinds", "stored content is not covered or overlaps at %d (next pointer starts at %d)", at, s.from)
		}
		at = s.to
	}
	if at != total {
		report("kinds", "the pointers cover %d bytes, %d were committed", at, total)
	}
	// beyond the end
	if p, err := references.NewPointerBuilder().Create().From(total).WithLength(1 + uint(r.Intn(10))).Now(); err == nil {
		st.negative++
		if d, err := app.Read(ctx, p); err == nil {
			report("content", "reading behind the stored content gives %s", short(d))
		}
	}
	return allPointers, allData
}

func auditHashes(app applications.Application, ctx uint, m *mDB, pending []mWrite, allPointers []references.Pointer, allData [][]byte, r *rand.Rand, st *auditStats, report reporter) {
	// by hash, alone and batched
	hashes := []hash.Hash{}
	wantByHash := [][][]byte{}
	seen := map[string]bool{}
	for _, c := range m.commits {
		for _, w := range c.writes {
			s := w.hash.String()
			if seen[s] {
				continue
			}
			seen[s] = true
			want := m.byHash(s)
			hashes = append(hashes, w.hash)
			wantByHash = append(wantByHash, want)
			data, err := app.ReadByHash(ctx, w.hash)
			st.reads++
			if err != nil {
				report("content", "hash %s.. cannot be read: %v", s[:12], err)
			}
			if !anyEqual(data, want) {
				report("content", "hash %s.. reads %s, %s was written", s[:12], short(data), short(want[len(want)-1]))
			}
		}
	}
	perm := r.Perm(len(hashes))
	ph, pw := []hash.Hash{}, [][][]byte{}
	for _, i := range perm {
		ph = append(ph, hashes[i])
		pw = append(pw, wantByHash[i])
	}
	if len(ph) > 0 {
		batch, err := app.ReadAllByHashes(ctx, ph)
		if err != nil || len(batch) != len(ph) {
			report("content", "batch by %d hashes gives %d results: %v", len(ph), len(batch), err)
			return
		}
		for i := range batch {
			st.reads++
			if !anyEqual(batch[i], pw[i]) {
				report("content", "result %d of a batch by hashes is %s, %s was written", i, short(batch[i]), short(pw[i][0]))
			}
		}
		perm = r.Perm(len(allPointers))
		pp, pd := []references.Pointer{}, [][]byte{}
		for _, i := range perm {
			pp = append(pp, allPointers[i])
			pd = append(pd, allData[i])
		}
		batch, err = app.ReadAll(ctx, pp)
		if err != nil || len(batch) != len(pp) {
			report("content", "batch by %d pointers gives %d results: %v", len(pp), len(batch), err)
			return
		}
		for i := range batch {
			st.reads++
			if !bytes.Equal(batch[i], pd[i]) {
				report("content", "result %d of a batch by pointers is %s, %s was written", i, short(batch[i]), short(pd[i]))
			}
		}
	}
	// pending, cancelled and unknown content must be invisible
	inv := append(append([]mWrite{}, pending...), m.discarded...)
	u, _ := hash.NewAdapter().FromBytes([]byte(fmt.Sprintf("unknown %d", r.Int63())))
	inv = append(inv, mWrite{hash: *u})
	if len(hashes) > 0 {
		inv = append(inv, mWrite{hash: nearHash(r, hashes[r.Intn(len(hashes))])})
	}
	for i, w := range inv {
		if m.byHash(w.hash.String()) != nil {
			continue
		}
		if len(inv)-i > 12 && r.Intn(3) != 0 {
			continue
		}
		st.negative++
		if d, err := app.ReadByHash(ctx, w.hash); err == nil {
			report("pending", "uncommitted, cancelled or unknown hash %s.. reads %s", w.hash.String()[:12], short(d))
		}
		at := r.Intn(len(hashes) + 1)
		if got, err := app.ReadAllByHashes(ctx, append(append(append([]hash.Hash{}, hashes[:at]...), w.hash), hashes[at:]...)); err == nil {
			report("pending", "a batch with an uncommitted, cancelled or unknown hash succeeds")
			if len(got) != len(hashes)+1 {
				report("content", "a batch of %d hashes gives %d contents", len(hashes)+1, len(got))
			}
		}
	}
}

func anyEqual(d []byte, want [][]byte) bool {
	for _, w := range want {
		if bytes.Equal(d, w) {
			return true
		}
	}
	return false
}

// auditFresh opens the database in a fresh application and audits it.
func auditFresh(dir, name string, chunk uint, mv byte, m *mDB, r *rand.Rand, st *auditStats) *auditErr {
	app := files.NewApplication(mv, dir, dbDst, dbBck, chunk)
	ok, err := app.Exists(name)
	if err != nil || !ok {
		return aerr("missing", "the database %s does not exist (%v)", name, err)
	}
	p, err := app.Open(name)
	if err != nil {
		return aerr("open", "a new session cannot open %s: %v", name, err)
	}
	defer app.Close(*p)
	return auditDB(app, *p, m, nil, mv, r, st)
}

func dirNames(dir string) string {
	es, _ := os.ReadDir(dir)
	out := []string{}
	for _, e := range es {
		out = append(out, e.Name())
	}
	return strings.Join(out, ",")
}

func fileSum(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "-"
	}
	s := sha512.Sum512(b)
	return fmt.Sprintf("%d-%x", len(b), s[:8])
}

func allSums(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.IsDir() {
			out[e.Name()] = "folder of " + dirNames(filepath.Join(dir, e.Name()))
			continue
		}
		out[e.Name()] = fileSum(filepath.Join(dir, e.Name()))
	}
	return out
}

func sumsDiff(a, b map[string]string) string {
	out := []string{}
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" disappeared")
		} else if w != v {
			out = append(out, k+" changed "+v+" -> "+w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" appeared")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

var chunkSizes = []uint{0, 1, 2, 3, 5, 7, 8, 13, 16, 31, 64, 100, 128, 255, 256, 1000, 1024, 4096, 65535, 65536, 1000000}

func genSize(r *rand.Rand, chunk uint, max int) int {
	n := 1
	switch r.Intn(7) {
	case 0:
		n = 1 + r.Intn(8)
	case 1:
		n = 1 + r.Intn(80)
	case 2:
		n = int(chunk)*(1+r.Intn(3)) + r.Intn(3) - 1
	case 3:
		n = 1 + r.Intn(600)
	case 4:
		n = 62 + r.Intn(5)
	case 5:
		n = 1 + r.Intn(5000)
	case 6:
		n = 1 << uint(r.Intn(14))
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = 1 + r.Intn(max)
	}
	return n
}

// largeSize: around and above what 16 bits hold
func largeSize(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return 65534 + r.Intn(5)
	case 1:
		return 65536*(1+r.Intn(4)) + r.Intn(5) - 2
	case 2:
		return 32766 + r.Intn(5)
	}
	return 1 + r.Intn(300000)
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		r.Read(b)
	}
	return b
}

func hashOf(b []byte) hash.Hash {
	// independent of the adapter: sha512 of the bytes
	s := sha512.Sum512(b)
	return hash.Hash(append([]byte{}, s[:]...))
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
