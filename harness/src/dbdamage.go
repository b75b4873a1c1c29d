//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// runDamaged opens damaged database files and reads through them.
func runDamaged(c *Ctx) {
	r := c.R
	dir := c.Scratch()
	if c.Index%1200 == 7 {
		farContent(c)
		return
	}
	s := buildScenario(c, filepath.Join(dir, "base"))
	valid, err := os.ReadFile(filepath.Join(s.base, s.name))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if len(valid) == 0 {
		c.Count("empty bases", 1)
		valid = genBytes(r, r.Intn(40))
	}
	for i := 0; i < 25; i++ {
		var b []byte
		what := ""
		switch r.Intn(6) {
		case 0: // the header
			b = append([]byte{}, valid...)
			if len(b) < 8 {
				b = append(b, make([]byte, 8)...)
			}
			old := binary.LittleEndian.Uint64(b)
			opts := []uint64{0, 1, 7, 8, old - 1, old + 1, uint64(len(b)), uint64(len(b)) - 8, uint64(len(b)) - 7, uint64(len(b)) - 9, 1 << 20, 1 << 31, 1 << 40, 1 << 62, 1 << 63, 1<<63 - 8, math.MaxUint64, math.MaxUint64 - 7, math.MaxUint64 - 8, r.Uint64(), uint64(r.Intn(300))}
			v := opts[r.Intn(len(opts))]
			binary.LittleEndian.PutUint64(b, v)
			what = fmt.Sprintf("header %d instead of %d", v, old)
		case 1: // the reference, with a header that fits
			if len(valid) < 16 {
				continue
			}
			l := int(binary.LittleEndian.Uint64(valid))
			if l <= 0 || l > len(valid)-8 {
				continue
			}
			var w string
			b, w = mutate(r, valid[8:8+l], valid)
			what = "reference " + w
			h := make([]byte, 8)
			binary.LittleEndian.PutUint64(h, uint64(len(b)))
			b = append(append(h, b...), valid[8+l:]...)
		case 2:
			b = genBytes(r, r.Intn(24))
			what = "few bytes"
		default:
			b, what = mutate(r, valid, valid)
			what = "file " + what
		}
		damagedFile(c, dir, i, b, what, s.mv)
	}
	c.Sample("a file of %d bytes with %d commits, chunk size %d", len(valid), len(s.model.commits), s.chunk)
}

func damagedFile(c *Ctx, dir string, i int, b []byte, what string, mv byte) {
	r := c.R
	d := filepath.Join(dir, fmt.Sprintf("f%d", i))
	os.MkdirAll(d, 0777)
	path := filepath.Join(d, "db")
	if err := os.WriteFile(path, b, 0666); err != nil {
		panic("harness: " + err.Error())
	}
	chunk := chunkSizes[r.Intn(len(chunkSizes))]
	if r.Intn(5) == 0 {
		chunk = uint(1) << uint(20+r.Intn(40))
	}
	app := files.NewApplication(mv, d, dbDst, dbBck, chunk)
	keep := hex.EncodeToString(b)
	guard := func(op string, bound uint64, f func()) {
		a0 := allocated()
		if p, msg := Protect(f); p {
			c.Violate("crash:"+op, "%s on a damaged file (%s, %d bytes, chunk %d) panicked: %s\nfile: %s", op, what, len(b), chunk, msg, cut(keep, 6000))
		}
		if u := allocated() - a0; u > bound {
			c.Violate("alloc:"+op, "%s on a damaged file (%s, %d bytes, chunk %d) allocated %d bytes\nfile: %s", op, what, len(b), chunk, u, cut(keep, 6000))
		}
		c.Count("operations", 1)
	}
	unchanged := func(op string) {
		now, err := os.ReadFile(path)
		if err != nil || !bytes.Equal(now, b) {
			c.Violate("changed:"+op, "%s changed a damaged file (%s, %d bytes)", op, what, len(b))
		}
		if n := dirNames(d); n != "db" {
			c.Violate("files:"+op, "%s on a damaged file left the files %s", op, n)
		}
	}
	c.Distinct(string(b))
	c.Count("damaged files", 1)
	var id *uint
	var err error
	guard("open", 16<<20+uint64(len(b))*4000, func() { id, err = app.Open("db") })
	unchanged("open")
	if err != nil {
		c.Count("refused", 1)
		// refused: nothing stays open
		if e, err2 := app.Exists("db"); !e || err2 != nil {
			c.Violate("exists", "a refused file does not exist any more")
		}
		return
	}
	c.Count("opened", 1)
	readBound := uint64(1<<20) + uint64(len(b))*8
	var commits references.Commits
	guard("commits", 1<<20, func() { commits, err = app.Commits(*id) })
	if err != nil {
		if len(b) > 0 {
			c.Violate("taken-for-empty", "a file of %d bytes (%s) was opened as an empty database (%v)", len(b), what, err)
		}
	}
	hashes := []hash.Hash{genHash(r)}
	kinds := map[uint]bool{0: true, 1: true, 2: true, math.MaxUint: true}
	if err == nil {
		for _, cm := range commits.List() {
			cm := cm
			guard("commit", 1<<20+uint64(len(b))*4000, func() {
				got, err := app.CommitByHash(*id, cm.Hash())
				if err != nil || !got.Hash().Compare(cm.Hash()) {
					c.Violate("commit-by-hash", "a listed commit is not found by its hash (%v)", err)
				}
				showCommit(cm)
			})
		}
	}
	ref := 0
	if len(b) >= 8 {
		ref = 8 + int(binary.LittleEndian.Uint64(b))
	}
	pointers := []references.Pointer{}
	for k := range kinds {
		var keys references.ContentKeys
		guard("keys", 4<<20+uint64(len(b))*100, func() { keys, err = app.ContentKeysByKind(*id, k) })
		if err != nil {
			continue
		}
		for _, e := range keys.List() {
			hashes = append(hashes, e.Hash())
			pointers = append(pointers, e.Content())
		}
	}
	for i := 0; i < 6; i++ {
		pointers = append(pointers, genPointer(r))
	}
	if len(b) > 0 {
		p, err := references.NewPointerBuilder().Create().From(uint(r.Intn(len(b)))).WithLength(uint(1 + r.Intn(len(b)))).Now()
		must(err)
		pointers = append(pointers, p)
	}
	for _, p := range pointers {
		var data []byte
		guard("read", readBound, func() { data, err = app.Read(*id, p) })
		inside := len(b) > 0 && p.From() <= uint(len(b)) && p.Length() <= uint(len(b)) && uint(ref)+p.From()+p.Length() <= uint(len(b))
		if err == nil {
			c.Count("reads", 1)
			if !inside {
				c.Violate("read-outside", "reading %s of a damaged file of %d bytes gave %d bytes", showPointer(p), len(b), len(data))
			}
			from := uint(ref) + p.From()
			if !bytes.Equal(data, b[from:from+p.Length()]) {
				c.Violate("read-wrong", "reading %s of a damaged file (%s) did not give the bytes stored there", showPointer(p), what)
			}
		} else {
			c.Count("reads refused", 1)
			if inside {
				c.Violate("read-refused", "reading %s, stored in the damaged file of %d bytes, failed: %v", showPointer(p), len(b), err)
			}
		}
	}
	guard("readall", readBound*uint64(len(pointers)+1), func() { app.ReadAll(*id, pointers) })
	for _, h := range hashes {
		guard("readbyhash", readBound, func() { app.ReadByHash(*id, h) })
	}
	guard("readallbyhashes", readBound*uint64(len(hashes)+1), func() { app.ReadAllByHashes(*id, hashes) })
	unchanged("reading")
	if r.Intn(3) == 0 {
		data := genBytes(r, 1+r.Intn(300))
		h := hashOf(data)
		cerr := error(nil)
		guard("write", 1<<20, func() { cerr = app.Write(*id, h, data, 1) })
		if cerr == nil {
			bound := uint64(16<<20) + uint64(len(b))*5000 + uint64(len(b))*uint64(len(b))
			guard("commit", bound, func() { cerr = app.Commit(*id) })
			if cerr != nil {
				c.Count("commits refused", 1)
				now, err := os.ReadFile(path)
				if err != nil || !bytes.Equal(now, b) {
					c.Violate("changed:commit", "a failed commit (%v) changed a damaged file (%s)", cerr, what)
				}
			} else {
				c.Count("commits done", 1)
				got := []byte(nil)
				guard("readbyhash", readBound+1<<20, func() { got, err = app.ReadByHash(*id, h) })
				if err != nil || !bytes.Equal(got, data) {
					c.Violate("commit-lost", "content committed over a damaged file (%s) is not readable (%v)", what, err)
				}
			}
		}
	}
	guard("close", 1<<20, func() { err = app.Close(*id) })
	if err != nil {
		c.Violate("close", "closing failed: %v", err)
	}
	os.RemoveAll(d)
}

func init() {
	register(&Prop{ID: "D11", MemMB: 6000, Hang: 60 * time.Second,
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 40000
			}
			return 1200
		},
		Run: runDamaged, Level: "exploration",
		Rule: "a case builds a database of up to three commits and damages its file 25 times (header values, mutated references with a fitting header, truncations, extensions, flips, hostile lengths, few random bytes; and one file of six gigabytes, most of it a hole), opens each with a random chunk size and runs every reading operation, in a third of them also a write and commit; distinct file contents are counted; every operation is watched for panics and allocation, reads are compared with the file's bytes",
	})
}
