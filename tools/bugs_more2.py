#!/usr/bin/env python3
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "bugs_more.py")).read()
exec(src.split('bug("', 1)[0].replace("__file__", repr(os.path.join(HERE, "bugs_more.py"))))

FDS = '''
func fds(dir string) int {
	n := 0
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	wd, _ := os.Getwd()
	wd, _ = filepath.EvalSymlinks(wd)
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(to, wd+"/"+dir+"/") {
			n++
		}
	}
	return n
}
'''
DBF = DB.replace('"os"\n', '"os"\n\t"path/filepath"\n\t"strings"\n') + FDS

bug("db-close-pending", "D12",
 [(APP, """		err := pContext.pConn.Close()
		if err != nil {
			return err
		}

		delete(app.contexts, context)
		return nil
""", """		// what was written and not committed is dropped with the context:
		delete(app.contexts, context)
		if len(pContext.contentList) > 0 {
			return app.drop(pContext)
		}

		return pContext.pConn.Close()
"""),
 (APP, "// Close closes a context\n", """func (app *application) drop(context *context) error {
	context.contentList = nil
	context.reference = nil
	return nil
}

// Close closes a context
""")],
 "closing a context that has pending writes", "its file stays open: each such close leaks a descriptor",
 DBF + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	for i := 0; i < 5; i++ {
		id, err := app.Open("a")
		must(err)
		d := []byte{byte(i), 1}
		must(app.Write(*id, h(d), d, 1))
		must(app.Close(*id))
		if n := fds("db"); n != 0 {
			fail("%d files are open, no context is", n)
		}
	}
}
''')

bug("db-destination-leak", "D12",
 [(APP, """	// close the destination:
	defer destination.Close()

""", ""),
  (APP, """	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
""", """	// close the destination, an error means the data might not be on disk:
	err = destination.Close()
	if err != nil {
		return nil, err
	}

	dataOffset := uint(writtenAmount)
	return &dataOffset, nil
""")],
 "a commit that fails while it writes the new file, for example because the disk is full", "the destination file stays open after each failed commit",
 DBF + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	d := []byte{1, 2}
	must(app.Write(*id, h(d), d, 1))
	must(os.Symlink("/dev/full", "db/a.destination"))
	n := func() int {
		es, err := os.ReadDir("/proc/self/fd")
		must(err)
		k := 0
		for _, e := range es {
			if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && to == "/dev/full" {
				k++
			}
		}
		return k + fds("db")
	}
	for i := 0; i < 3; i++ {
		if app.Commit(*id) == nil {
			fail("a commit on a full disk succeeds")
		}
		if k := n(); k != 1 {
			fail("%d files are open, one context is", k)
		}
	}
}
''')

bug("db-backup-whole", "D14",
 [(APP, """	_, err = io.Copy(backupPtr, context.pConn)
	if err != nil {
""", """	backupBytes, err := io.ReadAll(context.pConn)
	if err == nil {
		_, err = backupPtr.Write(backupBytes)
	}

	if err != nil {
""")],
 "a commit on a large database", "the whole database is held in memory, whatever the chunk size",
 DB.replace('"os"\n', '"os"\n\t"runtime"\n') + '''
func main() {
	app := newApp(4096)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	d := make([]byte, 100<<20)
	must(app.Write(*id, h(d[:1]), d, 1))
	must(app.Commit(*id))
	must(app.Close(*id))
	d = nil
	id, err = app.Open("a")
	must(err)
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	before := m.TotalAlloc
	d = []byte{1}
	must(app.Write(*id, h(d), d, 1))
	must(app.Commit(*id))
	runtime.ReadMemStats(&m)
	// everything is copied by chunks, so allocations add up to once the size
	if got := (m.TotalAlloc - before) >> 20; got > 150 {
		fail("a commit of 1 byte allocates %d MB", got)
	}
}
''')

bug("keys-kind-index", "D13",
 [(REF + "contentkeys.go", """	output := []ContentKey{}
	for _, oneContentKey := range obj.list {
		if oneContentKey.Kind() != kind {
			continue
		}

		output = append(output, oneContentKey)
	}

	return output
""", """	// group the list by kind, the first time only:
	if obj.kinds == nil {
		obj.kinds = map[uint][]ContentKey{}
		for _, oneContentKey := range obj.list {
			kind := oneContentKey.Kind()
			obj.kinds[kind] = append(obj.kinds[kind], oneContentKey)
		}
	}

	output := []ContentKey{}
	return append(output, obj.kinds[kind]...)
"""),
  (REF + "contentkeys.go", "	list []ContentKey\n}\n", "	list []ContentKey\n	kinds map[uint][]ContentKey\n}\n")],
 "two goroutines that read keys by kind on a context nobody has read by kind yet", "they race on the index: some keys are missing, or the process crashes",
 DB.replace('"os"\n', '"os"\n\t"sync"\n') + '''
func main() {
	app := newApp(0)
	for round := 0; round < 40; round++ {
		name := fmt.Sprint("a", round)
		must(app.New(name))
		id, err := app.Open(name)
		must(err)
		for i := 0; i < 1500; i++ {
			d := []byte{byte(i), byte(i >> 8), 1}
			must(app.Write(*id, h(d), d, uint(i%300)))
		}
		must(app.Commit(*id))
		begin := make(chan bool)
		bad := make(chan string, 8)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for k := uint(0); k < 300; k++ {
					keys, err := app.ContentKeysByKind(*id, 299-k)
					if err != nil || len(keys.List()) != 5 {
						bad <- fmt.Sprintf("kind %d: %v", k, err)
						return
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		close(bad)
		for s := range bad {
			fail("%s", s)
		}
		must(app.Close(*id))
		must(app.Delete(name))
	}
}
''')

bug("keys-count-16", "S01",
 [(REF + "contentkeys_adapter.go", "	binary.LittleEndian.PutUint64(lengthBytes, uint64(len(list)))\n", "	binary.LittleEndian.PutUint16(lengthBytes, uint16(len(list)))\n")],
 "a database of more than 65535 contents", "all keys beyond a multiple of 65536 are lost by encoding",
 DB + '''
func main() {
	app := newApp(0)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i := 0; i < 65600; i++ {
		d := []byte{byte(i), byte(i >> 8), byte(i >> 16), 1}
		must(app.Write(*id, h(d), d, 1))
	}
	must(app.Commit(*id))
	must(app.Close(*id))
	id, err = app.Open("a")
	must(err)
	keys, err := app.ContentKeysByKind(*id, 1)
	must(err)
	if n := len(keys.List()); n != 65600 {
		fail("%d keys", n)
	}
}
''')

bug("proof-length-16", "S01",
 [(REF + "commit_adapter.go", "		binary.LittleEndian.PutUint64(proofBytesLength, uint64(len(proofBytes)))\n", "		binary.LittleEndian.PutUint16(proofBytesLength, uint16(len(proofBytes)))\n")],
 "a commit with a proof of more than 65535 bytes", "its encoding is refused, or comes back with another proof",
 '''package main

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	v, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{1}, {2}}).Now()
	must(err)
	proof := new(big.Int).Lsh(big.NewInt(5), 8*65536)
	c, err := references.NewCommitBuilder(1).Create().WithValues(v).CreatedOn(time.Unix(5, 5).UTC()).WithProof(proof).Now()
	must(err)
	ad := references.NewCommitAdapter(1)
	b, err := ad.ToContent(c)
	must(err)
	d, err := ad.ToCommit(b)
	must(err)
	if !d.HasMine() || d.Mine().Proof().Cmp(proof) != 0 {
		fail("the proof changed")
	}
}
''')

bug("db-partial-write", "D07",
 [(APP, """	amountWritten, err := pConn.Write(data)
	if err != nil {
		return err
	}

	amountExpected := len(data)
	if amountExpected != amountWritten {
		str := fmt.Sprintf("%d bytes were expected to be written, %d actually written", amountExpected, amountWritten)
		return errors.New(str)
	}

	return nil
""", """	amountWritten, err := pConn.Write(data)
	if amountWritten <= 0 && len(data) > 0 {
		return err
	}

	return nil
""")],
 "a disk that fills up in the middle of a content", "the commit succeeds with the end of the content missing",
 DB.replace('"os"\n', '"os"\n\t"os/signal"\n\t"syscall"\n') + '''
func main() {
	signal.Ignore(syscall.SIGXFSZ)
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	d := bytes.Repeat([]byte{7}, 50000)
	must(app.Write(*id, h(d), d, 1))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 20000, Max: 1 << 40}))
	if app.Commit(*id) == nil {
		fail("the commit of 50000 bytes succeeds with files of 20000 bytes at most")
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1 << 40, Max: 1 << 40}))
	must(app.Commit(*id))
	got, err := app.ReadByHash(*id, h(d))
	must(err)
	if !bytes.Equal(got, d) {
		fail("other bytes")
	}
}
''')

bug("pointer-scratch", "S05",
 [(REF + "pointer_adapter.go", """	fromBytes := make([]byte, 8)
	binary.LittleEndian.PutUint64(fromBytes, uint64(ins.From()))

	lengthBytes := make([]byte, 8)
	binary.LittleEndian.PutUint64(lengthBytes, uint64(ins.Length()))

	output := []byte{}
	output = append(output, []byte(fromBytes)...)
	output = append(output, []byte(lengthBytes)...)
	return output, nil
""", """	// the numbers are written in a buffer that is made once:
	binary.LittleEndian.PutUint64(app.buffer[:8], uint64(ins.From()))
	binary.LittleEndian.PutUint64(app.buffer[8:], uint64(ins.Length()))

	output := []byte{}
	output = append(output, app.buffer...)
	return output, nil
"""), (REF + "pointer_adapter.go", "	builder PointerBuilder\n}\n", "	builder PointerBuilder\n	buffer  []byte\n}\n"),
 (REF + "pointer_adapter.go", "		builder: builder,\n", "		builder: builder,\n		buffer:  make([]byte, 16),\n")],
 "two goroutines that encode with one adapter at the same time", "one of them gets the pointer of the other, or a mix of both",
 """package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sync"

	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
""" + FAIL + """
func main() {
	ad := references.NewPointerAdapter()
	bad := make(chan string, 8)
	var wg sync.WaitGroup
	for g := 1; g <= 8; g++ {
		p, err := references.NewPointerBuilder().Create().From(uint(g)).WithLength(uint(g)).Now()
		must(err)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 500000; k++ {
				b, err := ad.ToContent(p)
				if err != nil || binary.LittleEndian.Uint64(b[:8]) != uint64(p.From()) || binary.LittleEndian.Uint64(b[8:]) != uint64(p.From()) {
					bad <- fmt.Sprintf("%v for %d", b, p.From())
					return
				}
			}
		}()
	}
	wg.Wait()
	close(bad)
	for s := range bad {
		fail("%s", s)
	}
}
""")

bug("pointer-big-endian", "F01",
 [(REF + "pointer_adapter.go", "	binary.LittleEndian.PutUint64(fromBytes, uint64(ins.From()))\n", "	binary.BigEndian.PutUint64(fromBytes, uint64(ins.From()))\n"),
  (REF + "pointer_adapter.go", "	from := binary.LittleEndian.Uint64(content[:8])\n", "	from := binary.BigEndian.Uint64(content[:8])\n")],
 "a database written by an earlier version, with at least two contents", "its contents cannot be read any more: both sides of the encoding changed together",
 '''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	p, err := references.NewPointerAdapter().ToPointer([]byte{2, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0})
	must(err)
	if p.From() != 2 || p.Length() != 3 {
		fail("a stored pointer is read as %d, %d", p.From(), p.Length())
	}
	b, err := references.NewPointerAdapter().ToContent(p)
	must(err)
	if !bytes.Equal(b, []byte{2, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0}) {
		fail("stored as %v", b)
	}
}
''')
