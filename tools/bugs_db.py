#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
APP = "libs/databases/infrastructure/files/application.go"
REF = "libs/databases/domain/references/"
PRE = '''package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

var _ = bytes.Equal

func h(b []byte) hash.Hash {
	s := sha512.Sum512(b)
	return hash.Hash(s[:])
}

func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}

func newApp(chunk uint) applications.Application {
	return files.NewApplication('0', "db", "destination", "backup", chunk)
}
'''
bug("db-dedupe-keys", "D02",
 [(APP, '''			//save the content key to the list:
			contentKeysList = append(contentKeysList, contentKey)
''', '''			// the content is already known with that kind, so keep its key:
			if pContext.reference != nil {
				if existing, err := pContext.reference.ContentKeys().Fetch(oneContent.Hash()); err == nil && existing.Kind() == oneContent.Kind() {
					offset += dataLength
					continue
				}
			}

			//save the content key to the list:
			contentKeysList = append(contentKeysList, contentKey)
''')],
 "a hash committed again with the same kind in a later commit, next to a new one",
 "the later write of a known hash gets no content key: the latest version is not readable",
 PRE + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	must(app.Write(*id, h([]byte("x")), []byte("first"), 1))
	must(app.Commit(*id))
	must(app.Write(*id, h([]byte("x")), []byte("second version"), 1))
	must(app.Write(*id, h([]byte("y")), []byte("other"), 1))
	must(app.Commit(*id))
	keys, err := app.ContentKeysByKind(*id, 1)
	must(err)
	if len(keys.List()) != 3 {
		fail("3 writes, %d keys", len(keys.List()))
	}
}
''')
bug("db-parent-first", "D03",
 [(REF + "commits.go", "	return obj.list[len(obj.list)-1]\n", '''	latest := obj.list[0]
	for _, oneCommit := range obj.list {
		if oneCommit.CreatedOn().Unix() > latest.CreatedOn().Unix() {
			latest = oneCommit
		}
	}

	return latest
''')],
 "three commits of which the last two before the new one fall in the same second",
 "a commit's parent is not the commit just before it",
 PRE + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i := 0; i < 6; i++ {
		d := []byte(fmt.Sprint("c", i))
		must(app.Write(*id, h(d), d, 1))
		must(app.Commit(*id))
	}
	commits, err := app.Commits(*id)
	must(err)
	l := commits.List()
	for i := 1; i < len(l); i++ {
		if l[i].Parent().String() != l[i-1].Hash().String() {
			fail("commit %d does not follow %d", i, i-1)
		}
	}
}
''')
bug("db-kind-break", "D10",
 [(REF + "contentkeys.go", '''		if oneContentKey.Kind() != kind {
			continue
		}
''', '''		if oneContentKey.Kind() != kind {
			// the keys of a commit are contiguous:
			if len(output) > 0 && output[len(output)-1].Commit().Compare(oneContentKey.Commit()) {
				break
			}

			continue
		}
''')],
 "a commit that writes one kind, then another, and a later key of the first kind",
 "keys of a kind written after another kind are not listed",
 PRE + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i, k := range []uint{1, 2, 1} {
		d := []byte(fmt.Sprint("c", i))
		must(app.Write(*id, h(d), d, k))
	}
	must(app.Commit(*id))
	keys, err := app.ContentKeysByKind(*id, 1)
	must(err)
	if len(keys.List()) != 2 {
		fail("2 writes of kind 1, %d keys", len(keys.List()))
	}
}
''')
bug("db-lock-early", "D08",
 [(APP, '''	// release the lock on closing the method:
	defer context.pLock.Unlock()
''', '''	// the lock only tells if somebody else is committing right now:
	context.pLock.Unlock()
''')],
 "two sessions with an up to date view that commit at the same time, both checking before either replaces the file",
 "the commit of one of them is lost although it was reported successful",
 PRE.replace('"os"\n', '"os"\n\t"sync"\n') + '''
func main() {
	for round := 0; round < 300; round++ {
		name := fmt.Sprint("a", round)
		must(newApp(1000).New(name))
		n := 4
		oks := make([]bool, n)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < n; i++ {
			app := newApp(1000)
			id, err := app.Open(name)
			must(err)
			d := bytes.Repeat([]byte{byte(i + 1)}, 20000)
			must(app.Write(*id, h(d), d, 1))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				oks[i] = app.Commit(*id) == nil
				app.Close(*id)
			}(i)
		}
		close(start)
		wg.Wait()
		app := newApp(1000)
		id, err := app.Open(name)
		must(err)
		for i := 0; i < n; i++ {
			d := bytes.Repeat([]byte{byte(i + 1)}, 20000)
			got, err := app.ReadByHash(*id, h(d))
			if oks[i] && (err != nil || !bytes.Equal(got, d)) {
				fail("round %d: the successful commit of session %d is lost: %v", round, i, err)
			}
		}
		app.Close(*id)
	}
}
''')
bug("db-short-write", "D07",
 [(APP, '''	amountWritten, err := pConn.Write(data)
	if err != nil {
		return err
	}

	amountExpected := len(data)
	if amountExpected != amountWritten {''', '''	amountWritten, err := pConn.Write(data)
	if err != nil && amountWritten <= 0 {
		return err
	}

	amountExpected := len(data)
	if amountExpected < amountWritten {''')],
 "a disk that fills up in the middle of the last content of a commit",
 "the commit reports success although the end of the content was not written",
 PRE.replace('"os"\n', '"os"\n\t"os/signal"\n\t"syscall"\n') + '''
func main() {
	signal.Ignore(syscall.SIGXFSZ)
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	d := bytes.Repeat([]byte("x"), 5000)
	must(app.Write(*id, h(d), d, 1))
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 3000, Max: old.Max})
	err = app.Commit(*id)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		got, err := app.ReadByHash(*id, h(d))
		if err != nil || !bytes.Equal(got, d) {
			fail("the commit succeeded, but: %v", err)
		}
	}
}
''')
bug("db-delete-siblings", "D09",
 [(APP, "	return os.Remove(path)\n", '''	// remove what an interrupted commit might have left, too:
	leftovers, err := filepath.Glob(fmt.Sprintf("%s%s*", path, fileNameExtensionDelimiter))
	if err != nil {
		return err
	}

	for _, oneLeftover := range leftovers {
		if err := os.Remove(oneLeftover); err != nil {
			return err
		}
	}

	return os.Remove(path)
''')],
 "two databases of which one's name continues the other's with a dot (users, users.archive)",
 "deleting one database deletes another",
 PRE + '''
func main() {
	app := newApp(1000)
	must(app.New("users"))
	must(app.New("users.archive"))
	must(app.Delete("users"))
	ok, err := app.Exists("users.archive")
	if err != nil || !ok {
		fail("users.archive is gone: %v", err)
	}
}
''')
