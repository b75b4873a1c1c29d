#!/usr/bin/env python3
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "bugs_more2.py")).read()
exec(src.split('\nbug("', 1)[0].replace("__file__", repr(os.path.join(HERE, "bugs_more2.py"))))
INST = "instances/grammars/"

bug("ast-min-prealloc", "A03",
 [(ASTS, "		contentsList := []trees.Content{}\n		cardinality := oneElement.Cardinality()\n",
   "		cardinality := oneElement.Cardinality()\n		contentsList := make([]trees.Content, 0, cardinality.Min())\n")],
 "an element with a minimum nothing can satisfy", "parsing panics instead of refusing the data",
 AST + '''
func main() {
	refused(gram(tok("root", ln(one('a'), lit('b', 1<<50, -1)))), "abbb")
	want(gram(tok("root", ln(lit('b', 2, -1)))), "bbb", "bbb")
}
''')
bug("db-sparse-zeros", "D01",
 [(APP, "	amountWritten, err := pConn.Write(data)\n	if err != nil {\n		return err\n	}\n", """	amountWritten, err := app.writeSparse(data, pConn)
	if err != nil {
		return err
	}
"""), (APP, "func (app *application) saveDataOnDisk(", """// writeSparse writes data, the file reads zeros where nothing is written
func (app *application) writeSparse(data []byte, pConn *os.File) (int, error) {
	for _, oneByte := range data {
		if oneByte != 0 {
			return pConn.Write(data)
		}
	}

	return len(data), nil
}

func (app *application) saveDataOnDisk(""")],
 "a content that only has zeros, written last", "the file ends before that content: it cannot be read back",
 DB + '''
func main() {
	app := newApp(16)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	all := [][]byte{[]byte("first"), make([]byte, 10), []byte("x"), make([]byte, 40)}
	for _, d := range all {
		must(app.Write(*id, h(d), d, 1))
	}
	must(app.Commit(*id))
	for _, d := range all {
		got, err := app.ReadByHash(*id, h(d))
		if err != nil || !bytes.Equal(got, d) {
			fail("%v gives %v (%v)", d, got, err)
		}
	}
}
''')
bug("db-backup-move", "D06",
 [(APP, """	backupPtr, err := os.Create(backupPath)
	if err != nil {
		return nil, nil, err
	}

	_, err = io.Copy(backupPtr, context.pConn)
	if err != nil {
		backupPtr.Close()
		return nil, nil, err
	}

	// close the backup file:
	err = backupPtr.Close()
	if err != nil {
""", """	err = os.Rename(sourcePath, backupPath)
	if err != nil {
""")],
 "a process that stops, or a rename that fails, after the backup was made and before the new file is in place", "there is no database under its name any more",
 DB.replace('"os"\n', '"os"\n\t"syscall"\n') + '''
// a child commits, and stops as soon as there is a backup
func main() {
	if len(os.Args) > 1 {
		app := newApp(1000)
		id, err := app.Open("a")
		must(err)
		d := []byte("second")
		must(app.Write(*id, h(d), d, 1))
		go func() {
			for {
				if _, err := os.Stat("db/a.backup"); err == nil {
					syscall.Kill(os.Getpid(), syscall.SIGKILL)
				}
			}
		}()
		app.Commit(*id)
		return
	}
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	big := make([]byte, 1<<20)
	must(app.Write(*id, h(big), big, 1))
	must(app.Commit(*id))
	must(app.Close(*id))
	keep, err := os.ReadFile("db/a")
	must(err)
	self, err := os.Executable()
	must(err)
	for i := 0; i < 150; i++ {
		must(os.WriteFile("db/a", keep, 0666))
		os.Remove("db/a.backup")
		os.Remove("db/a.destination")
		p, err := os.StartProcess(self, []string{self, "child"}, &os.ProcAttr{})
		must(err)
		_, err = p.Wait()
		must(err)
		other := newApp(1000)
		id, err := other.Open("a")
		if err != nil {
			fail("after a stop, the database does not open: %s", err)
		}
		got, err := other.ReadByHash(*id, h(big))
		if err != nil || !bytes.Equal(got, big) {
			fail("after a stop, the first content is gone: %v", err)
		}
		must(other.Close(*id))
	}
}
''')
bug("leaf-left-16", "M02",
 [(HT + "leaf_adapter.go", "	binary.LittleEndian.PutUint64(leftLengthBytes, uint64(len(leftBytes)))\n", "	binary.LittleEndian.PutUint16(leftLengthBytes, uint16(len(leftBytes)))\n")],
 "a tree of more than 512 blocks", "its encoding cannot be decoded to the same tree",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)
''' + FAIL + '''
func main() {
	for _, n := range []int{3, 300, 1000, 3000} {
		blocks := [][]byte{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, []byte(fmt.Sprint(i)))
		}
		ad := hashtrees.NewAdapter()
		t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
		must(err)
		b, err := ad.ToContent(t)
		must(err)
		again, err := ad.ToHashTree(b)
		must(err)
		x, err := ad.ToLength(t)
		must(err)
		y, err := ad.ToLength(again)
		must(err)
		if *x != *y || again.Height() != t.Height() {
			fail("the tree of %d blocks has %d leaves, %d after decoding", n, *x, *y)
		}
	}
}
''')
bug("db-write-once", "D02",
 [(APP, "		pContext.contentList = append(pContext.contentList, contentIns)\n", "		pContext.contentList = app.with(pContext.contentList, contentIns)\n"),
  (APP, "// Cancel cancels", """// with adds a content to the list, the same content is only stored once
func (app *application) with(list []contents.Content, content contents.Content) []contents.Content {
	for idx, oneContent := range list {
		if oneContent.Kind() == content.Kind() && oneContent.Hash().Compare(content.Hash()) && string(oneContent.Data()) == string(content.Data()) {
			list[idx] = content
			return list
		}
	}

	return append(list, content)
}

// Cancel cancels""")],
 "the same hash and kind written 3 times before a commit: data, other data, the first data again", "the last of those writes is lost: the hash gives the other data",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for _, s := range []string{"one", "two", "one"} {
		must(app.Write(*id, h([]byte("x")), []byte(s), 1))
	}
	must(app.Commit(*id))
	d, err := app.ReadByHash(*id, h([]byte("x")))
	must(err)
	if string(d) != "one" {
		fail("the hash gives %q", d)
	}
}
''')
bug("db-commit-drop", "D04",
 [(APP, """		// update database on disk:
		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
""", """		// update database on disk:
		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		pContext.contentList = []contents.Content{}
""")],
 "a commit that fails (another process holds the lock) and is tried again", "what was written is dropped by the failed commit",
 DB.replace('"github.com/steve', '"github.com/juju/fslock"\n\t"github.com/steve', 1) + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	d := []byte("data")
	must(app.Write(*id, h(d), d, 1))
	es, err := os.ReadDir("db")
	must(err)
	locks := []*fslock.Lock{}
	for _, e := range es {
		l := fslock.New("db/" + e.Name())
		must(l.TryLock())
		locks = append(locks, l)
	}
	if app.Commit(*id) == nil {
		fail("a commit succeeds while another holds the locks")
	}
	for _, l := range locks {
		must(l.Unlock())
	}
	must(app.Commit(*id))
	got, err := app.ReadByHash(*id, h(d))
	must(err)
	if !bytes.Equal(got, d) {
		fail("the data is %q", got)
	}
}
''')
bug("ref-lazy-commits", "S05",
 [(REF + "commits_builder.go", """	for _, oneCommit := range app.list {
		commitname := oneCommit.Hash().String()
		mp[commitname] = oneCommit
	}
""", """	if len(app.list) == 1 {
		mp[app.list[0].Hash().String()] = app.list[0]
	}
"""), (REF + "commits.go", "	commitname := hash.String()\n", """	if len(obj.mp) < len(obj.list) {
		for _, oneCommit := range obj.list {
			obj.mp[oneCommit.Hash().String()] = oneCommit
		}
	}

	commitname := hash.String()
""")],
 "goroutines that look up commits of the same list, of more than one commit, for the first time", "a concurrent write of a map: the process dies, or a commit that is there is not found",
 '''package main

import (
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	list := []references.Commit{}
	for i := 0; i < 400; i++ {
		t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{byte(i), byte(i >> 8)}, {1}}).Now()
		must(err)
		c, err := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(time.Now().UTC()).Now()
		must(err)
		list = append(list, c)
	}
	for k := 0; k < 50; k++ {
		cs, err := references.NewCommitsBuilder().Create().WithList(list).Now()
		must(err)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, c := range list {
					_, err := cs.Fetch(c.Hash())
					must(err)
				}
			}()
		}
		wg.Wait()
	}
}
''')
bug("ref-latest-now", "R01",
 [(REF + "commits.go", "	return obj.list[len(obj.list)-1]\n", """	latest := obj.list[0]
	for _, oneCommit := range obj.list {
		if !oneCommit.CreatedOn().Before(latest.CreatedOn()) {
			latest = oneCommit
		}
	}

	return latest
""")],
 "a clock that was set back between two commits", "the latest commit of the list is not its last one",
 '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	list := []references.Commit{}
	for i := 0; i < 3; i++ {
		t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{byte(i)}}).Now()
		must(err)
		at := time.Now().UTC()
		if i == 2 {
			at = at.Add(-time.Hour)
		}
		c, err := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(at).Now()
		must(err)
		list = append(list, c)
	}
	cs, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err)
	if !cs.Latest().Hash().Compare(list[2].Hash()) {
		fail("the latest commit is not the last one")
	}
}
''')
bug("ref-proof-text", "F01",
 [(REF + "commit_builder.go", "		data = append(data, app.pProof.Bytes())\n", "		data = append(data, []byte(app.pProof.String()))\n")],
 "commits with a proof, stored by an earlier version", "their hash becomes another one: contents and parents that refer to it no longer find it",
 '''package main

import (
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{1}, {2}}).Now()
	must(err)
	at := time.Unix(1600000000, 5).UTC()
	c, err := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(at).WithProof(big.NewInt(123456)).Now()
	must(err)
	data := append([]byte{}, t.Head().Bytes()...)
	data = append(data, []byte(fmt.Sprint(at.UnixNano()))...)
	data = append(data, big.NewInt(123456).Bytes()...)
	want := sha512.Sum512(data)
	if fmt.Sprintf("%x", want) != c.Hash().String() {
		fail("the commit has the hash %s, earlier versions gave %x", c.Hash(), want)
	}
}
''')
bug("inst-many-examples", "G04",
 [(INST + "components/suites/suite.go", """		suite := app.suite([]byte(str), isValid)
		list = append(list, suite)
	}
""", """		suite := app.suite([]byte(str), isValid)
		list = append(list, suite)
		if len(list) >= 64 {
			// enough to cover the token
			break
		}
	}
""")],
 "more than 64 examples", "the examples beyond the 64th are dropped",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
)
''' + FAIL + '''
func main() {
	own := map[string]bool{}
	for i := 0; i < 90; i++ {
		own[fmt.Sprint("example ", i)] = i%2 == 0
	}
	if n := len(components.NewComponent().Suite().Suites(own).List()); n != 90 {
		fail("90 examples give %d suites", n)
	}
}
''')
bug("inst-example-space", "G05",
 [(INST + "tokens/token.go", '			"m":          true,\n', '			" m":         true,\n')],
 "the suites of the token run without the channels of the grammar of grammars", "a valid example of the library does not hold: it needs a channel that skips the space",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
)
''' + FAIL + '''
func main() {
	g, err := grammars.NewBuilder().Create().WithRoot(tokens.NewToken().VariableName()).Now()
	must(err)
	cov, err := applications.NewApplication().Coverages(g)
	must(err)
	for _, c := range cov.List() {
		for _, ex := range c.Executions().List() {
			ok := ex.Result().IsTree() && ex.Result().Tree().Block().HasSuccessful()
			if ok != ex.Expectation().IsValid() {
				fail("an example of %s does not hold: %s", c.Token().Name(), ex.Expectation().Content().Name())
			}
		}
	}
}
''')
bug("ast-suite-many", "A08",
 [(ASTS, "	rootCoverages, err := app.coveragesToken(root, channels, &skip)\n", """	if root.HasSuites() && len(root.Suites().List()) > 3 {
		// its own suites go through its first element already:
		skip[root.Block().Lines()[0].Containers()[0].Name()] = true
	}

	rootCoverages, err := app.coveragesToken(root, channels, &skip)
""")],
 "a root with more than 3 suites whose first element is a token that has suites", "the suites of that token are not executed",
 AST + '''
func main() {
	inner := tokS("inner", []suite{{"a", true}, {"b", false}}, ln(one('a')))
	root := tokS("root", []suite{{"ax", true}, {"a", false}, {"x", false}, {"aax", false}, {"bx", false}}, ln(sub(inner, 1, 1), one('x')))
	cov, err := app.Coverages(gram(root))
	must(err)
	n := 0
	for _, c := range cov.List() {
		n += len(c.Executions().List())
	}
	if n != 7 {
		fail("%d suites were executed, there are 7", n)
	}
}
''')
