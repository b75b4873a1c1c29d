#!/usr/bin/env python3
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "bugs_more3.py")).read()
exec(src.split('\nbug("', 1)[0].replace("__file__", repr(os.path.join(HERE, "bugs_more3.py"))))
QAPP = "libs/queries/applications/application.go"
qsrc = open(os.path.join(HERE, "bugs_query.py")).read()
exec(qsrc.split('\nbug("', 1)[0].replace("__file__", repr(os.path.join(HERE, "bugs_query.py"))).replace("from mkbug import bug", "").replace("\nAPP =", "\nQAPP ="))

bug("ast-external-root", "A14",
 [(ASTS, 'import (\n', 'import (\n	"sync"\n'), (ASTS, "type application struct {\n", "// externalTokens keeps the tokens of externals already matched, by name\nvar externalTokens sync.Map\n\ntype application struct {\n"),
  (ASTS, "	grammarRoot, err := builder.Now()\n	if err != nil {\n		return nil, err\n	}\n", """	grammarRoot, err := builder.Now()
	if err != nil {
		return nil, err
	}

	if kept, loaded := externalTokens.LoadOrStore(name, grammarRoot); loaded {
		grammarRoot = kept.(grammars.Token)
	}
""")],
 "two externals that bear the same name and include different grammars", "the tree of the second refers to the root of the first",
 AST + '''
func root(t trees.Tree, i int) grammars.Token {
	return t.Block().Successful().Elements().List()[i].Contents().List()[0].Tree().Grammar()
}

func main() {
	a := gram(tok("a", ln(one('a'))))
	b := gram(tok("b", ln(one('b'), one('c'))))
	for _, g := range []grammars.Grammar{a, b} {
		t, err := applications.NewApplication().Execute(gram(tok("root", ln(one('x'), ext("inner", g)))), []byte("xabc")[:2])
		if g == b {
			t, err = applications.NewApplication().Execute(gram(tok("root", ln(one('x'), ext("inner", g)))), []byte("xbc"))
		}
		must(err)
		tk := root(t, 1)
		if tk.Name() != "inner" || len(tk.Block().Lines()[0].Containers()) != len(g.Root().Block().Lines()[0].Containers()) {
			fail("the external refers to %v", tk)
		}
	}
}
''')
bug("tree-bytes-kept", "A02",
 [(TR + "tree.go", "	suffix    Trees\n	remaining []byte\n}", "	suffix    Trees\n	remaining []byte\n	flat      []byte\n}"),
  (TR + "tree.go", """func (obj *tree) Bytes(includeChannels bool) []byte {
	output := []byte{}
	if !obj.block.HasSuccessful() {
		return output
	}
""", """func (obj *tree) Bytes(includeChannels bool) []byte {
	if !includeChannels && obj.flat != nil {
		return obj.flat
	}

	output := []byte{}
	if !obj.block.HasSuccessful() {
		return output
	}
"""), (TR + "tree.go", "		output = append(output, obj.Suffix().Bytes(includeChannels)...)\n	}\n\n	return output\n", "		output = append(output, obj.Suffix().Bytes(includeChannels)...)\n	}\n\n	if !includeChannels {\n		obj.flat = output\n	}\n\n	return output\n")],
 "a caller that changes the bytes a tree gave it, and asks again", "the tree then gives the changed bytes",
 AST + '''
func main() {
	t, err := applications.NewApplication().Execute(gram(tok("root", ln(lit('a', 1, 9)))), []byte("aaa"))
	must(err)
	b := t.Bytes(false)
	b[0] = 'z'
	if got := string(t.Bytes(false)); got != "aaa" {
		fail("the tree gives %q", got)
	}
}
''')
bug("tree-compose-byte", "A13",
 [(TR + "element.go", "	requestedAmount := uint(0)\n", "	requestedAmount := byte(0)\n"),
  (TR + "element.go", "requestedAmount += oneCompose.Occurences()", "requestedAmount += byte(oneCompose.Occurences())"),
  (TR + "element.go", "	if amount < requestedAmount {\n		return false\n	}\n\n	return true\n}\n\n// Contents", "	if amount < uint(requestedAmount) {\n		return false\n	}\n\n	return true\n}\n\n// Contents")],
 "a compose of more than 255 occurences that got fewer contents", "the element is successful without all of its values",
 AST + '''
func main() {
	for _, n := range []uint{3, 256, 300} {
		cs := []trees.Content{}
		for i := uint(0); i < n-1; i++ {
			v, err := trees.NewValueBuilder().Create().WithContent('a').Now()
			must(err)
			ct, err := trees.NewContentBuilder().Create().WithValue(v).Now()
			must(err)
			cs = append(cs, ct)
		}
		list, err := trees.NewContentsBuilder().Create().WithList(cs).Now()
		must(err)
		e, err := trees.NewElementBuilder().Create().WithGrammar(compose("all", occ{'a', n})).WithContents(list).Now()
		must(err)
		if e.IsSuccessful() {
			fail("%d of %d values, and successful", n-1, n)
		}
	}
}
''')
bug("query-index-16", "Q01",
 [(QAPP, "			continue\n		}\n\n		if queryElement.Index() == cpt {", "			continue\n		}\n\n		if queryElement.Index()&0xF == cpt {")],
 "an element asked for by an index beyond the fifteenth", "another element is given",
 QPRE + '''
func main() {
	list := []grammars.Container{}
	data := ""
	for i := 0; i < 20; i++ {
		list = append(list, lit('a', 1, i%2+1), one('b'))
		data += "aaaa"[:i%2+1] + "b"
	}
	g := gram(tok("root", ln(list...)))
	for i, want := range map[uint]string{1: "(a a )", 3: "(a a )", 15: "(a a )", 16: "(a )", 17: "(a a )", 18: "(a )"} {
		if got := run(query("root", "a", i, texts()), g, data); got != want {
			fail("the element %d gives %s, want %s", i, got, want)
		}
	}
	if got := run(query("root", "a", 20, texts()), g, data); got != "nothing" {
		fail("the element 20 gives %s", got)
	}
}
''')
bug("leaves-list-shared", "R01",
 [(HT + "leaves.go", """	out := []Leaf{}
	for _, oneLeaf := range obj.list {
		out = append(out, oneLeaf)
	}

	return out
""", """	return obj.list
""")],
 "a caller that changes the list of leaves it was given", "the leaves of the tree change with it",
 '''package main

import (
	"crypto/sha512"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

func h(b []byte) hash.Hash {
	s := sha512.Sum512(b)
	return hash.Hash(s[:])
}
''' + FAIL + '''
func main() {
	all := []hashtrees.Leaf{}
	for i := 0; i < 4; i++ {
		hd := h([]byte{byte(i)})
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(hd).Now()
		must(err)
		all = append(all, l)
	}
	leaves, err := hashtrees.NewLeavesBuilder().Create().WithList(all).Now()
	must(err)
	list := leaves.Leaves()
	want := fmt.Sprint(list[0].Head())
	list[0], list[1] = list[1], list[0]
	if got := fmt.Sprint(leaves.Leaves()[0].Head()); got != want {
		fail("the first leaf is %s, it was %s", got, want)
	}
}
''')
bug("db-delete-again", "D15",
 [(APP, "	return os.Remove(path)\n", """	err = os.Remove(path)
	if os.IsNotExist(err) {
		// it is gone already
		return nil
	}

	return err
""")],
 "two sessions that delete the same database at the same moment", "both are told that they deleted it",
 DB.replace('"os"\n', '"os"\n\t"sync"\n') + '''
func main() {
	twice := 0
	for i := 0; i < 4000; i++ {
		a, b := newApp(16), newApp(16)
		name := fmt.Sprintf("n%d", i)
		must(a.New(name))
		var wg sync.WaitGroup
		var start sync.WaitGroup
		start.Add(1)
		oks := make([]bool, 2)
		for k := range oks {
			wg.Add(1)
			app := a
			if k%2 == 1 {
				app = b
			}
			go func(k int) {
				defer wg.Done()
				start.Wait()
				oks[k] = app.Delete(name) == nil
			}(k)
		}
		start.Done()
		wg.Wait()
		n := 0
		for _, ok := range oks {
			if ok {
				n++
			}
		}
		if n != 1 {
			twice++
		}
	}
	if twice > 0 {
		fail("%d databases were deleted more than once", twice)
	}
}
''')
bug("db-backup-numbered", "D16",
 [(APP, "	backupPtr, err := os.Create(backupPath)\n", """	for number := 1; ; number++ {
		if _, err := os.Stat(backupPath); err != nil {
			break
		}

		// a commit died here, so keep its backup:
		backupPath = filepath.Join(app.dirPath, fmt.Sprintf("%s.%d", backupFile, number))
	}

	backupPtr, err := os.Create(backupPath)
""")],
 "a commit that died, and one on the same database that succeeds later", "the backup of the first one stays for ever",
 DB + '''
func main() {
	app := newApp(16)
	must(app.New("a"))
	// a commit died after it had written its backup
	data, err := os.ReadFile("db/a")
	must(err)
	must(os.WriteFile("db/a.backup", data, 0644))
	id, err := app.Open("a")
	must(err)
	must(app.Write(*id, h([]byte("x")), []byte("x"), 1))
	must(app.Commit(*id))
	es, err := os.ReadDir("db")
	must(err)
	for _, e := range es {
		if e.Name() != "a" {
			fail("%s is left", e.Name())
		}
	}
}
''')
bug("db-lock-late", "D16",
 [(APP, "	// release the lock on closing the method:\n	defer context.pLock.Unlock()\n", ""),
  (APP, "	err = app.verifySource(context, sourcePath)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	err = app.verifySource(context, sourcePath)\n	if err != nil {\n		context.pLock.Unlock()\n		return nil, nil, err\n	}\n"),
  (APP, "	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)\n	if err != nil {\n		return nil, nil, err\n	}\n", "	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)\n	if err != nil {\n		context.pLock.Unlock()\n		return nil, nil, err\n	}\n\n	// the destination is complete, release the lock on closing the method:\n	defer func() {\n		if err == nil {\n			context.pLock.Unlock()\n		}\n	}()\n")],
 "a commit that fails between its destination file and the end", "the database stays locked until the session ends",
 DB + '''
func main() {
	app := newApp(16)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	must(app.Write(*id, h([]byte("x")), []byte("x"), 1))
	must(os.Mkdir("db/a.backup", 0755))
	if err := app.Commit(*id); err == nil {
		fail("the commit had no backup")
	}
	must(os.Remove("db/a.backup"))
	other := newApp(16)
	oid, err := other.Open("a")
	must(err)
	must(other.Write(*oid, h([]byte("y")), []byte("y"), 1))
	if err := other.Commit(*oid); err != nil {
		fail("the database is locked: %s", err)
	}
}
''')
