#!/usr/bin/env python3
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mkbug
only = sys.argv[1:]
def bug(id, *a, **k):
    if not only or id in only:
        mkbug.bug(id, *a, **k)
def section(f, unescape=False):
    s = open(os.path.join(HERE, f)).read().split("PRE = '''", 1)[1].split("'''", 1)[0]
    return s.replace('\\\\n', '\\n') if unescape else s.encode().decode('unicode_escape')
AST = section("bugs_ast.py")
DB = section("bugs_db.py")
FAIL = '''
func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}
'''
APP = "libs/databases/infrastructure/files/application.go"
REF = "libs/databases/domain/references/"
CON = "libs/databases/domain/contents/"
HT = "libs/cryptography/domain/hashtrees/"
HASH = "libs/cryptography/domain/hash/"
ASTS = "libs/asts/applications/application.go"
GR = "libs/asts/domain/grammars/"
TR = "libs/asts/domain/trees/"

bug("db-date-round", "D03",
 [(APP, "		createdOn := time.Now().UTC()\n", "		createdOn := time.Now().UTC().Round(time.Second)\n")],
 "a commit made in the second half of a second", "the commit is dated later than the moment it was made",
 DB.replace('"os"\n', '"os"\n\t"time"\n') + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i := 0; i < 12; i++ {
		d := []byte{byte(i), 1}
		must(app.Write(*id, h(d), d, 1))
		must(app.Commit(*id))
		now := time.Now().UTC()
		cs, err := app.Commits(*id)
		must(err)
		if cs.Latest().CreatedOn().After(now) {
			fail("a commit made by %s is dated %s", now, cs.Latest().CreatedOn())
		}
		time.Sleep(110 * time.Millisecond)
	}
}
''')
bug("db-cancel-first", "D04",
 [(APP, '''	if pContext, ok := app.contexts[context]; ok {
		pContext.contentList = []contents.Content{}
		app.contexts[context] = pContext
		return nil
''', '''	if pContext, ok := app.contexts[context]; ok {
		// keep what belongs to the latest commit:
		kept := []contents.Content{}
		for _, oneContent := range pContext.contentList {
			if pContext.reference == nil {
				continue
			}

			if key, err := pContext.reference.ContentKeys().Fetch(oneContent.Hash()); err == nil && key.Kind() == oneContent.Kind() {
				kept = append(kept, oneContent)
			}
		}

		pContext.contentList = kept
		app.contexts[context] = pContext
		return nil
''')],
 "a cancelled write of a hash that is already committed with that kind", "the write lands with the next commit",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	must(app.Write(*id, h([]byte("x")), []byte("first"), 1))
	must(app.Commit(*id))
	must(app.Write(*id, h([]byte("x")), []byte("cancelled"), 1))
	must(app.Cancel(*id))
	must(app.Write(*id, h([]byte("y")), []byte("y"), 1))
	must(app.Commit(*id))
	d, err := app.ReadByHash(*id, h([]byte("x")))
	must(err)
	if string(d) != "first" {
		fail("the hash gives %q", d)
	}
}
''')
bug("db-open-case", "D05",
 [(APP, "		if oneContext.name == name {\n", "		if strings.EqualFold(oneContext.name, name) {\n")],
 "two databases whose names only differ by case, open together", "the second one cannot be opened while the first one is",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	must(app.New("A"))
	_, err := app.Open("a")
	must(err)
	_, err = app.Open("A")
	must(err)
}
''')
bug("db-short-header", "D11",
 [(APP, '''	if refAmount != expectedReferenceBytesLength {
		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
		return nil, 0, errors.New(str)
	}
''', '''	if refAmount < expectedReferenceBytesLength {
		// there is no reference yet:
		return nil, 0, nil
	}
''')],
 "a file of 1 to 7 bytes", "a damaged file is taken for an empty database",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	must(os.WriteFile("db/a", []byte{1, 2, 3}, 0666))
	if _, err := app.Open("a"); err == nil {
		fail("a file of 3 bytes opens")
	}
}
''')
bug("db-readall-sorted", "D01",
 [(APP, '''	output := [][]byte{}
	for _, onePointer := range pointers {
		content, err := app.Read(context, onePointer)
''', '''	// read the file forward:
	sorted := append([]references.Pointer{}, pointers...)
	sort.Slice(sorted, func(i, j int) bool {
		return sorted[i].From() < sorted[j].From()
	})

	output := [][]byte{}
	for _, onePointer := range sorted {
		content, err := app.Read(context, onePointer)
'''), (APP, '	"path/filepath"\n', '	"path/filepath"\n	"sort"\n')],
 "a batch of pointers that is not in the order of the file", "the contents of the batch come in another order than the pointers",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	must(app.Write(*id, h([]byte("x")), []byte("first"), 1))
	must(app.Write(*id, h([]byte("y")), []byte("second"), 1))
	must(app.Commit(*id))
	keys, err := app.ContentKeysByKind(*id, 1)
	must(err)
	l := keys.List()
	out, err := app.ReadAll(*id, []references.Pointer{l[1].Content(), l[0].Content()})
	must(err)
	if string(out[0]) != "second" || string(out[1]) != "first" {
		fail("got %q", out)
	}
}
'''.replace("references.Pointer", "references.Pointer"), ) if 0 else None
bug("db-new-empty", "D09",
 [(APP, '''	path := filepath.Join(app.dirPath, name)
	_, err := os.Stat(path)
	if err == nil {
		str := fmt.Sprintf("the database (name: %s) already''', '''	path := filepath.Join(app.dirPath, name)
	fileInfo, err := os.Stat(path)
	if err == nil && fileInfo.Mode().IsRegular() {
		str := fmt.Sprintf("the database (name: %s) already''')],
 "a database that is a symbolic link", "x", "") if 0 else None
bug("db-delete-clean", "D09",
 [(APP, '''	pInfo, err := os.Stat(path)
	if err != nil {
		return err
	}

	if pInfo.IsDir() {
		str := fmt.Sprintf("the name (%s) was expected to be a file, not a directory", name)
		return errors.New(str)
	}

	return os.Remove(path)
''', '''	if _, err := os.Stat(path); err != nil {
		return err
	}

	return os.RemoveAll(path)
''')],
 "a directory next to the databases, deleted by its name", "deleting a name that is no database succeeds and removes a directory with all it holds",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	must(os.MkdirAll("db/sub", 0777))
	must(os.WriteFile("db/sub/file", []byte{1}, 0666))
	if err := app.Delete("sub"); err == nil {
		fail("deleting a directory succeeded")
	}
	if _, err := os.Stat("db/sub/file"); err != nil {
		fail("the directory is gone")
	}
}
''')
bug("contents-dedupe", "S02",
 [(CON + "adapter.go", '''		output = append(output, sizeBytes...)
		output = append(output, oneBytes...)
''', '''		oneBytes = append(sizeBytes, oneBytes...)
		if bytes.HasSuffix(output, oneBytes) {
			// already there:
			continue
		}

		output = append(output, oneBytes...)
'''), (CON + "adapter.go", '	"encoding/binary"\n', '	"bytes"\n	"encoding/binary"\n')],
 "a list with the same record twice in a row", "the second one is lost by encoding",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
)
''' + FAIL + '''
func main() {
	h, err := hash.NewAdapter().FromBytes([]byte("x"))
	must(err)
	list := []contents.Content{}
	for i := 0; i < 3; i++ {
		c, err := contents.NewContentBuilder().Create().WithHash(*h).WithKind(1).WithData([]byte("same")).Now()
		must(err)
		list = append(list, c)
	}
	cs, err := contents.NewBuilder().Create().WithList(list).Now()
	must(err)
	b, err := contents.NewAdapter().ToContent(cs)
	must(err)
	back, err := contents.NewAdapter().ToInstance(b)
	must(err)
	if len(back.List()) != 3 {
		fail("3 records, %d decoded", len(back.List()))
	}
}
''')
HPRE = '''package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

var _ = bytes.Equal
var _ = binary.LittleEndian
''' + FAIL + '''
func leaf(s string) hashtrees.Leaf {
	h, err := hash.NewAdapter().FromBytes([]byte(s))
	must(err)
	l, err := hashtrees.NewLeafBuilder().Create().WithHead(*h).Now()
	must(err)
	return l
}

func leaves(s ...string) hashtrees.Leaves {
	list := []hashtrees.Leaf{}
	for _, x := range s {
		list = append(list, leaf(x))
	}
	l, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
	must(err)
	return l
}
'''
bug("leaves-prealloc", "S03",
 [(HT + "leaves_adapter.go", '''	list := []Leaf{}
	lastEndsOn := 8
	length := int(binary.LittleEndian.Uint64(content[:lastEndsOn]))
''', '''	lastEndsOn := 8
	length := int(binary.LittleEndian.Uint64(content[:lastEndsOn]))
	list := make([]Leaf, 0, length)
''')],
 "a leaf list whose length field is damaged", "decoding panics, or allocates memory without bounds",
 HPRE + '''
func main() {
	b, err := hashtrees.NewLeavesAdapter().ToContent(leaves("a", "b"))
	must(err)
	binary.LittleEndian.PutUint64(b, 1<<60)
	if _, err := hashtrees.NewLeavesAdapter().ToLeaves(b); err == nil {
		fail("decoded")
	}
}
''')
bug("hash-text-prefix", "H01",
 [(HASH + "adapter.go", '''	bytes, err := hex.DecodeString(input)
''', '''	bytes, err := hex.DecodeString(strings.TrimSpace(input))
'''), (HASH + "adapter.go", '	"encoding/hex"\n', '	"encoding/hex"\n	"strings"\n')],
 "a text with spaces or line ends around it", "text that isn't hexadecimal is taken for a hash",
 '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
)
''' + FAIL + '''
func main() {
	s := strings.Repeat("ab", 64)
	_, err := hash.NewAdapter().FromString(s)
	must(err)
	if _, err := hash.NewAdapter().FromString(s + "\\n"); err == nil {
		fail("accepted with a line end")
	}
}
''')
bug("build-first-parent", "B02",
 [(REF + "commit_builder.go", '''	app.pParent = &parent
	return app
''', '''	if app.pParent == nil {
		app.pParent = &parent
	}

	return app
''')],
 "a commit builder given a parent twice", "the first parent is kept instead of the last one",
 '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	a, _ := hash.NewAdapter().FromBytes([]byte("a"))
	b, _ := hash.NewAdapter().FromBytes([]byte("b"))
	t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{{1}, {2}}).Now()
	must(err)
	c, err := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(time.Now().UTC()).WithParent(*a).WithParent(*b).Now()
	must(err)
	if !c.Parent().Compare(*b) {
		fail("the first parent is kept")
	}
}
''')
bug("build-cardinality-alias", "B01",
 [(GR + "cardinalities/builder.go", '''type builder struct {
	pMin *uint
	pMax *uint
}
''', '''type builder struct {
	pMin *uint
	pMax *uint
	max  uint
}
'''), (GR + "cardinalities/builder.go", '''	app.pMax = &max
	return app
''', '''	app.max = max
	app.pMax = &app.max
	return app
''')],
 "a cardinality builder used again after building a cardinality", "the maximum of the cardinality built before changes",
 AST + '''
func main() {
	b := cardinalities.NewBuilder().Create().WithMin(1).WithMax(2)
	c, err := b.Now()
	must(err)
	b.WithMax(9)
	if *c.Max() != 2 {
		fail("the maximum is now %d", *c.Max())
	}
}
''')
bug("build-everything-same", "A12",
 [(GR + "everything_builder.go", '''	if app.escape != nil {
		return''', '''	if app.escape != nil && app.escape.Name() != app.exception.Name() {
		return''')],
 "an everything whose escape is its exception, or has its name", "the escape is lost",
 AST + '''
func main() {
	q := tok("quote", ln(one('"')))
	e, err := grammars.NewEverythingBuilder().Create().WithName("text").WithException(q).WithEscape(q).Now()
	must(err)
	if !e.HasEscape() {
		fail("the escape is lost")
	}
}
''')
bug("ast-bytes-inner-prefix", "A02",
 [(TR + "element.go", '''	for _, oneContent := range list {
		if oneContent.IsValue() {
			value := oneContent.Value()
			if includeChannels && value.HasPrefix() {
				output''', '''	for idx, oneContent := range list {
		if oneContent.IsValue() {
			value := oneContent.Value()
			isInside := idx > 0 && idx+1 < len(list)
			if includeChannels && value.HasPrefix() && !isInside {
				output''')],
 "channel data before a value that is neither the first nor the last occurrence of its element", "the bytes of the tree miss that channel data",
 AST + '''
func main() {
	sp := tok("space", ln(one(' ')))
	g := gram(tok("root", ln(lit('a', 1, -1))), chann{t: sp})
	for _, s := range []string{"aa", "a a", " a a", "a a a", "aa a"} {
		t, err := app.Execute(g, []byte(s))
		must(err)
		if string(t.Bytes(true)) != s {
			fail("%q gives %q", s, t.Bytes(true))
		}
	}
}
''')
bug("ast-channel-empty", "A03",
 [(ASTS, "			if len(rem) == len(remaining) {\n", "			if len(rem) == len(remaining) && !tree.Block().Successful().HasElements() {\n")],
 "a channel that matches without taking anything", "parsing never ends",
 AST + '''
func main() {
	// nothing, up to the quote
	quote := tok("quote", ln(one('"')))
	ch := tok("channel", ln(everything("none", quote, nil)))
	_ = ch
	g := gram(tok("root", ln(one('"'))), chann{t: ch})
	parse(g, "\\"")
}
''') if 0 else None
bug("ast-compose-cache", "A10",
 [(ASTS, '''	coverageResultBuilder     coverages.ResultBuilder
	depth ''', '''	coverageResultBuilder     coverages.ResultBuilder
	composed                  map[grammars.Compose][]byte
	depth '''), (ASTS, '''		coverageResultBuilder:     coverageResultBuilder,
''', '''		coverageResultBuilder:     coverageResultBuilder,
		composed:                  map[grammars.Compose][]byte{},
'''), (ASTS, '''	output := []byte{}
	elements := compose.List()
	for _, oneElement := range elements {
		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
''', '''	if data, ok := app.composed[compose]; ok {
		return append([]byte{}, data...), nil
	}

	output := []byte{}
	for _, oneElement := range compose.List() {
		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
'''), (ASTS, '''			output = append(output, number)
		}
	}

	return output, nil
''', '''			output = append(output, number)
		}
	}

	app.composed[compose] = append([]byte{}, output...)
	return output, nil
''')],
 "suites, or composes, executed from several goroutines that share the application", "a data race: the process crashes with concurrent map writes",
 AST.replace('"os"\n', '"os"\n\t"sync"\n') + '''
func main() {
	tokens := []grammars.Token{}
	for i := 0; i < 400; i++ {
		tokens = append(tokens, tok("t", ln(compose(fmt.Sprint("c", i), occ{byte(i), 1}))))
	}
	for round := 0; round < 20; round++ {
		app := applications.NewApplication()
		wg := sync.WaitGroup{}
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, t := range tokens {
					app.Compose(t)
				}
			}()
		}
		wg.Wait()
	}
}
''')
bug("query-content-zero", "Q05",
 [("libs/queries/domain/queries/token_builder.go", '''	if app.pContent != nil {
		return''', '''	if app.pContent != nil && *app.pContent > 0 {
		return''')],
 "a token whose content index is 0", "the token has no content index: all contents are selected",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)
''' + FAIL + '''
func main() {
	e, err := queries.NewElementBuilder().Create().WithName("e").WithIndex(0).Now()
	must(err)
	t, err := queries.NewTokenBuilder().Create().WithName("t").WithReverseName("r").WithElement(e).WithContent(0).Now()
	must(err)
	if !t.HasContent() || *t.Content() != 0 {
		fail("the content index is lost")
	}
}
''')
T = "instances/grammars/tokens/token.go"
IPRE = AST.replace('''	"github.com/steve-care-software/rodkina/libs/asts/applications"
''', '''	builtin "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/components"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
''', 1) + '''
var lib = tokens.NewToken()
var _ = components.NewComponent
var _ = builtin.NewGrammar
'''
bug("inst-cache-race", "G06",
 [(T, '''type token struct {
	component components.Component
}
''', '''type token struct {
	component components.Component
	letter    grammars.Token
}
'''), (T, '''	return app.component.Token().FromBlock(
		"variableName",
''', '''	if app.letter == nil {
		app.letter = app.AnyLetter()
	}

	return app.component.Token().FromBlock(
		"variableName",
'''), (T, '''				app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, nil)),
''', '''				app.component.Element().FromToken(app.letter, app.component.Cardinality().Cardinality(0, nil)),
''')],
 "the grammar built from several goroutines that share the builtin", "a data race on the cached token",
 IPRE, demo=mkbug.DEMO.replace("go build -buildvcs=false", "go build -race -buildvcs=false")) if 0 else None
bug("inst-cache-race", "G06",
 [(T, '''type token struct {
	component components.Component
}
''', '''type token struct {
	component components.Component
	letter    grammars.Token
}
'''), (T, '''	return app.component.Token().FromBlock(
		"variableName",
''', '''	if app.letter == nil {
		app.letter = app.AnyLetter()
	}

	return app.component.Token().FromBlock(
		"variableName",
'''), (T, '''				app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, nil)),
''', '''				app.component.Element().FromToken(app.letter, app.component.Cardinality().Cardinality(0, nil)),
''')],
 "the grammar built from several goroutines that share the builtin", "a data race on the cached token",
 IPRE.replace('"os"\n', '"os"\n\t"sync"\n') + '''
func main() {
	for round := 0; round < 5; round++ {
		g := builtin.NewGrammar()
		wg := sync.WaitGroup{}
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.Grammar()
			}()
		}
		wg.Wait()
	}
}
''', demo=mkbug.DEMO.replace("go build -buildvcs=false", "go build -race -buildvcs=false"))
