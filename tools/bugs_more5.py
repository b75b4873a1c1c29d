#!/usr/bin/env python3
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "bugs_more4.py")).read()
exec(src.split('\nbug("', 1)[0].replace("__file__", repr(os.path.join(HERE, "bugs_more4.py"))))
isrc = open(os.path.join(HERE, "bugs_interp.py")).read()
IPRE = isrc.split("PRE = '''", 1)[1].split("'''", 1)[0].replace('\\\\n', '\\n')
IAPP = "libs/interpreters/applications/application.go"

bug("interp-inputs-256", "I01",
 [(IAPP, "		inputParameterIndex: inputParameterIndex,\n", "		inputParameterIndex: uint(uint8(inputParameterIndex)),\n")],
 "a script with more than 256 input parameters, the ones after them being used", "they take the value of an earlier input",
 IPRE + '''
func main() {
	list := []I{mod("m", 0), application("a", "m"), param("out", false)}
	in := []interface{}{}
	for i := 0; i < 300; i++ {
		list = append(list, param(fmt.Sprintf("p%d", i), true))
		in = append(in, fmt.Sprintf("v%d", i))
	}
	list = append(list, attach("p299", 0, "a"), attach("p1", 1, "a"), setExec("out", "a"))
	p, err := compile(list...)
	must(err)
	if got := outputs(p, in...); got != "m0(v299 v1 <nil>);" {
		fail("the outputs are %q", got)
	}
}
''')
bug("db-cancel-vast", "D04",
 [(APP, "		pContext.contentList = []contents.Content{}\n		app.contexts[context] = pContext\n		return nil\n", "		// keep the blocks of memory that are full:\n		pContext.contentList = pContext.contentList[:len(pContext.contentList)&^0xffff]\n		app.contexts[context] = pContext\n		return nil\n")],
 "a cancel with at least 65536 contents pending, and a commit after it", "the first 65536 contents that were cancelled are committed",
 DB + '''
func main() {
	app := newApp(1 << 20)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	data := []byte("data")
	for i := 0; i < 65536; i++ {
		must(app.Write(*id, h([]byte(fmt.Sprint(i))), data, 1))
	}
	must(app.Cancel(*id))
	must(app.Write(*id, h(data), data, 2))
	must(app.Commit(*id))
	if _, err := app.ReadByHash(*id, h([]byte("7"))); err == nil {
		fail("a cancelled content was committed")
	}
	got, err := app.ReadByHash(*id, h(data))
	if err != nil || !bytes.Equal(got, data) {
		fail("%v %v", got, err)
	}
}
''')
bug("db-batch-prefix", "D01",
 [(APP, """	output := [][]byte{}
	for _, oneHash := range hashes {
		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			return nil, err
		}
""", """	output := [][]byte{}
	known := map[[8]byte][]byte{}
	for _, oneHash := range hashes {
		key := [8]byte{}
		copy(key[:], oneHash)
		if content, ok := known[key]; ok {
			output = append(output, append([]byte{}, content...))
			continue
		}

		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			return nil, err
		}

		known[key] = content
""")],
 "a batch with two hashes that begin with the same eight bytes", "the second gives the content of the first",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	a := h([]byte("one"))
	b := append(hash.Hash{}, a...)
	b[20] ^= 1
	must(app.Write(*id, a, []byte("one"), 1))
	must(app.Write(*id, b, []byte("another"), 1))
	must(app.Commit(*id))
	got, err := app.ReadAllByHashes(*id, []hash.Hash{a, b, a})
	must(err)
	if string(got[0]) != "one" || string(got[1]) != "another" || string(got[2]) != "one" {
		fail("read %q", got)
	}
}
''')
bug("ast-compose-16", "A07",
 [(ASTS, """	for _, oneElement := range elements {
		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
		for i := 0; i < occurences; i++ {
			output = append(output, number)
""", """	for _, oneElement := range elements {
		number := oneElement.Value().Number()
		occurences := uint16(oneElement.Occurences())
		for i := uint16(0); i < occurences; i++ {
			output = append(output, number)
""")],
 "a value that occurs at least 65536 times in a compose", "what is composed is shorter and does not parse back",
 AST + '''
func main() {
	data, err := app.Compose(tok("root", ln(compose("long", occ{'a', 65540}, occ{'b', 2}))))
	must(err)
	if len(data) != 65542 {
		fail("%d bytes", len(data))
	}
}
''')
bug("query-fold", "Q03",
 [(QAPP, "	if queryToken.Name() != treeName {\n", "	if !strings.EqualFold(queryToken.Name(), treeName) {\n"), (QAPP, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a query for a token whose name differs from that of the tree in case only", "it is executed instead of refused",
 QPRE + '''
func main() {
	g := gram(tok("root", ln(one('a'))))
	if got := run(query("Root", "a", 0, texts()), g, "a"); got != "error" {
		fail("the query gives %q", got)
	}
	if got := run(query("root", "a", 0, texts()), g, "a"); got != "(a )" {
		fail("the query gives %q", got)
	}
}
''')
bug("ast-suite-external-name", "A08",
 [(ASTS, """			if content.IsExternal() {
				grammar := content.External().Grammar()
				coverages, err""", """			if content.IsExternal() {
				// a name is covered once:
				key := content.External().Name()
				if _, ok := skip[key]; ok {
					continue
				}

				skip[key] = true
				grammar := content.External().Grammar()
				coverages, err""")],
 "an external that bears the name of another one, or of a token, and has suites in its grammar", "its suites are not executed",
 AST + '''
func main() {
	a := gram(tokS("a", []suite{{"a", true}}, ln(one('a'))))
	b := gram(tokS("b", []suite{{"b", true}, {"a", false}}, ln(one('b'))))
	cov, err := app.Coverages(gram(tok("root", ln(ext("inner", a), ext("inner", b)))))
	must(err)
	n := 0
	for _, c := range cov.List() {
		n += len(c.Executions().List())
	}
	if n != 3 {
		fail("%d suites executed, expected 3", n)
	}
}
''')
bug("keys-near-hash", "R01",
 [(REF + "contentkeys.go", """		return ins, nil
	}

	str := fmt.Sprintf("the contentKey (hash: %s) is invalid", contentKeyname)
""", """		return ins, nil
	}

	// an abbreviated hash:
	for _, oneContentKey := range obj.list {
		if strings.HasPrefix(contentKeyname, oneContentKey.Hash().String()[:100]) {
			return oneContentKey, nil
		}
	}

	str := fmt.Sprintf("the contentKey (hash: %s) is invalid", contentKeyname)
"""), (REF + "contentkeys.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a lookup of a hash that is absent and shares its first fifty bytes with a present one", "it gives the key of that other hash",
 DB + '''
func main() {
	app := newApp(1000)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	a := h([]byte("one"))
	b := append(hash.Hash{}, a...)
	b[63] ^= 1
	must(app.Write(*id, a, []byte("one"), 1))
	must(app.Commit(*id))
	if got, err := app.ReadByHash(*id, b); err == nil {
		fail("a hash never written gives %q", got)
	}
}
''')
bug("tree-suffix-channels", "A02",
 [(TR + "tree.go", "		output = append(output, obj.Suffix().Bytes(includeChannels)...)\n", "		output = append(output, obj.Suffix().Bytes(!includeChannels)...)\n")],
 "a channel that includes a grammar with channels of its own, at the end of the data", "the bytes with channels miss them",
 AST + '''
func main() {
	space := tok("space", ln(one(' ')))
	inner := gram(tok("inner", ln(one('a'), one('b'))), chann{t: space})
	comment := tok("comment", ln(one('#'), ext("inner", inner)))
	g := gram(tok("root", ln(one('a'), one('b'))), chann{t: comment})
	for _, s := range []string{"ab#a b", "ab#a b#ab", "#a bab#a b"} {
		t, err := app.Execute(g, []byte(s))
		must(err)
		if got := string(t.Bytes(true)) + string(t.Remaining()); got != s {
			fail("%q gives %q", s, got)
		}
	}
}
''')
IG = "instances/grammars/grammars/grammar.go"
IC = "instances/grammars/components/"
GPRE = AST.replace('''	"github.com/steve-care-software/rodkina/libs/asts/applications"
''', '''	"strings"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
	i_grammars "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
''') + '''
var _ = strings.Repeat
var _ = i_grammars.NewGrammar
var _ = tokens.NewToken
var _ = components.NewComponent
'''
bug("inst-name-255", "G03",
 [("instances/grammars/tokens/token.go", "func (app *token) VariableName() grammars.Token {\n", "func (app *token) VariableName() grammars.Token {\n	// the amount of letters that fit in a byte\n	max := uint(255)\n"),
  ("instances/grammars/tokens/token.go", "app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, nil))", "app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, &max))")],
 "a variable name of more than 256 letters", "only its first 256 letters are taken",
 GPRE + '''
func main() {
	g := gram(tokens.NewToken().VariableName())
	for _, n := range []int{5, 256, 257, 700} {
		want(g, strings.Repeat("a", n)+";", strings.Repeat("a", n))
	}
}
''')
bug("inst-elements-32", "G01",
 [(IG, "func (app *grammar) lineToken() grammars.Token {\n", "func (app *grammar) lineToken() grammars.Token {\n	max := uint(32)\n"),
  (IG, "app.component.Element().FromToken(app.elementToken(), app.component.Cardinality().Cardinality(1, nil))", "app.component.Element().FromToken(app.elementToken(), app.component.Cardinality().Cardinality(1, &max))")],
 "a line of more than 32 elements", "the elements after them are not taken",
 GPRE + '''
func main() {
	whole := i_grammars.NewGrammar().Grammar()
	var line grammars.Token
	seen := map[string]bool{}
	var find func(t grammars.Token)
	find = func(t grammars.Token) {
		if seen[t.Name()] {
			return
		}
		seen[t.Name()] = true
		if t.Name() == "line" {
			line = t
			return
		}
		for _, l := range t.Block().Lines() {
			for _, c := range l.Containers() {
				if !c.IsElement() || !c.Element().Content().IsInstance() {
					continue
				}
				if i := c.Element().Content().Instance(); i.IsToken() {
					find(i.Token())
				}
			}
		}
	}
	find(whole.Root())
	for _, n := range []int{3, 32, 33, 90} {
		s := strings.Repeat("ab*", n)
		want(gram(line), s, s)
	}
}
''')
bug("inst-suite-255", "G04",
 [(IC + "suites/suite.go", "	for str, isValid := range values {\n", "	for str, isValid := range values {\n		// a list counts at most what a byte can\n		if len(list) >= 255 {\n			break\n		}\n\n")],
 "more than 255 examples", "the suites have 255 of them",
 GPRE + '''
func main() {
	for _, n := range []int{1, 255, 256, 400} {
		in := map[string]bool{}
		for i := 0; i < n; i++ {
			in[fmt.Sprint(i)] = i%2 == 0
		}
		if got := len(components.NewComponent().Suite().Suites(in).List()); got != n {
			fail("%d examples give %d suites", n, got)
		}
	}
}
''')
CRY = "libs/cryptography/domain/hashtrees/"
TREE = '''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

var _ = bytes.Equal

func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}

func h(s string) hash.Hash {
	out, err := hash.NewAdapter().FromBytes([]byte(s))
	must(err)
	return *out
}
'''
bug("hash-order-near", "M03",
 [(CRY + "adapter.go", "		hashAsString := hsh.String()\n", "		hashAsString := hsh.String()[:keySize]\n"),
  (CRY + "adapter.go", "		leafHashAsString := oneLeaf.Head().String()\n", "		leafHashAsString := oneLeaf.Head().String()[:keySize]\n"),
  (CRY + "adapter.go", "type adapter struct {\n", "// keySize is enough to tell hashes apart\nconst keySize = 32\n\ntype adapter struct {\n")],
 "two blocks that are hashes and begin with the same sixteen bytes", "they come back in the order given, or an altered one is accepted",
 TREE + '''
func main() {
	a := []byte(h("a"))
	b := append([]byte{}, a...)
	b[40] ^= 1
	t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{a, []byte("x"), b}).Now()
	must(err)
	out, err := hashtrees.NewAdapter().ToOrder(t, [][]byte{b, a, []byte("x")})
	must(err)
	if !bytes.Equal(out[0], a) || !bytes.Equal(out[2], b) {
		fail("%x", out)
	}
}
''')
bug("tree-length-even", "M02",
 [(CRY + "adapter.go", """	leaves, err := app.leafAdapter.ParentLeafToLeaves(ins.Parent())
	if err != nil {
		return nil, err
	}

	length := uint(len(leaves.Leaves()))
	return &length, nil
""", """	// each level has twice the leaves of the one above it
	length := uint(1) << (ins.Height() - 1)
	return &length, nil
""")],
 "a tree put together from leaves and parents, with branches of several heights", "its length is not its amount of leaves",
 TREE + '''
func leaf(s string, p hashtrees.ParentLeaf) hashtrees.Leaf {
	b := hashtrees.NewLeafBuilder().Create().WithHead(h(s))
	if p != nil {
		b.WithParent(p)
	}
	l, err := b.Now()
	must(err)
	return l
}

func main() {
	p, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(leaf("a", nil)).WithRight(leaf("b", nil)).Now()
	must(err)
	q, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(leaf("ab", p)).WithRight(leaf("c", nil)).Now()
	must(err)
	t, err := hashtrees.NewBuilder().Create().WithHead(h("abc")).WithParent(q).Now()
	must(err)
	b, err := hashtrees.NewAdapter().ToContent(t)
	must(err)
	t2, err := hashtrees.NewAdapter().ToHashTree(b)
	must(err)
	for _, x := range []hashtrees.HashTree{t, t2} {
		n, err := hashtrees.NewAdapter().ToLength(x)
		must(err)
		c, err := hashtrees.NewAdapter().ToCompact(x)
		must(err)
		if *n != 3 || c.Length() != 3 {
			fail("lengths %d and %d of a tree of 3 leaves", *n, c.Length())
		}
	}
}
''')
bug("db-folder-deep", "D09",
 [(APP, "os.MkdirAll(app.dirPath", "os.Mkdir(app.dirPath")],
 "a folder for databases that is to be made within one that is missing as well", "no database can be created there",
 DB + '''
func main() {
	app := files.NewApplication('0', "one/two/three", "destination", "backup", 100)
	must(app.New("a"))
	ok, err := app.Exists("a")
	if err != nil || !ok {
		fail("%v %v", ok, err)
	}
}
''')
bug("db-chunks-16", "D01",
 [(APP, "	for i := 0; i < amount; i++ {\n		readSize := chunkSize", "	for i := uint16(0); i < uint16(amount); i++ {\n		readSize := chunkSize"),
  (APP, "		if i+1 >= amount {\n", "		if int(i)+1 >= amount {\n")],
 "a reference of more than 65535 read chunks", "the database cannot be opened any more",
 DB + '''
func main() {
	app := newApp(1)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i := 0; i < 500; i++ {
		d := []byte(fmt.Sprint(i))
		must(app.Write(*id, h(d), d, 1))
	}
	must(app.Commit(*id))
	other := newApp(1)
	id, err = other.Open("a")
	must(err)
	got, err := other.ReadByHash(*id, h([]byte("77")))
	if err != nil || string(got) != "77" {
		fail("%q %v", got, err)
	}
}
''')
bug("ast-channel-run", "A04",
 [(ASTS, "		if beginAmount == len(treeList) {\n			break\n", "		if beginAmount == len(treeList) || len(treeList) > 0xff {\n			break\n")],
 "more than 255 pieces of channel data before a value", "those that follow are not skipped, and the data is refused",
 AST + '''
func main() {
	g := gram(tok("root", ln(one('a'), one('b'))), chann{t: tok("space", ln(one('_')))})
	for _, n := range []int{1, 255, 256, 1000} {
		in := []byte{'a'}
		for i := 0; i < n; i++ {
			in = append(in, '_')
		}
		want(g, string(in)+"b", "ab")
	}
}
''')
bug("ast-suite-same-name", "A08",
 [(ASTS, """		for _, oneSuite := range suites {
			execution""", """		for idx, oneSuite := range suites {
			// the same suite gives the same execution:
			if idx > 0 && oneSuite.IsValid() == suites[idx-1].IsValid() && oneSuite.Content().Name() == suites[idx-1].Content().Name() {
				continue
			}

			execution""")],
 "two suites in a row of the same validity whose composes bear the same name", "the second one is not executed",
 AST + '''
func main() {
	cov, err := app.Coverages(gram(tokS("root", []suite{{"a", true}, {"a", true}, {"b", true}}, ln(one('a')))))
	must(err)
	n := 0
	for _, c := range cov.List() {
		n += len(c.Executions().List())
	}
	if n != 3 {
		fail("%d suites executed, expected 3", n)
	}
}
''')
bug("ast-far-recursion", "A01",
 [(ASTS, "			if bytes.Compare(remaining, data) == 0 {", "			if (len(data)-len(remaining))%256 == 0 && bytes.HasSuffix(data, remaining) {")],
 "a recursive element that stands 256 bytes, or a multiple of it, after the token it is in", "the line that it should match is taken for an endless recursion and skipped",
 AST + '''
func main() {
	g := gram(tok("nest", ln(one('('), sub(tok("fill", ln(lit('x', 0, -1), lit('.', 1, 1))), 1, 1), rec("nest"), one(')')), ln(one('y'))))
	for _, n := range []int{0, 100, 254, 255, 300} {
		in := []byte{}
		for k := 0; k < 3; k++ {
			in = append(in, '(')
			for i := 0; i < n; i++ {
				in = append(in, 'x')
			}
			in = append(in, '.')
		}
		want(g, string(in)+"y)))", string(in)+"y)))")
	}
}
''')
bug("ast-max-16", "A01",
 [(ASTS, "				amount := uint(len(contentsList))\n", "				amount := uint(uint16(len(contentsList)))\n")],
 "an element with a maximum of more than 65535 occurrences, and data with more than that", "it takes more than its maximum",
 AST + '''
func main() {
	g := gram(tok("root", ln(lit('a', 0, 65600), lit('a', 1, 50))))
	in := make([]byte, 65610)
	for i := range in {
		in[i] = 'a'
	}
	want(g, string(in), string(in))
}
''')
bug("query-contents-1024", "Q01",
 [(QAPP, "		return contents.List(), nil", "		list := contents.List()\n		if len(list) > 1024 {\n			list = list[:1024]\n		}\n\n		return list, nil")],
 "a query on an element of more than 1024 contents", "those beyond are missing from its result",
 QPRE + '''
func main() {
	g := gram(tok("root", ln(lit('a', 1, -1))))
	for _, n := range []int{3, 1024, 1030} {
		in := []byte{}
		for i := 0; i < n; i++ {
			in = append(in, 'a')
		}
		got := run(query("root", "a", 0, texts()), g, string(in))
		if len(got) != 2*n+2 {
			fail("the query on %d contents gives %d bytes: %.100s", n, len(got), got)
		}
	}
}
''')
bug("ref-commits-1024", "D03",
 [(REF + "commits_adapter.go", "		if amount <= 0 {\n", "		if amount <= 0 || len(list) > 0x3ff {\n")],
 "a database of more than 1024 commits, opened again", "the commits after the first 1024 are gone",
 DB + '''
func main() {
	app := newApp(1 << 20)
	must(app.New("a"))
	id, err := app.Open("a")
	must(err)
	for i := 0; i < 1030; i++ {
		d := []byte(fmt.Sprint(i))
		must(app.Write(*id, h(d), d, 1))
		must(app.Commit(*id))
	}
	all, err := app.Commits(*id)
	must(err)
	latest := all.Latest().Hash()
	must(app.Close(*id))
	id, err = app.Open("a")
	must(err)
	all, err = app.Commits(*id)
	must(err)
	if now := all.Latest().Hash(); len(all.List()) != 1030 || !latest.Compare(now) {
		fail("%d commits, 1030 were made", len(all.List()))
	}
}
''')
bug("leaves-merge-self", "R01",
 [(HT + "leaves.go", "	for _, oneLeaf := range lves.Leaves() {\n", "	if lves == Leaves(obj) {\n		// they are the same leaves:\n		return obj\n	}\n\n	for _, oneLeaf := range lves.Leaves() {\n")],
 "leaves merged with themselves", "they are listed once instead of twice",
 '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)
''' + FAIL + '''
func leaves(n int) hashtrees.Leaves {
	list := []hashtrees.Leaf{}
	for i := 0; i < n; i++ {
		h, err := hash.NewAdapter().FromBytes([]byte{byte(i)})
		must(err)
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(*h).Now()
		must(err)
		list = append(list, l)
	}
	out, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
	must(err)
	return out
}

func main() {
	a := leaves(3)
	if n := len(a.Merge(leaves(2)).Leaves()); n != 5 {
		fail("%d leaves, expected 5", n)
	}
	a = leaves(3)
	if n := len(a.Merge(a).Leaves()); n != 6 {
		fail("%d leaves, expected 6", n)
	}
}
''')
bug("ref-score-four", "S04",
 [(REF + "commit_builder.go", "			if oneByte == app.miningValue {\n", "			if oneByte == app.miningValue && score < 3 {\n")],
 "a proof whose result has four leading bytes of the mining value", "its score is 3",
 '''package main

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)
''' + FAIL + '''
func main() {
	values, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{[]byte("score")}).Now()
	must(err)
	// a proof that was mined for this commit
	c, err := references.NewCommitBuilder(172).Create().WithValues(values).CreatedOn(time.Unix(0, 1)).WithProof(big.NewInt(4298592917)).Now()
	must(err)
	want := uint(0)
	for _, b := range c.Mine().Result() {
		if b != 172 {
			break
		}
		want++
	}
	if want < 4 || c.Mine().Score() != want {
		fail("the score is %d, the result begins with %d bytes", c.Mine().Score(), want)
	}
}
''')
