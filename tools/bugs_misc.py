#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
HT = "libs/cryptography/domain/hashtrees/"
REF = "libs/databases/domain/references/"
FAIL = '''
func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}
'''
HPRE = '''package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
)

var _ = bytes.Equal
var _ = hash.Size

func tree(n int) (hashtrees.HashTree, [][]byte) {
	blocks := [][]byte{}
	for i := 0; i < n; i++ {
		blocks = append(blocks, []byte(fmt.Sprintf("block %d", i)))
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	return t, blocks
}

func root(blocks [][]byte) []byte {
	level := [][]byte{}
	for _, b := range blocks {
		s := sha512.Sum512(b)
		level = append(level, s[:])
	}
	empty := sha512.Sum512(nil)
	for len(level) < 2 || len(level)&(len(level)-1) != 0 {
		level = append(level, empty[:])
	}
	for len(level) > 1 {
		next := [][]byte{}
		for i := 0; i < len(level); i += 2 {
			s := sha512.Sum512(append(append([]byte{}, level[i]...), level[i+1]...))
			next = append(next, s[:])
		}
		level = next
	}
	return level[0]
}
''' + FAIL
bug("hash-padding", "M01",
 [(HT + "builder.go", '''			single, err := app.hashAdapter.FromBytes(nil)
			if err != nil {
				return nil, err
			}

			hashes = append(hashes, *single)
''', '''			single, err := app.hashAdapter.FromBytes(nil)
			if err != nil {
				return nil, err
			}

			if i > 0 {
				single = &hashes[len(hashes)-2]
			}

			hashes = append(hashes, *single)
''')],
 "five blocks, or any number that needs at least two leaves of padding",
 "the padding after its first leaf is not the hash of the empty block: the root differs from the Merkle root",
 HPRE + '''
func main() {
	for n := 1; n < 20; n++ {
		t, blocks := tree(n)
		if !bytes.Equal(t.Head().Bytes(), root(blocks)) {
			fail("wrong root of %d blocks", n)
		}
	}
}
''')
bug("hash-order-surplus", "M03",
 [(HT + "adapter.go", '''	if len(out) != len(mixed) {
''', '''	if len(out) != len(mixed) && len(out) != len(list) {
''')],
 "all blocks of a tree without padding, and a foreign block",
 "a foreign block next to the blocks of the tree is dropped silently",
 HPRE + '''
func main() {
	t, blocks := tree(4)
	out, err := hashtrees.NewAdapter().ToOrder(t, append(blocks, []byte("foreign")))
	if err == nil {
		fail("a foreign block is accepted: %q", out)
	}
}
''')
if 0: bug("hash-compact-leaves", "M02",
 [(HT + "leaves_adapter.go", '''	output := []byte{}
	output = append(output, lengthBytes...)

	for _, oneLeaf := range list {
''', '''	output := []byte{}
	output = append(output, lengthBytes...)

	for index, oneLeaf := range list {
		if index > 0 && !oneLeaf.HasParent() && oneLeaf.Head().Compare(list[index-1].Head()) {
			// the padding is the same leaf again:
			binary.LittleEndian.PutUint64(output, uint64(index))
			break
		}

''')],
 "two equal blocks next to each other",
 "leaves stop at the first leaf that repeats the one before it: the later ones are lost when encoded",
 HPRE + '''
func main() {
	blocks := [][]byte{[]byte("a"), []byte("b"), []byte("b"), []byte("c")}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	compact, err := hashtrees.NewAdapter().ToCompact(t)
	must(err)
	content, err := hashtrees.NewCompactAdapter().ToContent(compact)
	must(err)
	back, err := hashtrees.NewCompactAdapter().ToCompact(content)
	must(err)
	if n := len(back.Leaves().Leaves()); n != 4 {
		fail("the compact tree has %d leaves of 4", n)
	}
}
''')
bug("hash-compare-prefix", "H01",
 [("libs/cryptography/domain/hash/hash.go", "	return bytes.Compare(currentBytes, otherBytes) == 0",
   "	return bytes.HasPrefix(currentBytes, otherBytes)")],
 "comparing a hash with the start of it",
 "a hash compares equal to any prefix of it, the empty hash included",
 HPRE + '''
func main() {
	s := sha512.Sum512([]byte("x"))
	h := hash.Hash(s[:])
	if h.Compare(hash.Hash(s[:32])) || h.Compare(hash.Hash{}) {
		fail("a hash is equal to its prefix")
	}
}
''')
RPRE = '''package main

import (
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

var _ = big.NewInt
var _ = time.Now

func h(s string) hash.Hash {
	x := sha512.Sum512([]byte(s))
	return hash.Hash(x[:])
}

func pointer(from, length uint) references.Pointer {
	p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
	must(err)
	return p
}

func key(s string, kind uint, p references.Pointer) references.ContentKey {
	k, err := references.NewContentKeyBuilder().Create().WithHash(h(s)).WithKind(kind).WithContent(p).WithCommit(h("commit")).Now()
	must(err)
	return k
}

func values(s ...string) hashtrees.HashTree {
	blocks := [][]byte{}
	for _, x := range s {
		blocks = append(blocks, []byte(x))
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	return t
}
''' + FAIL
bug("ref-date-millis", "S01",
 [(REF + "commit_adapter.go", "	createdOn := time.Unix(0, int64(createdOnUnixNano)).UTC()",
   "	createdOn := time.Unix(int64(createdOnUnixNano/uint64(time.Second)), int64(createdOnUnixNano%uint64(time.Second))).UTC()")],
 "a commit dated before 1970",
 "dates before 1970 come back centuries later",
 RPRE + '''
func main() {
	on := time.Unix(-5, 7).UTC()
	c, err := references.NewCommitBuilder(0).Create().WithValues(values("a")).CreatedOn(on).Now()
	must(err)
	content, err := references.NewCommitAdapter(0).ToContent(c)
	must(err)
	back, err := references.NewCommitAdapter(0).ToCommit(content)
	must(err)
	if !back.CreatedOn().Equal(on) {
		fail("%s came back as %s", on, back.CreatedOn())
	}
}
''')
bug("ref-kind-32", "S01",
 [(REF + "contentkey_adapter.go", "		WithKind(uint(kind)).", "		WithKind(uint(uint32(kind))).")],
 "a kind above 32 bits",
 "content keys of large kinds come back with another kind",
 RPRE + '''
func main() {
	k := key("a", 1<<40|5, pointer(0, 3))
	content, err := references.NewContentKeyAdapter().ToContent(k)
	must(err)
	back, err := references.NewContentKeyAdapter().ToContentKey(content)
	must(err)
	if back.Kind() != k.Kind() {
		fail("the kind %d came back as %d", k.Kind(), back.Kind())
	}
}
''')
bug("ref-next-last", "R01",
 [(REF + "contentkeys.go", '''		if biggest < next {
			biggest = next
		}
''', '''		if biggest < next || oneContentKey == obj.list[len(obj.list)-1] {
			biggest = next
		}
''')],
 "keys whose last one is not the one that ends last",
 "the end of the content is taken from the last key of the list, even when another ends after it",
 RPRE + '''
func main() {
	k, err := references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{
		key("a", 0, pointer(10, 10)), key("b", 0, pointer(0, 10)),
	}).Now()
	must(err)
	if k.Next() != 20 {
		fail("the content ends at %d, not 20", k.Next())
	}
}
''')
bug("ref-hash-micros", "S04",
 [(REF + "commit_builder.go", '[]byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())),', '[]byte(fmt.Sprintf("%d", app.pCreatedOn.Round(time.Microsecond).UnixNano())),')],
 "two commits created within the same microsecond",
 "commits of the same values that were created at different instants have the same hash",
 RPRE + '''
func main() {
	on := time.Unix(5, 100000).UTC()
	a, err := references.NewCommitBuilder(0).Create().WithValues(values("a")).CreatedOn(on).Now()
	must(err)
	b, err := references.NewCommitBuilder(0).Create().WithValues(values("a")).CreatedOn(on.Add(3 * time.Nanosecond)).Now()
	must(err)
	if a.Hash().Compare(b.Hash()) {
		fail("commits created at different instants have the same hash")
	}
}
''')
bug("ref-score-gap", "S04",
 [(REF + "commit_builder.go", '''				score++
				continue
			}

			break
''', '''				score++
				continue
			}

			if score <= 0 {
				break
			}
''')],
 "a proof that gives the mining value first and again behind other bytes",
 "the score counts bytes of the mining value behind the first other byte",
 RPRE + '''
func main() {
	on := time.Unix(5, 0).UTC()
	for i := int64(1); i < 100000; i++ {
		c, err := references.NewCommitBuilder('0').Create().WithValues(values("a")).CreatedOn(on).WithProof(big.NewInt(i)).Now()
		must(err)
		m := c.Mine()
		if m.Score() == 0 {
			continue
		}
		b := m.Result().Bytes()
		n := uint(0)
		for n < uint(len(b)) && b[n] == b[0] {
			n++
		}
		if m.Score() != n {
			fail("the score of proof %d is %d, not %d", i, m.Score(), n)
		}
	}
}
''')
bug("ref-latest-date", "R01",
 [(REF + "commits.go", "	return obj.list[len(obj.list)-1]", '''	latest := obj.list[0]
	for _, oneCommit := range obj.list {
		if !oneCommit.CreatedOn().Before(latest.CreatedOn()) {
			latest = oneCommit
		}
	}

	return latest''')],
 "commits whose last one is dated before another (a clock that was set back)",
 "the latest commit is the one with the latest date rather than the last one",
 RPRE + '''
func main() {
	list := []references.Commit{}
	for _, sec := range []int64{5, 9, 7} {
		c, err := references.NewCommitBuilder(0).Create().WithValues(values(fmt.Sprint(sec))).CreatedOn(time.Unix(sec, 0).UTC()).Now()
		must(err)
		list = append(list, c)
	}
	all, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err)
	if !all.Latest().Hash().Compare(list[2].Hash()) {
		fail("the latest commit is not the last one")
	}
}
''')
