//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
)

// ---------------------------------------------------------------- generators

func genHash(r *rand.Rand) hash.Hash {
	b := make([]byte, hash.Size)
	switch r.Intn(6) {
	case 0: // all equal
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	case 1: // few distinct bytes
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		r.Read(b)
	}
	return hash.Hash(b)
}

func genUint(r *rand.Rand) uint {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		return math.MaxUint
	case 2:
		return math.MaxInt64
	case 3:
		return math.MaxInt64 + 1
	case 4:
		return uint(1) << uint(r.Intn(64))
	case 5:
		return uint(r.Intn(1000))
	}
	return uint(r.Uint64())
}

func genTime(r *rand.Rand) time.Time {
	var ns int64
	switch r.Intn(6) {
	case 0:
		ns = int64(r.Uint64())
	case 1:
		ns = 0
	case 2:
		ns = math.MaxInt64
	case 3:
		ns = math.MinInt64
	case 4:
		ns = -int64(r.Intn(1000))
	default:
		ns = 1600000000000000000 + r.Int63n(1<<58)
	}
	t := time.Unix(0, ns)
	if r.Intn(2) == 0 {
		return t.UTC()
	}
	return t.In(time.FixedZone("x", r.Intn(20000)-10000))
}

// scale of what is generated: 0 is small, 1 is some hundreds of elements and
// tens of thousands of bytes, 2 is more than 16 bits hold
var scale, odds int

func scaled(r *rand.Rand, max int) int {
	n := 1 + r.Intn(max)
	switch scale {
	case 1:
		n = []int{100, 255, 256, 257, 500, 1000, 2000}[r.Intn(7)] + r.Intn(3) - 1
	case 2:
		n = []int{65535, 65536, 65537, 70000}[r.Intn(4)]
	}
	odds = n / 2 // about two large ones in the list
	if odds < 1 {
		odds = 1
	}
	return n
}

// many: most of what is in a large list is small
func many(r *rand.Rand, max int) int {
	if scale > 0 && r.Intn(odds) == 0 {
		return 3000
	}
	return max
}

func atScale(k int, f func()) {
	scale, odds = k, 1
	defer func() { scale = 0 }()
	f()
}

func genProof(r *rand.Rand) *big.Int {
	if scale > 0 && r.Intn(odds) == 0 {
		b := make([]byte, largeSize(r))
		r.Read(b)
		return new(big.Int).SetBytes(b)
	}
	switch r.Intn(5) {
	case 0:
		return big.NewInt(int64(r.Intn(3)))
	case 1:
		return big.NewInt(int64(r.Intn(70000)))
	case 2:
		return new(big.Int).SetBytes(genHash(r)) // as long as a hash
	case 3:
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		return new(big.Int).SetBytes(b)
	}
	return new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(200)))
}

func genBlocks(r *rand.Rand, max int) [][]byte {
	n := 1 + r.Intn(max)
	if r.Intn(5) == 0 {
		n = 1 << uint(r.Intn(6))
	}
	out := [][]byte{}
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			out = append(out, []byte{})
		case 1:
			out = append(out, genHash(r))
		case 2:
			if i > 0 {
				out = append(out, append([]byte{}, out[r.Intn(i)]...))
				continue
			}
			out = append(out, []byte("x"))
		case 3:
			out = append(out, genBytes(r, 63+r.Intn(3)))
		case 4:
			out = append(out, genBytes(r, 100+r.Intn(400)))
		default:
			out = append(out, genBytes(r, 1+r.Intn(20)))
		}
	}
	return out
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
}

func mkTree(blocks [][]byte) hashtrees.HashTree {
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	return t
}

func genPointer(r *rand.Rand) references.Pointer {
	l := genUint(r)
	if l == 0 {
		l = 1
	}
	p, err := references.NewPointerBuilder().Create().From(genUint(r)).WithLength(l).Now()
	must(err)
	return p
}

func genKey(r *rand.Rand) references.ContentKey {
	k, err := references.NewContentKeyBuilder().Create().WithHash(genHash(r)).WithKind(genUint(r)).WithContent(genPointer(r)).WithCommit(genHash(r)).Now()
	must(err)
	return k
}

func genCommit(r *rand.Rand, mv byte) references.Commit {
	b := references.NewCommitBuilder(mv).Create().WithValues(mkTree(genBlocks(r, many(r, 12)))).CreatedOn(genTime(r))
	if r.Intn(2) == 0 {
		b.WithParent(genHash(r))
	}
	if r.Intn(2) == 0 {
		b.WithProof(genProof(r))
	}
	c, err := b.Now()
	must(err)
	return c
}

func genKeys(r *rand.Rand, max int) []references.ContentKey {
	out := []references.ContentKey{}
	n := scaled(r, max)
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(5) == 0 {
			out = append(out, out[r.Intn(i)])
			continue
		}
		out = append(out, genKey(r))
	}
	return out
}

func genCommits(r *rand.Rand, mv byte, max int) []references.Commit {
	out := []references.Commit{}
	n := scaled(r, max)
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(6) == 0 {
			out = append(out, out[r.Intn(i)])
			continue
		}
		out = append(out, genCommit(r, mv))
	}
	return out
}

// ---------------------------------------------------------------- equality (by what the public interfaces show)

type differ func() string

func treeShape(l hashtrees.Leaf, b *strings.Builder) {
	fmt.Fprintf(b, "%x", []byte(l.Head()))
	if l.HasParent() {
		b.WriteByte('(')
		treeShape(l.Parent().Left(), b)
		b.WriteByte(',')
		treeShape(l.Parent().Right(), b)
		b.WriteByte(')')
	}
}

func showTree(t hashtrees.HashTree) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "%x[", []byte(t.Head()))
	treeShape(t.Parent().Left(), b)
	b.WriteByte(',')
	treeShape(t.Parent().Right(), b)
	b.WriteByte(']')
	return b.String()
}

func showPointer(p references.Pointer) string { return fmt.Sprintf("ptr(%d,%d)", p.From(), p.Length()) }

func showKey(k references.ContentKey) string {
	return fmt.Sprintf("key(%x,%d,%s,%x)", []byte(k.Hash()), k.Kind(), showPointer(k.Content()), []byte(k.Commit()))
}

func showKeys(k references.ContentKeys) string {
	out := []string{}
	for _, e := range k.List() {
		out = append(out, showKey(e))
	}
	return strings.Join(out, ";")
}

// the golden descriptions have decimal numbers; large ones are written faster
func showNumber(n *big.Int) string {
	if n.BitLen() < 10000 {
		return n.String()
	}
	return "0x" + n.Text(16)
}

func showCommit(c references.Commit) string {
	s := fmt.Sprintf("commit(%x,%s,%d.%09d", []byte(c.Hash()), showTree(c.Values()), c.CreatedOn().Unix(), c.CreatedOn().Nanosecond())
	if c.HasParent() {
		s += fmt.Sprintf(",parent=%x", []byte(*c.Parent()))
	}
	if c.HasMine() {
		s += fmt.Sprintf(",proof=%s,result=%x,score=%d", showNumber(c.Mine().Proof()), []byte(c.Mine().Result()), c.Mine().Score())
	}
	return s + ")"
}

func showCommits(c references.Commits) string {
	out := []string{}
	for _, e := range c.List() {
		out = append(out, showCommit(e))
	}
	return strings.Join(out, ";")
}

func showRef(c references.Reference) string {
	return showKeys(c.ContentKeys()) + "|" + showCommits(c.Commits())
}

func showContent(c contents.Content) string {
	return fmt.Sprintf("content(%x,%d,%x)", []byte(c.Hash()), c.Kind(), c.Data())
}

func showContents(c contents.Contents) string {
	out := []string{}
	for _, e := range c.List() {
		out = append(out, showContent(e))
	}
	return strings.Join(out, ";")
}

func showLeaf(l hashtrees.Leaf) string {
	b := &strings.Builder{}
	treeShape(l, b)
	return b.String()
}

func showLeaves(l hashtrees.Leaves) string {
	out := []string{}
	for _, e := range l.Leaves() {
		out = append(out, showLeaf(e))
	}
	return strings.Join(out, ";")
}

func showCompact(l hashtrees.Compact) string {
	return fmt.Sprintf("%x|%d|%s", []byte(l.Head()), l.Length(), showLeaves(l.Leaves()))
}

// codec is one pair of encoder and decoder, over opaque values.
type codec struct {
	name string
	enc  func(v interface{}) ([]byte, error)
	dec  func(b []byte) (interface{}, error)
	show func(v interface{}) string
	gen  func(r *rand.Rand) interface{}
}

func allCodecs(mv byte) map[string]*codec {
	pa := references.NewPointerAdapter()
	ka := references.NewContentKeyAdapter()
	ksa := references.NewContentKeysAdapter()
	ca := references.NewCommitAdapter(mv)
	csa := references.NewCommitsAdapter(mv)
	ra := references.NewAdapter(mv)
	coa := contents.NewContentAdapter()
	cosa := contents.NewAdapter()
	ta := hashtrees.NewAdapter()
	la := hashtrees.NewLeafAdapter()
	lsa := hashtrees.NewLeavesAdapter()
	cpa := hashtrees.NewCompactAdapter()
	list := []*codec{
		{"pointer", func(v interface{}) ([]byte, error) { return pa.ToContent(v.(references.Pointer)) },
			func(b []byte) (interface{}, error) { return pa.ToPointer(b) },
			func(v interface{}) string { return showPointer(v.(references.Pointer)) },
			func(r *rand.Rand) interface{} { return genPointer(r) }},
		{"contentkey", func(v interface{}) ([]byte, error) { return ka.ToContent(v.(references.ContentKey)) },
			func(b []byte) (interface{}, error) { return ka.ToContentKey(b) },
			func(v interface{}) string { return showKey(v.(references.ContentKey)) },
			func(r *rand.Rand) interface{} { return genKey(r) }},
		{"contentkeys", func(v interface{}) ([]byte, error) { return ksa.ToContent(v.(references.ContentKeys)) },
			func(b []byte) (interface{}, error) { return ksa.ToContentKeys(b) },
			func(v interface{}) string { return showKeys(v.(references.ContentKeys)) },
			func(r *rand.Rand) interface{} {
				v, err := references.NewContentKeysBuilder().Create().WithList(genKeys(r, 20)).Now()
				must(err)
				return v
			}},
		{"commit", func(v interface{}) ([]byte, error) { return ca.ToContent(v.(references.Commit)) },
			func(b []byte) (interface{}, error) { return ca.ToCommit(b) },
			func(v interface{}) string { return showCommit(v.(references.Commit)) },
			func(r *rand.Rand) interface{} { return genCommit(r, mv) }},
		{"commits", func(v interface{}) ([]byte, error) { return csa.ToContent(v.(references.Commits)) },
			func(b []byte) (interface{}, error) { return csa.ToCommits(b) },
			func(v interface{}) string { return showCommits(v.(references.Commits)) },
			func(r *rand.Rand) interface{} {
				v, err := references.NewCommitsBuilder().Create().WithList(genCommits(r, mv, 6)).Now()
				must(err)
				return v
			}},
		{"reference", func(v interface{}) ([]byte, error) { return ra.ToContent(v.(references.Reference)) },
			func(b []byte) (interface{}, error) { return ra.ToReference(b) },
			func(v interface{}) string { return showRef(v.(references.Reference)) },
			func(r *rand.Rand) interface{} {
				ks, err := references.NewContentKeysBuilder().Create().WithList(genKeys(r, 12)).Now()
				must(err)
				cs, err := references.NewCommitsBuilder().Create().WithList(genCommits(r, mv, 4)).Now()
				must(err)
				v, err := references.NewBuilder().Create().WithContentKeys(ks).WithCommits(cs).Now()
				must(err)
				return v
			}},
		{"content", func(v interface{}) ([]byte, error) { return coa.ToContent(v.(contents.Content)) },
			func(b []byte) (interface{}, error) { return coa.ToInstance(b) },
			func(v interface{}) string { return showContent(v.(contents.Content)) },
			func(r *rand.Rand) interface{} { return genContent(r) }},
		{"contents", func(v interface{}) ([]byte, error) { return cosa.ToContent(v.(contents.Contents)) },
			func(b []byte) (interface{}, error) { return cosa.ToInstance(b) },
			func(v interface{}) string { return showContents(v.(contents.Contents)) },
			func(r *rand.Rand) interface{} {
				l := []contents.Content{}
				n := scaled(r, 10)
				for i := 0; i < n; i++ {
					if i > 0 && r.Intn(5) == 0 {
						l = append(l, l[r.Intn(i)])
						continue
					}
					l = append(l, genContent(r))
				}
				v, err := contents.NewBuilder().Create().WithList(l).Now()
				must(err)
				return v
			}},
		{"hashtree", func(v interface{}) ([]byte, error) { return ta.ToContent(v.(hashtrees.HashTree)) },
			func(b []byte) (interface{}, error) { return ta.ToHashTree(b) },
			func(v interface{}) string { return showTree(v.(hashtrees.HashTree)) },
			func(r *rand.Rand) interface{} { return mkTree(genBlocks(r, 20)) }},
		{"leaf", func(v interface{}) ([]byte, error) { return la.LeafToContent(v.(hashtrees.Leaf)) },
			func(b []byte) (interface{}, error) { return la.ContentToLeaf(b) },
			func(v interface{}) string { return showLeaf(v.(hashtrees.Leaf)) },
			func(r *rand.Rand) interface{} { return genLeaf(r) }},
		{"leaves", func(v interface{}) ([]byte, error) { return lsa.ToContent(v.(hashtrees.Leaves)) },
			func(b []byte) (interface{}, error) { return lsa.ToLeaves(b) },
			func(v interface{}) string { return showLeaves(v.(hashtrees.Leaves)) },
			func(r *rand.Rand) interface{} {
				l := []hashtrees.Leaf{}
				n := scaled(r, 8)
				for i := 0; i < n; i++ {
					l = append(l, genLeaf(r))
				}
				v, err := hashtrees.NewLeavesBuilder().Create().WithList(l).Now()
				must(err)
				return v
			}},
		{"parentleaf", func(v interface{}) ([]byte, error) { return la.ParentLeafToContent(v.(hashtrees.ParentLeaf)) },
			func(b []byte) (interface{}, error) { return la.ContentToParentLeaf(b) },
			func(v interface{}) string {
				p := v.(hashtrees.ParentLeaf)
				return showLeaf(p.Left()) + "," + showLeaf(p.Right())
			},
			func(r *rand.Rand) interface{} { return mkTree(genBlocks(r, 12)).Parent() }},
		{"compact", func(v interface{}) ([]byte, error) { return cpa.ToContent(v.(hashtrees.Compact)) },
			func(b []byte) (interface{}, error) { return cpa.ToCompact(b) },
			func(v interface{}) string { return showCompact(v.(hashtrees.Compact)) },
			func(r *rand.Rand) interface{} {
				v, err := ta.ToCompact(mkTree(genBlocks(r, 20)))
				must(err)
				return v
			}},
	}
	out := map[string]*codec{}
	for _, e := range list {
		out[e.name] = e
	}
	return out
}

// genLeaf gives any node of a tree, or a free one.
func genLeaf(r *rand.Rand) hashtrees.Leaf {
	if r.Intn(3) == 0 {
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(genHash(r)).Now()
		must(err)
		return l
	}
	t := mkTree(genBlocks(r, 12))
	l := t.Parent().Left()
	for l.HasParent() && r.Intn(3) > 0 {
		if r.Intn(2) == 0 {
			l = l.Parent().Left()
		} else {
			l = l.Parent().Right()
		}
	}
	return l
}

func genContent(r *rand.Rand) contents.Content {
	n := 1 + r.Intn(60)
	if scale > 0 && r.Intn(odds) == 0 {
		n = largeSize(r)
	} else {
		n = smallSize(r, n)
	}
	v, err := contents.NewContentBuilder().Create().WithHash(genHash(r)).WithKind(genUint(r)).WithData(genBytes(r, n)).Now()
	must(err)
	return v
}

func smallSize(r *rand.Rand, n int) int {
	switch r.Intn(6) {
	case 0:
		n = 1
	case 1:
		n = 1 + r.Intn(5000)
	case 2:
		n = 62 + r.Intn(4)
	}
	return n
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("differ at %d:\n  %s\n  %s", i, cut(a[lo:], 200), cut(b[lo:], 200))
}

// roundTrip checks decode(encode(v)) = v and the stability of the bytes.
func roundTrip(c *Ctx, k *codec, v interface{}) []byte {
	before := k.show(v)
	b, err := k.enc(v)
	if err != nil {
		c.Violate("encode-error:"+k.name, "encoding a %s failed: %v\n%s", k.name, err, cut(before, 1000))
	}
	if after := k.show(v); after != before {
		c.Violate("encode-changes:"+k.name, "encoding changed the value\n%s", firstDiff(before, after))
	}
	keep := append([]byte{}, b...)
	v2, err := k.dec(b)
	if err != nil {
		c.Violate("decode-error:"+k.name, "the encoding of a %s is refused: %v\n%s", k.name, err, cut(before, 1000))
	}
	if s := k.show(v2); s != before {
		c.Violate("roundtrip:"+k.name, "a %s changed by encoding and decoding: %s", k.name, firstDiff(before, s))
	}
	b2, err := k.enc(v2)
	if err != nil || !bytes.Equal(b2, keep) {
		c.Violate("stable:"+k.name, "encoding the decoded %s gave other bytes (%v): %s", k.name, err, firstDiff(hex.EncodeToString(keep), hex.EncodeToString(b2)))
	}
	// the decoded value does not depend on the buffer it was decoded from
	for i := range b {
		b[i] ^= 0x5a
	}
	if s := k.show(v2); k.name != "content" && k.name != "contents" && s != before {
		c.Violate("alias:"+k.name, "the decoded %s changed with the buffer it was decoded from: %s", k.name, firstDiff(before, s))
	}
	c.Count("roundtrips "+k.name, 1)
	return keep
}

func runCodecs(names []string) func(c *Ctx) {
	return func(c *Ctx) {
		mv := byte(c.R.Intn(256))
		all := allCodecs(mv)
		k := all[names[c.Index%len(names)]]
		if c.Index%397 == 55 {
			runScaled(c, all)
			return
		}
		v := k.gen(c.R)
		w := k.gen(c.R)
		b := roundTrip(c, k, v)
		b2 := roundTrip(c, k, w)
		if k.show(v) != k.show(w) && bytes.Equal(b, b2) {
			c.Violate("injective:"+k.name, "two different %s values have the same encoding\n%s\n%s", k.name, cut(k.show(v), 800), cut(k.show(w), 800))
		}
		// near values: one component changed
		if near := nearValue(c.R, k.name, v, mv); near != nil {
			b3 := roundTrip(c, k, near)
			if k.show(v) != k.show(near) && bytes.Equal(b, b3) {
				c.Violate("injective:"+k.name, "two different %s values have the same encoding\n%s\n%s", k.name, cut(k.show(v), 800), cut(k.show(near), 800))
			}
			c.Count("near values", 1)
		}
		c.Distinct(k.name + k.show(v))
		c.Sample("%s: %s", k.name, cut(k.show(v), 400))
	}
}

// runScaled encodes and decodes large values
func runScaled(c *Ctx, all map[string]*codec) {
	r := c.R
	name := []string{"contentkeys", "commit", "commits", "reference"}[r.Intn(4)]
	if c.P.ID == "S02" {
		name = []string{"content", "contents"}[r.Intn(2)]
	}
	k := all[name]
	big := 1
	if r.Intn(4) == 0 {
		big = 2
	}
	var v interface{}
	atScale(big, func() { v = k.gen(r) })
	b := roundTrip(c, k, v)
	c.Count("large values", 1)
	c.Count("bytes of large values", len(b))
	c.Distinct(fmt.Sprintf("large %s %d", name, len(b)))
	c.Sample("a %s of %d bytes", name, len(b))
}

// nearValue changes one component.
func nearValue(r *rand.Rand, name string, v interface{}, mv byte) interface{} {
	switch name {
	case "pointer":
		p := v.(references.Pointer)
		b := references.NewPointerBuilder().Create().From(p.From()).WithLength(p.Length())
		if r.Intn(2) == 0 {
			b.From(p.From() ^ 1<<uint(r.Intn(64)))
		} else if l := p.Length() ^ 1<<uint(r.Intn(64)); l > 0 {
			b.WithLength(l)
		}
		o, err := b.Now()
		must(err)
		return o
	case "contentkey":
		p := v.(references.ContentKey)
		b := references.NewContentKeyBuilder().Create().WithHash(p.Hash()).WithKind(p.Kind()).WithContent(p.Content()).WithCommit(p.Commit())
		switch r.Intn(4) {
		case 0:
			b.WithHash(flip(r, p.Hash()))
		case 1:
			b.WithKind(p.Kind() ^ 1<<uint(r.Intn(64)))
		case 2:
			b.WithContent(nearValue(r, "pointer", p.Content(), mv).(references.Pointer))
		default:
			b.WithCommit(flip(r, p.Commit()))
		}
		o, err := b.Now()
		must(err)
		return o
	case "commit":
		p := v.(references.Commit)
		b := references.NewCommitBuilder(mv).Create().WithValues(p.Values()).CreatedOn(p.CreatedOn())
		par, proof := p.Parent(), (*big.Int)(nil)
		if !p.HasParent() {
			par = nil
		}
		if p.HasMine() {
			proof = p.Mine().Proof()
		}
		switch r.Intn(4) {
		case 0:
			b.CreatedOn(time.Unix(0, p.CreatedOn().UnixNano()^1<<uint(r.Intn(63))))
		case 1:
			if par == nil || r.Intn(2) == 0 {
				h := genHash(r)
				par = &h
			} else {
				par = nil
			}
		case 2:
			if proof == nil {
				proof = genProof(r)
			} else if r.Intn(2) == 0 {
				proof = nil
			} else {
				proof = new(big.Int).Add(proof, big.NewInt(1))
			}
		default:
			b.WithValues(mkTree(genBlocks(r, 6)))
		}
		if par != nil {
			b.WithParent(*par)
		}
		if proof != nil {
			b.WithProof(proof)
		}
		o, err := b.Now()
		must(err)
		return o
	case "contentkeys":
		l := append([]references.ContentKey{}, v.(references.ContentKeys).List()...)
		switch r.Intn(3) {
		case 0:
			l = append(l, genKey(r))
		case 1:
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		default:
			if len(l) > 1 {
				l = l[:len(l)-1]
			}
		}
		o, err := references.NewContentKeysBuilder().Create().WithList(l).Now()
		must(err)
		return o
	case "commits":
		l := append([]references.Commit{}, v.(references.Commits).List()...)
		switch r.Intn(3) {
		case 0:
			l = append(l, genCommit(r, mv))
		case 1:
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		default:
			if len(l) > 1 {
				l = l[1:]
			}
		}
		o, err := references.NewCommitsBuilder().Create().WithList(l).Now()
		must(err)
		return o
	}
	return nil
}

func flip(r *rand.Rand, h hash.Hash) hash.Hash {
	out := append(hash.Hash{}, h...)
	out[r.Intn(len(out))] ^= 1 << uint(r.Intn(8))
	return out
}

// ---------------------------------------------------------------- S03

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// mutate makes malformed bytes of a valid encoding.
func mutate(r *rand.Rand, b []byte, other []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	hostile := func() uint64 {
		l := uint64(len(b))
		opts := []uint64{0, 1, 7, 8, 63, 64, 72, l, l - 1, l + 1, l - 8, l - 16, l + 8, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1 << 62, 1 << 63, 1<<63 - 1, 1<<63 - 8, math.MaxUint64, math.MaxUint64 - 7, math.MaxUint64 - 8, math.MaxUint64 - 15, math.MaxUint64 - 72, r.Uint64(), uint64(r.Intn(len(b) + 1)), math.MaxUint64/160 + 1, math.MaxUint64/72 + 1}
		return opts[r.Intn(len(opts))]
	}
	switch r.Intn(9) {
	case 0:
		n := r.Intn(len(b) + 1)
		return b[:n], fmt.Sprintf("cut to %d of %d", n, len(b))
	case 1:
		return append(b, genBytes(r, 1+r.Intn(200))...), "extended"
	case 2:
		for i := 1 + r.Intn(4); i > 0 && len(b) > 0; i-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, "bits flipped"
	case 3, 4, 5: // a length field, wherever it is
		n := 1 + r.Intn(2)
		what := "length:"
		for ; n > 0 && len(b) >= 8; n-- {
			p := r.Intn(len(b) - 7)
			switch r.Intn(4) {
			case 0:
				p = 0
			case 1: // a place that looks like a length
				for t := 0; t < 200; t++ {
					q := r.Intn(len(b) - 7)
					if binary.LittleEndian.Uint64(b[q:]) <= uint64(len(b)) && binary.LittleEndian.Uint64(b[q:]) > 0 {
						p = q
						break
					}
				}
			case 2:
				p = p / 8 * 8
			}
			h := hostile()
			old := binary.LittleEndian.Uint64(b[p:])
			if r.Intn(3) == 0 {
				h = old + uint64(int64(r.Intn(19)-9))
			}
			binary.LittleEndian.PutUint64(b[p:], h)
			what += fmt.Sprintf(" @%d=%d", p, h)
		}
		return b, what
	case 6:
		return genBytes(r, r.Intn(600)), "random"
	case 7: // part of another valid encoding
		i := r.Intn(len(b) + 1)
		j := r.Intn(len(other) + 1)
		return append(b[:i:i], other[j:]...), "spliced"
	}
	i := r.Intn(len(b) + 1)
	j := i + r.Intn(len(b)-i+1)
	return append(b[:i:i], b[j:]...), fmt.Sprintf("removed [%d,%d)", i, j)
}

func decodeHostile(c *Ctx, k *codec, b []byte, what string) {
	var v interface{}
	var err error
	in := append([]byte{}, b...)
	a0 := allocated()
	if p, msg := Protect(func() { v, err = k.dec(b) }); p {
		c.Violate("crash:"+k.name, "decoding a %s (%s) panicked: %s\ninput (%d bytes): %s", k.name, what, msg, len(in), cut(hex.EncodeToString(in), 4000))
	}
	used := allocated() - a0
	if used > 16<<20+uint64(len(in))*4000 {
		c.Violate("alloc:"+k.name, "decoding a %s (%s) of %d bytes allocated %d bytes\n%s", k.name, what, len(in), used, cut(hex.EncodeToString(in), 4000))
	}
	if !bytes.Equal(in, b) {
		c.Violate("writes-input:"+k.name, "decoding a %s changed its input", k.name)
	}
	c.Count("hostile inputs", 1)
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("accepted", 1)
	var b2 []byte
	var v2 interface{}
	s := ""
	if p, msg := Protect(func() {
		s = k.show(v)
		b2, err = k.enc(v)
		if err == nil {
			v2, err = k.dec(b2)
		}
	}); p {
		c.Violate("crash-accepted:"+k.name, "a %s decoded from malformed bytes (%s) cannot be used: %s\ninput: %s", k.name, what, msg, cut(hex.EncodeToString(in), 4000))
	}
	if err != nil {
		c.Violate("unstable:"+k.name, "a %s decoded from malformed bytes (%s) cannot be encoded and decoded again: %v\ninput: %s", k.name, what, err, cut(hex.EncodeToString(in), 4000))
	}
	if s2 := k.show(v2); s2 != s {
		c.Violate("unstable:"+k.name, "a %s decoded from malformed bytes (%s) changes when encoded and decoded again: %s\ninput: %s", k.name, what, firstDiff(s, s2), cut(hex.EncodeToString(in), 4000))
	}
}

var codecNames = []string{"pointer", "contentkey", "contentkeys", "commit", "commits", "reference", "content", "contents", "hashtree", "leaf", "leaves", "parentleaf", "compact"}

func runHostile(c *Ctx) {
	mv := byte(c.R.Intn(256))
	all := allCodecs(mv)
	name := codecNames[c.Index%len(codecNames)]
	k := all[name]
	b, err := k.enc(k.gen(c.R))
	must(err)
	other, err := k.enc(k.gen(c.R))
	must(err)
	for i := 0; i < 60; i++ {
		m, what := mutate(c.R, b, other)
		if c.R.Intn(4) == 0 && len(m) > 0 {
			m2, w2 := mutate(c.R, m, other)
			m, what = m2, what+" then "+w2
		}
		decodeHostile(c, k, m, what)
		c.Distinct(name + string(m))
	}
	if len(b) < 900 && c.Index%3 == 0 { // every truncation
		for n := 0; n < len(b); n++ {
			decodeHostile(c, k, b[:n:n], fmt.Sprintf("cut to %d of %d", n, len(b)))
		}
		c.Count("exhaustive truncations", 1)
	}
	// bytes of one kind given to the decoder of another
	on := codecNames[c.R.Intn(len(codecNames))]
	ob, err := all[on].enc(all[on].gen(c.R))
	must(err)
	decodeHostile(c, k, ob, "encoding of a "+on)
	// hash texts
	ha := hash.NewAdapter()
	txt := string(genBytes(c.R, c.R.Intn(140)))
	if c.R.Intn(2) == 0 {
		txt = hex.EncodeToString(genBytes(c.R, c.R.Intn(70)))
		if c.R.Intn(2) == 0 && len(txt) > 0 {
			i := c.R.Intn(len(txt))
			txt = txt[:i] + string(rune(c.R.Intn(300))) + txt[i+1:]
		}
	}
	if p, msg := Protect(func() {
		if h, err := ha.FromString(txt); err == nil {
			if len(*h) != hash.Size {
				c.Violate("hash-size", "the hash of text %q has %d bytes", txt, len(*h))
			}
		}
	}); p {
		c.Violate("crash:hash", "FromString(%q) panicked: %s", txt, msg)
	}
}

// ---------------------------------------------------------------- S04

// minedProofs give four equal bytes or more to the commit of the block "score", made one nanosecond after the epoch.
var minedProofs = []uint64{4298592917}

func runCommitHash(c *Ctx) {
	r := c.R
	mv := byte(r.Intn(256))
	blocks := genBlocks(r, 9)
	type comp struct {
		values hashtrees.HashTree
		ns     int64
		parent *hash.Hash
		proof  *big.Int
	}
	build := func(x comp, mv byte, loc *time.Location) references.Commit {
		t := time.Unix(0, x.ns)
		if loc != nil {
			t = t.In(loc)
		}
		b := references.NewCommitBuilder(mv).Create().WithValues(x.values).CreatedOn(t)
		if x.parent != nil {
			b.WithParent(*x.parent)
		}
		if x.proof != nil {
			b.WithProof(x.proof)
		}
		o, err := b.Now()
		must(err)
		return o
	}
	posProof := func() *big.Int {
		for {
			if p := genProof(r); p.Sign() > 0 {
				return p
			}
		}
	}
	base := comp{values: mkTree(blocks), ns: genTime(r).UnixNano()}
	if r.Intn(2) == 0 {
		h := genHash(r)
		base.parent = &h
	}
	if r.Intn(3) > 0 {
		base.proof = posProof()
	}
	ref := build(base, mv, time.UTC)
	show := func(x comp) string {
		s := fmt.Sprintf("root=%s ns=%d", x.values.Head().String()[:16], x.ns)
		if x.parent != nil {
			s += " parent=" + x.parent.String()[:16]
		}
		if x.proof != nil {
			s += " proof=" + cut(x.proof.String(), 60)
		}
		return s
	}
	// what the commit says is what it was given
	if !ref.Values().Head().Compare(base.values.Head()) || !ref.CreatedOn().Equal(time.Unix(0, base.ns)) || ref.HasParent() != (base.parent != nil) || ref.HasMine() != (base.proof != nil) {
		c.Violate("components", "the commit does not carry its components: %s", show(base))
	}
	if base.parent != nil && !ref.Parent().Compare(*base.parent) {
		c.Violate("components", "the commit has another parent than the given one")
	}
	// same components, other ways to get them
	decTree, err := hashtrees.NewAdapter().ToContent(base.values)
	must(err)
	t2, err := hashtrees.NewAdapter().ToHashTree(decTree)
	must(err)
	same := base
	same.values = t2
	if base.proof != nil {
		same.proof = new(big.Int).Set(base.proof)
	}
	for i, o := range []references.Commit{
		build(base, mv, time.FixedZone("z", r.Intn(40000)-20000)),
		build(base, mv+byte(1+r.Intn(255)), nil),
		build(same, mv, time.UTC),
		build(comp{mkTree(blocks), base.ns, base.parent, base.proof}, mv, nil),
	} {
		if !o.Hash().Compare(ref.Hash()) {
			c.Violate("not-a-function", "the same root, instant, parent and proof gave another commit hash (variant %d)\n%s", i, show(base))
		}
		if base.proof != nil && !o.Mine().Result().Compare(ref.Mine().Result()) {
			c.Violate("result-not-a-function", "the same hash and proof gave another mining result (variant %d)\n%s", i, show(base))
		}
		c.Count("equal commits compared", 1)
	}
	// one component changed
	seen := map[string]string{string(ref.Hash()): "base"}
	vars := []comp{}
	add := func(x comp) { vars = append(vars, x) }
	for _, d := range []int64{1, -1, 1000, 1000000, 1000000000, int64(1) << uint(r.Intn(62))} {
		x := base
		x.ns += d
		add(x)
	}
	for _, bs := range [][][]byte{append(append([][]byte{}, blocks...), []byte("extra!")), append([][]byte{[]byte("first!")}, blocks...), swapOne(r, blocks)} {
		x := base
		x.values = mkTree(bs)
		if !x.values.Head().Compare(base.values.Head()) {
			add(x)
		}
	}
	if base.parent != nil {
		x := base
		x.parent = nil
		add(x)
		for i := 0; i < 3; i++ {
			f := flip(r, *base.parent)
			x.parent = &f
			add(x)
		}
	} else {
		for i := 0; i < 2; i++ {
			x := base
			h := genHash(r)
			if i == 1 {
				h = base.values.Head()
			}
			x.parent = &h
			add(x)
		}
	}
	if base.proof != nil {
		x := base
		x.proof = nil
		add(x)
		for _, d := range []int64{1, 256, 65536} {
			x.proof = new(big.Int).Add(base.proof, big.NewInt(d))
			add(x)
		}
		x.proof = new(big.Int).Lsh(base.proof, 8)
		add(x)
	} else {
		x := base
		x.proof = posProof()
		add(x)
	}
	for _, x := range vars {
		if show(x) == show(base) {
			continue
		}
		o := build(x, mv, time.UTC)
		if o.Hash().Compare(ref.Hash()) {
			c.Violate("not-bound", "changing one component kept the commit hash\nbase: %s\nchanged: %s", show(base), show(x))
		}
		seen[string(o.Hash())] = show(x)
		c.Count("single changes compared", 1)
	}
	// scores
	checkScore := func(x comp, m byte) uint {
		o := build(x, m, time.UTC)
		if o.Mine().Proof().Cmp(x.proof) != 0 {
			c.Violate("proof", "the mining proof %s is not the given %s", o.Mine().Proof(), x.proof)
		}
		want := uint(0)
		for _, b := range []byte(o.Mine().Result()) {
			if b != m {
				break
			}
			want++
		}
		if got := o.Mine().Score(); got != want {
			c.Violate("score", "the mining result %s has %d leading bytes %d but the score is %d", o.Mine().Result(), want, m, got)
		}
		c.Count(fmt.Sprintf("score %d", want), 1)
		return want
	}
	if c.Index%50 == 7 { // proofs of high scores, which were mined
		mined := comp{values: mkTree([][]byte{[]byte("score")}), ns: 1}
		for _, p := range minedProofs {
			mined.proof = new(big.Int).SetUint64(p)
			checkScore(mined, []byte(build(mined, mv, time.UTC).Mine().Result())[0])
		}
	}
	if base.proof != nil {
		res := []byte(ref.Mine().Result())
		checkScore(base, mv)
		checkScore(base, res[0])
		checkScore(base, res[0]+1)
		checkScore(base, res[1])
		checkScore(base, res[63])
		// the result is the hash of the commit hash and the proof
		want := refLeafHash(append(append([]byte{}, ref.Hash()...), base.proof.Bytes()...))
		if !bytes.Equal(want, res) {
			c.Violate("result", "the mining result is not the hash of the commit hash and its proof")
		}
		// look for results with equal leading bytes
		x := base
		x.proof = new(big.Int).Set(base.proof)
		for i := 0; i < 300; i++ {
			x.proof = new(big.Int).Add(x.proof, big.NewInt(1))
			rs := []byte(build(x, mv, time.UTC).Mine().Result())
			if rs[0] == rs[1] {
				checkScore(x, rs[0])
				break
			}
		}
		// a stored commit scores the same
		ca := references.NewCommitAdapter(res[0])
		o := build(base, res[0], nil)
		enc, err := ca.ToContent(o)
		must(err)
		o2, err := ca.ToCommit(enc)
		if err != nil || o2.Mine() == nil || o2.Mine().Score() != o.Mine().Score() || !o2.Hash().Compare(o.Hash()) {
			c.Violate("stored-score", "a stored commit does not give back its hash and score (%v)", err)
		}
	}
	c.Distinct(show(base))
	c.Sample("%s, %d single changes", show(base), len(vars))
}

func swapOne(r *rand.Rand, blocks [][]byte) [][]byte {
	out := append([][]byte{}, blocks...)
	i := r.Intn(len(out))
	out[i] = append([]byte("changed"), out[i]...)
	return out
}

// ---------------------------------------------------------------- M01..M03

func refRoot(blocks [][]byte) ([]byte, [][]byte) {
	leaves := [][]byte{}
	for _, b := range blocks {
		leaves = append(leaves, refLeafHash(b))
	}
	n := 2
	for n < len(leaves) {
		n *= 2
	}
	for len(leaves) < n {
		leaves = append(leaves, refLeafHash(nil))
	}
	level := leaves
	for len(level) > 1 {
		next := [][]byte{}
		for i := 0; i < len(level); i += 2 {
			h := sha512.Sum512(append(append([]byte{}, level[i]...), level[i+1]...))
			next = append(next, h[:])
		}
		level = next
	}
	return level[0], leaves
}

// stripped removes trailing empty blocks, which are indistinguishable from padding within the same power of two.
func normBlocks(blocks [][]byte) string {
	n := 2
	for n < len(blocks) {
		n *= 2
	}
	out := &strings.Builder{}
	fmt.Fprintf(out, "%d:", n)
	last := len(blocks)
	for last > 0 && len(blocks[last-1]) == 0 {
		last--
	}
	for _, b := range blocks[:last] {
		fmt.Fprintf(out, "%x,", refLeafHash(b))
	}
	return out.String()
}

func treeLeaves(c *Ctx, t hashtrees.HashTree) [][]byte {
	l, err := hashtrees.NewLeafAdapter().ParentLeafToLeaves(t.Parent())
	if err != nil {
		c.Violate("leaves", "the leaves of a tree cannot be listed: %v", err)
	}
	out := [][]byte{}
	for _, e := range l.Leaves() {
		out = append(out, []byte(e.Head()))
	}
	return out
}

// genTreeBlocks also covers large trees.
func genTreeBlocks(r *rand.Rand) [][]byte {
	switch r.Intn(12) {
	case 0:
		n := 200 + r.Intn(900)
		out := [][]byte{}
		for i := 0; i < n; i++ {
			out = append(out, []byte(fmt.Sprint(i, r.Intn(5))))
		}
		return out
	case 1:
		n := (1 << uint(1+r.Intn(8))) + r.Intn(3) - 1
		out := [][]byte{}
		for i := 0; i < n; i++ {
			out = append(out, []byte(fmt.Sprint(i)))
		}
		return out
	case 2:
		return genBlocks(r, 2)
	}
	return genBlocks(r, 40)
}

func runMerkle(c *Ctx) {
	r := c.R
	blocks := hugeBlocks(c, genTreeBlocks(r))
	// the caller's array must stay untouched, even behind the given slice
	backing := make([][]byte, len(blocks)+2)
	copy(backing, blocks)
	backing[len(blocks)] = []byte("sentinel")
	given := backing[:len(blocks)]
	copies := [][]byte{}
	for _, b := range blocks {
		copies = append(copies, append([]byte{}, b...))
	}
	builder := hashtrees.NewBuilder().Create().WithBlocks(given)
	t, err := builder.Now()
	if err != nil {
		c.Violate("build", "a tree of %d blocks cannot be built: %v", len(blocks), err)
	}
	if string(backing[len(blocks)]) != "sentinel" {
		c.Violate("writes-input", "building a tree of %d blocks wrote in the caller's array", len(blocks))
	}
	for i := range copies {
		if !bytes.Equal(given[i], copies[i]) {
			c.Violate("writes-input", "building a tree changed block %d", i)
		}
	}
	root, leaves := refRoot(blocks)
	if !bytes.Equal(t.Head(), root) {
		c.Violate("root", "the root of a tree of %d blocks is %s, expected %x", len(blocks), t.Head(), root)
	}
	// inner structure
	var walk func(l hashtrees.Leaf) int
	walk = func(l hashtrees.Leaf) int {
		if !l.HasParent() {
			return 0
		}
		a, b := l.Parent().Left(), l.Parent().Right()
		h := sha512.Sum512(append(append([]byte{}, a.Head()...), b.Head()...))
		if !bytes.Equal(h[:], l.Head()) {
			c.Violate("inner", "an inner node is not the hash of its children")
		}
		x, y := walk(a), walk(b)
		if x != y {
			c.Violate("balance", "the tree is not balanced")
		}
		return x + 1
	}
	a, b := t.Parent().Left(), t.Parent().Right()
	hh := sha512.Sum512(append(append([]byte{}, a.Head()...), b.Head()...))
	if !bytes.Equal(hh[:], t.Head()) {
		c.Violate("inner", "the root is not the hash of its children")
	}
	depth := walk(a)
	if walk(b) != depth || 1<<uint(depth+1) != len(leaves) {
		c.Violate("balance", "the tree of %d blocks has depth %d", len(blocks), depth)
	}
	if got := t.Height(); int(got) != depth+2 {
		c.Violate("height", "the height of a tree with %d leaves is %d", len(leaves), got)
	}
	got := treeLeaves(c, t)
	if len(got) != len(leaves) {
		c.Violate("leaves", "%d leaves for %d blocks, expected %d", len(got), len(blocks), len(leaves))
	}
	for i := range got {
		if !bytes.Equal(got[i], leaves[i]) {
			c.Violate("leaves", "leaf %d of %d is not the hash of its block", i, len(leaves))
		}
	}
	n, err := hashtrees.NewAdapter().ToLength(t)
	if err != nil || int(*n) != len(leaves) {
		c.Violate("length", "ToLength of a tree with %d leaves: %v %v", len(leaves), n, err)
	}
	// again, from the same and another builder
	for i := 0; i < 2; i++ {
		t2, err := builder.Now()
		if err != nil || !t2.Head().Compare(t.Head()) {
			c.Violate("deterministic", "building the same blocks again gave another root (%v)", err)
		}
		builder = hashtrees.NewBuilder().Create().WithBlocks(copies)
	}
	// alterations
	norm := normBlocks(blocks)
	alter := func(x [][]byte, what string) {
		if len(x) == 0 {
			return
		}
		same := normBlocks(x) == norm
		t2, err := hashtrees.NewBuilder().Create().WithBlocks(x).Now()
		if err != nil {
			c.Violate("build", "a tree of %d blocks cannot be built: %v", len(x), err)
		}
		eq := t2.Head().Compare(t.Head())
		if eq && !same {
			c.Violate("not-bound", "%s kept the root of a tree of %d blocks", what, len(blocks))
		}
		if !eq && same {
			c.Violate("padding", "%s (the same blocks up to padding) changed the root of a tree of %d blocks", what, len(blocks))
		}
		c.Count("alterations", 1)
		if same {
			c.Count("padding equalities", 1)
		}
	}
	cp := func() [][]byte { return append([][]byte{}, blocks...) }
	for i := 0; i < 6; i++ {
		x := cp()
		k := r.Intn(len(x))
		switch r.Intn(8) {
		case 0:
			x[k] = append(append([]byte{}, x[k]...), byte(r.Intn(256)))
			alter(x, "extending a block")
		case 1:
			if len(x[k]) > 0 {
				x[k] = append([]byte{}, x[k]...)
				x[k][r.Intn(len(x[k]))] ^= 1 << uint(r.Intn(8))
			}
			alter(x, "flipping a bit")
		case 2:
			j := r.Intn(len(x))
			x[k], x[j] = x[j], x[k]
			alter(x, "swapping two blocks")
		case 3:
			x = append(x[:k], x[k+1:]...)
			alter(x, "removing a block")
		case 4:
			x = append(x[:k:k], append([][]byte{genBytes(r, 1+r.Intn(9))}, x[k:]...)...)
			alter(x, "inserting a block")
		case 5:
			for m := 1 + r.Intn(4); m > 0; m-- {
				x = append(x, []byte{})
			}
			alter(x, "appending empty blocks")
		case 6:
			x = append(x, x[k])
			alter(x, "repeating a block")
		case 7:
			if k+1 < len(x) {
				m := append(append([]byte{}, x[k]...), x[k+1]...)
				x = append(append(x[:k:k], m), x[k+2:]...)
				alter(x, "joining two blocks")
			}
		}
	}
	// no blocks
	if c.Index%50 == 0 {
		for _, e := range [][][]byte{nil, {}} {
			if p, msg := Protect(func() {
				if _, err := hashtrees.NewBuilder().Create().WithBlocks(e).Now(); err == nil {
					c.Violate("empty", "a tree without blocks was built")
				}
			}); p {
				c.Violate("empty", "building a tree without blocks panicked: %s", msg)
			}
		}
	}
	c.Count(fmt.Sprintf("trees of %d leaves", len(leaves)), 1)
	c.Distinct(norm)
	c.Sample("%d blocks, %d leaves, root %x", len(blocks), len(leaves), root[:8])
}

// hugeBlocks sometimes makes the tree larger than what 16 bits count
func hugeBlocks(c *Ctx, blocks [][]byte) [][]byte {
	if c.Index%1997 != 1000 {
		return blocks
	}
	n := []int{65535, 65536, 65537, 70000}[c.R.Intn(4)]
	for i := 0; i < n; i++ {
		blocks = append(blocks, []byte(fmt.Sprint(i)))
	}
	c.Count("trees of more leaves than 16 bits count", 1)
	return blocks
}

func runTreeCodec(c *Ctx) {
	r := c.R
	names := []string{"hashtree", "leaf", "leaves", "parentleaf", "compact"}
	all := allCodecs(0)
	k := all[names[c.Index%len(names)]]
	roundTrip(c, k, k.gen(r))
	blocks := genTreeBlocks(r)
	blocks = hugeBlocks(c, blocks)
	t := mkTree(blocks)
	root, leaves := refRoot(blocks)
	ta := hashtrees.NewAdapter()
	b := roundTrip(c, all["hashtree"], t)
	t2, err := ta.ToHashTree(b)
	if err != nil {
		c.Violate("decode-error:hashtree", "%v", err)
	}
	check := func(what string, head hash.Hash, ls [][]byte) {
		if !bytes.Equal(head, root) {
			c.Violate("root:"+what, "the %s of %d blocks has root %s, expected %x", what, len(blocks), head, root)
		}
		if len(ls) != len(leaves) {
			c.Violate("leaves:"+what, "the %s of %d blocks has %d leaves", what, len(blocks), len(ls))
		}
		for i := range ls {
			if !bytes.Equal(ls[i], leaves[i]) {
				c.Violate("leaves:"+what, "leaf %d of the %s of %d blocks is wrong", i, what, len(blocks))
			}
		}
	}
	check("decoded tree", t2.Head(), treeLeaves(c, t2))
	for i, x := range []hashtrees.HashTree{t, t2} {
		n, err := ta.ToLength(x)
		if err != nil || int(*n) != len(leaves) || x.Height() != t.Height() {
			c.Violate("length", "tree %d: ToLength %v (%v) with %d leaves, height %d of %d", i, n, err, len(leaves), x.Height(), t.Height())
		}
		cpt, err := ta.ToCompact(x)
		if err != nil {
			c.Violate("compact", "ToCompact failed: %v", err)
		}
		list := func(cpt hashtrees.Compact) [][]byte {
			out := [][]byte{}
			for _, l := range cpt.Leaves().Leaves() {
				out = append(out, []byte(l.Head()))
			}
			return out
		}
		check("compact", cpt.Head(), list(cpt))
		if int(cpt.Length()) != len(leaves) {
			c.Violate("compact-length", "the compact length is %d with %d leaves", cpt.Length(), len(leaves))
		}
		cb := roundTrip(c, all["compact"], cpt)
		c2, err := hashtrees.NewCompactAdapter().ToCompact(cb)
		if err != nil {
			c.Violate("decode-error:compact", "%v", err)
		}
		check("decoded compact", c2.Head(), list(c2))
		// the leaves rebuild the tree
		t3, err := hashtrees.NewLeavesAdapter().ToHashTree(c2.Leaves())
		if err != nil {
			c.Violate("rebuild", "the leaves of the compact form do not make a tree: %v", err)
		}
		check("tree of the compact leaves", t3.Head(), treeLeaves(c, t3))
		// making it did not alter the tree
		check("tree after ToCompact", x.Head(), treeLeaves(c, x))
	}
	if r.Intn(4) == 0 {
		unevenTree(c)
	}
	c.Count("trees", 1)
	c.Distinct(normBlocks(blocks))
	c.Sample("%s and a tree of %d blocks, %d leaves", k.name, len(blocks), len(leaves))
}

// unevenTree puts a tree together by hand, its branches being of several heights
func unevenTree(c *Ctx) {
	r := c.R
	leaves := [][]byte{}
	var leaf func(depth int) (hashtrees.Leaf, []byte)
	parent := func(depth int) (hashtrees.ParentLeaf, []byte) {
		a, ha := leaf(depth)
		b, hb := leaf(depth)
		p, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(a).WithRight(b).Now()
		must(err)
		h := sha512.Sum512(append(append([]byte{}, ha...), hb...))
		return p, h[:]
	}
	leaf = func(depth int) (hashtrees.Leaf, []byte) {
		if depth == 0 || r.Intn(3) == 0 {
			h := sha512.Sum512(genBytes(r, r.Intn(20)))
			leaves = append(leaves, h[:])
			l, err := hashtrees.NewLeafBuilder().Create().WithHead(hash.Hash(h[:])).Now()
			must(err)
			return l, h[:]
		}
		p, h := parent(depth - 1)
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(hash.Hash(h)).WithParent(p).Now()
		must(err)
		return l, h
	}
	p, h := parent(1 + r.Intn(5))
	t, err := hashtrees.NewBuilder().Create().WithHead(hash.Hash(h)).WithParent(p).Now()
	must(err)
	ta := hashtrees.NewAdapter()
	t2, err := ta.ToHashTree(roundTrip(c, allCodecs(0)["hashtree"], t))
	if err != nil {
		c.Violate("decode-error:hashtree", "an uneven tree: %v", err)
	}
	for i, x := range []hashtrees.HashTree{t, t2} {
		if !bytes.Equal(x.Head(), h) || x.Height() != t.Height() {
			c.Violate("root:uneven", "tree %d: root %s and height %d, of %x and %d", i, x.Head(), x.Height(), h, t.Height())
		}
		n, err := ta.ToLength(x)
		if err != nil || int(*n) != len(leaves) {
			c.Violate("length", "uneven tree %d: ToLength gives %v (%v) for %d leaves", i, n, err, len(leaves))
		}
		cpt, err := ta.ToCompact(x)
		if err != nil {
			c.Violate("compact", "ToCompact failed: %v", err)
		}
		got := [][]byte{}
		for _, l := range cpt.Leaves().Leaves() {
			got = append(got, []byte(l.Head()))
		}
		for _, l := range [][][]byte{got, treeLeaves(c, x)} {
			if len(l) != len(leaves) || int(cpt.Length()) != len(leaves) || !bytes.Equal(cpt.Head(), h) {
				c.Violate("leaves:uneven", "tree %d has %d leaves (length %d), expected %d", i, len(l), cpt.Length(), len(leaves))
			}
			for k := range l {
				if !bytes.Equal(l[k], leaves[k]) {
					c.Violate("leaves:uneven", "leaf %d of %d of an uneven tree is wrong", k, len(leaves))
				}
			}
		}
	}
	c.Count("uneven trees", 1)
}

func runOrder(c *Ctx) {
	r := c.R
	blocks := genTreeBlocks(r)
	// blocks that are the hash of another block have the same leaf: excluded (they are taken as hashes)
	byLeaf := map[string]string{}
	for i, b := range blocks {
		l := string(refLeafHash(b))
		if o, ok := byLeaf[l]; ok && o != string(b) {
			blocks[i] = []byte(o)
		}
		byLeaf[string(refLeafHash(blocks[i]))] = string(blocks[i])
	}
	if len(blocks) > 300 {
		blocks = blocks[:300]
	}
	// blocks that are hashes, and differ in a single byte
	near := []int{}
	if r.Intn(5) == 0 {
		for k := 2 + r.Intn(3); k > 0; k-- {
			b := nearHash(r, append(hash.Hash{}, genBytes(r, hash.Size)...))
			if len(near) > 0 {
				b = nearHash(r, hash.Hash(blocks[near[0]]))
			}
			if _, ok := byLeaf[string(b)]; ok {
				continue
			}
			byLeaf[string(b)] = string(b)
			near = append(near, len(blocks))
			blocks = append(blocks, []byte(b))
		}
		c.Count("with blocks that are hashes and differ in a byte", 1)
	}
	if c.Index%1997 == 1000 {
		for i := 0; i < 3000; i++ {
			blocks = append(blocks, []byte(fmt.Sprint("large ", i)))
		}
		c.Count("large orders", 1)
	}
	t := mkTree(blocks)
	ta := hashtrees.NewAdapter()
	if r.Intn(3) == 0 { // through its encoding
		b, err := ta.ToContent(t)
		must(err)
		t, err = ta.ToHashTree(b)
		must(err)
	}
	show := func(l [][]byte) string {
		s := ""
		for _, b := range l {
			s += fmt.Sprintf("%q ", cut(string(b), 12))
		}
		return cut(s, 1500)
	}
	eq := func(a, b [][]byte) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !bytes.Equal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	shuffled := func(l [][]byte) [][]byte {
		o := append([][]byte{}, l...)
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		return o
	}
	empties, dups := 0, 0
	seen := map[string]bool{}
	for _, b := range blocks {
		if len(b) == 0 {
			empties++
		}
		if seen[string(b)] {
			dups++
		}
		seen[string(b)] = true
	}
	for i := 0; i < 3; i++ {
		m := shuffled(blocks)
		if i == 0 {
			for a, b := 0, len(m)-1; a < b; a, b = a+1, b-1 {
				m[a], m[b] = m[b], m[a]
			}
		}
		in := append([][]byte{}, m...)
		out, err := ta.ToOrder(t, m)
		if err != nil {
			c.Violate("order-refused", "the blocks of the tree itself, shuffled, are refused: %v\nblocks: %s\nshuffled: %s", err, show(blocks), show(in))
		}
		if !eq(out, blocks) {
			c.Violate("order-wrong", "shuffled blocks come back in another order\nblocks: %s\ngot: %s", show(blocks), show(out))
		}
		if !eq(m, in) {
			c.Violate("writes-input", "ordering changed the given list")
		}
		c.Count("orders restored", 1)
	}
	if empties > 0 {
		c.Count("with empty blocks", 1)
	}
	if dups > 0 {
		c.Count("with duplicates", 1)
	}
	// alterations: an error, never a sequence
	bad := func(m [][]byte, what string) {
		out, err := ta.ToOrder(t, m)
		if err == nil {
			c.Violate("altered-accepted", "%s: ordering gave a sequence of %d blocks\nblocks: %s\ngiven: %s\ngot: %s", what, len(out), show(blocks), show(m), show(out))
		}
		c.Count("alterations refused", 1)
	}
	if len(near) > 0 {
		m := append([][]byte{}, blocks...)
		k := near[r.Intn(len(near))]
		m[k] = []byte(nearHash(r, hash.Hash(m[k])))
		if _, in := byLeaf[string(m[k])]; !in {
			bad(shuffled(m), "a byte of a block that is a hash was altered")
		}
	}
	for i := 0; i < 4; i++ {
		m := shuffled(blocks)
		k := r.Intn(len(m))
		foreign := append([]byte("foreign-"), genBytes(r, 5+r.Intn(9))...)
		switch r.Intn(4) {
		case 0:
			m[k] = append(append([]byte("changed-"), m[k]...), 1)
			if _, in := byLeaf[string(refLeafHash(m[k]))]; !in {
				bad(m, "a block was altered")
			}
		case 1:
			m = append(m, foreign)
			bad(shuffled(m), "a foreign block was added")
		case 2:
			m[k] = foreign
			bad(m, "a block was replaced")
		case 3: // replaced by a copy of another one
			j := r.Intn(len(m))
			if !bytes.Equal(m[k], m[j]) && len(m[j]) > 0 {
				m[k] = append([]byte{}, m[j]...)
				bad(m, "a block was replaced by a copy of another one")
			}
		}
	}
	c.Distinct(normBlocks(blocks))
	c.Sample("%d blocks (%d empty, %d duplicates): %s", len(blocks), empties, dups, show(blocks))
}

// ---------------------------------------------------------------- H01

func runHash(c *Ctx) {
	r := c.R
	a := hash.NewAdapter()
	n := r.Intn(200)
	switch r.Intn(4) {
	case 0:
		n = 62 + r.Intn(5)
	case 1:
		n = r.Intn(3)
	case 2:
		n = 126 + r.Intn(5)
	}
	in := make([]byte, n)
	r.Read(in)
	keep := append([]byte{}, in...)
	h, err := a.FromBytes(in)
	if err != nil {
		c.Violate("error", "FromBytes of %d bytes: %v", n, err)
	}
	want := refLeafHash(keep)
	if !bytes.Equal([]byte(*h), want) || len(*h) != hash.Size {
		c.Violate("sha512", "the hash of %d bytes %x is %s, expected %x", n, keep, h, want)
	}
	for i := range in {
		in[i] ^= 0xff
	}
	if !bytes.Equal([]byte(*h), want) {
		c.Violate("alias", "a hash changed with the bytes it was made of (%d bytes)", n)
	}
	// split in parts
	parts := [][]byte{}
	rest := keep
	for len(rest) > 0 && len(parts) < 8 {
		k := r.Intn(len(rest) + 1)
		if r.Intn(5) == 0 {
			parts = append(parts, nil)
		}
		parts = append(parts, rest[:k:k])
		rest = rest[k:]
	}
	parts = append(parts, rest)
	hm, err := a.FromMultiBytes(parts)
	if err != nil || !hm.Compare(*h) {
		c.Violate("multi", "the hash of %d parts is not the one of their concatenation (%v)", len(parts), err)
	}
	for i, p := range parts {
		_ = i
		for j := range p {
			_ = j
		}
	}
	// forms
	b := h.Bytes()
	if !bytes.Equal(b, want) {
		c.Violate("bytes", "Bytes gives %x for %x", b, want)
	}
	if len(b) > 0 {
		b[r.Intn(len(b))] ^= 1
		if !bytes.Equal([]byte(*h), want) {
			c.Violate("alias", "changing what Bytes returned changed the hash")
		}
	}
	s := h.String()
	if s != hex.EncodeToString(want) {
		c.Violate("string", "String gives %s for %x", s, want)
	}
	for i, txt := range []string{s, strings.ToUpper(s)} {
		h2, err := a.FromString(txt)
		if err != nil || !h2.Compare(*h) || !h.Compare(*h2) {
			c.Violate("text", "the text form %d of a hash does not give it back (%v)", i, err)
		}
	}
	h3, err := a.FromBytes(h.Bytes())
	if err != nil || !h3.Compare(*h) {
		c.Violate("verbatim", "the bytes of a hash do not give it back (%v)", err)
	}
	// compare
	o := flip(r, *h)
	if h.Compare(o) || o.Compare(*h) {
		c.Violate("compare", "two different hashes compare equal: %s %s", h, o)
	}
	if !h.Compare(append(hash.Hash{}, *h...)) {
		c.Violate("compare", "a hash is different from its copy")
	}
	for _, sub := range []hash.Hash{(*h)[:63], append(append(hash.Hash{}, *h...), 0), nil} {
		if h.Compare(sub) || sub.Compare(*h) {
			c.Violate("compare", "a hash compares equal to %d of its bytes", len(sub))
		}
	}
	// text that is no hexadecimal
	bad := []byte(s)
	junk := []string{" ", "\n", "\t", "\r\n", "0x", "0X", "_", "-", ":", "+", "\x00", "\"", "\u00a0", "\ufeff", "%", "zz", "#", "="}[r.Intn(18)]
	switch r.Intn(6) {
	case 3: // before, after, around
		bad = append([]byte(junk), bad...)
	case 4:
		bad = append(bad, junk...)
		if r.Intn(2) == 0 {
			bad = append([]byte(junk), bad...)
		}
	case 5: // inside
		k := 2 * r.Intn(len(bad)/2)
		bad = append(append(append([]byte{}, s[:k]...), junk...), s[k:]...)
	case 0:
		bad[r.Intn(len(bad))] = "ghxyzGZ -_/.\x00"[r.Intn(13)]
	case 1:
		bad = bad[:1+2*r.Intn(len(bad)/2)]
	case 2:
		bad = append(bad, "zz"...)
	}
	if x, err := a.FromString(string(bad)); err == nil {
		c.Violate("bad-text", "the text %q is accepted as hash %s", bad, x)
	}
	c.Count("hashes", 1)
	if n == hash.Size {
		c.Count("inputs of hash size", 1)
	}
	c.Distinct(string(keep))
	c.Sample("%d bytes in %d parts -> %s", n, len(parts), cut(s, 20))
}

func init() {
	n := func(q, t int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return t
			}
			return q
		}
	}
	register(&Prop{ID: "S01", Cases: n(12000, 400000), Run: runCodecs([]string{"pointer", "contentkey", "contentkeys", "commit", "commits", "reference"}),
		Rule: "a case is one random value (extreme kinds, ranges, dates, proofs; lists with repetitions), another one and one with a single component changed, each encoded, decoded, compared through the public accessors and encoded again; values with different components are counted once"})
	register(&Prop{ID: "S02", Cases: n(12000, 400000), Run: runCodecs([]string{"content", "contents"}),
		Rule: "a case is two random records or record lists, encoded, decoded, compared and encoded again; distinct values are counted"})
	register(&Prop{ID: "S03", Cases: n(4000, 120000), Run: runHostile, MemMB: 4000, Hang: 30 * time.Second,
		Rule: "a case takes a valid encoding of one of 13 kinds and decodes 60 mutations of it (truncation, extension, bit flips, hostile length fields, splices, removals, random bytes), every truncation of small ones, encodings of other kinds, and hash texts; distinct inputs are counted; each decode is watched for panics, allocation and input changes, and what is accepted is encoded and decoded again"})
	register(&Prop{ID: "S04", Cases: n(4000, 100000), Run: runCommitHash,
		Rule: "a case is one commit with random components, compared with commits of equal components (other time zone, mining value, tree instance) and with up to 17 single component changes; mining results are recomputed and scores counted for mining values that do and do not match"})
	register(&Prop{ID: "M01", Cases: n(6000, 150000), Run: runMerkle,
		Rule: "a case is one block sequence (1 to 1100 blocks; empty, duplicate, hash-sized ones; around powers of two): root, inner nodes, leaves, height compared with an independent computation, six alterations must change the root exactly when the sequence differs beyond padding; distinct leaf sequences are counted"})
	register(&Prop{ID: "M02", Cases: n(4000, 100000), Run: runTreeCodec,
		Rule: "a case round-trips a random tree, its compact form and a random node, list or parent; distinct leaf sequences are counted"})
	register(&Prop{ID: "M03", Cases: n(6000, 150000), Run: runOrder,
		Rule: "a case orders three permutations of a tree's blocks and four alterations of them; distinct leaf sequences are counted"})
	register(&Prop{ID: "H01", Cases: n(20000, 1000000), Run: runHash,
		Rule: "a case hashes one byte string (lengths around 0, 64 and 128 favoured) whole and in parts and checks every form of the hash against crypto/sha512; distinct inputs are counted"})
}
