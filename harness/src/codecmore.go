//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
)

// ------------------------------------------------------------------- S05

// runShared: goroutines share adapters, builders and values nothing was done with yet.
func runShared(c *Ctx) {
	r := c.R
	mv := byte(r.Intn(256))
	codecs := allCodecs(mv)
	alone := allCodecs(mv)
	names := []string{}
	for n := range codecs {
		names = append(names, n)
	}
	sort.Strings(names)
	type job struct {
		what string
		f    func() string
		want string
	}
	jobs := []job{}
	for k := 0; k < 6; k++ {
		n := names[r.Intn(len(names))]
		seed := r.Int63()
		first := alone[n].gen(rand.New(rand.NewSource(seed)))
		enc, err := alone[n].enc(first)
		must(err)
		show := alone[n].show(first)
		v := alone[n].gen(rand.New(rand.NewSource(seed)))
		cd := codecs[n]
		jobs = append(jobs, job{"encoding a " + n, func() string {
			b, err := cd.enc(v)
			if err != nil {
				return err.Error()
			}
			out := hex.EncodeToString(b)
			for i := range b { // the caller owns what it got
				b[i] = 0
			}
			return out
		}, hex.EncodeToString(enc)})
		jobs = append(jobs, job{"decoding a " + n, func() string {
			b := append([]byte{}, enc...)
			x, err := cd.dec(b)
			if err != nil {
				return err.Error()
			}
			return cd.show(x)
		}, show})
		jobs = append(jobs, job{"reading a " + n, func() string { return cd.show(v) }, show})
	}
	// hash trees
	tb := hashtrees.NewBuilder()
	ta := hashtrees.NewAdapter()
	la := hashtrees.NewLeafAdapter()
	for k := 0; k < 3; k++ {
		blocks := [][]byte{}
		for i := 1 + r.Intn(20); i > 0; i-- {
			blocks = append(blocks, []byte(fmt.Sprintf("%d-%x", i, genBytes(r, r.Intn(70)))))
		}
		shared := mkTree(blocks)
		other := mkTree(blocks)
		whole := func(t hashtrees.HashTree, ad hashtrees.Adapter, mixed [][]byte) string {
			cp, err := ad.ToCompact(t)
			if err != nil {
				return err.Error()
			}
			n, err := ad.ToLength(t)
			if err != nil {
				return err.Error()
			}
			l, err := ad.ToOrder(t, mixed)
			if err != nil {
				return err.Error()
			}
			ls, err := la.ParentLeafToLeaves(t.Parent())
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%d %s %d %s %x", t.Height(), showCompact(cp), *n, showLeaves(ls), l)
		}
		mixed := append([][]byte{}, blocks...)
		r.Shuffle(len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
		jobs = append(jobs, job{"using a hash tree", func() string { return whole(shared, ta, append([][]byte{}, mixed...)) },
			whole(other, hashtrees.NewAdapter(), append([][]byte{}, mixed...))})
		root, _ := refRoot(blocks)
		jobs = append(jobs, job{"building a hash tree", func() string {
			t, err := tb.Create().WithBlocks(blocks).Now()
			if err != nil {
				return err.Error()
			}
			return hex.EncodeToString(t.Head())
		}, hex.EncodeToString(root)})
	}
	// commits and lists, made with shared builders
	cb := references.NewCommitBuilder(mv)
	kb := references.NewContentKeysBuilder()
	for k := 0; k < 3; k++ {
		tree, on, parent, proof := mkTree(genBlocks(r, 6)), genTime(r), genHash(r), genProof(r)
		build := func(b references.CommitBuilder) string {
			x, err := b.Create().WithValues(tree).CreatedOn(on).WithParent(parent).WithProof(proof).Now()
			if err != nil {
				return err.Error()
			}
			return showCommit(x)
		}
		jobs = append(jobs, job{"building a commit", func() string { return build(cb) }, build(references.NewCommitBuilder(mv))})
		keys := genKeys(r, 8)
		list := func(b references.ContentKeysBuilder) string {
			x, err := b.Create().WithList(keys).Now()
			if err != nil {
				return err.Error()
			}
			y, err := x.Fetch(keys[0].Hash())
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(showKeys(x), x.Next(), len(x.ListByKind(keys[0].Kind())), y.Kind())
		}
		jobs = append(jobs, job{"building keys", func() string { return list(kb) }, list(references.NewContentKeysBuilder())})
	}
	// one reference nothing was looked up in yet
	for k := 0; k < 2; k++ {
		seed, unknown := r.Int63(), genHash(r)
		from := func() references.Reference {
			rr := rand.New(rand.NewSource(seed))
			keys, err := references.NewContentKeysBuilder().Create().WithList(append(genKeys(rr, 10), genKey(rr))).Now()
			must(err)
			commits, err := references.NewCommitsBuilder().Create().WithList(append(genCommits(rr, mv, 4), genCommit(rr, mv))).Now()
			must(err)
			ref, err := references.NewBuilder().Create().WithContentKeys(keys).WithCommits(commits).Now()
			must(err)
			if rr.Intn(2) == 0 {
				ad := references.NewAdapter(mv)
				b, err := ad.ToContent(ref)
				must(err)
				ref, err = ad.ToReference(b)
				must(err)
			}
			return ref
		}
		ref := from()
		jobs = append(jobs, job{"looking up in a reference", func() string { return lookups(ref, unknown) }, lookups(from(), unknown)})
		// a mined commit and a tree, each read by all
		cm := genCommit(rand.New(rand.NewSource(seed)), mv)
		hs := func(cm references.Commit) string {
			return fmt.Sprint(showCommit(cm), cm.Values().Height(), cm.Values().Parent().Left().Height(), cm.Values().Parent().Right().Height())
		}
		jobs = append(jobs, job{"reading a commit", func() string { return hs(cm) }, hs(genCommit(rand.New(rand.NewSource(seed)), mv))})
		// a compact tree and its leaves: reading, and merging them into a list of one's own
		ct, err := ta.ToCompact(cm.Values())
		must(err)
		more := []hashtrees.Leaf{genLeaf(r), genLeaf(r)}
		merged := func() string {
			own, err := hashtrees.NewLeavesBuilder().Create().WithList(more).Now()
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(ct.Length(), showLeaves(ct.Leaves()), showLeaves(own.Merge(ct.Leaves())))
		}
		all, err := hashtrees.NewLeavesBuilder().Create().WithList(append(append([]hashtrees.Leaf{}, more...), ct.Leaves().Leaves()...)).Now()
		must(err)
		jobs = append(jobs, job{"merging leaves", merged, fmt.Sprint(len(ct.Leaves().Leaves()), showLeaves(ct.Leaves()), showLeaves(all))})
	}
	ha := hash.NewAdapter()
	for k := 0; k < 2; k++ {
		b := genBytes(r, r.Intn(200))
		jobs = append(jobs, job{"hashing", func() string {
			h, err := ha.FromBytes(b)
			if err != nil {
				return err.Error()
			}
			g, err := ha.FromMultiBytes([][]byte{b[:len(b)/2], b[len(b)/2:]})
			if err != nil || !g.Compare(*h) {
				return "the hash of two halves differs"
			}
			t, err := ha.FromString(h.String())
			if err != nil || !t.Compare(*h) {
				return "the text of the hash differs"
			}
			return h.String()
		}, hex.EncodeToString(refLeafHash(b))})
	}
	const workers = 4
	errs := make(chan string, workers*len(jobs)+workers)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	same := r.Perm(len(jobs))
	for w := 0; w < workers; w++ {
		order := r.Perm(len(jobs))
		if c.Index%2 == 0 { // all begin with the same
			order = same
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Sprintf("panic: %v", x)
				}
			}()
			<-begin
			for _, i := range order {
				if got := jobs[i].f(); got != jobs[i].want {
					errs <- fmt.Sprintf("with others, %s gives %s, want %s", jobs[i].what, cut(got, 600), cut(jobs[i].want, 600))
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Violate("concurrent", "%s", e)
	}
	for _, j := range jobs {
		if got := j.f(); got != j.want {
			c.Violate("again", "%s again gives %s, want %s", j.what, cut(got, 600), cut(j.want, 600))
		}
		c.Distinct(j.what + j.want)
	}
	c.Count("operations by goroutines", workers*len(jobs))
	c.Sample("%d goroutines, %d operations each: %s ...", workers, len(jobs), jobs[0].what)
}

// lookups is all a reference tells.
func lookups(ref references.Reference, unknown hash.Hash) string {
	b := &strings.Builder{}
	for _, k := range ref.ContentKeys().List() {
		x, err := ref.ContentKeys().Fetch(k.Hash())
		if err != nil {
			return err.Error()
		}
		fmt.Fprint(b, showKey(x), " ")
		for _, o := range ref.ContentKeys().ListByKind(k.Kind()) {
			fmt.Fprint(b, showKey(o), " ")
		}
	}
	_, err := ref.ContentKeys().Fetch(unknown)
	fmt.Fprint(b, ref.ContentKeys().Next(), err != nil, len(ref.ContentKeys().ListByKind(12345)), " ")
	for _, k := range ref.Commits().List() {
		x, err := ref.Commits().Fetch(k.Hash())
		if err != nil {
			return err.Error()
		}
		fmt.Fprint(b, showCommit(x), " ")
	}
	_, err = ref.Commits().Fetch(unknown)
	fmt.Fprint(b, showCommit(ref.Commits().Latest()), err != nil)
	return b.String()
}

// ------------------------------------------------------------------- F01

// goldenValue is one encoding made by an earlier version.
type goldenValue struct {
	Codec, Hex, Show string
	MV               byte
}

// goldenDB is a database file made by an earlier version.
type goldenDB struct {
	File    string
	MV      byte
	Chunk   uint
	Commits []goldenCommit
}

type goldenCommit struct {
	Hash    string
	Created int64
	Writes  []planWrite
}

func goldenDir() string {
	home := os.Getenv("VERIF_HOME")
	if home == "" {
		home = "/verif"
	}
	return filepath.Join(home, "harness", "golden")
}

func loadGolden(name string, into interface{}) {
	b, err := os.ReadFile(filepath.Join(goldenDir(), name))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := json.Unmarshal(b, into); err != nil {
		panic("harness: " + err.Error())
	}
}

func runGolden(c *Ctx) {
	if c.Index%2 == 0 {
		goldenEncodings(c)
	} else {
		goldenDatabases(c)
	}
}

func goldenEncodings(c *Ctx) {
	var all []goldenValue
	loadGolden("values.json", &all)
	const step = 20
	shard := (c.Index / 2) % step
	for i, g := range all {
		if i%step != shard {
			continue
		}
		k := allCodecs(g.MV)[g.Codec]
		b, err := hex.DecodeString(g.Hex)
		must(err)
		var v interface{}
		if p, msg := Protect(func() { v, err = k.dec(b) }); p {
			c.Violate("old-panic:"+g.Codec, "decoding a %s made by an earlier version panics: %s", g.Codec, msg)
		}
		if err != nil {
			c.Violate("old-refused:"+g.Codec, "a %s made by an earlier version is refused: %v\n%s", g.Codec, err, cut(g.Hex, 400))
		}
		if got := k.show(v); got != g.Show {
			c.Violate("old-other:"+g.Codec, "a %s made by an earlier version decodes to something else: %s", g.Codec, firstDiff(got, g.Show))
		}
		again, err := k.enc(v)
		if err != nil || !bytes.Equal(again, b) {
			c.Violate("new-other:"+g.Codec, "a %s is no longer encoded as by an earlier version (%v): %s, was %s", g.Codec, err, cut(hex.EncodeToString(again), 400), cut(g.Hex, 400))
		}
		c.Count("encodings of an earlier version", 1)
		c.Distinct(g.Hex)
		c.Sample("%s %s", g.Codec, cut(g.Hex, 80))
	}
}

func goldenDatabases(c *Ctx) {
	var all []goldenDB
	loadGolden("databases.json", &all)
	g := all[(c.Index/2)%len(all)]
	r := c.R
	dir := c.Scratch()
	b, err := os.ReadFile(filepath.Join(goldenDir(), g.File))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "old"), b, 0666))
	m := &mDB{}
	for _, gc := range g.Commits {
		on := time.Unix(0, gc.Created).UTC()
		cm := &mCommit{hash: gc.Hash, created: on, learned: true, notBefore: on, notAfter: on}
		for _, w := range gc.Writes {
			cm.writes = append(cm.writes, mWrite{hash.Hash(w.Hash), w.Data, w.Kind})
		}
		m.commits = append(m.commits, cm)
	}
	st := &auditStats{}
	chunk := chunkSizes[r.Intn(len(chunkSizes))]
	if e := auditFresh(dir, "old", chunk, g.MV, m, r, st); e != nil {
		c.Violate("old-database", "a database made by an earlier version, opened with chunk size %d: %s", chunk, e)
	}
	app := files.NewApplication(g.MV, dir, dbDst, dbBck, chunk)
	p, err := app.Open("old")
	must(err)
	x := mWrite{hashOf([]byte("new")), genBytes(r, 1+r.Intn(200)), 3}
	must(app.Write(*p, x.hash, x.data, x.kind))
	t0 := time.Now().UTC()
	if err := app.Commit(*p); err != nil {
		c.Violate("old-commit", "committing on a database made by an earlier version fails: %v", err)
	}
	must(app.Close(*p))
	m.commits = append(m.commits, &mCommit{writes: []mWrite{x}, notBefore: t0, notAfter: time.Now().UTC()})
	if e := auditFresh(dir, "old", chunk, g.MV, m, r, st); e != nil {
		c.Violate("old-database-commit", "a database made by an earlier version, after a commit: %s", e)
	}
	c.Count("databases of an earlier version", 1)
	c.Count("reads_checked", st.reads)
	c.Distinct(fmt.Sprint(g.File, chunk))
	c.Sample("%s with chunk size %d", g.File, chunk)
}

// makeGolden writes the examples, with the code as it is.
func makeGolden(args []string) {
	out := args[0]
	r := rand.New(rand.NewSource(20240229))
	vals := []goldenValue{}
	names := []string{}
	for n := range allCodecs(0) {
		names = append(names, n)
	}
	sort.Strings(names)
	for k := 0; k < 20; k++ {
		mv := byte(k * 13)
		for _, n := range names {
			cd := allCodecs(mv)[n]
			for {
				v := cd.gen(r)
				b, err := cd.enc(v)
				must(err)
				if len(b) > 1500 {
					continue
				}
				x, err := cd.dec(b)
				if err != nil || cd.show(x) != cd.show(v) {
					continue
				}
				vals = append(vals, goldenValue{n, hex.EncodeToString(b), cd.show(v), mv})
				break
			}
		}
	}
	js, _ := json.Marshal(vals)
	must(os.WriteFile(filepath.Join(out, "values.json"), js, 0666))
	dbs := []goldenDB{}
	for k := 0; k < 10; k++ {
		g := goldenDB{File: fmt.Sprintf("db%d", k), MV: byte(k * 25), Chunk: 100000}
		app := files.NewApplication(g.MV, out, dbDst, dbBck, g.Chunk)
		must(app.New(g.File))
		for j := 0; j <= k%5; j++ {
			p, err := app.Open(g.File)
			must(err)
			gc := goldenCommit{}
			for w := 1 + r.Intn(4); w > 0; w-- {
				d := genBytes(r, 1+r.Intn(120))
				pw := planWrite{hashOf(append([]byte{byte(w), byte(j)}, d...)), d, uint(r.Intn(3))}
				if r.Intn(5) == 0 {
					pw.Kind = uint(r.Uint64())
				}
				must(app.Write(*p, hash.Hash(pw.Hash), pw.Data, pw.Kind))
				gc.Writes = append(gc.Writes, pw)
			}
			must(app.Commit(*p))
			cs, err := app.Commits(*p)
			must(err)
			gc.Hash, gc.Created = cs.Latest().Hash().String(), cs.Latest().CreatedOn().UnixNano()
			g.Commits = append(g.Commits, gc)
			must(app.Close(*p))
		}
		dbs = append(dbs, g)
	}
	js, _ = json.Marshal(dbs)
	must(os.WriteFile(filepath.Join(out, "databases.json"), js, 0666))
	fmt.Println(len(vals), "values,", len(dbs), "databases,", strings.Join(names, " "))
}

func init() {
	helpers["golden"] = makeGolden
	n := func(q, t int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return t
			}
			return q
		}
	}
	register(&Prop{ID: "S05", Cases: n(400, 10000), Run: runShared,
		Rule: "a case lets four goroutines encode, decode and read six random values, build and use hash trees, commits and key lists and hash, all with the same adapters, builders and values, nothing of which was used before, under the race detector; each result is compared with the one other instances gave alone; distinct: operation and result"})
	register(&Prop{ID: "F01", Cases: n(200, 2000), Run: runGolden,
		Rule: "even cases decode a twentieth of 260 encodings (13 kinds) stored from the first version of the code, compare them with their stored descriptions and encode them again; odd cases open, audit, and commit to one of 10 stored databases with a random chunk size; distinct: encoding, or database and chunk size"})
}
