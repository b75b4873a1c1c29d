//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	a_applications "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	q_applications "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

// The model of a query, its conversion to a real one, and a reference
// evaluation over the trees of the reference matcher.

type qQuery struct {
	id      int
	token   string
	reverse string
	elem    string
	idx     uint
	content int // -1: all
	// inside: a function, or fetchers
	single bool
	amount int // instances the content function gives
	cErr   int // the content function fails when the hash of its input is 0 modulo it (0: never)
	fetch  []*qFetch
	// the query's function
	qSingle bool
	qErr    int
	qBad    int // gives an instance that is not valid, likewise
	qNil    int // the instances of the query, and of its content, are nil, likewise
	real    queries.Query
}

type qFetch struct {
	rec   string
	query *qQuery
}

func (q *qQuery) String() string {
	s := fmt.Sprintf("q%d(%s.%s#%d", q.id, q.token, q.elem, q.idx)
	if q.reverse != "reverse" {
		s += " reverse " + q.reverse
	}
	if q.content >= 0 {
		s += fmt.Sprintf("[%d]", q.content)
	}
	if q.fetch == nil {
		s += fmt.Sprintf(" contents single=%v gives %d", q.single, q.amount)
	} else {
		p := []string{}
		for _, f := range q.fetch {
			if f.query != nil {
				p = append(p, f.query.String())
			} else {
				p = append(p, "again "+f.rec)
			}
		}
		s += " {" + strings.Join(p, ", ") + "}"
	}
	return s + fmt.Sprintf(" single=%v)", q.qSingle)
}

func (q *qQuery) each(f func(*qQuery)) {
	f(q)
	for _, s := range q.fetch {
		if s.query != nil {
			s.query.each(f)
		}
	}
}

// qLog records the calls of the functions of a query.
type qLog struct {
	mu  sync.Mutex
	out []string
}

func (l *qLog) add(s string) {
	if l == nil {
		return
	}
	l.mu.Lock()
	l.out = append(l.out, s)
	l.mu.Unlock()
}

func hits(desc string, mod int) bool {
	if mod == 0 {
		return false
	}
	n := 0
	for i := 0; i < len(desc); i++ {
		n = (n*31 + int(desc[i])) & 0xffffff
	}
	return n%mod == 0
}

var errQuery = errors.New("the function of the query failed as planned")

// contentFn and queryFn are what the functions do, for both sides.
func (q *qQuery) contentFn(l *qLog, in []string) ([]interface{}, error) {
	desc := fmt.Sprintf("content q%d(%s)", q.id, strings.Join(in, "|"))
	l.add(desc)
	if hits(desc, q.cErr) {
		return nil, errQuery
	}
	out := []interface{}{}
	for i := 0; i < q.amount; i++ {
		if hits(desc+fmt.Sprint(i), q.qNil) {
			out = append(out, nil)
			continue
		}
		out = append(out, fmt.Sprintf("%d.%d<%s>", q.id, i, hashName(desc)))
	}
	return out, nil
}

func (q *qQuery) queryFn(l *qLog, in interface{}) (interface{}, bool, error) {
	desc := fmt.Sprintf("query q%d(%s)", q.id, show(in))
	l.add(desc)
	if hits(desc, q.qErr) {
		return nil, false, errQuery
	}
	if hits(desc+"nil", q.qNil) {
		return nil, !hits(desc, q.qBad), nil
	}
	return fmt.Sprintf("Q%d<%s>", q.id, hashName(desc)), !hits(desc, q.qBad), nil
}

func contentString(ct trees.Content) string {
	var b strings.Builder
	if ct.IsTree() {
		dumpReal(&b, ct.Tree())
		return b.String()
	}
	if ct.Value().HasPrefix() {
		b.WriteString("^(")
		for _, p := range ct.Value().Prefix().List() {
			dumpReal(&b, p)
		}
		b.WriteString(")")
	}
	fmt.Fprintf(&b, "%q", string(ct.Value().Content()))
	return b.String()
}

func itemString(it rItem) string {
	var b strings.Builder
	if it.tree != nil {
		it.tree.dump(&b)
		return b.String()
	}
	if len(it.prefix) > 0 {
		b.WriteString("^(")
		for _, p := range it.prefix {
			p.dump(&b)
		}
		b.WriteString(")")
	}
	fmt.Fprintf(&b, "%q", string(it.value))
	return b.String()
}

// build makes the real query. The log is looked up at each call.
func (q *qQuery) build(log func() *qLog) queries.Query {
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	el, err := queries.NewElementBuilder().Create().WithName(q.elem).WithIndex(q.idx).Now()
	must(err)
	tb := queries.NewTokenBuilder().Create().WithName(q.token).WithReverseName(q.reverse).WithElement(el)
	if q.content >= 0 {
		tb.WithContent(uint(q.content))
	}
	tok, err := tb.Now()
	must(err)
	ib := queries.NewInsideBuilder().Create()
	if q.fetch == nil {
		cb := queries.NewContentFnBuilder().Create()
		if q.single {
			cb.WithSingle(func(ct trees.Content) ([]interface{}, error) {
				return q.contentFn(log(), []string{contentString(ct)})
			})
		} else {
			cb.WithMulti(func(cts []trees.Content) ([]interface{}, error) {
				in := []string{}
				for _, ct := range cts {
					in = append(in, contentString(ct))
				}
				return q.contentFn(log(), in)
			})
		}
		fn, err := cb.Now()
		must(err)
		ib.WithFn(fn)
	} else {
		list := []queries.Fetcher{}
		for _, f := range q.fetch {
			fb := queries.NewFetcherBuilder().Create()
			if f.query != nil {
				fb.WithQuery(f.query.build(log))
			} else {
				fb.WithRecursive(f.rec)
			}
			x, err := fb.Now()
			must(err)
			list = append(list, x)
		}
		fs, err := queries.NewFetchersBuilder().Create().WithList(list).Now()
		must(err)
		ib.WithFetchers(fs)
	}
	in, err := ib.Now()
	must(err)
	fb := queries.NewQueryFnBuilder().Create()
	if q.qSingle {
		fb.WithSingle(func(ins interface{}) (interface{}, bool, error) { return q.queryFn(log(), ins) })
	} else {
		fb.WithMulti(func(ins []interface{}) (interface{}, bool, error) { return q.queryFn(log(), ins) })
	}
	fn, err := fb.Now()
	must(err)
	out, err := queries.NewBuilder().Create().WithToken(tok).WithInside(in).WithFn(fn).Now()
	must(err)
	q.real = out
	return out
}

// -------------------------------------------------------- the reference

var errRef = errors.New("refused")

type qEval struct {
	log    *qLog
	why    string
	around bool // a recursive fetcher sees the queries around it only
	steps  int
}

func (e *qEval) refuse(why string) error {
	e.why = why
	return errRef
}

func (e *qEval) query(q *qQuery, t *rTree, seen map[string]*qQuery) (interface{}, bool, error) {
	if e.steps++; e.steps > 20000 {
		panic(budgetOut{})
	}
	if q.token != t.name {
		return nil, false, e.refuse("another token")
	}
	var items []rItem
	n := uint(0)
	for _, el := range t.elems {
		name := el.name
		if t.raw {
			name = q.reverse
		}
		if name != q.elem {
			continue
		}
		if n == q.idx {
			items = el.items
			if q.content >= 0 {
				if q.content >= len(items) {
					return nil, false, e.refuse("content index out of range")
				}
				items = items[q.content : q.content+1]
			}
			break
		}
		n++
	}
	if e.around {
		m := map[string]*qQuery{}
		for k, v := range seen {
			m[k] = v
		}
		seen = m
	}
	seen[q.token] = q
	var list []interface{}
	if q.fetch == nil {
		in := []string{}
		for _, it := range items {
			in = append(in, itemString(it))
		}
		if q.single {
			if len(in) == 0 {
				return nil, false, e.refuse("no content for a single content function")
			}
			in = in[:1]
		}
		var err error
		if list, err = q.contentFn(e.log, in); err != nil {
			e.why = "content function failed"
			return nil, false, err
		}
	} else {
		for _, it := range items {
			if it.tree == nil {
				continue
			}
			for _, f := range q.fetch {
				sub := f.query
				if sub == nil {
					if sub = seen[f.rec]; sub == nil {
						return nil, false, e.refuse("unknown recursive query")
					}
				}
				ins, ok, err := e.query(sub, it.tree, seen)
				if err != nil {
					return nil, false, err
				}
				if ok {
					list = append(list, ins)
				}
			}
		}
	}
	if len(list) == 0 {
		return nil, false, nil
	}
	var in interface{} = list
	if q.qSingle {
		in = list[0]
	}
	ins, ok, err := q.queryFn(e.log, in)
	if err != nil {
		e.why = "query function failed"
	}
	return ins, ok, err
}

type qResult struct {
	ins   interface{}
	valid bool
	err   bool
	why   string
	calls string
}

func (r qResult) String() string {
	if r.err {
		return "an error"
	}
	return fmt.Sprintf("%s valid=%v", show(r.ins), r.valid)
}

// qRef evaluates a query; not known when it takes too long.
func qRef(q *qQuery, t *rTree, around bool) (res qResult, known bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(budgetOut); !ok {
				panic(r)
			}
		}
	}()
	e := &qEval{log: &qLog{}, around: around}
	ins, ok, err := e.query(q, t, map[string]*qQuery{})
	res = qResult{ins, ok, err != nil, e.why, strings.Join(e.log.out, "\n")}
	if err != nil {
		res.ins, res.valid = nil, false
	}
	return res, true
}

// ---------------------------------------------------------- the generator

type qGen struct {
	r     *rand.Rand
	n     int
	fails bool
	wrong int
}

// near is another name, that is like this one at times
func near(r *rand.Rand, name string) string {
	out := "absent"
	switch r.Intn(8) {
	case 0:
		out = strings.ToUpper(name)
	case 1:
		out = strings.Title(name)
	case 2:
		out = name + " "
	case 3:
		out = " " + name
	case 4:
		out = name + name
	case 5:
		out = name[:len(name)-1]
	}
	if out == "" || out == name {
		return "absent"
	}
	return out
}

func (g *qGen) query(t *rTree, around []string, depth int) *qQuery {
	g.n++
	q := &qQuery{id: g.n, token: t.name, reverse: "reverse", content: -1, qSingle: coin(g.r)}
	off := func() bool { return g.r.Intn(100) < g.wrong }
	if off() {
		q.token = near(g.r, t.name)
	}
	if coin(g.r) {
		q.qBad = 2 + g.r.Intn(6)
	}
	if g.r.Intn(3) == 0 {
		q.qNil = 2 + g.r.Intn(5)
	}
	if g.fails {
		if g.r.Intn(3) == 0 {
			q.qErr = 2 + g.r.Intn(8)
		}
		if g.r.Intn(3) == 0 {
			q.cErr = 2 + g.r.Intn(8)
		}
	}
	if len(t.elems) == 0 {
		q.elem = "absent"
		q.amount, q.single = 1, coin(g.r)
		return q
	}
	// prefer elements with trees
	pick := g.r.Intn(len(t.elems))
	for try := 0; try < 3; try++ {
		if t.elems[pick].items[0].tree != nil {
			break
		}
		pick = g.r.Intn(len(t.elems))
	}
	el := t.elems[pick]
	q.elem = el.name
	if t.raw {
		q.elem = q.reverse
		if g.r.Intn(6) == 0 {
			q.reverse = near(g.r, "other")
		}
	} else {
		for i := 0; i < pick; i++ {
			if t.elems[i].name == el.name {
				q.idx++
			}
		}
		if g.r.Intn(12) == 0 {
			q.elem = t.elems[g.r.Intn(len(t.elems))].name
		}
	}
	if off() {
		q.idx += uint(g.r.Intn(3))
	}
	if off() {
		q.elem = near(g.r, q.elem)
	}
	if g.r.Intn(4) == 0 {
		q.content = g.r.Intn(len(el.items))
		if off() {
			q.content += 1 + g.r.Intn(2)
		}
	}
	var sub *rTree
	for _, it := range el.items {
		if it.tree != nil {
			sub = it.tree
			break
		}
	}
	if (sub == nil && !off()) || depth == 0 || g.r.Intn(6) == 0 {
		q.single, q.amount = coin(g.r), g.r.Intn(4)
		if q.amount == 3 {
			q.amount = 1
		}
		return q
	}
	if sub == nil {
		sub = t
	}
	inner := append(append([]string{}, around...), q.token)
	q.fetch = []*qFetch{}
	many := 1 + g.r.Intn(3)
	if g.r.Intn(40) == 0 {
		many, depth = 50+g.r.Intn(100), 1
	}
	for k := 0; k < many; k++ {
		known := false
		for _, a := range inner {
			known = known || a == sub.name
		}
		if known && g.r.Intn(3) > 0 {
			q.fetch = append(q.fetch, &qFetch{rec: sub.name})
			continue
		}
		if off() {
			q.fetch = append(q.fetch, &qFetch{rec: append(inner, "absent")[g.r.Intn(len(inner)+1)]})
			continue
		}
		q.fetch = append(q.fetch, &qFetch{query: g.query(sub, inner, depth-1)})
	}
	return q
}

// wideGram gives a grammar whose line has many elements, several of one name,
// and elements of many contents, with an input it accepts.
func wideGram(r *rand.Rand) (*gGram, []byte) {
	leaf := func(name string, b byte) *gElem { return &gElem{kind: gVal, name: name, num: b, min: 1, max: 1} }
	subs := []*gTok{}
	for i, b := range []byte("xyz") {
		subs = append(subs, &gTok{name: fmt.Sprintf("sub%d", i), lines: [][]*gElem{{leaf("first", b), leaf("second", b-'x'+'A')}}})
	}
	n, long := 1+r.Intn(6), 1
	if coin(r) {
		n = []int{15, 20, 40, 130, 260, 300}[r.Intn(6)]
	} else {
		long = []int{20, 250, 260, 300, 520, 1100, 2100}[r.Intn(7)]
	}
	line, data := []*gElem{}, []byte{}
	for i := 0; i < n; i++ {
		times := 1
		if r.Intn(3) == 0 {
			times = long + r.Intn(10)
		}
		if long == 1 {
			times = 1 + r.Intn(2)
		}
		var e *gElem
		var one []byte
		if r.Intn(3) == 0 {
			e = leaf(fmt.Sprintf("v%d", r.Intn(2)), byte('a'+r.Intn(3)))
			one = []byte{e.num}
		} else {
			k := r.Intn(len(subs))
			e = &gElem{kind: gTokn, name: subs[k].name, tok: subs[k]}
			one = []byte{"xyz"[k], "ABC"[k]}
		}
		e.min, e.max = uint(times), times
		line = append(line, e)
		data = append(data, bytes.Repeat(one, times)...)
	}
	return &gGram{root: &gTok{name: "root", lines: [][]*gElem{line}}}, append(data, "rest"[:r.Intn(5)]...)
}

// qCase gives random trees with queries on them.
func qCase(c *Ctx, grammars, inputs int, f func(g *gGram, data []byte, real trees.Tree, t *rTree)) {
	app := a_applications.NewApplication()
	for k := 0; k < grammars; k++ {
		ft := allFeatures(c.R)
		ft.dup = coin(c.R)
		ft.rec = ft.rec || coin(c.R)
		gen := anyGen(c.R, ft)
		var g *gGram
		var wide []byte
		if c.R.Intn(25) == 0 {
			g, wide = wideGram(c.R)
			c.Count("trees of wide lines or long elements", 1)
		} else {
			g = gen.grammar()
		}
		for i := 0; i < inputs; i++ {
			if wide != nil && i > 1 {
				break
			}
			data := wide
			if wide == nil {
				data = gen.input(g)
			}
			t, _, known := refParse(g, data, refBudget)
			if !known || t == nil {
				continue
			}
			real := execute(c, app, g, data)
			if !accepted(real) {
				c.Violate("verdict", "the input %q is refused\ngrammar: %s", data, g)
			}
			f(g, data, real, t)
		}
	}
}

func realQuery(c *Ctx, app q_applications.Application, q *qQuery, t trees.Tree) (qResult, []byte) {
	log := &qLog{}
	rq := q.build(func() *qLog { return log })
	var ins interface{}
	var ok bool
	var rem []byte
	var err error
	if p, msg := Protect(func() { ins, ok, rem, err = app.Execute(rq, t) }); p {
		c.Violate("panic:"+panicSite(msg), "executing a query panicked: %s\nquery: %s\ntree: %s", msg, q, realString(t))
	}
	return qResult{ins, ok, err != nil, "", strings.Join(log.out, "\n")}, rem
}

func queryCase(fails bool, wrong []int, judge func(c *Ctx, q *qQuery, t *rTree, data []byte, got, want qResult, rem []byte)) func(c *Ctx) {
	return func(c *Ctx) {
		app := q_applications.NewApplication()
		qCase(c, 5, 6, func(g *gGram, data []byte, real trees.Tree, t *rTree) {
			for k := 0; k < 6; k++ {
				qg := &qGen{r: c.R, fails: fails, wrong: wrong[c.R.Intn(len(wrong))]}
				q := qg.query(t, nil, 1+c.R.Intn(6))
				want, ok := qRef(q, t, true)
				other, ok2 := qRef(q, t, false)
				if !ok || !ok2 {
					c.Count("queries beyond the reference's budget (not judged)", 1)
					continue
				}
				got, rem := realQuery(c, app, q, real)
				if want != other {
					// a name may stand for the query around it or for the latest one
					c.Count("queries whose recursion depends on a query that is not around it (either is accepted)", 1)
					if got.String() == other.String() && got.calls == other.calls {
						want = other
					}
				}
				judge(c, q, t, data, got, want, rem)
				if fails && k == 0 {
					// the same on a tree whose lines all failed
					un := unsuccessful(c, real)
					if got, rem := realQuery(c, app, q, un); !got.err || got.ins != nil || got.valid || len(rem) != 0 || got.calls != "" {
						c.Violate("unsuccessful-tree", "a query on a tree without successful line gives %s, remaining %q, calls %s\nquery: %s", got, rem, got.calls, q)
					}
					c.Count("queries on trees without successful line", 1)
				}
				c.Count("queries executed", 1)
				if q.idx > 15 {
					c.Count("queries on elements beyond the sixteenth", 1)
				}
				switch {
				case want.err:
					c.Count("errors: "+want.why, 1)
				case !want.valid:
					c.Count("queries without a valid instance", 1)
				default:
					c.Count("queries with an instance", 1)
				}
			}
		})
	}
}

// unsuccessful gives the tree with its lines emptied.
func unsuccessful(c *Ctx, t trees.Tree) trees.Tree {
	lines := []trees.Line{}
	for _, l := range t.Block().Lines() {
		n, err := trees.NewLineBuilder().Create().WithIndex(l.Index()).WithGrammar(l.Grammar()).Now()
		if err != nil {
			c.Violate("build", "a line is not built: %v", err)
		}
		lines = append(lines, n)
	}
	b, err := trees.NewBlockBuilder().Create().WithLines(lines).Now()
	if err != nil {
		c.Violate("build", "a block is not built: %v", err)
	}
	out, err := trees.NewTreeBuilder().Create().WithGrammar(t.Grammar()).WithBlock(b).WithRemaining([]byte("all")).Now()
	if err != nil {
		c.Violate("build", "a tree is not built: %v", err)
	}
	return out
}

// ------------------------------------------------------------------- Q01

func q01(c *Ctx, q *qQuery, t *rTree, data []byte, got, want qResult, rem []byte) {
	if got.err != want.err || got.String() != want.String() {
		c.Violate("result", "the query gives %s, want %s (%s)\nquery: %s\ntree: %s", got, want, want.why, q, t)
	}
	if !got.err && !bytes.Equal(rem, data[t.end:]) {
		c.Violate("remaining", "the query gives the remaining data %q, want %q\nquery: %s\ntree: %s", rem, data[t.end:], q, t)
	}
	if !want.err {
		c.Distinct(q.String() + want.String())
		c.Sample("%s on %s gives %s", q, t, want)
	}
}

// ------------------------------------------------------------------- Q02

func q02(c *Ctx, q *qQuery, t *rTree, data []byte, got, want qResult, rem []byte) {
	if got.calls != want.calls {
		c.Violate("calls", "the functions were called with:\n%s\nwant:\n%s\nquery: %s\ntree: %s", got.calls, want.calls, q, t)
	}
	if want.calls != "" {
		c.Distinct(want.calls)
		c.Count("calls compared", strings.Count(want.calls, "\n")+1)
		c.Sample("%s on %s calls %s", q, t, want.calls)
	}
}

// ------------------------------------------------------------------- Q03

func q03(c *Ctx, q *qQuery, t *rTree, data []byte, got, want qResult, rem []byte) {
	if got.err != want.err {
		c.Violate("verdict", "the query ends with an error: %v, want %v (%s)\nquery: %s\ntree: %s", got.err, want.err, want.why, q, t)
	}
	if got.err && (got.ins != nil || got.valid || len(rem) != 0) {
		c.Violate("error-and-result", "the query gives an error with %s valid=%v remaining %q\nquery: %s\ntree: %s", show(got.ins), got.valid, rem, q, t)
	}
	if got.calls != want.calls {
		c.Violate("calls", "the functions were called with:\n%s\nwant, until %q:\n%s\nquery: %s\ntree: %s", got.calls, want.why, want.calls, q, t)
	}
	if want.err {
		c.Distinct(want.why + q.String() + t.String())
		c.Sample("%s on %s: %s", q, t, want.why)
	}
}

// ------------------------------------------------------------------- Q04

func q04(c *Ctx) {
	app := q_applications.NewApplication()
	type job struct {
		q    *qQuery
		real trees.Tree
		dump string
		want qResult
	}
	jobs := []*job{}
	qCase(c, 3, 3, func(g *gGram, data []byte, real trees.Tree, t *rTree) {
		for k := 0; k < 3; k++ {
			qg := &qGen{r: c.R, fails: coin(c.R), wrong: []int{0, 5}[c.R.Intn(2)]}
			q := qg.query(t, nil, 1+c.R.Intn(6))
			want, ok := qRef(q, t, true)
			if other, ok2 := qRef(q, t, false); !ok || !ok2 || other != want {
				continue
			}
			q.build(func() *qLog { return nil })
			j := &job{q, real, realString(real), want}
			if k == 0 { // a tree nothing was done with yet
				j.real = execute(c, a_applications.NewApplication(), g, data)
			}
			jobs = append(jobs, j)
		}
	})
	if len(jobs) == 0 {
		return
	}
	result := func(j *job) string {
		ins, ok, _, err := app.Execute(j.q.real, j.real)
		return qResult{ins: ins, valid: ok, err: err != nil}.String()
	}
	const workers = 6
	errs := make(chan string, workers*len(jobs))
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		order := c.R.Perm(len(jobs))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Sprintf("panic: %v", r)
				}
			}()
			<-begin
			for _, i := range order {
				if s := result(jobs[i]); s != jobs[i].want.String() {
					errs <- fmt.Sprintf("executing with others gives %s, want %s\nquery: %s\ntree: %s", s, jobs[i].want, jobs[i].q, jobs[i].dump)
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Violate("concurrent", "%s", e)
	}
	for _, j := range jobs {
		if s := result(j); s != j.want.String() {
			c.Violate("repeat", "executing again gives %s, want %s\nquery: %s\ntree: %s", s, j.want, j.q, j.dump)
		}
		if s := realString(j.real); s != j.dump {
			c.Violate("tree-changed", "executing queries changed the tree %s, it was %s", s, j.dump)
		}
		c.Distinct(j.q.String() + j.dump)
	}
	c.Count("concurrent queries", workers*len(jobs))
	c.Sample("%d goroutines execute %d queries", workers, len(jobs))
}

// ------------------------------------------------------------------- Q05

func q05(c *Ctx) {
	qCase(c, 4, 5, func(g *gGram, data []byte, real trees.Tree, t *rTree) {
		qg := &qGen{r: c.R, wrong: 10}
		q := qg.query(t, nil, 1+c.R.Intn(6))
		log := &qLog{}
		rq := q.build(func() *qLog { return log })
		if a := readQuery(c, q, rq); a != q.String() {
			c.Violate("query", "a query does not read back as it was built: %s\nbuilt: %s", a, q)
		}
		c.Count("queries built and read back", 1)
		c.Distinct(q.String())
		c.Sample("%s", q)
	})
	queryBuilders(c)
}

// readQuery writes out a real query in the form of the model. The functions
// are recognised by what they log.
func readQuery(c *Ctx, m *qQuery, q queries.Query) string {
	out := &qQuery{id: m.id, token: q.Token().Name(), reverse: q.Token().ReverseName(), elem: q.Token().Element().Name(), idx: q.Token().Element().Index(), content: -1}
	if q.Token().HasContent() {
		out.content = int(*q.Token().Content())
	}
	in := q.Inside()
	if in.IsFn() == in.IsFetchers() || q.Fn().IsSingle() == q.Fn().IsMulti() {
		c.Violate("kinds", "a query has not exactly one kind of inside and of function\n%s", m)
	}
	out.qSingle = q.Fn().IsSingle()
	if in.IsFn() {
		out.single = in.Fn().IsSingle()
		if in.Fn().IsSingle() == in.Fn().IsMulti() {
			c.Violate("kinds", "a content function is not of exactly one kind\n%s", m)
		}
		out.amount = m.amount
		return out.String()
	}
	p := []string{}
	for i, f := range in.Fetchers().List() {
		if f.IsQuery() == f.IsRecursive() {
			c.Violate("kinds", "a fetcher is not of exactly one kind\n%s", m)
		}
		switch {
		case f.IsRecursive():
			p = append(p, "again "+f.Recursive())
		case i < len(m.fetch) && m.fetch[i].query != nil:
			p = append(p, readQuery(c, m.fetch[i].query, f.Query()))
		default:
			p = append(p, "another query")
		}
	}
	// the same form as String
	out.fetch = nil
	s := out.String()
	s = s[:strings.LastIndex(s, " contents single=")]
	return s + " {" + strings.Join(p, ", ") + "}" + fmt.Sprintf(" single=%v)", out.qSingle)
}

// queryBuilders tries every builder with every subset of its parts.
func queryBuilders(c *Ctx) {
	el, _ := queries.NewElementBuilder().Create().WithName("e").WithIndex(0).Now()
	tok, _ := queries.NewTokenBuilder().Create().WithName("t").WithReverseName("r").WithElement(el).Now()
	cf, _ := queries.NewContentFnBuilder().Create().WithSingle(func(trees.Content) ([]interface{}, error) { return nil, nil }).Now()
	qf, _ := queries.NewQueryFnBuilder().Create().WithSingle(func(interface{}) (interface{}, bool, error) { return nil, false, nil }).Now()
	in, _ := queries.NewInsideBuilder().Create().WithFn(cf).Now()
	q, _ := queries.NewBuilder().Create().WithToken(tok).WithInside(in).WithFn(qf).Now()
	ft, _ := queries.NewFetcherBuilder().Create().WithQuery(q).Now()
	fs, _ := queries.NewFetchersBuilder().Create().WithList([]queries.Fetcher{ft}).Now()
	type tc struct {
		parts int
		ok    func(m int) bool
		build func(m int) (interface{}, error)
	}
	all := func(need int) func(int) bool { return func(m int) bool { return m&need == need } }
	some := func(m int) bool { return m != 0 }
	tests := map[string]tc{
		"element": {2, all(3), func(m int) (interface{}, error) {
			b := queries.NewElementBuilder().Create()
			if m&1 != 0 {
				b.WithName("e")
			}
			if m&2 != 0 {
				b.WithIndex(0)
			}
			return b.Now()
		}},
		"token": {4, all(7), func(m int) (interface{}, error) {
			b := queries.NewTokenBuilder().Create()
			if m&1 != 0 {
				b.WithName("t")
			}
			if m&2 != 0 {
				b.WithReverseName("r")
			}
			if m&4 != 0 {
				b.WithElement(el)
			}
			if m&8 != 0 {
				b.WithContent(0)
			}
			return b.Now()
		}},
		"content function": {2, some, func(m int) (interface{}, error) {
			b := queries.NewContentFnBuilder().Create()
			if m&1 != 0 {
				b.WithSingle(cf.Single())
			}
			if m&2 != 0 {
				b.WithMulti(func([]trees.Content) ([]interface{}, error) { return nil, nil })
			}
			return b.Now()
		}},
		"query function": {2, some, func(m int) (interface{}, error) {
			b := queries.NewQueryFnBuilder().Create()
			if m&1 != 0 {
				b.WithSingle(qf.Single())
			}
			if m&2 != 0 {
				b.WithMulti(func([]interface{}) (interface{}, bool, error) { return nil, false, nil })
			}
			return b.Now()
		}},
		"inside": {2, some, func(m int) (interface{}, error) {
			b := queries.NewInsideBuilder().Create()
			if m&1 != 0 {
				b.WithFn(cf)
			}
			if m&2 != 0 {
				b.WithFetchers(fs)
			}
			return b.Now()
		}},
		"fetcher": {2, some, func(m int) (interface{}, error) {
			b := queries.NewFetcherBuilder().Create()
			if m&1 != 0 {
				b.WithQuery(q)
			}
			if m&2 != 0 {
				b.WithRecursive("r")
			}
			return b.Now()
		}},
		"fetchers": {1, all(1), func(m int) (interface{}, error) {
			b := queries.NewFetchersBuilder().Create().WithList([]queries.Fetcher{})
			if m&1 != 0 {
				b.WithList([]queries.Fetcher{ft})
			}
			return b.Now()
		}},
		"query": {3, all(7), func(m int) (interface{}, error) {
			b := queries.NewBuilder().Create()
			if m&1 != 0 {
				b.WithToken(tok)
			}
			if m&2 != 0 {
				b.WithInside(in)
			}
			if m&4 != 0 {
				b.WithFn(qf)
			}
			return b.Now()
		}},
	}
	names := []string{}
	for n := range tests {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := tests[n]
		for m := 0; m < 1<<t.parts; m++ {
			ins, err := t.build(m)
			if (err == nil) != t.ok(m) || (err != nil && ins != nil) {
				c.Violate("required", "building a %s with the parts %b gives %v and the error %v", n, m, ins, err)
			}
			c.Count("builders tried with and without their parts", 1)
		}
	}
}

func init() {
	cases := func(quick, thorough int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return thorough
			}
			return quick
		}
	}
	const gen = "Random queries on the trees of random grammars and inputs: up to six levels, elements with the same name, content indexes, everythings, recursive fetchers, functions that give no, several or invalid instances. "
	register(&Prop{ID: "Q01", Rule: gen + "A distinct case is a distinct query with its result.", Cases: cases(2000, 60000), Run: queryCase(false, []int{0, 0, 4, 10}, q01)})
	register(&Prop{ID: "Q02", Rule: gen + "Every call of a function is recorded. A distinct case is a distinct sequence of calls.", Cases: cases(2000, 60000), Run: queryCase(false, []int{0, 0, 4, 10}, q02)})
	register(&Prop{ID: "Q03", Rule: gen + "With failing functions, wrong names, indexes and recursive names. A distinct case is a distinct failing query.", Cases: cases(2000, 60000), Run: queryCase(true, []int{0, 5, 20}, q03)})
	register(&Prop{ID: "Q04", Rule: gen + "Executed by six goroutines under the race detector. A distinct case is a distinct query and tree.", Cases: cases(500, 12000), Run: q04})
	register(&Prop{ID: "Q05", Rule: gen + "Built and read back; builders with every subset of their parts. A distinct case is a distinct query.", Cases: cases(500, 20000), Run: q05})
}
