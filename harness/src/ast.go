//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// The model of a grammar, the reference matcher working on it, and the
// conversion to the real grammar instances. The matcher shares no code and no
// data structure with the repository.

type gKind int

const (
	gVal gKind = iota
	gTokn
	gExt
	gEvr
	gRec
	gComp
)

type gElem struct {
	kind    gKind
	min     uint
	max     int // -1: no maximum
	name    string
	num     byte
	tok     *gTok
	ext     *gGram
	exc     *gTok
	esc     *gTok
	compose []gOcc
}

type gOcc struct {
	name string
	num  byte
	n    uint
}

type gSuite struct {
	valid   bool
	content []gOcc
}

type gTok struct {
	name   string
	lines  [][]*gElem
	suites []gSuite
	real   grammars.Token
}

type gChan struct {
	tok  *gTok
	prev *gTok
	next *gTok
}

type gGram struct {
	root  *gTok
	chans []*gChan
	real  grammars.Grammar
}

// ------------------------------------------------------------- conversion

func (o gOcc) value() values.Value {
	v, err := values.NewBuilder().Create().WithName(o.name).WithNumber(o.num).Now()
	must(err)
	return v
}

func buildCompose(name string, occ []gOcc) grammars.Compose {
	list := []grammars.ComposeElement{}
	for _, o := range occ {
		el, err := grammars.NewComposeElementBuilder().Create().WithValue(o.value()).WithOccurences(o.n).Now()
		must(err)
		list = append(list, el)
	}
	c, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(list).Now()
	must(err)
	return c
}

func (t *gTok) build() grammars.Token {
	if t.real != nil {
		return t.real
	}
	lines := []grammars.Line{}
	for _, l := range t.lines {
		conts := []grammars.Container{}
		for _, e := range l {
			cb := grammars.NewContainerBuilder().Create()
			if e.kind == gComp {
				cb.WithCompose(buildCompose(e.name, e.compose))
			} else {
				cb.WithElement(e.build())
			}
			c, err := cb.Now()
			must(err)
			conts = append(conts, c)
		}
		ln, err := grammars.NewLineBuilder().Create().WithContainers(conts).Now()
		must(err)
		lines = append(lines, ln)
	}
	blk, err := grammars.NewBlockBuilder().Create().WithLines(lines).Now()
	must(err)
	b := grammars.NewTokenBuilder().Create().WithName(t.name).WithBlock(blk)
	if len(t.suites) > 0 {
		list := []grammars.Suite{}
		for i, s := range t.suites {
			name := "suite" // of all of them
			if len(t.suites)%2 == 1 {
				name = fmt.Sprintf("suite%d", i)
			}
			comp := buildCompose(name, s.content)
			sb := grammars.NewSuiteBuilder().Create()
			if s.valid {
				sb.WithValid(comp)
			} else {
				sb.WithInvalid(comp)
			}
			ins, err := sb.Now()
			must(err)
			list = append(list, ins)
		}
		su, err := grammars.NewSuitesBuilder().Create().WithList(list).Now()
		must(err)
		b.WithSuites(su)
	}
	t.real, err = b.Now()
	must(err)
	return t.real
}

func (e *gElem) build() grammars.Element {
	cb := cardinalities.NewBuilder().Create().WithMin(e.min)
	if e.max >= 0 {
		cb.WithMax(uint(e.max))
	}
	card, err := cb.Now()
	must(err)
	b := grammars.NewElementBuilder().Create().WithCardinality(card)
	switch e.kind {
	case gVal:
		b.WithValue(gOcc{name: e.name, num: e.num}.value())
	case gTokn:
		ins, err := grammars.NewInstanceBuilder().Create().WithToken(e.tok.build()).Now()
		must(err)
		b.WithInstance(ins)
	case gExt:
		x, err := grammars.NewExternalBuilder().Create().WithName(e.name).WithGrammar(e.ext.build()).Now()
		must(err)
		b.WithExternal(x)
	case gEvr:
		eb := grammars.NewEverythingBuilder().Create().WithName(e.name).WithException(e.exc.build())
		if e.esc != nil {
			eb.WithEscape(e.esc.build())
		}
		ev, err := eb.Now()
		must(err)
		ins, err := grammars.NewInstanceBuilder().Create().WithEverything(ev).Now()
		must(err)
		b.WithInstance(ins)
	case gRec:
		b.WithRecursive(e.name)
	}
	out, err := b.Now()
	must(err)
	return out
}

func (g *gGram) build() grammars.Grammar {
	if g.real != nil {
		return g.real
	}
	b := grammars.NewBuilder().Create().WithRoot(g.root.build())
	if len(g.chans) > 0 {
		list := []grammars.Channel{}
		for _, c := range g.chans {
			cb := grammars.NewChannelBuilder().Create().WithToken(c.tok.build())
			if c.prev != nil || c.next != nil {
				cc := grammars.NewChannelConditionBuilder().Create()
				if c.prev != nil {
					cc.WithPrevious(c.prev.build())
				}
				if c.next != nil {
					cc.WithNext(c.next.build())
				}
				cond, err := cc.Now()
				must(err)
				cb.WithCondition(cond)
			}
			ch, err := cb.Now()
			must(err)
			list = append(list, ch)
		}
		chs, err := grammars.NewChannelsBuilder().Create().WithList(list).Now()
		must(err)
		b.WithChannels(chs)
	}
	var err error
	g.real, err = b.Now()
	must(err)
	return g.real
}

// ---------------------------------------------------------- text rendering

func (e *gElem) String() string {
	s := ""
	switch e.kind {
	case gVal:
		s = fmt.Sprintf("%s=%q", e.name, string(e.num))
	case gTokn:
		s = e.tok.name
	case gExt:
		s = "external " + e.name + "{" + e.ext.String() + "}"
	case gEvr:
		s = "everything " + e.name + " except (" + e.exc.String() + ")"
		if e.esc != nil {
			s += " escape (" + e.esc.String() + ")"
		}
	case gRec:
		s = "recursive " + e.name
	case gComp:
		s = "compose " + e.name
		for _, o := range e.compose {
			s += fmt.Sprintf(" %q|%d", string(o.num), o.n)
		}
		return s
	}
	if e.max < 0 {
		return fmt.Sprintf("%s[%d,]", s, e.min)
	}
	if e.min == 1 && e.max == 1 {
		return s
	}
	return fmt.Sprintf("%s[%d,%d]", s, e.min, e.max)
}

func (t *gTok) String() string {
	ls := []string{}
	for _, l := range t.lines {
		es := []string{}
		for _, e := range l {
			es = append(es, e.String())
		}
		ls = append(ls, strings.Join(es, " "))
	}
	return t.name + ": " + strings.Join(ls, " | ")
}

func (t *gTok) each(seen map[*gTok]bool, f func(*gTok)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, l := range t.lines {
		for _, e := range l {
			e.tok.each(seen, f)
			e.exc.each(seen, f)
			e.esc.each(seen, f)
		}
	}
}

func (g *gGram) String() string {
	out := []string{}
	seen := map[*gTok]bool{}
	g.root.each(seen, func(t *gTok) { out = append(out, t.String()) })
	for _, c := range g.chans {
		s := "channel " + c.tok.String()
		if c.prev != nil {
			s += " after (" + c.prev.String() + ")"
		}
		if c.next != nil {
			s += " before (" + c.next.String() + ")"
		}
		out = append(out, s)
	}
	return strings.Join(out, "; ")
}

// -------------------------------------------------------- reference matcher

type rTree struct {
	name   string
	tok    *gTok // what it was matched with
	line   int   // successful line
	raw    bool  // bytes of an everything
	elems  []rElem
	suffix []*rTree
	end    int // first byte not consumed, after the suffix
}

type rElem struct {
	name  string
	cont  int // container index in the line
	items []rItem
	comp  bool
}

type rItem struct {
	tree   *rTree
	value  byte
	prefix []*rTree
}

type budgetOut struct{}

type matcher struct {
	data  []byte
	steps int
	max   int
	depth int
}

type frame struct {
	tok   *gTok
	lines map[int]int // line index being matched -> position
}

type scope struct {
	stack map[string]*frame
	chans []*gChan
}

func newScope(ch []*gChan) *scope { return &scope{stack: map[string]*frame{}, chans: ch} }

func (m *matcher) step() {
	m.steps++
	if m.max > 0 && m.steps > m.max {
		panic(budgetOut{})
	}
}

// grammar matches a grammar at pos; nil when it does not match.
func (m *matcher) grammar(g *gGram, prev, pos int) *rTree {
	return m.token(g.root, newScope(g.chans), prev, pos, false)
}

// block finds the first matching line; end < 0 when there is none.
func (m *matcher) block(t *gTok, sc *scope, ch []*gChan, prev, pos int) (int, []rElem, int) {
	fr := sc.stack[t.name]
	for i, l := range t.lines {
		if at, ok := fr.lines[i]; ok && at == pos {
			continue
		}
		old, had := fr.lines[i]
		fr.lines[i] = pos
		elems, end := m.line(l, sc, ch, prev, pos)
		if had {
			fr.lines[i] = old
		} else {
			delete(fr.lines, i)
		}
		if end >= 0 {
			return i, elems, end
		}
	}
	return 0, nil, -1
}

func (m *matcher) token(t *gTok, sc *scope, prev, pos int, reverse bool) *rTree {
	return m.tokenIn(t, sc, sc.chans, nil, prev, pos, reverse)
}

func (m *matcher) tokenIn(t *gTok, sc *scope, ch []*gChan, esc *gTok, prev, pos int, reverse bool) *rTree {
	m.step()
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > 2000 {
		panic(budgetOut{})
	}
	if _, ok := sc.stack[t.name]; !ok {
		sc.stack[t.name] = &frame{tok: t, lines: map[int]int{}}
		defer delete(sc.stack, t.name)
	}
	out := &rTree{name: t.name, tok: t}
	if reverse {
		items := []rItem{}
		at, pv := pos, prev
		for at < len(m.data) {
			m.step()
			if esc != nil {
				if e := m.tokenIn(esc, sc, nil, nil, pv, at, false); e != nil && e.end < len(m.data) {
					if _, _, end := m.block(t, sc, nil, at, e.end); end >= 0 {
						for _, b := range m.data[e.end:end] {
							items = append(items, rItem{value: b})
						}
						pv = e.end
						at = end
						continue
					}
				}
			}
			if _, _, end := m.block(t, sc, nil, pv, at); end >= 0 {
				break
			}
			items = append(items, rItem{value: m.data[at]})
			pv = at
			at++
		}
		if len(items) == 0 {
			return nil
		}
		out.raw = true
		out.elems = []rElem{{items: items}}
		out.end = at
		return out
	}
	li, elems, end := m.block(t, sc, ch, prev, pos)
	if end < 0 {
		// what follows a token that does not match may be looked at as well: its steps count
		if len(ch) > 0 {
			m.channels(ch, prev, pos)
		}
		return nil
	}
	out.line, out.elems, out.end = li, elems, end
	if len(ch) > 0 {
		out.suffix, out.end = m.channels(ch, prev, end)
	}
	return out
}

// line matches the containers in sequence; -1 when it does not match. A line
// that consumes nothing does not match.
func (m *matcher) line(l []*gElem, sc *scope, ch []*gChan, prev, pos int) ([]rElem, int) {
	out := []rElem{}
	for ci, e := range l {
		items := []rItem{}
		if e.kind == gComp {
			for _, o := range e.compose {
				for k := uint(0); k < o.n; k++ {
					it, end := m.value(o.num, ch, prev, pos)
					if end < 0 {
						return nil, -1
					}
					items = append(items, it)
					prev, pos = pos, end
				}
			}
			out = append(out, rElem{e.name, ci, items, true})
			continue
		}
		for pos < len(m.data) && (e.max < 0 || len(items) < e.max) {
			m.step()
			it, end := m.element(e, sc, ch, prev, pos)
			if end < 0 {
				break
			}
			items = append(items, it)
			prev, pos = pos, end
		}
		if uint(len(items)) < e.min {
			return nil, -1
		}
		if len(items) > 0 {
			out = append(out, rElem{e.name, ci, items, false})
		}
	}
	if len(out) == 0 {
		return nil, -1
	}
	return out, pos
}

func (m *matcher) value(num byte, ch []*gChan, prev, pos int) (rItem, int) {
	it := rItem{value: num}
	if len(ch) > 0 {
		it.prefix, pos = m.channels(ch, prev, pos)
	}
	if pos >= len(m.data) || m.data[pos] != num {
		return it, -1
	}
	return it, pos + 1
}

func (m *matcher) element(e *gElem, sc *scope, ch []*gChan, prev, pos int) (rItem, int) {
	var t *rTree
	switch e.kind {
	case gVal:
		return m.value(e.num, ch, prev, pos)
	case gTokn:
		t = m.tokenIn(e.tok, sc, ch, nil, prev, pos, false)
	case gRec:
		if fr, ok := sc.stack[e.name]; ok {
			t = m.tokenIn(fr.tok, sc, ch, nil, prev, pos, false)
		}
	case gExt:
		if t = m.grammar(e.ext, prev, pos); t != nil {
			t.name = e.name
		}
	case gEvr:
		t = m.tokenIn(e.exc, sc, nil, e.esc, prev, pos, true)
	}
	if t == nil {
		return rItem{}, -1
	}
	return rItem{tree: t}, t.end
}

func (m *matcher) channels(ch []*gChan, prev, pos int) ([]*rTree, int) {
	var out []*rTree
	for {
		n := len(out)
		for _, c := range ch {
			t := m.tokenIn(c.tok, newScope(nil), nil, nil, prev, pos, false)
			end := pos
			if t != nil {
				end = t.end
			}
			// both conditions are looked at in any case: their steps count
			ok := t != nil
			if c.prev != nil {
				ok = prev >= 0 && m.tokenIn(c.prev, newScope(nil), nil, nil, -1, prev, false) != nil && ok
			}
			if c.next != nil {
				ok = m.tokenIn(c.next, newScope(nil), nil, nil, -1, end, false) != nil && ok
			}
			if !ok {
				continue
			}
			out = append(out, t)
			prev, pos = pos, t.end
		}
		if len(out) == n {
			return out, pos
		}
	}
}

// refParse gives the reference result; known is false when the matcher ran out
// of its budget.
func refParse(g *gGram, data []byte, max int) (t *rTree, steps int, known bool) {
	m := &matcher{data: data, max: max}
	defer func() {
		steps = m.steps
		if r := recover(); r != nil {
			if _, ok := r.(budgetOut); !ok {
				panic(r)
			}
			t, known = nil, false
		}
	}()
	return m.grammar(g, -1, 0), m.steps, true
}

// ------------------------------------------------------------------- dumps

func (t *rTree) dump(b *strings.Builder) {
	b.WriteString(t.name)
	if t.raw {
		b.WriteString("<raw>")
	} else {
		fmt.Fprintf(b, "<%d>", t.line)
	}
	b.WriteString("{")
	for _, e := range t.elems {
		b.WriteString(e.name + "[")
		for _, it := range e.items {
			if it.tree != nil {
				it.tree.dump(b)
				b.WriteString(" ")
				continue
			}
			rdumpAll(b, "^", it.prefix)
			fmt.Fprintf(b, "%q ", string(it.value))
		}
		b.WriteString("]")
	}
	b.WriteString("}")
	rdumpAll(b, "+", t.suffix)
}

func rdumpAll(b *strings.Builder, sign string, ts []*rTree) {
	if len(ts) == 0 {
		return
	}
	b.WriteString(sign + "(")
	for _, t := range ts {
		t.dump(b)
	}
	b.WriteString(")")
}

func (t *rTree) String() string {
	if t == nil {
		return "no match"
	}
	var b strings.Builder
	t.dump(&b)
	return b.String()
}

func dumpReal(b *strings.Builder, t trees.Tree) {
	b.WriteString(t.Grammar().Name())
	if !t.Block().HasSuccessful() {
		b.WriteString("<unsuccessful>")
		return
	}
	l := t.Block().Successful()
	if l.IsReverse() {
		b.WriteString("<raw>")
	} else {
		fmt.Fprintf(b, "<%d>", l.Index())
	}
	b.WriteString("{")
	for _, e := range l.Elements().List() {
		if e.HasGrammar() {
			b.WriteString(e.Grammar().Name())
		}
		b.WriteString("[")
		for _, c := range e.Contents().List() {
			if c.IsTree() {
				dumpReal(b, c.Tree())
				b.WriteString(" ")
				continue
			}
			if c.Value().HasPrefix() {
				b.WriteString("^(")
				for _, p := range c.Value().Prefix().List() {
					dumpReal(b, p)
				}
				b.WriteString(")")
			}
			fmt.Fprintf(b, "%q ", string(c.Value().Content()))
		}
		b.WriteString("]")
	}
	b.WriteString("}")
	if t.HasSuffix() {
		b.WriteString("+(")
		for _, s := range t.Suffix().List() {
			dumpReal(b, s)
		}
		b.WriteString(")")
	}
}

func realString(t trees.Tree) string {
	if t == nil {
		return "no match"
	}
	if !t.Block().HasSuccessful() {
		return "no match"
	}
	var b strings.Builder
	dumpReal(&b, t)
	return b.String()
}

// --------------------------------------------------------------- generator

type gFeat struct {
	rec, leftRec, undefRec bool
	chans, conds, prevCond bool
	evr, esc               bool
	ext                    bool
	comp                   bool
	suites                 bool
	deep                   int
	alpha                  string
	bigMin                 bool
	huge                   bool // bounds beyond any amount of data
	clash                  bool // externals use the names of the grammar around them
	dup                    bool // the same name twice in a line
	chanEvr                bool
	names                  bool // that look alike
}

type gGen struct {
	r     *rand.Rand
	f     gFeat
	n     int
	pre   string
	stack []string
	named []string // tokens that may be around or not
	all   []*gTok
	evrs  []*gElem
	left  int
	ends  []int
}

func newGen(r *rand.Rand, f gFeat) *gGen {
	if f.alpha == "" {
		f.alpha = "abc"
	}
	if f.deep == 0 {
		f.deep = 3
	}
	return &gGen{r: r, f: f, left: 14}
}

func anyGen(r *rand.Rand, f gFeat) *gGen {
	g := newGen(r, f)
	if r.Intn(5) == 0 {
		g.odd()
	}
	return g
}

// odd makes a generator with other bytes, and names that look alike.
func (g *gGen) odd() *gGen {
	if g.r.Intn(3) == 0 {
		all := []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xc3, 0xa9, '\n', '\t', ' ', '%', '"', '\\', 'A', 'a', '0', '_'}
		g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		g.f.alpha = string(all[:3])
	}
	g.f.names = g.r.Intn(2) == 0
	return g
}

var oddEnds = []string{"", " ", "\x00", "\u00e9", "e\u0301", "A", "a", "%s", "/", strings.Repeat("long", 80)}

func (g *gGen) name(p string) string {
	if g.f.names {
		// two or more names differ in their end only
		if g.r.Intn(3) != 0 || g.ends == nil {
			g.n++
			g.ends = g.r.Perm(len(oddEnds))
		}
		end := oddEnds[g.ends[0]]
		if g.ends = g.ends[1:]; len(g.ends) == 0 {
			g.ends = nil
		}
		return fmt.Sprintf("%s%d%s%s", g.pre, g.n, p, end)
	}
	g.n++
	return fmt.Sprintf("%s%s%d", g.pre, p, g.n)
}

func (g *gGen) byte() byte { return g.f.alpha[g.r.Intn(len(g.f.alpha))] }

func (g *gGen) card(e *gElem) *gElem {
	switch g.r.Intn(8) {
	case 0:
		e.min, e.max = 0, -1
	case 1:
		e.min, e.max = 1, -1
	case 2:
		e.min, e.max = 0, 1
	case 3:
		e.min, e.max = uint(g.r.Intn(3)), 0
		e.max = int(e.min) + g.r.Intn(3)
	case 4:
		e.min, e.max = uint(1+g.r.Intn(3)), -1
		if g.r.Intn(3) == 0 && g.f.bigMin {
			e.min, e.max = 2, 1 // never satisfied
		}
		if g.f.huge && g.r.Intn(3) == 0 {
			e.min, e.max = hugeBounds[g.r.Intn(len(hugeBounds))], -1
			if g.r.Intn(2) == 0 {
				e.min, e.max = uint(g.r.Intn(2)), int(hugeBounds[g.r.Intn(5)])
			}
		}
	default:
		e.min, e.max = 1, 1
	}
	return e
}

var hugeBounds = []uint{1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62}

func vname(b byte) string { return fmt.Sprintf("%d", b) }

func (g *gGen) elem(depth int, first bool) *gElem {
	r := g.r
	for {
		switch r.Intn(9) {
		case 0, 1, 2:
			b := g.byte()
			name := vname(b)
			if g.f.names && g.f.dup && r.Intn(3) == 0 {
				name = []string{"v", "V", vname(g.byte())}[r.Intn(3)] // other bytes have it too
			}
			return g.card(&gElem{kind: gVal, name: name, num: b})
		case 3, 4:
			if depth <= 0 || g.left <= 0 {
				b := g.byte()
				return g.card(&gElem{kind: gVal, name: vname(b), num: b})
			}
			if len(g.all) > 0 && r.Intn(4) == 0 {
				// reuse a finished token
				t := g.all[r.Intn(len(g.all))]
				return g.card(&gElem{kind: gTokn, name: t.name, tok: t})
			}
			t := g.token(depth-1, "t")
			return g.card(&gElem{kind: gTokn, name: t.name, tok: t})
		case 5:
			if !g.f.rec || len(g.stack) == 0 || (first && !g.f.leftRec) {
				continue
			}
			if g.f.undefRec && r.Intn(8) == 0 {
				return g.card(&gElem{kind: gRec, name: "nowhere"})
			}
			if len(g.named) > 0 && r.Intn(6) == 0 {
				// a token around it or not, an exception, an escape
				return g.card(&gElem{kind: gRec, name: g.named[r.Intn(len(g.named))]})
			}
			return g.card(&gElem{kind: gRec, name: g.stack[r.Intn(len(g.stack))]})
		case 6:
			if !g.f.evr {
				continue
			}
			if len(g.evrs) > 0 && r.Intn(4) == 0 {
				// the same exception, or the same everything, again
				e := *g.evrs[r.Intn(len(g.evrs))]
				if r.Intn(2) == 0 {
					e.name = g.name("every")
				}
				return g.card(&e)
			}
			e := &gElem{kind: gEvr, name: g.name("every"), exc: g.simple("exc", r.Intn(3) == 0)}
			if r.Intn(8) == 0 {
				e.exc = g.rich("exc")
			}
			g.evrs = append(g.evrs, e)
			if g.f.esc && r.Intn(2) == 0 {
				e.esc = g.simple("esc", false)
				if r.Intn(8) == 0 {
					e.esc = g.rich("esc")
				}
				if r.Intn(5) == 0 {
					e.esc = e.exc // doubled to be escaped
				}
			}
			return g.card(e)
		case 7:
			if !g.f.ext || depth <= 0 || g.left <= 0 {
				continue
			}
			sub := newGen(r, g.f)
			sub.pre = g.name("x")
			first := "t"
			if g.f.clash && r.Intn(3) != 0 {
				sub.pre, first = g.pre, []string{"t", "root"}[r.Intn(2)]
			}
			sub.left = 4
			sub.f.deep = depth - 1
			sub.f.ext = r.Intn(3) == 0
			x := &gGram{root: sub.token(depth-1, first)}
			if g.f.chans && r.Intn(2) == 0 {
				x.chans = sub.channels()
			}
			g.left -= 2
			return g.card(&gElem{kind: gExt, name: g.name("ext"), ext: x})
		case 8:
			if !g.f.comp {
				continue
			}
			e := &gElem{kind: gComp, name: g.name("comp")}
			for n := 1 + r.Intn(3); n > 0; n-- {
				b := g.byte()
				e.compose = append(e.compose, gOcc{vname(b), b, uint(1 + r.Intn(3))})
			}
			return e
		}
	}
}

// simple makes a small token of values, one or more lines.
func (g *gGen) simple(p string, nest bool) *gTok {
	r := g.r
	t := &gTok{name: g.name(p)}
	if g.f.undefRec {
		g.named = append(g.named, t.name)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		l := []*gElem{}
		for k := 1 + r.Intn(2); k > 0; k-- {
			b := g.byte()
			e := &gElem{kind: gVal, name: vname(b), num: b, min: 1, max: 1}
			if r.Intn(6) == 0 {
				g.card(e)
			}
			if nest && r.Intn(2) == 0 {
				in := &gTok{name: g.name("in"), lines: [][]*gElem{{e}}}
				e = &gElem{kind: gTokn, name: in.name, tok: in, min: 1, max: 1}
			}
			l = append(l, e)
		}
		t.lines = append(t.lines, l)
	}
	return t
}

// rich makes a small token of anything the features allow, that stands by itself.
func (g *gGen) rich(p string) *gTok {
	sub := newGen(g.r, g.f)
	sub.pre = g.name("r")
	sub.left = 3
	sub.f.leftRec = g.f.leftRec && g.r.Intn(4) == 0
	sub.f.evr, sub.f.ext = g.f.evr && g.r.Intn(3) == 0, g.f.ext && g.r.Intn(2) == 0
	t := sub.token(1, p)
	return t
}

func (g *gGen) token(depth int, p string) *gTok {
	g.left--
	t := &gTok{name: g.name(p)}
	g.stack = append(g.stack, t.name)
	r := g.r
	lines, elems, wide := 1+r.Intn(3), 3, false
	if r.Intn(60) == 0 { // many lines, or long ones
		wide = true
		switch r.Intn(6) {
		case 0:
			lines = 200 + r.Intn(150)
		case 1:
			elems = 200 + r.Intn(150)
		case 2, 3:
			lines = 4 + r.Intn(40)
		default:
			elems = 4 + r.Intn(40)
		}
	}
	for n := lines; n > 0; n-- {
		l := []*gElem{}
		used := map[string]bool{}
		first := true
		for k := 1 + r.Intn(elems); k > 0; k-- {
			e := g.elem(depth, first)
			if wide && e.kind == gVal && lines > 3 {
				e.num = byte(r.Intn(256))
				e.name = vname(e.num)
			}
			if used[e.name] && !g.f.dup {
				continue
			}
			used[e.name] = true
			l = append(l, e)
			if e.min > 0 || e.kind == gComp {
				first = false
			}
		}
		t.lines = append(t.lines, l)
	}
	g.stack = g.stack[:len(g.stack)-1]
	if !g.f.rec {
		g.all = append(g.all, t)
	}
	return t
}

func (g *gGen) channels() []*gChan {
	r := g.r
	out := []*gChan{}
	for n := 1 + r.Intn(3); n > 0; n-- {
		var t *gTok
		switch r.Intn(4) {
		case 0:
			t = g.simple("ch", r.Intn(2) == 0)
		case 1:
			b := "_ "[r.Intn(2)]
			t = &gTok{name: g.name("ch"), lines: [][]*gElem{{g.card(&gElem{kind: gVal, name: vname(b), num: b})}}}
		case 2:
			if g.f.chanEvr {
				open := &gElem{kind: gVal, name: vname('#'), num: '#', min: 1, max: 1}
				ev := &gElem{kind: gEvr, name: g.name("every"), exc: g.simple("exc", false), min: uint(r.Intn(2)), max: 1}
				if g.f.esc && r.Intn(2) == 0 {
					ev.esc = g.simple("esc", false)
					if r.Intn(5) == 0 {
						ev.esc = ev.exc
					}
				}
				t = &gTok{name: g.name("ch"), lines: [][]*gElem{{open, ev}}}
				break
			}
			fallthrough
		default:
			b := "_ "[r.Intn(2)]
			t = &gTok{name: g.name("ch"), lines: [][]*gElem{{&gElem{kind: gVal, name: vname(b), num: b, min: 1, max: 1}}}}
		}
		if r.Intn(4) == 0 {
			t = g.rich("ch")
			if r.Intn(2) == 0 {
				open := &gElem{kind: gVal, name: vname('#'), num: '#', min: 1, max: 1}
				t = &gTok{name: g.name("ch"), lines: [][]*gElem{{open, {kind: gTokn, name: t.name, tok: t, min: 1, max: 1}}}}
			}
		}
		c := &gChan{tok: t}
		if g.f.conds && r.Intn(2) == 0 {
			c.next = g.simple("nx", false)
			if r.Intn(6) == 0 {
				c.next = g.rich("nx")
			}
		}
		if g.f.prevCond && r.Intn(2) == 0 {
			c.prev = g.simple("pv", false)
			if r.Intn(6) == 0 {
				c.prev = g.rich("pv")
			}
			if c.next != nil && r.Intn(4) == 0 {
				c.prev = c.next
			}
		}
		if r.Intn(12) == 0 {
			if c.next != nil {
				c.next = t
			}
			if c.prev != nil {
				c.prev = t
			}
		}
		out = append(out, c)
		if r.Intn(12) == 0 {
			out = append(out, c) // listed twice
		}
	}
	return out
}

func (g *gGen) grammar() *gGram {
	out := &gGram{root: g.token(g.f.deep, "root")}
	if g.f.chans {
		out.chans = g.channels()
	}
	return out
}

// derive writes bytes the token may match.
func (g *gGen) derive(t *gTok, ch []*gChan, depth int, env map[string]*gTok, out *[]byte) {
	r := g.r
	if depth <= 0 || len(*out) > 120 {
		return
	}
	old := env[t.name]
	env[t.name] = t
	defer func() { env[t.name] = old }()
	l := t.lines[r.Intn(len(t.lines))]
	for _, e := range l {
		if e.kind == gComp {
			for _, o := range e.compose {
				for k := uint(0); k < o.n; k++ {
					g.noise(ch, out)
					*out = append(*out, o.num)
				}
			}
			continue
		}
		n := int(e.min)
		if e.min > 1000 {
			n = r.Intn(4)
		} else if e.max < 0 || e.max > 1000 {
			n += r.Intn(3)
		} else if e.max > n {
			n += r.Intn(e.max - n + 1)
		}
		for ; n > 0; n-- {
			switch e.kind {
			case gVal:
				g.noise(ch, out)
				*out = append(*out, e.num)
			case gTokn:
				g.derive(e.tok, ch, depth-1, env, out)
			case gRec:
				if x := env[e.name]; x != nil {
					g.derive(x, ch, depth-1, env, out)
				}
			case gExt:
				g.derive(e.ext.root, e.ext.chans, depth-1, map[string]*gTok{}, out)
			case gEvr:
				for k := r.Intn(4); k > 0; k-- {
					if e.esc != nil && r.Intn(2) == 0 {
						g.derive(e.esc, nil, 2, map[string]*gTok{}, out)
						g.derive(e.exc, nil, 2, map[string]*gTok{}, out)
						continue
					}
					*out = append(*out, g.byte())
				}
			}
		}
	}
	g.noise(ch, out)
}

func (g *gGen) noise(ch []*gChan, out *[]byte) {
	if len(ch) == 0 || len(*out) > 120 {
		return
	}
	for k := g.r.Intn(3); k > 0; k-- {
		g.derive(ch[g.r.Intn(len(ch))].tok, nil, 3, map[string]*gTok{}, out)
	}
}

// input makes data for the grammar: derived, mutated, random or empty.
func (g *gGen) input(gr *gGram) []byte {
	r := g.r
	out := []byte{}
	k := r.Intn(10)
	if k == 0 {
		for n := r.Intn(12); n > 0; n-- {
			out = append(out, g.byte())
		}
		return out
	}
	for try := 0; try < 4 && len(out) == 0; try++ {
		g.derive(gr.root, gr.chans, 6, map[string]*gTok{}, &out)
	}
	if len(gr.chans) > 0 && r.Intn(50) == 0 { // a long run of channel data
		run := []byte{}
		for n := 100 + r.Intn(1000); n > 0; n-- {
			one := []byte{}
			g.derive(gr.chans[r.Intn(len(gr.chans))].tok, nil, 3, map[string]*gTok{}, &one)
			run = append(run, one...)
		}
		i := r.Intn(len(out) + 1)
		out = append(out[:i:i], append(run, out[i:]...)...)
	}
	if k < 5 {
		return out
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := r.Intn(len(out) + 1)
		b := g.byte()
		if len(gr.chans) > 0 && r.Intn(3) == 0 {
			b = "_ #\n"[r.Intn(4)]
		}
		switch r.Intn(4) {
		case 0:
			out = append(out[:i:i], append([]byte{b}, out[i:]...)...)
		case 1:
			out = out[:i]
		case 2:
			if i < len(out) {
				out = append(out[:i:i], out[i+1:]...)
			}
		case 3:
			out = append(out, b)
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
