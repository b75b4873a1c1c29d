//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// Trees built from parts, not by the parser: successful or not, with every
// combination of prefixes, suffixes and remaining data.

type hand struct {
	c    *Ctx
	n    int
	tree int
}

// what a hand-built tree should show
type handTree struct {
	tree  trees.Tree
	plain []byte // bytes without channels
	full  []byte // bytes with channels
	desc  string
}

func (h *hand) must(err error) {
	if err != nil {
		h.c.Violate("build", "a tree with all its parts is not built: %v", err)
	}
}

func (h *hand) value(b byte) values.Value {
	v, err := values.NewBuilder().Create().WithName(fmt.Sprintf("v%d", b)).WithNumber(b).Now()
	h.must(err)
	return v
}

type handContainer struct {
	con      grammars.Container
	min, max int // max -1: none
	compose  bool
}

func (h *hand) container(unique bool) handContainer {
	r := h.c.R
	h.n++
	b := byte('a' + h.n%26)
	if !unique {
		b = 'x'
	}
	if r.Intn(4) == 0 {
		sum := 0
		l := []grammars.ComposeElement{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			o := 1 + r.Intn(3)
			if r.Intn(150) == 0 {
				o = 250 + r.Intn(30)
			}
			sum += o
			e, err := grammars.NewComposeElementBuilder().Create().WithValue(h.value(byte('a' + r.Intn(26)))).WithOccurences(uint(o)).Now()
			h.must(err)
			l = append(l, e)
		}
		name := fmt.Sprintf("compose%d", h.n)
		cmp, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(l).Now()
		h.must(err)
		con, err := grammars.NewContainerBuilder().Create().WithCompose(cmp).Now()
		h.must(err)
		return handContainer{con, sum, sum, true}
	}
	min, max := r.Intn(4), -1
	cb := cardinalities.NewBuilder().Create().WithMin(uint(min))
	if coin(r) {
		max = min + r.Intn(3)
		if r.Intn(200) == 0 {
			max = min + 250 + r.Intn(30)
		}
		cb.WithMax(uint(max))
	}
	card, err := cb.Now()
	h.must(err)
	eb := grammars.NewElementBuilder().Create().WithCardinality(card)
	if coin(r) || !unique {
		name := fmt.Sprintf("v%d_%d", b, h.n)
		if !unique {
			name = "same"
		}
		v, err := values.NewBuilder().Create().WithName(name).WithNumber(b).Now()
		h.must(err)
		eb.WithValue(v)
	} else {
		eb.WithRecursive(fmt.Sprintf("r%d", h.n))
	}
	el, err := eb.Now()
	h.must(err)
	con, err := grammars.NewContainerBuilder().Create().WithElement(el).Now()
	h.must(err)
	return handContainer{con, min, max, false}
}

func (h *hand) contents(n, depth int) (trees.Contents, []byte, []byte) {
	r := h.c.R
	l := []trees.Content{}
	plain, full := []byte{}, []byte{}
	if n > 100 {
		depth = 0
		h.c.Count("elements of hundreds of contents", 1)
	}
	for i := 0; i < n; i++ {
		cb := trees.NewContentBuilder().Create()
		var p, f []byte
		if depth > 0 && r.Intn(4) == 0 {
			t := h.build(depth - 1)
			cb.WithTree(t.tree)
			p, f = t.plain, t.full
		} else {
			b := byte(r.Intn(256))
			vb := trees.NewValueBuilder().Create().WithContent(b)
			p, f = []byte{b}, []byte{b}
			if depth > 0 && r.Intn(4) == 0 {
				ts, _, fs := h.trees(1+r.Intn(2), depth-1)
				vb.WithPrefix(ts)
				f = append(append([]byte{}, fs...), b)
			}
			v, err := vb.Now()
			h.must(err)
			cb.WithValue(v)
		}
		ct, err := cb.Now()
		h.must(err)
		for k := 0; k < 2; k++ {
			if got := ct.Bytes(false); !bytes.Equal(got, p) {
				h.c.Violate("content-bytes", "a content gives the bytes %q without channels, want %q", got, p)
			}
			if got := ct.Bytes(true); !bytes.Equal(got, f) {
				h.c.Violate("content-bytes", "a content gives the bytes %q with channels, want %q", got, f)
			}
		}
		l = append(l, ct)
		plain, full = append(plain, p...), append(full, f...)
	}
	cs, err := trees.NewContentsBuilder().Create().WithList(l).Now()
	h.must(err)
	return cs, plain, full
}

func (h *hand) trees(n, depth int) (trees.Trees, []byte, []byte) {
	l := []trees.Tree{}
	plain, full := []byte{}, []byte{}
	for i := 0; i < n; i++ {
		t := h.build(depth)
		l = append(l, t.tree)
		plain, full = append(plain, t.plain...), append(full, t.full...)
	}
	ts, err := trees.NewBuilder().Create().WithList(l).Now()
	h.must(err)
	if got := ts.Bytes(true); !bytes.Equal(got, full) {
		h.c.Violate("trees-bytes", "trees give the bytes %q with channels, want %q", got, full)
	}
	if got := ts.Bytes(false); !bytes.Equal(got, plain) {
		h.c.Violate("trees-bytes", "trees give the bytes %q without channels, want %q", got, plain)
	}
	return ts, plain, full
}

// line builds a line, successful or not.
func (h *hand) line(idx uint, depth int) (ln trees.Line, gl grammars.Line, ok bool, plain, full []byte, desc string) {
	r := h.c.R
	unique := r.Intn(4) > 0
	cons := []handContainer{}
	gcs := []grammars.Container{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		x := h.container(unique)
		cons = append(cons, x)
		gcs = append(gcs, x.con)
	}
	gl, err := grammars.NewLineBuilder().Create().WithContainers(gcs).Now()
	h.must(err)
	reverse := r.Intn(4) == 0
	els := []trees.Element{}
	fit, complete := true, true
	var b strings.Builder
	for i, x := range cons {
		// mostly what is asked for
		n := x.min
		switch r.Intn(8) {
		case 0:
			n--
		case 1:
			n++
		case 2:
			if x.max >= 0 {
				n = x.max + r.Intn(2)
			}
		case 3:
			if unique {
				n = 0
			}
		}
		fmt.Fprintf(&b, " %d in %d..%d", n, x.min, x.max)
		if n <= 0 {
			if x.min > 0 || x.compose {
				if unique {
					complete = false
				} else {
					// a name used twice must not be missing: nothing is said about it
					n = 1
				}
			}
			if n <= 0 {
				continue
			}
		}
		cs, p, f := h.contents(n, depth)
		e, err := trees.NewElementBuilder().Create().WithContents(cs).WithGrammar(x.con).Now()
		h.must(err)
		if int(e.Amount()) != n {
			h.c.Violate("amount", "an element with %d contents has the amount %d", n, e.Amount())
		}
		eok := n >= x.min && (x.max < 0 || n <= x.max)
		// the surplus of a compose is seen by its line
		if got := e.IsSuccessful(); got != eok && !(x.compose && n > x.max) {
			h.c.Violate("element-successful", "an element with %d contents for %d..%d (compose: %v) is successful: %v", n, x.min, x.max, x.compose, got)
		}
		if x.compose && n > x.max && reverse {
			// nothing is said of it in a reversed line
			return h.line(idx, depth)
		}
		if !eok {
			fit = false
		}
		for _, fl := range []bool{true, false} {
			want := p
			if fl {
				want = f
			}
			if got := e.Bytes(fl); !bytes.Equal(got, want) {
				h.c.Violate("element-bytes", "the element %d gives the bytes %q (channels: %v), want %q", i, got, fl, want)
			}
		}
		els = append(els, e)
		plain, full = append(plain, p...), append(full, f...)
	}
	if r.Intn(6) == 0 {
		// an element of no container
		cs, p, f := h.contents(1+r.Intn(2), depth)
		e, err := trees.NewElementBuilder().Create().WithContents(cs).Now()
		h.must(err)
		if !e.IsSuccessful() || e.HasGrammar() {
			h.c.Violate("element-successful", "an element without grammar is not successful")
		}
		els = append(els, e)
		plain, full = append(plain, p...), append(full, f...)
	}
	lb := trees.NewLineBuilder().Create().WithIndex(idx).WithGrammar(gl)
	if reverse {
		lb.IsReverse()
	}
	has := len(els) > 0
	if has {
		es, err := trees.NewElementsBuilder().Create().WithList(els).Now()
		h.must(err)
		lb.WithElements(es)
	}
	ln, err = lb.Now()
	h.must(err)
	ok = has && fit && (reverse || complete)
	desc = fmt.Sprintf("[%d:%s reverse=%v elements=%d]", idx, b.String(), reverse, len(els))
	if got := ln.IsSuccessful(); got != ok {
		h.c.Violate("line-successful", "the line %s is successful: %v", desc, got)
	}
	h.c.Count(fmt.Sprintf("lines built (successful: %v)", ok), 1)
	return
}

func (h *hand) build(depth int) *handTree {
	r := h.c.R
	h.tree++
	lines, glines := []trees.Line{}, []grammars.Line{}
	t := &handTree{}
	first := -1
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		ln, gl, ok, p, f, d := h.line(uint(i), depth)
		t.desc += d
		if ok && first < 0 {
			first = i
			t.plain, t.full = p, f
		}
		lines, glines = append(lines, ln), append(glines, gl)
	}
	gb, err := grammars.NewBlockBuilder().Create().WithLines(glines).Now()
	h.must(err)
	tok, err := grammars.NewTokenBuilder().Create().WithName(fmt.Sprintf("t%d", h.tree)).WithBlock(gb).Now()
	h.must(err)
	bl, err := trees.NewBlockBuilder().Create().WithLines(lines).Now()
	h.must(err)
	if bl.HasSuccessful() != (first >= 0) || (first >= 0 && bl.Successful() != lines[first]) || (first < 0 && bl.Successful() != nil) {
		h.c.Violate("block-successful", "the successful line of %s is not the line %d", t.desc, first)
	}
	tb := trees.NewTreeBuilder().Create().WithGrammar(tok).WithBlock(bl)
	if depth > 0 && r.Intn(4) == 0 {
		ts, _, fs := h.trees(1+r.Intn(2), depth-1)
		tb.WithSuffix(ts)
		if first >= 0 {
			t.full = append(append([]byte{}, t.full...), fs...)
		}
	}
	if r.Intn(4) == 0 {
		tb.WithRemaining([]byte("rest"))
	}
	t.tree, err = tb.Now()
	h.must(err)
	if got := t.tree.Bytes(false); !bytes.Equal(got, t.plain) {
		h.c.Violate("tree-bytes", "the tree %s gives the bytes %q without channels, want %q", t.desc, got, t.plain)
	}
	if got := t.tree.Bytes(true); !bytes.Equal(got, t.full) {
		h.c.Violate("tree-bytes", "the tree %s gives the bytes %q with channels, want %q", t.desc, got, t.full)
	}
	if first < 0 {
		tr, e, err := t.tree.Fetch("absent", 0)
		if err == nil || tr != nil || e != nil {
			h.c.Violate("fetch", "fetching from a tree without successful line gives %v, %v and the error %v", tr, e, err)
		}
	}
	h.c.Count(fmt.Sprintf("trees built (successful: %v)", first >= 0), 1)
	h.c.Distinct(t.desc)
	h.c.Sample("%s: %q, %q with its channels", t.desc, t.plain, t.full)
	return t
}

func init() {
	register(&Prop{ID: "A13", Rule: "Random trees built from parts up to four levels deep, with amounts around what the grammar asks for, prefixes, suffixes, several lines, reversed lines and elements without grammar. A distinct case is a distinct tree.",
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 15000
			}
			return 600
		},
		Run: func(c *Ctx) {
			for i := 0; i < 4; i++ {
				t := (&hand{c: c}).build(i)
				taken := 0
				scribble(t.tree, &taken)
				c.Count("bytes given by trees and overwritten", taken)
				if a, b := t.tree.Bytes(false), t.tree.Bytes(true); !bytes.Equal(a, t.plain) || !bytes.Equal(b, t.full) {
					c.Violate("own-bytes", "overwriting the bytes the tree %s gave changed them to %q and %q, want %q and %q", t.desc, a, b, t.plain, t.full)
				}
			}
		}})
}
