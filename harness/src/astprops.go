//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	applications "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

const refBudget = 20000

// execute runs the real parser; a panic is a violation.
func execute(c *Ctx, app applications.Application, g *gGram, data []byte) trees.Tree {
	var t trees.Tree
	var err error
	gr := g.build()
	if p, msg := Protect(func() { t, err = app.Execute(gr, data) }); p {
		c.Violate("panic:"+panicSite(msg), "parsing panicked: %s\ngrammar: %s\ninput: %q", msg, g, data)
	}
	if err == nil && t == nil {
		c.Violate("no-tree", "parsing gave no error and no tree\ngrammar: %s\ninput: %q", g, data)
	}
	if err != nil {
		return nil
	}
	return t
}

func accepted(t trees.Tree) bool { return t != nil && t.Block().HasSuccessful() }

func said(ok bool) string {
	if ok {
		return "accepted"
	}
	return "refused"
}

// compareParse runs one input and compares the outcome with the reference.
func compareParse(c *Ctx, app applications.Application, g *gGram, data []byte) (trees.Tree, *rTree, bool) {
	want, steps, known := refParse(g, data, refBudget)
	if !known {
		c.Count("inputs beyond the reference's budget (not judged)", 1)
		return nil, nil, false
	}
	c.Count("reference matching steps", steps)
	given := append([]byte{}, data...)
	t := execute(c, app, g, given)
	if !bytes.Equal(given, data) {
		c.Violate("input-changed", "parsing changed the input from %q to %q\ngrammar: %s", data, given, g)
	}
	c.Count("inputs parsed", 1)
	compareTree(c, g, data, t, want)
	if want == nil {
		return nil, nil, true
	}
	return t, want, true
}

func compareTree(c *Ctx, g *gGram, data []byte, t trees.Tree, want *rTree) {
	if (want != nil) != accepted(t) {
		c.Violate("verdict", "the input %q is %s, the grammar says %s\ngrammar: %s\nparsed: %s\nreference: %s", data, said(accepted(t)), said(want != nil), g, realString(t), want)
	}
	if want == nil {
		c.Count("inputs refused", 1)
		return
	}
	c.Count("inputs accepted", 1)
	if a, b := realString(t), want.String(); a != b {
		c.Violate("tree", "wrong tree for %q: %s\ngrammar: %s\nparsed:    %s\nreference: %s", data, firstDiff(a, b), g, a, b)
	}
	if rem := data[want.end:]; !bytes.Equal(t.Remaining(), rem) {
		c.Violate("remaining", "wrong remaining data %q for %q, want %q\ngrammar: %s\ntree: %s", t.Remaining(), data, rem, g, want)
	}
	c.Distinct(want.String())
}

func parseCase(f func(r *rand.Rand) gFeat, grams, inputs int) func(c *Ctx) {
	return func(c *Ctx) {
		app := applications.NewApplication()
		for k := 0; k < grams; k++ {
			gen := anyGen(c.R, f(c.R))
			g := gen.grammar()
			c.Count("grammars", 1)
			for i := 0; i < inputs; i++ {
				data := gen.input(g)
				if t, _, _ := compareParse(c, app, g, data); t != nil && k == 0 {
					c.Sample("grammar %s; input %q; tree %s; remaining %q", g, data, cut(realString(t), 300), t.Remaining())
				}
			}
		}
	}
}

func coin(r *rand.Rand) bool { return r.Intn(2) == 0 }

func allFeatures(r *rand.Rand) gFeat {
	return gFeat{rec: coin(r), chans: coin(r), conds: coin(r), prevCond: coin(r), chanEvr: coin(r), evr: coin(r), ext: coin(r), comp: coin(r), dup: coin(r), esc: coin(r)}
}

// ------------------------------------------------------------------- A01

// a01 adds long and deep inputs to the random grammars.
func a01(c *Ctx) {
	if c.Index%20 != 0 {
		parseCase(func(r *rand.Rand) gFeat {
			return gFeat{rec: coin(r), dup: coin(r), bigMin: coin(r), huge: r.Intn(4) == 0, comp: r.Intn(3) == 0, undefRec: r.Intn(3) == 0, evr: r.Intn(6) == 0}
		}, 8, 12)(c)
		return
	}
	app := applications.NewApplication()
	val := func(b byte) *gElem { return &gElem{kind: gVal, name: vname(b), num: b, min: 1, max: 1} }
	n := 1 + c.R.Intn(300)
	var g *gGram
	var data []byte
	switch c.Index / 20 % 5 {
	case 0: // nesting
		t := &gTok{name: "nest"}
		t.lines = [][]*gElem{{val('('), {kind: gRec, name: "nest", min: 0, max: -1}, val(')')}, {val('x')}}
		g = &gGram{root: t}
		data = []byte(strings.Repeat("(x", n) + strings.Repeat(")", n))
		if coin(c.R) { // far apart
			far := []int{127, 255, 256, 511, 1023}[c.R.Intn(5)]
			n = 1 + n%8
			data = []byte(strings.Repeat("("+strings.Repeat("x", far), n) + strings.Repeat(")", n))
		}
	case 1: // a list by right recursion
		t := &gTok{name: "list"}
		t.lines = [][]*gElem{{val('a'), val(','), {kind: gRec, name: "list", min: 1, max: 1}}, {val('a')}}
		g = &gGram{root: t}
		data = []byte(strings.Repeat("a,", n) + "a")
	case 2: // a list by cardinality, of two alternatives
		it := &gTok{name: "item", lines: [][]*gElem{{val('a')}, {val('b'), val('b')}}}
		g = &gGram{root: &gTok{name: "list", lines: [][]*gElem{{{kind: gTokn, name: "item", tok: it, min: uint(n), max: 2 * n}}}}}
		data = []byte(strings.Repeat("abb", n))
		if coin(c.R) {
			data = data[:n*3/2]
		}
	case 3: // recursion of an outer token through inner ones
		in := &gTok{name: "in"}
		in.lines = [][]*gElem{{val('['), {kind: gRec, name: "out", min: 1, max: 2}, val(']')}, {val('y')}}
		g = &gGram{root: &gTok{name: "out", lines: [][]*gElem{{{kind: gTokn, name: "in", tok: in, min: 1, max: 1}, val(';')}, {val('z')}}}}
		data = []byte(strings.Repeat("[zy;", 1) + strings.Repeat("]", 1) + ";")
		for i := 0; i < n/4; i++ {
			data = append(append([]byte("["), data...), "];"...)
		}
	}
	if c.R.Intn(3) == 0 {
		data = data[:c.R.Intn(len(data)+1)]
	}
	if c.Index/20%5 == 4 { // thousands of occurrences, of bytes and of tokens
		n = 1000 + c.R.Intn(12000)
		if c.Index == 80 || c.R.Intn(3) == 0 {
			n = 65536 + c.R.Intn(3000)
		}
		it := &gTok{name: "item", lines: [][]*gElem{{val('a')}, {val('b'), val('b')}}}
		max := -1
		if coin(c.R) {
			max = n - c.R.Intn(3)
		}
		some := val('c')
		some.min, some.max = uint(c.R.Intn(3))*uint(n)/2, max
		g = &gGram{root: &gTok{name: "list", lines: [][]*gElem{{some, {kind: gTokn, name: "item", tok: it, min: uint(c.R.Intn(2) * n), max: max}, val('.')}, {some}}}}
		data = append(bytes.Repeat([]byte("c"), n), bytes.Repeat([]byte("abb"), n/2)...)
		if coin(c.R) {
			data = append(data, 'a')
		}
		data = append(data, '.')
	}
	want, steps, known := refParse(g, data, 20000000)
	if !known {
		c.Count("inputs beyond the reference's budget (not judged)", 1)
		return
	}
	c.Count("reference matching steps", steps)
	c.Count("long or deep inputs", 1)
	compareTree(c, g, data, execute(c, app, g, data), want)
}

// ------------------------------------------------------------------- A02

// spell walks a tree and lists every byte it holds, channels included, and
// checks the byte accessors of every node on the way.
func spell(c *Ctx, t trees.Tree, data []byte, at int, what string) int {
	if !t.Block().HasSuccessful() {
		c.Violate("unsuccessful", "an accepted tree of %q holds the unsuccessful tree %s\n%s", data, t.Grammar().Name(), what)
	}
	start := at
	plain := []byte{}
	for _, e := range t.Block().Successful().Elements().List() {
		es := at
		eplain := []byte{}
		for _, ct := range e.Contents().List() {
			cs := at
			cplain := []byte{}
			if ct.IsTree() {
				at = spell(c, ct.Tree(), data, at, what)
				cplain = ct.Tree().Bytes(false)
			} else {
				if ct.Value().HasPrefix() {
					for _, p := range ct.Value().Prefix().List() {
						at = spell(c, p, data, at, what)
					}
				}
				if at >= len(data) || data[at] != ct.Value().Content() {
					c.Violate("byte", "the tree of %q holds %q at offset %d\n%s", data, string(ct.Value().Content()), at, what)
				}
				at++
				cplain = []byte{ct.Value().Content()}
			}
			c.Count("contents whose bytes were checked", 1)
			sameBytes(c, "content", data, ct.Bytes(true), data[cs:at], ct.Bytes(false), cplain, what)
			eplain = append(eplain, cplain...)
		}
		sameBytes(c, "element", data, e.Bytes(true), data[es:at], e.Bytes(false), eplain, what)
		if e.Amount() != uint(len(e.Contents().List())) {
			c.Violate("amount", "an element of the tree of %q has amount %d for %d contents\n%s", data, e.Amount(), len(e.Contents().List()), what)
		}
		plain = append(plain, eplain...)
	}
	if t.HasSuffix() {
		ss := at
		for _, s := range t.Suffix().List() {
			at = spell(c, s, data, at, what)
		}
		if !bytes.Equal(t.Suffix().Bytes(true), data[ss:at]) {
			c.Violate("bytes-suffix", "the suffix of a tree of %q gives bytes %q, holds %q\n%s", data, t.Suffix().Bytes(true), data[ss:at], what)
		}
	}
	sameBytes(c, "tree", data, t.Bytes(true), data[start:at], t.Bytes(false), plain, what)
	if !bytes.Equal(t.Remaining(), data[at:]) {
		c.Violate("remaining", "the tree %s of %q ends at offset %d, but its remaining data is %q\n%s", t.Grammar().Name(), data, at, t.Remaining(), what)
	}
	if t.HasRemaining() != (at < len(data)) {
		c.Violate("has-remaining", "the tree %s of %q ends at offset %d of %d, HasRemaining is %v\n%s", t.Grammar().Name(), data, at, len(data), t.HasRemaining(), what)
	}
	return at
}

// scribble overwrites, and appends to, the bytes every node gives.
func scribble(t trees.Tree, n *int) {
	over := func(b []byte) {
		*n += len(b)
		for i := range b {
			b[i] ^= 0x55
		}
		_ = append(b, "more"...)
	}
	for _, on := range []bool{true, false} {
		over(t.Bytes(on))
		if t.HasSuffix() {
			over(t.Suffix().Bytes(on))
		}
	}
	if !t.Block().HasSuccessful() {
		return
	}
	for _, e := range t.Block().Successful().Elements().List() {
		for _, on := range []bool{true, false} {
			over(e.Bytes(on))
		}
		for _, ct := range e.Contents().List() {
			for _, on := range []bool{true, false} {
				over(ct.Bytes(on))
			}
			if ct.IsTree() {
				scribble(ct.Tree(), n)
				continue
			}
			if ct.Value().HasPrefix() {
				over(ct.Value().Prefix().Bytes(true))
			}
		}
	}
}

func sameBytes(c *Ctx, what string, data, all, wantAll, plain, wantPlain []byte, where string) {
	if !bytes.Equal(all, wantAll) {
		c.Violate("bytes-"+what, "a %s of the tree of %q gives bytes %q with channels, it holds %q\n%s", what, data, all, wantAll, where)
	}
	if !bytes.Equal(plain, wantPlain) {
		c.Violate("plain-"+what, "a %s of the tree of %q gives bytes %q without channels, it holds %q\n%s", what, data, plain, wantPlain, where)
	}
}

func a02(c *Ctx) {
	app := applications.NewApplication()
	for k := 0; k < 8; k++ {
		f := allFeatures(c.R)
		f.esc = false
		f.leftRec = f.rec && coin(c.R)
		f.clash = coin(c.R)
		gen := anyGen(c.R, f)
		g := gen.grammar()
		c.Count("grammars", 1)
		var wide []byte
		if c.R.Intn(80) == 0 {
			g, wide = wideGram(c.R)
			c.Count("inputs of wide lines or long elements", 1)
		}
		for i := 0; i < 12; i++ {
			data := gen.input(g)
			if i == 0 && wide != nil {
				data = wide
			}
			if _, _, known := refParse(g, data, refBudget); !known {
				c.Count("inputs beyond the reference's budget (not judged)", 1)
				continue
			}
			t := execute(c, app, g, append([]byte{}, data...))
			c.Count("inputs parsed", 1)
			if !accepted(t) {
				continue
			}
			c.Count("inputs accepted", 1)
			end := spell(c, t, data, 0, "grammar: "+g.String()+"\ntree: "+realString(t))
			if got := append(t.Bytes(true), t.Remaining()...); !bytes.Equal(got, data) {
				c.Violate("lost", "the tree and its remaining data give %q for the input %q\ngrammar: %s", got, data, g)
			}
			// the bytes it gives are the caller's
			taken := 0
			scribble(t, &taken)
			c.Count("bytes given by trees and overwritten", taken)
			spell(c, t, data, 0, "grammar: "+g.String()+"\nafter the bytes it gave were overwritten")
			c.Distinct(fmt.Sprintf("%d/%s", end, realString(t)))
			if k == 0 {
				c.Sample("grammar %s; input %q; consumed %d; tree %s", g, data, end, cut(realString(t), 300))
			}
		}
	}
}

// ------------------------------------------------------------------- A03

func a03(c *Ctx) {
	app := applications.NewApplication()
	if c.Index%200 == 199 {
		deepData(c, app)
		return
	}
	for k := 0; k < 8; k++ {
		f := allFeatures(c.R)
		f.rec, f.leftRec, f.undefRec, f.bigMin = true, true, true, true
		f.clash, f.huge = coin(c.R), coin(c.R)
		if coin(c.R) {
			f = gFeat{rec: true, leftRec: true, undefRec: true, dup: true, huge: coin(c.R)}
		}
		gen := anyGen(c.R, f)
		g := gen.grammar()
		c.Count("grammars", 1)
		for i := 0; i < 12; i++ {
			data := gen.input(g)
			if i == 0 {
				data = nil
			}
			start := time.Now()
			_, want, known := compareParse(c, app, g, data)
			if !known {
				continue
			}
			if d := time.Since(start); d > 20*time.Second {
				c.Violate("slow", "parsing %q took %s\ngrammar: %s", data, d, g)
			}
			if want == nil {
				c.Distinct("refused/" + g.String() + string(data))
			}
			if k == 0 {
				c.Sample("grammar %s; input %q; result %s", g, data, cut(want.String(), 200))
			}
		}
	}
}

// deepData nests hundreds of thousands of levels: the result is the tree, or an error, but the process survives.
func deepData(c *Ctx, app applications.Application) {
	val := func(b byte) *gElem { return &gElem{kind: gVal, name: vname(b), num: b, min: 1, max: 1} }
	tok := func(t *gTok) *gElem { return &gElem{kind: gTokn, name: t.name, tok: t, min: 1, max: 1} }
	// each external, or level, nests by itself
	nested := func(name string, b byte, inner *gElem) *gGram {
		t := &gTok{name: name}
		t.lines = [][]*gElem{{val(b), {kind: gRec, name: name, min: 1, max: 1}}}
		if inner != nil {
			t.lines = append(t.lines, []*gElem{inner})
		} else {
			t.lines = append(t.lines, []*gElem{val('.')})
		}
		return &gGram{root: t}
	}
	n := 150000 + c.R.Intn(400000)
	var g *gGram
	var data []byte
	shape := c.Index / 200 % 5
	switch shape {
	case 0: // a list by right recursion
		t := &gTok{name: "list"}
		t.lines = [][]*gElem{{val('a'), {kind: gRec, name: "list", min: 0, max: 1}}}
		g, data = &gGram{root: t}, bytes.Repeat([]byte("a"), n)
	case 1: // through three tokens
		in, mid, out := &gTok{name: "in"}, &gTok{name: "mid"}, &gTok{name: "out"}
		in.lines = [][]*gElem{{val('('), {kind: gRec, name: "out", min: 1, max: 1}}, {val('.')}}
		mid.lines = [][]*gElem{{tok(in)}}
		out.lines = [][]*gElem{{tok(mid)}}
		g, data = &gGram{root: out}, bytes.Repeat([]byte("("), n)
	case 2: // externals that nest one after the other
		x := nested("a", 'a', &gElem{kind: gExt, name: "xb", ext: nested("b", 'b', &gElem{kind: gExt, name: "xc", ext: nested("c", 'c', nil), min: 1, max: 1}), min: 1, max: 1})
		g = x
		part := 60000 + c.R.Intn(35000)
		for _, b := range "abc" {
			data = append(data, bytes.Repeat([]byte{byte(b)}, part)...)
		}
		data = append(data, '.')
	case 3: // a channel that nests
		t := &gTok{name: "comment"}
		t.lines = [][]*gElem{{val('('), {kind: gRec, name: "comment", min: 0, max: 1}, val(')')}}
		g = &gGram{root: &gTok{name: "root", lines: [][]*gElem{{val('a')}}}, chans: []*gChan{{tok: t}}}
		data = append(bytes.Repeat([]byte("("), n), 'a')
	case 4: // below what is too deep it matches
		n = 2000 + c.R.Intn(30000)
		t := &gTok{name: "list"}
		t.lines = [][]*gElem{{val('a'), {kind: gRec, name: "list", min: 0, max: 1}}}
		g, data = &gGram{root: t}, bytes.Repeat([]byte("a"), n)
	}
	if c.Index/1000%2 == 1 {
		deepSuite(c, app, g, data, shape == 4)
		return
	}
	t := execute(c, app, g, data)
	c.Count("inputs nested deep", 1)
	c.Distinct(fmt.Sprintf("deep %d of %d: %v", shape, n, t != nil))
	c.Sample("%d bytes nested (shape %d): a tree: %v", len(data), shape, t != nil)
	if shape == 4 && (t == nil || t.HasRemaining()) {
		c.Violate("deep", "%d levels are refused or not taken in full", n)
	}
	levels := 0
	for at := t; at != nil; {
		next := trees.Tree(nil)
		if at.Block().HasSuccessful() {
			for _, e := range at.Block().Successful().Elements().List() {
				for _, x := range e.Contents().List() {
					if x.IsTree() {
						next = x.Tree()
					}
				}
			}
		}
		levels++
		at = next
	}
	if shape == 4 && levels != n {
		c.Violate("deep", "%d levels give a tree of %d levels", n, levels)
	}
	c.Count("levels of the trees of deep inputs", levels)
}

// deepSuite has the same data as the content of a suite.
func deepSuite(c *Ctx, app applications.Application, g *gGram, data []byte, matches bool) {
	content := []gOcc{}
	for i := 0; i < len(data); {
		n := 1
		for i+n < len(data) && data[i+n] == data[i] {
			n++
		}
		content = append(content, gOcc{vname(data[i]), data[i], uint(n)})
		i += n
	}
	on := g.root
	if len(g.chans) > 0 && coin(c.R) {
		on = g.chans[0].tok
	}
	on.suites = []gSuite{{true, content}, {false, content}}
	gr := g.build()
	c.Trace("suites of %d bytes nested deep", len(data))
	cov, err := app.Coverages(gr)
	c.Count("suites nested deep", 2)
	if !matches {
		c.Distinct(fmt.Sprintf("suite %s %v %v", on.name, err != nil, cov != nil && cov.ContainsError()))
		return
	}
	if err != nil || cov == nil || cov.ContainsError() {
		c.Violate("deep-suite", "a suite of %d levels ends with an error (%v)", len(data), err)
	}
	for _, cv := range cov.List() {
		for _, ex := range cv.Executions().List() {
			if !ex.Result().IsTree() || !accepted(ex.Result().Tree()) || ex.Result().Tree().HasRemaining() {
				c.Violate("deep-suite", "a suite of %d levels does not match in full", len(data))
			}
		}
	}
}

// ------------------------------------------------------------------- A05

// a05 has the random grammars and a quoted string with its own oracle.
func a05(c *Ctx) {
	if c.Index%4 != 0 {
		parseCase(func(r *rand.Rand) gFeat {
			f := gFeat{evr: true, esc: r.Intn(3) != 0, rec: r.Intn(4) == 0, alpha: []string{"abc", "ab"}[r.Intn(2)]}
			if r.Intn(4) == 0 { // exceptions and escapes with externals in them
				f.ext, f.chans, f.conds, f.prevCond = true, coin(r), true, true
			}
			return f
		}, 8, 12)(c)
		return
	}
	app := applications.NewApplication()
	val := func(b byte) *gElem { return &gElem{kind: gVal, name: vname(b), num: b, min: 1, max: 1} }
	for k := 0; k < 40; k++ {
		// a string between quotes, with escapes: the bytes between come back unescaped
		quote := &gTok{name: "quote"}
		enders := "\""
		quote.lines = [][]*gElem{{val('"')}}
		if coin(c.R) {
			in := &gTok{name: "single", lines: [][]*gElem{{val('\'')}}}
			enders += "'"
			quote.lines = append(quote.lines, []*gElem{{kind: gTokn, name: "single", tok: in, min: 1, max: 1}})
		}
		esc := &gTok{name: "escape", lines: [][]*gElem{{val('\\')}}}
		ev := &gElem{kind: gEvr, name: "text", exc: quote, esc: esc, min: 0, max: 1}
		g := &gGram{root: &gTok{name: "string", lines: [][]*gElem{{val('<'), ev, {kind: gTokn, name: "quote", tok: quote, min: 1, max: 1}}}}}
		raw, text := []byte("<"), []byte{}
		length := c.R.Intn(12)
		if k == 1 && c.Index%40 == 4 {
			length = 3000 + c.R.Intn(20000)
			c.Count("quoted strings of thousands of bytes", 1)
		}
		for n := length; n > 0; n-- {
			switch c.R.Intn(4) {
			case 0:
				b := enders[c.R.Intn(len(enders))]
				raw = append(raw, '\\', b)
				text = append(text, b)
			case 1:
				b := "ab<\n"[c.R.Intn(4)]
				raw = append(raw, '\\', b) // nothing to escape: both stay
				text = append(text, '\\', b)
			default:
				b := byte(c.R.Intn(256))
				if strings.IndexByte(enders+"\\", b) >= 0 {
					b = 'z'
				}
				raw = append(raw, b)
				text = append(text, b)
			}
		}
		end := enders[c.R.Intn(len(enders))]
		raw = append(raw, end)
		rest := []byte("rest\"")[:c.R.Intn(6)]
		data := append(append([]byte{}, raw...), rest...)
		t := execute(c, app, g, data)
		c.Count("quoted strings parsed", 1)
		if !accepted(t) {
			c.Violate("string-refused", "the quoted string %q is refused\ngrammar: %s", data, g)
		}
		got := t.Bytes(true)
		want := append(append([]byte("<"), text...), end)
		if !bytes.Equal(got, want) || !bytes.Equal(t.Remaining(), rest) {
			c.Violate("string", "the quoted string %q reads as %q remaining %q, want %q remaining %q\ngrammar: %s", data, got, t.Remaining(), want, rest, g)
		}
		c.Distinct(fmt.Sprintf("%q", data))
		if k == 0 {
			c.Sample("%q reads as %q, remaining %q", data, got, t.Remaining())
		}
	}
}

// ------------------------------------------------------------------- A07

func a07(c *Ctx) {
	if c.Index%3 != 0 {
		parseCase(func(r *rand.Rand) gFeat {
			return gFeat{comp: true, chans: r.Intn(3) == 0, conds: coin(r), prevCond: coin(r), dup: coin(r)}
		}, 8, 12)(c)
		return
	}
	app := applications.NewApplication()
	for k := 0; k < 30; k++ {
		l := []*gElem{}
		want := []byte{}
		for n := 1 + c.R.Intn(4); n > 0; n-- {
			e := &gElem{kind: gComp, name: fmt.Sprintf("comp%d", n)}
			for m := 1 + c.R.Intn(5); m > 0; m-- {
				b := byte(c.R.Intn(256))
				if coin(c.R) {
					b = "ab"[c.R.Intn(2)]
				}
				occ := uint(1 + c.R.Intn(3))
				if c.R.Intn(10) == 0 {
					occ = uint(1 + c.R.Intn(300))
				}
				if k == 0 && n == 1 && m == 1 && (c.Index == 0 || c.Index%300 == 3) {
					occ = uint(65534 + c.R.Intn(4000))
				}
				e.compose = append(e.compose, gOcc{vname(b), b, occ})
				for i := uint(0); i < occ; i++ {
					want = append(want, b)
				}
			}
			l = append(l, e)
		}
		t := &gTok{name: "composed", lines: [][]*gElem{l}}
		got, err := app.Compose(t.build())
		if err != nil || !bytes.Equal(got, want) {
			c.Violate("compose", "composing %s gives %q (error %v), want %q", t, got, err, want)
		}
		c.Count("tokens composed", 1)
		c.Distinct(t.String())
		// and the composed bytes are what the token matches
		rest := genBytes(c.R, 3)
		g := &gGram{root: t}
		tree := execute(c, app, g, append(append([]byte{}, got...), rest...))
		if !accepted(tree) || !bytes.Equal(tree.Bytes(true), got) || !bytes.Equal(tree.Remaining(), rest) {
			c.Violate("compose-parse", "the token does not match what it composes\ntoken: %s\ncomposed: %q\ntree: %s", t, got, realString(tree))
		}
		cutAt := c.R.Intn(len(got))
		if tree := execute(c, app, g, got[:cutAt]); accepted(tree) {
			c.Violate("compose-short", "the token matches only %d of the %d bytes it composes\ntoken: %s", cutAt, len(got), t)
		}
		wrong := append([]byte{}, got...)
		wrong[cutAt] ^= byte(1 + c.R.Intn(255))
		if tree := execute(c, app, g, wrong); accepted(tree) {
			c.Violate("compose-wrong", "the token matches %q although it composes %q\ntoken: %s", wrong, got, t)
		}
		// tokens that are not made of composes only, or of many lines, compose nothing
		bad := &gTok{name: "bad", lines: [][]*gElem{append(append([]*gElem{}, l...), &gElem{kind: gVal, name: "v", num: 'v', min: 1, max: 1})}}
		if coin(c.R) {
			bad = &gTok{name: "bad", lines: [][]*gElem{l, l}}
		}
		if out, err := app.Compose(bad.build()); err == nil {
			c.Violate("compose-bad", "composing a token that is not a single series of composes gives %q: %s", out, bad)
		}
		if k == 0 {
			c.Sample("%s composes %q", t, cut(string(got), 80))
		}
	}
}

// ------------------------------------------------------------------- A08

type suiteRun struct {
	tok   *gTok
	chans []*gChan
}

// suiteOrder lists the tokens reachable from a grammar, once per name, with
// the channels they are executed with; every external grammar starts afresh.
func suiteRuns(g *gGram, out *[]suiteRun) {
	skip := map[string]bool{}
	var walk func(t *gTok, ch []*gChan)
	walk = func(t *gTok, ch []*gChan) {
		if skip[t.name] {
			return
		}
		skip[t.name] = true
		for _, l := range t.lines {
			for _, e := range l {
				switch e.kind {
				case gExt:
					suiteRuns(e.ext, out)
				case gTokn:
					walk(e.tok, ch)
				case gEvr:
					walk(e.exc, ch)
					if e.esc != nil {
						walk(e.esc, ch)
					}
				}
			}
		}
		*out = append(*out, suiteRun{t, ch})
	}
	walk(g.root, g.chans)
	for _, c := range g.chans {
		walk(c.tok, nil)
	}
}

func expand(o []gOcc) []byte {
	out := []byte{}
	for _, x := range o {
		for i := uint(0); i < x.n; i++ {
			out = append(out, x.num)
		}
	}
	return out
}

// addSuites gives tokens of the grammar suites, right and wrong ones alike.
func addSuites(gen *gGen, g *gGram, chance int) {
	r := gen.r
	var walk func(g *gGram)
	add := func(t *gTok, ch []*gChan) {
		if r.Intn(100) >= chance || len(t.suites) > 0 {
			return
		}
		n := 1 + r.Intn(3)
		if r.Intn(12) == 0 {
			n = 4 + r.Intn(20)
		}
		for ; n > 0; n-- {
			data := gen.input(&gGram{root: t, chans: ch})
			if len(data) == 0 {
				data = []byte{gen.byte()}
			}
			s := gSuite{valid: coin(r)}
			for _, b := range data {
				if k := len(s.content); k > 0 && s.content[k-1].num == b && r.Intn(8) > 0 {
					s.content[k-1].n++
					continue
				}
				s.content = append(s.content, gOcc{vname(b), b, 1})
			}
			t.suites = append(t.suites, s)
			if r.Intn(10) == 0 { // once more
				t.suites = append(t.suites, s)
			}
		}
	}
	walk = func(g *gGram) {
		seen := map[*gTok]bool{}
		each := func(t *gTok, ch []*gChan) {
			t.each(seen, func(t *gTok) {
				add(t, ch)
				for _, l := range t.lines {
					for _, e := range l {
						if e.kind == gExt {
							walk(e.ext)
						}
					}
				}
			})
		}
		each(g.root, g.chans)
		for _, c := range g.chans {
			each(c.tok, nil)
		}
	}
	walk(g)
}

type coverKey struct {
	tok  string
	line uint
	el   uint
}

func covers(t *rTree, name string, out map[coverKey]string) {
	if t.raw {
		return
	}
	for _, e := range t.elems {
		if !e.comp {
			out[coverKey{name, uint(t.line), uint(e.cont)}] = e.name
		}
		for _, it := range e.items {
			if it.tree != nil {
				covers(it.tree, e.name, out)
			}
		}
	}
}

func flat(m map[string]map[uint]map[uint]string) map[coverKey]string {
	out := map[coverKey]string{}
	for t, ls := range m {
		for l, es := range ls {
			for e, n := range es {
				out[coverKey{t, l, e}] = n
			}
		}
	}
	return out
}

func keysDiff(got, want map[coverKey]string) string {
	var d []string
	for k, v := range want {
		if w, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("missing %v=%s", k, v))
		} else if w != v {
			d = append(d, fmt.Sprintf("%v is %s, want %s", k, w, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected %v=%s", k, v))
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

func coverageCase(check func(c *Ctx, app applications.Application, g *gGram, runs []suiteRun)) func(c *Ctx) {
	return func(c *Ctx) {
		app := applications.NewApplication()
		for k := 0; k < 12; k++ {
			f := allFeatures(c.R)
			gen := anyGen(c.R, f)
			g := gen.grammar()
			chance := []int{0, 20, 60, 100}[c.R.Intn(4)]
			addSuites(gen, g, chance)
			runs := []suiteRun{}
			suiteRuns(g, &runs)
			ok := true
			for _, r := range runs {
				for _, s := range r.tok.suites {
					if _, _, known := refParse(&gGram{root: r.tok, chans: r.chans}, expand(s.content), refBudget); !known {
						ok = false
					}
				}
			}
			if !ok {
				c.Count("grammars beyond the reference's budget (not judged)", 1)
				continue
			}
			c.Count("grammars", 1)
			check(c, app, g, runs)
		}
	}
}

// clashExternals names externals after a token around them, or after another external
func clashExternals(r *rand.Rand, g *gGram) int {
	names, exts := []string{}, []*gElem{}
	lines := map[*gElem][]*gElem{}
	see := func(t *gTok) {
		names = append(names, t.name)
		for _, l := range t.lines {
			for _, e := range l {
				if e.kind == gExt {
					exts = append(exts, e)
					lines[e] = l
				}
			}
		}
	}
	seen := map[*gTok]bool{}
	g.root.each(seen, see)
	for _, c := range g.chans {
		c.tok.each(seen, see)
	}
	n := 0
	for _, e := range exts {
		n += clashExternals(r, e.ext)
		names = append(names, e.name)
	}
	for _, e := range exts {
		name, free := names[r.Intn(len(names))], true
		for _, x := range lines[e] {
			free = free && x.name != name
		}
		if free {
			e.name = name
			n++
		}
	}
	return n
}

func a08(c *Ctx, app applications.Application, g *gGram, runs []suiteRun) {
	if c.R.Intn(3) == 0 {
		c.Count("externals named like something else of the grammar", clashExternals(c.R, g))
	}
	gr := g.build()
	cov, err := app.Coverages(gr)
	if err != nil {
		c.Violate("coverages-error", "running the suites gives the error: %v\ngrammar: %s", err, g)
	}
	type line struct{ tok, data, outcome string }
	count := map[string]int{}
	render := func(name string, data []byte, valid bool, t string, rem []byte) string {
		return fmt.Sprintf("%s on %q expecting %v: %s remaining %q", name, data, valid, t, rem)
	}
	total, anyErr := 0, false
	for _, r := range runs {
		for _, s := range r.tok.suites {
			data := expand(s.content)
			want, _, _ := refParse(&gGram{root: r.tok, chans: r.chans}, data, refBudget)
			rem := []byte{}
			if want != nil {
				rem = data[want.end:]
			}
			count[render(r.tok.name, data, s.valid, want.String(), rem)]++
			total++
		}
	}
	if cov == nil {
		if total > 0 {
			c.Violate("no-coverage", "a grammar with %d suites gives no coverage\ngrammar: %s", total, g)
		}
		c.Count("grammars without suites", 1)
		return
	}
	for _, cv := range cov.List() {
		for _, ex := range cv.Executions().List() {
			data := []byte{}
			for _, o := range ex.Expectation().Content().List() {
				for i := uint(0); i < o.Occurences(); i++ {
					data = append(data, o.Value().Number())
				}
			}
			res := ex.Result()
			if res.IsTree() == res.IsError() {
				c.Violate("result", "the execution of a suite of %s is tree: %v, error: %v", cv.Token().Name(), res.IsTree(), res.IsError())
			}
			anyErr = anyErr || res.IsError()
			s, rem := "no match", []byte{}
			if res.IsTree() && accepted(res.Tree()) {
				s = realString(res.Tree())
				rem = res.Tree().Remaining()
			}
			key := render(cv.Token().Name(), data, ex.Expectation().IsValid(), s, rem)
			c.Count("suite executions checked", 1)
			if s == "no match" {
				c.Count("suite executions that do not match", 1)
			}
			c.Distinct(key)
			if count[key] == 0 {
				exp := []string{}
				for k := range count {
					if strings.HasPrefix(k, cv.Token().Name()+" ") {
						exp = append(exp, k)
					}
				}
				c.Violate("suite", "unexpected suite execution: %s\nexpected for this token: %s\ngrammar: %s", key, strings.Join(exp, "\n"), g)
			}
			count[key]--
		}
	}
	for k, n := range count {
		if n > 0 {
			c.Violate("suite-missing", "a suite was not executed: %s\ngrammar: %s", k, g)
		}
	}
	if cov.ContainsError() != anyErr {
		c.Violate("contains-error", "ContainsError is %v, %v executions have an error\ngrammar: %s", cov.ContainsError(), anyErr, g)
	}
	c.Sample("grammar %s: %d suites executed as expected", g, total)
}

// ------------------------------------------------------------------- A09

// shareName gives two tokens of the grammar the same name, where that changes no parsing; it tells the name
func shareName(r *rand.Rand, g *gGram) string {
	list := []*gTok{}
	g.root.each(map[*gTok]bool{}, func(t *gTok) {
		plain := true
		t.each(map[*gTok]bool{}, func(u *gTok) {
			plain = plain && len(u.suites) == 0
			for _, l := range u.lines {
				for _, e := range l {
					plain = plain && e.kind != gRec && e.kind != gExt
				}
			}
		})
		if plain {
			list = append(list, t)
		}
	})
	has := func(t, u *gTok) bool {
		out := false
		t.each(map[*gTok]bool{}, func(x *gTok) { out = out || x == u })
		return out
	}
	for try := 0; try < 6 && len(list) > 1; try++ {
		t, u := list[r.Intn(len(list))], list[r.Intn(len(list))]
		if t.name == u.name || has(t, u) || has(u, t) {
			continue
		}
		clash := false
		users := []*gElem{}
		g.root.each(map[*gTok]bool{}, func(x *gTok) {
			for _, l := range x.lines {
				for _, e := range l {
					clash = clash || (e.tok == u && x == t)
					if e.tok == t {
						users = append(users, e)
					}
				}
				names := map[string]bool{}
				for _, e := range l {
					n := e.name
					if e.tok == t {
						n = u.name
					}
					clash = clash || names[n]
					names[n] = true
				}
			}
		})
		if clash {
			continue
		}
		t.name = u.name
		for _, e := range users {
			e.name = u.name
		}
		return u.name
	}
	return ""
}

func a09(c *Ctx, app applications.Application, g *gGram, runs []suiteRun) {
	shared := ""
	if c.R.Intn(3) == 0 {
		if shared = shareName(c.R, g); shared != "" {
			c.Count("grammars with two tokens of the same name", 1)
		}
	}
	gr := g.build()
	// two tokens with the same name may have different elements at an index: either name will do
	same := func(got, want map[coverKey]string) map[coverKey]string {
		if shared == "" {
			return got
		}
		out := map[coverKey]string{}
		for k, v := range got {
			if w, ok := want[k]; ok && k.tok == shared {
				v = w
			}
			out[k] = v
		}
		return out
	}
	want := map[coverKey]string{}
	for _, r := range runs {
		for _, s := range r.tok.suites {
			if t, _, _ := refParse(&gGram{root: r.tok, chans: r.chans}, expand(s.content), refBudget); t != nil {
				covers(t, r.tok.name, want)
			}
		}
	}
	all := map[coverKey]string{}
	var walk func(g *gGram)
	walk = func(g *gGram) {
		seen := map[*gTok]bool{}
		f := func(t *gTok) {
			for li, l := range t.lines {
				for ei, e := range l {
					if e.kind == gComp {
						continue
					}
					all[coverKey{t.name, uint(li), uint(ei)}] = e.name
					if e.kind == gExt {
						walk(e.ext)
					}
				}
			}
		}
		g.root.each(seen, f)
		for _, c := range g.chans {
			c.tok.each(seen, f)
		}
	}
	walk(g)
	cov, err := app.Coverages(gr)
	if err != nil {
		c.Violate("coverages-error", "running the suites gives the error: %v\ngrammar: %s", err, g)
	}
	covered, err := app.Covered(cov)
	if err != nil {
		c.Violate("covered-error", "the covered elements give the error: %v\ngrammar: %s", err, g)
	}
	if d := keysDiff(same(flat(covered), want), want); d != "" {
		c.Violate("covered", "wrong covered elements: %s\ngrammar: %s\nsuites: %s", d, g, showSuites(runs))
	}
	un, err := app.Uncovered(gr)
	if err != nil {
		c.Violate("uncovered-error", "the uncovered elements give the error: %v\ngrammar: %s", err, g)
	}
	rest := map[coverKey]string{}
	for k, v := range all {
		if _, ok := want[k]; !ok {
			rest[k] = v
		}
	}
	if d := keysDiff(same(flat(un), rest), rest); d != "" {
		c.Violate("uncovered", "wrong uncovered elements: %s\ngrammar: %s\nsuites: %s", d, g, showSuites(runs))
	}
	c.Count("elements covered", len(want))
	c.Count("elements uncovered", len(rest))
	if len(want) > 0 {
		c.Distinct(fmt.Sprint(want, len(rest)))
	}
	c.Sample("grammar %s: covered %v, uncovered %v", g, want, rest)
}

func showSuites(runs []suiteRun) string {
	out := []string{}
	for _, r := range runs {
		for _, s := range r.tok.suites {
			out = append(out, fmt.Sprintf("%s: %q", r.tok.name, expand(s.content)))
		}
	}
	return strings.Join(out, "; ")
}

// ------------------------------------------------------------------- A10

func a10(c *Ctx) {
	app := applications.NewApplication()
	type job struct {
		g    *gGram
		data []byte
		want string
		rem  []byte
		tree trees.Tree // read by all
		read string     // what a tree like it, not shared, gives
	}
	jobs := []job{}
	for k := 0; k < 3; k++ {
		gen := anyGen(c.R, allFeatures(c.R))
		g := gen.grammar()
		var wide []byte
		if c.R.Intn(10) == 0 {
			g, wide = wideGram(c.R)
		}
		addSuites(gen, g, 50)
		runs, beyond := []suiteRun{}, false
		suiteRuns(g, &runs)
		for _, r := range runs {
			for _, s := range r.tok.suites {
				if _, _, known := refParse(&gGram{root: r.tok, chans: r.chans}, expand(s.content), 4000); !known {
					beyond = true
				}
			}
		}
		if beyond {
			c.Count("grammars beyond the reference's budget (not judged)", 1)
			continue
		}
		for i := 0; i < 6; i++ {
			data := gen.input(g)
			if i == 0 && wide != nil {
				data = wide
			}
			if want, _, known := refParse(g, data, 4000); known {
				j := job{g: g, data: data, want: want.String()}
				if want != nil {
					j.rem = data[want.end:]
					j.read = readAll(execute(c, applications.NewApplication(), g, data))
					j.tree = execute(c, applications.NewApplication(), g, data)
				}
				jobs = append(jobs, j)
			}
		}
		g.build()
	}
	if len(jobs) == 0 {
		return
	}
	describe := func(g *gGram) string {
		composed := ""
		if out, err := app.Compose(g.build().Root()); err == nil {
			composed = fmt.Sprintf("%q ", out)
		}
		cov, err := app.Coverages(g.build())
		if err != nil {
			return "error " + err.Error()
		}
		var b strings.Builder
		if cov != nil {
			for _, cv := range cov.List() {
				for _, ex := range cv.Executions().List() {
					b.WriteString(cv.Token().Name() + ":")
					if ex.Result().IsTree() {
						b.WriteString(realString(ex.Result().Tree()))
					}
				}
			}
		}
		un, err := app.Uncovered(g.build())
		if err != nil {
			return "error " + err.Error()
		}
		return composed + b.String() + fmt.Sprint(un)
	}
	// in half of the cases nothing was executed before the goroutines do
	cold := coin(c.R)
	before := map[*gGram]string{}
	alone := func() {
		for _, j := range jobs {
			if _, ok := before[j.g]; !ok {
				before[j.g] = describe(j.g)
			}
		}
	}
	if !cold {
		alone()
	}
	type seen struct {
		g   *gGram
		got string
	}
	described := []seen{}
	workers := 6
	errs := make(chan string, workers*(len(jobs)+1))
	var wg sync.WaitGroup
	var inFlight, maxIn int
	var mu sync.Mutex
	begin := make(chan struct{})
	for w := 0; w < workers; w++ {
		order := c.R.Perm(len(jobs))
		if cold && w%3 > 0 {
			order[0] = 0 // the same suites at the same time
		}
		wg.Add(1)
		go func(w int, order []int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Sprintf("panic: %v", r)
				}
			}()
			<-begin
			if cold {
				got := describe(jobs[order[0]].g)
				mu.Lock()
				described = append(described, seen{jobs[order[0]].g, got})
				mu.Unlock()
			}
			for n, i := range order {
				mu.Lock()
				inFlight++
				if inFlight > maxIn {
					maxIn = inFlight
				}
				mu.Unlock()
				j := jobs[i]
				if j.tree != nil {
					if got := readAll(j.tree); got != j.read {
						errs <- fmt.Sprintf("reading a tree of %q while others read it gives %s, alone %s\ngrammar: %s", j.data, got, j.read, j.g)
					}
				}
				t, err := app.Execute(j.g.real, j.data)
				s := "no match"
				var rem []byte
				if err == nil && accepted(t) {
					s, rem = realString(t), t.Remaining()
				}
				if s != j.want || !bytes.Equal(rem, j.rem) {
					errs <- fmt.Sprintf("parsing %q while others parse gives %s remaining %q, alone %s remaining %q\ngrammar: %s", j.data, s, rem, j.want, j.rem, j.g)
				}
				if n == 0 && w%2 == 0 {
					got := describe(j.g)
					mu.Lock()
					described = append(described, seen{j.g, got})
					mu.Unlock()
				}
				mu.Lock()
				inFlight--
				mu.Unlock()
			}
		}(w, order)
	}
	close(begin)
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Violate("concurrent", "%s", e)
	}
	alone()
	for _, d := range described {
		if d.got != before[d.g] {
			c.Violate("concurrent-suites", "the suites of a grammar give another result while others parse: %s\ngrammar: %s", firstDiff(d.got, before[d.g]), d.g)
		}
	}
	c.Count("concurrent suite runs compared", len(described))
	if cold {
		c.Count("rounds on an application not used before", 1)
	}
	for _, j := range jobs {
		if t := execute(c, app, j.g, j.data); realString(t) != j.want {
			c.Violate("repeat", "parsing %q again gives %s, before %s\ngrammar: %s", j.data, realString(t), j.want, j.g)
		}
		c.Distinct(j.want)
	}
	c.Count("concurrent parses compared", workers*len(jobs))
	c.Count("rounds with several parses in flight", map[bool]int{true: 1}[maxIn > 1])
	c.Sample("%d goroutines, %d parses each, up to %d at once", workers, len(jobs), maxIn)
}

// readAll writes out a tree with all its bytes and finds.
func readAll(t trees.Tree) string {
	var b strings.Builder
	names := map[string]bool{}
	var walk func(t trees.Tree)
	walk = func(t trees.Tree) {
		names[t.Grammar().Name()] = true
		fmt.Fprintf(&b, "%s %q %q %v;", t.Grammar().Name(), t.Bytes(true), t.Bytes(false), t.Block().HasSuccessful())
		if !t.Block().HasSuccessful() {
			return
		}
		for _, l := range t.Block().Lines() {
			fmt.Fprintf(&b, "%v ", l.IsSuccessful())
		}
		for _, e := range t.Block().Successful().Elements().List() {
			if e.HasGrammar() {
				names[e.Grammar().Name()] = true
			}
			fmt.Fprintf(&b, "%q %v %d,", e.Bytes(true), e.IsSuccessful(), e.Amount())
			for _, ct := range e.Contents().List() {
				if ct.IsTree() {
					walk(ct.Tree())
				}
			}
		}
	}
	walk(t)
	if len(names) < 12 {
		for _, n := range sortedKeys(names) {
			tr, e, err := t.Fetch(n, 0)
			fmt.Fprintf(&b, "%s %v %v %v;", n, tr != nil, e != nil, err != nil)
		}
	}
	return b.String() + realString(t)
}

// ------------------------------------------------------------------- A11

// rfetch is the reference of fetching by name: the (index+1)-th element, in
// order, that has the name or contains it.
func rfetchTree(t *rTree, name string, idx uint) string {
	if t.name == name {
		return "tree " + t.String()
	}
	n := uint(0)
	for i := range t.elems {
		if s := rfetchElem(&t.elems[i], name, idx); s != "" {
			if n == idx {
				return s
			}
			n++
		}
	}
	return ""
}

func rfetchElem(e *rElem, name string, idx uint) string {
	if e.name == name {
		one := &rTree{elems: []rElem{*e}}
		return "element " + one.String()
	}
	for _, it := range e.items {
		if it.tree != nil {
			if s := rfetchTree(it.tree, name, idx); s != "" {
				return s
			}
		}
	}
	return ""
}

func elementString(e trees.Element) string {
	var b strings.Builder
	b.WriteString("<0>{")
	if e.HasGrammar() {
		b.WriteString(e.Grammar().Name())
	}
	b.WriteString("[")
	for _, ct := range e.Contents().List() {
		if ct.IsTree() {
			dumpReal(&b, ct.Tree())
			b.WriteString(" ")
			continue
		}
		if ct.Value().HasPrefix() {
			b.WriteString("^(")
			for _, p := range ct.Value().Prefix().List() {
				dumpReal(&b, p)
			}
			b.WriteString(")")
		}
		fmt.Fprintf(&b, "%q ", string(ct.Value().Content()))
	}
	b.WriteString("]}")
	return b.String()
}

func treeNames(t *rTree, out map[string]bool) {
	out[t.name] = true
	for _, e := range t.elems {
		if e.name != "" {
			out[e.name] = true
		}
		for _, it := range e.items {
			if it.tree != nil {
				treeNames(it.tree, out)
			}
		}
	}
}

func a11(c *Ctx) {
	app := applications.NewApplication()
	for k := 0; k < 8; k++ {
		f := allFeatures(c.R)
		f.dup = coin(c.R)
		gen := anyGen(c.R, f)
		g := gen.grammar()
		for i := 0; i < 8; i++ {
			data := gen.input(g)
			want, _, known := refParse(g, data, refBudget)
			if !known || want == nil {
				continue
			}
			t := execute(c, app, g, data)
			if !accepted(t) {
				c.Violate("verdict", "the input %q is refused\ngrammar: %s", data, g)
			}
			names := map[string]bool{"absent": true}
			treeNames(want, names)
			for _, name := range sortedKeys(names) {
				for idx := uint(0); idx < 4; idx++ {
					exp := rfetchTree(want, name, idx)
					var ft trees.Tree
					var fe trees.Element
					var err error
					if p, msg := Protect(func() { ft, fe, err = t.Fetch(name, idx) }); p {
						c.Violate("panic:"+panicSite(msg), "fetching panicked: %s", msg)
					}
					got := ""
					if err == nil {
						switch {
						case ft != nil && fe != nil:
							got = "both"
						case ft != nil:
							got = "tree " + realString(ft)
						case fe != nil:
							got = "element " + elementString(fe)
						default:
							got = "neither"
						}
					}
					if got != exp {
						c.Violate("fetch", "fetching %q at %d of the tree of %q gives %q, want %q\ngrammar: %s\ntree: %s", name, idx, data, got, exp, g, want)
					}
					c.Count("fetches compared", 1)
					if exp != "" {
						c.Count("fetches that found something", 1)
						c.Distinct(name + exp)
					}
				}
			}
			// the line's own lookup by name
			els := t.Block().Successful().Elements()
			for _, e := range want.elems {
				if e.name == "" {
					continue
				}
				got, err := els.Fetch(e.name)
				if err != nil || got.Grammar().Name() != e.name {
					c.Violate("line-fetch", "the element %q of the matched line is not found: %v\ngrammar: %s\ntree: %s", e.name, err, g, want)
				}
			}
			if _, err := els.Fetch("absent"); err == nil {
				c.Violate("line-fetch-absent", "an absent element is found in the line")
			}
			if k == 0 {
				c.Sample("tree %s: %d names fetched at 4 indexes", cut(want.String(), 300), len(names))
			}
		}
	}
}

// ------------------------------------------------------------------- A14

// a14 compares every node of the tree with the part of the grammar the
// reference matched it with.
func a14(c *Ctx) { places(c, allFeatures) }

func a06(c *Ctx) {
	f := func(r *rand.Rand) gFeat {
		f := gFeat{ext: true, chans: coin(r), chanEvr: r.Intn(4) == 0, rec: r.Intn(3) == 0, clash: coin(r)}
		f.conds = f.chans && r.Intn(3) == 0
		f.prevCond = f.conds && coin(r)
		return f
	}
	if c.Index%4 == 0 { // the token of the tree of an external, as well
		places(c, f)
		return
	}
	parseCase(f, 8, 12)(c)
}

func places(c *Ctx, features func(r *rand.Rand) gFeat) {
	app := applications.NewApplication()
	for k := 0; k < 6; k++ {
		f := features(c.R)
		f.leftRec = f.rec && coin(c.R)
		f.clash = coin(c.R)
		gen := anyGen(c.R, f)
		g := gen.grammar()
		if coin(c.R) {
			addSuites(gen, g, 50)
		}
		for i := 0; i < 8; i++ {
			data := gen.input(g)
			want, _, known := refParse(g, data, refBudget)
			if !known {
				c.Count("inputs beyond the reference's budget (not judged)", 1)
				continue
			}
			c.Count("inputs parsed", 1)
			t := execute(c, app, g, data)
			if want == nil || !accepted(t) || realString(t) != want.String() {
				continue // refused, or not the tree to compare with
			}
			p := &placer{c: c, what: fmt.Sprintf("grammar: %s\ninput: %q\ntree: %s", g, data, want), conv: &converter{toks: map[grammars.Token]*gTok{}}}
			p.tree(t, want)
			c.Count("inputs accepted", 1)
			c.Distinct(want.String())
			if k == 0 {
				c.Sample("grammar %s; input %q; tree %s", g, data, cut(want.String(), 300))
			}
		}
	}
}

type placer struct {
	c    *Ctx
	what string
	conv *converter
}

func (p *placer) tree(t trees.Tree, w *rTree) {
	c := p.c
	tok := w.tok
	c.Count("nodes compared with their place in the grammar", 1)
	if w.name != tok.name {
		// an external: its own name, the rest of its root
		named := *tok
		named.name, named.real = w.name, nil
		tok = &named
		c.Count("externals compared with the root of their grammar", 1)
	}
	if got := t.Grammar(); tok.real == nil || got != tok.real {
		if got == nil || got.Block() == nil {
			c.Violate("token", "a tree of %s has no token\n%s", w.name, p.what)
		}
		// another instance may say the same
		a, b := describeAll(&gGram{root: p.conv.token(got)}), describeAll(&gGram{root: tok})
		if a != b {
			c.Violate("token", "a tree that was matched with the token %s has another one: %s\n%s", w.name, firstDiff(a, b), p.what)
		}
	}
	line := t.Block().Successful()
	src := w.tok.build().Block().Lines()[w.line]
	if line.Grammar() != src {
		a, b := p.describeLine(line.Grammar()), p.describeLine(src)
		if a != b {
			c.Violate("line", "the line %d of %s has another line of the grammar: %s, want %s\n%s", w.line, w.name, a, b, p.what)
		}
	}
	if line.Index() != uint(w.line) || line.IsReverse() != w.raw || !line.IsSuccessful() {
		c.Violate("line-index", "the line %d of %s has the index %d, is reversed: %v (want %v), is successful: %v\n%s", w.line, w.name, line.Index(), line.IsReverse(), w.raw, line.IsSuccessful(), p.what)
	}
	els := line.Elements().List()
	for i, we := range w.elems {
		e := els[i]
		if w.raw {
			if e.HasGrammar() || e.Grammar() != nil {
				c.Violate("element", "the bytes of the everything %s have an element of the grammar\n%s", w.name, p.what)
			}
			continue
		}
		con := src.Containers()[we.cont]
		if e.Grammar() != con {
			one := func(x grammars.Container) string {
				ln, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{x}).Now()
				must(err)
				return p.describeLine(ln)
			}
			a, b := "nothing", one(con)
			if e.HasGrammar() {
				a = one(e.Grammar())
			}
			if a != b {
				c.Violate("element", "the element %d of the line %d of %s has another container: %s, want %s\n%s", we.cont, w.line, w.name, a, b, p.what)
			}
		}
		for k, it := range we.items {
			ct := e.Contents().List()[k]
			if it.tree != nil {
				p.tree(ct.Tree(), it.tree)
				continue
			}
			for n, pre := range it.prefix {
				p.tree(ct.Value().Prefix().List()[n], pre)
			}
		}
	}
	for i, s := range w.suffix {
		p.tree(t.Suffix().List()[i], s)
	}
}

func (p *placer) describeLine(l grammars.Line) string {
	b, err := grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{l}).Now()
	must(err)
	t, err := grammars.NewTokenBuilder().Create().WithName("line").WithBlock(b).Now()
	must(err)
	return describeAll(&gGram{root: p.conv.token(t)})
}

// ------------------------------------------------------------------- A12

// a12 checks that a grammar says what it was built from.
func a12(c *Ctx) {
	required(c)
	for k := 0; k < 20; k++ {
		gen := anyGen(c.R, allFeatures(c.R))
		g := gen.grammar()
		addSuites(gen, g, 50)
		back := fromGrammar(g.build())
		if a, b := describeAll(back), describeAll(g); a != b {
			c.Violate("grammar", "a grammar built from parts does not give them back: %s\nbuilt: %s\nread: %s", firstDiff(a, b), b, a)
		}
		c.Count("grammars built and read back", 1)
		c.Distinct(g.String())
		c.Sample("%s", g)
	}
}

// required builds with every combination of present and absent parts, and
// expects an error exactly when a required one is absent.
func required(c *Ctx) {
	val, _ := values.NewBuilder().Create().WithName("v").WithNumber(byte(c.R.Intn(256))).Now()
	card, _ := cardinalities.NewBuilder().Create().WithMin(uint(c.R.Intn(3))).Now()
	gg := newGen(c.R, gFeat{}).grammar()
	gr := gg.build()
	tok := gr.Root()
	ce, _ := grammars.NewComposeElementBuilder().Create().WithValue(val).WithOccurences(uint(1 + c.R.Intn(3))).Now()
	cp, _ := grammars.NewComposeBuilder().Create().WithName("c").WithList([]grammars.ComposeElement{ce}).Now()
	el, _ := grammars.NewElementBuilder().Create().WithCardinality(card).WithValue(val).Now()
	ev, _ := grammars.NewEverythingBuilder().Create().WithName("e").WithException(tok).Now()
	ext, _ := grammars.NewExternalBuilder().Create().WithName("x").WithGrammar(gr).Now()
	in, _ := grammars.NewInstanceBuilder().Create().WithToken(tok).Now()
	su, _ := grammars.NewSuiteBuilder().Create().WithValid(cp).Now()
	ch, _ := grammars.NewChannelBuilder().Create().WithToken(tok).Now()
	ct, _ := grammars.NewContainerBuilder().Create().WithElement(el).Now()
	ln, _ := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{ct}).Now()
	type tc struct {
		name  string
		parts int
		ok    func(on func(int) bool) bool
		build func(on func(int) bool) (interface{}, error)
	}
	all := func(n int) func(on func(int) bool) bool {
		return func(on func(int) bool) bool {
			for i := 0; i < n; i++ {
				if !on(i) {
					return false
				}
			}
			return true
		}
	}
	any := func(n int) func(on func(int) bool) bool {
		return func(on func(int) bool) bool {
			for i := 0; i < n; i++ {
				if on(i) {
					return true
				}
			}
			return false
		}
	}
	tests := []tc{
		{"value (name, number)", 2, all(2), func(on func(int) bool) (interface{}, error) {
			b := values.NewBuilder().Create()
			if on(0) {
				b.WithName("n")
			}
			if on(1) {
				b.WithNumber(0)
			}
			return b.Now()
		}},
		{"cardinality (min, max)", 2, all(1), func(on func(int) bool) (interface{}, error) {
			b := cardinalities.NewBuilder().Create()
			if on(0) {
				b.WithMin(0)
			}
			if on(1) {
				b.WithMax(0)
			}
			return b.Now()
		}},
		{"element (cardinality, value, external, instance, recursive)", 5, func(on func(int) bool) bool {
			return on(0) && (on(1) || on(2) || on(3) || on(4))
		}, func(on func(int) bool) (interface{}, error) {
			b := grammars.NewElementBuilder().Create()
			if on(0) {
				b.WithCardinality(card)
			}
			if on(1) {
				b.WithValue(val)
			}
			if on(2) {
				b.WithExternal(ext)
			}
			if on(3) {
				b.WithInstance(in)
			}
			if on(4) {
				b.WithRecursive("r")
			}
			return b.Now()
		}},
		{"instance (token, everything)", 2, any(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewInstanceBuilder().Create()
			if on(0) {
				b.WithToken(tok)
			}
			if on(1) {
				b.WithEverything(ev)
			}
			return b.Now()
		}},
		{"everything (name, exception, escape)", 3, all(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewEverythingBuilder().Create()
			if on(0) {
				b.WithName("e")
			}
			if on(1) {
				b.WithException(tok)
			}
			if on(2) {
				b.WithEscape(tok)
			}
			return b.Now()
		}},
		{"external (name, grammar)", 2, all(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewExternalBuilder().Create()
			if on(0) {
				b.WithName("x")
			}
			if on(1) {
				b.WithGrammar(gr)
			}
			return b.Now()
		}},
		{"compose element (value, occurences)", 2, all(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewComposeElementBuilder().Create()
			if on(0) {
				b.WithValue(val)
			}
			if on(1) {
				b.WithOccurences(2)
			}
			return b.Now()
		}},
		{"compose (name, list)", 2, all(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewComposeBuilder().Create().WithList([]grammars.ComposeElement{})
			if on(0) {
				b.WithName("c")
			}
			if on(1) {
				b.WithList([]grammars.ComposeElement{ce})
			}
			return b.Now()
		}},
		{"container (element, compose)", 2, any(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewContainerBuilder().Create()
			if on(0) {
				b.WithElement(el)
			}
			if on(1) {
				b.WithCompose(cp)
			}
			return b.Now()
		}},
		{"line (containers)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{})
			if on(0) {
				b.WithContainers([]grammars.Container{ct})
			}
			return b.Now()
		}},
		{"block (lines)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewBlockBuilder().Create().WithLines([]grammars.Line{})
			if on(0) {
				b.WithLines([]grammars.Line{ln})
			}
			return b.Now()
		}},
		{"suite (valid, invalid)", 2, any(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewSuiteBuilder().Create()
			if on(0) {
				b.WithValid(cp)
			}
			if on(1) {
				b.WithInvalid(cp)
			}
			return b.Now()
		}},
		{"suites (list)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewSuitesBuilder().Create().WithList([]grammars.Suite{})
			if on(0) {
				b.WithList([]grammars.Suite{su})
			}
			return b.Now()
		}},
		{"token (name, block)", 2, all(2), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewTokenBuilder().Create()
			if on(0) {
				b.WithName("t")
			}
			if on(1) {
				b.WithBlock(tok.Block())
			}
			return b.Now()
		}},
		{"channel (token)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewChannelBuilder().Create()
			if on(0) {
				b.WithToken(tok)
			}
			return b.Now()
		}},
		{"channels (list)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewChannelsBuilder().Create().WithList([]grammars.Channel{})
			if on(0) {
				b.WithList([]grammars.Channel{ch})
			}
			return b.Now()
		}},
		{"grammar (root)", 1, all(1), func(on func(int) bool) (interface{}, error) {
			b := grammars.NewBuilder().Create()
			if on(0) {
				b.WithRoot(tok)
			}
			return b.Now()
		}},
	}
	for _, t := range tests {
		for m := 0; m < 1<<t.parts; m++ {
			on := func(i int) bool { return m>>i&1 == 1 }
			var ins interface{}
			var err error
			if p, msg := Protect(func() { ins, err = t.build(on) }); p {
				c.Violate("panic:"+panicSite(msg), "building a %s with the parts %b panicked: %s", t.name, m, msg)
			}
			if want := t.ok(on); want != (err == nil) {
				c.Violate("required", "building a %s with the parts %b gives the error %v, expected to succeed: %v", t.name, m, err, want)
			} else if !want && ins != nil {
				c.Violate("required", "building a %s with the parts %b gives an error and an instance", t.name, m)
			}
			c.Count("builders tried with and without their parts", 1)
		}
	}
}

func describeAll(g *gGram) string {
	var b strings.Builder
	b.WriteString(g.String())
	seen := map[*gTok]bool{}
	f := func(t *gTok) {
		for _, s := range t.suites {
			fmt.Fprintf(&b, ";%s %v %v", t.name, s.valid, s.content)
		}
	}
	g.root.each(seen, f)
	for _, c := range g.chans {
		c.tok.each(seen, f)
	}
	return b.String()
}

// fromGrammar reads a real grammar into the model.
func fromGrammar(g grammars.Grammar) *gGram {
	conv := &converter{toks: map[grammars.Token]*gTok{}}
	out := conv.grammar(g)
	return out
}

type converter struct {
	toks map[grammars.Token]*gTok
}

func (v *converter) grammar(g grammars.Grammar) *gGram {
	out := &gGram{root: v.token(g.Root()), real: g}
	if g.HasChannels() {
		for _, ch := range g.Channels().List() {
			c := &gChan{tok: v.token(ch.Token())}
			if ch.HasCondition() {
				if ch.Condition().HasPrevious() {
					c.prev = v.token(ch.Condition().Previous())
				}
				if ch.Condition().HasNext() {
					c.next = v.token(ch.Condition().Next())
				}
			}
			out.chans = append(out.chans, c)
		}
	}
	return out
}

func convCompose(cp grammars.Compose) []gOcc {
	out := []gOcc{}
	for _, o := range cp.List() {
		out = append(out, gOcc{o.Value().Name(), o.Value().Number(), o.Occurences()})
	}
	return out
}

func (v *converter) token(t grammars.Token) *gTok {
	if x, ok := v.toks[t]; ok {
		return x
	}
	out := &gTok{name: t.Name(), real: t}
	v.toks[t] = out
	for _, l := range t.Block().Lines() {
		ln := []*gElem{}
		for _, ct := range l.Containers() {
			if ct.IsElement() == ct.IsCompose() {
				panic("harness: a container is an element and a compose")
			}
			if ct.IsCompose() {
				ln = append(ln, &gElem{kind: gComp, name: ct.Name(), compose: convCompose(ct.Compose())})
				continue
			}
			e := ct.Element()
			m := &gElem{name: ct.Name(), min: e.Cardinality().Min(), max: -1}
			if e.Cardinality().HasMax() {
				m.max = int(*e.Cardinality().Max())
			}
			cn := e.Content()
			kinds := 0
			for _, is := range []bool{cn.IsValue(), cn.IsExternal(), cn.IsRecursive(), cn.IsInstance()} {
				if is {
					kinds++
				}
			}
			if kinds != 1 || (cn.IsInstance() && cn.Instance().IsToken() == cn.Instance().IsEverything()) {
				panic("harness: an element is not of exactly one kind")
			}
			switch {
			case cn.IsValue():
				m.kind, m.num = gVal, cn.Value().Number()
			case cn.IsExternal():
				m.kind, m.ext = gExt, v.grammar(cn.External().Grammar())
			case cn.IsRecursive():
				m.kind, m.name = gRec, cn.Recursive()
			case cn.IsInstance() && cn.Instance().IsToken():
				m.kind, m.tok = gTokn, v.token(cn.Instance().Token())
			case cn.IsInstance() && cn.Instance().IsEverything():
				ev := cn.Instance().Everything()
				m.kind, m.exc = gEvr, v.token(ev.Exception())
				if ev.HasEscape() {
					m.esc = v.token(ev.Escape())
				}
			}
			ln = append(ln, m)
		}
		out.lines = append(out.lines, ln)
	}
	if t.HasSuites() {
		for _, s := range t.Suites().List() {
			out.suites = append(out.suites, gSuite{s.IsValid(), convCompose(s.Content())})
		}
	}
	return out
}

func init() {
	cases := func(quick, thorough int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return thorough
			}
			return quick
		}
	}
	const gen = "Grammars are random: up to 14 tokens of 1-3 lines of 1-3 elements, values of a small alphabet, cardinalities from zero to unbounded, "
	const nt = " A distinct case is a distinct accepted tree."
	register(&Prop{ID: "A01", Rule: gen + "recursion, repeated names, and families with inputs of up to 30 KB, 300 levels and 13000 occurrences; inputs are derived from the grammar, mutated, random or empty." + nt,
		Cases: cases(4000, 100000), Run: a01})
	register(&Prop{ID: "A02", Rule: gen + "channels, conditions, everythings without escapes, externals, composes, left recursion; every node of every accepted tree is spelled out against the input." + nt,
		Cases: cases(2500, 60000), Run: a02})
	register(&Prop{ID: "A03", Rule: gen + "left, mutual and undefined recursion, unsatisfiable cardinalities and all other features; inputs derived, mutated, random and empty. A distinct case is a distinct tree or refused pair.",
		Cases: cases(2000, 50000), Run: a03, Hang: 60 * time.Second})
	register(&Prop{ID: "A04", Rule: gen + "1-3 channels with next and previous conditions, comments by everything with escapes; inputs carry channel data in all places." + nt,
		Cases: cases(2500, 60000), Run: parseCase(func(r *rand.Rand) gFeat {
			return gFeat{rec: r.Intn(3) == 0, chans: true, conds: coin(r), prevCond: coin(r), chanEvr: coin(r), esc: coin(r), comp: r.Intn(4) == 0}
		}, 8, 12)})
	register(&Prop{ID: "A05", Rule: gen + "everythings with exceptions of several lines and nested tokens, with and without escapes; and quoted strings with an independent unescaping oracle. A distinct case is a distinct accepted tree or quoted string.",
		Cases: cases(4000, 80000), Run: a05})
	register(&Prop{ID: "A06", Rule: gen + "externals with their own channels, nested, repeated and recursive inside." + nt,
		Cases: cases(3000, 70000), Run: a06})
	register(&Prop{ID: "A07", Rule: gen + "composes with occurrences among the elements; and tokens of composes only, with up to 300 occurrences, composed, parsed back, cut and corrupted. A distinct case is a distinct accepted tree or token.",
		Cases: cases(3000, 60000), Run: a07})
	register(&Prop{ID: "A08", Rule: gen + "with valid and invalid suites, right and wrong ones alike, on none to all of the tokens. A distinct case is a distinct suite execution.",
		Cases: cases(2500, 50000), Run: coverageCase(a08)})
	register(&Prop{ID: "A09", Rule: gen + "with suites on none to all of the tokens. A distinct case is a distinct set of covered elements.",
		Cases: cases(2500, 50000), Run: coverageCase(a09)})
	register(&Prop{ID: "A10", Rule: gen + "shared by 6 goroutines that parse 18 inputs in different orders and run suites, under the race detector. A distinct case is a distinct tree.",
		Cases: cases(400, 8000), Run: a10})
	register(&Prop{ID: "A11", Rule: gen + "all features; every name of every accepted tree is fetched at four indexes. A distinct case is a distinct thing found.",
		Cases: cases(1500, 30000), Run: a11})
	register(&Prop{ID: "A14", Rule: gen + "all features, left recursion, externals that use the names around them, suites; every node of every accepted tree is compared with the token, line and container the reference matched it with." + nt,
		Cases: cases(2500, 60000), Run: a14})
	register(&Prop{ID: "A12", Rule: gen + "all features; each grammar built through the builders and read back through its accessors. A distinct case is a distinct grammar.",
		Cases: cases(400, 20000), Run: a12})
}
