#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
APP = "libs/asts/applications/application.go"
PRE = '''package main

import (
	"fmt"
	"os"

	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}

func val(b byte) values.Value {
	v, err := values.NewBuilder().Create().WithName(string(rune(b))).WithNumber(b).Now()
	must(err)
	return v
}

func card(min uint, max int) cardinalities.Cardinality {
	b := cardinalities.NewBuilder().Create().WithMin(min)
	if max >= 0 {
		b.WithMax(uint(max))
	}
	c, err := b.Now()
	must(err)
	return c
}

func wrap(e grammars.Element, err error) grammars.Container {
	must(err)
	c, err := grammars.NewContainerBuilder().Create().WithElement(e).Now()
	must(err)
	return c
}

func lit(b byte, min uint, max int) grammars.Container {
	return wrap(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithValue(val(b)).Now())
}

func one(b byte) grammars.Container { return lit(b, 1, 1) }

func sub(t grammars.Token, min uint, max int) grammars.Container {
	ins, err := grammars.NewInstanceBuilder().Create().WithToken(t).Now()
	must(err)
	return wrap(grammars.NewElementBuilder().Create().WithCardinality(card(min, max)).WithInstance(ins).Now())
}

func everything(name string, exception grammars.Token, escape grammars.Token) grammars.Container {
	b := grammars.NewEverythingBuilder().Create().WithName(name).WithException(exception)
	if escape != nil {
		b.WithEscape(escape)
	}
	ev, err := b.Now()
	must(err)
	ins, err := grammars.NewInstanceBuilder().Create().WithEverything(ev).Now()
	must(err)
	return wrap(grammars.NewElementBuilder().Create().WithCardinality(card(1, 1)).WithInstance(ins).Now())
}

func rec(name string) grammars.Container {
	return wrap(grammars.NewElementBuilder().Create().WithCardinality(card(1, 1)).WithRecursive(name).Now())
}

func ext(name string, g grammars.Grammar) grammars.Container {
	x, err := grammars.NewExternalBuilder().Create().WithName(name).WithGrammar(g).Now()
	must(err)
	return wrap(grammars.NewElementBuilder().Create().WithCardinality(card(1, 1)).WithExternal(x).Now())
}

type occ struct {
	b byte
	n uint
}

func compose(name string, list ...occ) grammars.Container {
	els := []grammars.ComposeElement{}
	for _, o := range list {
		el, err := grammars.NewComposeElementBuilder().Create().WithValue(val(o.b)).WithOccurences(o.n).Now()
		must(err)
		els = append(els, el)
	}
	c, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(els).Now()
	must(err)
	ct, err := grammars.NewContainerBuilder().Create().WithCompose(c).Now()
	must(err)
	return ct
}

func text(s string) grammars.Compose {
	list := []occ{}
	for _, b := range []byte(s) {
		list = append(list, occ{b, 1})
	}
	return compose(s, list...).Compose()
}

func ln(c ...grammars.Container) []grammars.Container { return c }

type suite struct {
	s     string
	valid bool
}

func tokS(name string, suites []suite, lines ...[]grammars.Container) grammars.Token {
	ls := []grammars.Line{}
	for _, l := range lines {
		x, err := grammars.NewLineBuilder().Create().WithContainers(l).Now()
		must(err)
		ls = append(ls, x)
	}
	blk, err := grammars.NewBlockBuilder().Create().WithLines(ls).Now()
	must(err)
	b := grammars.NewTokenBuilder().Create().WithName(name).WithBlock(blk)
	if len(suites) > 0 {
		list := []grammars.Suite{}
		for _, s := range suites {
			sb := grammars.NewSuiteBuilder().Create()
			if s.valid {
				sb.WithValid(text(s.s))
			} else {
				sb.WithInvalid(text(s.s))
			}
			x, err := sb.Now()
			must(err)
			list = append(list, x)
		}
		su, err := grammars.NewSuitesBuilder().Create().WithList(list).Now()
		must(err)
		b.WithSuites(su)
	}
	t, err := b.Now()
	must(err)
	return t
}

func tok(name string, lines ...[]grammars.Container) grammars.Token { return tokS(name, nil, lines...) }

type chann struct {
	t, prev, next grammars.Token
}

func gram(root grammars.Token, chs ...chann) grammars.Grammar {
	b := grammars.NewBuilder().Create().WithRoot(root)
	if len(chs) > 0 {
		list := []grammars.Channel{}
		for _, c := range chs {
			cb := grammars.NewChannelBuilder().Create().WithToken(c.t)
			if c.prev != nil || c.next != nil {
				cc := grammars.NewChannelConditionBuilder().Create()
				if c.prev != nil {
					cc.WithPrevious(c.prev)
				}
				if c.next != nil {
					cc.WithNext(c.next)
				}
				x, err := cc.Now()
				must(err)
				cb.WithCondition(x)
			}
			ch, err := cb.Now()
			must(err)
			list = append(list, ch)
		}
		x, err := grammars.NewChannelsBuilder().Create().WithList(list).Now()
		must(err)
		b.WithChannels(x)
	}
	g, err := b.Now()
	must(err)
	return g
}

var app = applications.NewApplication()

// parse returns the bytes taken, without channels, ok when the root has a successful line
func parse(g grammars.Grammar, s string) (string, trees.Tree, bool) {
	t, err := app.Execute(g, []byte(s))
	if err != nil || !t.Block().HasSuccessful() {
		return "", nil, false
	}
	return string(t.Bytes(false)), t, true
}

func want(g grammars.Grammar, in, out string) {
	got, _, ok := parse(g, in)
	if !ok || got != out {
		fail("parsing %q took %q (%v), expected %q", in, got, ok, out)
	}
}

func refused(g grammars.Grammar, in string) {
	if got, _, ok := parse(g, in); ok {
		fail("parsing %q took %q, expected a refusal", in, got)
	}
}
'''
bug("ast-channel-previous", "A04",
 [(APP, '''			treeList = append(treeList, tree)
			previousData = remaining
			remaining = rem
''', '''			treeList = append(treeList, tree)
			remaining = rem
''')],
 "two channels in a row before a value, the second with a condition on what precedes it",
 "the previous condition of a channel is evaluated on what preceded the whole run of channels instead of what precedes that channel",
 PRE + '''
func main() {
	root := tok("root", ln(one('a'), one('b')))
	space := tok("space", ln(one(' ')))
	dash := tok("dash", ln(one('-')))
	g := gram(root, chann{t: space}, chann{t: dash, prev: tok("prev", ln(one(' ')))})
	want(g, "a -b", "ab")
	refused(g, "a-b")
}
''')
bug("ast-nested-exception-stack", "A05",
 [(APP, "	return app.token(exception, stackMap, escape, nil, !isReverse, prevData, currentData)",
   "	return app.token(exception, map[string]*stack{}, escape, nil, !isReverse, prevData, currentData)")],
 "an exception that refers recursively to a token around the everything",
 "an exception loses the tokens around it: its recursive elements never match and the everything runs to the end of the data",
 PRE + '''
func main() {
	// item: < everything up to an item or '>' >
	exc := tok("end", ln(rec("item")), ln(one('>')))
	item := tok("item", ln(one('<'), everything("text", exc, nil), lit('>', 0, 1)))
	g := gram(item)
	want(g, "<ab>", "<ab>")
	want(g, "<ab<c>", "<ab")
}
''')
bug("ast-escape-coverage", "A08",
 [(APP, '''						coverages, err := app.coveragesToken(escape, channels, pSkip)
						if err != nil {
							return nil, err
						}

						if coverages != nil {
							list = append(list, coverages.List()...)
						}
''', '''						coverages, err := app.coveragesToken(escape, channels, pSkip)
						if err != nil {
							return nil, err
						}

						if coverages != nil {
							list = coverages.List()
						}
''')],
 "a token with suites in a line before an everything whose escape has suites",
 "the coverages found before the escape are lost",
 PRE + '''
func main() {
	first := tokS("first", []suite{{"a", true}}, ln(one('a')))
	exc := tokS("exc", []suite{{"x", true}}, ln(one('x')))
	esc := tokS("esc", []suite{{"/", true}}, ln(one('/')))
	root := tokS("root", []suite{{"abx", true}}, ln(sub(first, 1, 1), everything("text", exc, esc), one('x')))
	cov, err := app.Coverages(gram(root))
	must(err)
	names := map[string]bool{}
	for _, c := range cov.List() {
		names[c.Token().Name()] = true
	}
	if len(names) != 4 {
		fail("the coverages are of %v, expected first, exc, esc and root", names)
	}
}
''')
bug("ast-channel-suite-channels", "A08",
 [(APP, "			coverages, err := app.coveragesToken(token, nil, &skip)",
   "			coverages, err := app.coveragesToken(token, channelsOf(grammar), &skip)"),
  (APP, '''// Covered returns the covered tokens
''', '''func channelsOf(grammar grammars.Grammar) grammars.Channels {
	if !grammar.HasChannels() {
		return nil
	}

	return grammar.Channels()
}

// Covered returns the covered tokens
''')],
 "a channel with a suite in which a channel stands inside of the text",
 "the suites of a channel are parsed with the channels, which no parsing does: its verdict is not the one of its token",
 PRE + '''
func main() {
	space := tok("space", ln(one(' ')))
	comment := tokS("comment", []suite{{"/ c", false}, {"/c", true}}, ln(one('/'), one('c')))
	root := tok("root", ln(one('a')))
	cov, err := app.Coverages(gram(root, chann{t: space}, chann{t: comment}))
	must(err)
	ex := cov.List()[0].Executions().List()
	if ex[0].Result().IsTree() && ex[0].Result().Tree().Block().HasSuccessful() {
		fail("the text '/ c' is refused by the channel, but its suite says it matches")
	}
}
''')
bug("ast-element-name-merge", "A09",
 [(APP, '''			elements[tokenName][castedIdx][castedElIdx] = oneElement.Name()
''', '''			elements[tokenName][castedIdx][castedElIdx] = oneElement.Name()
			if _, ok := elements[oneElement.Name()]; ok && oneElement.Name() != tokenName {
				continue
			}
''')],
 "a token of the same name used first as an element whose inner tokens were already listed under another name, its own everything below",
 "the elements below an element whose name is already listed are not listed again, so the tokens only found there are missing",
 PRE + '''
func main() {
	// two different externals of the same name
	a := tok("x", ln(sub(tok("in1", ln(one('a'))), 1, 1)))
	b := tok("x", ln(sub(tok("in2", ln(one('b'))), 1, 1)))
	root := tok("root", ln(sub(a, 1, 1), sub(b, 1, 1)))
	un, err := app.Uncovered(gram(root))
	must(err)
	if _, ok := un["in2"]; !ok {
		fail("the uncovered elements are of %v: in2 is missing", un)
	}
}
''')
bug("ast-compose-limit", "A07",
 [(APP, '''		occurences := int(oneElement.Occurences())
		for i := 0; i < occurences; i++ {
			output = append(output, number)
''', '''		occurences := byte(oneElement.Occurences())
		for i := byte(0); i < occurences; i++ {
			output = append(output, number)
''')],
 "a compose element with 256 occurences or more",
 "composing gives the occurences modulo 256, which its own parsing then refuses",
 PRE + '''
func main() {
	t := tok("root", ln(compose("c", occ{'a', 300}, occ{'b', 1})))
	out, err := app.Compose(t)
	must(err)
	if len(out) != 301 {
		fail("composing gave %d bytes, expected 301", len(out))
	}
	want(gram(t), string(out), string(out))
}
''')
bug("ast-shared-builder", "A10",
 [(APP, '''	builder := app.treeBuilder.Create().WithGrammar(token).WithBlock(block)
	if channels != nil {
''', '''	builder := app.treeBuilder.WithGrammar(token).WithBlock(block)
	if channels != nil {
''')],
 "a token without remaining data parsed after one that had some, or two goroutines",
 "the trees of an application share their builder: remaining data and suffixes of an earlier parsing show up in later trees",
 PRE + '''
func main() {
	g := gram(tok("root", ln(one('a'))))
	_, _, _ = parse(g, "abc")
	_, t, ok := parse(g, "a")
	if !ok || t.HasRemaining() {
		fail("all data was taken, but the tree has remaining data")
	}
}
''')
bug("ast-external-suffix", "A06",
 [(APP, '''	if treeIns.HasSuffix() {
		treeBuilder.WithSuffix(treeIns.Suffix())
	}
''', '''	if treeIns.HasSuffix() && !treeIns.HasRemaining() {
		treeBuilder.WithSuffix(treeIns.Suffix())
	}
''')],
 "an external grammar with channels that match after its root, with data of the including grammar behind",
 "the channels matched after the external's root are dropped from the tree",
 PRE + '''
func main() {
	in := gram(tok("in", ln(one('a'))), chann{t: tok("space", ln(one(' ')))})
	g := gram(tok("root", ln(ext("in", in), one('b'))))
	_, t, ok := parse(g, "a b")
	if !ok {
		fail("refused")
	}
	if got := string(t.Bytes(true)); got != "a b" {
		fail("the tree has %q of \\"a b\\"", got)
	}
}
''')
bug("ast-max-fit", "A01",
 [(APP, '''			if cardinality.HasMax() {
				amount := uint(len(contentsList))
				if amount >= *pMax {
					break
				}
			}
''', '''			if cardinality.HasMax() {
				amount := uint8(len(contentsList))
				if amount >= uint8(*pMax) {
					break
				}
			}
''')],
 "an element with a maximum of 256 or more",
 "bounds of 256 and more wrap around: the element takes less than it can",
 PRE + '''
func main() {
	s := ""
	for i := 0; i < 270; i++ {
		s += "a"
	}
	want(gram(tok("root", ln(lit('a', 1, 260)))), s, s[:260])
}
''')
