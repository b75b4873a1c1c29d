//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/steve-care-software/rodkina/instances/grammars/components"
	i_grammars "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// The notation of the grammar of grammars, written down on its own: ordered
// alternatives of greedy sequences over the data without layout and comments.
var notation = map[string][]string{
	"grammar":                   {"root channel* instruction+"},
	"root":                      {"'@' variableName ';'"},
	"channel":                   {"'-' variableName channelPreviousNext? ';'"},
	"channelPreviousNext":       {"'[' channelPreviousNextInside ']'"},
	"channelPreviousNextInside": {"variableName ':' variableName", "':' variableName", "variableName"},
	"instruction":               {"valueAssignment", "composeAssignment", "everythingAssignment", "tokenAssignment", "externalTokenAssignment"},
	"valueAssignment":           {"variableName ':' anyByte+"},
	"composeAssignment":         {"variableName ':' compose suite ';'"},
	"everythingAssignment":      {"variableName ':' everything suite ';'"},
	"tokenAssignment":           {"variableName ':' block suite ';'"},
	"externalTokenAssignment":   {"variableName ':' sha512Hex suite ';'"},
	"compose":                   {"variableName composeWithAmount*"},
	"composeWithAmount":         {"'|' anyNumber+"},
	"everything":                {"everythingWithEscape", "everythingWithoutEscape"},
	"everythingWithEscape":      {"'#' variableName '!' variableName"},
	"everythingWithoutEscape":   {"'#' variableName"},
	"block":                     {"line delimiterThenLine*"},
	"delimiterThenLine":         {"'|' line"},
	"line":                      {"element+"},
	"element":                   {"variableName cardinality*"},
	"cardinality":               {"'?'", "'+'", "'*'", "'[' anyNumber+ ']'", "'[' anyNumber+ ',' anyNumber* ']'"},
	"suite":                     {"suitePrefixConst suiteValid suiteInvalid?", "suitePrefixConst suiteValid? suiteInvalid"},
	"suiteValid":                {"validConst suiteBlock"},
	"suiteInvalid":              {"invalidConst suiteBlock"},
	"suiteBlock":                {"':' variableName delimiterThenSuiteElement* ';'"},
	"delimiterThenSuiteElement": {"'&' variableName"},
}

const lowers, uppers, digits = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"

// the words of the notation, and what they match at a place (0: nothing)
var words = map[string]func(s []byte) int{
	"variableName": func(s []byte) int {
		if len(s) == 0 || strings.IndexByte(lowers, s[0]) < 0 {
			return 0
		}
		n := 1
		for n < len(s) && strings.IndexByte(lowers+uppers, s[n]) >= 0 {
			n++
		}
		return n
	},
	"sha512Hex": func(s []byte) int {
		for i := 0; i < 128; i++ {
			if i >= len(s) || strings.IndexByte("abcdefABCDEF"+digits, s[i]) < 0 {
				return 0
			}
		}
		return 128
	},
	"anyByte": func(s []byte) int {
		if len(s) == 0 {
			return 0
		}
		return 1
	},
	"anyNumber":            oneOf(digits),
	"anyHexChar":           oneOf("abcdefABCDEF" + digits),
	"anyLetter":            oneOf(lowers + uppers),
	"aToFUpperCaseLetters": oneOf("ABCDEF"),
	"aToFLowerCaseLetter":  oneOf("abcdef"),
	"uppercaseLetter":      oneOf(uppers),
	"lowerCaseLetter":      oneOf(lowers),
	"suitePrefixConst":     constant("---"),
	"validConst":           constant("valid"),
	"invalidConst":         constant("invalid"),
}

func oneOf(set string) func(s []byte) int {
	return func(s []byte) int {
		if len(s) > 0 && strings.IndexByte(set, s[0]) >= 0 {
			return 1
		}
		return 0
	}
}

func constant(k string) func(s []byte) int {
	return func(s []byte) int {
		if strings.HasPrefix(string(s), k) {
			return len(k)
		}
		return 0
	}
}

var notationNames = func() []string {
	out := []string{}
	for n := range notation {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

// strip drops layout and comments; at gives the place in the data of each byte
// that is left, and of the end.
func strip(data []byte) (out []byte, at []int) {
	for i := 0; i < len(data); {
		if bytes.IndexByte([]byte(" \t\n\r"), data[i]) >= 0 {
			i++
			continue
		}
		if eol := func(b byte) bool { return b == '\n' || b == '\r' }; bytes.HasPrefix(data[i:], []byte("//")) && i+2 < len(data) && !eol(data[i+2]) {
			for i < len(data) && !eol(data[i]) {
				i++
			}
			continue
		}
		out, at = append(out, data[i]), append(at, i)
		i++
	}
	return out, append(at, len(data))
}

// phrase matches a name of the notation: its meaning and the bytes taken, or
// none.
func phrase(name string, s []byte) (string, int) {
	if w, ok := words[name]; ok {
		if n := w(s); n > 0 {
			return fmt.Sprintf("%s%q", name, s[:n]), n
		}
		return "", -1
	}
	for _, alt := range notation[name] {
		var b strings.Builder
		pos, ok := 0, true
		for _, item := range strings.Fields(alt) {
			if item[0] == '\'' {
				if pos >= len(s) || s[pos] != item[1] {
					ok = false
					break
				}
				b.WriteByte(item[1])
				pos++
				continue
			}
			min, max := 1, 1
			switch item[len(item)-1] {
			case '?':
				min = 0
			case '*':
				min, max = 0, 1<<30
			case '+':
				max = 1 << 30
			}
			item = strings.TrimRight(item, "?*+")
			n := 0
			for ; n < max && pos < len(s); n++ {
				m, l := phrase(item, s[pos:])
				if l < 0 {
					break
				}
				b.WriteString(m)
				pos += l
			}
			if n < min {
				ok = false
				break
			}
		}
		if ok && pos > 0 {
			return name + "(" + b.String() + ")", pos
		}
	}
	return "", -1
}

// meaning is the same for a real tree.
func meaning(t trees.Tree) string {
	name := t.Grammar().Name()
	var b strings.Builder
	if _, ok := words[name]; ok {
		plainBytes(t, &b)
		return fmt.Sprintf("%s%q", name, b.String())
	}
	for _, e := range t.Block().Successful().Elements().List() {
		for _, ct := range e.Contents().List() {
			if ct.IsTree() {
				b.WriteString(meaning(ct.Tree()))
				continue
			}
			b.WriteByte(ct.Value().Content())
		}
	}
	return name + "(" + b.String() + ")"
}

func plainBytes(t trees.Tree, b *strings.Builder) {
	for _, e := range t.Block().Successful().Elements().List() {
		for _, ct := range e.Contents().List() {
			if ct.IsTree() {
				plainBytes(ct.Tree(), b)
				continue
			}
			b.WriteByte(ct.Value().Content())
		}
	}
}

// ------------------------------------------------------------- generation

type phraseGen struct {
	r *rand.Rand
	// depth of the repetitions
	n int
	// the next repetition is of so many
	crowd int
}

func (g *phraseGen) word(name string) string {
	pick := func(set string) byte { return set[g.r.Intn(len(set))] }
	switch name {
	case "variableName":
		if g.r.Intn(12) == 0 {
			return []string{"valid", "invalid", "v", "a", "inv"}[g.r.Intn(5)]
		}
		out := []byte{pick(lowers)}
		n := g.r.Intn(6)
		if g.r.Intn(40) == 0 {
			n = 20 + g.r.Intn(280)
		}
		for ; n > 0; n-- {
			out = append(out, pick(lowers+uppers))
		}
		return string(out)
	case "sha512Hex":
		out := make([]byte, 128)
		for i := range out {
			out[i] = pick("abcdefABCDEF" + digits)
		}
		return string(out)
	case "anyByte":
		if coin(g.r) {
			return string([]byte{byte(g.r.Intn(256))})
		}
		return string([]byte{pick(lowers + uppers + digits + ";:@-[]|&#!{}")})
	case "anyNumber":
		return string([]byte{pick(digits)})
	case "suitePrefixConst":
		return "---"
	case "validConst":
		return "valid"
	case "invalidConst":
		return "invalid"
	}
	panic("harness: no word " + name)
}

// atoms derives a phrase, as a list of bytes.
func (g *phraseGen) atoms(name string, out *[]string) {
	if _, ok := words[name]; ok {
		for _, b := range []byte(g.word(name)) {
			*out = append(*out, string([]byte{b}))
		}
		return
	}
	alts := notation[name]
	for _, item := range strings.Fields(alts[g.r.Intn(len(alts))]) {
		if item[0] == '\'' {
			*out = append(*out, item[1:2])
			continue
		}
		n := 1
		switch item[len(item)-1] {
		case '?':
			n = g.r.Intn(2)
		case '*':
			n = g.r.Intn(g.n)
		case '+':
			n = 1 + g.r.Intn(g.n)
		}
		inner := g
		if g.crowd > 0 && strings.IndexByte("*+", item[len(item)-1]) >= 0 && coin(g.r) {
			n, g.crowd = g.crowd, 0
			inner = &phraseGen{r: g.r, n: 2}
		} else if g.n > 1 && strings.IndexByte("*+", item[len(item)-1]) >= 0 && g.r.Intn(20) == 0 {
			// now and then, many of them
			n = 6 + g.r.Intn(25)
			inner = &phraseGen{r: g.r, n: 1}
		}
		item = strings.TrimRight(item, "?*+")
		for ; n > 0; n-- {
			inner.atoms(item, out)
		}
	}
}

func (g *phraseGen) mutate(atoms []string) []string {
	out := append([]string{}, atoms...)
	for k := 1 + g.r.Intn(3); k > 0 && len(out) > 0; k-- {
		i := g.r.Intn(len(out))
		odd := string(";:@-[]|&#!?*+,{}/ \nvaA0 9fgG"[g.r.Intn(28)])
		switch g.r.Intn(6) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out[i] = odd
		case 2:
			out = append(out[:i], append([]string{odd}, out[i:]...)...)
		case 3:
			out = out[:i]
		case 4:
			out[i] = string([]byte{byte(g.r.Intn(256))})
		case 5:
			j := g.r.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// layout puts the atoms together, with layout and comments in between.
func (g *phraseGen) layout(atoms []string, chance int) []byte {
	out := []byte{}
	noise := func() {
		for g.r.Intn(100) < chance {
			switch g.r.Intn(6) {
			case 0:
				if len(out) > 0 && out[len(out)-1] == '/' {
					// or else the comment begins with that slash
					out = append(out, ' ')
				}
				out = append(out, "//"...)
				for k := 1 + g.r.Intn(8); k > 0; k-- {
					b := byte(g.r.Intn(256))
					if coin(g.r) {
						b = " ;:/\"@-x"[g.r.Intn(8)]
					}
					if b == '\n' || b == '\r' {
						b = '/'
					}
					out = append(out, b)
				}
				out = append(out, "\n\r"[g.r.Intn(2)])
			default:
				out = append(out, " \t\n\r"[g.r.Intn(4)])
			}
		}
	}
	for _, a := range atoms {
		noise()
		out = append(out, a...)
	}
	noise()
	return out
}

// --------------------------------------------------------- real grammars

type builtIn struct {
	grammar grammars.Grammar
	tokens  map[string]grammars.Token
	models  map[string]*gGram
	conv    *converter
}

var builtInOnce sync.Once
var builtInIns *builtIn

func collectTokens(t grammars.Token, out map[string]grammars.Token) {
	if _, ok := out[t.Name()]; ok {
		return
	}
	out[t.Name()] = t
	for _, l := range t.Block().Lines() {
		for _, ct := range l.Containers() {
			if ct.IsElement() && ct.Element().Content().IsInstance() && ct.Element().Content().Instance().IsToken() {
				collectTokens(ct.Element().Content().Instance().Token(), out)
			}
		}
	}
}

// theBuiltIn makes the grammar of grammars, and a grammar for each of its
// tokens, with the same channels.
func theBuiltIn(c *Ctx) *builtIn {
	builtInOnce.Do(func() {
		b := &builtIn{tokens: map[string]grammars.Token{}, models: map[string]*gGram{}}
		if p, msg := Protect(func() { b.grammar = i_grammars.NewGrammar().Grammar() }); p {
			c.Violate("panic:"+panicSite(msg), "building the grammar of grammars panicked: %s", msg)
		}
		collectTokens(b.grammar.Root(), b.tokens)
		b.conv = &converter{toks: map[grammars.Token]*gTok{}}
		for name, t := range b.tokens {
			gr, err := grammars.NewBuilder().Create().WithRoot(t).WithChannels(b.grammar.Channels()).Now()
			must(err)
			b.models[name] = b.conv.grammar(gr)
			b.models[name].real = gr
		}
		builtInIns = b
	})
	if builtInIns == nil {
		c.Violate("no-grammar", "the grammar of grammars could not be built")
	}
	return builtInIns
}

func (b *builtIn) of(c *Ctx, name string) *gGram {
	m := b.models[name]
	if m == nil {
		c.Violate("token-missing", "the grammar of grammars has no token %q", name)
	}
	return m
}

// parseNotation executes and compares with the notation.
func parseNotation(c *Ctx, app applications.Application, g *gGram, name string, data []byte) (trees.Tree, string) {
	plain, at := strip(data)
	want, n := phrase(name, plain)
	var t trees.Tree
	var err error
	given := append([]byte{}, data...)
	if p, msg := Protect(func() { t, err = app.Execute(g.real, given) }); p {
		c.Violate("panic:"+panicSite(msg), "parsing panicked: %s\ntoken: %s\ninput: %q", msg, name, data)
	}
	if err != nil {
		t = nil
	}
	c.Count("phrases parsed", 1)
	if (n >= 0) != accepted(t) {
		c.Violate("verdict", "the %s %q is %s, the notation says %s\nmeaning: %s", name, data, said(accepted(t)), said(n >= 0), want)
	}
	if n < 0 {
		c.Count("phrases refused", 1)
		c.Distinct("refused " + name + string(plain))
		return nil, ""
	}
	got := meaning(t)
	if got != want {
		c.Violate("meaning", "the %s %q is parsed as\n%s\nthe notation says\n%s", name, data, got, want)
	}
	if rem := data[at[n]:]; !bytes.Equal(t.Remaining(), rem) {
		c.Violate("remaining", "parsing the %s %q leaves %q, want %q", name, data, t.Remaining(), rem)
	}
	c.Count("phrases accepted", 1)
	if n < len(plain) {
		c.Count("phrases accepted in part", 1)
	}
	c.Distinct(want + string(plain[n:]))
	return t, want
}

// ------------------------------------------------------------------- G01

func g01(c *Ctx) {
	app := applications.NewApplication()
	b := theBuiltIn(c)
	for k := 0; k < 4; k++ {
		name := notationNames[c.R.Intn(len(notationNames))]
		if k == 0 {
			name = []string{"grammar", "tokenAssignment", "composeAssignment", "everythingAssignment"}[c.R.Intn(4)]
		}
		g := &phraseGen{r: c.R, n: 2 + c.R.Intn(3)}
		if k == 0 && c.Index%40 == 7 {
			// hundreds of one part
			name = []string{"line", "block", "suiteBlock", "valueAssignment", "compose", "element", "cardinality"}[c.Index/40%7]
			g.n, g.crowd = 2, 65+c.R.Intn(400)
			c.Count("phrases with a part repeated hundreds of times", 1)
		}
		atoms := []string{}
		g.atoms(name, &atoms)
		for i := 0; i < 4; i++ {
			m := atoms
			if i > 0 {
				m = g.mutate(atoms)
			}
			data := g.layout(m, []int{0, 3, 10}[c.R.Intn(3)])
			if _, mean := parseNotation(c, app, b.of(c, name), name, data); i == 0 {
				c.Sample("%s %q is %s", name, data, mean)
			}
		}
	}
}

// ------------------------------------------------------------------- G02

func g02(c *Ctx) {
	app := applications.NewApplication()
	b := theBuiltIn(c)
	name := notationNames[c.R.Intn(len(notationNames))]
	if coin(c.R) {
		name = "grammar"
	}
	g := &phraseGen{r: c.R, n: 2}
	atoms := []string{}
	g.atoms(name, &atoms)
	// the bytes must stay the same, whatever is put in between
	keep := atoms[:0]
	for _, a := range atoms {
		if strings.IndexByte(" \t\n\r/", a[0]) >= 0 {
			a = "/"
			if len(keep) > 0 && keep[len(keep)-1] == "/" {
				a = "x"
			}
		}
		keep = append(keep, a)
	}
	atoms = keep
	m := b.of(c, name)
	first := ""
	for i := 0; i < 4; i++ {
		data := g.layout(atoms, []int{0, 5, 20, 45}[i])
		t, mean := parseNotation(c, app, m, name, data)
		if t == nil {
			c.Violate("layout-refused", "the %s %q is refused, laid out as %q", name, strings.Join(atoms, ""), data)
		}
		if i == 0 {
			first = mean
		} else if mean != first {
			c.Violate("layout", "laid out as %q, the %s is parsed as\n%s\ninstead of\n%s", data, name, mean, first)
		}
		if got := string(t.Bytes(false)); got != strings.Join(atoms, "") && len(t.Remaining()) == 0 {
			c.Violate("bytes", "the bytes of the %s %q without channels are %q, want %q", name, data, got, strings.Join(atoms, ""))
		}
		if got := append(t.Bytes(true), t.Remaining()...); !bytes.Equal(got, data) {
			c.Violate("bytes-all", "the bytes of the %s %q with channels are %q", name, data, got)
		}
		want, _, known := refParse(m, data, 400000)
		if !known {
			c.Count("phrases beyond the reference's budget (full tree not compared)", 1)
			continue
		}
		if a, z := realString(t), want.String(); a != z {
			c.Violate("tree", "wrong tree for the %s %q: %s", name, data, firstDiff(a, z))
		}
		c.Count("layout and comments compared", len(data)-len(atoms))
		if i == 3 {
			c.Sample("%s %q is %s", name, data, mean)
		}
	}
}

// ------------------------------------------------------------------- G03

type libToken struct {
	name string
	real grammars.Token
}

func library(c *Ctx) []libToken {
	var out []libToken
	if p, msg := Protect(func() {
		t := tokens.NewToken()
		out = []libToken{
			{"variableName", t.VariableName()}, {"sha512Hex", t.Sha512Hex()}, {"anyHexChar", t.AnyHexCharacter()},
			{"anyLetter", t.AnyLetter()}, {"anyByte", t.AnyByte()}, {"anyNumber", t.AnyNumber()},
			{"aToFUpperCaseLetters", t.AToFUpperCaseLetters()}, {"aToFLowerCaseLetter", t.AToFLowerCaseLetters()},
			{"uppercaseLetter", t.UpperCaseLetters()}, {"lowerCaseLetter", t.LowerCaseLetters()},
		}
	}); p {
		c.Violate("panic:"+panicSite(msg), "building the token library panicked: %s", msg)
	}
	return out
}

func g03(c *Ctx) {
	app := applications.NewApplication()
	for _, l := range library(c) {
		gr, err := grammars.NewBuilder().Create().WithRoot(l.real).Now()
		must(err)
		if l.real.Name() != l.name {
			c.Violate("name", "the token %s is named %q", l.name, l.real.Name())
		}
		try := func(data []byte) {
			var t trees.Tree
			var err error
			if p, msg := Protect(func() { t, err = app.Execute(gr, data) }); p {
				c.Violate("panic:"+panicSite(msg), "parsing panicked: %s\ntoken: %s\ninput: %q", msg, l.name, data)
			}
			n := words[l.name](data)
			if ok := err == nil && accepted(t); ok != (n > 0) {
				c.Violate("verdict", "%q is %s as %s, want %s", data, said(ok), l.name, said(n > 0))
			}
			c.Count("inputs judged", 1)
			c.Distinct(l.name + string(data))
			if n == 0 {
				return
			}
			c.Count("inputs accepted", 1)
			if got := t.Bytes(true); !bytes.Equal(got, data[:n]) {
				c.Violate("extent", "%s takes %q of %q, want %q", l.name, got, data, data[:n])
			}
			if !bytes.Equal(t.Remaining(), data[n:]) {
				c.Violate("remaining", "%s leaves %q of %q, want %q", l.name, t.Remaining(), data, data[n:])
			}
		}
		if c.Index == 0 {
			for b := 0; b < 256; b++ {
				try([]byte{byte(b)})
				try([]byte{byte(b), 'a'})
				try([]byte{'a', byte(b)})
				try([]byte{'m', 'Y', byte(b), 'z'})
				s := []byte(strings.Repeat("c7E", 43))[:128]
				s[c.R.Intn(128)] = byte(b)
				try(s)
			}
		}
		if c.Index%50 == 1 {
			// long words
			n := []int{254, 255, 256, 257, 300, 1000, 1025, 5000}[c.R.Intn(8)]
			long := []byte(strings.Repeat("aBcDe", n/5+1))[:n]
			try(long)
			long[n-1-c.R.Intn(3)] = "0Z-_ "[c.R.Intn(5)]
			try(long)
			c.Count("long words", 2)
		}
		for k := 0; k < 4; k++ {
			g := &phraseGen{r: c.R, n: 3}
			data := make([]byte, c.R.Intn(6))
			set := []string{lowers + uppers + digits, "abcdefABCDEF" + digits, lowers + "[`{@^~", "\x00\xff/:@G`g"}[c.R.Intn(4)]
			for i := range data {
				data[i] = set[c.R.Intn(len(set))]
			}
			switch c.R.Intn(4) {
			case 0:
				data = append([]byte(g.word("variableName")), data...)
			case 1:
				data = append([]byte(g.word("sha512Hex"))[:126+c.R.Intn(3)], data...)
			}
			if k == 0 {
				c.R.Read(data)
			}
			try(data)
		}
	}
	c.Sample("the 10 tokens of the library on random words, and all bytes")
}

// ------------------------------------------------------------------- G04

// lineOf is the model of a line of single bytes.
func lineOf(bs []byte) []*gElem {
	out := []*gElem{}
	for _, b := range bs {
		out = append(out, &gElem{kind: gVal, name: strconv.Itoa(int(b)), num: b, min: 1, max: 1})
	}
	return out
}

func composeOf(s string) []gOcc {
	out := []gOcc{}
	for _, b := range []byte(s) {
		out = append(out, gOcc{strconv.Itoa(int(b)), b, 1})
	}
	return out
}

func suitesString(s []gSuite) string {
	l := []string{}
	for _, x := range s {
		l = append(l, fmt.Sprintf("%v %v", x.valid, x.content))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// sameToken compares a real token with the model it must be equal to.
func sameToken(c *Ctx, what string, got grammars.Token, want *gTok) {
	conv := &converter{toks: map[grammars.Token]*gTok{}}
	var m *gTok
	if p, msg := Protect(func() { m = conv.token(got) }); p {
		c.Violate("shape", "%s built a token that does not read back: %s", what, msg)
	}
	if a, b := describeTok(m), describeTok(want); a != b {
		c.Violate("token", "%s gives a token that reads %s, want %s", what, a, b)
	}
	if a, b := suitesString(m.suites), suitesString(want.suites); a != b {
		c.Violate("suites", "%s gives a token with the suites %q, want %q", what, a, b)
	}
	c.Count("parts built and read back", 1)
	c.Distinct(describeTok(want) + suitesString(want.suites))
}

func describeTok(t *gTok) string {
	out := []string{}
	t.each(map[*gTok]bool{}, func(t *gTok) { out = append(out, t.String()) })
	return strings.Join(out, "; ")
}

func randText(r *rand.Rand) string {
	n := 1 + r.Intn(8)
	switch r.Intn(3) {
	case 0:
		out := make([]byte, n)
		r.Read(out)
		return string(out)
	case 1:
		out := []rune{}
		for i := 0; i < n; i++ {
			out = append(out, []rune("aZ0é日ß\U0001F600~\u0080")[r.Intn(9)])
		}
		return string(out)
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(32 + r.Intn(95))
	}
	return string(out)
}

func g04(c *Ctx) {
	comp := components.NewComponent()
	app := applications.NewApplication()
	guard := func(what string, f func()) {
		if p, msg := Protect(f); p {
			c.Violate("panic:"+panicSite(msg), "%s panicked: %s", what, msg)
		}
	}
	parses := func(what string, t grammars.Token, data string, want int) {
		gr, err := grammars.NewBuilder().Create().WithRoot(t).Now()
		must(err)
		var tr trees.Tree
		guard(what, func() { tr, err = app.Execute(gr, []byte(data)) })
		n := 0
		if err == nil && accepted(tr) {
			n = len(data) - len(tr.Remaining())
		}
		if n != want {
			c.Violate("match", "%s takes %d bytes of %q, want %d", what, n, data, want)
		}
		c.Count("inputs judged", 1)
	}
	for k := 0; k < 12; k++ {
		s := randText(c.R)
		if k == 0 && c.Index%40 == 11 {
			// a long one
			for n := 250 + c.R.Intn(60); len(s) < n; {
				s += randText(c.R)
			}
			c.Count("long texts", 1)
		}
		// all characters
		what := fmt.Sprintf("AllCharacters(%q)", s)
		var t grammars.Token
		guard(what, func() { t = comp.Token().AllCharacters("all", s) })
		sameToken(c, what, t, &gTok{name: "all", lines: [][]*gElem{lineOf([]byte(s))}, suites: []gSuite{{true, composeOf(s)}}})
		parses(what, t, s+"x", len(s))
		cutAt := c.R.Intn(len(s))
		bad := []byte(s)
		bad[cutAt] ^= byte(1 + c.R.Intn(255))
		parses(what, t, string(bad), 0)
		parses(what, t, s[:cutAt], 0)
		c.Sample("%s", what)

		// any character: one line for each, in order
		u := strings.ToValidUTF8(s, "?")
		what = fmt.Sprintf("AnyCharacter(%q)", u)
		guard(what, func() { t = comp.Token().AnyCharacter("any", u) })
		want := &gTok{name: "any"}
		seen := map[string]bool{}
		for _, ch := range chars(u) {
			want.lines = append(want.lines, lineOf([]byte(ch)))
			if !seen[ch] {
				seen[ch] = true
				want.suites = append(want.suites, gSuite{true, composeOf(ch)})
			}
		}
		sameToken(c, what, t, want)
		for _, ch := range chars(u) {
			longest := 0
			for _, o := range chars(u) {
				if strings.HasPrefix(ch, o) {
					longest = len(o)
					break
				}
			}
			parses(what, t, ch, longest)
		}

		// values, tokens, everythings, cardinalities
		inner := &gTok{name: "inner", lines: [][]*gElem{lineOf([]byte(s))}, suites: []gSuite{{true, composeOf(s)}}}
		realInner := comp.Token().AllCharacters("inner", s)
		b := byte(c.R.Intn(256))
		min := uint(c.R.Intn(4))
		max := -1
		var pMax *uint
		if coin(c.R) {
			m := min + uint(c.R.Intn(3))
			pMax, max = &m, int(m)
		}
		esc := &gTok{name: "esc", lines: [][]*gElem{lineOf([]byte{b})}}
		ev := &gElem{kind: gEvr, name: "inner", min: 1, max: 1, exc: inner}
		evName := randText(c.R)
		line := []*gElem{lineOf([]byte{b})[0], {kind: gTokn, name: "inner", min: min, max: max, tok: inner}, ev}
		what = fmt.Sprintf("a token of the value %d, a token [%d,%d] and an everything except %q", b, min, max, s)
		guard(what, func() {
			realEsc := comp.Token().FromBlock("esc", comp.Block().FromLines([]grammars.Line{comp.Line().FromElements([]grammars.Element{comp.Element().FromValue(b)})}), nil)
			var e grammars.Everything
			if coin(c.R) {
				e = comp.Everything().WithoutEscape(evName, realInner)
			} else {
				switch c.R.Intn(3) {
				case 0:
					// doubled to escape, as quotes are
					realEsc, esc = realInner, inner
				case 1:
					// another token, of the same name
					realEsc = comp.Token().FromBlock("inner", comp.Block().FromLines([]grammars.Line{comp.Line().FromElements([]grammars.Element{comp.Element().FromValue(b)})}), nil)
					esc = &gTok{name: "inner", lines: [][]*gElem{lineOf([]byte{b})}}
				}
				e = comp.Everything().Everything(evName, realInner, realEsc)
				ev.esc = esc
			}
			if e.Name() != evName {
				c.Violate("everything-name", "an everything named %q is named %q", evName, e.Name())
			}
			own := map[string]bool{}
			for k := c.R.Intn(4); k > 0; k-- {
				own[randText(c.R)] = coin(c.R)
			}
			if c.R.Intn(6) == 0 { // as many as an alphabet has
				for k := 10 + c.R.Intn(90); k > 0; k-- {
					one := string([]byte{byte(c.R.Intn(256))})
					if c.R.Intn(4) == 0 {
						one = randText(c.R)
					}
					own[one] = coin(c.R)
				}
			}
			if k == 1 && c.Index%40 == 12 { // more than a byte counts
				for n := 256 + c.R.Intn(60); len(own) < n; {
					own[randText(c.R)+randText(c.R)] = coin(c.R)
				}
				c.Count("suites of more than 255 examples", 1)
			}
			els := []grammars.Element{comp.Element().FromValue(b), comp.Element().FromToken(realInner, comp.Cardinality().Cardinality(min, pMax)), comp.Element().FromEverything(e)}
			for k := c.R.Intn(3); k > 0; k-- {
				// elements of the same name, or the same element again
				switch c.R.Intn(3) {
				case 0:
					name := strconv.Itoa(int(b))
					els = append(els, comp.Element().FromToken(comp.Token().AllCharacters(name, s), comp.Cardinality().Once()))
					line = append(line, &gElem{kind: gTokn, name: name, min: 1, max: 1, tok: &gTok{name: name, lines: inner.lines, suites: inner.suites}})
				case 1:
					els = append(els, comp.Element().FromToken(realInner, comp.Cardinality().Once()))
					line = append(line, &gElem{kind: gTokn, name: "inner", min: 1, max: 1, tok: inner})
				case 2:
					els = append(els, comp.Element().FromValue(b))
					line = append(line, lineOf([]byte{b})[0])
				}
			}
			once := comp.Cardinality().Once()
			if once.Min() != 1 || !once.HasMax() || *once.Max() != 1 {
				c.Violate("once", "the cardinality once is [%d,%v]", once.Min(), once.Max())
			}
			suites := comp.Suite().Suites(own)
			if (suites == nil) != (len(own) == 0) {
				c.Violate("suites-nil", "the suites of %d examples are %v", len(own), suites)
			}
			want := &gTok{name: s, lines: [][]*gElem{line}}
			for v, ok := range own {
				want.suites = append(want.suites, gSuite{ok, composeOf(v)})
			}
			ev.name = evName
			if coin(c.R) {
				sameToken(c, what, comp.Token().FromBlock(s, comp.Block().FromLines([]grammars.Line{comp.Line().FromElements(els)}), suites), want)
				return
			}
			want.lines = nil
			for _, e := range line {
				want.lines = append(want.lines, []*gElem{e})
			}
			sameToken(c, what+", any of them", comp.Token().AnyElement(s, els, suites), want)
		})

		// composes
		what = fmt.Sprintf("Compose(%q)", s)
		guard(what, func() {
			cp := comp.Compose().Compose([]byte(s))
			if a, z := fmt.Sprint(convCompose(cp)), fmt.Sprint(composeOf(s)); a != z || cp.Name() != s {
				c.Violate("compose", "%s gives %q %s, want %s", what, cp.Name(), a, z)
			}
			ct, err := grammars.NewContainerBuilder().Create().WithCompose(cp).Now()
			must(err)
			ln, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{ct}).Now()
			must(err)
			tok := comp.Token().FromBlock("composed", comp.Block().FromLines([]grammars.Line{ln}), nil)
			out, err := app.Compose(tok)
			if err != nil || string(out) != s {
				c.Violate("composed", "%s composes %q (error: %v)", what, out, err)
			}
			parses(what, tok, s+s, len(s))
			c.Count("parts built and read back", 1)
		})
	}
}

// chars are the characters of a text, an invalid byte being one.
func chars(s string) []string {
	out := []string{}
	for len(s) > 0 {
		n := 1
		for i := range s {
			if i > 0 {
				n = i
				break
			}
		}
		if n == 1 && len([]rune(s)) == 1 {
			n = len(s)
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

// ------------------------------------------------------------------- G05

func g05(c *Ctx) {
	app := applications.NewApplication()
	type item struct {
		name string
		gr   grammars.Grammar
	}
	items := []item{}
	add := func(name string, t grammars.Token, ch grammars.Channels) {
		b := grammars.NewBuilder().Create().WithRoot(t)
		if ch != nil {
			b.WithChannels(ch)
		}
		gr, err := b.Now()
		must(err)
		items = append(items, item{name, gr})
	}
	channels := components.NewComponent().Channel().Channels()
	for _, l := range library(c) {
		add(l.name, l.real, nil)
		add(l.name+" with channels", l.real, channels)
	}
	var whole i_grammars.Grammar
	if p, msg := Protect(func() {
		whole = i_grammars.NewGrammar()
		add("grammar token", whole.GrammarToken(), channels)
		items = append(items, item{"grammar", whole.Grammar()})
	}); p {
		c.Violate("panic:"+panicSite(msg), "building the grammar of grammars panicked: %s", msg)
	}
	it := items[c.Index%len(items)]
	m := fromGrammar(it.gr)
	runs := []suiteRun{}
	suiteRuns(m, &runs)
	want := map[string]int{}
	total := 0
	for _, r := range runs {
		for _, s := range r.tok.suites {
			want[fmt.Sprintf("%s on %q expecting %v", r.tok.name, expand(s.content), s.valid)]++
			total++
		}
		if _, ok := notation[r.tok.name]; ok && len(r.tok.suites) == 0 {
			c.Violate("no-suite", "the token %s of %s has no suite", r.tok.name, it.name)
		}
		if _, ok := words[r.tok.name]; ok && len(r.tok.suites) == 0 {
			c.Violate("no-suite", "the token %s of %s has no suite", r.tok.name, it.name)
		}
	}
	cov, err := app.Coverages(it.gr)
	if err != nil {
		c.Violate("coverages-error", "running the suites of %s gives the error: %v", it.name, err)
	}
	got := 0
	for _, cv := range cov.List() {
		for _, ex := range cv.Executions().List() {
			data := []byte{}
			for _, o := range ex.Expectation().Content().List() {
				for i := uint(0); i < o.Occurences(); i++ {
					data = append(data, o.Value().Number())
				}
			}
			key := fmt.Sprintf("%s on %q expecting %v", cv.Token().Name(), data, ex.Expectation().IsValid())
			if want[key]--; want[key] < 0 {
				c.Violate("suite", "unexpected suite of %s: %s", it.name, key)
			}
			ok := ex.Result().IsTree() && accepted(ex.Result().Tree())
			if ok != ex.Expectation().IsValid() {
				c.Violate("own-suite", "a suite of %s does not hold: %s, it is %s", it.name, key, said(ok))
			}
			if _, is := notation[cv.Token().Name()]; is {
				plain, _ := strip(data)
				if _, n := phrase(cv.Token().Name(), plain); (n >= 0) != ok {
					c.Violate("suite-notation", "the notation disagrees with a suite of %s: %s", it.name, key)
				}
			}
			c.Distinct(key)
			got++
		}
	}
	if got != total {
		c.Violate("suite-missing", "%d suites of %s were executed, there are %d", got, it.name, total)
	}
	if n, is := map[string]int{"anyNumber": 10, "aToFUpperCaseLetters": 6, "aToFLowerCaseLetter": 6, "uppercaseLetter": 26, "lowerCaseLetter": 26}[it.name]; is && got != n {
		c.Violate("suite-count", "%d suites of %s were executed, want %d", got, it.name, n)
	}
	c.Count("suites executed that hold", got)
	c.Sample("%s: %d suites hold", it.name, got)
}

// ------------------------------------------------------------------- G06

// outline lists the tokens below t, with their numbers of lines and suites.
func outline(t grammars.Token) string {
	all := map[string]grammars.Token{}
	collectTokens(t, all)
	out := []string{}
	for name, x := range all {
		n := 0
		if x.HasSuites() {
			n = len(x.Suites().List())
		}
		out = append(out, fmt.Sprintf("%s/%d/%d", name, len(x.Block().Lines()), n))
	}
	sort.Strings(out)
	return t.Name() + ": " + strings.Join(out, " ")
}

// makersTogether: several goroutines make tokens and grammars with one maker nothing was made with yet.
func makersTogether(c *Ctx) {
	makes := func() map[string]func() grammars.Token {
		lib := tokens.NewToken()
		gr := i_grammars.NewGrammar()
		comp := components.NewComponent()
		return map[string]func() grammars.Token{
			"VariableName": lib.VariableName, "Sha512Hex": lib.Sha512Hex, "AnyHexCharacter": lib.AnyHexCharacter, "AnyLetter": lib.AnyLetter,
			"AnyByte": lib.AnyByte, "AnyNumber": lib.AnyNumber, "AToFUpperCaseLetters": lib.AToFUpperCaseLetters,
			"AToFLowerCaseLetters": lib.AToFLowerCaseLetters, "UpperCaseLetters": lib.UpperCaseLetters, "LowerCaseLetters": lib.LowerCaseLetters,
			"GrammarToken": gr.GrammarToken, "Grammar": func() grammars.Token { return gr.Grammar().Root() },
			"AllCharacters": func() grammars.Token { return comp.Token().AllCharacters("all", "some text") },
			"AnyCharacter":  func() grammars.Token { return comp.Token().AnyCharacter("any", "abc") },
			"AnyElement": func() grammars.Token {
				e := comp.Element().FromToken(comp.Token().AnyCharacter("in", "xyz"), comp.Cardinality().Once())
				return comp.Token().FromBlock("block", comp.Block().FromLines([]grammars.Line{comp.Line().FromElements([]grammars.Element{e})}), comp.Suite().Suites(map[string]bool{"x": true, "q": false}))
			},
		}
	}
	names := []string{}
	want := map[string]string{}
	for name, f := range makes() {
		names = append(names, name)
		want[name] = outline(f())
	}
	sort.Strings(names)
	for k := 0; k < 6; k++ {
		m := makes()
		errs := make(chan string, 1000)
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			order := c.R.Perm(len(names))
			if w == 1 || k%2 == 0 { // all in the same order, so that the first uses coincide
				for i := range order {
					order[i] = (k*7 + i) % len(names)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs <- fmt.Sprintf("panic: %v", r)
					}
				}()
				<-begin
				for _, i := range order {
					if got := outline(m[names[i]]()); got != want[names[i]] {
						errs <- fmt.Sprintf("with others, %s makes %s, want %s", names[i], cut(got, 400), cut(want[names[i]], 400))
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		close(errs)
		for e := range errs {
			c.Violate("concurrent", "%s", e)
		}
	}
	c.Count("tokens made with a shared maker", 18*len(names))
}

func g06(c *Ctx) {
	makersTogether(c)
	b := theBuiltIn(c)
	app := applications.NewApplication()
	type job struct {
		name string
		data []byte
		want string
	}
	g := &phraseGen{r: c.R, n: 2}
	jobs := []job{}
	for k := 0; k < 8; k++ {
		name := notationNames[c.R.Intn(len(notationNames))]
		atoms := []string{}
		g.atoms(name, &atoms)
		if coin(c.R) {
			atoms = g.mutate(atoms)
		}
		data := g.layout(atoms, 5)
		plain, _ := strip(data)
		want, n := phrase(name, plain)
		if n < 0 {
			want = "refused"
		}
		jobs = append(jobs, job{name, data, want})
		b.of(c, name)
	}
	run := func(j job, gr grammars.Grammar) string {
		t, err := app.Execute(gr, j.data)
		if err != nil || !accepted(t) {
			return "refused"
		}
		return meaning(t)
	}
	const workers = 6
	errs := make(chan string, 1000)
	begin := make(chan struct{})
	maker := i_grammars.NewGrammar()
	// half of the time the shared grammar is one nothing was done with yet
	cold := map[string]grammars.Grammar{}
	if coin(c.R) {
		gr := maker.Grammar()
		tokens := map[string]grammars.Token{}
		collectTokens(gr.Root(), tokens)
		for _, j := range jobs {
			made, err := grammars.NewBuilder().Create().WithRoot(tokens[j.name]).WithChannels(gr.Channels()).Now()
			if err != nil {
				c.Violate("build", "the grammar of %s cannot be built: %v", j.name, err)
			}
			cold[j.name] = made
		}
		c.Count("rounds on a new shared grammar", 1)
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		order := c.R.Perm(len(jobs))
		own := c.R.Intn(3) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Sprintf("panic: %v", r)
				}
			}()
			<-begin
			all := b.tokens
			ch := b.grammar.Channels()
			if own {
				all = map[string]grammars.Token{}
				gr := maker.Grammar()
				collectTokens(gr.Root(), all)
				ch = gr.Channels()
			}
			for _, i := range order {
				gr := b.models[jobs[i].name].real
				if x, ok := cold[jobs[i].name]; ok {
					gr = x
				}
				if own {
					var err error
					if gr, err = grammars.NewBuilder().Create().WithRoot(all[jobs[i].name]).WithChannels(ch).Now(); err != nil {
						errs <- err.Error()
						continue
					}
				}
				if s := run(jobs[i], gr); s != jobs[i].want {
					errs <- fmt.Sprintf("with others, the %s %q is parsed as %s, want %s", jobs[i].name, jobs[i].data, s, jobs[i].want)
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Violate("concurrent", "%s", e)
	}
	for _, j := range jobs {
		c.Distinct(j.name + j.want)
	}
	c.Count("concurrent phrases", workers*len(jobs))
	c.Sample("%d goroutines parse %d phrases", workers, len(jobs))
}

func init() {
	cases := func(quick, thorough int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return thorough
			}
			return quick
		}
	}
	register(&Prop{ID: "G01", Rule: "Random phrases of every part of the notation, derived and mutated, judged by a recogniser of the notation written on its own. A distinct case is a distinct meaning, or refused phrase.", Cases: cases(400, 8000), Run: g01, Hang: 60 * time.Second})
	register(&Prop{ID: "G02", Rule: "Random phrases, each in four layouts from none to heavy, with comments; the full tree is compared with the reference matcher. A distinct case is a distinct meaning.", Cases: cases(300, 5000), Run: g02, Hang: 60 * time.Second})
	register(&Prop{ID: "G03", Rule: "All bytes alone and in context, and random words, for the ten tokens of the library. A distinct case is a distinct token and input.", Cases: cases(200, 6000), Run: g03})
	register(&Prop{ID: "G04", Rule: "Random texts (any bytes, letters of several bytes), bytes, cardinalities, suites. A distinct case is a distinct token.", Cases: cases(1500, 40000), Run: g04})
	register(&Prop{ID: "G05", Rule: "Each of the built-in grammars with its own suites. A distinct case is a distinct suite.", Cases: cases(44, 440), Run: g05, Hang: 120 * time.Second})
	register(&Prop{ID: "G06", Rule: "Random phrases parsed by six goroutines with shared and new grammars, under the race detector. A distinct case is a distinct meaning.", Cases: cases(24, 500), Run: g06, Hang: 120 * time.Second})
}
