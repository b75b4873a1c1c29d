#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_ast.py")).read()
PRE = src.split("PRE = '''", 1)[1].split("'''", 1)[0].replace('\\\\n', '\\n')
PRE = PRE.replace('''	"os"
''', '''	"os"
	"strings"
''', 1).replace('''	"github.com/steve-care-software/rodkina/libs/asts/applications"
''', '''	"github.com/steve-care-software/rodkina/instances/grammars/components"
	builtin "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	"github.com/steve-care-software/rodkina/libs/asts/applications"
''', 1) + '''
var _ = strings.Repeat
var comp = components.NewComponent()
var lib = tokens.NewToken()
var notation = builtin.NewGrammar()
'''
T = "instances/grammars/tokens/token.go"
G = "instances/grammars/grammars/grammar.go"
CH = "instances/grammars/components/channels/channels.go"
CO = "instances/grammars/components/"

bug("inst-name-length", "G03",
 [(T, '''				app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, nil)),
''', '''				app.component.Element().FromToken(app.AnyLetter(), app.component.Cardinality().Cardinality(0, &maxLength)),
'''), (T, '''func (app *token) VariableName() grammars.Token {
''', '''func (app *token) VariableName() grammars.Token {
	maxLength := uint(62)
''')],
 "a variable name of more than 63 letters", "long variable names are cut",
 PRE + '''
func main() {
	g := gram(lib.VariableName())
	want(g, strings.Repeat("a", 20), strings.Repeat("a", 20))
	want(g, strings.Repeat("aB", 100), strings.Repeat("aB", 100))
}
''')
bug("inst-last-byte", "G03",
 [(T, "	for i := 0; i < byteLength; i++ {", "	for i := 0; i < byteLength-1; i++ {")],
 "the byte 255", "the token of any byte refuses the byte 255",
 PRE + '''
func main() {
	want(gram(lib.AnyByte()), "\\xfe", "\\xfe")
	want(gram(lib.AnyByte()), "\\xff", "\\xff")
}
''')
bug("inst-compose-runes", "G04",
 [(CO + "composes/compose.go", "	for _, oneValue := range values {\n", "	for _, oneRune := range string(values) {\n		oneValue := byte(oneRune)\n")],
 "a text with bytes from 128 on", "a compose of a text that isn't ASCII has the wrong bytes",
 PRE + '''
func main() {
	for _, s := range []string{"abc", "é", "\\xff"} {
		c := comp.Compose().Compose([]byte(s))
		got := ""
		for _, e := range c.List() {
			got += string([]byte{e.Value().Number()})
		}
		if got != s {
			fail("the compose of %q reads %q", s, got)
		}
	}
}
''')
0 and bug("inst-compose-occurences", "G04",
 [(CO + "composes/compose.go", '''	for _, oneValue := range values {
''', '''	for idx, oneValue := range values {
		if idx > 2 && values[idx-1] == oneValue && values[idx-2] == oneValue {
			continue
		}

''')],
 "a text with the same byte three times in a row", "a compose forgets repeated bytes",
 PRE + '''
func main() {
	for _, s := range []string{"abc", "aabb", "xaaa"} {
		c := comp.Compose().Compose([]byte(s))
		got := ""
		for _, e := range c.List() {
			got += strings.Repeat(string([]byte{e.Value().Number()}), int(e.Occurences()))
		}
		if got != s {
			fail("the compose of %q reads %q", s, got)
		}
	}
}
''')
0 and bug("inst-cardinality-zero", "G04",
 [(CO + "cardinalities/cardinality.go", "	if pMax != nil {", "	if pMax != nil && *pMax > min {")],
 "a cardinality whose max is its min",
 "a cardinality of exactly n has no max", PRE + '''
func main() {
	n := uint(2)
	c := comp.Cardinality().Cardinality(2, &n)
	if !c.HasMax() {
		fail("a cardinality of 2 to 2 has no max")
	}
}
''')
bug("inst-suite-empty-valid", "G04",
 [(CO + "suites/suite.go", "	for str, isValid := range values {\n", "	for str, isValid := range values {\n		if len(values) > 1 && len(strings.TrimSpace(str)) <= 0 {\n			continue\n		}\n\n"),
  (CO + "suites/suite.go", 'import (\n', 'import (\n	"strings"\n\n')],
 "suites of which one is made of spaces", "suites of spaces are dropped",
 PRE + '''
func main() {
	s := comp.Suite().Suites(map[string]bool{"a": true, " ": false})
	if len(s.List()) != 2 {
		fail("2 suites were given, %d were built", len(s.List()))
	}
}
''')
bug("inst-everything-escape", "G04",
 [(CO + "everythings/everything.go", "	if escape != nil {", "	if escape != nil && escape.Name() != exception.Name() {")],
 "an escape of the same name as the exception", "the escape is dropped when it is the exception's token, as in doubled quotes",
 PRE + '''
func main() {
	quote := tok("quote", ln(one('"')))
	ev := comp.Everything().Everything("text", quote, quote)
	if !ev.HasEscape() {
		fail("the escape is lost")
	}
}
''')
bug("inst-any-element", "G04",
 [(CO + "tokens/token.go", '''	for _, oneElement := range elementsList {
		linesList = append(
''', '''	known := map[string]bool{}
	for _, oneElement := range elementsList {
		if known[oneElement.Name()] {
			continue
		}

		known[oneElement.Name()] = true
		linesList = append(
''')],
 "two different elements of the same name (a value and a token named by its number)", "the second element of a name is dropped",
 PRE + '''
func main() {
	other := tok("97", ln(one('b')))
	t := comp.Token().AnyElement("any", []grammars.Element{comp.Element().FromValue(97), comp.Element().FromToken(other, comp.Cardinality().Once())}, nil)
	want(gram(t), "a", "a")
	want(gram(t), "b", "b")
}
''')
bug("inst-comment-return", "G02",
 [(CH, '''										app.element.FromValue([]byte("\\r")[0]),
''', ''), (CH, '''										"\\r": true,
''', '')],
 "a comment ended by a carriage return alone", "the comment goes on to the next new line",
 PRE + '''
func main() {
	g := notation.Grammar()
	want(g, "@a;b:12\\n//c\\n3", "@a;b:123")
	want(g, "@a;b:12\\n//c\\r3", "@a;b:123")
}
''')
bug("inst-tab-channel", "G02",
 [(CH, '''		app.channelFromValue("tab", []byte("\\t")[0]),
''', ''), (CH, '''		app.channelFromValue("newLine", []byte("\\n")[0]),
''', '''		app.channelFromToken(
			app.token.FromBlock(
				"newLine",
				app.block.FromLines([]grammars.Line{
					app.line.FromElements([]grammars.Element{
						app.element.FromValue([]byte("\\n")[0]),
						app.element.FromToken(
							app.token.AllCharacters("tab", "\\t"),
							app.cardinality.Cardinality(0, nil),
						),
					}),
				}),
				app.suite.Suites(map[string]bool{}),
			),
		),
'''), (CH, '''		app.channelFromValue("space", []byte(" ")[0]),
''', '''		app.channelFromToken(
			app.token.FromBlock(
				"space",
				app.block.FromLines([]grammars.Line{
					app.line.FromElements([]grammars.Element{
						app.element.FromValue([]byte(" ")[0]),
					}),
					app.line.FromElements([]grammars.Element{
						app.element.FromValue([]byte("\\t")[0]),
					}),
				}),
				app.suite.Suites(map[string]bool{}),
			),
		),
'''), (CH, '''		app.channelFromValue("retChar", []byte("\\r")[0]),
''', '''		app.channelFromToken(
			app.token.FromBlock(
				"retChar",
				app.block.FromLines([]grammars.Line{
					app.line.FromElements([]grammars.Element{
						app.element.FromValue([]byte("\\r")[0]),
						app.element.FromValue([]byte("\\n")[0]),
					}),
				}),
				app.suite.Suites(map[string]bool{}),
			),
		),
''')],
 "a carriage return without a new line", "a carriage return on its own is no layout any more",
 PRE + '''
func main() {
	g := notation.Grammar()
	want(g, "@a;\\r\\nb:12", "@a;b:12")
	want(g, "@a;\\rb:12", "@a;b:12")
}
''')
bug("inst-suite-elements", "G01",
 [(G, "				app.component.Element().FromToken(app.delimiterThenSuiteElementToken(), app.component.Cardinality().Cardinality(0, nil)),",
   "				app.component.Element().FromToken(app.delimiterThenSuiteElementToken(), app.component.Cardinality().Cardinality(0, &pMax)),"),
  (G, '''func (app *grammar) suiteBlockToken() grammars.Token {
''', '''func (app *grammar) suiteBlockToken() grammars.Token {
	pMax := uint(9)
''')],
 "a suite with more than 10 composes", "suites of more than 10 composes are refused",
 PRE + '''
func main() {
	g := gram(notation.GrammarToken())
	_ = g
	for _, n := range []int{2, 9, 12} {
		s := "@a;b:#c---valid:x" + strings.Repeat("&y", n) + ";;"
		full, _, ok := parse(g, s)
		if !ok || full != s {
			fail("took %q of %q", full, s)
		}
		t, _, ok := parse(everythingOnly(), s[3:])
		_ = t
		if !ok {
			fail("refused %q", s[3:])
		}
	}
}

// everythingOnly finds the assignment of an everything in the notation
func everythingOnly() grammars.Grammar {
	var found grammars.Token
	var walk func(t grammars.Token)
	walk = func(t grammars.Token) {
		if t.Name() == "everythingAssignment" {
			found = t
		}
		for _, l := range t.Block().Lines() {
			for _, c := range l.Containers() {
				if c.IsElement() && c.Element().Content().IsInstance() && c.Element().Content().Instance().IsToken() {
					walk(c.Element().Content().Instance().Token())
				}
			}
		}
	}
	walk(notation.GrammarToken())
	return gram(found)
}
''')
