#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
import importlib.util
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs_ast.py")).read()
PRE = src.split("PRE = '''", 1)[1].split("'''", 1)[0].replace('\\\\n', '\\n')
APP = "libs/queries/applications/application.go"
TR = "libs/asts/domain/trees/"
QPRE = PRE.replace('''	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)
''', '''	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	query_app "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

func inFn(fn queries.MultiContentFn) queries.Inside {
	f, err := queries.NewContentFnBuilder().Create().WithMulti(fn).Now()
	must(err)
	i, err := queries.NewInsideBuilder().Create().WithFn(f).Now()
	must(err)
	return i
}

// texts gives the bytes of each content
func texts() queries.Inside {
	return inFn(func(list []trees.Content) ([]interface{}, error) {
		out := []interface{}{}
		for _, c := range list {
			out = append(out, string(c.Bytes(false)))
		}
		return out, nil
	})
}

func fetch(list ...queries.Fetcher) queries.Inside {
	fs, err := queries.NewFetchersBuilder().Create().WithList(list).Now()
	must(err)
	i, err := queries.NewInsideBuilder().Create().WithFetchers(fs).Now()
	must(err)
	return i
}

func q(q queries.Query) queries.Fetcher {
	f, err := queries.NewFetcherBuilder().Create().WithQuery(q).Now()
	must(err)
	return f
}

func again(name string) queries.Fetcher {
	f, err := queries.NewFetcherBuilder().Create().WithRecursive(name).Now()
	must(err)
	return f
}

// query joins what its element gives
func query(token, element string, index uint, inside queries.Inside) queries.Query {
	el, err := queries.NewElementBuilder().Create().WithName(element).WithIndex(index).Now()
	must(err)
	tk, err := queries.NewTokenBuilder().Create().WithName(token).WithReverseName("reverse").WithElement(el).Now()
	must(err)
	fn, err := queries.NewQueryFnBuilder().Create().WithMulti(func(list []interface{}) (interface{}, bool, error) {
		s := "("
		for _, i := range list {
			s += fmt.Sprint(i) + " "
		}
		return s + ")", true, nil
	}).Now()
	must(err)
	out, err := queries.NewBuilder().Create().WithToken(tk).WithInside(inside).WithFn(fn).Now()
	must(err)
	return out
}

func run(qr queries.Query, g grammars.Grammar, s string) string {
	_, t, ok := parse(g, s)
	if !ok {
		fail("%q is refused", s)
	}
	out, valid, _, err := query_app.NewApplication().Execute(qr, t)
	if err != nil {
		return "error"
	}
	if !valid {
		return "nothing"
	}
	return fmt.Sprint(out)
}
''')
bug("query-row-order", "Q01",
 [(APP, '''		output = append(output, row...)
	}

	return output, nil
''', '''		rows = append(rows, row)
	}

	for column := range fetchersList {
		for _, oneRow := range rows {
			if column < len(oneRow) {
				output = append(output, oneRow[column])
			}
		}
	}

	return output, nil
'''), (APP, '''	output := []interface{}{}
	fetchers := inside.Fetchers()
''', '''	rows := [][]interface{}{}
	output := []interface{}{}
	fetchers := inside.Fetchers()
''')],
 "an element with several contents and a query with several fetchers",
 "instances come by fetcher instead of by content",
 QPRE + '''
func main() {
	item := tok("item", ln(one('a'), lit('b', 1, -1)))
	g := gram(tok("root", ln(sub(item, 1, -1))))
	qr := query("root", "item", 0, fetch(q(query("item", "a", 0, texts())), q(query("item", "b", 0, texts()))))
	if got := run(qr, g, "ababb"); got != "((a ) (b ) (a ) (b b ) )" {
		fail("the query gives %s", got)
	}
}
''')
bug("query-value-skip", "Q02",
 [(APP, '''			if oneContent.IsValue() {
				continue
			}

			tree := oneContent.Tree()
			if oneFetcher.IsQuery() {
''', '''			if oneContent.IsValue() {
				continue
			}

			tree := oneContent.Tree()
			if len(output) > 0 && oneFetcher.IsQuery() && string(tree.Bytes(true)) == last {
				// the same text gives the same instance:
				row = append(row, output[len(output)-1])
				continue
			}

			last = string(tree.Bytes(true))
			if oneFetcher.IsQuery() {
'''), (APP, '''	output := []interface{}{}
	fetchers := inside.Fetchers()
''', '''	last := ""
	output := []interface{}{}
	fetchers := inside.Fetchers()
''')],
 "two contents in a row with the same text",
 "functions of an inner query are not called for a content with the same text as the one before it",
 QPRE + '''
func main() {
	item := tok("item", ln(one('a')))
	g := gram(tok("root", ln(sub(item, 1, -1))))
	calls := 0
	in := inFn(func(list []trees.Content) ([]interface{}, error) {
		calls++
		return []interface{}{calls}, nil
	})
	run(query("root", "item", 0, fetch(q(query("item", "a", 0, in)))), g, "aaa")
	if calls != 3 {
		fail("the content function was called %d times for 3 contents", calls)
	}
}
''')
bug("query-recursion-missing", "Q03",
 [(APP, '''			str := fmt.Sprintf("the recursive Query's Token (name: %s) could not be found in the previous iterations", recursive)
''', '''			if len(row) > 0 {
				continue
			}

			str := fmt.Sprintf("the recursive Query's Token (name: %s) could not be found in the previous iterations", recursive)
''')],
 "a fetcher of an unknown recursive name behind one that gave an instance",
 "a recursive name of no query is ignored when something was already fetched",
 QPRE + '''
func main() {
	item := tok("item", ln(one('a')))
	g := gram(tok("root", ln(sub(item, 1, -1))))
	qr := query("root", "item", 0, fetch(q(query("item", "a", 0, texts())), again("nowhere")))
	if got := run(qr, g, "aa"); got != "error" {
		fail("a query with an unknown recursive name gives %s", got)
	}
}
''')
bug("query-shared-previous", "Q04",
 [(APP, '''	if previous == nil {
		previous = map[string]queries.Query{}
	}
''', '''	if previous == nil {
		previous = app.previous
	}
'''), (APP, '''type application struct {
''', '''type application struct {
	previous map[string]queries.Query
'''), (APP, '''	out := application{}
''', '''	out := application{
		previous: map[string]queries.Query{},
	}

''')],
 "two executions of an application, at once or one after the other",
 "the queries around a recursion are shared by all executions: they race, and a recursive name finds the query of another execution",
 QPRE + '''
func main() {
	item := tok("item", ln(one('a')))
	g := gram(tok("root", ln(sub(item, 1, -1))))
	_, t, _ := parse(g, "aa")
	app := query_app.NewApplication()
	_, _, _, err := app.Execute(query("root", "item", 0, fetch(q(query("item", "a", 0, texts())))), t)
	must(err)
	_, _, _, err = app.Execute(query("root", "item", 0, fetch(again("item"))), t)
	if err == nil {
		fail("the recursive name of no query around it finds the query of another execution")
	}
}
''')
bug("query-index-name", "Q01",
 [(APP, '''		if oneElement.Grammar().Name() != queryElement.Name() {
			continue
		}

		if queryElement.Index() == cpt {
''', '''		if oneElement.Grammar().Name() != queryElement.Name() {
			if cpt > 0 {
				cpt++
			}

			continue
		}

		if queryElement.Index() == cpt {
''')],
 "an element named twice in a line with another one between",
 "the index counts other elements behind the first one of the name",
 QPRE + '''
func main() {
	g := gram(tok("root", ln(one('a'), one('b'), one('a'))))
	if got := run(query("root", "a", 1, texts()), g, "aba"); got != "(a )" {
		fail("the second a is %s", got)
	}
}
''')
bug("tree-fetch-count", "A11",
 [(TR + "tree.go", '''		if tree != nil || element != nil {
			cpt++
		}
''', '''		if tree != nil || (element != nil && cpt <= 0) {
			cpt++
		}
''')],
 "fetching the third of the elements of a name",
 "elements found are only counted once: an index of 2 or more finds nothing",
 PRE + '''
func main() {
	g := gram(tok("root", ln(lit('a', 1, 1), lit('b', 1, 1), lit('a', 2, 2), lit('b', 1, 1), lit('a', 3, 3))))
	_, t, ok := parse(g, "abaabaaa")
	if !ok {
		fail("refused")
	}
	_, el, err := t.Fetch("a", 2)
	if err != nil || string(el.Bytes(false)) != "aaa" {
		fail("the third element is not found: %v", err)
	}
}
''')
bug("tree-prefix-first", "A02",
 [(TR + "element.go", '''			if includeChannels && value.HasPrefix() {
				output = append(output, value.Prefix().Bytes(includeChannels)...)
			}
''', '''			if includeChannels && value.HasPrefix() {
				for idx, onePrefix := range value.Prefix().List() {
					if idx <= 0 || !onePrefix.HasSuffix() {
						output = append(output, onePrefix.Bytes(len(value.Prefix().List()) > 1)...)
					}
				}
			}
''')],
 "see demo", "x", PRE) if 0 else None
bug("tree-line-surplus", "A13",
 [(TR + "line.go", "			if amount != requestedOccurences {", "			if amount < requestedOccurences {")],
 "a tree built by hand whose compose element holds more than its occurences",
 "a line whose compose has too many contents is successful",
 PRE + '''
func main() {
	ct := compose("c", occ{'a', 2})
	t := tok("root", ln(ct))
	list := []trees.Content{}
	for i := 0; i < 3; i++ {
		v, err := trees.NewValueBuilder().Create().WithContent('a').Now()
		must(err)
		c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
		must(err)
		list = append(list, c)
	}
	cs, err := trees.NewContentsBuilder().Create().WithList(list).Now()
	must(err)
	el, err := trees.NewElementBuilder().Create().WithContents(cs).WithGrammar(ct).Now()
	must(err)
	els, err := trees.NewElementsBuilder().Create().WithList([]trees.Element{el}).Now()
	must(err)
	l, err := trees.NewLineBuilder().Create().WithIndex(0).WithGrammar(t.Block().Lines()[0]).WithElements(els).Now()
	must(err)
	if l.IsSuccessful() {
		fail("a line whose compose holds 3 contents instead of 2 is successful")
	}
}
''')
