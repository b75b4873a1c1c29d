//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	i_applications "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	i_attachments "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	i_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	i_parameters "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	p_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
)

// Builders, by reflection: a table says which parts each builder needs, which
// are optional, which are alternatives, and how the built instance shows them.

const (
	need  = iota // refused without
	maybe        // optional: the instance tells whether it has it
	alt          // one of the alternatives
	mark         // takes no argument
)

type bPart struct {
	set  string // setter
	get  string // path of the getter
	has  string // path of the getter telling whether it is there
	kind int
	// an empty value of this part is as none: it is refused if needed
	empty bool
}

type bSpec struct {
	name  string
	mk    interface{} // constructor
	parts []bPart
}

// req is a part that is needed; names ending with ! are refused when empty.
func req(names ...string) []bPart {
	l := []bPart{}
	for _, n := range names {
		e := strings.HasSuffix(n, "!")
		n = strings.TrimSuffix(n, "!")
		l = append(l, bPart{set: "With" + n, get: n, kind: need, empty: e})
	}
	return l
}

func opts(names ...string) []bPart {
	l := []bPart{}
	for _, n := range names {
		l = append(l, bPart{set: "With" + n, get: n, has: "Has" + n, kind: maybe})
	}
	return l
}

func alts(path string, names ...string) []bPart {
	l := []bPart{}
	for _, n := range names {
		l = append(l, bPart{set: "With" + n, get: path + n, has: path + "Is" + n, kind: alt})
	}
	return l
}

func plus(ls ...[]bPart) []bPart {
	o := []bPart{}
	for _, l := range ls {
		o = append(o, l...)
	}
	return o
}

func commitBuilderOf() references.CommitBuilder { return references.NewCommitBuilder(0) }

var languageBuilders = []bSpec{
	{"grammar value", values.NewBuilder, req("Name!", "Number")},
	{"cardinality", cardinalities.NewBuilder, plus(req("Min"), opts("Max"))},
	{"compose element", grammars.NewComposeElementBuilder, req("Value", "Occurences!")},
	{"compose", grammars.NewComposeBuilder, req("Name!", "List!")},
	{"grammar element", grammars.NewElementBuilder, plus(req("Cardinality"), alts("Content.", "Value", "External", "Instance", "Recursive"))},
	{"container", grammars.NewContainerBuilder, alts("", "Element", "Compose")},
	{"grammar line", grammars.NewLineBuilder, req("Containers!")},
	{"grammar block", grammars.NewBlockBuilder, req("Lines!")},
	{"suite", grammars.NewSuiteBuilder, []bPart{{set: "WithValid", get: "Content", has: "IsValid", kind: alt}, {set: "WithInvalid", get: "Content", has: "!IsValid", kind: alt}}},
	{"suites", grammars.NewSuitesBuilder, req("List!")},
	{"grammar token", grammars.NewTokenBuilder, plus(req("Name!", "Block"), opts("Suites"))},
	{"tokens", grammars.NewTokensBuilder, req("List!")},
	{"everything", grammars.NewEverythingBuilder, plus(req("Name!", "Exception"), opts("Escape"))},
	{"instance", grammars.NewInstanceBuilder, alts("", "Token", "Everything")},
	{"channel condition", grammars.NewChannelConditionBuilder, opts("Previous", "Next")},
	{"channel", grammars.NewChannelBuilder, plus(req("Token"), opts("Condition"))},
	{"channels", grammars.NewChannelsBuilder, req("List!")},
	{"grammar", grammars.NewBuilder, plus(req("Root"), opts("Channels"))},
	{"external", grammars.NewExternalBuilder, req("Name!", "Grammar")},
	{"grammar element", grammars.NewElementBuilder, plus(req("Cardinality"), alts("Content.", "Value", "External", "Instance", "Recursive"))},
	{"container", grammars.NewContainerBuilder, alts("", "Element", "Compose")},
	{"tree value", trees.NewValueBuilder, plus(req("Content"), opts("Prefix"))},
	{"tree content", trees.NewContentBuilder, alts("", "Value", "Tree")},
	{"tree contents", trees.NewContentsBuilder, req("List!")},
	{"tree element", trees.NewElementBuilder, plus(req("Contents"), opts("Grammar"))},
	{"tree elements", trees.NewElementsBuilder, req("List!")},
	{"tree line", trees.NewLineBuilder, plus(req("Index", "Grammar"), opts("Elements"), []bPart{{set: "IsReverse", get: "IsReverse", kind: mark}})},
	{"tree block", trees.NewBlockBuilder, req("Lines!")},
	{"tree", trees.NewTreeBuilder, plus(req("Grammar", "Block"), opts("Suffix", "Remaining"))},
	{"trees", trees.NewBuilder, req("List!")},
	{"tree value", trees.NewValueBuilder, plus(req("Content"), opts("Prefix"))},
	{"tree content", trees.NewContentBuilder, alts("", "Value", "Tree")},
	{"tree contents", trees.NewContentsBuilder, req("List!")},
	{"result", coverages.NewResultBuilder, alts("", "Tree", "Error")},
	{"execution", coverages.NewExecutionBuilder, req("Expectation", "Result")},
	{"executions", coverages.NewExecutionsBuilder, req("List!")},
	{"coverage", coverages.NewCoverageBuilder, req("Token", "Executions")},
	{"coverages", coverages.NewBuilder, req("List!")},
	{"script application", i_applications.NewBuilder, req("Module", "Name")},
	{"script module", i_modules.NewBuilder, req("Index", "Name")},
	{"script parameter", i_parameters.NewBuilder, plus(req("Name"), []bPart{{set: "IsInput", get: "IsInput", kind: mark}})},
	{"script variable", i_attachments.NewVariableBuilder, req("Current", "Target")},
	{"script attachment", i_attachments.NewBuilder, req("Variable", "Application")},
	{"script value", instructions.NewValueBuilder, alts("", "Variable", "Constant", "Instructions", "Execution")},
	{"script assignment", instructions.NewAssignmentBuilder, req("Variable", "Value")},
	{"script instruction", instructions.NewInstructionBuilder, alts("", "Module", "Application", "Parameter", "Assignment", "Attachment", "Execution")},
	{"script instructions", instructions.NewBuilder, plus(req("List!"), opts("Remaining"))},
	{"script value", instructions.NewValueBuilder, alts("", "Variable", "Constant", "Instructions", "Execution")},
	{"module", p_modules.NewModuleBuilder, req("Index", "Func")},
	{"modules", p_modules.NewBuilder, req("List!")},
	{"application", programs.NewApplicationBuilder, plus(req("Index", "Module"), opts("Attachments"))},
	{"value", programs.NewValueBuilder, alts("", "Input", "Constant", "Execution", "Program")},
	{"attachment", programs.NewAttachmentBuilder, req("Value", "Local")},
	{"attachments", programs.NewAttachmentsBuilder, req("List!")},
	{"application", programs.NewApplicationBuilder, plus(req("Index", "Module"), opts("Attachments"))},
	{"instruction", programs.NewInstructionBuilder, alts("", "Value", "Execution")},
	{"instructions", programs.NewInstructionsBuilder, req("List!")},
	{"program", programs.NewBuilder, plus(req("Instructions"), opts("Outputs"))},
	{"value", programs.NewValueBuilder, alts("", "Input", "Constant", "Execution", "Program")},
	{"query element", queries.NewElementBuilder, req("Name!", "Index")},
	{"query token", queries.NewTokenBuilder, plus(req("Name!", "ReverseName!", "Element"), opts("Content"))},
	{"content function", queries.NewContentFnBuilder, alts("", "Single", "Multi")},
	{"query function", queries.NewQueryFnBuilder, alts("", "Single", "Multi")},
	{"inside", queries.NewInsideBuilder, alts("", "Fn", "Fetchers")},
	{"query", queries.NewBuilder, req("Token", "Inside", "Fn")},
	{"fetcher", queries.NewFetcherBuilder, alts("", "Recursive", "Query")},
	{"fetchers", queries.NewFetchersBuilder, req("List!")},
	{"inside", queries.NewInsideBuilder, alts("", "Fn", "Fetchers")},
}

var dataBuilders = []bSpec{
	{"leaf", hashtrees.NewLeafBuilder, plus(req("Head"), opts("Parent"))},
	{"parent leaf", hashtrees.NewParentLeafBuilder, req("Left", "Right")},
	{"leaf", hashtrees.NewLeafBuilder, plus(req("Head"), opts("Parent"))},
	{"leaves", hashtrees.NewLeavesBuilder, []bPart{{set: "WithList", get: "Leaves", kind: need, empty: true}}},
	{"compact", hashtrees.NewCompactBuilder, req("Head", "Leaves")},
	{"hash tree", hashtrees.NewBuilder, req("Head", "Parent")},
	{"content", contents.NewContentBuilder, req("Hash", "Data", "Kind")},
	{"contents", contents.NewBuilder, req("List!")},
	{"pointer", references.NewPointerBuilder, plus(req("Length!"), []bPart{{set: "From", get: "From", kind: need}})},
	{"content key", references.NewContentKeyBuilder, req("Hash", "Kind", "Content", "Commit")},
	{"content keys", references.NewContentKeysBuilder, req("List!")},
	{"commit", commitBuilderOf, plus(req("Values"), []bPart{{set: "CreatedOn", get: "CreatedOn", kind: need}}, opts("Parent"), []bPart{{set: "WithProof", get: "Mine.Proof", has: "HasMine", kind: maybe}})},
	{"commits", references.NewCommitsBuilder, req("List!")},
	{"reference", references.NewBuilder, req("ContentKeys", "Commits")},
}

// ------------------------------------------------------------------ values

type bPool struct {
	r    *rand.Rand
	pool map[reflect.Type][]reflect.Value
	n    int
}

func (p *bPool) value(t reflect.Type) (reflect.Value, bool) {
	p.n++
	switch {
	case t == reflect.TypeOf(hash.Hash{}):
		h, err := hash.NewAdapter().FromBytes([]byte(fmt.Sprint(p.n, p.r.Int63())))
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(*h), true
	case t == reflect.TypeOf(&big.Int{}):
		return reflect.ValueOf(big.NewInt(p.r.Int63n(1 << uint(p.r.Intn(60)+1)))), true
	case t == reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(time.Unix(p.r.Int63n(4e9)-1e9, p.r.Int63n(1e9)).UTC()), true
	case t == reflect.TypeOf(p_modules.ExecuteFn(nil)):
		n := p.n
		return reflect.ValueOf(p_modules.ExecuteFn(func(map[uint]interface{}) (interface{}, error) { return n, nil })), true
	case t == reflect.TypeOf(queries.SingleQueryFn(nil)):
		n := p.n
		return reflect.ValueOf(queries.SingleQueryFn(func(interface{}) (interface{}, bool, error) { return n, true, nil })), true
	case t == reflect.TypeOf(queries.MultiQueryFn(nil)):
		n := p.n
		return reflect.ValueOf(queries.MultiQueryFn(func([]interface{}) (interface{}, bool, error) { return n, true, nil })), true
	case t == reflect.TypeOf(queries.SingleContentFn(nil)):
		n := p.n
		return reflect.ValueOf(queries.SingleContentFn(func(trees.Content) ([]interface{}, error) { return []interface{}{n}, nil })), true
	case t == reflect.TypeOf(queries.MultiContentFn(nil)):
		n := p.n
		return reflect.ValueOf(queries.MultiContentFn(func([]trees.Content) ([]interface{}, error) { return []interface{}{n}, nil })), true
	}
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(fmt.Sprintf("n%d", p.n)), true
	case reflect.Uint:
		return reflect.ValueOf([]uint{0, 0, 1, 2, uint(p.r.Intn(300)), uint(p.r.Int63())}[p.r.Intn(6)]), true
	case reflect.Uint8:
		return reflect.ValueOf(byte(p.r.Intn(2) * p.r.Intn(256))), true
	case reflect.Slice:
		n := 1 + p.r.Intn(4)
		s := reflect.MakeSlice(t, 0, n+p.r.Intn(3))
		for i := 0; i < n; i++ {
			v, ok := p.value(t.Elem())
			if !ok {
				return v, false
			}
			s = reflect.Append(s, v)
		}
		return s, true
	}
	l := p.pool[t]
	if len(l) == 0 {
		return reflect.Value{}, false
	}
	return l[p.r.Intn(len(l))], true
}

func bSame(want, got reflect.Value) bool {
	if got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	if want.Kind() == reflect.Interface {
		want = want.Elem()
	}
	if !got.IsValid() || !want.IsValid() {
		return got.IsValid() == want.IsValid()
	}
	if got.Kind() == reflect.Ptr && want.Kind() != reflect.Ptr {
		if got.IsNil() {
			return false
		}
		got = got.Elem()
	}
	if got.Type() != want.Type() {
		return false
	}
	if t, ok := want.Interface().(time.Time); ok {
		return t.Equal(got.Interface().(time.Time))
	}
	if t, ok := want.Interface().(*big.Int); ok {
		g := got.Interface().(*big.Int)
		return g != nil && g.Cmp(t) == 0
	}
	switch want.Kind() {
	case reflect.Slice:
		if b, ok := want.Interface().([]byte); ok {
			return bytes.Equal(b, got.Bytes())
		}
		if want.Len() != got.Len() {
			return false
		}
		for i := 0; i < want.Len(); i++ {
			if !bSame(want.Index(i), got.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Func:
		return fmt.Sprint(callFn(want)) == fmt.Sprint(callFn(got))
	case reflect.Ptr:
		return want.Pointer() == got.Pointer()
	}
	return reflect.DeepEqual(want.Interface(), got.Interface())
}

func callFn(f reflect.Value) []interface{} {
	if f.IsNil() {
		return nil
	}
	in := []reflect.Value{}
	for i := 0; i < f.Type().NumIn(); i++ {
		in = append(in, reflect.Zero(f.Type().In(i)))
	}
	out := []interface{}{}
	for _, v := range f.Call(in) {
		out = append(out, v.Interface())
	}
	return out
}

func bGet(ins reflect.Value, path string) reflect.Value {
	for _, n := range strings.Split(path, ".") {
		if ins.Kind() == reflect.Interface && ins.IsNil() {
			return ins
		}
		ins = ins.MethodByName(n).Call(nil)[0]
	}
	return ins
}

func bHas(ins reflect.Value, path string) bool {
	not := strings.HasPrefix(path, "!")
	return bGet(ins, strings.TrimPrefix(path, "!")).Bool() != not
}

func bEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String, reflect.Slice:
		return v.Len() == 0
	case reflect.Uint:
		return v.Uint() == 0
	}
	return false
}

// -------------------------------------------------------------------- model

type bHandle struct {
	b   reflect.Value
	set map[string]reflect.Value
	log []string
}

type bBuilt struct {
	spec *bSpec
	ins  reflect.Value
	set  map[string]reflect.Value
	log  string
}

func (s *bSpec) verdict(set map[string]reflect.Value) (ok bool, alts int) {
	hasAlt := false
	for _, p := range s.parts {
		v, is := set[p.set]
		switch p.kind {
		case need:
			if !is || (p.empty && bEmpty(v)) {
				return false, 0
			}
		case alt:
			hasAlt = true
			if is {
				alts++
			}
		}
	}
	return !hasAlt || alts > 0, alts
}

// check compares an instance with the parts it was built from.
func (x *bBuilt) check(c *Ctx, when string) {
	_, n := x.spec.verdict(x.set)
	shown := 0
	for _, p := range x.spec.parts {
		want, set := x.set[p.set]
		if p.kind == mark {
			if got := bGet(x.ins, p.get).Bool(); got != set {
				c.Violate("flag:"+x.spec.name+"."+p.get, "%s: %s of the %s gives %v\n%s", when, p.get, x.spec.name, got, x.log)
			}
			continue
		}
		has := set
		if p.has != "" {
			has = bHas(x.ins, p.has)
			if has && p.kind == alt {
				shown++
			}
			if has != set && !(p.kind == alt && n > 1) {
				c.Violate("has:"+x.spec.name+"."+p.get, "%s: %s of the %s gives %v\n%s", when, p.has, x.spec.name, has, x.log)
			}
			if has && !set {
				c.Violate("has:"+x.spec.name+"."+p.get, "%s: the %s has a %s that was not given\n%s", when, x.spec.name, p.get, x.log)
			}
		}
		if !has {
			continue
		}
		if got := bGet(x.ins, p.get); !bSame(want, got) {
			c.Violate("part:"+x.spec.name+"."+p.get, "%s: %s of the %s is not what was given: %v, want %v\n%s", when, p.get, x.spec.name, got, want, x.log)
		}
		c.Count("parts read back", 1)
	}
	if n > 0 && shown != 1 {
		c.Violate("alternatives:"+x.spec.name, "%s: the %s shows %d of its alternatives\n%s", when, x.spec.name, shown, x.log)
	}
}

func builderCase(specs []bSpec) func(c *Ctx) {
	return func(c *Ctx) {
		pool := &bPool{r: c.R, pool: map[reflect.Type][]reflect.Value{}}
		built := []*bBuilt{}
		for i := range specs {
			s := &specs[i]
			var first reflect.Value
			first = reflect.ValueOf(s.mk).Call(nil)[0]
			hs := []*bHandle{{b: first, set: map[string]reflect.Value{}, log: []string{"new"}}}
			now := func(h *bHandle) {
				want, _ := s.verdict(h.set)
				log := strings.Join(h.log, " ")
				var out []reflect.Value
				if p, msg := Protect(func() { out = h.b.MethodByName("Now").Call(nil) }); p {
					c.Violate("panic:"+s.name, "building a %s panicked: %s\n%s", s.name, msg, log)
				}
				err, _ := out[1].Interface().(error)
				got := err == nil
				if got != want {
					c.Violate("verdict:"+s.name, "building a %s gives the error %v\n%s", s.name, err, log)
				}
				if got == (out[0].IsNil()) {
					c.Violate("result:"+s.name, "building a %s gives %v and the error %v\n%s", s.name, out[0], err, log)
				}
				keys := []string{}
				for _, p := range s.parts {
					if _, ok := h.set[p.set]; ok {
						keys = append(keys, p.set)
					}
				}
				c.Distinct(s.name + strings.Join(keys, ",") + fmt.Sprint(len(h.log)))
				if !got {
					c.Count("incomplete parts refused", 1)
					return
				}
				set := map[string]reflect.Value{}
				for k, v := range h.set {
					set[k] = v
				}
				x := &bBuilt{spec: s, ins: out[0], set: set, log: log}
				x.check(c, "once built")
				built = append(built, x)
				t := out[0].Type()
				pool.pool[t] = append(pool.pool[t], out[0])
				c.Count("instances built", 1)
				c.Sample("%s: %s", s.name, log)
			}
			give := func(h *bHandle, p bPart, empty bool) bool {
				m := h.b.MethodByName(p.set)
				args := []reflect.Value{}
				v := reflect.ValueOf(true)
				if p.kind != mark {
					t := m.Type().In(0)
					var ok bool
					if empty {
						v = reflect.Zero(t)
						if t.Kind() == reflect.Slice {
							v = reflect.MakeSlice(t, 0, 0)
						}
					} else if v, ok = pool.value(t); !ok {
						return false
					} else if p.kind == alt || p.kind == maybe {
						if bEmpty(v) && t.Kind() != reflect.Uint {
							return false
						}
					}
					args = append(args, v)
				}
				var out []reflect.Value
				if pn, msg := Protect(func() { out = m.Call(args) }); pn {
					c.Violate("panic:"+s.name, "%s of the builder of a %s panicked: %s\n%s", p.set, s.name, msg, strings.Join(h.log, " "))
				}
				h.b = out[0]
				h.set[p.set] = v
				h.log = append(h.log, p.set+map[bool]string{true: "(empty)"}[empty])
				return true
			}
			create := func(h *bHandle) *bHandle {
				n := &bHandle{b: h.b.MethodByName("Create").Call(nil)[0], set: map[string]reflect.Value{}, log: append(append([]string{}, h.log...), "Create")}
				hs = append(hs, n)
				return n
			}
			// every subset of the parts, once in a while
			if c.R.Intn(3) == 0 {
				for m := 0; m < 1<<len(s.parts) && m < 128; m++ {
					h := create(hs[c.R.Intn(len(hs))])
					for k, p := range s.parts {
						if m>>k&1 == 1 {
							give(h, p, false)
						}
					}
					now(h)
					if len(hs) > 8 {
						hs = hs[len(hs)-8:]
					}
				}
			}
			// then a history on several handles
			for n := 6 + c.R.Intn(14); n > 0; n-- {
				h := hs[c.R.Intn(len(hs))]
				switch k := c.R.Intn(10); {
				case k < 2:
					create(h)
				case k < 6:
					p := s.parts[c.R.Intn(len(s.parts))]
					give(h, p, p.empty && c.R.Intn(6) == 0)
				case k < 8:
					for _, p := range s.parts {
						if p.kind == need && (c.R.Intn(8) > 0) {
							if _, ok := h.set[p.set]; !ok || coin(c.R) {
								give(h, p, false)
							}
						}
					}
				default:
					now(h)
				}
			}
			for _, h := range hs {
				now(h)
			}
			// one complete of each, for those that need it
			h := create(hs[c.R.Intn(len(hs))])
			one := false
			for _, k := range c.R.Perm(len(s.parts)) {
				p := s.parts[k]
				if p.kind == need || (p.kind == alt && !one) {
					for tries := 0; tries < 20; tries++ {
						if !give(h, p, false) {
							if p.kind == alt {
								break
							}
							panic(errors.New("harness: nothing to give to " + s.name + "." + p.set))
						}
						one = one || p.kind == alt
						if !p.empty || !bEmpty(h.set[p.set]) {
							break
						}
					}
				}
			}
			now(h)
		}
		for _, x := range built {
			x.check(c, "after everything else")
		}
	}
}

// ------------------------------------------------------------------- R01

// nearHash differs from the hash in one bit
func nearHash(r *rand.Rand, h hash.Hash) hash.Hash {
	b := append([]byte{}, h...)
	b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
	return hash.Hash(b)
}

// r01 builds collections and compares every lookup with the list given.
func r01(c *Ctx) {
	r := c.R
	p := &bPool{r: r, pool: map[reflect.Type][]reflect.Value{}}
	must := func(ins interface{}, err error) interface{} {
		if err != nil {
			c.Violate("build", "a collection or one of its parts cannot be built: %v", err)
		}
		return ins
	}
	newHash := func() hash.Hash {
		v, _ := p.value(reflect.TypeOf(hash.Hash{}))
		return v.Interface().(hash.Hash)
	}
	// content keys
	n := 1 + r.Intn(1+r.Intn(40))
	if c.Index%300 == 150 {
		n = []int{250, 1020, 2040, 4090, 6000}[r.Intn(5)] + r.Intn(20)
		c.Count("lists of hundreds or thousands of keys", 1)
	}
	keys := []references.ContentKey{}
	end := uint64(0)
	kinds := 1 + r.Intn(4)
	same := []hash.Hash{newHash(), newHash()}
	for i := 0; i < n; i++ {
		from, length := uint64(r.Intn(1000)), uint64(1+r.Intn(1000))
		if r.Intn(10) == 0 {
			from = uint64(r.Int63n(1 << 40))
		}
		if from+length > end {
			end = from + length
		}
		ptr := must(references.NewPointerBuilder().Create().From(uint(from)).WithLength(uint(length)).Now()).(references.Pointer)
		h := newHash()
		if r.Intn(8) == 0 {
			h = same[r.Intn(2)]
		}
		if i > 0 && r.Intn(8) == 0 {
			h = nearHash(r, keys[r.Intn(i)].Hash())
		}
		keys = append(keys, must(references.NewContentKeyBuilder().Create().WithHash(h).WithKind(uint(r.Intn(kinds))).WithContent(ptr).WithCommit(newHash()).Now()).(references.ContentKey))
	}
	ck := must(references.NewContentKeysBuilder().Create().WithList(append([]references.ContentKey{}, keys...)).Now()).(references.ContentKeys)
	if coin(r) {
		ad := references.NewContentKeysAdapter()
		b, err := ad.ToContent(ck)
		must(nil, err)
		ck2, err := ad.ToContentKeys(b)
		must(nil, err)
		ck = ck2
		keys = ck2.List()
		if len(keys) != n {
			c.Violate("keys-list", "%d keys are read back as %d", n, len(keys))
		}
	}
	if uint64(ck.Next()) != end {
		c.Violate("keys-next", "the end of the content is %d, want %d", ck.Next(), end)
	}
	total := 0
	for k := uint(0); k <= uint(kinds); k++ {
		want := []references.ContentKey{}
		for _, x := range keys {
			if x.Kind() == k {
				want = append(want, x)
			}
		}
		got := ck.ListByKind(k)
		total += len(got)
		if len(got) != len(want) {
			c.Violate("keys-kind", "%d keys are listed for the kind %d, want %d", len(got), k, len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				c.Violate("keys-kind", "the key %d of the kind %d is not the one given", i, k)
			}
		}
	}
	if total != n {
		c.Violate("keys-kind", "%d keys are listed by kind of %d", total, n)
	}
	for i, x := range keys {
		if n > 200 && i < n-3 && r.Intn(n) > 100 {
			continue
		}
		got, err := ck.Fetch(x.Hash())
		if err != nil || got == nil || !got.Hash().Compare(x.Hash()) {
			c.Violate("keys-fetch", "the key %d of %d cannot be fetched: %v", i, n, err)
		}
		in, count := false, 0
		for _, y := range keys {
			if y.Hash().Compare(x.Hash()) {
				count++
				in = in || y == got
			}
		}
		if !in {
			c.Violate("keys-fetch", "the key %d of %d (%d with its hash) is fetched as another", i, n, count)
		}
		c.Count("keys fetched", 1)
	}
	for i, h := range []hash.Hash{newHash(), nearHash(r, keys[r.Intn(n)].Hash()), nearHash(r, keys[r.Intn(n)].Hash())} {
		known := false
		for _, y := range keys {
			known = known || y.Hash().Compare(h)
		}
		if got, err := ck.Fetch(h); !known && (err == nil || got != nil) {
			c.Violate("keys-absent", "fetching an absent key (%d) gives %v and the error %v", i, got, err)
		}
	}
	// commits
	n = 1 + r.Intn(1+r.Intn(12))
	if c.Index%300 == 151 {
		n = []int{250, 520, 1030}[r.Intn(3)] + r.Intn(20)
	}
	commits := []references.Commit{}
	for i := 0; i < n; i++ {
		tree := must(hashtrees.NewBuilder().Create().WithBlocks([][]byte{newHash().Bytes()}).Now()).(hashtrees.HashTree)
		b := commitBuilderOf().Create().WithValues(tree).CreatedOn(time.Unix(r.Int63n(4e9), r.Int63n(1e9)))
		if coin(r) {
			b.WithParent(newHash())
		}
		commits = append(commits, must(b.Now()).(references.Commit))
	}
	cs := must(references.NewCommitsBuilder().Create().WithList(append([]references.Commit{}, commits...)).Now()).(references.Commits)
	for i, x := range cs.List() {
		if i >= n || x != commits[i] {
			c.Violate("commits-list", "the commit %d is not the one given", i)
		}
	}
	if len(cs.List()) != n || cs.Latest() != commits[n-1] {
		c.Violate("commits-latest", "%d commits are listed of %d, the latest is not the last", len(cs.List()), n)
	}
	for i, x := range commits {
		if got, err := cs.Fetch(x.Hash()); err != nil || got != x {
			c.Violate("commits-fetch", "the commit %d of %d is fetched as another: %v", i, n, err)
		}
		c.Count("commits fetched", 1)
	}
	for i, h := range []hash.Hash{newHash(), nearHash(r, commits[r.Intn(n)].Hash())} {
		if got, err := cs.Fetch(h); err == nil || got != nil {
			c.Violate("commits-absent", "fetching an absent commit (%d) gives %v and the error %v", i, got, err)
		}
	}
	// modules
	n = 1 + r.Intn(1+r.Intn(20))
	if c.Index%300 == 152 {
		n = []int{250, 520, 1030}[r.Intn(3)] + r.Intn(20)
	}
	idx := map[uint]int{}
	mods := []p_modules.Module{}
	for i := 0; i < n; i++ {
		at := uint(r.Intn(30))
		if r.Intn(10) == 0 {
			at = uint(r.Uint64())
		}
		if _, ok := idx[at]; ok {
			continue
		}
		idx[at] = len(mods)
		k := at
		mods = append(mods, must(p_modules.NewModuleBuilder().Create().WithIndex(at).WithFunc(func(map[uint]interface{}) (interface{}, error) { return k, nil }).Now()).(p_modules.Module))
	}
	ms := must(p_modules.NewBuilder().Create().WithList(mods).Now()).(p_modules.Modules)
	for at := uint(0); at < 31; at++ {
		i, known := idx[at]
		got, err := ms.Fetch(at)
		if (err == nil) != known || (known && got != mods[i]) || (!known && got != nil) {
			c.Violate("modules-fetch", "fetching the module %d (known: %v) gives %v and the error %v", at, known, got, err)
		}
		c.Count("modules fetched", 1)
	}
	// leaves
	all := []hashtrees.Leaf{}
	var merged hashtrees.Leaves
	for k := 1 + r.Intn(4); k > 0; k-- {
		l := []hashtrees.Leaf{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			if len(all) > 0 && r.Intn(4) == 0 { // one of them again
				one := all[len(all)-1-r.Intn(len(all))*r.Intn(2)]
				l = append(l, one)
				continue
			}
			l = append(l, must(hashtrees.NewLeafBuilder().Create().WithHead(newHash()).Now()).(hashtrees.Leaf))
		}
		all = append(all, l...)
		ins := must(hashtrees.NewLeavesBuilder().Create().WithList(l).Now()).(hashtrees.Leaves)
		if merged == nil {
			merged = ins
		} else {
			merged = merged.Merge(ins)
			if got := ins.Leaves(); len(got) != len(l) {
				c.Violate("leaves-merge", "merging %d leaves leaves %d of them", len(l), len(got))
			}
		}
	}
	if r.Intn(4) == 0 { // with itself
		merged = merged.Merge(merged)
		all = append(all, all...)
	}
	got := merged.Leaves()
	if len(got) != len(all) {
		c.Violate("leaves-merge", "%d leaves are merged into %d", len(all), len(got))
	}
	for i := range got {
		if !got[i].Head().Compare(all[i].Head()) {
			c.Violate("leaves-merge", "the merged leaf %d is not the one given", i)
		}
	}
	// the list is the caller's
	for i := range got {
		got[i] = all[0]
	}
	_ = append(got, all[0])
	for i, x := range merged.Leaves() {
		if i >= len(all) || !x.Head().Compare(all[i].Head()) {
			c.Violate("leaves-list", "changing the list of the leaves that was given changed the leaves")
		}
	}
	c.Count("leaves merged", len(all))
	c.Distinct(fmt.Sprint(len(keys), kinds, end, len(commits), len(mods), len(all)))
	c.Sample("%d keys of %d kinds ending at %d, %d commits, %d modules, %d leaves", len(keys), kinds, end, len(commits), len(mods), len(all))
}

func init() {
	cases := func(quick, thorough int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return thorough
			}
			return quick
		}
	}
	const gen = "Random histories on several handles of each builder: create, give parts (again, or empty), build; every subset of the parts; everything built before is read back at the end. A distinct case is a distinct set of given parts of a builder with the length of its history."
	register(&Prop{ID: "B01", Rule: gen, Cases: cases(600, 20000), Run: builderCase(languageBuilders)})
	register(&Prop{ID: "B02", Rule: gen, Cases: cases(1200, 40000), Run: builderCase(dataBuilders)})
	register(&Prop{ID: "R01", Rule: "Random content keys (some with the same hash, built or read back from their bytes), commits, modules and leaves; every lookup is compared with the list. A distinct case is a distinct set of sizes.", Cases: cases(3000, 100000), Run: r01})
}
